"""C21: when capacity runs out, the least valuable item goes.

The queue is a min-max heap, the link table a sorted array.  Every function that rearranges them is interpreted abstractly, loop bodies as one
segment each; what a path does (which places are exchanged, where the loop goes on, what is returned) is compared with a decision table over the
situations that matter: which of the compared priorities is larger, on which kind of level, whether children exist, whether there is room."""
import itertools
from ..core import *
from ..models import Ev, compatible

SELECT = ('smallestChild', 'smallestGrandChild', 'isOnMaxLevel')
INDEX = ('parent', 'grandparent', 'leftChild', 'leftGrandChild')
MOVES = ('swap', 'trickleDown', 'bubbleUp')


class Track:
    """records, per segment (function entry to loop, loop body, loop to return), what happens to the items of the queue given as argument 0"""

    def __init__(self, ctx, fn, onseg, calls=()):
        self.ctx, self.fn, self.onseg, self.calls = ctx, fn, onseg, set(calls)
        f = ctx.prog.funcs[fn]
        self.f = f
        self.A = {v.split(':')[1]: ('arg', fn, k, v.split(':')[1]) for k, v in enumerate(f.params)}
        self.args = [('arg', fn, k, v.split(':')[1]) for k, v in enumerate(f.params)]
        self.Q = self.args[0]
        self.itemspath = ('fld', ('d', self.Q), 'items')

    # -- terms
    def isitems(self, t):
        return t[0] == 'ld' and t[1] == self.itemspath

    def slot(self, p):
        if p[0] == 'idx' and p[1][0] == 'd' and self.isitems(p[1][1]):
            return p[2]
        if p[0] == 'd' and p[1][0] == 'b' and p[1][1] == '+':
            for a, b in ((p[1][2], p[1][3]), (p[1][3], p[1][2])):
                if self.isitems(a):
                    return b
        if p[0] == 'd' and self.isitems(p[1]):
            return ('c', 0)
        return None

    def item(self, v):
        """(index term, epoch, field) of a value read from the items"""
        if v[0] == 'ld':
            s = self.slot(v[1])
            if s is not None:
                return s, v[2], None
            if v[1][0] == 'fld':
                s = self.slot(v[1][1])
                if s is not None:
                    return s, v[2], v[1][2]
        if v[0] == 'fld':
            r = self.item(v[1])
            if r and r[2] is None:
                return r[0], r[1], v[2]
        return None

    # -- marks
    def seq(self, st):
        for a in st.facts:
            if a[:2] == ('mark', 'seq'):
                return a[2]
        return ()

    def add(self, e, st, ev):
        self.see(e, st)
        s = self.seq(st)
        st.facts.pop(('mark', 'seq', s), None)
        st.facts[('mark', 'seq', s + (ev,))] = True

    def see(self, e, st):
        base = ('idx', ('d', ('ld', self.itemspath, ())), ('c', 123457))
        n = len(self.seq(st))
        for p in (('fld', base, 'priority'), ('fld', base, 'address'), base):
            v = e.read(st, p)
            if v[0] == 'ld' and not any(a[:3] == ('mark', 'at', v[2]) for a in st.facts):
                st.facts[('mark', 'at', v[2], n)] = True

    def time(self, st, ep):
        for a in st.facts:
            if a[:3] == ('mark', 'at', ep):
                return a[3]
        if ep and any(x[0] == ('Item', 'priority') or x[0] == ('Item', 'address') for x in ep):
            want = dict(ep)
            for a in st.facts:
                if a[:2] == ('mark', 'at') and a[2] and dict(a[2]) and all(want.get(k) == v for k, v in a[2] if k[0] == 'Item'):
                    return a[3]
        return None

    def reset(self, st):
        for a in [a for a in st.facts if a[:2] in (('mark', 'seq'), ('mark', 'at'))]:
            del st.facts[a]

    # -- hooks
    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def on_branch(self, e, st, f, ins, v, c):
        self.see(e, st)

    def on_call(self, e, st, f, ins, name, vals, c):
        self.see(e, st)
        if name in self.calls or (name in MOVES):
            if vals and vals[0] == self.Q:
                self.add(e, st, ('call', name, tuple(vals[1:]), ins.id))
            else:
                self.add(e, st, ('call', name, tuple(vals), ins.id))

    def on_store(self, e, st, f, ins, path, val, c):
        self.see(e, st)
        s = self.slot(path)
        if s is not None:
            self.add(e, st, ('set', s, None, val))
            return
        if path[0] == 'fld':
            s = self.slot(path[1])
            if s is not None:
                self.add(e, st, ('set', s, path[2], val))
                return
        if path == ('fld', ('d', self.Q), 'itemsAmount'):
            self.add(e, st, ('amount', val))
        elif path[0] == 'd' and path[1] in self.args[1:]:
            self.add(e, st, ('out', path[1], val))
        elif path[0] == 'fld' and root_of(path)[0] != 'v':
            self.add(e, st, ('other', show(path)))

    def on_enter(self, e, st, f, head, body, c):
        if f.name == self.fn:
            self.see(e, st)
            self.onseg(self, e, st, f, 'enter', head)
            self.reset(st)
            mod = {i.a for n in body for i in (f.ins[n],) if i.k in ('set', 'call') and i.a is not None}
            for q, x in st.env.items():
                # bounds computed before the loop stay apart
                if q[0] == 'v' and q[1] in e.cfg_info(f)[4][head] and q not in mod and x[0] not in ('arg', 'phi', 'c'):
                    st.facts[('mark', 'fixed', q, x)] = True

    def on_backedge(self, e, st, f, ins, body, c, live):
        if f.name == self.fn:
            self.see(e, st)
            self.onseg(self, e, st, f, 'back', ins.succ[0] if len(ins.succ) == 1 else None)
            self.reset(st)

    def on_ret(self, e, st, f, ins, v, c):
        if f.name == self.fn:
            self.see(e, st)
            self.onseg(self, e, st, f, 'ret', v)

    def run(self, functional=SELECT, K=400):
        e = Engine(self.ctx.prog, self.ctx.summ, self.ctx.known, K=K, hooks=self, relevant=lambda a: True, functional=set(functional), inline=set(INDEX))
        e.run(self.fn)


class Sit:
    """one situation: representative numbers for the terms, and the original content of the places"""

    def __init__(self, tr, st, base, ranks=None, calls=None, phi=None):
        self.tr, self.st, self.base, self.ranks, self.calls, self.phi = tr, st, base, ranks or {}, calls or {}, phi or {}
        self.ev = Ev(self.leaf)

    def leaf(self, t):
        if t in self.base:
            return self.base[t]
        k = t[0]
        if k == 'ld' and t[1][0] == 'fld' and t[1][1] == ('d', self.tr.Q) and t[1][2] in ('itemsAmount', 'maxElements'):
            if t[1][2] == 'itemsAmount':
                return self.base.get('n2' if t[2] and 'n2' in self.base else 'n')
            return self.base.get('max')
        if k == 'call' and t[1] in self.calls:
            a = [self.ev(x) for x in t[2][1:]] if t[2] and t[2][0][0] == '*' or (t[2] and t[2][0] == self.tr.Q) else [self.ev(x) for x in t[2]]
            return self.calls[t[1]](*a) if None not in a else None
        if k == 'phi':
            r = self.phi.get(t[2])
            return r if not isinstance(r, tuple) else None
        it = self.tr.item(t)
        if it and it[2] == 'priority':
            o = self.content(it[0], it[1])
            return None if o is None else self.ranks.get(o)
        if it is None and k == 'fld' and t[2] == 'priority' and t[1][0] == 'phi':
            r = self.phi.get(t[1][2])
            if isinstance(r, tuple):
                return self.ranks.get(r[1])
        return None

    def content(self, x, ep=None, n=None):
        """which item (named by its place at the start of the segment) is at place x at that time"""
        x = self.ev(x) if isinstance(x, tuple) else x
        if x is None:
            return None
        n = self.tr.time(self.st, ep) if n is None else n
        if n is None:
            return None
        m = self.perm(n)
        return None if m is None else m.get(x, x)

    def perm(self, n=None):
        seq = self.tr.seq(self.st)
        m = {}
        for ev in seq[:len(seq) if n is None else n]:
            if ev[0] == 'call' and ev[1] == 'swap':
                a, b = self.ev(ev[2][0]), self.ev(ev[2][1])
                if a is None or b is None:
                    return None
                m[a], m[b] = m.get(b, b), m.get(a, a)
            elif ev[0] == 'set' and ev[2] is None:
                it = self.tr.item(ev[3])
                a = self.ev(ev[1])
                if not it or it[2] or a is None:
                    return None
                o = self.content(it[0], it[1])
                if o is None:
                    return None
                m = dict(m)
                m[a] = o
            elif ev[0] == 'set':
                return None
        return m

    def feasible(self):
        return compatible(self.ev, self.st.facts)


class Out:
    def __init__(self, rep, ctx):
        self.rep, self.ctx = rep, ctx
        self.paths = 0
        self.bad = {}
        self.n = {}

    def __call__(self, f, rule, why=None):
        self.n[(rule, f.name)] = self.n.get((rule, f.name), 0) + 1
        if why:
            self.bad.setdefault((rule, f.name), {}).setdefault(why, f'{f.file}:{f.line} ({f.name})')

    def flush(self):
        for (rule, fn), n in self.n.items():
            f = self.ctx.prog.funcs[fn]
            b = self.bad.get((rule, fn), {})
            for why, where in list(b.items())[:4]:
                self.rep.ob(False, rule, where, why, key=f'{rule} {fn}')
            if not b:
                self.rep.ob(True, rule, f'{f.file}:{f.line} ({fn})', f'{n} path/situation pairs compared with the decision table')


# ---------------------------------------------------------------- index arithmetic

def index_helpers(ctx, out):
    p = ctx.prog
    spec = {'parent': lambda i: (i + 1) // 2 - 1, 'grandparent': lambda i: (i + 1) // 4 - 1, 'leftChild': lambda i: 2 * i + 1, 'leftGrandChild': lambda i: 4 * i + 3}
    for fn, g in spec.items():
        if fn not in p.funcs:
            continue
        f = p.funcs[fn]
        a = ('arg', fn, 0, f.params[0].split(':')[1])
        res = Engine(p, ctx.summ, ctx.known, K=20, relevant=lambda a: True).run(fn)
        # affine / floor-affine expressions of period at most 4: agreeing on three periods of both kinds of slope, they agree everywhere
        for i in range(0, 16):
            vals = set()
            for st, rv in res:
                ev = Ev(lambda t: i if t == a else None)
                if compatible(ev, st.facts):
                    vals.add(ev(rv))
            if None in vals or not vals:
                continue        # written in a way the rule does not read
            neg = g(i) < 0
            out(f, 'places of parents and children', None if (all(v < 0 for v in vals) if neg else vals == {g(i)}) else f'{fn}({i}) is {sorted(vals)}, the heap puts it at {g(i)}')
    if 'isOnMaxLevel' in p.funcs:
        levels(ctx, out)


def levels(ctx, out):
    """the parity of the number of halvings of i+1: each round halves once and changes the parity; starts so that the root is a min level"""
    p = ctx.prog
    fn = 'isOnMaxLevel'
    f = p.funcs[fn]
    a = ('arg', fn, 0, f.params[0].split(':')[1])
    heads = []

    class H:
        def on_enter(self, e, st, f2, head, body, c):
            if f2.name == fn:
                heads.append(('enter', {q: v for q, v in st.env.items() if q[0] == 'v'}, None))

        def on_backedge(self, e, st, f2, ins, body, c, live):
            if f2.name == fn:
                heads.append(('back', {q: v for q, v in st.env.items() if q[0] == 'v'}, dict(st.facts)))
    res = Engine(p, ctx.summ, ctx.known, K=20, hooks=H(), relevant=lambda a: True).run(fn)
    ent = [h for h in heads if h[0] == 'enter']
    back = [h for h in heads if h[0] == 'back']
    if len(ent) != 1 or not back or len(res) != 1:
        return
    env0 = ent[0][1]
    phis = {q: ('phi', None, q) for q in env0}
    # which variable is halved, which counts
    halved, count = None, None
    val = lambda t, m: Ev(lambda x: m.get(x[2]) if x[0] == 'phi' else m.get(x))(t)
    st, rv = res[0]
    cand = [q for q in env0 if any(b[1].get(q) is not None and mentions(b[1][q], lambda x: x[0] == 'phi') for b in back)]
    for q in cand:
        tests = [x for x in (40, 41, 97) if all(val(b[1][q], {q: x}) is not None for b in back)]
        steps = [{val(b[1][q], {q: x}) for b in back} for x in (40, 41, 97)]
        if not tests:
            continue
        if all(len(s) == 1 for s in steps):
            d = [next(iter(s)) for s in steps]
            if d[0] == 40 + (d[0] - 40) and all(y - x == d[0] - 40 for y, x in zip(d, (40, 41, 97))) and d[0] != 40:
                count = (q, d[0] - 40)
            elif q not in (count or ()):
                halved = (q, d)
    if not halved or not count:
        return
    (hq, d), (cq, stp) = halved, count
    stops = {st.facts.get(('b', '==', t, ('c', 0))) for t in [a2[2] for a2 in st.facts if a2[0] == 'b' and a2[1] == '==' and a2[2][0] == 'phi' and a2[2][2] == hq]}
    n0 = [val(env0[hq], {a: i}) for i in (0, 1, 5, 30)]
    c0 = val(env0[cq], {})
    if c0 is None or None in n0 or stops != {True}:
        return
    out(f, 'levels of the heap', None if d == [20, 20, 48] else f'each level of the heap is twice as wide as the one before, a round takes {(40, 41, 97)} to {tuple(d)}')
    for i, s in ((0, 1), (1, 2), (5, 3), (30, 5)):
        r = {bool(val(rv, {cq: c0 + stp * s, hq: 0}))}
        want = (s - 1) % 2 == 1
        out(f, 'levels of the heap', None if r == {want} and n0[(0, 1, 5, 30).index(i)] == i + 1 else f'place {i} is on level {s - 1} of the heap; taken for a {"max" if next(iter(r)) else "min"} level')


# ---------------------------------------------------------------- choosing children

RANKS = list(itertools.product(range(3), repeat=3))


def small_child(ctx, out):
    p = ctx.prog
    rule = 'the extreme child is chosen'
    if 'smallestChild' in p.funcs:
        def seg(tr, e, st, f, kind, v):
            if kind != 'ret' or len(tr.args) < 3:
                return
            i, inv = tr.args[1], tr.args[2]
            for n in (10, 11, 12, 13):
                for pl, pr in itertools.product(range(2), repeat=2):
                    for b in (0, 1):
                        s = Sit(tr, st, {i: 5, inv: b, 'n': n}, {11: pl, 12: pr})
                        if not s.feasible():
                            continue
                        if n <= 11:
                            ok = {5}
                        elif n == 12:
                            ok = {11}
                        else:
                            ok = {11, 12} if pl == pr else ({11} if (pl < pr) != bool(b) else {12})
                        r = s.ev(v)
                        names = {5: 'the place itself', 11: 'the left child', 12: 'the right child'}
                        out(f, rule, None if r in ok else f'{names.get(r, "something else")} is returned where {" or ".join(names[o] for o in sorted(ok))} is the {"largest" if b else "smallest"} ({["no", "one", "two", "two"][max(0, min(n, 13) - 11)]} children)')
        Track(ctx, 'smallestChild', seg).run(functional=('isOnMaxLevel',))
    rule = 'the extreme grandchild is chosen'
    if 'smallestGrandChild' not in p.funcs:
        return
    cls = {}
    pend = []

    def seg(tr, e, st, f, kind, v):
        if len(tr.args) < 3:
            return
        i, inv = tr.args[1], tr.args[2]
        if kind == 'enter':
            s = Sit(tr, st, {i: 5, inv: 0, 'n': 100}, {23: 7})
            for q, x in st.env.items():
                if q[0] == 'v' and q[1].split(':')[0] == f.name:
                    cls.setdefault(q, set()).add(('place', s.ev(x)) if s.ev(x) is not None else ('item', s.content(*tr.item(x)[:2])) if tr.item(x) and tr.item(x)[2] is None else ('prio', 7) if s.ev(x) == 7 else None)
                elif q[0] == 'fld' and q[1][0] == 'v':
                    pass
            return
        pend.append((tr, e, st.copy(), f, kind, v, dict(st.env)))
    tr = Track(ctx, 'smallestGrandChild', seg)
    tr.run(functional=('isOnMaxLevel',))
    f = tr.f
    L = [x for x in find_loops(f)]
    if len(L) != 1 or len(tr.args) < 3:
        # no loop over the four: every path is a decision of its own
        return flat_grandchild(ctx, out, tr, pend, rule)
    ivs = {('v', v) for v in L[0].ivs if L[0].ivs[v][1] == 1}
    kinds = {}
    modified = {lp for lp in L[0].f and {ins.a for n in L[0].body for ins in (f.ins[n],) if ins.k in ('set', 'call') and ins.a is not None and ins.a[0] == 'v'}}
    for q, c in cls.items():
        if q not in modified:
            continue
        if q in ivs and c <= {('place', 23), ('place', 24)}:
            kinds[q] = 'r'
        elif c == {('place', 23)}:
            kinds[q] = 'best'
        elif c == {('item', 23)}:
            kinds[q] = 'bestitem'
        elif c == {('place', 7)}:
            kinds[q] = 'bestprio'
    for v, (i0, st0, ts) in L[0].ivs.items():
        c = cls.get(('v', v), set())
        if st0 != 1 or ts and not (c <= {('place', 23), ('place', 24)}):
            out(f, rule, 'the search does not begin with the first grandchild, or passes some over')
    if 'r' not in kinds.values() or 'best' not in kinds.values():
        return
    i, inv = tr.args[1], tr.args[2]
    for (_, e, st, f, kind, v, env) in pend:
        looped = any(mentions(a, lambda x: x[0] == 'phi') for a in st.facts if a[0] != 'mark')
        for n in (22, 23, 24, 25, 26, 27, 30):
            for r in (24, 25, 26, 27):
                for best in ((23,) if r == 24 else (23, 24)):
                    for pb, pr in itertools.product(range(2), repeat=2):
                        for b in (0, 1):
                            ranks = {best: pb, r: pr}
                            phi = {}
                            for q, k in kinds.items():
                                phi[q] = r if k == 'r' else best if k == 'best' else ('at', best) if k == 'bestitem' else pb
                            s = Sit(tr, st, {i: 5, inv: b, 'n': n}, ranks, phi=phi)
                            if n > 23 and n < r:
                                continue
                            if not s.feasible():
                                continue
                            if kind == 'ret':
                                x = s.ev(v)
                                if n <= 23:
                                    out(f, rule, None if x == 5 else 'a place without grandchildren does not stand for itself')
                                elif not looped:
                                    # exits before the loop although there are grandchildren
                                    out(f, rule, f'with {min(4, n - 23)} grandchildren nothing is compared')
                                elif r < n and r < 27:
                                    out(f, rule, f'the search ends with grandchild {r - 22} not looked at')
                                else:
                                    out(f, rule, None if x == best else 'the result is not the place found')
                            else:
                                if n <= 23:
                                    continue
                                if not (r < n and r < 27):
                                    out(f, rule, f'the search goes on past the {"end of the queue" if r >= n else "fourth grandchild"}')
                                    continue
                                better = (pr < pb) != bool(b) if pr != pb else None
                                for q, k in kinds.items():
                                    nv = env.get(q)
                                    if nv is None:
                                        continue
                                    if k == 'r':
                                        out(f, rule, None if s.ev(nv) == r + 1 else 'a grandchild is passed over')
                                    elif k == 'best':
                                        g = s.ev(nv)
                                        ok = {best, r} if better is None else {r} if better else {best}
                                        out(f, rule, None if g in ok else f'the {"better" if better else "worse"} of two is {"not " if better else ""}kept')
                                    elif k == 'bestitem':
                                        it = tr.item(nv)
                                        g = s.content(it[0], it[1]) if it else best if nv[0] == 'phi' and nv[2] == q else None
                                        ok = {best, r} if better is None else {r} if better else {best}
                                        # the item has to belong to the place kept
                                        places = [s.ev(env[q2]) for q2, k2 in kinds.items() if k2 == 'best' and q2 in env]
                                        out(f, rule, None if g in ok and (better is not None or g in places) else 'the item kept for comparison is not that of the place kept')
                                    else:
                                        g = s.ev(nv)
                                        out(f, rule, None if g == (pr if better else pb) or better is None else 'the priority kept for comparison is not that of the place kept')


def flat_grandchild(ctx, out, tr, pend, rule):
    if len(tr.args) < 3:
        return
    i, inv = tr.args[1], tr.args[2]
    for (_, e, st, f, kind, v, env) in pend:
        if kind != 'ret':
            continue
        for n in (23, 24, 25, 26, 27, 30):
            for ranks in itertools.product(range(2), repeat=4):
                for b in (0, 1):
                    s = Sit(tr, st, {i: 5, inv: b, 'n': n}, {23 + k: x for k, x in enumerate(ranks)})
                    if not s.feasible():
                        continue
                    have = [23 + k for k in range(4) if 23 + k < n]
                    ext = (max if b else min)([s.ranks[h] for h in have], default=None)
                    ok = {h for h in have if s.ranks[h] == ext} or {5}
                    out(f, rule, None if s.ev(v) in ok else 'the extreme grandchild is not the one returned')


# ---------------------------------------------------------------- restoring the order

def better(a, b, inv):
    return None if a == b else (a < b) != bool(inv)


def down(ctx, out):
    p = ctx.prog
    fn = 'trickleDown'
    if fn not in p.funcs:
        return
    rule = 'trickling down'
    pos = set()
    notpos = set()
    I, C, G = 5, 11, 23

    def seg(tr, e, st, f, kind, v):
        if len(tr.args) < 3:
            return
        i, inv = tr.args[1], tr.args[2]
        if kind == 'enter':
            for q, x in st.env.items():
                if q[0] == 'v' and q[1].split(':')[0] == f.name:
                    if Sit(tr, st, {i: I, inv: 0}).ev(x) == I:
                        pos.add(q)
                    else:
                        notpos.add(q)
            s = tr.seq(st)
            out(f, rule, 'items are moved before the first comparison' if s else None)
            return
        for hc, hg in ((0, 0), (1, 0), (1, 1)):
            for ranks in RANKS:
                for b in (0, 1):
                    m = C if hc else I
                    g = G if hg else I
                    base = {i: I, inv: b, 'n': 100 if hg else 15 if hc else 8}
                    sit = Sit(tr, st, base, dict(zip((I, C, G), ranks)), phi={q: I for q in pos},
                              calls=dict(smallestChild=lambda x, z: m if x == I and z == b else None, smallestGrandChild=lambda x, z: g if x == I and z == b else None))
                    if not sit.feasible():
                        continue
                    pm = sit.perm()
                    if pm is None:
                        out(f, rule, 'which items are exchanged cannot be told')
                        continue
                    at = lambda x: sit.ranks.get(pm.get(x, x))
                    sg = -1 if b else 1
                    moved = {x for x in pm if pm[x] != x}
                    R = dict(zip((I, C, G), ranks))
                    have = [I] + ([C] if hc else []) + ([G] if hg else [])
                    if moved - set(have) or sorted(pm.get(x, x) for x in have) != sorted(have):
                        out(f, rule, 'items are exchanged with a place that is no child or grandchild, or one is lost')
                        continue
                    why = None
                    if any(sg * at(x) < sg * at(I) for x in have):
                        why = 'the place is left with an item that a child or grandchild should have taken over'
                    elif hc and sg * at(C) < sg * R[C]:
                        why = 'the child is left with less than it had'
                    elif hg and G in moved and (sg * at(G) < sg * R[G] or sg * at(G) > sg * at(C)):
                        why = 'the grandchild is out of order with its parent'
                    elif kind == 'back':
                        nxt = {sit.ev(st.env[q]) for q in pos if q in st.env and q in tr_live(st)}
                        if not hg:
                            why = 'it goes on where there are no grandchildren'
                        elif nxt != {G}:
                            why = 'it does not go on with the grandchild'
                    elif kind == 'ret' and hg and pm.get(G, G) != G and at(G) != R[G]:
                        why = 'it ends although the grandchild got another item'
                    out(f, rule, why)
    tr = Track(ctx, fn, seg)
    heads = find_loops(tr.f)
    mod = {ins.a for L in heads for n in L.body for ins in (tr.f.ins[n],) if ins.k in ('set', 'call') and ins.a is not None and ins.a[0] == 'v'}
    tr_live = lambda st: {q for q in pos if q in mod}
    tr.run()


def up(ctx, out):
    p = ctx.prog
    fn = 'bubbleUp'
    if fn not in p.funcs:
        return
    rule = 'bubbling up'
    kinds = {}
    pend = []
    I = 12

    def first(tr, st, i0, lev, ranks):
        i = tr.args[1]
        return Sit(tr, st, {i: i0, 'n': 100}, ranks, calls=dict(isOnMaxLevel=lambda x: lev if x in (i0, (i0 + 1) // 4 - 1) else 1 - lev if x == (i0 + 1) // 2 - 1 else None))

    def seg(tr, e, st, f, kind, v):
        if len(tr.args) < 2:
            return
        live = e.cfg_info(f)[4]
        if kind == 'enter':
            for q, x in st.env.items():
                if q[0] == 'v' and q[1] in live[v] and p.types.canon(f.vars.get(q[1], '')) in ('bool', '_Bool'):
                    st.facts[('mark', 'direction', x)] = True
        if kind != 'enter':
            pend.append((st.copy(), kind))
            return
        for i0 in (0, 1, I):
            par = (i0 + 1) // 2 - 1
            for lev in (0, 1):
                if i0 == 0 and lev:
                    continue
                for a, b in itertools.product(range(2), repeat=2):
                    s = first(tr, st, i0, lev, {i0: a, par: b})
                    if not s.feasible():
                        continue
                    pm = s.perm()
                    if pm is None:
                        out(f, rule, 'which items are exchanged cannot be told')
                        continue
                    moved = {x for x in pm if pm[x] != x}
                    sw = moved == {i0, par}
                    if moved and not sw:
                        out(f, rule, 'items are exchanged with a place that is not the parent')
                        continue
                    # on a min level an item larger than its parent belongs to the max levels, and the other way round
                    must = None if a == b else (a > b) != bool(lev)
                    if i0 == 0:
                        must = False
                    out(f, rule, 'an item is not exchanged with the parent it is out of order with' if must and not sw else
                        'an item is exchanged with a parent it is in order with' if must is False and sw else None)
                    where = par if sw else i0
                    gp = (where + 1) // 4 - 1
                    lv = lev != sw
                    for q, x in st.env.items():
                        if q[0] == 'v' and q[1] in live[v]:
                            y = s.ev(x)
                            T = p.types.canon(f.vars.get(q[1], ''))
                            if T in ('bool', '_Bool'):
                                kinds.setdefault(q, []).append('lev' if y is not None and bool(y) == lv else '?')
                            else:
                                kinds.setdefault(q, []).append('pos' if y == where else 'gp' if y == gp else '?')
    tr = Track(ctx, fn, seg)
    tr.run()
    f = tr.f
    Ls = find_loops(f)
    if not Ls and not any(i.k == 'call' and i.b == fn for i in f.ins):
        out(f, rule, 'the item climbs one step only')
    if len(Ls) != 1:
        return
    mod = {ins.a for n in Ls[0].body for ins in (f.ins[n],) if ins.k in ('set', 'call') and ins.a is not None and ins.a[0] == 'v'}
    K = {}
    for q, ks in kinds.items():
        # variables of the loop: what they stand for on entry, in every situation
        K[q] = ks[0] if len(set(ks)) == 1 else 'mixed'
    used = set()
    for st, kind in pend:
        for t in list(st.facts) + [x for ev in tr.seq(st) if ev[0] == 'call' for x in ev[2]]:
            for x in subterms(t):
                if x and x[0] == 'phi':
                    used.add(x[2])
    out(f, rule, 'the loop does not start at the place the item is at' if not any(K.get(q) == 'pos' for q in used) and used else None)
    for q in used:
        if K.get(q) in ('mixed', '?') and q in K and q in mod:
            out(f, rule, f'{q[1].split(":")[1]} does not follow the item on entry of the loop')
    for q in K:
        if p.types.canon(f.vars.get(q[1], '')) in ('bool', '_Bool') and K[q] != 'lev':
            out(f, rule, f'{q[1].split(":")[1]} is not the kind of level the item is on when it climbs on')
    for st, kind in pend:
        for P, gp in ((I, (I + 1) // 4 - 1), (1, -1), (3, 0)):
            for a, b in itertools.product(range(2), repeat=2):
                for lev in (0, 1):
                    phi = {q: P if k == 'pos' else gp if k == 'gp' else lev if k == 'lev' else None for q, k in K.items()}
                    phi = {q: x for q, x in phi.items() if x is not None}
                    sit2 = Sit(tr, st, {}, {P: a, gp: b}, phi=phi)
                    # the direction is a constant or a term over isOnMaxLevel(i): give that call the value that makes it the level
                    lt = [x[2] for x in st.facts if x[:2] == ('mark', 'direction')]
                    for cv in (0, 1) if lt else ():
                        cand = Sit(tr, st, {c: cv for c in level_calls(lt)}, {P: a, gp: b}, phi=phi)
                        if all(cand.ev(t) is None or bool(cand.ev(t)) == bool(lev) for t in lt):
                            sit2 = cand
                            break
                    else:
                        if lt:
                            continue
                    if not sit2.feasible():
                        continue
                    pm = sit2.perm()
                    if pm is None:
                        out(f, rule, 'which items are exchanged cannot be told')
                        continue
                    moved = {x for x in pm if pm[x] != x}
                    sw = moved == {P, gp}
                    if moved and not sw:
                        out(f, rule, 'items are exchanged with a place that is not the grandparent')
                        continue
                    must = None if a == b else (a < b) != bool(lev)
                    if gp < 0:
                        must = False
                    why = None
                    if must and not sw:
                        why = 'an item stays below a grandparent it is out of order with'
                    elif must is False and sw:
                        why = 'an item is exchanged with a grandparent it is in order with'
                    elif kind == 'back':
                        if not sw:
                            why = 'it goes on without having moved'
                        else:
                            for q, k in K.items():
                                if q in mod and q in st.env and q in used:
                                    y = sit2.ev(st.env[q])
                                    if k == 'pos' and y != gp or k == 'gp' and y != (gp + 1) // 4 - 1:
                                        why = 'it does not go on from the place the item moved to'
                    elif sw:
                        why = 'it ends although the item moved'
                    out(f, rule, why)


def level_calls(ts):
    return {x for t in ts for x in subterms(t) if x and x[0] == 'call' and x[1] == 'isOnMaxLevel'}


# ---------------------------------------------------------------- operations

def exchange(ctx, out):
    p = ctx.prog
    if 'swap' not in p.funcs:
        return

    def seg(tr, e, st, f, kind, v):
        if kind != 'ret' or len(tr.args) < 3:
            return
        s = Sit(tr, st, {tr.args[1]: 3, tr.args[2]: 9})
        pm = s.perm()
        out(f, 'exchanging two items', None if pm and pm.get(3) == 9 and pm.get(9) == 3 and set(pm) == {3, 9} else 'the two items are not exchanged')
    Track(ctx, 'swap', seg).run()


def fact_null(e, st, a):
    return e.known_truth(st, ('b', '==', a, ('c', 0)))


def pops(ctx, out):
    p = ctx.prog
    for fn in ('PriorityQueue_PopMin', 'PriorityQueue_PopMax', 'PriorityQueue_PopAt'):
        if fn not in p.funcs:
            continue
        rule = {'PriorityQueue_PopMin': 'popping the minimum', 'PriorityQueue_PopMax': 'popping the maximum', 'PriorityQueue_PopAt': 'popping any item'}[fn]

        def seg(tr, e, st, f, kind, v, fn=fn, rule=rule):
            if kind != 'ret':
                return
            for n in (0, 1, 7):
                at = fn.endswith('At')
                for target in ((0,) if fn.endswith('Min') else ((0,) if n < 2 else (1, 2)) if not at else ((0,) if n < 2 else (3, 6))):
                    if n == 2 and target == 2:
                        continue
                    base = {'n': n}
                    if at:
                        base[tr.args[1]] = target
                    levof = lambda x: ((x + 1).bit_length() - 1) & 1
                    s = Sit(tr, st, base, calls=dict(smallestChild=lambda x, z: target if x == 0 and z else None, isOnMaxLevel=levof))
                    if not s.feasible():
                        continue
                    seq = tr.seq(st)
                    r = s.ev(v) if v is not None else None
                    if n == 0:
                        out(f, rule, 'something is taken from an empty queue' if seq or r != 0 and r is not False else None)
                        continue
                    if r is None or not r:
                        out(f, rule, 'nothing is handed out although the queue has items')
                        continue
                    why = None
                    pm = s.perm()
                    last = n - 1
                    am = [s.ev(x[1]) for x in seq if x[0] == 'amount']
                    if pm is None:
                        out(f, rule, 'which item leaves the queue cannot be told')
                        continue
                    full = lambda x: pm.get(x, x)
                    if full(last) != target or full(target) != last or any(pm[x] != x for x in pm if x not in (last, target)):
                        why = f'the item that leaves the queue is not the {"smallest" if fn.endswith("Min") else "largest" if fn.endswith("Max") else "one asked for"}, or its place is not filled with the last item'
                    elif am != [last]:
                        why = 'the queue does not end up with one item less'
                    else:
                        k0 = max([k for k, x in enumerate(seq) if x[0] == 'amount' or x[0] == 'set' or x[0] == 'call' and x[1] == 'swap'], default=-1)
                        fix = [(k, x) for k, x in enumerate(seq) if x[0] == 'call' and x[1] in ('trickleDown', 'bubbleUp')]
                        lev = levof(target)
                        if any(k < k0 for k, x in fix):
                            why = 'the order is restored before the queue is in its final shape'
                        elif not at or target < last:
                            dn = [x for k, x in fix if x[1] == 'trickleDown']
                            if not (len(dn) >= 1 and all(s.ev(x[2][0]) == target for x in dn)):
                                why = 'the item moved into the hole is not trickled down from there' if target < last else None
                            elif any(s.ev(x[2][1]) is None or bool(s.ev(x[2][1])) != bool(lev) for x in dn) and n > 2:
                                why = f'the item moved into the hole is on a {"max" if lev else "min"} level but ordered as on the other kind'
                            ups = [k for k, x in fix if x[1] == 'bubbleUp' and s.ev(x[2][0]) == target]
                            if at and why is None and (not ups or ups[0] > [k for k, x in fix if x[1] == 'trickleDown'][0]):
                                why = 'the item moved into the hole may belong above it, and is not bubbled up'
                        elif at and any(x[1] == 'bubbleUp' for k, x in fix):
                            why = 'an item beyond the end of the queue is bubbled back into it'
                    if why is None:
                        outs = {x[1]: x[2] for x in seq if x[0] == 'out'}
                        for a in tr.args[1:]:
                            if a == tr.args[1] and at:
                                continue
                            T = p.types.canon(f.vars[f.params[tr.args.index(a)]])
                            fld = 'priority' if 'double' in T else 'address'
                            null = fact_null(e, st, a)
                            if a in outs:
                                it = tr.item(outs[a])
                                if not it or it[2] != fld or s.content(it[0], it[1]) != target:
                                    why = f'the {fld} handed out is not that of the item leaving the queue'
                            elif null is not True:
                                why = f'the {fld} of the item is not handed out'
                    out(f, rule, why)
        Track(ctx, fn, seg, calls=('trickleDown', 'bubbleUp')).run()


def push(ctx, out):
    p = ctx.prog
    fn = 'PriorityQueue_Push'
    if fn not in p.funcs:
        return
    rule = 'pushing'

    def seg(tr, e, st, f, kind, v):
        if kind != 'ret':
            return
        prio = tr.args[1]
        pr = lambda x, *fs: (lambda y: y)(_proj(e, x, fs))
        for n in (3, 7, 8):
            for a, b in itertools.product(range(2), repeat=2):      # new priority, smallest priority
                s = Sit(tr, st, {'n': n, 'max': 8, prio: a, 'n2': n - 1 if n >= 8 else n}, {0: b})
                seq = tr.seq(st)
                s.base['n2'] = n - 1 if any(x[0] == 'call' and x[1] == 'PriorityQueue_PopMin' for x in seq) else n
                if not s.feasible():
                    continue
                added, evicted = s.ev(pr(v, 'added')), s.ev(pr(v, 'evicted'))
                mutated = [x for x in seq if x[0] in ('set', 'amount', 'call', 'other')]
                full = n >= 8
                if added is None or evicted is None:
                    out(f, rule, 'whether the item was added cannot be told')
                    continue
                if not added:
                    out(f, rule, 'an item is refused although there is room' if not full else 'an item worth more than the least valuable one is refused' if a > b else
                        'a refused item changes the queue' if mutated else 'an item is reported evicted though nothing was added' if evicted else None)
                    continue
                why = None
                pops = [x for x in seq if x[0] == 'call' and x[1].startswith('PriorityQueue_Pop')]
                if full and a < b:
                    why = 'an item worth less than the least valuable one is let in'
                elif full and [x[1] for x in pops] != ['PriorityQueue_PopMin']:
                    why = 'a full queue takes an item without the least valuable one leaving'
                elif not full and pops:
                    why = 'an item leaves although there is room'
                elif bool(evicted) != full:
                    why = 'the eviction is not reported as it happened'
                else:
                    place = n - 1 if full else n
                    sets = [(k, x) for k, x in enumerate(seq) if x[0] == 'set']
                    popk = [k for k, x in enumerate(seq) if x in pops]
                    ps = [x for k, x in sets if x[2] == 'priority' or x[2] is None]
                    if not (len(ps) == 1 and s.ev(ps[0][1]) == place and s.ev(ps[0][3] if ps[0][2] else pr(ps[0][3], 'priority')) == a and pr_is(e, ps[0], prio)):
                        why = 'the new priority is not stored in the first free place'
                    elif popk and any(k < popk[0] for k, x in sets):
                        why = 'the item is stored before room is made'
                    else:
                        am = [s.ev(x[1]) for x in seq if x[0] == 'amount']
                        bu = [(k, x) for k, x in enumerate(seq) if x[0] == 'call' and x[1] == 'bubbleUp']
                        lastset = max(k for k, x in sets)
                        outaddr = [('out', q[3], 1) for q in pops]
                        for k, x in sets:
                            if x[2] == 'address' and not (full and s.ev(x[1]) == place and mentions(x[3], lambda z: z[0] == 'out')):
                                why = 'the storage address of a free place is overwritten'
                        if why:
                            pass
                        elif am != [place + 1]:
                            why = 'the queue does not end up with the item counted'
                        elif len(bu) != 1 or s.ev(bu[0][1][2][0]) != place or bu[0][0] < lastset:
                            why = 'the new item is not bubbled up from its place'
                        else:
                            ad = pr(v, 'addedItem', 'address')
                            it = tr.item(ad)
                            ok = (it and it[2] == 'address' and s.ev(it[0]) == place and (tr.time(st, it[1]) is None or tr.time(st, it[1]) <= bu[0][0])) or (full and mentions(ad, lambda z: z[0] == 'out'))
                            if not ok:
                                why = 'the storage handed out for the new item is not that of its place'
                            elif full and not mentions(pr(v, 'evictedItem', 'address'), lambda z: z[0] == 'out'):
                                why = 'the evicted item is not handed out'
                out(f, rule, why)
    Track(ctx, fn, seg, calls=('PriorityQueue_PopMin', 'PriorityQueue_PopMax', 'PriorityQueue_PopAt', 'bubbleUp', 'trickleDown')).run()


def _proj(e, x, fs):
    for f in fs:
        x = e.proj(x, ('fld', f))
    return x


def pr_is(e, ev, prio):
    v = ev[3] if ev[2] else e.proj(ev[3], ('fld', 'priority'))
    return v == prio or v == ('cast', 'double', prio)


def rebuild(ctx, out):
    p = ctx.prog
    fn = 'PriorityQueue_Rebuild'
    if fn not in p.funcs:
        return
    rule = 'rebuilding'
    entry = {}
    pend = []

    def seg(tr, e, st, f, kind, v):
        if kind == 'enter':
            for q, x in st.env.items():
                if q[0] == 'v':
                    entry.setdefault(q, set()).add(Ev(lambda t: None)(x))
            return
        pend.append((st.copy(), kind))
    tr = Track(ctx, fn, seg, calls=('bubbleUp', 'trickleDown'))
    tr.run()
    f = tr.f
    Ls = find_loops(f)
    if len(Ls) != 1:
        return
    ivs = [v for v in Ls[0].ivs if Ls[0].ivs[v][1] == 1 and entry.get(('v', v), {None}) <= {0, 1}]
    if not ivs:
        cnt = [v for v in Ls[0].ivs]
        out(f, rule, 'the items are not put back one after the other from the root on' if cnt else None)
        return
    q = ('v', ivs[0])
    for st, kind in pend:
        for n in (0, 1, 2, 9):
            for i in (0, 1, 2, 8, 9):
                if i > max(n, 1):
                    continue
                s = Sit(tr, st, {'n': n}, phi={q: i})
                if not s.feasible():
                    continue
                seq = tr.seq(st)
                if kind == 'ret':
                    out(f, rule, 'items at the end are not put back in order' if i < n else None)
                else:
                    bu = [x for x in seq if x[0] == 'call' and x[1] == 'bubbleUp']
                    oth = [x for x in seq if x not in bu]
                    out(f, rule, 'the order goes beyond the end of the queue' if i >= n and bu else
                        'an item is not bubbled up from its place' if i < n and i > 0 and not (len(bu) == 1 and s.ev(bu[0][2][0]) == i and not oth) else
                        'an item is passed over' if s.ev(st.env[q]) != i + 1 else None)


# ---------------------------------------------------------------- users

def users(ctx, rep):
    """who changes a priority in place has to rebuild that queue; items are handed out from the high end, and evicted by pushing only"""
    p = ctx.prog
    inside = {fn for fn, f in p.funcs.items() if f.file.endswith('PriorityQueue.c')}
    n = 0
    for fn, f in sorted(p.funcs.items()):
        if fn in inside:
            continue
        stores = []
        for i in f.ins:
            if i.k in ('set', 'call') and i.a is not None and i.a[0] == 'fld' and i.a[2] == 'priority' and i.a[1][0] == 'idx' and mentions(i.a, lambda t: t[0] == 'fld' and len(t) == 3 and t[2] == 'items'):
                qx = queue_of(i.a[1])
                if qx is not None:
                    stores.append((i, qx))
            if i.k == 'call' and i.b in ('PriorityQueue_PopMin',):
                rep.ob(False, 'items are handed out from the high end', f'{f.file}:{i.line} ({fn})', 'an item is taken from the low end of a queue', key=f'popmin {fn}')
            if i.k == 'call' and i.b == 'PriorityQueue_PopMax':
                rep.ob(True, 'items are handed out from the high end', f'{f.file}:{i.line} ({fn})', 'the item of highest priority is taken')
            if i.k in ('set', 'call') and i.a is not None and i.a[0] == 'fld' and i.a[2] == 'itemsAmount' and class_of_queue(ctx, f, i.a):
                rep.ob(False, 'the queue is changed by its operations only', f'{f.file}:{i.line} ({fn})', f'{show(i.a)} is written', key=f'amount {fn}')
        for i, qx in stores:
            n += 1
            name = root_of(qx)
            ok = rebuilt(p, f, i, qx)
            rep.ob(ok, 'changed priorities are put back in order', f'{f.file}:{i.line} ({fn})', f'{show(qx)} is rebuilt on every path afterwards' if ok else f'{show(qx)} is not rebuilt on every path after its priorities were changed', key=f'rebuild {fn} {show(name)}')
    rep.count('priority_stores_outside', n)
    return n


def class_of_queue(ctx, f, lv):
    try:
        return ('PriorityQueue', 'itemsAmount') in ctx.summ.ty.lvclasses(f, lv)
    except Exception:
        return False


def queue_of(lv):
    """the queue lvalue in  Q.items[i]"""
    x = lv[1]
    while isinstance(x, tuple) and x[0] in ('cast', 'd', 'ld'):
        x = x[-1] if x[0] == 'cast' else x[1]
    if x[0] == 'fld' and x[2] == 'items':
        return x[1]
    return None


def shape(q):
    """the queue, with loop indices of a queue array left open"""
    if q[0] == 'idx':
        return ('idx', shape(q[1]))
    if q[0] in ('d', 'ld'):
        return (q[0], shape(q[1])) if isinstance(q[1], tuple) else q
    return q


def rebuilt(p, f, store, qx):
    """from the store every way to a return passes a rebuild of that queue (for an array of queues: the loop over all of them)"""
    goal = shape(qx)
    dest = set()
    for i in f.ins:
        if i.k == 'call' and i.b == 'PriorityQueue_Rebuild' and i.c:
            a = i.c[0]
            while a[0] == 'cast':
                a = a[-1]
            t = a[1] if a[0] == 'a' else ('d', a)
            if shape(t) == goal:
                dest.add(i.id)
        elif i.k == 'call' and isinstance(i.b, str) and i.b in p.funcs:
            pass
    if not dest:
        return False
    arr = goal[0] == 'idx'
    Ls = find_loops(f)
    ok = set(dest)
    if arr:
        # the head of a loop that runs over the same range as the loop the store is in, and rebuilds on every round
        ok = set()
        for L in Ls:
            d = dest & set(L.body)
            if d and every_round(f, L, d):
                sL = [S for S in Ls if store.id in S.body and uses_iv(S, qx)]
                if not sL or any(same_range(S, L) for S in sL):
                    ok.add(L.head)
                    if store.id in L.body:
                        ok |= d
    seen, work = set(), [s for s in f.ins[store.id].succ]
    while work:
        x = work.pop()
        if x in seen or x in ok:
            continue
        seen.add(x)
        if f.ins[x].k == 'ret' or not f.ins[x].succ:
            return False
        work.extend(f.ins[x].succ)
    return True


def uses_iv(L, qx):
    return any(mentions(qx, lambda t: t == ('v', v)) for v in L.ivs)


def same_range(A, B):
    ra = [(i, s, tuple((op, b) for _, op, b, _ in ts)) for i, s, ts in A.ivs.values() if ts]
    rb = [(i, s, tuple((op, b) for _, op, b, _ in ts)) for i, s, ts in B.ivs.values() if ts]
    return any(x in rb for x in ra)


def every_round(f, L, dest):
    seen, work = set(), [s for s in f.ins[L.head].succ if s in L.body]
    if L.head in dest:
        return True
    while work:
        x = work.pop()
        if x in seen or x in dest:
            continue
        if x == L.head:
            return False
        seen.add(x)
        work.extend(s for s in f.ins[x].succ if s in L.body)
    return True


# ---------------------------------------------------------------- link tables

class TTrack:
    def __init__(self, ctx, fn, onseg):
        self.ctx, self.fn, self.onseg = ctx, fn, onseg
        self.f = ctx.prog.funcs[fn]
        self.args = [('arg', fn, k, v.split(':')[1]) for k, v in enumerate(self.f.params)]
        self.T = self.args[0]
        self.arr = ('fld', ('d', self.T), 'array')

    def slot(self, p):
        if p[0] == 'idx' and p[1] == self.arr:
            return p[2]
        return None

    def where(self, v):
        """index term if v is (a field of) an entry, and the fields"""
        fs = []
        while v[0] == 'fld' or v[0] == 'ld':
            v2 = v[1]
            if v[0] == 'fld':
                fs.append(v[2])
            v = v2
        if v[0] == 'idx' and v[1] == self.arr:
            return v[2], tuple(reversed(fs))
        return None

    def imp(self, v):
        """fields if v is read from the new link (argument 1)"""
        fs = []
        while v[0] == 'fld' or v[0] == 'ld':
            if v[0] == 'fld':
                fs.append(v[2])
            v = v[1]
        if v == ('d', self.args[1]):
            return tuple(reversed(fs))
        return None

    seqof = Track.seq

    def seq(self, st):
        return Track.seq(self, st)

    def add(self, st, ev):
        s = self.seq(st)
        st.facts.pop(('mark', 'seq', s), None)
        st.facts[('mark', 'seq', s + (ev,))] = True

    def reset(self, st):
        for a in [a for a in st.facts if a[:2] == ('mark', 'seq')]:
            del st.facts[a]

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def on_store(self, e, st, f, ins, path, val, c):
        s = self.slot(path)
        if s is not None:
            self.add(st, ('set', s, val))
        elif path == ('fld', ('d', self.T), 'itemsAmount'):
            self.add(st, ('amount', val))
        elif root_of(path) == self.T or mentions(path, lambda t: t == self.arr):
            self.add(st, ('other', path))

    def on_call(self, e, st, f, ins, name, vals, c):
        if name in ('memmove', 'memcpy'):
            self.add(st, (name,) + tuple(vals))

    def on_enter(self, e, st, f, head, body, c):
        if f.name == self.fn:
            self.onseg(self, e, st, f, 'enter', head, body)
            self.reset(st)

    def on_backedge(self, e, st, f, ins, body, c, live):
        if f.name == self.fn:
            self.onseg(self, e, st, f, 'back', ins, body)
            self.reset(st)

    def on_ret(self, e, st, f, ins, v, c):
        if f.name == self.fn:
            self.onseg(self, e, st, f, 'ret', v, None)

    def run(self, functional=('Term_Equal', 'Truth_Expectation'), K=400):
        Engine(self.ctx.prog, self.ctx.summ, self.ctx.known, K=K, hooks=self, relevant=lambda a: True, functional=set(functional)).run(self.fn)


def loop_of(f, Ls, n, body):
    return next((L for L in Ls if set(L.body) == set(body)), None)


def table_add(ctx, out):
    p = ctx.prog
    fn = 'Table_Add'
    if fn not in p.funcs:
        return
    rule = 'the table stays sorted'
    SIZE = int(ctx.macro('TABLE_SIZE'))
    f = p.funcs[fn]
    Ls = find_loops(f)
    segs = []
    tr = TTrack(ctx, fn, lambda tr, e, st, f, kind, x, body: segs.append((kind, st.copy(), x, set(body) if body else None, e)))
    tr.run()
    inner = [L for L in Ls if any(set(L.body) < set(M.body) for M in Ls)]
    outer = [L for L in Ls if L not in inner]
    shift = None
    for L in Ls:
        if any(f.ins[n].k in ('set', 'call') and f.ins[n].a is not None and f.ins[n].a[0] == 'idx' for n in L.body):
            if shift is None or set(L.body) < set(shift.body):
                shift = L
    scan = next((L for L in Ls if L is not shift and not (shift and set(L.body) < set(shift.body))), None)
    if scan is None:
        return
    siv = [('v', v) for v, (i0, s, t) in scan.ivs.items() if s == 1]
    if not siv:
        out(f, rule, 'the entries are not looked at one after the other' if scan.ivs else None)
        return
    SI = siv[0]
    JI = None
    if shift:
        js = [('v', v) for v, (i0, s, t) in shift.ivs.items() if abs(s) == 1]
        JI = js[0] if js else None

    def sit(st, n, i, same, ex, cf, j=None):
        def leaf(t):
            if t[0] == 'phi':
                return i if t[2] == SI else j if t[2] == JI else None
            if t[0] == 'ld' and t[1] == ('fld', ('d', tr.T), 'itemsAmount'):
                return n
            if t[0] in ('call', 'ret') and (t[1] if t[0] == 'call' else t[2]) == 'Term_Equal':
                return same
            if t[0] == 'call' and t[1] == 'Truth_Expectation':
                a = t[2][0]
                w = tr.where(a)
                if w and w[1] == ('truth',):
                    return 1 if ev(w[0]) == i else None
                if tr.imp(a) == ('truth',):
                    return 1 + 1e-9 * ex
            w = tr.where(t)
            if w and w[1] == ('truth', 'confidence') and ev(w[0]) == i:
                return 1
            if tr.imp(t) == ('truth', 'confidence'):
                return 1 + 1e-9 * cf
            return None
        ev = Ev(leaf)
        return ev
    space = [(n, i, same, ex, cf) for n in (0, 1, SIZE - 1, SIZE) for i in sorted({0, 1, max(0, n - 1), n, SIZE}) if i <= n
             for same in ((0, 1) if i < n else (0,)) for ex in ((-1, 0, 1) if i < n else (0,)) for cf in ((-1, 0, 1) if i < n and same else (0,))]

    def decision(n, i, same, ex, cf):
        """'insert', 'go on', 'refuse' or None (both fine)"""
        if i >= SIZE:
            return 'refuse'
        if i == n:
            return 'insert'
        if same:
            return None
        return {1: 'insert', -1: 'go on', 0: None}[ex]
    off = 0         # 1: the loop variable is the place an entry is moved from
    for kind, st, x, body, e in segs:
        if kind == 'back' and shift and JI and body == set(shift.body):
            ev = sit(st, SIZE, 1, 0, 0, 0, 5)
            for a in tr.seq(st):
                src = tr.where(a[2]) if a[0] == 'set' else None
                if src and ev(src[0]) == 5 and ev(a[1]) == 6:
                    off = 1
    sc, sh = set(scan.body), set(shift.body) if shift else set()
    started = [ (kind, st, x, body, e) for kind, st, x, body, e in segs if kind == 'enter' and body == sc]
    for kind, st, x, body, e in started:
        v = st.env.get(SI)
        out(f, rule, None if Ev(lambda t: None)(v) == 0 else 'the comparison does not start with the first entry')

    def verdict(st, got, what):
        for c in space:
            ev = sit(st, *c)
            if not compatible(ev, st.facts):
                continue
            d = decision(*c)
            out(f, rule, None if d is None or d == got else
                {'insert': 'a link is not put before the first weaker one' if c[1] < c[0] else 'a link is not put into the free place behind the last one', 'go on': 'a link is put before a stronger one', 'refuse': 'a link is put behind the end of the table'}[d])
    for kind, st, x, body, e in segs:
        fromscan = any(mentions(a, lambda t: t[0] == 'phi' and t[2] == SI) for a in st.facts if a[0] != 'mark')
        if kind == 'back' and body == sc:
            if tr.seq(st):
                out(f, rule, 'entries are changed while the place is being searched')
            verdict(st, 'go on', '')
        elif kind == 'enter' and body == sh and JI:
            if tr.seq(st):
                out(f, rule, 'entries are changed before room is made')
            verdict(st, 'insert', '')
            for n, i, same, ex, cf in space:
                ev = sit(st, n, i, same, ex, cf)
                if i >= SIZE or not compatible(ev, st.facts):
                    continue
                j0 = ev(st.env.get(JI)) if st.env.get(JI) is not None else None
                last = min(n, SIZE - 1)
                if j0 is None:
                    continue
                step = shift.ivs[JI[1]][1]
                if step == -1:
                    out(f, rule, None if j0 == last - off else
                        ('the entries behind the place are not all moved down' if j0 < last - off else 'entries are moved beyond the end of the table'))
                else:
                    out(f, rule, 'entries are moved down from the front, overwriting the next')
        elif kind == 'back' and body == sh and JI:
            for j in (1, 2, 5, SIZE - 1):
                for i in sorted({0, 1, 4, j - 1, j}):
                    if i > j:
                        continue
                    ev = sit(st, SIZE, i, 0, 0, 0, j - off)
                    if not compatible(ev, st.facts):
                        continue
                    sets = [s for s in tr.seq(st) if s[0] == 'set']
                    src = tr.where(sets[0][2]) if len(sets) == 1 else None
                    a, b = (ev(sets[0][1]), ev(src[0])) if src and src[1] == () else (None, None)
                    out(f, rule, None if a is not None and b is not None and a == b + 1 and a == j and len(tr.seq(st)) == 1 else 'an entry is not moved down by one place')
                    if a is not None:
                        out(f, rule, 'an entry before the place is moved' if b < i else None)
        elif kind == 'ret':
            ref = Ev(lambda t: None)(x) if x is not None else None
            refused = x is not None and e.known_truth(st, ('b', '==', x, ('c', 0))) is True or ref == 0
            if refused:
                out(f, rule, 'entries are changed although the link is refused' if tr.seq(st) else None)
                for c in space:
                    ev = sit(st, *c)
                    if not compatible(ev, st.facts):
                        continue
                    out(f, rule, None if decision(*c) in ('refuse',) else 'a link is refused although there is room or a weaker one')
                continue
            seq = tr.seq(st)
            for n, i, same, ex, cf in space:
                if i >= SIZE:
                    continue
                for j in ({i - off, i + 1 - off, SIZE - 1 - off} if JI else {None}):
                    if j is not None and j < i - off:
                        continue
                    ev = sit(st, n, i, same, ex, cf, j)
                    if not compatible(ev, st.facts):
                        continue
                    sets = [s for s in seq if s[0] == 'set']
                    am = [s for s in seq if s[0] == 'amount']
                    why = None
                    if JI and j > i - off:
                        why = 'the entries behind the place are not all moved down'
                    elif len(sets) != 1 or ev(sets[0][1]) != i or tr.imp(sets[0][2]) != ():
                        why = 'the link is not stored in its place'
                    elif (len(am) != 1 or ev(am[0][1]) != min(n + 1, SIZE)) and not (n == SIZE and not am):
                        why = 'the number of entries is not kept'
                    elif not (x is not None and x[0] == 'a' and tr.slot(x[1]) is not None and ev(tr.slot(x[1])) == i):
                        why = 'the place returned is not that of the link'
                    out(f, rule, why)


def table_remove(ctx, out):
    p = ctx.prog
    fn = 'Table_Remove'
    if fn not in p.funcs:
        return
    rule = 'removing an entry'
    f = p.funcs[fn]
    Ls = find_loops(f)
    segs = []
    tr = TTrack(ctx, fn, lambda tr, e, st, f, kind, x, body: segs.append((kind, st.copy(), x, set(body) if body else None, e)))
    tr.run()
    if len(Ls) != 1 or len(tr.args) < 2:
        return
    ivs = [('v', v) for v, (i0, s, t) in Ls[0].ivs.items() if s == 1]
    if not ivs:
        out(f, rule, 'the entries behind are not moved up one after the other' if Ls[0].ivs else None)
        return
    J = ivs[0]
    SIZE = int(ctx.macro('TABLE_SIZE'))

    def mk(n, idx, j):
        def leaf(t):
            if t[0] == 'phi':
                return j if t[2] == J else None
            if t[0] == 'ld' and t[1] == ('fld', ('d', tr.T), 'itemsAmount'):
                return n
            return idx if t == tr.args[1] else None
        return Ev(leaf)
    off = None
    for kind, st, x, body, e in segs:
        if kind == 'enter':
            v = Ev(lambda t: 3 if t == tr.args[1] else None)(st.env.get(J))
            off = None if v is None else v - 3
            if v is not None and off not in (0, 1):
                out(f, rule, 'moving up does not start at the place of the removed entry')
    off = off or 0
    for kind, st, x, body, e in segs:
        for n in (1, 2, 7, SIZE):
            for idx in sorted({0, n - 1, min(3, n - 1)}):
                for j in sorted({idx + off, idx + off + 1, n - 2 + off, n - 1 + off, n + off}):
                    if j < idx + off or j > n + off:
                        continue
                    ev = mk(n, idx, j)
                    if not compatible(ev, st.facts):
                        continue
                    to = j - off
                    if kind == 'back':
                        sets = [s for s in tr.seq(st) if s[0] == 'set']
                        if to >= n:
                            out(f, rule, 'entries behind the last are touched')
                            continue
                        src = tr.where(sets[0][2]) if len(sets) == 1 else None
                        if to < n - 1:
                            ok = src and src[1] == () and ev(sets[0][1]) == to and ev(src[0]) == to + 1
                            out(f, rule, None if ok else 'an entry behind the removed one is not moved up by one place')
                        else:
                            out(f, rule, 'an entry behind the last is moved in' if src else None)
                    elif kind == 'ret':
                        am = [s for s in tr.seq(st) if s[0] == 'amount']
                        out(f, rule, 'the last entries are not moved up' if to < n - 1 else 'the table does not end up with one entry less' if len(am) != 1 or ev(am[0][1]) != n - 1 else None)


def table_revise(ctx, out):
    """the entry revised is the one removed; without one of the same term the link is added as it is; all entries are looked at"""
    p = ctx.prog
    fn = 'Table_AddAndRevise'
    if fn not in p.funcs:
        return
    rule = 'one entry per link'
    f = p.funcs[fn]
    T = ('arg', fn, 0, f.params[0].split(':')[1])
    imp = ('arg', fn, 1, f.params[1].split(':')[1])
    arr = ('fld', ('d', T), 'array')
    log = []

    class H:
        def on_call(self, e, st, f2, ins, name, vals, c):
            if name in ('Table_Remove', 'Table_Add', 'Inference_ImplicationRevision'):
                s = next((a[2] for a in st.facts if a[:2] == ('mark', 'seq')), ())
                st.facts.pop(('mark', 'seq', s), None)
                arg = []
                for v in vals:
                    if v[0] == 'a':
                        x = e.read(st, v[1])
                        arg.append(('*', x))
                    else:
                        arg.append(v)
                st.facts[('mark', 'seq', s + ((name, tuple(arg), ins.id),))] = True

        def key(self, st):
            return frozenset(a for a in st.facts if a[0] == 'mark')

        def on_backedge(self, e, st, f2, ins, body, c, live):
            if f2.name == fn:
                eq = [t for t, tv in st.facts.items() if t[0] != 'mark' and tv is False and mentions(t, lambda x: x[0] in ('call', 'ret') and 'Term_Equal' in x[1:3]) and t[0] == 'b' and t[1] == '==']
                if eq and body is not None:
                    log.append('same goes on')
    h = H()
    e = Engine(p, ctx.summ, ctx.known, K=400, relevant=lambda a: True, functional={'Term_Equal'}, hooks=h)
    res = e.run(fn)
    for st, rv in res:
        seq = next((a[2] for a in st.facts if a[:2] == ('mark', 'seq')), ())
        names = [s[0] for s in seq]
        adds = [s for s in seq if s[0] == 'Table_Add']
        why = None
        if len(adds) != 1 or names[-1] != 'Table_Add':
            why = 'the link is not added once, and last'
        elif rv is None or not mentions(rv, lambda x: x[0] == 'ret' and x[2] == 'Table_Add'):
            why = 'the place returned is not the one the link was added at'
        else:
            rem = [s for s in seq if s[0] == 'Table_Remove']
            rev = [s for s in seq if s[0] == 'Inference_ImplicationRevision']
            if bool(rem) != bool(rev) or len(rem) > 1:
                why = 'an entry is removed without its revision being added' if rem else 'an entry is revised and stays beside its revision'
            elif rem:
                k = rem[0][1][1]
                old = [x for x in rev[0][1] if mentions(x, lambda t: t == arr)]
                if old and not any(mentions(x, lambda t: t[0] == 'idx' and t[1] == arr and t[2] == k) for x in old):
                    why = 'the entry removed is not the one revised'
                elif not mentions(adds[0][1][1], lambda t: t[0] == 'ret' and t[2] == 'Inference_ImplicationRevision' or t[0] == 'call' and t[1] == 'Inference_ImplicationRevision'):
                    why = 'what is added back is not the revision'
            elif adds[0][1][1] != imp and not mentions(adds[0][1][1], lambda t: t == ('d', imp)):
                why = 'what is added is not the link'
        out(f, rule, why)
    # the search: from the first entry to the last, ending early only at an entry of the same term
    for L in find_loops(f):
        if not any(f.ins[n].k == 'call' and f.ins[n].b == 'Term_Equal' for n in L.body):
            continue
        for v, (i0, s, ts) in L.ivs.items():
            if not ts:
                continue
            b = ts[0][2]
            if s == 1 and ts[0][1] in ('<', '<=', '!=') and mentions(b, lambda t: t[0] == 'fld' and len(t) == 3 and t[2] == 'itemsAmount'):
                x = Ev(lambda t: 7 if t[0] in ('fld',) and t[2] == 'itemsAmount' else None)(b)
                hi = None if x is None else x + (ts[0][1] == '<=')
                out(f, rule, 'the search for an entry of the same term does not begin with the first' if i0 not in (None, ('c', 0)) else
                    None if hi is None or hi == 7 else 'the search for an entry of the same term does not cover the table')
            elif abs(s) > 1:
                out(f, rule, 'the search for an entry of the same term passes entries over')


def table_users(ctx, rep):
    """entries of a table change through its operations only (besides the concept a link refers to)"""
    p = ctx.prog
    n = 0
    for fn, f in sorted(p.funcs.items()):
        if f.file.endswith('Table.c'):
            continue
        for i in f.ins:
            if i.k not in ('set', 'call') or i.a is None:
                continue
            x, fs = i.a, []
            while x[0] in ('fld', 'idx'):
                fs.append(x[2] if x[0] == 'fld' else '[]')
                x = x[1]
            if 'array' in fs and in_table(ctx, f, i.a):
                j = fs.index('array')
                what = list(reversed(fs[:j]))
                if any(w in ('truth', 'term') for w in what) or what == ['[]']:
                    rep.ob(False, 'entries change through the table only', f'{f.file}:{i.line} ({fn})', f'{show(i.a)} is written in place', key=f'entry {fn} {show(i.a)}')
            if 'itemsAmount' in fs and fs[0] == 'itemsAmount' and any(c == ('Table', 'itemsAmount') for c in classes(ctx, f, i.a)):
                z = i.k == 'set' and i.b == ('c', 0)
                n += 1
                rep.ob(z, 'entries change through the table only', f'{f.file}:{i.line} ({fn})', f'{show(i.a)} is written' if not z else f'{show(i.a)}: emptied', key=f'table amount {fn}')
    return n


def classes(ctx, f, lv):
    try:
        return ctx.summ.ty.lvclasses(f, lv)
    except Exception:
        return ()


def in_table(ctx, f, lv):
    x = lv
    while x[0] in ('fld', 'idx'):
        if x[0] == 'fld' and x[2] == 'array':
            return ('Table', 'array') in classes(ctx, f, x)
        x = x[1]
    return False


def check(ctx):
    rep = Report('C21', ctx, 'Decision tables: every path segment (entry to loop, loop body, loop to return) of the functions that rearrange a queue or a link table is abstractly interpreted, and what it does - '
                 'the places exchanged, the place it goes on from, the value returned - is compared with what a min-max heap or a sorted array requires in every situation its branch facts leave open '
                 '(order of the priorities compared, kind of level, existence of children, room). Who changes priorities in place has to rebuild that queue on every path.',
                 ['priorities and expectations are ordered (no NaN, C03/C17)', 'a restored heap follows by induction over the operations (Atkinson et al. 1986) from the local facts checked here'])
    out = Out(rep, ctx)
    for g in (index_helpers, small_child, exchange, down, up, pops, push, rebuild, table_add, table_remove, table_revise):
        g(ctx, out)
    out.flush()
    users(ctx, rep)
    table_users(ctx, rep)
    rep.count('decision_table_comparisons', sum(out.n.values()))
    rep.expect('comparisons with decision tables', sum(out.n.values()), 100)
    return rep
