"""C07: the term lookup and the atom index agree with the concepts in memory."""
from ..core import *
from ..loops import find_loops, covers
from .c16 import STABLE
from .c14 import Hooks, arg, loc, marks, strip, params_of, holds, content

FUNC = {'Narsese_IsSimpleAtom'}


def bare(v):
    """a value without the epochs of its loads"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ld':
            return ('ld', bare(v[1]))
        v = tuple(bare(x) for x in v)
        if len(v) == 2 and v[0] == 'd' and isinstance(v[1], tuple) and v[1][:2] == ('b', '+'):
            # element of a table addressed by pointer
            for b, i in (v[1][2:], v[1][:1:-1]):
                if b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == 'HT':
                    return ('idx', ('d', b), i)
        return v
    return v


def nxt(x):
    return ('ld', ('fld', ('d', x), 'next'))


class Chain(Hooks):
    """what a function does to linked chains: stores, pool use and comparisons of elements, in order, per path"""
    def __init__(self, match_field=None):
        super().__init__()
        self.rets = []
        self.outer = None       # body of the sweep over atoms, if the function has one

    def ind(self, ins, name):
        return name[2] if isinstance(name, tuple) and name[0] == 'fld' else None

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        kind = self.ind(ins, name)
        if kind in ('hash', 'equal'):
            self.mark(st, kind, tuple(bare(strip(v)) for v in vals), rv)
        elif name in ('Stack_Pop', 'Stack_Push'):
            st.facts[('seq',)] = st.facts.get(('seq',), 0)
            self.mark(st, name, tuple(bare(v) for v in vals), bare(rv))

    def on_store(self, e, st, f, ins, path, val, ctx):
        p = bare(path)
        if p[0] == 'v' or root_of(p)[0] == 'v' and e.islocal(root_of(p)[1]):
            return
        if p[0] == 'fld' and p[2] in ('next', 'key', 'value', 'c') or p[0] == 'idx':
            n = sum(1 for a in st.facts if a[0] == 'mark' and a[1] == 'write')
            if not any(a[:2] == ('mark', 'write') and a[2:4] == (p, bare(val)) for a in st.facts):
                self.mark(st, 'write', p, bare(val), n)
            self.stores.append((f, ins, p, bare(val), st.copy()))

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        self.back.append((f, ins, set(body), st.copy()))
        if self.outer is not None and set(body) == self.outer:
            for a in [a for a in st.facts if a[0] == 'mark' or a == ('seq',)]:
                del st.facts[a]


class Walk:
    """the loops of one function that step along a chain; `same(st, x)`: whether element x is known to be / not to be the one looked for"""
    def __init__(self, e, h, f, slot, same):
        self.e, self.h, self.f, self.slot, self.same = e, h, f, slot, same
        self.cur, self.prev, self.bad = set(), {}, set()
        heads = {}
        for g, head, body, st in h.enters:
            if h.outer is not None and body == h.outer:
                continue
            heads.setdefault((head, frozenset(body)), []).append(st)
        ptrs = [('v', v) for v in f.vars if e.ty.T.is_ptr(e.ty.T.canon(f.vars[v]))]
        for (head, body), ins in heads.items():
            backs = [st for g, i, b, st in h.back if frozenset(b) == body]
            if not backs:
                continue
            phi = lambda v: ('phi', ((), head), v)
            R = lambda st, v: bare(e.read(st, v))
            for v in ptrs:
                if all(R(st, v) == nxt(phi(v)) for st in backs) and all(self.start(st, R(st, v)) for st in ins):
                    self.cur.add(phi(v))
                    for st in backs:
                        if same(st, phi(v)) is not False:
                            self.bad.add('an element of a chain is passed over without having been compared')
            for v in ptrs:
                for c in list(self.cur):
                    if c[1][1] == head and v != c[2] and all(R(st, v) == c for st in backs) and all(
                            R(st, v) == ('c', 0) and self.start(st, R(st, c[2])) == 'head' or R(st, c[2]) == nxt(R(st, v)) and self.elem(st, R(st, v)) for st in ins):
                        self.prev[phi(v)] = c

    def start(self, st, x):
        if self.slot(st, x):
            return 'head'
        if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == 'next' and x[1][1][0] == 'd':
            y = x[1][1][1]
            if self.elem(st, y) and self.same(st, y) is False:
                return 'inner'
        return None

    def elem(self, st, x):
        return x in self.cur or x in self.prev or bool(self.start(st, x))

    def null(self, st, x):
        return holds(self.e, st, self.e.mk('==', self.full(st, x), ('c', 0)))

    def full(self, st, x):
        """the term with epochs a fact of this state may carry"""
        for a in st.facts:
            for t in subterms(a):
                if bare(t) == x:
                    return t
        return x

    def exhausted(self, st):
        """the whole chain was compared and the element is not in it"""
        for a in list(st.facts):
            if a[0] == 'mark':
                continue
            for t in subterms(a):
                b = bare(t)
                if not b or not isinstance(b[0], str):
                    continue
                if (b in self.cur or self.slot(st, b)) and self.null(st, b):
                    return True
                if b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == 'next' and b[1][1][0] == 'd' and self.elem(st, b[1][1][1]) and b[1][1][1] not in self.prev and self.null(st, b) and self.same(st, b[1][1][1]) is False:
                    return True
        return False

    def empty(self, st, slot):
        """the chain has no element"""
        return self.null(st, slot) or any(self.null(st, q) and self.null(st, c) for q, c in self.prev.items())

    def first(self, st, x):
        """x is the first element"""
        return self.slot(st, x) or x in self.cur and any(c == x and self.null(st, q) for q, c in self.prev.items())

    def last(self, st, x):
        if self.null(st, nxt(x)):
            return self.elem(st, x) and self.same(st, x) is False
        # the element before the end
        return x in self.prev and self.null(st, self.prev[x]) is True

    def before(self, st, x, y):
        return self.prev.get(x) == y or y == nxt(x) and self.elem(st, x)


def run(ctx, fn, outer=None):
    h = Chain()
    f = ctx.flat(fn) if hasattr(ctx, 'flat') else ctx.prog.fn(fn)
    f = ctx.prog.fn(fn)
    h.outer = outer
    e = Engine(ctx.prog, ctx.summ, ctx.known, K=600, hooks=h, functional=FUNC, stable=STABLE)
    exits = e.run(fn)
    return f, h, e, exits


# -------------------------------------------------------------------------------------------- hash table
class Table:
    """roles of a hash table function's values"""
    def __init__(self, f, e):
        self.t = ('d', arg(f, 0))
        self.key = arg(f, 1) if len(f.params) > 1 else None

    def index(self, st):
        """the index of the key's chain"""
        return [('b', '%', bare(rv), ('ld', ('fld', self.t, 'buckets'))) for args, rv in marks(st, 'hash') if args == (self.key,)]

    def chains(self, st):
        return [('idx', ('d', ('ld', ('fld', self.t, 'HT'))), i) for i in self.index(st)]

    def slot(self, st, x):
        return x[0] == 'ld' and x[1] in self.chains(st)

    def same(self, st, x):
        for args, rv in marks(st, 'equal'):
            if set(args) == {self.key, ('ld', ('fld', ('d', x), 'key'))}:
                k = st.facts.get(('b', '==', rv, ('c', 0)))
                if k is not None:
                    return not k
        return None


def unlink(w, st, writes, pool_used):
    """what is removed from a chain by the stores of a path: (element, problem)"""
    if len(writes) != 1:
        return None, 'a chain is changed at more than one place'
    p, v, _ = writes[0]
    for a in st.facts:
        pass
    cand = set()
    if v[0] == 'ld' and v[1][0] == 'fld' and v[1][2] == 'next':
        cand.add(v[1][1][1])
    if v == ('c', 0):
        for a in st.facts:
            for t in subterms(a):
                b = bare(t)
                if b and b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == 'next' and b[1][1][0] == 'd' and w.null(st, b):
                    cand.add(b[1][1][1])
    for x in cand:
        if p[0] == 'idx' and w.slot(st, ('ld', p)) and w.first(st, x):
            return x, None
        if p[0] == 'fld' and p[2] == 'next' and p[1][0] == 'd' and w.before(st, p[1][1], x):
            return x, None
    return None, 'the chain is not relinked around one element'


def links(st):
    """stores to chain links on this path"""
    return [m for m in marks(st, 'write') if m[0][0] == 'idx' or m[0][2] == 'next']


def hashtable(ctx, rep):
    p = ctx.prog
    n = 0
    # find
    f, h, e, exits = run(ctx, 'HashTable_Get')
    T = Table(f, e)
    w = Walk(e, h, f, T.slot, T.same)
    bad = set(w.bad)
    for st, rv in exits:
        n += 1
        rv = bare(rv)
        if rv == ('c', 0):
            if not w.exhausted(st):
                bad.add('a key is reported missing before its whole chain was compared')
        elif not (rv[0] == 'ld' and rv[1][0] == 'fld' and rv[1][2] == 'value' and rv[1][1][0] == 'd' and w.elem(st, rv[1][1][1]) and T.same(st, rv[1][1][1]) is True):
            bad.add('a value is returned whose key was not found equal to the one asked for')
        if marks(st, 'write'):
            bad.add('a lookup changes the table')
    rep.ob(not bad, 'hash table lookup', loc(f), '; '.join(sorted(bad)) or 'the value of an equal key in the chain of the key\'s hash, NULL only after the whole chain', key='get ' + '; '.join(sorted(bad)))
    # enter
    f, h, e, exits = run(ctx, 'HashTable_Set')
    T = Table(f, e)
    w = Walk(e, h, f, T.slot, T.same)
    bad = set(w.bad)
    val = arg(f, 2)
    for st, rv in exits:
        n += 1
        pops = marks(st, 'Stack_Pop')
        wr = {m[0]: m[1] for m in sorted(marks(st, 'write'), key=lambda m: m[2])}
        fresh = [r for a, r in pops if a == (('a', ('fld', T.t, 'VMStack')),)]
        L = [m for m in links(st) if not any(m[0] == ('fld', ('d', x), 'next') for x in fresh)]
        if not L:
            if pops or not any(q[0] == 'fld' and q[2] == 'value' and v == val and T.same(st, q[1][1]) is True and w.elem(st, q[1][1]) for q, v in wr.items()):
                bad.add('a value is not stored')
            if len(wr) > 1:
                bad.add('an existing entry is changed in more than its value')
            continue
        if len(fresh) != 1 or len(L) != 1:
            bad.add('a new entry is not taken from the unused ones and linked once')
            continue
        x = fresh[0]
        F = lambda k: wr.get(('fld', ('d', x), k))
        if F('key') != T.key or F('value') != val:
            bad.add('a new entry does not get the key and the value')
        if not w.exhausted(st):
            bad.add('a new entry is made although the key may have one already')
        q, v, _ = L[0]
        old = F('next')
        if v != x:
            bad.add('what is linked is not the new entry')
        elif q[0] == 'idx':
            if not w.slot(st, ('ld', q)) or not (old == ('ld', q) or old == ('c', 0) and w.empty(st, ('ld', q))):
                bad.add('entries of the chain get lost when a new one is put first')
        elif not (q[1][0] == 'd' and w.last(st, q[1][1]) and old == ('c', 0)):
            bad.add('a new entry is not put at the end of the chain of its key')
    rep.ob(not bad, 'hash table entry', loc(f), '; '.join(sorted(bad)) or 'an equal key\'s value is replaced, otherwise one new entry is linked into the chain of the key\'s hash', key='set ' + '; '.join(sorted(bad)))
    # delete
    f, h, e, exits = run(ctx, 'HashTable_Delete')
    T = Table(f, e)
    w = Walk(e, h, f, T.slot, T.same)
    bad = set(w.bad)
    for st, rv in exits:
        n += 1
        x, why = unlink(w, st, links(st), None)
        if x is None:
            bad.add(why)
            continue
        alone = w.slot(st, x) and w.null(st, nxt(x))
        if T.same(st, x) is not True and not (alone and T.same(st, x) is None):
            bad.add('an entry is deleted whose key was not found equal')
        if [a for a, _ in marks(st, 'Stack_Push')] != [(('a', ('fld', T.t, 'VMStack')), x)]:
            bad.add('the deleted entry is not given back, or another one is')
    rep.ob(not bad, 'hash table deletion', loc(f), '; '.join(sorted(bad)) or 'the entry with the equal key (or the only one of its chain) is unlinked and given back', key='delete ' + '; '.join(sorted(bad)))
    rep.count('table_paths', n)
    # initialization
    f = p.fn('HashTable_INIT')
    ok = {'all chains empty': False, 'all entries unused': False}

    class I(Hooks):
        def on_store(self, e, st, ff, ins, path, val, cx):
            if path[0] == 'idx' and strip(val) == ('c', 0):
                self.mark(st, 'null', bare(path[1]), strip(path[2]))

        def on_call(self, e, st, ff, ins, name, vals, cx):
            if name == 'Stack_Push':
                self.mark(st, 'push', bare(vals[0]), bare(vals[1]))
    h = I()
    e = Engine(p, ctx.summ, ctx.known, K=200, hooks=h, functional=FUNC, stable=STABLE)
    e.run(f.name)
    P = {v: k for k, v in enumerate(f.params)}
    par = lambda nm: next((arg(f, k) for k, v in enumerate(f.params) if v.split(':')[1] == nm), None)
    ints = [k for k, v in enumerate(f.params) if p.types.canon(f.vars[v]) == 'int']
    for L in find_loops(f):
        for iv, (init, step, tests) in L.ivs.items():
            if init != ('c', 0) or step != 1 or not tests or tests[0][1] not in ('<', '!='):
                continue
            b = tests[0][2]
            b = next((k for k in ints if b == ('v', f.params[k])), None) if b[0] == 'v' else next((k for k in ints if b[0] == 'fld' and b[2] == f.params[k].split(':')[1]), None)
            for g, ins, body, st in h.back:
                if body != set(L.body) or b is None:
                    continue
                nm = f.params[b].split(':')[1]
                i = lambda t: any(y == ('v', iv) for y in subterms(t))
                if nm == 'buckets' and any(i(k) and k[0] == 'phi' for q, k in marks(st, 'null')):
                    ok['all chains empty'] = True
                if nm == 'maxElements' and any(i(x) and x[0] in ('a', 'b') for q, x in marks(st, 'push')):
                    ok['all entries unused'] = True
    for k, v in ok.items():
        rep.ob(v, 'hash table initialization', loc(f), k if v else f'not {k} after the initialization', key='init ' + k)


# -------------------------------------------------------------------------------------------- atom index
def atomindex(ctx, rep):
    p = ctx.prog
    depth = int(ctx.macro('UNIFICATION_DEPTH'))
    n = 0
    guards = {}
    for fn in ('InvertedAtomIndex_AddConcept', 'InvertedAtomIndex_RemoveConcept'):
        f = p.fn(fn)
        cov = [(covers(L, v, 0, depth)[0], L, v) for L in find_loops(f) for v in L.ivs if any(i.k == 'call' and i.id in L.body for i in f.ins)]
        sw = [(L, v) for ok, L, v in cov if ok]
        bad = set()
        if not sw and any(ok is False for ok, L, v in cov):
            rep.ob(False, 'atom index', loc(f), 'not every atom that can be asked for is visited', key=fn + ' sweep')
            continue
        if not sw:
            raise BrokenAnalysis(f'the sweep over the atoms is not recognised in {fn}')
        L0, iv = sw[0]
        f, h, e, exits = run(ctx, fn, outer=set(L0.body))
        term, conc = arg(f, 0), arg(f, 1)

        def atom(st):
            pos = next((t for a in st.facts for t in subterms(a) if len(t) == 3 and t[0] == 'phi' and t[2] == ('v', iv)), None)
            return ('el', ('fld', term, 'atoms'), pos)

        def slot(st, x):
            return x == ('ld', ('idx', ('v', 'invertedAtomIndex'), atom(st)))

        def same(st, x):
            for a, tv in st.facts.items():
                if a[0] == 'b' and a[1] == '==' and {bare(a[2]), bare(a[3])} == {conc, ('ld', ('fld', ('d', x), 'c'))}:
                    return tv
            return None
        w = Walk(e, h, f, slot, same)
        bad |= w.bad
        add = fn.endswith('AddConcept')
        for st, rv in exits:
            pos = atom(st)[2]
            if not any(holds(e, st, e.mk(op, x, bound)) is False for _, op, bound, _ in L0.ivs[iv][2] for x in (e.read(st, ('v', iv)), pos) if x is not None):
                bad.add('the sweep over the atoms may end before the last')
        for g, ins, body, st in h.back:
            if body != h.outer:
                continue
            n += 1
            A = atom(st)
            simple = holds(e, st, ('call', 'Narsese_IsSimpleAtom', (A,)))
            wr = {m[0]: m[1] for m in sorted(marks(st, 'write'), key=lambda m: m[2])}
            pops = [r for a, r in marks(st, 'Stack_Pop') if a == (('a', ('v', 'conceptChainElementStack')),)]
            pushes = [a for a, _ in marks(st, 'Stack_Push')]
            LK = [m for m in links(st) if not any(m[0] == ('fld', ('d', x), 'next') for x in pops)]
            found = [x for x in w.cur | {('ld', ('idx', ('v', 'invertedAtomIndex'), A))} if same(st, x) is True]
            if simple is not True and (wr or pops or pushes):
                if simple is None:
                    bad.add('the index is changed for atoms that may be no simple ones')
                    continue
            if simple is False:
                if wr or pops or pushes:
                    bad.add('the index is changed for atoms that are no simple ones')
                continue
            if simple is None:
                bad.add('the entries of an atom are passed over')
                continue
            if add:
                if found:
                    if wr or pops:
                        bad.add('a concept gets a second entry for one atom')
                    continue
                if not LK:
                    bad.add('a concept does not get an entry for one of its atoms')
                    continue
                if len(LK) != 1 or len(pops) != 1 or LK[0][1] != pops[0]:
                    bad.add('a new entry is not taken from the unused ones and linked once')
                    continue
                x = pops[0]
                q, _, _ = LK[0]
                if wr.get(('fld', ('d', x), 'c')) != conc:
                    bad.add('a new entry does not name the concept')
                if not w.exhausted(st):
                    bad.add('a new entry is made although the concept may have one already')
                old = wr.get(('fld', ('d', x), 'next'))
                if q[0] == 'idx':
                    if not slot(st, ('ld', q)) or not (old == ('ld', q) or old in (None, ('c', 0)) and w.empty(st, ('ld', q))):
                        bad.add('entries of the atom get lost when a new one is put first')
                elif not (q[1][0] == 'd' and w.last(st, q[1][1]) and old in (None, ('c', 0))):
                    bad.add('a new entry is not put at the end of the chain of its atom')
            else:
                own = [m for m in LK if not (m[0][0] == 'fld' and m[0][2] == 'next' and m[1] == ('c', 0) and any(m[0][1] == ('d', x) for x in found))]
                if not found:
                    if wr or pushes:
                        bad.add('an entry is removed that does not name the concept')
                    elif not w.exhausted(st):
                        bad.add('an entry of the concept may stay in the index')
                    continue
                x, why = unlink(w, st, own, None)
                if x is None:
                    bad.add(why)
                    continue
                if same(st, x) is not True:
                    bad.add('an entry is removed that does not name the concept')
                if pushes != [(('a', ('v', 'conceptChainElementStack')), x)]:
                    bad.add('the removed entry is not given back, or another one is')
                if wr.get(('fld', ('d', x), 'next')) != ('c', 0):
                    bad.add('a removed entry keeps its successor: it is taken as unused later')
        rep.ob(not bad, 'atom index', loc(f), '; '.join(sorted(bad)) or ('every simple atom within the depth gets exactly one entry naming the concept' if add else 'every entry of a simple atom within the depth that names the concept goes'), key=fn + ' ' + '; '.join(sorted(bad)))
    rep.count('index_paths', n)
    # unused elements have no successor
    f = p.fn('InvertedAtomIndex_INIT')

    class I(Hooks):
        def on_store(self, e, st, ff, ins, path, val, cx):
            self.mark(st, 'w', bare(path), val)

        def on_call(self, e, st, ff, ins, name, vals, cx):
            if name == 'Stack_Push':
                x = vals[1]
                fresh = x[0] == 'a' and e.read(st, ('fld', x[1], 'next')) in (('c', 0), ('zero', 'void *'))
                self.mark(st, 'push', bare(vals[0]), bare(x), fresh)
    h = I()
    e = Engine(p, ctx.summ, ctx.known, K=200, hooks=h, functional=FUNC, stable=STABLE)
    e.run(f.name)
    ok = {'all chains empty': False, 'all entries unused': False}
    total = depth * int(ctx.macro('CONCEPTS_MAX'))
    atoms = int(ctx.macro('ATOMS_MAX'))
    for L in find_loops(f):
        for iv in L.ivs:
            for g, ins, body, st in h.back:
                if body != set(L.body):
                    continue
                i = ('phi', ((), L.head), ('v', iv))
                if covers(L, iv, 0, atoms)[0] and any(q[0] == 'idx' and q[1] == ('v', 'invertedAtomIndex') and q[2][0] == 'phi' and q[2][2] == ('v', iv) and v == ('c', 0) for q, v in marks(st, 'w')):
                    ok['all chains empty'] = True
                if covers(L, iv, 0, total)[0] and any(q == ('a', ('v', 'conceptChainElementStack')) and fr and mentions(x, lambda t: t == ('v', iv)) for q, x, fr in marks(st, 'push')):
                    ok['all entries unused'] = True
    for k, v in ok.items():
        rep.ob(v, 'atom index initialization', loc(f), k if v else f'not {k} after the initialization', key='index init ' + k)
    f = p.fn('InvertedAtomIndex_GetConceptChain')
    e = Engine(p, ctx.summ, ctx.known, K=50, hooks=Hooks(), functional=FUNC, stable=STABLE)
    ok = all(bare(rv) == ('ld', ('idx', ('v', 'invertedAtomIndex'), arg(f, 0))) or rv == ('c', 0) and holds(e, st, e.mk('==', arg(f, 0), ('c', 0))) for st, rv in e.run(f.name))
    rep.ob(ok, 'atom index', loc(f), 'the chain of the atom asked for' if ok else 'what is returned is not the chain of the atom asked for', key='chain')


# -------------------------------------------------------------------------------------------- conceptualization
class Conc(Hooks):
    def __init__(self):
        super().__init__()
        self.evs = {}

    def ev(self, st, *m):
        n = sum(1 for a in st.facts if a[0] == 'mark' and a[1] == 'ev')
        self.mark(st, 'ev', n, *m)

    def obj(self, v):
        return v[1] if v[0] == 'a' else ('d', v)

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name in ('HashTable_Delete', 'HashTable_Set'):
            k = self.obj(vals[1])
            self.ev(st, name, self.obj(vals[0]), k, e.read(st, k), vals[2] if len(vals) > 2 else None)
        elif name in ('InvertedAtomIndex_AddConcept', 'InvertedAtomIndex_RemoveConcept'):
            self.ev(st, name, vals[0], vals[1])

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name in ('HashTable_Get', 'Memory_FindConceptByTerm', 'PriorityQueue_Push'):
            self.ev(st, name, self.obj(vals[0]), vals[1] if len(vals) > 1 else None, rv)

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        if r[0] == 'd' or r[0] == 'v' and not e.islocal(r[1]):
            self.ev(st, 'write', path, val)


def same_term(e, st, a, b):
    """values of terms, up to the hash cache"""
    at = lambda v: bare(e.proj(v, ('fld', 'atoms')))
    return a == b or at(a) == at(b)


def conceptualize(ctx, rep):
    p = ctx.prog
    f = p.fn('Memory_Conceptualize')
    h = Conc()
    e = Engine(p, ctx.summ, ctx.known, K=200, hooks=h, functional=FUNC, stable=STABLE)
    bad, n = set(), 0
    T = ('d', arg(f, 0))
    for st, rv in e.run(f.name):
        n += 1
        evs = [m[1:] for m in sorted(marks(st, 'ev'))] if False else [m[1:] for m in sorted(marks(st, 'ev'), key=lambda m: m[0])]
        look = [x for x in evs if x[0] == 'Memory_FindConceptByTerm' and x[1] == T or x[0] == 'HashTable_Get' and x[1] == ('v', 'HTconcepts') and x[2] == arg(f, 0)]
        push = [x for x in evs if x[0] == 'PriorityQueue_Push']
        rest = [x for x in evs if x not in look and x not in push]
        if not look or evs[0] not in look:
            bad.add('a concept may be made for a term without looking whether it has one')
            continue
        r = look[0][-1]
        new = holds(e, st, e.mk('==', r, ('c', 0)))
        if new is False:
            if push or rest:
                bad.add('memory is changed although the term has a concept')
            if rv != r:
                bad.add('the concept of the term is not returned')
            continue
        if new is None and (push or rest):
            bad.add('a concept may be made for a term that has one')
            continue
        if not push:
            bad.add('a new term is not conceptualized')
            continue
        if len(push) > 1 or push[0][1] != ('v', 'concepts'):
            bad.add('more than one place is taken for a concept, or one of another queue')
            continue
        F = push[0][-1]
        fl = lambda *s: bare(e.proj(F if len(s) == 1 else e.proj(F, ('fld', s[0])), ('fld', s[-1])))
        truth = lambda v: next((not tv for a, tv in st.facts.items() if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0) and bare(a[2]) == v), next((tv for a, tv in st.facts.items() if bare(a) == v), None))
        added, evicted = truth(fl('added')), truth(fl('evicted'))
        if added is False:
            if rest or rv != ('c', 0):
                bad.add('memory is changed although there was no place for the concept')
            continue
        if added is None:
            bad.add('a concept may be made although there was no place for it')
            continue
        X = e.proj(e.proj(F, ('fld', 'addedItem')), ('fld', 'address'))
        XP = ('d', X)
        dele = [k for k, x in enumerate(rest) if x[0] == 'HashTable_Delete']
        rem = [k for k, x in enumerate(rest) if x[0] == 'InvertedAtomIndex_RemoveConcept']
        add = [k for k, x in enumerate(rest) if x[0] == 'InvertedAtomIndex_AddConcept']
        sets = [k for k, x in enumerate(rest) if x[0] == 'HashTable_Set']
        wr = [k for k, x in enumerate(rest) if x[0] == 'write' and (x[1] == XP or any(q == XP for q in pre(x[1])))]
        other = [x for x in rest if x[0] == 'write' and not (x[1] == XP or any(q == XP for q in pre(x[1]))) and x[1] != ('v', 'concept_id')]
        if other:
            bad.add('something else is changed while a concept is made')
        firstw = min(wr) if wr else 10**6
        old = lambda v: v[0] == 'ld' and bare(v)[1] == ('fld', XP, 'term')
        if evicted is True:
            if len(dele) != 1 or rest[dele[0]][1] != ('v', 'HTconcepts') or not old(rest[dele[0]][3]) or dele[0] > firstw:
                bad.add('an evicted concept stays in the term lookup')
            if len(rem) != 1 or rest[rem[0]][2] != X or not old(rest[rem[0]][1]) or rem[0] > firstw:
                bad.add('an evicted concept stays in the atom index')
            elif add and rem[0] > add[0]:
                bad.add('entries of the new concept are removed with those of the evicted one')
        elif evicted is False:
            if dele or rem:
                bad.add('a concept is taken out of the indices that was not evicted')
        else:
            bad.add('concepts are not told apart by whether another one was evicted for them')
        now = e.read(st, ('fld', XP, 'term'))
        given = e.read(st, T)
        put = lambda k, fld: e.proj(rest[k][2], ('fld', fld)) if rest[k][1] == XP else rest[k][2]
        if len(add) != 1 or rest[add[0]][2] != X or not (same_term(e, st, rest[add[0]][1], given) or same_term(e, st, rest[add[0]][1], now)):
            bad.add('a new concept is not entered in the atom index under its term')
        if len(sets) != 1 or rest[sets[0]][1] != ('v', 'HTconcepts') or rest[sets[0]][4] != X or rest[sets[0]][2] != ('fld', XP, 'term') or not same_term(e, st, rest[sets[0]][3], given):
            bad.add('a new concept is not entered in the term lookup under its own term')
        tw = [k for k in wr if rest[k][1] == ('fld', XP, 'term') or rest[k][1] == XP]
        if sets and tw and max(tw) > sets[0]:
            bad.add('the term of a concept changes after it was entered in the term lookup')
        if not tw or not (same_term(e, st, now, given) or any(same_term(e, st, put(k, 'term'), given) for k in tw[-1:])):
            bad.add('a new concept does not get the term it is made for')
        if not any(rest[k][1] == XP for k in wr):
            bad.add('a new concept keeps contents of the one whose place it takes')
        idw = [rest[k][2] for k in wr if rest[k][1] == ('fld', XP, 'id')] + [e.proj(rest[k][2], ('fld', 'id')) for k in wr if rest[k][1] == XP and not any(rest[j][1] == ('fld', XP, 'id') for j in wr)]
        cw = [x[2] for x in rest if x[0] == 'write' and x[1] == ('v', 'concept_id')]
        cur = ('ld', ('v', 'concept_id'))
        last = bare(strip(cw[-1])) if cw else None
        i = bare(strip(idw[-1])) if idw else None
        ok = last == ('b', '+', cur, ('c', 1)) and i in (cur, last)
        if not ok:
            bad.add('a new concept does not get an id of its own')
        if rv != X:
            bad.add('the new concept is not returned')
    rep.expect('paths of the conceptualization', n, 3)
    rep.ob(not bad, 'conceptualization', loc(f), '; '.join(sorted(bad)) or f'on all {n} paths: one concept per term, entered in both indices, an evicted one removed from both before its place is reused', key='conceptualize ' + '; '.join(sorted(bad)))
    g = p.fn('Memory_FindConceptByTerm')
    h2 = Conc()
    e2 = Engine(p, ctx.summ, ctx.known, K=50, hooks=h2, functional=FUNC, stable=STABLE)
    ok = True
    for st, rv in e2.run(g.name):
        evs = marks(st, 'ev')
        ok = ok and len(evs) == 1 and evs[0][1] == 'HashTable_Get' and evs[0][2] == ('v', 'HTconcepts') and evs[0][3] == arg(g, 0) and rv == evs[0][4]
    rep.ob(ok, 'term lookup', loc(g), 'the concept entered for the term' if ok else 'what is returned is not what the term lookup has for the term', key='find')


def pre(q):
    while q[0] in ('fld', 'idx'):
        q = q[1]
        yield q


# -------------------------------------------------------------------------------------------- who else
def owners(ctx, rep):
    """nothing else touches the indices, or what they are keyed by"""
    p = ctx.prog
    callers = {}
    for f in p.funcs.values():
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str):
                callers.setdefault(i.b, set()).add(f.name)

    def allowed(names):
        out = set(names)
        while True:
            more = {n for n in p.funcs if n not in ctx.known and n not in out and callers.get(n) and callers[n] <= out}
            if not more:
                return out
            out |= more
    making, init = allowed({'Memory_Conceptualize'}), allowed({'Memory_INIT', 'Memory_ResetConcepts'})
    index = allowed({'InvertedAtomIndex_AddConcept', 'InvertedAtomIndex_RemoveConcept', 'InvertedAtomIndex_INIT'})
    table = allowed({'HashTable_Set', 'HashTable_Delete', 'HashTable_INIT'})
    n = 0

    def lv(x):
        return x[1] if x[0] == 'a' else ('d', x)

    def typ(f, q):
        return ctx.summ.ty.T.canon(ctx.summ.ty.of(f, q) or '') if q else ''

    def concept_of(f, q):
        """the concept (reached through memory) that an lvalue is part of, and the part"""
        while q[0] in ('fld', 'idx'):
            if q[0] == 'fld' and typ(f, q[1]) == 'Concept':
                return q[1], q[2]
            q = q[1]
        return None, None

    def is_local(f, q):
        while q[0] in ('fld', 'idx'):
            q = q[1]
        return q[0] == 'v' and q[1] in f.vars
    for f in p.funcs.values():
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str):
                a0 = lv(i.c[0]) if i.c and isinstance(i.c[0], tuple) else None
                what = None
                if i.b in ('HashTable_Set', 'HashTable_Delete') and a0 == ('v', 'HTconcepts'):
                    what = (making, 'the term lookup is changed outside of conceptualization')
                elif i.b in ('InvertedAtomIndex_AddConcept', 'InvertedAtomIndex_RemoveConcept'):
                    what = (making, 'the atom index is changed outside of conceptualization')
                elif i.b in ('PriorityQueue_Push', 'PriorityQueue_PopMin', 'PriorityQueue_PopMax', 'PriorityQueue_PopAt') and a0 == ('v', 'concepts'):
                    what = (making, 'concepts are added or removed outside of conceptualization')
                elif i.b in ('HashTable_INIT', 'PriorityQueue_INIT') and a0 in (('v', 'HTconcepts'), ('v', 'concepts')) or i.b == 'InvertedAtomIndex_INIT':
                    what = (init, 'an index is emptied outside of the initialization')
                if what:
                    n += 1
                    rep.ob(f.name in what[0], 'changes of the indices', p.loc(f, i), i.b if f.name in what[0] else what[1], key=f'{what[1]} {f.name} {i.b}')
                if i.b in p.funcs:
                    for k, c in ctx.summ.pmod[i.b]:
                        if k < len(i.c) and c in (('Term', 'atoms'), ('elem', 'Term'), ('Concept', 'term'), ('Concept', 'id'), ('elem', 'Concept')):
                            q = lv(i.c[k]) if isinstance(i.c[k], tuple) else None
                            if q is None or is_local(f, q):
                                continue
                            part = concept_of(f, q)[1]
                            if part == 'term' and c[0] != 'Concept' and f.name not in making | init:
                                n += 1
                                rep.ob(False, 'changes of keys', p.loc(f, i), f'{i.b} changes the term of a concept while the indices have it under the old one', key=f'key {f.name} {i.b}')
            if i.k in ('set', 'call') and i.a is not None and isinstance(i.a, tuple) and not is_local(f, i.a):
                q = i.a
                t = typ(f, q)
                c, part = concept_of(f, q)
                bad = None
                if t == 'Concept' and f.name not in making | init:
                    bad = 'a concept is overwritten while the indices name it'
                elif part in ('term', 'id') and f.name not in making | init:
                    bad = f'the {part} of a concept changes while the indices have it under the old one'
                elif root_of(q) == ('v', 'concept_id') and f.name not in making | init:
                    bad = 'ids are handed out elsewhere'
                elif root_of(q) == ('v', 'invertedAtomIndex') and f.name not in index:
                    bad = 'the atom index is changed elsewhere'
                elif q[0] == 'fld' and typ(f, q[1]) == 'ConceptChainElement' and f.name not in index or t == 'ConceptChainElement' and f.name not in index:
                    bad = 'entries of the atom index are changed elsewhere'
                elif (q[0] == 'fld' and typ(f, q[1]) == 'VMItem' or t == 'VMItem') and f.name not in table:
                    bad = 'entries of a hash table are changed elsewhere'
                if bad:
                    n += 1
                    rep.ob(False, 'changes of the indices', p.loc(f, i), bad, key=f'{bad} {f.name} {show(q)}')
    rep.count('index_changing_sites', n)
    rep.expect('index changing sites', n, 5)
    # initialization: all of it, with fitting storage
    f = p.fn('Memory_INIT')
    flat = ctx.prog
    calls = [(g, i) for g in (p.funcs[x] for x in init if x in p.funcs) for i in g.ins if i.k == 'call' and isinstance(i.b, str)]
    cmax = int(ctx.macro('CONCEPTS_MAX'))
    hi = [(g, i) for g, i in calls if i.b == 'HashTable_INIT' and lv(i.c[0]) == ('v', 'HTconcepts')]
    ok, why = len(hi) == 1, 'the term lookup is not initialized once'
    if ok:
        g, i = hi[0]
        T = p.types

        def size(x):
            while x[0] == 'cast':
                x = x[2]
            if x[0] == 'a' and x[1][0] == 'idx' and x[1][1][0] == 'v':
                return T.arrlen(p.globals[x[1][1][1]]) if isinstance(p.globals.get(x[1][1][1]), str) else T.arrlen(ctx.summ.ty.of(g, x[1][1]))
            if x[0] == 'v':
                return T.arrlen(ctx.summ.ty.of(g, x))
            return None
        names = [v.split(':')[1] for v in p.fn('HashTable_INIT').params]
        A = dict(zip(names, i.c))
        un = lambda x: x if not (isinstance(x, tuple) and x[0] == 'cast') else un(x[2])
        elements, buckets = un(A['maxElements']), un(A['buckets'])
        if elements[0] != 'c' or elements[1] < cmax:
            ok, why = False, 'the term lookup has no room for all concepts'
        elif not all((size(A[k]) or 0) >= elements[1] for k in ('storage', 'storageptrs')) or buckets[0] != 'c' or (size(A['HT']) or 0) < buckets[1]:
            ok, why = False, 'the storage of the term lookup is smaller than it is told'
        elif [un(A[k]) for k in ('equal', 'hash')] not in ([('fn', 'Term_Equal'), ('fn', 'Term_Hash')], [('v', 'Term_Equal'), ('v', 'Term_Hash')]):
            ok, why = False, 'the term lookup does not compare terms by Term_Equal and Term_Hash'
    rep.ob(ok, 'initialization of the indices', loc(f), 'term lookup with room for all concepts, comparing terms' if ok else why, key='init lookup ' + why)
    ok = any(i.b == 'InvertedAtomIndex_INIT' for g, i in calls) and any(i.b == 'PriorityQueue_INIT' and lv(i.c[0]) == ('v', 'concepts') for g, i in calls)
    rep.ob(ok, 'initialization of the indices', loc(f), 'concepts and atom index are emptied together with the term lookup' if ok else 'an index or the concepts are not emptied with the others', key='init all')


def check(ctx):
    rep = Report('C07', ctx, 'Path-sensitive abstract interpretation of the chain operations: walks (current element, predecessor) are recognised as loop invariants, and each path has to leave the chain with exactly the entry entered or removed that '
                 'the operation names. Typestate over the paths of the conceptualization (look up, take a place, take the evicted concept out of both indices, overwrite, enter in both). Who-may-write rules over all instructions of the program.',
                 ['the queue hands out each storage place once (C21)', 'the cached hash of a key matches its term (C09)', 'Stack_Push and Stack_Pop keep what is on the stack (C20)'])
    hashtable(ctx, rep)
    atomindex(ctx, rep)
    conceptualize(ctx, rep)
    owners(ctx, rep)
    return rep
