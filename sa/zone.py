"""Zones: a relational interval analysis of indices, capacities and string lengths (difference bounds x - y <= c).

Dimensions of a zone
  ('p', lv)     value of the integer variable or memory place lv (access path)
  ('cap', o)    number of elements that may be accessed from the pointer stored in place o
  ('len', o)    index of the first zero element of the string/pointer array o (array lvalue or pointer place)
  ('nn', o)     1 if the pointer in place o is not NULL, 0 if it is
  ('in', k)     value dimension k had at the entry of the function
  ('ret', s)    part s of the returned value
  ('t', n)      temporary
A state is a list of zones keyed by the values of the live flags.  Function summaries relate entry and exit values; entry
states are joined over all call sites; integer fields and globals carry program-wide intervals (F); relations between the fields of a record
that every function re-establishes (H) are found by dropping candidates until the rest is inductive."""
import functools
import numpy as np
from .frontend import int_range, show
from .absint import loops, liveness, expr_vars, subterms, WRITES_EXT, NORETURN

INF = 1 << 45
HALF = 1 << 44
INT = (-(1 << 31), (1 << 31) - 1)


class Z:
    __slots__ = ('ix', 'ks', 'm', 'bot', 'term', 'dirty', 'facts')

    def __init__(self):
        self.ix, self.ks, self.m, self.bot = {}, [None], np.zeros((1, 1), dtype=np.int64), False
        self.term, self.dirty, self.facts = frozenset(), {}, {}

    def copy(self):
        z = Z.__new__(Z)
        z.ix, z.ks, z.m, z.bot = dict(self.ix), list(self.ks), self.m.copy(), self.bot
        z.term, z.dirty, z.facts = self.term, {b: set(s) for b, s in self.dirty.items()}, dict(self.facts)
        return z

    def has(self, k):
        return k in self.ix

    def add(self, *keys):
        ks = [k for k in keys if k not in self.ix]
        if not ks:
            return
        n = len(self.ks)
        m = np.full((n + len(ks), n + len(ks)), INF, dtype=np.int64)
        m[:n, :n] = self.m
        for j, k in enumerate(ks):
            m[n + j, n + j] = 0
            self.ix[k] = n + j
            self.ks.append(k)
        self.m = m

    def drop(self, keys):
        rows = {self.ix[k] for k in keys if k in self.ix}
        if not rows:
            return
        keep = [i for i in range(len(self.ks)) if i not in rows]
        self.m = self.m[np.ix_(keep, keep)]
        self.ks = [self.ks[i] for i in keep]
        self.ix = {k: i for i, k in enumerate(self.ks) if i}

    def row(self, k):
        return 0 if k is None else self.ix[k]

    def le(self, a, b, c):
        """key a - key b <= c"""
        if self.bot or a == b:
            if a == b and c < 0:
                self.bot = True
            return
        i, j = self.row(a), self.row(b)
        m = self.m
        if c >= m[i, j]:
            return
        if m[j, i] + c < 0:
            self.bot = True
            return
        m = np.minimum(m, (m[:, i] + c)[:, None] + m[j, :][None, :])
        m[m > HALF] = INF
        self.m = m

    def lin_le(self, x, y, c=0):
        """assume x <= y + c for linear forms"""
        self.le(x[0], y[0], y[1] - x[1] + c)

    def diff(self, x, y):
        """least c with x - y <= c known"""
        if x[0] == y[0]:
            return x[1] - y[1]
        d = int(self.m[self.row(x[0]), self.row(y[0])])
        return INF if d >= HALF else d + x[1] - y[1]

    def hi(self, x):
        return self.diff(x, (None, 0))

    def lo(self, x):
        d = self.diff((None, 0), x)
        return -INF if d >= HALF else -d

    def entails(self, x, y, c=0):
        return self.bot or self.diff(x, y) <= c

    def eq(self, k, x):
        self.le(k, x[0], x[1])
        self.le(x[0], k, -x[1])

    def rename(self, old, new):
        i = self.ix.pop(old)
        self.ix[new] = i
        self.ks[i] = new

    def project(self, keys):
        self.drop([k for k in self.ks[1:] if k not in keys])

    def order(self, ks):
        p = [0] + [self.ix[k] for k in ks]
        return self.m[np.ix_(p, p)]


def zjoin(a, b):
    if a.bot:
        return b
    if b.bot:
        return a
    ks = [k for k in a.ks[1:] if k in b.ix]
    z = Z.__new__(Z)
    z.ks = [None] + ks
    z.ix = {k: i + 1 for i, k in enumerate(ks)}
    z.m = np.maximum(a.order(ks), b.order(ks))
    z.bot = False
    z.term = a.term & b.term
    z.dirty = {x: a.dirty.get(x, set()) | b.dirty.get(x, set()) for x in set(a.dirty) | set(b.dirty)}
    z.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    return z


def zwiden(a, b, th):
    """a: old, b: new (b includes a)"""
    z = zjoin(a, b)
    o = a.order(z.ks[1:])
    g = z.m > o
    if g.any():
        w = z.m.copy()
        up = th[np.minimum(np.searchsorted(th, w), len(th) - 1)]
        w = np.where(g, up, w)
        w[w > HALF] = INF
        z.m = w
        close(z)
    return z


def close(z):
    m = z.m
    for k in range(len(z.ks)):
        m = np.minimum(m, m[:, k][:, None] + m[k, :][None, :])
    m[m > HALF] = INF
    if (np.diagonal(m) < 0).any():
        z.bot = True
    z.m = m


def zleq(a, b):
    """a included in b"""
    if a.bot:
        return True
    if b.bot:
        return False
    for k in b.ks[1:]:
        if k not in a.ix:
            # a has no information on k: b may not have any either
            i = b.ix[k]
            r = b.m[i, :].copy()
            c = b.m[:, i].copy()
            r[i] = c[i] = INF
            if (r < INF).any() or (c < INF).any():
                return False
    ks = [k for k in b.ks[1:] if k in a.ix]
    if not (a.order(ks) <= b.order(ks)).all():
        return False
    if not b.term <= a.term:
        return False
    if any(a.facts.get(k) != v for k, v in b.facts.items()):
        return False
    return all(s <= b.dirty.get(x, set()) for x, s in a.dirty.items())


def merge_big(a, ks, mat):
    """zone over the keys of a and ks, constrained by a and by mat (a matrix over [None]+ks)"""
    z = a.copy()
    z.add(*ks)
    p = [0] + [z.ix[k] for k in ks]
    sub = z.m[np.ix_(p, p)]
    z.m[np.ix_(p, p)] = np.minimum(sub, mat)
    close(z)
    return z


def wto(f):
    """weak topological order of the flow graph (Bourdoncle): vertices and (head, inner order, set of nodes)"""
    import sys
    sys.setrecursionlimit(100000)
    dfn, num, stack = {}, [0], []
    BIG = 1 << 60

    def component(v):
        part = []
        for s in f.ins[v].succ:
            if dfn.get(s, 0) == 0:
                visit(s, part)
        return part

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head, loop = dfn[v], False
        for s in f.ins[v].succ:
            m = visit(s, part) if dfn.get(s, 0) == 0 else dfn[s]
            if m <= head:
                head, loop = m, True
        if head == dfn[v]:
            dfn[v] = BIG
            x = stack.pop()
            if loop:
                while x != v:
                    dfn[x] = 0
                    x = stack.pop()
                body = component(v)
                ins = {v}
                for y in body:
                    ins |= {y} if isinstance(y, int) else y[2]
                part.insert(0, (v, body, ins))
            else:
                part.insert(0, v)
        return head
    out = []
    visit(f.entry, out)
    return out


def subst(e, mp):
    """replace variables of an access path (mp: var -> expression)"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'v' and len(e) == 2:
        return mp.get(e[1], e)
    if e[0] == 'd':
        p = subst(e[1], mp)
        if p[0] == 'a':
            return p[1]
        return ('d', p)
    if e[0] == 'idx' and e[1][0] == 'd':
        p = subst(e[1][1], mp)
        i = subst(e[2], mp)
        if p[0] == 'a' and p[1][0] == 'idx':
            j = p[1][2]
            return ('idx', p[1][1], i if j == ('c', 0) else j if i == ('c', 0) else ('b', '+', j, i))
        return ('idx', ('d', p), i)
    return tuple(subst(x, mp) if isinstance(x, tuple) else x for x in e)


def root(lv):
    while lv[0] in ('fld', 'idx'):
        lv = lv[1]
    return lv


def under(lv, base):
    """suffix of lv below base, or None"""
    s = []
    while True:
        if lv == base:
            return tuple(reversed(s))
        if lv[0] == 'fld':
            s.append(('fld', lv[2]))
        elif lv[0] == 'idx':
            s.append(('idx', lv[2]))
        else:
            return None
        lv = lv[1]


def attach(base, suffix):
    for s in suffix:
        base = (s[0], base, s[1])
    return base


class Fn:
    """what the analysis needs to know about one function, independent of states"""

    def __init__(self, A, f):
        self.f = f
        self.live = liveness(f, A.p)
        self.heads, _, self.rpo = loops(f)
        self.num = {x: i for i, x in enumerate(self.rpo)}
        self.taken, self.assigned = set(), set()
        for i in f.ins:
            if i.k == 'set' and i.a[0] == 'v':
                self.assigned.add(i.a[1])
            if i.k == 'call' and i.a is not None and i.a[0] == 'v':
                self.assigned.add(i.a[1])
            for x in (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b):
                for t in subterms(x) if isinstance(x, tuple) else ():
                    if t[:1] == ('a',) and isinstance(t[1], tuple):
                        r = root(t[1])
                        if r[0] == 'v':
                            self.taken.add(r[1])
        self.info = {}
        self.need = set()
        self.org = None

    def origins(self, summ):
        if self.org is None:
            self.org = summ.origins(self.f)
        return self.org


class Analysis:
    K = 8

    def __init__(self, prog, summ, skip=(), roots=()):
        self.p, self.s, self.ty, self.T = prog, summ, summ.ty, summ.ty.T
        self.skip = set(skip)
        if not hasattr(self.T.canon, 'cache_info'):
            self.T.canon = functools.lru_cache(None)(self.T.canon)
        self.tymemo, self.rmemo, self.ownmemo = {}, {}, {}
        self.fn = {n: Fn(self, f) for n, f in prog.funcs.items() if n not in self.skip}
        self.sum = {}
        self.F, self.H = {}, {}
        self.useF = False
        self.ntmp = 0
        th = {-2, -1, 0, 1, 2, 31, 32, INF}
        for g in prog.globals.values():
            self.dims_of(g['type'], th)
        for f in prog.funcs.values():
            for t in f.vars.values():
                self.dims_of(t, th)
        for r, fs in self.T.records.items():
            for _, t in fs:
                self.dims_of(t, th)
        th |= {-x for x in th if x < INF}
        self.th = np.array(sorted(th), dtype=np.int64)
        self.collect_need()
        self.obs = None
        self.mine()
        self.relevance()

    def mine(self):
        """thresholds for the program-wide interval of an integer field or global: lengths of the arrays it is an index of, and of
        the arrays of its record"""
        self.fth = {}
        for F in self.fn.values():
            f = F.f
            for i in f.ins:
                for x in (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b):
                    for t in subterms(x) if isinstance(x, tuple) else ():
                        if t[:1] == ('idx',) and len(t) == 3 and isinstance(t[1], tuple) and t[1][0] != 'd' and t[1][0] != 'strlv':
                            ty = self.tyof(f, t[1])
                            n = self.T.arrlen(ty) if '[' in ty else None
                            if n is None:
                                continue
                            for u in subterms(t[2]):
                                if u[:1] in (('fld',), ('v',)) and len(u) > 1 and self.isint(self.tyof(f, u)):
                                    c = self.fclass(f, u)
                                    if c is not None:
                                        self.fth.setdefault(c, set()).update((n - 1, n, n + 1))
        for R, fs in self.T.records.items():
            ns = {self.T.arrlen(self.T.canon(t)) for _, t in fs if '[' in self.T.canon(t)} - {None}
            for n, t in fs:
                if self.isint(self.T.canon(t)):
                    for k in ns:
                        self.fth.setdefault((R, n), set()).update((k - 1, k, k + 1))

    def nodes(self, f, e):
        """what an integer expression is computed from: locals, field and global classes"""
        out = set()
        for t in subterms(e):
            if t[:1] == ('v',) and len(t) == 2 and t[1] in f.vars and t[1] not in self.p.globals:
                if self.isint(self.tyof(f, t)):
                    out.add(('v', t[1]))
            elif t[:1] in (('v',), ('fld',), ('idx',), ('d',)) and len(t) > 1 and isinstance(t[1], (tuple, str)):
                if self.isint(self.tyof(f, t)) and not (t[0] == 'd' and t[1][0] not in ('v', 'fld', 'd', 'idx')):
                    try:
                        out |= set(self.own(f, t))
                    except Exception:
                        pass
        return out

    def relevance(self):
        """integers that may matter for an index, a size or a capacity: closed under assignment, comparison and calls"""
        par = {}

        def find(x):
            while par.setdefault(x, x) != x:
                par[x] = par[par[x]]
                x = par[x]
            return x

        def link(xs):
            xs = list(xs)
            for x in xs[1:]:
                par[find(x)] = find(xs[0])
        seeds, cmps = set(), []
        chars = {('elem', t) for t in ('char', 'signed char', 'unsigned char')}
        for n, F in self.fn.items():
            f = F.f
            for i in f.ins:
                es = (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b)
                for x in es:
                    for t in subterms(x) if isinstance(x, tuple) else ():
                        if t[:1] == ('idx',) and len(t) == 3 and isinstance(t[2], tuple):
                            seeds |= self.nodes(f, t[2])
                        if t[:1] == ('b',) and t[1] in ('+', '-') and self.T.is_ptr(self.tyof(f, t)):
                            for q in t[2:]:
                                if not self.T.is_ptr(self.tyof(f, q)):
                                    seeds |= self.nodes(f, q)
                        if t[:1] == ('b',) and t[1] in ('==', '!=', '<', '>', '<=', '>='):
                            cmps.append(self.nodes(f, t))
                if i.k == 'set':
                    if self.isint(self.tyof(f, i.a)):
                        link(self.nodes(f, i.a) | self.nodes(f, i.b))
                    elif i.b[0] == 'agg':
                        t = self.tyof(f, i.a)
                        for fld, x in i.b[2]:
                            if x[0] not in ('agg', 'zero', 'arr') and self.isint(self.tyof(f, ('fld', i.a, fld))):
                                link({(t, fld)} | self.nodes(f, x))
                elif i.k == 'ret' and isinstance(i.a, tuple) and self.isint(self.T.canon(f.ret)):
                    link({('ret', n)} | self.nodes(f, i.a))
                elif i.k == 'call':
                    cs = [i.b] if isinstance(i.b, str) else list(self.s.targets(f, i))
                    for c in cs:
                        if c in self.fn:
                            g = self.fn[c].f
                            for v, a in zip(g.params, i.c):
                                t = self.T.canon(g.vars[v])
                                if self.isint(t):
                                    link({('v', v)} | self.nodes(f, a))
                                elif self.T.is_ptr(t) and self.isint(self.T.elem(t) or ''):
                                    x = self.uncast(a)
                                    if x[0] == 'a' and x[1][0] != 'strlv':
                                        link(set(self.own(f, x[1])) | {('elem', self.T.elem(t))} | self.nodes(f, x[1]))
                            if i.a is not None and self.isint(self.tyof(f, i.a)):
                                link({('ret', c)} | self.nodes(f, i.a))
                        else:
                            for q in {q for _, q in self.SIZED.get(c, ())} | ({0} if c in ('malloc',) else set()):
                                if q < len(i.c):
                                    seeds |= self.nodes(f, i.c[q])
        for R, fs in self.T.records.items():
            if any(self.T.is_ptr(self.T.canon(t)) and not self.T.is_record(self.T.elem(self.T.canon(t)) or '') or n == 'items' for n, t in fs):
                seeds |= {(R, n) for n, t in fs if self.isint(self.T.canon(t))} if len(fs) < 8 else set()
        good = {find(x) for x in seeds}
        # long numbers are times and identifiers, unless a function called through a pointer returns them
        self.cbret = set()
        for n in self.p.fnptr_refs():
            if n in self.fn:
                for i in self.fn[n].f.ins:
                    if i.k == 'ret' and isinstance(i.a, tuple) and self.isint(self.T.canon(self.fn[n].f.ret)):
                        self.cbret |= self.nodes(self.fn[n].f, i.a)
        for xs in cmps:
            link(xs)
        good = {find(x) for x in seeds}
        self.relv = {x for x in list(par) if find(x) in good} | seeds
        self.trivmemo = {}

    def trivial(self, c):
        """no interval is kept for the class: flags, characters, times and identifiers, what never meets an index"""
        r = self.trivmemo.get(c)
        if r is None:
            t = None
            if c[0] == 'glob':
                g = self.p.globals.get(c[1])
                t = self.T.canon(g['type']) if g else None
            elif len(c) == 2:
                t = dict(self.T.records.get(c[0], ())).get(c[1])
                t = self.T.canon(t) if t else None
            while t and '[' in t:
                t = self.T.elem(t)
            r = t is None or not self.isint(t) or t in ('bool', '_Bool', 'char', 'signed char', 'unsigned char') or \
                (c not in self.fth and c not in (self.cbret if t == 'long' else self.relv))
            self.trivmemo[c] = r
        return r

    def fwiden(self, c, hi, k):
        for x in sorted(self.fth.get(c, set()) | {1}):
            if x >= hi and k < 12:
                return x
        return INF

    def dims_of(self, t, th):
        t = self.T.canon(t)
        while t and '[' in t:
            n = self.T.arrlen(t)
            if n:
                th |= {n - 1, n, n + 1}
            t2 = self.T.elem(t)
            if t2 == t:
                break
            t = t2

    # ------------------------------------------------------------------ types
    def isint(self, t):
        return self.trange(t) is not None

    def trange(self, t):
        try:
            return self.rmemo[t]
        except KeyError:
            r = self.rmemo[t] = int_range(t)
            return r

    def tyof(self, f, e):
        k = (f.name, e)
        t = self.tymemo.get(k)
        if t is None:
            try:
                t = self.ty.of(f, e) or 'int'
            except Exception:
                t = 'int'
            self.tymemo[k] = t
        return t

    def voidp(self, t):
        return t.replace(' ', '') in ('void*', 'constvoid*')

    # ------------------------------------------------------------------ places needed by callers and callees
    def collect_need(self):
        for n, F in self.fn.items():
            f = F.f
            for i in f.ins:
                for x in (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b):
                    for t in subterms(x) if isinstance(x, tuple) else ():
                        if t[:1] in (('fld',), ('d',)) and len(t) > 1 and isinstance(t[1], tuple):
                            self.want(F, t)
        for _ in range(3):
            for n, F in self.fn.items():
                for i in F.f.ins:
                    if i.k == 'call' and i.b in self.fn:
                        g = self.fn[i.b]
                        mp = {v: a for v, a in zip(g.f.params, i.c)}
                        for lv in list(g.need):
                            self.want(F, subst(lv, mp))

    def want(self, F, lv):
        f = F.f
        d = 0
        x = lv
        while x[0] in ('fld', 'idx'):
            if x[0] == 'idx':
                if x[2][0] != 'c' or x[1][0] == 'd':
                    return
            x = x[1]
            d += 1
            if d > 3:
                return
        if x[0] == 'v' and lv[0] == 'fld' and x[1] not in f.vars:
            pass
        elif x[0] != 'd' or x[1][0] != 'v' or x[1][1] not in f.params:
            return
        t = self.tyof(f, lv)
        if (self.isint(t) and t not in ('char', 'signed char', 'unsigned char')) or (self.T.is_ptr(t) and not self.voidp(t) and not self.T.is_record(self.T.elem(t) or '') or self.T.is_ptr(t) and lv[0] == 'fld' and lv[2] in ('items',)):
            if x[0] == 'd':
                F.need.add(lv)

    # ------------------------------------------------------------------ keys and what invalidates them
    def keyinfo(self, F, k):
        r = F.info.get(k)
        if r is not None:
            return r
        vs, loads = set(), []
        if k[0] in ('p', 'cap', 'len', 'nn'):
            expr_vars(k[1], vs)

            def walk(e, top):
                if not isinstance(e, tuple) or not e:
                    return
                if e[0] in ('fld', 'idx', 'd') or e[0] == 'v':
                    if top:
                        loads.append(e)
                    x = e
                    while x[0] in ('fld', 'idx'):
                        if x[0] == 'idx':
                            walk(x[2], True)
                        x = x[1]
                    if x[0] == 'd':
                        walk(x[1], True)
                    return
                for x in e[1:]:
                    if isinstance(x, tuple):
                        walk(x, True)
            walk(k[1], True)
            if k[0] == 'len':
                o = k[1]
                t = self.tyof(F.f, o)
                if o[0] != 'strlv':
                    loads.append(('idx', o if '[' in t else ('d', o), ('u', '?', ('c', 0))))
        r = F.info[k] = (vs, [(l, self.own(F.f, l), self.tyof(F.f, l)) for l in loads if l[0] != 'v' or l[1] not in F.f.vars or l[1] in F.taken])
        return r

    def own(self, f, l):
        k = (f.name, l)
        r = self.ownmemo.get(k)
        if r is None:
            r = self.ownmemo[k] = self.ty.own_class(f, l)
        return r

    def mayalias(self, F, l, lv):
        a, b = root(l), root(lv)
        if a[0] == 'v' and b[0] == 'v':
            if a[1] != b[1]:
                return False
            p, q = under(l, a), under(lv, b)
            for s, t in zip(p, q):
                if s[0] == 'fld' and t[0] == 'fld' and s[1] != t[1]:
                    return False
                if s[0] == 'idx' and t[0] == 'idx' and s[1][0] == 'c' and t[1][0] == 'c' and s[1] != t[1]:
                    return False
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == 'v' and x[1] in F.f.vars:
                if x[1] not in F.taken:
                    return False
                if y[0] == 'd' and x[1] not in F.f.params and '[' in self.tyof(F.f, x):
                    # what a parameter points to is not a local array
                    e = y[1]
                    while e[0] in ('cast', 'b'):
                        e = e[2]
                    if e[0] == 'v' and e[1] in F.f.vars:
                        og = F.origins(self.s)(e)
                        if og and all(q[0] == 'p' for q in og if isinstance(q, tuple)) and 'x' not in og:
                            return False
        return True

    def clash(self, F, l, own, t, cls, lv, lvt):
        if own & cls and (lv is None or self.mayalias(F, l, lv)):
            return True
        for c in cls:
            if c[0] == 'elem' and c[1] == t and (l[0] == 'idx' or l[0] == 'v') and (lv is None or self.mayalias(F, l, lv)):
                return True
        for c in own:
            if c[0] == 'elem' and lv is not None and (lv[0] in ('idx',) or lv[0] == 'v') and lvt == c[1] and self.mayalias(F, l, lv):
                return True
        return False

    def kill(self, z, F, lv, cls=None, keep=()):
        """forget what a store to lvalue lv may change"""
        f = F.f
        dead = []
        if lv is not None and lv[0] == 'v' and lv[1] in f.vars:
            for k in z.ks[1:]:
                if k[0] in ('p', 'cap', 'len', 'nn') and lv[1] in self.keyinfo(F, k)[0]:
                    dead.append(k)
            if lv[1] not in F.taken:
                self.kill_facts(z, F, lv, dead)
                return self.dropkeys(z, F, dead, keep)
        if cls is None:
            cls = self.ty.lvclasses(f, lv)
        self.storing = lv
        lvt = self.tyof(f, lv) if lv is not None else None
        for k in z.ks[1:]:
            if k[0] in ('p', 'cap', 'len', 'nn') and k not in keep:
                for l, own, t in self.keyinfo(F, k)[1]:
                    if self.clash(F, l, own, t, cls, lv, lvt):
                        dead.append(k)
                        break
        self.kill_facts(z, F, lv, dead)
        self.dropkeys(z, F, dead, keep)

    def kill_facts(self, z, F, lv, dead):
        if z.facts:
            d = set(dead)
            for k in list(z.facts):
                v = z.facts[k]
                if lv is not None and lv[0] == 'v' and (k == lv[1] or lv in subterms(v)):
                    del z.facts[k]
                elif ('len', v[1]) in d or (lv is None or lv[0] != 'v'):
                    if self.chars(F, v[1], lv):
                        del z.facts[k]
        if z.term and lv is not None and lv[0] == 'v' and lv[1] in F.f.vars:
            t = frozenset(o for o in z.term if lv not in subterms(o) or '[' in self.tyof(F.f, lv))
            z.term = t

    def chars(self, F, o, lv):
        if lv is None:
            return True
        t = self.tyof(F.f, lv)
        return t in ('char', 'unsigned char', 'signed char') or 'char[' in t or self.T.is_ptr(t)

    def dropkeys(self, z, F, dead, keep=()):
        d = [k for k in dead if k not in keep]
        z.drop(d)
        if z.dirty and d:
            vs = set(k[1] for k in d if k[0] in ('p', 'cap') and k[1] != self.storing)
            for b in list(z.dirty):
                opened = {x for _, h in z.dirty[b] for x in h[:2]}
                if any(l[0] == 'fld' and l[1] == b and l[2] in opened for l in vs):
                    # the record whose invariant is open can no longer be followed
                    self.fail(F, z, b, 'the record is changed through another name while open', True)

    # ------------------------------------------------------------------ reading values
    def tmp(self, z):
        self.ntmp += 1
        k = ('t', self.ntmp)
        z.add(k)
        return k

    def ranged(self, z, lo, hi):
        k = self.tmp(z)
        if hi is not None and hi < HALF:
            z.le(k, None, hi)
        if lo is not None and lo > -HALF:
            z.le(None, k, -lo)
        return (k, 0)

    def place(self, z, F, lv, kind='p'):
        k = (kind, lv)
        if z.has(k):
            return k
        f = F.f
        if kind == 'p':
            z.add(k)
            t = self.tyof(f, lv)
            r = self.trange(t)
            if r is not None:
                if r[0] == 0:
                    z.le(None, k, 0)
                if r[1] < (1 << 20):
                    z.le(k, None, r[1])
                    z.le(None, k, -r[0])
            if self.useF and not self.nof:
                c = self.fclass(f, lv)
                if c is not None:
                    b = self.F.get(c, None)
                    if b is None:
                        return k
                    if b[1] < HALF:
                        z.le(k, None, b[1])
                    if b[0] > -HALF:
                        z.le(None, k, -b[0])
        elif kind == 'cap':
            z.add(k)
            z.le(None, k, -1 if self.T.is_record(self.T.elem(self.tyof(f, lv)) or '') else 0)
        elif kind == 'len':
            z.add(k)
            z.le(None, k, 0)
            t = self.tyof(f, lv)
            n = self.T.arrlen(t) if '[' in t else None
            if n is not None:
                loc = root(lv)[0] == 'v' and root(lv)[1] in f.vars and not self.is_static(root(lv)[1])
                z.le(k, None, n - 1 if (lv in z.term or not loc) else n)
            else:
                z.le(k, None, INT[1] - 1)
                if not self.voidp(t):
                    z.le(k, self.place(z, F, lv, 'cap'), -1)
        elif kind == 'nn':
            z.add(k)
            z.le(None, k, 0)
            z.le(k, None, 1)
        if self.useF and lv[0] == 'fld' and kind in ('p', 'cap'):
            self.assume_H(z, F, lv)
        return k

    def is_static(self, v):
        return v in self.p.globals

    def fclass(self, f, lv):
        c = self.own(f, lv)
        if len(c) != 1:
            return None
        c = next(iter(c))
        if c[0] in ('loc', 'elem'):
            return None
        return None if self.trivmemo is not None and self.trivial(c) else c

    def assume_H(self, z, F, lv):
        R = self.tyof(F.f, lv[1])
        inv = self.H.get(R)
        if not inv:
            return
        base, fld = lv[1], lv[2]
        bad = set()
        for b, s in z.dirty.items():
            bad |= s
        for h in inv:
            if (R, h) in bad:
                continue
            a, g, kd = h
            if fld not in (a, g):
                continue
            x = self.place(z, F, ('fld', base, a))
            y = self.place(z, F, ('fld', base, g), 'cap' if kd == 'cap' else 'p')
            z.le(x, y, 0)

    def lin(self, z, F, e):
        k = e[0]
        f = F.f
        if k == 'c':
            return (None, e[1]) if isinstance(e[1], int) else None
        if k == 'v':
            t = self.tyof(f, e)
            if not self.isint(t):
                return None
            return (self.place(z, F, e), 0)
        if k in ('fld', 'idx', 'd'):
            t = self.tyof(f, e)
            if not self.isint(t):
                return None
            if t in ('char', 'signed char', 'unsigned char'):
                return self.ranged(z, *self.trange(t))
            if self.useF and F.f.name in self.fn:
                c = self.fclass(f, e)
                if c is not None and c not in self.F:
                    z.bot = True        # nothing has been stored there so far
            return (self.place(z, F, e), 0)
        if k == 'cast':
            t = self.T.canon(e[1])
            r = self.trange(t)
            if r is None:
                return None
            x = None
            if e[2][0] == 'b' and e[2][1] in ('+', '-') and t in ('int', 'long') and self.tyof(f, e[2]).startswith('unsigned'):
                # wrapping around and back again
                x, y = self.lin(z, F, e[2][2]), self.lin(z, F, e[2][3])
                x = self.arith(z, e[2][1], x, y) if x is not None and y is not None else None
                if x is not None and r[0] <= z.lo(x) and z.hi(x) <= r[1]:
                    return x
            x = self.lin(z, F, e[2])
            if x is None:
                if self.T.is_ptr(self.tyof(f, e[2])) and t in ('long', 'long long', 'unsigned long'):
                    return self.ranged(z, 0, None)      # addresses are not negative
                return self.ranged(z, r[0], r[1])
            st = self.trange(self.tyof(f, e[2]))
            lo, hi = z.lo(x), z.hi(x)
            if st is not None:
                if lo < st[0]:
                    lo = st[0]
                if hi > st[1]:
                    hi = st[1]
            if r[0] <= lo and hi <= r[1]:
                return x
            if t in ('long', 'long long') and lo >= r[0]:
                return x
            return self.ranged(z, r[0], r[1])
        if k == 'u':
            x = self.lin(z, F, e[2])
            if e[1] == '!':
                return self.ranged(z, 0, 1)
            if x is None:
                return None
            if e[1] == '-':
                return self.ranged(z, -z.hi(x), -z.lo(x))
            if e[1] == '+':
                return x
            return self.ranged(z, None, None)
        if k == 'b':
            op = e[1]
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.ranged(z, 0, 1)
            t = self.tyof(f, e)
            if self.T.is_ptr(t) or not self.isint(t):
                return None
            a = b = None
            if op != '-' or not self.T.is_ptr(self.tyof(f, e[2])):
                a, b = self.lin(z, F, e[2]), self.lin(z, F, e[3])
            if op == '-' and (a is None or b is None):
                pd = self.ptrdiff(z, F, e)
                if pd is not None:
                    return pd
            if a is None or b is None:
                r = self.trange(t)
                return self.ranged(z, *r) if r else None
            x = self.arith(z, op, a, b)
            if op == '^' and z.lo(x) < 0:
                for u, w in ((e[2], e[3]), (e[3], e[2])):
                    u, w = self.uncast(u), self.uncast(w)
                    if w[0] == 'b' and w[1] == '>>' and self.uncast(w[2]) == u and z.lo(self.lin(z, F, w[3])) >= 1:
                        x = self.ranged(z, 0, None)     # the sign bit meets its own copy
            if t.startswith('unsigned') and z.lo(x) < 0:
                r = self.trange(t)
                return self.ranged(z, r[0], r[1])
            return x
        return None

    def ptrlocal(self, F, e):
        return e[0] == 'v' and e[1] in F.f.vars and e[1] not in F.f.params and e[1] not in F.taken and not self.is_static(e[1]) and self.T.is_ptr(self.T.canon(F.f.vars[e[1]]))

    def ptrdiff(self, z, F, e):
        """the distance of two local pointers, as a quantity of its own"""
        a, b = self.uncast(e[2]), self.uncast(e[3])
        if not self.ptrlocal(F, a) or not self.ptrlocal(F, b):
            return None
        k = ('p', ('b', '-', a, b))
        if not z.has(k):
            z.add(k)
            z.le(k, None, INT[1])
            z.le(None, k, -INT[0])
        return (k, 0)

    def arith(self, z, op, a, b):
        if op == '+':
            if b[0] is None:
                return (a[0], a[1] + b[1])
            if a[0] is None:
                return (b[0], a[1] + b[1])
            t = self.tmp(z)
            la, ha, lb, hb = z.lo(a), z.hi(a), z.lo(b), z.hi(b)
            # t - a <= hb ...
            if hb < HALF:
                z.le(t, a[0], a[1] + hb)
            if lb > -HALF:
                z.le(a[0], t, -a[1] - lb)
            if ha < HALF:
                z.le(t, b[0], b[1] + ha)
            if la > -HALF:
                z.le(b[0], t, -b[1] - la)
            return (t, 0)
        if op == '-':
            if b[0] is None:
                return (a[0], a[1] - b[1])
            if a[0] == b[0]:
                return (None, a[1] - b[1])
            t = self.tmp(z)
            d1, d2 = z.diff(a, b), z.diff(b, a)
            if d1 < HALF:
                z.le(t, None, d1)
            if d2 < HALF:
                z.le(None, t, d2)
            lb, hb = z.lo(b), z.hi(b)
            if a[0] is not None:
                if lb > -HALF:
                    z.le(t, a[0], a[1] - lb)
                if hb < HALF:
                    z.le(a[0], t, hb - a[1])
            return (t, 0)
        la, ha, lb, hb = z.lo(a), z.hi(a), z.lo(b), z.hi(b)
        fin = max(abs(la), abs(ha), abs(lb), abs(hb)) < HALF
        if op == '*':
            if b[0] is not None and a[0] is None:
                a, b, la, ha, lb, hb = b, a, lb, hb, la, ha
            if fin:
                c = [la * lb, la * hb, ha * lb, ha * hb]
                r = self.ranged(z, min(c), max(c))
            else:
                r = self.ranged(z, max(la * lb, -INF) if la >= 0 and lb >= 0 else None, None)
            if b[0] is None and b[1] >= 1 and la >= 0:
                z.le(a[0], r[0], -a[1])
            return r
        if op == '/':
            if b[0] is None and b[1] > 0:
                c = b[1]
                r = self.ranged(z, int(la / c) if la > -HALF else None, int(ha / c) if ha < HALF else None)
                if la >= 0:
                    z.le(r[0], a[0], a[1])
                return r
            if la >= 0 and lb >= 1:
                r = self.ranged(z, 0, None)
                z.le(r[0], a[0], a[1])
                return r
            return self.ranged(z, None, None)
        if op == '%':
            r = self.ranged(z, None, None)
            if lb >= 0:     # division by zero does not go on
                z.le(r[0], b[0], b[1] - 1)
                if la >= 0:
                    z.le(None, r[0], 0)
                    z.le(r[0], a[0], a[1])
                elif hb < HALF:
                    z.le(None, r[0], hb - 1)
            else:
                q = max(-lb, hb)
                if q < HALF:
                    z.le(r[0], None, q - 1)
                    z.le(None, r[0], q - 1)
                if la >= 0:
                    z.le(None, r[0], 0)
                    z.le(r[0], a[0], a[1])
            return r
        if op == '&':
            if b[0] is None and b[1] >= 0:
                return self.ranged(z, 0, b[1])
            if a[0] is None and a[1] >= 0:
                return self.ranged(z, 0, a[1])
            if la >= 0 and lb >= 0:
                return self.ranged(z, 0, min(ha, hb))
            return self.ranged(z, None, None)
        if op == '>>':
            if la >= 0 and b[0] is None and 0 <= b[1] < 63:
                r = self.ranged(z, 0, ha >> b[1] if ha < HALF else None)
                z.le(r[0], a[0], a[1])
                return r
            return self.ranged(z, 0 if la >= 0 else None, None)
        if op == '<<':
            if la >= 0 and b[0] is None and 0 <= b[1] < 31:
                r = self.ranged(z, la << b[1] if la < HALF else None, ha << b[1] if ha < HALF else None)
                z.le(a[0], r[0], -a[1])
                return r
            return self.ranged(z, 0 if la >= 0 and lb >= 0 else None, None)
        if op in ('|', '^'):
            if la >= 0 and lb >= 0:
                return self.ranged(z, 0, (1 << max(int(ha).bit_length(), int(hb).bit_length())) - 1 if fin else None)
        return self.ranged(z, None, None)

    # ------------------------------------------------------------------ pointers
    def obj(self, z, F, e):
        """(object, offset linear form): object = array lvalue, pointer place, ('strlv',s), ('one',), or None"""
        k = e[0]
        f = F.f
        if k in ('v', 'fld', 'idx', 'd'):
            t = self.tyof(f, e)
            if '[' in t and not self.T.is_ptr(t):
                return e, (None, 0)
            if not self.T.is_ptr(t):
                return None
            return e, (None, 0)
        if k == 'a':
            x = e[1]
            if x[0] == 'strlv':
                return x, (None, 0)
            if x[0] == 'idx':
                i = self.lin(z, F, x[2])
                if i is None:
                    i = self.ranged(z, None, None)
                if x[1][0] == 'd':
                    o = self.obj(z, F, x[1][1])
                    if o is None:
                        return None
                    return o[0], self.arith(z, '+', o[1], i)
                if x[1][0] == 'strlv':
                    return x[1], i
                t = self.tyof(f, x[1])
                if '[' in t:
                    return x[1], i
                return None
            if self.T.elem(self.tyof(f, x)) in ('char', 'unsigned char', 'signed char') and '[' in self.tyof(f, x):
                return x, (None, 0)
            return ('one', x), (None, 0)
        if k == 'cast':
            t = self.T.canon(e[1])
            if not self.T.is_ptr(t):
                return None
            s = self.tyof(f, e[2])
            if e[2] == ('c', 0):
                return ('null',), (None, 0)
            if self.T.is_ptr(s) or s.startswith('ARRPTR') or '[' in s:
                a, b = self.T.elem(t), self.T.elem(s[7:] if s.startswith('ARRPTR') else s)
                if a == b or a == 'void':
                    return self.obj(z, F, e[2])
                if {a, b} <= {'char', 'unsigned char', 'signed char'}:
                    return self.obj(z, F, e[2])
            return None
        if k == 'b' and e[1] in ('+', '-'):
            o = self.obj(z, F, e[2])
            i = self.lin(z, F, e[3])
            if o is None or i is None:
                if e[1] == '+':
                    o, i = self.obj(z, F, e[3]), self.lin(z, F, e[2])
                if o is None or i is None:
                    return None
            return o[0], self.arith(z, e[1], o[1], i)
        if k == 'c' and e[1] == 0:
            return ('null',), (None, 0)
        return None

    def capo(self, z, F, o):
        if o[0] == 'null':
            return (None, 0)
        if o[0] == 'one':
            return (None, 1)
        if o[0] == 'strlv':
            return (None, len(o[1]) + 1)
        t = self.tyof(F.f, o)
        if '[' in t and not self.T.is_ptr(t):
            n = self.T.arrlen(t)
            return None if n is None else (None, n)
        if self.voidp(t) and not z.has(('cap', o)):
            return None
        return (self.place(z, F, o, 'cap'), 0)

    def cap(self, z, F, e):
        o = self.obj(z, F, e)
        if o is None:
            return None
        c = self.capo(z, F, o[0])
        if c is None:
            return None
        return self.arith(z, '-', c, o[1])

    def leno(self, z, F, o):
        if o[0] == 'strlv':
            return (None, len(o[1]))
        if o[0] in ('one', 'null'):
            return None
        t = self.tyof(F.f, o)
        if self.T.elem(t) is None or not (self.T.elem(t) in ('char', 'signed char', 'unsigned char') or self.T.is_ptr(self.T.elem(t))):
            return None
        return (self.place(z, F, o, 'len'), 0)

    def length(self, z, F, e):
        o = self.obj(z, F, e)
        if o is None:
            return None
        l = self.leno(z, F, o[0])
        if l is None:
            return None
        if z.lo(o[1]) >= 0 and z.entails(o[1], l):
            return self.arith(z, '-', l, o[1])
        return self.ranged(z, 0, INT[1] - 1)

    def nonnull(self, z, F, e):
        """linear form in 0..1, or None if nothing is known"""
        if e == ('c', 0):
            return (None, 0)
        if e[0] == 'a' or e[0] == 'fn':
            return (None, 1)
        if e[0] == 'cast':
            return self.nonnull(z, F, e[2])
        if e[0] in ('v', 'fld', 'idx', 'd'):
            k = ('nn', e)
            return (k, 0) if z.has(k) else None
        return None

    # ------------------------------------------------------------------ conditions
    def element(self, F, e):
        """e is the load of an element of a string or pointer array: (array expression as pointer, index)"""
        while e[0] == 'cast':
            e = e[2]
        if e[0] == 'idx':
            t = self.tyof(F.f, e)
            if t in ('char', 'unsigned char', 'signed char') or self.T.is_ptr(t):
                if e[1][0] == 'd':
                    return e[1][1], e[2]
                return ('a', ('idx', e[1], ('c', 0))), e[2]
        if e[0] == 'd':
            t = self.tyof(F.f, e)
            if t in ('char', 'unsigned char', 'signed char') or self.T.is_ptr(t):
                return e[1], ('c', 0)
        return None

    def nonzero_elem(self, z, F, el, isnz):
        o = self.obj(z, F, el[0])
        i = self.lin(z, F, el[1])
        if o is None or i is None:
            return
        l = self.leno(z, F, o[0])
        if l is None:
            return
        i = self.arith(z, '+', o[1], i)
        if isnz:
            if z.entails(i, l):
                z.lin_le(i, l, -1)
        elif z.lo(i) >= 0:
            z.lin_le(l, i)

    def assume(self, z, F, e, want):
        f = F.f
        if e[0] == 'u' and e[1] == '!':
            return self.assume(z, F, e[2], not want)
        if e[0] == 'cast' and self.isint(self.T.canon(e[1])) and (self.isint(self.tyof(f, e[2])) or self.T.is_ptr(self.tyof(f, e[2]))):
            return self.assume(z, F, e[2], want)
        if e[0] == 'c':
            if bool(e[1]) != want:
                z.bot = True
            return
        if e[0] == 'b' and e[1] in ('==', '!=', '<', '>', '<=', '>='):
            op, a, b = e[1], e[2], e[3]
            if not want:
                op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
            for x, y in ((a, b), (b, a)):
                while y[0] == 'cast':
                    y = y[2]
                if y[0] == 'c' and op in ('==', '!='):
                    nz = (op == '==') == (y[1] != 0)
                    el = self.element(F, x)
                    if el and (op == '==' or y[1] == 0):
                        self.nonzero_elem(z, F, el, nz)
                    if y[1] == 0:
                        self.truth(z, F, x, op == '!=')
            la, lb = self.lin(z, F, a), self.lin(z, F, b)
            if la is None or lb is None:
                x, y = self.uncast(a), self.uncast(b)
                if op in ('<', '<=', '>', '>=') and self.ptrlocal(F, x) and self.ptrlocal(F, y):
                    if op[0] == '<':
                        x, y, op = y, x, '>' + op[1:]
                    self.cmp(z, op, self.ptrdiff(z, F, ('b', '-', x, y)), (None, 0))
                return
            self.cmp(z, op, la, lb)
            return
        el = self.element(F, e)
        if el:
            self.nonzero_elem(z, F, el, want)
        self.truth(z, F, e, want)
        l = self.lin(z, F, e)
        if l is not None:
            self.cmp(z, '!=' if want else '==', l, (None, 0))

    def truth(self, z, F, e, want):
        while e[0] == 'cast':
            e = e[2]
        if e[0] == 'v' and e[1] in z.facts:
            fa = z.facts[e[1]]
            if fa[0] == ('is' if want else 'pre') and (self.T.is_ptr(self.tyof(F.f, fa[1])) or '[' in self.tyof(F.f, fa[1])):
                l = self.leno(z, F, fa[1])
                if l is not None:
                    z.lin_le((None, fa[2]), l)
        if e[0] == 'b' and e[1] in ('==', '!=', '<', '>', '<=', '>='):
            self.assume(z, F, e, want)
            return
        if self.T.is_ptr(self.tyof(F.f, e)):
            n = self.nonnull(z, F, e)
            if n is not None:
                self.cmp(z, '==', n, (None, 1 if want else 0))
            elif e[0] in ('v', 'fld', 'idx', 'd') and not want:
                pass

    def cmp(self, z, op, a, b):
        if op == '<':
            z.lin_le(a, b, -1)
        elif op == '<=':
            z.lin_le(a, b)
        elif op == '>':
            z.lin_le(b, a, -1)
        elif op == '>=':
            z.lin_le(b, a)
        elif op == '==':
            z.lin_le(a, b)
            z.lin_le(b, a)
        elif op == '!=':
            if z.diff(a, b) == 0:
                z.lin_le(a, b, -1)
            if not z.bot and z.diff(b, a) == 0:
                z.lin_le(b, a, -1)

    # ------------------------------------------------------------------ invariants of records
    def invs(self, R, fld):
        return [h for h in self.H.get(R, ()) if fld in (h[0], h[1])]

    def before_store(self, z, F, lv):
        """materialise the fields the invariants of the stored field mention"""
        if lv[0] == 'fld' and self.useF:
            R = self.tyof(F.f, lv[1])
            for h in self.invs(R, lv[2]):
                self.place(z, F, ('fld', lv[1], h[0]))
                self.place(z, F, ('fld', lv[1], h[1]), h[2])

    def after_store(self, z, F, lv):
        if lv[0] == 'fld' and self.useF and not z.bot:
            R = self.tyof(F.f, lv[1])
            for h in self.invs(R, lv[2]):
                if not (z.has(('p', ('fld', lv[1], h[0]))) and z.has((h[2], ('fld', lv[1], h[1])))):
                    ok = False
                else:
                    ok = z.entails((('p', ('fld', lv[1], h[0])), 0), ((h[2], ('fld', lv[1], h[1])), 0))
                s = z.dirty.get(lv[1], set())
                if ok:
                    s = s - {(R, h)}
                else:
                    s = s | {(R, h)}
                if s:
                    z.dirty[lv[1]] = s
                else:
                    z.dirty.pop(lv[1], None)

    trivmemo = None
    storing = None
    nof = False

    def fail(self, F, z, base, why, lost=False):
        for R, h in z.dirty.pop(base, set()):
            a, b = ('p', ('fld', base, h[0])), (h[2], ('fld', base, h[1]))
            if not lost and z.has(a) and z.has(b) and z.entails((a, 0), (b, 0)):
                continue
            self.fails.setdefault((R, h), (F.f.name, self.cur.line, why))

    def touches(self, callee, open_):
        c = self.s.mod[callee] | self.s.ref[callee] | {x for _, x in self.s.pmod[callee]}
        return any((R, h[0]) in c or (R, h[1]) in c for R, h in open_)

    def fail_all(self, F, z, why):
        for b in list(z.dirty):
            self.fail(F, z, b, why)

    def contrib(self, c, lo, hi, where):
        if c is None or self.trivial(c):
            return
        o = self.contribs.get(c)
        if o is None:
            self.contribs[c] = (lo, hi)
        else:
            self.contribs[c] = (min(o[0], lo), max(o[1], hi))

    # ------------------------------------------------------------------ assignments
    def assign_int(self, z, F, lv, x, contrib=True):
        """lv := linear form x (None: unknown)"""
        f = F.f
        t = self.tyof(f, lv)
        r = self.trange(t)
        self.before_store(z, F, lv)
        if x is not None and r is not None:
            lo, hi = z.lo(x), z.hi(x)
            if t in ('int', 'long', 'long long') and True:
                pass
            elif t in ('bool', '_Bool'):
                if lo < 0 or hi > 1:
                    x = (None, 1) if lo > 0 or hi < 0 else None
            elif not (r[0] <= lo and (hi <= r[1] or t in ('unsigned long', 'unsigned int', 'unsigned long long'))):
                x = None
        n = self.tmp(z)
        if x is not None:
            z.eq(n, x)
        elif r is not None and t not in ('int', 'long', 'long long'):
            if r[1] < (1 << 20):
                z.le(n, None, r[1])
            z.le(None, n, -r[0])
        keep = ()
        self.kill(z, F, lv)
        k = ('p', lv)
        z.drop([k])
        z.rename(n, k)
        if lv[0] != 'v' or lv[1] not in f.vars:
            if self.contribs is not None:
                c = self.fclass(f, lv)
                if c is not None:
                    for y in self.checked(z, F, lv):
                        self.contrib(c, y.lo((k, 0)), y.hi((k, 0)), None)
            self.after_store(z, F, lv)
            if any(s[0] in ('v',) and s[1] in f.vars and False for s in ()):
                pass

    def checked(self, z, F, lv):
        """the states in which others may see what was just stored: after assertions and decisions on it that follow at once,
        and not where it is at once replaced"""
        out = []
        save, self.contribs = self.contribs, None

        def alone(e):
            return not any(t[:1] in (('fld',), ('d',), ('idx',)) and t != lv and self.fclass(F.f, t) == self.fclass(F.f, lv) for t in subterms(e) if isinstance(t, tuple))

        def go(n, y, d, own):
            while True:
                if len(n.succ) != 1 or d <= 0:
                    break
                n = F.f.ins[n.succ[0]]
                d -= 1
                if n.k in ('nop', 'decl'):
                    continue
                if n.k == 'call' and n.b == 'Globals_assert':
                    if not own:
                        y, own = y.copy(), True
                    self.assume(y, F, n.c[0], True)
                    if y.bot:
                        return
                    continue
                if n.k == 'set' and n.a == lv:
                    if alone(n.b):
                        return
                if n.k == 'br' and len(n.succ) == 2 and lv in set(subterms(n.a)):
                    for w, t in zip((True, False), n.succ):
                        x = y.copy()
                        self.assume(x, F, n.a, w)
                        if x.bot:
                            continue
                        m = F.f.ins[t]
                        k = d
                        while m.k in ('nop', 'decl') and len(m.succ) == 1 and k > 0:
                            m, k = F.f.ins[m.succ[0]], k - 1
                        if m.k == 'set' and m.a == lv and alone(m.b):
                            continue
                        out.append(x)
                    return
                break
            out.append(y)
        go(self.cur, z, 8, False)
        self.contribs = save
        return out

    def assign_ptr(self, z, F, lv, cap, ln, nn, term=False):
        self.before_store(z, F, lv)
        tmps = []
        for kind, x in (('cap', cap), ('len', ln), ('nn', nn)):
            if x is not None:
                t = self.tmp(z)
                z.eq(t, x)
                tmps.append((kind, t))
        self.kill(z, F, lv)
        for kind, t in tmps:
            z.drop([(kind, lv)])
            z.rename(t, (kind, lv))
            if kind == 'len' and z.has(('cap', lv)):
                pass
        self.after_store(z, F, lv)

    def ptr_parts(self, z, F, e):
        c, l, n = self.cap(z, F, e), self.length(z, F, e), self.nonnull(z, F, e)
        o = self.obj(z, F, e)
        if c is not None and l is not None and o is not None and o[1] != (None, 0):
            c0, l0 = self.capo(z, F, o[0]), self.leno(z, F, o[0])
            if c0 is not None and l0 is not None and z.lo(o[1]) >= 0 and z.entails(o[1], l0) and z.entails(l0, c0, -1):
                z.lin_le(l, c, -1)      # the end of the text stays before the end of the array
        return c, l, n

    def set(self, z, F, lv, e):
        f = F.f
        t = self.tyof(f, lv)
        if e[0] == 'uninit':
            self.kill(z, F, lv)
            return
        if self.T.is_ptr(t):
            c, l, n = self.ptr_parts(z, F, e)
            if lv[0] == 'idx':
                c, l, n = self.hold(z, c), self.hold(z, l), self.hold(z, n)
                self.str_store(z, F, lv, e, n)
                for kind, x in (('cap', c), ('len', l), ('nn', n)):
                    if x is not None:
                        z.drop([(kind, lv)])
                        z.rename(x[0], (kind, lv))
                return
            self.assign_ptr(z, F, lv, c, l, n)
            return
        if t in ('char', 'signed char', 'unsigned char') and lv[0] in ('idx', 'd'):
            self.str_store(z, F, lv, e)
            return
        if self.isint(t):
            x = self.lin(z, F, e)
            if x is None and e[0] not in ('c',):
                pass
            self.assign_int(z, F, lv, x)
            return
        if e[0] in ('agg', 'zero', 'arr'):
            self.set_agg(z, F, lv, e, t)
            return
        if self.T.is_record(t):
            # copy of a record
            new = []
            if e[0] in ('v', 'fld', 'idx', 'd'):
                for k in list(z.ks[1:]):
                    if k[0] in ('p', 'cap', 'len', 'nn'):
                        s = under(k[1], e)
                        if s is not None and s:
                            n = self.tmp(z)
                            z.eq(n, (k, 0))
                            new.append((n, (k[0], attach(lv, s))))
                if self.useF:
                    for b in list(z.dirty):
                        if under(e, b) is not None or under(b, e) is not None:
                            self.fail(F, z, b, 'copied while open')
            self.kill(z, F, lv)
            for n, k in new:
                z.drop([k])
                z.rename(n, k)
            return
        self.kill(z, F, lv)

    def set_agg(self, z, F, lv, e, t):
        f = F.f
        vals = []
        if e[0] == 'agg':
            given = {fld for fld, _ in e[2]}
            more = [(n, ('c', 0)) for n, ft in (self.T.records[t] if self.T.is_record(t) else ()) if n not in given and self.isint(self.T.canon(ft))] if self.useF and self.H.get(t) else []
            for fld, x in list(e[2]) + more:
                l2 = ('fld', lv, fld)
                tt = self.tyof(f, l2)
                if x[0] == 'zero' and (self.isint(tt) or self.T.is_ptr(tt)):
                    x = ('c', 0)
                if x[0] in ('agg', 'zero', 'arr'):
                    if x[0] == 'zero' and '[' in tt:
                        self.zero_contribs_of(f, l2, tt)
                    vals.append((l2, tt, x, None))
                elif self.isint(tt):
                    y = self.lin(z, F, x)
                    n = self.tmp(z)
                    if y is not None:
                        z.eq(n, y)
                    vals.append((l2, tt, None, n))
                elif self.T.is_ptr(tt):
                    vals.append((l2, tt, 'ptr', tuple(self.hold(z, y) for y in self.ptr_parts(z, F, x))))
        self.kill(z, F, lv)
        if e[0] == 'zero' or (e[0] == 'arr' and not e[2]):
            self.zero_contribs(t)
            if '[' in t:
                self.zero_array(z, F, lv, t)
            return
        if e[0] == 'arr':
            et = self.T.elem(t)
            if all(x == ('c', 0) for x in e[2]):
                self.zero_contribs(t)
                self.zero_array(z, F, lv, t)
            else:
                c = None
                for x in e[2]:
                    y = self.lin(z, F, x) if self.isint(et) else None
                    if self.contribs is not None and self.isint(et):
                        c = self.fclass(f, ('idx', lv, ('c', 0)))
                        if c:
                            self.contrib(c, z.lo(y) if y else -INF, z.hi(y) if y else INF, None)
                if et in ('char',) and e[2] and e[2][-1] == ('c', 0):
                    z.term |= {lv}
            return
        for l2, tt, x, n in vals:
            if x is None:
                self.assign_int(z, F, l2, (n, 0))
            elif x == 'ptr':
                self.assign_ptr(z, F, l2, *n)
            else:
                self.set_agg(z, F, l2, x, tt)
        if e[0] == 'agg' and self.contribs is not None and self.T.is_record(t):
            # unnamed members are zero
            given = {fld for fld, _ in e[2]}
            for n, ft in self.T.records[t]:
                if n not in given:
                    if self.isint(self.T.canon(ft)):
                        self.contrib((t, n), 0, 0, None)
                    else:
                        self.zero_contribs(ft)

    def hold(self, z, x):
        if x is None:
            return None
        n = self.tmp(z)
        z.eq(n, x)
        return (n, 0)

    def zero_array(self, z, F, lv, t):
        et = self.T.elem(t)
        if et in ('char', 'signed char', 'unsigned char') or (et and self.T.is_ptr(et)):
            z.term |= {lv}
            k = ('len', lv)
            z.drop([k])
            z.add(k)
            z.eq(k, (None, 0))

    def zero_contribs_of(self, f, lv, t):
        et = t
        while '[' in et:
            et = self.T.elem(et)
            lv = ('idx', lv, ('c', 0))
        if self.contribs is not None and self.isint(et):
            c = self.fclass(f, lv)
            if c:
                self.contrib(c, 0, 0, None)

    def zero_contribs(self, t):
        if self.contribs is None:
            return
        t = self.T.canon(t)
        while '[' in t:
            t = self.T.elem(t)
        for c in self.ty.nested_classes(t):
            self.contrib(c, 0, 0, None)

    def str_store(self, z, F, lv, e, nn=None):
        """store of one element of a string or pointer array"""
        el = self.element(F, lv)
        if el is None:
            self.kill(z, F, lv)
            return
        o = self.obj(z, F, el[0])
        i = self.lin(z, F, el[1])
        x = e
        while x[0] == 'cast':
            x = x[2]
        y = self.lin(z, F, x) if x[0] in ('c', 'v') else None
        zero = x == ('c', 0) or (y is not None and z.lo(y) == z.hi(y) == 0)
        nz = y is not None and (z.lo(y) > 0 or z.hi(y) < 0)
        if nn is not None:
            zero, nz = z.hi(nn) <= 0, z.lo(nn) >= 1
        if o is None or i is None or o[0][0] in ('strlv', 'one', 'null'):
            self.kill(z, F, lv)
            return
        i = self.hold(z, self.arith(z, '+', o[1], i))
        O = o[0]
        k = ('len', O)
        l = self.leno(z, F, O)
        if l is None:
            self.kill(z, F, lv)
            return
        l = self.hold(z, l)
        c = self.capo(z, F, O)
        c = self.hold(z, c) if c is not None else None
        t = self.tyof(F.f, O)
        arr = '[' in t and not self.T.is_ptr(t)
        was = z.entails(l, c, -1) if c is not None else False
        same = (nz and z.entails(i, l, -1)) or (zero and z.entails(l, i))
        self.kill(z, F, lv)
        if not zero and z.term:
            # another array may have lost its terminator only if it is the one written
            z.term = frozenset(q for q in z.term if q == O or not self.mayalias(F, ('idx', q, ('c', 0)), lv))
        n = self.tmp(z)
        z.le(None, n, 0)
        if same:
            z.eq(n, l)
        elif zero:
            z.le(n, i[0], i[1])
            z.le(n, l[0], l[1])
            if c is not None:
                z.le(n, c[0], c[1] - 1)     # the place written is inside (or the write itself is reported)
            if z.entails(i, l):
                z.eq(n, i)
            if arr:
                z.term |= {O}
        else:
            keepterm = c is not None and was and z.entails(i, c, -2)
            if c is not None:
                z.le(n, c[0], c[1] - (1 if keepterm else 0))
            if z.entails(i, l, 0):
                # first zero not before the written position unless the value is zero
                pass
            if not keepterm and arr:
                z.term = z.term - {O}
            if not arr and not keepterm and c is not None:
                z.term = z.term - {O}
        z.drop([k])
        z.rename(n, k)

    # ------------------------------------------------------------------ calls
    def targetlv(self, a):
        if a[0] == 'cast':
            return self.targetlv(a[2])
        if a[0] == 'a':
            lv = a[1]
            if lv[0] == 'idx':
                return ('idx', lv[1], ('u', '?', ('c', 0)))
            return lv
        if a[0] == 'b':
            return self.targetlv(a[2])
        return ('d', a)

    def call_effects(self, z, F, i):
        """forget what the call may change"""
        f = F.f
        callee, args = i.b, i.c
        mod = set()
        pm = []
        if isinstance(callee, str):
            if callee in self.p.funcs:
                mod = self.s.mod[callee]
                pm = list(self.s.pmod[callee])
            else:
                for k in WRITES_EXT.get(callee, ()):
                    if k < len(args):
                        pm += [(k, c) for c in self.s.elem_of(f, args[k])]
        else:
            for t in self.s.targets_by(f, args, None):
                if t in self.p.funcs:
                    mod = mod | self.s.mod[t]
                    pm += list(self.s.pmod[t])
        dead = []
        bya = {}
        for k, c in pm:
            if k >= len(args):
                continue
            a = args[k]
            cl = bya.setdefault(k, set())
            cl.add(c)
            if c[0] == 'elem':
                x = a
                while x[0] == 'cast':
                    x = x[2]
                if x[0] == 'a' and x[1][0] != 'strlv':
                    cl |= self.ty.lvclasses(f, x[1])
        tg = {k: self.targetlv(args[k]) for k in bya}
        tt = {k: self.tyof(f, tg[k]) for k in tg}
        for k in z.ks[1:]:
            if k[0] not in ('p', 'cap', 'len', 'nn'):
                continue
            for l, own, t in self.keyinfo(F, k)[1]:
                r = root(l)
                if mod and not (r[0] == 'v' and r[1] in f.vars and r[1] not in F.taken) and (own & mod or any(c[0] == 'elem' and c[1] == t and l[0] == 'idx' for c in mod)):
                    dead.append(k)
                    break
                if any(self.clash(F, l, own, t, bya[j], tg[j], tt[j]) for j in bya):
                    dead.append(k)
                    break
        # a variable whose address is passed
        for j in bya:
            x = tg[j]
            if x[0] == 'v':
                dead += [k for k in z.ks[1:] if k[0] in ('p', 'cap', 'len', 'nn') and x[1] in self.keyinfo(F, k)[0] and k not in dead]
        z.facts = {k: v for k, v in z.facts.items() if ('len', v[1]) not in dead and not bya}
        self.dropkeys(z, F, dead)
        return bya, tg

    def call(self, z, F, i):
        """list of zones after the call"""
        f = F.f
        callee, args = i.b, i.c
        if callee == 'Globals_assert':
            self.assume(z, F, args[0], True)
            return [z]
        if callee in NORETURN:
            z.bot = True
            return []
        if not isinstance(callee, str) or callee not in self.p.funcs:
            if isinstance(callee, str):
                return self.external(z, F, i)
            self.fail_all(F, z, 'open at an indirect call')
            self.call_effects(z, F, i)
            if i.a is not None:
                self.unknown(z, F, i.a)
                if self.isint(self.tyof(f, i.a)) and self.topdown:
                    # the result of one of the functions that may be meant
                    lo, hi = INF, -INF
                    for t in self.s.targets(f, i):
                        if t not in self.fn or t not in self.sum:
                            lo, hi = (-INF, INF) if t not in self.fn else (lo, hi)
                            continue
                        for y in self.sum[t]:
                            k = ('ret', 'p', ())
                            if not y.has(k):
                                lo, hi = -INF, INF
                                break
                            lo, hi = min(lo, y.lo((k, 0))), max(hi, y.hi((k, 0)))
                    if lo > hi:
                        z.bot = True
                        return []
                    self.assign_int(z, F, i.a, self.ranged(z, lo, hi))
            return [z]
        for b in list(z.dirty):
            if self.touches(callee, z.dirty[b]):
                self.fail(F, z, b, f'open at a call of {callee}')
        if self.calls is not None:
            self.record_entry(z, F, i)
        S = self.sum.get(callee)
        if S is None and self.topdown and callee in self.fn:
            S = self.first(z, F, i)
        if S is None:
            self.call_effects(z, F, i)
            self.address_contribs(z, F, i)
            if i.a is not None:
                self.unknown(z, F, i.a)
            return [z]
        g = self.fn[callee]
        mp = {v: a for v, a in zip(g.f.params, args)}
        # entry values in terms of the caller
        keys = set()
        for s in S:
            keys |= set(s.ks[1:])
        pre = {}
        for k in keys:
            if k[0] == 'in':
                x = self.caller_value(z, F, k[1], mp)
                if x is not None:
                    pre[k] = self.hold(z, x)[0]
        if z.bot:
            return []
        self.call_effects(z, F, i)
        direct = {self.uncast(a)[1] for a in args if self.uncast(a)[0] == 'a'}
        out = []
        for s in S:
            s2 = s.copy()
            ks = [None]
            tmpret = {}
            names = []
            drop = []
            for k in s2.ks[1:]:
                if k[0] == 'in':
                    if k in pre:
                        names.append((k, pre[k]))
                    else:
                        drop.append(k)
                elif k[0] == 'ret':
                    if i.a is None:
                        drop.append(k)
                    else:
                        n = ('r',) + k
                        names.append((k, n))
                        tmpret[k] = n
                else:
                    lv = subst(k[1], mp)
                    if not self.goodplace(lv):
                        drop.append(k)
                    else:
                        self.keyinfo(F, (k[0], lv))
                        names.append((k, (k[0], lv)))
            s2.drop(drop)
            # two callee places may be one caller place
            seen = {}
            z2 = z
            kk, nn = [], []
            extra = []
            for k, n in names:
                if n in seen:
                    extra.append((k, n))
                    continue
                seen[n] = k
                kk.append(k)
                nn.append(n)
            for n in nn:
                if n[0] in ('p', 'cap', 'len', 'nn') and not z2.has(n):
                    if z2 is z:
                        z2 = z.copy()
                    # what is written through the address of a global is no value of it yet
                    self.nof = n[1] in direct
                    self.place(z2, F, n[1], n[0])
                    self.nof = False
            z2 = merge_big(z2, nn, s2.order(kk))
            for k in tmpret:
                pass
            if z2.bot:
                continue
            if i.a is not None:
                self.take_result(z2, F, i.a, tmpret)
            self.address_contribs(z2, F, i)
            if not z2.bot:
                out.append(z2)
        if i.a is not None and i.a[0] == 'v':
            w = self.prefix_test(g)
            if w is not None and w[1] in mp:
                l = self.literals(F, mp[w[1]])
                o = self.obj(z, F, self.copied(F, mp[w[0]])) if l else None
                if o is not None and o[1] == (None, 0) and o[0][0] in ('v', 'fld', 'idx', 'd'):
                    for z2 in out:
                        z2.facts[i.a[1]] = ('is', o[0], min(map(len, l)))
        return out

    def prefix_test(self, g):
        """(text, start) when the function returns whether its parameter text begins with its parameter start"""
        if hasattr(g, 'prefix_'):
            return g.prefix_
        g.prefix_ = None
        rets = [x for x in g.f.ins if x.k == 'ret' and x.a is not None]
        cs = [x for x in g.f.ins if x.k == 'call' and x.b == 'strncmp' and x.a is not None]
        if len(rets) == 1 and len(cs) == 1 and not any(x.k == 'br' for x in g.f.ins):
            e, c, neg = rets[0].a, cs[0], False
            while True:
                e = self.uncast(e)
                if e[0] == 'u' and e[1] == '!':
                    neg, e = not neg, e[2]
                elif e[0] == 'b' and e[1] in ('==', '!=') and e[3] == ('c', 0):
                    neg, e = neg ^ (e[1] == '=='), e[2]
                elif e[0] == 'v' and e != c.a and len(self.sets(g).get(e[1], ())) == 1 and self.sets(g)[e[1]][0].k == 'set':
                    e = self.sets(g)[e[1]][0].b
                else:
                    break
            a = [self.uncast(self.copied(g, x)) for x in c.c[:2]]
            n = self.uncast(c.c[2])
            w = self.sets(g).get(n[1], ()) if n[0] == 'v' else ()
            if e == c.a and neg and len(w) == 1 and w[0].k == 'call' and w[0].b == 'strlen' and all(x[0] == 'v' and x[1] in g.f.params and x[1] not in self.sets(g) for x in a):
                lit = self.uncast(self.copied(g, w[0].c[0]))
                if lit in a and a[0] != a[1]:
                    g.prefix_ = (a[1 - a.index(lit)][1], lit[1])
        return g.prefix_

    def first(self, z, F, i):
        """first call of a function: analysed at once for the state of this call (its entry grows later)"""
        g = i.b
        if g in self.stack:
            return []
        save = (self.calls, self.contribs, self.fails, self.cur, self.storing)
        if self.E.get(g, 0) == 0:
            self.calls = {}
            self.record_entry(z, F, i)
            if g not in self.calls:
                self.calls = save[0]
                return []
            self.E[g] = self.calls[g]
        self.newly.add(g)
        self.contribs, self.calls, self.fails = None, None, {}
        self.sum[g] = self.summary_of(g, self.run(g, self.E[g]))
        self.calls, self.contribs, self.fails, self.cur, self.storing = save
        return self.sum[g]

    def goodplace(self, lv):
        r = lv
        while r[0] in ('fld', 'idx'):
            if r[0] == 'idx' and r[2][0] not in ('c', 'v'):
                return False
            r = r[1]
        if r[0] == 'v':
            return True
        return r[0] == 'd' and r[1][0] in ('v', 'fld', 'idx') and self.goodplace(r[1])

    def caller_value(self, z, F, k, mp):
        """value of the callee's entry dimension k=(kind, lv) at the call"""
        kind, lv = k
        if lv[0] == 'v':
            a = mp.get(lv[1])
            if a is None:
                return None
            if kind == 'p':
                return self.lin(z, F, a)
            if kind == 'cap':
                return self.cap(z, F, a)
            if kind == 'len':
                return self.length(z, F, a)
            return self.nonnull(z, F, a)
        x = subst(lv, mp)
        if not self.goodplace(x):
            return None
        try:
            t = self.tyof(F.f, x)
        except Exception:
            return None
        if kind == 'p':
            return (self.place(z, F, x), 0) if self.isint(t) else None
        if not self.T.is_ptr(t) and '[' not in t:
            return None
        if kind == 'cap':
            return self.capo(z, F, x)
        if kind == 'len':
            return self.leno(z, F, x)
        return None

    def take_result(self, z, F, dst, tmpret):
        f = F.f
        t = self.tyof(f, dst)
        if self.isint(t):
            n = tmpret.get(('ret', 'p', ()))
            self.assign_int(z, F, dst, (n, 0) if n else None)
        elif self.T.is_ptr(t):
            x = {kd: tmpret.get(('ret', kd, ())) for kd in ('cap', 'len', 'nn')}
            self.assign_ptr(z, F, dst, *[(x[kd], 0) if x[kd] else None for kd in ('cap', 'len', 'nn')])
        else:
            self.kill(z, F, dst)
            for k, n in tmpret.items():
                if k[2]:
                    k2 = (k[1], attach(dst, k[2]))
                    z.drop([k2])
                    z.rename(n, k2)
        z.drop([n for n in tmpret.values()])

    def unknown(self, z, F, lv):
        t = self.tyof(F.f, lv)
        if self.isint(t):
            self.assign_int(z, F, lv, None)
        else:
            self.kill(z, F, lv)

    def address_contribs(self, z, F, i):
        """integers written by the callee through a pointer to a global or a field"""
        if self.contribs is None:
            return
        f = F.f
        callee = i.b
        for k, a in enumerate(i.c):
            x = a
            while x[0] == 'cast':
                x = x[2]
            if x[0] != 'a' or x[1][0] == 'strlv':
                continue
            lv = x[1]
            t = self.tyof(f, lv)
            if not self.isint(t):
                continue
            c = self.fclass(f, lv)
            if c is None:
                continue
            if isinstance(callee, str) and callee in self.p.funcs:
                if not any(j == k for j, _ in self.s.pmod[callee]):
                    continue
            elif isinstance(callee, str) and k not in WRITES_EXT.get(callee, ()):
                continue
            if z.has(('p', lv)):
                self.contrib(c, z.lo((('p', lv), 0)), z.hi((('p', lv), 0)), None)
            else:
                self.contrib(c, -INF, INF, None)

    def external(self, z, F, i):
        f = F.f
        n, a, d = i.b, i.c, i.a
        self.check_external(z, F, i)
        ret = None
        if n == 'strlen' and a:
            ret = ('int', self.hold(z, self.length(z, F, a[0])))
            if ret[1] is None:
                ret = ('int', self.ranged(z, 0, INT[1]))
            else:
                z.lin_le(ret[1], (None, INT[1]))    # no string is longer than an int can count
        elif n in ('strcmp', 'strncmp') and d is not None and d[0] == 'v':
            self.kill(z, F, d)
            lit = None
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                t = self.literals(F, x)
                if t:
                    lit, oth = min(t, key=len), y
            if lit is not None:
                m = len(lit)
                if n == 'strncmp':
                    q = self.lin(z, F, a[2])
                    x = self.uncast(a[2])
                    w = self.sets(F).get(x[1], ()) if x[0] == 'v' and x[1].split(':')[-1].startswith('$') else ()
                    l = self.literals(F, w[0].c[0]) if len(w) == 1 and w[0].k == 'call' and w[0].b == 'strlen' else None
                    m = min(m, max(0, z.lo(q) if q is not None else 0, min(map(len, l)) if l else 0))
                o = self.obj(z, F, self.copied(F, oth))
                if o is not None and o[1] == (None, 0) and o[0][0] in ('v', 'fld', 'idx', 'd'):
                    z.facts[d[1]] = ('pre', o[0], m)
            self.kill_self(z, F, d)
            return [z]
        elif n == 'strtok':
            self.call_effects(z, F, i)
            z.term = frozenset(z.term)
            if d is not None:
                self.assign_ptr(z, F, d, None, None, self.ranged(z, 0, 1))
            return [z]
        elif n in ('strchr', 'strstr', 'strrchr') and a:
            l = self.length(z, F, a[0])
            c = self.cap(z, F, a[0])
            if d is not None:
                c2 = l2 = None
                if l is not None:
                    l2 = self.ranged(z, 0, None)
                    z.lin_le(l2, l)
                    c2 = self.ranged(z, 0, None)
                self.assign_ptr(z, F, d, None, l2, self.ranged(z, 0, 1))
            return [z]
        elif n in ('memset', 'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'fgets', 'recvfrom', 'read', 'fread'):
            return self.buffer(z, F, i)
        elif n in ('abs', 'labs'):
            ret = ('int', self.ranged(z, 0, None))
        elif n == 'rand':
            ret = ('int', self.ranged(z, 0, INT[1]))
        elif n in ('fgetc', 'getchar', 'getc'):
            ret = ('int', self.ranged(z, -1, 255))
        self.call_effects(z, F, i)
        self.address_contribs(z, F, i)
        if d is not None:
            if ret is not None:
                self.assign_int(z, F, d, ret[1])
            else:
                self.unknown(z, F, d)
        if n == '__ctype_b_loc' and d is not None and d[0] == 'v':
            z.facts[d[1]] = ('ctype', d)
        return [z]

    def sets(self, F):
        if not hasattr(F, 'sets_'):
            F.sets_ = {}
            for x in F.f.ins:
                if x.a is not None and isinstance(x.a, tuple) and x.k in ('set', 'call') and x.a[0] == 'v':
                    F.sets_.setdefault(x.a[1], []).append(x)
        return F.sets_

    def copied(self, F, e):
        """the parameter a temporary of the flattening is a copy of, when that is never assigned"""
        x = self.uncast(e)
        if x[0] == 'v' and x[1].split(':')[-1].startswith('$'):
            w = self.sets(F).get(x[1], ())
            if len(w) == 1 and w[0].k == 'set':
                y = self.uncast(w[0].b)
                if y[0] == 'v' and y[1] in F.f.params and y[1] not in self.sets(F):
                    return y
        return e

    def literals(self, F, e):
        """the string literals a format expression can be"""
        x = self.uncast(e)
        if x[0] == 'a':
            y = x[1]
            while y[0] == 'idx':
                y = y[1]
            return [y[1]] if y[0] == 'strlv' else None
        if x[0] == 'v' and x[1] in F.f.vars and x[1] not in F.f.params and x[1] not in self.p.globals:
            r = []
            for w in self.sets(F).get(x[1], ()):
                l = self.literals(F, w.b) if w.k == 'set' and self.uncast(w.b) != x else None
                if l is None:
                    return None
                r += l
            return r or None
        return None

    def isptrdiff(self, F, e):
        for t in subterms(e) if isinstance(e, tuple) else ():
            if t[:2] == ('b', '-') and len(t) == 4 and all('*' in self.tyof(F.f, y) or '[' in self.tyof(F.f, y) for y in t[2:]):
                return not all(self.ptrlocal(F, self.uncast(y)) for y in t[2:])
        return False

    def kill_self(self, z, F, d):
        pass

    def uncast(self, e):
        while e[0] == 'cast':
            e = e[2]
        return e

    def elsize(self, F, e):
        x = self.uncast(e)
        t = self.tyof(F.f, x)
        if t.startswith('ARRPTR'):
            t = t[7:]
            # pointer to a whole array: bytes of the array
            try:
                return self.T.align_size(t)[1], True
            except Exception:
                return None, False
        el = self.T.elem(t)
        try:
            return self.T.align_size(el)[1], False
        except Exception:
            return None, False

    def bytes_cap(self, z, F, e):
        """(linear form of the capacity in elements, element size)"""
        x = self.uncast(e)
        s, whole = self.elsize(F, x)
        if s is None:
            return None
        if whole:
            return (None, 1), s
        c = self.cap(z, F, x)
        if c is None:
            return None
        return c, s

    def fits(self, z, F, e, n):
        """n bytes fit into the object behind pointer expression e: True / False / None (nothing known)"""
        b = self.bytes_cap(z, F, e)
        if b is None or n is None:
            return None
        c, s = b
        if s == 1:
            return z.entails(n, c)
        lo = z.lo(c)
        if c[0] is None:
            return z.hi(n) <= c[1] * s
        return lo > -HALF and z.hi(n) <= lo * s

    SIZED = {'memset': ((0, 2),), 'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'strncpy': ((0, 2),), 'snprintf': ((0, 1),), 'fgets': ((0, 1),), 'recvfrom': ((1, 2),),
             'read': ((1, 2),), 'memcmp': ((0, 2), (1, 2))}

    def check_external(self, z, F, i):
        if self.obs is None:
            return
        n, a = i.b, i.c
        for p, q in self.SIZED.get(n, ()):
            if q < len(a) and not self.isptrdiff(F, a[q]):
                x = self.lin(z, F, a[q])
                r = self.fits(z, F, a[p], x)
                if r is None and self.uncast(a[p])[0] not in ('a',):
                    r = None
                self.ob(F, i, 'size', f'{n}({show(a[p])}, {show(a[q])})', r, self.bufname(F, a[p]),
                        self.fmt(z, x))
        if n == 'strncpy' and not self.isptrdiff(F, a[2]):
            # the copy ends: room is left for the zero already there, or the text is shorter, or a zero is stored next
            x, c, l = self.lin(z, F, a[2]), self.cap(z, F, a[0]), self.length(z, F, a[1])
            r = x is not None and (c is not None and z.entails(x, c, -1) or l is not None and z.entails(l, x, -1))
            o = self.uncast(a[0])
            o = o[1] if o[0] == 'a' else o
            o = o[1] if o[0] == 'idx' and o[2] == ('c', 0) else o
            y = i
            for _ in range(6):
                if r or len(y.succ) != 1:
                    break
                y = F.f.ins[y.succ[0]]
                r = y.k == 'set' and y.a[0] == 'idx' and y.b == ('c', 0) and self.uncast(y.a[1] if y.a[1][0] != 'd' else y.a[1][1]) == o
            self.ob(F, i, 'size', f'{n} ends in {show(a[0])}', r if c is not None else None, self.bufname(F, a[0]), self.fmt(z, x))
        if n in ('strcpy', 'strcat'):
            c, l = self.cap(z, F, a[0]), self.length(z, F, a[1])
            r = None
            if c is not None and l is not None:
                if n == 'strcat':
                    l0 = self.length(z, F, a[0])
                    l = self.arith(z, '+', l0, l) if l0 is not None else None
                r = l is not None and z.entails(l, c, -1)
            self.ob(F, i, 'size', f'{n}({show(a[0])}, {show(a[1])})', r, self.bufname(F, a[0]), '')
        if n in ('sscanf', '__isoc99_sscanf', 'scanf', 'sprintf'):
            fi = 0 if n == 'scanf' else 1
            for txt in self.literals(F, a[fi]) or (None,):
                self.scan_format(z, F, i, n, txt, a, fi)

    def scan_format(self, z, F, i, n, txt, a, fi):
        import re
        if n == 'sprintf':
            c = self.cap(z, F, a[0])
            r = False
            if txt is not None and c is not None:
                w = 0
                ok = True
                rest = list(a[2:])
                for m in re.finditer(r'%[-+ 0#]*(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([a-zA-Z%])|([^%]+)', txt):
                    if m.group(5):
                        w += len(m.group(5))
                        continue
                    cv = m.group(4)
                    if cv == '%':
                        w += 1
                        continue
                    x = rest.pop(0) if rest else None
                    if cv in 'diu':
                        w += max(21 if m.group(3) else 11, int(m.group(1) or 0))
                    elif cv == 'c':
                        w += 1
                    elif cv in 'fF':
                        w += max(312 + int(m.group(2) or 6), int(m.group(1) or 0))
                    elif cv == 's' and x is not None:
                        l = self.length(z, F, x)
                        h = z.hi(l) if l is not None else INF
                        ok = ok and h < HALF
                        w += h
                    else:
                        ok = False
                r = ok and z.entails((None, w + 1), c)
            self.ob(F, i, 'size', f'sprintf({show(a[0])})', r if c is not None else None, self.bufname(F, a[0]), '')
            return
        if txt is None:
            self.ob(F, i, 'size', f'{n} format', False, 'format', 'the format is not a literal')
            return
        k = fi + 1
        for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|z)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', txt):
            if m.group(4) == '%' or m.group(1):
                continue
            if k < len(a) and m.group(4)[0] in 's[':
                w = (None, int(m.group(2)) + 1) if m.group(2) else None
                c = self.cap(z, F, a[k])
                if w is None:
                    # unbounded: the scanned text must be known to be shorter
                    w = self.length(z, F, a[0]) if n != 'scanf' else None
                    w = (w[0], w[1] + 1) if w is not None else None
                r = c is not None and w is not None and z.entails(w, c)
                self.ob(F, i, 'size', f'{n} {m.group(0)} into {show(a[k])}', r, self.bufname(F, a[k]), '')
            k += 1

    def bufname(self, F, e):
        e = self.uncast(e)
        if e[0] == 'a':
            e = e[1]
            while e[0] in ('idx',):
                e = e[1]
        while e[0] in ('d', 'b'):
            e = e[1] if e[0] == 'd' else e[2]
        while e[0] == 'idx':
            e = e[1]
        return show(e)

    def buffer(self, z, F, i):
        f = F.f
        n, a, d = i.b, i.c, i.a
        dst = a[0] if n not in ('recvfrom', 'read') else a[1]
        o = self.obj(z, F, self.uncast(dst))
        O = o[0] if o is not None else None
        off0 = o is not None and o[1] == (None, 0)
        chars = False
        newlen = None
        term = None
        lowlen = None
        if O is not None and O[0] in ('v', 'fld', 'idx', 'd'):
            t = self.tyof(f, O)
            et = self.T.elem(t)
            chars = et in ('char', 'signed char', 'unsigned char') or (et and self.T.is_ptr(et))
            c = self.capo(z, F, O)
            es = 1 if et in ('char', 'signed char', 'unsigned char') else 8
            if chars and c is not None:
                c = self.hold(z, c)
                l = self.leno(z, F, O)
                was = l is not None and z.entails(l, c, -1)
                q = None
                if n in ('memset', 'memcpy', 'memmove', 'strncpy'):
                    q = self.lin(z, F, a[2])
                elif n in ('snprintf', 'fgets'):
                    q = self.lin(z, F, a[1])
                elif n in ('recvfrom', 'read'):
                    q = self.lin(z, F, a[2])
                if q is not None and es == 8:
                    q = (None, q[1] // 8) if q[0] is None else None
                q = self.hold(z, q) if q is not None else None
                if n == 'memset' and a[1] == ('c', 0):
                    if off0 and q is not None and z.lo(q) >= 1:
                        newlen = ('eq', (None, 0))
                        term = True
                    else:
                        term = was
                elif n in ('memset', 'memcpy', 'memmove', 'strncpy', 'recvfrom', 'read'):
                    end = self.arith(z, '+', o[1], q) if q is not None else None
                    term = was and end is not None and z.entails(end, c, -1)
                    if n in ('memcpy', 'memmove') and off0 and q is not None and es == 1:
                        sl = self.length(z, F, self.uncast(a[1]))
                        if sl is not None and z.entails(q, sl):
                            lowlen = q
                        elif sl is not None and z.entails(sl, q, -1):
                            newlen = ('eq', self.hold(z, sl))
                            term = True
                    if n == 'strncpy' and off0 and q is not None:
                        sl = self.length(z, F, self.uncast(a[1]))
                        if sl is not None and z.entails(sl, q, -1):
                            newlen = ('eq', self.hold(z, sl))
                            term = True
                elif n in ('snprintf', 'fgets'):
                    term = True
                    if off0 and q is not None:
                        newlen = ('le', (q[0], q[1] - 1))
                elif n in ('strcpy',) and off0:
                    sl = self.length(z, F, a[1])
                    if sl is not None:
                        newlen = ('eq', self.hold(z, sl))
                    term = True
                elif n in ('strcat', 'strncat', 'sprintf'):
                    term = True
        ret = None
        if d is not None and n in ('recvfrom', 'read', 'fread'):
            q = self.lin(z, F, a[2])
            ret = self.ranged(z, -1, None)
            if q is not None:
                z.lin_le(ret, q)
        kept = {k for k in z.ks if k and k[0] == 't'}
        self.call_effects(z, F, i)
        self.address_contribs(z, F, i)
        if self.contribs is not None and n in ('memset', 'memcpy', 'memmove', 'fread', 'recvfrom', 'read'):
            self.raw_contribs(z, F, i, dst)
        if chars and O is not None:
            k = ('len', O)
            z.drop([k])
            tm = self.tyof(f, O)
            arr = '[' in tm and not self.T.is_ptr(tm)
            if arr:
                z.term = z.term | {O} if term else z.term - {O}
            if c is not None:
                z.add(k)
                z.le(None, k, 0)
                z.le(k, c[0], c[1] - (1 if term else 0))
                if newlen is not None:
                    if newlen[0] == 'eq':
                        z.eq(k, newlen[1])
                    else:
                        z.le(k, newlen[1][0], newlen[1][1])
                if lowlen is not None:
                    z.le(lowlen[0], k, -lowlen[1])
        elif O is None and z.term:
            pass
        if d is not None:
            t = self.tyof(f, d)
            if self.isint(t):
                self.assign_int(z, F, d, ret)
            elif n == 'fgets':
                self.assign_ptr(z, F, d, None, None, self.ranged(z, 0, 1))
            else:
                self.kill(z, F, d)
        return [z]

    def raw_contribs(self, z, F, i, dst):
        f = F.f
        x = self.uncast(dst)
        t = self.tyof(f, x)
        if t.startswith('ARRPTR'):
            t = t[7:]
        et = self.T.elem(t) if '[' in t or self.T.is_ptr(t) else t
        while et and '[' in et:
            et = self.T.elem(et)
        if x[0] == 'a' and x[1][0] != 'strlv' and not self.T.is_record(et or ''):
            cl = {c for c in self.own(f, x[1]) if c[0] not in ('loc', 'elem')}
        else:
            cl = set(self.ty.nested_classes(et or 'char'))
        if i.b == 'memset' and i.c[1] == ('c', 0):
            for c in cl:
                self.contrib(c, 0, 0, None)
            return
        if i.b in ('memcpy', 'memmove'):
            s = self.tyof(f, self.uncast(i.c[1]))
            if s.startswith('ARRPTR'):
                s = s[7:]
            se = self.T.elem(s) if '[' in s or self.T.is_ptr(s) else s
            while se and '[' in se:
                se = self.T.elem(se)
            if se == et and self.T.is_record(et or ''):
                return
            if x[0] == 'a':
                y = self.uncast(i.c[1])
                if y[0] == 'a' and self.own(f, x[1]) == self.own(f, y[1]):
                    return
        for c in cl:
            self.contrib(c, -INF, INF, None)

    # ------------------------------------------------------------------ obligations
    def ob(self, F, i, kind, text, ok, buf, detail):
        if self.obs is None:
            return
        k = (F.f.name, i.line, i.id, kind, text)
        o = self.obs.get(k)
        v = 2 if ok is True else 0 if ok is False else 1
        if o is None or v < o[0]:
            self.obs[k] = (v, buf, detail, i)

    def fmt(self, z, x):
        if x is None:
            return '?'
        lo, hi = z.lo(x), z.hi(x)
        return f'[{lo if lo > -HALF else "-inf"},{hi if hi < HALF else "inf"}]'

    def check_expr(self, z, F, i, e, addr=False):
        if not isinstance(e, tuple) or not e:
            return
        k = e[0]
        if k == 'a' and isinstance(e[1], tuple):
            x = e[1]
            if x[0] == 'idx':
                self.check_idx(z, F, i, x, True)
                self.check_expr(z, F, i, x[2])
                y = x[1]
                if y[0] == 'd':
                    self.check_expr(z, F, i, y[1])
                elif y[0] != 'strlv':
                    self.check_path(z, F, i, y)
                return
            self.check_path(z, F, i, x)
            return
        if k in ('idx', 'fld', 'd'):
            self.check_path(z, F, i, e)
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.check_expr(z, F, i, x)

    def check_path(self, z, F, i, e):
        """every index along an access path"""
        x = e
        while x[0] in ('fld', 'idx'):
            if x[0] == 'idx':
                self.check_idx(z, F, i, x, False)
                self.check_expr(z, F, i, x[2])
            x = x[1]
        if x[0] == 'd':
            self.check_null(z, F, i, x[1])
            self.check_expr(z, F, i, x[1])

    def check_null(self, z, F, i, p):
        n = self.nonnull(z, F, p)
        if n is not None:
            self.ob(F, i, 'null', show(p), z.lo(n) >= 1, show(p), '')

    def check_idx(self, z, F, i, x, addr):
        if x[2][0] == 'c' and x[1][0] != 'd':
            t = self.tyof(F.f, x[1])
            n = self.T.arrlen(t) if '[' in t else None
            if n is not None:
                self.ob(F, i, 'index', show(x), 0 <= x[2][1] < n + (1 if addr else 0), self.bufname(F, ('a', x)), str(x[2][1]))
            return
        if x[2] == ('c', 0):
            return
        n = self.lin(z, F, x[2])
        if x[1][0] == 'd' and x[2][0] == 'c' and self.uncast(x[1][1])[0] == 'idx':
            return      # a constant place of a text that is itself an element of a list: no place to keep its length
        if self.isptrdiff(F, x[2]):
            return
        if x[1][0] == 'd':
            b = self.uncast(x[1][1])
            if b[0] == 'd' and b[1][0] == 'v' and z.facts.get(b[1][1], ('',))[0] == 'ctype':
                r = n is not None and z.lo(n) >= -128 and z.hi(n) <= 255
                self.ob(F, i, 'index', show(x), r, 'ctype', self.fmt(z, n))
                return
            o = self.obj(z, F, x[1][1])
            c = self.cap(z, F, x[1][1])
            lo0 = z.lo(self.arith(z, '+', o[1], n)) >= 0 if o is not None and n is not None else False
        else:
            t = self.tyof(F.f, x[1])
            if x[1][0] == 'strlv':
                c = (None, len(x[1][1]) + 1)
            else:
                m = self.T.arrlen(t)
                c = (None, m) if m is not None else None
            lo0 = n is not None and z.lo(n) >= 0
        if c is None:
            self.ob(F, i, 'index', show(x), None, self.bufname(F, ('a', x)), 'capacity unknown')
            return
        r = n is not None and lo0 and z.entails(n, c, 0 if addr else -1)
        d = self.fmt(z, n)
        if not r and n is not None:
            q = z.diff(n, c)
            d += f' of {self.fmt(z, c)}, ' + ('lower bound unproved' if not lo0 else f'index - capacity <= {q if q < HALF else "inf"}')
        self.ob(F, i, 'index', show(x), r, self.bufname(F, ('a', x)), d)

    # ------------------------------------------------------------------ one function
    def entry(self, F, given=None):
        f = F.f
        z = Z()
        for v in f.params:
            t = self.T.canon(f.vars[v])
            if self.isint(t):
                self.place(z, F, ('v', v))
            elif self.T.is_ptr(t):
                if not self.voidp(t):
                    c = self.place(z, F, ('v', v), 'cap')
                    self.leno(z, F, ('v', v))
        for lv in sorted(F.need, key=repr):
            t = self.tyof(f, lv)
            if self.isint(t):
                self.place(z, F, lv)
            else:
                self.place(z, F, lv, 'cap')
        if given is not None:
            for k in given.ks[1:]:
                if not z.has(k):
                    if k[0] == 'nn':
                        z.add(k)
            ks = [k for k in given.ks[1:] if z.has(k)]
            z = merge_big(z, ks, given.order(ks))
        ks = list(z.ks[1:])
        if self.ghosts:
            for k in ks:
                g = ('in', k)
                z.add(g)
                z.eq(g, (k, 0))
        return z

    def flagkey(self, z, F, live):
        r = []
        for k in z.ks[1:]:
            if k[0] == 'p' and k[1][0] == 'v' and k[1][1] in live and F.f.vars.get(k[1][1]) in ('bool', '_Bool'):
                a = z.m[z.ix[k], 0]
                b = -z.m[0, z.ix[k]]
                if a == b:
                    r.append((k[1][1], int(a)))
            elif k[0] == 'nn' and k[1][0] == 'v' and k[1][1] in live:
                a = z.m[z.ix[k], 0]
                b = -z.m[0, z.ix[k]]
                if a == b:
                    r.append((k[1][1], int(a)))
        return tuple(sorted(r))

    def prune(self, z, F, n):
        live = F.live[n]
        dead = []
        for k in z.ks[1:]:
            if k[0] in ('t', 'r'):
                dead.append(k)
            elif k[0] in ('p', 'cap', 'len', 'nn'):
                if any(v not in live and v in F.f.vars and not (v in F.f.params and v not in F.assigned) and '[' not in F.f.vars[v] for v in self.keyinfo(F, k)[0]):
                    dead.append(k)
        z.drop(dead)
        if z.facts:
            z.facts = {k: v for k, v in z.facts.items() if k in live}

    def run(self, name, given=None):
        """stable states of one function: iteration along a weak topological order, inner loops restarted with each outer round"""
        self.stack.append(name)
        try:
            return self.run_(name, given)
        finally:
            self.stack.pop()

    topdown = False
    stack = []

    def run_(self, name, given):
        F = self.fn[name]
        f = F.f
        self.cur = f.ins[f.entry]
        e = self.entry(F, given)
        if e.bot:
            return None
        st, eout = {}, {}
        preds = F.preds if hasattr(F, 'preds') else None
        if preds is None:
            preds = F.preds = [sorted(set(x)) for x in f.preds()]
            F.wto = wto(f)

        def incoming(n, only=None):
            zs = [e] if n == f.entry and (only is None or only(-1)) else []
            for p_ in preds[n]:
                if only is None or only(p_):
                    zs += eout.get((p_, n), ())
            return zs

        def exec_(n, d):
            ins = f.ins[n]
            if d:
                st[n] = d
                r = self.step_all(F, n, d.values(), ins)
            else:
                st.pop(n, None)
                r = {}
            for s in ins.succ:
                eout[(n, s)] = r.get(s, [])

        def solve(items):
            for it in items:
                if isinstance(it, int):
                    exec_(it, self.gather(F, it, incoming(it)))
                else:
                    loop(*it)

        def loop(h, body, inside):
            for x in inside:
                st.pop(x, None)
                for s in f.ins[x].succ:
                    eout[(x, s)] = []
            ext = incoming(h, lambda p_: p_ not in inside)
            cur = self.gather(F, h, ext)
            if not cur:
                return
            # ascending: all loops inside together, with widening
            visits = {}
            ins_ = {h: cur}
            exec_(h, cur)
            work = {s for s in f.ins[h].succ if s in inside}
            while work:
                n = min(work, key=lambda x: F.num[x])
                work.discard(n)
                new = self.gather(F, n, incoming(n), star='*' in ins_.get(n, ()))
                old = ins_.get(n)
                if old is not None:
                    if self.dleq(new, old):
                        continue
                    c = visits[n] = visits.get(n, 0) + 1
                    if n in F.heads:
                        new = self.dwiden(old, new, c, visits, n)
                    elif c > 90:
                        new = self.dwiden(old, new, c - 85)
                ins_[n] = new
                exec_(n, new)
                work |= {s for s in f.ins[n].succ if s in inside}
            cur = ins_[h]
            # descending: the head once more from its incoming edges, inner loops from scratch
            for r in range(2):
                new = self.gather(F, h, incoming(h), star='*' in cur)
                if r and self.dleq(cur, new):
                    break
                cur = new
                exec_(h, cur)
                solve(body)
        solve(F.wto)
        return st

    def gather(self, F, n, zs, star=False):
        d = {}
        for z in zs:
            if z.bot:
                continue
            z = z.copy()
            self.prune(z, F, n)
            if star:
                k = '*'
            else:
                k = self.flagkey(z, F, F.live[n])
                if k not in d and len(d) >= self.K:
                    star, k = True, '*'
                    zz = None
                    for o in d.values():
                        zz = o if zz is None else zjoin(zz, o)
                    d = {'*': zz}
            o = d.get(k)
            d[k] = z if o is None else z if zleq(o, z) else o if zleq(z, o) else zjoin(o, z)
        return d

    def dleq(self, a, b):
        for k, z in a.items():
            o = b.get(k)
            if o is None or not zleq(z, o):
                return False
        return True

    def dwiden(self, cur, new, c, visits=None, n=None):
        if '*' in new and '*' not in cur:
            zz = None
            for o in cur.values():
                zz = o if zz is None else zjoin(zz, o)
            cur = {'*': zz}
        r = dict(cur)
        for k, z in new.items():
            o = cur.get(k)
            if o is None:
                r[k] = z
            elif not zleq(z, o):
                j = zjoin(o, z)
                if visits is not None:
                    c = visits[n, k] = visits.get((n, k), 0) + 1
                r[k] = j if c <= 2 else zwiden(o, j, self.th if c <= 8 else np.array([-1, 0, INF], dtype=np.int64) if c < 12 else np.array([0, INF], dtype=np.int64))
        return r

    def step_all(self, F, n, zs, ins):
        out = {}
        self.cur = ins
        for z0 in zs:
            z = z0.copy()
            if ins.k == 'set':
                r = self.bool_fork(z, F, ins)
                if r is None:
                    self.set(z, F, ins.a, ins.b)
                    r = [z]
                for s in ins.succ:
                    out.setdefault(s, []).extend(r)
            elif ins.k == 'call':
                r = self.call(z, F, ins)
                for s in ins.succ:
                    out.setdefault(s, []).extend(r)
            elif ins.k == 'br':
                if len(ins.succ) == 2:
                    z2 = z.copy()
                    self.assume(z, F, ins.a, True)
                    self.assume(z2, F, ins.a, False)
                    if not z.bot:
                        out.setdefault(ins.succ[0], []).append(z)
                    if not z2.bot:
                        out.setdefault(ins.succ[1], []).append(z2)
                else:
                    for s in ins.succ:
                        out.setdefault(s, []).append(z)
            elif ins.k == 'decl':
                self.kill(z, F, ins.a)
                z.term = frozenset(o for o in z.term if ins.a not in subterms(o))
                for s in ins.succ:
                    out.setdefault(s, []).append(z)
            else:
                for s in ins.succ:
                    out.setdefault(s, []).append(z)
        return out

    def bool_fork(self, z, F, ins):
        """a flag set from a comparison: one case per outcome"""
        e = ins.b
        t = self.tyof(F.f, ins.a)
        if ins.a[0] != 'v' or t not in ('bool', '_Bool', 'int'):
            return None
        x = e
        while x[0] == 'cast':
            x = x[2]
        if not ((x[0] == 'b' and x[1] in ('==', '!=', '<', '>', '<=', '>=')) or (x[0] == 'u' and x[1] == '!')):
            return None
        if t == 'int' and not ins.a[1].split(':')[-1].startswith('$t'):
            return None
        out = []
        for v in (1, 0):
            y = z.copy()
            self.assume(y, F, x, bool(v))
            if not y.bot:
                self.assign_int(y, F, ins.a, (None, v))
                out.append(y)
        return out

    def ret_zone(self, F, z, ins):
        """zone over the entry values, exit values and the result"""
        f = F.f
        z = z.copy()
        keep = set()
        if ins.a is not None:
            t = self.T.canon(f.ret)
            e = ins.a
            if self.isint(t):
                x = self.lin(z, F, e)
                if x is None and t in ('long', 'unsigned long', 'long long') and self.T.is_ptr(self.tyof(f, e)):
                    x = self.ranged(z, 0, None)     # addresses are not negative
                r = self.trange(t)
                k = ('ret', 'p', ())
                z.add(k)
                if x is not None and (z.lo(x) >= r[0] and z.hi(x) <= r[1] or t in ('int', 'long')):
                    z.eq(k, x)
                elif r[1] < (1 << 20):
                    z.le(None, k, -r[0])
                    z.le(k, None, r[1])
                keep.add(k)
            elif self.T.is_ptr(t):
                for kd, x in zip(('cap', 'len', 'nn'), self.ptr_parts(z, F, e)):
                    if x is not None:
                        k = ('ret', kd, ())
                        z.add(k)
                        z.eq(k, x)
                        keep.add(k)
            elif e[0] in ('v', 'fld', 'idx', 'd'):
                for k0 in list(z.ks[1:]):
                    if k0[0] in ('p', 'cap', 'len', 'nn'):
                        s = under(k0[1], e)
                        if s and all(q[0] == 'fld' or q[1][0] == 'c' for q in s):
                            k = ('ret', k0[0], s)
                            z.add(k)
                            z.eq(k, (k0, 0))
                            keep.add(k)
        mod = {c for _, c in self.s.pmod[f.name]} | self.s.mod[f.name]
        for lv in F.need:
            p = root(lv)[1][1]
            if p in F.assigned:
                continue
            for kd in ('p', 'cap'):
                if z.has((kd, lv)):
                    keep.add((kd, lv))
        for k in z.ks[1:]:
            if k[0] == 'in':
                keep.add(k)
        z.project(keep)
        z.term, z.dirty, z.facts = frozenset(), {}, {}
        return z

    def retcase(self, z):
        k = ('ret', 'p', ())
        if z.has(k):
            lo, hi = z.lo((k, 0)), z.hi((k, 0))
            if lo == hi and -1 <= lo <= 1:
                return lo
            return '+' if lo > 0 else 'x'
        k = ('ret', 'nn', ())
        if z.has(k):
            lo, hi = z.lo((k, 0)), z.hi((k, 0))
            return ('nn', lo) if lo == hi else 'x'
        return 'x'

    def summary_of(self, name, st):
        """exit states by the kind of result"""
        if st is None:
            return []
        F = self.fn[name]
        out = {}
        for n, d in st.items():
            ins = F.f.ins[n]
            if ins.k == 'ret':
                for z in d.values():
                    self.cur = ins
                    r = self.ret_zone(F, z, ins)
                    if r is None or r.bot:
                        continue
                    c = self.retcase(r)
                    out[c] = zjoin(out[c], r) if c in out else r
        return [out[c] for c in sorted(out, key=repr)]

    # ------------------------------------------------------------------ bottom-up summaries
    def order(self):
        """strongly connected components, callees first"""
        succ = {}
        for n, F in self.fn.items():
            s = set()
            for i in F.f.ins:
                if i.k == 'call':
                    if isinstance(i.b, str):
                        if i.b in self.fn:
                            s.add(i.b)
                    else:
                        s |= {t for t in self.s.targets(F.f, i) if t in self.fn}
            succ[n] = s
        self.succ = succ
        idx, low, stk, on, out = {}, {}, [], set(), []
        import sys
        sys.setrecursionlimit(10000)

        def sc(v):
            idx[v] = low[v] = len(idx)
            stk.append(v)
            on.add(v)
            for w in sorted(succ[v]):
                if w not in idx:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stk.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
        for v in sorted(succ):
            if v not in idx:
                sc(v)
        return out

    def sum_update(self, n, new):
        """exit states only grow; True if they did"""
        old = self.sum.get(n)
        if old is None:
            self.sum[n] = new
            return True
        if all(any(zleq(z, o) for o in old) for z in new):
            return False
        k = self.scount[n] = self.scount.get(n, 0) + 1
        o = {self.retcase(z): z for z in old}
        for z in new:
            c = self.retcase(z)
            if c in o and not zleq(z, o[c]):
                j = zjoin(o[c], z)
                o[c] = j if k < 5 else zwiden(o[c], j, self.th if k < 12 else np.array([0, INF], dtype=np.int64))
            elif c not in o:
                o[c] = z
        r = {}
        for z in o.values():
            c = self.retcase(z)
            r[c] = zjoin(r[c], z) if c in r else z
        self.sum[n] = [r[c] for c in sorted(r, key=repr)]
        return True

    # ------------------------------------------------------------------ whole program
    def record_entry(self, z, F, i):
        """entry state of the callee at this call"""
        g = self.fn.get(i.b)
        if g is None or z.bot:
            return
        y = z.copy()
        mp = {v: a for v, a in zip(g.f.params, i.c)}
        held = []
        for v, a in zip(g.f.params, i.c):
            t = self.T.canon(g.f.vars[v])
            V = ('v', v)
            if self.isint(t):
                x = self.lin(y, F, a)
                r = self.trange(t)
                if x is not None and not (y.lo(x) >= r[0] and y.hi(x) <= r[1]) and t not in ('int', 'long', 'long long'):
                    x = None
                held.append((('p', V), self.hold(y, x)))
            elif self.T.is_ptr(t):
                n = self.nonnull(y, F, a)
                held.append((('nn', V), self.hold(y, n)))
                if not self.voidp(t):
                    held.append((('cap', V), self.hold(y, self.cap(y, F, a))))
                    held.append((('len', V), self.hold(y, self.length(y, F, a))))
        for lv in g.need:
            x = subst(lv, mp)
            if not self.goodplace(x):
                continue
            t = self.tyof(g.f, lv)
            k = 'p' if self.isint(t) else 'cap'
            if y.has((k, x)) or x[0] == 'fld':
                self.place(y, F, x, k)
                held.append(((k, lv), self.hold(y, ((k, x), 0))))
        if y.bot:
            return
        y.project({h[0] for _, h in held if h is not None})
        seen = set()
        for k, h in held:
            if h is not None and k not in seen:
                seen.add(k)
                if y.has(h[0]):
                    y.rename(h[0], k)
        y.term, y.dirty, y.facts = frozenset(), {}, {}
        o = self.calls.get(i.b)
        self.calls[i.b] = y if o is None else zjoin(o, y)

    def H_candidates(self):
        H = {}
        used = set()
        for F in self.fn.values():
            for i in F.f.ins:
                for x in (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b):
                    for t in subterms(x) if isinstance(x, tuple) else ():
                        if t[:1] == ('fld',):
                            used.add(self.tyof(F.f, t[1]))
        for R, fs in self.T.records.items():
            if R not in used:
                continue
            ints = [n for n, t in fs if self.T.canon(t) in ('int', 'unsigned int')]
            ptrs = [n for n, t in fs if self.T.is_ptr(t) and not self.voidp(self.T.canon(t)) and '(' not in self.T.canon(t)]
            h = {(a, b, 'p') for a in ints for b in ints if a != b} | {(a, b, 'cap') for a in ints for b in ptrs} if ints and ptrs else set()
            if h:
                H[R] = h
        return H

    def F_initial(self):
        """static storage starts as zero or as its initializer says"""
        self.contribs = {}
        gi = getattr(self.p, 'ginit', {}) or {}

        def put(t, c, e):
            t = self.T.canon(t)
            while '[' in t:
                t = self.T.elem(t)
                if e is not None and e[0] == 'arr':
                    for x in e[2]:
                        put(t, c, x)
            if self.T.is_record(t):
                if e is None and any(h[2] == 'cap' for h in self.H.get(t, ())):
                    return      # containers count from their initialization on
                for n, ft in self.T.records[self.T.canon(t)]:
                    x = ('c', 0)
                    if e is not None and e[0] == 'agg':
                        x = dict(e[2]).get(n, ('c', 0))
                    elif e is not None and e[0] not in ('zero', 'c', 'arr'):
                        x = e
                    put(ft, (t, n), x)
            elif self.isint(t):
                z = Z()
                x = None
                if e is None or e[0] in ('zero', 'arr', 'agg'):
                    x = (None, 0)
                elif e[0] == 'c' and isinstance(e[1], int):
                    x = (None, e[1])
                else:
                    while e[0] == 'cast':
                        e = e[2]
                    x = (None, e[1]) if e[0] == 'c' and isinstance(e[1], int) else None
                if x is None:
                    self.contrib(c, -INF, INF, None)
                else:
                    self.contrib(c, x[1], x[1], None)
                    self.contrib(c, min(0, x[1]) if '[' in t else x[1], x[1], None)
        for n, g in self.p.globals.items():
            put(g['type'], ('glob', n), gi.get(n) if gi.get(n) is not None else None)
        r, self.contribs = self.contribs, None
        return r

    def reach(self, roots):
        seen, st = set(), [r for r in roots if r in self.fn]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(self.succ[n] - seen)
        return seen

    def fixpoint(self, roots, log=None, entries=None):
        import time
        self.ghosts, self.useF, self.topdown, self.stack = True, True, True, []
        self.obs, self.calls, self.contribs, self.fails = None, None, None, {}
        self.sum, self.scount, self.newly, self.why = {}, {}, set(), {}
        self.sccs = self.order()
        pred = {}
        for n, ts in self.succ.items():
            for m in ts:
                pred.setdefault(m, set()).add(n)
        self.H = self.H_candidates()
        self.dropped = {}
        self.F = self.F_initial()
        self.roots = set(r for r in roots if r in self.fn)
        self.E = {r: None for r in self.roots}      # None: any state
        self.ecount, self.fcount = {}, {}
        order = [n for c in reversed(self.sccs) for n in c]
        pos = {n: i for i, n in enumerate(order)}
        self.where = {}
        reach = self.reach(roots)
        # which functions read which field / record
        uses = {n: self.fields_used(n) for n in reach}
        dirty = set(self.E)
        self.sol = {}
        self.kept = {}
        at = -1
        while dirty:
            # callees first
            n = max(dirty, key=lambda x: pos[x])
            at = pos[n]
            dirty.discard(n)
            t0 = time.time()
            F = self.fn[n]
            self.contribs, self.calls, self.fails = None, None, {}
            sol = self.run(n, self.E[n])
            self.sol[n] = sol
            if self.sum_update(n, self.summary_of(n, sol)):
                dirty |= {m for m in pred.get(n, ()) if m in self.sol}
                for m in pred.get(n, ()):
                    self.why.setdefault(m, []).append(('S', n))
            dirty |= self.newly
            self.newly = set()
            self.contribs, self.calls, self.fails = {}, {}, {}
            if sol is not None:
                self.sweep(F, sol)
            con, calls, fails = self.contribs, self.calls, self.fails
            self.contribs = self.calls = None
            if log:
                log(f'{n} {time.time() - t0:.2f}s')
            changed = set()
            for c, (lo, hi) in con.items():
                o = self.F.get(c)
                if o is None:
                    self.F[c] = (lo, hi)
                    changed.add(c)
                    if log:
                        log(f'F {n} {c} -> {self.F[c]}')
                elif lo < o[0] or hi > o[1]:
                    k = self.fcount[c] = self.fcount.get(c, 0) + 1
                    lo2, hi2 = min(lo, o[0]), max(hi, o[1])
                    if k > 1:
                        if hi2 > o[1]:
                            hi2 = self.fwiden(c, hi2, k)
                        if lo2 < o[0]:
                            lo2 = -INF if lo2 < -2 or k > 12 else lo2
                    self.F[c] = (lo2, hi2)
                    if log:
                        log(f'F {n} {c} {o} {(lo,hi)} -> {self.F[c]}')
                    self.where.setdefault(c, {})
                    changed.add(c)
            for (R, h), w in fails.items():
                if h in self.H.get(R, ()):
                    self.H[R] = self.H[R] - {h}
                    self.dropped[(R, h)] = w
                    changed.add(('H', R))
            if changed:
                for m in self.sol:
                    if uses[m] & changed:
                        dirty.add(m)
                        self.why.setdefault(m, []).append(('F', uses[m] & changed))
            for g, y in calls.items():
                if g in self.E and self.E[g] is None:
                    continue
                o = self.E.get(g)
                if o is None:
                    self.E[g] = y
                    dirty.add(g)
                elif not zleq(y, o):
                    k = self.ecount[g] = self.ecount.get(g, 0) + 1
                    self.why.setdefault(g, []).append(('E', n))
                    self.E[g] = zjoin(o, y) if k < 6 else zwiden(o, zjoin(o, y), self.th if k < 14 else np.array([0, INF], dtype=np.int64))
                    dirty.add(g)

    def fields_used(self, n):
        out = set()
        f = self.fn[n].f
        for i in f.ins:
            for x in (i.a, i.b, *(i.c or ())) if i.k == 'call' else (i.a, i.b):
                for t in subterms(x) if isinstance(x, tuple) else ():
                    if t[:1] in (('fld',), ('v',)) and len(t) > 1:
                        try:
                            out |= self.own(f, t)
                        except Exception:
                            pass
                        if t[0] == 'fld':
                            out.add(('H', self.tyof(f, t[1])))
        for lv in self.fn[n].need:
            out |= self.own(f, lv)
            if lv[0] == 'fld':
                out.add(('H', self.tyof(f, lv[1])))
        for m in self.succ[n]:
            for lv in self.fn[m].need:
                try:
                    out |= self.own(self.fn[m].f, lv)
                    if lv[0] == 'fld':
                        out.add(('H', self.tyof(self.fn[m].f, lv[1])))
                except Exception:
                    pass
        return out

    def sweep(self, F, sol):
        """one pass over the stable states, collecting what they contribute"""
        for n, d in sol.items():
            ins = F.f.ins[n]
            if ins.k in ('set', 'call'):
                self.step_all(F, n, d.values(), ins)
            elif ins.k == 'ret' or not ins.succ:
                for z in d.values():
                    self.cur = ins
                    if z.dirty:
                        self.fail_all(F, z.copy(), 'open at the return')

    def obligations(self):
        self.obs, self.contribs, self.calls, self.fails = {}, None, None, {}
        for n, sol in self.sol.items():
            if sol is None:
                continue
            F = self.fn[n]
            for k, d in sol.items():
                ins = F.f.ins[k]
                self.cur = ins
                for z0 in d.values():
                    z = z0.copy()
                    if ins.k == 'set':
                        self.check_expr(z, F, ins, ins.b)
                        if ins.a[0] != 'v':
                            self.check_path(z, F, ins, ins.a)
                    elif ins.k == 'call':
                        for a in ins.c:
                            self.check_expr(z, F, ins, a)
                        if isinstance(ins.b, str) and ins.b not in self.p.funcs and ins.b != 'Globals_assert':
                            self.check_external(z, F, ins)
                    elif isinstance(ins.a, tuple) and ins.k in ('br', 'ret', 'switch'):
                        self.check_expr(z, F, ins, ins.a)
        r, self.obs = self.obs, None
        return r
