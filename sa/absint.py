"""Symbolic-value dataflow over the IR (value numbering + branch facts), partitioned by facts in the manner of ESP.

State = env (abstract location -> value), epochs (memory class -> version), facts (atomic predicate -> bool), ghost marks.
Values are hash-consed terms; a load from memory nobody wrote on this path is ('ld', path, versions): two loads are the same
value exactly if no instruction in between may write that class of memory.  Joins keep what agrees; disagreeing locations get a
phi value.  Loops are iterated to a fixpoint; everything computed in a loop body is forgotten (turned into a phi) on the back
edge.  Calls use mod/ref summaries, are inlined on request, or always when the callee is not part of the reference function list
(a helper that a later edit extracted is thus seen through).
"""
import sys, os
from .frontend import show, BrokenAnalysis, Ins

sys.setrecursionlimit(20000)

PURE_EXT = {'log2', 'log', 'exp', 'pow', 'sqrt', 'fabs', 'labs', 'abs', 'strcmp', 'strncmp', 'strlen', 'strstr', 'strchr', 'isdigit', 'isspace', 'floor', 'ceil', 'fmin', 'fmax',
            'isnan', 'isinf', '__isnan', 'memcmp', '__ctype_b_loc', 'toupper', 'tolower', 'isalpha', 'isalnum', 'strrchr', 'round', 'lround', 'fabsf', 'roundf'}
WRITES_EXT = {'memset': {0}, 'memcpy': {0}, 'memmove': {0}, 'strcpy': {0}, 'strncpy': {0}, 'strcat': {0}, 'strncat': {0}, 'sprintf': {0}, 'snprintf': {0},
              'vsprintf': {0}, 'vsnprintf': {0}, 'fgets': {0}, 'sscanf': set(range(2, 12)), '__isoc99_sscanf': set(range(2, 12)), 'recvfrom': {1, 4, 5},
              'pthread_create': {0}, 'qsort': {0}, 'strtok': {0}, 'fread': {0}, 'read': {1}, 'scanf': set(range(1, 12)), 'pthread_mutex_lock': set(),
              'strtod': {1}, 'strtol': {1}, 'strtoul': {1}}
NORETURN = {'exit', 'abort', '_exit', '__assert_fail', 'pthread_exit'}


# ------------------------------------------------------------------------------------------------- typing
class Typing:
    def __init__(self, prog):
        self.p = prog
        self.T = prog.types

    def var(self, f, v):
        if f is not None and v in f.vars:
            return f.vars[v]
        if ':' in v:
            fn = v.split(':')[0]
            if fn in self.p.funcs and v in self.p.funcs[fn].vars:
                return self.p.funcs[fn].vars[v]
        g = self.p.globals.get(v)
        return g['type'] if g else 'int'

    def of(self, f, e):
        k = e[0]
        if k == 'v':
            return self.T.canon(self.var(f, e[1]))
        if k == 'fld':
            return self.T.canon(self.T.field_type(self.of(f, e[1]), e[2]) or 'int')
        if k == 'idx':
            if e[1][0] == 'd':
                return self.T.canon(self.T.elem(self.of(f, e[1][1])) or 'char')
            if e[1][0] == 'strlv':
                return 'char'
            return self.T.canon(self.T.elem(self.of(f, e[1])) or 'char')
        if k == 'd':
            return self.T.canon(self.T.elem(self.of(f, e[1])) or 'char')
        if k == 'a':
            if e[1][0] == 'strlv':
                return 'char *'
            t = self.of(f, e[1])
            return t + ' *' if '[' not in t else 'ARRPTR ' + t
        if k == 'c':
            return 'int'
        if k == 'f':
            return 'double'
        if k == 'cast':
            return self.T.canon(e[1])
        if k in ('agg', 'arr', 'zero'):
            return self.T.canon(e[1])
        if k == 'u':
            return self.of(f, e[2])
        if k == 'b':
            if e[1] in ('==', '!=', '<', '>', '<=', '>='):
                return 'int'
            a, b = self.of(f, e[2]), self.of(f, e[3])
            if e[1] == '-' and self.T.is_ptr(a) and self.T.is_ptr(b):
                return 'long'
            if self.T.is_ptr(a):
                return a
            if self.T.is_ptr(b):
                return b
            for t in ('double', 'float', 'unsigned long', 'long', 'unsigned int'):
                if t in (a, b):
                    return t
            return 'int'
        if k == 'strlv':
            return 'char[1]'
        return 'int'

    def nested_classes(self, t, _memo={}):
        t = self.T.canon(t)
        key = (id(self.p), t)
        if key in _memo:
            return _memo[key]
        out = set()
        u = t
        while u and '[' in u:
            u = self.T.elem(u)
        if u and self.T.is_record(u):
            for fn, ft in self.T.records[self.T.canon(u)]:
                out.add((u, fn))
                out |= self.nested_classes(ft)
        _memo[key] = frozenset(out)
        return _memo[key]

    def lvclasses(self, f, lv):
        """memory classes a store to lvalue lv may touch"""
        t = self.of(f, lv)
        out = set(self.nested_classes(t))
        out |= self.own_class(f, lv)
        return out

    def own_class(self, f, lv):
        k = lv[0]
        if k == 'v':
            return {('glob', lv[1])} if not (f and lv[1] in f.vars) else {('loc', lv[1])}
        if k == 'fld':
            return {(self.of(f, lv[1]), lv[2])}
        if k == 'idx':
            if lv[1][0] == 'd':
                return {('elem', self.of(f, lv))}
            if lv[1][0] == 'strlv':
                return set()
            return self.own_class(f, lv[1])
        if k == 'd':
            return {('elem', self.of(f, lv))}
        return set()


def alias_expand(classes):
    return classes


# ------------------------------------------------------------------------------------------------- mod/ref summaries
class Summaries:
    """mod(f): memory classes f may write (transitively); pmod(f): parameter indices whose pointee f may write; ref(f)."""

    def __init__(self, prog):
        self.p = prog
        self.ty = Typing(prog)
        self.mod, self.ref, self.pmod, self.io = {}, {}, {}, {}
        self.addr_taken = set(prog.fnptr_refs())
        self.compute()

    def origins(self, f):
        """pointer locals -> set of origins: ('p',k) parameter, ('l',var) address of local, 'x' other"""
        org = {}
        for k, v in enumerate(f.params):
            org[v] = {('p', k)}
        changed = True

        def o(e):
            if e[0] == 'v':
                if e[1] in f.vars:
                    return org.get(e[1], set())
                return {'x'}
            if e[0] == 'a':
                r = e[1]
                while r[0] in ('fld', 'idx'):
                    r = r[1]
                if r[0] == 'd':
                    return o(r[1])
                if r[0] == 'v' and r[1] in f.vars:
                    return {('l', r[1])}
                return {'x'}
            if e[0] == 'b':
                return o(e[2]) | o(e[3])
            if e[0] == 'cast':
                return o(e[2])
            if e[0] in ('fld', 'idx', 'd'):
                return {'x'}
            return set()
        self._o = o
        while changed:
            changed = False
            for i in f.ins:
                if i.k == 'set' and i.a[0] == 'v' and i.a[1] in f.vars:
                    n = o(i.b)
                    if not n <= org.get(i.a[1], set()):
                        org[i.a[1]] = org.get(i.a[1], set()) | n
                        changed = True
                if i.k == 'call' and i.a is not None and i.a[0] == 'v':
                    if 'x' not in org.get(i.a[1], set()):
                        org[i.a[1]] = org.get(i.a[1], set()) | {'x'}
                        # a function returning one of its pointer args (strcpy-like) is not used for stores here
                        changed = True
        return o

    def compute(self):
        p, ty = self.p, self.ty
        local = {}
        for f in p.funcs.values():
            o = self.origins(f)
            mod, ref, pm, calls, io = set(), set(), set(), [], set()

            def root(lv):
                while lv[0] in ('fld', 'idx'):
                    lv = lv[1]
                return lv

            def reads(e):
                if not isinstance(e, tuple) or not e:
                    return
                if e[0] in ('fld', 'idx', 'd', 'v'):
                    r = root(e)
                    if not (r[0] == 'v' and r[1] in f.vars):
                        ref.update(c for c in ty.lvclasses(f, e) if c[0] != 'loc')
                if e[0] == 'a':
                    # address: inner index expressions are read, not the location
                    lv = e[1]
                    while isinstance(lv, tuple) and lv and lv[0] in ('fld', 'idx'):
                        if lv[0] == 'idx':
                            reads(lv[2])
                        lv = lv[1]
                    if lv and lv[0] == 'd':
                        reads(lv[1])
                    return
                for x in e[1:]:
                    if isinstance(x, tuple):
                        reads(x)
            for i in f.ins:
                if i.k == 'set':
                    reads(i.b)
                    lv = i.a
                    x = lv
                    while x[0] in ('fld', 'idx'):
                        if x[0] == 'idx':
                            reads(x[2])
                        x = x[1]
                    if x[0] == 'd':
                        reads(x[1])
                    r = x
                    if r[0] == 'd':
                        src = o(r[1])
                        nl = {s for s in src if not (isinstance(s, tuple) and s[0] == 'l')}
                        if nl or not src:
                            if nl and all(isinstance(s, tuple) and s[0] == 'p' for s in nl):
                                pm |= {(s[1], c) for s in nl for c in ty.lvclasses(f, lv)}
                            else:
                                pm |= {(s[1], c) for s in nl if isinstance(s, tuple) for c in ty.lvclasses(f, lv)}
                                mod |= ty.lvclasses(f, lv)
                    elif r[0] == 'v' and r[1] not in f.vars:
                        mod |= ty.lvclasses(f, lv)
                elif i.k in ('br', 'switch', 'ret'):
                    if isinstance(i.a, tuple):
                        reads(i.a)
                elif i.k == 'call':
                    for a in i.c:
                        reads(a)
                    if not isinstance(i.b, str):
                        reads(i.b)
                    calls.append((self.targets(f, i) if not isinstance(i.b, str) else i.b, [(o(a), a) for a in i.c]))
            local[f.name] = (f, mod, ref, pm, calls)
            self.mod[f.name], self.ref[f.name], self.pmod[f.name] = set(mod), set(ref), set(pm)
            self.io[f.name] = False
        changed = True
        while changed:
            changed = False
            for n, (f, mod, ref, pm, calls) in local.items():
                M, R, P, IO = self.mod[n], self.ref[n], self.pmod[n], self.io[n]
                m0 = (len(M), len(R), len(P), IO)
                for callee, args in calls:
                    tg = [callee] if isinstance(callee, str) else callee
                    for t in tg:
                        if t in p.funcs:
                            M |= {c for c in self.mod[t] if c[0] != 'loc'}
                            R |= self.ref[t]
                            if self.io[t]:
                                IO = True
                            pmt = self.pmod[t]
                        else:
                            if t not in PURE_EXT and t != '__va_arg':
                                IO = True
                            pmt = set()
                            for k in WRITES_EXT.get(t, ()):
                                if k < len(args):
                                    et = self.elem_of(f, args[k][1])
                                    pmt |= {(k, c) for c in et}
                        for k, c in pmt:
                            if k < len(args):
                                src, a = args[k]
                                cl = {c}
                                if c[0] == 'elem' and a[0] == 'a':
                                    cl |= self.ty.lvclasses(f, a[1]) if a[1][0] != 'strlv' else set()
                                for s in src:
                                    if s == 'x':
                                        M |= {c2 for c2 in cl if c2[0] != 'loc'}
                                    elif s[0] == 'p':
                                        P |= {(s[1], c2) for c2 in cl if c2[0] != 'loc'}
                self.io[n] = IO
                if (len(M), len(R), len(P), IO) != m0:
                    changed = True

    def cls(self, t):
        t = (t or '').replace('const ', '').strip()
        if t.endswith('*') or t.startswith('ARRPTR') or t.endswith(']'):
            return 'ptr'
        t = self.ty.T.canon(t)
        return t if t in self.ty.T.records else 'num'

    def targets(self, f, i):
        rt = None
        if i.a is not None:
            rt = self.ty.of(f, i.a)
        return self.targets_by(f, i.c, rt)

    def targets_by(self, f, args, rt):
        """functions an indirect call may reach: those whose address is taken and whose signature fits the call"""
        sig = [self.cls(self.ty.of(f, a)) for a in args]
        out = []
        for t in sorted(self.addr_taken):
            g = self.p.funcs.get(t)
            if g is None:
                continue
            if [self.cls(g.vars[v]) for v in g.params] != sig:
                continue
            if rt is not None and self.cls(g.ret) != self.cls(rt):
                continue
            out.append(t)
        return out

    def elem_of(self, f, a):
        t = self.ty.of(f, a)
        if t.startswith('ARRPTR'):
            t = t[7:]
        e = self.ty.T.elem(t)
        out = {('elem', self.ty.T.canon(e or 'char'))}
        if e:
            out |= self.ty.nested_classes(e)
        if a[0] == 'a' and a[1][0] != 'strlv':
            out |= {c for c in self.ty.lvclasses(f, a[1])}
        return {c for c in out if c[0] != 'loc'}

    def effects(self, f, callee, args):
        """(mod classes, set of arg positions whose pointee is written)"""
        if not isinstance(callee, str):
            M, P = set(), set()
            for t in self.targets_by(f, args, None):
                if t in self.p.funcs:
                    M |= self.mod[t]
                    P |= self.pmod[t]
            return M, {k for k, _ in P}, {c for _, c in P}
        if callee in self.p.funcs:
            return self.mod[callee], {k for k, _ in self.pmod[callee]}, {c for _, c in self.pmod[callee]}
        ks = {k for k in WRITES_EXT.get(callee, ()) if k < len(args)}
        cl = set()
        for k in ks:
            cl |= self.elem_of(f, args[k])
        return set(), ks, cl

    def pure(self, callee):
        if callee in PURE_EXT:
            return True
        return callee in self.p.funcs and not {c for c in self.mod[callee]} and not self.pmod[callee] and not self.io[callee]


# ------------------------------------------------------------------------------------------------- states
class State:
    __slots__ = ('env', 'ep', 'facts', 'may')

    def __init__(self, env=None, ep=None, facts=None, may=frozenset()):
        self.env, self.ep, self.facts, self.may = env or {}, ep or {}, facts or {}, may

    def copy(self):
        return State(dict(self.env), dict(self.ep), dict(self.facts), self.may)

    def __eq__(self, o):
        return self.env == o.env and self.ep == o.ep and self.facts == o.facts and self.may == o.may


def root_of(path):
    while path[0] in ('fld', 'idx'):
        path = path[1]
    return path


def mentions(v, test, _c=None):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and test(x):
                return True
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)
    return False


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)


COMM = {'+', '*', '==', '&', '|', '^'}


def num(v):
    if v[0] in ('c', 'f'):
        return v[1]
    return None


class Engine:
    def __init__(self, prog, summ, known, inline=(), opaque=(), K=16, relevant=None, hooks=None, assume_asserts=True, max_visits=4000, never_inline=(), contentless=(), max_depth=14, frame=None, functional=(), stable=(), split=()):
        self.p, self.s, self.known = prog, summ, known
        self.split = set(split)   # record types of which a loop forgets only the fields it may change
        self.ty = summ.ty
        self.inline, self.opaque, self.K = set(inline), set(opaque), K * (4 if os.environ.get("VERIF_TIER") == "thorough" else 1)
        self.relevant = relevant
        self.h = hooks
        self.assume_asserts = assume_asserts
        self.ptype = {}
        self.live_cache = {}
        self.loop_cache = {}
        self.recursive = None
        self.visited_fns = set()
        self.mods_cache, self.addr_cache = {}, {}
        self.floors = {}
        self.functional = set(functional)     # callees whose result is a function of the argument contents (they only fill the hash cache of a term besides)
        self.stable = set(stable)     # globals whose entries, once there, do not change (the atom table): results that depend on them are not told apart by time
        self.frame = frame or {}      # callee -> True: its memory effects are ignored (reason stated where it is used)
        self.cur_fn = None
        self.max_depth = max_depth
        self.stats = dict(states=0, joins=0, inlined=0)

    # ---- normalisation of values
    def mk(self, op, a, b):
        na, nb = num(a), num(b)
        if op in ('!=', '>', '>=', '<='):
            if op == '!=':
                return self.neg(self.mk('==', a, b))
            if op == '>':
                return self.mk('<', b, a)
            if op == '>=':
                return self.neg(self.mk('<', a, b))
            return self.neg(self.mk('<', b, a))
        if na is not None and nb is not None:
            try:
                if op == '==':
                    return ('c', int(na == nb))
                if op == '<':
                    return ('c', int(na < nb))
                isf = a[0] == 'f' or b[0] == 'f'
                if op in '+-*':
                    r = na + nb if op == '+' else na - nb if op == '-' else na * nb
                    return ('f' if isf else 'c', r)
                if op == '/' and nb:
                    return ('f', na / nb) if isf else ('c', int(na / nb))
                if op == '%' and nb:
                    return ('c', na - nb * int(na / nb))
                if op in ('<<', '>>', '&', '|', '^'):
                    return ('c', {'<<': lambda: na << nb, '>>': lambda: na >> nb, '&': lambda: na & nb, '|': lambda: na | nb, '^': lambda: na ^ nb}[op]())
            except Exception:
                pass
        if op == '==':
            if a == b and a[0] not in ('f',):
                return ('c', 1)
            if a[0] == 'a' and b == ('c', 0) or b[0] == 'a' and a == ('c', 0):
                return ('c', 0)
            if a[0] == 'a' and b[0] == 'a':
                d = self.distinct(a[1], b[1])
                if d:
                    return ('c', 0)
            # boolean == 0 / 1
            for x, y in ((a, b), (b, a)):
                if y == ('c', 0) and self.isbool(x):
                    return self.neg(x)
                if y == ('c', 1) and self.isbool(x):
                    return x
                # (x + c) == d
                if y[0] == 'c' and x[0] == 'b' and x[1] == '+' and x[3][0] == 'c':
                    return self.mk('==', x[2], ('c', y[1] - x[3][1]))
        if op == '<' and a == b:
            return ('c', 0)
        if op == '-':
            if nb is not None and b[0] == 'c':
                return self.mk('+', a, ('c', -nb))
            if a == b:
                return ('c', 0)
        if op == '+':
            if na is not None:
                a, b, na, nb = b, a, nb, na
            if nb == 0 and b[0] == 'c':
                return a
            if nb is not None and a[0] == 'b' and a[1] == '+' and num(a[3]) is not None and b[0] == a[3][0] == 'c':
                return self.mk('+', a[2], ('c', a[3][1] + nb))
        if op == '*':
            if na is not None:
                a, b, na, nb = b, a, nb, na
            if nb == 1:
                return a
            if nb == 0 and b[0] == 'c':
                return ('c', 0)
        if op in COMM and num(b) is None and repr(b) < repr(a):
            a, b = b, a
        if op == '==' and num(a) is not None:
            a, b = b, a
        return ('b', op, a, b)

    def isbool(self, v):
        return v[0] == 'not' or (v[0] == 'b' and v[1] in ('==', '<')) or v[0] == 'bool'

    def neg(self, v):
        if v[0] == 'not':
            return v[1]
        if v[0] == 'c':
            return ('c', int(not v[1]))
        if v[0] == 'f':
            return ('c', int(not v[1]))
        if self.isbool(v):
            return ('not', v)
        return ('b', '==', v, ('c', 0))

    def truth_atom(self, v):
        """(atom, polarity): v is true iff atom is polarity"""
        pol = True
        while True:
            if v[0] == 'not':
                v, pol = v[1], not pol
                continue
            if v[0] in ('c', 'f'):
                return ('c', 1), bool(v[1]) == pol
            if self.isbool(v):
                return v, pol
            if v[0] == 'a' or v[0] == 'fn':
                return ('c', 1), pol
            return ('b', '==', v, ('c', 0)), not pol

    def distinct(self, p, q):
        """definitely different locations"""
        def flat(x):
            out = []
            while x[0] in ('fld', 'idx'):
                out.append(x)
                x = x[1]
            return x, out[::-1]
        rp, lp = flat(p)
        rq, lq = flat(q)
        if rp != rq:
            if rp[0] == 'v' and rq[0] == 'v':
                return True
            if rp[0] == 'v' and self.islocal(rp[1]) and rq[0] == 'd':
                return not mentions(rq, lambda t: t[0] == 'phi' or t == rp)
            if rq[0] == 'v' and self.islocal(rq[1]) and rp[0] == 'd':
                return not mentions(rp, lambda t: t[0] == 'phi' or t == rq)
            return False
        for a, b in zip(lp, lq):
            if a[0] != b[0]:
                return False
            if a[0] == 'fld':
                if a[2] != b[2]:
                    return True
            else:
                if a[2] != b[2]:
                    d = self.mk('-', a[2], b[2])
                    if a[2][0] == 'c' and b[2][0] == 'c':
                        return True
                    x, y = (a[2], b[2])
                    bx = (x[2], x[3][1]) if x[0] == 'b' and x[1] == '+' and x[3][0] == 'c' else (x, 0)
                    by = (y[2], y[3][1]) if y[0] == 'b' and y[1] == '+' and y[3][0] == 'c' else (y, 0)
                    if bx[0] == by[0] and bx[1] != by[1]:
                        return True
                    return False
        return False

    def islocal(self, v):
        return ':' in v and v not in self.p.globals

    # ---- facts
    def known_truth(self, st, atom):
        if atom[0] == 'c':
            return bool(atom[1])
        if atom in st.facts:
            return st.facts[atom]
        op, a, b = atom[1], atom[2], atom[3] if atom[0] == 'b' else None
        if atom[0] != 'b':
            return None
        if op == '==':
            # two values
            if ('b', '<', a, b) in st.facts and st.facts[('b', '<', a, b)]:
                return False
            if ('b', '<', b, a) in st.facts and st.facts[('b', '<', b, a)]:
                return False
        if op == '<':
            if st.facts.get(('b', '<', b, a)):
                return False
            e = ('b', '==', a, b) if repr(a) <= repr(b) else ('b', '==', b, a)
            if st.facts.get(e):
                return False
        x, c, side = (a, num(b), 'r') if num(b) is not None else (b, num(a), 'l')
        if c is None:
            return None
        lo, hi, ne, eq = self.bounds(st, x)
        if op == '==':
            if eq is not None:
                return eq == c
            if c in ne or (lo is not None and c < lo) or (hi is not None and c > hi):
                return False
        elif side == 'r':   # x < c
            if eq is not None:
                return eq < c
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
        else:               # c < x
            if eq is not None:
                return c < eq
            if lo is not None and lo > c:
                return True
            if hi is not None and hi <= c:
                return False
        return None

    def bounds(self, st, x):
        lo = hi = eq = None
        ne = set()
        idx = getattr(st, '_idx', None)
        off = 0
        base = x
        if x[0] == 'b' and x[1] == '+' and x[3][0] == 'c':
            base, off = x[2], x[3][1]
        isint = True
        for atom, v in st.facts.items():
            if atom[0] != 'b':
                continue
            op, a, b = atom[1], atom[2], atom[3]
            for (y, o) in ((x, 0), (base, off)) if off else ((x, 0),):
                if a == y and num(b) is not None:
                    c = num(b) + o
                    fl = b[0] == 'f'
                    if op == '==':
                        if v:
                            eq = c
                        else:
                            ne.add(c)
                    elif op == '<':
                        if v:
                            h = c if fl else c - 1
                            hi = h if hi is None else min(hi, h)
                        else:
                            lo = c if lo is None else max(lo, c)
                elif b == y and num(a) is not None and op == '<':
                    c = num(a) + o
                    fl = a[0] == 'f'
                    if v:
                        l = c if fl else c + 1
                        lo = l if lo is None else max(lo, l)
                    else:
                        hi = c if hi is None else min(hi, c)
        return lo, hi, ne, eq

    def assume(self, st, v, want):
        """returns False if infeasible"""
        atom, pol = self.truth_atom(v)
        val = (pol == want)
        k = self.known_truth(st, atom)
        if k is not None:
            if k != val:
                return False
            if atom[0] == 'c':
                return True
        st.facts[atom] = val
        return True

    # ---- memory
    def epochs_for(self, st, classes):
        return tuple(sorted((c, st.ep[c]) for c in classes if c in st.ep)) if st.ep else ()

    def path_type(self, path):
        k = path[0]
        if k == 'v':
            return self.ty.T.canon(self.ty.var(None, path[1]))
        if k == 'fld':
            return self.ty.T.canon(self.ty.T.field_type(self.path_type(path[1]), path[2]) or 'int')
        if k == 'idx':
            if path[1][0] == 'd':
                return self.ptype.get(path[1][1], 'char')
            return self.ty.T.canon(self.ty.T.elem(self.path_type(path[1])) or 'char')
        if k == 'd':
            return self.ptype.get(path[1], 'char')
        return 'char'

    def path_class(self, path):
        k = path[0]
        if k == 'v':
            return ('glob', path[1])
        if k == 'fld':
            return (self.path_type(path[1]), path[2])
        if k == 'idx':
            if path[1][0] == 'd':
                return ('elem', self.path_type(path))
            return self.path_class(path[1])
        if k == 'd':
            return ('elem', self.path_type(path))
        return ('str', 0)

    def path_classes(self, path):
        return set(self.ty.nested_classes(self.path_type(path))) | {self.path_class(path)}

    def proj(self, v, step):
        """v: value of an aggregate; step ('fld',f) or ('idx',i)"""
        k = v[0]
        if k == 'agg' and step[0] == 'fld':
            for f, x in v[2]:
                if f == step[1]:
                    return self.zero(x)
        if k == 'arr' and step[0] == 'idx' and step[1][0] == 'c':
            if step[1][1] < len(v[2]):
                return self.zero(v[2][step[1][1]])
            if v[3]:
                return self.zero(('zero', self.ty.T.elem(v[1])))
        if k == 'zero':
            if step[0] == 'fld':
                return self.zero(('zero', self.ty.T.field_type(v[1], step[1]) or 'int'))
            return self.zero(('zero', self.ty.T.elem(v[1]) or 'int'))
        if k == 'with':
            for s, x in v[2]:
                if s == step:
                    return x
                if s[0] == 'idx' and step[0] == 'idx' and not (s[1][0] == 'c' and step[1][0] == 'c'):
                    return ('el', v, step[1])
            return self.proj(v[1], step)
        if k == 'ld':
            np = ('fld', v[1], step[1]) if step[0] == 'fld' else ('idx', v[1], step[1])
            cl = self.path_classes(np)
            return ('ld', np, tuple(x for x in v[2] if x[0] in cl))
        if step[0] == 'fld':
            return ('fld', v, step[1])
        return ('el', v, step[1])

    def zero(self, v):
        if v[0] == 'zero':
            t = self.ty.T.canon(v[1])
            if self.ty.T.is_float(t):
                return ('f', 0.0)
            if not self.ty.T.is_record(t) and '[' not in t:
                return ('c', 0)
            return ('zero', t)
        return v

    def read(self, st, path):
        if path in st.env:
            base = st.env[path]
        else:
            # nearest ancestor
            steps, x, base = [], path, None
            while x[0] in ('fld', 'idx'):
                steps.append(('fld', x[2]) if x[0] == 'fld' else ('idx', x[2]))
                sib = x
                x = x[1]
                if sib[0] == 'idx':
                    sibs = [(q[2], w) for q, w in st.env.items() if q[0] == 'idx' and q[1] == x and q != sib and not self.distinct(q, sib)]
                    if sibs:
                        b0 = self.read(st, x) if x in st.env else ('ldx', x)
                        base = ('mix', b0, tuple(sorted(sibs, key=repr)), sib[2])
                        steps.pop()
                        break
                if x in st.env:
                    base = st.env[x]
                    break
            if base is not None:
                for s in reversed(steps):
                    base = self.proj(base, s)
            else:
                r = root_of(path)
                if r[0] == 'v' and self.islocal(r[1]):
                    base = ('uninit', path)
                elif r[0] == 'strlv':
                    if path[0] == 'idx' and path[2][0] == 'c' and 0 <= path[2][1] <= len(r[1]):
                        i = path[2][1]
                        base = ('c', ord(r[1][i]) if i < len(r[1]) else 0)
                    else:
                        base = ('ld', path, ())
                else:
                    cst = self.const_global(r[1]) if r[0] == 'v' and path == r else None
                    base = cst or ('ld', path, self.epochs_for(st, self.path_classes(path)))
        # nested updates
        subs = []
        t = self.path_type(path)
        if self.ty.T.is_record(t) or '[' in t:
            for q, w in st.env.items():
                if q[0] in ('fld', 'idx') and q[1] == path:
                    subs.append(((q[0], q[2]), self.read(st, q)))
                elif q != path and q[0] in ('fld', 'idx'):
                    x, prev = q, None
                    while x[0] in ('fld', 'idx') and x[1] != path:
                        x = x[1]
                    if x[0] in ('fld', 'idx') and x[1] == path and x not in st.env:
                        s = (x[0], x[2])
                        if all(z[0] != s for z in subs):
                            subs.append((s, self.read(st, x)))
        if subs:
            subs = tuple(sorted(set(subs), key=repr))
            if base[0] == 'with':
                d = dict(base[2])
                d.update(dict(subs))
                return ('with', base[1], tuple(sorted(d.items(), key=repr)))
            return ('with', base, subs)
        return base

    def const_global(self, name):
        return None

    def store(self, st, path, val, key):
        r = root_of(path)
        local = r[0] == 'v' and self.islocal(r[1])
        cl = self.path_classes(path)
        dead = []
        for q in st.env:
            if q == path:
                continue
            x = q
            under = False
            while x[0] in ('fld', 'idx'):
                x = x[1]
                if x == path:
                    under = True
                    break
            if under:
                dead.append(q)
                continue
            # q an ancestor of path: keep (sub-entry overrides)
            x = path
            anc = False
            while x[0] in ('fld', 'idx'):
                x = x[1]
                if x == q:
                    anc = True
                    break
            if anc:
                continue
            if self.distinct(path, q):
                continue
            rq = root_of(q)
            qlocal = rq[0] == 'v' and self.islocal(rq[1])
            if local and qlocal and rq != r:
                continue
            if local and rq == r:       # same local, possibly overlapping index
                dead.append(q)
                continue
            if cl & self.path_classes(q):
                dead.append(q)
        for q in dead:
            del st.env[q]
            if root_of(q)[0] == 'v' and self.islocal(root_of(q)[1]) and not (root_of(q) == r):
                st.env[q] = ('clob', key, q)
        if not local:
            for c in cl:
                st.ep[c] = key
        elif mentions(path, lambda t: t[0] == 'idx' and t[2][0] != 'c'):
            # symbolic index into a local array: older content of the array is only known as 'mixed'
            pass
        st.env[path] = val

    def havoc(self, st, classes, key):
        if not classes:
            return
        for q in list(st.env):
            r = root_of(q)
            if r[0] == 'v' and self.islocal(r[1]):
                continue
            if self.path_classes(q) & classes:
                del st.env[q]
        for c in classes:
            st.ep[c] = key

    # ---- expression evaluation
    def path(self, st, f, lv):
        k = lv[0]
        if k == 'v' or k == 'strlv':
            return lv
        if k == 'fld':
            return ('fld', self.path(st, f, lv[1]), lv[2])
        if k == 'idx':
            i = self.eval(st, f, lv[2])
            if lv[1][0] == 'd':
                pv = self.eval(st, f, lv[1][1])
                return self.ptr_index(st, pv, i, self.ty.of(f, lv))
            return ('idx', self.path(st, f, lv[1]), i)
        if k == 'd':
            pv = self.eval(st, f, lv[1])
            if pv[0] == 'a':
                return pv[1]
            return self.ptr_index(st, pv, ('c', 0), self.ty.of(f, lv))
        if k == 'a':
            return self.path(st, f, lv[1])
        raise BrokenAnalysis('lvalue ' + show(lv))

    def ptr_index(self, st, pv, i, ty):
        if pv[0] == 'a':
            if pv[1][0] == 'idx':
                return ('idx', pv[1][1], self.mk('+', pv[1][2], i))
            if i == ('c', 0):
                return pv[1]
            return ('idx', pv[1], i)
        if pv[0] == 'b' and pv[1] == '+' and pv[3][0] == 'c':
            i = self.mk('+', pv[3], i)
            pv = pv[2]
        self.ptype.setdefault(pv, ty)
        if i == ('c', 0):
            return ('d', pv)
        return ('idx', ('d', pv), i)

    def eval(self, st, f, e):
        k = e[0]
        if k in ('c', 'f', 'fn'):
            return e
        if k in ('v', 'fld', 'idx', 'd'):
            if k == 'v' and e[1] not in (f.vars if f else ()) and e[1] not in self.p.globals and e[1] in self.p.funcs:
                return ('fn', e[1])
            return self.read(st, self.path(st, f, e))
        if k == 'a':
            pth = self.path(st, f, e[1])
            if pth[0] == 'd':
                return pth[1]
            if pth[0] == 'idx' and pth[1][0] == 'd':
                return self.mk('+', pth[1][1], pth[2]) if pth[2] != ('c', 0) else pth[1][1]
            return ('a', pth)
        if k == 'cast':
            v = self.eval(st, f, e[2])
            t = self.ty.T.canon(e[1])
            if v[0] == 'c' and self.ty.T.is_float(t):
                return ('f', float(v[1]))
            if v[0] == 'f' and not self.ty.T.is_float(t) and t in ('int', 'long', 'unsigned int', 'char', 'short', 'unsigned short'):
                return ('c', int(v[1]))
            frm = self.ty.of(f, e[2])
            if self.ty.T.is_float(frm) and not self.ty.T.is_float(t) and not self.ty.T.is_ptr(t):
                return ('trunc', v)
            return v
        if k == 'u':
            v = self.eval(st, f, e[2])
            if e[1] == '-':
                if v[0] in ('c', 'f'):
                    return (v[0], -v[1])
                return self.mk('*', v, ('c', -1))
            if e[1] == '!':
                return self.neg(v)
            return ('u', e[1], v)
        if k == 'b':
            a, b = self.eval(st, f, e[2]), self.eval(st, f, e[3])
            ta = self.ty.of(f, e[2])
            if e[1] in ('+', '-') and a[0] == 'a' and (self.ty.T.is_ptr(ta) or ta.startswith('ARRPTR') or '[' in ta):
                if e[1] == '-':
                    tb = self.ty.of(f, e[3])
                    if self.ty.T.is_ptr(tb) or tb.startswith('ARRPTR'):
                        return ('b', '-', a, b)
                    b = self.mk('*', b, ('c', -1))
                pth = self.ptr_index(st, a, b, None)
                return ('a', pth)
            if e[1] == '/' and (self.ty.T.is_float(ta) or self.ty.T.is_float(self.ty.of(f, e[3]))):
                return self.mk('/', a if a[0] != 'c' else ('f', float(a[1])), b if b[0] != 'c' else ('f', float(b[1])))
            if e[1] == '/':
                if num(a) is None or num(b) is None:
                    return ('b', '//', a, b)
            return self.mk(e[1], a, b)
        if k == 'agg':
            return ('agg', e[1], tuple((n, self.zero(self.eval(st, f, x))) for n, x in e[2]))
        if k == 'arr':
            return ('arr', e[1], tuple(self.eval(st, f, x) for x in e[2]), e[3])
        if k == 'zero':
            return self.zero(e)
        if k == 'sizeof':
            return e
        if k == 'strlv':
            return ('a', e)
        raise BrokenAnalysis('expression ' + repr(e)[:100])

    # ---- control flow helpers
    def cfg_info(self, f):
        r = self.loop_cache.get(f.name)
        if r is None or r[0] is not f:
            heads, bodies, rpo = loops(f)
            r = (f, heads, bodies, rpo, liveness(f, self.p))
            self.loop_cache[f.name] = r
        return r

    def is_recursive(self, name):
        if self.recursive is None:
            import networkx as nx
            g = nx.DiGraph()
            for n in self.p.funcs:
                for c in self.p.callees(n):
                    if c in self.p.funcs:
                        g.add_edge(n, c)
            self.recursive = set()
            for comp in nx.strongly_connected_components(g):
                if len(comp) > 1:
                    self.recursive |= comp
            for n in g:
                if g.has_edge(n, n):
                    self.recursive.add(n)
        return name in self.recursive

    def should_inline(self, name, ctx):
        if name not in self.p.funcs or name in self.opaque:
            return False
        if name in self.inline:
            return len(ctx) < self.max_depth and name != self.cur_fn and name not in [c[0] for c in ctx]
        if name not in self.known:
            return not self.is_recursive(name) and len(ctx) < self.max_depth
        return False

    # ---- running
    def run(self, fname, init=None, args=None, ctx=()):
        """analyse fname; returns list of (state, retval) at exits"""
        f = self.p.fn(fname)
        self.visited_fns.add(fname)
        _, heads, bodies, rpo, live = self.cfg_info(f)
        states0 = init if init is not None else [State()]
        for st in states0:
            for k, v in enumerate(f.params):
                if args is None:
                    st.env[('v', v)] = ('arg', fname, k, v.split(':')[1])
                # with args the caller bound them
        inq = {f.entry: list(states0)}
        exits = []
        order = {n: i for i, n in enumerate(rpo)}
        import heapq
        heap = [(order[f.entry], f.entry)]
        inheap = {f.entry}
        head_state = {}
        visits = 0
        while heap:
            _, n = heapq.heappop(heap)
            inheap.discard(n)
            sts = inq.pop(n, [])
            if not sts:
                continue
            visits += 1
            if visits > 200000:
                raise BrokenAnalysis(f'no fixpoint in {fname}')
            ins = f.ins[n]
            if n in heads:
                old = head_state.get(n, {})
                new = []
                groups = {}
                for s in sts:
                    self.prune(s, f, live[n])
                    self.widen(s, f, n, bodies[n], ctx)
                    groups.setdefault(self.flagkey(s, f), []).append(s)
                for gk, gs in groups.items():
                    j = old.get(gk)
                    before = j
                    for s in gs:
                        j = s if j is None else self.join(j, s, (ctx, n), f)
                    if before is None or not (j == before):
                        old[gk] = j
                        new.append(j.copy())
                if len(old) > 24:
                    j = None
                    for s in old.values():
                        j = s if j is None else self.join(j, s, (ctx, n), f)
                    old.clear()
                    old['*'] = j
                    new = [j.copy()]
                head_state[n] = old
                sts = new
                if not sts:
                    continue
            else:
                sts = self.reduce(sts, f, live[n], (ctx, n))
            for st in sts:
                self.stats['states'] += 1
                for (succ, s2) in self.step(f, ins, st, ctx, exits):
                    # back edge: forget everything computed inside the loop
                    if succ in heads and n in bodies[succ]:
                        if self.h and hasattr(self.h, 'on_backedge'):
                            self.h.on_backedge(self, s2, f, ins, bodies[succ], ctx, live[succ])
                        self.age(s2, bodies[succ], ctx, (ctx, succ), f)
                    elif succ in heads and self.h and hasattr(self.h, 'on_enter'):
                        self.h.on_enter(self, s2, f, succ, bodies[succ], ctx)
                    inq.setdefault(succ, []).append(s2)
                    if succ not in inheap:
                        inheap.add(succ)
                        heapq.heappush(heap, (order[succ], succ))
        return exits

    def flagkey(self, st, f):
        k = []
        for q, v in st.env.items():
            if q[0] == 'v' and v[0] == 'c' and q[1] in f.vars and self.ty.T.canon(f.vars[q[1]]) in ('bool', '_Bool'):
                k.append((q[1], v[1]))
        extra = self.h.key(st) if self.h and hasattr(self.h, 'key') else None
        return (tuple(sorted(k)), extra)

    def prune(self, st, f, live):
        for q in list(st.env):
            r = root_of(q)
            if r[0] == 'v' and r[1] in f.vars and r[1] not in live:
                del st.env[q]

    def reduce(self, sts, f, live, key):
        if len(sts) == 1:
            return sts
        out = []
        for s in sts:
            self.prune(s, f, live)
        groups = {}
        for s in sts:
            rel = frozenset((a, v) for a, v in s.facts.items() if self.relevant is None or a[0] == 'mark' or self.relevant(a))
            groups.setdefault((rel, frozenset(s.env.items()), frozenset(s.ep.items()), s.may), []).append(s)
        for (rel, *_), gs in groups.items():
            j = gs[0]
            for s in gs[1:]:
                j = State(j.env, j.ep, {a: v for a, v in j.facts.items() if s.facts.get(a) == v}, j.may)
            out.append(j)
        if len(out) > self.K:
            self.stats['joins'] += 1
            g2 = {}
            for s in out:
                g2.setdefault(self.flagkey(s, f), []).append(s)
            if len(g2) > self.K:
                g2 = {0: out}
            out = []
            for gs in g2.values():
                j = gs[0]
                for s in gs[1:]:
                    j = self.join(j, s, key, f)
                out.append(j)
        return out

    def loop_mods(self, f, head, body):
        """(local lvalue paths, memory classes) the loop may write"""
        memo = self.mods_cache.get((f.name, head))
        if memo is not None and memo[0] is f:
            return memo[1]
        loc, cls = set(), set()

        def lpath(lv):
            # truncate at the first symbolic step
            chain = []
            x = lv
            while x[0] in ('fld', 'idx'):
                chain.append(x)
                x = x[1]
            if x[0] != 'v' or x[1] not in f.vars:
                return None
            out = x
            for c in reversed(chain):
                if c[0] == 'fld':
                    out = ('fld', out, c[2])
                else:
                    break
            return out
        for n in body:
            i = f.ins[n]
            if i.k == 'decl':
                loc.add(i.a)
            elif i.k in ('set', 'call') and i.a is not None:
                lp = lpath(i.a)
                if lp is not None:
                    loc.add(lp)
                else:
                    cls |= self.ty.lvclasses(f, i.a)
            if i.k == 'call' and i.b != 'Globals_assert' and not (isinstance(i.b, str) and i.b in self.frame):
                M, ks, kc = self.s.effects(f, i.b, i.c)
                cls |= {c for c in M if c[0] != 'loc'}
                for j in ks:
                    if j < len(i.c):
                        a = i.c[j]
                        lp = lpath(a[1]) if a[0] == 'a' and a[1][0] != 'strlv' else None
                        if lp is not None:
                            if isinstance(i.b, str) and i.b in self.p.funcs:
                                t = self.ty.T.canon(self.ty.of(f, lp))
                                cj = {c for k2, c in self.s.pmod[i.b] if k2 == j}
                                if self.ty.T.is_record(t) and ('elem', t) not in cj:
                                    for fn, ft in self.ty.T.records[t]:
                                        if ({(t, fn)} | set(self.ty.nested_classes(ft))) & cj:
                                            loc.add(('fld', lp, fn))
                                    continue
                            loc.add(lp)
                        else:
                            if isinstance(i.b, str) and i.b in self.p.funcs:
                                cj = {c for k2, c in self.s.pmod[i.b] if k2 == j}
                                cls |= {c for c in cj if c[0] != 'loc'}
                                if a[0] == 'a' and a[1][0] != 'strlv':
                                    if any(c[0] == 'elem' for c in cj):
                                        cls |= self.ty.lvclasses(f, a[1])
                            else:
                                cls |= {c for c in kc if c[0] != 'loc'}
        # a store to a covering path makes the finer ones redundant
        r = (frozenset(loc), frozenset(cls))
        self.mods_cache[(f.name, head)] = (f, r)
        return r

    def widen(self, st, f, head, body, ctx):
        """entering a loop: forget what the loop may change (boolean flags with a known value are kept apart instead)"""
        key = (ctx, head)
        loc, cls = self.loop_mods(f, head, body)
        for lp in loc:
            v = st.env.get(lp)
            if v == ('phi', key, lp):
                self.floor_fact(st, key, lp)
                continue
            if lp[0] == 'v' and v is not None and v[0] == 'c' and self.ty.T.canon(f.vars[lp[1]]) in ('bool', '_Bool'):
                continue
            if v is None and lp[0] == 'v' and not any(root_of(q) == lp for q in st.env):
                continue        # not live / not yet declared
            self.store(st, lp, ('phi', key, lp), key)
            self.phi_floor(f, body, key, lp, v)
            self.floor_fact(st, key, lp)
        if cls:
            for q in list(st.env):
                r = root_of(q)
                if r[0] == 'v' and self.islocal(r[1]):
                    if r[1] in f.vars and r[1] not in self.addr_taken(f):
                        continue
                    if q in st.env and st.env[q][:2] != ('phi', key) and self.path_classes(q) & cls:
                        t = self.ty.T.canon(self.path_type(q) or '')
                        hit = [(fn, ft) for fn, ft in self.ty.T.records[t] if ({(t, fn)} | set(self.ty.nested_classes(ft))) & cls] if self.ty.T.is_record(t) else []
                        if hit and self.path_class(q) not in cls and ('elem', t) not in cls and (t in self.split or st.env[q][0] == 'ld' and all(self.ty.T.canon(ft) == 'Term' for _, ft in hit)):
                            # only the hash cache of a term in it may change: the rest of the record stays what it was
                            for fn, ft in hit:
                                self.store(st, ('fld', q, fn), ('phi', key, ('fld', q, fn)), key)
                        else:
                            st.env[q] = ('phi', key, q)
                elif self.path_classes(q) & cls:
                    del st.env[q]
            for c in cls:
                st.ep[c] = ('ep', key, c)

    def floor_fact(self, st, key, lp):
        lo = self.floors.get((key, lp))
        if isinstance(lo, int):
            atom = ('b', '<', ('phi', key, lp), ('c', lo))
            if self.relevant is None or self.relevant(atom):
                st.facts[atom] = False

    def phi_floor(self, f, body, key, lp, v):
        """a counter that the loop only increases stays at or above its start value"""
        k = (key, lp)
        if k not in self.floors:
            ok = lp[0] == 'v' and lp[1] in f.vars and lp[1] not in self.addr_taken(f)
            for n in body if ok else ():
                i = f.ins[n]
                if i.k in ('set', 'call') and i.a is not None and i.a[0] == 'v' and i.a == lp:
                    b = i.b
                    while i.k == 'set' and b[0] == 'cast':
                        b = b[2]
                    if not (i.k == 'set' and b[0] == 'b' and b[1] == '+' and b[2] == lp and b[3][0] == 'c' and b[3][1] > 0):
                        ok = False
            self.floors[k] = 'any' if ok else None
        cur = self.floors[k]
        if cur is None:
            return
        if v is None or v[0] != 'c':
            self.floors[k] = None
        else:
            self.floors[k] = v[1] if cur == 'any' else min(cur, v[1])

    def addr_taken(self, f):
        r = self.addr_cache.get(f.name)
        if r is None or r[0] is not f:
            out = set()

            def w(e):
                if isinstance(e, tuple):
                    if len(e) == 2 and e[0] == 'a' and isinstance(e[1], tuple):
                        x = root_of(e[1])
                        if x[0] == 'v':
                            out.add(x[1])
                    for y in e:
                        w(y)
                elif isinstance(e, list):
                    for y in e:
                        w(y)
            for i in f.ins:
                w(i.a)
                w(i.b)
                w(i.c)
            r = (f, out)
            self.addr_cache[f.name] = r
        return r[1]

    def age(self, st, body, ctx, key, f):
        L = len(ctx)

        def gen(t):
            # symbol generated at (ctx', node) with ctx' extending ctx and first node inside the loop body
            if t[0] in ('ret', 'out', 'phi', 'clob', 'ep', 'uninit', 'pure'):
                kk = t[1]
                if isinstance(kk, tuple) and len(kk) == 2 and isinstance(kk[0], tuple):
                    c2, n2 = kk
                    if c2[:L] == ctx:
                        if len(c2) == L:
                            return n2 in body
                        return c2[L] == f.name or (isinstance(c2[L], tuple) and c2[L][1] in body)
            return False
        bad = [q for q, v in st.env.items() if mentions(v, gen) or mentions(q, gen)]
        for q in bad:
            if mentions(q, gen):
                del st.env[q]
            else:
                st.env[q] = ('phi', key, q)
        for c, e in list(st.ep.items()):
            if mentions(e, gen):
                st.ep[c] = ('ep', key, c)
        for a in list(st.facts):
            if mentions(a, gen):
                del st.facts[a]

    def join(self, a, b, key, f):
        env = {}
        keys = set(a.env) | set(b.env)
        for q in keys:
            if q in a.env and q in b.env:
                x, y = a.env[q], b.env[q]
                env[q] = x if x == y else ('phi', key, q)
            else:
                # value through an ancestor or memory on the other side
                r = root_of(q)
                o = b if q in a.env else a
                m = a if q in a.env else b
                v = m.env[q]
                if self.path_ok(q):
                    w = self.read(o, q)
                    env[q] = v if v == w else ('phi', key, q)
        ep = {}
        for c in set(a.ep) | set(b.ep):
            x, y = a.ep.get(c), b.ep.get(c)
            ep[c] = x if x == y else ('ep', key, c)
        facts = {p: v for p, v in a.facts.items() if b.facts.get(p) == v}
        st = State(env, ep, facts, a.may | b.may)
        # keep facts about the joined phi if both sides know the same of their own value
        return st

    def path_ok(self, q):
        return True

    def step(self, f, ins, st, ctx, exits):
        k = ins.k
        key = (ctx, ins.id)
        if k == 'nop':
            return [(ins.succ[0], st)] if ins.succ else []
        if k == 'decl':
            v = ins.a[1]
            for q in [q for q in st.env if root_of(q) == ins.a]:
                del st.env[q]
            st.env[ins.a] = ('uninit', key, v)
            return [(ins.succ[0], st)]
        if k == 'set':
            val = self.eval(st, f, ins.b)
            pth = self.path(st, f, ins.a)
            if self.h and hasattr(self.h, 'on_store'):
                self.h.on_store(self, st, f, ins, pth, val, ctx)
            if not (pth == ('v', ins.a[1]) and ins.a[0] == 'v' and st.env.get(pth) == val):
                if self.ty.T.canon(self.ty.of(f, ins.a)) in ('bool', '_Bool') and val[0] not in ('c',) and not self.isbool(val):
                    pass
                self.store(st, pth, val, key)
            return [(ins.succ[0], st)]
        if k == 'br':
            v = self.eval(st, f, ins.a)
            if self.h and hasattr(self.h, 'on_branch'):
                self.h.on_branch(self, st, f, ins, v, ctx)
            out = []
            s2 = st.copy()
            if self.assume(st, v, True):
                out.append((ins.succ[0], st))
            if self.assume(s2, v, False):
                out.append((ins.succ[1], s2))
            return out
        if k == 'switch':
            v = self.eval(st, f, ins.a)
            out = []
            for val, s in zip(ins.b, ins.succ):
                s2 = st.copy()
                ok = True
                if val is not None:
                    ok = self.assume(s2, self.mk('==', v, ('c', val)), True)
                else:
                    for w in ins.b:
                        if w is not None:
                            ok = ok and self.assume(s2, self.mk('==', v, ('c', w)), False)
                if ok:
                    out.append((s, s2))
            return out
        if k == 'ret':
            v = self.eval(st, f, ins.a) if ins.a is not None else None
            if self.h and hasattr(self.h, 'on_ret'):
                self.h.on_ret(self, st, f, ins, v, ctx)
            exits.append((st, v))
            return []
        if k == 'call':
            return self.call(f, ins, st, ctx, key)
        raise BrokenAnalysis('instruction ' + k)

    def content(self, st, f, a, v, ptype=None):
        """what a pure callee sees of an argument: the pointee's content for a pointer to an object"""
        t = ptype or self.ty.of(f, a)
        t = self.ty.T.canon(t) if not t.startswith('ARRPTR') else t
        if v[0] == 'a' and v[1][0] == 'strlv':
            return ('s', v[1][1])
        if self.ty.T.is_ptr(t) or t.startswith('ARRPTR'):
            el = self.ty.T.elem(t[7:] if t.startswith('ARRPTR') else t) or 'char'
            if el in ('void',):
                return v
            if v == ('c', 0):
                return v
            pth = self.ptr_index(st, v, ('c', 0), self.ty.T.canon(el))
            if pth[0] == 'idx' and pth[2] == ('c', 0) and pth[1][0] != 'd' and not self.ty.T.is_record(el):
                return ('*', self.read(st, pth[1]))       # whole array
            if self.ty.T.is_record(el):
                return ('*', self.read(st, pth))
            return ('*p', v, self.epochs_for(st, {('elem', self.ty.T.canon(el)), self.path_class(pth)}))
        return v

    def pure_value(self, st, f, name, args, vals):
        cv = []
        pt = self.p.protos.get(name, (None, []))[1]
        for j, (a, v) in enumerate(zip(args, vals)):
            cv.append(self.content(st, f, a, v, pt[j] if j < len(pt) else None))
        refs = self.s.ref.get(name, set())
        # global memory the callee reads besides its arguments
        eps = self.epochs_for(st, {c for c in refs if c[0] == 'glob' and c[1] not in self.stable})
        return ('call', name, tuple(cv)) + ((eps,) if eps else ())

    def call(self, f, ins, st, ctx, key):
        name = ins.b
        args = ins.c
        self.cur_fn = f.name
        vals = [self.eval(st, f, a) for a in args]
        if not isinstance(name, str):
            fv = self.eval(st, f, name)
            if fv[0] == 'fn':
                name = fv[1]
        if self.h and hasattr(self.h, 'on_call'):
            r = self.h.on_call(self, st, f, ins, name, vals, ctx)
            if r == 'stop':
                return []
        if isinstance(name, str):
            if name in NORETURN:
                return []
            if name == 'Globals_assert' and self.assume_asserts:
                if not self.assume(st, vals[0], True):
                    return []
                return [(ins.succ[0], st)]
            if self.should_inline(name, ctx) and (name not in [c[0] for c in ctx]):
                return self.inline_call(f, ins, st, ctx, key, name, vals)
        functional = isinstance(name, str) and name in self.functional
        M, ks, kc = self.s.effects(f, name, args) if not (isinstance(name, str) and name in self.frame) and not functional else (set(), set(), set())
        rv = None
        self.cur_ctx = ctx
        if isinstance(name, str) and (self.s.pure(name) or functional):
            rv = self.pure_value(st, f, name, args, vals)
            if hasattr(self.h, 'pure_result'):
                rv = self.h.pure_result(self, st, f, ins, name, vals, rv) or rv
        else:
            rv = ('ret', key, name if isinstance(name, str) else '*')
        M = {c for c in M if c[0] != 'loc'}
        nl = set()
        for j in ks:
            if j < len(vals):
                v = vals[j]
                if v[0] == 'a':
                    r = root_of(v[1])
                    pth = v[1]
                    if r[0] == 'v' and self.islocal(r[1]):
                        if pth[0] == 'idx' and pth[2] == ('c', 0):
                            pth = pth[1]
                        t = self.path_type(pth)
                        cj = {c for k2, c in self.s.pmod.get(name, ()) if k2 == j} if isinstance(name, str) and name in self.p.funcs else None
                        if cj is not None and self.ty.T.is_record(t):
                            for fn, ft in self.ty.T.records[t]:
                                sub = {(t, fn)} | set(self.ty.nested_classes(ft))
                                if sub & cj or ('elem', t) in cj:
                                    self.store(st, ('fld', pth, fn), ('out', key, j, fn), key)
                        else:
                            self.store(st, pth, ('out', key, j), key)
                        continue
                nl |= {c for k2, c in self.s.pmod.get(name, ()) if k2 == j} if isinstance(name, str) and name in self.p.funcs else kc
                if v[0] == 'a':
                    # writes into a known global object
                    cs = {c for k2, c in self.s.pmod.get(name, ()) if k2 == j} if isinstance(name, str) and name in self.p.funcs else kc
                    if any(c[0] == 'elem' for c in cs):
                        nl |= self.path_classes(v[1])
        self.havoc(st, M | nl, ('ep', key, '*'))
        if ins.a is not None:
            if ins.a[0] == 'v':
                self.store(st, ins.a, rv, key)
                t = self.ty.of(f, ins.a)
                if self.ty.T.is_ptr(t) and rv[0] != 'a':
                    el = self.ty.T.elem(t)
                    if el:
                        self.ptype.setdefault(rv, self.ty.T.canon(el))
        if self.h and hasattr(self.h, 'after_call'):
            self.h.after_call(self, st, f, ins, name, vals, rv, ctx)
        return [(ins.succ[0], st)]

    def inline_call(self, f, ins, st, ctx, key, name, vals):
        self.stats['inlined'] += 1
        g = self.p.funcs[name]
        st2 = st.copy()
        for q in [q for q in st2.env if root_of(q)[0] == 'v' and root_of(q)[1] in g.vars]:
            del st2.env[q]
        for v, x in zip(g.params, vals):
            st2.env[('v', v)] = x
            t = self.ty.T.canon(g.vars[v])
            if self.ty.T.is_ptr(t) and x[0] != 'a':
                el = self.ty.T.elem(t)
                if el:
                    self.ptype.setdefault(x, self.ty.T.canon(el))
        exits = self.run(name, [st2], vals, ctx + ((f.name, ins.id),))
        out = []
        for s, rv in exits:
            for q in [q for q in s.env if root_of(q)[0] == 'v' and root_of(q)[1] in g.vars]:
                del s.env[q]
            if ins.a is not None and ins.a[0] == 'v':
                self.store(s, ins.a, rv if rv is not None else ('uninit', key, name), key)
            if self.h and hasattr(self.h, 'after_call'):
                self.h.after_call(self, s, f, ins, name, vals, rv, ctx)
            out.append((ins.succ[0], s))
        return out


# ------------------------------------------------------------------------------------------------- CFG analyses
def loops(f):
    n = len(f.ins)
    # reverse postorder
    seen, post = set(), []
    st = [(f.entry, iter(f.ins[f.entry].succ))]
    seen.add(f.entry)
    while st:
        x, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.ins[s].succ)))
                break
        else:
            post.append(x)
            st.pop()
    rpo = post[::-1]
    idom = dominators(f, rpo)

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom.get(b) or idom.get(b) is None:
                return False
            b = idom[b]
    preds = {x: [] for x in rpo}
    for x in rpo:
        for s in f.ins[x].succ:
            preds[s].append(x)
    heads, bodies = set(), {}
    num_ = {x: i for i, x in enumerate(rpo)}
    for x in rpo:
        for s in f.ins[x].succ:
            if num_[s] <= num_[x]:      # retreating edge
                heads.add(s)
                b = bodies.setdefault(s, {s})
                stk = [x]
                while stk:
                    y = stk.pop()
                    if y in b:
                        continue
                    b.add(y)
                    stk.extend(preds[y])
    return heads, bodies, rpo


def dominators(f, rpo):
    num_ = {x: i for i, x in enumerate(rpo)}
    preds = {x: [] for x in rpo}
    for x in rpo:
        for s in f.ins[x].succ:
            preds[s].append(x)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for x in rpo[1:]:
            new = None
            for p in preds[x]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num_[a] > num_[b]:
                                a = idom[a]
                            while num_[b] > num_[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                ch = True
    return idom


def expr_vars(e, out):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'v':
            out.add(e[1])
        else:
            for x in e:
                expr_vars(x, out)
    elif isinstance(e, list):
        for x in e:
            expr_vars(x, out)


def liveness(f, prog):
    use, defs = [], []
    addr = set()

    def addrs(e):
        if isinstance(e, tuple):
            if e and e[0] == 'a' and isinstance(e[1], tuple):
                r = e[1]
                while r[0] in ('fld', 'idx'):
                    r = r[1]
                if r[0] == 'v':
                    addr.add(r[1])
            for x in e:
                addrs(x)
        elif isinstance(e, list):
            for x in e:
                addrs(x)
    for i in f.ins:
        u, d = set(), set()
        addrs(i.a)
        addrs(i.b)
        addrs(i.c)
        if i.k == 'set':
            expr_vars(i.b, u)
            if i.a[0] == 'v':
                d.add(i.a[1])
            else:
                expr_vars(i.a, u)
        elif i.k == 'decl':
            d.add(i.a[1])
        elif i.k == 'call':
            expr_vars(i.c, u)
            expr_vars(i.b, u)
            if i.a is not None and i.a[0] == 'v':
                d.add(i.a[1])
            elif i.a is not None:
                expr_vars(i.a, u)
        else:
            expr_vars(i.a, u)
        use.append(u)
        defs.append(d)
    live = [set() for _ in f.ins]
    ch = True
    while ch:
        ch = False
        for i in reversed(f.ins):
            o = set()
            for s in i.succ:
                o |= live[s]
            nl = use[i.id] | (o - defs[i.id])
            if nl != live[i.id]:
                live[i.id] = nl
                ch = True
    for l in live:
        l |= addr
    return live


_known = None


def known_functions():
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(__file__), 'known_functions.txt')
        _known = set(open(p).read().split())
    return _known
