"""Closed-form value summaries of arithmetic functions: every path of the (loop-free) function as (branch facts, value), in an
algebraic normal form that does not depend on how the arithmetic is written.  No solver: identity is decided by the normal form,
range by Bernstein coefficients, disjointness of two guarded cases by contradictory guards (confirmed by absence of a common lattice point)."""
import itertools
from fractions import Fraction
import sympy
from sympy import Rational, Symbol, Function, cancel, together, fraction, Poly, S

K = Symbol('k', positive=True)
D = Symbol('d', positive=True)
POW = Function('pw')
GLOB = {'TRUTH_EVIDENTIAL_HORIZON': K, 'TRUTH_PROJECTION_DECAY': D}


class Opaque(Exception):
    pass


class Cases(Exception):
    """a subexpression that splits into cases: [(extra fact, replacement)]"""
    def __init__(self, term, alts):
        self.term, self.alts = term, alts


def sym(name):
    return Symbol(name, real=True)


def to_sympy(t, leaf=None):
    k = t[0]
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r
    if k == 'c':
        return sympy.Integer(t[1])
    if k == 'f':
        return Rational(repr(float(t[1])))
    if k == 'fld' and t[1][0] == 'arg' and t[2] in ('frequency', 'confidence'):
        return sym('fc'[t[2] == 'confidence'] + str(t[1][2] + 1))
    if k == 'ld' and t[1][0] == 'fld' and t[1][2] in ('frequency', 'confidence') and t[1][1][0] == 'd' and t[1][1][1][0] == 'arg':
        return sym('fc'[t[1][2] == 'confidence'] + str(t[1][1][1][2] + 1))
    if k == 'ld' and t[1][0] == 'v' and t[1][1] in GLOB:
        return GLOB[t[1][1]]
    if k == 'arg':
        return sym('x' + str(t[2] + 1))
    if k == 'cast':
        return to_sympy(t[2], leaf)
    if k == 'u' and t[1] in ('-', 'neg'):
        return -to_sympy(t[2], leaf)
    if k == 'b' and t[1] in '+-*/':
        a, b = to_sympy(t[2], leaf), to_sympy(t[3], leaf)
        if t[1] == '+':
            return a + b
        if t[1] == '-':
            return a - b
        if t[1] == '*':
            return a * b
        if b == 0:
            raise Opaque('division by zero')
        return a / b
    if k == 'call':
        n, a = t[1], t[2]
        if n in ('pow', '__builtin_pow'):
            return POW(norm(to_sympy(a[0], leaf)), norm(to_sympy(a[1], leaf)))
    raise Opaque(str(t)[:80])


def norm(e):
    return cancel(together(e))


def split(facts, val):
    """facts: list of (atom, bool); val: tuple of terms.  Expands min/max/abs calls into guarded cases."""
    def find(t):
        if not isinstance(t, tuple):
            return None
        for x in t:
            r = find(x) if isinstance(x, tuple) else None
            if r:
                return r
        if t and t[0] == 'call' and t[1] in ('labs', 'fabs', 'abs', 'fmin', 'fmax'):
            return t
        return None

    def repl(t, a, b):
        if t == a:
            return b
        if isinstance(t, tuple):
            return tuple(repl(x, a, b) for x in t)
        return t
    work, out = [(list(facts), val)], []
    while work:
        fs, v = work.pop()
        t = find(tuple(a for a, _ in fs)) or find(v)
        if not t:
            out.append((fs, v))
            continue
        n, a = t[1], t[2]
        if n in ('labs', 'fabs', 'abs'):
            c = ('b', '<', a[0], ('c', 0))
            alts = [(True, ('b', '-', ('c', 0), a[0])), (False, a[0])]
        else:
            c = ('b', '<', a[0], a[1])
            alts = [(True, a[0] if n == 'fmin' else a[1]), (False, a[1] if n == 'fmin' else a[0])]
        for tv, r in alts:
            work.append(([(repl(x, t, r), y) for x, y in fs] + [(c, tv)], repl(v, t, r)))
    return out


def conds(facts, leaf=None):
    """guards as (op, normalised difference): op in '<' '>=' '==' '!='  meaning difference op 0"""
    out = []
    for a, tv in facts:
        if a[0] == 'b' and a[1] in ('<', '==', '<=', '>', '>=', '!='):
            try:
                d = to_sympy(a[2], leaf) - to_sympy(a[3], leaf)
            except Opaque:
                continue
            op = a[1]
            if op in ('>', '>='):
                d, op = -d, {'>': '<', '>=': '<='}[op]
            if op == '!=':
                op, tv = '==', not tv
            if op == '<=':                       # d <= 0  is not (-d < 0)
                d, op, tv = -d, '<', not tv
            out.append(('<' if op == '<' and tv else '>=' if op == '<' else '==' if tv else '!=', norm(d)))
    return out


def contradict(c1, c2):
    """syntactic contradiction of two guard lists over normalised differences"""
    allc = c1 + c2
    for i, (o1, d1) in enumerate(allc):
        if d1.is_number:
            v = bool(d1 < 0)
            if (o1 == '<' and not v) or (o1 == '>=' and v) or (o1 == '==' and d1 != 0) or (o1 == '!=' and d1 == 0):
                return True
        for o2, d2 in allc[i + 1:]:
            s = 1 if d1 == d2 else -1 if d1 == -d2 else 0
            if not s:
                continue
            if s == 1 and {o1, o2} in ({'<', '>='}, {'==', '!='}, {'<', '=='}):
                return True
            if s == -1 and ((o1 == '<' and o2 == '<') or {o1, o2} in ({'==', '!='}, {'<', '=='})):
                return True
    return False


LAT_F = [Fraction(0), Fraction(1, 10), Fraction(1, 2), Fraction(4, 5), Fraction(1)]
LAT_C = [Fraction(1, 100), Fraction(3, 10), Fraction(9, 10), Fraction(99, 100)]
LAT_X = [-1, 0, 1, 4, 7]


def ev(e, env):
    """exact value of a normal form at a lattice point; None where undefined"""
    if e.is_Symbol:
        return env[e]
    if e.is_Number:
        return Fraction(int(e.p), int(e.q))
    if e.is_Add or e.is_Mul:
        r = Fraction(0 if e.is_Add else 1)
        for a in e.args:
            v = ev(a, env)
            if v is None:
                return None
            r = r + v if e.is_Add else r * v
        return r
    if e.is_Pow or (e.is_Function and e.func == POW):
        b, x = ev(e.args[0], env), ev(e.args[1], env)
        if b is None or x is None or x.denominator != 1 or (b == 0 and x < 0):
            return None
        return b ** int(x)
    return None


def points(syms, consts=()):
    """lattice of operand values; the constants the guards compare with contribute themselves and their neighbours"""
    doms = []
    near = sorted({x + e for x in consts if 0 < x < 1 for e in (-x / 2, Fraction(0), (1 - x) / 2)})[:6]
    LF, LC = LAT_F + [x for x in near if x not in LAT_F], LAT_C + [x for x in near if x not in LAT_C and x <= Fraction(99, 100)]
    big = sorted(x for x in consts if x.denominator == 1 and x > 1)[:3]
    LX = [Fraction(x) for x in LAT_X] + [x + e for x in big for e in (-1, 0, 1, 9)]
    for s in syms:
        n = s.name
        doms.append([Fraction(1), Fraction(2)] if s == K else [Fraction(4, 5)] if s == D else LF if n[0] == 'f' else LC if n[0] == 'c' else LX)
    for p in itertools.product(*doms):
        yield dict(zip(syms, p))


def holds(cs, env):
    for o, d in cs:
        v = ev(d, env)
        if v is None:
            return False
        if not {'<': v < 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[o]:
            return False
    return True


def common_point(cs, v1, v2):
    """a lattice point satisfying the guards where the two values differ"""
    syms = set()
    for _, d in cs:
        syms |= d.free_symbols
    for v in list(v1) + list(v2):
        syms |= v.free_symbols
    consts = {abs(Fraction(int(a.p), int(a.q))) for _, d in cs for a in d.atoms(sympy.Rational)}
    for env in points(sorted(syms, key=lambda s: s.name), consts):
        if holds(cs, env):
            for a, b in zip(v1, v2):
                x, y = ev(a, env), ev(b, env)
                if x != y or x is None:
                    return {str(s): str(v) for s, v in env.items()}
    return None


# ---------------------------------------------------------------- ranges
def bernstein_min(p, box):
    """lower bound of polynomial p (sympy expr) over the box {sym: (lo, hi)}: least Bernstein coefficient"""
    syms = sorted(p.free_symbols, key=lambda s: s.name)
    q = sympy.expand(p)
    for s in syms:
        lo, hi = box[s]
        q = q.subs(s, lo + (hi - lo) * s)
    if not syms:
        return q
    P = Poly(sympy.expand(q), *syms)
    deg = [P.degree(s) for s in syms]
    co = {m: c for m, c in P.terms()}
    best = None
    from sympy import binomial
    for idx in itertools.product(*[range(d + 1) for d in deg]):
        b = S(0)
        for m in itertools.product(*[range(i + 1) for i in idx]):
            c = co.get(m)
            if c:
                w = S(1)
                for j in range(len(idx)):
                    w *= Rational(binomial(idx[j], m[j]), binomial(deg[j], m[j]))
                b += w * c
        if best is None or b < best:
            best = b
    return best
