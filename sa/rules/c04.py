"""C04: truth functions compute the NAL formulas.

Every path of each truth function (helpers inlined) is summarised as a closed formula over its operands and compared, in algebraic
normal form, with the formula of the Non-Axiomatic Logic definition (the book's, with the evidential horizon k)."""
from sympy import Rational, Integer
from ..core import *
from .. import formula as F

f1, c1, f2, c2 = (F.sym(x) for x in ('f1', 'c1', 'f2', 'c2'))
x1, x2, x3 = (F.sym(x) for x in ('x1', 'x2', 'x3'))
k, d = F.K, F.D


class Choice:
    """explores the cases of a formula written with lt/eq"""
    def __init__(self, pre):
        self.pre, self.made = list(pre), []

    def pick(self, op, nop, e):
        i = len(self.made)
        b = self.pre[i] if i < len(self.pre) else True
        self.made.append((b, (op if b else nop, F.norm(e))))
        return b

    def lt(self, a, b):
        return self.pick('<', '>=', a - b)

    def eq(self, a, b):
        return self.pick('==', '!=', a - b)

    def mn(self, a, b):
        return a if self.lt(a, b) else b

    def mx(self, a, b):
        return b if self.lt(a, b) else a


def cases(fn):
    out, todo = [], [[]]
    while todo:
        pre = todo.pop()
        ch = Choice(pre)
        v = fn(ch)
        out.append(([c for _, c in ch.made], v))
        for i in range(len(pre), len(ch.made)):
            todo.append([b for b, _ in ch.made[:i]] + [False])
    return out


def w2c(w):
    return w / (w + k)


def c2w(c):
    return k * c / (1 - c)


def t_or(a, b):
    return 1 - (1 - a) * (1 - b)


def spec(maxc, rel):
    def revision(z):
        w1, w2 = c2w(c1), c2w(c2)
        w = w1 + w2
        return (z.mn(Integer(1), (w1 * f1 + w2 * f2) / w), z.mn(maxc, z.mx(z.mx(w2c(w), c1), c2)))

    def projection(z):
        if z.eq(x2, -1):
            return f1, c1
        df = x3 - x2
        df = -df if z.lt(df, 0) else df
        return f1, c1 * F.POW(d, F.norm(df))

    def comparison(z):
        f0 = t_or(f1, f2)
        return (Integer(0) if z.eq(f0, 0) else f1 * f2 / f0), w2c(f0 * c1 * c2)

    def goaldeduction(z):
        a, b = f1 * f2, (1 - f1) * f2
        ca, cb = c1 * c2 * a, c1 * c2 * b
        return (1 - b, cb) if z.lt(ca, cb) else (a, ca)

    def only_if(z, b):
        return (Integer(1), c1 * c2) if b else (Integer(0), Integer(0))

    def equal(z):
        return (Integer(1 if z.eq(c1, c2) and z.eq(f1, f2) else 0),)
    T = lambda f, c: (lambda z: (f, c))
    ded = lambda a, ca, b, cb: (a * b, ca * cb * a * b)
    o = Integer(1)
    return dict(
        Truth_w2c=lambda z: (x1 / (x1 + k),),
        Truth_c2w=lambda z: (k * x1 / (1 - x1),),
        Truth_Expectation=lambda z: (c1 * (f1 - Rational(1, 2)) + Rational(1, 2),),
        Truth_Revision=revision,
        Truth_Deduction=T(f1 * f2, c1 * c2 * f1 * f2),
        Truth_Abduction=T(f2, w2c(f1 * c1 * c2)),
        Truth_Induction=T(f1, w2c(f2 * c1 * c2)),
        Truth_Intersection=T(f1 * f2, c1 * c2),
        Truth_Eternalize=T(f1, w2c(c1)),
        Truth_Projection=projection,
        Truth_Exemplification=T(o, w2c(f1 * f2 * c1 * c2)),
        Truth_Comparison=comparison,
        Truth_Analogy=T(f1 * f2, c1 * c2 * f2),
        Truth_Resemblance=T(f1 * f2, c1 * c2 * t_or(f1, f2)),
        Truth_Union=T(t_or(f1, f2), c1 * c2),
        Truth_Difference=T(f1 * (1 - f2), c1 * c2),
        Truth_Conversion=T(o, w2c(f1 * c1)),
        Truth_Negation=T(1 - f1, c1),
        Truth_StructuralDeduction=T(f1, c1 * rel * f1),
        Truth_StructuralDeductionNegated=T(1 - f1, c1 * rel * f1),
        Truth_StructuralIntersection=T(f1, c1 * rel),
        Truth_DecomposePNN=T(1 - f1 * (1 - f2), f1 * (1 - f2) * c1 * c2),
        Truth_DecomposeNPP=T((1 - f1) * f2, (1 - f1) * f2 * c1 * c2),
        Truth_DecomposePNP=T(f1 * (1 - f2), f1 * (1 - f2) * c1 * c2),
        Truth_DecomposePPP=T(f1 * f2, f1 * f2 * c1 * c2),
        Truth_DecomposeNNN=T(1 - (1 - f1) * (1 - f2), (1 - f1) * (1 - f2) * c1 * c2),
        Truth_AnonymousAnalogy=T(f1, c1 * w2c(f2 * c2)),
        Truth_GoalDeduction=goaldeduction,
        Truth_FrequencyGreater=lambda z: only_if(z, z.lt(f2, f1)),
        Truth_FrequencyEqual=lambda z: only_if(z, z.eq(f1, f2)),
        Truth_Equal=equal,
    )


def summary(ctx, fn, inline=None):
    """[(guards, value tuple)] of a truth function"""
    f = ctx.prog.funcs[fn]
    e = Engine(ctx.prog, ctx.summ, ctx.known, inline=inline or {n for n in ctx.prog.funcs if n.startswith('Truth_')}, K=256, relevant=lambda a: True)
    out = []
    for st, rv in e.run(fn):
        v = components(rv, f)
        for fs, vs in F.split(list(st.facts.items()), v):
            out.append((F.conds(fs), fs, vs))
    return out


def components(rv, f):
    if rv is None:
        raise F.Opaque('no value returned')
    if rv[0] == 'agg':
        m = dict(rv[2])
        z = ('c', 0)
        return (m.get('frequency', z), m.get('confidence', z))
    if rv[0] == 'arg' and 'Truth' in str(f.vars.get(f.params[rv[2]])):
        return (('fld', rv, 'frequency'), ('fld', rv, 'confidence'))
    if rv[0] == 'zero':
        return (('c', 0), ('c', 0))
    return (rv,)


def atom_truth(rv, facts):
    return rv


def check(ctx):
    rep = Report('C04', ctx, 'value-flow summaries of every path of each truth function, compared in algebraic normal form with the NAL definition',
                 ['real-number semantics of the arithmetic (floating-point rounding is not modelled)', 'TRUTH_EVIDENTIAL_HORIZON > 0', 'operands: frequency in [0,1], confidence in (0,1)'])
    maxc, rel = Rational(ctx.macro('MAX_CONFIDENCE')), Rational(ctx.macro('RELIANCE'))
    sp = spec(maxc, rel)
    n = 0
    for fn, form in sorted(sp.items()):
        if fn not in ctx.prog.funcs:
            rep.notes.append(f'{fn} does not exist in this tree')
            continue
        f = ctx.prog.funcs[fn]
        where = f'{f.file}:{f.line} ({fn})'
        n += 1
        try:
            code = summary(ctx, fn)
        except F.Opaque as ex:
            rep.ob(False, 'formula', where, f'value is not a closed formula of the operands: {ex}')
            continue
        sc = [(c, tuple(F.norm(x) for x in v)) for c, v in cases(form)]
        rep.count('paths', len(code))
        rep.count('formula_cases', len(sc))
        bad = None
        pairs = 0
        for cond, facts, vs in code:
            try:
                vals = []
                for v in vs:
                    if v[0] == 'b' and v[1] in ('<', '==', '<=', '>', '>=', '!='):   # predicate returned as a value
                        vals.append(v)
                    else:
                        vals.append(F.norm(F.to_sympy(v)))
            except F.Opaque as ex:
                bad = f'value is not a closed formula of the operands: {ex}'
                break
            alts = [(cond, vals)]
            for i, v in enumerate(vals):
                if isinstance(v, tuple):
                    alts = [(cond + F.conds([(v, True)]), vals[:i] + [Integer(1)] + vals[i + 1:]), (cond + F.conds([(v, False)]), vals[:i] + [Integer(0)] + vals[i + 1:])]
            for cnd, vl in alts:
                for scond, sv in sc:
                    if F.contradict(cnd, scond):
                        continue
                    pairs += 1
                    if len(sv) != len(vl):
                        bad = 'returns a value of another shape'
                        break
                    if all(F.norm(a - b) == 0 for a, b in zip(sv, vl)):
                        continue
                    pt = F.common_point(cnd + scond, vl, sv)
                    if pt is not None:
                        which = [nm for nm, a, b in zip(('frequency', 'confidence') if len(sv) == 2 else ('value',), vl, sv) if F.norm(a - b) != 0]
                        bad = f'{"/".join(which)} is {", ".join(str(a) for a in vl)}; the definition says {", ".join(str(b) for b in sv)} (differ e.g. at {pt})'
                        break
                if bad:
                    break
            if bad:
                break
        rep.count('compared_pairs', pairs)
        rep.ob(bad is None, 'formula', where, bad or f'{len(code)} paths agree with the definition', key=f'formula {fn}')
    rep.expect('truth functions', n, 20)
    return rep
