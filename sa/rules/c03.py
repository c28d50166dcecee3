"""C03: truth values stay in range.

Inductive invariant over every Truth value the program creates: all truth literals and all writes of the fields frequency and
confidence yield values in [0,1] and [0,MAX_CONFIDENCE], given that all truth values read are in range.  Formulas are bounded
exactly (Bernstein coefficients of their normal form over the operand box) together with the branch facts of the path."""
from fractions import Fraction
from sympy import Rational, Integer, oo
import sympy
from ..core import *
from .. import formula as F
from .c04 import components

EPS = Rational(1, 10**6)


class Bounds:
    def __init__(self, ctx):
        self.maxc = Rational(ctx.macro('MAX_CONFIDENCE'))
        self.syms = {}
        self.positive = set()
        self.settings = settings(ctx)

    def leaf(self, t):
        """unknown leaves become symbols; frequency / confidence leaves are boxed"""
        k = t[0]
        if k in ('c', 'f', 'cast', 'b') or (k == 'u' and t[1] in ('-', 'neg')):
            return None
        if k == 'call' and t[1] in ('pow', '__builtin_pow'):
            return None
        if k == 'ld' and t[1][0] == 'v' and t[1][1] in F.GLOB:
            return None
        s = self.syms.get(t)
        if s is None:
            s = self.syms[t] = sympy.Symbol(f'u{len(self.syms)}', real=True)
        return s

    def field(self, t):
        if t[0] == 'fld':
            return t[2]
        if t[0] == 'ld' and t[1][0] == 'fld':
            return t[1][2]
        if t[0] == 'ld' and t[1][0] == 'v':
            return self.settings.get(t[1][1])
        return None

    def box(self, e):
        out = {}
        inv = {v: k for k, v in self.syms.items()}
        for s in e.free_symbols:
            if s == F.K:
                out[s] = (Rational(1, 10), Integer(10))
            elif s == F.D:
                out[s] = (EPS, Integer(1))
            elif s in inv:
                f = self.field(inv[s])
                t = inv[s]
                if f == 'frequency':
                    out[s] = (Integer(0), Integer(1))
                elif f == 'confidence':
                    out[s] = (EPS, self.maxc)
                elif s in self.between:
                    out[s] = self.between[s]
                else:
                    return None
            else:
                return None
        return out

    def nonneg(self, e, cs, strict=False):
        """e >= 0 (or > 0) on all operands satisfying the guards"""
        e = F.norm(e)
        if e.is_number:
            return bool(e > 0) if strict else bool(e >= 0)
        for op, d in cs:
            for sgn, ops in ((1, ('>=',)), (-1, ('<',))):
                # d>=0  or  d<0 (so -d>0)
                if op in ops:
                    df = F.norm(e - sgn * d)
                    if df.is_number and (df > 0 or (df == 0 and (op == '<' or not strict))):
                        return True
            if op == '==':
                for sgn in (1, -1):
                    df = F.norm(e - sgn * d)
                    if df.is_number and (df > 0 or (df == 0 and not strict)):
                        return True
        num, den = sympy.fraction(sympy.together(e))
        if den.is_number:
            num, den = num / den, Integer(1)
        for s in (1, -1):
            if self.poly(s * den, cs, True) and self.poly(s * num, cs, strict):
                return True
        return False

    def poly(self, p, cs, strict):
        p = sympy.expand(p)
        # non-polynomial parts
        sub = {}
        for x in p.atoms(F.POW):
            base, ex = x.args
            if base == F.D and self.nonneg(ex, cs):
                sub[x] = sympy.Symbol(f'pw{len(sub)}', real=True)
            else:
                return False
        p = p.subs(sub)
        self.between = {v: (Integer(0), Integer(1)) for v in sub.values()}
        inv = {v: k for k, v in self.syms.items()}
        for s in p.free_symbols:
            if s in inv and self.field(inv[s]) not in ('frequency', 'confidence'):
                b = self.guards_of(s, cs)
                if b:
                    self.between[s] = b
        box = {}
        for s in p.free_symbols:
            if s in self.between:
                box[s] = self.between[s]
                continue
            b = self.box(s)
            if b is None:
                return False
            box.update(b)
        m = F.bernstein_min(p, box)
        if m > 0 or (m == 0 and not strict):
            return True
        if m == 0 and strict:
            for op, d in cs:
                if op in ('!=', '<'):
                    n, dd = sympy.fraction(sympy.together(d))
                    r = F.norm(p.subs({v: k for k, v in sub.items()}) / n) if n != 0 else None
                    if r is not None and r.is_number:
                        return True
        return False

    def guards_of(self, s, cs):
        lo = hi = None
        for op, d in cs:
            c = d - s
            if c.is_number and op in ('>=', '=='):
                lo = -c if lo is None else max(lo, -c)
            c = d + s
            if c.is_number and op in ('>=', '=='):
                hi = c if hi is None else min(hi, c)
            c = d - s
            if c.is_number and op in ('<', '=='):
                hi = -c if hi is None else min(hi, -c)
            c = d + s
            if c.is_number and op == '<':
                lo = c if lo is None else max(lo, c)
        return (lo, hi) if lo is not None and hi is not None else None

    # coarse sign/interval arithmetic on terms (for leaves outside the polynomial domain)
    def iv(self, t):
        k = t[0]
        if k in ('c', 'f'):
            return (Fraction(repr(float(t[1]))),) * 2
        if k == 'cast':
            return self.iv(t[2])
        fl = self.field(t)
        if fl == 'frequency':
            return (Fraction(0), Fraction(1))
        if fl == 'confidence':
            return (Fraction(0), Fraction(int(self.maxc.p), int(self.maxc.q)))
        if k == 'call' and t[1] in ('fabs', 'labs', 'abs'):
            return (Fraction(0), None)
        if k == 'ld' and t[1][0] == 'v' and t[1][1] in self.positive:
            return (Fraction(0), None)
        if k == 'b' and t[1] in '+-*/':
            a, b = self.iv(t[2]), self.iv(t[3])
            if t[1] == '-':
                b = (None if b[1] is None else -b[1], None if b[0] is None else -b[0])
            if t[1] in '+-':
                return (None if None in (a[0], b[0]) else a[0] + b[0], None if None in (a[1], b[1]) else a[1] + b[1])
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
                if t[1] == '*':
                    return (a[0] * b[0], None if None in (a[1], b[1]) else a[1] * b[1])
                return (Fraction(0), None)
        return (None, None)

    def inrange(self, t, t0, lo, hi, facts, cs):
        a, b = self.iv(t0)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        try:
            e = F.norm(F.to_sympy(t, self.leaf))
        except F.Opaque:
            return False
        L, H = Rational(lo.numerator, lo.denominator), Rational(hi.numerator, hi.denominator)
        okl = (a is not None and a >= lo) or self.nonneg(e - L, cs)
        okh = (b is not None and b <= hi) or self.nonneg(H - e, cs)
        return okl and okh


PRINTERS = {'Truth_Print', 'Truth_Print2', 'Truth_Expectation', 'Truth_Equal'}


class Hooks(Obligations):
    def __init__(self, cx, inert):
        super().__init__()
        self.cx, self.inert = cx, inert
        self.memo = {}
        self.wild = {}
        self.settings = None

    def check_val(self, e, st, f, ins, ctx, v, what, hi=None):
        for a in aggs(v):
            fr, co = components(a, f)
            self.num(e, st, f, ins, ctx, fr, 'frequency', Fraction(1), what)
            self.num(e, st, f, ins, ctx, co, 'confidence', hi, what)
        for p in phis(v):
            w = self.wild.get((root_of(p) if p else None))
            if w:
                self.rec(ctx, f, ins, ('phi', what), False, e.p.loc(f, ins), f'truth value {what} may be the out-of-range value of {show(p)[:60]}')

    def num(self, e, st, f, ins, ctx, t, fld, hi, what):
        B = Bounds(self.cx)
        if self.settings is not None:
            B.settings = self.settings
        B.positive = {'Variable_similarity_distance', 'TRUTH_EVIDENTIAL_HORIZON', 'TRUTH_PROJECTION_DECAY'}
        if hi is None:
            hi = Fraction(int(B.maxc.p), int(B.maxc.q))
        rel = [(a, b) for a, b in st.facts.items() if a[0] == 'b' and a[1] in ('<', '==', '<=', '>', '>=', '!=')]
        key = (t, hi, tuple(rel), fld)
        if key not in self.memo:
            ok, why = True, ''
            for fs, (tt,) in F.split(rel, (t,)):
                cs = F.conds(fs, B.leaf)
                if F.contradict(cs, []):
                    continue
                if not B.inrange(tt, t, Fraction(0), hi, fs, cs):
                    ok, why = False, str(show_term(tt))
                    break
            self.memo[key] = ok, why
        ok, why = self.memo[key]
        self.rec(ctx, f, ins, (fld, what), ok, e.p.loc(f, ins), f'{fld} {why} {what} is not bounded by [0, {float(hi)}]' if not ok else f'{fld} {what} is in range')

    def truthy(self, e, t):
        T = e.ty.T
        t = T.canon(t or 'int')
        return t == 'Truth' or ('Truth', 'frequency') in e.ty.nested_classes(t)

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        local = r[0] == 'v' and e.islocal(r[1])
        t = e.path_type(path)
        field = path[2] if path[0] == 'fld' and e.ty.T.canon(e.path_type(path[1])) == 'Truth' else None
        if not field and not self.truthy(e, t):
            return
        if local:
            # a local may hold a sentinel, but then it must not leave
            B = Bounds(self.cx)
            for a in aggs(val):
                for x, hi in zip(components(a, f), (1, 1)):
                    if x[0] in ('c', 'f') and not 0 <= x[1] <= (1 if x is components(a, f)[0] else float(B.maxc)):
                        self.wild[r] = True
            return
        if field:
            self.num(e, st, f, ins, ctx, val, field, Fraction(1) if field == 'frequency' else None, 'written')
        else:
            self.check_val(e, st, f, ins, ctx, val, 'stored')

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if not isinstance(name, str) or name in PRINTERS or name in self.inert:
            return
        T = e.ty.T
        truths = [(a, v) for a, v in zip(ins.c, vals) if self.truthy(e, e.ty.of(f, a))]
        rev = name == 'Truth_Revision' or not name.startswith('Truth_')
        for a, v in truths:
            self.check_val(e, st, f, ins, ctx, v, f'passed to {name}', None if rev else Fraction(1))
        for a, v in zip(ins.c, vals):
            if v[0] == 'a' and root_of(v[1])[0] == 'v' and e.islocal(root_of(v[1])[1]):
                t = T.canon(e.path_type(v[1]))
                if t == 'Truth' and name in e.p.funcs:
                    self.check_val(e, st, f, ins, ctx, e.read(st, v[1]), f'passed to {name}')
                elif T.is_record(t) and any(n == 'truth' and T.canon(ft) == 'Truth' for n, ft in T.records[t]):
                    self.check_val(e, st, f, ins, ctx, e.read(st, ('fld', v[1], 'truth')), f'passed to {name}')

    def on_ret(self, e, st, f, ins, v, ctx):
        if ctx or v is None or not self.truthy(e, f.ret):
            return
        self.check_val(e, st, f, ins, ctx, v, 'returned')


def aggs(v):
    out = []

    def w(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'agg':
            if t[1] == 'Truth':
                out.append(t)
            else:
                for _, x in t[2]:
                    w(x)
        elif t[0] in ('arr', 'upd'):
            for x in t[1:]:
                w(x)
    w(v)
    return out


def phis(v):
    out = []

    def w(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'phi':
                out.append(t[2])
            elif t[0] == 'agg':
                for _, x in t[2]:
                    w(x)
    w(v)
    return out


def show_term(t):
    try:
        return F.norm(F.to_sympy(t, lambda x: sympy.Symbol(re.sub(r"[^\w.>\[\]-]", '', show(x))[-40:]) if x[0] in ('ld', 'fld', 'call', 'arg', 'phi', 'opaque') else None))
    except Exception:
        return show(t)[:80] if isinstance(t, tuple) else t


def check(ctx):
    rep = Report('C03', ctx, 'inductive range invariant over all created truth values: truth functions bounded exactly from their normal form, all other truth literals, stores, arguments and returns bounded with path facts',
                 ['truth values passed in through the C interface (NAR_AddInput) are in range', 'evidential horizon in [0.1,10], decay in (0,1], similarity distance positive',
                  'operands of revision have confidence above 0'])
    p = ctx.prog
    inert = {n for n in p.funcs if not ctx.summ.mod.get(n) and not ctx.summ.pmod.get(n) and not truthy_name(ctx, n)}
    T = {n for n in p.funcs if n.startswith('Truth_')}
    roots = [n for n in ctx.roots()]

    def interesting(n):
        f = p.funcs[n]
        ty = ctx.summ.ty
        if n.startswith('Truth_'):
            return ty.T.canon(f.ret) == 'Truth'
        for i in f.ins:
            if any(mentions_truth(ty, f, x) for x in (i.a, i.b)) or (i.c and any(mentions_truth(ty, f, x) for x in i.c if isinstance(x, tuple))):
                return True
        return False
    roots = [n for n in roots if interesting(n)]

    def one(n):
        h = Hooks(ctx, inert)
        if n.startswith('Truth_'):
            e = Engine(p, ctx.summ, ctx.known, inline=T, K=256, relevant=lambda a: True, hooks=h)
            for st, rv in e.run(n):
                pass
            f = p.funcs[n]
        else:
            e = Engine(p, ctx.summ, ctx.known, K=48, relevant=relevant, hooks=h)
            e.run(n)
        return [(n, k, v) for k, v in h.res.items()]
    tot = 0
    for res in pmap(one, roots):
        for n, (chain, skey), (ok, where, detail, lift) in res:
            rep.ob(ok, 'range', where, detail, key=f'{skey[0]} {skey[1]} in {n}')
            tot += 1
    rep.count('functions_analysed', len(roots))
    rep.count('truth_functions', sum(n.startswith('Truth_') for n in roots))
    # settings that serve as truth components
    comp = settings(ctx)
    rep.count('settings_used_as_truth_components', len(comp))
    for g, fld in sorted(comp.items()):
        setting(ctx, rep, g, fld)
    rep.expect('truth obligations', tot, 40)
    return rep


def truthy_name(ctx, n):
    t = ctx.summ.ty.T.canon(ctx.prog.funcs[n].ret)
    return t == 'Truth' or ('Truth', 'frequency') in ctx.summ.ty.nested_classes(t)


def relevant(a):
    def fl(t):
        return isinstance(t, tuple) and t and (t[0] == 'f' or any(fl(x) for x in t if isinstance(x, tuple)))
    return a[0] == 'b' and a[1] in ('<', '<=', '>', '>=') and (fl(a[2]) or fl(a[3]))


def mentions_truth(ty, f, x):
    if not isinstance(x, tuple):
        return False
    for t in subterms(x):
        if isinstance(t, tuple) and t and t[0] in ('agg',) and t[1] == 'Truth':
            return True
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in ('frequency', 'confidence', 'truth'):
            return True
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'v' and f.vars.get(t[1]) and ty.T.canon(f.vars[t[1]]) == 'Truth':
            return True
    return False


def settings(ctx):
    if not hasattr(ctx, '_c03s'):
        ctx._c03s = settings_(ctx)
    return ctx._c03s


def settings_(ctx):
    """mutable globals of floating type that become a component of a truth literal"""
    out = {}
    p = ctx.prog
    for f in p.funcs.values():
        for i in f.ins:
            for x in (i.a, i.b, *(i.c or ())) if isinstance(i.c, (list, tuple)) else (i.a, i.b):
                if isinstance(x, tuple):
                    for t in subterms(x):
                        if isinstance(t, tuple) and t and t[0] == 'agg' and t[1] == 'Truth':
                            for fld, v in t[2]:
                                if isinstance(v, tuple) and v[0] == 'v' and v[1] in p.globals:
                                    out[v[1]] = fld
    return out


def setting(ctx, rep, g, fld):
    p = ctx.prog
    cls = ('glob', g)
    from .. import frontend
    for n, f in sorted(p.funcs.items()):
        if n not in ctx.known and n in p.callers():
            continue
        direct = any((i.k in ('set', 'store') and isinstance(i.a, tuple) and i.a == ('v', g)) or (i.k == 'call' and i.c and any(isinstance(x, tuple) and ('a', ('v', g)) in list(subterms(x)) + [x] for x in i.c)) for i in f.ins)
        if not direct:
            continue
        h = Hooks(ctx, set())
        h2 = SetHook(ctx, g, fld, h)
        h2.fn = f
        e = Engine(p, ctx.summ, ctx.known, K=48, relevant=relevant, hooks=h2)
        e.run(n)
        bad = [d for (ok, w, d, l) in h.res.values() if not ok]
        rep.ob(not bad, 'setting', f'{f.file}:{f.line} ({n})', (f'{g}: ' + bad[0]) if bad else f'{g} is in range whenever {n} returns', key=f'setting {g} in {n}')


class SetHook:
    def bycallee(self, e, ver):
        """the version of the setting was produced by a call of a function that is itself checked"""
        for t in subterms(ver):
            if isinstance(t, tuple) and t and t[0] == 'ep':
                f = e.p.funcs[t[1][0][-1][0]] if t[1][0] and isinstance(t[1][0][-1], tuple) else self.fn
                i = f.ins[t[1][1]]
                if i.k == 'call':
                    if i.b not in e.p.funcs:
                        return False
                elif any(j.k == 'call' and j.b not in e.p.funcs and any(isinstance(x, tuple) and x == ('a', ('v', self.g)) for x in j.c)
                         for l in find_loops(f) for j in (f.ins[n] for n in l.body)):
                    return False
        return True

    def __init__(self, cx, g, fld, h):
        self.cx, self.g, self.fld, self.h = cx, g, fld, h

    def on_ret(self, e, st, f, ins, v, ctx):
        if ctx:
            return
        val = e.read(st, ('v', self.g))
        if val[0] == 'ld' and val[1] == ('v', self.g) and all(self.bycallee(e, x) for x in val[2]):
            return
        self.h.settings = {}
        self.h.num(e, st, f, ins, ctx, val, self.fld, Fraction(1) if self.fld == 'frequency' else None, 'set')
