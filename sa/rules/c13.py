"""C13: the term encoding is the same for reading and writing."""
import ast
from ..core import *
from .c16 import STABLE
from .c14 import Hooks, arg, loc, marks, strip, holds

NOTATION = dict(PRODUCT='*', EXT_INTERSECTION='&', INT_INTERSECTION='|', CONJUNCTION='&&', INHERITANCE='-->', SIMILARITY='<->', TEMPORAL_IMPLICATION='=/>', EXT_IMAGE1='/1',
                INT_IMAGE1='\\1', EXT_DIFFERENCE='-', EXT_IMAGE2='/2', INT_IMAGE2='\\2', INT_DIFFERENCE='~', SEQUENCE='&/', NEGATION='--', IMPLICATION='==>', EQUIVALENCE='<=>',
                DISJUNCTION='||', HAS_CONTINUOUS_PROPERTY='|->')
OTHER = ['INT_SET', 'EXT_SET', 'SET_ELEMT', 'SET_TERMINATOR']
STATEMENTS = ['INHERITANCE', 'SIMILARITY', 'TEMPORAL_IMPLICATION', 'IMPLICATION', 'EQUIVALENCE', 'HAS_CONTINUOUS_PROPERTY']
PURE13 = {'Narsese_copulaEquals', 'Narsese_isOperator', 'Narsese_AtomicTermIndex', 'Narsese_CopulaIndex', 'skipCompound', 'Variable_isVariable', 'Variable_isIndependentVariable',
          'Variable_isDependentVariable', 'Variable_isQueryVariable', 'Narsese_isOperation'}


def noep(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ld':
            return ('ld', noep(v[1]))
        if len(v) == 3 and v[0] == 'cast':
            return noep(v[2])
        if len(v) == 3 and v[0] == '*p':
            return noep(v[1])
        if len(v) == 2 and v[0] == '*' and isinstance(v[1], tuple) and v[1][:1] == ('ld',) and v[1][1][:1] == ('d',):
            return noep(v[1][1][1])
        v = tuple(noep(x) for x in v)
        if len(v) == 2 and v[0] == 'd' and isinstance(v[1], tuple) and v[1][:1] == ('a',):
            return v[1][1]
        return v
    return v


def offset(v, base):
    """v - base if that is a number"""
    if v == base:
        return 0
    if v[:2] == ('b', '+') and v[3][0] == 'c':
        o = offset(v[2], base)
        return None if o is None else o + v[3][1]
    if v[:2] == ('b', '-') and v[3][0] == 'c':
        o = offset(v[2], base)
        return None if o is None else o - v[3][1]
    return None


def symbols(ctx):
    out = {}
    for n in list(NOTATION) + OTHER:
        m = ctx.macro(n)
        try:
            out[n] = ast.literal_eval(m)
        except Exception:
            out[n] = None
    return out


def text(ctx, name):
    m = ctx.macros().get(name)
    try:
        return ast.literal_eval(m)
    except Exception:
        return None


class Opaque(Exception):
    pass


# ------------------------------------------------------------------------------------------------- reading
class W(Hooks):
    def on_store(self, e, st, f, ins, path, val, ctx):
        self.mark(st, 'w', noep(path), noep(val))
        self.mark(st, 'rw', path, val)

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if isinstance(name, str):
            self.mark(st, 'raw', len(marks(st, 'call')), rv)
            self.mark(st, 'call', len(marks(st, 'call')), name, tuple(noep(v) for v in vals), noep(rv) if rv is not None else None)


def rewriting(ctx, fn):
    """what one pass of the loop over a text does: [(conditions on characters, characters written, advance in the text)]"""
    p = ctx.prog
    if fn not in p.funcs:
        raise Opaque(f'{fn} is gone')
    f = p.fn(fn)
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=4000, hooks=h, functional=PURE13, stable=STABLE)
    e.run(fn)
    src = None
    rules = []
    for g, ins, body, st in h.back:
        F = {noep(a): tv for a, tv in st.facts.items() if a[0] != 'mark'}
        reads = [t for a in F for t in subterms(a) if t[:1] == ('ld',) and t[1][0] == 'idx' and any(x[:1] == ('phi',) for x in subterms(t[1][2]))]
        reads += [t for q, v in marks(st, 'w') for t in subterms(v) if t[:1] == ('ld',) and t[1][0] == 'idx' and any(x[:1] == ('phi',) for x in subterms(t[1][2]))]
        bases = {t[1][1] for t in reads}
        if len(bases) != 1:
            raise Opaque('more than one text is read')
        phis = {x for t in reads for x in subterms(t[1][2]) if x[:1] == ('phi',)}
        if len(phis) != 1:
            raise Opaque('more than one position in the text')
        I = phis.pop()
        src = bases.pop()

        def char(t):
            if t[:1] == ('ld',) and t[1][0] == 'idx' and t[1][1] == src:
                return offset(t[1][2], I)
            return None
        conds, within = [], []
        for a, tv in F.items():
            if not any(t[:1] == ('ld',) and t[1][:1] == ('idx',) and t[1][1] == src for t in subterms(a)):
                if a[:2] == ('b', '<') and offset(a[2], I) is not None and a[3][0] != 'c':
                    within.append((offset(a[2], I), tv))
                continue
            if a[:2] == ('b', '==') and char(a[2]) is not None and a[3][0] == 'c':
                conds.append((char(a[2]), '==', a[3][1], tv))
            elif a[:2] == ('b', '<') and char(a[2]) is not None and a[3][0] == 'c':
                conds.append((char(a[2]), '<', a[3][1], tv))
            elif a[:2] == ('b', '<') and char(a[3]) is not None and a[2][0] == 'c':
                conds.append((char(a[3]), '>', a[2][1], tv))
            else:
                raise Opaque('a condition on the text that is not about one character')
        out, J = {}, None
        for q, v in marks(st, 'w'):
            if q[0] == 'idx' and any(x[:1] == ('phi',) for x in subterms(q[2])):
                js = {x for x in subterms(q[2]) if x[:1] == ('phi',)}
                if len(js) != 1 or J not in (None, *js):
                    raise Opaque('more than one position in the result')
                J = js.pop()
                o = offset(q[2], J)
                if o is None:
                    raise Opaque('position in the result')
                if v[0] == 'c':
                    out[o] = v[1]
                elif char(v) is not None:
                    out[o] = ('char', char(v))
                else:
                    raise Opaque('what is written')
        adv = offset(noep(e.read(st, I[2])), I)
        jadv = offset(noep(e.read(st, J[2])), J) if J else 0
        if adv is None or jadv is None:
            raise Opaque('advance')
        rules.append((conds, within, out, adv, jadv))
    if len(rules) < 2:
        raise Opaque('no pass found')
    return f, rules


def rewrite(rules, s):
    """result of the loop for a text, by the extracted table; None if the table does not say exactly one thing"""
    i, res = 0, ''
    n = len(s)
    while i < n:
        fit = []
        for conds, within, out, adv, jadv in rules:
            ok = all((i + k < n) == tv for k, tv in within)
            for k, op, c, tv in conds:
                x = ord(s[i + k]) if 0 <= i + k < n else 0
                ok = ok and ((x == c if op == '==' else x < c if op == '<' else x > c) == tv)
            if ok:
                o = ''.join((chr(out[j]) if not isinstance(out[j], tuple) else s[i + out[j][1]]) if j in out else ' ' for j in range(jadv)) if not any(j >= jadv for j in out) else None
                fit.append((o, adv))
        if len(set(fit)) != 1 or fit[0][0] is None or fit[0][1] < 1:
            return None
        res += fit[0][0]
        i += fit[0][1]
    return res


def reader(ctx, rep, sym):
    """(rewrite function or None)"""
    try:
        f, rules = rewriting(ctx, 'replaceWithCanonicalCopulas')
    except Opaque as x:
        rep.notes.append(f'the table of notations is not recognised ({x}): reading of notations is not decided')
        return None
    rd = lambda s: rewrite(rules, s)

    def tok(s):
        """the token a notation between blanks becomes"""
        r = rd('(a ' + s + ' b)')
        return None if r is None else r[3:-3] if r.startswith('(a ') and r.endswith(' b)') else r
    bad = []
    for n, s in NOTATION.items():
        if sym[n] is None:
            continue
        r = tok(s) if n != 'NEGATION' else (rd('(-- a)') or '    ')[1:-3]
        rep.ob(r == sym[n], 'reading', loc(f), f'{s} is read as {n}' if r == sym[n] else f'{s} is read as {r!r}, not as the symbol of {n}, {sym[n]!r}', key=f'read {n}')
        # without blanks, before whatever an operand can begin with
        for t in ('x1', '(x', '<x', '{x', '[x', '$1', '#1', '?1', '^go'):
            r = rd('a' + s + t) if n != 'NEGATION' else rd('(' + s + t)
            want = (rd('a') or 'a') + sym[n] + (rd(t) or t) if n != 'NEGATION' else '(' + sym[n] + (rd(t) or t)
            if r != want:
                bad.append((s + t, r))
    rep.ob(not bad, 'reading', loc(f), 'notations are read the same without blanks around' if not bad else f'{bad[0][0]} is read as {bad[0][1]!r}', key=f'compact {bad[:1]}')
    q = rd('(--a)')
    rep.ob(q is None or sym['NEGATION'] is None or q[1:2] == sym['NEGATION'] and q[2:].lstrip() == 'a)', 'reading', loc(f), '-- before a term', key='read neg')
    for s, want in (('{a b}', ('(' + (sym['EXT_SET'] or '"'), 'a b', ')')), ('[a b]', ('(' + (sym['INT_SET'] or "'"), 'a b', ')'))):
        r = rd(s)
        ok = r is not None and r.replace(' ', '') == ''.join(want).replace(' ', '') and r.startswith(want[0] + ' ') and r.endswith('a b)')
        rep.ob(ok, 'reading', loc(f), f'{s} is a set' if ok else f'{s} is read as {r!r}', key='read ' + s)
    for a in 'a9A<({[$#?^':
        s = '<' + a + 'x'
        r = rd(s)
        rep.ob(r is not None and r.startswith('('), 'reading', loc(f), '< opens a statement' if r and r[0] == '(' else f'{s} is read as {r!r}', key='open ' + a)
    for s, want in (('a>', 'a)'), ('1)>', '1))'), ('a,b', 'a b')):
        r = rd(s)
        rep.ob(r == want, 'reading', loc(f), f'{s} is read as {want}' if r == want else f'{s} is read as {r!r}', key='close ' + s)
    names = [c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.']
    odd = [c for c in names if rd('x' + c + 'y') != 'x' + c + 'y']
    rep.ob(not odd, 'reading', loc(f), 'names are not changed' if not odd else f'{odd} in a name becomes something else', key=f'names {odd}')
    for s in ('$1', '#2', '?3', '^go'):
        r = rd('(' + s + ' b)')
        rep.ob(r == '(' + s + ' b)', 'reading', loc(f), f'{s} stays' if r else '', key='read ' + s)
    rep.count('cases_of_the_reading_table', len(rules))
    # blanks around parentheses
    try:
        f2, r2 = rewriting(ctx, 'Narsese_Expand')
    except Opaque as x:
        rep.notes.append(f'the insertion of blanks is not recognised ({x})')
        return rd
    s = '(a (" b))'
    r = rewrite(r2, s)
    ok = r is not None and r.split() == ['(', 'a', '(', '"', 'b', ')', ')']
    rep.ob(ok, 'tokens', loc(f2), 'parentheses become tokens of their own' if ok else f'{s} becomes {r!r}', key='expand')
    return rd


# ------------------------------------------------------------------------------------------------- printing
OUTPUT = ('fputs', 'puts', 'printf', 'putchar', 'fputc', 'putc', 'fprintf')


def literal(v):
    if v[0] == 'a' and v[1][0] == 'strlv':
        return v[1][1]
    if v[0] == 's':
        return v[1]
    return None


def outputs(st):
    """what a path writes: [(kind, value)]"""
    out = []
    for n, name, vals, rv in sorted(marks(st, 'call'), key=lambda m: m[0]):
        if name in ('fputs', 'puts'):
            s = literal(vals[0])
            out.append(('s', s) if s is not None else ('name', vals[0]))
        elif name in ('putchar', 'fputc', 'putc'):
            out.append(('s', chr(vals[0][1])) if vals[0][0] == 'c' else ('?', vals[0]))
        elif name in ('printf', 'fprintf'):
            vals = vals[1:] if name == 'fprintf' else vals
            s = literal(vals[0])
            if s is not None and '%' not in s:
                out.append(('s', s))
            elif s in ('%s', '%c') and len(vals) == 2:
                t = literal(vals[1])
                out.append(('s', t) if t is not None else ('s', chr(vals[1][1])) if vals[1][0] == 'c' else ('name', vals[1]))
            else:
                out.append(('?', s))
        elif name in ('Narsese_PrintAtom',):
            out.append(('atom', vals[0]))
        elif name in ('Narsese_PrintTermPrettyRecursive', 'Narsese_PrintTerm'):
            out.append(('sub', vals))
    return out


def chosen(st, X):
    """(symbol the atom X is known to be or None, symbols it is known not to be)"""
    yes, no = set(), set()
    for a, tv in st.facts.items():
        a = noep(a)
        if a[:2] == ('b', '==') and a[3] == ('c', 0):
            a, tv = a[2], not tv
        if a[:2] == ('call', 'Narsese_copulaEquals') and a[2][0] == X and a[2][1][0] == 'c':
            (yes if tv else no).add(chr(a[2][1][1]))
    return yes, no


def printer(ctx, rep, sym, rd):
    p = ctx.prog
    canon = text(ctx, 'Narsese_CanonicalCopulas')
    f = p.fn('Narsese_PrintAtom')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=4000, hooks=h, functional=PURE13, stable=STABLE)
    A = arg(f, 0)
    printed, n = {}, 0
    opaque = False
    own = None
    for st, rv in e.run(f.name):
        n += 1
        yes, no = chosen(st, A)
        zero = holds(e, st, e.mk('==', A, ('c', 0)))
        o = outputs(st)
        if zero is True:
            continue
        if len(yes) > 1:
            continue
        if any(k == '?' for k, v in o):
            opaque = True
            continue
        if all(k == 's' for k, v in o):
            s = ''.join(v for k, v in o)
            if yes:
                printed.setdefault(next(iter(yes)), set()).add(s)
            elif s:
                opaque = True
        else:
            ok = len(o) == 1 and o[0][0] == 'name' and noep(o[0][1]) in (('a', ('idx', ('idx', ('v', 'Narsese_atomNames'), ('b', '+', A, ('c', -1))), ('c', 0))), ('a', ('idx', ('v', 'Narsese_atomNames'), ('b', '+', A, ('c', -1)))))
            rep.ob(ok, 'printing', loc(f), 'an atom is printed by its name' if ok else 'an atom is not printed by its own name', key='print name')
            for y in yes:
                printed.setdefault(y, set()).add(y)
            if not yes:
                own = no if own is None else own & no
    if opaque or own is None:
        rep.notes.append('the printing of atoms is not recognised: not decided')
        return
    rep.count('symbols_printed_by_notation', len(printed))
    names = {v: k for k, v in sym.items() if v}
    for c in canon or '':
        n_ = names.get(c)
        if n_ not in NOTATION:
            continue
        for s in sorted(printed.get(c, {c})):
            if n_ == 'NEGATION':
                back = (rd(f'({s} a)') or '    ')[1:-3] if rd else None
            else:
                r = rd('(a ' + s + ' b)') if rd else None
                back = r[3:-3] if r and r.startswith('(a ') and r.endswith(' b)') else r
            if rd is None:
                ok = s in (c, NOTATION[n_])
                rep.ob(ok, 'printing', loc(f), f'{n_} is printed {s}', key=f'print {n_}')
                continue
            rep.ob(back == c, 'printing', loc(f), f'{n_} is printed {s}, which is read back as such' if back == c else f'{n_} is printed {s}, which is read as {back!r}', key=f'print {n_}')


def shape(ctx, rep, sym, rd):
    """how compound terms are printed"""
    p = ctx.prog
    f = p.fn('Narsese_PrintTermPrettyRecursive')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=8000, hooks=h, functional=PURE13, stable=STABLE)
    T, X = arg(f, 0), arg(f, 1)
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    at = lambda i: ('ld', ('idx', ('fld', ('d', T), 'atoms'), i))
    L = ('b', '*', X, ('c', 2))
    R = ('b', '+', L, ('c', 1))
    me, left, right = at(('b', '+', X, ('c', -1))), at(('b', '+', L, ('c', -1))), at(L)
    left2, right2 = at(('b', '-', L, ('c', 1))), at(('b', '+', R, ('c', -1)))

    def norm(v):
        """positions as multiples of the index plus a number"""
        return v
    names = {v: k for k, v in sym.items() if v}
    stm = {sym[k] for k in STATEMENTS}
    bad, n, cases = set(), 0, set()
    unknown = False

    def judge(c, S, hr):
        """whether what is printed for a compound is read as the same tree; None if there is no such term"""
        if c in (sym['EXT_SET'], sym['INT_SET']):
            o_, c_ = ('{', '}') if c == sym['EXT_SET'] else ('[', ']')
            want = [o_ + '\2 \3' + c_] if hr else [o_ + '\2' + c_, o_ + '\2\3' + c_]
            return S.replace(', ', ' ').replace(',', ' ') in want
        if c == sym['SET_TERMINATOR']:
            return None
        if hr:
            if c == sym['NEGATION']:
                return None
            if len(S) > 2 and S[0] in '<(' and S[-1] == ('>' if S[0] == '<' else ')'):
                parts = S[1:-1].split(' ')
                lit = [x for x in parts if x not in ('\1', '\2', '\3')]
                if parts in (['\2', '\1', '\3'], ['\1', '\2', '\3']):
                    return True
                if len(parts) == 3 and lit and c is not None and rd:
                    return parts[0] == '\2' and parts[2] == '\3' and (rd('(a ' + lit[0] + ' b)') or '')[3:-3] == c
            return False
        if c not in (sym['NEGATION'], sym['PRODUCT'], sym['SEQUENCE'], sym['SIMILARITY']):
            return None
        body = S[1:-1].replace('\3', '')
        if len(S) > 2 and (S[0], S[-1]) in (('(', ')'), ('<', '>')):
            parts = body.split(' ')
            if len(parts) == 2 and parts[1] == '\2':
                if parts[0] == '\1':
                    # the symbol's own notation, as a prefix: must read back
                    return c in (sym['NEGATION'], sym['PRODUCT'])
                if rd:
                    r = rd('(' + parts[0] + ' a)')
                    return r is not None and r == '(' + c + ' a)'
                return parts[0] == c
        return False
    for st, rv in e.run(f.name):
        F = {noep(a): tv for a, tv in st.facts.items() if a[0] != 'mark'}

        def present(*xs):
            for x in xs:
                k = F.get(('b', '==', x, ('c', 0)))
                if k is not None:
                    return not k
            return None
        fits = lambda i: F.get(('b', '<', i, ('c', size)))
        o = [x for x in outputs(st) if x != ('s', '')]
        if any(k == '?' for k, v in o):
            unknown = True
            continue
        here = present(me)
        if here is False:
            if o:
                bad.add('something is printed for an empty position')
            continue
        yes, no = chosen(st, me)
        if len(yes) > 1:
            continue
        hl = present(left, left2) if fits(L) is not False else False
        hr = present(right, right2) if fits(R) is not False else False
        if fits(R) and not fits(L):
            continue
        if hr:
            y2, n2 = chosen(st, right)
            if sym['SET_TERMINATOR'] in y2:
                hr = False
            elif sym['SET_TERMINATOR'] not in n2 and any(k == 's' and v == ' ' for k, v in o):
                pass
        c = next(iter(yes)) if yes else None
        n += 1
        ev = []
        for k, v in o:
            if k == 's':
                if ev and ev[-1][0] == 's':
                    ev[-1] = ('s', ev[-1][1] + v)
                else:
                    ev.append(('s', v))
            elif k in ('atom', 'name'):
                ev.append(('op',) if v == me or k == 'name' and mentions(v, lambda t: t == me) else ('wrong',))
            else:
                if v[0] != T:
                    bad.add('a part of another term is printed')
                i = v[1] if len(v) > 1 else None
                ev.append(('L',) if i == L else ('R',) if i == R else ('wrong',))
        if ('wrong',) in ev:
            bad.add('what is printed is not a part of the term')
            continue
        # flatten to a string with place holders
        S = ''.join(v[1] if v[0] == 's' else {'op': '\1', 'L': '\2', 'R': '\3'}[v[0]] for v in ev)
        if hl is not True:
            # a leaf (or a position without a left part, which prints the same way)
            if c == sym['SET_TERMINATOR']:
                ok = S.strip('\2\3') == ''
            elif c in (sym['EXT_SET'], sym['INT_SET']) or c is not None or hr:
                continue
            else:
                if hl is None and not fits(L) is False and F.get(('b', '<', L, ('c', size))) is None:
                    continue
                ok = S.replace('\2', '').replace('\3', '') == '\1'
            if not ok:
                bad.add(f'an atom is printed as {show_(S)}')
            cases.add('leaf')
            continue
        # whether there is a right part may not have been asked
        for hr in ((hr,) if hr is not None else (True, False)):
            ok = judge(c, S, hr)
            if ok is None:
                continue
            cases.add((names.get(c, 'other'), bool(hr)))
            if not ok:
                bad.add(f'{names.get(c, "a compound")} with {"two parts" if hr else "one part"} is printed as {show_(S)}, which is not read as the same')
    if unknown:
        rep.notes.append('not all output of the printing of terms is recognised')
    rep.count('shapes_of_printed_terms', len(cases))
    rep.count('paths_of_term_printing', n)
    rep.ob(not bad, 'printing of compounds', loc(f), '; '.join(sorted(bad)) or f'{len(cases)} shapes of terms print in a notation that is read as the same tree', key='shape ' + '; '.join(sorted(bad)))
    # the root
    g = p.fn('Narsese_PrintTerm')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=50, hooks=h, functional=PURE13, stable=STABLE)
    ok = True
    for st, rv in e.run(g.name):
        o = [v for k, v in outputs(st) if k == 'sub']
        ok = ok and len(o) == 1 and o[0] == (arg(g, 0), ('c', 1))
    rep.ob(ok, 'printing of compounds', loc(g), 'printing begins at the root' if ok else 'printing does not begin at the root', key='print root')


def show_(s):
    return repr(s.replace('\1', 'OP').replace('\2', 'LEFT').replace('\3', 'RIGHT'))


# ------------------------------------------------------------------------------------------------- tree
def tree(ctx, rep, sym):
    p = ctx.prog
    f = p.fn('buildBinaryTree')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=400, hooks=h, functional=PURE13, stable=STABLE)
    B, T, I, X, N = (arg(f, k) for k in range(5))
    tok = lambda i: ('ld', ('idx', ('d', T), i))
    plus = lambda v, k: ('b', '+', v, ('c', k))
    idx = lambda i: ('call', 'Narsese_AtomicTermIndex')
    pos = ('idx', ('fld', ('d', B), 'atoms'), plus(X, -1))
    L = ('b', '*', X, ('c', 2))
    R = plus(L, 1)
    bad, n = set(), 0

    def is_char(F, t, k, c):
        """whether character k of token t is c"""
        for q in (('ld', ('idx', ('d', t), ('c', k))), ('ld', ('d', t)) if k == 0 else None):
            if q is not None:
                v = F.get(('b', '==', q, ('c', c)))
                if v is not None:
                    return v
                if c != 0 and any(a[:2] == ('b', '==') and a[2] == q and a[3][0] == 'c' and a[3][1] != c and tv for a, tv in F.items()):
                    return False
        return None
    for st, rv in e.run(f.name):
        n += 1
        F = {noep(a): tv for a, tv in st.facts.items() if a[0] != 'mark'}
        called = {rv_: ('call', nm, vals) for _, nm, vals, rv_ in marks(st, 'call') if rv_ is not None and rv_[:1] in (('ret',),)}

        def res(v):
            if isinstance(v, tuple):
                return called.get(v) or tuple(res(x) for x in v)
            return v
        F = {res(a): tv for a, tv in F.items()}
        w = [(q, res(v)) for q, v in marks(st, 'w') if q[0] == 'idx' and q[1] == ('fld', ('d', B), 'atoms')]
        rec = [(res(vals), rv_) for _, nm, vals, rv_ in sorted(marks(st, 'call'), key=lambda m: m[0]) if nm == f.name]
        t0 = tok(I)
        op = is_char(F, t0, 0, ord('('))
        op1 = is_char(F, t0, 1, 0)
        opener = False if op is False or op1 is False else True if op and op1 else None
        cl = is_char(F, t0, 0, ord(')'))
        cl1 = is_char(F, t0, 1, 0)
        closer = False if cl is False or cl1 is False else True if cl and cl1 else None
        if len(w) != 1 or w[0][0] != pos:
            bad.add('not exactly the position of the term is filled')
            continue
        v = w[0][1]
        index_of = lambda t: ('call', 'Narsese_AtomicTermIndex', (t,))
        v = v[1] if v[0] == 'trunc' else v
        while v[0] in ('cast', 'trunc'):
            v = v[-1]
        first, second = plus(I, 2), ('call', 'skipCompound', (T, plus(I, 2), N))
        if opener:
            if v != index_of(tok(plus(I, 1))):
                bad.add('the connector is not what comes after the opening parenthesis')
            for i, x, name in ((first, L, 'first'), (second, R, 'second')):
                there = F.get(('b', '<', i, N))
                calls = [vals for vals, _ in rec if vals[3] == x]
                if there is not False and not any(vals == (B, T, i, x, N) for vals in calls) or there is False and calls:
                    bad.add(f'the {name} part does not become the {"left" if x == L else "right"} subtree')
            if len(rec) > 2:
                bad.add('a term has more than two parts')
        elif opener is False and closer:
            if v not in (('call', 'Narsese_CopulaIndex', (('c', ord(sym['SET_TERMINATOR'] or '@')),)),):
                bad.add('the end of a set is not marked')
            if rec:
                bad.add('a set end has parts')
        elif opener is False and closer is False:
            if v != index_of(t0):
                bad.add('an atom is not encoded by its name')
            if rec:
                bad.add('an atom has parts')
        else:
            bad.add('a token is not told apart')
    rep.expect('paths of the encoding', n, 3)
    rep.ob(not bad, 'encoding', loc(f), '; '.join(sorted(bad)) or f'on all {n} paths: connector at the node, first part left, second part right', key='tree ' + '; '.join(sorted(bad)))
    # all connectors count as such in prefix position
    canon = text(ctx, 'Narsese_CanonicalCopulas')
    g = p.fn('Narsese_PrefixTransform')
    for l in find_loops(g):
        for v in l.ivs:
            for n_ in l.body:
                if any(t[:1] == ('idx',) and t[1][:1] == ('strlv',) and t[1][1] == canon and t[2] == ('v', v) for x in (g.ins[n_].a, g.ins[n_].b) if isinstance(x, tuple) for t in subterms(x)):
                    ok = covers(l, v, 0, len(canon))[0]
                    rep.ob(ok is not False, 'encoding', loc(g), 'all connectors are known in prefix position' if ok else 'not all connectors are compared with', key='prefix')
    # encoding starts at the root with the first token
    g = p.fn('Narsese_Term')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=100, hooks=h, functional=PURE13, stable=STABLE)
    ok = True
    for st, rv in e.run(g.name):
        c = [vals for _, nm, vals, rv_ in marks(st, 'call') if nm == f.name]
        ok = ok and len(c) == 1 and c[0][2] == ('c', 0) and c[0][3] == ('c', 1)
    rep.ob(ok, 'encoding', loc(g), 'encoding begins at the root with the first token' if ok else 'encoding does not begin at the root with the first token', key='tree root')


# ------------------------------------------------------------------------------------------------- infix to prefix
def facts_of(st):
    return {noep(a): tv for a, tv in st.facts.items() if a[0] != 'mark'}


def phis_in(*xs):
    return {t for x in xs for t in subterms(x) if t[:1] == ('phi',)}


def single(F, t, c):
    """whether token t is the one-character token c"""
    out = []
    for k, want in ((0, ord(c)), (1, 0)):
        r = None
        for q in ([('ld', ('d', t))] if k == 0 else []) + [('ld', ('idx', ('d', t), ('c', k)))]:
            for a in (('b', '==', q, ('c', want)), ('b', '==', ('c', want), q)):
                if a in F:
                    r = F[a]
            if r is None and any(a[:2] == ('b', '==') and a[2] == q and a[3][0] == 'c' and a[3][1] != want and tv for a, tv in F.items()):
                r = False
        out.append(r)
    return False if False in out else True if out == [True, True] else None


def skipping(ctx, rep):
    """skipCompound returns what follows the compound at a position: the depth is 0 again for the first time"""
    p = ctx.prog
    if 'skipCompound' not in p.funcs:
        rep.notes.append('skipping of a compound is not recognised: not decided')
        return
    f = p.fn('skipCompound')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=400, hooks=h, functional=PURE13, stable=STABLE)
    exits = e.run(f.name)
    if len(f.params) != 3:
        rep.notes.append('skipping of a compound is not recognised: not decided')
        return
    T, I0, N = (arg(f, k) for k in range(3))
    heads = {hd for g, hd, b, st in h.enters}
    if len(heads) != 1 or not h.back:
        rep.notes.append('skipping of a compound is not one loop: not decided')
        return
    # position and depth
    I = {t for g, i, b, st in h.back for a in facts_of(st) for t in subterms(a) if t[:1] == ('idx',) and t[1] == ('d', T)}
    I = phis_in(*I)
    if len(I) != 1 or any(t[1] == ('d', T) and t[2] not in I for g, i, b, st in h.back for a in facts_of(st) for t in subterms(a) if t[:1] == ('idx',)):
        rep.notes.append('skipping of a compound: the position is not recognised, not decided')
        return
    I = I.pop()
    tok = ('ld', ('idx', ('d', T), I))
    D = {q for g, i, b, st in h.back for q, v in marks(st, 'w') if q[0] == 'v' and q != I[2] and phis_in(v) == {('phi', I[1], q)}}
    if len(D) != 1:
        rep.notes.append('skipping of a compound: the depth is not recognised, not decided')
        return
    D = D.pop()
    d = ('phi', I[1], D)
    bad = set()
    for g, hd, b, st in h.enters:
        if noep(e.read(st, D)) != ('c', 0) and not phis_in(noep(e.read(st, D))):
            bad.add('the depth does not begin at 0')
        if noep(e.read(st, I[2])) != I0 and not phis_in(noep(e.read(st, I[2]))):
            bad.add('skipping does not begin at the position given')

    def step(F):
        op, cl = single(F, tok, '('), single(F, tok, ')')
        return 1 if op else -1 if cl else 0 if op is False and cl is False else None
    n = 0
    for g, i, b, st in h.back:
        F = facts_of(st)
        w = step(F)
        o = offset(noep(e.read(st, D)), d)
        n += 1
        if o is None or w is None:
            bad.add('a parenthesis is not looked at') if w is None else None
            continue
        if o != w:
            bad.add(f'the depth changes by {o} at {"an opening" if w == 1 else "a closing" if w == -1 else "no"} parenthesis')
        if F.get(('b', '==', d, ('c', -w))) is not False and F.get(('b', '<', ('c', -w), d)) is not True and F.get(('b', '<', d, ('c', 1 - w))) is not False:
            bad.add('skipping goes on although the compound is complete')
        if offset(noep(e.read(st, I[2])), I) != 1:
            bad.add('a token is not looked at')
    for st, rv in exits:
        F = facts_of(st)
        r = noep(rv)
        n += 1
        if I not in phis_in(r):
            continue
        looked = any(tok in subterms(a) for a in F)
        if looked:
            w = step(F)
            if offset(r, I) != 1:
                bad.add('the position returned is not the one after the compound')
            if w is None or F.get(('b', '==', d, ('c', -w))) is not True:
                bad.add('skipping ends although the compound is not complete')
        elif offset(r, I) not in (0, None):
            bad.add('the position returned is not the end')
    rep.ob(not bad, 'encoding', loc(f), '; '.join(sorted(bad)) or f'in all {n} passes and exits: ends right after the position where as many parentheses were closed as opened', key='skip ' + '; '.join(sorted(bad)))


def prefixed(ctx, rep):
    p = ctx.prog
    fn = 'Narsese_PrefixTransform'
    if fn not in p.funcs:
        rep.notes.append('infix notation: not decided')
        return
    f = p.fn(fn)
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=800, hooks=h, functional=PURE13, stable=STABLE)
    exits = e.run(fn)
    canon = text(ctx, 'Narsese_CanonicalCopulas')
    bad, n = set(), 0
    calls = {(vals, rv) for g, i, b, st in h.back for _, nm, vals, rv in marks(st, 'call') if nm == 'skipCompound'} | {(vals, rv) for g, i, b, st in h.enters for _, nm, vals, rv in marks(st, 'call') if nm == 'skipCompound'}
    if not calls:
        rep.notes.append('infix notation: where the copula is, is not recognised: not decided')
        return
    for vals, rv in calls:
        ph = phis_in(vals[1])
        if len(ph) != 1 or offset(vals[1], next(iter(ph))) is None:
            rep.notes.append('infix notation: the position is not recognised: not decided')
            return
    I = {x for vals, rv in calls for x in phis_in(vals[1])}
    T = {vals[0] for vals, rv in calls}
    if len(I) != 1 or len(T) != 1:
        rep.notes.append('infix notation: the position is not recognised: not decided')
        return
    I, T = I.pop(), T.pop()
    if T[0] == 'a' and T[1][0] == 'idx' and T[1][2] == ('c', 0):
        base = T[1][1]
    else:
        base = ('d', T)
    tok = lambda i: ('ld', ('idx', base, i))
    plus = lambda k: ('b', '+', I, ('c', k)) if k else I
    ends = {rv for vals, rv in calls}
    if any(offset(vals[1], I) != 1 for vals, rv in calls):
        bad.add('the operand of infix notation is not what follows the opening parenthesis')
    # all positions
    for g, hd, b, st in h.enters:
        if hd == I[1][1]:
            v = noep(e.read(st, I[2]))
            if v != ('c', 0) and not phis_in(v):
                bad.add('not every position is looked at')
    outer = [(i, b, st) for g, i, b, st in h.back if I[1][1] in b and not any(x != I[1][1] and I[1][1] not in b2 and i.id in b2 for g2, x, b2, s2 in h.enters)]
    for i, b, st in outer:
        n += 1
        if offset(noep(e.read(st, I[2])), I) != 1:
            bad.add('not every position is looked at')
        F = facts_of(st)
        op = single(F, tok(I), '(')
        if op is False and any(q[0] == 'idx' and q[1] == base for q, v in marks(st, 'w')):
            bad.add('tokens are moved where no compound begins')
        t1 = tok(plus(1))
        if any(a[:2] == ('b', '==') and tv and any(x[:1] == ('idx',) and x[1] == ('strlv', canon) for y in a[2:] for x in subterms(y)) and any(x in (('ld', ('d', t1)), ('ld', ('idx', ('d', t1), ('c', 0)))) for x in a[2:])
               for a, tv in F.items()) and F.get(('b', '==', ('ld', ('idx', ('d', t1), ('c', 1))), ('c', 0))) is not True and not any(nm == 'skipCompound' for _, nm, vals, rv in marks(st, 'call')):
            bad.add('a name that begins like a connector counts as one')
    for st, rv in exits:
        for a, tv in facts_of(st).items():
            if a[:2] == ('b', '<') and a[2] == I and not tv and a[3][:2] in (('b', '+'), ('b', '-')) and a[3][3][0] == 'c':
                o = a[3][3][1] if a[3][1] == '+' else -a[3][3][1]
                if o < -4:
                    bad.add('infix notation at the end of the text is not looked at')
    # known as prefix notation exactly if one of the connectors follows
    K = {x for g, i, b, st in h.back for a in facts_of(st) for t in subterms(a) if t[:1] == ('idx',) and t[1] == ('strlv', canon) for x in phis_in(t[2])}
    if len(K) == 1 and canon is not None:
        K = K.pop()
        for g, hd, b, st in h.enters:
            if hd == K[1][1]:
                v = noep(e.read(st, K[2]))
                if v[0] == 'c' and v[1] > 0:
                    bad.add('not all connectors are known in prefix notation')
        for g, i, b, st in h.back:
            if i.id in b and K[1][1] in b and I[1][1] not in b and offset(noep(e.read(st, K[2])), K) not in (1, None):
                bad.add('not all connectors are known in prefix notation')
        for x in h.back + [(None, None, None, st) for st, rv in exits]:
            for a, tv in facts_of(x[3]).items():
                if a[:2] == ('b', '<') and a[2] == K and a[3][0] == 'c' and not tv and 0 < a[3][1] < len(canon):
                    bad.add('not all connectors are known in prefix notation')
    # moving
    J = {x for g, i, b, st in h.back if any(I in subterms(a) for a in facts_of(st)) for q, v in marks(st, 'w') if q[0] == 'idx' and q[1] == base for x in phis_in(q[2]) if x != I}
    moved = [(i, b, st) for g, i, b, st in h.back if I[1][1] not in b and any(q[0] == 'idx' and q[1] == base and phis_in(q[2]) & J for q, v in marks(st, 'w'))]
    if len(J) == 1 and moved and all(offset(q[2], next(iter(J))) is not None for i, b, st in moved for q, v in marks(st, 'w') if q[0] == 'idx' and q[1] == base):
        J = J.pop()
        shift = False
        for i, b, st in moved:
            n += 1
            w = {offset(q[2], J): v for q, v in marks(st, 'w') if q[0] == 'idx' and q[1] == base}
            o = offset(noep(e.read(st, J[2])), J)
            if len(w) == 1:
                k, v = next(iter(w.items()))
                shift = True
                src = offset(v[1][2], J) if v[0] == 'ld' and v[1][:1] == ('idx',) and v[1][1] == base else None
                if src != k - 1 or o != -1:
                    bad.add('the tokens between the opening parenthesis and the copula are not moved one by one')
                continue
            for k, v in w.items():
                src = offset(v[1][2], J) if v[0] == 'ld' and v[1][:1] == ('idx',) and v[1][1] == base else None
                if src is None or src not in w or src == k:
                    bad.add('a token is lost when the copula is moved')
            lo, hi = min(w), max(w)
            if o != -1 or hi - lo != 1:
                bad.add('the tokens between the opening parenthesis and the copula are not moved one by one')
        tops, bottoms = set(), set()
        for g, hd, b, st in h.enters:
            if hd == J[1][1]:
                v = noep(e.read(st, J[2]))
                if J not in phis_in(v):
                    tops.add(v)
        for i, b, st in outer:
            for a, tv in facts_of(st).items():
                if a[:2] == ('b', '<') and a[2] == J and offset(a[3], I) is not None and tv:
                    bottoms.add(offset(a[3], I))
                if a[:2] == ('b', '<') and a[3] == J and offset(a[2], I) is not None and not tv:
                    bottoms.add(offset(a[2], I) + 1)
                if a[:2] == ('b', '==') and a[2] == J and offset(a[3], I) is not None and tv:
                    bottoms.add(offset(a[3], I) + 1)
        offs = {k for i, b, st in moved for k in {offset(q[2], J) for q, v in marks(st, 'w') if q[0] == 'idx' and q[1] == base}}
        top = {offset(t, x) for t in tops for x in ends if offset(t, x) is not None}
        if tops and not any(t + max(offs) == 0 for t in top) and top:
            bad.add('moving does not begin at the copula')
        if shift and not any(q in (('idx', base, plus(1)), ('idx', base, J)) and v in [tok(x) for x in ends] for i, b, st in outer for q, v in marks(st, 'w')):
            bad.add('a token is lost when the copula is moved')
        if bottoms and not any(x + min(offs) == (2 if shift else 1) for x in bottoms):
            bad.add('the copula is not moved to right after the opening parenthesis')
    elif not moved:
        rep.notes.append('infix notation: moving of the copula is not recognised')
    # the copula itself
    put = []
    for i, b, st in outer:
        F = facts_of(st)
        if not any(nm == 'skipCompound' for _, nm, vals, rv in marks(st, 'call')) and not any(x in subterms(a) for a in F for x in ends):
            continue
        if not any(F.get(('b', '<', x, y)) for x in ends for y in [vals[2] for vals, rv in calls]):
            continue
        t1 = tok(plus(1))
        w = {('k', q[2][1] if q[0] == 'idx' else 0): v for q, v in marks(st, 'w') if (q[0] == 'idx' and q[1] == ('d', t1) and q[2][0] == 'c') or q == ('d', t1)}
        # what the token was before it was moved there is not the copula
        for q, v in marks(st, 'rw'):
            if noep(q) in (('d', t1), ('idx', ('d', t1), ('c', 0))):
                now = [t for t in subterms(q) if len(t) == 3 and t[0] == 'ld' and noep(t) == t1]
                was = [t for t in subterms(v) if len(t) == 3 and t[0] == 'ld' and noep(t) == t1]
                if now and was and was[0] != now[0] and moved:
                    bad.add('the connector is not the copula')
        put.append(w)
    if put and any(put):
        for w in put:
            if w.get(('k', 1)) not in (('c', 0), None) or w.get(('k', 0)) is None:
                bad.add('the connector is not the copula')
            elif w[('k', 0)][0] == 'c' or not any(t[:1] == ('ld',) and t[1][:1] in (('d',), ('idx',)) for t in subterms(w[('k', 0)])) and not phis_in(w[('k', 0)]):
                bad.add('the connector is not the copula')
            elif w[('k', 0)][0] == 'ld' and w[('k', 0)] not in {q for x in ends for q in (('ld', ('d', tok(x))), ('ld', ('idx', ('d', tok(x)), ('c', 0))))} | {('ld', ('d', t1)), ('ld', ('idx', ('d', t1), ('c', 0)))}:
                bad.add('the connector is not the copula')
    elif put:
        # a single-character copula is moved with its token
        pass
    rep.ob(not bad, 'encoding', loc(f), '; '.join(sorted(bad)) or f'in all {n} passes: what is no prefix notation gets its copula moved to the front', key='infix ' + '; '.join(sorted(bad)))


# ------------------------------------------------------------------------------------------------- atoms
def outcome(e, st, rv):
    """(truth of the result, state) for each way it can come out"""
    rv = strip(rv)
    if rv[0] == 'c':
        return [(bool(rv[1]), st)]
    a, pol = e.truth_atom(rv)
    k = e.known_truth(st, a)
    if k is not None:
        return [(k == pol, st)]
    out = []
    for tv in (True, False):
        s2 = st.copy()
        s2.facts[a] = tv == pol
        out.append((tv, s2))
    return out


def predicate(ctx, rep, fn, dnf, what):
    """fn returns true exactly if one of the conjunctions of dnf(args) holds"""
    p = ctx.prog
    f = p.fn(fn)
    h = Hooks()
    e = Engine(p, ctx.summ, ctx.known, K=400, hooks=h, functional=PURE13, stable=STABLE)
    bad, n = set(), 0
    alts = dnf(*[arg(f, k) for k in range(len(f.params))])
    for st, rv in e.run(fn):
        for tv, s2 in outcome(e, st, rv):
            n += 1
            F = {noep(a): v for a, v in s2.facts.items() if a[0] != 'mark'}

            def known(lit):
                a, want = lit
                for b, w in alternatives(a):
                    if b in F:
                        return F[b] == (want == w)
                if a[:2] == ('b', '=='):
                    # another value is known
                    for b, v in F.items():
                        if b[:2] == ('b', '==') and b[2] == a[2] and b[3][0] == 'c' and a[3][0] == 'c' and v and b[3] != a[3]:
                            return not want
                return None
            if tv and not any(all(known(l) is True for l in c) for c in alts):
                bad.add('holds of more than that')
            if not tv and not all(any(known(l) is False for l in c) for c in alts):
                bad.add('does not hold of all of them')
    rep.ob(not bad, 'roles', loc(f), what if not bad else f'{what}: {"; ".join(sorted(bad))}', key=f'{fn} ' + '; '.join(sorted(bad)))


def alternatives(a):
    """the same fact in other words: (atom, truth)"""
    out = [(a, True)]
    if a[:2] == ('b', '=='):
        out.append(((a[0], a[1], a[3], a[2]), True))
    if a[0] == 'call':
        out.append((('b', '==', a, ('c', 0)), False))
    if a[:2] == ('b', '<') and a[2] == ('c', 0):        # 0 < x of an unsigned value
        out += [(('b', '==', a[3], ('c', 0)), False), (('b', '<', a[3], ('c', 1)), False)]
    return out


def atoms(ctx, rep, sym):
    p = ctx.prog
    nm = lambda a, k: ('ld', ('idx', ('idx', ('v', 'Narsese_atomNames'), ('b', '+', a, ('c', -1))), ('c', k)))
    eq = lambda x, c: (('b', '==', x, ('c', c) if isinstance(c, int) else c), True)
    ne = lambda x, c: (('b', '==', x, ('c', c)), False)
    pos = lambda a: (('b', '<', ('c', 0), a), True)
    predicate(ctx, rep, 'Narsese_copulaEquals', lambda a, c: [[pos(a), eq(nm(a, 0), c), eq(nm(a, 1), 0)]], 'an atom is a connector exactly if its name is the symbol')
    predicate(ctx, rep, 'Narsese_isOperator', lambda a: [[pos(a), eq(nm(a, 0), ord('^')), ne(nm(a, 1), 0)]], 'operators are the names that begin with ^ and go on')
    for fn, c in (('Variable_isIndependentVariable', '$'), ('Variable_isDependentVariable', '#'), ('Variable_isQueryVariable', '?')):
        predicate(ctx, rep, fn, lambda a, c=c: [[pos(a), eq(nm(a, 0), ord(c)), ne(nm(a, 1), 0)]], f'variables are the names that begin with {c} and go on')
    call = lambda n, *a: (('call', n, a), True)
    at = lambda t, k: ('ld', ('idx', ('fld', ('d', t), 'atoms'), ('c', k)))
    cop = lambda t, k, s: call('Narsese_copulaEquals', at(t, k), ('c', ord(sym[s] or ' ')))
    if all(sym[x] for x in ('INHERITANCE', 'PRODUCT', 'EXT_SET')):
        predicate(ctx, rep, 'Narsese_isOperation', lambda t: [[call('Narsese_isOperator', at(t, 0))], [cop(t, 0, 'INHERITANCE'), cop(t, 1, 'PRODUCT'), call('Narsese_isOperator', at(t, 2)), cop(t, 3, 'EXT_SET')]],
                  'operations are operators and what is read from <({..} * x) --> ^op>')
        self_ = ('ld', ('v', 'SELF'))
        predicate(ctx, rep, 'Narsese_isExecutableOperation', lambda t: [[call('Narsese_isOperation', t), x] for x in (call('Narsese_isOperator', at(t, 0)), (('b', '==', at(t, 7), self_), True), call('Variable_isVariable', at(t, 7)))],
                  'executable operations are operators and operations of {SELF} or a variable')
    # names and indices
    f = p.fn('Narsese_AtomicTermIndex')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=400, hooks=h, functional=(), stable=STABLE)
    bad, n = set(), 0
    ti = ('ld', ('v', 'term_index'))
    slot = ('idx', ('v', 'Narsese_atomNames'), ti)
    ref = lambda q: (('a', q), ('a', ('idx', q, ('c', 0))))
    for st, rv in e.run(f.name):
        n += 1
        cs = [c[1:] for c in sorted(marks(st, 'call'), key=lambda m: m[0])]
        get = [c for c in cs if c[0] == 'HashTable_Get']
        sets = [c for c in cs if c[0] == 'HashTable_Set']
        cut = [c for c in cs if c[0] in ('strncpy', 'memcpy', 'strcpy', 'snprintf')]
        if len(get) != 1 or get[0][1][0] != ('a', ('v', 'HTatoms')):
            bad.add('a name is given an index without looking whether it has one')
            continue
        got = get[0][2]
        none = holds(e, st, e.mk('==', dict(marks(st, 'raw'))[next(c[0] for c in marks(st, 'call') if c[1] == 'HashTable_Get')], ('c', 0)))
        minus = any(noep(a)[:2] == ('b', '==') and noep(a)[2] == got and noep(a)[3] == ('c', -1) and tv for a, tv in st.facts.items())
        if none is False and not minus:
            if noep(strip(rv)) != got or sets or any(q[0] in ('idx', 'v') and root_of(q) in (('v', 'Narsese_atomNames'), ('v', 'term_index')) for q, v in marks(st, 'w')):
                bad.add('the index of a known name is not the one it has')
            continue
        new = ('b', '+', ti, ('c', 1))
        w = [v for q, v in marks(st, 'w') if q == ('v', 'term_index')]
        if len(sets) != 1 or sets[0][1][0] != ('a', ('v', 'HTatoms')) or sets[0][1][1] not in ref(slot) or sets[0][1][2] != new:
            bad.add('a new name is not entered with its own index')
        if noep(strip(rv)) != new:
            bad.add('what is returned for a new name is not its index')
        if w != [new]:
            bad.add('the next free index is not the one after it')
        if not any(c[1][0] in ref(slot) and c[1][1] == arg(f, 0) for c in cut):
            bad.add('a new name is not recorded')
        lens = {c[1][2] for c in cut if c[0] == 'strncpy' and c[1][1] == arg(f, 0)}
        if len(lens) > 1:
            bad.add('names are recorded with another length than they are looked up with')
    rep.expect('paths of the indexing of names', n, 2)
    rep.ob(not bad, 'names', loc(f), '; '.join(sorted(bad)) or f'on all {n} paths: one index per name, the name recorded at it', key='index ' + '; '.join(sorted(bad)))
    g = p.fn('Narsese_StringEqual')
    h = W()
    e = Engine(p, ctx.summ, ctx.known, K=100, hooks=h, functional=(), stable=STABLE)
    bad = set()
    for st, rv in e.run(g.name):
        c = [c for c in marks(st, 'call') if c[1] in ('strcmp', 'strncmp')]
        if not c:
            bad = None
            break
        for tv, s2 in outcome(e, st, rv):
            raw = dict(marks(st, 'raw'))
            k = holds(e, s2, e.mk('==', raw[c[-1][0]], ('c', 0)))
            if k is not tv:
                bad.add('names count as equal although they differ, or the other way round')
            if set(c[-1][2][:2]) != {arg(g, 0), arg(g, 1)}:
                bad.add('not the names are compared')
            if c[-1][1] == 'strncmp' and (c[-1][2][2][0] != 'c' or c[-1][2][2][1] < int(ctx.macro('ATOMIC_TERM_LEN_MAX')) - 1):
                bad.add('names are compared only in part')
    if bad is not None:
        rep.ob(not bad, 'names', loc(g), '; '.join(sorted(bad)) or 'names are equal exactly if they are the same text', key='names ' + '; '.join(sorted(bad)))
    else:
        rep.notes.append('the comparison of names is not recognised')
    g = p.fn('Narsese_StringHash')
    glob = {c for c in ctx.summ.ref[g.name] if c[0] == 'glob'}
    rep.ob(not glob and not ctx.summ.mod[g.name], 'names', loc(g), 'the hash of a name depends on nothing else' if not glob else f'the hash of a name depends on {sorted(glob)}', key='strhash')


def table(ctx, rep, sym):
    canon, rvars = text(ctx, 'Narsese_CanonicalCopulas'), text(ctx, 'Narsese_RuleTableVars')
    where = 'src/Narsese.h'
    seen = {}
    for n, c in sym.items():
        if c is None:
            rep.notes.append(f'{n} is not a character constant: not decided')
            continue
        seen.setdefault(c, []).append(n)
        if canon is not None:
            rep.ob(canon.count(c) == 1 and len(c) == 1, 'symbols', where, f'{n} is {c}, once in the list of connectors' if canon.count(c) == 1 else f'{n}, {c!r}, is {canon.count(c)} times in the list of connectors', key=f'listed {n}')
    for c, ns in seen.items():
        rep.ob(len(ns) == 1, 'symbols', where, f'{c} is {ns[0]} only' if len(ns) == 1 else f'{" and ".join(ns)} have the same symbol {c!r}', key=f'symbol {c} {ns}')
    if canon is not None:
        dup = {c for c in canon if canon.count(c) > 1}
        rep.ob(not dup, 'symbols', where, 'no connector is listed twice' if not dup else f'{sorted(dup)} listed twice', key=f'dup {sorted(dup)}')
        if rvars is not None:
            both = set(rvars) & set(canon)
            rep.ob(not both and len(set(rvars)) == len(rvars), 'symbols', where, 'rule variables are no connectors' if not both else f'{sorted(both)} are rule variables and connectors', key='rulevars')
    rep.count('connectors', len(seen))


def check(ctx):
    rep = Report('C13', ctx, 'Extraction of decision tables by abstract interpretation: what one pass of the reading loop writes for which characters, what is printed for which symbol, which shape of term is printed how, and how tokens become tree positions. '
                 'The tables are composed and compared: every notation is read as its connector, every symbol is printed in a notation that is read as it, every printed shape is read as the same tree.',
                 ['strtok, strncpy, strcmp, fputs behave as in C99', 'names of atoms do not contain characters of the notation'])
    sym = symbols(ctx)
    table(ctx, rep, sym)
    rd = reader(ctx, rep, sym)
    printer(ctx, rep, sym, rd)
    shape(ctx, rep, sym, rd)
    tree(ctx, rep, sym)
    skipping(ctx, rep)
    prefixed(ctx, rep)
    atoms(ctx, rep, sym)
    return rep
