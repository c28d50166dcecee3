"""C14: variables are bound consistently and only where allowed."""
import itertools
from ..core import *
from ..loops import find_loops, covers
from ..models import Ev, compatible
from .c16 import STABLE, code, value, result

FUNCTIONAL = {'Variable_isVariable', 'Variable_isQueryVariable', 'Variable_isDependentVariable', 'Variable_isIndependentVariable', 'Variable_hasVariable', 'Term_ExtractSubterm', 'Term_Equal', 'Narsese_copulaEquals',
              'Narsese_hasAtomValue', 'Narsese_getAtomValue', 'Narsese_IsSimpleAtom', 'Term_HasAtom', 'Narsese_AtomicTermIndex', 'Narsese_AtomicTerm'}
STABLE14 = STABLE | {'term_index', 'HTatoms'}
KINDS = {'Variable_isIndependentVariable': '$', 'Variable_isDependentVariable': '#', 'Variable_isQueryVariable': '?'}


def loc(f):
    return f'{f.file}:{f.line} ({f.name})'


def arg(f, k):
    return ('arg', f.name, k, f.params[k].split(':')[1])


def params_of(p, f, typ):
    return [k for k, v in enumerate(f.params) if p.types.canon(f.vars[v]).replace(' ', '').startswith(typ)]


def counter(st, iv):
    """the counter's value within the pass"""
    return next((t for a in st.facts for t in subterms(a) if len(t) == 3 and t[0] == 'phi' and t[2] == ('v', iv)), None)


def holds(e, st, v):
    a, pol = e.truth_atom(v)
    k = e.known_truth(st, a)
    return None if k is None else k == pol


class Hooks:
    """marks what one pass of a loop did, and collects the passes"""
    def __init__(self, on=None):
        self.back, self.calls, self.stores, self.enters = [], [], [], []
        self.on = on

    def mark(self, st, *m):
        st.facts[('mark',) + m] = True

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        self.back.append((f, ins, set(body), st.copy()))
        for a in [a for a in st.facts if a[0] == 'mark']:
            del st.facts[a]

    def on_enter(self, e, st, f, head, body, ctx):
        self.enters.append((f, head, set(body), st.copy()))


def marks(st, kind):
    return [a[2:] for a in st.facts if a[0] == 'mark' and a[1] == kind]


def engine(ctx, h, K=600, **kw):
    return Engine(ctx.prog, ctx.summ, ctx.known, K=K, hooks=h, functional=FUNCTIONAL, stable=STABLE14, split={'Substitution'}, **kw)


def strip(v):
    while isinstance(v, tuple) and v and v[0] in ('cast', 'trunc'):
        v = v[-1] if v[0] == 'cast' else v[1]
    return v


def sweeps(f, size):
    """counters of loops over all positions of a term: [(loop, counter)]"""
    out = []
    for L in find_loops(f):
        for v in L.ivs:
            if covers(L, v, 0, size)[0]:
                out.append((L, v))
    return out


def atom_at(t):
    """(owner, position) when the value is an atom of a term: owner ('arg', value) or ('mem', path)"""
    if t[0] == 'ld' and t[1][0] == 'idx' and t[1][1][0] == 'fld' and t[1][1][2] == 'atoms':
        return ('mem', t[1][1][1]), t[1][2]
    if t[0] == 'el' and t[1][0] == 'fld' and t[1][2] == 'atoms':
        return ('val', t[1][1]), t[2]
    return None


def content(v):
    """what a functional call was given: path for loads through pointers, value otherwise"""
    if v[0] == '*':
        v = v[1]
    if v[0] == 'ld':
        return ('mem', v[1])
    return ('val', v)


# ------------------------------------------------------------------------------------------------ kinds
def kinds(ctx, rep):
    """the predicates that tell variables from other atoms, and the kinds apart"""
    names = ['$1', '#1', '?1', '$x', '#', '$', '?', 'a', 'ab', '^op', '_1', '']
    n = 0
    for fn, c in KINDS.items():
        f = ctx.prog.fn(fn)
        h = Hooks()
        e = engine(ctx, h)
        bad = None
        for st, rv in e.run(fn):
            for nm in [None] + names:
                chars = (nm or '') + '\0\0'

                def leaf(t, nm=nm, chars=chars):
                    if t == arg(f, 0):
                        return 0 if nm is None else 5
                    if t[0] == 'ld' and t[1][0] == 'idx' and t[1][1][0] == 'idx' and t[1][1][1] == ('v', 'Narsese_atomNames'):
                        k, ch = Ev(leaf)(t[1][1][2]), Ev(leaf)(t[1][2])
                        if k != 4:
                            return None
                        return ord(chars[ch]) if ch in (0, 1) else None
                    return None
                ev = Ev(leaf)
                if not compatible(ev, st.facts):
                    continue
                n += 1
                want = nm is not None and len(nm) > 1 and nm[0] == c
                got = ev(rv)
                if got is None or bool(got) != want:
                    bad = bad or f'{fn} may answer {got if got is None else bool(got)} for ' + (f'the atom named "{nm}"' if nm is not None else 'no atom')
        rep.ob(not bad, 'variable kinds', loc(f), bad or f'exactly the names of at least two characters starting with {c} are of this kind', key=f'kind {fn}')
    f = ctx.prog.fn('Variable_isVariable')
    h = Hooks()
    e = engine(ctx, h)
    bad = None
    for st, rv in e.run('Variable_isVariable'):
        for k in [None] + list(KINDS):
            def leaf(t):
                if t[0] == 'call' and t[1] in KINDS and t[2][0] == arg(f, 0):
                    return t[1] == k
                return None
            ev = Ev(leaf)
            if compatible(ev, st.facts):
                n += 1
                got = ev(rv)
                if got is None or bool(got) != (k is not None):
                    bad = f'Variable_isVariable may answer wrongly for an atom that is {"no variable" if k is None else "only " + k}'
    rep.ob(not bad, 'variable kinds', loc(f), bad or 'a variable is what is of one of the three kinds', key='kind Variable_isVariable')
    rep.count('situations', n)


# ------------------------------------------------------------------------------------------------ unification
class Bind(Hooks):
    def on_store(self, e, st, f, ins, path, val, ctx):
        x = path
        if x[0] == 'idx' and x[1][0] == 'fld' and x[1][2] == 'map':
            self.mark(st, 'bind', strip(x[2]), val)
            self.stores.append((f, ins))
        elif any(y[0] == 'fld' and y[2] == 'map' for y in prefixes(path)) and x[0] != 'v':
            self.mark(st, 'bind', ('?',), val)
            self.stores.append((f, ins))


def prefixes(p):
    while True:
        yield p
        if p[0] in ('fld', 'idx'):
            p = p[1]
        else:
            return


def unify(ctx, rep):
    p = ctx.prog
    f = p.fn('Variable_Unify2')
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    term = params_of(p, f, 'Term*')
    tru = params_of(p, f, 'Truth')
    flag = [k for k, v in enumerate(f.params) if p.types.canon(f.vars[v]) in ('bool', '_Bool')]
    if len(term) != 2 or len(tru) != 1 or len(flag) != 1:
        raise BrokenAnalysis('signature of Variable_Unify2 changed')
    gp, sp = ('d', arg(f, term[0])), ('d', arg(f, term[1]))
    END = code(ctx, 'SET_TERMINATOR')
    h = Bind()
    e = engine(ctx, h)
    exits = e.run(f.name)
    sw = sweeps(f, size)
    rep.expect('sweep of the unification', len(sw), 1)
    SIT = list(itertools.product(['none', 'plain', '$', '#', '?'], [0, 1, None], [0, 1], ['no', 'same', 'other'], ['variable', 'end', 'term'],
                                 [(1, 0, 0, 0, 0), (0, 1, 1, 1, 0), (0, 0, 1, 1, 0), (0, 1, 0, 1, 0), (0, 1, 1, 0, 0), (0, 1, 1, 1, 1)]))
    bad, n, passes = {}, 0, 0

    def judge(st, L, iv):
        nonlocal n
        pos = counter(st, iv)
        binds = marks(st, 'bind')
        isg = lambda t: atom_at(t) == (('mem', gp), pos)
        iss = lambda t: atom_at(t) == (('mem', sp), pos)

        def sub(t):
            return t[0] == 'call' and t[1] == 'Term_ExtractSubterm' and content(t[2][0]) == ('mem', sp) and t[2][1] == pos

        def slot(t):
            """the entry of the map that belongs to the atom of the pattern (before this pass wrote it)"""
            return (t[0] == 'el' and isg(strip(t[2])) and not isatoms(t[1])) or (t[0] == 'ld' and t[1][0] == 'idx' and t[1][1][0] == 'fld' and t[1][1][2] == 'map' and isg(strip(t[1][2])))

        def isatoms(x):
            return x[0] == 'fld' and x[2] == 'atoms'
        for s in SIT:
            kind, eq, only, bound, root, (conf0, hg, hs, unit, gone) = s
            g = {'none': 0, 'plain': 40, '$': 1, '#': 10, '?': 19}[kind]

            def leaf(t):
                if isg(t):
                    return g
                if iss(t):
                    return 0 if eq is None else g if eq else 41
                if t == arg(f, flag[0]):
                    return only
                if t[0] == 'call':
                    if t[1] in KINDS or t[1] == 'Variable_isVariable':
                        x = t[2][0]
                        if isg(x):
                            return kind in '$#?' if t[1] == 'Variable_isVariable' else kind == KINDS[t[1]]
                        a = atom_at(x)
                        if a and a[0][0] == 'val' and sub(a[0][1]) and a[1] == ('c', 0):
                            # which kind of variable the subterm is does not matter
                            return (root == 'variable') if t[1] == 'Variable_isVariable' else (False if root != 'variable' else None)
                        return None
                    if t[1] == 'Narsese_copulaEquals':
                        a = atom_at(t[2][0])
                        if a and a[0][0] == 'val' and sub(a[0][1]) and a[1] == ('c', 0) and t[2][1] == END:
                            return root == 'end'
                        return None
                    if t[1] == 'Term_Equal':
                        x, y = (z[1] if z[0] == '*' else z for z in t[2][:2])
                        if (slot(x) and sub(y)) or (slot(y) and sub(x)):
                            return bound == 'same'
                        return None
                    if t[1] == 'Narsese_hasAtomValue':
                        return hg if isg(t[2][0]) else hs if iss(t[2][0]) else None
                    if t[1] == 'strcmp' and all(mentions(x, isg) or mentions(x, iss) for x in t[2][:2]):
                        return 0 if unit else 1
                a = atom_at(t)
                if a and a[1] == ('c', 0) and a[0][0] == 'val' and slot(a[0][1]):
                    return 0 if bound == 'no' else 77
                if t == ('fld', arg(f, tru[0]), 'confidence'):
                    return 0.0 if conf0 else 0.5
                if t[0] == 'fld' and t[2] == 'confidence' and t[1][0] == 'call' and t[1][1] == 'Truth_Analogy':
                    return 0.0 if gone else 0.3
                return None
            if not compatible(Ev(leaf), st.facts):
                continue
            n += 1
            isvar = kind in ('$', '#', '?') and (not only or kind == '?')
            what = None
            if any(not isg(b[0]) for b in binds):
                what = 'a binding is stored for something other than the atom of the pattern at this position'
            elif kind == 'none':
                if binds:
                    what = 'a binding is stored where the pattern has no atom'
            elif isvar:
                if not binds:
                    what = 'a variable of the pattern is passed over without being bound'
                elif any(not sub(b[1]) for b in binds):
                    what = 'a variable is not bound to the subterm of the other term at the same position'
                elif bound == 'other':
                    what = 'a variable already bound to a different term is bound again'
                elif kind == '?' and root == 'variable':
                    what = 'a query variable is bound to a variable'
                elif root == 'end':
                    what = 'a variable is bound to the terminator of a set'
            else:
                if binds:
                    what = 'an atom is bound that is no variable of the kinds asked for'
                elif not eq and (conf0 or not hg or not hs or not unit or gone):
                    what = 'differing atoms are taken as matching' + ('' if conf0 or not (hg and hs and unit) else ' although nothing of the similarity is left')
            if what:
                bad.setdefault(what, s)
    for g, ins, body, st in h.back:
        for L, iv in sw:
            if body == set(L.body):
                passes += 1
                judge(st, L, iv)
    rep.expect('passes of the unification', passes, 3)
    rep.ob(not bad, 'unification', loc(f), '; '.join(sorted(bad)) if bad else f'in {n} situations of {passes} passes: variables of the kinds asked for are bound once, to the subterm at their position; everything else has to be equal', key='unification ' + '; '.join(sorted(bad)))
    rep.count('situations', n)
    # success only after the whole term was compared
    ok = True
    for st, rv in exits:
        s = strip(e.proj(rv, ('fld', 'success'))) if rv is not None else None
        if s in (('c', 0), ('zero',)):
            continue
        done = any(holds(e, st, e.mk(op, x, bound)) is False for L, iv in sw for _, op, bound, _ in L.ivs[iv][2] for x in (e.read(st, ('v', iv)), counter(st, iv)) if x is not None)
        ok = ok and done
    rep.ob(ok, 'unification', loc(f), 'success is reported only after every position was compared' if ok else 'success may be reported before every position was compared', key='unification complete')
    rep.expect('exits of the unification', len(exits), 2)
    # the variants hand the terms on in their roles
    for g in p.funcs.values():
        if g.name == f.name or 'Substitution' not in str(g.ret) or len(params_of(p, g, 'Term*')) != 2:
            continue
        mine = params_of(p, g, 'Term*')
        calls = []

        class C(Hooks):
            def on_call(self, e, st, ff, ins, name, vals, cx):
                if name in p.funcs and 'Substitution' in str(p.funcs[name].ret) and ff.name == g.name:
                    t = params_of(p, p.funcs[name], 'Term*')
                    fl = [k for k, v in enumerate(p.funcs[name].params) if p.types.canon(p.funcs[name].vars[v]) in ('bool', '_Bool')]
                    calls.append((ins, [vals[k] for k in t], [vals[k] for k in fl]))
        engine(ctx, C()).run(g.name)
        own = [k for k, v in enumerate(g.params) if p.types.canon(g.vars[v]) in ('bool', '_Bool')]
        ok = bool(calls) and all(t == [arg(g, k) for k in mine] for _, t, _ in calls) and (own or all(x == ('c', 0) for _, _, fl in calls for x in fl))
        rep.ob(ok, 'unification variants', loc(g), 'pattern and term keep their roles, all variable kinds are bound' if ok else 'the roles of pattern and term, or the variable kinds asked for, change on the way to the unification', key=f'variant {g.name}')


# ------------------------------------------------------------------------------------------------ substitution
def term_override(f, vals):
    return vals[0], strip(vals[1]), vals[2]


class Subst(Hooks):
    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'Term_OverrideSubterm':
            tgt = vals[0][1] if vals[0][0] == 'a' else ('d', vals[0])
            src = e.read(st, vals[2][1]) if vals[2][0] == 'a' else e.read(st, ('d', vals[2]))
            self.mark(st, 'put', tgt, strip(vals[1]), src)
            self.calls.append((ins, tgt))

    def on_store(self, e, st, f, ins, path, val, ctx):
        if any(y[0] == 'fld' and y[2] == 'atoms' for y in prefixes(path)):
            self.mark(st, 'write', path, val)


def substitute(ctx, rep):
    p = ctx.prog
    f = p.fn('Variable_ApplySubstitute')
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    t_, s_ = params_of(p, f, 'Term'), params_of(p, f, 'Substitution')
    t_ = [k for k in t_ if '*' not in p.types.canon(f.vars[f.params[k]])]
    if len(t_) != 1 or len(s_) != 1:
        raise BrokenAnalysis('signature of Variable_ApplySubstitute changed')
    T = arg(f, t_[0])
    sptr = '*' in p.types.canon(f.vars[f.params[s_[0]]])
    S = arg(f, s_[0])
    h = Subst()
    e = engine(ctx, h)
    exits = e.run(f.name)
    sw = sweeps(f, size)
    rep.expect('sweep of the substitution', len(sw), 1)
    bad, n, passes = set(), 0, 0
    targets = {t for _, t in h.calls}
    for g, ins, body, st in h.back:
        for L, iv in sw:
            if body != set(L.body):
                continue
            passes += 1
            pos = counter(st, iv)
            isg = lambda t: atom_at(t) == (('val', T), pos)

            def slot(t):
                return (t[0] == 'el' and t[1] == ('fld', S, 'map') and isg(strip(t[2]))) or (t[0] == 'ld' and t[1][0] == 'idx' and t[1][1] == ('fld', ('d', S), 'map') and isg(strip(t[1][2])))
            puts = marks(st, 'put')
            if marks(st, 'write'):
                bad.add('an atom is written directly')
            for var, bound in itertools.product([0, 1], [0, 1]):
                def leaf(t):
                    if t[0] == 'call' and t[1] == 'Variable_isVariable' and isg(t[2][0]):
                        return var
                    if t[0] == 'call' and t[1] in KINDS and isg(t[2][0]):
                        return None if var else 0
                    if isg(t):
                        return 5 if var else 40
                    a = atom_at(t)
                    if a and a[1] == ('c', 0) and a[0][0] == 'val' and slot(a[0][1]):
                        return 77 if bound else 0
                    if a and a[1] == ('c', 0) and a[0][0] == 'mem' and a[0][1][0] == 'idx' and a[0][1][1] == ('fld', ('d', S), 'map') and isg(strip(a[0][1][2])):
                        return 77 if bound else 0
                    return None
                if not compatible(Ev(leaf), st.facts):
                    continue
                n += 1
                if var and bound:
                    if not puts:
                        bad.add('a bound variable of the term (as it was given) is not replaced')
                    elif any(q[1] != pos for q in puts):
                        bad.add('a binding is inserted at a position other than that of its variable')
                    elif any(not (slot(q[2]) or (q[2][0] == 'ld' and slot(q[2]))) for q in puts):
                        bad.add('what is inserted is not the binding of the variable at that position')
                elif puts:
                    bad.add('something other than a bound variable of the term (as it was given) is replaced')
    rep.expect('passes of the substitution', passes, 2)
    # starts from the given term, returns the one inserted into
    for g, head, body, st in h.enters:
        if any(body == set(L.body) for L, _ in sw):
            for t in targets:
                if strip(e.read(st, t)) != T:
                    bad.add('the result does not start as the given term')
    for st, rv in exits:
        if rv is not None and not any(rv == e.read(st, t) for t in targets):
            bad.add('what is returned is not the term in which the variables were replaced')
    rep.ob(not bad, 'substitution', loc(f), '; '.join(sorted(bad)) if bad else f'{n} situations of {passes} passes: exactly the bound variables of the given term are replaced, each by its binding', key='substitution ' + '; '.join(sorted(bad)))
    rep.count('situations', n)


# ------------------------------------------------------------------------------------------------ introduction
class Intro(Hooks):
    def __init__(self, p):
        super().__init__()
        self.p = p
        self.sides = {}

    def table(self, v):
        return v[1] if v[0] == 'a' else ('d', v)

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name == 'HashTable_Get':
            self.mark(st, 'get', self.table(vals[0]), strip(vals[1]), rv)
        elif name == 'newVarID':
            path = vals[0][1] if vals[0][0] == 'a' else ('d', vals[0])
            self.mark(st, 'fresh', path, vals[1], rv)

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'HashTable_Set':
            self.mark(st, 'set', self.table(vals[0]), strip(vals[1]), strip(vals[2]))
        elif isinstance(name, str) and name.startswith('countHigherOrder'):
            tp = vals[0][1] if vals[0][0] == 'a' else ('d', vals[0])
            self.sides.setdefault(self.table(vals[1]), set()).add(e.read(st, tp))
            self.mark(st, 'counted', self.table(vals[1]))
        elif name == 'Term_OverrideSubterm':
            tgt = vals[0][1] if vals[0][0] == 'a' else ('d', vals[0])
            src = e.read(st, vals[2][1]) if vals[2][0] == 'a' else e.read(st, ('d', vals[2]))
            self.mark(st, 'put', tgt, strip(vals[1]), src)
            self.calls.append((ins, tgt))

    def on_store(self, e, st, f, ins, path, val, ctx):
        if any(y[0] == 'fld' and y[2] == 'atoms' for y in prefixes(path)):
            self.mark(st, 'write', path, val)


def varname(v):
    """(kind character, number term) of the atomic term made from a three-character name"""
    if v[0] == 'call' and v[1] in ('Narsese_AtomicTerm', 'Narsese_AtomicTermIndex'):
        a = v[2][0]
        if a[0] == '*':
            a = a[1]
        if a[0] == 'arr' and len(a[2]) == 3 and strip(a[2][2]) == ('c', 0):
            k, d = strip(a[2][0]), strip(a[2][1])
            if d[0] == 'c':
                return k, ('c', d[1] - 48)
            if d[0] == 'b' and d[1] == '+' and d[3][0] == 'c' and d[3][1] >= 48:
                return k, strip(d[2]) if d[3][1] == 48 else ('b', '+', strip(d[2]), ('c', d[3][1] - 48))
    return None


def before(e, h, f, v):
    """what a local that a loop only reads was when the loop was entered: [(value, state)]"""
    out = []
    if v and v[0] == 'phi' and v[2][0] == 'v':
        for g, head, body, st in h.enters:
            if g.name == f.name and head == v[1][1] and not any(x.k in ('set', 'call') and x.a is not None and root_of(x.a) == root_of(v[2]) for x in f.ins if x.id in body):
                out.append((e.read(st, v[2]), st))
    return out


def helpers(ctx, fn):
    """functions called by one of the program, also through helpers that are not among its known ones"""
    out, todo = set(), [fn]
    while todo:
        for i in ctx.prog.funcs[todo.pop()].ins:
            if i.k == 'call' and isinstance(i.b, str) and i.b not in out:
                out.add(i.b)
                if i.b in ctx.prog.funcs and i.b not in ctx.known:
                    todo.append(i.b)
    return out


def introduction(ctx, rep):
    p = ctx.prog
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    for fn, two in (('Variable_IntroduceImplicationVariables2', True), ('Variable_IntroduceConjunctionVariables', False)):
        f = p.fn(fn)
        T = arg(f, 0)
        h = Intro(p)
        e = engine(ctx, h)
        exits = e.run(fn)
        sw = sweeps(f, size)
        rep.expect(f'sweep of {fn}', len(sw), 1)
        bad, n, passes = set(), 0, 0
        sides = {}
        for t, vs in h.sides.items():
            if len(vs) != 1:
                bad.add('one table counts the atoms of several terms')
            v = next(iter(vs))
            if v == T:
                sides[t] = 'all'
            elif v[0] == 'call' and v[1] == 'Term_ExtractSubterm' and content(v[2][0]) == ('val', T) and v[2][1] in (('c', 1), ('c', 2)):
                sides[t] = 'left' if v[2][1] == ('c', 1) else 'right'
        # tables filled on every path (another one, of the arguments of operations, is filled in some cases only)
        always = None
        for g, head, body, st in h.enters:
            if any(body == set(L.body) for L, _ in sw):
                c = {m[0] for m in marks(st, 'counted')}
                always = c if always is None else always & c
        always = always or set()
        if any(s not in {sides[t] for t in always & set(sides)} for s in set(sides.values())):
            bad.add('the atoms of a side are not always counted')
        if two and not ({'left', 'right'} <= set(sides.values())) or not two and 'all' not in sides.values():
            bad.add('the atoms of the sides are not counted')
        targets = {t for _, t in h.calls}
        for g, ins, body, st in h.back:
            for L, iv in sw:
                if body != set(L.body):
                    continue
                passes += 1
                pos = counter(st, iv)
                if pos is None:
                    continue
                A = lambda t: atom_at(strip(t)) == (('val', T), pos)
                gets, puts, sets, fresh = marks(st, 'get'), marks(st, 'put'), marks(st, 'set'), marks(st, 'fresh')
                if marks(st, 'write'):
                    bad.add('an atom is written directly')
                if any(not A(x[1]) for x in gets + sets):
                    bad.add('occurrences or variable numbers are looked up for something other than the atom (as given) at this position')
                counts = {}
                ids = []
                for t, k, rv in gets:
                    if t in sides:
                        counts[rv] = t
                    else:
                        ids.append((t, rv))
                tabs = sorted(set(counts.values()), key=str)
                # the table of operation arguments (counted from the left side only in some cases) plays no role for the kind
                for combo in itertools.product([0, 1, 2], repeat=len(tabs)):
                    val = dict(zip(tabs, combo))
                    if any(t not in always and val[t] and any(u in always and sides[u] == sides[t] and val[u] != val[t] for u in tabs) for t in tabs):
                        continue
                    for known in (0, 3):
                        for nid in (0, 4):
                            def leaf(t):
                                if t in counts:
                                    return val[counts[t]]
                                if any(t == rv for _, rv in ids):
                                    return known
                                if any(t == x[2] for x in fresh):
                                    return nid
                                return None
                            ev = Ev(leaf)
                            if not compatible(ev, st.facts):
                                continue
                            n += 1
                            if not puts:
                                continue
                            L_ = max([val[t] for t in tabs if sides[t] == 'left' and t in always] or [0])
                            R_ = max([val[t] for t in tabs if sides[t] == 'right' and t in always] or [0])
                            C_ = max([val[t] for t in tabs if sides[t] == 'all' and t in always] or [0])
                            for tgt, at, src in puts:
                                nm = varname(src)
                                if at != pos:
                                    bad.add('a variable is inserted at a position other than that of the atom')
                                    continue
                                if nm is None:
                                    bad.add('what is inserted is not one of the numbered variables')
                                    continue
                                kind, num = ev(nm[0]), nm[1]
                                both = two and L_ and R_
                                if two and not both and max(L_, R_) < 2 or not two and C_ < 2:
                                    bad.add('an atom that occurs only once is replaced by a variable')
                                elif kind is None or chr(kind) != ('$' if both else '#'):
                                    bad.add('an atom shared by both sides becomes a dependent variable' if both else 'an atom of one side only becomes an independent variable')
                                v = ev(num)
                                old = [x for x in ids if x[1] == num]
                                new = [x for x in fresh if x[2] == num]
                                if known and old:
                                    pass
                                elif new and not known:
                                    if not all(x[0] == tgt and (ev(x[1]) is not None and bool(ev(x[1])) == (chr(kind) == '$' if kind else False)) for x in new):
                                        bad.add('the variable chosen need not be absent from the term, or is chosen for the other kind')
                                    if not any(x[2] == num and any(y[0] == x[0] for y in ids) for x in sets):
                                        bad.add('the number of the variable is not remembered for further occurrences of the atom')
                                    if v == 0:
                                        bad.add('a variable number is used although none was free')
                                elif known:
                                    bad.add('a further occurrence of an atom gets another variable')
                                else:
                                    bad.add('the number of a new variable is not known to be unused in the term')
        rep.expect(f'passes of {fn}', passes, 2)
        for g, head, body, st in h.enters:
            if any(body == set(L.body) for L, _ in sw):
                for t in targets:
                    if strip(e.read(st, t)) != T:
                        bad.add('the result does not start as the given term')
        rep.ob(not bad, 'introduction of variables', loc(f), '; '.join(sorted(bad)) if bad else f'{n} situations of {passes} passes: a repeated atom becomes one unused variable of the right kind everywhere, others stay', key=f'introduction {fn} ' + '; '.join(sorted(bad)))
        rep.count('situations', n)
    # only simple atoms are counted, each occurrence once
    intro = ('Variable_IntroduceImplicationVariables2', 'Variable_IntroduceConjunctionVariables')
    for f in [g for g in [p.funcs[x] for x in sorted(p.reach(intro)) if x in p.funcs] if g.name in ctx.known and g.name not in intro and params_of(p, g, 'HashTable*') and any(h == 'HashTable_Set' for h in helpers(ctx, g.name))]:
        bad = set()
        n = 0

        class Cnt(Hooks):
            def on_call(self, e, st, ff, ins, name, vals, cx):
                nonlocal n
                if name == 'HashTable_Get':
                    pass
                if name == 'HashTable_Set' and ff.name == f.name:
                    n += 1
                    k = strip(vals[1])
                    if result(e, st, 'Narsese_IsSimpleAtom', lambda a: a[0] == k) is not True:
                        bad.add('an atom is counted that may be a connector or variable')
                    g = [m for m in marks(st, 'get') if m[1] == k and m[0] == vals[0]]
                    v = strip(vals[2])
                    for old in (0, 1, 5):
                        ev = Ev(lambda t: old if any(t == m[2] for m in g) else None)
                        if compatible(ev, st.facts) and (not g or ev(v) != old + 1):
                            bad.add('the count of an atom does not grow by one')

            def after_call(self, e, st, ff, ins, name, vals, rv, cx):
                if name == 'HashTable_Get' and ff.name == f.name:
                    self.mark(st, 'get', vals[0], strip(vals[1]), rv)
        engine(ctx, Cnt(), K=64, relevant=lambda a: mentions(a, lambda t: t[0] in ('call', 'ret') and ('IsSimpleAtom' in str(t[1:3]) or 'HashTable' in str(t[1:3])))).run(f.name)
        if n:
            rep.ob(not bad, 'introduction of variables', loc(f), '; '.join(sorted(bad)) or 'only simple atoms are counted, each occurrence once', key=f'counting {f.name}' + '; '.join(sorted(bad)))
    # unused numbers
    f = p.fn('newVarID')
    h = Hooks()
    e = engine(ctx, h)
    bad = set()
    ls = find_loops(f)
    ivs = [(L, v) for L in ls for v in L.ivs if covers(L, v, 1, 10)[0]]
    if not ivs:
        bad.add('not all numbers from 1 to 9 are tried')
    kinds_ = {k: v for k, v in enumerate(f.params) if p.types.canon(f.vars[v]) in ('bool', '_Bool')}
    for st, rv in e.run('newVarID'):
        if rv == ('c', 0):
            continue
        x = strip(rv)
        ok = False
        for a, tv in st.facts.items():
            y, t2 = (a[2], not tv) if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0) else (a, tv)
            if y[0] == 'call' and y[1] == 'Term_HasAtom' and t2 is False and content(y[2][0]) == ('mem', ('d', arg(f, 0))):
                nm = varname(y[2][1])
                if nm and nm[1] == x:
                    cases = [(v, s2.facts) for v, s2 in before(e, h, f, nm[0])] or [(nm[0], {})]
                    for vi, (kc, more) in itertools.product((0, 1), cases):
                        ev = Ev(lambda t: vi if t in [arg(f, k) for k in kinds_] else None)
                        if compatible(ev, st.facts) and compatible(ev, more):
                            ok = ev(kc) == ord('$' if vi else '#')
                            if not ok:
                                break
        if not ok:
            bad.add('a number is handed out whose variable (of the kind asked for) may occur in the term')
    rep.ob(not bad, 'introduction of variables', loc(f), '; '.join(sorted(bad)) or 'a free number is one whose variable of the kind asked for does not occur in the term', key='newVarID ' + '; '.join(sorted(bad)))


# ------------------------------------------------------------------------------------------------ normalization
def normalization(ctx, rep):
    p = ctx.prog
    f = p.fn('Variable_Normalize')
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    tp = ('d', arg(f, 0))

    class N(Hooks):
        def on_store(self, e, st, ff, ins, path, val, cx):

            if path[0] == 'idx' and path[1] == ('fld', tp, 'atoms'):
                self.mark(st, 'rename', path[2], val)
                self.calls.append(ins)
            elif path[0] == 'idx' and path[1][0] == 'v' and strip(val) == ('c', 1):
                self.mark(st, 'done', path[1], path[2])
    h = N()
    e = engine(ctx, h)
    e.run(f.name)
    bad = set()
    passes = 0
    rep.expect('renaming stores', len(h.calls), 1)
    loops_ = find_loops(f)

    def named(e, body, val):
        """names (or atoms of them) made before the renaming loop and only read in it"""
        out = []
        direct = val[0] == 'phi'
        v = val if direct else val[2][0] if val[0] == 'call' and val[1] in ('Narsese_AtomicTerm', 'Narsese_AtomicTermIndex') else None
        v = v[1] if v and v[0] == '*' else v
        for x, st in before(e, h, f, v):
            out.append((varname(x if direct else ('call', val[1], (x,))), st))
        return out
    outer = [L for L, v in sweeps(f, size)]
    if not outer:
        bad.add('not every position is visited')
    for g, ins, body, st in h.back:
        ren = marks(st, 'rename')
        done = marks(st, 'done')
        inner = any(set(L.body) == body and any(x.id in L.body for x in h.calls) for L in loops_) and not any(set(L.body) < body and any(x.id in L.body for x in h.calls) for L in loops_)
        if not inner:
            continue
        passes += 1
        for k, val in ren:
            old = [t for a in st.facts for t in subterms(a) if (lambda q: q and q[0] == ('mem', tp) and q[1] == k)(atom_at(t) if len(t) == 3 else None)]
            cases = [(nm, st)] if (nm := varname(val)) else named(e, body, val)
            if not cases or any(c[0] is None for c in cases):
                bad.add('a variable is not renamed to one of the numbered variables')
                continue
            same = False
            for a, tv in st.facts.items():
                if a[0] == 'b' and a[1] == '==' and tv and (a[2] in old or a[3] in old):
                    other = a[3] if a[2] in old else a[2]
                    q = atom_at(other)
                    if q and q[0] == ('mem', tp) and q[1] != k or other in old:
                        if other not in old:
                            same = other
            if not same:
                bad.add('an atom is renamed without being known to be the variable at hand')
                continue
            isvar = result(e, st, 'Variable_isVariable', lambda a: a[0] == same)
            kinds_ = {c: result(e, st, fn, lambda a: a[0] == same) for fn, c in KINDS.items()}
            if isvar is not True and not any(v for v in kinds_.values()):
                bad.add('an atom is renamed that may be no variable')
            for (nm, s2), c in itertools.product(cases, '$#?'):
                def leaf(t, c=c):
                    if t[0] == 'call' and t[2] and t[2][0] == same:
                        if t[1] == 'Variable_isVariable':
                            return True
                        if t[1] in KINDS:
                            return KINDS[t[1]] == c
                    return None
                ev = Ev(leaf)
                if compatible(ev, s2.facts):
                    if ev(nm[0]) != ord(c):
                        bad.add('a variable is renamed to one of another kind')
                    nxt = e.mk('+', nm[1], ('c', 1))
                    if s2 is not st and not any(strip(v) == nxt for v in s2.env.values()):
                        bad.add('a number is used without being taken: the next variable gets the same one')
            # what was renamed already is left alone
            flags = {d[0] for d in done if d[1] == k}
            if not flags:
                bad.add('a renamed position is not remembered')
            for fl in flags:
                left = False
                for a, tv in st.facts.items():
                    if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0) and tv and a[2][0] == 'el' and a[2][2] == k and mentions(a[2][1], lambda t: t == fl):
                        left = True
                if not left:
                    bad.add('a position renamed before may be renamed again: two different variables become one')
    rep.expect('passes of the renaming', passes, 1)
    # every new variable takes a number of its own: the counter of its kind grows whenever the renaming loop is entered
    rep.ob(not bad, 'normalization', loc(f), '; '.join(sorted(bad)) or f'{passes} passes: all occurrences of one variable get the same name of the same kind, positions renamed before stay', key='normalization ' + '; '.join(sorted(bad)))


# ------------------------------------------------------------------------------------------------ use
def roles(ctx, rep):
    """a substitution is applied to a term that comes from where the pattern came from"""
    p = ctx.prog
    n = 0
    for f in p.funcs.values():
        if not any(i.k == 'call' and i.b == 'Variable_ApplySubstitute' for i in f.ins):
            continue
        src = {}       # object -> objects it was made from

        def objs(x, out):
            """objects named in an expression: variables and places reached through them"""
            if isinstance(x, tuple):
                if x and x[0] == 'v' and len(x) == 2:
                    out.add(x[1])
                    return
                for y in x:
                    objs(y, out)
            elif isinstance(x, list):
                for y in x:
                    objs(y, out)

        def base(x):
            while isinstance(x, tuple) and x[0] in ('fld', 'idx', 'd', 'a', 'cast'):
                x = x[2] if x[0] == 'cast' else x[1]
            return x[1] if isinstance(x, tuple) and x[0] == 'v' else None
        holders = {n for r in p.types.records.values() for n, t in r if p.types.arrlen(t) is not None or p.types.canon(t) in p.types.records}

        def ref(v):
            return isinstance(v, tuple) and len(v) == 2 and v[0] == 'v' and v[1] in f.vars and p.types.canon(f.vars[v[1]]).replace(' ', '') == 'Concept*'
        for i in f.ins:
            if i.k == 'set':
                if ref(i.a) and not ref(i.b) or ref(i.b) and not ref(i.a) or isinstance(i.a, tuple) and i.a[0] == 'fld' and i.a[2] not in holders:
                    continue   # which concept is referred to says nothing about where terms come from
                b = base(i.a)
                if b:
                    objs(i.b, src.setdefault(b, set()))
            elif i.k == 'call' and isinstance(i.b, str):
                if i.b.startswith('Variable_Unify'):
                    continue
                o = set()
                for k, a in enumerate(i.c):
                    if i.b == 'Variable_ApplySubstitute' and k > 0:
                        continue
                    objs(a, o)
                if i.a is not None and base(i.a):
                    src.setdefault(base(i.a), set()).update(o)
                for a in i.c:
                    if isinstance(a, tuple) and a and a[0] == 'a' and base(a) in f.vars and i.b in ('Term_OverrideSubterm', 'Narsese_OperationSequenceAppendLeftNested'):
                        src.setdefault(base(a), set()).update(o)
        heads = {v for v in f.vars if p.types.canon(f.vars[v]) in ('int', 'bool', '_Bool', 'long', 'double', 'char', 'unsigned int')}

        def close(x):
            seen, st = set(), [x] if isinstance(x, str) else list(x)
            while st:
                y = st.pop()
                if y in seen or y in heads or y in p.globals:
                    continue
                seen.add(y)
                st += list(src.get(y, ()))
            return seen
        unis = {}
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str) and i.b.startswith('Variable_Unify') and i.a is not None:
                t = params_of(p, p.funcs[i.b], 'Term*')
                unis.setdefault(base(i.a), []).append((i, i.c[t[0]], i.c[t[1]]))
        for i in f.ins:
            if i.k != 'call' or i.b != 'Variable_ApplySubstitute':
                continue
            o = set()
            objs(i.c[0], o)
            to = close(o)
            s = set()
            objs(i.c[1], s)
            for u in close(s):
                for ui, g, sp in unis.get(u, ()):
                    go, so = set(), set()
                    objs(g, go)
                    objs(sp, so)
                    gc, sc = close(go), close(so)
                    ok = bool(to & gc)
                    n += 1
                    rep.ob(ok, 'substitutions are applied to the pattern', p.loc(f, i), f'the term shares its origin with the pattern unified at line {ui.line}' if ok else
                           f'the substitution of the unification at line {ui.line} is applied to a term that does not come from its pattern {show(g)}', key=f'roles {f.name} {show(i.c[0])} {show(g)}' if not ok else None)
    rep.expect('applied substitutions', n, 5)
    rep.count('applied_substitutions', n)


def check(ctx):
    rep = Report('C14', ctx, 'Every path through one pass of the loops of unification, substitution, variable introduction and renaming is abstractly interpreted and compared with a decision table: for every '
                 'combination of atom kind, equality, earlier binding, binding root, occurrence counts and remembered variable that is compatible with the branch facts of the path, what the path '
                 'stores or inserts has to be what the table allows; all positions are covered by induction over the sweeping counter. The predicates of the variable kinds are checked by the same method against their definition by name.',
                 ['hash tables return what was last stored under an equal key (C07)', 'an atom index stands for one name (C13)'])
    kinds(ctx, rep)
    unify(ctx, rep)
    substitute(ctx, rep)
    introduction(ctx, rep)
    normalization(ctx, rep)
    roles(ctx, rep)
    return rep
