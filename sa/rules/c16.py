"""C16: only admissible knowledge enters memory."""
import os
from ..core import *
from ..loops import find_loops, covers
from .c20 import counters
from .c24 import FRAME as FRAME24

# processing a belief does not change what event it is (type, time and truth of the event handed in)
FRAME = dict(FRAME24, Memory_ProcessNewBeliefEvent=True)

FUNCTIONAL = {'NAL_AtomAppearsTwice', 'NAL_NestedHOLStatement', 'NAL_InhOrSimHasDepVar', 'NAL_JunctionNotRightNested', 'InvalidSetOp', 'NAL_IndepOrDepVariableAppearsOnce',
              'DeclarativeImplicationWithLefthandConjunctionWithLefthandOperation', 'NAL_HOLStatementComponentHasInvalidInhOrSim', 'NAL_DeclarativeImplicationWithoutIndependentVar',
              'Term_Equal', 'Term_ExtractSubterm', 'Variable_hasVariable', 'Narsese_HasSimpleAtom', 'Narsese_isOperation', 'Narsese_copulaEquals', 'Memory_containsEvent',
              'Memory_containsBeliefOrGoal', 'Memory_FindConceptByTerm', 'Event_Equal', 'Event_EqualTermEqualStampLessConfidentThan', 'Stamp_Equal', 'Truth_Equal'}
STABLE = {'Narsese_atomNames', 'Narsese_atomValues', 'Narsese_atomHasValue', 'Narsese_atomMeasurementNames', 'atomsCounter', 'atomsAppeared'}   # the atom table only grows; the last two are scratch of one filter
FILTERS = {'NAL_AtomAppearsTwice': 'no atom repeated within a statement', 'NAL_NestedHOLStatement': 'no implication within an implication', 'NAL_InhOrSimHasDepVar': 'no dependent variable in a plain statement',
           'NAL_JunctionNotRightNested': 'conjunctions and disjunctions left-nested', 'InvalidSetOp': 'no intersection of two sets of the same kind',
           'NAL_IndepOrDepVariableAppearsOnce': 'no variable that occurs only once', 'DeclarativeImplicationWithLefthandConjunctionWithLefthandOperation': 'no operation at the left end of a declarative precondition'}
INTRO = {'NAL_HOLStatementComponentHasInvalidInhOrSim': 'no ill-typed component after introducing variables'}
GOAL, BELIEF = ('c', 1), ('c', 2)


def code(ctx, name):
    v = ctx.macro(name)
    if v is None:
        raise BrokenAnalysis(f'no symbol {name}')
    v = v.strip()
    return ('c', ord(v[-2]) if v.startswith("'") else int(v))


def value(ctx, name):
    v = ctx.macro(name)
    if v is None:
        raise BrokenAnalysis(f'no setting {name}')
    return float(v.strip().strip('()'))


def truthy(e, st, v):
    """True / False / None: what the path knows about a condition's value"""
    atom, pol = e.truth_atom(v)
    k = e.known_truth(st, atom)
    return None if k is None else k == pol


def result(e, st, name, match):
    """what the path knows about the result of calls of name whose arguments satisfy match"""
    out = None
    for a, tv in st.facts.items():
        x = a
        if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0):
            x, tv = a[2], not tv
        elif a[0] == 'b' and a[1] == '==' and a[3][0] == 'c':
            continue
        if x[0] == 'call' and x[1] == name and match(x[2]):
            if tv is False:
                return False
            out = tv
    return out


def pathto(v):
    return v[1] if v[0] == 'a' else ('d', v)


class Admission(Obligations):
    """what is known where events are queued or processed as beliefs"""
    def __init__(self, cx):
        super().__init__()
        self.cx = cx
        self.minc, self.minp = value(cx, 'MIN_CONFIDENCE'), value(cx, 'MIN_PRIORITY')

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def prio(self, vals, name):
        f = self.cx.prog.funcs[name]
        for k, v in enumerate(f.params):
            if f.vars[v] == 'double' and k < len(vals):
                return vals[k]
        return None

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if not isinstance(name, str):
            return
        if name in ('Memory_addCyclingEvent', 'Memory_ProcessNewBeliefEvent') and name in e.p.funcs:
            xp = pathto(vals[0])
            c = e.read(st, ('fld', ('fld', xp, 'truth'), 'confidence'))
            ok = e.known_truth(st, e.mk('<', c, ('f', self.minc))) is False
            self.rec(ctx, f, ins, (name, 'confidence'), ok, e.p.loc(f, ins), 'the confidence reaches the minimum' if ok else f'{name} is given an event whose confidence may be below the minimum')
            pr = self.prio(vals, name)
            if pr is not None:
                # priority <= minimum is excluded
                ok = e.known_truth(st, e.mk('<', ('f', self.minp), pr)) is True
                self.rec(ctx, f, ins, (name, 'priority'), ok, e.p.loc(f, ins), 'the priority is above the minimum' if ok else f'{name} is given an event whose priority may not be above the minimum')
        if name == 'Memory_AddEvent' and 'DerivedEvent' in f.name or name == 'Memory_AddEvent' and any('DerivedEvent' in c[0] for c in ctx):
            xp = pathto(vals[0])
            t = e.read(st, ('fld', xp, 'term'))
            for g, what in FILTERS.items():
                r = result(e, st, g, lambda a: a[0] == ('*', t))
                ok = r is False
                if os.environ.get('DBG') == g:
                    print(t, list(st.facts.items()))
                self.rec(ctx, f, ins, ('filter', g), ok, e.p.loc(f, ins), what if ok else f'a conclusion is added without being known to satisfy: {what}', False)
        if name == 'NAL_DerivedEvent' and f.name == name or name == 'NAL_DerivedEvent' and any(c[0] == name for c in ctx):
            t = vals[0]
            src = [a for a in subterms(t) if a and a[0] in ('ret', 'call') and any(isinstance(y, str) and y.startswith('Variable_Introduce') for y in a)]
            if src:
                g = 'NAL_HOLStatementComponentHasInvalidInhOrSim'
                ok = result(e, st, g, lambda a: a[0] == ('*', t)) is False
                self.rec(ctx, f, ins, ('filter', g), ok, e.p.loc(f, ins), INTRO[g] if ok else 'a conclusion with introduced variables is added although a component may be ill-typed')
                if any(isinstance(y, str) and 'Implication' in y for a in src for y in a):
                    g = 'NAL_DeclarativeImplicationWithoutIndependentVar'
                    ok = result(e, st, g, lambda a: a[0] == ('*', t)) is False
                    self.rec(ctx, f, ins, ('filter', g), ok, e.p.loc(f, ins), 'a declarative implication has an independent variable' if ok else 'a declarative implication may be added without independent variable')
        if name == 'PriorityQueue_Push':
            q = vals[0]
            names = [n for n in ('cycling_belief_events', 'cycling_goal_events') if mentions(q, lambda t: t == ('v', n))]
            if names:
                # the event: what is asked about in the containment tests
                typ = self.types(st)
                r = result(e, st, 'Memory_containsBeliefOrGoal', lambda a: True)
                ok = r is False
                self.rec(ctx, f, ins, ('duplicate', 'belief or goal'), ok, e.p.loc(f, ins), 'not the belief or goal of its concept' if ok else 'an event is queued without being known to differ from the belief or goal of its concept')
                if names == ['cycling_belief_events'] or 'belief' in typ:
                    r = result(e, st, 'Memory_containsEvent', lambda a: mentions(a[0], lambda t: t == ('v', 'cycling_belief_events')) or a[0][0] == '*')
                    ok = r is False
                    self.rec(ctx, f, ins, ('duplicate', names[0], 'queue'), ok, e.p.loc(f, ins), 'not in the belief queue' if ok else 'an event is queued without being known to be absent from the belief queue')

    def types(self, st):
        out = set()
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '==' and a[3] in (GOAL, BELIEF) and mentions(a[2], lambda t: t[0] == 'fld' and t[2] == 'type') and tv:
                out.add('belief' if a[3] == BELIEF else 'goal')
        return out

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name == 'Memory_addCyclingEvent':
            xp = pathto(vals[0])
            t = e.read(st, ('fld', xp, 'type'))
            if e.known_truth(st, e.mk('==', t, GOAL)) is not False and e.known_truth(st, e.mk('==', t, BELIEF)) is not True:
                st.facts[('mark', 'queued', e.read(st, ('fld', xp, 'occurrenceTime')))] = True


class Exits:
    """collects back edges of one function"""
    def __init__(self):
        self.back = []

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        if not ctx:
            self.back.append((ins, body, st.copy()))


def walk(ctx, fn, K=600, relevant=None):
    h = Exits()
    e = Engine(ctx.prog, ctx.summ, ctx.known, K=K, hooks=h, functional=FUNCTIONAL, stable=STABLE, relevant=relevant)
    return e, h, e.run(fn)


def filters(ctx, rep):
    """each filter that passes a term has examined what it stands for"""
    p = ctx.prog
    IMPL, EQUI, CONJ, DISJ, INH, SIM, PROD = (code(ctx, n) for n in ('IMPLICATION', 'EQUIVALENCE', 'CONJUNCTION', 'DISJUNCTION', 'INHERITANCE', 'SIMILARITY', 'PRODUCT'))

    def is_(e, st, a, c):
        """does the path know atom value a to be copula c"""
        r = None
        for x, tv in st.facts.items():
            y = x
            if x[0] == 'b' and x[1] == '==' and x[3] == ('c', 0):
                y, tv = x[2], not tv
            if y[0] == 'call' and y[1] == 'Narsese_copulaEquals' and y[2][0] == a and y[2][1] == c:
                return tv
        return r

    def call_is(e, st, name, a):
        return result(e, st, name, lambda x: x and x[0] == a)

    def where(f):
        return f'{f.file}:{f.line} ({f.name})'

    def report(f, ok, what, bad, n):
        rep.ob(ok, 'a filter passes only what it stands for', where(f), what if ok else bad, key=f'filter {f.name}')
        rep.count('filter_paths', n)

    def term_of(f):
        return ('d', ('arg', f.name, 0, f.params[0].split(':')[1])) if p.types.is_ptr(p.types.canon(f.vars[f.params[0]])) else ('arg', f.name, 0, f.params[0].split(':')[1])

    def passes(e, st, rv):
        """may this exit report that nothing is wrong"""
        return rv is not None and truthy(e, st, rv) is not True

    def sweep(f, h):
        """back edges of the outermost loop that goes over the term: (state, counter value of the iteration)"""
        ls = [L for L in find_loops(f)]
        outer = [L for L in ls if not any(L.body < M.body for M in ls)]
        out = []
        for ins, body, st in h.back:
            for L in outer:
                if body == L.body or set(body) == set(L.body):
                    for v in [v for v in counters(f, L) if indexes(f, h, v)]:
                        x = st.env.get(('v', v))
                        if x is not None:
                            out.append((st, x, L))
        return out, outer

    def indexes(f, h, v):
        return any(mentions(tuple(st.facts), lambda t: len(t) == 3 and t[0] == 'idx' and t[2][0] == 'phi' and t[2][2] == ('v', v)) for _, _, st in h.back)

    def atom(e, st, f, i):
        return e.read(st, ('idx', ('fld', term_of(f), 'atoms'), i))

    # --- every atom looked at
    def per_atom(fn, clause, what):
        f = p.funcs.get(fn)
        if f is None:
            return
        e, h, ex = walk(ctx, fn, relevant=lambda t: True)
        it, outer = sweep(f, h)
        if not it:
            return      # not a sweep any more: the use of the filter is still checked
        which = {(frozenset(L.body), v) for st, x, L in it for v in counters(f, L) if indexes(f, h, v)}
        n = [0]

        class Passed(Exits):
            def key(self, st):
                return frozenset(a for a in st.facts if a[0] == 'mark')

            def on_backedge(self, e, st, f, ins, body, ctx, live):
                for B, v in which:
                    if B == frozenset(body) and not ctx:
                        n[0] += 1
                        if not clause(e, st, f, e.mk('-', st.env[('v', v)], ('c', 1))):
                            st.facts[('mark', 'passed over')] = True
        e = Engine(ctx.prog, ctx.summ, ctx.known, K=600, hooks=Passed(), functional=FUNCTIONAL, stable=STABLE, relevant=lambda t: True)
        bad = None
        for st, rv in e.run(fn):
            if ('mark', 'passed over') in st.facts and passes(e, st, rv):
                bad = 'an atom is passed over although the path does not know: ' + what
        report(f, bad is None, what, bad, n[0])

    def noimplication(e, st, f, i):
        a = atom(e, st, f, i)
        if is_(e, st, a, IMPL) is False and is_(e, st, a, EQUI) is False:
            return True
        # one of the loop's variables was counted up and is still below two
        for q, v in st.env.items():
            if q[0] == 'v' and v[0] == 'b' and v[1] == '+' and v[3] == ('c', 1) and v[2] != i:
                if e.known_truth(st, e.mk('<', v, ('c', 2))) is True:
                    return True
        return False

    size = value(ctx, 'COMPOUND_TERM_SIZE_MAX')

    def junction(e, st, f, i):
        a = atom(e, st, f, i)
        if is_(e, st, a, CONJ) is False and is_(e, st, a, DISJ) is False:
            return True
        for x in subterms(tuple(st.facts)):
            if len(x) == 3 and x[0] == 'idx' and mentions(x[1], lambda t: t[0] == 'fld' and t[2] == 'atoms') and linear(x[2], i) == (2, 2):
                b = atom(e, st, f, x[2])
                if is_(e, st, b, CONJ) is False and is_(e, st, b, DISJ) is False:
                    return True
        for x, tv in st.facts.items():       # no right child
            if x[0] == 'b' and x[1] == '<' and x[3][0] == 'c' and tv is False and ((linear(x[2], i) == (2, 2) and x[3][1] >= size) or (linear(x[2], i) == (1, 0) and x[3][1] * 2 + 2 >= size)):
                return True
        return False

    def occurs_again(e, st, f, i):
        a = atom(e, st, f, i)
        if call_is(e, st, 'Variable_isIndependentVariable', a) is False and call_is(e, st, 'Variable_isDependentVariable', a) is False:
            return True
        for x, tv in st.facts.items():
            if x[0] == 'b' and x[1] == '==' and tv and a in x[2:4]:
                b = x[2] if x[3] == a else x[3]
                j = index_of(b)
                if j is not None and e.known_truth(st, e.mk('==', i, j)) is False:
                    return True
        return False

    def index_of(v):
        if v[0] == 'ld':
            v = v[1]
        return v[2] if v[0] == 'idx' else None

    def linear(v, i):
        """v as (a, b) meaning a*i + b"""
        if v == i:
            return (1, 0)
        if v[0] == 'c':
            return (0, v[1])
        if v[0] == 'b' and v[1] in '+-*':
            x, y = linear(v[2], i), linear(v[3], i)
            if x is None or y is None:
                return None
            if v[1] == '+':
                return (x[0] + y[0], x[1] + y[1])
            if v[1] == '-':
                return (x[0] - y[0], x[1] - y[1])
            if x[0] == 0:
                return (x[1] * y[0], x[1] * y[1])
            if y[0] == 0:
                return (y[1] * x[0], y[1] * x[1])
        return None

    per_atom('NAL_NestedHOLStatement', noimplication, 'it is no implication, or the first one')
    per_atom('NAL_JunctionNotRightNested', junction, 'it is no junction, or its right part is none')
    per_atom('NAL_IndepOrDepVariableAppearsOnce', occurs_again, 'it is no variable, or occurs at another place too')

    # --- decided by the copula
    def per_exit(fn, clause, what):
        f = p.funcs.get(fn)
        if f is None:
            return
        e, h, ex = walk(ctx, fn, relevant=lambda t: True)
        bad, n = None, 0
        for st, rv in ex:
            if not passes(e, st, rv):
                continue
            n += 1
            if not clause(e, st, f, rv):
                if os.environ.get('DBG') == fn:
                    print(rv, [(k, v) for k, v in st.facts.items()][:40])
                bad = 'a term passes although the path does not know: ' + what
        report(f, bad is None, what, bad, n)

    def is_stmt(e, st, f, cs):
        a = atom(e, st, f, ('c', 0))
        return not all(is_(e, st, a, c) is False for c in cs)

    def nodep(e, st, f, rv):
        if not is_stmt(e, st, f, (INH, SIM)):
            return True
        def m(a):
            return len(a) >= 3 and a[2] != ('c', 0)
        if rv[0] == 'call' and rv[1] == 'Variable_hasVariable' and m(rv[2]):
            return True
        return result(e, st, 'Variable_hasVariable', m) is False

    def indep(e, st, f, rv):
        if not is_stmt(e, st, f, (IMPL, EQUI)):
            return True
        def m(a):
            return len(a) >= 4 and a[1] != ('c', 0) and a[2] == ('c', 0) and a[3] == ('c', 0)
        if rv[0] == 'not' or rv[0] == 'b':
            return mentions(rv, lambda t: t[0] == 'call' and t[1] == 'Variable_hasVariable' and m(t[2]))
        return result(e, st, 'Variable_hasVariable', m) is True

    def twosets(e, st, f, rv):
        a = [atom(e, st, f, ('c', k)) for k in range(7)]
        if is_(e, st, a[0], INH) is False:
            return True
        x = code(ctx, 'EXT_INTERSECTION'), code(ctx, 'EXT_SET')
        y = code(ctx, 'INT_INTERSECTION'), code(ctx, 'INT_SET')
        left = any(is_(e, st, b, c) is False for b, c in ((a[1], x[0]), (a[3], x[1]), (a[4], x[1])))
        right = any(is_(e, st, b, c) is False for b, c in ((a[2], y[0]), (a[5], y[1]), (a[6], y[1])))
        return left and right

    def twice(e, st, f, rv):
        a = atom(e, st, f, ('c', 0))
        prod = all(is_(e, st, atom(e, st, f, ('c', k)), PROD) is True for k in (1, 3, 4))
        if is_stmt(e, st, f, (INH, SIM)) and not prod and not any(L_phi(e, f, x) for x in st.facts):
            return False
        if is_stmt(e, st, f, (IMPL, EQUI)) and not (is_(e, st, a, INH) or is_(e, st, a, SIM)):
            return call_false_equal(e, st)
        return True

    def L_phi(e, f, x):
        """the path went through the sweep to its end"""
        n = ('c', int(value(ctx, 'COMPOUND_TERM_SIZE_MAX')))
        return x[0] == 'b' and x[1] in ('<', '==') and n in x[2:4]

    def call_false_equal(e, st):
        return result(e, st, 'Term_Equal', lambda a: True) is False

    def marked(e, st, f, i):
        a = atom(e, st, f, i)
        seen = None
        for x, tv in st.facts.items():
            if x[0] == 'b' and x[1] == '==' and tv is False:
                for y, z in ((x[2], x[3]), (x[3], x[2])):
                    if index_of(y) == a:
                        seen = (y, z)
        if seen is None:
            return False
        simple = call_is(e, st, 'Narsese_IsSimpleAtom', a)
        if simple is False:
            return True
        y = seen[0][1] if seen[0][0] == 'ld' else seen[0]
        return e.read(st, y) == seen[1]

    per_exit('NAL_InhOrSimHasDepVar', nodep, 'it is no inheritance or similarity, or has no dependent variable')
    per_exit('NAL_DeclarativeImplicationWithoutIndependentVar', indep, 'it is no implication, or has an independent variable')
    per_exit('InvalidSetOp', twosets, 'it is no inheritance with the intersection of two sets of that kind')
    per_exit('NAL_AtomAppearsTwice', twice, 'atoms of a statement were compared, or the sides of an implication')
    per_atom('NAL_AtomAppearsTwice', marked, 'it did not appear before, and is remembered if simple')

    def ill(e, st, f, rv):
        t = term_of(f)
        a = atom(e, st, f, ('c', 0))
        comp = [c for c in (IMPL, EQUI, CONJ, DISJ) if is_(e, st, a, c) is True]
        rec = [x for x in list(st.facts) + [rv] for x in subterms(x) if x and x[0] == 'call' and x[1] == f.name]
        if comp:
            subs = {x[2][0] for x in rec if result(e, st, f.name, lambda y: y == x[2]) is False or rv == x or mentions(rv, lambda y: y == x)}
            return len(subs) >= 2
        if any(is_(e, st, a, c) is None for c in (IMPL, EQUI, CONJ, DISJ)):
            return False
        first = ('arg', f.name, 1, f.params[1].split(':')[1]) if len(f.params) > 1 else None
        if first and truthy(e, st, first) is True:
            return True
        if not is_stmt(e, st, f, (INH, SIM)):
            return True
        if result(e, st, 'Term_Equal', lambda y: True) is not False:
            return False
        # not both sides variables
        subs = {}
        for x in subterms(tuple(st.facts)):
            if x and x[0] == 'call' and x[1] in ('Variable_isIndependentVariable', 'Variable_isDependentVariable') and len(x) >= 3:
                subs.setdefault(x[2][0], set()).add((x[1], call_is(e, st, x[1], x[2][0])))
        if not any({('Variable_isIndependentVariable', False), ('Variable_isDependentVariable', False)} <= s for s in subs.values()):
            return False
        if result(e, st, 'Variable_hasVariable', lambda y: y[0] == ('*', e.read(st, t)) and y[1] != ('c', 0) and y[2] != ('c', 0)) is not True and on(ctx, 'HOL_COMPONENT_NO_VAR_IS_INVALID_FILTER'):
            return False
        if result(e, st, 'Narsese_HasSimpleAtom', lambda y: y[0] == ('*', e.read(st, t))) is not True and on(ctx, 'HOL_COMPONENT_NO_ATOMIC_IS_INVALID_FILTER'):
            return False
        return True
    per_exit('NAL_HOLStatementComponentHasInvalidInhOrSim', ill, 'every component is a well-typed statement')


def on(ctx, name):
    v = ctx.macro(name)
    return v is not None and v.strip() in ('true', '1')


def equality(ctx, rep):
    """events are the same exactly if truth, time, term and stamp are"""
    p = ctx.prog
    for fn, less in (('Event_Equal', False), ('Event_EqualTermEqualStampLessConfidentThan', True)):
        f = p.funcs.get(fn)
        if f is None:
            continue
        e, h, ex = walk(ctx, fn, relevant=lambda t: True)
        bad = None
        for st, rv in ex:
            t = truthy(e, st, rv)
            def r(name):
                v = result(e, st, name, lambda a: True)
                if v is None and mentions(rv, lambda x: x[0] == 'call' and x[1] == name):
                    v = '?'
                return v
            occ = None
            for a, tv in st.facts.items():
                if a[0] == 'b' and a[1] == '==' and mentions(a[2], lambda x: x[0] == 'fld' and x[2] == 'occurrenceTime') and mentions(a[3], lambda x: x[0] == 'fld' and x[2] == 'occurrenceTime'):
                    occ = tv
            if occ is None and mentions(rv, lambda x: x[0] == 'fld' and x[2] == 'occurrenceTime'):
                occ = '?'
            parts = dict(term=r('Term_Equal'), stamp=r('Stamp_Equal'), time=occ)
            if not less:
                parts['truth'] = r('Truth_Equal')
                if parts['truth'] is None and mentions((tuple(st.facts), rv), lambda x: x[0] == 'fld' and x[2] == 'confidence'):
                    parts['truth'] = '?'
            if t is not False:
                miss = [k for k, v in parts.items() if v in (None, False)]
                if miss:
                    bad = f'events may count as the same although {miss[0]} is not compared or differs'
            if t is not True and t is not None:
                if not any(v in (False, '?') for v in parts.values()) and not (less or any(a[0] == 'b' and mentions(a, lambda x: x[0] == 'fld' and x[2] in ('confidence', 'frequency')) for a in st.facts)):
                    bad = 'events may count as different although truth, time, term and stamp are the same'
        rep.ob(bad is None, 'duplicates are recognised', f'{f.file}:{f.line} ({fn})', bad or 'compares term, stamp, time and truth', key=fn)
    f = p.funcs.get('Memory_containsBeliefOrGoal')
    if f is not None:
        e, h, ex = walk(ctx, f.name, relevant=lambda t: True)
        bad, n = None, 0
        ev = ('d', ('arg', f.name, 0, f.params[0].split(':')[1]))
        for st, rv in ex:
            if truthy(e, st, rv) is True:
                continue
            n += 1
            c = [x for x in subterms(tuple(st.facts)) if x and x[0] == 'call' and x[1] == 'Memory_FindConceptByTerm']
            if not c:
                bad = 'an event counts as new without its concept being looked up'
                continue
            if truthy(e, st, c[0]) is False:
                continue
            ty = e.read(st, ('fld', ev, 'type'))
            et = e.known_truth(st, e.mk('==', e.read(st, ('fld', ev, 'occurrenceTime')), ('c', -1)))
            if e.known_truth(st, e.mk('==', ty, BELIEF)) is True:
                slot = 'belief' if et is True else 'belief_spike' if et is False else None
            elif e.known_truth(st, e.mk('==', ty, GOAL)) is True:
                slot = 'goal_spike'
            elif e.known_truth(st, e.mk('==', ty, BELIEF)) is False and e.known_truth(st, e.mk('==', ty, GOAL)) is False:
                continue
            else:
                slot = None
            if slot is None:
                bad = 'an event counts as new although the path does not tell which place to compare with'
                continue
            sp = ('fld', ('d', c[0]), slot)
            gone = e.known_truth(st, e.mk('==', e.read(st, ('fld', sp, 'type')), ('c', 0)))
            sv = e.read(st, sp)
            differs = any(result(e, st, g, lambda a: mentions(a, lambda t: t == sv or t == ('*', sv)) or mentions(a, lambda t: t[0] == 'fld' and t[2] == slot)) is False
                          for g in ('Event_Equal', 'Event_EqualTermEqualStampLessConfidentThan'))
            if gone is not True and not differs and not mentions(rv, lambda t: t[0] == 'fld' and t[2] == slot):
                bad = f'an event counts as new without being compared with the {slot} of its concept'
        rep.ob(bad is None, 'duplicates are recognised', f'{f.file}:{f.line} ({f.name})', bad or 'compares with the place for events of that kind', key=f.name)
    f = p.funcs.get('Memory_containsEvent')
    if f is not None:
        e, h, ex = walk(ctx, f.name, relevant=lambda t: True)
        bad = None
        if not h.back:
            bad = None
        for ins, body, st in h.back:
            if result(e, st, 'Event_Equal', lambda a: True) is not False:
                bad = 'an element is passed over without being compared'
        rep.ob(bad is None, 'duplicates are recognised', f'{f.file}:{f.line} ({f.name})', bad or 'compares with every element', key=f.name)


def goal_layers(ctx, rep):
    """a goal is queued only after all layers were searched"""
    p = ctx.prog
    f = p.funcs.get('Memory_addCyclingEvent')
    if f is None:
        return
    e, h, ex = walk(ctx, f.name, relevant=lambda t: True)
    n = int(value(ctx, 'CYCLING_GOAL_EVENTS_LAYERS'))
    ls = find_loops(f)
    for ins, body, st in h.back:
        for a, tv in list(st.facts.items()):
            for x in subterms(a):
                if x and x[0] == 'call' and x[1] == 'Memory_containsEvent' and mentions(x[2], lambda t: t == ('v', 'cycling_goal_events')):
                    idx = [y[2] for y in subterms(x[2]) if len(y) == 3 and y[0] == 'idx' and y[1] == ('v', 'cycling_goal_events')]
                    L = next((L for L in ls if set(L.body) == set(body)), None)
                    if L is None:
                        continue
                    cs = counters(f, L)
                    ok = any(j[0] == 'phi' and j[2][0] == 'v' and j[2][1] in cs for j in idx) and result(e, st, 'Memory_containsEvent', lambda z: z == x[2]) is False
                    for j in idx:
                        if j[0] == 'phi' and j[2][0] == 'v' and j[2][1] in L.ivs:
                            c = covers(L, j[2][1], 0, n)
                            if c[0] is False:
                                ok = False
                    rep.ob(ok, 'duplicates are recognised', p.loc(f, ins), 'every layer is searched' if ok else 'a layer of the goal queue may not be searched for the event', key='goal layers')
    calls = [i for i in f.ins if i.k == 'call' and i.b == 'Memory_containsEvent' and not mentions(tuple(i.c), lambda t: t == ('v', 'cycling_belief_events'))]
    helper = any(c not in ctx.known for c in p.callees(f.name))
    calls = calls or helper
    rep.ob(bool(calls), 'duplicates are recognised', f'{f.file}:{f.line} ({f.name})', 'the goal queues are searched' if calls else 'goals are queued without searching the goal queues', key='goal queues searched')


def check(ctx):
    rep = Report('C16', ctx, 'Abstract interpretation with path facts. Where events are queued or processed, the path knows confidence >= minimum and priority > minimum; where conclusions are added, '
                 'every well-formedness filter is known to have passed the very term that is added; each filter, on every path (and in every iteration of its sweep) that lets a term pass, has established '
                 'what it stands for; an event is queued only if it is known to differ from what is there; after a goal was queued its time is known not to be eternal.',
                 ['sweeps visit every atom (C20)', 'an assertion that fails ends the program'])
    p = ctx.prog
    minc = value(ctx, 'MIN_CONFIDENCE')
    roots = [r for r in ctx.roots() if any(i.k == 'call' and i.b in ('Memory_addCyclingEvent', 'Memory_ProcessNewBeliefEvent', 'PriorityQueue_Push', 'Memory_AddEvent', 'NAL_DerivedEvent') for i in p.funcs[r].ins)
             and r not in ('Cycle_ProcessBeliefEvents',)]
    need = set(FILTERS) | set(INTRO) | {'NAL_DeclarativeImplicationWithoutIndependentVar', 'Memory_containsEvent', 'Memory_containsBeliefOrGoal'}
    rel = lambda t: mentions(t, lambda x: (x[0] == 'fld' and len(x) == 3 and x[2] in ('type', 'confidence')) or (x[0] == 'f' and x[1] in (minc, value(ctx, 'MIN_PRIORITY'))) or (x[0] == 'call' and x[1] in need))
    res, stats = expand(ctx, lambda: Admission(ctx), roots, depth=1, K=48, relevant=rel, engine_kw=dict(functional=FUNCTIONAL, stable=STABLE, frame=FRAME))
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'admission', where, detail, key=f'{skey} {where.split("(")[-1].rstrip(")")}')
    rep.count('sites', len({(w, s) for _, _, w, _, s in res}))
    rep.count('abstract_states', stats['states'])
    # goals are never eternal
    for fn in roots:
        f = p.funcs[fn]
        if not any(i.k == 'call' and i.b == 'Memory_addCyclingEvent' for i in f.ins):
            continue
        h = Admission(ctx)
        e = Engine(p, ctx.summ, ctx.known, K=48, relevant=lambda t: rel(t) or mentions(t, lambda x: x[0] == 'fld' and len(x) == 3 and x[2] == 'occurrenceTime'), hooks=h, functional=FUNCTIONAL, stable=STABLE, frame=FRAME)
        bad = n = 0
        for st, rv in e.run(fn):
            for a in st.facts:
                if a[0] == 'mark':
                    n += 1
                    if e.known_truth(st, e.mk('==', a[2], ('c', -1))) is not False:
                        bad += 1
        rep.ob(not bad, 'goals are never eternal', f'{f.file}:{f.line} ({fn})', 'every queued goal is known to have an occurrence time' if not bad else 'a goal may be queued that is eternal', key=f'eternal goal {fn}')
        rep.count('goal_exits', n)
    filters(ctx, rep)
    equality(ctx, rep)
    goal_layers(ctx, rep)
    rep.expect('admission sites', rep.counts['sites'], 6)
    return rep
