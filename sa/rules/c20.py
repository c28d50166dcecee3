"""C20: sweeps over operations, tables, queues and selections visit every used element."""
from ..core import *
from ..loops import FLIP, NEGOP, defs_in, step_of, expr_vars

# functions whose loops shift or re-order elements instead of sweeping over them (decided by C21)
SHIFTERS = ('Table_Add', 'Table_Remove', 'PriorityQueue_Push', 'PriorityQueue_PopMax', 'PriorityQueue_PopMin', 'PriorityQueue_PopAt')


class Defs:
    """definition expansion: locals with one definition stand for what they were defined as"""
    def __init__(self, f):
        self.f = f
        self.d = defs_in(f, range(len(f.ins)))
        self.memo = {}

    def x(self, e, depth=0, keep=()):
        if depth > 25:
            return e
        if isinstance(e, tuple):
            e = uncast(e)
            if len(e) == 2 and e[0] == 'v' and e[1] in self.f.vars and e[1] not in self.f.params and e[1] not in keep:
                ds = self.d.get(e[1], [])
                if len(ds) == 1 and ds[0].k == 'set' and ('v', e[1]) != ds[0].b:
                    return self.x(ds[0].b, depth + 1, keep)
                return e
            t = tuple(self.x(y, depth + 1, keep) if isinstance(y, tuple) else y for y in e)
            if len(t) == 2 and t[0] == 'd' and t[1] and t[1][0] == 'a':
                return t[1][1]
            if len(t) == 2 and t[0] == 'a' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'd':
                return t[1][1]
            return t
        return e


class Sweep:
    def __init__(self, f, L, v, kind, base, off, ins):
        self.f, self.L, self.v, self.kind, self.base, self.off, self.ins = f, L, v, kind, base, off, ins


def counters(f, L):
    """induction variables of the loop, decrements that compensate a removal allowed: var -> (step, step ins, [decrement ins])"""
    out = {}
    for v, ds in defs_in(f, L.body).items():
        st = [(step_of(i), i) for i in ds]
        if any(s is None for s, _ in st):
            continue
        ups = [i for s, i in st if s == 1]
        downs = [i for s, i in st if s == -1]
        if len(ups) == 1 and len(ups) + len(downs) == len(st):
            out[v] = (1, ups[0], downs)
        elif len(downs) == 1 and len(st) == 1:
            out[v] = (-1, downs[0], [])
    return out


def accesses(p, f, D, ctrs):
    """(ins, kind, container expr, counter var, offset)"""
    out = []

    def walk(e, i):
        if isinstance(e, list):
            for y in e:
                walk(y, i)
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == 'idx' and len(e) == 3:
            c = classify(p, f, D, e[1])
            v, off = counter_of(e[2], ctrs, f, D)
            if c and v:
                out.append((i, c[0], c[1], v, off))
        for y in e[1:]:
            walk(y, i)
    for i in f.ins:
        for e in (i.a, i.b, i.c):
            walk(e, i)
        if i.k == 'call' and isinstance(i.b, str) and i.b in ('OccurrenceTimeIndex_GetKthNewestElement',):
            v, off = counter_of(i.c[1], ctrs, f, D)
            if v:
                out.append((i, 'recent', D.x(('d', i.c[0])), v, off))
    return out


def counter_of(e, ctrs, f, D):
    e = uncast(e)
    if e[0] == 'v' and e[1] in ctrs:
        return e[1], 0
    if e[0] == 'v':
        x = D.x(e, keep=ctrs)
        if x != e:
            return counter_of(x, ctrs, f, D)
    if e[0] == 'b' and e[1] in '+-':
        a, b = uncast(e[2]), uncast(e[3])
        if a[0] == 'v' and b[0] == 'c':
            v, o = counter_of(a, ctrs, f, D)
            return v, o + (b[1] if e[1] == '+' else -b[1]) if v else None
    return None, 0


def classify(p, f, D, base):
    b = D.x(base)
    if b[0] == 'fld' and b[2] == 'items':
        return 'queue', b[1]
    if b[0] == 'd' and b[1][0] == 'fld' and b[1][2] == 'items':
        return 'queue', b[1][1]
    if b[0] == 'fld' and b[2] == 'array':
        return 'table', b[1]
    if b[0] == 'fld' and b[2] == 'precondition_beliefs':
        return 'links', b
    if b[0] == 'fld' and b[2] == 'atoms':
        return 'atoms', b[1]
    if b[0] == 'v' and b[1] in ('operations', 'cycling_goal_events', 'selectedBeliefs', 'selectedGoals'):
        return b[1], b
    return None


BOUND_FIELD = {'queue': 'itemsAmount', 'table': 'itemsAmount', 'recent': 'itemsAmount'}
COUNT_OF = {'selectedBeliefs': 'beliefsSelectedCnt', 'selectedGoals': 'goalsSelectedCnt'}
INITS = {'Memory_INIT', 'Memory_ResetEvents', 'Memory_ResetConcepts', 'NAR_INIT'}      # completeness of the initialization is decided by C11


def bound_tests(f, L, v, D):
    """(br, op for staying, bound expr) of exit tests on the counter"""
    out = []
    for u, w in L.exits:
        i = f.ins[u]
        if i.k != 'br' or len(i.succ) != 2:
            continue
        e = uncast(i.a)
        if e[0] != 'b' or e[1] not in FLIP:
            continue
        a, b, op = uncast(e[2]), uncast(e[3]), e[1]
        if b == ('v', v):
            a, b, op = b, a, FLIP[op]
        if a != ('v', v):
            continue
        if i.succ[0] == w:
            op = NEGOP[op]
        out.append((u, op, b))
    return out


def init_of(f, L, v, preds):
    rd, entry = reaching(f, L.head, v, stop=L.body, _preds=preds)
    rd = {x for x in rd if x not in L.body}
    if entry or not rd:
        return None
    vals = {uncast(f.ins[x].b) if f.ins[x].k == 'set' else None for x in rd}
    return next(iter(vals)) if len(vals) == 1 else None


def pure_body(summ, f, L):
    """the loop only looks: no store outside locals, no call that changes anything"""
    for n in L.body:
        i = f.ins[n]
        if i.k == 'set':
            r = i.a
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if not (r[0] == 'v' and r[1] in f.vars):
                return False
        if i.k == 'call' and isinstance(i.b, str) and not quiet(summ, i.b):      # (calls through pointers in loops are comparison callbacks)
            return False
    return True


def quiet(summ, n):
    """changes nothing but cached hashes"""
    if summ.pure(n) or n == 'Globals_assert':
        return True
    if n not in summ.mod:
        return False
    return all(c[0] == 'Term' and c[1] in ('hash', 'hashed') for c in set(summ.mod[n]) | {x[1] for x in summ.pmod.get(n, ())})


def varies(summ, f, L, e, D, v, depth=0):
    """does the expression depend on the element visited or on anything the loop body assigns?"""
    x = D.x(e, keep={v})
    vs = set()
    expr_vars(x, vs)
    d = defs_in(f, L.body)
    if v in vs:
        return True
    for y in vs:
        if y not in d:
            continue
        c = d[y][0]
        if len(d[y]) == 1 and len(D.d[y]) == 1 and c.k == 'call' and isinstance(c.b, str) and quiet(summ, c.b) and depth < 3 and not any(varies(summ, f, L, a, D, v, depth + 1) for a in c.c):
            continue
        return True
    return False


def where_nil(f, e):
    """element is unused: its term starts with the empty atom"""
    e = uncast(e)
    if e[0] == 'b' and e[1] in ('!=', '=='):
        a, b = uncast(e[2]), uncast(e[3])
        return b == ('c', 0) and a[0] == 'idx' and a[1][0] == 'fld' and a[1][2] == 'atoms' and a[2] == ('c', 0)
    return e[0] == 'idx' and e[1][0] == 'fld' and e[1][2] == 'atoms' and e[2] == ('c', 0)


def check(ctx):
    rep = Report('C20', ctx, 'Loop-coverage analysis: every loop whose counter indexes a queue, a link table, the per-operation link tables, the operations, the goal layers, a selection, the recent '
                 'concepts or the atoms of a term is recognised on the control-flow graph; its counter must start at the first element, advance by one, be bounded by exactly the fill count (or '
                 'capacity) of the container it indexes, be stepped back when the current element is removed, and be left early only where no element is dropped (search without side effects, '
                 'a condition that does not concern the element, or the end of the registered operations).',
                 ['definition expansion: a local with a single definition stands for that definition', 'initialization loops are decided by C11, heap and table shifting loops by C21'])
    p = ctx.prog
    T = p.types
    n_ops = T.arrlen(p.globals['operations']['type'])
    n_links = T.arrlen(T.field_type('Concept', 'precondition_beliefs'))
    n_layers = T.arrlen(p.globals['cycling_goal_events']['type'])
    n_atoms = T.arrlen(T.field_type('Term', 'atoms'))
    depth = int(eval(ctx.macro('UNIFICATION_DEPTH').replace('/', '//'), {}))
    counted = {}
    for fn in sorted(p.funcs):
        f = p.funcs[fn]
        if fn in SHIFTERS or fn in INITS or fn == 'smallestGrandChild' or fn.startswith('RuleTable_'):
            continue
        Ls = find_loops(f)
        if not Ls:
            continue
        D = Defs(f)
        preds = f.preds()
        done = set()
        for L in Ls:
            cs = counters(f, L)
            for i, kind, base, v, off in accesses(p, f, D, cs):
                if i.id not in L.body or (L.head, v, kind, off, base) in done:
                    continue
                done.add((L.head, v, kind, off, base))
                counted[kind] = counted.get(kind, 0) + 1
                judge(ctx, rep, p, f, L, Ls, cs, kind, base, v, off, i, D, preds, dict(operations=n_ops, links=n_links, cycling_goal_events=n_layers, atoms=n_atoms, depth=depth))
            chain(ctx, rep, p, f, L, Ls, D, counted)
        fixed_links(ctx, rep, p, f, D)
    for k, v in counted.items():
        rep.count('loops_over_' + k, v)
    for k, n in dict(queue=7, table=7, links=2, operations=3, cycling_goal_events=4, selectedBeliefs=1, selectedGoals=1, recent=1, atoms=12, chain=5).items():
        rep.expect('loops over ' + k, counted.get(k, 0), n)
    return rep


def judge(ctx, rep, p, f, L, Ls, cs, kind, base, v, off, ins, D, preds, N):
    step, upd, downs = cs[v]
    name = f'{show(base)} by {v.split(":")[-1].split("@")[0]}'
    where = p.loc(f, f.ins[L.head])
    rule = f'the loop visits every element ({kind})'

    def fail(why):
        rep.ob(False, rule, where, f'{name}: {why}')
    tests = bound_tests(f, L, v, D)
    init = init_of(f, L, v, preds)
    if init is not None:
        init = D.x(init, keep={v} | {w for L2 in Ls for w in L2.ivs})
    if init is None:
        if not tests:
            return          # the counter belongs to another loop around the access
        rep.notes.append(f'{where}: start of {name} not recognised')
        return
    outer = any(L2 is not L and L.head in L2.body and init[0] == 'v' and init[1] in L2.ivs for L2 in Ls)
    if not tests:
        return fail('no exit test on the counter')
    u, op, b = tests[-1] if len(tests) == 1 else min(tests, key=lambda t: 0 if t[2][0] == 'c' or 'Amount' in str(t[2]) or 'Cnt' in str(t[2]) else 1)
    bx = D.x(b)
    # --- start and end
    if kind in ('queue', 'table', 'recent'):
        want = ('fld', base, BOUND_FIELD[kind])
        counts = {want}
    elif kind in COUNT_OF:
        counts = {('v', COUNT_OF[kind])}
    else:
        n = N[kind]
        counts = {('c', n)}
        if kind == 'atoms' and uses_index(p, f, L):
            counts = {('c', N['depth'])}
    low = 0
    if kind == 'links' and init == ('c', 1) and any(k2 == 'operations' and o2 == off - 1 and i2.id in L.body for i2, k2, b2, v2, o2 in accesses(p, f, D, {v: 0})):
        low = 1         # a loop over real operations: index 0 is for links without operation
    if step == 1:
        if not (init == ('c', low - off) or outer):
            if init[0] == 'c':
                return fail(f'starts at element {init[1] + off}')
            rep.notes.append(f'{where}: start of {name} not recognised: {show(init)}')
            return
        if kind == 'links' and off:
            pass
        exact = (op in ('<', '!=') and same(bx, counts, -off)) or (op == '<=' and same(bx, counts, -off - 1))
        if not exact:
            if bx[0] == 'c' or mentions(bx, lambda t: t and (t in counts)) or bx[0] in ('fld', 'v') or any(c[0] == 'c' for c in counts):
                return fail(f'runs while {op} {show(b)}, the container has {" or ".join(show(c) for c in counts)} elements')
            rep.notes.append(f'{where}: bound of {name} not recognised: {show(b)}')
            return
    else:
        e = ('b', '-', next(iter(counts)), ('c', 1))
        ok_start = init == e or (init[0] == 'c' and ('c', init[1] + 1 + off) in counts)
        ok_end = (op == '>=' and bx == ('c', low - off)) or (op in ('>', '!=') and bx == ('c', low - off - 1))
        if not (ok_start and ok_end):
            return fail(f'runs from {show(init)} while {op} {show(b)}')
    # --- removal of the current element
    rem = [f.ins[n] for n in L.body if f.ins[n].k == 'call' and f.ins[n].b == 'Table_Remove'] if kind == 'table' else []
    rem = [r for r in rem if D.x(('d', r.c[0])) == base or D.x(r.c[0]) == ('a', base)]
    if kind == 'table':
        for d in downs:
            if not any(paired(f, L, d, r) for r in rem):
                return fail(f'the counter is stepped back at line {d.line} without a removal')
        for r in rem:
            if not any(paired(f, L, d, r) for d in downs) and not leaves_after(f, L, r):
                return fail(f'the element after the one removed at line {r.line} is skipped')
    elif downs:
        return fail('the counter is stepped back')
    # --- other exits
    if kind != 'atoms':
        pure = None
        for x, y in L.exits:
            if x == u or x in [t[0] for t in tests]:
                continue
            i = f.ins[x]
            if i.k == 'call' and i.b == 'Globals_assert':
                continue
            if i.k == 'br' and kind in ('operations', 'links') and where_nil(f, D.x(i.a, keep={v})):
                continue
            if i.k == 'br' and not varies(ctx.summ, f, L, i.a, D, v):
                continue
            if pure is None:
                pure = pure_body(ctx.summ, f, L)
            if not pure:
                return fail(f'the loop is left early at line {i.line} ({show(i.a) if i.k == "br" else i.k}) although it has effects on the elements')
            if i.k == 'br':
                src = D.x(i.a)
                c = [t for t in subterms(src) if t and t[0] == 'v' and t[1] in D.d and D.d[t[1]] and D.d[t[1]][0].k == 'call']
                c = [D.d[t[1]][0].b for t in c]
                if any(isinstance(z, str) and z.endswith('_Equal') for z in c) and i.succ[0] != y and uncast(src)[0] == 'v':
                    return fail(f'the search stops at line {i.line} at the first element that differs')
    # --- elements skipped because of their position
    for n in L.body:
        i = f.ins[n]
        if i.k != 'br' or n in [t[0] for t in tests] or len(i.succ) != 2:
            continue
        e = uncast(i.a)
        if e[0] == 'b' and e[1] in FLIP and {uncast(e[2]), uncast(e[3])} & {('v', v)} and kind != 'atoms':
            o = uncast(e[3]) if uncast(e[2]) == ('v', v) else uncast(e[2])
            inner = any(n in L2.body and L2.head in L.body and L2 is not L for L2 in Ls)
            if o[0] in ('c', 'fld') and not inner and skips(f, L, i, upd):
                return fail(f'an element is left out because of its position (line {i.line}: {show(i.a)})')
    rep.ob(True, rule, where, f'{name}: every element from {low} on')


def same(bx, counts, delta):
    for c in counts:
        if c[0] == 'c':
            if bx == ('c', c[1] + delta):
                return True
        elif delta == 0 and bx == c:
            return True
        elif delta and bx[0] == 'b' and bx[1] == ('+' if delta > 0 else '-') and bx[2] == c and bx[3] == ('c', abs(delta)):
            return True
    return False


def uses_index(p, f, L):
    for n in L.body:
        i = f.ins[n]
        if i.k == 'call' and isinstance(i.b, str) and i.b.startswith('InvertedAtomIndex_'):
            return True
        if mentions((i.a or (), i.b if isinstance(i.b, tuple) else (), tuple(i.c) if i.c else ()), lambda t: t == ('v', 'invertedAtomIndex')):
            return True
    return False


def paired(f, L, a, b):
    """a and b are always executed together within an iteration"""
    for x, y in ((a, b), (b, a)):
        ok, seen, st = True, set(), list(x.succ)
        hit = False
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n == y.id:
                hit = True
                continue
            if n == L.head or n not in L.body:
                ok = False
                break
            st.extend(f.ins[n].succ)
        if ok and hit:
            return True
    return False


def leaves_after(f, L, r):
    seen, st = set(), list(r.succ)
    while st:
        n = st.pop()
        if n in seen or n not in L.body:
            continue
        seen.add(n)
        if n == L.head:
            return False
        st.extend(f.ins[n].succ)
    return True


def skips(f, L, br, upd):
    """one side of the branch does nothing more than advance the counter"""
    for s in br.succ:
        n, k = s, 0
        while k < 8 and n in L.body:
            i = f.ins[n]
            if n == upd.id or n == L.head:
                return True
            if i.k not in ('nop', 'decl') or len(i.succ) != 1:
                break
            n, k = i.succ[0], k + 1
    return False


def chain(ctx, rep, p, f, L, Ls, D, counted):
    """loops that follow a chain of elements"""
    for v, ds in defs_in(f, L.body).items():
        t = p.types.canon(f.vars.get(v, '')) if v in f.vars else ''
        if not any(x in t for x in ('VMItem', 'ConceptChainElement')) or '*' not in t or not any(i.k == 'set' and uncast(i.b) == ('fld', ('d', ('v', v)), 'next') for i in ds):
            continue
        adv = [i for i in ds if i.k == 'set' and uncast(i.b) == ('fld', ('d', ('v', v)), 'next')]
        if any(L2 is not L and L2.head in L.body and i.id in L2.body for L2 in Ls for i in adv):
            continue            # advances in an inner loop
        counted['chain'] = counted.get('chain', 0) + 1
        rule = 'the loop visits every element (chain)'
        where = p.loc(f, f.ins[L.head])
        ok, why = True, 'advances by one element and ends at the end of the chain'
        if len(ds) != 1:
            ok, why = False, 'advances in more than one way'
        for x, y in L.exits:
            i = f.ins[x]
            if i.k != 'br':
                if i.k == 'call' and i.b == 'Globals_assert':
                    continue
            else:
                e = D.x(i.a, keep={v})
                nul = [z for z in subterms(e) if z in (('v', v), ('fld', ('d', ('v', v)), 'next'))] and e[0] == 'b' and ('c', 0) in (uncast(e[2]), uncast(e[3]))
                if nul or not varies(ctx.summ, f, L, i.a, D, v):
                    continue
            if not pure_body(ctx.summ, f, L):
                ok, why = False, f'is left early at line {i.line} ({show(i.a) if i.k == "br" else i.k}) although the loop has effects'
        rep.ob(ok, rule, where, f'{v.split(":")[-1]} {why}')


def fixed_links(ctx, rep, p, f, D):
    """functions that treat the links of all operations, or all selected events, do not single one out"""
    sel = [(i.line, show(i.b)) for i in f.ins if i.k == 'set' and f.name.startswith('Cycle_') and mentions(i.b, lambda t: t and t[0] == 'idx' and t[1][0] == 'v' and t[1][1] in COUNT_OF and t[2][0] == 'c' and p.types.arrlen(p.globals[t[1][1]]['type']) > 0)]
    if sel or any(mentions((i.b,) if isinstance(i.b, tuple) else (), lambda t: t and t[0] == 'v' and t[1] in COUNT_OF) for i in f.ins):
        rep.ob(not sel, 'all selected events are treated alike', f'{os.path.relpath(f.file, REPO)}:{f.line} ({f.name})', f'fixed element: {sel[:2]}' if sel else 'selected events are accessed by a running index')
    if f.name not in ('Cycle_ProcessAndInferGoalEvents', 'Decision_BestCandidate', 'NAR_AddInputNarsese2', 'Shell_ProcessInput'):
        return
    bad = set()

    def walk(e, i):
        if isinstance(e, list):
            for y in e:
                walk(y, i)
        if isinstance(e, tuple) and e:
            if e[0] == 'idx' and isinstance(e[1], tuple) and e[1][0] == 'fld' and e[1][2] == 'precondition_beliefs' and D.x(e[2])[0] == 'c':
                bad.add((i.line, show(e)))
            for y in e[1:]:
                walk(y, i)
    for i in f.ins:
        for e in (i.a, i.b, i.c):
            walk(e, i)
    rep.ob(not bad, 'links of all operations are treated alike', f'{os.path.relpath(f.file, REPO)}:{f.line} ({f.name})', f'fixed operation index: {sorted(bad)[:2]}' if bad else 'links are only accessed by a running operation index')
