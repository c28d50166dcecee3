"""C11: a reset leaves nothing of the previous session behind."""
from ..core import *
from ..absint import dominators, expr_vars
from ..loops import step_of

# parameters a user sets explicitly; they persist over a reset until the user changes them (see the property)
PARAMS = {'ANTICIPATION_CONFIDENCE', 'BABBLING_OPS', 'DECISION_THRESHOLD', 'MOTOR_BABBLING_CHANCE', 'PRINT_EVENTS_PRIORITY_THRESHOLD', 'QUESTION_PRIMING',
          'Variable_similarity_distance', 'PRINT_INPUT', 'PRINT_DERIVATIONS', 'CONDITION_THRESHOLD', 'ANTICIPATION_THRESHOLD', 'TRUTH_EVIDENTIAL_HORIZON', 'TRUTH_PROJECTION_DECAY'}
GENERATOR = {'next'}                 # position of the random generator (excluded by the property)
OPAQUE = {'NAR_AddOperation', 'Narsese_AtomicTerm', 'Narsese_AtomicTermIndex', 'Globals_assert'}
# the entry points between which state can survive
ENTRIES = ('Shell_ProcessInput', 'NAR_Cycles', 'NAR_AddInput', 'NAR_AddInputBelief', 'NAR_AddInputGoal', 'NAR_AddInputNarsese', 'NAR_AddInputNarsese2', 'NAR_AddOperation',
           'UDPNAR_Start', 'Stats_Print')


def gname(lv):
    r = lv
    while r[0] in ('fld', 'idx'):
        r = r[1]
    return r[1] if r[0] == 'v' else None


def mentioned(p, f, acc=None):
    """global -> {'r','w','a'} in one function"""
    acc = {} if acc is None else acc

    def rd(e, addr=False):
        if isinstance(e, list):
            for x in e:
                rd(x)
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == 'a' and isinstance(e[1], tuple):
            g = gname(e[1])
            if g in p.globals:
                acc.setdefault(g, set()).add('a')
            x = e[1]
            while isinstance(x, tuple) and x[0] in ('fld', 'idx'):
                if x[0] == 'idx':
                    rd(x[2])
                x = x[1]
            if x[0] == 'd':
                rd(x[1])
            return
        if e[0] == 'v' and len(e) == 2:
            if e[1] in p.globals:
                acc.setdefault(e[1], set()).add('r')
            return
        for x in e[1:]:
            rd(x)
    for i in f.ins:
        dst = i.a if i.k in ('set', 'call') else None
        if dst is not None:
            g = gname(dst)
            if g in p.globals:
                acc.setdefault(g, set()).add('w')
            x = dst
            while isinstance(x, tuple) and x[0] in ('fld', 'idx'):
                if x[0] == 'idx':
                    rd(x[2])
                x = x[1]
            if x[0] == 'd':
                rd(x[1])
        if i.k == 'set':
            rd(i.b)
        elif i.k == 'call':
            rd(i.c)
            if not isinstance(i.b, str):
                rd(i.b)
        else:
            for x in (i.a, i.b, i.c):
                if isinstance(x, (tuple, list)):
                    rd(x)
    return acc


def reach(p, starts):
    seen, st = set(), [s for s in starts if s in p.funcs]
    fp = [n for n in p.fnptr_refs() if n in p.funcs]
    st += fp
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        st += [c for c in p.callees(n) if c in p.funcs]
    return seen


def leaves(T, t, pre=()):
    """field/element patterns of a type"""
    n = T.arrlen(t)
    if n is not None:
        return leaves(T, T.elem(t), pre + ('*',))
    c = T.canon(t)
    if c in T.records:
        out = []
        for f, ft in T.records[c]:
            out += leaves(T, ft, pre + (f,))
        return out
    return [pre]


class H:
    def __init__(self, loops_):
        self.sites = {}      # ins id -> list of (global, pattern, complete, why, val, kind)
        self.loops = loops_
        self.callreads = {}

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        if r[0] != 'v' or e.islocal(r[1]):
            if r[0] != 'v':
                self.sites.setdefault(ins.id, []).append((None, (), False, 'target not resolved', val))
            return
        self.add(e, st, f, ins, path, val)

    def add(self, e, st, f, ins, path, val, levels_from=None):
        pat, why, ok = [], [], True
        used = set()
        x = path
        steps = []
        while x[0] in ('fld', 'idx'):
            steps.append(x)
            x = x[1]
        for s in reversed(steps):
            if s[0] == 'fld':
                pat.append(s[2])
            else:
                pat.append('*')
                n = e.p.types.arrlen(e.path_type(s[1]))
                ok1, w = self.cover(e, st, f, ins, s[2], n, used)
                ok &= ok1
                why.append(w)
        self.sites.setdefault(ins.id, []).append((r_name(path), tuple(pat), ok, '; '.join(why), val))

    def cover(self, e, st, f, ins, t, n, used):
        if n is None:
            return False, 'array size unknown'
        if t[0] == 'c':
            return (n == 1 and t[1] == 0), f'single element {t[1]} of {n}'
        best = (False, f'index not recognised as a counter over all {n} elements')
        for L in self.loops:
            if ins.id not in L.body:
                continue
            for v, (init, s, tests) in L.ivs.items():
                if e.eval(st, f, ('v', v)) != t:
                    continue
                if not tests or init is None:
                    continue
                lo = init[1] if init[0] == 'c' else None
                b = tests[0][2]
                bv = b if b[0] == 'c' else e.eval(st, f, b)
                if lo is None or bv[0] != 'c':
                    continue
                op = tests[0][1]
                if s == 1 and op in ('<', '<=', '!='):
                    a, z = lo, bv[1] + (op == '<=')
                elif s == -1 and op in ('>', '>=', '!='):
                    a, z = bv[1] + (op != '>='), lo + 1
                else:
                    continue
                heads_ok = all(u == tests[0][0] or f.ins[u].k == 'call' for u, _ in L.exits) and len({u for u, _ in L.exits}) == 1
                best = (a <= 0 and z >= n and heads_ok, f'index runs over {a}..{z - 1} of {n} elements' + ('' if heads_ok else ', but the loop can be left early'))
                used.add(L.head)
                if best[0]:
                    self.loop_of.setdefault(ins.id, set()).add(L.head)
                    return best
        return best

    loop_of = None

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'memset' and vals[0][0] == 'a':
            path = vals[0][1]
            r = root_of(path)
            if r[0] != 'v' or e.islocal(r[1]):
                return
            while path[0] == 'idx' and path[2] == ('c', 0) and vals[2][0] == 'c' and (e.p.types.align_size(e.path_type(path))[1] or 0) < vals[2][1]:
                path = path[1]
            sz = e.p.types.align_size(e.path_type(path))[1]
            n0 = len(self.sites.get(ins.id, []))
            self.add(e, st, f, ins, path, vals[1])
            if vals[2] != ('c', sz):
                g, pat, ok, why, v = self.sites[ins.id][n0]
                self.sites[ins.id][n0] = (g, pat, False, f'{show(vals[2])} of {sz} bytes cleared', v)


def r_name(path):
    return root_of(path)[1]


def check(ctx):
    rep = Report('C11', ctx, 'Reset completeness: every mutable object with static storage that code reachable from the input and cycle functions can change is enumerated; each of its '
                 'fields and array elements must be overwritten by the initialization reachable from NAR_INIT (flattened into one control-flow graph, pointers resolved by '
                 'abstract evaluation) on every path, with values that do not depend on the previous session, over the whole index range. Objects that are exempt must be parameters written by the command '
                 'interpreter only or scratch space that is written before it is read in every use.',
                 ['explicitly user-set parameters and the position of the random generator survive by design', 'state of the network sockets is not reasoner state'])
    raw = ctx.raw
    p = ctx.prog
    T = p.types
    ig = flatten(raw, 'NAR_INIT', lambda n: n not in OPAQUE)
    import copy
    q = copy.copy(p)
    q.__dict__ = dict(p.__dict__)
    for k in ('_callers', '_used_params'):
        q.__dict__.pop(k, None)
    q.funcs = dict(p.funcs)
    q.funcs['NAR_INIT'] = ig
    Ls = find_loops(ig)
    h = H(Ls)
    h.loop_of = {}
    e = Engine(q, Summaries(q), ctx.known, hooks=h)
    e.run('NAR_INIT')
    dom = e_dom(ig)
    exits = [i.id for i in ig.ins if i.k == 'ret']
    # ---- which objects are mutable session state
    R = reach(p, ENTRIES)
    acc = {}
    per = {}
    for n in R:
        per[n] = mentioned(p, p.funcs[n])
        for g, s in per[n].items():
            acc.setdefault(g, {}).setdefault(n, set()).update(s)
    rep.count('functions_reachable_between_resets', len(R))
    touched = {s[0] for v in h.sites.values() for s in v if s[0]}
    n_obj = 0
    ex = Exposed(p)
    marks = marker_counters(p, R, p.globals)
    for g in sorted(raw.globals):
        G = raw.globals[g]
        short = g.split('@')[0]
        if 'const' in G['type'].split('[')[0].split('*')[-1].split() or 'NetworkNAR' in str(G['file']) or 'pthread' in G['type']:
            continue
        if short in GENERATOR or short == 'initialized':
            continue
        w = {n for n, s in acc.get(g, {}).items() if s & {'w', 'a'}}
        if not w and g not in touched:
            continue
        where = f"{os.path.relpath(str(G['file']), REPO)}:{G['line']} ({g})"
        n_obj += 1
        if g in PARAMS:
            bad = sorted(n for n in w if n in CORE and 'w' in acc[g][n])
            rep.ob(not bad, 'persisting parameters are changed by commands only', where, f'written in {", ".join(sorted(w))}')
            continue
        if g in touched:
            judge(ctx, rep, T, g, G, where, h, dom, ig, e)
            continue
        rule = 'session state is reset or written before it is read'
        if g in marks:
            rep.ob(True, rule, where, marks[g])
        elif g in BUFFERS and w <= BUFFERS[g][0]:
            rep.ob(True, rule, where, BUFFERS[g][1])
        elif T.arrlen(G['type']) is None and not T.is_record(T.canon(G['type'])):
            bad = [n for n in ENTRIES if n in p.funcs and ex.exposed(n, g)]
            rep.ob(not bad, rule, where, f'read before it is written in a call of {", ".join(bad)}, and not reset' if bad else 'written before it is read in every entry function')
        else:
            rep.ob(False, rule, where, f'not reset, written in {", ".join(sorted(w))}')
    rep.count('objects_examined', n_obj)
    rep.expect('objects with session state', n_obj, 40)
    # ---- the initialization depends on nothing that has not been reset yet
    cov = {}
    for iid, ss in h.sites.items():
        for (g, pat, full, why, val) in ss:
            if full and g:
                cov.setdefault(g, []).append((pat, iid))
    rule = 'values set by the reset do not depend on the previous session'
    init_g = {g for g in raw.globals if acc_w(acc, g)}
    for iid, ss in h.sites.items():
        for (g, pat, full, why, val) in ss:
            for t in stale(val, p, init_g):
                pt = pattern(t)
                if g == t[0] and pt[:len(pat)] == pat and False:
                    continue
                if not [1 for q2, j in cov.get(t[0], []) if pt[:len(q2)] == q2 and reset_before(dom, h, j, iid)]:
                    rep.ob(False, rule, p.loc(ig, ig.ins[iid]), f'{g} is set from {t[0]}, which has not been reset at that point')
    rep.ob(True, rule, 'NAR_INIT', f'{sum(len(v) for v in h.sites.values())} assignments of the initialization examined')
    for i in ig.ins:
        if i.k == 'call' and isinstance(i.b, str) and i.b in OPAQUE and i.b != 'Globals_assert':
            used = set()
            for n in raw_reach(raw, i.b, ()):
                used |= {g for g, s in mentioned(raw, raw.funcs[n]).items() if 'r' in s or 'a' in s}
            for g in sorted(used & touched & init_g):
                js = [j for _, j in cov.get(g, [])]
                # (reset of every part is judged above)
                rep.ob(any(reset_before(dom, h, j, i.id) for j in js), 'tables are reset before the initialization enters anything', p.loc(ig, i), f'{i.b} uses {g}')
    # ---- the shells perform the initialization when asked for a reset
    shells(ctx, rep)
    return rep


# entry to the reasoner proper: what these reach may not change parameters
CORE = ()
BUFFERS = {
    'Narsese_Expand:narsese_expanded': ({'Narsese_Expand'}, 'text buffer, written from its start up to the terminator on every use'),
    'Narsese_PrefixTransform:tokens': ({'Narsese_PrefixTransform'}, 'token buffer, written from its start up to the terminator on every use'),
    'replaceWithCanonicalCopulas:narsese_replaced': ({'replaceWithCanonicalCopulas'}, 'text buffer, written from its start up to the terminator on every use'),
    'selectedBeliefs': ({'Cycle_PopEvents', 'Cycle_ProcessBeliefEvents', 'Cycle_Inference', 'Cycle_Perform'}, 'only elements below the selection counter, which are written by the selection of the same cycle, are read'),
    'selectedBeliefsPriority': ({'Cycle_PopEvents', 'Cycle_Perform'}, 'see selectedBeliefs'),
    'selectedGoals': ({'Cycle_PopEvents', 'Cycle_Perform', 'Cycle_ProcessAndInferGoalEvents'}, 'see selectedBeliefs'),
    'selectedGoalsPriority': ({'Cycle_PopEvents', 'Cycle_Perform'}, 'see selectedBeliefs'),
}


def acc_w(acc, g):
    return any(s & {'w', 'a'} for s in acc.get(g, {}).values())


def stale(val, p, gs):
    """global locations a value was read from at function entry"""
    out = []
    for t in subterms(val):
        if t and t[0] == 'ld' and len(t) > 1 and isinstance(t[1], tuple):
            r = root_of(t[1])
            if r[0] == 'v' and r[1] in gs:
                out.append((r[1], t[1]))
    return out


def pattern(t):
    pat = []
    x = t[1]
    while x[0] in ('fld', 'idx'):
        pat.append(x[2] if x[0] == 'fld' else '*')
        x = x[1]
    return tuple(reversed(pat))


def reset_before(dom, h, j, i):
    """site j (or the loop that contains it) is passed completely before i on every path"""
    hs = h.loop_of.get(j)
    if not hs:
        return j in dom[i] and j != i
    return any(x in dom[i] and i not in body(h, x) for x in hs) or (j in dom[i] and j != i)


def body(h, head):
    return next(L.body for L in h.loops if L.head == head)


class Exposed:
    """may an object be read before it is written, when a function is entered from outside?"""
    def __init__(self, p):
        self.p, self.memo, self.kmemo = p, {}, {}

    def get(self, n, loc):
        k = (n, loc)
        if k not in self.memo:
            self.memo[k] = self.kmemo[k] = False
            self.flow(n, loc)
        return self.memo[k], self.kmemo[k]

    def exposed(self, n, g):
        return self.get(n, ('v', g))[0]

    def flow(self, n, loc):
        """loc: ('v', global) or ('d', ('v', parameter))"""
        f = self.p.funcs[n]
        seen, st, exp, kill = set(), [f.entry], False, True

        def rd(x):
            if isinstance(x, list):
                return any(rd(y) for y in x)
            if not isinstance(x, tuple) or not x:
                return False
            if x == loc or (loc[0] == 'd' and x == loc[1]):
                return True
            return any(rd(y) for y in x[1:])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            i = f.ins[x]
            if i.k == 'call':
                rest = []
                cs = [i.b] if isinstance(i.b, str) else list(self.p.fnptr_refs())
                cs = [c for c in cs if c in self.p.funcs]
                killed = False
                for k, a in enumerate(i.c):
                    ua = uncast(a)
                    if cs and isinstance(i.b, str) and k < len(self.p.funcs[i.b].params) and (ua == ('a', loc) or (loc[0] == 'd' and ua == loc[1])):
                        r = self.get(i.b, ('d', ('v', self.p.funcs[i.b].params[k])))
                        exp |= r[0]
                        killed |= r[1]
                    else:
                        rest.append(a)
                exp |= rd(rest) or (not isinstance(i.b, str) and rd(i.b))
                if loc[0] == 'v':
                    rs = [self.get(c, loc) for c in cs]
                    exp |= any(r[0] for r in rs)
                    killed |= bool(isinstance(i.b, str) and rs and rs[0][1])
                if killed:
                    continue
            elif i.k == 'set':
                exp |= rd(i.b) or (i.a != loc and rd(i.a))
            elif i.k in ('br', 'ret', 'switch'):
                exp |= rd(i.a) or rd(i.b) if isinstance(i.b, tuple) else rd(i.a)
            if i.k in ('set', 'call') and i.a == loc:
                continue
            if i.k == 'ret':
                kill = False
            st.extend(i.succ)
        self.memo[(n, loc)], self.kmemo[(n, loc)] = exp, kill


def marker_counters(p, R, glob):
    """{counter, array} pairs used as generation marks: the counter is only increased, the array only receives the counter and is only
    compared with it, so that old contents never equal the current count"""
    out = {}
    for g in glob:
        if p.types.arrlen(glob[g]['type']) is None:
            continue
        ctr, ok, n = None, True, 0
        for fn in R:
            for i in p.funcs[fn].ins:
                sides = []
                if i.k == 'set' and i.a[0] == 'idx' and i.a[1] == ('v', g):
                    sides, n = [uncast(i.b)], n + 1
                elif i.k == 'br' and uncast(i.a)[0] == 'b' and uncast(i.a)[1] in ('==', '!='):
                    e = uncast(i.a)
                    for x, y in ((e[2], e[3]), (e[3], e[2])):
                        x = uncast(x)
                        if x[0] == 'idx' and x[1] == ('v', g):
                            sides, n = [uncast(y)], n + 1
                if not sides:
                    m = mentioned(p, OneIns(i))
                    if g in m:
                        ok = False
                for y in sides:
                    if y[0] == 'v' and y[1] in glob and ctr in (None, y[1]):
                        ctr = y[1]
                    else:
                        ok = False
        if not ok or not ctr or not n:
            continue
        for fn in R:
            for i in p.funcs[fn].ins:
                if i.k in ('set', 'call') and i.a == ('v', ctr) and step_of(i) != 1:
                    ok = False
        if ok:
            out[g] = out[ctr] = 'generation mark: only ever increased, compared and copied'
    return out


class OneIns:
    def __init__(self, i):
        self.ins = [i]


def shells(ctx, rep):
    """wherever the command interpreter's result is received, the reset command leads to the initialization before the next input"""
    p = ctx.prog
    rule = 'the reset command initializes the reasoner'
    code = None
    for x in ('SHELL_RESET',):
        code = int(ctx.macro(x))
    n = 0
    for fn in sorted(p.funcs):
        f = p.funcs[fn]
        for i in f.ins:
            if i.k != 'call' or i.b != 'Shell_ProcessInput' or fn == 'Shell_ProcessInput':
                continue
            n += 1
            if i.a is None:
                rep.ob(False, rule, p.loc(f, i), 'the result of the command interpreter is dropped: a reset command has no effect')
                continue
            # every path on which the result may be the reset code passes NAR_INIT before the next input
            bad = follow_reset(p, f, i, code)
            rep.ob(not bad, rule, p.loc(f, i), bad or 'every path with the reset result passes the initialization')
    rep.expect('receivers of command results', n, 2)
    f = p.fn('Shell_NARInit')
    dom = e_dom(f)
    calls = [i for i in f.ins if i.k == 'call' and i.b == 'NAR_INIT']
    for i in f.ins:
        if i.k == 'ret':
            rep.ob(any(c.id in dom[i.id] for c in calls), rule, p.loc(f, i), 'Shell_NARInit passes NAR_INIT')
    # the command itself
    g = p.fn('Shell_ProcessInput')
    rets = [i for i in g.ins if i.k == 'ret' and i.a is not None and uncast(i.a) == ('c', code)]
    sets = [i for i in g.ins if i.k == 'set' and uncast(i.b) == ('c', code) and i.a[0] == 'v']
    rep.ob(bool(rets or sets), rule, p.loc(g, (rets or sets or g.ins)[0]), 'the command interpreter reports the reset command')


def follow_reset(p, f, call, code):
    vs = {call.a}
    if call.c and len(call.c) == 1:
        lit = [t for t in subterms(call.c[0]) if t and t[0] in ('strlv', 's') and len(t) > 1]
        if lit and not [1 for t in lit if '*reset' in str(t[1])]:
            return None         # a fixed other command
    inits = {n for n in p.funcs if n in ('NAR_INIT', 'Shell_NARInit')}
    seen, st = set(), list(call.succ)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        i = f.ins[x]
        if i.k == 'set' and uncast(i.b) in vs:
            vs.add(i.a)
        if i.k == 'call' and isinstance(i.b, str):
            if i.b in inits:
                continue
            if i.b == 'Shell_ProcessInput':
                return f'a path with the reset result reaches the next input at line {i.line} without initialization'
        if i.k == 'ret' and f.name != 'main':
            if i.a and uncast(i.a) in vs:
                continue        # handed on to the caller
        if i.k == 'br' and len(i.succ) == 2:
            e = uncast(i.a)
            if e in vs:
                st.append(i.succ[0] if code else i.succ[1])
                continue
            if e[0] == 'b' and e[1] in ('==', '!=') and {uncast(e[2]), uncast(e[3])} & vs:
                c = uncast(e[3]) if uncast(e[2]) in vs else uncast(e[2])
                if c[0] == 'c':
                    eq = (c[1] == code) == (e[1] == '==')
                    st.append(i.succ[0] if eq else i.succ[1])
                    continue
        if i.k == 'switch':
            pass
        st.extend(i.succ)
    return None


def raw_reach(p, n, opaque):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x in seen or x in opaque or x not in p.funcs:
            continue
        seen.add(x)
        st += p.callees(x)
    return seen


class Doms(dict):
    """instruction -> set of its dominators (strict and itself), computed on demand"""
    def __init__(self, f):
        from ..absint import loops as nl
        self.i = dominators(f, nl(f)[2])

    def __missing__(self, x):
        out = {x}
        y = x
        while y in self.i and self.i[y] is not None and self.i[y] != y:
            y = self.i[y]
            out.add(y)
        self[x] = out
        return out


def e_dom(f):
    return Doms(f)


def judge(ctx, rep, T, g, G, where, h, dom, ig, e):
    p = ctx.prog
    exits = [i.id for i in ig.ins if i.k == 'ret']
    latches = {L.head: [u for u in L.body if L.head in ig.ins[u].succ] for L in h.loops}
    for leaf in leaves(T, G['type']):
        ok, det = False, 'is not written by the initialization'
        for iid, ss in h.sites.items():
            for (gg, pat, full, why, val) in ss:
                if gg != g or leaf[:len(pat)] != pat:
                    continue
                ok, det = full, why
                if full:
                    hs = h.loop_of.get(iid, set())
                    # inside its loops the assignment is made in every pass; the outermost loop (or the assignment) lies on every path
                    for L in h.loops:
                        if iid in L.body:
                            ok &= all(iid in dom[u] or any(h2 in dom[u] and h2 != L.head and iid in body(h, h2) for h2 in hs) for u in latches[L.head])
                    outer = {x for x in hs} | {iid}
                    ok &= all(any(o in dom[x] for o in outer) for x in exits)
                    if not ok:
                        det = 'is written on some paths of the initialization only'
                if ok:
                    break
            if ok:
                break
        rep.ob(ok, 'reset overwrites all session state', where, f'{g}{"".join("[*]" if x == "*" else "." + x for x in leaf)}: {det}')
