"""C01: evidence is never counted twice."""
from ..core import *
from ..evidence import owners, truth_args, is_truth_fn, cover, disjoint, strip

# functions that combine goals with beliefs: there the result is a desire, not accumulated evidence (out of the property's scope)
GOAL_ONLY = {'Truth_GoalDeduction'}
# a derived conclusion is never more confident than its premises, so the choice rule cannot replace a premise while it is being used
FRAME = {'Cycle_SpecialInferences': True, 'RuleTable_Apply': True}


class H(Obligations):
    def __init__(self, ctx):
        super().__init__()
        self.cx = ctx
        self.deferred = {}

    def key(self, st):
        return frozenset((a, v) for a, v in st.facts.items() if is_overlap(a))

    # -- combining two truths
    def pure_result(self, e, st, f, ins, name, vals, rv):
        if is_truth_fn(f.name) or not is_truth_fn(name) or name in GOAL_ONLY or f.name == 'Cycle_SpecialInferences':
            return rv          # (the premises of the special inferences are examined where they are called)
        pos = truth_args(e.p, name)
        if len(pos) == 2:
            why, pairs = self.pairs(e, st, vals[pos[0]], vals[pos[1]])
            if pairs is not None and not [1 for a, b in pairs if not disjoint(e, st, a, b)]:
                self.rec(e.cur_ctx, f, ins, name, True, e.p.loc(f, ins), f'{name}: premises known not to share evidence', False)
            else:
                self.deferred.setdefault(rv, {})[(tuple(e.cur_ctx), f.name, ins.id)] = (f, ins, name, pairs, why)
        return rv

    def pairs(self, e, st, v1, v2):
        o1, o2 = owners(e, st, v1), owners(e, st, v2)
        if o1 is None or o2 is None:
            return 'the evidential base of a premise is not identifiable', None
        return 'no stamp overlap test excludes shared evidence on this path', sorted(((a, b) for a in o1 for b in o2), key=repr)

    # -- a combined truth value leaves the local computation
    def escape(self, e, st, f, ins, v, ctx, how):
        if not self.deferred:
            return
        for t in set(subterms(v)):
            for (cx, _, _), (g, gi, name, pairs, why) in self.deferred.get(t, {}).items():
                bad = [(a, b) for a, b in pairs if not disjoint(e, st, a, b)] if pairs is not None else [(('?',), ('?',))]
                self.rec(cx, g, gi, name, not bad, e.p.loc(g, gi), f'{name}, {how} at {e.p.loc(f, ins)}: ' + (why if bad else 'premises known not to share evidence'),
                         pairs is None or any(mentions(x, lambda y: y[0] == 'arg') for ab in bad for x in ab))

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        if not (r[0] == 'v' and e.islocal(r[1])):
            self.escape(e, st, f, ins, val, ctx, 'stored')

    def on_ret(self, e, st, f, ins, v, ctx):
        if not ctx and v is not None:
            self.escape(e, st, f, ins, v, ctx, 'returned')

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if is_truth_fn(f.name):
            return
        if name in ('RuleTable_Apply', 'Cycle_SpecialInferences'):
            self.twopremise(e, st, f, ins, name, vals, ctx)
        if self.deferred and isinstance(name, str) and not e.s.pure(name) and not e.should_inline(name, ctx) and name != 'Globals_assert':
            for a, v in zip(ins.c, vals):
                if v[0] == 'a' and v[1][0] != 'strlv':
                    v = e.read(st, v[1])
                self.escape(e, st, f, ins, v, ctx, f'passed to {name}')

    def twopremise(self, e, st, f, ins, name, vals, ctx):
        pn = e.p.protos[name][1]
        pos = [k for k, t in enumerate(pn) if e.p.types.canon(t) == 'Truth']
        if name == 'RuleTable_Apply' and vals[10] == ('c', 0):
            # single premise: there is no second evidential base
            return self.rec(ctx, f, ins, name + '/single', True, e.p.loc(f, ins), 'single-premise application', False)
        why, pairs = self.pairs(e, st, vals[pos[0]], vals[pos[1]])
        bad = [(a, b) for a, b in pairs if not disjoint(e, st, a, b)] if pairs is not None else [(('?',), ('?',))]
        self.rec(ctx, f, ins, name, not bad, e.p.loc(f, ins), f'{name}: ' + (why if bad else 'premises known not to share evidence'),
                 pairs is None or any(mentions(x, lambda y: y[0] == 'arg') for ab in bad for x in ab))


def is_overlap(a):
    return mentions(a, lambda t: t[0] == 'call' and t[1] == 'Stamp_checkOverlap')


def record_builders(ctx):
    """functions returning a record that carries truth and stamp: seen through wherever they are called"""
    T = ctx.prog.types
    out = set()
    for n, f in ctx.prog.funcs.items():
        r = T.canon(f.ret)
        if T.is_record(r) and T.field_type(r, 'truth') and T.field_type(r, 'stamp'):
            out.add(n)
    return out


def reach_unknown(ctx, r, through=()):
    """callees of r, looking through helpers that are not in the reference list"""
    out, st, seen = set(), [r], set()
    while st:
        n = st.pop()
        if n in seen or n not in ctx.prog.funcs:
            continue
        seen.add(n)
        for c in ctx.prog.callees(n):
            out.add(c)
            if c not in ctx.known or c in through:
                st.append(c)
    return out


def check(ctx):
    rep = Report('C01', ctx, 'Evidence-flow analysis: at every call that combines two truth values (two-premise truth functions, the rule table, the special '
                 'inferences), the stamps behind both premises are identified symbolically and the path condition must contain a negative stamp-overlap test of exactly '
                 'those two stamps; sites not discharged inside their function are re-examined in each caller context (inlined). Stamp_checkOverlap itself is verified to '
                 'compare all entry pairs by loop analysis.',
                 ['recorded stamps stand for the evidence (they are truncated at STAMP_SIZE entries by design)', 'goal derivation (desire values) is outside the property'])
    p = ctx.prog
    builders = record_builders(ctx)
    callers = p.callers()
    roots = [r for r in ctx.roots() if not is_truth_fn(r) and not (r in builders and r in callers) and
             any(c in ('RuleTable_Apply', 'Cycle_SpecialInferences') or (is_truth_fn(c) and len(truth_args(p, c)) == 2) for c in reach_unknown(ctx, r, builders))]
    res, stats = expand(ctx, lambda: H(ctx), roots, depth=4, relevant=is_overlap, inline=builders, engine_kw=dict(frame=FRAME))
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'premises of a combination have disjoint stamps', f'{where} reached from {root}', detail, key=f'{skey} in {where.split("(")[-1].rstrip(")")} from {root}')
    rep.count('combination_sites_examined', len({(w, s) for _, _, w, _, s in res}))
    rep.count('roots_analysed', len(roots))
    rep.count('abstract_states', stats['states'])
    overlap_mechanism(ctx, rep)
    rep.expect('evidence combination sites', len({(w, s) for _, _, w, _, s in res}), 8)
    return rep


def overlap_mechanism(ctx, rep):
    """the overlap test compares every recorded entry of one stamp with every recorded entry of the other"""
    p = ctx.prog
    f = p.fn('Stamp_checkOverlap')
    n = p.types.arrlen(p.types.field_type('Stamp', 'evidentialBase'))
    Ls = find_loops(f)
    rule = 'the overlap test compares all pairs of stamp entries'
    cmps = []
    for i in f.ins:
        if i.k != 'br':
            continue
        e = uncast(i.a)
        if e[0] == 'b' and e[1] in ('==', '!='):
            a, b = uncast(e[2]), uncast(e[3])
            if entry(a) and entry(b) and a[1] != b[1]:
                cmps.append((i, e[1], a, b))
    if not cmps:
        rep.notes.append('Stamp_checkOverlap: comparison of entries not recognised, mechanism not judged')
        return
    for i, op, a, b in cmps:
        hit = i.succ[0] if op == '==' else i.succ[1]
        r = follow(f, hit)
        rep.ob(r is None or r == ('c', 1), rule, p.loc(f, i), 'a common entry is reported as overlap')
        for x in (a, b):
            iv = uncast(x[2])
            if iv[0] != 'v':
                continue
            for L in [L for L in Ls if i.id in L.body and iv[1] in L.ivs]:
                ok, why = covers(L, iv[1], 0, n)
                if ok is not None:
                    rep.ob(ok, rule, p.loc(f, f.ins[L.head]), f'entry index {iv[1].split(":")[1]} {why} of {n} entries')
                # other ways out of the loop: only at an unused entry of this stamp, or having found an overlap
                for u, v in L.exits:
                    t = f.ins[u]
                    if t.k == 'br' and any(u == w[0] for w in L.ivs[iv[1]][2]):
                        continue
                    e = uncast(t.a) if t.k == 'br' else None
                    free = e is not None and e[0] == 'b' and ((e[1] == '==' and t.succ[0] == v) or (e[1] == '!=' and t.succ[1] == v)) and \
                        {uncast(e[2]), uncast(e[3])} in ({x, ('c', 0)}, {y for y in (x, ('c', 0))})
                    ret = follow(f, v)
                    inner_other = e is not None and any(entry(uncast(z)) for z in e[2:4] if isinstance(z, tuple)) if e is not None and e[0] == 'b' else False
                    if free or ret == ('c', 1):
                        rep.ob(True, rule, p.loc(f, t), 'early exit at an unused entry or with an overlap found')
                    elif ret == ('c', 0) or inner_other:
                        rep.ob(False, rule, p.loc(f, t), f'the comparison of entries can stop early: {show(t.a) if t.k == "br" else t.k}')


def entry(e):
    return e[0] == 'idx' and e[1][0] == 'fld' and e[1][2] == 'evidentialBase'


def follow(f, n):
    """returned expression if n leads straight to a return"""
    for _ in range(6):
        i = f.ins[n]
        if i.k == 'ret':
            return uncast(i.a) if i.a else None
        if len(i.succ) != 1 or i.k not in ('nop', 'decl'):
            return None
        n = i.succ[0]
    return None
