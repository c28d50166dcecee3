"""C15: operations are executed only by a sufficiently supported decision."""
from ..core import *
from .c16 import truthy, pathto, value

FUNCTIONAL = {'Variable_hasVariable', 'Term_Equal', 'Truth_Expectation', 'Memory_ImplicationValid', 'Term_ExtractSubterm', 'Narsese_copulaEquals'}
T = 'Decision'


def fld(p, *names):
    for n in names:
        p = ('fld', p, n)
    return p


def strip(v):
    while isinstance(v, tuple) and v and v[0] in ('cast', 'trunc'):
        v = v[-1]
    return v


def where(f):
    return f'{f.file}:{f.line} ({f.name})'


class Execution(Obligations):
    """gate of the calls of operations, of the execute mark, and of babbling"""
    def __init__(self, cx):
        super().__init__()
        self.cx = cx
        self.sites = 0

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def babbling(self, e, st):
        """the path won the draw against the babbling chance"""
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '<' and tv is True:
                x, y = strip(a[2]), strip(a[3])
                if mentions(x, lambda t: 'myrand' in t) and not mentions(x, lambda t: t == ('v', 'MOTOR_BABBLING_CHANCE')):
                    if y[0] == 'b' and y[1] == '*' and any(mentions(u, lambda t: t == ('v', 'MOTOR_BABBLING_CHANCE')) and strip(u)[0] in ('ld', 'v') for u in y[2:4]):
                        return True
        return False

    def supported(self, e, st, X, desire=None, execute=None):
        d = desire if desire is not None else e.read(st, fld(X, 'desire'))
        x = execute if execute is not None else e.read(st, fld(X, 'execute'))
        if truthy(e, st, x) is False:
            return True
        t = e.read(st, ('v', 'DECISION_THRESHOLD'))
        return e.known_truth(st, e.mk('<', d, t)) is False or self.babbling(e, st)

    def on_store(self, e, st, f, ins, path, val, ctx):
        if path[0] != 'fld' or path[2] not in ('execute', 'desire'):
            return
        X = path[1]
        t = e.path_type(X)
        if t is None or e.ty.T.canon(t) != T:
            return
        if path[2] == 'execute':
            ok = self.supported(e, st, X, execute=val)
        else:
            if truthy(e, st, e.read(st, fld(X, 'execute'))) is not True:
                return
            ok = self.supported(e, st, X, desire=val)
        self.sites += 1
        self.rec(ctx, f, ins, ('mark',), ok, e.p.loc(f, ins), 'marked for execution on reaching the decision threshold, or as babbling' if ok else
                 'a decision is marked for execution on a path that neither knows its desire to reach the threshold nor won the babbling draw')

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'Decision_Execute':
            X = pathto(vals[1])
            a = truthy(e, st, e.read(st, fld(X, 'execute'))) is True
            op = e.read(st, ('idx', fld(X, 'operationID'), ('c', 0)))
            b = e.known_truth(st, e.mk('<', ('c', 0), op)) is True or e.known_truth(st, e.mk('==', op, ('c', 0))) is False
            self.rec(ctx, f, ins, ('execute',), a, e.p.loc(f, ins), 'executed because marked for execution' if a else 'a decision is executed which is not known to be marked for execution')
            self.rec(ctx, f, ins, ('operation',), b, e.p.loc(f, ins), 'it names an operation' if b else 'a decision is executed which is not known to name an operation')
            once = ('mark', 'executed') not in st.facts
            self.rec(ctx, f, ins, ('once',), once, e.p.loc(f, ins), 'first execution of the step' if once else 'a second decision is executed in the same step', False)
            st.facts[('mark', 'executed')] = True


class Acting:
    """what follows an operation's call"""
    def __init__(self, cx):
        self.cx = cx
        self.bad = {}
        self.n = 0
        self.outs, self.built = set(), set()

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if not isinstance(name, str) and action(name):
            self.n += 1
            w = e.p.loc(f, ins)
            fn = e.eval(st, f, name[1] if name[0] == 'd' else name)
            reg = [t for t in subterms(fn) if t[:2] == ('idx', ('v', 'operations'))]
            X = ('d', ('arg', 'Decision_Execute', 1, e.p.funcs['Decision_Execute'].params[1].split(':')[1]))
            ok = False
            for a in st.facts:
                if a[:2] == ('mark', 'copied') and fn[0] == 'ld' and fn[1] == ('fld', a[2], 'action'):
                    reg.append(a[3])
            for t in reg:
                ix = e.mk('+', t[2], ('c', 1))
                ids = [s for s in subterms(ix) if s[:2] == ('idx', fld(X, 'operationID'))]
                if ids and strip(ix)[0] == 'ld' and strip(ix)[1] == ids[0]:
                    ok = ids[0][2]
            if ok is False:
                self.bad['the operation called is not the registered one the decision names'] = w
                return
            if not (vals and vals[0][0] == 'ld' and vals[0][1] == ('idx', fld(X, 'arguments'), ok)):
                self.bad['the operation is not given the arguments of the decision'] = w
            st.facts[('mark', 'acted', rv, tuple(ctx) + ((f.name, ins.id),))] = True
            st.facts[('mark', 'op', ok)] = True
        if name == 'Term_OverrideSubterm' and any(a[:2] == ('mark', 'copied') and mentions(vals[2], lambda t: t == a[2]) or self.about(e, st, vals[2]) for a in list(st.facts)):
            self.built.add((tuple(ctx), ins.id))
        if name in ('Variable_ApplySubstitute', 'Variable_Unify', 'fgets'):
            self.outs.add((tuple(ctx), ins.id))
        if name == 'NAR_AddInputBelief':
            for a in [a for a in st.facts if a[0] == 'mark' and a[1] in ('acted',)]:
                del st.facts[a]
        if name == 'Variable_ApplySubstitute' and any(a[0] == 'mark' and a[1] == 'acted' for a in st.facts):
            st.facts[('mark', 'fb', rv, self.about(e, st, vals[0]))] = True

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'NAR_AddInputBelief' and any(a[0] == 'mark' and a[1] == 'acted' for a in st.facts):
            v = vals[0]
            ok = self.about(e, st, v) or any(a[0] == 'mark' and a[1] == 'fb' and a[2] == v and a[3] for a in st.facts)
            if not ok:
                self.bad['the fed back term is not about the executed operation'] = e.p.loc(f, ins)

    def on_store(self, e, st, f, ins, path, val, ctx):
        if path[0] == 'v' and e.islocal(path[1]):
            m = ('mark', 'named', path)
            st.facts.pop(m, None)
            if self.about(e, st, val):
                st.facts[m] = True
        if path[0] == 'idx' and path[1][0] == 'fld' and path[1][2] == 'op':
            for a in [a for a in st.facts if a[:3] == ('mark', 'copied', path)]:
                del st.facts[a]
            if val[0] == 'ld' and val[1][:2] == ('idx', ('v', 'operations')):
                st.facts[('mark', 'copied', path, val[1])] = True

    def about(self, e, st, v):
        """is the term the operator executed, or built with it"""
        ok = any(t[:2] == ('idx', ('v', 'operations')) for t in subterms(v)) or v[0] == 'phi' and ('mark', 'named', v[2]) in st.facts
        return ok or any(x[:1] == ('out',) and x[1] in self.built for x in subterms(v))

    def failed(self, e, st, acted):
        """does the path know that acting or describing it failed"""
        rv = acted[2]
        if truthy(e, st, e.proj(rv, ('fld', 'failed'))) is True:
            return True
        for a, tv in st.facts.items():
            x = a
            if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0):
                x, tv = a[2], not tv
            if tv is False and mentions(x, lambda t: t[0] == 'out' and t[1] in self.outs or t[0] in ('ret', 'call', 'fld') and any(isinstance(y, str) and y in ('Variable_ApplySubstitute', 'fgets', 'Variable_Unify') for y in t)):
                return True
        return False

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        for a in [a for a in st.facts if a[0] == 'mark' and a[1] == 'acted']:
            ch = a[3]
            if ch[:len(ctx)] != tuple(ctx) or len(ch) <= len(ctx) or ch[len(ctx)][1] not in body or ch[len(ctx)][0] != f.name:
                continue
            if not self.failed(e, st, a):
                self.bad['an executed operation is not reported back as input before the next one'] = e.p.loc(f, ins)

    def on_ret(self, e, st, f, ins, val, ctx):
        for a in [a for a in st.facts if a[0] == 'mark' and a[1] == 'acted']:
            if not ctx and not self.failed(e, st, a):
                self.bad['an executed operation is not reported back as input although nothing failed'] = e.p.loc(f, ins)


def action(ex):
    while ex[0] == 'd':
        ex = ex[1]
    return ex[0] == 'fld' and ex[2] == 'action'


def returned(f):
    return {('v', v[1]) for i in f.ins if i.k == 'ret' and i.a is not None for v in subterms(i.a) if v[0] == 'v' and v[1] in f.vars and f.vars[v[1]] == T}


class Best:
    """choice of the most desired candidate within one function"""
    def __init__(self, cx, fn, inhib):
        self.cx, self.fn, self.inhib = cx, fn, inhib
        self.ret = returned(cx.prog.funcs[fn])
        self.found, self.bad = set(), {}
        self.n = 0
        self.tc, self.tf = value(cx, 'SUBSUMPTION_CONFIDENCE_THRESHOLD'), value(cx, 'SUBSUMPTION_FREQUENCY_THRESHOLD')

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if isinstance(name, str) and name in e.p.funcs and e.p.types.canon(e.p.funcs[name].ret) == T and name != 'Decision_BetterDecision' and rv is not None:
            st.facts[('mark', 'candidate', tuple(ctx) + ((f.name, ins.id),), e.proj(rv, ('fld', 'desire')), rv)] = True
            self.n += 1
        if name == 'Decision_BetterDecision':
            st.facts[('mark', 'better', rv, vals[0], vals[1])] = True

    def candidates(self, st):
        return [a for a in st.facts if a[0] == 'mark' and a[1] == 'candidate']

    def better(self, st, v):
        """everything a value is the better one of"""
        out, todo = {v}, [v]
        while todo:
            x = todo.pop()
            for a in st.facts:
                if a[0] == 'mark' and a[1] == 'better' and a[2] == x:
                    for y in a[3:5]:
                        if y not in out:
                            out.add(y)
                            todo.append(y)
        return out

    def on_store(self, e, st, f, ins, path, val, ctx):
        if path[0] == 'v' and val == ('c', 1):
            lo = hi = False
            for a, tv in st.facts.items():
                if a[0] == 'b' and a[1] == '<' and tv is True:
                    lo |= a[2] == ('f', self.tc) and mentions(a[3], lambda t: t[0] == 'fld' and t[-1] == 'confidence')
                    hi |= a[3] == ('f', self.tf) and mentions(a[2], lambda t: t[0] == 'fld' and t[-1] == 'frequency')
            if lo and hi:
                self.found.add(path)
        if path in self.inhib:
            for a in [a for a in st.facts if a[:3] == ('mark', 'refuted', path)]:
                del st.facts[a]
            st.facts[('mark', 'refuted', path, truthy(e, st, val))] = True
        if path in self.ret and ins.k == 'set':
            w = e.p.loc(f, ins)
            d = e.proj(val, ('fld', 'desire'))
            # the best one so far: the value the iteration began with
            old = {x for x in subterms(tuple(st.facts)) if len(x) == 3 and x[0] == 'phi' and x[2] == path} | {e.read(st, path)}
            for a in [a for a in st.facts if a[0] == 'mark' and a[1] == 'kept' and a[2] == path]:
                del st.facts[a]
            st.facts[('mark', 'kept', path, d)] = True
            for c in self.candidates(st):
                if c[3] == d:
                    if not any(e.known_truth(st, e.mk('<', d, e.proj(o, ('fld', 'desire')))) is False for o in old):
                        self.bad['a candidate replaces the best one so far without being known to be as desired'] = w
                    if self.inhib:
                        novar = self.res(st, 'Variable_hasVariable', lambda a: mentions(a[0], lambda t: t[0] == 'fld' and t[-1] == 'precondition_beliefs'))
                        if novar is not False and {a[3] for a in st.facts if a[:2] == ('mark', 'refuted')} - {False}:
                            self.bad['a candidate is taken without being known not to be refuted by its specific implication'] = w

    def res(self, st, name, match):
        for a, tv in st.facts.items():
            x = a
            if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0):
                x, tv = a[2], not tv
            if x[0] == 'call' and x[1] == name and match(x[2]):
                return tv
        return None

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        for c in self.candidates(st):
            ch = c[2]
            if ch[:len(ctx)] != tuple(ctx) or len(ch) <= len(ctx) or ch[len(ctx)][1] not in body or ch[len(ctx)][0] != f.name:
                continue
            if not self.beaten(e, st, c):
                self.bad['a candidate is passed over without being known to be less desired than the best one'] = e.p.loc(f, ins)
            for a in [c] + [a for a in st.facts if a[:2] == ('mark', 'refuted')]:
                st.facts.pop(a, None)

    def beaten(self, e, st, c):
        if any(a[:2] == ('mark', 'refuted') and a[3] is True for a in st.facts):
            return True
        if truthy(e, st, e.proj(c[4], ('fld', 'execute'))) is False:
            return True
        for X in self.ret:
            if ('mark', 'kept', X, c[3]) in st.facts:
                return True
            if e.known_truth(st, e.mk('<', e.read(st, fld(X, 'desire')), c[3])) is False:
                return True
            v = e.read(st, X)
            if c[4] in self.better(st, v):
                return True
        return False


def best(ctx, rep):
    p = ctx.prog
    for fn, f in sorted(p.funcs.items()):
        if fn == 'Decision_BetterDecision':
            continue
        calls = [i for i in f.ins if i.k == 'call' and isinstance(i.b, str) and i.b in p.funcs and p.types.canon(p.funcs[i.b].ret) == T and i.b != 'Decision_BetterDecision']
        ls = [L for L in find_loops(f) if any(i.id in L.body for i in calls)]
        if not ls or not returned(f) and not any(i.k == 'call' and i.b == 'Decision_Execute' for i in f.ins):
            continue
        inhib = set()
        rel = lambda a: mentions(a, lambda t: t[0] == 'fld' and t[-1] in ('desire', 'confidence', 'frequency', 'execute') or t[0] == 'call' and t[1] == 'Variable_hasVariable' or t[0] == 'phi')
        for _ in range(2):
            h = Best(ctx, fn, inhib)
            if not h.ret:       # executed here instead of returned
                h.ret = {x for i in f.ins if i.k == 'call' and i.b == 'Decision_Execute' for x in subterms(tuple(i.c)) if x[0] == 'v' and f.vars.get(x[1]) == T}
            Engine(p, ctx.summ, ctx.known, K=300, hooks=h, relevant=rel, functional=FUNCTIONAL).run(fn)
            inhib = {x for x in h.found if x[1] in f.vars}
        for why, w in h.bad.items():
            rep.ob(False, 'the most desired candidate is chosen', w, why)
        if not h.bad:
            rep.ob(True, 'the most desired candidate is chosen', where(f), f'{h.n} candidate states', key=fn)
        rep.count('choices')
        # no candidate left unconsidered
        preds = f.preds()
        for L in ls:
            after, todo = set(), [i.id for i in calls if i.id in L.body]
            while todo:
                n = todo.pop()
                for m in f.ins[n].succ:
                    if m is not None and m in L.body and m != L.head and m not in after:
                        after.add(m)
                        todo.append(m)
            esc = [(u, v) for u, v in L.exits if u in after]
            rep.ob(not esc, 'every candidate is considered', p.loc(f, f.ins[esc[0][0]]) if esc else p.loc(f, f.ins[L.head]),
                   'the loop over the candidates may be left after one was considered' if esc else 'considering a candidate does not end the loop', key=f'{fn} loop')
    f = p.funcs.get('Decision_BetterDecision')
    if f is not None:
        e = Engine(p, ctx.summ, ctx.known, K=50, relevant=lambda a: True)
        A = [('arg', f.name, k, f.params[k].split(':')[1]) for k in (0, 1)]
        bad, n = None, 0
        for st, rv in e.run(f.name):
            n += 1
            k = [i for i in (0, 1) if rv == A[i] or rv[0] == 'ld' and mentions(rv, lambda t: t == A[i])]
            if len(k) != 1:
                bad = 'the result is none of the two decisions'
                continue
            me, other = A[k[0]], A[1 - k[0]]
            D = lambda a: e.proj(a, ('fld', 'desire'))
            X = lambda a: truthy(e, st, e.proj(a, ('fld', 'execute')))
            if X(other) is not False and e.known_truth(st, e.mk('<', D(me), D(other))) is not False:
                bad = 'a decision is preferred which is not known to be as desired as the other one'
            if k[0] == 1 and X(me) is not True:
                bad = 'a decision is preferred which is not known to be marked for execution'
        rep.ob(bad is None, 'the better decision is kept', where(f), bad or f'{n} paths', key='better')


def suggest(ctx, rep):
    """babbling is suppressed by a convincing suggestion, and nothing else is suggested"""
    p = ctx.prog
    f = p.funcs.get('Decision_Suggest')
    if f is None:
        return
    e = Engine(p, ctx.summ, ctx.known, K=100, relevant=lambda a: True)
    lim = value(ctx, 'MOTOR_BABBLING_SUPPRESSION_THRESHOLD')
    bad, n = None, 0
    for st, rv in e.run(f.name):
        n += 1
        if rv[0] == 'ret' and rv[2] == 'Decision_BestCandidate' or rv == ('zero',):
            continue
        if rv[0] == 'ret' and rv[2] == 'Decision_MotorBabbling':
            ok = any(a[0] == 'b' and a[1] == '<' and a[2] == ('f', lim) and tv is False and mentions(a[3], lambda t: 'Decision_BestCandidate' in t) for a, tv in st.facts.items())
            if not ok:
                bad = 'babbling is preferred although the suggestion may be convincing'
            continue
        if mentions(rv, lambda t: t[0] == 'ret' and t[2] in ('Decision_BestCandidate',)):
            continue
        bad = 'the suggestion is neither the best candidate nor babbling'
    rep.ob(bad is None, 'suggestions', where(f), bad or f'{n} paths', key='suggest')


class Negative:
    """evaluation of one candidate: each remembered outcome of the same operation is taken into account"""
    def __init__(self, cx):
        self.cx, self.bad, self.n, self.revised = cx, {}, 0, 0
        self.ages = {'goal_spike': int(value(cx, 'NEG_GOAL_AGE_MAX')), 'belief_spike': int(value(cx, 'EVENT_BELIEF_DISTANCE'))}

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark')

    def deduces(self, e, g, seen=()):
        if g == 'Inference_GoalSequenceDeduction':
            return True
        return isinstance(g, str) and g in e.p.funcs and g not in self.cx.known and g not in seen and any(self.deduces(e, c, seen + (g,)) for c in e.p.callees(g))

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name == 'Decision_ConsiderNegativeOutcomes' and expected(e.proj(vals[0], ('fld', 'desire'))):
            st.facts[('mark', 'evaluated')] = True

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name == 'Inference_RevisionAndChoice':
            a, b = pathto(vals[0]), pathto(vals[1])
            st.facts[('mark', 'merged', rv, a, e.read(st, b))] = True

    def on_store(self, e, st, f, ins, path, val, ctx):
        for a in st.facts:
            if a[0] == 'mark' and a[1] == 'merged' and a[2] == val:
                if a[3] != path:
                    self.bad['a remembered outcome does not add up with the others'] = e.p.loc(f, ins)
                if not mentions(a[4], lambda t: t[0] in ('ret', 'call') and 'Inference_GoalSequenceDeduction' in t):
                    self.bad['a remembered outcome is not evaluated by deduction'] = e.p.loc(f, ins)
                self.revised += 1

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        if not any(f.ins[n].k == 'call' and self.deduces(e, f.ins[n].b) for n in body):
            return
        self.n += 1
        done = [a for a in st.facts if a[0] == 'mark' and a[1] == 'merged']
        for a in done:
            del st.facts[a]
        if done:
            return
        # passed over: outdated, not happening, for another operation, or nothing desired
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '==' and tv is True and a[3] == ('c', 0) and a[2][0] == 'call' and a[2][1] in ('Term_Equal', 'Memory_ImplicationValid'):
                return
            if a[0] == 'call' and a[1] in ('Term_Equal', 'Memory_ImplicationValid') and tv is False:
                return
            if a[0] == 'b' and a[1] == '==' and tv is True and a[3] == ('c', 0) and mentions(a[2], lambda t: t[0] == 'fld' and t[-1] == 'type'):
                return
            if a[0] == 'b' and a[1] == '<' and tv is False and any(mentions(a[2], lambda t: len(t) == 3 and t[0] == 'fld' and t[2] == 'occurrenceTime' and mentions(t[1], lambda u: u[0] == 'fld' and u[-1] == slot))
                                                                   and a[3] == ('c', n) for slot, n in self.ages.items()):
                return
            if a[0] == 'b' and a[1] == '<' and tv is False and mentions(a[3], lambda t: t[0] == 'fld' and t[-1] == 'itemsAmount'):
                return
        self.bad['a remembered outcome is passed over which is valid, current, and about the same operation'] = e.p.loc(f, ins)


def expected(d):
    d = strip(d)
    return d[0] == 'call' and d[1] == 'Truth_Expectation' and mentions(d, lambda t: t[0] in ('ret', 'call') and 'Inference_GoalSequenceDeduction' in t)


def negative(ctx, rep):
    p = ctx.prog
    fn = 'Decision_ConsiderImplication'
    f = p.funcs.get(fn)
    if f is None:
        return
    h = Negative(ctx)
    e = Engine(p, ctx.summ, ctx.known, K=40, hooks=h, inline={'Decision_ConsiderNegativeOutcomes'}, functional=FUNCTIONAL,
               relevant=lambda a: mentions(a, lambda t: t[0] == 'call' and t[1] in ('Truth_Expectation', 'Term_Equal', 'Memory_ImplicationValid') or t[0] == 'fld' and t[-1] in ('type', 'occurrenceTime', 'itemsAmount')))
    ex = e.run(fn)
    bad, n = {}, 0
    for st, rv in ex:
        n += 1
        d = e.proj(rv, ('fld', 'desire'))
        if rv == ('zero',) or d in (('zero',), ('c', 0), ('f', 0.0)):
            continue
        half = any(a[0] == 'b' and a[1] == '<' and tv is False and a[3] == ('f', 0.5) and a[2][0] == 'call' and a[2][1] == 'Truth_Expectation' for a, tv in st.facts.items())
        if not half:
            bad['a candidate is returned without its remembered outcomes being known to be acceptable'] = 1
        d = strip(d)
        ok = expected(d) or ('mark', 'evaluated') in st.facts
        if not ok:
            bad['the desire of a candidate is not the expectation of the deduced operation goal'] = 1
    for why in bad:
        rep.ob(False, 'candidates are evaluated by deduction and their remembered outcomes', where(f), why)
    for why, w in h.bad.items():
        rep.ob(False, 'candidates are evaluated by deduction and their remembered outcomes', w, why)
    if not bad and not h.bad:
        rep.ob(True, 'candidates are evaluated by deduction and their remembered outcomes', where(f), f'{n} paths, {h.n} iterations', key='negative')
    rep.count('evaluation_paths', n)
    rep.count('remembered_outcomes', h.revised)


def evaluates(ctx, g, seen=()):
    """does a function evaluate a candidate or a remembered outcome"""
    p = ctx.prog
    if not isinstance(g, str) or g in seen:
        return False
    if g == 'Inference_RevisionAndChoice' or g in p.funcs and p.types.canon(p.funcs[g].ret) == T and g != 'Decision_BetterDecision':
        return True
    return g in p.funcs and g not in ctx.known and any(evaluates(ctx, c, seen + (g,)) for c in p.callees(g))


def scans(ctx, rep):
    """the loops over the concepts and their tables begin with the first entry and leave none out"""
    p = ctx.prog
    for fn in sorted(p.funcs):
        f = p.funcs[fn]
        if not f.file.endswith(('Decision.c', 'Cycle.c')):
            continue
        for L in find_loops(f):
            for v, (init, step, tests) in L.ivs.items():
                t = [x for x in tests if mentions((x[2],), lambda t: t[0] == 'fld' and t[-1] == 'itemsAmount')]
                if not t or init is None or init[0] != 'c' or step < 0:
                    continue
                ok = init[1] <= 0 and step == 1 and t[0][1] in ('<', '!=')
                rep.ob(ok, 'every candidate is considered', p.loc(f, f.ins[L.head]), 'all entries' if ok else 'the loop over the entries leaves some out', key=f'{fn} entries')
                rep.count('scans')
                if f.file.endswith('Decision.c') and any(f.ins[u].k == 'call' and evaluates(ctx, f.ins[u].b) for u in L.body):
                    out = [u for u, x in L.exits if u != t[0][0] and not (f.ins[x].k == 'call' and f.ins[x].b in ('abort', 'exit', '__assert_fail'))]
                    rep.ob(not out, 'every candidate is considered', p.loc(f, f.ins[L.head]), 'the loop ends after the last entry' if not out else f'the loop over the candidates and outcomes ends early at {p.loc(f, f.ins[out[0]])}', key=f'{fn} ends')


def check(ctx):
    rep = Report('C15', ctx, 'Abstract interpretation over all paths: a decision is marked for execution only where the path knows its desire to reach the threshold, or won the draw against the babbling chance '
                 '(established in the function or in every caller); only Decision_Execute calls operations, and only where the path knows the mark and a named operation, once per step. The best candidate: '
                 'at each iteration of the choosing loops the kept decision is known to be at least as desired as the candidate just considered, refuted ones excepted. An evaluated candidate survives only '
                 'if the revised remembered outcomes are known not to be negative. Each executed operation is the registered one and is reported back unless acting or describing it is known to have failed.',
                 ['user-defined operations return', 'the truth and desire functions are those of C04'])
    p, s = ctx.prog, ctx.summ
    sites = [(fn, i) for fn, f in p.funcs.items() for i in f.ins if i.k == 'call' and not isinstance(i.b, str) and action(i.b)]
    hosts = {'Decision_Execute'}
    cs = p.callers()
    while True:     # helpers only Decision_Execute uses
        more = {fn for fn, _ in sites if fn not in hosts and fn not in ctx.known and cs.get(fn) and all(g.name in hosts for g, _ in cs[fn])}
        if not more:
            break
        hosts |= more
    for fn, i in sites:
        rep.ob(fn in hosts, 'operations are called by the execution of a decision only', p.loc(p.funcs[fn], i), 'within Decision_Execute' if fn in hosts else f'{fn} calls an operation without a decision', key=fn)
    taken = set(p.fnptr_refs())
    rep.ob('Decision_Execute' not in taken, 'operations are called by the execution of a decision only', 'Decision_Execute', 'not called through pointers', key='taken')
    interesting = [r for r in ctx.roots() if any(i.k == 'call' and i.b in ('Decision_Execute',) for i in p.funcs[r].ins) or writes(p, r) or any(writes(p, c) for c in p.callees(r) if c in p.funcs and c not in ctx.known)]
    rel = lambda t: mentions(t, lambda x: x[0] == 'fld' and x[-1] in ('desire', 'execute', 'operationID') or 'myrand' in x or x == ('v', 'DECISION_THRESHOLD'))
    res, stats = expand(ctx, lambda: Execution(ctx), interesting, depth=3, K=40, relevant=rel)
    for ok, root, w, detail, skey in res:
        rep.ob(ok, 'executed only with sufficient support', w, detail, key=f'{skey} {w.split("(")[-1].rstrip(")")}')
    rep.count('support_obligations', len(res))
    for fn in p.funcs:
        f = p.funcs[fn]
        L = find_loops(f)
        for i in f.ins:
            if i.k == 'call' and i.b == 'Decision_Execute':
                inl = [l for l in L if i.id in l.body]
                rep.ob(not inl, 'at most one decision per step', p.loc(f, i), 'executed after the goals of the step were considered' if not inl else 'a decision is executed within a loop', key=f'{fn} once')
                rep.count('executions')
    best(ctx, rep)
    suggest(ctx, rep)
    negative(ctx, rep)
    f = p.funcs.get('Decision_Execute')
    if f is not None:
        h = Acting(ctx)
        Engine(p, s, ctx.known, K=60, hooks=h, functional=FUNCTIONAL, relevant=lambda a: mentions(a, lambda t: any(isinstance(y, str) and y in ('Variable_ApplySubstitute', 'fgets', 'Variable_Unify', 'failed', '*') for y in t))).run('Decision_Execute')
        for why, w in h.bad.items():
            rep.ob(False, 'executed operations are registered and reported back', w, why)
        if not h.bad:
            rep.ob(True, 'executed operations are registered and reported back', where(f), f'{h.n} states at the call of an operation', key='feedback')
        rep.count('action_states', h.n)
    scans(ctx, rep)
    rep.expect('calls of operations', len(sites), 1)
    rep.expect('executions of decisions', rep.counts.get('executions', 0), 1)
    rep.expect('choices of candidates', rep.counts.get('choices', 0), 2)
    rep.expect('support obligations', len(res), 3)
    return rep


def writes(p, fn):
    for i in p.funcs[fn].ins:
        if i.k == 'set' and i.a[0] == 'fld' and i.a[2] in ('execute', 'desire'):
            return True
    return False
