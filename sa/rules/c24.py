"""C24: past, present and predicted knowledge are kept apart."""
from ..core import *
from ..records import Escapes
from .c23 import SLOTS, CHOICE

ETERNAL = ('c', -1)
# the event being processed is not part of a concept that conceptualization or queueing recycles meanwhile
FRAME = {'Memory_Conceptualize': True, 'Memory_addCyclingEvent': True}


def known(e, st, a):
    return e.known_truth(st, a)


class Kinds(Escapes):
    def __init__(self, cx):
        super().__init__(cx, ('Event',))
        self.rt_cache = {}

    def key(self, st):
        """joins only merge paths on which the records at hand are the same"""
        return frozenset((q, v) for q, v in st.env.items() if v[0] in ('ld', 'with', 'ret', 'agg') and q[0] == 'v' and self.rectype(q[1]) == 'Event')

    def rectype(self, v):
        t = self.rt_cache.get(v)
        if t is None:
            f = self.cx.prog.funcs.get(v.split(':')[0]) if ':' in v else None
            t = self.cx.prog.types.canon(f.vars[v]) if f and v in f.vars else ''
            self.rt_cache[v] = t
        return t

    # --- facts about a record
    def time_facts(self, e, st, get):
        occ = get('occurrenceTime')
        ne = known(e, st, e.mk('==', occ, ETERNAL))
        return occ, (True if occ == ETERNAL or ne is True else False if ne is False else None)

    def is_type(self, e, st, get, code):
        t = get('type')
        r = known(e, st, e.mk('==', t, ('c', code)))
        if r is None and known(e, st, e.mk('==', t, ('c', 3 - code))) is False:
            return 'other excluded'
        return r

    def now(self, e, st, f, ctx):
        """values that stand for the current time"""
        out = [e.read(st, ('v', 'currentTime'))] if 'currentTime' in e.p.globals else []
        chain = [c[0] for c in ctx] + [f.name]
        for g in chain:
            gf = e.p.funcs[g]
            for v in gf.params:
                if v.split(':')[-1] == 'currentTime':
                    out.append(e.read(st, ('v', v)))
                    out.append(('arg', g, gf.params.index(v), 'currentTime'))
        return out

    def observed(self, e, st, f, ctx, occ):
        """occ is not in the future: the current time, or the recorded time of something that occurred"""
        if occ in self.now(e, st, f, ctx):
            return True
        for n in self.now(e, st, f, ctx):
            if known(e, st, e.mk('<', n, occ)) is False:
                return True
        return None

    def future(self, e, st, f, ctx, occ):
        return any(known(e, st, e.mk('<', n, occ)) is True for n in self.now(e, st, f, ctx))

    def predicted(self, e, st, occ):
        """occ = time of a premise + recorded distance of an implication: True if that implication is temporal, False if declarative, None if not of that form"""
        while occ[0] == 'trunc':
            occ = occ[1]
        if occ[0] == 'b' and occ[1] == '+':
            for x in subterms(occ):
                if len(x) == 3 and x[0] in ('ld', 'fld'):
                    p = x[1] if x[0] == 'ld' else x
                    if p[0] == 'fld' and p[2] == 'occurrenceTimeOffset':
                        return self.temporal(e, st, p[1] if x[0] == 'ld' else x[1])
        return None

    def temporal(self, e, st, imp):
        """what the path knows about the copula of the implication record at path imp (or record value imp)"""
        res = 'unknown'
        want = self.code(e)
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0) and a[2][0] == 'call' and a[2][1] == 'Narsese_copulaEquals':
                x, c = a[2][2][0], a[2][2][1]
                if c == want and mentions(x, lambda t: t == imp):
                    res = not tv
        return res

    def code(self, e):
        v = self.cx.macro('TEMPORAL_IMPLICATION')
        if v and v.startswith("'"):
            return ('c', ord(v[1]))
        return ('c', int(v)) if v else None

    # --- places
    def slot_rule(self, e, st, f, ins, ctx, slot, get, how):
        where = e.p.loc(f, ins)
        key = (slot, how)
        if any(known(e, st, e.mk('==', n, ETERNAL)) is True for n in self.now(e, st, f, ctx)):
            return      # the current time is a cycle count
        if slot == 'goal_spike':
            t = self.is_type(e, st, get, 1)
            ok = bool(t) or self.from_queue(get, 'selectedGoals')
            return self.rec(ctx, f, ins, key, ok, where, 'a goal is stored as goal' if ok else 'what is stored as goal is not known to be a goal')
        t = self.is_type(e, st, get, 2)
        occ, et = self.time_facts(e, st, get)
        if slot == 'belief':
            ok = et is True
            return self.rec(ctx, f, ins, key, ok, where, 'the eternal belief receives eternal knowledge' if ok else 'the eternal belief receives knowledge not known to be eternal')
        pred = self.predicted(e, st, occ)
        if slot == 'predicted_belief':
            ok = self.future(e, st, f, ctx, occ) or pred is True
            return self.rec(ctx, f, ins, key, ok, where, 'predictions receive knowledge about the future' if ok else 'an event that is not known to lie in the future, nor concluded by a temporal implication, is stored as prediction')
        if slot == 'belief_spike':
            if pred is not None:
                ok = pred is False
                return self.rec(ctx, f, ins, key, ok, where, 'the observation follows by a declarative implication' if ok else 'an event concluded by a temporal implication is stored as observation')
            if et is not False and how == 'choice':
                return self.rec(ctx, f, ins, key, False, where, 'knowledge that may be eternal is stored as observation')
            if how == 'choice' and not self.observed(e, st, f, ctx, occ):
                return self.rec(ctx, f, ins, key, False, where, 'an event that may lie in the future is stored as observation')
            if how != 'choice' and not t:
                return self.rec(ctx, f, ins, key, False, where, 'what is stored as observation is not known to be a belief')
            self.rec(ctx, f, ins, key, True, where, 'observations receive events that occurred')

    def from_queue(self, get, name):
        return mentions(get('type'), lambda t: t == ('v', name))

    def call(self, e, st, f, ins, name, vals, ctx):
        if name == CHOICE:
            v = vals[0]
            if v[0] == 'a' and v[1][0] == 'fld' and v[1][2] in SLOTS:
                x = vals[1]
                xp = x[1] if x[0] == 'a' else ('d', x)
                self.slot_rule(e, st, f, ins, ctx, v[1][2], lambda fl: e.read(st, ('fld', xp, fl)), 'choice')
        elif name == 'Memory_ProcessNewBeliefEvent':
            x = vals[0]
            xp = x[1] if x[0] == 'a' else ('d', x)
            t = self.is_type(e, st, lambda fl: e.read(st, ('fld', xp, fl)), 2)
            self.rec(ctx, f, ins, (name,), bool(t), e.p.loc(f, ins), 'a belief is processed as belief' if t else 'what is processed as belief is not known to be one')
        elif name == 'PriorityQueue_Push' and f.name != 'Memory_Conceptualize':
            q = vals[0]
            names = [n for n in ('cycling_belief_events', 'cycling_goal_events') if mentions(q, lambda t: t == ('v', n))]
            if len(names) == 1:
                code = 2 if 'belief' in names[0] else 1
                ok = False
                for a, tv in st.facts.items():
                    if a[0] == 'b' and a[1] == '==' and mentions(a[2], lambda t: t[0] == 'fld' and t[2] == 'type') and a[3][0] == 'c':
                        if (a[3][1] == code and tv) or (a[3][1] == 3 - code and not tv):
                            ok = True
                self.rec(ctx, f, ins, (name, names[0]), ok, e.p.loc(f, ins), f'{names[0]} receives only events of its type' if ok else f'an event not known to be of its type enters {names[0]}')
        elif name in ('Memory_AddEvent', 'NAL_DerivedEvent'):
            x = vals[0]
            if name == 'Memory_AddEvent':
                xp = x[1] if x[0] == 'a' else ('d', x)
                occ = e.read(st, ('fld', xp, 'occurrenceTime'))
            else:
                occ = vals[1]
            future = mentions(occ, lambda t: len(t) == 3 and t[0] == 'fld' and t[2] in ('predicted_belief', 'occurrenceTimeOffset'))
            self.rec(ctx, f, ins, (name,), not future, e.p.loc(f, ins), 'added knowledge is about what occurred' if not future else 'knowledge about a predicted time is added as event', False)

    def record(self, *a):
        pass

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        if r[0] == 'v' and e.islocal(r[1]):
            return
        if path[0] == 'fld' and path[2] in SLOTS and e.ty.T.canon(e.path_type(path) or '') == 'Event':
            if val[0] == 'ret' and val[2] == CHOICE:
                return
            if val in (('zero',), ('c', 0)):
                return
            self.slot_rule(e, st, f, ins, ctx, path[2], lambda fl: e.proj(val, ('fld', fl)), 'selected')

    def on_ret(self, *a):
        pass


def pairing(ctx, rep):
    """selected events come from the queue of their kind"""
    p = ctx.prog
    want = {'selectedBeliefs': 'cycling_belief_events', 'selectedGoals': 'cycling_goal_events'}
    for fn, f in p.funcs.items():
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str):
                for s, q in want.items():
                    if any(mentions((a,), lambda t: t == ('v', s)) for a in i.c):
                        qs = {n for n in want.values() if any(mentions((a,), lambda t: t == ('v', n)) for a in i.c)}
                        if qs:
                            rep.ob(qs == {q}, 'selection from the queue of the kind', p.loc(f, i), f'{s} is filled from {", ".join(sorted(qs))}', key=f'{s} from {sorted(qs)} in {fn}')
                            rep.count('selections')


def check(ctx):
    rep = Report('C24', ctx, 'Abstract interpretation of every writer of the knowledge places of a concept (eternal belief, observation, prediction, goal) and of the event queues: '
                 'on every path the record stored is known (branch facts, constants, form of the occurrence time) to be of the kind the place is for; helpers inlined, callers examined where a '
                 'function relies on them.',
                 ['events selected from the belief queue occurred (what enters the queue is checked)', 'beliefs and goals are the only event types besides deleted (asserted where they are added)'])
    p = ctx.prog
    touch = lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in SLOTS
    SINK = {CHOICE, 'Memory_ProcessNewBeliefEvent', 'Memory_AddEvent', 'NAL_DerivedEvent', 'PriorityQueue_Push'}

    def hit(fn, seen=()):
        f = p.funcs[fn]
        for i in f.ins:
            if i.k == 'call' and i.b in SINK:
                return True
            if i.k in ('set', 'call') and i.a is not None and i.a[0] == 'fld' and i.a[2] in SLOTS:
                return True
        return any(c in p.funcs and c not in ctx.known and c not in seen and hit(c, seen + (fn,)) for c in p.callees(fn))
    roots = [r for r in ctx.roots() if hit(r)]
    code = Kinds(ctx).code(None)
    rel = lambda t: mentions(t, lambda x: (len(x) == 3 and x[0] == 'fld' and x[2] in ('occurrenceTime', 'type')) or (x[0] == 'call' and x[1] == 'Narsese_copulaEquals' and x[2][1] == code) or (t[0] == 'b' and code in t[2:4]) or (t[0] == 'b' and t[1] == '==' and t[2][0] == 'arg' and t[3][0] == 'c'))
    res, stats = expand(ctx, lambda: Kinds(ctx), roots, depth=1, K=48, relevant=rel, inline={'Event_Eternalized', 'Inference_BeliefDeduction', 'Inference_EventUpdate', 'Inference_BeliefIntersection'}, engine_kw=dict(frame=FRAME))
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'knowledge enters the place of its kind', where, detail, key=f'{skey} {where.split("(")[-1].rstrip(")")}')
    rep.count('sites', len({(w, s) for _, _, w, _, s in res}))
    rep.count('abstract_states', stats['states'])
    pairing(ctx, rep)
    rep.expect('sites where knowledge enters memory', rep.counts['sites'], 10)
    return rep
