"""C17: temporal relations respect the order of events.

Truth values of events are tracked together with the time they are valid at: a truth read from an event is valid at that event's occurrence time, a
projected one at its target time, one of an implication or an eternal belief at any time. Every place where two of them meet must have them at one time;
every event and link record built from them must carry a time that follows from its premises' times."""
from ..core import *
from ..records import Escapes

COPY = ('occurrenceTime', 'occurrenceTimeOffset')
ZERO = (('c', 0), ('zero',), ('f', 0.0), ('c', 0.0))


def untrunc(v):
    while v[0] in ('trunc', 'cast'):
        v = v[-1]
    return v


def exprs(v):
    return [t for t in subterms(v) if isinstance(t, tuple) and len(t) >= 2 and isinstance(t[0], str)]


class Times(Escapes):
    def __init__(self, cx, later):
        super().__init__(cx, ('Event', 'Implication'))
        self.later = later      # functions whose first event argument may not be later than their second one
        p = cx.prog
        self.truth2 = {n for n, (r, ts) in p.protos.items() if sum(1 for t in ts if p.types.canon(t) == 'Truth') >= 2 and n not in ('Truth_Equal', 'Truth_Projection')} | \
                      {n for n, f in p.funcs.items() if sum(1 for v in f.params if p.types.canon(f.vars[v]) == 'Truth') >= 2 and n not in ('Truth_Equal', 'Truth_Projection')}

    # -- records
    def rec_of(self, e, st, v):
        """the record a truth value is the truth of: ('Event'|'Implication', getter, slot) or None"""
        v = untrunc(v)
        if v[0] == 'ld' and v[1][0] == 'fld' and v[1][2] == 'truth':
            rp = v[1][1]
            T = e.ty.T.canon(e.path_type(rp) or '')
            slot = rp[2] if rp[0] == 'fld' else None
            ep = v[2]

            def get(fld, rp=rp):
                return e.read(st, ('fld', rp, fld))
            return T, get, slot, rp
        if v[0] == 'fld' and v[2] == 'truth':
            rv = v[1]
            T = self.value_type(e, rv)
            return T, (lambda fld: e.proj(rv, ('fld', fld))), self.slot_of(rv), rv
        return None

    def slot_of(self, rv):
        if rv[0] == 'ld' and rv[1][0] == 'fld':
            return rv[1][2]
        return None

    def value_type(self, e, rv):
        if rv[0] == 'ret' and rv[2] in e.p.funcs:
            return e.ty.T.canon(e.p.funcs[rv[2]].ret)
        if rv[0] == 'ld':
            return e.ty.T.canon(e.path_type(rv[1]) or '')
        if rv[0] in ('phi', 'el', 'out') or rv[0] == 'arg':
            fields = None
            try:
                if rv[0] == 'arg':
                    f = e.p.funcs[rv[1]]
                    return e.ty.T.canon(f.vars[f.params[rv[2]]])
                t = e.path_type(rv[-1] if rv[0] == 'phi' else rv[1][-1]) if rv[0] != 'out' else ''
                if rv[0] == 'el':
                    t = e.ty.T.elem(t) or t
                return e.ty.T.canon(t or '')
            except Exception:
                return ''
        if rv[0] == 'with':
            return self.value_type(e, rv[1])
        if rv[0] == 'agg':
            return e.ty.T.canon(rv[1])
        return ''

    def time(self, e, st, v):
        """('at', occ) | 'any' | ('param', v) | None when the time is not known"""
        v = untrunc(v)
        if v[0] == 'call' and v[1] == 'Truth_Projection':
            t, a, b = v[2][:3]
            if a[0] == 'c' and a[1] == 0:        # by a distance
                b = untrunc(b)
                if b[0] == 'call' and b[1] in ('round', 'lround', 'rint'):
                    b = untrunc(b[2][0])
                return 'any' if self.owner(b, 'occurrenceTimeOffset') else ('bad', 'a truth is projected over something other than the distance of a link')
            w = self.time(e, st, t)
            if w is None or (w[0] == 'at' and w[1] != a and e.known_truth(st, e.mk('==', w[1], a)) is not True):
                return ('bad', 'a truth is projected from a time it does not refer to')
            return ('at', b)
        if v[0] == 'call' and v[1] == 'Truth_Eternalize':
            return 'any'
        if v[0] == 'call' and v[1].startswith('Truth_'):
            ts = [self.time(e, st, x) for x in v[2] if x[0] != 'c']
            ts = [t for t in ts if t != 'any']
            if not ts:
                return 'any'
            if all(t == ts[0] for t in ts):
                return ts[0]
            bad = [t for t in ts if t and t[0] == 'bad']
            return bad[0] if bad else None
        if v[0] == 'agg' or (v[0] == 'ld' and v[1][0] == 'v'):
            return 'any'          # given constants
        r = self.rec_of(e, st, v)
        if r:
            T, get, slot, _ = r
            if T == 'Implication' or slot == 'belief':
                return 'any'
            occ = get('occurrenceTime')
            if occ == ('c', -1) or e.known_truth(st, e.mk('==', occ, ('c', -1))) is True:
                return 'any'
            return ('at', occ)
        if v[0] == 'arg':
            return ('param', v)
        return None

    def same(self, e, st, a, b):
        if a == b:
            return True
        return e.known_truth(st, e.mk('==', a, b)) is True

    # -- sites
    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name in self.later:
            self.order(e, st, f, ins, vals, ctx, name, e.p.loc(f, ins))
        super().on_call(e, st, f, ins, name, vals, ctx)

    def call(self, e, st, f, ins, name, vals, ctx):
        where = e.p.loc(f, ins)
        if name == 'Truth_Projection':
            w = self.time(e, st, ('call', name, tuple(vals)))
            if w and w[0] == 'bad':
                self.rec(ctx, f, ins, ('projection',), False, where, w[1])
            else:
                self.rec(ctx, f, ins, ('projection',), True, where, 'projected from its own time')
        if name in self.truth2:
            tys = [e.p.types.canon(t) for t in e.p.protos[name][1]] if name in e.p.protos else [e.p.types.canon(e.p.funcs[name].vars[v]) for v in e.p.funcs[name].params]
            tk = [j for j, t in enumerate(tys) if t == 'Truth']
            ts = [(vals[j], self.time(e, st, vals[j])) for j in tk]
            at = [t for _, t in ts if t and t[0] == 'at']
            bad = [t for _, t in ts if t and t[0] == 'bad']
            ok = not bad and all(self.same(e, st, at[0][1], t[1]) for t in at[1:])
            self.rec(ctx, f, ins, (name, 'same time'), ok, where, 'combined truths refer to one time' if ok else 'truth values of different times are combined')
            # a conclusion drawn from them refers to that time
            for j in [j for j, t in enumerate(tys) if t == 'long' and j > tk[-1]][:1]:
                if at:
                    ok = self.same(e, st, vals[j], at[0][1])
                    self.rec(ctx, f, ins, (name, 'conclusion time'), ok, where, 'the conclusion refers to that time' if ok else 'the conclusion gets another time than its premises refer to')
        # a recorded distance travels with its statement
        if name in e.p.funcs:
            self.distance_args(e, st, f, ins, name, vals, ctx, where)

    def event_time(self, e, st, x):
        p = x[1] if x[0] == 'a' else ('d', x)
        return e.read(st, ('fld', p, 'occurrenceTime')), p

    def order(self, e, st, f, ins, vals, ctx, name, where):
        i, j = self.later[name]
        a, b = vals[i], vals[j]
        ta, pa = self.event_time(e, st, a)
        tb, pb = self.event_time(e, st, b)
        k = e.known_truth(st, e.mk('<', tb, ta))
        ok = k is False or self.same(e, st, ta, tb)
        if not ok and not ctx and f.name in self.later:
            return        # its callers are examined
        if not ok:
            # what was observed is not later than now
            src = ta[1] if ta[0] == 'ld' else None
            if src and src[0] == 'fld' and src[1][0] == 'fld' and src[1][2] == 'belief_spike' and self.is_now(e, st, tb, f):
                ok = True
        self.rec(ctx, f, ins, (name, 'order'), ok, where, 'the first event is known not to be later than the second' if ok else 'events are related without knowing their order', False)

    def is_now(self, e, st, v, f):
        return v[0] == 'arg' and v[3] == 'currentTime' or v == ('ld', ('v', 'currentTime'), ()) or (v[0] == 'ld' and v[1] == ('v', 'currentTime'))

    def owner(self, v, fld):
        """the record a field value was read from (hash epochs ignored)"""
        v = untrunc(v)
        if v[0] == 'ld' and v[1][0] == 'fld' and v[1][2] == fld:
            return ('p', v[1][1])
        if v[0] == 'fld' and v[2] == fld:
            r = v[1]
            return ('p', r[1]) if r[0] == 'ld' else ('v', r)
        return None

    def distance_args(self, e, st, f, ins, name, vals, ctx, where):
        own = [k for k, q in enumerate(f.params) if q.split(':')[-1] == 'occurrenceTimeOffset' and e.p.types.canon(f.vars[q]) == 'double']
        for k, q in enumerate(e.p.funcs[name].params):
            if own and q.split(':')[-1] == 'occurrenceTimeOffset' and k < len(vals) and e.p.types.canon(e.p.funcs[name].vars[q]) == 'double':
                v = untrunc(vals[k])
                ok = v == ('arg', f.name, own[0], 'occurrenceTimeOffset') or self.owner(v, 'occurrenceTimeOffset') is not None
                self.rec(ctx, f, ins, (name, 'handed on'), ok, where, 'the distance is handed on' if ok else 'the distance given along with a statement is dropped', False)
        offs = [self.owner(v, 'occurrenceTimeOffset') for v in vals]
        if not any(offs):
            return
        o = [x for x in offs if x][0]
        others = []
        for a, v in zip(ins.c, vals):
            for fld in ('truth', 'term', 'stamp'):
                w = self.owner(v, fld)
                if w:
                    others.append(w)
            if v[0] == 'a' and v[1][0] == 'fld' and v[1][2] in ('stamp', 'term', 'truth'):
                others.append(('p', v[1][1]))
        if others and name in e.p.funcs and any(q.split(':')[-1] == 'occurrenceTimeOffset' for q in e.p.funcs[name].params):
            ok = o in others or any(mentions(w, lambda t: t == o[1]) for w in others)
            self.rec(ctx, f, ins, (name, 'distance'), ok, where, 'the distance passed is that of the statement passed' if ok else 'the distance of another statement is passed along')

    def record(self, e, st, f, ins, ctx, how, T, get, path, sink):
        where = e.p.loc(f, ins)
        if T == 'Implication':
            self.link(e, st, f, ins, ctx, how, get, where, path)
        if T == 'Event':
            self.event(e, st, f, ins, ctx, how, get, where, path)

    def field(self, e, st, f, ins, ctx, T, path, val):
        if path[2] in COPY:
            # a lone update of the time of a record in memory
            ok = val in ZERO
            self.rec(ctx, f, ins, ('lone', path[2]), ok, e.p.loc(f, ins), 'reset' if ok else f'the {path[2]} of a record in memory is changed on its own')

    def link(self, e, st, f, ins, ctx, how, get, where, path):
        off = untrunc(get('occurrenceTimeOffset'))
        truth = get('truth')
        term = get('term')
        key = ('link', how)
        if off in ZERO and (truth in ZERO or e.proj(truth, ('fld', 'confidence')) in ZERO):
            return
        o = self.owner(off, 'occurrenceTimeOffset')
        if o:
            # copied: the statement has to be that one's too
            ow = self.owner(term, 'term')
            ok = ow == o or ow is None or (o[0] == 'p' and ow[0] == 'p' and ow[1] == o[1])
            return self.rec(ctx, f, ins, key, ok, where, 'distance and statement come from one record' if ok else 'the distance of another statement is stored', False)
        if off[0] == 'b' and off[1] == '-':
            b, a = off[2], off[3]
            oa, ob = self.owner(a, 'occurrenceTime'), self.owner(b, 'occurrenceTime')
            if oa and ob:
                facts = e.known_truth(st, e.mk('<', b, a))
                if facts is not False:
                    return self.rec(ctx, f, ins, key, False, where, 'a link is learned although its precondition may be later than its consequence', False)
                # which is the subject?
                sub = self.parts(st, f)
                ok = sub is None or (sub.get(1) == oa[1] and sub.get(2) == ob[1])
                if not ok:
                    return self.rec(ctx, f, ins, key, False, where, 'the distance is measured against the direction of the link', False)
                t = self.time(e, st, truth)
                ok = t == 'any' or (t and t[0] == 'at' and self.same(e, st, t[1], b))
                return self.rec(ctx, f, ins, key, ok, where, 'the distance is consequence time minus precondition time' if ok else 'the truth of the link does not refer to the time of the consequence', False)
            return self.rec(ctx, f, ins, key, False, where, 'a distance is not the difference of two occurrence times', False)
        if off[0] == 'b' and off[1] == '/':
            return self.rec(ctx, f, ins, key, *self.weighted(e, off, truth, where), False)
        self.rec(ctx, f, ins, key, False, where, f'a link is given a distance of unknown origin: {str(off)[:160]}', False)

    def weighted(self, e, off, truth, where):
        num, den = off[2], off[3]
        if num[0] == 'b' and num[1] == '+' and den[0] == 'b' and den[1] == '+':
            ws = {}
            for m in num[2:4]:
                m = untrunc(m)
                if m[0] != 'b' or m[1] != '*':
                    break
                for x, w in ((m[2], m[3]), (m[3], m[2])):
                    o = self.owner(x, 'occurrenceTimeOffset')
                    if o:
                        ws[o] = w
            if len(ws) == 2 and set(ws.values()) == set(den[2:4]):
                for o, w in ws.items():
                    if not (w[0] == 'call' and w[1] == 'Truth_c2w'):
                        return False, where, 'revised distances are not weighted by evidence'
                    c = w[2][0]
                    oc = None
                    if c[0] == 'ld' and c[1][0] == 'fld' and c[1][1][0] == 'fld' and c[1][1][2] == 'truth':
                        oc = ('p', c[1][1][1])
                    elif c[0] == 'fld' and c[2] == 'confidence':
                        oc = self.owner(c[1], 'truth')
                    if oc != o:
                        return False, where, 'a distance is weighted by the evidence of the other statement'
                return True, where, 'revised distance: average weighted by the amounts of evidence'
        return False, where, 'a revised distance is not the average of both distances'

    def parts(self, st, f):
        return self.sub.get(f.name)

    sub = {}

    def event(self, e, st, f, ins, ctx, how, get, where, path):
        truth = untrunc(get('truth'))
        occ = untrunc(get('occurrenceTime'))
        own = [q for q in f.params if q.split(':')[-1] == 'occurrenceTimeOffset']
        if own and truth[0] == 'arg' and truth[1] == f.name:
            off = untrunc(get('occurrenceTimeOffset'))
            ok = off == ('arg', f.name, f.params.index(own[0]), 'occurrenceTimeOffset')
            self.rec(ctx, f, ins, ('distance of', how), ok, where, 'the distance given is recorded' if ok else 'the distance given along with a statement is not recorded', False)
        if truth[0] != 'call' or not truth[1].startswith('Truth_'):
            return
        t = self.time(e, st, truth)
        key = ('event', how)
        if t == 'any':
            return
        if t is None or t[0] == 'bad':
            return self.rec(ctx, f, ins, key, False, where, 'the truth of an event mixes times', False)
        if t[0] == 'param':
            return
        typ = get('type')
        if occ[0] == 'b' and occ[1] == '+' and any(self.owner(x, 'occurrenceTimeOffset') for x in occ[2:4]):
            x = [y for y in occ[2:4] if not self.owner(y, 'occurrenceTimeOffset')]
            o = [self.owner(y, 'occurrenceTimeOffset') for y in occ[2:4] if self.owner(y, 'occurrenceTimeOffset')][0]
            used = [self.owner(y, 'truth') for y in exprs(truth)]
            ok = len(x) == 1 and self.same(e, st, x[0], t[1]) and o in used
            return self.rec(ctx, f, ins, key, ok, where, 'a prediction lies the distance of its link after the precondition' if ok else 'a prediction is dated by a link or event it was not made from', False)
        if mentions(occ, lambda y: len(y) == 3 and y[0] == 'fld' and y[2] == 'occurrenceTimeOffset'):
            return self.rec(ctx, f, ins, key, False, where, 'a prediction is not dated precondition time plus distance', False)
        links = [y for y in exprs(truth) for r in [self.rec_of(e, st, y) if len(y) == 3 and y[0] in ('ld', 'fld') else None] if r and r[0] == 'Implication']
        if links and typ != ('c', 1):
            # deduction of a belief along a link: only an eternal premise leaves the time open
            return self.rec(ctx, f, ins, key, False, where, 'a conclusion along a link is not dated by the distance of the link', False)
        ok = self.same(e, st, occ, t[1]) or (typ == ('c', 1) and self.is_now(e, st, occ, f))
        self.rec(ctx, f, ins, key, ok, where, 'the truth of the event refers to its time' if ok else 'an event is stored with a truth that refers to another time', False)


def sides(p):
    """{function: {1: event path whose term becomes the subject, 2: ... the predicate}} where a statement is assembled from two events"""
    out = {}
    for n, f in p.funcs.items():
        d = {}
        for i in f.ins:
            if i.k == 'call' and i.b == 'Term_OverrideSubterm' and i.c[1][0] == 'c' and i.c[1][1] in (1, 2):
                a = i.c[2]
                while a[0] in ('a', 'cast'):
                    a = a[-1]
                if a[0] == 'fld' and a[2] == 'term' and a[1][0] == 'd' and a[1][1][0] == 'v' and a[1][1][1] in f.params:
                    v = a[1][1][1]
                    d.setdefault(i.c[1][1], set()).add(('d', ('arg', n, f.params.index(v), v.split(':')[-1])))
        if d:
            out[n] = {k: next(iter(v)) if len(v) == 1 else None for k, v in d.items()}
    return out


def ordered(p, sub):
    """functions whose first event may not be later than the second: those relating two events, and their wrappers"""
    later = {}
    for n, f in p.funcs.items():
        # asserting or computing with both times
        s = sub.get(n)
        if s and s.get(1) and s.get(2) and p.types.canon(f.ret) in ('Implication',):
            later[n] = (s[1][1][2], s[2][1][2])
    for n in ('Inference_BeliefIntersection',):
        if n in p.funcs:
            later[n] = (0, 1)
    ch = True
    while ch:
        ch = False
        for n, f in p.funcs.items():
            if n in later:
                continue
            for i in f.ins:
                if i.k == 'call' and i.b in later:
                    x = [i.c[k] for k in later[i.b]]
                    if all(y[0] == 'v' and y[1] in f.params for y in x):
                        later[n] = tuple(f.params.index(y[1]) for y in x)
                        ch = True
    return later


def check(ctx):
    rep = Report('C17', ctx, 'Abstract interpretation over (truth, time) pairs: a truth read from an event is valid at its occurrence time, a projected one at the target time, one of a link or '
                 'eternal belief at any time. Obligations: truths that meet in a truth function or rule application refer to one time (proved equal on the path); projections start from the time '
                 'the truth refers to; events are stored with the time their truth refers to, or that plus the distance of the link they follow from; distances are consequence time minus '
                 'precondition time with the order of both known, or the evidence-weighted average of two distances, or travel with their statement.',
                 ['truth values handed to rule functions by value are at the time their callers are checked for', 'observations in memory are not later than the current time (C24)'])
    p = ctx.prog
    sub = sides(p)
    later = ordered(p, sub)
    Times.sub = sub
    touch = ('occurrenceTime', 'occurrenceTimeOffset')
    roots = []
    for n in ctx.roots():
        f = p.funcs[n]
        h = Times(ctx, later)
        hit = False
        for i in f.ins:
            if i.k == 'call' and (i.b in h.truth2 or i.b in later or i.b == 'Truth_Projection'):
                hit = True
            for x in (i.a, i.b, i.c):
                if isinstance(x, tuple) and mentions((x,), lambda t: len(t) == 3 and (t[0] == 'fld' and t[2] in touch or t[0] == 'agg' and p.types.canon(t[1]) in ('Event', 'Implication'))):
                    hit = True
        if hit and f.file.split('/')[-1] not in ('RuleTable.c', 'Truth.c') and n not in h.truth2 | set():
            roots.append(n)
    rel = lambda t: mentions(t, lambda x: len(x) == 3 and x[0] == 'fld' and x[2] in ('occurrenceTime',))
    inl = {n for n in ('Inference_EventUpdate', 'Inference_BeliefIntersection', 'weighted_average', 'Event_Eternalized') if n in p.funcs}
    # events being processed are not part of what conceptualizing or adding a conclusion overwrites
    frame = {n: True for n in h.truth2 if n not in p.funcs or p.types.canon(p.funcs[n].ret) == 'void'} | {'Memory_Conceptualize': True} | {n: True for n in later if n not in inl}
    res, stats = expand(ctx, lambda: Times(ctx, later), roots, depth=1, K=48, relevant=rel, inline=inl, engine_kw=dict(frame=frame))
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'times agree', where, detail, key=f'{skey} {where.split("(")[-1].rstrip(")")}')
    rep.count('sites', len({(w, s) for _, _, w, _, s in res}))
    rep.count('abstract_states', stats['states'])
    rep.count('functions_relating_two_events', len(later))
    rep.expect('sites where times meet', rep.counts['sites'], 10)
    return rep
