"""C23: weaker knowledge never replaces stronger knowledge.

The choice rule is summarised path by path (branch facts, outcome) by abstract interpretation; the outcome of every path has to be licensed by
its facts: incoming only if strictly more confident at the later of both times, existing only if not, the revision only of mergeable knowledge.
All writers of the knowledge slots have to go through that rule."""
from ..core import *
from ..records import Escapes

SLOTS = ('belief', 'belief_spike', 'predicted_belief', 'goal_spike')
CHOICE = 'Inference_RevisionAndChoice'
TERMEQ = ('Term_Equal',)


def called(t, name):
    return [x for x in subterms(t) if len(x) >= 3 and x[0] == 'call' and x[1] == name]


class Pair:
    """E (existing) and I (incoming): reads of their fields, whichever way the value is written"""

    def __init__(self, e, a, b):
        self.e = e
        self.A = {'E': a, 'I': b}

    def who(self, v, field):
        """'E'/'I' when v is the initial value of that field of the record"""
        for n, a in self.A.items():
            if v in (('ld', ('fld', ('d', a), field), ()), ('fld', ('ld', ('d', a), ()), field)):
                return n
        return None

    def sub(self, v, *fields):
        for n, a in self.A.items():
            p = ('d', a)
            for f in fields:
                p = ('fld', p, f)
            if v == ('ld', p, ()):
                return n
            if v[0] == 'fld' and len(fields) > 1 and v[2] == fields[-1] and self.sub(v[1], *fields[:-1]) == n:
                return n
        return None

    def times(self, facts):
        """what the path knows about the two occurrence times: set of {'later:E','later:I','same','eternal:E','eternal:I','noneternal:E',...}"""
        k = set()
        for a, tv in facts.items():
            if a[0] != 'b' or a[1] not in ('==', '<'):
                continue
            x, y = self.who(a[2], 'occurrenceTime'), self.who(a[3], 'occurrenceTime')
            if x and y and x != y:
                if a[1] == '==':
                    k.add('same' if tv else 'differ')
                elif tv:                       # x < y
                    k |= {'later:' + y, 'differ'}
                else:                          # x >= y
                    k.add('later:' + x)
            for u, v in ((a[2], a[3]), (a[3], a[2])):
                w = self.who(u, 'occurrenceTime')
                if w and v == ('c', -1) and a[1] == '==':
                    k.add(('eternal:' if tv else 'noneternal:') + w)
        if 'same' in k or {'later:E', 'later:I'} <= k:
            k |= {'same', 'later:E', 'later:I'}
        # occurrence times of events are not negative besides the mark for eternal
        for u, v in (('E', 'I'), ('I', 'E')):
            if 'eternal:' + u in k and 'noneternal:' + v in k:
                k |= {'later:' + v, 'differ'}
            if 'eternal:' + u in k:
                k.add('later:' + v)
        if {'eternal:E', 'eternal:I'} <= k:
            k |= {'same', 'later:E', 'later:I'}
        return k

    def truth(self, v, k):
        """('E'|'I', ok): v is the truth of that record at a time that is the later of the two (on a path that knows k)"""
        if v[0] == 'call' and v[1] == 'Truth_Projection':
            t, a, b = v[2][:3]
            inner = self.truth(t, k) if t[0] == 'call' else None
            if inner:
                # projected further: from the later time to the later time it stays as it is
                w, ok = inner
                x, y = self.who(a, 'occurrenceTime'), self.who(b, 'occurrenceTime')
                return (w, ok and bool(x and y) and (x == y or 'same' in k))
            w = self.sub(t, 'truth')
            x, y = self.who(a, 'occurrenceTime'), self.who(b, 'occurrenceTime')
            if w and x and (x == w or 'same' in k):
                if 'eternal:' + w in k:
                    return w, True
                return w, bool(y) and ('later:' + y in k)
            return None
        w = self.sub(v, 'truth')
        if w:      # as it is: fine if the record itself is the later one, or eternal
            return w, 'eternal:' + w in k or 'later:' + w in k
        return None

    def conf(self, v, k):
        if v[0] == 'fld' and v[2] == 'confidence':
            return self.truth(v[1], k)
        w = self.sub(v, 'truth', 'confidence')
        if w:
            return w, 'eternal:' + w in k or 'later:' + w in k
        return None


def outcome(e, P, rv, k):
    if rv is None:
        return '?'
    got = {}
    for f in ('term', 'type', 'truth', 'stamp', 'occurrenceTime'):
        v = e.proj(rv, ('fld', f))
        got[f] = P.who(v, f)
        if f == 'truth' and got[f] is None:
            if v[0] == 'call' and v[1] == 'Truth_Revision':
                return 'revised'
    s = set(got.values())
    if s == {'E'}:
        return 'existing'
    if s == {'I'}:
        return 'incoming'
    if s == {'E', 'I'} and got['truth'] == got['stamp'] == got['occurrenceTime']:
        return {'E': 'existing', 'I': 'incoming'}[got['truth']]
    return '?'


def choice_rule(ctx, rep):
    p = ctx.prog
    if CHOICE not in p.funcs:
        rep.notes.append('no choice rule function under the reference name')
        return
    f = p.funcs[CHOICE]
    where = f'{f.file}:{f.line} ({CHOICE})'
    e = Engine(p, ctx.summ, ctx.known, inline={n for n in p.funcs if n.startswith('Inference_')}, K=2000, relevant=lambda a: True, functional=TERMEQ)
    res = e.run(CHOICE)
    a = [('arg', CHOICE, i, f.params[i].split(':')[-1]) for i in range(4)]
    P = Pair(e, a[0], a[1])
    seen, bad = {}, {}
    for st, rv in res:
        F = st.facts
        k = P.times(F)
        out = outcome(e, P, rv, k)
        seen[out] = seen.get(out, 0) + 1
        gone = stronger = overlap = equal = None
        dep = {}
        conj = {}
        for t, tv in F.items():
            if t[0] != 'b':
                continue
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if t[1] == '==' and y == ('c', 0):
                    if P.who(x, 'type') == 'E':
                        gone = tv
                    if x[0] == 'call' and x[1] == 'Stamp_checkOverlap' and {P.who(z[1], 'stamp') for z in x[2]} == {'E', 'I'}:
                        overlap = not tv
                    if x[0] == 'call' and x[1] == 'Term_Equal' and {P.who(z[1], 'term') for z in x[2]} == {'E', 'I'}:
                        equal = not tv
                    if x[0] == 'call' and x[1] == 'Variable_hasVariable' and len(x[2]) == 4:
                        dep[x[2][2]] = not tv
                    if x[0] == 'call' and x[1] == 'Narsese_copulaEquals':
                        conj[x[2][1]] = not tv
                if t[1] == '==' and x[0] == 'ld' and y[0] == 'c' and mentions(x, lambda z: z[0] == 'fld' and z[2] == 'atoms'):
                    conj[y] = tv
            if t[1] == '<':
                x, y = P.conf(t[2], k), P.conf(t[3], k)
                if x and y and x[0] != y[0] and x[1] and y[1]:
                    if x[0] == 'E':
                        stronger = tv          # E < I
                    elif not tv:               # not (I < E):  I >= E
                        stronger = stronger if stronger is not None else 'maybe'
                    else:
                        stronger = False
        depvar = None
        d = dep.get(('c', 1))
        if d is True and True in conj.values():
            depvar = True
        if d is False or (conj and True not in conj.values() and len(conj) >= 2):
            depvar = False
        timeless = 'same' in k or 'eternal:E' in k
        split = overlap is True or equal is False or depvar is True or ('differ' in k and 'eternal:E' not in k) or ('noneternal:E' in k and 'differ' in k)

        def no(why):
            bad.setdefault((out, why), 0)
            bad[(out, why)] += 1
        if out == 'incoming':
            if gone is not True and stronger is not True:
                no('the incoming knowledge is kept although it is not known to be the more confident one at the later of both times')
        elif out == 'existing':
            if gone is True:
                no('a deleted event is kept')
            elif stronger is True:
                no('the existing knowledge is kept although the incoming one is more confident at the later of both times')
            elif stronger is None or stronger == 'maybe':
                no('the existing knowledge is kept without having been found at least as confident at the later of both times')
        elif out == 'revised':
            if gone is not False:
                no('knowledge is revised with a deleted event')
            if overlap is not False:
                no('knowledge is revised without a negative overlap test')
            if equal is not True:
                no('knowledge about different statements is revised')
            if not timeless:
                no('knowledge of different times is revised')
            if depvar is not False:
                no('statements with dependent variables are revised although they may be about different things')
            v = e.proj(rv, ('fld', 'truth'))
            ws = [P.truth(x, k) for x in v[2][:2]]
            if None in ws or {w for w, _ in ws} != {'E', 'I'} or not all(ok for _, ok in ws):
                no('the revision does not combine both truth values at the later of both times')
        else:
            no('the outcome is neither of the two nor their revision')
        if out in ('incoming', 'existing') and gone is not True and not split:
            no('knowledge that can be merged by revision is not merged')
        # the feedback
        fb = e.read(st, ('d', a[3]))
        null = None
        for t, tv in F.items():
            if t[0] == 'b' and t[1] == '==' and a[3] in t[2:4]:
                null = tv
        if null is False or null is None:
            if fb[0] == 'c' and bool(fb[1]) != (out == 'revised'):
                no('the revised flag does not tell whether a revision took place')
    for (out, why), n in sorted(bad.items()):
        rep.ob(False, 'choice and revision', where, f'outcome {out}: {why} ({n} paths)', key=f'{CHOICE} {out}: {why}')
    for o in ('incoming', 'existing', 'revised'):
        rep.ob(o in seen, 'choice and revision', where, f'outcome {o}: {seen.get(o, 0)} paths, each licensed by its facts' if o in seen else f'no path has the outcome {o}', key=f'{CHOICE} has outcome {o}')
    rep.count('choice_rule_paths', len(res))


class Slots(Escapes):
    def __init__(self, cx):
        super().__init__(cx, ('Event',))
        self.choice = {}

    def slot(self, e, path):
        if path[0] == 'fld' and path[2] in SLOTS and e.path_type(path) and e.ty.T.canon(e.path_type(path)) == 'Event':
            return path
        return None

    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name == CHOICE and rv is not None:
            v = vals[0]
            self.choice.setdefault(rv, set()).add(v[1] if v[0] == 'a' else ('d', v))

    def on_call(self, e, st, f, ins, name, vals, ctx):
        pass

    def on_ret(self, *a):
        pass

    def on_store(self, e, st, f, ins, path, val, ctx):
        s = self.slot(e, path)
        if s is not None:
            r = root_of(path)
            if r[0] == 'v' and e.islocal(r[1]):
                return
            self.replaced(e, st, f, ins, ctx, path, val)
        elif path[0] == 'fld' and path[2] in ('truth', 'occurrenceTime', 'type') and self.slot(e, path[1]) is not None:
            r = root_of(path)
            if not (r[0] == 'v' and e.islocal(r[1])):
                self.rec(ctx, f, ins, (path[1][2], path[2]), False, e.p.loc(f, ins), f'{path[2]} of the stored {path[1][2]} is overwritten on its own', False)

    def replaced(self, e, st, f, ins, ctx, path, val):
        where = e.p.loc(f, ins)
        name = path[2]
        key = (name,)
        if val in (('zero',), ('c', 0)) or e.proj(val, ('fld', 'type')) == ('c', 0):
            return self.rec(ctx, f, ins, key, True, where, f'{name} is emptied', False)
        prev = self.choice.get(val)
        if prev is None and val[0] == 'ld' and val[1] == path:
            return
        if prev is not None:
            ok = prev == {path}
            return self.rec(ctx, f, ins, key, ok, where, f'{name} is replaced by the choice rule' if ok else f'{name} is replaced by a choice that did not take the stored {name} into account', False)
        # selection: an empty place, or a newer occurrence
        t = e.proj(val, ('fld', 'occurrenceTime'))
        old = e.read(st, ('fld', path, 'occurrenceTime'))
        ty = e.read(st, ('fld', path, 'type'))
        empty = e.known_truth(st, e.mk('==', ty, ('c', 0)))
        newer = e.known_truth(st, e.mk('<', old, t))
        ok = empty is True or newer is True
        self.rec(ctx, f, ins, key, ok, where, f'{name} is taken over because the place is empty or holds an older occurrence' if ok else
                 f'{name} is overwritten without the choice rule, and not known to be empty or older', False)


def clean(t):
    """reads of a term do not depend on when its hash was cached"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'ld' and isinstance(t[2], tuple):
        return ('ld', clean(t[1]), tuple(x for x in t[2] if not (isinstance(x, tuple) and x and x[0] in (('Term', 'hash'), ('Term', 'hashed')))))
    return tuple(clean(x) for x in t)


class Revise(Obligations):
    """merging into the link tables"""

    def __init__(self, cx):
        super().__init__()

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if f.name != 'Table_AddAndRevise' and not (ctx and ctx[0][0] == 'Table_AddAndRevise'):
            return
        root = 'Table_AddAndRevise'
        tab = ('arg', root, 0, e.p.funcs[root].params[0].split(':')[-1])
        imp = ('arg', root, 1, e.p.funcs[root].params[1].split(':')[-1])
        itruth = ('ld', ('fld', ('d', imp), 'truth'), ())
        if name == 'Table_Remove':
            ok = False
            for t, tv in st.facts.items():
                t = clean(t)
                for x in called(t, 'Term_Equal'):
                    if t == ('b', '==', x, ('c', 0)) and not tv:
                        c = [z[1] if z[0] == '*' else z for z in x[2]]
                        want = ('ld', ('fld', ('d', imp), 'term'), ())
                        other = [z for z in c if z != want]
                        if want in c and len(other) == 1 and other[0][0] == 'ld' and other[0][1][0] == 'fld' and other[0][1][1][0] == 'idx' and other[0][1][1][2] == clean(vals[1]):
                            ok = True
            self.rec(ctx, f, ins, ('remove',), ok, e.p.loc(f, ins), 'the removed entry is the one about the same implication' if ok else 'an entry is removed that is not known to be about the same implication', False)
            st.facts[('removed', 0)] = True
        if name == 'Table_Add':
            v = vals[1]
            t = e.read(st, ('fld', v[1] if v[0] == 'a' else ('d', v), 'truth'))
            t = clean(t)
            rem = st.facts.get(('removed', 0))
            if rem:
                ok = t[0] == 'call' and t[1] == 'Truth_Revision' and any(x == itruth for x in t[2]) and \
                    any(x != itruth and mentions(x, lambda z: z[0] == 'idx') for x in t[2])
                self.rec(ctx, f, ins, ('add',), ok, e.p.loc(f, ins), 'the removed entry returns revised with the new one' if ok else 'the removed entry is lost: what is added is not the revision of both', False)
            else:
                same = [x for t2, tv in st.facts.items() if tv is False and t2[0] == 'b' and t2[1] == '==' for x in called(t2, 'Term_Equal')]
                self.rec(ctx, f, ins, ('add',), not same and t == itruth, e.p.loc(f, ins), 'a new implication is added as it is' if not same else 'an implication known already is added without revision', False)


def queue_rule(ctx, rep):
    """an event is turned away from the queue only as a duplicate or because a more confident belief is there"""
    p = ctx.prog
    fn = 'Memory_addCyclingEvent'
    if fn not in p.funcs:
        return
    f = p.funcs[fn]
    e = Engine(p, ctx.summ, ctx.known, K=2000, relevant=lambda a: True, functional={'Term_Equal', 'Memory_containsEvent', 'Memory_containsBeliefOrGoal', 'Memory_FindConceptByTerm', 'Event_Equal'})
    a0 = ('arg', fn, 0, f.params[0].split(':')[-1])
    res = e.run(fn)
    n = 0
    bad = {}
    for st, rv in res:
        if rv != ('c', 0):
            continue
        dup = pushed = weaker = False
        for t, tv in st.facts.items():
            if mentions(t, lambda x: x[0] in ('call', 'ret') and str(x[1 if x[0] == 'call' else 2]).startswith('Memory_contains')) and tv is False:
                dup = True
            if mentions(t, lambda x: x[0] == 'ret' and x[2] == 'PriorityQueue_Push'):
                pushed = True
            if t[0] == 'b' and t[1] == '<' and tv is True:
                x, y = t[2], t[3]
                isbel = lambda z: mentions(z, lambda q: q[0] == 'fld' and q[2] == 'belief') and mentions(z, lambda q: q[0] == 'fld' and q[2] == 'confidence')
                if isbel(y) and x == ('ld', ('fld', ('fld', ('d', a0), 'truth'), 'confidence'), ()):
                    weaker = True
            if t[0] == 'b' and t[1] == '<' and tv is False:
                x, y = t[2], t[3]
                if mentions(x, lambda q: q[0] == 'fld' and q[2] == 'belief') and y == ('ld', ('fld', ('fld', ('d', a0), 'truth'), 'confidence'), ()):
                    weaker = True
        n += 1
        if not (dup or pushed or weaker):
            bad['an event is turned away that is neither a duplicate nor less confident than the belief'] = 1
    for why in bad:
        rep.ob(False, 'events turned away', f'{f.file}:{f.line} ({fn})', why)
    if n:
        rep.ob(not bad, 'events turned away', f'{f.file}:{f.line} ({fn})', f'{n} refusing paths: duplicate, less confident than the belief, or refused by the queue')


def check(ctx):
    rep = Report('C23', ctx, 'Path summaries of the choice rule (all paths, helpers inlined): the outcome existing/incoming/revision of each path has to be licensed by the '
                 'comparisons on the path; who writes a knowledge slot of a concept has to obtain the value from the choice rule applied to that same slot, or find it empty or '
                 'older; entries of link tables are only removed to return revised.',
                 ['occurrence times are non-negative except for the eternal mark', 'the revision truth function is at least as confident as both arguments (C04)'])
    choice_rule(ctx, rep)
    p = ctx.prog
    T = p.types
    roots = [r for r in ctx.roots() if any(i.k in ('set', 'call') and mentions((i.a,), lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in SLOTS) for i in p.funcs[r].ins if i.a is not None)
             or any(any(mentions((i.a,), lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in SLOTS) for i in p.funcs[c].ins if i.k == 'set' or i.k == 'call' and i.a is not None) for c in p.callees(r) if c in p.funcs and c not in ctx.known)]
    rel = lambda t: mentions(t, lambda x: x[0] == 'fld' and x[2] in ('occurrenceTime', 'type')) or mentions(t, lambda x: x[0] == 'fld' and x[2] in SLOTS)
    res, stats = expand(ctx, lambda: Slots(ctx), roots, depth=3, K=24, relevant=rel)
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'knowledge slots are replaced by the choice rule', f'{where}', detail, key=f'{skey} {where.split("(")[-1].rstrip(")")}')
    rep.count('slot_writes', len({(w, s) for _, _, w, _, s in res}))
    if 'Table_AddAndRevise' in p.funcs:
        h = Revise(ctx)
        e = Engine(p, ctx.summ, ctx.known, inline={'Inference_ImplicationRevision'}, K=200, relevant=lambda a: True, functional=TERMEQ, hooks=h)
        e.run('Table_AddAndRevise')
        for k, (ok, where, detail, lift) in h.res.items():
            rep.ob(ok, 'link tables', where, detail, key=f'table {k[1]}')
    queue_rule(ctx, rep)
    rep.expect('choice rule paths', rep.counts.get('choice_rule_paths', 0), 4)
    rep.expect('slot writes', rep.counts['slot_writes'], 3)
    return rep
