"""C10: failed unifications, substitutions and term constructions are never used."""
from ..core import *
from ..loops import expr_vars, FLIP
from .c20 import Defs

# producers: how success is reported and which value is worthless on failure
#   'ret'  boolean return value, output through pointer parameter k
#   'out'  boolean through pointer parameter k, result is the return value
#   'fld'  the result carries a field `success`
PRODUCERS = {
    'Term_OverrideSubterm': ('ret', 0), 'Narsese_OperationSequenceAppendLeftNested': ('ret', 0), 'Term_RelativeOverride': ('ret', 0),
    'Narsese_Sequence': ('out', 2), 'Inference_BeliefIntersection': ('out', 2), 'Inference_BeliefInduction': ('out', 2),
    'Variable_ApplySubstitute': ('out', 2), 'Variable_IntroduceImplicationVariables': ('out', 1),
    'Variable_IntroduceImplicationVariables2': ('out', 1), 'Variable_IntroduceConjunctionVariables': ('out', 1),
    'Variable_Unify': ('fld', 'success'), 'Variable_Unify2': ('fld', 'success'), 'Variable_UnifyWithAnalogy': ('fld', 'success'),
}
LIMIT = 150000


def is_prefix(a, b):
    """lvalue a is b or contains b"""
    while True:
        if a == b:
            return True
        if b[0] in ('fld', 'idx'):
            b = b[1]
        else:
            return False


def overlap(a, b):
    return is_prefix(a, b) or is_prefix(b, a)


class Flags:
    """Disjunctive dataflow over one function: every producer call splits the state into success and failure; on failure its result is marked worthless.
    A state: (marked lvalues, known values of boolean lvalues)."""

    def __init__(self, ctx, p, f, summ):
        self.ctx, self.p, self.f, self.summ = ctx, p, f, summ
        self.D = Defs(f)
        self.bad = {}
        self.calls = 0
        self.n = 0
        self.flags = set()
        self.addrs = set()
        for i in f.ins:
            if i.k == 'call' and i.b in PRODUCERS:
                kind, k = PRODUCERS[i.b]
                if kind == 'ret' and i.a is not None:
                    self.flags.add(i.a)
                elif kind == 'out' and k < len(i.c):
                    self.flags.add(self.deref(i.c[k]))
        self.kind = PRODUCERS.get(f.name)
        # booleans computed from flags: locals assigned constants or flags
        grow = True
        while grow:
            grow = False
            for i in f.ins:
                if i.k == 'set' and i.a not in self.flags and i.a[0] in ('v', 'd', 'fld'):
                    e = uncast(i.b)
                    isb = 'ool' in str(f.vars.get(i.a[1], '')) if i.a[0] == 'v' else (self.kind and i.a[0] == 'd')
                    if i.a[0] == 'fld' and i.a[2] == 'success':
                        isb = True
                    if isb or e in self.flags or (e[0] == 'u' and e[1] == '!' and uncast(e[2]) in self.flags):
                        self.flags.add(i.a)
                        grow = True
        # short-circuit temporaries
        for i in f.ins:
            if i.k == 'set' and i.a[0] == 'v' and uncast(i.b)[0] == 'c':
                if '$' in i.a[1]:
                    self.flags.add(i.a)

    def deref(self, a):
        a = uncast(a)
        if a[0] == 'a':
            return a[1]
        x = self.D.x(a)
        if x[0] == 'a':
            return x[1]
        return ('d', a)

    def val(self, e, s):
        """True/False/None"""
        e = uncast(e)
        if e[0] == 'c':
            return bool(e[1])
        d = dict(s[1])
        if e in d:
            return d[e]
        if e[0] == 'u' and e[1] == '!':
            v = self.val(e[2], s)
            return None if v is None else not v
        if e[0] == 'b' and e[1] in ('==', '!=') and uncast(e[3])[0] == 'c':
            v = self.val(e[2], s)
            if v is not None and uncast(e[3])[1] in (0, 1):
                return (v == bool(uncast(e[3])[1])) == (e[1] == '==')
        if e[0] == 'fld' and e[2] == 'success':
            x = self.D.x(e)
            if x in d:
                return d[x]
        return None

    def setflag(self, s, lv, v):
        d = dict(s[1])
        for k in list(d):
            if overlap(k, lv):
                del d[k]
        if v is not None:
            d[lv] = v
        return (s[0], frozenset(d.items()))

    def clear(self, s, lv):
        """lv is overwritten as a whole"""
        return (frozenset(m for m in s[0] if not is_prefix(lv, m)), s[1])

    def marked(self, s, lv):
        return any(overlap(m, lv) for m in s[0])

    def varchange(self, s, v):
        """index variable v changes: marked elements selected by it become 'some element'"""
        out = set()
        for m in s[0]:
            r, cut = m, None
            while r[0] in ('fld', 'idx'):
                if r[0] == 'idx':
                    vs = set()
                    expr_vars(r[2], vs)
                    if v in vs:
                        cut = r[1]
                r = r[1]
            out.add(cut or m)
        d = [(k, w) for k, w in s[1] if k != ('v', v) and not (k[0] != 'v' and v in self.vs(k) and not (k[0] == 'fld' and k[1] == ('v', v)))]
        d = [(k, w) for k, w in d if not overlap(k, ('v', v))]
        return (frozenset(out), frozenset(d))

    def vs(self, k):
        s = set()
        expr_vars(k, s)
        return s

    def reads(self, e, out, top=True):
        """lvalues read by expression e (maximal); addresses count as reads of what they point to"""
        if not isinstance(e, tuple) or not e:
            return
        if e[0] in ('v', 'fld', 'idx', 'd'):
            out.append(e)
            r = e
            while r[0] in ('fld', 'idx'):
                if r[0] == 'idx':
                    self.reads(r[2], out)
                r = r[1]
            if r[0] == 'd':
                self.reads(r[1], out)
            return
        if e[0] == 'a':
            self.reads(e[1], out)
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        if isinstance(y, tuple):
                            for z in y:
                                self.reads(z, out) if isinstance(z, tuple) else None
                            self.reads(y, out)
                else:
                    self.reads(x, out)

    def reported(self, s):
        """the function's own failure flag is set at this point"""
        return self.kind and self.kind[0] == 'out' and self.val(('d', ('v', self.f.params[self.kind[1]])), s) is False

    def use(self, i, s, exprs, skip=()):
        if not s[0] or self.reported(s):
            return False
        rd = []
        for e in exprs:
            if e is not None:
                self.reads(e, rd)
                if e[0] == 'v' and e in self.ptrs:
                    rd.append(('d', e))
        for r in rd:
            if r in skip:
                continue
            if r[0] == 'fld' and r[2] == 'success':
                continue
            if i.k == 'br' and r[0] == 'idx' and uncast(r[2]) == ('c', 0) and r[1][0] == 'fld' and r[1][2] == 'atoms':
                continue        # asking whether a term is empty is a way of asking for success
            rx = self.norm(r)
            for m in s[0]:
                if overlap(self.norm(m), rx):
                    self.bad.setdefault((i.id, m), i)
                    return True
        return False

    def norm(self, lv):
        return self.D.x(lv, keep=self.nonptr) if lv[0] in ('d', 'fld', 'idx') else lv

    def produce(self, i, s):
        kind, k = PRODUCERS[i.b]
        args = list(i.c)
        outs = []
        if i.b in ('Term_OverrideSubterm', 'Term_RelativeOverride') and uncast(args[1]) == ('c', 0):
            # writing at the root never runs out of places: every atom moves to a position not beyond its old one
            self.use(i, s, args[:k] + args[k + 1:])
            return [self.setflag(s, i.a, True) if i.a is not None else s]
        if kind == 'ret':
            tgt = self.deref(args[k])
            bad = self.use(i, s, args[:k] + args[k + 1:])
            for ok in (True, False):
                t = s
                if i.a is not None:
                    t = self.setflag(self.varchange(t, i.a[1]) if i.a[0] == 'v' else t, i.a, ok)
                if not ok and tgt is not None:
                    t = (t[0] | {tgt}, t[1])
                outs.append(t)
            return outs
        if kind == 'out':
            flag = self.deref(args[k])
            self.use(i, s, args[:k] + args[k + 1:])
            for ok in (True, False):
                t = s
                if i.a is not None:
                    t = self.clear(self.varchange(t, i.a[1]) if i.a[0] == 'v' else t, i.a)
                t = self.setflag(t, flag, ok)
                if not ok and i.a is not None:
                    t = (t[0] | {i.a}, t[1])
                outs.append(t)
            return outs
        self.use(i, s, args)
        for ok in (True, False):
            t = s
            if i.a is not None:
                t = self.clear(self.varchange(t, i.a[1]) if i.a[0] == 'v' else t, i.a)
                t = self.setflag(t, ('fld', i.a, 'success'), ok)
                if not ok:
                    t = (t[0] | {i.a}, t[1])
            outs.append(t)
        return outs

    def step(self, i, s):
        if i.k == 'call':
            if i.b in PRODUCERS:
                self.calls += 1
                return self.produce(i, s)
            if i.b == 'Globals_assert':
                v = self.val(i.c[0], s)
                if v is False:
                    return []
                return [s]
            self.use(i, s, i.c)
            t = s
            # flags whose address is handed out
            for a in i.c:
                a = uncast(a)
                if a[0] == 'a' and any(overlap(k, a[1]) for k, _ in s[1]):
                    t = self.setflag(t, a[1], None)
            if i.a is not None:
                if i.a[0] == 'v':
                    t = self.varchange(t, i.a[1])
                t = self.clear(t, i.a)
                t = self.setflag(t, i.a, None)
            return [t]
        if i.k == 'set':
            e = uncast(i.b)
            lv = i.a
            src = None
            if e[0] in ('v', 'fld', 'idx', 'd') and s[0]:
                ne = self.norm(e)
                src = [m for m in s[0] if overlap(self.norm(m), ne)]
                # selecting elements / dereferencing inside the source
                sub = []
                r = e
                while r[0] in ('fld', 'idx'):
                    if r[0] == 'idx':
                        sub.append(r[2])
                    r = r[1]
                self.use(i, s, sub)
                if src and (e[0] == 'fld' and e[2] == 'success'):
                    src = None
            elif e[0] == 'a':
                pass            # pointing to it is no use yet
            else:
                self.use(i, s, [e])
            # writing into a part
            r = lv
            while r[0] in ('fld', 'idx'):
                if r[0] == 'idx':
                    self.use(i, s, [r[2]])
                r = r[1]
            v = self.val(e, s)
            fields = {}
            if e[0] in ('v', 'fld', 'idx', 'd'):
                for k, w in s[1]:
                    if k[0] == 'fld' and k[1] == e:
                        fields[('fld', lv, k[2])] = w
            if e[0] == 'agg':
                for x in e[2]:
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'success':
                        fields[('fld', lv, 'success')] = self.val(x[1], s)
                if not e[2] and 'Substitution' in str(e[1]):
                    fields[('fld', lv, 'success')] = False
            t = self.varchange(s, lv[1]) if lv[0] == 'v' else s
            t = self.clear(t, lv)
            if lv in self.flags:
                t = self.setflag(t, lv, v)
            else:
                t = self.setflag(t, lv, None)
            for k, w in fields.items():
                t = self.setflag(t, k, w)
            if src:
                t = (t[0] | {lv}, t[1])
            return [t]
        if i.k == 'decl':
            if i.a[0] == 'v':
                t = self.clear(self.varchange(s, i.a[1]), i.a)
                return [t]
        if i.k == 'ret':
            if i.a is not None or s[0]:
                self.ret(i, s)
            return []
        if i.k == 'switch':
            self.use(i, s, [i.a])
        return [s]

    def ret(self, i, s):
        e = uncast(i.a) if i.a is not None else None
        failing = None
        if self.kind:
            kind, k = self.kind
            if kind == 'ret':
                failing = self.val(e, s) is False
            elif kind == 'out':
                failing = self.val(('d', ('v', self.f.params[k])), s) is False
            else:
                failing = self.val(('fld', e, 'success'), s) is False if e is not None and e[0] != 'agg' else e == ('agg', e[1], ()) or not dict((x[0], x[1]) for x in e[2]).get('success')
        if failing:
            return
        if e is not None and e[0] == 'v' and e not in self.flags:
            if any(overlap(m, e) for m in s[0]) and not self.success_const(e, s):
                self.bad.setdefault((i.id, e), i)
        elif e is not None and e not in self.flags:
            self.use(i, s, [e])
        for m in s[0]:
            r = m
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if r[0] == 'd' or (r[0] == 'v' and r[1] in self.p.globals):
                # an output parameter of a function that reports success, or persistent data, is left worthless without failure being reported
                q = uncast(self.D.x(r[1])) if r[0] == 'd' else None
                if r[0] == 'v' or (self.kind and self.kind[0] == 'ret') or q[0] != 'v':
                    self.bad.setdefault((i.id, m), i)

    def success_const(self, e, s):
        return self.val(('fld', e, 'success'), s) is False

    def run(self):
        f = self.f
        self.nonptr = {v for v, t in f.vars.items() if '*' not in str(t)}
        self.ptrs = {('v', v) for v, t in f.vars.items() if '*' in str(t)}
        seen, work = set(), [(f.entry, (frozenset(), frozenset()))]
        from ..absint import liveness
        while work:
            x, s = work.pop()
            if (x, s) in seen:
                continue
            seen.add((x, s))
            if len(seen) > LIMIT:
                return False
            i = f.ins[x]
            if i.k == 'br' and len(i.succ) == 2:
                v = self.val(i.a, s)
                if v is None and not (uncast(i.a) in self.flags):
                    self.use(i, s, [uncast(i.a)])
                told = {m for n, m in self.bad if n == i.id}
                if told:
                    s = (s[0] - told, s[1])
                for k, y in enumerate(i.succ):
                    t = k == 0
                    if v is not None and v != t:
                        continue
                    s2 = s
                    e, pol = uncast(i.a), t
                    while e[0] == 'u' and e[1] == '!':
                        e, pol = uncast(e[2]), not pol
                    if v is None and e in self.flags:
                        s2 = self.setflag(s, e, pol)
                    work.append((y, self.trim(f.ins[y], s2)))
                continue
            for s2 in self.step(i, s):
                told = {m for n, m in self.bad if n == i.id}
                if told:        # reported once, not followed further
                    s2 = (s2[0] - told, s2[1])
                for y in i.succ:
                    work.append((y, self.trim(f.ins[y], s2)))
        self.n = len(seen)
        return True

    def trim(self, i, s):
        """forget what is dead at i"""
        live = self.live(i.id)
        if live is None:
            return s

        def alive(lv):
            r = lv
            while r[0] in ('fld', 'idx'):
                r = r[1]
            return r[0] != 'v' or r[1] in live or r[1] not in self.f.vars or r[1] in self.addr
        return (frozenset(m for m in s[0] if alive(m)), frozenset((k, v) for k, v in s[1] if alive(k)))

    def live(self, n):
        if not hasattr(self, '_live'):
            self._live = liveness(self.f, self.p)
            # locals whose address is held by a pointer variable
            self.addr = set()
            for i in self.f.ins:
                if i.k == 'set':
                    for t in subterms(i.b):
                        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'a':
                            r = t[1]
                            while r[0] in ('fld', 'idx'):
                                r = r[1]
                            if r[0] == 'v':
                                self.addr.add(r[1])
        L = self._live
        return L[n] if L is not None else None


def check(ctx):
    rep = Report('C10', ctx, 'Success-flag analysis: a disjunctive dataflow splits every path at each fallible operation (unification, substitution, subterm override, sequence construction, variable introduction) into '
                 'its success and its failure; on the failure side the result is marked worthless and its success flag is known false. A use of a worthless term, event, link or substitution - reading it, '
                 'passing it on, returning it as a success - that is reachable on the failure side is a violation. The functions that report failure are themselves checked to report it on every failing path.',
                 ['an assertion stops the program with a diagnostic', 'fallible operations are the listed ones and everything built from them'])
    p = ctx.rt
    summ = ctx.rtsumm
    users = [fn for fn, f in sorted(p.funcs.items()) if any(i.k == 'call' and i.b in PRODUCERS for i in f.ins)]
    rep.expect('functions with fallible operations', len(users), 12)

    def one(fn):
        F = Flags(ctx, p, p.funcs[fn], summ)
        ok = F.run()
        f = p.funcs[fn]
        return fn, ok, [(p.loc(f, i), show(m), i.b if i.k == 'call' else i.k) for (_, m), i in F.bad.items()], sum(1 for i in f.ins if i.k == 'call' and i.b in PRODUCERS), F.n
    for fn, ok, bad, sites, n in pmap(one, users):
        rep.count('fallible_sites', sites)
        rep.count('path_states', n)
        if not ok:
            rep.notes.append(f'{fn}: too many path states, only partly decided')
        rule = 'the outcome of a failed operation is not used'
        for w, m, k in bad:
            rep.ob(False, rule, w, f'{m} may be the outcome of a failed operation but is used by {k}')
        for _ in range(max(1, sites)):
            if not bad:
                rep.ob(True, rule, p.loc(p.funcs[fn], p.funcs[fn].ins[p.funcs[fn].entry]), f'{sites} fallible sites')
    rep.expect('fallible sites', rep.counts.get('fallible_sites', 0), 30)
    limit(ctx, rep)
    return rep


def limit(ctx, rep):
    """writing an atom beyond the term size is reported: success is returned only where the destination was tested to be inside"""
    p = ctx.prog
    fn = 'Term_RelativeOverride' if 'Term_RelativeOverride' in p.funcs else 'Term_OverrideSubterm'
    f = p.funcs.get(fn)
    if f is None:
        raise BrokenAnalysis('Term_OverrideSubterm not found')
    size = p.types.arrlen(p.types.field_type('Term', 'atoms'))
    rule = 'running out of places in a term is reported'
    D = Defs(f)
    # edges on which the destination index is known to be inside
    wr = [i for i in f.ins if i.k == 'set' and i.a[0] == 'idx' and i.a[1][0] == 'fld' and i.a[1][2] == 'atoms' and i.a[1][1] == ('d', ('v', f.params[0]))]
    rep.expect('writes of atoms into a term', len(wr), 1)
    dst = uncast(wr[0].a[2])

    def inside(i, k):
        e, pol = uncast(i.a), k == 0
        while e[0] == 'u' and e[1] == '!':
            e, pol = uncast(e[2]), not pol
        e = D.x(e)
        if e[0] != 'b' or e[1] not in FLIP:
            return False
        from ..loops import NEGOP
        a, b, op = uncast(e[2]), uncast(e[3]), e[1]
        if b == D.x(dst):
            a, b, op = b, a, FLIP[op]
        if not pol:
            op = NEGOP[op]
        if a != D.x(dst) or b[0] != 'c':
            return False
        return (op == '<' and b[1] <= size) or (op == '<=' and b[1] < size)
    st, seen, n = [(f.entry, False, ())], set(), 0
    bad = []
    while st:
        x, g, env = st.pop()
        if (x, g, env) in seen:
            continue
        seen.add((x, g, env))
        i = f.ins[x]
        if i.k == 'ret':
            e = uncast(i.a)
            v = e[1] if e[0] == 'c' else dict(env).get(e)
            n += 1
            if v != 0 and not g:
                bad.append(i)
            continue
        if i.k == 'set' and i.a[0] == 'v':
            e = uncast(i.b)
            d = dict(env)
            d.pop(i.a, None)
            if e[0] == 'c':
                d[i.a] = e[1]
            elif e in d:
                d[i.a] = d[e]
            env = tuple(sorted(d.items()))
        if i.k == 'br' and len(i.succ) == 2:
            st.extend((y, g or inside(i, k), env) for k, y in enumerate(i.succ))
        else:
            st.extend((y, g, env) for y in i.succ)
    if not bad:
        rep.ob(True, rule, p.loc(f, wr[0]), f'{n} return paths of {fn}')
    for i in bad:
        rep.ob(False, rule, p.loc(f, i), f'{fn} may report success although the destination position was not tested to be inside the term')
