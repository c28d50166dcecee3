"""C02: conclusions carry the evidential base of all their premises."""
from ..core import *
from ..records import Escapes
from ..evidence import truth_args, is_truth_fn, cover, strip
from ..loops import FLIP, NEGOP, step_of, uncast


def base_of(e, st, v, depth=0):
    """stamps behind truth value v (structural: the record each operand was read from); None when not identifiable"""
    if depth > 14:
        return None
    k = v[0]
    if k == 'call' and is_truth_fn(v[1]):
        out = set()
        for j in truth_args(e.p, v[1]):
            o = base_of(e, st, v[2][j], depth + 1)
            if o is None:
                return None
            out |= o
        return out
    if k == 'call' and len(v) > 2:      # a pure helper: whatever truth values are in its arguments
        return None
    if k == 'fld' and v[2] == 'truth':
        return {('s', ident(e.proj(v[1], ('fld', 'stamp'))))}
    if k == 'ld' and v[1][0] == 'fld' and v[1][2] == 'truth':
        if e.ty.T.field_type(e.path_type(v[1][1]), 'stamp') is None:
            return set()
        return {('s', ident(('ld', ('fld', v[1][1], 'stamp'), ())))}
    if k in ('agg', 'zero', 'arr') and not mentions(v, lambda t: t[0] in ('ld', 'arg', 'phi', 'ret', 'out', 'clob', 'fld', 'call')):
        return set()
    if k == 'agg' and v[1] == 'Truth':
        from ..evidence import _truth_parts
        out = set()
        for x in _truth_parts(v):
            o = base_of(e, st, x, depth + 1)
            if o is None:
                return None
            out |= o
        return out
    if k == 'with':
        from ..evidence import _truth_parts
        out = set() if v[1][0] in ('uninit', 'zero') else base_of(e, st, v[1], depth + 1)
        for x in _truth_parts(('agg', 'Truth', v[2])):
            o = base_of(e, st, x, depth + 1)
            if o is None or out is None:
                return None
            out |= o
        return out
    if k in ('arg', 'out', 'ret', 'phi', 'clob', 'ldx'):
        return {('t', v)}
    return None


def ident(s):
    """loads are identified by their place (a record's truth and stamp are written together)"""
    if isinstance(s, tuple) and s and s[0] == 'ld':
        return ('ld', ident(s[1]))
    if isinstance(s, tuple):
        return tuple(ident(x) for x in s)
    return s


def covers_of(s):
    return {ident(x) for x in cover(s)}


class H(Escapes):
    def record(self, e, st, f, ins, ctx, how, T, get, path, argof):
        if is_truth_fn(f.name):
            return
        self.pair(e, st, f, ins, ctx, f'{T} {how}', get('truth'), get('stamp'))

    def pair(self, e, st, f, ins, ctx, how, t, s):
        b = base_of(e, st, t)
        if b is None:
            return self.rec(ctx, f, ins, 'pair ' + how, False, e.p.loc(f, ins), f'{how}: the evidence behind the truth value is not identifiable: {str(t)[:200]}')
        if anticipated_failure(t, s):
            return self.rec(ctx, f, ins, 'pair ' + how, True, e.p.loc(f, ins), 'anticipated failure, deliberately without evidential base', False)
        cv = covers_of(s)
        fresh = fresh_id(e, s)
        bad = []
        for kind, x in b:
            if kind == 's':
                if x not in cv and not (x[0] in ('zero', 'agg') and not mentions(x, lambda q: q[0] in ('ld', 'arg', 'phi', 'ret', 'out', 'fld'))):
                    bad.append(x)
            elif not same_record(x, s) and not (x[0] == 'arg' and fresh):
                bad.append(x)
        self.rec(ctx, f, ins, 'pair ' + how, not bad, e.p.loc(f, ins), how + (': the evidential base does not include that of every premise' if bad else ': base covers all premises'),
                 any(mentions(x, lambda q: q[0] == 'arg') for x in bad) or mentions(s, lambda q: q[0] == 'arg'))

    def call(self, e, st, f, ins, name, vals, ctx):
        if is_truth_fn(f.name) or is_truth_fn(name):
            return
        pn = e.p.protos.get(name, (None, []))[1]
        can = [e.ty.T.canon(t) for t in pn]
        ts = [k for k, t in enumerate(can) if t == 'Truth' and k < len(vals)]
        ss = [k for k, t in enumerate(can) if t == 'Stamp' and k < len(vals)]
        sp = [k for k, t in enumerate(can) if t.replace(' ', '') == 'Stamp*' and k < len(vals)]
        tp = [k for k, t in enumerate(can) if t.replace(' ', '') == 'Truth*' and k < len(vals)]
        if len(ss) == 1 and ts:
            for k in ts:
                self.pair(e, st, f, ins, ctx, f'truth {k} passed to {name}', vals[k], vals[ss[0]])

    def field(self, e, st, f, ins, ctx, T, path, val):
        if path[2] not in ('truth', 'stamp'):
            return
        other = 'stamp' if path[2] == 'truth' else 'truth'
        i = ins
        for _ in range(8):
            if len(i.succ) != 1:
                break
            i = f.ins[i.succ[0]]
            if i.k == 'set' and i.a[0] == 'fld' and i.a[2] == other:
                return          # both are written: judged at the second
        g = lambda x: val if x == path[2] else e.read(st, ('fld', path[1], x))
        self.pair(e, st, f, ins, ctx, f'{T} field stored', g('truth'), g('stamp'))

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        for q in list(st.env):
            if q[0] == 'v' and q[1] in f.vars and self.rec_type(e, f.vars[q[1]]) and q[1] in live and \
                    any(f.ins[n].k in ('set', 'call') and f.ins[n].a is not None and root_of(f.ins[n].a) == q for n in body) and not any(f.ins[n].k == 'decl' and f.ins[n].a == q for n in body):
                t, s = e.read(st, ('fld', q, 'truth')), e.read(st, ('fld', q, 'stamp'))
                if t[0] == 'uninit' or mentions(t, lambda y: y[0] == 'uninit'):
                    continue
                self.pair(e, st, f, ins, ctx, f'{q[1].split(":")[1]} carried to the next iteration', t, s)


def anticipated_failure(t, s):
    """negative evidence from an unfulfilled anticipation: a constant zero-frequency operand, and no evidential base"""
    nul = s[0] == 'zero' or (s[0] in ('agg', 'arr') and not mentions(s, lambda q: q[0] in ('ld', 'arg', 'phi', 'ret', 'out', 'fld') or (q[0] == 'c' and q[1] != 0)))
    return nul and mentions(t, lambda q: q[0] == 'agg' and q[1] == 'Truth' and dict(q[2]).get('frequency') in (('f', 0.0), ('c', 0), ('f', '0'), ('f', '0.0')))


def fresh_id(e, s):
    """an input's base: one id taken from a program-wide counter, or the base the user supplied for it (a global record)"""
    if s[0] == 'agg':
        return any(x[0] == 'ld' and x[1][0] == 'v' and not e.islocal(x[1][1]) for x in subterms(s))
    return s[0] == 'ld' and s[1][0] == 'v' and not e.islocal(s[1][1])


def same_record(t, s):
    """truth and stamp come as fields of one and the same unknown record"""
    if t[0] == 'arg':
        return s[0] == 'arg' and s[1] == t[1]
    if t[0] == 'phi':
        k, pth = t[1], t[2]
        if pth[0] == 'fld' and pth[2] == 'truth':
            return s in (('phi', k, ('fld', pth[1], 'stamp')), ('fld', ('phi', k, pth[1]), 'stamp'))
    if t[0] == 'out':
        return s[0] == 'out' and s[1:3] == t[1:3]
    return t[0] == s[0] and t[1:2] == s[1:2]


class IdHook:
    """what the evidence id counter is after an input event was built"""

    def __init__(self, ctr, imp):
        self.ctr, self.imp, self.out = ctr, imp, []

    def on_ret(self, e, st, f, ins, v, ctx):
        if not ctx:
            self.out.append((e.proj(v, ('fld', 'stamp')), e.read(st, ('v', self.ctr)), st, ins))


def check(ctx):
    rep = Report('C02', ctx, 'Truth/stamp pairing: wherever an event or link (or a truth together with a stamp) leaves the local computation, the stamps of all records its truth value '
                 'was computed from must be part of the stamp value stored with it (symbolic value flow through truth functions and stamp merging, all paths). The evidence id counter is '
                 'followed through every write; the merge function is checked for copying, alternating and advancing.',
                 ['a record read from memory is internally consistent (established where it was stored)', 'anticipated failures deliberately carry no evidential base (documented in the statement)'])
    from .c01 import record_builders
    p = ctx.prog
    builders = record_builders(ctx)
    callers = p.callers()
    roots = [r for r in ctx.roots() if not is_truth_fn(r) and not (r in builders and r in callers)]
    res, stats = expand(ctx, lambda: H(ctx), roots, depth=2, relevant=lambda a: False, inline=builders)
    for ok, root, where, detail, skey in res:
        rep.ob(ok, 'truth value and evidential base belong together', f'{where} reached from {root}', detail, key=f'{skey} in {where.split("(")[-1].rstrip(")")} from {root}')
    rep.count('pair_sites', len({(w, s) for _, _, w, _, s in res}))
    rep.count('roots_analysed', len(roots))
    rep.count('abstract_states', stats['states'])
    rep.expect('truth/stamp pairs', len({(w, s) for _, _, w, _, s in res}), 40)
    ids(ctx, rep)
    merge(ctx, rep)
    return rep


def ids(ctx, rep):
    """the counter that numbers inputs only ever moves on when an id was given out"""
    p = ctx.prog
    T = p.types
    f = p.fn('Event_InputEvent')
    rule = 'every input gets a fresh evidence id'
    # the counter: the global integer that enters the stamp of an input event
    ctrs = set()

    def gl(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'v' and x[1] in p.globals and T.canon(p.globals[x[1]]['type']) in ('long', 'int', 'unsigned long', 'unsigned int', 'long long', 'unsigned long long'):
                ctrs.add(x[1])
            for y in x:
                gl(y)
    for i in f.ins:
        if i.k in ('set', 'ret'):
            gl(i.b)
            gl(i.a)
    if len(ctrs) != 1:
        rep.notes.append(f'evidence id counter not recognised ({sorted(ctrs)}), id freshness not judged')
        return
    ctr = ctrs.pop()
    h = IdHook(ctr, None)
    e = ctx.engine(h, relevant=lambda a: True)
    e.run('Event_InputEvent')
    start = ('ld', ('v', ctr))
    for s, after, st, ins in h.out:
        d = delta(after, ctr)
        used = [x for x in subterms(s) if isinstance(x, tuple) and len(x) > 1 and x[0] in ('ld', 'b') and delta(x, ctr) is not None and not (x[0] == 'b' and 0)]
        own = s[0] in ('agg', 'with') or used
        if used:
            u = max(delta(x, ctr) for x in used)
            rep.ob(d is not None and d > u, rule, p.loc(f, ins), f'an input uses id counter+{u} and leaves the counter at {"+" + str(d) if d is not None else "an unknown value"}')
        elif s[0] == 'ld' and s[1][0] == 'v':
            rep.ob(d is not None and d >= 0, rule, p.loc(f, ins), 'an input with supplied evidence does not move the counter back')
            now = e.read(st, s[1])
            from ..evidence import empty
            rep.ob(empty(now) or empty(e.read(st, ('fld', s[1], 'evidentialBase'))), rule, p.loc(f, ins), 'supplied evidence is used for one input only')
        else:
            rep.ob(False, rule, p.loc(f, ins), f'the evidential base of an input is neither a fresh id nor the supplied one: {str(s)[:120]}')
    # other writes to the counter
    for g in p.funcs.values():
        if g.name == 'Event_InputEvent':
            continue
        for i in g.ins:
            if i.k == 'set' and i.a == ('v', ctr):
                b = uncast(i.b)
                if b[0] == 'c':
                    rep.ob(b[1] > 0 and g.name.endswith('_INIT'), rule, p.loc(g, i), f'counter set to {b[1]} (only on reset, and not to the mark of an unused entry)')
                elif b[0] == 'b' and b[1] in '+' and ('c', 1) in (b[2], b[3]):
                    rep.ob(True, rule, p.loc(g, i), 'counter advanced')
                else:
                    rep.ob(False, rule, p.loc(g, i), f'counter overwritten with {show(b)}')
    v = p.ginit.get(ctr)
    rep.ob(v is None or (v[0] == 'c' and v[1] > 0), rule, f'definition of {ctr}', f'initial value {v}')


def delta(v, ctr):
    if len(v) > 2 and v[0] == 'ld' and v[1] == ('v', ctr):
        return 0
    if v[0] == 'b' and len(v) == 4 and v[1] == '+' and v[3][0] == 'c':
        d = delta(v[2], ctr)
        return None if d is None else d + v[3][1]
    if v[0] == 'b' and len(v) == 4 and v[1] == '-' and v[3][0] == 'c':
        d = delta(v[2], ctr)
        return None if d is None else d - v[3][1]
    return None


def merge(ctx, rep):
    """merging copies entries of both bases in alternation"""
    p = ctx.prog
    f = p.fn('Stamp_make')
    n = p.types.arrlen(p.types.field_type('Stamp', 'evidentialBase'))
    Ls = find_loops(f)
    rule = 'merging evidential bases keeps both'
    stores = []
    for i in f.ins:
        if i.k == 'set' and i.a[0] == 'idx' and i.a[1][0] == 'fld' and i.a[1][2] == 'evidentialBase':
            b = uncast(i.b)
            stores.append((i, b))
    src = {}
    for i, b in stores:
        if b[0] == 'idx' and b[1][0] == 'fld' and b[1][2] == 'evidentialBase':
            r = b
            while r[0] in ('fld', 'idx'):
                r = r[1]
            src.setdefault(r, []).append((i, b))
    par = [('d', ('v', v)) for v in f.params]
    if not src or not all(k in par for k in src):
        rep.notes.append('Stamp_make: copying of entries not recognised, mechanism not judged')
        return
    for q in par:
        rep.ob(q in src, rule, p.loc(f, f.ins[f.entry]), f'entries of {show(q)} are taken over')
    loops_of = {}
    for q, ss in src.items():
        for i, b in ss:
            iv = uncast(b[2])
            for L in Ls:
                if i.id in L.body and iv[0] == 'v' and iv[1] in L.ivs:
                    loops_of.setdefault(q, set()).add(L.head)
                    ok, why = covers(L, iv[1], 0, n)
                    if ok is not None:
                        rep.ob(ok, rule, p.loc(f, i), f'source index of {show(q)} {why} of {n} entries')
            # destination index must advance before anything else is stored
            j = uncast(i.a[2])
            if j[0] == 'v':
                rep.ob(advances(f, i, j, [s for s, _ in stores]), rule, p.loc(f, i), f'destination index advances by one after each copied entry')
    if len(loops_of) == 2:
        a, b = loops_of.values()
        rep.ob(bool(a & b), rule, p.loc(f, f.ins[f.entry]), 'entries of the two bases alternate (copied in one loop), so that neither is cut off by the other')
    bad, judged = MergeStates(f, n, src, par).run()
    if bad is None:
        rep.notes.append('Stamp_make: too many states, early ends of the merge not judged')
        return
    rep.count('merge_states_judged', judged)
    if not bad:
        rep.ob(True, rule, p.loc(f, f.ins[f.entry]), f'the merge ends only when full or both bases are exhausted, and no entry is passed over ({judged} path states)')
    for i, why in bad[:4]:
        rep.ob(False, rule, p.loc(f, i), why)


class MergeStates:
    """Disjunctive dataflow over the merging function. A state records the known values of its boolean locals and the facts
    x(q): base q is exhausted (a free entry was seen or its index ran out), full: the destination is full, c(q): q's current entry was copied."""

    def __init__(self, f, n, src, par):
        self.f, self.n, self.par = f, n, par
        self.copies, self.sidx, self.didx = {}, {}, set()
        for q, ss in src.items():
            for i, b in ss:
                self.copies[i.id] = q
                iv = uncast(b[2])
                if iv[0] == 'v':
                    self.sidx.setdefault(iv[1], set()).add(q)
                j = uncast(i.a[2])
                if j[0] == 'v':
                    self.didx.add(j[1])

    def entry_of(self, e):
        if e[0] == 'idx' and e[1][0] == 'fld' and e[1][2] == 'evidentialBase':
            for q in self.par:
                if e[1][1] == q and uncast(e[2])[0] == 'v':
                    return q
        return None

    def cond(self, e, s):
        """[(truth, state)]"""
        e = uncast(e)
        env, facts = s
        if e[0] == 'c':
            return [(bool(e[1]), s)]
        if e[0] == 'v':
            v = dict(env).get(e[1])
            if v is not None:
                return [(v, s)]
            d = dict(env)
            if e[1] in self.f.vars and e[1] not in self.sidx and e[1] not in self.didx:
                return [(t, (frozenset({**d, e[1]: t}.items()), facts)) for t in (True, False)]
        if e[0] == 'u' and e[1] == '!':
            return [(not t, x) for t, x in self.cond(e[2], s)]
        if e[0] == 'b' and e[1] in ('&&', '||'):
            out = []
            for t, x in self.cond(e[2], s):
                out += [(t, x)] if t == (e[1] == '||') else self.cond(e[3], x)
            return out
        q = self.entry_of(e)
        if q is not None:
            return [(True, s), (False, (env, facts | {('x', q)}))]
        if e[0] == 'b' and e[1] in FLIP:
            a, b, op = uncast(e[2]), uncast(e[3]), e[1]
            if a[0] == 'c':
                a, b, op = b, a, FLIP[op]
            if b[0] == 'c':
                q = self.entry_of(a)
                if q is not None and b[1] == 0 and op in ('==', '!='):
                    return [(t, (env, facts | {('x', q)}) if t == (op == '==') else s) for t in (True, False)]
                if a[0] == 'v' and (a[1] in self.sidx or a[1] in self.didx):
                    out = []
                    for t in (True, False):
                        o = op if t else NEGOP[op]
                        ends = (o in ('>=', '==') and b[1] >= self.n) or (o == '>' and b[1] >= self.n - 1)
                        fs = facts
                        if ends:
                            fs = fs | {('x', q) for q in self.sidx.get(a[1], ())}
                            if a[1] in self.didx:
                                fs = fs | {'full'}
                        out.append((t, (env, fs)))
                    return out
        return [(t, (env, facts | {'unknown'})) for t in (True, False)]

    def run(self):
        f = self.f
        seen, work, bad, judged = set(), [(f.entry, (frozenset(), frozenset()))], [], 0
        while work:
            x, s = work.pop()
            if (x, s) in seen:
                continue
            seen.add((x, s))
            if len(seen) > 20000:
                return None, 0
            i = f.ins[x]
            env, facts = s
            if i.k == 'br' and len(i.succ) == 2:
                for t, s2 in self.cond(i.a, s):
                    work.append((i.succ[0 if t else 1], s2))
                continue
            if i.k == 'ret':
                judged += 1
                if 'unknown' not in facts and 'full' not in facts and not all(('x', q) in facts for q in self.par):
                    bad.append((i, 'returns although neither the merged base is full nor both bases are exhausted'))
                continue
            outs = [s]
            if i.k == 'set':
                if x in self.copies:
                    outs = [(env, facts | {('c', self.copies[x])})]
                elif i.a[0] == 'v':
                    v = i.a[1]
                    if v in self.sidx and step_of(i) is not None:
                        judged += 1
                        for q in self.sidx[v]:
                            if not facts & {'unknown', 'full', ('x', q), ('c', q)}:
                                bad.append((i, f'an entry of {show(q)} is passed over although it was not copied'))
                        outs = [(env, facts - {('c', q) for q in self.sidx[v]})]
                    elif v in self.didx or v in self.sidx:
                        pass
                    else:
                        ty = f.vars.get(v)
                        outs = []
                        d = {k: w for k, w in env if k != v}
                        if '_Bool' in str(ty) or 'bool' in str(ty) or uncast(i.b)[0] == 'c':
                            for t, (e2, f2) in self.cond(i.b, (frozenset(d.items()), facts)):
                                outs.append((frozenset({**dict(e2), v: t}.items()), f2))
                        else:
                            outs = [(frozenset(d.items()), facts)]
            for s2 in outs:
                for y in i.succ:
                    work.append((y, s2))
        return bad, judged


def advances(f, store, j, stores):
    """on every path from the store to another store, j is incremented exactly once by one"""
    ids_ = {s.id for s in stores}
    seen, st = set(), [(s, 0) for s in store.succ]
    while st:
        x, c = st.pop()
        if (x, c) in seen:
            continue
        seen.add((x, c))
        i = f.ins[x]
        if x in ids_:
            if c != 1:
                return False
            continue
        if i.k == 'set' and i.a == j:
            s = step_of(i)
            if s is None:
                continue        # re-initialised
            c += s
            if c > 1:
                return False
        st.extend((s, c) for s in i.succ)
    return True
