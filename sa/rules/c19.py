"""C19: the network node never runs the reasoner from two threads at once (lockset analysis over both threads and the starting/stopping side)."""
from ..core import *
from .c11 import mentioned, gname

SYNC_TYPES = {'pthread_mutex_t', 'pthread_cond_t', 'pthread_t', 'pthread_rwlock_t', 'sem_t', 'pthread_once_t', 'pthread_attr_t', 'pthread_mutexattr_t'}
ACQ = {'pthread_mutex_lock'}
REL = {'pthread_mutex_unlock'}
OPS = ACQ | REL | {'pthread_create', 'pthread_join', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_timedwait', 'pthread_mutex_trylock', 'pthread_detach'}
# library functions that only read what they are pointed to
READERS = {'puts', 'fputs', 'printf', 'fprintf', 'strlen', 'strcmp', 'strncmp', 'strstr', 'strchr', 'nanosleep', 'sendto', 'atoi', 'atol', 'atof', 'fwrite', 'inet_addr', 'bind', 'fflush'}
# library functions with hidden static state
STATIC_STATE = {'strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'inet_ntoa', 'gethostbyname', 'rand', 'setlocale', 'tmpnam'}


def lockname(e):
    """identity of a lock operand: the global object it names (None: not a single global object)"""
    while isinstance(e, tuple) and e and e[0] == 'cast':
        e = e[-1]
    if isinstance(e, tuple) and e and e[0] == 'a':
        return ('lk', show(e[1])), gname(e[1])
    return ('lk', show(e)), None


def handle(e):
    while isinstance(e, tuple) and e and e[0] == 'cast':
        e = e[-1]
    if isinstance(e, tuple) and e and e[0] == 'a':
        e = e[1]
    return show(e)


def uncast_(e):
    while isinstance(e, tuple) and e and e[0] == 'cast':
        e = e[-1]
    return e


class Node:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        p = self.p
        self.creates = [(f, i) for f in p.funcs.values() for i in f.ins if i.k == 'call' and i.b == 'pthread_create']
        self.taken = set(p.fnptr_refs())
        self.entries = {}      # thread function -> creation sites
        self.bad = []
        for f, i in self.creates:
            t = uncast_(i.c[2])
            if t[0] == 'fn' and t[1] in p.funcs:
                self.entries.setdefault(t[1], []).append((f, i))
            else:
                self.bad.append((f, i))
        # functions that can perform a synchronisation operation
        self.sync = set()
        ch = True
        callers = p.callers()
        work = [n for o in OPS for n in {f.name for f, _ in callers.get(o, [])}]
        while work:
            n = work.pop()
            if n in self.sync:
                continue
            self.sync.add(n)
            work += [f.name for f, _ in callers.get(n, [])]
        self.acc_cache, self.free_cache = {}, {}
        self.accesses = []     # (role, global, kind, held, live, where)
        self.seen_acc = set()
        self.problems = []     # (kind, where, detail)
        self.events = {}
        self.sum = {}
        self.order = {}
        self.joins = []
        self.flags = {}
        self.wrote = {}
        self.hcache = {}

    # ---------------------------------------------------------------- accesses
    def own(self, f, i):
        """global accesses of one instruction: [(global, kind)]"""
        k = (f.name, i.id)
        if k not in self.acc_cache:
            class One:
                ins = [i]
            m = mentioned(self.p, One)
            out = []
            for g, ks in m.items():
                t = self.p.types.canon(self.p.globals[g]) if isinstance(self.p.globals[g], str) else ''
                if any(s in str(self.p.globals[g]) or s in t for s in SYNC_TYPES):
                    continue
                for x in ks:
                    if x == 'a':
                        x = 'r' if i.k == 'call' and isinstance(i.b, str) and i.b in READERS else 'w'
                        if i.k == 'call' and i.b in ('pthread_create', 'pthread_join'):
                            x = 'r'
                    out.append((g, x))
            self.acc_cache[k] = sorted(set(out))
        return self.acc_cache[k]

    def indirect(self):
        return [n for n in self.taken if n in self.p.funcs and n not in self.entries]

    def free(self, name):
        """accesses of a function that performs no synchronisation (and of everything it calls)"""
        if name not in self.free_cache:
            seen, st, acc, lib = set(), [name], {}, set()
            while st:
                n = st.pop()
                if n in seen or n not in self.p.funcs:
                    continue
                seen.add(n)
                f = self.p.funcs[n]
                for i in f.ins:
                    for g, k in self.own(f, i):
                        acc.setdefault((g, k), self.p.loc(f, i))
                    if i.k == 'call':
                        if isinstance(i.b, str):
                            if i.b in STATIC_STATE:
                                lib.add(i.b)
                            st.append(i.b)
                        else:
                            st += self.indirect()
            self.free_cache[name] = (acc, len(seen), lib)
        return self.free_cache[name]

    def note(self, role, g, k, held, live, where, via):
        key = (role, g, k, held, live)
        if key not in self.seen_acc:
            self.seen_acc.add(key)
            self.accesses.append((role, g, k, held, live, where, via))

    # ---------------------------------------------------------------- walk
    def run(self, role, name, st0, stack=()):
        """exit states of a function from one entry state (held, live, stored flags)"""
        key = (role, name, st0)
        if key in self.sum:
            return self.sum[key]
        if name in stack:
            return {st0}
        p = self.p
        f = p.funcs[name]
        by = {i.id: i for i in f.ins}
        jl = [i for i in f.ins if i.k == 'call' and i.b == 'pthread_join']
        states = {i.id: set() for i in f.ins}
        work = [(f.entry, st0)]
        exits = set()
        while work:
            at, s = work.pop()
            if s in states[at]:
                continue
            states[at].add(s)
            i = by[at]
            for g, k in self.own(f, i):
                self.note(role, g, k, s[0], s[1], p.loc(f, i), name)
            outs = {s}
            if i.k == 'set':
                g = gname(i.a)
                if g in self.allflags and i.a == ('v', g):
                    outs = {(s[0], s[1], s[2] | {g})}
                    self.wrote.setdefault(g, []).append((role, i.b, p.loc(f, i)))
            elif i.k == 'call':
                outs = self.call(role, f, i, s, stack + (name,))
            elif i.k == 'ret':
                exits.add(s)
                continue
            if not i.succ:
                if i.k == 'ret' or i.k == 'nop':
                    exits.add(s)
                continue
            for o in outs:
                for n in i.succ:
                    for j in jl:
                        hs, L = self.handles(f, j)
                        if L is not None and at in L.body and n not in L.body:
                            o = self.join(p.loc(f, j), o, hs)
                    work.append((n, o))
        self.sum[key] = exits
        return exits

    def call(self, role, f, i, s, stack):
        held, live, fl = s
        w = self.p.loc(f, i)
        b = i.b
        if not isinstance(b, str):
            for n in self.indirect():
                if n in self.sync:
                    self.run(role, n, s, stack)
                else:
                    for (g, k), ww in self.free(n)[0].items():
                        self.note(role, g, k, held, live, w, f.name)
            return {s}
        if b in ACQ:
            l, g = lockname(i.c[0])
            self.ev('acquire', w, g or show(i.c[0]), l not in held, f'{show(i.c[0])} is requested while already held: the thread waits for itself')
            for h in held:
                self.order.setdefault((h, l), w)
            return {(held | {l}, live, fl)}
        if b in REL:
            l, g = lockname(i.c[0])
            self.ev('release', w, g or show(i.c[0]), l in held, f'{show(i.c[0])} is released on a path on which it is not held')
            return {(held - {l}, live, fl)}
        if b == 'pthread_mutex_trylock':
            return {s}
        if b in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            l, g = lockname(i.c[1])
            self.ev('wait', w, g, l in held, f'waiting on a condition without holding {show(i.c[1])}')
            self.ev('wait-holding', w, g, held <= {l}, f'waiting on a condition while holding {sorted(x[1] for x in held - {l})}, which nobody else can take meanwhile')
            self.waits.append((role, f, i, l, lockname(i.c[0])[0], held, w))
            return {s}
        if b in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            self.signals.append((role, lockname(i.c[0])[0], held, w))
            return {s}
        if b == 'pthread_create':
            t = uncast_(i.c[2])
            if t[0] == 'fn' and t[1] in self.entries:
                h = handle(i.c[0])
                e = (t[1], h)
                if any(x[0] == t[1] for x in live):
                    self.multi.add(t[1])
                self.created.append((role, f, i, e, held, w))
                return {(held, live | {e}, fl)}
            return {s}
        if b == 'pthread_join':
            hs, L = self.handles(f, i)
            if L is not None:
                self.ev('join-lock', w, 'several', not held, f'waits for threads while holding {sorted(y[1] for y in held)}, which they may need to finish')
                return {s}
            return {self.join(w, s, hs)}
        if b in STATIC_STATE:
            self.note(role, f'hidden state of {b}()', 'w', held, live, w, f.name)
        if b in self.p.funcs:
            if b in self.sync:
                return self.run(role, b, s, stack) or {s}
            acc, n, lib = self.free(b)
            for (g, k), ww in acc.items():
                self.note(role, g, k, held, live, w, b)
            for x in lib:
                self.note(role, f'hidden state of {x}()', 'w', held, live, w, b)
        return {s}

    def handles(self, f, i):
        """handles a join waits for; and the loop, when it is a loop over all elements of an array of handles"""
        key = (f.name, i.id)
        if key in self.hcache:
            return self.hcache[key]
        e = uncast_(i.c[0])

        def resolve(e, d=0):
            e = uncast_(e)
            if e[0] == 'v' and e[1] not in self.p.globals and d < 5:
                ws = [x for x in f.ins if x.k in ('set', 'call') and x.a == e]
                if len(ws) == 1 and ws[0].k == 'set':
                    return resolve(ws[0].b, d + 1)
            return e
        e = resolve(e)
        out = ({show(e)}, None)
        if e[0] == 'idx' and e[2][0] != 'c':
            n = self.p.types.arrlen(f.vars.get(e[1][1]) or self.p.globals.get(e[1][1])) if e[1][0] == 'v' else None
            for L in find_loops(f):
                if not (i.id in L.body and n and e[2][0] == 'v' and e[2][1] in L.ivs):
                    continue
                tests = {t[0] for t in L.ivs[e[2][1]][2]}
                if covers(L, e[2][1], 0, n)[0] and all(x.id in tests for x in f.ins if x.id in L.body and x.k == 'br'):
                    hs = set()
                    for k in range(n):
                        el = ('idx', e[1], ('c', k))
                        r = [x.b for x in f.ins if x.k == 'set' and x.a == el] or [x.b[2][k] for x in f.ins if x.k == 'set' and x.a == e[1] and x.b[0] == 'arr' and len(x.b[2]) > k]
                        hs |= {show(resolve(x)) for x in r} if r and e[1][1] not in self.p.globals else {show(el)}
                    out = (hs, L)
        elif e[0] == 'idx' and e[1][0] == 'v' and e[1][1] not in self.p.globals:
            r = [x.b for x in f.ins if x.k == 'set' and x.a == e]
            if len(r) == 1:
                out = ({show(resolve(r[0]))}, None)
        self.hcache[key] = out
        return out

    def join(self, w, s, hs):
        held, live, fl = s
        if True:
            h = ', '.join(sorted(hs))
            gone = {x for x in live if x[1] in hs}
            for x in gone:
                need = self.flags.get(x[0], set())
                self.ev('join', w, h, not need or need & fl, f'waits for the thread running {x[0]} without having told it to stop ({", ".join(sorted(need))} not stored before)')
                self.ev('join-lock', w, h, not held, f'waits for a thread while holding {sorted(y[1] for y in held)}, which the thread may need to finish')
                self.joined.add(x[0])
        return (held, live - gone, fl)

    def ev(self, kind, where, what, ok, detail):
        k = (kind, where, what)
        o = self.events.get(k)
        self.events[k] = (bool(ok) and (o is None or o[0]), detail)

    # ---------------------------------------------------------------- stop flags
    def stopflags(self, name):
        """shared scalars whose value decides whether a loop of the thread function ends; None when a loop can never end"""
        f = self.p.funcs[name]
        out, endless = set(), []
        for L in find_loops(f):
            ex = set()
            for at in L.body:
                i = next(x for x in f.ins if x.id == at)
                if i.k == 'br' and any(n not in L.body for n in i.succ):
                    ex.add(at)
            if not ex:
                endless.append((L, self.p.loc(f, next(x for x in f.ins if x.id == L.head))))
            # values tested at an exit: globals read directly, or through locals set in the loop
            for at in ex:
                i = next(x for x in f.ins if x.id == at)
                todo, seen = [i.a], set()
                while todo:
                    e = todo.pop()
                    for v in vars_of(e):
                        if v in seen:
                            continue
                        seen.add(v)
                        if v in self.p.globals:
                            out.add(v)
                        else:
                            for x in f.ins:
                                if x.id in L.body and x.k == 'set' and x.a == ('v', v):
                                    todo.append(x.b)
                                    # a constant: what matters is the test that chose it
                                    if isinstance(x.b, tuple) and x.b[0] == 'c':
                                        todo += [y.a for y in f.ins if y.k == 'br' and y.id in L.body and x.id in y.succ]
                                elif x.id in L.body and x.k == 'call' and x.a == ('v', v) and isinstance(x.b, str) and x.b in self.p.funcs:
                                    for g in {g for (g, k) in self.free(x.b)[0]}:
                                        out.add(g)
        return out, endless


def vars_of(e):
    out = set()
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'v':
            out.add(e[1])
        for x in e:
            out |= vars_of(x)
    elif isinstance(e, list):
        for x in e:
            out |= vars_of(x)
    return out


def check(ctx):
    rep = Report('C19', ctx, 'The two thread functions are taken from the pthread_create calls; every path through them, through the starting and the stopping function and through all they call is walked with the set '
                 'of mutexes held, the threads possibly running and the stop flags already stored (context-sensitive lockset dataflow). Every global object (all reasoner state is global) that two of '
                 'these sides may touch at the same time, one of them writing, must have a common mutex held at both accesses; mutexes are not requested while held, are held when released and released at '
                 'every exit; the data handed to a thread is static and not written while it runs; every loop of a thread ends when a stop flag is stored, and the stopping function stores it before it joins, and joins every thread.',
                 assumptions=['pthread functions behave as specified (default, non-recursive mutexes); their failures are not modelled',
                              'a stop flag (a scalar deciding the end of a thread loop, only ever assigned constants) may be read and written without a lock',
                              'callbacks registered as operations belong to the host program'])
    N = Node(ctx)
    p = N.p
    N.waits, N.signals, N.created, N.multi, N.joined = [], [], [], set(), set()
    rep.expect('thread creations', len(N.creates), 1)
    for f, i in N.bad:
        rep.ob(False, 'thread-entry', p.loc(f, i), f'the thread function {show(i.c[2])} is not a known function')
    # stop flags
    N.allflags = set()
    for t in N.entries:
        fl, endless = N.stopflags(t)
        const = set()
        for g in fl:
            ws = [(f, i) for f in p.funcs.values() for i in f.ins if (i.k in ('set', 'call') and i.a is not None and gname(i.a) == g) or any(a == ('a', ('v', g)) for a in (i.c or []) if i.k == 'call')]
            if ws and all(i.k == 'set' and isinstance(i.b, tuple) and i.b[0] == 'c' for f, i in ws):
                const.add(g)
        N.flags[t] = const
        N.allflags |= const
        for L, w in endless:
            rep.ob(False, 'thread-ends', w, f'this loop of the thread function {t} has no exit: stopping the node never completes')
        if not endless:
            rep.ob(True, 'thread-ends', f'({t})', 'every loop has an exit')
        ends_by_flag = bool(const)
        rep.ob(ends_by_flag or not find_loops(p.funcs[t]), 'thread-stop-flag', f'({t})', f'loops of the thread end on {sorted(const) or "nothing the stopping side stores"}')
    # walk: the program from main, the stopping side with all threads running, the threads themselves
    none = frozenset()
    if 'main' in p.funcs:
        N.run('program', 'main', (none, none, none))
    starters = {f.name for f, i in N.creates}
    tops = [n for n in N.sync if n in p.funcs and n not in N.entries]
    allthreads = frozenset(e for _, _, _, e, _, _ in N.created)
    if not allthreads:
        for n in tops:
            if n in starters:
                N.run('program', n, (none, none, none))
        allthreads = frozenset(e for _, _, _, e, _, _ in N.created)
    rep.expect('threads started', len(allthreads), 1)
    exits = {}
    for n in tops:
        if n in starters:
            exits[n] = N.run('program', n, (none, none, none))
    stoppers = [n for n in p.funcs if any(i.k == 'call' and i.b == 'pthread_join' for i in p.funcs[n].ins)]
    for n in stoppers:
        if n not in starters:
            exits[n] = N.run('program', n, (none, allthreads, none))
    for t in N.entries:
        ex = N.run(t, t, (none, none, none))
        exits[t] = ex
        for f, i in N.entries[t]:
            N.own(f, i)
    rep.expect('functions that stop the node', len(stoppers), 1)
    # balanced
    for n, ex in exits.items():
        held = sorted({h[1] for s in ex for h in s[0]})
        rep.ob(not held, 'released-at-exit', p.loc(p.funcs[n], p.funcs[n].ins[0]), f'{n} ends with {", ".join(held) or "nothing"} held' + (' on some path' if held else ''))
    for (kind, w, what), (ok, d) in sorted(N.events.items(), key=str):
        rep.ob(ok, kind, w, d if not ok else f'{kind} {what}')
    # functions in between: each keeps the locks of its caller
    done = set()
    for (role, n, s0), ex in list(N.sum.items()):
        if n in N.sync and n not in done:
            bad = [s for s in ex if s[0] != s0[0]]
            if bad and n not in exits:
                done.add(n)
    # lock order
    edges = {}
    for (a, b), w in N.order.items():
        if a != b:
            edges.setdefault(a, {})[b] = w
    for a in edges:
        for b in edges[a]:
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += list(edges.get(x, {}))
            rep.ob(a not in seen, 'lock-order', edges[a][b], f'{b[1]} is requested while {a[1]} is held' + (', and elsewhere the other way round: the threads can block each other for ever' if a in seen else ''))
    # stop waits for all
    for n in stoppers:
        if n in starters:
            continue
        left = sorted({x[0] for s in exits[n] for x in s[1]})
        rep.ob(not left, 'stop-waits', p.loc(p.funcs[n], p.funcs[n].ins[0]), f'{n} can return while {", ".join(left) or "no thread"} still runs' if left else f'{n} returns only after all {len(allthreads)} threads ended')
    # data handed over
    for role, f, i, (t, h), held, w in N.created:
        a = uncast_(i.c[3])
        ok, why = False, f'{show(a)} is not a static object'
        if a[0] == 'c':
            ok, why = True, 'no data'
        elif a[0] == 'a':
            g = gname(a[1])
            if g in p.globals:
                ok, why = True, f'static object {g}'
                uses = any(x.k in ('set', 'call', 'br') and any(v == q for v in vars_of([x.a, x.b, x.c])) for q in p.funcs[t].params[:1] for x in p.funcs[t].ins)
                if uses:
                    N.note(t, g, 'r', none, none, p.loc(p.funcs[t], p.funcs[t].ins[0]), t)
            else:
                ex = exits.get(f.name, set())
                still = any(x[0] == t for s in ex for x in s[1]) or not ex
                ok = not still
                why = f'{show(a)} is a local of {f.name}, which returns while the thread still uses it' if still else f'local of {f.name}, which joins the thread before it returns'
        elif a[0] == 'v' and a[1] in p.globals:
            ok, why = True, f'value of the global {a[1]}'
        rep.ob(ok, 'thread-data', w, f'data given to {t}: {why}')
    # start handshake: a wait that is not repeated must not miss its signal
    for role, f, i, l, c, held, w in N.waits:
        if any(i.id in L.body for L in find_loops(f)):
            continue
        cr = [x for x in N.created if x[1] is f]
        ok = all(l in x[4] for x in cr)
        sg = [x for x in N.signals if x[1] == c and x[0] != role]
        ok2 = bool(sg) and all(l in x[2] for x in sg)
        rep.ob(ok and ok2, 'handshake', w, 'the awaited signal is sent under the mutex that is held from the creation of the thread to the wait' if ok and ok2 else
               'the signal can be sent before the wait begins (mutex not held from the creation of the thread on, or no signal under it): the starting thread waits for ever')
    # races
    per = {}
    for a in N.accesses:
        per.setdefault(a[1], []).append(a)
    shared = checked = 0
    for g, acc in sorted(per.items()):
        roles = {a[0] for a in acc}
        if g in N.allflags:
            continue
        if not any(a[2] == 'w' for a in acc):
            continue
        bad = None
        conc = False
        for x in acc:
            for y in acc:
                if x[2] != 'w':
                    continue
                if x[0] == y[0]:
                    if x[0] == 'program' or x[0] not in N.multi:
                        continue
                else:
                    rx, ry = x[0], y[0]
                    if 'program' in (rx, ry):
                        pr, th = (x, y) if rx == 'program' else (y, x)
                        if not any(e[0] == th[0] for e in pr[4]):
                            continue
                conc = True
                checked += 1
                if not (x[3] & y[3]):
                    if bad is None or (len(bad[0][3]) + len(bad[1][3]) > len(x[3]) + len(y[3])):
                        bad = (x, y)
        if conc:
            shared += 1
            d = f'{g}: every pair of accesses from two threads shares a mutex'
            w = f'({g})'
            if bad:
                def sh(x):
                    return f'{x[0]} {"writes" if x[2] == "w" else "reads"} it at {x[5]} (in or through {x[6]}) holding {sorted(h[1] for h in x[3]) or "nothing"}'
                d = f'{g} can be touched by two threads at once: {sh(bad[0])}; {sh(bad[1])}'
                w = bad[0][5] if len(bad[0][3]) <= len(bad[1][3]) else bad[1][5]
            rep.ob(not bad, 'common-lock', w, d, key=None if not bad else f'common-lock|{bad[0][0]}|{bad[1][0]}|{w.split("(")[-1].rstrip(")")}')
    rep.expect('shared objects', shared, 10)
    rep.count('thread_functions', len(N.entries))
    rep.count('shared_objects', shared)
    rep.count('concurrent_access_pairs', checked)
    rep.count('accesses', len(N.accesses))
    rep.count('function_contexts', len(N.sum))
    rep.count('functions_walked', len({n for _, n, _ in N.sum} | set(N.free_cache)))
    return rep
