"""C09: cached term hashes match the term."""
from ..core import *
from ..absint import Summaries
from ..flat import assigned
from .c16 import STABLE
from .c14 import Hooks, arg, loc, marks, strip, holds

NO, YES = False, True      # may carry a cached hash / surely carries none; ('e', k): carries none if what parameter k leads to carried none at entry


def meet(*vs):
    out = YES
    for v in vs:
        if v == out or v == YES:
            continue
        out = v if out == YES else NO
    return out


def kids(p):
    """components of a path, root first"""
    out = []
    while p[0] in ('fld', 'idx'):
        out.append(('fld', p[2]) if p[0] == 'fld' else ('idx', p[2]))
        p = p[1]
    return p, out[::-1]


def overlap(a, b):
    """whether one of two paths may be part of the other"""
    ra, ka = kids(a)
    rb, kb = kids(b)
    if ra != rb:
        return False
    for x, y in zip(ka, kb):
        if x[0] != y[0]:
            return True
        if x[0] == 'fld' and x[1] != y[1]:
            return False
        if x[0] == 'idx' and x[1] != y[1] and x[1][0] == 'c' and y[1][0] == 'c':
            return False
    return True


def inside(p, q):
    """p is q or a part of it"""
    while True:
        if p == q:
            return True
        if p[0] not in ('fld', 'idx'):
            return False
        p = p[1]


def rebase(p, q, to):
    if p == q:
        return to
    return (p[0], rebase(p[1], q, to)) + p[2:]


def uses(e, v):
    return any(t == ('v', v) for t in subterms(e))


class State09(dict):
    """path -> value; a path without entry has the value of the closest enclosing one, and NO without any"""
    def base(self, p):
        while True:
            if p in self:
                return self[p]
            if p[0] not in ('fld', 'idx'):
                return NO
            p = p[1]

    def look(self, p):
        """value of all terms at a place"""
        if p in self and not any(q != p and inside(q, p) for q in self):
            return self[p]
        return meet(self.base(p), *[v for q, v in self.items() if overlap(q, p) and not inside(p, q)])

    def put(self, p, v):
        for q in [q for q in self if inside(q, p)]:
            del self[q]
        if v != YES:
            for q in [q for q in self if overlap(q, p) and not inside(p, q)]:
                self[q] = meet(self[q], v)
        self[p] = v

    def copy_from(self, p, src):
        sub = {rebase(q, src, p): v for q, v in self.items() if inside(q, src)}
        v = self.base(src)
        if any(q for q in self if overlap(q, src) and not inside(src, q) and not inside(q, src)):
            v = self.look(src)
            sub = {}
        self.put(p, v)
        self.update(sub)
        if p not in sub:
            self[p] = v

    def gone(self, var):
        """a variable changes: places named by it"""
        for q in [q for q in self if uses(q, var)]:
            v = self.pop(q)
            r, ks = kids(q)
            if r == ('v', var) or uses(r, var):
                continue
            b = q
            while uses(b, var):
                b = b[1]
            if v != YES:
                self[b] = meet(self.look(b), v)

    def join(self, o):
        out = State09()
        for p in set(self) | set(o):
            out[p] = meet(self.base(p), o.base(p))
        return out


class Flow:
    """forward must-analysis of one function"""
    def __init__(self, A, f):
        self.A, self.f = A, f
        self.ty = A.ty
        self.params = {v: k for k, v in enumerate(f.params)}
        # where local pointers lead
        T = self.ty.T
        addr = {root_of(t[1])[1] for i in f.ins for x in (i.a, i.b, i.c) for t in (subterms(x) if isinstance(x, tuple) else [y for z in (x if isinstance(x, list) else []) for y in subterms(z)])
                if t and t[0] == 'a' and isinstance(t[1], tuple) and root_of(t[1])[0] == 'v'}
        asg = {}
        for i in f.ins:
            if i.k in ('set', 'call') and isinstance(i.a, tuple) and i.a[0] == 'v':
                asg.setdefault(i.a[1], []).append(strip(i.b) if i.k == 'set' else None)
        self.pt = {}
        cand = {v for v in f.vars if T.is_ptr(T.canon(f.vars[v])) and v in asg and v not in addr and v not in self.params}

        def fixed(e):
            return all(t[0] != 'v' or t[1] in f.vars and (t[1] not in asg or t[1] not in addr and len(asg[t[1]]) == 1 and t[1] not in self.params) or t == root_of(e) for t in subterms(e))

        def leads(b):
            """places a pointer value leads to, None if unknown"""
            if b is None:
                return None
            if b == ('c', 0):
                return set()
            if b[0] == 'a' and b[1][0] != 'strlv':
                r = root_of(b[1])
                if not fixed(b[1]):
                    return None
                if r[0] == 'v':
                    return {b[1]}
                if r[0] == 'd' and r[1][0] == 'v':
                    up = leads(r[1])
                    return None if up is None else {rebase(b[1], r, q) for q in up}
                return None
            if b[0] == 'v':
                if b[1] in self.params and b[1] not in asg and b[1] not in addr:
                    return {('d', b)}
                if b[1] in cand:
                    return self.pt.get(b[1], set())
            return None
        while True:
            new = {}
            for v in cand:
                ls = [leads(b) for b in asg[v]]
                if None not in ls:
                    new[v] = set().union(*ls)
                else:
                    new[v] = None
            drop = {v for v in new if new[v] is None or len(new[v]) > 6}
            cand -= drop
            new = {v: q for v, q in new.items() if v in cand}
            if new == self.pt and not drop:
                break
            self.pt = {} if drop else new
        # locals whose address is kept somewhere else
        self.kept = set()
        self.alias = {}
        for i in f.ins:
            if i.k == 'set' or i.k == 'ret' and i.a is not None:
                if not (i.k == 'set' and i.a[0] == 'v' and i.a[1] in self.pt):
                    for t in subterms(i.b if i.k == 'set' else i.a):
                        if t and t[0] == 'a' and isinstance(t[1], tuple):
                            r = root_of(t[1])
                            if r[0] == 'v' and r[1] in f.vars and not A.atoms_of(f, t[1]):
                                self.kept.add(r[1])
                        if t and t[0] == 'v' and t[1] in self.pt:
                            par = [x for x in subterms(i.b if i.k == 'set' else i.a) if t in x[1:]]
                            if strip(i.b if i.k == 'set' else i.a) == t or any(x[0] in ('agg', 'arr', 'cast') or x[0] == 'b' and x[1] in '+-' for x in par):
                                self.kept |= {root_of(q)[1] for q in self.pt[t[1]] if root_of(q)[0] == 'v'}
            if i.k == 'set':
                # pointers into a term's atoms
                b = i.b
                while b[0] == 'cast':
                    b = b[2]
                tgt = A.atoms_of(f, b[1]) if b[0] == 'a' else None
                if i.a[0] == 'v' and tgt:
                    self.alias.setdefault(i.a[1], set()).add(tgt)
                elif i.a[0] == 'v' and b[0] in ('b', 'v'):
                    for v in [t[1] for t in subterms(b) if t[0] == 'v']:
                        if v in self.alias:
                            self.alias.setdefault(i.a[1], set()).update(self.alias[v])
        self.sites = {}         # (instruction, place) -> value at an atom write or a call that needs it
        self.dirties = set()
        self.ret = None
        self.exit = {}
        self.events = set()     # what may get a cached hash: parameter index or 'other'

    def res(self, p):
        """the places a path may be, without local pointers that are known to lead to them"""
        r = root_of(p)
        if r[0] == 'd' and r[1][0] == 'v' and r[1][1] in self.pt:
            return [z for q in self.pt[r[1][1]] for z in self.res(rebase(p, r, q))]
        return [p]

    def look(self, s, p):
        return meet(*[s.look(q) for q in self.res(p)])

    def put(self, s, p, v):
        qs = self.res(p)
        for q in qs:
            if len(qs) == 1 or v != YES:
                s.put(q, v if len(qs) == 1 else meet(s.look(q), v))

    def has(self, p):
        return self.A.has_term(self.ty.of(self.f, p))

    def entry(self):
        s = State09()
        for v, k in self.params.items():
            t = self.ty.T.canon(self.f.vars[v])
            if self.ty.T.is_ptr(t):
                s[('d', ('v', v))] = ('e', k)
            elif self.A.has_term(t):
                s[('v', v)] = ('e', k)
        return s

    def owner(self, p):
        """parameter whose memory a place is in, None for a local, 'other' otherwise"""
        qs = self.res(p)
        if qs != [p]:
            os = {self.owner(q) for q in qs}
            return None if os <= {None} else os.pop() if len(os) == 1 else 'other'
        r = root_of(p)
        if r[0] == 'v':
            return None if r[1] in self.f.vars else 'other'
        if r[0] == 'd' and r[1][0] == 'v' and r[1][1] in self.params and r[1][1] not in self.A.asg[self.f.name]:
            return self.params[r[1][1]]
        return 'other'

    def lose(self, s, p):
        """what is at place p may get a cached hash"""
        qs = self.res(p)
        if qs != [p]:
            for q in qs:
                self.lose(s, q)
            return
        if root_of(p)[0] == 'v' and not root_of(p)[1] in self.f.vars:
            self.others(s)
            return
        self.put(s, p, NO)
        o = self.owner(p)
        if o is not None:
            self.events.add(o)
        if o == 'other':
            self.others(s)

    def others(self, s):
        self.events.add('other')
        for v in self.f.vars:
            if v in self.kept:
                for q in [q for q in s if root_of(q) == ('v', v)]:
                    del s[q]
                s[('v', v)] = NO
        for q in [q for q in s if root_of(q)[0] == 'd']:
            v = root_of(q)[1]
            if v[0] == 'v' and v[1] in self.params and (self.f.name, self.params[v[1]]) in self.A.own_locals and v[1] not in self.A.asg[self.f.name]:
                continue        # memory of a caller that nobody else knows of
            s[q] = NO

    def val(self, s, e, t=None):
        while e[0] == 'cast':
            e = e[2]
        if e[0] == 'zero' or e[0] == 'c':
            return YES
        if e[0] == 'agg':
            c = self.ty.T.canon(e[1])
            if c == 'Term':
                h = dict(e[2]).get('hashed', ('c', 0))
                while h[0] == 'cast':
                    h = h[2]
                if h not in (('c', 0), ('zero', '_Bool'), ('zero', 'bool')) and h[0] != 'zero':
                    self.A.badflag(self.f, e)
                    return NO
                return YES
            return meet(*[self.val(s, x) for fl, x in e[2] if self.A.has_term(self.ty.T.field_type(c, fl) or '')])
        if e[0] == 'arr':
            return meet(*[self.val(s, x) for x in e[2]])
        if e[0] in ('v', 'fld', 'idx', 'd'):
            return self.look(s, e)
        return NO

    def assign(self, s, p, e):
        while e[0] == 'cast':
            e = e[2]
        if e[0] in ('v', 'fld', 'idx', 'd') and len(self.res(p)) == 1 == len(self.res(e)) and not overlap(self.res(p)[0], self.res(e)[0]):
            s.copy_from(self.res(p)[0], self.res(e)[0])
            v = self.look(s, p)
        elif e[0] == 'agg' and self.ty.T.canon(e[1]) != 'Term' or e[0] == 'arr':
            self.put(s, p, YES)
            for k, x in (e[2] if e[0] == 'agg' else enumerate(e[2])):
                q = ('fld', p, k) if e[0] == 'agg' else ('idx', p, ('c', k))
                if self.has(q):
                    self.assign(s, q, x)
            v = self.look(s, p)
        else:
            v = self.val(s, e)
            self.put(s, p, v)
        if v != YES and self.owner(p) is not None:
            self.lose(s, p)

    def target(self, a):
        """place a pointer argument leads to"""
        while a[0] == 'cast':
            a = a[2]
        if a[0] == 'a':
            q = a[1]
            return q
        if a[0] == 'b':
            ps = [x for x in (a[2], a[3]) if self.ty.T.is_ptr(self.ty.of(self.f, x) or '')]
            return ('d', ps[0]) if ps else None
        if a[0] in ('v', 'fld', 'idx', 'd', 'ld'):
            return ('d', a)
        return None

    def write_atoms(self, s, i, T):
        v = self.look(s, T)
        self.sites[(i.id, T)] = meet(v, self.sites.get((i.id, T), YES))

    def step(self, i, s):
        f, A = self.f, self.A
        if i.k == 'decl':
            s.gone(i.a[1])
            if A.has_term(self.ty.T.canon(f.vars[i.a[1]])):
                s[i.a] = NO
        elif i.k == 'set':
            p = i.a
            T = A.atoms_of(f, p)
            if T is not None:
                self.write_atoms(s, i, T)
            elif p[0] in ('idx', 'd') and root_of(p)[0] == 'd' and root_of(p)[1][0] == 'v' and root_of(p)[1][1] in self.alias:
                for T in self.alias[root_of(p)[1][1]]:
                    self.write_atoms(s, i, T)
            elif p[0] == 'fld' and self.ty.of(f, p[1]) == 'Term' and p[2] == 'hashed':
                b = strip(i.b)
                if b == ('c', 0) or b[0] == 'zero':
                    self.put(s, p[1], YES)
                else:
                    A.flagsets.setdefault(f.name, []).append(i)
                    self.lose(s, p[1])
            elif p[0] == 'fld' and self.ty.of(f, p[1]) == 'Term' and p[2] == 'hash':
                A.flagsets.setdefault(f.name, []).append(i)
            elif self.has(p):
                self.assign(s, p, i.b)
            if p[0] == 'v':
                if not self.has(p):
                    s.gone(p[1])
                b = strip(i.b)
                if self.ty.T.is_ptr(self.ty.T.canon(f.vars.get(p[1], '') or '')) and b != p:
                    q = self.target(b)
                    if q is not None and q[0] != 'strlv' and not uses(q, p[1]):
                        s[('d', p)] = self.look(s, q)
            elif self.ty.T.is_ptr(self.ty.of(f, p) or ''):
                # places reached through a pointer that changes
                for q in [q for q in s if root_of(q)[0] == 'd' and any(t == p for t in subterms(root_of(q)[1]))]:
                    s[q] = NO
        elif i.k == 'call':
            self.call(i, s)
        elif i.k == 'ret':
            if i.a is not None and self.A.has_term(self.ty.T.canon(f.ret)):
                v = self.val(s, i.a)
                self.ret = v if self.ret is None else meet(self.ret, v)

    def call(self, i, s):
        f, A = self.f, self.A
        tg = [i.b] if isinstance(i.b, str) else A.summ.targets(f, i)
        ret = YES
        for g in tg:
            S = A.of(g)
            if S is None:
                ret = NO
                self.external(i, g, s)
                continue
            # needs
            for k in S['needs']:
                if k < len(i.c):
                    a = i.c[k]
                    by_ptr = A.ptr_param(g, k)
                    q = self.target(a) if by_ptr else None
                    if by_ptr and q is None:
                        continue
                    v = self.look(s, q) if by_ptr else self.val(s, a)
                    key = (i.id, q if by_ptr else ('call', g, k))
                    self.sites[key] = meet(v, self.sites.get(key, YES))
            r = S['ret']
            if isinstance(r, tuple):
                a = i.c[r[1]] if r[1] < len(i.c) else None
                r = NO if a is None else (self.val(s, a) if not A.ptr_param(g, r[1]) else (self.look(s, self.target(a)) if self.target(a) else NO))
            ret = meet(ret, r)
            for k in S['events']:
                if k == 'other':
                    self.others(s)
                elif k < len(i.c):
                    q = self.target(i.c[k])
                    if q is not None and q[0] != 'strlv' and (self.has(q) or self.ty.of(f, q) in ('void', 'char') and self.ty.of(f, i.c[k]) == 'void *'):
                        if q[0] == 'v' and q[1] not in f.vars:
                            self.others(s)
                        else:
                            self.lose(s, q)
            for k in S['clears']:
                if k < len(i.c):
                    q = self.target(i.c[k])
                    if q is not None and q[0] != 'strlv' and self.has(q):
                        self.put(s, q, YES)
        if i.a is not None:
            if self.has(i.a):
                self.put(s, i.a, ret)
                if ret != YES and self.owner(i.a) is not None:
                    self.lose(s, i.a)
            elif i.a[0] == 'v':
                s.gone(i.a[1])

    def external(self, i, g, s):
        """memset, memcpy and the like on terms"""
        f = self.f
        un = lambda x: un(x[2]) if x[0] == 'cast' else x
        if g in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'fread', 'snprintf', 'sprintf', 'scanf', 'sscanf', 'recv', 'recvfrom', 'read', 'fgets'):
            for k, a in enumerate(i.c):
                if k > 0 and g in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy'):
                    break
                a = un(a)
                q = self.target(a)
                if q is None or q[0] == 'strlv':
                    continue
                T = self.A.atoms_of(f, q)
                if T is None and a[0] == 'v' and a[1] in self.alias:
                    for T in self.alias[a[1]]:
                        self.write_atoms(s, i, T)
                    continue
                if T is not None:
                    self.write_atoms(s, i, T)
                elif self.has(q):
                    if g == 'memset' and un(i.c[1]) == ('c', 0):
                        self.put(s, q, YES)
                    elif g in ('memcpy', 'memmove') and self.target(un(i.c[1])) and self.has(self.target(un(i.c[1]))):
                        v = self.look(s, self.target(un(i.c[1])))
                        self.put(s, q, v)
                        if v != YES and self.owner(q) is not None:
                            self.lose(s, q)
                    else:
                        self.lose(s, q)

    def run(self):
        f = self.f
        ins = {f.entry: self.entry()}
        order = {n: k for k, n in enumerate(rpo(f))}
        import heapq
        heap, inh = [(0, f.entry)], {f.entry}
        preds = f.preds()
        while heap:
            _, n = heapq.heappop(heap)
            inh.discard(n)
            i = f.ins[n]
            s = State09(ins[n])
            self.step(i, s)
            if i.k == 'ret' or not i.succ:
                for v, k in self.params.items():
                    d = ('d', ('v', v))
                    self.exit[k] = meet(self.exit.get(k, YES), self.look(s, d) if v not in self.A.asg[f.name] else NO)
            for m in i.succ:
                if m not in ins:
                    ins[m] = State09(s)
                else:
                    if len(preds[m]) == 1:
                        if ins[m] == s:
                            continue
                        j = State09(s)
                    else:
                        j = ins[m].join(s)
                    if j == ins[m]:
                        continue
                    ins[m] = j
                if m not in inh:
                    inh.add(m)
                    heapq.heappush(heap, (order.get(m, 10**9), m))
        return self

    # ------------------------------------------------------------------------------------- repaired right afterwards
    def settled(self, n, T):
        """after the write at instruction n the flag of T is cleared before anything can read it"""
        f = self.f
        seen, st = set(), list(f.ins[n].succ)
        r = root_of(T)
        while st:
            m = st.pop()
            if m in seen:
                continue
            seen.add(m)
            i = f.ins[m]
            if i.k == 'set':
                if i.a[0] == 'fld' and i.a[2] == 'hashed' and i.a[1] == T and (strip(i.b) == ('c', 0) or strip(i.b)[0] == 'zero'):
                    continue
                if self.whole(i.b, T):
                    return False
                if i.a == T or i.a[0] in ('v', 'fld') and inside(T, i.a) and self.has(i.a):
                    continue
                if i.a[0] == 'v' and uses(T, i.a[1]):
                    return False
            elif i.k == 'call':
                for g in ([i.b] if isinstance(i.b, str) else self.A.summ.targets(f, i)):
                    if g in self.A.touches or g not in self.A.p.funcs and any(uses(a, t[1]) for a in i.c for t in subterms(T) if t[0] == 'v'):
                        if g not in ('exit', 'abort', 'puts', 'printf'):
                            return False
                if i.b in ('exit', 'abort'):
                    continue
                if any(self.whole(a, T) for a in i.c):
                    return False
            elif i.k == 'ret':
                if r == ('v', r[1]) and r[1] in f.vars and not (i.a is not None and self.whole(i.a, T)):
                    continue
                return False
            elif i.k in ('br', 'switch') and self.whole(i.a, T):
                return False
            st.extend(i.succ)
        return True

    def whole(self, e, T):
        """expression reads the term itself, not only its atoms"""
        if not isinstance(e, tuple) or not e:
            return False
        if e == T or e[0] in ('v', 'fld', 'idx', 'd') and inside(T, e) and self.has(e):
            return True
        if e[0] == 'fld' and e[1] == T:
            return e[2] != 'atoms'
        if e[0] == 'a':
            return inside(T, e[1]) or any(self.whole(x, T) for x in e[1][1:] if isinstance(x, tuple) and x and x[0] not in ('fld', 'idx', 'v', 'd'))
        if e[0] == 'idx':
            return self.whole(e[2], T) or e[1] != ('fld', T, 'atoms') and self.whole(e[1], T)
        return any(self.whole(x, T) for x in e[1:] if isinstance(x, tuple))


def rpo(f):
    seen, out = {f.entry}, []
    st = [(f.entry, iter(f.ins[f.entry].succ))]
    while st:
        x, it = st[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                st.append((m, iter(f.ins[m].succ)))
                break
        else:
            out.append(x)
            st.pop()
    return out[::-1]


class Analysis:
    def __init__(self, p, summ):
        self.p, self.summ, self.ty = p, summ, summ.ty
        self.asg = {f.name: {v for v in f.params if v in assigned_params(f)} for f in p.funcs.values()}
        self._has = {}
        self.flagsets, self.flags = {}, []
        self.S = {}
        self.own_locals = self.locals_only()
        self.touches = self.closure()
        self.flows = {}

    def locals_only(self):
        """parameters that only ever lead to a local of some caller whose address is not kept anywhere"""
        sites, kept = {}, {}
        for f in self.p.funcs.values():
            kept[f.name] = {root_of(t[1])[1] for i in f.ins if i.k == 'set' for t in subterms(i.b) if t and t[0] == 'a' and isinstance(t[1], tuple) and root_of(t[1])[0] == 'v'}
            for i in f.ins:
                if i.k == 'call':
                    for g in ([i.b] if isinstance(i.b, str) else self.summ.targets(f, i)):
                        sites.setdefault(g, []).append((f, i))
        out = {(g, k) for g in self.p.funcs for k in range(len(self.p.funcs[g].params)) if self.ptr_param(g, k) and sites.get(g) and g not in self.summ.addr_taken}
        while True:
            bad = set()
            for g, k in out:
                for f, i in sites[g]:
                    a = i.c[k] if k < len(i.c) else ('c', 0)
                    while a[0] == 'cast':
                        a = a[2]
                    r = root_of(a[1]) if a[0] == 'a' and a[1][0] != 'strlv' else a
                    if r[0] == 'd':
                        r = r[1]
                    elif r[0] == 'v' and a[0] == 'a':
                        if r[1] in f.vars and r[1] not in kept[f.name]:
                            continue
                    if r[0] == 'v' and r[1] in f.params and (f.name, f.params.index(r[1])) in out and r[1] not in self.asg[f.name]:
                        continue
                    bad.add((g, k))
            if not bad:
                return out
            out -= bad

    def badflag(self, f, e):
        self.flags.append((f, e))

    def has_term(self, t):
        t = self.ty.T.canon(t or '')
        if t in self._has:
            return self._has[t]
        self._has[t] = False
        if self.ty.T.is_ptr(t):
            r = False
        elif t == 'Term':
            r = True
        elif '[' in t:
            r = self.has_term(self.ty.T.elem(t))
        else:
            fs = self.ty.T.records.get(t)
            r = bool(fs) and any(self.has_term(ft) for ft in (fs.values() if isinstance(fs, dict) else [x[1] for x in fs]))
        self._has[t] = r
        return r

    def atoms_of(self, f, p):
        """the term whose atoms a place is (part of)"""
        while isinstance(p, tuple) and p and p[0] in ('fld', 'idx'):
            if p[0] == 'fld' and p[2] == 'atoms' and self.ty.of(f, p[1]) == 'Term':
                return p[1]
            p = p[1]
        return None

    def ptr_param(self, g, k):
        h = self.p.funcs[g]
        return k < len(h.params) and self.ty.T.is_ptr(self.ty.T.canon(h.vars[h.params[k]]))

    def of(self, g):
        if g not in self.p.funcs:
            return None
        return self.S.setdefault(g, dict(events=frozenset(), needs=frozenset(), clears=frozenset(), ret=YES))

    def closure(self):
        direct, calls = set(), {}
        for f in self.p.funcs.values():
            cs = calls.setdefault(f.name, set())
            for i in f.ins:
                if i.k == 'call':
                    cs |= {i.b} if isinstance(i.b, str) else set(self.summ.targets(f, i))
                for x in (i.a, i.b, i.c):
                    for t in (subterms(x) if isinstance(x, tuple) else [y for z in (x if isinstance(x, list) else []) for y in subterms(z)]):
                        if len(t) == 3 and t[0] == 'fld' and t[2] in ('hashed', 'hash'):
                            direct.add(f.name)
                if i.k == 'set' and self.has_term(self.ty.of(f, i.a)):
                    direct.add(f.name)
        while True:
            more = {n for n, cs in calls.items() if n not in direct and cs & direct}
            if not more:
                return direct
            direct |= more

    def compute(self):
        todo = set(self.p.funcs)
        callers = {}
        for f in self.p.funcs.values():
            for i in f.ins:
                if i.k == 'call':
                    for g in ([i.b] if isinstance(i.b, str) else self.summ.targets(f, i)):
                        callers.setdefault(g, set()).add(f.name)
        # callees first
        order, seen = [], set()

        def visit(n):
            st = [(n, iter(sorted({g for i in self.p.funcs[n].ins if i.k == 'call' for g in ([i.b] if isinstance(i.b, str) else self.summ.targets(self.p.funcs[n], i)) if g in self.p.funcs})))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for g in it:
                    if g not in seen:
                        seen.add(g)
                        st.append((g, iter(sorted({h for i in self.p.funcs[g].ins if i.k == 'call' for h in ([i.b] if isinstance(i.b, str) else self.summ.targets(self.p.funcs[g], i)) if h in self.p.funcs}))))
                        break
                else:
                    order.append(x)
                    st.pop()
        for n in sorted(self.p.funcs):
            if n not in seen:
                visit(n)
        pos = {n: k for k, n in enumerate(order)}
        rounds = 0
        while todo:
            n = min(todo, key=pos.get)
            todo.discard(n)
            rounds += 1
            if rounds > 40 * len(self.p.funcs):
                raise BrokenAnalysis('summaries do not settle')
            F = Flow(self, self.p.funcs[n]).run()
            self.flows[n] = F
            needs = set()
            for (i, T), v in F.sites.items():
                if isinstance(v, tuple) and not (T[0] != 'call' and F.settled(i, T)):
                    needs.add(v[1])
            clears = frozenset(k for k, v in F.exit.items() if v == YES and k not in F.events and self.ptr_param(n, k) and self.has_term(self.ty.T.elem(self.ty.T.canon(F.f.vars[F.f.params[k]])) or ''))
            old = self.of(n)
            new = dict(events=old['events'] | frozenset(F.events), needs=old['needs'] | frozenset(needs), clears=clears, ret=YES if F.ret is None else F.ret)
            if new['ret'] != old['ret']:
                new['ret'] = meet(new['ret'], old['ret']) if n in self.flows and rounds > len(self.p.funcs) else new['ret']
            if new != old:
                self.S[n] = new
                todo |= callers.get(n, set())
        self.rounds = rounds


def assigned_params(f):
    out = set()
    for i in f.ins:
        if i.k in ('set', 'call') and isinstance(i.a, tuple) and i.a[0] == 'v':
            out.add(i.a[1])
    return out


def flow(ctx, rep):
    A = Analysis(ctx.rt, ctx.rtsumm)
    A.flagsets = {}
    A.compute()
    n = 0
    callers = {}
    for f in A.p.funcs.values():
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str):
                callers.setdefault(i.b, set()).add(f.name)
    for name, F in sorted(A.flows.items()):
        for (i, T), v in sorted(F.sites.items(), key=str):
            n += 1
            call = F.f.ins[i].k == 'call'
            ok = v == YES or isinstance(v, tuple) or T[0] != 'call' and F.settled(i, T)
            if name.startswith('RuleTable') and ok:
                continue
            what = f'{F.f.ins[i].b} changes the atoms of {show(T) if T[0] != "call" else "an argument"}' if call else f'the atoms of {show(T)} change'
            rep.ob(ok, 'changes of terms', A.p.loc(F.f, F.f.ins[i]), what + ('' if ok else ' while it may carry a cached hash of what it was before'), key=f'{name} {what}')
    rep.count('atom_changing_sites', n)
    rep.count('functions_analysed', len(A.flows))
    rep.count('functions_that_require_an_unhashed_term', sum(1 for s in A.S.values() if s['needs']))
    rep.expect('atom changing sites', n, 10)
    # who caches
    own = {'Term_Hash'}
    while True:
        more = {g for g in A.p.funcs if g not in ctx.known and g not in own and callers.get(g) and callers[g] <= own}
        if not more:
            break
        own |= more
    for name, l in sorted(A.flagsets.items()):
        for i in {i.id: i for i in l}.values():
            rep.ob(name in own, 'hash caching', A.p.loc(A.p.fn(name), i), 'cached by the hash function' if name in own else 'a hash is recorded as cached outside of the hash function', key=f'cached by {name}')
    for f, e in A.flags:
        rep.ob(False, 'hash caching', loc(f), 'a term is built with a hash marked as cached', key=f'agg {f.name}')
    return A


# ---------------------------------------------------------------------------------------------- hash and equality
class H(Hooks):
    def after_call(self, e, st, f, ins, name, vals, rv, ctx):
        if name in ('Globals_Hash', 'Term_Hash', 'memcmp'):
            self.mark(st, name, tuple(plain(v) for v in vals), rv)


def plain(v):
    """pointers to the first byte of an object, without casts"""
    v = strip(v)
    if isinstance(v, tuple) and v and v[0] == 'a':
        q = v[1]
        if q[0] in ('idx', 'el') and strip(q[2]) == ('c', 0):
            q = q[1]
        if q[0] == 'd':
            return q[1]
        return ('a', q)
    return v


def hashfn(ctx, rep):
    p = ctx.prog
    f = p.fn('Term_Hash')
    h = H()
    e = Engine(p, ctx.summ, ctx.known, K=200, hooks=h, functional=(), stable=STABLE)
    T = ('d', arg(f, 0))
    fl = lambda x: ('fld', T, x)
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    bad, n = set(), 0
    for st, rv in e.run(f.name):
        n += 1
        calls = marks(st, 'Globals_Hash')
        hd, hv = e.read(st, fl('hashed')), e.read(st, fl('hash'))
        at = e.read(st, fl('atoms'))
        asked = next((tv for a, tv in st.facts.items() if a[0] == 'ld' and a[1] == fl('hashed')), None)
        if asked is None:
            asked = next((not tv for a, tv in st.facts.items() if a[:2] == ('b', '==') and a[3] == ('c', 0) and a[2][0] == 'ld' and a[2][1] == fl('hashed')), None)
        if not calls:
            if asked is not True:
                bad.add('a hash is returned that was not computed, of a term that may have none cached')
            if not (hv[0] == 'ld' and hv[1] == fl('hash') and hd[0] == 'ld' or holds(e, st, hd) is True and hv[0] == 'ld' and hv[1] == fl('hash')):
                bad.add('a cached hash is changed')
            if strip(rv) != hv:
                bad.add('not the cached hash is returned')
            continue
        (args, got) = calls[-1]
        if args[0] not in (('a', fl('atoms')), fl('atoms')):
            bad.add('the hash is not computed from the atoms of the term')
        if strip(rv) != got and not (asked is not False and strip(rv) == hv):
            bad.add('not the computed hash is returned')
        set_ = strip(hd) == ('c', 1) or holds(e, st, hd) is True
        if strip(hv) != got and not (strip(hd) == ('c', 0)):
            bad.add('the cached hash is not the computed one')
        if at[0] != 'ld' and at[0] != 'agg' and mentions(at, lambda t: t[0] == 'upd'):
            bad.add('computing the hash changes the term')
    rep.expect('paths of the hash function', n, 1)
    # what it is computed from is the whole term, for every one the same number of pieces
    rep.ob(not bad, 'hash function', loc(f), '; '.join(sorted(bad)) or f'on all {n} paths: the cached hash if there is one, otherwise the one computed from the atoms, which is then cached', key='hash ' + '; '.join(sorted(bad)))
    # the function the hash is computed with depends on nothing but the data
    f = p.fn('Globals_Hash')
    ref = {c for c in ctx.summ.ref[f.name] if c[0] != 'loc'}
    bad = []
    if ctx.summ.mod[f.name] or ctx.summ.pmod[f.name]:
        bad.append('computing a hash changes memory')
    et = ctx.summ.ty.T.canon(ctx.summ.ty.T.elem(ctx.summ.ty.T.canon(f.vars[f.params[0]])))
    if any(not (c[0] == 'elem') for c in ref):
        bad.append(f'the hash depends on more than the data: {sorted(ref)}')
    io = ctx.summ.io[f.name]
    if io:
        bad.append('the hash depends on the outside')
    for i in f.ins:
        for x in (i.a, i.b, i.c):
            for t in (subterms(x) if isinstance(x, tuple) else []):
                if t[:1] == ('cast',) and len(t) == 3 and ctx.summ.ty.T.is_ptr(ctx.summ.ty.of(f, t[2]) or '') and not ctx.summ.ty.T.is_ptr(ctx.summ.ty.T.canon(t[1])):
                    bad.append('the hash depends on where the data is')
    T = ctx.summ.ty.T
    for i in f.ins:
        for x in (i.a, i.b):
            for t in (subterms(x) if isinstance(x, tuple) else []):
                if len(t) == 4 and t[0] == 'b' and t[1] in ('%', '&', '|', '^', '*', '/', '>>', '<<') and any(T.is_ptr(ctx.summ.ty.of(f, y) or '') for y in t[2:]):
                    bad.append('the hash depends on where the data is')
        if i.k == 'set' and not T.is_ptr(ctx.summ.ty.of(f, i.a) or '') and T.is_ptr(ctx.summ.ty.of(f, strip(i.b)) or ''):
            bad.append('the hash depends on where the data is')
    L = [l for l in find_loops(f)]
    for l in L:
        for v, (init, step, tests) in l.ivs.items():
            for t in tests:
                if t[2] == ('v', f.params[1]) and (t[1] == '<=' and init == ('c', 0) and step == 1):
                    bad.append('the hash depends on what follows the data')
    rep.ob(not bad, 'hash function', loc(f), '; '.join(sorted(set(bad))) or 'depends on nothing but the data', key='pure ' + '; '.join(sorted(set(bad))))


def equality(ctx, rep):
    p = ctx.prog
    f = p.fn('Term_Equal')
    h = H()
    e = Engine(p, ctx.summ, ctx.known, K=200, hooks=h, functional=(), stable=STABLE)
    a, b = arg(f, 0), arg(f, 1)
    A = lambda x: ('a', ('fld', ('d', x), 'atoms'))
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    fs = ctx.summ.ty.T
    at = fs.align_size(fs.field_type('Term', 'atoms'))[1]
    whole = fs.align_size('Term')[1]
    bad, n = set(), 0
    pair = lambda x, y: {x, y}
    for st, rv in e.run(f.name):
        rv = strip(rv)
        hs = {}
        for args, r in marks(st, 'Term_Hash'):
            hs[args[0]] = r
        cmps = []
        for args, r in marks(st, 'memcmp'):
            k = args[2][1] if args[2][0] == 'c' else None
            if set(args[:2]) == {a, b} and k is not None:
                if not (a in hs and b in hs):
                    bad.add('terms are compared with their caches although one may have none')
                if k < whole:
                    bad.add('terms are compared only in part')
                cmps.append(r)
            elif set(args[:2]) in ({A(a), A(b)},) and k is not None:
                if k < at:
                    bad.add('terms are compared only in part')
                cmps.append(r)
        loops_ = [fct for fct in st.facts if fct[:2] == ('b', '==') and len(fct) == 4 and all(mentions(x, lambda t: t[:1] == ('fld',) and t[-1] == 'atoms') for x in fct[2:])]
        outs = []
        if rv[0] == 'c':
            outs = [(bool(rv[1]), st)]
        else:
            at_, pol = e.truth_atom(rv)
            for tv in (True, False):
                s2 = st.copy()
                s2.facts[at_] = tv == pol
                outs.append((tv, s2))
        for tv, s2 in outs:
            n += 1
            hdiff = a in hs and b in hs and holds(e, s2, e.mk('==', hs[a], hs[b])) is False
            ceq = [holds(e, s2, e.mk('==', r, ('c', 0))) for r in cmps]
            same = any(holds(e, s2, e.mk('==', x, y)) is True for x, y in ((a, b), (b, a)))
            ldiff = any(s2.facts.get(l) is False for l in loops_)
            if tv is False and not (hdiff or False in ceq or ldiff):
                bad.add('equal terms may count as different')
            if tv is True and not (True in ceq or same or covered(ctx, f, p)):
                bad.add('different terms may count as equal')
    rep.expect('outcomes of the comparison', n, 2)
    rep.ob(not bad, 'equality', loc(f), '; '.join(sorted(bad)) or f'in all {n} outcomes: different exactly if the hashes or the contents differ, which both have their hash cached by then', key='equal ' + '; '.join(sorted(bad)))


def covered(ctx, f, p):
    """a loop of the function visits all atoms"""
    size = int(ctx.macro('COMPOUND_TERM_SIZE_MAX'))
    return any(covers(l, v, 0, size)[0] for l in find_loops(f) for v in l.ivs)


def check(ctx):
    rep = Report('C09', ctx, 'Interprocedural forward must-analysis over every function of the program and the generated rule table: which terms surely carry no cached hash. Every instruction that changes atoms of a term (directly, through a pointer into them, '
                 'or by calling something that does so) has to be applied to such a term, or be followed on every path by clearing the flag before anything can read it. Abstract interpretation of the hash and the comparison.',
                 ['assigning and zero-initializing a structure covers its padding (gcc and clang do)', 'a pointer to a local that is passed to a function is not used after that function returned', 'terms are not written through pointers of unrelated types'])
    flow(ctx, rep)
    hashfn(ctx, rep)
    equality(ctx, rep)
    return rep
