"""Definite initialization of locals: interprocedural forward must-analysis with field-sensitive paths.

State of a local: set of paths relative to it that surely hold a value written by the program; () is all of it. A component is a field
name, ('#', k) for element k, '*' for "some element" of an array. Pointer parameters and by-value structure parameters are tracked the
same way; what is read from them before it is written becomes a need of the function, checked where it is called."""
import heapq, re

from .frontend import show
from .absint import root_of, subterms

WRITES_ALL = {'memset', 'memcpy', 'memmove', 'strcpy'}                       # destination first
STRINGY = {'snprintf', 'sprintf', 'fgets', 'strcat', 'strncat', 'vsnprintf'}  # leave a string in the destination
PREFIX = {'memset': (2, 1), 'memcpy': (2, 1), 'memmove': (2, 1), 'strncpy': (2, 1)}


def rel(e):
    """(root expression, components)"""
    out = []
    while e[0] in ('fld', 'idx'):
        if e[0] == 'fld':
            out.append(e[2])
        else:
            out.append(('#', e[2][1]) if e[2][0] == 'c' else '*')
        e = e[1]
    return e, tuple(out[::-1])


def top(e):
    """the largest lvalue read by e, or None"""
    return e if e[0] in ('v', 'fld', 'idx', 'd') else None


class Fn:
    def __init__(self, D, f):
        self.D, self.f = D, f
        p = D.p
        self.keys = set()
        T = D.ty.T
        self.type = {}
        for v, t in f.vars.items():
            if v not in p.globals:
                self.keys.add(('v', v))
                self.type[('v', v)] = T.canon(t)
        # locals whose address is kept: not followed
        self.kept = set()
        self.ptr = {}
        asg = {}
        for i in f.ins:
            if i.k == 'set':
                if i.a[0] == 'v':
                    asg.setdefault(i.a[1], []).append(i.b)
            elif i.k == 'call' and i.a is not None and i.a[0] == 'v':
                asg.setdefault(i.a[1], []).append(None)
        for v, k in zip(f.params, range(len(f.params))):
            t = T.canon(f.vars[v])
            if T.is_ptr(t) and not asg.get(v):
                key = ('d', ('v', v))
                self.keys.add(key)
                self.type[key] = T.canon(T.elem(t) or 'char')
        # parameters that walk over what they are given, only reading it
        self.walk = set()
        for k, v in enumerate(f.params):
            if not (asg.get(v) and T.is_ptr(T.canon(f.vars[v]))):
                continue
            rd = wr = False
            for i in f.ins:
                if i.k in ('set', 'call') and i.a is not None:
                    r = rel(i.a)[0]
                    wr |= r[0] == 'd' and ('v', v) in subterms(r)
                es = [i.b] if i.k == 'set' else [i.a] if i.k in ('ret', 'br', 'switch') and i.a is not None else i.c if i.k == 'call' else []
                for e in es:
                    for t in subterms(e):
                        rd |= t[:1] == ('d',) and ('v', v) in subterms(t)
            if rd and not wr:
                self.walk.add((('d', k), ('*',)))
        # a pointer with exactly one target
        for v, l in asg.items():
            if len(l) == 1 and l[0] is not None and v not in f.params:
                b = l[0]
                while b[0] == 'cast':
                    b = b[2]
                if b[0] == 'a':
                    r, c = rel(b[1])
                    if r in self.keys and not any(x == '*' for x in c):
                        self.ptr[v] = (r, c)
        for i in f.ins:
            es = []
            if i.k == 'set' and not (i.a[0] == 'v' and i.a[1] in self.ptr):
                es = [i.b]
            elif i.k == 'ret' and i.a is not None:
                es = [i.a]
            elif i.k == 'br':
                es = []
            for e in es:
                for t in subterms(e):
                    if t[:1] == ('a',) and isinstance(t[1], tuple):
                        r, c = rel(t[1])
                        if r[0] == 'v':
                            self.kept.add(r)
        for v in asg:
            if ('v', v) in self.kept:
                self.ptr.pop(v, None)
        # arrays some element of which is written, and whether a terminator is
        self.some, self.zero = set(), set()
        for i in f.ins:
            if i.k in ('set', 'call') and i.a is not None:
                r, c = self.norm(i.a)
                for n, x in enumerate(c):
                    if x == '*':
                        self.some.add((r, c[:n]))
                    if x == '*' or isinstance(x, tuple):
                        b = i.b if i.k == 'set' else None
                        while b and b[0] == 'cast':
                            b = b[2]
                        if b == ('c', 0):
                            self.zero.add((r, c[:n]))

    def norm(self, e):
        r, c = rel(e)
        if r[0] == 'd' and r[1][0] == 'v' and r[1][1] in self.ptr:
            r, c = self.ptr[r[1][1]][0], self.ptr[r[1][1]][1] + c
        elif r[0] == 'd' and r[1][0] == 'a':
            return self.norm_join(r[1][1], c)
        return r, c

    def norm_join(self, e, c):
        r, c0 = self.norm(e)
        if c and c0 and c0[-1] == ('#', 0) and isinstance(c[0], tuple):
            c0 = c0[:-1]
        return r, c0 + c

    # ---- covered?
    def has(self, st, key, c):
        s = st.get(key)
        if s is None:
            return True
        if any(c[:n] in s for n in range(len(c) + 1)):
            return True
        t = self.typeof(key, c)
        T = self.D.ty.T
        if t is None:
            return True
        # an element of an array that is filled piecewise
        if c and c[-1] == '*' and '[' in (self.typeof(key, c[:-1]) or '') and self.has(st, key, c[:-1]):
            return True
        for n, x in enumerate(c):
            if (x == '*' or isinstance(x, tuple)) and (c[:n] + ('*',) in s or (key, c[:n]) in self.some):
                return True
        if '[' in t:
            if (key, c) in self.some and not t.startswith('char['):
                return True
            if (key, c) in self.some and (key, c) in self.zero:
                return True
            if c + ('str',) in s:
                return True
            if c + ('part',) in s and (not t.startswith('char[') or c + ('end',) in s):
                return True
            n = re.match(r'.*\[(\d+)\]$', t)
            if n and 0 < int(n.group(1)) <= 64 and any(x[:len(c)] == c and len(x) > len(c) and isinstance(x[len(c)], tuple) for x in s):
                return all(self.has(st, key, c + (('#', k),)) for k in range(int(n.group(1))))
            return False
        if T.is_record(t) and not T.is_ptr(t):
            if T.canon(t) in self.D.whole:
                return False
            return all(self.has(st, key, c + (f,)) for f, ft in T.records[T.canon(t)])
        return False

    def typeof(self, key, c):
        T = self.D.ty.T
        t = self.type[key]
        for x in c:
            if x in ('str', 'end', 'part'):
                return 'char'
            if x == '*' or isinstance(x, tuple):
                t = T.elem(t)
            else:
                if not T.is_record(t) or T.is_ptr(t):
                    return None
                t = T.field_type(t, x)
            if t is None:
                return None
            t = T.canon(t)
        return t

    def write(self, st, key, c):
        s = st.get(key)
        if s is None:
            return
        if c and (c[-1] == '*'):
            s = set(s) | {c}
        else:
            s = {x for x in s if x[:len(c)] != c} | {c}
        st[key] = frozenset(s)

    def reads(self, e, lhs=False):
        """lvalues read by evaluating e (as a place when lhs)"""
        if not isinstance(e, tuple) or not e:
            return
        k = e[0]
        if k in ('v', 'fld', 'idx', 'd'):
            b = e
            while b[0] in ('fld', 'idx'):
                if b[0] == 'idx':
                    yield from self.reads(b[2])
                b = b[1]
            if b[0] == 'd':
                yield from self.reads(b[1])
            if not lhs:
                yield e
        elif k == 'a':
            if e[1][0] != 'strlv':
                yield from self.reads(e[1], True)
        elif k in ('agg',):
            for f, x in e[2]:
                yield from self.reads(x)
        elif k in ('c', 'f', 's', 'fn', 'strlv', 'uninit', 'zero'):
            return
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], tuple):
                        for y in x:
                            yield from self.reads(y)
                    else:
                        yield from self.reads(x)

    def use(self, st, i, e, what=None):
        r, c = self.norm(e)
        if r not in st or r in self.kept:
            return
        if r[0] == 'd' and self.has(st, r, c):
            return
        if self.has(st, r, c):
            return
        self.lack(st, i, r, c, what)

    def lack(self, st, i, r, c, what=None):
        k = None
        if r[0] == 'd' and r[1][0] == 'v' and r[1][1] in self.f.params:
            k = ('d', self.f.params.index(r[1][1]))
        elif r[0] == 'v' and r[1] in self.f.params:
            k = ('v', self.f.params.index(r[1]))
        if k is not None:
            self.needs.add((k, tuple(x if not isinstance(x, tuple) else '*' for x in c)))
        else:
            self.bad.setdefault((show(r), c), (i, what))

    def value(self, st, dst, e):
        """dst := e"""
        r, c = self.norm(dst)
        if e[0] in ('v', 'fld', 'idx', 'd'):
            t = self.D.ty.of(self.f, e)
            if self.D.ty.T.is_record(t) and not self.D.ty.T.is_ptr(t):
                r2, c2 = self.norm(e)
                if r2 in st and r2 not in self.kept and not self.has(st, r2, c2):
                    if r2[0] == 'd' or r2[1] in self.f.params:
                        self.lack(st, None, r2, c2)
                        if r in st:
                            self.write(st, r, c)
                        return
                    if r in st:
                        sub = {x[len(c2):] for x in st[r2] if x[:len(c2)] == c2}
                        s = {x for x in st[r] if x[:len(c)] != c} | {c + x for x in sub}
                        st[r] = frozenset(s)
                    else:
                        self.bad.setdefault((show(r2), c2), (None, None)) if False else None
                    return
        if r in st:
            self.write(st, r, c)

    def call(self, st, i):
        D = self.D
        names = [i.b] if isinstance(i.b, str) else D.targets(self.f, i)
        args = i.c
        known = [n for n in names if n in D.sum] if names else []
        ext = isinstance(i.b, str) and i.b not in D.sum
        for k, e in enumerate(args):
            a = e
            while a[0] == 'cast':
                a = a[2]
            tgt = None
            if a[0] == 'a' and a[1][0] != 'strlv':
                tgt = self.norm(a[1])
                # the first element stands for the array
                if tgt[1] and tgt[1][-1] == ('#', 0):
                    tgt = (tgt[0], tgt[1][:-1])
            elif a[0] == 'v' and a[1] in self.ptr:
                tgt = self.ptr[a[1]]
            elif a[0] == 'v' and ('d', a) in st:
                tgt = (('d', a), ())
            for x in self.reads(e):
                t = D.ty.of(self.f, x)
                if D.ty.T.is_record(t) and not D.ty.T.is_ptr(t):
                    # by value: what the callee needs of it
                    for n in known:
                        for (kind, kk), c in D.sum[n]['needs']:
                            if kind == 'v' and kk == k:
                                r, c2 = self.norm(x)
                                if r in st and r not in self.kept and not self.has(st, r, c2 + c):
                                    self.lack(st, i, r, c2 + c, n)
                    continue
                self.use(st, i, x)
            if tgt and tgt[0] in st and tgt[0] not in self.kept:
                r, c = tgt
                for n in known:
                    for (kind, kk), c2 in D.sum[n]['needs']:
                        if kind == 'd' and kk == k:
                            cc = self.fit(r, c, c2)
                            if not self.has(st, r, cc):
                                self.lack(st, i, r, cc, n)
                if ext and tgt[0][0] == 'd' and not c and r[1][1] in self.f.params and (k > 0 and i.b in ('strcpy', 'strncpy', 'strcat', 'strncat') or i.b in ('strlen', 'strcmp', 'strncmp', 'atof', 'atoi', 'puts', 'fputs')):
                    if not self.has(st, r, c):
                        self.needs.add((('d', self.f.params.index(r[1][1])), ('*',)))
                if ext and k > 0 and i.b in ('memcpy', 'strcpy', 'strncpy', 'strcmp', 'strlen', 'strncmp', 'fputs', 'puts', 'printf', 'atof', 'atoi', 'memcmp', 'sprintf', 'snprintf') or \
                        ext and k == 0 and i.b in ('strlen', 'strcmp', 'strncmp', 'atof', 'atoi', 'atol', 'puts', 'fputs', 'printf', 'memcmp', 'strtok', 'strchr', 'strtol', 'sscanf'):
                    t = self.typeof(r, c)
                    if i.b not in ('memcpy', 'memcmp', 'sscanf') or t and '[' in t:
                        if t and '[' in t and not self.has(st, r, c):
                            self.lack(st, i, r, c, i.b)
        # effects
        pend = {}
        for k, e in enumerate(args):
            a = e
            while a[0] == 'cast':
                a = a[2]
            tgt = None
            if a[0] == 'a' and a[1][0] != 'strlv':
                tgt = self.norm(a[1])
                if tgt[1] and tgt[1][-1] == ('#', 0):
                    tgt = (tgt[0], tgt[1][:-1])
            elif a[0] == 'v' and a[1] in self.ptr:
                tgt = self.ptr[a[1]]
            elif a[0] == 'v' and ('d', a) in st:
                tgt = (('d', a), ())
            if not tgt or tgt[0] not in st:
                continue
            r, c = tgt
            if known:
                gives = None
                for n in known:
                    g = {c2 for (kk, c2) in D.sum[n]['gives'] if kk == k}
                    gives = g if gives is None else gives & g
                for c2 in gives:
                    self.write(st, r, self.fit(r, c, c2))
                if i.a is not None and i.a[0] == 'v':
                    for w in (True, False):
                        more = None
                        for n in known:
                            g = {c2 for (kk, c2) in D.sum[n]['when'][w] if kk == k}
                            more = g if more is None else more & g
                        if more:
                            key = ('?', i.a, w)
                            pend[key] = pend.get(key, frozenset()) | {(r, self.fit(r, c, c2)) for c2 in more}
                t = self.typeof(r, c)
                if t and '[' in t and (() in gives or ('*',) in gives):
                    self.write(st, r, c)
                if t and '[' in t and any(kk == k for n in known for kk, _ in D.summ.pmod.get(n, ())):
                    self.write(st, r, c)
            elif ext and k == 0 and i.b in PREFIX:
                n = args[PREFIX[i.b][0]]
                t = self.typeof(r, c)
                size = D.ty.T.align_size(t)[1] if t else None
                n = fold(n)
                if n is not None and size is not None and n < size or i.b in ('memcpy', 'memmove') and self.strlength(args[2]):
                    s = st[r]
                    st[r] = frozenset(set(s) | {c + ('part',)})
                else:
                    self.write(st, r, c)
            elif ext and k == 1 and i.b in ('recvfrom', 'recv', 'read') or ext and k == 0 and i.b == 'fread':
                st[r] = frozenset(set(st[r]) | {c + ('part',)})
            elif ext and k == 0 and i.b in STRINGY:
                st[r] = frozenset(set(st[r]) | {c + ('str',)})
            elif ext and i.b in ('sscanf', 'fscanf', 'scanf') and (i.a is None or not self.looked(i.a)):
                pass                                          # may leave it as it was, and nobody looks
            elif ext and i.b in ('strlen', 'strcmp', 'strncmp', 'fputs', 'puts', 'printf', 'atof', 'atoi', 'memcmp', 'strtok', 'strchr'):
                pass
            else:
                self.write(st, r, c)
        if i.a is not None:
            r, c = self.norm(i.a)
            if r in st:
                t = D.ty.of(self.f, i.a)
                if D.ty.T.is_record(t) and not D.ty.T.is_ptr(t) and known and all(D.sum[n]['ret'] is not None for n in known):
                    got = None
                    for n in known:
                        got = set(D.sum[n]['ret']) if got is None else got & set(D.sum[n]['ret'])
                    st[r] = frozenset({x for x in st[r] if x[:len(c)] != c} | {c + x for x in got})
                else:
                    self.write(st, r, c)
        st.update(pend)

    def looked(self, v):
        return any(v in list(subterms(x)) for j in self.f.ins for x in ([j.b] if j.k == 'set' else list(j.c) if j.k == 'call' else [j.a] if j.k in ('br', 'switch', 'ret') and j.a is not None else []))

    def strlength(self, e):
        """exactly the length of a string, its end not included"""
        while e[0] == 'cast':
            e = e[2]
        if e[0] != 'v':
            return False
        d = [i for i in self.f.ins if i.k in ('set', 'call') and i.a == e]
        if len(d) != 1:
            return False
        return d[0].b == 'strlen' if d[0].k == 'call' else self.strlength(d[0].b)

    def fit(self, r, c, c2):
        """path c2 of what a pointer leads to, for an argument that leads to r.c (the first element of an array for an array)"""
        t = self.typeof(r, c)
        if t and '[' in t:
            if c2 and (c2[0] == '*' or isinstance(c2[0], tuple)):
                return c + c2
            return c + (('#', 0),) + c2
        if c2 and isinstance(c2[0], tuple) and c2[0] == ('#', 0):
            return c + c2[1:]
        if c2 and c2[0] == '*':
            return c + c2[1:]
        return c + c2

    def run(self):
        f, D = self.f, self.D
        self.bad, self.needs = {}, set(self.walk)
        init = {}
        for key in self.keys:
            if key[0] == 'v' and key[1] in f.params:
                t = self.type[key]
                init[key] = frozenset() if D.ty.T.is_record(t) and not D.ty.T.is_ptr(t) else frozenset({()})
            elif key[0] == 'v':
                init[key] = frozenset() if True else None
            else:
                init[key] = frozenset()
        # compiler temporaries are always written before they are read
        states = {f.entry: init}
        work, queued = [f.entry], {f.entry}
        while work:
            n = heapq.heappop(work)
            queued.discard(n)
            st = dict(states[n])
            i = f.ins[n]
            if i.k == 'ret':
                continue
            self.step(st, i)
            for kk, s in enumerate(i.succ):
                st2 = self.edge(st, i, kk == 0) if i.k == 'br' and len(i.succ) == 2 else st
                if s not in states:
                    states[s] = dict(st2)
                    heapq.heappush(work, s)
                    queued.add(s)
                else:
                    j = self.join(states[s], st2)
                    if j != states[s]:
                        states[s] = j
                        if s not in queued:
                            heapq.heappush(work, s)
                            queued.add(s)
        self.bad, self.needs = {}, set(self.walk)
        gives, ret, when = None, None, {True: None, False: None}
        for n in sorted(states):
            st = dict(states[n])
            i = f.ins[n]
            if i.k == 'ret':
                if i.a is not None:
                    t = D.ty.of(f, i.a)
                    rec = D.ty.T.is_record(t) and not D.ty.T.is_ptr(t)
                    got = {()}
                    for x in self.reads(i.a):
                        if rec and x == i.a:
                            r, c = self.norm(x)
                            if r in st and r not in self.kept and not self.has(st, r, c):
                                if r[0] == 'd' or r[1] in f.params:
                                    self.lack(st, i, r, c)
                                else:
                                    got = {y[len(c):] for y in st[r] if y[:len(c)] == c}
                        else:
                            self.use(st, i, x)
                    ret = got if ret is None else {y for y in ret if any(y[:k] in got for k in range(len(y) + 1))} | {y for y in got if any(y[:k] in ret for k in range(len(y) + 1))}
                g = set()
                for k, v in enumerate(f.params):
                    key = ('d', ('v', v))
                    if key in st:
                        if ('part',) in st[key] and ('end',) in st[key]:
                            g.add((k, ()))
                        g |= {(k, c) for c in st[key] if '*' not in c and 'part' not in c and 'end' not in c}
                for w in (True, False):
                    v = fold(i.a) if i.a is not None else None
                    if v is not None and bool(v) != w:
                        continue
                    when[w] = g if when[w] is None else {y for y in when[w] if covers(g, y)} | {y for y in g if covers(when[w], y)}
                gives = g if gives is None else {y for y in gives if covers(g, y)} | {y for y in g if covers(gives, y)}
            else:
                self.step(st, i)
        return dict(needs=frozenset(self.needs), gives=frozenset(gives or ()), ret=None if ret is None else frozenset(ret), noret=gives is None, when={w: frozenset(when[w] or ()) for w in when})

    def edge(self, st, i, taken):
        """what the branch adds: a call that tells by its result whether it has written; a pointer that leads nowhere"""
        e = i.a
        while True:
            if e[0] == 'cast':
                e = e[2]
            elif e[0] == 'u' and e[1] == '!':
                e, taken = e[2], not taken
            elif e[0] == 'b' and e[1] in ('==', '!=') and fold(e[3]) == 0:
                if e[1] == '==':
                    taken = not taken
                e = e[2]
            elif e[0] == 'b' and e[1] in ('==', '!=') and fold(e[2]) == 0:
                if e[1] == '==':
                    taken = not taken
                e = e[3]
            else:
                break
        st = dict(st)
        if e[0] != 'v':
            return st
        if not taken and ('d', e) in st:
            st[('d', e)] = frozenset({()})
        for r, c in st.get(('?', e, taken), ()):
            if r in st:
                self.write(st, r, c)
        return st

    def drop(self, st, v):
        for k in [k for k in st if k[0] == '?' and k[1] == v]:
            del st[k]

    def step(self, st, i):
        if i.k in ('decl', 'set', 'call') and i.a is not None and i.a[0] == 'v':
            self.drop(st, i.a)
        if i.k == 'decl':
            if i.a in st:
                st[i.a] = frozenset()
        elif i.k == 'set':
            if i.b == ('uninit',):
                return
            t = self.D.ty.of(self.f, i.b) if i.b[0] in ('v', 'fld', 'idx', 'd') else None
            rec = t and self.D.ty.T.is_record(t) and not self.D.ty.T.is_ptr(t)
            for x in self.reads(i.b):
                if rec and x == i.b:
                    continue
                self.use(st, i, x)
            for x in self.reads(i.a, True):
                self.use(st, i, x)
            self.value(st, i.a, i.b)
            if fold(i.b) == 0 and i.a[0] == 'idx':
                r, c = self.norm(i.a)
                if r in st:
                    st[r] = frozenset(set(st[r]) | {c[:-1] + ('end',)})
            b = i.b
            while b[0] == 'cast':
                b = b[2]
            if i.a[0] == 'v' and b[0] == 'v' and b != i.a:
                for k in [k for k in st if k[0] == '?' and k[1] == b]:
                    st[('?', i.a, k[2])] = st[k]
        elif i.k == 'call':
            if i.a is not None:
                for x in self.reads(i.a, True):
                    self.use(st, i, x)
            self.call(st, i)
        elif i.k in ('br', 'switch'):
            for x in self.reads(i.a):
                self.use(st, i, x)

    def join(self, a, b):
        out = {}
        for k in a:
            if k not in b:
                continue
            if k[0] == '?':
                x = a[k] & b[k]
                if x:
                    out[k] = x
                continue
            x, y = a[k], b[k]
            if x == y:
                out[k] = x
                continue
            out[k] = frozenset({p for p in x if self.has({k: y}, k, p)} | {p for p in y if self.has({k: x}, k, p)})
        return out


def covers(g, y):
    k, c = y
    return any((k, c[:n]) in g for n in range(len(c) + 1))


def fold(e):
    while e[0] == 'cast':
        e = e[2]
    if e[0] == 'c':
        return e[1]
    if e[0] == 'b' and e[1] in '+-*':
        a, b = fold(e[2]), fold(e[3])
        if a is None or b is None:
            return None
        return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b
    return None


class Definit:
    def __init__(self, prog, summ, whole=()):
        """whole: record types compared byte by byte, padding included: filled piece by piece they are not initialized"""
        self.whole = set(whole)
        self.p, self.summ, self.ty = prog, summ, summ.ty
        self.fns = {n: Fn(self, f) for n, f in prog.funcs.items()}
        self.sum = {n: None for n in prog.funcs}
        callers = {}
        for n, f in prog.funcs.items():
            for i in f.ins:
                if i.k == 'call':
                    for m in ([i.b] if isinstance(i.b, str) else self.targets(f, i)):
                        callers.setdefault(m, set()).add(n)
        # optimistic start: nothing needed, everything given
        for n, f in prog.funcs.items():
            self.sum[n] = dict(needs=frozenset(), gives=frozenset((k, ()) for k in range(len(f.params))), ret=frozenset({()}), noret=False,
                               when={w: frozenset((k, ()) for k in range(len(f.params))) for w in (True, False)})
        work = sorted(prog.funcs)
        rounds = 0
        while work and rounds < 20000:
            rounds += 1
            n = work.pop(0)
            s = self.fns[n].run()
            if s['noret']:
                s['gives'] = frozenset((k, ()) for k in range(len(prog.funcs[n].params)))
            if s != self.sum[n]:
                self.sum[n] = s
                for c in sorted(callers.get(n, ())):
                    if c not in work:
                        work.append(c)
        self.rounds = rounds

    def targets(self, f, i):
        """functions an indirect call may reach"""
        return [n for n in self.summ.addr_taken if n in self.p.funcs and len(self.p.funcs[n].params) == len(i.c)]
