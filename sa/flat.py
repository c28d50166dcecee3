"""CFG-level inlining: helpers that are not in the reference function list are merged into their callers, so that the analyses that
work on one control-flow graph see the same code whether or not a piece of it was moved into a helper."""
import copy
from .frontend import Ins, Func, Program, BrokenAnalysis


def subst(e, m):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'v' and e[1] in m:
            return m[e[1]]
        if len(e) == 3 and e[0] == 'idx' and isinstance(e[1], tuple) and len(e[1]) == 2 and e[1][0] == 'd':
            q, i = subst(e[1][1], m), subst(e[2], m)
            if isinstance(q, tuple) and q and q[0] == 'a':
                if q[1][0] == 'idx':
                    return ('idx', q[1][1], i if q[1][2] == ('c', 0) else ('b', '+', q[1][2], i))
                return q[1] if i == ('c', 0) else ('idx', q[1], i)
            return ('idx', ('d', q), i)
        t = tuple(subst(x, m) for x in e)
        if len(t) == 2 and t[0] == 'd' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'a':
            return t[1][1]
        if len(t) == 2 and t[0] == 'a' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'd':
            return t[1][1]
        return t
    if isinstance(e, list):
        return [subst(x, m) for x in e]
    return e


def assigned(f):
    """locals written or whose address is taken"""
    out = set()

    def addrs(e):
        if isinstance(e, tuple):
            if e and e[0] == 'a' and isinstance(e[1], tuple):
                r = e[1]
                while r[0] in ('fld', 'idx'):
                    r = r[1]
                if r[0] == 'v':
                    out.add(r[1])
            for x in e:
                addrs(x)
        elif isinstance(e, list):
            for x in e:
                addrs(x)
    for i in f.ins:
        for x in (i.a, i.b, i.c):
            addrs(x)
        if i.k == 'set' or (i.k == 'call' and i.a is not None):
            r = i.a
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if r[0] == 'v':
                out.add(r[1])
    return out


def flatten(prog, name, inline, depth=8):
    """a copy of function `name` with calls to functions accepted by inline(callee) merged in (recursion is left as calls)"""
    f = prog.funcs[name]
    g = Func(f.name, f.file, f.line, list(f.params), f.ret, f.static)
    g.vars, g.entry, g.endline, g.variadic = dict(f.vars), f.entry, f.endline, f.variadic
    g.ins = [clone(i) for i in f.ins]
    stack = {i.id: () for i in g.ins}
    n = 0
    w = 0
    while w < len(g.ins):
        i = g.ins[w]
        ch = stack[i.id]
        if i.k == 'call' and isinstance(i.b, str) and i.b in prog.funcs and i.b != name and i.b not in ch and len(ch) < depth and inline(i.b) and len(g.ins) < 60000:
            c = prog.funcs[i.b]
            if len(i.c) == len(c.params):
                n += 1
                tag = f'~{n}'
                wr = assigned(c)
                m, pre = {}, []
                for v in c.vars:
                    nv = name + ':' + v.split(':', 1)[-1].split('~')[0] + tag
                    while nv in g.vars:
                        nv += "'"
                    m[v] = ('v', nv)
                    g.vars[nv] = c.vars[v]
                for pv, a in zip(c.params, i.c):
                    if pv not in wr and simple(a, prog):
                        m[pv] = a
                    else:
                        pre.append(Ins('set', i.line, m[pv], a))
                base = len(g.ins)
                ids = {}
                new = []
                for p in pre:
                    p.id = base + len(new)
                    p.file = i.file
                    new.append(p)
                for ci in c.ins:
                    ids[ci.id] = base + len(new)
                    k = clone(ci)
                    k.id = ids[ci.id]
                    k.a, k.c = subst(ci.a, m), subst(ci.c, m)
                    k.b = ci.b if isinstance(ci.b, str) else subst(ci.b, m)
                    k.file = (c.file, c.name)
                    new.append(k)
                for q, p in enumerate(pre):
                    p.succ = [new[q + 1].id] if q + 1 < len(pre) else [ids[c.entry]]
                ret_to = i.succ[0]
                for k, ci in zip(new[len(pre):], c.ins):
                    if ci.k == 'ret':
                        if i.a is not None and ci.a is not None:
                            k.k, k.b, k.a = 'set', subst(ci.a, m), i.a
                        else:
                            k.k, k.a, k.b = 'nop', None, None
                        k.c = None
                        k.succ = [ret_to]
                    else:
                        k.succ = [ids[s] for s in ci.succ]
                for k in new:
                    stack[k.id] = ch + (i.b,)
                g.ins.extend(new)
                i.k, i.a, i.b, i.c = 'nop', None, None, None
                i.succ = [new[0].id if new else ret_to]
                if not pre:
                    i.succ = [ids[c.entry]]
        w += 1
    return compact(g)


def clone(i):
    k = Ins(i.k, i.line, i.a, i.b, i.c, i.ty)
    k.succ, k.id, k.file = list(i.succ), i.id, i.file
    return k


def simple(a, prog):
    """argument that can stand for its parameter: constants, addresses, locals"""
    if a[0] in ('c', 'f', 's', 'fn'):
        return True
    if a[0] == 'v':
        return True
    if a[0] == 'a':
        r = a[1]
        while r[0] in ('fld', 'idx'):
            if r[0] == 'idx' and r[2][0] not in ('c', 'v'):
                return False
            r = r[1]
        return r[0] == 'v' or (r[0] == 'd' and r[1][0] == 'v') or r[0] == 'strlv'
    return False


def compact(g):
    """drop unreachable instructions and renumber"""
    order, seen = [], set()
    st = [g.entry]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(g.ins[x].succ)
    byid = {i.id: i for i in g.ins}
    keep = [i for i in g.ins if i.id in seen]
    ren = {i.id: k for k, i in enumerate(keep)}
    for i in keep:
        i.succ = [ren[s] for s in i.succ]
    g.entry = ren[g.entry]
    for k, i in enumerate(keep):
        i.id = k
    g.ins = keep
    return g


def flat_program(prog, known, keep_unknown_uncalled=True, also=()):
    """program in which every direct call to a function outside the reference list is merged into its caller"""
    key = ('_flat', frozenset(also))
    if key in prog.__dict__.setdefault('_flatcache', {}):
        return prog._flatcache[key]
    q = copy.copy(prog)
    q.__dict__ = dict(prog.__dict__)
    for k in ('_callers', '_flatcache', '_used_params'):
        q.__dict__.pop(k, None)
    inl = lambda n: n not in known or n in also
    called = set()
    for f in prog.funcs.values():
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str):
                called.add(i.b)
    taken = set(prog.fnptr_refs())
    q.funcs = {}
    for n in prog.funcs:
        if inl(n) and n in called and n not in taken:
            continue        # lives on in its callers
        q.funcs[n] = flatten(prog, n, inl)
    # recursion among helpers keeps calls: keep such helpers
    for f in list(q.funcs.values()):
        for i in f.ins:
            if i.k == 'call' and isinstance(i.b, str) and i.b in prog.funcs and i.b not in q.funcs:
                q.funcs[i.b] = prog.funcs[i.b]
    prog._flatcache[key] = q
    return q
