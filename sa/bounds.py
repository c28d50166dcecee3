"""Shared by C06 and C12: the relational bounds analysis of the whole program and the classification of its obligations."""
import os, re
from .core import *

from .zone import Analysis, subterms

# units whose accesses are about input text and command lines (C12); all others are about the reasoner's own stores (C06)
INPUT = {'Narsese.c', 'Shell.c', 'NAR.c', 'main.c', 'UDP.c', 'UDPNAR.c'}


def root_of(e):
    while e[0] in ('fld', 'idx', 'd'):
        e = e[1]
    return e


def analyse(ctx, extra_roots=()):
    p = ctx.prog
    A = Analysis(p, ctx.summ, skip={'RuleTable_Apply', 'RuleTable_Reduce'})
    roots = [n for n in p.funcs if n.startswith('NAR_') or n in ('main', 'Shell_Start') or n in p.fnptr_refs() or n in extra_roots]
    A.fixpoint(roots, lambda x: None)
    obs = A.obligations()
    ratios(A, obs)
    return A, obs


def step(e, v):
    """c when e is v + c"""
    while e[0] == 'cast':
        e = e[2]
    if e == ('v', v):
        return 0
    if e[0] == 'b' and e[1] in '+-' and len(e) == 4 and e[3][0] == 'c' and isinstance(e[3][1], int):
        y = e[2]
        while y[0] == 'cast':
            y = y[2]
        if y == ('v', v):
            return e[3][1] if e[1] == '+' else -e[3][1]
    return None


def ratios(A, obs):
    """positions that advance by at most r per advance of another counter by one (r = 1..4): the greatest value of
    j - r*i on all paths, by dataflow; then an access at j + c is inside when r*max(i) + max(j - r*i) + c is"""
    memo = {}
    for key, (v, buf, d, ins) in sorted(obs.items(), key=lambda x: x[0][:4]):
        fn, line, iid, kind, text = key
        if v == 2 or kind != 'index':
            continue
        F = A.fn[fn]
        es = [e for e in (ins.a, ins.b) if isinstance(e, tuple)] + list(ins.c or ()) if ins.k == 'call' else [e for e in (ins.a, ins.b) if isinstance(e, tuple)]
        for x in {t for e in es for t in subterms(e) if t[:1] == ('idx',) and len(t) == 3 and show(t) == text}:
            if x[1][0] == 'd':
                continue
            m = A.T.arrlen(A.tyof(F.f, x[1]))
            js = [(j, step(x[2], j)) for j in F.f.vars if step(x[2], j) is not None]
            zs = list((A.sol.get(fn) or {}).get(iid, {}).values())
            if m is None or not js or not zs or any(z.lo(l) < 0 for z in zs for l in [A.lin(z, F, x[2])] if l is not None):
                continue
            j, c = js[0]
            at = iid
            w = [y for y in F.f.ins if y.k in ('set', 'call') and y.a == ('v', j)]
            if j.split(':')[-1].startswith('$') and len(w) == 1 and w[0].k == 'set' and w[0].id in (A.sol.get(fn) or {}):
                q = [(v2, step(w[0].b, v2)) for v2 in F.f.vars if step(w[0].b, v2) is not None]
                if q:       # the value of a counter before it was advanced
                    j, c, at = q[0][0], c + q[0][1], w[0].id
            if any(A.lin(z, F, x[2]) is None for z in zs):
                continue
            for i in sorted(F.f.vars):
                if i == j or i.startswith('$') or A.T.canon(F.f.vars[i]) != 'int':
                    continue
                for r in (1, 2, 3, 4):
                    if (fn, j, i, r) not in memo:
                        memo[fn, j, i, r] = potential(A, F, j, i, r)
                    top = greatest(A, F, i, j, r, memo[fn, j, i, r], at, 0)
                    if top is not None and top + c < m:
                        obs[key] = (2, buf, f'at most {top + c} of {m} ({r} per step of {i.split(":")[-1]})', ins)


def greatest(A, F, i, j, r, val, n, depth):
    """the greatest j before instruction n; where i is no longer tracked, from the predecessors"""
    zs = list(A.sol[F.f.name].get(n, {}).values())
    h = [z.hi(A.lin(z, F, ('v', i))) for z in zs if A.lin(z, F, ('v', i)) is not None]
    e = val.get(n)
    if e is not None and e < 10 ** 9 and zs and len(h) == len(zs) and max(h) < 10 ** 8:
        return r * max(h) + e
    if depth > 4:
        return None
    out = []
    for x in F.f.ins:
        if n in x.succ and x.id in A.sol[F.f.name]:
            if x.k in ('set', 'call') and x.a == ('v', j):
                s = step(x.b, j) if x.k == 'set' else None
                if s is None:
                    return None
            else:
                s = 0
            y = greatest(A, F, i, j, r, val, x.id, depth + 1)
            if y is None:
                return None
            out.append(y + s)
    return max(out) if out else None


def potential(A, F, j, i, r):
    f, INFTY = F.f, 10 ** 9
    sol = A.sol.get(f.name) or {}
    for x in f.ins:
        for e in ((x.a, x.b, *(x.c or ())) if x.k == 'call' else (x.a, x.b)):
            for t in subterms(e) if isinstance(e, tuple) else ():
                if t[:1] == ('a',) and len(t) == 2 and t[1] in (('v', i), ('v', j)):
                    return {}
    moves = {s for x in f.ins if x.k in ('set', 'call') and x.a is not None for s in (i, j) if x.a == ('v', s)}
    if moves != {i, j}:
        return {}
    val, n_up, work = {0: INFTY}, {}, [0]
    while work:
        n = work.pop()
        x, e = f.ins[n], val[n]
        if x.k in ('set', 'call') and x.a in (('v', i), ('v', j)):
            s = step(x.b, x.a[1]) if x.k == 'set' else None
            if s is None and x.k == 'set' and x.b[0] == 'b' and x.b[1] == '+' and x.b[2] == x.a and sol.get(n):
                # advanced by a quantity within bounds
                w = [(z2.lo(l), z2.hi(l)) for z in sol[n].values() for z2 in (z.copy(),) for l in (A.lin(z2, F, x.b[3]),) if l is not None]
                if len(w) == len(sol[n]) and all(-INFTY < a and b < INFTY for a, b in w):
                    s = max(b for a, b in w) if x.a[1] == j else min(a for a, b in w)
            if s is not None:
                e = e if e >= INFTY else e + s if x.a[1] == j else e - r * s
            else:
                hs = []
                for z in sol.get(n, {}).values():
                    z = z.copy()
                    new = A.lin(z, F, x.b) if x.k == 'set' else None
                    a, b = (new, A.lin(z, F, ('v', i))) if x.a[1] == j else (A.lin(z, F, ('v', j)), new)
                    hs.append((z.hi(a), z.lo(b)) if a is not None and b is not None else (INFTY, 0))
                ok = hs and all(-INFTY < a < INFTY and -INFTY < b < INFTY for a, b in hs)
                e = max(a - r * b for a, b in hs) if ok else INFTY
        for q in x.succ:
            if q not in sol:
                continue        # not reached
            if q not in val or val[q] < e:
                n_up[q] = n_up.get(q, 0) + 1
                val[q] = e if n_up[q] < 40 else INFTY
                work.append(q)
    return val


def unit(f):
    return os.path.basename(f.file or '')


def describe(A, ob):
    """(function, where, text, detail) for the message"""
    (fn, line, iid, kind, text), (v, buf, detail, ins) = ob
    return fn, f'{A.fn[fn].f.file}:{line} ({fn})', text, detail
