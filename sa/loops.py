"""Counted-loop recognition on the CFG: induction variable, initial value, bound, step, and the exits other than the bound test."""
from .absint import loops as nat_loops, expr_vars


class Loop:
    def __init__(self, f, head, body):
        self.f, self.head, self.body = f, head, body
        self.exits = [(u, v) for u in body for v in f.ins[u].succ if v not in body]
        self.ivs = {}       # var -> (init expr or None, step int, [(br id, op, bound, exit succ)])

    def __repr__(self):
        return f'loop@{self.f.ins[self.head].line} {self.ivs}'


def defs_in(f, ids):
    d = {}
    for n in ids:
        i = f.ins[n]
        if i.k == 'set' and i.a[0] == 'v':
            d.setdefault(i.a[1], []).append(i)
        elif i.k == 'call' and i.a is not None and i.a[0] == 'v':
            d.setdefault(i.a[1], []).append(i)
    return d


def reaching(f, at, var, stop=None, _preds=None):
    """set of instructions that may define local `var` last before instruction id `at` (backwards walk; `stop`: ids not entered)"""
    preds = _preds or f.preds()
    out, seen, st = set(), set(), [p for p in preds[at] if not (stop and p in stop)]
    entry = at == f.entry
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        i = f.ins[x]
        if (i.k == 'set' and i.a == ('v', var)) or (i.k == 'call' and i.a == ('v', var)):
            out.add(x)
            continue
        if x == f.entry:
            entry = True
        st.extend(p for p in preds[x] if not (stop and p in stop))
    return out, entry


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEGOP = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def uncast(e):
    while isinstance(e, tuple) and e and e[0] == 'cast':
        e = e[2]
    return e


def step_of(i):
    """constant c if the instruction is  v = v + c"""
    e = uncast(i.b) if i.k == 'set' else None
    if e is None or e[0] != 'b':
        return None
    a, b = uncast(e[2]), uncast(e[3])
    if e[1] == '+' and a == i.a and b[0] == 'c':
        return b[1]
    if e[1] == '+' and b == i.a and a[0] == 'c':
        return a[1]
    if e[1] == '-' and a == i.a and b[0] == 'c':
        return -b[1]
    return None


def find_loops(f):
    heads, bodies, rpo = nat_loops(f)
    preds = f.preds()
    out = []
    for h in heads:
        L = Loop(f, h, bodies[h])
        d = defs_in(f, L.body)
        for v, ds in d.items():
            if len(ds) != 1 or v not in f.vars:
                continue
            s = step_of(ds[0])
            if s is None or s == 0:
                continue
            rd, entry = reaching(f, h, v, stop=L.body, _preds=preds)
            rd = {x for x in rd if x not in L.body}
            init = None
            if not entry and rd:
                vals = {uncast(f.ins[x].b) if f.ins[x].k == 'set' else None for x in rd}
                if len(vals) == 1:
                    init = next(iter(vals))
            tests = []
            for u in L.body:
                i = f.ins[u]
                if i.k != 'br' or len(i.succ) != 2:
                    continue
                e = uncast(i.a)
                outs = [k for k, sx in enumerate(i.succ) if sx not in L.body]
                if len(outs) != 1 or e[0] != 'b' or e[1] not in FLIP:
                    continue
                a, b, op = uncast(e[2]), uncast(e[3]), e[1]
                if b == ('v', v):
                    a, b, op = b, a, FLIP[op]
                if a != ('v', v):
                    continue
                vs = set()
                expr_vars(b, vs)
                if any(x in d for x in vs):
                    continue
                if outs[0] == 0:
                    op = NEGOP[op]      # condition for staying in the loop
                tests.append((u, op, b, i.succ[outs[0]]))
            L.ivs[v] = (init, s, tests)
        out.append(L)
    return out


def covers(L, v, lo, hi_excl, fold=None):
    """the loop's induction variable runs over [lo, hi_excl) (constants): (ok, why)"""
    init, s, tests = L.ivs[v]
    if init is None or init[0] != 'c':
        return None, 'initial value not constant'
    if not tests:
        return None, 'no bound test'
    _, op, b, _ = tests[0]
    if b[0] != 'c':
        return None, 'bound not constant'
    if s == 1 and op in ('<', '<=', '!='):
        first, end = init[1], b[1] + (1 if op == '<=' else 0)
    elif s == -1 and op in ('>', '>=', '!='):
        first, end = b[1] + (0 if op == '>=' else 1), init[1] + 1
    elif abs(s) > 1:
        return False, f'steps by {s}'
    else:
        return None, 'unrecognised step'
    return (first <= lo and end >= hi_excl), f'runs over {first}..{end - 1}'
