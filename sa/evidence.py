"""Which evidential bases (stamps) stand behind a truth value, and which of them a stamp value covers (used by C01 and C02)."""
from .absint import mentions


def is_truth_fn(name):
    return isinstance(name, str) and name.startswith('Truth_')


def truth_args(prog, name):
    """argument positions of a function that are Truth values"""
    f = prog.funcs.get(name)
    if f is not None:
        ts = [f.vars[p] for p in f.params]
    else:
        ts = prog.protos.get(name, (None, []))[1]
    return [k for k, t in enumerate(ts) if prog.types.canon(t) == 'Truth' and (f is None or k in used_params(prog, name))]


def used_params(prog, name, seen=()):
    """parameters whose value influences a function's result (a second truth argument that is ignored is not evidence combined)"""
    cache = prog.__dict__.setdefault('_used_params', {})
    if name in cache:
        return cache[name]
    f = prog.funcs[name]
    pos = {v: k for k, v in enumerate(f.params)}
    out = set()

    def walk(x, skip=None):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'v' and x[1] in pos:
                out.add(pos[x[1]])
                return
            for y in x:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for i in f.ins:
        if i.k == 'call' and isinstance(i.b, str) and i.b in prog.funcs and i.b.startswith('Truth_') and i.b not in seen and i.b != name:
            use = used_params(prog, i.b, seen + (name,))
            for k, a in enumerate(i.c):
                if k in use or k >= len(prog.funcs[i.b].params):
                    walk(a)
        else:
            if i.k == 'set' and i.a[0] != 'v':
                walk(i.a)
            elif i.k != 'set' and i.k != 'call':
                walk(i.a)
            walk(i.b)
            walk(i.c)
    cache[name] = out
    return out


def owners(e, st, v, depth=0):
    """set of stamp values behind truth value v; None when it cannot be told"""
    if depth > 12:
        return None
    k = v[0]
    for q, w in st.env.items():
        if q[0] == 'fld' and q[2] == 'truth' and w == v:
            if e.ty.T.field_type(e.path_type(q[1]), 'stamp') is None:
                return set()
            return {e.read(st, ('fld', q[1], 'stamp'))}
    for q, w in list(st.env.items()):
        if e.ty.T.is_record(e.path_type(q)) and e.ty.T.field_type(e.path_type(q), 'truth') and e.ty.T.field_type(e.path_type(q), 'stamp'):
            if e.read(st, ('fld', q, 'truth')) == v:
                return {e.read(st, ('fld', q, 'stamp'))}
    if k == 'call' and is_truth_fn(v[1]):
        out = set()
        for j in truth_args(e.p, v[1]):
            if j < len(v[2]):
                o = owners(e, st, v[2][j], depth + 1)
                if o is None:
                    return None
                out |= o
        return out
    if k == 'fld' and v[2] == 'truth':
        return {e.proj(v[1], ('fld', 'stamp'))}
    if k == 'ld' and v[1][0] == 'fld' and v[1][2] == 'truth':
        if e.ty.T.field_type(e.path_type(v[1][1]), 'stamp') is None:
            return set()        # e.g. Substitution: a similarity grade, not evidence
        if e.read(st, v[1]) == v:
            return {e.read(st, ('fld', v[1][1], 'stamp'))}
    if k in ('agg', 'zero', 'arr') and not mentions(v, lambda t: t[0] in ('ld', 'arg', 'phi', 'ret', 'out', 'clob', 'fld', 'call')):
        return set()
    if k == 'agg' and v[1] == 'Truth':
        # a truth put together from components: the owners of whatever truth values occur in it
        out, found = set(), False
        for x in _truth_parts(v):
            o = owners(e, st, x, depth + 1)
            if o is None:
                return None
            out |= o
            found = True
        return out      # computed from numbers only: no recorded evidence behind it
    if k == 'with':
        return owners(e, st, v[1], depth + 1)
    return None


def _truth_parts(v):
    st, out = [x for _, x in v[2]], []
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'fld' and x[2] in ('frequency', 'confidence'):
            out.append(x[1])
        elif x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] in ('frequency', 'confidence'):
            out.append(('ld', x[1][1], x[2]))
        elif x[0] == 'call' and is_truth_fn(x[1]):
            out.append(x)
        else:
            st.extend(y for y in x if isinstance(y, tuple))
    return out


def strip(v):
    return v[1] if v[0] == '*' else v


def cover(s):
    """stamps whose entries are merged into stamp value s"""
    out, st = set(), [s]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        if x[0] == 'call' and x[1] == 'Stamp_make':
            st.extend(strip(y) for y in x[2])
    return out


def disjoint(e, st, a, b, depth=0):
    """the path condition says the two stamps do not overlap (an empty stamp overlaps nothing; a merged stamp is disjoint from
    what both its parts are disjoint from)"""
    for x, y in ((a, b), (b, a)):
        if empty(x):
            return True
        v = ('call', 'Stamp_checkOverlap', (('*', x), ('*', y)))
        at, pol = e.truth_atom(v)
        k = st.facts.get(at)
        if k is not None and k != pol:
            return True
    if depth < 4:
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1] == 'Stamp_make':
                if all(disjoint(e, st, strip(p), y, depth + 1) for p in x[2]):
                    return True
            # a part of a merged stamp that is known to be disjoint
            for at, val in st.facts.items():
                if val and at[0] == 'b' and at[1] == '==' and at[3] == ('c', 0) and at[2][0] == 'call' and at[2][1] == 'Stamp_checkOverlap':
                    p, q = (strip(z) for z in at[2][2])
                    for p, q in ((p, q), (q, p)):
                        if q == y and p != x and p[0] == 'call' and x in cover(p):
                            return True
    return False


def empty(s):
    return s[0] == 'zero' or (s[0] in ('agg', 'arr') and not mentions(s, lambda t: t[0] in ('ld', 'arg', 'phi', 'ret', 'out', 'clob', 'fld', 'call') or (t[0] == 'c' and t[1] != 0)))
