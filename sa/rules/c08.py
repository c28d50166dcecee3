"""C08: links to evicted concepts are never followed."""
from ..core import *
from ..loops import expr_vars
from .c20 import Defs

SRC, SID = 'sourceConcept', 'sourceConceptId'
TABLES = ('precondition_beliefs', 'implication_links')
FIELDS_OK = ('id',)


def evicting(p, ctx):
    """functions that may give a concept slot to another term (they write the id or the whole of a Concept through a pointer), and their callers.
    Calls through function pointers (operations) may do anything."""
    T = p.types
    base = set()
    for fn, f in p.funcs.items():
        for i in f.ins:
            if i.k == 'set' and i.a[0] == 'fld' and i.a[2] == 'id' and i.a[1][0] == 'd':
                base.add(fn)
            elif i.k == 'set' and i.a[0] in ('d', 'idx') and 'Concept' in str(i.ty or '') + str(i.b)[:40]:
                base.add(fn)
            elif i.k == 'call' and not isinstance(i.b, str):
                base.add(fn)
    out, work = set(base), list(base)
    cs = p.callers()
    while work:
        x = work.pop()
        for y in cs.get(x, ()):
            y = y[0] if isinstance(y, tuple) else y
            if y not in out:
                out.add(y)
                work.append(y)
    return out


class Links:
    """must-analysis over one function. Facts: ('valid', X) X's source concept is the one it was created for; ('src', X, e) / ('id', X, e): the field was
    taken from concept e; ('cond', v, X, pol): X is valid if v is true (pol) ; ('of', q, X): pointer q leads into X's source concept; ('ok', q): q may be followed."""

    def __init__(self, ctx, f, evict, takes_valid, rep):
        self.ctx, self.f, self.p, self.evict, self.tv, self.rep = ctx, f, ctx.prog, evict, takes_valid, rep
        self.D = Defs(f)
        self.links = set()
        for i in f.ins:
            if i.k == 'set' and i.a[0] == 'v':
                e = uncast(i.b)
                if self.link_of(e) is not None:
                    self.links.add(i.a[1])
        grow = True
        while grow:         # pointers derived from a source concept pointer
            grow = False
            for i in f.ins:
                if i.k == 'set' and i.a[0] == 'v' and i.a[1] not in self.links and self.into(uncast(i.b)):
                    self.links.add(i.a[1])
                    grow = True
        self.vars_memo = {}

    def link_of(self, e):
        """X when e is X.sourceConcept"""
        e = uncast(e)
        if e[0] == 'fld' and e[2] == SRC:
            return self.norm(e[1])
        return None

    def into(self, e):
        """the link pointer an address expression is built from (&q->field)"""
        e = uncast(e)
        if e[0] == 'v' and e[1] in self.links:
            return e[1]
        if e[0] == 'a':
            r = e[1]
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if r[0] == 'd' and uncast(r[1])[0] == 'v' and uncast(r[1])[1] in self.links:
                return uncast(r[1])[1]
        return None

    def norm(self, lv):
        """canonical name of an implication: pointer locals with one definition expanded"""
        return self.D.x(lv)

    def vars(self, key):
        if key not in self.vars_memo:
            s = set()
            expr_vars(key, s)
            self.vars_memo[key] = s
        return self.vars_memo[key]

    def table_elem(self, X):
        return any(isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in TABLES for t in subterms(X)) and X[0] == 'idx'

    # ---- transfer
    def kill_var(self, s, v):
        return frozenset(a for a in s if not any(v in self.vars(x) for x in a[1:] if isinstance(x, tuple)) and v not in a[1:])

    def valid(self, s, X):
        if ('valid', X) in s:
            return True
        # element of a local array all of whose stored elements are valid
        if X[0] == 'idx' and X[1][0] == 'v' and ('all', X[1][1]) in s:
            return True
        e = [a[2] for a in s if a[0] == 'src' and a[1] == X]
        return any(('id', X, x) in s for x in e)

    def test(self, e):
        """(X, polarity) if expression e is the validity comparison written out"""
        e = uncast(e)
        if e[0] == 'b' and e[1] in ('==', '!='):
            a, b = uncast(e[2]), uncast(e[3])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'fld' and x[2] == SID and y[0] == 'fld' and y[2] == 'id' and y[1][0] == 'd':
                    q = uncast(self.D.x(y[1][1]))
                    if q[0] == 'fld' and q[2] == SRC and self.norm(q[1]) == self.norm(x[1]):
                        return self.norm(x[1]), e[1] == '=='
        return None

    def record_of_arg(self, a):
        """implication behind an argument (&X, pointer, or record)"""
        a = uncast(a)
        if a[0] == 'a':
            return self.norm(a[1])
        x = self.D.x(a)
        if x[0] == 'a':
            return x[1]
        return ('d', x)

    def assume(self, s, X):
        s = set(s) | {('valid', X)}
        for a in list(s):
            if a[0] == 'of' and a[2] == X:
                s.add(('ok', a[1]))
        return frozenset(s)

    def branch(self, i, s):
        e, pol = uncast(i.a), True
        while e[0] == 'u' and e[1] == '!':
            e, pol = uncast(e[2]), not pol
        if e[0] == 'b' and e[1] in ('==', '!=') and uncast(e[3]) == ('c', 0) and uncast(e[2])[0] == 'v':
            pol = pol == (e[1] == '!=')
            e = uncast(e[2])
        t, u = s, s
        if e[0] == 'v':
            for a in s:
                if a[0] == 'cond' and a[1] == e[1]:
                    if a[3] == pol:
                        t = self.assume(t, a[2])
                    else:
                        u = self.assume(u, a[2])
        x = self.test(e)
        if x:
            if x[1] == pol:
                t = self.assume(t, x[0])
            else:
                u = self.assume(u, x[0])
        return t, u

    def step(self, i, s):
        k = i.k
        if k == 'call':
            name = i.b if isinstance(i.b, str) else None
            if name is None or name in self.evict:
                s = frozenset(a for a in s if a[0] not in ('valid', 'ok', 'cond', 'all', 'src', 'id'))
            else:
                # a callee handed a table or record through a pointer may change it
                for n, a in enumerate(i.c):
                    if n in {k for k, _ in self.ctx.summ.pmod.get(name, ())}:
                        X = self.record_of_arg(a)
                        s = frozenset(t for t in s if not (t[0] in ('valid', 'src', 'id') and isinstance(t[1], tuple) and X in list(subterms(t[1]))))
            if i.a is not None and i.a[0] == 'v':
                s = self.kill_var(s, i.a[1])
                if name == 'Memory_ImplicationValid':
                    s = s | {('cond', i.a[1], self.record_of_arg(i.c[0]), True)}
            return s
        if k == 'set':
            lv, e = i.a, uncast(i.b)
            if lv[0] == 'v':
                v = lv[1]
                t = self.test(e)
                neg = e[0] == 'u' and e[1] == '!'
                src = self.norm(e) if e[0] in ('v', 'd', 'idx', 'fld') else None
                wasvalid = src is not None and self.valid(s, src)
                fol = self.link_of(e)
                folok = fol is not None and self.valid(s, fol)
                q = self.into(e)
                qok = q is not None and ('ok', q) in s
                qx = [a[2] for a in s if a[0] == 'of' and a[1] == q]
                cnd = [a for a in s if a[0] == 'cond' and e == ('v', a[1])]
                isagg = e[0] == 'agg'
                s = self.kill_var(s, v)
                add = set()
                if t:
                    add.add(('cond', v, t[0], t[1]))
                for a in cnd:
                    add.add(('cond', v, a[2], a[3]))
                if wasvalid and v not in self.vars(src):
                    add.add(('valid', lv))
                if fol is not None and v not in self.vars(fol):
                    add.add(('of', v, fol))
                if fol is not None and folok:
                    add.add(('ok', v))
                if fol is None and q is None and v in self.links:
                    add.add(('ok', v))      # points to something else
                if q is not None:
                    for x in qx:
                        add.add(('of', v, x))
                    if qok:
                        add.add(('ok', v))
                if isagg:
                    d = dict((x[0], x[1]) for x in e[2] if isinstance(x, tuple) and len(x) == 2)
                    if SRC in d and SID in d:
                        add |= self.pair(lv, d[SRC], d[SID], s)
                if e[0] == 'arr' or (isagg and not e[2]):
                    add.add(('all', v))
                ty = str(self.f.vars.get(v, ''))
                if '[' in ty and (e[0] in ('arr', 'agg')):
                    add.add(('all', v))
                return s | add
            if lv[0] == 'fld' and lv[2] in (SRC, SID):
                X = self.norm(lv[1])
                tag = 'src' if lv[2] == SRC else 'id'
                s = frozenset(a for a in s if not (a[0] in ('valid', tag) and a[1] == X))
                x = self.D.x(e)
                if tag == 'src':
                    return s | {(tag, X, uncast(x))}
                if x[0] == 'fld' and x[2] == 'id' and x[1][0] == 'd':
                    return s | {(tag, X, uncast(x[1][1]))}
                if x[0] == 'fld' and x[2] == SID:
                    return s | {(tag, X, ('fld', x[1], SRC))}
                return s
            r = lv
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if lv[0] == 'idx' and lv[1][0] == 'v' and ('all', lv[1][1]) in s and e[0] in ('v', 'd', 'idx', 'fld', 'agg'):
                if e[0] == 'agg' and not e[2]:
                    return s
                if not self.valid(s, self.norm(e)):
                    s = s - {('all', lv[1][1])}
                return s
            if lv[0] in ('idx', 'd'):        # whole element overwritten
                X = self.norm(lv)
                s = frozenset(a for a in s if not (a[0] in ('valid', 'src', 'id') and a[1] == X))
                if e[0] in ('v', 'd', 'idx', 'fld') and self.valid(s, self.norm(e)):
                    s = s | {('valid', X)}
            return s
        return s

    def pair(self, X, se, ie, s):
        se, ie = uncast(self.D.x(se)), uncast(self.D.x(ie))
        out = {('src', X, se)}
        if ie[0] == 'fld' and ie[2] == 'id' and ie[1][0] == 'd':
            out.add(('id', X, uncast(ie[1][1])))
        if ie[0] == 'fld' and ie[2] == SID:
            out.add(('id', X, ('fld', ie[1], SRC)))
        return out

    # ---- obligations
    def follows(self, e, out, is_lv=False):
        """(kind, key, path) of link pointers dereferenced when e is evaluated; taking an address does not read"""
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == 'a':
            r = e[1]
            while r[0] in ('fld', 'idx'):
                if r[0] == 'idx':
                    self.follows(r[2], out)
                r = r[1]
            if r[0] == 'd':
                self.follows(r[1], out)
            return
        if e[0] == 'fld':
            r, last = e, None
            while r[0] in ('fld', 'idx'):
                last = r
                r = r[1]
            if r[0] == 'd' and last[0] == 'fld' and last[2] in FIELDS_OK:
                return
        if e[0] == 'd':
            q = uncast(e[1])
            if q[0] == 'v' and q[1] in self.links:
                out.append(('ptr', q[1]))
            else:
                X = self.link_of(q)
                if X is not None:
                    out.append(('direct', X))
        for x in e[1:]:
            if isinstance(x, tuple):
                self.follows(x, out)

    def run(self):
        f = self.f
        first = frozenset()
        for v in f.params:
            if (f.name, v) in self.tv:
                first |= {('valid', ('d', ('v', v))), ('valid', ('v', v))}
        st = {f.entry: first}
        work = [f.entry]
        while work:
            x = work.pop()
            i, s = f.ins[x], st[x]
            if i.k == 'br' and len(i.succ) == 2:
                outs = list(zip(i.succ, self.branch(i, s)))
            else:
                o = self.step(i, s)
                outs = [(y, o) for y in i.succ]
            for y, o in outs:
                n = o if y not in st else st[y] & o
                if y not in st or n != st[y]:
                    st[y] = n
                    work.append(y)
        self.st = st
        return st

    def judge(self):
        f, rep, p = self.f, self.rep, self.p
        rule1 = 'a link is followed only while its slot is known to hold its concept'
        rule2 = 'inference uses only links whose source concept is still the one they were created for'
        rule3 = 'source concept and its id are recorded together'
        seen = set()
        for x, s in sorted(self.st.items()):
            i = f.ins[x]
            fl = []
            if i.k == 'call' and i.b == 'Memory_ImplicationValid':
                continue
            for e in (i.a, i.b, i.c):
                if i.k == 'set' and e is i.a:
                    self.follows(('x', e), fl) if e[0] != 'v' else None
                elif isinstance(e, tuple):
                    self.follows(e, fl)
                elif isinstance(e, list):
                    for y in e:
                        self.follows(y, fl)
            for kind, k in fl:
                ok = ('ok', k) in s if kind == 'ptr' else self.valid(s, k)
                d = f'{k.split(":")[-1]} leads into the source concept of a link' if kind == 'ptr' else f'source concept of {show(k)} is read'
                if (d, ok) not in seen:
                    seen.add((d, ok))
                    rep.ob(ok, rule1, p.loc(f, i), d)
                rep.count('link_reads')
            # derived pointer handed to a callee: the callee reads it
            if i.k == 'call':
                for n, a in enumerate(i.c):
                    q = self.into(a)
                    if q is not None and not (isinstance(i.b, str) and i.b.startswith('Globals_')):
                        ok = ('ok', q) in s
                        d = f'{q.split(":")[-1]} handed to {i.b} leads into the source concept of a link'
                        if (d, ok) not in seen:
                            seen.add((d, ok))
                            rep.ob(ok, rule1, p.loc(f, i), d)
                        rep.count('link_reads')
                if isinstance(i.b, str) and i.b in p.funcs:
                    g = p.funcs[i.b]
                    for n, a in enumerate(i.c[:len(g.params)]):
                        ty = str(g.vars.get(g.params[n], ''))
                        if 'Implication' not in ty:
                            continue
                        X = self.record_of_arg(a) if '*' in ty else self.norm(uncast(a))
                        if (i.b, g.params[n]) in self.tv or (i.b.startswith('Inference_') and i.b != 'Inference_ImplicationRevision'):
                            ok = self.valid(s, X) or self.copied(X, s)
                            rep.ob(ok, rule2, p.loc(f, i), f'{show(uncast(a))} in {i.b}')
                            rep.count('link_uses')
                        elif i.b == 'Table_AddAndRevise' or i.b == 'Table_Add':
                            src = [a2 for a2 in s if a2[0] == 'src' and a2[1] == X]
                            ok = self.valid(s, X) or self.whole(X, f)
                            rep.ob(ok, rule3, p.loc(f, i), f'{show(uncast(a))} entered by {i.b}')
            if i.k == 'set' and i.a[0] == 'fld' and i.a[2] in (SRC, SID):
                ok = self.partner(i)
                rep.ob(ok, rule3, p.loc(f, i), f'{show(i.a)} is set together with its counterpart')

    def copied(self, X, s):
        return False

    def whole(self, X, f):
        """X is only ever written as a copy of another stored link or a parameter (its own pair travels along)"""
        if X[0] == 'd' and X[1][0] == 'v' and X[1][1] in f.params:
            return True
        if X[0] == 'v' and X[1] in f.params:
            return True
        if X[0] == 'v':
            ds = [i for i in f.ins if i.k == 'set' and i.a == X]
            cs = [i for i in f.ins if i.k == 'call' and i.a == X]
            if cs and not ds:
                return all(self.returns_pair(i.b) for i in cs)
            fl = [i for i in f.ins if i.k == 'set' and i.a[0] == 'fld' and i.a[1] == X and i.a[2] in (SRC, SID)]
            return bool(ds) and not fl and all(uncast(i.b)[0] in ('v', 'd', 'idx', 'fld') for i in ds)
        return False

    def returns_pair(self, fn):
        """every record the function returns carries concept and id of one and the same link"""
        g = self.p.funcs.get(fn) if isinstance(fn, str) else None
        if g is None:
            return False
        D = Defs(g)
        for i in g.ins:
            if i.k != 'ret' or i.a is None:
                continue
            e = uncast(D.x(i.a))
            if e[0] == 'agg':
                d = dict((x[0], uncast(x[1])) for x in e[2])
                if SRC in d and SID in d:
                    if not (d[SRC][0] == 'fld' and d[SRC][2] == SRC and d[SID] == ('fld', d[SRC][1], SID)):
                        return False
                elif (SRC in d) != (SID in d):
                    return False
            elif e[0] == 'v':
                fl = {j.a[2]: uncast(D.x(j.b)) for j in g.ins if j.k == 'set' and j.a[0] == 'fld' and j.a[1] == e and j.a[2] in (SRC, SID)}
                if len(fl) == 1 or (fl and not (fl[SRC][0] == 'fld' and fl[SRC][2] == SRC and fl[SID] == ('fld', fl[SRC][1], SID))):
                    return False
            elif e[0] not in ('d', 'idx', 'fld'):
                return False
        return True

    def partner(self, i):
        """the other field of the pair is set from the same concept (or the same link) before the record is used, on every path"""
        f = self.f
        X = i.a[1]
        other = SID if i.a[2] == SRC else SRC

        def origin(ins):
            e = uncast(self.D.x(ins.b))
            if ins.a[2] == SRC:
                return e
            if e[0] == 'fld' and e[2] == 'id' and e[1][0] == 'd':
                return uncast(e[1][1])
            if e[0] == 'fld' and e[2] == SID:
                return ('fld', e[1], SRC)
            return ('?', ins.id)
        o = origin(i)
        mates = {j.id for j in f.ins if j.k == 'set' and j.a == ('fld', X, other) and origin(j) == o}
        if not mates:
            return False
        # forward: every path meets a mate before a call/return, or backward: every path came from a mate with nothing relevant between
        return self.meets(i, mates, 1) or self.meets(i, mates, -1)

    def meets(self, i, mates, d):
        f = self.f
        preds = f.preds() if d < 0 else None
        seen, st = set(), list(i.succ if d > 0 else preds[i.id])
        if not st:
            return False
        while st:
            x = st.pop()
            if x in seen or x in mates:
                continue
            seen.add(x)
            j = f.ins[x]
            if j.k == 'ret' or x == i.id or (j.k == 'call' and (not isinstance(j.b, str) or j.b in self.evict or any(i.a[1] in list(subterms(a)) for a in j.c))):
                return False
            nxt = j.succ if d > 0 else preds[x]
            if not nxt:
                return False
            st.extend(nxt)
        return True


def takes_valid(p):
    """pointer-to-link parameters a function follows itself or passes on to one that does: the caller has to establish validity"""
    out = set()
    for _ in range(5):
        n = len(out)
        for fn, f in p.funcs.items():
            if fn == 'Memory_ImplicationValid':
                continue
            for v in f.params:
                if 'Implication' not in str(f.vars.get(v, '')):
                    continue
                D = Defs(f)
                for i in f.ins:
                    if i.k == 'set' and i.a[0] == 'v':
                        e = uncast(i.b)
                        if e[0] == 'fld' and e[2] == SRC and D.x(e[1]) in (('d', ('v', v)), ('v', v)):
                            out.add((fn, v))
                    for e in [i.a, i.b] + (i.c or [] if isinstance(i.c, list) else []):
                        for t in subterms(e) if isinstance(e, tuple) else ():
                            if isinstance(t, tuple) and len(t) == 2 and t[0] == 'd' and isinstance(t[1], tuple):
                                q = uncast(t[1])
                                if q[0] == 'fld' and q[2] == SRC and D.x(q[1]) in (('d', ('v', v)), ('v', v)):
                                    out.add((fn, v))
        if len(out) == n:
            break
    return out


def check(ctx):
    rep = Report('C08', ctx, 'Typestate analysis of links (Implication records): a must-dataflow over every function tracks which link is known to be valid (tested by the slot-id comparison, copied from a '
                 'tested one, or just created from a concept at hand), forgetting it at every call that may evict a concept. Obligations: each read through a source concept pointer or a pointer derived '
                 'from it, each link given to an inference function or to a function that follows it, each pair of source concept and id recorded, and the test before a conclusion is added to memory.',
                 ['a call through a function pointer may evict', 'answers to questions report a link without following it'])
    p = ctx.prog
    ev = evicting(p, ctx)
    rep.count('evicting_functions', len(ev))
    if 'Memory_Conceptualize' not in ev:
        raise BrokenAnalysis('Memory_Conceptualize is not recognised as evicting')
    tv = takes_valid(p)
    for fn in sorted(p.funcs):
        f = p.funcs[fn]
        if fn == 'Memory_ImplicationValid':
            continue
        txt = any('Implication' in str(t) for t in f.vars.values()) or any(i.k == 'set' and i.a[0] == 'fld' and i.a[2] in (SRC, SID) for i in f.ins) or \
            any(SRC in str((i.a, i.b, i.c)) for i in f.ins)
        if not txt:
            continue
        rep.count('functions_analysed')
        L = Links(ctx, f, ev, tv, rep)
        L.run()
        L.judge()
    validity_test(ctx, rep)
    fresh(ctx, rep)
    validation(ctx, rep, ev)
    rep.expect('link reads', rep.counts.get('link_reads', 0), 3)
    rep.expect('link uses', rep.counts.get('link_uses', 0), 3)
    return rep


def validity_test(ctx, rep):
    """Memory_ImplicationValid compares the recorded id with the id of the concept in the slot"""
    p = ctx.prog
    rule = 'the validity test compares the recorded id with the id of the concept now in the slot'
    if 'Memory_ImplicationValid' not in p.funcs:
        rep.notes.append('no validity test function; comparisons written out are recognised')
        return
    e = ctx.engine({})
    f = p.funcs['Memory_ImplicationValid']
    n = 0
    for st, v in e.run('Memory_ImplicationValid'):
        n += 1
        v = strip_bool(v)
        if v[0] == 'c':
            # decided by a branch: the facts must contain the comparison with this outcome
            ok = any(is_cmp(a, b, bool(v[1])) for a, b in st.facts.items())
        else:
            ok = is_cmp(v, True, True)
        rep.ob(ok, rule, p.loc(f, f.ins[f.entry]), f'returns {show(v) if v else v}')
    rep.expect('outcomes of the validity test', n, 1)


def strip_bool(v):
    while isinstance(v, tuple) and v and v[0] == 'cast':
        v = v[2]
    return v


def is_cmp(a, truth, want):
    a = strip_bool(a)
    if not (isinstance(a, tuple) and a and a[0] == 'b' and a[1] in ('==', '!=')):
        return False
    s1, s2 = str(a[2]), str(a[3])
    if (a[1] == '==') != (truth == want):
        return False
    l, r = (s1, s2) if SID in s1 else (s2, s1)
    return SID in l and SID not in r and "'" + SRC + "'" in r and "'id'" in r


def fresh(ctx, rep):
    """a slot that is given to another term gets an id no earlier concept had: Memory_Conceptualize writes the id from a counter and advances it"""
    p = ctx.prog
    rule = 'a recycled slot gets a new id'
    n = 0
    for fn, f in p.funcs.items():
        for i in f.ins:
            if i.k == 'set' and i.a[0] == 'fld' and i.a[2] == 'id' and i.a[1][0] == 'd':
                n += 1
                D = Defs(f)
                e = uncast(D.x(i.b))
                g = e[1] if e[0] == 'v' and e[1] in p.globals else None
                if g is None:
                    d = [j for j in f.ins if j.k == 'set' and j.a == e]
                    if e[0] == 'v' and d and uncast(d[0].b)[0] == 'v' and uncast(d[0].b)[1] in p.globals:
                        g = uncast(d[0].b)[1]
                rep.ob(g is not None, rule, p.loc(f, i), f'id taken from a counter')
                if g is None:
                    continue
                adv = [j for j in f.ins if j.k == 'set' and j.a == ('v', g)]
                from ..loops import step_of
                ok = bool(adv) and all((step_of(j) or 0) > 0 for j in adv)
                rep.ob(ok, rule, p.loc(f, i), f'{g} only grows')
                # on every path through the id assignment, the counter is advanced before it or after it
                ok = ok and between(f, i, {j.id for j in adv})
                rep.ob(ok, rule, p.loc(f, i), f'{g} advances with every concept')
    rep.expect('concept id assignments', n, 1)


def between(f, i, adv):
    def free(start, nxt):
        seen, st = set(), list(start)
        while st:
            x = st.pop()
            if x in seen or x in adv:
                continue
            seen.add(x)
            n = nxt(x)
            if not n:
                return True
            st.extend(n)
        return False
    preds = f.preds()
    return not free(i.succ, lambda x: f.ins[x].succ) or not free(preds[i.id], lambda x: preds[x])


def validation(ctx, rep, ev):
    """a conclusion about a concept is added to memory only if there is no concept to validate or its id is the one at the time of inference"""
    p = ctx.rt
    rule = 'conclusions about a concept replaced meanwhile are discarded'
    fs = [(fn, f) for fn, f in p.funcs.items() if any('validation_c' in v for v in f.params)]
    n = 0
    e_vals = {}
    for fn, f in fs:
        con = next((v for v in f.params if 'Concept' in str(f.vars.get(v, '')) and '*' in str(f.vars.get(v, '')) and 'validation' in v), None)
        cid = next((v for v in f.params if 'validation' in v and v != con), None)
        if con is None or cid is None:
            continue
        e_vals[fn] = (f.params.index(con), f.params.index(cid))
    for fn, f in sorted(p.funcs.items()):
        D = Defs(f)
        for i in f.ins:
            if i.k != 'call' or i.b not in e_vals:
                continue
            a, b = e_vals[i.b]
            x, y = uncast(i.c[a]), uncast(i.c[b])
            n += 1
            if fn in e_vals:
                ok = x == ('v', f.params[e_vals[fn][0]]) and y == ('v', f.params[e_vals[fn][1]])
                rep.ob(ok or x == ('c', 0), rule, p.loc(f, i), f'{i.b} gets the concept and id {fn} was given')
                continue
            if x == ('c', 0):
                rep.ob(True, rule, p.loc(f, i), f'{i.b}: no concept is involved')
                continue
            yx = uncast(D.x(y))
            ok = y[0] == 'v' and yx[0] == 'fld' and yx[2] == 'id' and yx[1][0] == 'd' and uncast(yx[1][1]) in (uncast(D.x(x)), x)
            why = 'id is not the one of the concept, taken beforehand'
            if ok:
                d = [j for j in f.ins if j.k == 'set' and j.a == y]
                # no evicting call between the concept being fetched and its id being read
                src = [j for j in f.ins if j.k in ('set', 'call') and j.a == x]
                ok = all(not passes_call(f, j, d[0], ev) for j in src)
                why = 'the id is read only after a call that may evict the concept'
            rep.ob(ok, rule, p.loc(f, i), f'{i.b} gets {show(x)} and its id' + ('' if ok else ': ' + why))
    # the additions to memory
    if 'NAL_DerivedEvent' in p.funcs and 'NAL_DerivedEvent' in e_vals:
        f = p.funcs['NAL_DerivedEvent']
        con, cid = (f.params[k] for k in e_vals['NAL_DerivedEvent'])
        for i in f.ins:
            if i.k == 'call' and i.b == 'Memory_AddEvent':
                n += 1
                rep.ob(guarded(f, i, con, cid, ev), rule, p.loc(f, i), 'Memory_AddEvent is reached only with no concept or an unchanged id')
    rep.expect('validated conclusions', n, 6)


def passes_call(f, a, b, ev):
    """some path from a to b contains an evicting call"""
    fw, st = set(), list(a.succ)
    while st:
        x = st.pop()
        if x in fw or x == a.id:
            continue
        fw.add(x)
        if x != b.id:
            st.extend(f.ins[x].succ)
    if b.id not in fw:
        return False
    preds = f.preds()
    bw, st = set(), list(preds[b.id])
    while st:
        x = st.pop()
        if x in bw or x == a.id:
            continue
        bw.add(x)
        st.extend(preds[x])
    return any(f.ins[x].k == 'call' and (not isinstance(f.ins[x].b, str) or f.ins[x].b in ev) for x in fw & bw)


def guarded(f, call, con, cid, ev):
    """every path to the call takes, after the last evicting call, an edge establishing con == NULL or con->id == cid"""
    D = Defs(f)

    def edge(i, k):
        e, pol = uncast(i.a), k == 0
        while e[0] == 'u' and e[1] == '!':
            e, pol = uncast(e[2]), not pol
        e = D.x(e)
        if e == ('v', con):
            return not pol
        if e[0] == 'b' and e[1] in ('==', '!='):
            pol = pol == (e[1] == '==')
            a, b = uncast(e[2]), uncast(e[3])
            for x, y in ((a, b), (b, a)):
                if x == ('v', con) and y == ('c', 0):
                    return pol
                if x == ('fld', ('d', ('v', con)), 'id') and y == ('v', cid):
                    return pol
        return False
    st, seen = [(f.entry, False)], set()
    while st:
        x, g = st.pop()
        if (x, g) in seen:
            continue
        seen.add((x, g))
        i = f.ins[x]
        if x == call.id:
            if not g:
                return False
        if i.k == 'call' and (not isinstance(i.b, str) or i.b in ev):
            g = False
        if i.k == 'br' and len(i.succ) == 2:
            st.extend((y, g or edge(i, k)) for k, y in enumerate(i.succ))
        else:
            st.extend((y, g) for y in i.succ)
    return True
