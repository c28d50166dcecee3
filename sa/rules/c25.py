"""C25: questions are answered with the best matching knowledge."""
from ..core import *
from .c16 import truthy, code, value

FN = 'NAR_AddInputNarsese2'
FUNCTIONAL = {'Variable_Unify2', 'Variable_Unify', 'Variable_UnifyWithAnalogy', 'Truth_Expectation', 'Narsese_copulaEquals', 'Truth_Projection', 'Term_ExtractSubterm', 'Term_Equal'}
TENSES = {'belief': {0}, 'belief_spike': {1, 2}, 'predicted_belief': {1, 3}}
LINKS = {'implication_links': 'IMPLICATION', 'precondition_beliefs': 'TEMPORAL_IMPLICATION'}
SINKS = {'Truth_Print': 'truth', 'Stamp_print': 'stamp', 'Narsese_PrintTerm': 'term'}


def where(f):
    return f'{f.file}:{f.line} ({f.name})'


def strip(v):
    while isinstance(v, tuple) and v and v[0] in ('cast', 'trunc'):
        v = v[-1]
    return v


def field(v, n):
    """the record R if v is R's field n"""
    v = strip(v)
    if v[0] == 'ld' and v[1][0] == 'fld' and v[1][2] == n:
        return v[1][1]
    return None


def slot(R):
    """name of the memory slot a record is in, and the concept's path"""
    for t in subterms(R):
        if len(t) == 3 and t[0] == 'fld' and (t[2] in TENSES or t[2] in LINKS):
            return t[2], t[1]
    return None, None


def mean(v):
    """the truth value whose expectation v is"""
    v = strip(v)
    if v[0] == 'call' and v[1] == 'Truth_Expectation':
        return v[2][0]
    return None


def subst(v, m):
    if v in m:
        return m[v]
    if isinstance(v, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
    return v


class Search:
    def __init__(self, cx, groups=None):
        self.cx = cx
        self.groups = groups            # {'truth': path, 'stamp': path, ...} of the answer kept
        self.final = {}                 # roles -> paths, from the print after the loop
        self.bad = {}
        self.init, self.taken, self.compared = {}, [], set()
        self.none, self.some = [], []
        self.n = {'takes': 0, 'prints': 0, 'passed over': 0, 'links': 0}

    def key(self, st):
        return frozenset(a for a in st.facts if a[0] == 'mark') | frozenset((a, tv) for a, tv in st.facts.items() if mentions(a, lambda t: t[:2] == ('call', 'Narsese_copulaEquals')))

    def fail(self, why, w):
        self.bad.setdefault(why, w)

    # -- what a path knows -----------------------------------------------
    def known(self, st, match):
        """truth of an atom the path knows, normalised over == 0"""
        for a, tv in st.facts.items():
            x = a
            if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 0):
                x, tv = a[2], not tv
            if match(x):
                yield tv

    def copula(self, st, name):
        c = code(self.cx, name)
        return next(self.known(st, lambda x: x[0] == 'call' and x[1] == 'Narsese_copulaEquals' and x[2][1] == c and mentions(x[2][0], lambda t: t == self.question)), None)

    def tenses(self, st):
        out = {0, 1, 2, 3}
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[2] == self.tense and a[3][0] == 'c':
                n = a[3][1]
                out &= {x for x in out if (x == n if a[1] == '==' else x < n) == tv}
            if a[0] == 'b' and a[1] == '<' and a[3] == self.tense and a[2][0] == 'c':
                out &= {x for x in out if (a[2][1] < x) == tv}
        return out

    def unified(self, st, R, C, part=None):
        """does the path know whether the question (its part) unifies with a term of R or C"""
        def m(x):
            if not (x[0] == 'fld' and x[2] == 'success' and x[1][0] == 'call' and x[1][1].startswith('Variable_Unify')):
                return False
            terms = [a[1] for a in x[1][2] if a[0] == '*']
            if len(terms) != 2 or x[1][2][-1] != ('c', 1):
                return False
            q, k = terms
            if part is None:
                if q != self.question:
                    return False
            elif not (q[0] == 'call' and q[1] == 'Term_ExtractSubterm' and q[2][1] == ('c', part) and mentions(q[2][0], lambda t: t == self.question)):
                return False
            X = field(k, 'term')
            return X is not None and X in (R, C)
        return next(self.known(st, m), None)

    def missing(self, st, R):
        return next((not tv for tv in self.known(st, lambda x: field(x, 'type') == R)), None)

    def measure(self, e, R):
        s, _ = slot(R)
        def m(v):
            t = mean(v)
            if t is None:
                return False
            if s in ('belief_spike', 'predicted_belief'):
                return t[0] == 'call' and t[1] == 'Truth_Projection' and field(t[2][0], 'truth') == R and field(t[2][1], 'occurrenceTime') == R and strip(t[2][2])[:2] == ('ld', ('v', 'currentTime'))
            return field(t, 'truth') == R
        return m

    def comparisons(self, e, st, R):
        """(measure, other, relation) for each comparison of R's measure the path knows"""
        m = self.measure(e, R)
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] in ('<', '=='):
                if m(a[2]):
                    yield a[2], a[3], ('<' if tv else '>=') if a[1] == '<' else ('==' if tv else '!=')
                if m(a[3]):
                    yield a[3], a[2], ('>' if tv else '<=') if a[1] == '<' else ('==' if tv else '!=')

    def best(self, v, st=None, e=None):
        """is v about the best answer so far"""
        if st is not None:
            Q = next((a[2] for a in st.facts if a[:2] == ('mark', 'took')), None)
            if Q is not None and (self.measure(e, Q)(v) or field(v, 'occurrenceTime') == Q or mean(v) is not None and field(mean(v), 'truth') == Q):
                return True
        return mentions(v, lambda t: len(t) == 3 and t[0] == 'phi' and t[2][0] in ('v', 'fld')) and not mentions(v, lambda t: field(t, 'truth') is not None)

    def later(self, e, st, R):
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] in ('<', '=='):
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if field(x, 'occurrenceTime') == R and self.best(y, st, e):
                        if a[1] == '==':
                            yield '==' if tv else '!='
                        elif x is a[3]:
                            yield '>' if tv else '<='
                        else:
                            yield '<' if tv else '>='

    def same(self, e, st, R):
        """plain expectations compared"""
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '<':
                for x, y, up in ((a[2], a[3], False), (a[3], a[2], True)):
                    t = mean(x)
                    if t is not None and field(t, 'truth') == R and self.best(y, st, e):
                        yield ('>' if tv else '<=') if up else ('<' if tv else '>=')

    # -- hooks ------------------------------------------------------------
    def on_call(self, e, st, f, ins, name, vals, ctx):
        if name in ('fputs', 'puts', 'printf') and vals and vals[0][0] == 'a' and vals[0][1][0] == 'strlv':
            s = vals[0][1][1]
            if s.startswith('Answer'):
                for a in [a for a in st.facts if a[:2] == ('mark', 'shown')]:
                    del st.facts[a]
                st.facts[('mark', 'answering')] = True
            if ('mark', 'answering') in st.facts:
                if 'None' in s:
                    self.shown(e, st, f, ins, 'none', None, ctx)
                if name == 'printf':
                    rest = list(vals[1:])
                    for k, piece in enumerate(s.split('%')[:-1]):
                        if k < len(rest) and '=' in piece:
                            n = piece.split()[-1].rstrip('=')
                            self.shown(e, st, f, ins, n, rest[k], ctx)
        if name in SINKS and ('mark', 'answering') in st.facts and vals[0][0] == 'a':
            self.shown(e, st, f, ins, SINKS[name], e.read(st, vals[0][1]), ctx)

    def shown(self, e, st, f, ins, role, v, ctx):
        w = e.p.loc(f, ins)
        self.n['prints'] += 1
        st.facts[('mark', 'given')] = True
        query = self.query(e, st)
        if role == 'none':
            for a, tv in st.facts.items():      # no record has such a confidence (C02, C04)
                if a[0] == 'b' and a[1] == '==' and tv is True and (num(a[3]) or 0) > 1 and mentions(a[2], lambda t: len(t) == 3 and t[0] == 'fld' and t[2] == 'truth'):
                    st.facts[('mark', 'impossible')] = True
                    return
            self.none.append((w, dict(st.facts)))
            if query is not False:
                self.fail('"None" is printed for a query, or not only for questions', w)
            return
        R = field(v, role)
        loop = R is not None
        if not loop:
            if v[0] == 'phi':
                self.final.setdefault(role, v[2])
                if self.groups is not None and self.groups.get(role) != v[2]:
                    self.fail(f'the {role} printed is not the one kept with the answer', w)
            else:
                if not (role == 'occurrenceTime' and v == ('c', -1)):
                    self.final.setdefault(role, None)
                    self.fail(f'the {role} printed is not the one of the answer', w)
            if role == 'truth':
                self.some.append((w, dict(st.facts)))
                if query is not False:
                    self.fail('the best answer is printed although every match was asked for', w)
            if role == 'occurrenceTime' and any(a[:2] == ('mark', 'shown') and a[2] is not None for a in st.facts):
                s = [slot(a[2])[0] for a in st.facts if a[:2] == ('mark', 'shown') and a[2] is not None]
                if not all(x in LINKS for x in s):
                    self.fail('the occurrence time printed is not the one of the record printed', w)
                return
            if any(a[:2] == ('mark', 'shown') and a[2] is not None for a in st.facts):
                self.fail(f'the {role} printed is not the one of the record printed', w)
            st.facts[('mark', 'shown', None)] = True
            return
        for a in st.facts:
            if a[:2] == ('mark', 'shown') and a[2] != R and not (a[2] is None and slot(R)[0] in LINKS):
                self.fail('an answer mixes the parts of different records', w)
        st.facts[('mark', 'shown', R)] = True
        st.facts[('mark', 'printed', R)] = True
        if role == 'truth':
            if query is not True:
                self.fail('matches are printed which were not asked for', w)
            if not any(o in ('>', '>=') and mentions(y, lambda t: t[:1] == ('arg',)) for _, y, o in self.comparisons(e, st, R)):
                self.fail('a match is printed which is not known to pass the threshold of the query', w)
            self.fits(e, st, R, w, 'printed')

    def query(self, e, st):
        return next(self.known(st, lambda x: x == self.queryarg), None)

    def fits(self, e, st, R, w, verb):
        s, C = slot(R)
        if s is None:
            self.fail(f'what is {verb} is not in a slot of a concept', w)
            return
        if s in TENSES:
            if not self.tenses(st) <= TENSES[s]:
                self.fail(f'a {s} is {verb} for a question of another tense', w)
            if self.missing(st, R) is not False:
                self.fail(f'a {s} is {verb} which is not known to exist', w)
        elif self.copula(st, LINKS[s]) is not True:
            self.fail(f'a record of {s} is {verb} for a question of another kind', w)
        if self.unified(st, R, C if s in TENSES else R) is not True:
            self.fail(f'a record of {s} is {verb} which is not known to match the question', w)

    def on_store(self, e, st, f, ins, path, val, ctx):
        g = self.groups
        if g is None or 'truth' not in g:
            return
        if path in g.values() and not mentions(val, lambda t: t[:1] and t[0] in ('phi',) or field(t, 'truth') is not None) and not any(a[:2] == ('mark', 'took') for a in st.facts):
            self.init[path] = val
        P = g['truth']
        v = val if path == P else e.proj(val, ('fld', P[2])) if P[0] == 'fld' and path == P[1] else None
        if path[0] in ('v', 'fld') and v is None and not mentions(val, lambda t: t[:1] and t[0] in ('phi', 'ld', 'call', 'ret')):
            self.init.setdefault(path, val)
        if v is None:
            return
        R = field(v, 'truth')
        w = e.p.loc(f, ins)
        if R is None:
            if mentions(v, lambda t: t[:1] == ('phi',) or t[0] == 'ld') or any(a[0] == 'mark' and a[1] in ('took', 'search') for a in st.facts):
                self.fail('the truth kept with the answer is not that of a record', w)
            return
        self.n['takes'] += 1
        self.fits(e, st, R, w, 'taken')
        self.better(e, st, R, w)
        for a in [a for a in st.facts if a[:2] == ('mark', 'took')]:
            del st.facts[a]
        st.facts[('mark', 'took', R)] = True

    def better(self, e, st, R, w):
        up = {o for _, y, o in self.comparisons(e, st, R) if self.best(y, st, e)}
        for _, y, o in self.comparisons(e, st, R):
            if self.best(y):
                self.compared.update(x[2] for x in subterms(y) if len(x) == 3 and x[0] == 'phi')
        ok = '>' in up or '>=' in up
        if slot(R)[0] in ('belief_spike', 'predicted_belief'):
            when = set(self.later(e, st, R))
            ok = '>' in up or '==' in up and '>' in when or '>=' in up or '>' in set(self.same(e, st, R)) and '==' in when
        if not ok:
            self.fail(f'a record of {slot(R)[0]} replaces the answer without being known to be better at the time asked for', w)

    def on_backedge(self, e, st, f, ins, body, ctx, live):
        if self.groups is None or 'truth' not in self.groups:
            return
        if ('mark', 'impossible') in st.facts:
            st.facts.pop(('mark', 'impossible'))
            return
        w = e.p.loc(f, ins)
        C, head = self.concept(e, f, body, st)
        if C is None:
            return
        self.consistent(e, st, w)
        for s in list(TENSES) + list(LINKS):
            self.covered(e, st, s, C, w, body, f)
        for a in [a for a in st.facts if a[0] == 'mark' and a[1] in ('took', 'printed', 'shown', 'answering', 'given')]:
            del st.facts[a]

    def concept(self, e, f, body, st):
        """the concept of this iteration: the value all the facts are about"""
        if not any(f.ins[n].k != 'nop' and mentions(tuple(x for x in (f.ins[n].a, f.ins[n].b, f.ins[n].c) if isinstance(x, tuple)), lambda t: t == ('v', 'concepts')) for n in body):
            return None, None
        for a in st.facts:
            for t in subterms(a):
                if len(t) > 1 and t[0] == 'ld' and t[1][0] == 'fld' and t[1][2] == 'address' and mentions(t[1], lambda x: x == ('v', 'concepts')):
                    return ('d', t), None
        return ('d', None), None

    def consistent(self, e, st, w):
        g = self.groups
        cur = {r: e.read(st, p) for r, p in g.items()}
        R = field(cur['truth'], 'truth')
        for r, v in cur.items():
            if r == 'truth':
                continue
            if R is None:
                if field(v, r) is not None:
                    self.fail(f'the {r} of a record is kept with the truth of another', w)
            elif field(v, r) != R:
                if r == 'occurrenceTime' and slot(R)[0] in ('belief',) + tuple(LINKS) and (v[0] == 'phi' or v == ('c', -1)):
                    continue
                self.fail(f'the truth of a record is kept with another {r}', w)
        if R is not None:
            new = {}
            for x in subterms(tuple(st.facts)):
                if len(x) == 3 and x[0] == 'phi' and x[2][0] in ('v', 'fld'):
                    new[x] = e.read(st, x[2])
            m = self.measure(e, R)
            vals = {p: v for p, v in ((p, e.read(st, p)) for p in {x[2] for x in new} | self.compared)}
            self.taken.append((w, new, R, {p for p, v in vals.items() if m(v) or m(('call', 'Truth_Expectation', (v,)))}))

    def covered(self, e, st, s, C, w, body, f):
        """the iteration considered slot s of concept C, or knows why not"""
        c = C[1]
        imp = [self.copula(st, 'IMPLICATION'), self.copula(st, 'TEMPORAL_IMPLICATION')]
        if s in LINKS:
            if self.copula(st, LINKS[s]) is False:
                return
            if c is None:
                self.fail('a concept is passed over', w)
                return
            C2 = C
            if self.unified(st, None, C2, 2) is False:
                return
            if self.scanned(st, s, c):
                return
            if s == 'precondition_beliefs' and imp[0] is True:
                return      # a question has one copula
            if s == 'implication_links' and imp[1] is True:
                return
            self.fail(f'the {s} of a concept are passed over although the question matches', w)
            return
        if imp[1] is True:
            return
        if not self.tenses(st) & TENSES[s]:
            return
        if c is None:
            self.fail('a concept is passed over', w)
            return
        R = ('fld', C, s)
        part = self.unified(st, None, C, 2) if imp[0] is True else None
        if self.unified(st, R, C) is False or part is False or self.missing(st, R) is True:
            return
        self.settled(e, st, R, w)

    def scanned(self, st, s, c):
        return ('mark', 'scanned', s) in st.facts

    def settled(self, e, st, R, w):
        """R was taken, or is known not to be better; and it was printed, or not asked for"""
        s = slot(R)[0]
        self.n['passed over'] += 1
        q = self.query(e, st)
        if q is not False and ('mark', 'printed', R) not in st.facts:
            if not any(o in ('<', '<=') and mentions(y, lambda t: t[:1] == ('arg',)) for _, y, o in self.comparisons(e, st, R)):
                self.fail(f'a matching record of {s} is not printed by a query although it may pass its threshold', w)
        if any(a[:2] == ('mark', 'took') for a in st.facts) and field(e.read(st, self.groups['truth']), 'truth') == R:
            return
        # taken, and replaced within the same iteration by a better one
        down = {o for _, y, o in self.comparisons(e, st, R) if not mentions(y, lambda t: t[:1] == ('arg',))}
        if '<' in down or {'<=', '=='} & down and (s not in ('belief_spike', 'predicted_belief') or '<=' in down and '!=' in down or {'<=', '<', '=='} & set(self.later(e, st, R))):
            return
        if self.replaced(e, st, R):
            return
        self.fail(f'a matching record of {s} is passed over without being known not to be better than the answer kept', w)

    def replaced(self, e, st, R):
        Q = next((a[2] for a in st.facts if a[:2] == ('mark', 'took')), None)
        if Q is None or Q == R:
            return False
        for m, y, o in self.comparisons(e, st, Q):
            if o in ('>', '>=', '==') and self.measure(e, R)(y):
                return True
        return False


class Link(Search):
    """iterations over the links of a concept"""
    def on_backedge(self, e, st, f, ins, body, ctx, live):
        if self.groups is None or 'truth' not in self.groups:
            return
        if st.facts.pop(('mark', 'impossible'), None):
            return
        super().on_backedge(e, st, f, ins, body, ctx, live)
        if any(mentions(tuple(x for x in (f.ins[n].a, f.ins[n].b, f.ins[n].c) if isinstance(x, tuple)), lambda t: t == ('v', 'concepts')) for n in body):
            return
        w = e.p.loc(f, ins)
        Rs = {t for a in st.facts for t in subterms(a) if len(t) == 3 and t[0] == 'idx' and isinstance(t[1], tuple) and t[1][0] == 'fld' and t[1][2] == 'array' and slot(t)[0] in LINKS}
        if not Rs:
            return
        for R in Rs:
            s = slot(R)[0]
            if not mentions(R[2], lambda t: t[:1] == ('phi',) and t[1][1] in body):
                continue
            self.n['links'] += 1
            self.consistent(e, st, w)
            if self.unified(st, R, R) is not False:
                self.settled(e, st, R, w)
        for a in [a for a in st.facts if a[0] == 'mark' and a[1] in ('took', 'printed', 'shown', 'answering', 'given')]:
            del st.facts[a]

    def on_branch(self, e, st, f, ins, v, ctx):
        if not ctx:
            for s in self.heads.get(ins.id, ()):
                st.facts[('mark', 'scanned', s)] = True


def about(i, what):
    return mentions(tuple(x for x in (i.a, i.b, i.c) if isinstance(x, tuple)), what)


def run(ctx, groups):
    p = ctx.prog
    f = p.funcs[FN]
    h = Link(ctx, groups)
    ps = f.params
    call = next(i for i in f.ins if i.k == 'call' and i.b == 'Narsese_Sentence')
    site = ((), call.id)
    h.tense = ('out', site, 3)
    h.queryarg = ('arg', FN, 1, ps[1].split(':')[1])
    red = next((i for i in f.ins if i.k == 'call' and i.b == 'RuleTable_Reduce'), None)
    h.question = ('ret', ((), red.id), 'RuleTable_Reduce') if red is not None else ('out', site, 1)
    printers = {i.b for i in f.ins if i.k == 'call' and isinstance(i.b, str) and i.b in p.funcs and any(j.k == 'call' and j.b == 'Truth_Print' for j in p.funcs[i.b].ins)}
    h.heads = {}
    for L in find_loops(f):
        if not any(about(f.ins[n], lambda t: t == ('v', 'concepts')) for n in L.body):
            for s in LINKS:
                if any(about(f.ins[n], lambda t: t[:1] == ('fld',) and t[-1] == s) for n in L.body):
                    for n in [L.head] + [u for _, (_, _, ts) in L.ivs.items() for u, _, _, _ in ts]:
                        h.heads.setdefault(n, set()).add(s)
    e = Engine(p, ctx.summ, ctx.known, K=4000, hooks=h, inline=printers, relevant=lambda a: True, functional=FUNCTIONAL)
    ex = e.run(FN)
    return h, e, ex


def answers(ctx, rep):
    p = ctx.prog
    f = p.funcs[FN]
    h0, _, _ = run(ctx, None)
    groups = {r: q for r, q in h0.final.items() if q is not None}
    what = 'the answer is the best matching record'
    if 'truth' not in groups or 'term' not in groups:
        for why, w in h0.bad.items():
            rep.ob(False, what, w, why)
        if not h0.bad:
            rep.ob(False, what, where(f), 'no answer kept during the search is printed after it')
        return
    h, e, ex = run(ctx, groups)
    for r in ('truth', 'stamp', 'term', 'creationTime', 'occurrenceTime'):
        rep.ob(r in groups, what, where(f), f'the {r} of the answer is printed' if r in groups else f'the {r} of the answer is not printed', key=f'{r} printed')
    for w, new, R, ps in h.taken:
        if not ps & h.compared:
            h.fail('what later candidates are compared with is not the measure of the answer kept', w)
    # nothing taken <=> None printed
    sentinel(ctx, rep, h, e, groups)
    for st, rv in ex:
        kind = [tv for a, tv in st.facts.items() if a[0] == 'b' and a[1] == '==' and a[3] == ('c', 63) and a[2] == ('out', h.tense[1], 2)]
        if True in kind:
            q = h.query(e, st)
            if q is not True and not (('mark', 'given') in st.facts):
                h.fail('a question is not answered', where(f))
    for why, w in h.bad.items():
        rep.ob(False, what, w, why)
    if not h.bad:
        rep.ob(True, what, where(f), f'{h.n}', key='answers')
    rep.count('takes', h.n['takes'])
    rep.count('candidates_passed', h.n['passed over'])
    rep.count('printed_parts', h.n['prints'])


def sentinel(ctx, rep, h, e, groups):
    what = 'no answer is printed exactly if nothing matched'
    f = ctx.prog.funcs[FN]
    init = {}
    for path, v in h.init.items():
        init[path] = v
    def atoms(facts):
        return {a: tv for a, tv in facts.items() if a[0] != 'mark' and h.best(a) and mentions(a, lambda t: t[:1] == ('phi',) and t[2] in init)}
    def at_start(a):
        m = {x: init[x[2]] for x in subterms(a) if len(x) == 3 and x[0] == 'phi' and x[2] in init}
        return fold(subst(a, m))
    for w, facts in h.none:
        A = atoms(facts)
        ok = [a for a, tv in A.items() if at_start(a) == tv and tv is not None]
        rep.ob(bool(ok), what, w, 'the path knows that the answer is as before the search' if ok else 'the path printing none does not know that nothing was taken', key='none')
        good = False
        for a in ok:
            if all(taken(a, new) == (not A[a]) for _, new, _, _ in h.taken):
                good = True
        if ok:
            rep.ob(good, what, w, 'any record taken changes what is tested' if good else 'none may be printed although a record was taken', key='none taken')
    for w, facts in h.some:
        A = atoms(facts)
        ok = [a for a, tv in A.items() if at_start(a) == (not tv)]
        rep.ob(bool(ok), what, w, 'an answer is printed only after one was taken' if ok else 'an answer may be printed although nothing was taken', key='some')
    rep.ob(bool(h.none), what, where(f), 'none is printed', key='printed')
    # the first candidate is better than nothing
    for path, v in sorted(init.items(), key=str):
        fr, co = const(v, 'frequency'), const(v, 'confidence')
        if path not in h.compared or num(v) is None and (fr is None or co is None) or e.path_type(path) in ('long', 'int'):
            continue
        m = co * (fr - 0.5) + 0.5 if num(v) is None else num(v)
        rep.ob(m < 0.005, what, where(f), f'any record is better than the initial {path[1].split(":")[-1]}' if m < 0.005 else f'a matching record may be worse than the initial value of {path[1].split(":")[-1]}', key=f'{path[1]} initial')


def const(v, n):
    if v[0] == 'agg':
        d = dict(v[2])
        x = d.get(n)
        return float(x[1]) if x is not None and x[0] in ('f', 'c') else None
    return None


def fold(a):
    """truth of an atom over constants, if it is one"""
    if a[0] == 'b':
        x, y = num(a[2]), num(a[3])
        if x is None or y is None:
            return None
        return {'<': x < y, '==': x == y}.get(a[1])
    x = num(a)
    return None if x is None else x != 0


def num(v):
    v = strip(v)
    if v[0] in ('c', 'f'):
        return v[1]
    if v[0] == 'fld' and v[1][0] == 'agg':
        d = dict(v[1][2])
        return num(d[v[2]]) if v[2] in d else None
    return None


def taken(a, new):
    """truth of an atom about the answer after a record was taken"""
    b = subst(a, new)
    if b[0] == 'b' and b[1] in ('==', '<'):
        for x, y in ((b[2], b[3]), (b[3], b[2])):
            c = num(y)
            if c is not None and strip(x)[0] in ('ld', 'fld') and strip(x)[-1 if strip(x)[0] == 'fld' else 1] and mentions(x, lambda t: t[:1] == ('fld',) and t[-1] == 'confidence') and c > 1:
                return False if b[1] == '==' else (x is b[2])
    return fold(b)


def scans(ctx, rep):
    p = ctx.prog
    f = p.funcs[FN]
    what = 'every concept and link is considered'
    n = 0
    for L in find_loops(f):
        if not any(f.ins[u].k != 'nop' for u in L.body):
            continue
        for v, (init, step, tests) in L.ivs.items():
            if not tests:
                continue
            b = tests[0][2]
            items = mentions((b, init or ('c', 0)), lambda t: t[-1:] == ('itemsAmount',))
            if not items and not (b[0] == 'c' and b[1] >= 2 and any(mentions(tuple(x for x in (f.ins[u].a, f.ins[u].b) if isinstance(x, tuple)), lambda t: t[0] == 'idx' and t[1][0] == 'fld' and t[1][2] == 'precondition_beliefs' and t[2] == ('v', v)) for u in L.body)):
                continue
            n += 1
            w = p.loc(f, f.ins[L.head])
            op = tests[0][1]
            if step == 1 or step > 1:
                if init is None or init[0] != 'c':
                    continue
                ok = init[1] <= 0 and step == 1 and op in ('<', '!=') if items else init[1] <= 0 and step == 1 and (op == '<=' and b[1] >= value(ctx, 'OPERATIONS_MAX') or op in ('<', '!=') and b[1] > value(ctx, 'OPERATIONS_MAX'))
            else:
                ok = step == -1 and (op == '>=' and b == ('c', 0) or op in ('>', '!=') and b == ('c', -1))
            rep.ob(ok, what, w, 'all entries' if ok else 'the loop over the entries leaves some out', key=f'{L.head} entries')
            out = [(u, x) for u, x in L.exits if u != tests[0][0] and x not in (tests[0][3],) or (u != tests[0][0])]
            out = [(u, x) for u, x in out if not dies(f, x)]
            rep.ob(not out, what, w, 'ends after the last entry' if not out else f'the search ends early at {p.loc(f, f.ins[out[0][0]])}', key=f'{L.head} end')
            break
    rep.count('scans', n)


def dies(f, x):
    return f.ins[x].k == 'call' and f.ins[x].b in ('abort', 'exit', '__assert_fail')


def tense(ctx, rep):
    """the tense markers of a question select the slots of their time"""
    p = ctx.prog
    fn = 'Narsese_Sentence'
    f = p.funcs.get(fn)
    if f is None:
        return
    what = 'the tense asked for is the one marked'
    P = ('d', ('arg', fn, 3, f.params[3].split(':')[1]))
    class H:
        pass
    seen = {}
    h = Marks(P)
    e = Engine(p, ctx.summ, ctx.known, K=60, hooks=h, relevant=lambda a: mentions(a, lambda t: t[:1] in (('idx',), ('el',))) and a[0] == 'b' and a[1] == '==' and a[3][0] == 'c' and a[3][1] in MARKS)
    e.run(fn)
    for why, w in h.bad.items():
        rep.ob(False, what, w, why)
    rep.count('tense_marks', h.n)
    if not h.bad:
        rep.ob(True, what, where(f), f'{h.n} assignments of the tense', key='tense')


MARKS = {ord('|'): 1, ord('\\'): 2, ord('/'): 3}


class Marks:
    def __init__(self, P):
        self.P, self.bad, self.n = P, {}, 0

    def on_store(self, e, st, f, ins, path, val, ctx):
        if path != self.P or val[0] != 'c' or val[1] == 0:
            return
        self.n += 1
        m = {a[3][1] for a, tv in st.facts.items() if tv is True and a[0] == 'b' and a[1] == '==' and a[3][0] == 'c' and a[3][1] in MARKS}
        if m and not any(MARKS[c] == val[1] for c in m) or not m:
            self.bad[f'tense {val[1]} is set for another marker'] = e.p.loc(f, ins)


def check(ctx):
    rep = Report('C25', ctx, 'Abstract interpretation of the answer search over all paths, one arbitrary iteration per loop: the parts of the answer kept (found from what is printed after the search) always stem from one '
                 'record; a record replaces it only where the path knows that it exists, unifies with the question, is of the tense or kind asked for, and that its expectation (projected to the current time for events) '
                 'is not below that of the answer kept; a matching record is passed over only where the path knows it not to be better. The loops leave no concept or link out and do not end early. '
                 'None is printed exactly on the paths which know the answer to be the initial one. Queries print each matching record above their threshold.',
                 ['Variable_Unify2 decides matching (C13, C14)', 'Truth_Expectation and Truth_Projection are those of C04'])
    p = ctx.prog
    f = p.funcs.get(FN)
    if f is None or not any(i.k == 'call' and i.b == 'Narsese_Sentence' for i in f.ins):
        rep.expect('answer search', 0, 1)
        return rep
    answers(ctx, rep)
    scans(ctx, rep)
    tense(ctx, rep)
    rep.expect('parts of answers printed', rep.counts.get('printed_parts', 0), 1)
    return rep
