"""Term logic of the rule table: a reader of rule patterns, and a decision procedure (truth tables over the statements of one rule,
closed under the laws of the copulas and connectors) for what a truth function licenses."""
import itertools

STMT = {'-->': 'inh', '<->': 'sim', '==>': 'imp', '<=>': 'equ', '|->': 'prop'}
SYM = ('sim', 'equ')


def tokens(s):
    out, i = [], 0
    ops = ['-->', '<->', '==>', '<=>', '|->', '&&', '||', '/1', '/2', '\\1', '\\2']
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
            continue
        for o in ops:
            if s.startswith(o, i):
                out.append(o)
                i += len(o)
                break
        else:
            if c in '<>(){}[]':
                out.append(c)
                i += 1
            elif c.isalnum() or c in '$#?':
                j = i + 1
                while j < len(s) and s[j].isalnum():
                    j += 1
                out.append(s[i:j])
                i = j
            else:
                out.append(c)
                i += 1
    return out


class BadRule(Exception):
    pass


INFIX = ('-->', '<->', '==>', '<=>', '|->', '&&', '||', '&', '|', '-', '~', '*', '.', '/1', '/2', '\\1', '\\2', '/', '+', '=', '!', ';')


def parse(s):
    """pattern -> ('var', n) | ('set', '{'|'[', elems) | (op, X[, Y])"""
    t = tokens(s)
    p = [0]

    def peek():
        return t[p[0]] if p[0] < len(t) else None

    def take(x=None):
        if p[0] >= len(t) or (x is not None and t[p[0]] != x):
            raise BadRule(f'cannot read {s}')
        p[0] += 1
        return t[p[0] - 1]

    def term():
        c = take()
        if c in ('{', '['):
            el = []
            while peek() not in ('}', ']'):
                el.append(term())
            take('}' if c == '{' else ']')
            return ('set', c, tuple(el))
        if c in ('(', '<'):
            end = ')' if c == '(' else '>'
            if peek() in INFIX:
                op = take()
                a = term()
                if peek() == end:
                    take()
                    return (op, a)
                b = term()
                take(end)
                return (op, a, b)
            a = term()
            if peek() == end:
                take()
                return a
            op = take()
            b = term()
            take(end)
            return (op, a, b)
        if c[0].isalnum() or c[0] in '$#?':
            return ('var', c)
        raise BadRule(f'cannot read {s} at {c}')
    r = term()
    if p[0] != len(t):
        raise BadRule(f'cannot read {s}')
    return r


def variables(t):
    if t[0] == 'var':
        return {t[1]}
    if t[0] == 'set':
        return set().union(*map(variables, t[2])) if t[2] else set()
    return set().union(*map(variables, t[1:]))


def show(t):
    if t[0] == 'var':
        return t[1]
    if t[0] == 'set':
        return t[1] + ' '.join(map(show, t[2])) + ('}' if t[1] == '{' else ']')
    return '(' + t[0] + ' ' + ' '.join(map(show, t[1:])) + ')'


# formulas: ('at', x) | ('not', f) | ('and', f, g) | ('or', f, g) | True | False
def NOT(f):
    return ('not', f)


def AND(*fs):
    r = True
    for f in fs:
        r = f if r is True else ('and', r, f)
    return r


def OR(*fs):
    r = False
    for f in fs:
        r = f if r is False else ('or', r, f)
    return r


def IMP(a, b):
    return OR(NOT(a), b)


def elems(t):
    """elements of a set, '.' being the collapsed separator of nested elements"""
    out = []
    for e in t[2]:
        out += flat(e)
    return out


def flat(e):
    if e[0] == '.':
        return [y for x in e[1:] for y in flat(x)]
    return [e]


class Theory:
    def __init__(self):
        self.terms = {}    # base terms occurring in inheritance atoms
        self.rels = set()
        self.opaque = set()

    def base(self, t):
        if t[0] == 'set' and len(elems(t)) == 1:
            t = ('set', t[1], tuple(elems(t)))
        if t[0] not in ('var', 'set', '+', '=') and not (t[0] in ('-->', '==>', '&&', '||', '!', '<->', '<=>')):
            raise BadRule('unexpected term ' + show(t))
        self.terms[t] = 1
        return t

    def inh(self, x, y):
        if x[0] == '*' and y[0] == '*' and len(x) == len(y) == 3:
            return AND(self.inh(x[1], y[1]), self.inh(x[2], y[2]))
        # operands which are compound on the subject side
        if x[0] == '|' or (x[0] == 'set' and len(elems(x)) > 1 and x[1] == '{'):
            ps = x[1:] if x[0] == '|' else [('set', '{', (e,)) for e in elems(x)]
            return AND(*[self.inh(q, y) for q in ps])
        if x[0] == '&' or (x[0] == 'set' and len(elems(x)) > 1 and x[1] == '['):
            ps = x[1:] if x[0] == '&' else [('set', '[', (e,)) for e in elems(x)]
            return OR(*[self.inh(q, y) for q in ps])
        if x[0] == '~':
            return AND(self.inh(x[1], y), NOT(self.inh(x[2], y)))
        if y[0] == '&' or (y[0] == 'set' and len(elems(y)) > 1 and y[1] == '['):
            ps = y[1:] if y[0] == '&' else [('set', '[', (e,)) for e in elems(y)]
            return AND(*[self.inh(x, q) for q in ps])
        if y[0] == '|' or (y[0] == 'set' and len(elems(y)) > 1 and y[1] == '{'):
            ps = y[1:] if y[0] == '|' else [('set', '{', (e,)) for e in elems(y)]
            return OR(*[self.inh(x, q) for q in ps])
        if y[0] == '-':
            return AND(self.inh(x, y[1]), NOT(self.inh(x, y[2])))
        # relations and their images
        if x[0] == '*':
            return self.rel('ext', x[1], x[2], y)
        if y[0] in ('/1', '/2'):
            return self.rel('ext', x, y[2], y[1]) if y[0] == '/1' else self.rel('ext', y[2], x, y[1])
        if y[0] == '*':
            return self.rel('int', y[1], y[2], x)
        if x[0] in ('\\1', '\\2'):
            return self.rel('int', y, x[2], x[1]) if x[0] == '\\1' else self.rel('int', x[2], y, x[1])
        return ('at', ('inh', self.base(x), self.base(y)))

    def rel(self, kind, a, b, r):
        a, b, r = self.base(a), self.base(b), self.base(r)
        self.rels.add((kind, r))
        return ('at', (kind, a, b, r))

    def st(self, t):
        """statement -> formula"""
        o = t[0]
        if o == '-->':
            return self.inh(t[1], t[2])
        if o == '<->':
            return AND(self.inh(t[1], t[2]), self.inh(t[2], t[1]))
        if o == '|->':
            return ('at', ('prop', t))
        if o == '==>':
            return IMP(self.st(t[1]), self.st(t[2]))
        if o == '<=>':
            a, b = self.st(t[1]), self.st(t[2])
            return AND(IMP(a, b), IMP(b, a))
        if o == '&&':
            return AND(self.st(t[1]), self.st(t[2]))
        if o == '||':
            return OR(self.st(t[1]), self.st(t[2]))
        if o == '!':
            return NOT(self.st(t[1]))
        if o == 'var':
            return ('at', ('var', t))
        raise BadRule('not a statement: ' + show(t))

    def laws(self):
        """ground laws over the base terms, as clauses (list of (atom, polarity))"""
        for t in list(self.terms):
            if t[0] == 'set' and len(elems(t)) == 1:
                self.terms[elems(t)[0]] = 1
        T = sorted(self.terms, key=str)
        cl = []

        def inh(a, b):
            return ('inh', a, b)
        for a in T:
            cl.append([(inh(a, a), True)])
            for b in T:
                for c in T:
                    if a != b and b != c and a != c:
                        cl.append([(inh(a, b), False), (inh(b, c), False), (inh(a, c), True)])
        for a in T:
            for b in T:
                if a == b:
                    continue
                if b[0] == 'set' and b[1] == '{':      # nothing below an instance but itself
                    cl.append([(inh(a, b), False), (inh(b, a), True)])
                if a[0] == 'set' and a[1] == '[':
                    cl.append([(inh(a, b), False), (inh(b, a), True)])
                if a[0] == 'set' and b[0] == 'set' and a[1] == b[1]:
                    x, y = elems(a)[0], elems(b)[0]
                    for p, q in ((x, y), (y, x)):
                        cl.append([(inh(a, b), False), (inh(b, a), False), (inh(p, q), True)])
                    for p, q in ((a, b), (b, a)):
                        cl.append([(inh(x, y), False), (inh(y, x), False), (inh(p, q), True)])
                # a statement one of whose sides is used as an event itself
                if a[0] == 'var' and b[0] == 'var':
                    cl.append([(('var', a), False), (inh(a, b), False), (('var', b), True)])
        for kind, r in sorted(self.rels, key=str):
            for a in T:
                for b in T:
                    for c in T:
                        i1 = inh(c, a) if kind == 'ext' else inh(a, c)
                        if a != c:
                            cl.append([((kind, a, b, r), False), (i1, False), ((kind, c, b, r), True)])
                            cl.append([((kind, b, a, r), False), (i1, False), ((kind, b, c, r), True)])
                        if r[0] in ('+', '='):
                            cl.append([((kind, a, b, r), False), ((kind, b, c, r), False), ((kind, a, c, r), True)])
                    if r[0] == '=' and a != b:
                        cl.append([((kind, a, b, r), False), ((kind, b, a, r), True)])
        return cl


def sat(fs, clauses):
    """is the conjunction of the formulas satisfiable together with the clauses (plain DPLL on a Tseitin encoding)"""
    n = [0]
    ids = {}
    C = []

    def atom(a):
        if a not in ids:
            n[0] += 1
            ids[a] = n[0]
        return ids[a]

    def lit(f):
        if f is True or f is False:
            n[0] += 1
            C.append((n[0] if f else -n[0],))
            return n[0]
        if f[0] == 'at':
            return atom(f[1])
        if f[0] == 'not':
            return -lit(f[1])
        a, b = lit(f[1]), lit(f[2])
        n[0] += 1
        v = n[0]
        if f[0] == 'and':
            C.extend([(-v, a), (-v, b), (v, -a, -b)])
        else:
            C.extend([(v, -a), (v, -b), (-v, a, b)])
        return v
    for f in fs:
        C.append((lit(f),))
    for c in clauses:
        C.append(tuple(atom(a) if pol else -atom(a) for a, pol in c))

    occ = {}
    for i, c in enumerate(C):
        for l in c:
            occ.setdefault(l, []).append(i)

    def solve(asg):
        def assign(l, asg):
            todo = [l]
            while todo:
                l = todo.pop()
                if asg.get(abs(l)) is not None:
                    if asg[abs(l)] != (l > 0):
                        return False
                    continue
                asg[abs(l)] = l > 0
                for i in occ.get(-l, ()):
                    free = None
                    cnt = 0
                    ok = False
                    for x in C[i]:
                        v = asg.get(abs(x))
                        if v is None:
                            cnt += 1
                            free = x
                        elif v == (x > 0):
                            ok = True
                            break
                    if ok:
                        continue
                    if cnt == 0:
                        return False
                    if cnt == 1:
                        todo.append(free)
            return True
        stack = [(dict(asg), None)]
        while stack:
            a, l = stack.pop()
            if l is not None and not assign(l, a):
                continue
            # an open clause
            pick = None
            for c in C:
                if any(a.get(abs(x)) == (x > 0) for x in c):
                    continue
                fr = [x for x in c if a.get(abs(x)) is None]
                if not fr:
                    pick = 0
                    break
                if pick is None or len(fr) < len(pick):
                    pick = fr
                    if len(fr) == 1:
                        break
            if pick == 0:
                continue
            if pick is None:
                return True
            x = pick[0]
            stack.append((dict(a), -x))
            stack.append((dict(a), x))
        return False
    return solve({})


class Logic:
    """premises p1[, p2] and conclusion c of one rule"""
    def __init__(self, c, p1, p2=None, extra=()):
        self.T = Theory()
        self.c, self.p1 = self.T.st(c), self.T.st(p1)
        self.p2 = self.T.st(p2) if p2 is not None else None
        self.extra = [self.T.st(x) for x in extra]
        self.laws = self.T.laws()

    def follows(self, concl, *prem):
        return not sat(list(prem) + [NOT(concl)], self.laws)

    def possible(self, *prem):
        return sat(list(prem), self.laws)


def reverse(c):
    return (c[0], c[2], c[1])


def frequency_relation(sign):
    def chk(c, p1, p2):
        if p1[0] != '|->' or p2[0] != '|->' or p1[2] != p2[2] or p1[2][0] != 'set' or len(p1[2][2]) != 1:
            return 'needs two premises about the same property'
        if c[0] != '-->' or c[1] != ('*', p1[1], p2[1]):
            return 'the relation must hold between the subject of the first and the subject of the second premise'
        if c[2] != (sign, p1[2][2][0]):
            return f'the relation must be the ({sign} ..) of the compared property'
    return chk


def licensed(tf, c, p1, p2):
    """None if the truth function (with p1's truth as its first argument) is licensed for p1[, p2] |- c, else the reason it is not"""
    try:
        vs = variables(c) - variables(p1) - (variables(p2) if p2 else set())
        if vs:
            return f'{", ".join(sorted(vs))} in the conclusion but in no premise'
        if tf in ('Truth_FrequencyGreater', 'Truth_FrequencyEqual'):
            if p2 is None:
                return 'a single premise'
            return frequency_relation('+' if tf.endswith('Greater') else '=')(c, p1, p2)
        single = ('Truth_StructuralIntersection', 'Truth_StructuralDeduction', 'Truth_StructuralDeductionNegated', 'Truth_Negation')
        if (tf in single) != (p2 is None):
            return f'{tf} is for {"one premise" if tf in single else "two premises"}'
        L = Logic(c, p1, p2, [reverse(c)] if tf == 'Truth_Exemplification' and len(c) == 3 and c[0] in STMT else [])
    except BadRule as e:
        return str(e)
    F, C, P1, P2 = L.follows, L.c, L.p1, L.p2
    csym = c[0] in ('<->', '<=>')
    if csym and tf not in ('Truth_Comparison', 'Truth_Resemblance', 'Truth_Intersection', 'Truth_StructuralIntersection', 'Truth_Analogy'):
        return f'a symmetric conclusion from {tf}'
    if p2 is None:
        if tf == 'Truth_StructuralIntersection':
            return None if F(C, P1) and F(P1, C) else 'premise and conclusion are not equivalent'
        if tf == 'Truth_StructuralDeduction':
            if not F(C, P1):
                return 'the conclusion does not follow from the premise'
            return 'premise and conclusion are equivalent' if F(P1, C) else None
        if tf == 'Truth_StructuralDeductionNegated':
            return None if F(NOT(C), P1) and L.possible(P1) else 'the negated conclusion does not follow from the premise'
        if tf == 'Truth_Negation':
            return None if F(NOT(C), P1) and F(C, NOT(P1)) else 'the conclusion is not the negated premise'
        return f'unknown truth function {tf}'
    s1, s2 = p1[0] in ('<->', '<=>'), p2[0] in ('<->', '<=>')
    both = F(C, P1, P2)
    if tf == 'Truth_Deduction':
        if not both:
            return 'the conclusion does not follow from the premises'
        if s1 or s2:
            return 'deduction from a symmetric premise (analogy or resemblance is licensed)'
        if F(C, P1) or F(C, P2):
            return 'one premise alone gives the conclusion'
        return 'the conclusion gives back both premises (intersection is licensed)' if F(P1, C) and F(P2, C) else None
    if tf == 'Truth_Analogy':
        if not s2:
            return "the second argument's premise is not symmetric"
        if s1:
            return 'both premises symmetric (resemblance is licensed)'
        if not both:
            return 'the conclusion does not follow from the premises'
        return None if F(P1, C, P2) else 'the conclusion is not the first premise with the similar terms exchanged'
    if tf == 'Truth_Resemblance':
        if not (s1 and s2 and csym):
            return 'resemblance needs two symmetric premises and a symmetric conclusion'
        return None if both else 'the conclusion does not follow from the premises'
    if tf == 'Truth_Intersection':
        return None if both and F(P1, C) and F(P2, C) else 'the conclusion is not equivalent to both premises together'
    if tf == 'Truth_Union':
        ok = F(C, P1) and F(C, P2) and F(NOT(C), NOT(P1), NOT(P2))
        return None if ok else 'the conclusion is not equivalent to at least one premise'
    if tf == 'Truth_Difference':
        ok = F(C, P1, NOT(P2)) and F(P1, C) and F(NOT(P2), C) and L.possible(C)
        return None if ok else 'the conclusion is not equivalent to the first premise without the second'
    if tf in ('Truth_Abduction', 'Truth_Induction'):
        gate, pos = (P1, P2) if tf == 'Truth_Abduction' else (P2, P1)
        which = 'second' if tf == 'Truth_Abduction' else 'first'
        if not F(pos, C, gate):
            return f"the conclusion together with the other premise does not explain the premise which is the {which} argument"
        if F(P1, C) or F(P2, C) or F(pos, gate):
            return 'the conclusion contains a premise, or a premise the other one'
        return None
    if tf == 'Truth_Exemplification':
        if not L.extra:
            return 'the conclusion is no statement between two terms'
        if csym or s1 or s2:
            return 'exemplification with a symmetric copula'
        if not F(L.extra[0], P1, P2) or F(L.extra[0], P1) or F(L.extra[0], P2):
            return 'the conclusion is not the reversed chain of the premises'
        return None
    if tf == 'Truth_Comparison':
        if not csym:
            return 'comparison gives a symmetric conclusion'
        return None if F(P1, C, P2) and F(P2, C, P1) and not (both and c[0] == '<->') else 'the compared terms are not alike towards a shared term'
    if tf.startswith('Truth_Decompose') and len(tf) == len('Truth_DecomposePNN'):
        a, b, r = tf[-3:]
        l1, l2, lc = P1 if a == 'P' else NOT(P1), P2 if b == 'P' else NOT(P2), C if r == 'P' else NOT(C)
        if not L.possible(l1, l2):
            return 'its premises cannot hold that way'
        if not F(lc, l1, l2):
            return f'from the premises being {a},{b} does not follow the conclusion being {r}'
        return 'one premise alone gives the conclusion' if F(lc, l1) or F(lc, l2) else None
    return f'no licence known for {tf}'


def same_meaning(a, b):
    """None if two patterns mean the same, else why not"""
    try:
        if variables(b) - variables(a):
            return f'{", ".join(sorted(variables(b) - variables(a)))} only in the replacement'
        L = Logic(b, a)
    except BadRule as e:
        return str(e)
    return None if L.follows(L.c, L.p1) and L.follows(L.p1, L.c) else 'pattern and replacement differ in meaning'
