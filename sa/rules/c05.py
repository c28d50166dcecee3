"""C05: the generated rule table contains only valid NAL rules.

The rule table (RuleTable.c, generated afresh from the current sources) is read back rule by rule from its control flow: the pattern
each premise is matched against, the conclusion that is built, the truth function and the order of its arguments.  Each rule so
obtained must (a) be the rule written in the source and (b) be licensed: a truth-table decision over the laws of copulas and
connectors says what the truth function needs (sa/termlogic.py).  Cycle_SpecialInferences is interpreted abstractly over term patterns (value summaries per path, no execution)
and its conclusions judged by the same licences.  Callers must hand over each truth together with its own term."""
import copy
from ..core import *
from .. import termlogic as T
from .c20 import Defs

BIN = 1 << 31


def lits(D, e):
    e = uncast(D.x(e))
    if e[0] == 'a' and e[1][0] == 'strlv':
        return e[1][1]
    if e[0] == 'c':
        return e[1]
    return None


def written(p, f):
    """the rules handed to the generator, in order"""
    D = Defs(f)
    ap, red = [], []
    for i in order(f):
        if i.k == 'call' and i.b == 'NAL_GenerateRule':
            a = [lits(D, x) for x in i.c]
            if len(a) != 7 or not isinstance(a[0], str) or not isinstance(a[2], str) or not isinstance(a[3], str) or not all(isinstance(x, int) for x in a[4:]):
                raise BrokenAnalysis(f'a rule of the generator is not a constant at line {i.line}')
            ap.append((i, a))
        if i.k == 'call' and i.b == 'NAL_GenerateReduction':
            a = [lits(D, x) for x in i.c]
            if len(a) != 2 or not all(isinstance(x, str) for x in a):
                raise BrokenAnalysis(f'a reduction of the generator is not a constant at line {i.line}')
            red.append((i, a))
    return ap, red


def order(f):
    """instructions along the (branch-free) generator function"""
    out, n, seen = [], f.entry, set()
    while n is not None and n not in seen:
        seen.add(n)
        i = f.ins[n]
        out.append(i)
        n = i.succ[0] if i.succ else None
    if any(i.k == 'br' for i in out):
        raise BrokenAnalysis('the rule generator branches')
    return out


def atompos(e):
    """(term variable, position) of X.atoms[k]"""
    e = uncast(e)
    if e[0] == 'idx' and uncast(e[2])[0] == 'c' and e[1][0] == 'fld' and e[1][2] == 'atoms':
        return e[1][1], uncast(e[2])[1]
    return None


class Rule:
    def __init__(self):
        self.pat = {1: {}, 2: {}}      # premise -> position -> ('atom', n) | ('var', n)
        self.bound = {}
        self.double = None
        self.concl = {}
        self.tf = self.args = None
        self.ops = set()
        self.bad = []
        self.start = self.end = None
        self.outcall = None


def read_rule(f, n, exitn, reduce):
    """follow the success path of the rule starting at n"""
    R = Rule()
    R.start = n
    pre = f.name + ':'
    val = {}                # variable -> what it holds
    fails = set()
    steps = 0
    while True:
        steps += 1
        if steps > 4000:
            raise BrokenAnalysis(f'{f.name}: rule at line {f.ins[R.start].line} has no end')
        i = f.ins[n]

        def ev(e):
            e = uncast(e)
            if e[0] == 'v' and e[1] in val:
                return val[e[1]]
            if e[0] == 'a':
                return ev(e[1])
            return e

        def sub(e):
            """index of substitutions[..]"""
            e = uncast(e)
            if e[0] == 'a':
                e = e[1]
            if e[0] == 'idx' and e[1][0] == 'v' and uncast(e[2])[0] == 'c':
                return (e[1][1], uncast(e[2])[1])
            return None

        def premise(e):
            e = uncast(e)
            if e[0] == 'a':
                e = e[1]
            if e[0] == 'v' and e[1] in (pre + 'term1', pre + 'term2'):
                return 1 if e[1].endswith('1') else 2
            return None
        if i.k in ('decl', 'nop'):
            n = i.succ[0]
            continue
        if i.k == 'set':
            s = sub(i.a)
            if s and not atompos(i.a):
                v = ev(i.b)
                if v[0] == 'sub':
                    R.bound.setdefault(s[1], []).append(v)
                    val[('s', s[1])] = v
                else:
                    R.bad.append(f'line {i.line}: a rule variable is bound to something that is no part of a premise')
            elif atompos(i.a):
                b, k = atompos(i.a)
                if b[0] != 'v':
                    R.bad.append(f'line {i.line}: writes into {show(b)}')
                elif uncast(i.b)[0] != 'c':
                    R.bad.append(f'line {i.line}: not a constant atom')
                else:
                    R.concl[k] = ('atom', uncast(i.b)[1])
                    val.setdefault(b[1], ('concl',))
            elif i.a[0] == 'v':
                e = uncast(i.b)
                if e[0] == 'arr':
                    R.bound, R.fresh = {}, True
                elif e[0] == 'agg':
                    val[i.a[1]] = ('fresh',)
                    R.concl = {}
                else:
                    val[i.a[1]] = ev(e)
            n = i.succ[0]
            continue
        if i.k == 'call':
            if i.b == 'Term_ExtractSubterm' and premise(i.c[0]) and uncast(i.c[1])[0] == 'c':
                val[i.a[1]] = ('sub', premise(i.c[0]), uncast(i.c[1])[1])
            elif i.b == 'Term_Equal':
                a, b = sub(i.c[0]), sub(i.c[1])
                x, y = ev(i.c[0]), ev(i.c[1])
                s = a or b
                o = y if a else x
                val[i.a[1]] = ('equal', s[1] if s else None, o)
            elif i.b == 'Narsese_copulaEquals':
                ap = atompos(i.c[0])
                val[i.a[1]] = ('cop', ev(ap[0]) if ap else None, ap[1] if ap else None, uncast(i.c[1]))
            elif i.b == 'Narsese_isOperation':
                val[i.a[1]] = ('isop', ev(i.c[0]))
            elif i.b == 'Term_OverrideSubterm':
                s = sub(i.c[2])
                k = uncast(i.c[1])
                if s is None or k[0] != 'c':
                    R.bad.append(f'line {i.line}: conclusion part is no rule variable')
                else:
                    R.concl[k[1]] = ('var', s[1])
                if i.a is None:
                    R.bad.append(f'line {i.line}: a failed construction is not noticed')
                else:
                    val[i.a[1]] = ('over',)
            elif i.b.startswith('Truth_'):
                R.tf = i.b
                R.args = []
                for x in i.c:
                    x = uncast(x)
                    R.args.append({pre + 'truth1': 1, pre + 'truth2': 2}.get(x[1] if x[0] == 'v' else None))
                val[i.a[1]] = ('truth',)
            elif i.b == 'RuleTable_Reduce':
                val[i.a[1]] = ('concl',)
            elif i.b == 'NAL_DerivedEvent':
                R.outcall = i
                R.cterm, R.ctruth = ev(i.c[0]), ev(i.c[2])
                R.end = i.succ[0]
                R.fails = fails
                return R
            n = i.succ[0]
            continue
        if i.k == 'ret':
            if not reduce:
                return None
            v = ev(i.a) if i.a else None
            R.ret, R.fails, R.end = i.a, fails, None
            if v is not None and premise(i.a) == 1 and not R.concl and not R.pat[1]:
                return None           # the unreduced term
            return R
        if i.k == 'br':
            e = uncast(i.a)
            t, fl = i.succ
            neg = False
            while e[0] == 'u' and e[1] == '!':
                e, neg = uncast(e[2]), not neg
            if neg:
                t, fl = fl, t
            if e[0] == 'v' and e[1] == pre + 'doublePremise':
                # decided by the other tests of the rule: which way leads on?
                go = t if not only_exit(f, t, fl) else fl
                R.double = go == t
                fails.add(fl if go == t else t)
                n = go
                continue
            if e[0] == 'v' and e[1] in val and val[e[1]][0] in ('equal', 'cop', 'isop', 'over', 'truthy'):
                v = val[e[1]]
                if v[0] == 'equal':
                    if v[2][0] != 'sub' or v[1] is None:
                        R.bad.append(f'line {i.line}: compares something that is no part of a premise')
                    R.bound.setdefault(v[1], []).append(('eq',) + v[2][1:])
                    n = t
                    fails.add(fl)
                elif v[0] == 'isop':
                    R.ops.add(v[1])
                    n = t
                    fails.add(fl)
                elif v[0] == 'over':
                    n = t
                    fails.add(fl)
                else:
                    if not (v[1] and v[1][0] == 'sub' and v[2] == 0):
                        R.bad.append(f'line {i.line}: unexpected copula test')
                    else:
                        R.pat[v[1][1]].setdefault(v[1][2], None)
                        R.__dict__.setdefault('noterm', set()).add((v[1][1], v[1][2], v[3]))
                    n = fl
                    fails.add(t)
                continue
            if e[0] == 'b' and e[1] in ('!=', '=='):
                a, b = uncast(e[2]), uncast(e[3])
                if a[0] == 'c':
                    a, b = b, a
                eqs, ne = (t, fl) if e[1] == '==' else (fl, t)
                ap = atompos(a)
                if ap and b[0] == 'c' and premise(ap[0]):
                    R.pat[premise(ap[0])][ap[1]] = ('atom', b[1])
                    n = eqs
                    fails.add(ne)
                    continue
                if ap and b == ('c', 0) and sub(ap[0]):
                    s = sub(ap[0])[1]
                    # bound already? then the equality test follows
                    n = ne if any(x[0] == 'sub' for x in R.bound.get(s, ())) else eqs
                    continue
            R.bad.append(f'line {i.line}: unexpected test {show(i.a)}')
            R.fails = fails
            return R


def only_exit(f, n, other):
    """does the way from n lead straight to another rule's doublePremise test (or out) without matching anything"""
    for _ in range(6):
        i = f.ins[n]
        if i.k == 'ret':
            return True
        if i.k in ('nop', 'decl') or (i.k == 'set' and i.b is not None and uncast(i.b)[0] in ('arr', 'agg')):
            n = i.succ[0]
            continue
        e = uncast(i.a) if i.k == 'br' else None
        while e and e[0] == 'u':
            e = uncast(e[2])
        return bool(e and e[0] == 'v' and e[1].endswith(':doublePremise'))
    return False


def skip(f, n):
    while f.ins[n].k in ('nop',):
        n = f.ins[n].succ[0]
    return n


class Names:
    """atom number -> written operator, found out by comparing with the written rules and kept unique"""
    def __init__(self):
        self.of, self.num = {}, {}

    def is_(self, n, name):
        name = '<->' if name == '=' else name     # the input language writes the symbol of <-> as =
        if self.of.setdefault(n, name) != name or self.num.setdefault(name, n) != n:
            return False
        return True


def encode(t, pos, out):
    """positions of a written pattern: position -> ('op', name) | ('var', name)"""
    if t[0] == 'var':
        out[pos] = ('op' if not t[1][0].isupper() else 'var', t[1])
    elif t[0] == 'set':
        out[pos] = ('op', t[1])
        el = t[2]
        if len(el) == 1:
            encode(el[0], 2 * pos + 1, out)
            out[2 * pos + 2] = ('op', '@')
        elif len(el) == 2:
            encode(el[0], 2 * pos + 1, out)
            encode(el[1], 2 * pos + 2, out)
        else:
            encode(('.',) + el[:-1] if len(el) == 3 else ('set', t[1], el[:-1]), 2 * pos + 1, out)
            encode(el[-1], 2 * pos + 2, out)
    else:
        out[pos] = ('op', t[0])
        encode(t[1], 2 * pos + 1, out)
        if len(t) > 2:
            encode(t[2], 2 * pos + 2, out)
        else:
            out[2 * pos + 2] = ('op', '@')
    return out


def decode(m, pos=0):
    """position map with named operators -> pattern"""
    if pos not in m:
        raise T.BadRule(f'nothing at position {pos}')
    k, x = m[pos]
    l, r = 2 * pos + 1, 2 * pos + 2
    if k == 'var':
        return ('var', x)
    if x in ('{', '['):
        if m.get(r) == ('op', '@'):
            return ('set', x, (decode(m, l),))
        return ('set', x, (decode(m, l), decode(m, r)))
    if l not in m:
        return ('var', x)
    if m.get(r) == ('op', '@'):
        return (x, decode(m, l))
    return (x, decode(m, l), decode(m, r))


def match(R, names, vnames, want, have, what):
    """compare the positions of a generated pattern with the written one; returns the named positions"""
    out = {}
    for k in sorted(set(want) | set(have)):
        w, h = want.get(k), have.get(k)
        if w is None or h is None:
            return None, f'{what}: position {k} is {"not in the rule as written" if w is None else "left out"}'
        tab = names if h[0] == 'atom' else vnames
        if (h[0] == 'atom') != (w[0] == 'op'):
            return None, f'{what}: position {k} is {"an operator" if h[0] == "atom" else "a variable"}, written {w[1]}'
        if not tab.is_(h[1], w[1]):
            return None, f'{what}: position {k} stands for {tab.of.get(h[1])}, written {w[1]}'
        out[k] = w
    return out, None


def patterns(R, prem):
    """position -> ('atom'|'var', n) of a premise; every occurrence of a variable must be bound or compared"""
    out = {k: v for k, v in R.pat[prem].items() if v}
    for s, uses in R.bound.items():
        for u in uses:
            if u[1] == prem:
                out[u[2]] = ('var', s)
    return out


def table(ctx, rep, p, fname, rules, names, reduce):
    f = p.funcs.get(fname)
    if f is None:
        raise BrokenAnalysis(f'no {fname} in the generated rule table')
    n = skip(f, f.entry)
    got = []
    while n is not None:
        i = f.ins[n]
        if i.k in ('decl', 'nop') or (i.k == 'set' and uncast(i.b)[0] in ('c', 'zero')):
            n = i.succ[0]
            continue
        if i.k == 'ret':
            break
        R = read_rule(f, n, None, reduce)
        if R is None:
            break
        if not reduce and R.outcall is None or reduce and not hasattr(R, 'ret'):
            rep.ob(False, 'the generated rule is a match of the premises followed by a conclusion', f'{fname} rule {len(got) + 1}', '; '.join(R.bad[:3]))
            return
        got.append(R)
        if reduce:
            outs = {skip(f, x) for x in R.fails}
            if len(outs) != 1:
                rep.ob(False, 'a rule that does not match leads to the next rule', f'{fname} rule {len(got)}', f'{len(outs)} different ways out', None)
            n = min(outs) if outs else None
        else:
            outs = {skip(f, x) for x in R.fails} | {skip(f, R.end)}
            rep.ob(len(outs) == 1, 'after a rule, matching or not, the next rule is tried', f'{fname} rule {len(got)}', f'{len(outs)} different ways out' if len(outs) != 1 else '', f'next|{fname}|{len(got)}')
            n = skip(f, R.end)
    rep.ob(len(got) == len(rules), 'every rule written is in the generated table and no other', fname, f'{len(rules)} written, {len(got)} generated')
    extra = None
    for idx, (R, (ins, w)) in enumerate(zip(got, rules)):
        text = f'{w[0]}' + (f', {w[1]}' if not reduce and w[1] else '') + f' |- {w[1] if reduce else w[2]}' + ('' if reduce else f' {w[3]}')
        where = f'src/NAL.h rule {idx + 1} of {fname} ({text})'
        key = f'{"reduction" if reduce else "rule"}|{text}|{0 if reduce else w[5]}'
        try:
            prem = [T.parse(w[0])] + ([T.parse(w[1])] if not reduce and w[4] and w[1] else [])
            con = T.parse(w[1] if reduce else w[2])
        except T.BadRule as e:
            rep.ob(False, 'the rule is readable', where, str(e), key)
            continue
        bad = list(R.bad)
        vn = Names()
        named = []
        for j, t in enumerate(prem):
            m, err = match(R, names, vn, encode(t, 0, {}), patterns(R, j + 1), f'premise {j + 1}')
            if err:
                bad.append(err)
            named.append(m)
        if patterns(R, 2) and len(prem) == 1:
            bad.append('a single premise rule looks at a second premise')
        for s, uses in R.bound.items():
            if len(uses) > 1 and len([u for u in uses if u[0] == 'eq']) < len(uses) // 2:
                bad.append('not every repetition of a variable is compared')
            sub_ = [u for u in uses if u[0] == 'sub']
            eq = {u[1:] for u in uses if u[0] == 'eq'}
            for u in sub_[1:]:
                if u[1:] not in eq:
                    bad.append(f'position {u[2]} of premise {u[1]} may differ from the other occurrences of {vn.of.get(s)}')
            nt = {(a, b) for a, b, _ in getattr(R, 'noterm', ())}
            for u in sub_:
                if u[1:] not in nt:
                    bad.append(f'position {u[2]} of premise {u[1]} may be the end mark of a set')
            if (vn.of.get(s) or '').startswith('Op') and not any(u in R.ops for u in sub_):
                bad.append(f'{vn.of.get(s)} may be no operation')
        cm, err = match(R, names, vn, encode(con, 0, {}), R.concl, 'conclusion')
        if err:
            bad.append(err)
        if R.double is not None and not reduce and R.double != (len(prem) == 2):
            bad.append(f'applied to {"two premises" if R.double else "one premise"}')
        if R.double is None and not reduce:
            bad.append('applied whatever the number of premises is')
        if not reduce:
            if R.cterm is None or R.cterm[0] not in ('concl', 'fresh'):
                bad.append('the derived term is not the conclusion built')
            if R.ctruth is None or R.ctruth[0] != 'truth' or R.tf != w[3] or len(R.args) != 2 or None in R.args or len(set(R.args)) != 2:
                bad.append(f'the truth is {R.tf}({R.args}), written {w[3]}')
            o = R.outcall
            if o is not None:
                rest = [uncast(x) for j, x in enumerate(o.c) if j not in (0, 2, 10)]
                if extra is None:
                    extra = rest
                if rest != extra:
                    bad.append('stamp, time or priority differ from the other rules')
                vi = uncast(o.c[10]) if len(o.c) > 10 else None
                if vi != ('c', w[6]):
                    bad.append('variable introduction differs from what is written')
        rep.ob(not bad, 'the generated rule matches, builds and weighs what is written', where, '; '.join(bad[:3]), 'table ' + key)
        rep.count('reductions' if reduce else 'rules')
        if bad or not all(named) or cm is None:
            continue
        try:
            P = [decode(m) for m in named]
            C = decode(cm)
            if reduce:
                why = T.same_meaning(P[0], C)
            else:
                P = [P[a - 1] if a - 1 < len(P) else None for a in R.args]
                if P[0] is None:
                    why = 'the first argument is the truth of a missing premise'
                else:
                    why = T.licensed(R.tf, C, P[0], P[1])
        except T.BadRule as e:
            why = str(e)
        rep.ob(why is None, 'a reduction keeps the meaning of the term' if reduce else 'the truth function is licensed for the arrangement of copulas and shared terms', where, why or '', key)
    if not reduce and extra is not None:
        g = f.name + ':'
        wantnames = ['conclusionOccurrence', 'conclusionStamp', 'currentTime', 'parentPriority', 'conceptPriority', 'occurrenceTimeOffset', 'validation_concept', 'validation_cid']
        ok = [('v', g + x) for x in wantnames] == extra[:8]
        rep.ob(ok, 'a conclusion keeps the stamp, time and priorities given for the premises', f'src/RuleTable.c ({fname})', '' if ok else str(extra)[:200])


# ------------------------------------------------------------------ inferences written in C

class Node:
    """term patterns during abstract interpretation: union-find over structure"""
    def __init__(self):
        self.up = None
        self.op = None
        self.not_ = frozenset()
        self.ch = {}


class World:
    def __init__(self):
        self.n = []

    def new(self):
        self.n.append([None, None, frozenset(), {}])   # link, op, ops excluded, children
        return len(self.n) - 1

    def find(self, a):
        while self.n[a][0] is not None:
            a = self.n[a][0]
        return a

    def child(self, a, k):
        a = self.find(a)
        # position k of the heap layout below a
        if k == 0:
            return a
        path = []
        while k > 0:
            path.append(1 if k % 2 else 2)
            k = (k - 1) // 2
        for s in reversed(path):
            a = self.find(a)
            if s not in self.n[a][3]:
                self.n[a][3][s] = self.new()
            a = self.n[a][3][s]
        return self.find(a)

    def setop(self, a, op):
        a = self.find(a)
        if self.n[a][1] is not None:
            return self.n[a][1] == op
        if op in self.n[a][2]:
            return False
        self.n[a][1] = op
        return True

    def notop(self, a, op):
        a = self.find(a)
        if self.n[a][1] == op:
            return False
        self.n[a][2] |= {op}
        return True

    def merge(self, a, b, depth=0):
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if depth > 12 or self.occurs(a, b) or self.occurs(b, a):
            return False
        A, B = self.n[a], self.n[b]
        if A[1] is not None and B[1] is not None and A[1] != B[1]:
            return False
        op = A[1] or B[1]
        no = A[2] | B[2]
        if op in no:
            return False
        B[1], B[2] = op, no
        ch = A[3]
        A[0] = b
        for k, v in ch.items():
            if k in B[3]:
                if not self.merge(v, B[3][k], depth + 1):
                    return False
            else:
                B[3][k] = v
        return True

    def occurs(self, a, b):
        b = self.find(b)
        return any(self.find(v) == a or self.occurs(a, v) for v in self.n[b][3].values())

    def pattern(self, a):
        a = self.find(a)
        N = self.n[a]
        if N[1] is None:
            return ('var', f'N{a}')
        if N[1] == '!':
            return ('!', self.pattern(self.child(a, 1)))
        return (N[1], self.pattern(self.child(a, 1)), self.pattern(self.child(a, 2)))


def special(ctx, rep, p, fname):
    f = p.funcs.get(fname)
    if f is None:
        return 0
    pre = f.name + ':'
    opname = {}
    for m, o in (('IMPLICATION', '==>'), ('EQUIVALENCE', '<=>'), ('CONJUNCTION', '&&'), ('DISJUNCTION', '||'), ('NEGATION', '!'), ('INHERITANCE', '-->'), ('SIMILARITY', '<->')):
        c = ctx.macro(m)
        if c and len(c.strip()) == 3 and c.strip()[0] == "'":
            opname[ord(c.strip()[1])] = o
    W = World()
    st0 = dict(W=W, env={pre + 'term1': ('t', W.new()), pre + 'term2': ('t', W.new()), pre + 'truth1': ('p', 1), pre + 'truth2': ('p', 2)}, obj={})
    todo = [(f.entry, st0)]
    found = {}
    n = 0
    while todo:
        k, st = todo.pop()
        n += 1
        if n > 60000:
            raise BrokenAnalysis(f'{fname}: too many paths')
        while True:
            i = f.ins[k]
            env, W = st['env'], st['W']

            def ev(e):
                e = uncast(e)
                if e[0] == 'a':
                    return ev(e[1])
                if e[0] == 'v':
                    return env.get(e[1], ('?', e[1]))
                if e[0] == 'c':
                    return ('c', e[1])
                if e[0] == 'fld' and e[2] == 'success':
                    v = ev(e[1])
                    return v if v[0] == 'unify' else ('?', show(e))
                return ('?', show(e))
            nxt = i.succ[0] if i.succ else None
            if i.k == 'ret' or nxt is None:
                break
            if i.k == 'set':
                ap = atompos(i.a)
                if ap and ap[0][0] == 'v':
                    v = ev(i.b)
                    t = env.get(ap[0][1])
                    if t and t[0] == 't' and v[0] == 'cop':
                        W.setop(W.child(t[1], ap[1]), v[1])
                    else:
                        env[ap[0][1]] = ('?', 'x')
                elif i.a[0] == 'v':
                    e = uncast(i.b)
                    env[i.a[1]] = ('t', W.new()) if e[0] == 'agg' and e[1] == 'Term' else ev(e)
                k = nxt
                continue
            if i.k == 'call':
                r = ('?', i.id)
                a = [ev(x) for x in i.c]
                if i.b in ('Term_ExtractSubterm',) and a[0][0] == 't' and a[1][0] == 'c':
                    r = ('t', W.child(a[0][1], a[1][1]))
                elif i.b == 'Narsese_copulaEquals' and len(a) == 2 and a[1][0] == 'c':
                    ap = atompos(i.c[0])
                    b = ev(ap[0]) if ap else ('?',)
                    if b[0] == 't' and a[1][1] in opname:
                        r = ('isop', W.child(b[1], ap[1]), opname[a[1][1]])
                elif i.b == 'Narsese_CopulaIndex' and a[0][0] == 'c' and a[0][1] in opname:
                    r = ('cop', opname[a[0][1]])
                elif i.b == 'Variable_Unify' and a[0][0] == a[1][0] == 't':
                    r = ('unify', a[0][1], a[1][1])
                elif i.b == 'Variable_ApplySubstitute' and a[0][0] == 't':
                    r = a[0]
                elif i.b == 'Term_OverrideSubterm' and a[0][0] == 't' and a[2][0] == 't' and a[1][0] == 'c' and a[1][1] in (1, 2):
                    W.n[W.find(a[0][1])][3][a[1][1]] = a[2][1]
                elif i.b == 'Term_Equal' and a[0][0] == a[1][0] == 't':
                    r = ('unify', a[0][1], a[1][1])
                elif i.b.startswith('Truth_'):
                    r = ('truth', i.b, tuple(a))
                elif i.b == 'NAL_DerivedEvent':
                    t, tr = ev(i.c[0]), ev(i.c[2])
                    if t[0] == 't' and tr[0] == 'truth' and len(tr[2]) == 2 and all(x[0] == 'p' for x in tr[2]):
                        ps = {1: W.pattern(env0(st0, st, W, 1)), 2: W.pattern(env0(st0, st, W, 2))}
                        C = W.pattern(t[1])
                        A, B = ps[tr[2][0][1]], ps[tr[2][1][1]]
                        found.setdefault(i.id, set()).add((tr[1], A, B, C))
                    else:
                        found.setdefault(i.id, set()).add(None)
                if i.a is not None and i.a[0] == 'v':
                    env[i.a[1]] = r
                k = nxt
                continue
            if i.k == 'br':
                e = uncast(i.a)
                t, fl = i.succ
                while e[0] == 'u' and e[1] == '!':
                    e = uncast(e[2])
                    t, fl = fl, t
                v = ev(e)
                if v[0] == 'isop':
                    s2 = copy.deepcopy(st)
                    if s2['W'].notop(v[1], v[2]):
                        todo.append((fl, s2))
                    if not W.setop(v[1], v[2]):
                        break
                    k = t
                    continue
                if v[0] == 'unify':
                    todo.append((fl, copy.deepcopy(st)))
                    if not W.merge(v[1], v[2]):
                        break
                    k = t
                    continue
                todo.append((fl, copy.deepcopy(st)))
                k = t
                continue
            k = nxt
    rep.count(f'paths through {fname}', n)
    for iid, rs in sorted(found.items()):
        i = f.ins[iid]
        why, txt = None, ''
        rs = [r for r in rs if r is None or not any(o is not None and o != r and instance(o, r) and not (instance(r, o) and str(r) < str(o)) for o in rs)]
        for r in rs:
            if r is None:
                why, txt = 'conclusion or truth is not computed from the two premises', 'unreadable'
                break
            tf, A, B, C = r
            txt = f'{T.show(A)}, {T.show(B)} |- {T.show(C)} {tf}'
            if tf == 'Truth_AnonymousAnalogy':
                ok = A[0] == '&&' and ((A[1] == B and A[2] == C) or (A[2] == B and A[1] == C))
                w = None if ok else 'anonymous analogy needs a conjunction, one component of it, and concludes the other component'
            else:
                w = T.licensed(tf, C, A, B)
            if w:
                why = w
                break
        import re as _re
        canon = {}
        txt = _re.sub(r'N\d+', lambda m: canon.setdefault(m.group(), 'ABCDEFGH'[len(canon) % 8]), txt)
        rep.ob(why is None, 'the truth function is licensed for the arrangement of copulas and shared terms', p.loc(f, i), f'{txt}: {why}' if why else txt, f'{fname}|{txt}')
        rep.count('inferences outside the table')
    return len(found)


def instance(gen, spec):
    """is one inference an instance of the other (then it is as valid as that one)"""
    if gen[0] != spec[0]:
        return False
    b = {}

    def m(g, s):
        if g[0] == 'var':
            return b.setdefault(g[1], s) == s
        return g[0] == s[0] and len(g) == len(s) and all(m(x, y) for x, y in zip(g[1:], s[1:]))
    return all(m(x, y) for x, y in zip(gen[1:], spec[1:]))


def env0(st0, st, W, which):
    """node of the premise (the parameters themselves may have been overwritten: their nodes were the first two created)"""
    return W.find(which - 1)


# ------------------------------------------------------------------ callers

def callers(ctx, rep, p):
    n = 0
    for fn in sorted(p.funcs):
        f = p.funcs[fn]
        D = Defs(f)
        for i in f.ins:
            if i.k != 'call' or i.b not in ('RuleTable_Apply', 'Cycle_SpecialInferences') or len(i.c) < 11:
                continue
            n += 1
            dbl = uncast(i.c[10])
            for a in (0, 1):
                if a == 1 and dbl == ('c', 0):
                    continue
                t, v = sources(f, D, i.c[a]), sources(f, D, i.c[a + 2])
                ok = len(t) == 1 and v == t
                rep.ob(ok, 'a premise is handed over together with its own truth', p.loc(f, i), f'{i.b} premise {a + 1}: term of {", ".join(sorted(t)) or "?"}, truth of {", ".join(sorted(v)) or "?"}', f'own truth|{fn}|{i.b}|{show(i.c[a])}|{show(i.c[a + 2])}')
            if dbl == ('c', 1):
                rep.ob(sources(f, D, i.c[0]) != sources(f, D, i.c[1]), 'two premises are two different ones', p.loc(f, i), i.b)
    return n


def sources(f, D, e, depth=0):
    """names of the objects (event or concept variables) a term or truth expression is read from"""
    if depth > 6:
        return {'?'}
    e = uncast(D.x(e))
    while e[0] in ('fld', 'idx', 'd', 'a'):
        e = uncast(D.x(e[1])) if e[0] != 'v' else e
    if e[0] != 'v':
        return {show(e)}
    ds = [i.b for i in f.ins if i.k == 'set' and i.a == ('v', e[1])]
    calls = [i for i in f.ins if i.k == 'call' and i.a == ('v', e[1])]
    out = set()
    for b in ds:
        b = uncast(b)
        r = b
        while r[0] in ('fld', 'idx', 'd', 'a', 'cast'):
            r = r[1] if r[0] != 'cast' else r[2]
        if r[0] == 'v' and (b[0] in ('a', 'd', 'fld')) and r[1] != e[1] and leads(f, b):
            out |= sources(f, D, r, depth + 1)
        else:
            return {e[1].split(':')[-1]}
    if not out or calls:
        return {e[1].split(':')[-1]}
    return out


def leads(f, b):
    """is b (part of) a local object, or a part of what a local points to - not an element of some global array"""
    r = b
    while r[0] in ('fld', 'idx', 'd', 'a', 'cast'):
        r = r[1] if r[0] != 'cast' else r[2]
    return r[0] == 'v' and ':' in r[1]


def check(ctx):
    rep = Report('C05', ctx, 'Reads each rule of the freshly generated rule table back from its control flow and decides with the laws of the copulas and connectors whether the truth function is licensed for it; symbolic term patterns for the inferences written in C; term/truth pairing at the callers.',
                 ['the licences of sa/termlogic.py state Non-Axiomatic Logic as in its literature', 'C04 decides that the truth functions compute their formulas, C13 that written operators are encoded uniquely'])
    p = ctx.rt
    g = p.funcs.get('NAL_GenerateRuleTable')
    if g is None:
        raise BrokenAnalysis('no NAL_GenerateRuleTable')
    ap, red = written(p, g)
    rep.expect('rules', len(ap), 100)
    rep.expect('reductions', len(red), 8)
    names = Names()
    table(ctx, rep, p, 'RuleTable_Apply', ap, names, False)
    table(ctx, rep, p, 'RuleTable_Reduce', red, names, True)
    m = special(ctx, rep, p, 'Cycle_SpecialInferences')
    rep.expect('inferences outside the table', m, 3)
    n = callers(ctx, rep, p)
    rep.expect('applications of the rules', n, 2)
    return rep
