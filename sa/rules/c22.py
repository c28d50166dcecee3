"""C22: asking questions does not change what is believed.

Effect analysis: knowledge state is what adding an input or running a cycle may write (computed from the current source) apart from what parsing writes and
the attention values of concepts. Nothing executed for a question, and nothing in the parsing and printing functions, may write it."""
from ..core import *

RECORDS = ('Event', 'Implication', 'Table', 'Concept', 'PriorityQueue', 'Item', 'OccurrenceTimeIndex', 'ConceptChainElement', 'Stamp', 'Truth')
ATTENTION = {('Concept', 'priority'), ('Concept', 'usage')}
INFO = ('*stats', '*inverted_atom_index', '*opconfig', '*concepts', '*cycling_belief_events', '*cycling_goal_events')


def state_of(ctx):
    """(knowledge written by adding and cycling, the same without what parsing may write)"""
    s, p = ctx.summ, ctx.prog
    adders = [n for n in ('NAR_AddInput', 'NAR_Cycles', 'Memory_AddEvent', 'Event_InputEvent') if n in p.funcs]
    if not adders:
        raise BrokenAnalysis('none of the functions that add knowledge is there')
    M = set()
    for n in adders:
        M |= set(s.mod[n])
    parse = set()
    for n in ('Narsese_AtomicTermIndex', 'Narsese_Term'):
        if n in p.funcs:
            parse |= {c for c in s.mod[n] if c[0] not in RECORDS}
    out = set()
    for c in M - parse:
        if c[0] in RECORDS or (c[0] == 'elem' and c[1].replace('*', '').strip() in RECORDS):
            out.add(c)
        elif c[0] == 'glob' and ':' not in c[1] and c[1] in p.globals and not c[1].startswith('Stats_'):
            out.add(c)
    return out


def effect(ctx, e, st, f, ins, name, vals, K):
    """knowledge classes a call may write"""
    s = ctx.summ
    if name not in ctx.prog.funcs:
        return set()
    bad = set(s.mod[name]) & K
    for k, c in s.pmod[name]:
        if c in K and k < len(vals):
            r = root_of(vals[k][1]) if vals[k][0] == 'a' else None
            if not (r and r[0] == 'v' and e.islocal(r[1])):
                bad.add(c)
    return bad


class Asking(Obligations):
    def __init__(self, cx, K):
        super().__init__()
        self.cx, self.K = cx, K

    def asked(self, e, st):
        """the path is processing a question"""
        for a, tv in st.facts.items():
            if a[0] == 'b' and a[1] == '==' and ('c', ord('?')) in a[2:4]:
                o = a[2] if a[3][0] == 'c' else a[3]
                if mentions(o, lambda t: t[0] in ('out', 'arg')):
                    return tv
        return None

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if not isinstance(name, str) or name == 'Globals_assert' or not self.asked(e, st):
            return
        if e.should_inline(name, ctx) and name not in [c[0] for c in ctx]:
            return
        bad = effect(self.cx, e, st, f, ins, name, vals, self.K)
        self.rec(ctx, f, ins, ('call', name), not bad, e.p.loc(f, ins), f'{name} writes no knowledge' if not bad else f'answering a question runs {name}, which may write {sorted(map(str, bad))[:4]}', False)

    def on_store(self, e, st, f, ins, path, val, ctx):
        if not self.asked(e, st):
            return
        r = root_of(path)
        if r[0] == 'v' and e.islocal(r[1]):
            return
        c = e.path_class(path)
        bad = c in self.K
        self.rec(ctx, f, ins, ('store', str(c)), not bad, e.p.loc(f, ins), f'{c} is not knowledge' if not bad else f'answering a question writes {c}', False)


def region(f, edge):
    """nodes executed only after the edge was taken"""
    def reach(avoid):
        seen, todo = set(), [f.entry]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for j, m in enumerate(f.ins[n].succ):
                if m is not None and (n, j) != avoid:
                    todo.append(m)
        return seen
    return reach(None) - reach(edge)


def commands(ctx, rep, K):
    p, s = ctx.prog, ctx.summ
    for fn, f in p.funcs.items():
        for i in f.ins:
            if i.k != 'call' or i.b not in ('strcmp', 'strncmp') or i.a is None:
                continue
            cmd = [c for c in INFO if any(mentions((a,), lambda t: t[0] == 'strlv' and t[1].strip('"') == c) for a in i.c)]
            if not cmd:
                continue
            # the branch on the result
            n = i.succ[0]
            while f.ins[n].k not in ('br',) and len(f.ins[n].succ) == 1:
                n = f.ins[n].succ[0]
            if f.ins[n].k != 'br':
                continue
            c = f.ins[n].a
            neg = False
            while c[0] == 'u' and c[1] == '!':
                neg, c = not neg, c[2]
            if c[0] == 'b' and c[1] in ('==', '!=') and ('c', 0) in c[2:4]:
                neg = neg ^ (c[1] == '==')
            body = region(f, (n, 0 if neg else 1))
            bad = []
            e = Engine(p, s, ctx.known)
            for m in body:
                j = f.ins[m]
                if j.k == 'call' and isinstance(j.b, str) and j.b in p.funcs:
                    w = set(s.mod[j.b]) & K
                    for k, cl in s.pmod[j.b]:
                        if cl in K and k < len(j.c):
                            r = root_of(j.c[k][1]) if j.c[k][0] == 'a' else None
                            if not (r and r[0] == 'v' and r[1] in f.vars):
                                w.add(cl)
                    if w:
                        bad.append(f'calls {j.b}, which may write {sorted(map(str, w))[:3]}')
                if j.k in ('set', 'call') and j.a is not None and not (root_of(j.a)[0] == 'v' and root_of(j.a)[1] in f.vars):
                    w = set(e.ty.lvclasses(f, j.a)) & K
                    if w:
                        bad.append(f'writes {sorted(map(str, w))[:3]}')
            rep.ob(not bad, 'showing the state does not change it', p.loc(f, i), f'{cmd[0]}: ' + ('; '.join(bad) if bad else f'{len(body)} instructions write no knowledge'), key=f'{cmd[0]}')
            rep.count('commands')


def check(ctx):
    rep = Report('C22', ctx, 'Effect analysis. Knowledge state: the memory classes and globals that adding an input or running a cycle may write, less those written by parsing (computed from the '
                 'source). On every path that processes a question (abstract interpretation knows the punctuation), no store and no callee (transitive may-write summary) touches it, attention '
                 'values of concepts excepted; parsing, printing and the commands that show the state touch nothing of it at all.',
                 ['attention values (priority and usage of a concept) are not beliefs: questions prime them on request'])
    p, s = ctx.prog, ctx.summ
    K = state_of(ctx)
    rep.count('knowledge_classes', len(K))
    KQ = K - ATTENTION - {c for c in K if c[0] == 'Usage'}
    entry = [n for n, f in p.funcs.items() if any(i.k == 'call' and i.b == 'Narsese_Sentence' for i in f.ins)]
    n = 0
    for fn in entry:
        h = Asking(ctx, KQ)
        e = Engine(p, s, ctx.known, K=16, relevant=lambda a: mentions(a, lambda t: t == ('c', ord('?'))), hooks=h)
        e.run(fn)
        for (chain, skey), (ok, where, detail, _) in h.res.items():
            rep.ob(ok, 'answering a question only reads', where, detail, key=f'{skey} in {fn}')
            n += 1
    rep.count('question_sites', n)
    ro = sorted(f for f in p.funcs if 'print' in f.lower() or f in ('Narsese_Sentence', 'Narsese_Term', 'Narsese_Expand', 'Narsese_PrefixTransform', 'Narsese_AtomicTerm', 'Narsese_AtomicTermIndex',
                                                                       'Narsese_CopulaIndex', 'Term_Equal', 'Term_Hash', 'Memory_FindConceptByTerm', 'Variable_Unify', 'Variable_Unify2', 'Term_ExtractSubterm'))
    for fn in ro:
        f = p.funcs[fn]
        if f.file.split('/')[-1] in ('RuleTable.c',):
            continue
        bad = set(s.mod[fn]) & K
        # a Truth or Term a function is handed to fill in is its result; records that hold knowledge are not
        bad |= {c for k, c in s.pmod[fn] if c in K and c[0] != 'Truth'}
        rep.ob(not bad, 'parsing, comparing and printing change no knowledge', f'{f.file}:{f.line} ({fn})', 'writes no knowledge' if not bad else f'may write {sorted(map(str, bad))[:5]}', key=fn)
    rep.count('read_only_functions', len(ro))
    commands(ctx, rep, K)
    rep.expect('sites on question paths', n, 10)
    rep.expect('knowledge classes', len(K), 20)
    return rep
