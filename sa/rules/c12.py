"""C12: no input text can corrupt memory (relational bounds analysis over positions, capacities and string lengths in the input units;
null dereferences; definite initialization of what is read from the text)."""
from ..core import *
from ..bounds import INPUT, analyse, unit
from ..definit import Definit

UNITS = INPUT - {'main.c'}      # the command line is not input text


def check(ctx):
    p = ctx.prog
    rep = Report('C12', ctx, 'In the units that read input text every array access is inside its array, every copy, scan and print into a buffer fits it, and no pointer which may be null '
                 'is dereferenced, for every text: whole-program analysis with difference bounds over positions, string lengths and capacities. Locals read there are written before.',
                 assumptions=('assertions stop the program (with a diagnostic)', 'no text is longer than the largest int', 'the functions of the programming interface get terminated texts',
                              'not decided: positions that are a difference of two pointers into the text, and constant places of the elements of a token list'))
    A, obs = analyse(ctx)
    n_ob, kinds = 0, {}
    for (fn, line, iid, kind, text), (v, buf, detail, ins) in sorted(obs.items(), key=lambda x: x[0][:4]):
        f = A.fn[fn].f
        if unit(f) not in UNITS:
            continue
        n_ob += 1
        kinds[kind] = kinds.get(kind, 0) + 1
        rule = {'index': 'the position is inside the array or text', 'size': 'what is written fits the buffer', 'null': 'no null pointer is dereferenced'}.get(kind, kind)
        rep.ob(v == 2, rule, f'{f.file}:{line} ({fn})', f'{text}: {detail}', key=f'{kind} {fn} {text}')
    for k, n in sorted(kinds.items()):
        rep.count(f'{k}_obligations', n)
    rep.expect('obligations in the input units', n_ob, 60)
    D = Definit(p, ctx.summ, set())
    nl = 0
    for n, F in sorted(D.fns.items()):
        if unit(F.f) not in UNITS:
            continue
        nl += sum(1 for k in F.keys if k[0] == 'v')
        rep.ob(not F.bad, 'what is read was written before', f'{F.f.file}:{F.f.line} ({n})', 'locals written before they are read: ' + ', '.join(sorted({str(r).split(":")[-1] for r, c in F.bad})) if F.bad
               else 'all locals', key=f'init {n}')
    rep.count('locals_checked', nl)
    return rep
