"""C18: the same input always gives the same output (effect analysis of nondeterministic sources, provenance of addresses, definite initialization)."""
import re
from ..core import *
from ..definit import Definit, fold, rel
from .c11 import mentioned, gname

CLOCK = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'timespec_get', 'ftime', 'times', 'getrusage', 'localtime', 'gmtime', 'localtime_r', 'gmtime_r', 'ctime', 'mktime', 'strftime',
         '__rdtsc', '__builtin_readcyclecounter', '__builtin_ia32_rdtsc'}
RANDOM = {'rand', 'srand', 'rand_r', 'random', 'srandom', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48', 'srand48', 'getrandom', 'getentropy', 'arc4random', 'arc4random_uniform',
          'random_r', 'initstate', 'setstate'}
HOST = {'getenv', 'secure_getenv', 'getpid', 'getppid', 'getuid', 'gettid', 'gethostname', 'uname', 'sysconf', 'pthread_self', 'sched_getcpu', 'syscall', 'getcwd', 'sysinfo', 'getloadavg', 'setlocale',
        'nl_langinfo', 'localeconv', 'tmpnam', 'mkstemp', 'isatty', 'ttyname', 'stat', 'fstat', 'lstat', 'geteuid', 'getgid', 'getlogin', 'getpagesize'}
HEAP = {'malloc', 'realloc', 'alloca', '__builtin_alloca', 'aligned_alloc', 'posix_memalign', 'sbrk', 'valloc', 'memalign'}       # storage with indeterminate contents
PACE = {'nanosleep', 'usleep', 'sleep', 'clock_nanosleep', 'pthread_cond_timedwait', 'poll', 'select'}


def parts(e):
    if isinstance(e, (list, tuple)):
        if isinstance(e, tuple) and e and isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from parts(x)


def uncast1(e):
    while isinstance(e, tuple) and e and e[0] == 'cast':
        e = e[2]
    return e


class Address:
    """which pointer-typed values may be addresses (and not integers kept in a pointer)"""

    def __init__(self, p, summ):
        self.p, self.ty, self.T = p, summ.ty, summ.ty.T
        self.memo = {}
        self.sites = {}
        self.defs = {}
        for n, f in p.funcs.items():
            for i in f.ins:
                if i.k == 'call':
                    if isinstance(i.b, str):
                        self.sites.setdefault(i.b, []).append((f, i))
                    if i.a is not None and i.a[0] == 'v':
                        self.defs.setdefault((n, i.a[1]), []).append(('call', i))
                elif i.k == 'set' and i.a[0] == 'v':
                    self.defs.setdefault((n, i.a[1]), []).append(('set', i))

    def isptr(self, f, e):
        t = self.ty.of(f, e) or ''
        return self.T.is_ptr(self.T.canon(t)) or '[' in t or t.startswith('ARRPTR')

    def real(self, f, e):
        e = uncast1(e)
        if e[0] in ('c', 'f', 'uninit', 'zero', 's'):
            return False
        if e[0] in ('a', 'fn'):
            return True
        if not self.isptr(f, e):
            return False
        if e[0] == 'v':
            return self.var(f, e[1])
        if e[0] == 'b':
            return any(self.real(f, x) for x in e[2:])
        if e[0] in ('?', 'ite', 'cond'):
            return any(self.real(f, x) for x in e[2:])
        return True

    def var(self, f, v):
        k = (f.name, v)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = False
        if v in self.p.globals:
            r = True
        elif v in f.params:
            r = self.param(f, f.params.index(v))
        for kind, i in self.defs.get(k, ()):
            if r:
                break
            if kind == 'set':
                r = self.real(f, i.b)
            elif i.b == 'HashTable_Get':
                tabs = self.tables(f, i.c[0])
                r = any(self.real(g, j.c[2]) for g, j in self.sites.get('HashTable_Set', ()) if self.tables(g, j.c[0]) & tabs)
            elif isinstance(i.b, str) and i.b in self.p.funcs:
                g = self.p.funcs[i.b]
                r = any(j.k == 'ret' and j.a is not None and self.real(g, j.a) for j in g.ins)
            else:
                r = True
        self.memo[k] = r
        return r

    def tables(self, f, e, depth=0):
        """global tables a table operand may be (None in it: unknown)"""
        e = uncast1(e)
        if e[0] == 'a':
            return {gname(e[1]) or '?'}
        if e[0] == 'v' and e[1] in f.params and depth < 4:
            k = f.params.index(e[1])
            out = set()
            for g, i in self.sites.get(f.name, ()):
                out |= self.tables(g, i.c[k], depth + 1)
            return out
        return {'?'}

    def param(self, f, k):
        n = f.name
        # installed as the hash or equality of tables
        for g, i in self.sites.get('HashTable_INIT', ()):
            if any(uncast1(x) == ('fn', n) for x in i.c):
                tabs = self.tables(g, i.c[0])
                for op in ('HashTable_Get', 'HashTable_Set', 'HashTable_Delete'):
                    for h, j in self.sites.get(op, ()):
                        if self.tables(h, j.c[0]) & tabs and self.real(h, j.c[1]):
                            return True
        s = self.sites.get(n, ())
        if not s:
            return not any(any(uncast1(x) == ('fn', n) for x in i.c) for _, i in self.sites.get('HashTable_INIT', ()))
        return any(k < len(i.c) and self.real(g, i.c[k]) for g, i in s)


def sources(ctx, rep, p):
    """calls that bring in something from outside the input"""
    n = 0
    for name, f in sorted(p.funcs.items()):
        for i in f.ins:
            for x in parts([i.a, i.b, getattr(i, 'c', None)]):
                if x[0] == 'strlv' and re.search(r'/dev/u?random|/proc/|/sys/', str(x[1])):
                    rep.ob(False, 'outside sources', f'{f.file}:{i.line} ({name})', f'reads {x[1]}')
                if x[0] == 'fn' and x[1] in CLOCK | RANDOM | HOST:
                    rep.ob(False, 'outside sources', f'{f.file}:{i.line} ({name})', f'uses {x[1]}')
            if i.k != 'call' or not isinstance(i.b, str) or i.b in p.funcs:
                continue
            n += 1
            kind = 'the clock' if i.b in CLOCK else 'a random generator of the machine' if i.b in RANDOM else 'the machine' if i.b in HOST else 'storage without contents' if i.b in HEAP else None
            if kind and not (i.b in CLOCK and paces(p, f, i)):
                rep.ob(False, 'outside sources', f'{f.file}:{i.line} ({name})', f'{i.b} brings in {kind}')
    rep.count('library_calls', n)
    rep.ob(True, 'outside sources', 'src (all)', f'{n} calls of library functions: none reads the clock (other than to wait), a machine random generator, the environment, or storage with indeterminate contents')
    return n


def paces(p, f, i):
    """the clock value only reaches how long is waited (forward closure within the function)"""
    tainted = set()
    for e in ([i.a] if i.a is not None else []) + list(i.c):
        for x in parts(e):
            if x[0] == 'v':
                if x[1] in p.globals:
                    return False
                tainted.add(x[1])
    for _ in range(20):
        before = len(tainted)
        for j in f.ins:
            src = [j.b] if j.k == 'set' else list(j.c) if j.k == 'call' else []
            hit = any(x[0] == 'v' and x[1] in tainted for e in src for x in parts(e))
            if j.k == 'set' and hit:
                r = rel(j.a)[0]
                if r[0] != 'v' or r[1] in p.globals:
                    return False
                tainted.add(r[1])
            elif j.k == 'call' and hit and j is not i:
                if not (isinstance(j.b, str) and j.b in PACE | CLOCK):
                    return False
            elif j.k in ('br', 'switch', 'ret') and j.a is not None and any(x[0] == 'v' and x[1] in tainted for x in parts(j.a)):
                return False
        if len(tainted) == before:
            return True
    return True


def generator(ctx, rep, p):
    """the reasoner's own generator: its position is touched by nothing else and comes from constants"""
    if 'myrand' not in p.funcs:
        raise BrokenAnalysis('myrand not found')
    closure = lambda n, seen: seen if n in seen or n not in p.funcs else [seen.add(n), [closure(m, seen) for m in p.callees(n)], seen][-1]
    of_rand = closure('myrand', set())
    own = {}
    for n in of_rand:
        mentioned(p, p.funcs[n], own)
    state = {g for g, m in own.items() if 'w' in m}
    const = {g for g, m in own.items() if 'w' not in m}
    f0 = p.funcs['myrand']
    for n in of_rand:
        for m in p.callees(n):
            if m not in p.funcs:
                rep.ob(False, 'generator', f'{f0.file}:{f0.line} (myrand)', f'the generator calls {m}')
    rep.ob(bool(state), 'generator', f'{f0.file}:{f0.line} (myrand)', f'the next number depends on {sorted(state)} only' if state else 'the generator keeps no position')
    for g in sorted(const):
        for n, f in sorted(p.funcs.items()):
            if 'w' in mentioned(p, f).get(g, ()) or 'a' in mentioned(p, f).get(g, ()):
                rep.ob(False, 'generator', f'{f.file}:{f.line} ({n})', f'the generator depends on {g}, which {n} changes')
    seeders = set()
    for n, f in sorted(p.funcs.items()):
        m = mentioned(p, f)
        hit = {g for g in state if m.get(g, set()) & {'w', 'a'}}
        if not hit or n in of_rand:
            continue
        seeders.add(n)
    nseed = 0
    done = set()
    work = sorted(seeders)
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        f = p.funcs[n]
        params = set()
        for i in f.ins:
            vals = []
            if i.k == 'set' and (gname(i.a) in state):
                vals = [i.b]
            elif i.k == 'call' and i.a is not None and gname(i.a) in state:
                rep.ob(False, 'generator', f'{f.file}:{i.line} ({n})', f'position of the generator taken from {show(i.b) if not isinstance(i.b, str) else i.b}')
            elif i.k == 'call' and i.b in done | seeders:
                nseed += 1
                vals = list(i.c)
            for v in vals:
                for x in parts(v):
                    if x[0] == 'v' and x[1] in f.params:
                        params.add(x[1])
                    elif x[0] in ('v', 'a', 'd') and not (x[0] == 'v' and gname(x) in state):
                        if x[0] == 'v' and constvar(p, f, x[1]):
                            continue
                        rep.ob(False, 'generator', f'{f.file}:{i.line} ({n})', f'seeded with {show(v)}, which is not a constant')
        if params:
            for m, g in p.funcs.items():
                if any(i.k == 'call' and i.b == n for i in g.ins) and m not in done:
                    work.append(m)
            seeders.add(n)
            for m, g in p.funcs.items():
                for i in g.ins:
                    if i.k == 'call' and i.b == n:
                        for v in i.c:
                            bad = [x for x in parts(v) if x[0] in ('v', 'a', 'd') and not (x[0] == 'v' and (x[1] in g.params or constvar(p, g, x[1])))]
                            if bad:
                                rep.ob(False, 'generator', f'{g.file}:{i.line} ({m})', f'seeded with {show(v)}, which is not a constant')
                            else:
                                rep.ob(True, 'generator', f'{g.file}:{i.line} ({m})', f'seeded with {show(v)}')
                                rep.count('seeding_sites')


def constvar(p, f, v):
    """local with one definition, a constant"""
    if v in p.globals or v in f.params:
        return False
    d = [i for i in f.ins if i.k in ('set', 'call') and i.a == ('v', v)]
    return len(d) == 1 and d[0].k == 'set' and fold(d[0].b) is not None


def addresses(ctx, rep, p, summ):
    A = Address(p, summ)
    T = A.T
    n = 0
    ints = lambda t: t and not T.is_ptr(T.canon(t)) and '[' not in t and not t.startswith('ARRPTR') and not T.is_record(T.canon(t)) and t != 'void'

    def use(f, i, e, how):
        nonlocal n
        n += 1
        if A.real(f, e):
            rep.ob(False, 'addresses', f'{f.file}:{i.line} ({f.name})', f'the address {show(e)[:70]} becomes a number ({how})')
    for name, f in sorted(p.funcs.items()):
        for i in f.ins:
            for x in parts([i.a, i.b, getattr(i, 'c', None)]):
                if x[0] == 'cast' and ints(T.canon(x[1])) and A.isptr(f, x[2]) and not difference(x[2]):
                    use(f, i, x[2], 'cast')
                elif x[0] == 'b' and x[1] in ('%', '/', '*', '^', '&', '|', '<<', '>>'):
                    for y in x[2:]:
                        if A.isptr(f, y):
                            use(f, i, y, f'operand of {x[1]}')
                elif x[0] == 'b' and x[1] in ('<', '>', '<=', '>=', '==', '!='):
                    a, b = x[2:4]
                    pa, pb = A.isptr(f, a), A.isptr(f, b)
                    if pa != pb and fold(b if pa else a) != 0 and not difference(a) and not difference(b):
                        use(f, i, a if pa else b, f'compared with a number')
            if i.k == 'set' and A.isptr(f, i.b) and ints(A.ty.of(f, i.a)) and not difference(i.b):
                use(f, i, i.b, 'kept in ' + show(i.a))
            if i.k == 'ret' and i.a is not None and ints(getattr(f, 'ret', None) or '') and A.isptr(f, i.a) and not difference(i.a):
                use(f, i, i.a, 'returned')
            if i.k == 'call' and isinstance(i.b, str) and i.b in p.funcs:
                g = p.funcs[i.b]
                for v, a in zip(g.params, i.c):
                    if ints(T.canon(g.vars[v])) and A.isptr(f, a) and not difference(a):
                        use(f, i, a, f'passed to {i.b}')
            if i.k == 'call':
                for a in i.c:
                    s = uncast1(a)
                    if s[0] == 'a' and s[1][0] == 'strlv' and isinstance(s[1][1], str) and re.search(r'%[-+ #0-9.]*p', s[1][1]):
                        rep.ob(False, 'addresses', f'{f.file}:{i.line} ({name})', 'prints an address')
    # compared or hashed byte by byte
    whole = set()
    for name, f in sorted(p.funcs.items()):
        for i in f.ins:
            if i.k != 'call' or i.b not in ('memcmp', 'bcmp', 'Globals_Hash'):
                continue
            for a in (i.c[:2] if i.b != 'Globals_Hash' else i.c[:1]):
                s = uncast1(a)
                t = A.ty.of(f, s[1]) if s[0] == 'a' else T.elem(A.ty.of(f, s) or '')
                if s[0] == 'a' and s[1][0] == 'idx':
                    t = A.ty.of(f, s[1][1])
                t = T.canon(t or 'char')
                n += 1
                inner = list(leaves(T, t))
                if any(T.is_ptr(x) for x in inner):
                    rep.ob(False, 'addresses', f'{f.file}:{i.line} ({name})', f'{i.b} over {t}, which holds addresses')
                if T.is_record(t) and padded(T, t) and i.b != 'Globals_Hash':
                    whole.add(t)
                if i.b == 'Globals_Hash' and any(T.is_record(x) and padded(T, x) for x in [t]):
                    rep.ob(False, 'addresses', f'{f.file}:{i.line} ({name})', f'hash over {t}, which has padding')
    rep.count('address_uses', n)
    rep.ob(True, 'addresses', 'src (all)', f'{n} places where a pointer meets a number, or memory is compared or hashed byte by byte: only integers kept in pointers, and records without addresses')
    return whole


def difference(e):
    e = uncast1(e)
    if e[0] != 'b':
        return False
    if e[1] == '-':
        return True
    return any(difference(x) for x in e[2:4] if isinstance(x, tuple))


def leaves(T, t, depth=0):
    t = T.canon(t)
    if T.is_ptr(t) or depth > 8:
        yield t
    elif '[' in t:
        yield from leaves(T, T.elem(t) or 'char', depth + 1)
    elif T.is_record(t):
        for f, ft in T.records[t]:
            yield from leaves(T, ft, depth + 1)
    else:
        yield t


def padded(T, t):
    try:
        return sum(T.align_size(T.canon(x))[1] for _, x in T.records[T.canon(t)]) != T.align_size(T.canon(t))[1]
    except Exception:
        return False


def initialized(ctx, rep, p, summ, whole):
    D = Definit(p, summ, whole)
    nl = 0
    for n, F in sorted(D.fns.items()):
        nl += sum(1 for k in F.keys if k[0] == 'v')
        for (root, c), (i, callee) in sorted(F.bad.items(), key=str):
            f = F.f
            path = root.split(':')[-1] + ''.join(f'[{x[1]}]' if isinstance(x, tuple) else '[]' if x == '*' else '.' + x for x in c)
            rep.ob(False, 'initialization', f'{f.file}:{i.line if i else f.line} ({n})', f'{path} can be read before it is written' + (f' (by {callee})' if callee else ''),
                   key=f'init {n} {path.split(".")[0].split("[")[0]}')
    rep.count('locals', nl)
    rep.count('functions', len(D.fns))
    rep.ob(True, 'initialization', 'src (all)', f'{nl} locals and parameters of {len(D.fns)} functions: written before they are read on every path (bytewise for {sorted(whole)})')


def check(ctx):
    rep = Report('C18', ctx, 'Effect analysis: no call brings in anything besides the input (clock, environment, machine random numbers, indeterminate storage), except to wait; the generator depends on its own '
                 'position alone and is seeded with constants. Provenance analysis: no address becomes a number, is printed, hashed or compared byte by byte. Interprocedural definite-initialization '
                 'analysis over every local, field-sensitive, including the generated rule table: no path reads what was not written.',
                 ['storage written element by element in a loop counts as written (how far the loop goes is not decided here)', 'initialising a record with a list or a copy also settles its padding (true of the compilers in use)',
                  'reads past the end of an array are not decided here', 'the pace of the two threads of the network node is an input'])
    p, summ = ctx.rt, ctx.rtsumm
    rep.expect('library calls', sources(ctx, rep, p), 50)
    generator(ctx, rep, p)
    whole = addresses(ctx, rep, p, summ)
    initialized(ctx, rep, p, summ, whole)
    rep.expect('locals', rep.counts['locals'], 500)
    return rep
