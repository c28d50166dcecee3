"""Shared harness of the checks: loading, reporting, known findings, evidence, caller-context expansion of obligations."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from multiprocessing import get_context
from . import frontend
from .frontend import BrokenAnalysis, show, REPO
from .flat import flat_program, flatten
from .loops import find_loops, covers, reaching, uncast
from .absint import Summaries, Engine, known_functions, root_of, mentions, subterms, loops, liveness, State

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, 'known_findings.txt')
EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')


class Ctx:
    def __init__(self, tier='quick', seed=1):
        self.tier, self.seed = tier, seed
        self._p = self._s = self._rt = self._raw = self._rts = None
        self.known = known_functions()

    @property
    def prog(self):
        if self._p is None:
            self._p = flat_program(self.raw, self.known)
        return self._p

    @property
    def raw(self):
        if self._raw is None:
            self._raw = frontend.load()
        return self._raw

    @property
    def rtsumm(self):
        if self._rts is None:
            self._rts = Summaries(self.rt)
        return self._rts

    @property
    def summ(self):
        if self._s is None:
            self._s = Summaries(self.prog)
        return self._s

    @property
    def rt(self):
        """program including the generated rule table (RuleTable.c is a build product: it is generated afresh from the
        current NAL.h by the project's own stage-1 generator, into a scratch directory, and then analysed as source)"""
        if self._rt is None:
            self._rt = flat_program(frontend.load(extra_units=[self.ruletable_c()]), self.known | {'RuleTable_Apply', 'RuleTable_Reduce'})
        return self._rt

    def macros(self):
        """numeric object-like macros of the current configuration (preprocessor output, not execution)"""
        if not hasattr(self, '_mac'):
            h = '\n'.join(f'#include "{os.path.join(REPO, "src", x)}"' for x in sorted(os.listdir(os.path.join(REPO, 'src'))) if x.endswith('.h'))
            r = subprocess.run(['clang', '-dM', '-E', '-std=c99', '-D_POSIX_C_SOURCE=199506L', '-x', 'c', '-'], input=h.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            self._mac = dict(re.findall(r'#define (\w+) (.*)', r.stdout.decode()))
        return self._mac

    def macro(self, name):
        m = self.macros().get(name)
        for _ in range(9):
            if m is None:
                return None
            m2 = re.sub(r'[A-Za-z_]\w*', lambda x: self.macros().get(x.group(), x.group()), m)
            if m2 == m:
                break
            m = m2
        return m

    def ruletable_c(self):
        if not hasattr(self, '_rtc'):
            d = tempfile.mkdtemp(prefix='ona_rt_')
            atexit.register(shutil.rmtree, d, True)
            srcs = frontend.sources(REPO)
            exe = os.path.join(d, 'NAR1')
            r = subprocess.run(['gcc', '-DSTAGE=1', '-std=c99', '-D_POSIX_C_SOURCE=199506L', '-pthread', '-w', '-O0'] + srcs + ['-o', exe, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BrokenAnalysis('stage-1 rule table generator does not build: ' + r.stdout.decode()[:1500])
            out = os.path.join(d, 'RuleTable.c')
            with open(out, 'wb') as fo:
                r = subprocess.run([exe, 'NAL_GenerateRuleTable'], stdout=fo, stderr=subprocess.PIPE, cwd=d, timeout=120)
            if r.returncode:
                raise BrokenAnalysis('stage-1 rule table generator failed')
            txt = open(out).read()
            txt = re.sub(r'#include "(?!/)', '#include "' + REPO + '/src/', txt)
            open(out, 'w').write(txt)
            self._rtc = out
        return self._rtc

    def engine(self, hooks, inline=(), prog=None, summ=None, **kw):
        return Engine(prog or self.prog, summ or self.summ, self.known, inline=inline, hooks=hooks, **kw)

    def roots(self):
        """functions analysed on their own: every function of the reference list still present, and new functions no one calls directly"""
        cs = self.prog.callers()
        return [n for n in sorted(self.prog.funcs) if n in self.known or n not in cs]


_task = None


def _call(x):
    try:
        return ('ok', _task(x))
    except BrokenAnalysis as e:
        return ('broken', str(e))
    except Exception:
        return ('broken', f'{x}: ' + traceback.format_exc()[-1500:])


def pmap(fn, items, jobs=8):
    """parallel map by fork (fn may be a closure)"""
    global _task
    items = list(items)
    if len(items) <= 1:
        return [fn(x) for x in items]
    _task = fn
    with get_context('fork').Pool(min(jobs, len(items))) as pool:
        res = pool.map(_call, items, chunksize=1)
    for k, r in res:
        if k == 'broken':
            raise BrokenAnalysis(r)
    return [r for _, r in res]


class Report:
    def __init__(self, pid, ctx, rule, assumptions=()):
        self.pid, self.ctx, self.rule = pid, ctx, rule
        self.t0 = time.time()
        self.obs = []          # (ok, rule, where, detail, key)
        self.counts = {}
        self.notes = []
        self.assumptions = list(assumptions)

    def ob(self, ok, rule, where, detail='', key=None):
        self.obs.append((bool(ok), rule, where, detail, key or f'{rule}|{where.split("(")[-1].rstrip(")")}|{detail}'))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def expect(self, what, n, least):
        """fail as broken when a rule matches fewer instances than were confirmed by reading"""
        if n < least:
            raise BrokenAnalysis(f'{what}: only {n} instances found, at least {least} were confirmed on the reference tree')

    def finish(self):
        known = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                m = re.match(r'known:\s*property=(\S+)\s+key=(.*?)\s+::\s*(.*)', l)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3)))
        viol, kf = {}, {}
        for ok, rule, where, detail, key in self.obs:
            if ok:
                continue
            m = [d for k, d in known if k == key]
            if m:
                kf[key] = m[0]
            else:
                viol.setdefault(key, []).append((rule, where, detail))
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        byrule = {}
        for ok, rule, *_ in self.obs:
            r = byrule.setdefault(rule, [0, 0])
            r[0] += 1
            r[1] += ok
        samples = []
        seen = set()
        for ok, rule, where, detail, key in self.obs:
            if rule not in seen or (not ok):
                seen.add(rule)
                samples.append(dict(rule=rule, where=where, detail=str(detail)[:300], ok=ok))
        prog = self.ctx._p or self.ctx._rt
        cov = dict(explanation=self.rule, obligations=len(self.obs), discharged=sum(1 for o in self.obs if o[0]),
                   obligations_by_rule={k: dict(checked=v[0], discharged=v[1]) for k, v in byrule.items()}, samples=samples[:40], **self.counts)
        if prog:
            cov['units_parsed'] = len(prog.units)
            cov['functions_in_program'] = len(prog.funcs)
            cov['instructions_in_program'] = sum(len(f.ins) for f in prog.funcs.values())
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.ctx.tier, seed=self.ctx.seed, level='other', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(viol))
        if kf:
            ev['coverage']['known_findings'] = sorted(kf)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1, default=str)
        for key, d in sorted(kf.items()):
            print(f'KNOWN-FINDING: property={self.pid} {d}')
        print(f'{self.pid}: {len(self.obs)} obligations, {sum(1 for o in self.obs if o[0])} discharged, {len(viol)} violations, {round(wall, 1)} s')
        if not self.obs:
            raise BrokenAnalysis('no obligation was generated')
        if viol:
            rp = os.path.join(EVID, self.pid + '.violation.txt')
            with open(rp, 'w') as fo:
                for key, vs in sorted(viol.items()):
                    for rule, where, detail in vs[:8]:
                        line = f'{where}: rule {rule}: {detail}\n    key: {key}\n'
                        fo.write(line)
                        print(line, end='')
            print(f'VIOLATION property={self.pid} replay=evidence/{self.pid}.violation.txt')
            return 1
        return 0


class Obligations:
    """Hook base that records obligations found while the engine walks; discharged per (call chain, site)."""

    def __init__(self):
        self.res = {}      # (frame chain of (function, ins id) ending in the site, sink key) -> [ok_all, where, detail, lift]

    def rec(self, ctx, f, ins, skey, ok, where, detail, lift=True):
        k = (tuple(ctx) + ((f.name, ins.id),), skey)
        o = self.res.get(k)
        if o is None:
            self.res[k] = [ok, where, detail, lift]
        elif not ok:
            self.res[k] = [False, where if o[0] else o[1], detail if o[0] else o[2], lift and (o[0] or o[3])]


def expand(ctx, mk_hooks, roots, depth=4, K=16, relevant=None, opaque=(), inline=(), prog=None, summ=None, root_ok=None, engine_kw=None):
    """Analyse every root; an obligation not discharged inside the root is re-examined in the context of each caller (the root is
    inlined into it), up to `depth` levels; it fails where no caller discharges it or there is no caller left.
    Returns list of (ok, root, where, detail, skey)."""
    p = prog or ctx.prog
    s = summ or ctx.summ
    callers = p.callers()
    taken = set(p.fnptr_refs())

    def one(job):
        root, inl = job
        h = mk_hooks()
        e = Engine(p, s, ctx.known, inline=set(inline) | set(inl), opaque=opaque, K=K, relevant=relevant, hooks=h, **(engine_kw or {}))
        e.run(root)
        return [(k, v) for k, v in h.res.items()], e.stats
    out = []
    stats = dict(states=0, joins=0, inlined=0)
    level = [(r, (), None) for r in roots]
    d = 0
    if ctx.tier == 'thorough':
        depth += 1
    while level:
        results = pmap(one, [(r, inl) for r, inl, _ in level])
        nxt = {}
        for (root, inl, want), (res, st) in zip(level, results):
            for k in stats:
                stats[k] += st[k]
            bad, met = {}, set()
            for (chain, skey), (ok, where, detail, lift) in res:
                if want is not None:
                    w = [b for b in want if skey == b[1] and chain[-len(b[0]):] == b[0] and len(chain) > len(b[0])]
                    if not w:
                        continue
                    met.update(w)
                if ok:
                    out.append((True, root, where, detail, skey))
                else:
                    bad[(chain, skey)] = (where, detail, lift)
            if want is not None:
                for b in set(want) - met:
                    out.append((True, root, want[b][0], 'not reachable from this caller', b[1]))
            cs = sorted({g.name for g, _ in callers.get(root, [])} - {root})
            for (chain, skey), (where, detail, lift) in bad.items():
                if not lift or d >= depth or not cs or root in taken or (root_ok and root_ok(root)):
                    out.append((False, root, where, detail, skey))
                else:
                    for c in cs:
                        nxt.setdefault((c, tuple(sorted(set(inl) | {root}))), {})[(chain, skey)] = (where, detail, lift)
        level = [(c, inl, w) for (c, inl), w in nxt.items()]
        d += 1
    return out, stats


def main(pid, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(tier, seed)
    try:
        rep = fn(ctx)
        rc = rep.finish()
    except BrokenAnalysis as e:
        print(f'{pid}: analysis broken: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
