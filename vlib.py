"""Shared runner: build LLVM bitcode of /repo's working tree, run the
abstract interpreter over harness entry points, collect reports, write
evidence and decide the exit status."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TVET = os.path.join(BUILD, 'tvet')
EVID = os.path.join(VERIF, 'evidence')
CLANG = 'clang-18'
LINK = 'llvm-link-18'
JOBS = 8
BUDGET = 780 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3600

COMMON = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
          '-emit-llvm', '-c', '-w', '-DTORSION_HAVE_CONFIG',
          '-DTORSION_HAVE_CLOCK_GETTIME', '-DTORSION_HAVE_FORK',
          '-DTORSION_HAVE_GETTIMEOFDAY', '-DTORSION_HAVE_MPI',
          '-DTORSION_HAVE_PTHREAD', '-DTORSION_HAVE_RNG', '-DTORSION_HAVE_TIME']
# The two shapes of the library that the project builds: native word size with
# inline assembly, and the portable fallback.
CONFIGS = {
    '64': ['-DTORSION_TLS=__thread', '-DTORSION_HAVE_ASM', '-DTORSION_HAVE_INT128'],
    '32': ['-DTORSION_TLS=__thread'],
    'lock': ['-DTORSION_HAVE_ASM', '-DTORSION_HAVE_INT128'],
}


class Broken(Exception):
    """The analysis could not be carried out (neither pass nor violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_tool():
    tool = os.path.join(VERIF, 'tool')
    src = [os.path.join(tool, f) for f in os.listdir(tool)]
    if not os.path.exists(TVET) or any(os.path.getmtime(f) > os.path.getmtime(TVET) for f in src):
        r = sh(['bash', os.path.join(VERIF, 'tool', 'build.sh'), BUILD])
        if r.returncode:
            raise Broken('cannot build the analyser: ' + r.stderr[-2000:])


def sources():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    out = []
    for name in ('torsion_sources', 'rng_sources'):
        m = re.search(r'set\(%s\s+([^)]*)\)' % name, txt)
        if m:
            out += [s for s in m.group(1).split() if s.endswith('.c')]
    if len(out) < 10:
        raise Broken('library source list not found in CMakeLists.txt')
    return out


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='tvet-')
        self.libs = {}
        self.objs = {}
        self.progs = {}
        self.runs = []
        self.violations = []
        self.info = {}
        self.broken = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- bitcode ---------------------------------------------------------
    def lib(self, cfg):
        if cfg in self.libs:
            return self.libs[cfg]
        d = os.path.join(self.tmp, 'lib' + cfg)
        os.makedirs(d)
        srcs = sources()

        def one(s):
            o = os.path.join(d, s.replace('/', '_')[:-2] + '.bc')
            r = sh([CLANG] + COMMON + CONFIGS[cfg] + ['-I' + REPO + '/include', s, '-o', o], cwd=REPO)
            if r.returncode:
                raise Broken('cannot compile %s: %s' % (s, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, srcs))
        self.objs[cfg] = dict(zip(srcs, objs))
        out = os.path.join(self.tmp, 'lib%s.bc' % cfg)
        r = sh([LINK] + objs + ['-o', out])
        if r.returncode:
            raise Broken('link failed: ' + r.stderr[-1500:])
        self.libs[cfg] = out
        self.info['translation_units'] = len(srcs)
        return out

    def prog(self, cfg, harness, defs=()):
        key = (cfg, harness, tuple(defs))
        if key in self.progs:
            return self.progs[key]
        lib = self.lib(cfg)
        base = os.path.join(self.tmp, '%s_%s_%d' % (cfg, os.path.basename(harness)[:-2], len(self.progs)))
        r = sh([CLANG] + COMMON + CONFIGS[cfg] + list(defs) +
               ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness',
                os.path.join(VERIF, 'harness', harness), '-o', base + '.h.bc'])
        if r.returncode:
            raise Broken('harness %s does not compile against the public headers: %s' % (harness, r.stderr[-1500:]))
        # a harness that includes a library source stands in for it
        owns = re.findall(r'#include "(\w+\.c)"', open(os.path.join(VERIF, 'harness', harness)).read())
        objs = [o for s, o in self.objs[cfg].items() if os.path.basename(s) not in owns] if owns else [lib]
        r = sh([LINK] + objs + [base + '.h.bc', '-o', base + '.l.bc'])
        if r.returncode:
            raise Broken('link failed: ' + r.stderr[-1500:])
        r = sh([TVET, 'prep', base + '.l.bc', base + '.bc'], timeout=300)
        if r.returncode:
            raise Broken('canonicalisation failed: ' + r.stderr[-1500:])
        self.progs[key] = base + '.bc'
        return base + '.bc'

    # -- abstract interpretation ----------------------------------------
    def run(self, jobs, kinds=()):
        """jobs: list of (label, prog, entry, options); kinds: report kinds that
        decide the property, after which an entry need not be finished"""
        def one(j):
            label, prog, entry, opts = j
            left = BUDGET - (time.time() - self.t0)
            if left < 5:
                self.broken.append('time budget spent before %s (%s)' % (entry, label))
                return None
            opts = list(opts) + ['--secs=%d' % left, '--stop=' + ','.join(sorted(kinds))]
            out = os.path.join(self.tmp, 'r_%s_%s.json' % (re.sub(r'\W', '_', label), entry))
            try:
                r = sh([TVET, 'ai', prog, entry] + list(opts) + ['--out=' + out], timeout=left + 30)
            except subprocess.TimeoutExpired:
                self.broken.append('analysis of %s (%s) exceeded its time budget' % (entry, label))
                return None
            if r.returncode:
                self.broken.append('analysis of %s (%s) failed (%d): %s' % (entry, label, r.returncode, r.stderr[-800:]))
                return None
            d = json.load(open(out))
            d['label'] = label
            return d
        with ThreadPoolExecutor(JOBS) as ex:
            res = [d for d in ex.map(one, jobs) if d]
        for d in res:
            for n in d['notes']:
                self.broken.append('%s %s: %s' % (d['label'], d['entries'], n))
            for r in d['reports']:
                if r['kind'] == 'ENGINE':
                    self.broken.append('%s %s: %s' % (d['label'], d['entries'], r['detail']))
        self.runs += res
        return res

    def need(self, ok, why):
        if not ok:
            self.broken.append(why)

    def violation(self, rule, where, detail, **kw):
        v = dict(rule=rule, where=where, detail=detail)
        v.update(kw)
        key = (rule, where, kw.get('function'), kw.get('var'))
        if key not in [(w['rule'], w['where'], w.get('function'), w.get('var')) for w in self.violations]:
            self.violations.append(v)

    def take(self, res, kinds, where=lambda r: True):
        for d in res:
            for r in d['reports']:
                if r['kind'] in kinds and where(r):
                    self.violation(r['kind'], '%s:%d' % (r['file'], r['line']), r['detail'],
                                   function=r['func'], var=r['var'], path=r['stack'],
                                   entry=d['entries'][0], config=d['label'])


def finish(ctx, level, coverage, assumptions):
    os.makedirs(EVID, exist_ok=True)
    known = load_known()
    live = []
    for v in ctx.violations:
        k = next((k for k in known if k['property'] == ctx.prop and k.get('function') == v.get('function') and k.get('var', '') == v.get('var', '')), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k['what']))
        else:
            live.append(v)
    cov = dict(coverage)
    cov['wall'] = round(time.time() - ctx.t0, 2)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              wall_s=round(time.time() - ctx.t0, 2), assumptions=assumptions, violations=live)
    path = os.path.join(EVID, ctx.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for v in live[:20]:
        print('%s: %s in %s: %s' % (v['where'], v['rule'], v.get('function', '?'), v['detail']))
        if v.get('path'):
            print('    via ' + v['path'][:400])
    if live:
        rp = os.path.join(EVID, ctx.prop + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(live, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    if ctx.broken:
        raise Broken('; '.join(ctx.broken[:5]))
    print('%s: held; analysed %s' % (ctx.prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items()
                                                        if isinstance(v, int))))
    return 0


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = json.loads(line[7:])
                out.append(d)
    return out
