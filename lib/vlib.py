"""Shared plumbing of the checks: build libfirm, run TLC, report verdicts and evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl, random, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
T0 = time.time()
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GUARD = 'FIRM_VERIF_HOOKS'


class CheckError(Exception):
    """The check could not do its work (neither held nor violated)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def _hash_tree(roots, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith('.pyc')]
        for f in files:
            h.update(f.encode())
            try:
                with open(f, 'rb') as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()[:20]


class Lib:
    """An out-of-tree build of libfirm from REPO's working tree."""
    def __init__(self, path, opt):
        self.path, self.opt = path, opt
        self.a = os.path.join(path, 'debug', 'libfirm.a')
        self.gen = os.path.join(path, 'gen')

    def cflags(self):
        inc = [os.path.join(REPO, 'include', 'libfirm'), os.path.join(REPO, 'include'),
               os.path.join(REPO, 'include', 'libfirm', 'adt')]
        for base in (REPO, self.gen):
            ir = os.path.join(base, 'ir')
            if os.path.isdir(ir):
                inc += [os.path.join(ir, d) for d in sorted(os.listdir(ir)) if os.path.isdir(os.path.join(ir, d))]
        inc += [os.path.join(self.gen, 'include', 'libfirm'), self.gen]
        return ['-std=gnu99', '-g0', '-w', '-DDEBUG_libfirm', '-DHAVE_FIRM_REVISION_H', '-D' + GUARD] + \
            self.opt.split() + ['-I' + i for i in inc]


def build_lib(opt='-O1'):
    """make libfirm.a (assertions on, hooks on) from the working tree; cached by content."""
    os.makedirs(CACHE, exist_ok=True)
    key = _hash_tree([os.path.join(REPO, x) for x in ('Makefile', 'ir', 'include', 'scripts')], opt)
    path = os.path.join(CACHE, 'lib-' + key)
    with open(os.path.join(CACHE, 'lock-' + key), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib = Lib(path, opt)
        if not os.path.exists(os.path.join(path, 'ok')):
            # keep the cache small: only the four newest builds
            olds = sorted([os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('lib-')],
                          key=os.path.getmtime)
            for o in olds[:-3]:
                shutil.rmtree(o, ignore_errors=True)
            shutil.rmtree(path, ignore_errors=True)
            os.makedirs(path)
            env = dict(os.environ)
            for v in ('MAKEFLAGS', 'CFLAGS', 'CPPFLAGS', 'MFLAGS'):
                env.pop(v, None)
            env['LC_ALL'] = 'C'
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            base = ['make', 'CC=gcc', 'variant=debug', '--eval=.DELETE_ON_ERROR:', 'QUICKCHECK=true',
                    'CFLAGS_debug=%s -g0 -w' % opt, 'CPPFLAGS=-D' + GUARD, 'top_builddir=' + path]
            for tgt in (['-j1', 'gen'], ['-j8', path + '/debug/libfirm.a']):
                r = sh(base + tgt, cwd=REPO, env=env)
                if r.returncode != 0:
                    raise CheckError('libfirm does not build:\n' + r.stdout[-3000:])
            # objects are not needed any more
            shutil.rmtree(os.path.join(path, 'debug', 'ir'), ignore_errors=True)
            open(os.path.join(path, 'ok'), 'w').close()
            log('built libfirm')
        os.utime(path)
        return lib


def build_driver(name, lib, extra=(), srcs=None):
    srcs = srcs or [os.path.join(VERIF, 'drivers', name + '.c')]
    h = _hash_tree(srcs + [os.path.join(VERIF, 'drivers')], ' '.join(extra) + lib.path)
    out = os.path.join(lib.path, name + '-' + h)
    with open(os.path.join(CACHE, 'lock-' + os.path.basename(lib.path)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = sh(['gcc'] + lib.cflags() + ['-I' + os.path.join(VERIF, 'drivers')] + list(extra) + ['-o', out + '.tmp'] +
                   srcs + [lib.a, '-lm', '-lpthread'])
            if r.returncode != 0:
                raise CheckError('driver %s does not build:\n%s' % (name, r.stdout[-3000:]))
            os.rename(out + '.tmp', out)
            log('built driver', name)
    return out


def overrides():
    """Compile the Java accelerators of the specification (spec/*.tla define them)."""
    jd = os.path.join(VERIF, 'java')
    os.makedirs(CACHE, exist_ok=True)
    key = _hash_tree([jd])
    out = os.path.join(CACHE, 'cls-' + key)
    with open(os.path.join(CACHE, 'lock-cls'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            js = [os.path.join(jd, f) for f in sorted(os.listdir(jd)) if f.endswith('.java')]
            r = sh(['javac', '-cp', TLAJARS, '-d', tmp] + js)
            if r.returncode != 0:
                raise CheckError('javac failed: ' + r.stdout[-2000:])
            os.rename(tmp, out)
    return out


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.violated = rc in (12, 13)      # safety / liveness
        self.ok = rc == 0

    def prints(self):
        """values printed with PrintT(ToJson(..)) prefixed by @"""
        res, seen = [], set()
        for l in self.out.splitlines():
            if l.startswith('"@') and l not in seen:
                seen.add(l)
                try:
                    res.append(json.loads(json.loads(l)[1:]))
                except ValueError:
                    pass
        return res


def run_tlc(module, cfg, env=None, workers=8, use_ov=True, timeout=800, heap='12g', extra=(), stack='64m', coverage=False):
    """Run TLC on spec/<module>.tla with the configuration text cfg."""
    scratch = tempfile.mkdtemp(prefix='tlc-', dir=scratch_root())
    cfgf = os.path.join(scratch, module + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    cp = TLAJARS
    jopts = ['-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-DTLA-Library=' + os.path.join(VERIF, 'spec'),
             '-Djava.io.tmpdir=' + scratch]
    if use_ov:
        cp = overrides() + ':' + cp
        jopts.append('-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:WordsOv')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java'] + jopts + ['-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(scratch, 'meta'),
           '-noGenerateSpecTE', '-nowarning', '-config', cfgf] + list(extra) + [os.path.join(VERIF, 'spec', module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e,
                           timeout=timeout, cwd=scratch)
    except subprocess.TimeoutExpired as ex:
        raise CheckError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    t = Tlc(r.returncode, r.stdout)
    if not (t.ok or t.violated):
        raise CheckError('TLC error %d on %s:\n%s' % (r.returncode, module, '\n'.join(l[:300] for l in r.stdout.splitlines() if not l.startswith('@'))[-3000:]))
    return t


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, '.cache', 'run')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='%d-' % os.getpid(), dir=base)
    return _scratch


def words(v, n):
    """integer -> limbs"""
    v &= (1 << n) - 1
    return [(v >> (16 * i)) & 0xffff for i in range((n + 15) // 16)]


def unwords(l):
    return sum(x << (16 * i) for i, x in enumerate(l))


def write_ndjson(path, recs):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r, separators=(',', ':')))
            f.write('\n')


def known_findings(prop):
    """keys of the findings recorded (not repaired) for prop"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    """Collects coverage and ends the run with the interface the task asks for."""
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {}
        self.viol = []
        self.known = known_findings(prop)
        self.known_seen = set()
        self.assumptions = []
        self.samples = []
        self.rng = random.Random('%s-%d' % (prop, SEED))
        d = os.path.join(VERIF, 'evidence', 'replay')
        for f in os.listdir(d) if os.path.isdir(d) else ():
            if f.startswith(prop + '-'):
                os.unlink(os.path.join(d, f))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc(self, t):
        self.add('states', t.distinct)
        self.add('transitions', t.generated)

    def sample(self, s, maxn=4):
        if len(self.samples) < maxn:
            self.samples.append(s)

    def violation(self, what, data, key=None):
        """key: identity of the failing input, for the known-findings file"""
        if key is not None and key in self.known:
            if key not in self.known_seen:
                self.known_seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]), flush=True)
            return False
        if len(self.viol) >= 25:        # enough to look at
            self.viol.append(what)
            return True
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'seed': SEED, 'what': what, 'data': data}, f, indent=1, default=str)
        self.viol.append(what)
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        log('violation:', what)
        return True

    def finish(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        if self.samples:
            cov['samples'] = self.samples
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.viol)}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        log('done', 'violations=%d' % len(self.viol), json.dumps({k: v for k, v in cov.items() if k != 'samples'}, default=str)[:1500])
        return 1 if self.viol else 0


def main(prop, level, fn):
    """Run fn(check); exit 0 / 1 with VIOLATION line / 2 check error."""
    c = Check(prop, level)
    rc = 2
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e), file=sys.stderr)
        if c.viol:
            rc = c.finish()
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
