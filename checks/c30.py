"""C30: compilation is a function of the program and the options."""
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import *
from flow import *
from behav import scale
from hist import validate
import gen as G

TARGETS = [('x86_64-linux-gnu', 64), ('i686-linux-gnu', 32), ('riscv32-unknown-elf', 32), ('arm-linux-gnueabi', 32), ('sparc-linux-gnu', 32), ('mips-linux-gnu', 32)]
# (reassoc: see findings/c30-reassoc.txt)
SCR = ['', 'local+cf+combo', 'inline+scalar+ldst+gvnpre', 'jt+ifconv+place+conv', 'gvnpre+bool+cf+osr+dne', 'parmem+combmem+norm2+inv+vrp+confopt']
OPTS = {'amd64': [(), ('scheduler=random',), ('regalloc=pref',), ('spill-algo=daemel',), ('pic',), ('ra-chordal-coloring=pbqp',)],
        'ia32': [(), ('scheduler=normal',), ('regalloc=pref', 'verify=0'), ('omitfp', 'optcc'), ('pic',), ('size',)]}
RICH = dict(builtins=.2, switch=.35, compound=.25, recursion=.2, volatile=.1, mem=.4, calls=.35)


def replay(c, exe, d):
    """reproducers of recorded findings: say so while they still fail (they do not count)"""
    for key, what in sorted(c.known.items()):
        m = re.match(r'file=(\S+) (.*)', what)
        if not m:
            continue
        head, text = open(os.path.join(VERIF, m.group(1))).read().split('\n', 1)
        f, outs = os.path.join(d, 'known.s'), set()
        for k in range(8):
            t = ('junk %d %d\n' % (97 * k, k + 1) if k else '') + text.replace('@OUT@', f)
            subprocess.run(['setarch', '-R', exe] + head.split(), input='P 1\n' + t + '\n.\n', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True)
            outs.add(open(f).read() if os.path.exists(f) else '')
        if len(outs) > 1:
            c.known_seen.add(key)
            print('KNOWN-FINDING: property=%s %s' % (c.prop, m.group(2)), flush=True)


def body(c):
    lib = build_lib()
    exe = build_driver('drv', lib)
    d = tempfile.mkdtemp(dir=scratch_root())
    recs, texts = [], []
    for triple, bits in TARGETS:
        fam = 'amd64' if 'x86_64' in triple else 'ia32' if 'i686' in triple else triple
        for ok, opts in enumerate(OPTS.get(fam, [()])):
            rng = random.Random('C30-%s-%d-%d' % (triple, ok, SEED))
            b = Batch(c, triple, bits, 8, opts)
            b.next = 1 + len(recs)
            n = scale(36 if not opts else 12)
            progs = []
            for j in range(n):
                i = b.next
                b.next += 1
                kw = dict(RICH)
                if rng.random() < .3:
                    kw.update(exprdepth=5, nvars=12)
                g = G.Gen(i, rng, b.modes, bits, 8, nonan=1, **kw)
                while G.dead_cycle(g.p):
                    g = G.Gen(i, rng, b.modes, bits, 8, nonan=1, **kw)
                s = rng.choice(SCR)
                if not opts and rng.random() < .25:
                    s = '+'.join(x for _ in range(2) for x in rng.choice(SCR).split('+') if x)
                progs.append((i, g.p.driver_text(('opt 1',), ['opt 1'] + ['pass ' + x for x in s.split('+') if x] +
                                                 ['pass lhlall', 'pass lmux', 'pass lowerq', 'emit @OUT@'])))
            # how the same program is compiled: (name, prefix, address space randomisation)
            ways = [('plain', '', False), ('again', '', False), ('randomised addresses', '', True)]
            ways += [('unrelated identifiers and heap layout %d' % k, 'junk %d %%d\n' % (97 * k), bool(k % 2)) for k in range(1, 14 if THOROUGH_ else 6)]
            outs = {}
            def build(w):
                k, (name, pre, aslr) = w
                parts = []
                for i, t in progs:
                    f = '%s/%d-%d.s' % (d, i, k)
                    t1 = t.replace('@OUT@', f)
                    t1 = (pre % (i * 13 + k) if pre else '') + t1
                    parts.append('P %d\n%s\n.\n' % (i, t1))
                r = subprocess.run(([] if aslr else ['setarch', '-R']) + [exe, triple] + list(opts), input=''.join(parts), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors='replace', timeout=300, cwd=d)
                if r.returncode:
                    raise CheckError('driver failed: ' + r.stderr[-300:])
                res = {}
                for l in r.stdout.splitlines():
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j['tag'] == 'exit' and (j['status'] or j['sig']):
                        if j['status'] == 99:
                            raise CheckError('driver: ' + j['err'])
                        res[j['id']] = 'fails in %s (%d, %d)' % (j['stage'], j['status'], j['sig'])
                for i, t in progs:
                    f = '%s/%d-%d.s' % (d, i, k)
                    if i not in res:
                        res[i] = hashlib.sha1(open(f, 'rb').read()).hexdigest() if os.path.exists(f) else 'nothing'
                return name, res
            with ThreadPoolExecutor(8) as ex:
                got = list(ex.map(build, enumerate(ways)))
            for i, t in progs:
                recs.append({'ev': [{'key': '%d %s %s' % (i, triple, ' '.join(opts)), 'how': name, 'out': res[i]} for name, res in got]})
                texts.append((t, triple, opts, ['%s/%d-%d.s' % (d, i, k) for k in range(len(ways))]))
                if any(str(r[i]).startswith('fails') for _, r in got):
                    c.cov.setdefault('failures', {}); c.cov['failures'].setdefault(triple + ': ' + str(got[0][1][i]), 0); c.cov['failures'][triple + ': ' + str(got[0][1][i])] += 1; c.add('programs_failing_everywhere' if len(set(r[i] for _, r in got)) == 1 else 'programs_failing_sometimes')
            c.add('programs', len(progs))
            c.add('compilations', len(progs) * len(ways))
            c.cov.setdefault('programs_by_options', {})[' '.join((triple,) + tuple(opts))] = len(progs)

    def describe(x):
        t, triple, opts, files = texts[x['g'] - 1]
        ev = recs[x['g'] - 1]['ev']
        import difflib
        diff = []
        try:
            a, b = [open(files[k], errors='replace').read().splitlines() for k in (0, x['i'] - 1)]
            diff = list(difflib.unified_diff(a, b, lineterm='', n=1))[:60]
        except OSError:
            pass
        return ('the output for the same program differs: %s, target %s %s' % (x['how'], triple, ' '.join(opts)),
                {'program': t, 'target': triple, 'options': list(opts), 'events': ev, 'diff': diff}, '%s:%s' % (triple, x['how']))
    replay(c, exe, d)
    validate(c, 'Determinism', recs, sum(1 + len(r['ev']) for r in recs), describe, env_name='RECS')
    shutil.rmtree(d)


if __name__ == '__main__':
    from vlib import TIER
    THOROUGH_ = TIER == 'thorough'
    vlib.main('C30', 'model_checking', body)
