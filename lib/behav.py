"""Behaviour checks: batches of generated programs pushed through the library and judged by spec/Firm.tla."""
import re
import flow
from flow import *
import peep, selftest

IRRED_FREE = dict(goto=0.0)
FEATS = dict(floats=.15, builtins=.3, undef=.05, div=.5, switch=.3, volatile=.15, recursion=.2, compound=.2)


def missing_done(b, chk):
    """programs the driver did not finish without saying why"""
    for i in b.progs:
        rs = b.out.get(i, [])
        if not any(js['tag'] == 'done' for js in rs):
            slow = any(js['tag'] == 'exit' and js['sig'] for r in b.out.values() for js in r)
            if not slow:
                raise CheckError('driver lost program %d' % i)


def batch(chk, lib, plan, key='', orders=(0, 1), limit=400, keep=lambda tag: True, target='x86_64-linux-gnu', pbits=64, ll=8, opts=(),
          post=None, maxbad=6):
    """plan: list of dict(n, scripts, runs, kind='prog'|'peep', pre, final, **generator options)"""
    b = flow.Batch(chk, target, pbits, ll, opts)
    for k, pl in enumerate(plan):
        pl = dict(pl)
        n, scripts, nr = pl.pop('n'), pl.pop('scripts'), pl.pop('runs', 3)
        kind, pre, final = pl.pop('kind', 'prog'), pl.pop('pre', ('opt 1',)), pl.pop('final', ())
        deadcyc = pl.pop('deadcyc', False)
        rng = random.Random('%s-%s-%d-%d' % (chk.prop, key, k, SEED))
        for j in range(n):
            s = scripts(rng) if callable(scripts) else scripts[j % len(scripts)]
            s = s.split('+') if isinstance(s, str) else list(s)
            pr = rng.choice(pre) if pre and isinstance(pre[0], tuple) else pre
            i = b.next
            b.next += 1
            if kind == 'peep':
                g = peep.Peep(i, rng, b.modes, pbits, ll, **pl)
                b.add_prog(g.p, peep.peep_runs(rng, nr), s, pr, final)
            elif kind == 'arith':
                g = G.ArithGen(i, rng, b.modes, pbits, ll, **pl)
                b.add_prog(g.p, G.runs(rng, nr), s, pr, final)
            else:
                g = G.Gen(i, rng, b.modes, pbits, ll, **pl)
                while not deadcyc and G.dead_cycle(g.p):
                    g = G.Gen(i, rng, b.modes, pbits, ll, **pl)
                b.add_prog(g.p, G.runs(rng, nr), s, pr, final)
            chk.add('programs')
            for x in s:
                chk.cov.setdefault('applied', {})
                chk.cov['applied'][x] = chk.cov['applied'].get(x, 0) + 1
    log('generated', len(b.progs), 'programs', key)
    b.drive(lib)
    missing_done(b, chk)
    log('library done')
    bad = flow.judge_exits(b, chk)
    if post:
        post(b, bad)
    ids = [i for i in b.progs if i not in bad]
    if ids:
        flow.model(b, chk, ids, orders=orders, limit=limit, keep=keep, chunk=2000, maxbad=maxbad)
    for i in ids[:2]:
        t = dict(b.texts)[i].splitlines()
        chk.sample({'program': i, 'lines': len(t), 'script': [l for l in t if l[:2] in ('p ', 'x ')][:12]})
    return b


def replay_known(chk, lib, target='x86_64-linux-gnu', only=None):
    """reproducers of recorded findings: say so while they still fail (they do not count)"""
    for key, what in sorted(chk.known.items()):
        m = re.match(r'file=(\S+) (.*)', what)
        if not m:
            continue
        txt = open(os.path.join(VERIF, m.group(1))).read()
        body = txt.split('\n', 1)[1].rsplit('\n.', 1)[0]
        out = run_driver(lib, [(1, body)], target, shards=1)
        for js in out.get(1, []):
            if (js['tag'] == 'exit' and (js['status'] or js['sig'])) or js.get('ver', 1) == 0:
                if key not in chk.known_seen:
                    chk.known_seen.add(key)
                    print('KNOWN-FINDING: property=%s %s' % (chk.prop, m.group(2)), flush=True)
                break


def pipelines(passes, lo, hi, merge=None):
    merge = merge or {}

    def pick(rng):
        return '+'.join(merge.get(x, x) for x in [rng.choice(passes) for _ in range(rng.randint(lo, hi))])
    return pick


LCSSA = {k: k + '+df' for k in ('lcssa', 'unroll', 'unroll4')}
THOROUGH = TIER == 'thorough'


def scale(n, f=12):
    return n * f if THOROUGH else 2 * n


def once(n, f=12):
    """for the checks that run on several targets"""
    return n * f if THOROUGH else n
