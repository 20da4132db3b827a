"""C20: the graph verifier against the definition of well-formedness (spec/Verify.tla)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from vlib import *
from flow import *
import flow, behav
from behav import once
import gen as G

SCR = [[], ['local', 'cf', 'combo'], ['inline0', 'scalar', 'ldst', 'gvnpre'], ['jt', 'ifconv', 'place'], ['gvnpre', 'bool', 'cf', 'osr'], ['inv', 'unroll', 'local'],
       ['confirm', 'vrp', 'confopt'], ['df', 'rmcrit'], ['oneret', 'rmbad', 'nret']]
RICH = dict(switch=.4, compound=.3, recursion=.2, volatile=.1, mem=.4, calls=.35, floats=.25, copyb=.2)


def body(c):
    lib = build_lib()
    build_driver('drv', lib)
    rng = random.Random('C20-%d' % SEED)
    b = Batch(c)
    for j in range(once(56)):
        i = b.next
        b.next += 1
        g = G.Gen(i, rng, b.modes, 64, 8, **RICH)
        while G.dead_cycle(g.p):
            g = G.Gen(i, rng, b.modes, 64, 8, **RICH)
        b.progs[i] = (g.p, [])
        lines = ['vx %d %d' % (rng.randint(1, 10 ** 6), 7)]
        if j % 2:
            for s in SCR[j // 2 % len(SCR)]:
                lines += ['pass ' + s]
            lines += ['vx %d %d' % (rng.randint(1, 10 ** 6), 7)]
        b.texts.append((i, g.p.driver_text(('opt %d' % (j % 3 != 0),), lines)))
    b.drive(lib)
    behav.missing_done(b, c)
    flow.judge_exits(b, c)
    texts = dict(b.texts)
    recs, of = [], []
    for i in b.progs:
        for js in b.out.get(i, []):
            if js.get('tag') == 'vx':
                of.append(i)
                recs.append(js)
    kinds, n = {}, 0
    for a in range(0, len(recs), 3000):
        part = recs[a:a + 3000]
        f = os.path.join(scratch_root(), 'verify.ndjson')
        write_ndjson(f, part)
        t = run_tlc('Verify', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'RECS': f}, heap='12g')
        c.tlc(t)
        if t.distinct != 2 * len(part):
            raise CheckError('Verify: %d states instead of %d' % (t.distinct, 2 * len(part)))
        os.unlink(f)
        wf = set()
        for p in t.prints():
            r = part[p['g'] - 1]
            if 'err' in p:
                n += 1
                if n <= 12:
                    c.violation('%s: %s' % (p['err'], 'as it is' if r['mut'] == 'none' else 'one change (%s) at node %d, %s' % (
                        r['mut'], r['at'], r['nodes'][r['at'] - 1] if r['at'] else '')), {'program': texts[of[a + p['g'] - 1]], 'graph': r})
            else:
                wf.add(p['g'])
        for k, r in enumerate(part):
            e = kinds.setdefault(r['mut'], {'well-formed': 0, 'ill-formed': 0})
            e['well-formed' if k + 1 in wf else 'ill-formed'] += 1
    if n == 0:
        for k, e in kinds.items():
            if k not in ('none', 'claim', 'kept') and e['ill-formed'] == 0 and sum(e.values()) > 60:
                raise CheckError('no ill-formed graph among the variations "%s"' % k)
    c.cov['graphs_by_change'] = kinds
    c.add('traces_validated_against_impl', len(recs))
    c.add('programs', len(b.progs))
    if recs:
        c.sample({'mut': recs[-1]['mut'], 'verdict': recs[-1]['verdict']})


if __name__ == '__main__':
    main('C20', 'model_checking', body)
