"""Control-flow graphs and the analyses of them, judged by spec/Analyses.tla."""
import itertools, json, random
from vlib import *
from hist import record, validate

PASSES = ['cf', 'unreach', 'crit', 'bads', 'tuples', 'oneret', 'nret', 'jt', 'local', 'df', 'place', 'combo', 'gvnpre', 'ifconv', 'inv', 'bool', 'dne',
          'confirm', 'rmconf', 'conv', 'occult', 'ldst', 'lcssa', 'parmem', 'rmphi', 'frame', 'tail']
NO_ONE = 8191 & ~16
NO_MANY = 8191 & ~4096


def g_line(succ, extra=0, data=0, seed=1):
    return 'G %d %d %d %d %s' % (len(succ), extra, data, seed, ' '.join(' '.join(map(str, [len(s)] + list(s))) for s in succ))


def all_cfgs(n):
    """every control-flow graph of n blocks with at most two successors each; conditional jumps up to swapping"""
    opts = [()] + [(a,) for a in range(1, n + 1)] + [(a, b) for a in range(1, n + 1) for b in range(a, n + 1)]
    return itertools.product(opts, repeat=n)


def rand_cfg(rng, n):
    style = rng.random()
    succ = []
    for i in range(1, n + 1):
        k = rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 4]) if i > 1 else rng.choice([1, 2, 2, 2, 3])
        if style < 0.5:     # mostly forward and structured, some back edges
            s = [min(n, i + 1 + int(rng.expovariate(0.7))) if rng.random() < 0.72 else rng.randint(1, min(n, i + 1)) for _ in range(k)]
        else:
            s = [rng.randint(1, n) for _ in range(k)]
        succ.append(s)
    return succ


def dag_cfg(rng, n):
    return [[rng.randint(i + 1, min(n, i + 4)) for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 2, 3, 4]) if i > 1 else 2)] if i < n else [] for i in range(1, n + 1)]


def dag_hist(rng, ops, name, nmax=12):
    """no cycles, hence conditions may well be decidable"""
    return {'head': 'H', 'ops': [g_line(dag_cfg(rng, rng.randint(2, nmax)), 0, rng.choice([1, 2, 4]), rng.randint(1, 10 ** 6))] + ops, 'name': name}


def rand_hist(rng, ops, name, nmax=12, calls=False):
    return {'head': 'H', 'ops': [g_line(rand_cfg(rng, rng.randint(2, nmax)), rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 1, 2, 4]) + 8 * calls, rng.randint(1, 10 ** 6))] + ops,
            'name': name}


def want_of(op):
    if op[0] != 'A':
        return []
    m = int(op[1:])
    return [i for i in range(13) if m >> i & 1]


def run(chk, drv, hists, only, timeout=120, group=2500, names=None):
    """record the histories, judge the names `only` of all records"""
    total = 0
    for a in range(0, len(hists), group):
        part = hists[a:a + group]
        done = record(chk, drv, part, timeout, conv=lambda l: json.loads(l))
        recs, of = [], []
        for k in done:
            h = part[k]
            for o, r in zip(h['ops'], h['out']):
                if not r:
                    continue
                r['want'] = want_of(o)
                r['only'] = [n for n in only if n in r]
                recs.append(r)
                of.append((h, o))
        if not recs:
            continue

        def describe(b):
            h, o = of[b['g'] - 1]
            r = recs[b['g'] - 1]
            return ('%s after %s' % ('; '.join(b['err']), o), {'ops': h['ops'], 'at': o, 'err': b['err'], 'record': r}, ';'.join(sorted(b['err'])))
        validate(chk, 'Analyses', recs, 2 * len(recs), describe, env_name='RECS', heap='16g')
        total += len(recs)
        for r in recs:
            for n in r['only']:
                chk.add('judged_' + n, 1)
    return total


def seq_ops(rng, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.45:
            m = rng.choice([NO_ONE, NO_MANY, NO_ONE, NO_MANY, 1 << rng.randrange(13), 1 << rng.randrange(13) | 1 << rng.randrange(13), rng.randrange(1, 8192)])
            if m & 16 and m & 4096:
                m &= ~rng.choice([16, 4096])
            ops.append('A %d' % m)
        elif x < 0.95:
            ops.append('P ' + rng.choice(PASSES))
        else:
            ops.append('C')
    return ops


STORED = ['dom', 'pdom', 'df', 'loops', 'edges', 'outs', 'props', 'c1', 'c2']


# --------------------------------------------------------------- real programs
def judge(chk, recs, only, what):
    """recs: [(record, context)]"""
    for a in range(0, len(recs), 1200):
        part = recs[a:a + 1200]
        for r, _ in part:
            r.setdefault('want', [])
            r['only'] = [n for n in only if n in r]

        def describe(b):
            r, c = part[b['g'] - 1]
            return ('%s: %s after %s' % (what, '; '.join(b['err']), c.get('after')), dict(c, err=b['err'], record=r), ';'.join(sorted(b['err'])))
        validate(chk, 'Analyses', [r for r, _ in part], 2 * len(part), describe, env_name='RECS', heap='20g')
        for r, _ in part:
            for n in r['only']:
                chk.add('judged_' + n, 1)


def programs(chk, lib, n, scripts, only, key, nodes=500 if TIER == "thorough" else 220, **kw):
    """generated programs pushed through the library; the records of the analyses they print"""
    import behav, flow
    from flow import G
    b = flow.Batch(chk)
    rng = random.Random('%s-%s-%d' % (chk.prop, key, SEED))
    for _ in range(n):
        i = b.next
        b.next += 1
        g = G.Gen(i, rng, b.modes, 64, 8, **kw)
        while G.dead_cycle(g.p):
            g = G.Gen(i, rng, b.modes, 64, 8, **kw)
        b.progs[i] = (g.p, [])
        b.texts.append((i, g.p.driver_text(('opt 1',), scripts(rng))))
    b.drive(lib)
    behav.missing_done(b, chk)
    bad = flow.judge_exits(b, chk)
    recs = []
    for i in b.progs:
        if i in bad:
            continue
        text = dict(b.texts)[i]
        for js in b.out.get(i, []):
            if js.get('kind') in ('stored', 'fresh') and len(js['nodes']) <= nodes:
                t = js['tag'].split('/')
                if len(t) > 1 and t[1].isdigit():
                    js['want'] = [k for k in range(13) if int(t[1]) >> k & 1]
                recs.append((js, {'program': text, 'fn': js['fn'], 'after': js['tag']}))
    judge(chk, recs, only, 'program')
    chk.add('programs', n)
    return len(recs)
