"""C28: assignment, matching and PBQP solvers.  Answers of the real solvers are judged by Solvers.tla."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from hist import *

SC = 20 if TIER == "thorough" else 2


def one(kind, line, rec):
    return {'head': 'H', 'ops': [line], 'rec': dict(rec, k=kind), 'name': kind}


def hung(rng, hs):
    for n in range(500 * SC):
        r, c = rng.randrange(1, 6), rng.randrange(1, 6)
        if n % 50 == 0:
            r, c = 6, rng.randrange(4, 7)
        s = max(r, c)
        perfect, mx = rng.randrange(2), rng.randrange(2)
        span = rng.choice([2, 3, 10, 1000, 1000000])
        dens = rng.choice([1, 1, 0.7, 0.4])
        m = [[0] * s for _ in range(s)]
        row, col = [0] * s, [0] * s
        adds = []
        for i in range(r):
            for j in range(c):
                if rng.random() < dens:
                    v = rng.randrange(span)
                    if rng.random() < 0.1:          # overwritten later
                        adds.append((i, j, rng.randrange(span)))
                    adds.append((i, j, v))
                    m[i][j] = v
                    row[i] = col[j] = 1
        if perfect and adds and rng.random() < 0.3:
            for _ in range(3):
                i, j, _v = rng.choice(adds)
                adds.append((i, j, -1))
                m[i][j] = 0
        line = 'hung %d %d %d %d %d ' % (r, c, perfect, mx, len(adds)) + ' '.join('%d %d %d' % a for a in adds)
        hs.append(one('hung', line, {'r': r, 'c': c, 'perfect': perfect, 'max': mx, 'm': m, 'row': row, 'col': col}))


def bip(rng, hs):
    def put(l, r, edges, rem):
        line = 'bip %d %d %d ' % (l, r, len(edges)) + ' '.join('%d %d' % e for e in edges) + ' %d ' % len(rem) + ' '.join('%d %d' % e for e in rem)
        hs.append(one('bip', line, {'l': l, 'r': r, 'e': sorted(set(edges) - set(rem))}))
    pairs = [(i, j) for i in range(3) for j in range(3)]
    for bits in range(512):
        put(3, 3, [p for k, p in enumerate(pairs) if bits >> k & 1], [])
    for n in range(400 * SC):
        l, r = rng.randrange(1, 8), rng.randrange(1, 8)
        d = rng.choice([0.15, 0.3, 0.5, 0.8])
        e = [(i, j) for i in range(l) for j in range(r) if rng.random() < d]
        rng.shuffle(e)
        put(l, r, e, rng.sample(e, len(e) // 6) if rng.random() < 0.3 else [])
    for n in range(60 * SC):        # long augmenting paths
        k = rng.randrange(3, 8)
        L, R = list(range(k)), list(range(k))
        rng.shuffle(L)
        rng.shuffle(R)
        e = [(L[i], R[i]) for i in range(k)] + [(L[i], R[i + 1]) for i in range(k - 1)]
        if rng.random() < 0.5:
            e.remove((L[k - 1], R[k - 1]))
        put(k, k, e, [])


def pbqp(rng, hs):
    for n in range(900 * SC):
        nodes = rng.choice([1, 2, 3, 3, 4, 4, 5])
        kmax = 3 if nodes <= 4 else 2
        lens = [rng.randrange(1, kmax + 1) for _ in range(nodes)]
        span = rng.choice([2, 4, 20, 100000])
        inf = rng.choice([0, 0, 0.1, 0.3])
        def cost():
            return -1 if rng.random() < inf else rng.randrange(span)
        c = [[rng.randrange(span) if k == 0 or rng.random() > inf else -1 for k in range(l)] for l in lens]
        for v in c:
            rng.shuffle(v)
        shape = rng.choice(['tree', 'cycle', 'tw2', 'any', 'full'])
        e = []
        if shape == 'tree':
            e = [(rng.randrange(i), i) for i in range(1, nodes)]
        elif shape == 'cycle':
            e = [(i, (i + 1) % nodes) for i in range(nodes)]
        elif shape == 'tw2':
            e = [(i - 1, i) for i in range(1, nodes)] + [(i - 2, i) for i in range(2, nodes)]
        elif shape == 'full':
            e = [(i, j) for i in range(nodes) for j in range(i)]
        else:
            e = [(rng.randrange(nodes), rng.randrange(nodes)) for _ in range(rng.randrange(nodes * 2))]
        perm = list(range(nodes))
        rng.shuffle(perm)
        e = [(perm[a], perm[b]) for a, b in e]
        rng.shuffle(e)
        edges = []
        for a, b in e:
            kind = rng.randrange(4)
            m = [[cost() for _ in range(lens[b])] for _ in range(lens[a])]
            if kind == 0:       # equality-like matrices, as in instruction selection
                m = [[0 if i == j else (-1 if inf and rng.random() < 0.5 else span) for j in range(lens[b])] for i in range(lens[a])]
            elif kind == 1:     # independent edge: row part plus column part
                ra, cb = [rng.randrange(span) for _ in range(lens[a])], [rng.randrange(span) for _ in range(lens[b])]
                m = [[x + y for y in cb] for x in ra]
            edges.append({'s': a, 't': b, 'm': m})
        infinite = any(v < 0 for r in c for v in r) or any(v < 0 for x in edges for r in x['m'] for v in r)
        dense = any(sum(a != b and i in (a, b) for a, b in {tuple(sorted(q)) for q in e}) > 2 for i in range(nodes))
        for solver in ([0, 3] if n % 2 else [0, 1, 2]):
            if solver == 2 and infinite and dense:
                continue        # late decision: may run into a dead end, which it asserts not to happen
            p = list(range(nodes))
            rng.shuffle(p)
            line = 'pbqp %d %d ' % (solver, nodes) + ' '.join('%d %s' % (len(v), ' '.join(map(str, v))) for v in c)
            line += ' %d ' % len(edges) + ' '.join('%d %d %s' % (x['s'], x['t'], ' '.join(str(v) for r in x['m'] for v in r)) for x in edges)
            line += ' ' + ' '.join(map(str, p))
            hs.append(one('pbqp', line, {'n': nodes, 'c': c, 'e': edges, 'exact': int(solver == 3), 'solver': solver}))


def body(c):
    hs = []
    for f in (hung, bip, pbqp):
        f(c.rng, hs)
    drv = build_driver('soldrv', build_lib())
    done = record(c, drv, hs)
    recs = []
    for k in done:
        o, r = hs[k]['out'][0], dict(hs[k]['rec'])
        if r['k'] == 'hung':
            r.update(res=o[0], cost=o[1], **{'as': o[2:]})
        elif r['k'] == 'bip':
            r.update(adj=o[r['l']:], **{'as': o[:r['l']]})
        else:
            r.update(cost=o[0], sel=o[1:])
        recs.append(r)
        c.add('instances_' + r['k'])
    for k in range(0, len(recs), max(1, len(recs) // 3)):
        c.sample(recs[k])

    def describe(b):
        r = recs[b['h'] - 1]
        return '%s: wrong answer' % r['k'], r, None
    validate(c, 'Solvers', recs, 2 * len(recs), describe, env_name='INST')


if __name__ == '__main__':
    main('C28', 'model_checking', body)
