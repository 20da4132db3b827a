"""C27: layout of compound types and queries on class hierarchies, judged by Types.tla."""
import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import *
from hist import record, validate
from behav import scale


class H:
    def __init__(self, name):
        self.ops, self.ev, self.name = [], [], name
        self.cls, self.ents, self.sub, self.ov = set(), {}, set(), set()
        self.free = set()

    def op(self, o, a=0, b=0):
        self.ops.append('%s %d %d' % (o, a, b))
        self.ev.append({'o': o, 'a': a, 'b': b})

    def below(self, hi):          # classes below hi, with hi
        r = {hi}
        while True:
            n = r | {l for h, l in self.sub if h in r}
            if n == r:
                return r
            r = n

    def edge(self, hi, lo, o):
        if hi == lo or hi in self.below(lo) or (hi, lo) in self.sub:
            return False
        self.sub.add((hi, lo))
        self.op(o, hi, lo)
        return True

    def over(self, e, high):      # a member of a subclass overwrites one of a super-class
        ce, ch = self.ents[e], self.ents[high]
        if ce == ch or ce not in self.below(ch) or (e, high) in self.ov:
            return False
        self.ov.add((e, high))
        self.op('ov', e, high)
        return True


def exhaustive(hs):
    """every hierarchy on 4 classes (acyclic by the order 4 > 3 > 2 > 1 of one of two creation orders), then the closure"""
    pairs = [(a, b) for a in range(1, 5) for b in range(1, a)]
    for m in range(1 << len(pairs)):
        for order in ((1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)):
            h = H('exh')
            for c in order:
                h.cls.add(c)
                h.op('cls', c)
            es = [p for k, p in enumerate(pairs) if m >> k & 1]
            for k, (hi, lo) in enumerate(es):
                h.edge(hi, lo, 'sub' if (k + m) % 2 else 'sup')
            for c in range(1, 5):
                h.ents[c] = c
                h.op('ent', c, c)
            for hi, lo in es:
                h.over(lo, hi)
            h.op('comp')
            if es:
                hi, lo = es[m % len(es)]
                h.op('rmov', lo, hi)
                h.op('rm', hi, lo)
                h.op('comp')
                h.op('inval')
            hs.append(h)


def rnd(rng, hs):
    for _ in range(scale(500)):
        h = H('rnd')
        ne = 0
        n = rng.choice([3, 5, 8, 12])
        dens = rng.choice([1, 2, 4])
        for _ in range(rng.randrange(10, 60)):
            o = rng.choice(['cls', 'cls', 'comp', 'inval', 'drop', 'rm', 'rmov', 'free'] + ['sub', 'sup'] * dens + ['ent', 'ov', 'ov'] * 2)
            if o == 'cls':
                f = [c for c in range(1, n + 1) if c not in h.cls]
                if f:
                    c = rng.choice(f)
                    h.cls.add(c)
                    h.op('cls', c)
            elif o in ('sub', 'sup') and len(h.cls) > 1:
                h.edge(rng.choice(sorted(h.cls)), rng.choice(sorted(h.cls)), o)
            elif o == 'rm' and h.sub:
                hi, lo = rng.choice(sorted(h.sub))
                # members may only overwrite along the hierarchy
                h.sub.discard((hi, lo))
                for e, g in sorted(h.ov):
                    if h.ents[e] not in h.below(h.ents[g]):
                        h.ov.discard((e, g))
                        h.op('rmov', e, g)
                h.op('rm', hi, lo)
            elif o == 'ent' and h.cls and len(h.ents) < 12:
                e = len(h.ents) + 1
                h.ents[e] = rng.choice(sorted(h.cls))
                h.op('ent', e, h.ents[e])
            elif o == 'ov' and len(h.ents) > 1:
                h.over(rng.choice(sorted(h.ents)), rng.choice(sorted(h.ents)))
            elif o == 'rmov' and h.ov:
                e, g = rng.choice(sorted(h.ov))
                h.ov.discard((e, g))
                h.op('rmov', e, g)
            elif o == 'free':
                f = [c for c in h.cls if not any(c in p for p in h.sub) and c not in h.ents.values()]
                if f and 'comp' not in [x.split()[0] for x in h.ops]:     # the closure refers to the types
                    c = rng.choice(sorted(f))
                    h.cls.discard(c)
                    h.op('free', c)
            elif o in ('comp', 'inval', 'drop'):
                h.op(o)
        if rng.random() < .7:
            h.op('comp')
        hs.append(h)


def typ(rng, d):
    x = rng.random()
    if d <= 0 or x < .45:
        return rng.choice(['p%d' % rng.randrange(12), 'p%d' % rng.randrange(7), 'P', 'p%d@%d' % (rng.randrange(7), rng.choice([1, 2, 4, 8, 16]))])
    if x < .6:
        e = typ(rng, d - 1)
        return 'a%d %s' % (rng.randrange(1, 6), e)
    return comp(rng, d - 1)


def comp(rng, d):
    k = rng.choice('sssuc')
    n = rng.randrange(0, 7)
    ms = [typ(rng, d) for _ in range(n)]
    if n and k == 's' and rng.random() < .15:
        ms[-1] = 'a0 ' + typ(rng, 0)
    if k == 'c' and rng.random() < .4:
        ms.insert(rng.randrange(n + 1), 'm')
    return '%s%d %s' % (k, len(ms), ' '.join(ms))


def check(chk):
    rng = random.Random('C27-%d' % SEED)
    hs = []
    exhaustive(hs)
    rnd(rng, hs)
    lib = build_lib()
    drv = build_driver('typdrv', lib)
    recs, states = [], 0
    for target, ptr in (('x86_64-unknown-linux-gnu', 8), ('i686-linux-gnu', 4)):
        lay = []
        small = ['p0', 'p1', 'p2', 'p3', 'p7', 'p11', 'P', 'a3 p1', 'a2 p3']
        combos = [c for n in (1, 2, 3) for c in itertools.product(small, repeat=n)]
        for k in 's', 'u':
            for c in combos:
                lay.append('%s%d %s' % (k, len(c), ' '.join(c)))
        for _ in range(scale(2500)):
            lay.append(comp(rng, 3))
        g = []
        for k in range(0, len(lay), 100):
            h = H('lay')
            for t in lay[k:k + 100]:
                h.ops.append('L ' + t)
                h.ev.append({'o': 'lay', 'a': ptr, 'b': 0, 't': t})
            g.append(h)
        for g in (g, hs if ptr == 8 else []):
            data = [{'head': 'H', 'ops': h.ops, 'name': h.name} for h in g]
            for k in record(chk, drv, data, conv=json.loads, argv=(target,)):
                recs.append({'ev': [dict(e, r=r) for e, r in zip(g[k].ev, data[k]['out'])]})
                states += len(g[k].ev) + 1
                chk.add('histories_' + g[k].name)
        chk.add('layouts', len(lay))
    for k in range(0, len(recs), max(1, len(recs) // 3)):
        chk.sample({'events': [{x: e[x] for x in e if x != 'r'} for e in recs[k]['ev'][:6]]})

    def describe(b):
        r = recs[b['h'] - 1]
        e = r['ev'][b['i'] - 1]
        return ('wrong answer (%s) after operation %d (%s)' % (b['what'], b['i'], {k: v for k, v in e.items() if k != 'r'}),
                {'events': [{x: y for x, y in z.items() if x != 'r'} for z in r['ev'][:b['i']]] if e['o'] != 'lay' else e['t'], 'answers': e['r']}, None)
    validate(chk, 'Types', recs, states, describe)


if __name__ == '__main__':
    main('C27', 'model_checking', check)
