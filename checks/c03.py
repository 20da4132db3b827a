"""C03: hash sets and maps.  Recorded histories of every container are checked by ADT.tla."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from hist import *
from adt import *

KINDS = ['psetnew', 'cpset', 'pmap', 'pset', 'psetptr', 'set', 'nodeset', 'nodehash', 'nodemap', 'valueset']
REMOVABLE = {'psetnew', 'cpset', 'pset', 'psetptr', 'nodeset', 'nodehash', 'nodemap', 'valueset'}
STRICT = {'pset', 'psetptr'}            # removal requires presence
ITER = set(KINDS) - {'nodemap'}
ITERREM = {'psetnew', 'cpset', 'nodeset', 'nodehash', 'valueset'}
VALUED = {'cpset', 'pmap', 'pset', 'set', 'nodehash', 'nodemap', 'valueset'}


class Gen:
    """chooses operations; tracks only what the API's contract needs (presence for strict removal)"""
    def __init__(self, rng, kind, params):
        self.rng, self.kind = rng, kind
        self.h = new_hist(kind, params)
        self.keys = [set(), set(), set()]
        self.uses = [1] if rng.random() < 0.7 else [0, 1, 2]

    def ev(self, o, s, a=0, b=0, c=0):
        add(self.h, o, s, a, b, c)

    def ins(self, s, k):
        v = self.rng.randrange(1, 200) if self.kind in VALUED else 0
        o = 'ins'
        if self.kind in ('pset', 'set') and self.rng.random() < 0.3:
            o = 'hins'
        if self.kind == 'valueset' and self.rng.random() < 0.3:
            o = 'rep'
        self.ev(o, s, k, v)
        self.keys[s].add(k)

    def rem(self, s, k):
        if self.kind not in REMOVABLE or (self.kind in STRICT and k not in self.keys[s]):
            return
        self.ev('rem', s, k)
        self.keys[s].discard(k)

    def it(self, s, full=True):
        if self.kind not in ITER:
            return
        n = 1 << 30 if full else self.rng.randrange(0, 6)
        if full and self.kind in ITERREM and self.rng.random() < 0.5:
            mod = self.rng.choice([1, 2, 3, 5])
            r = self.rng.randrange(mod)
            self.ev('iter', s, n, mod, r)
            self.keys[s] = {k for k in self.keys[s] if k % mod != r}
        else:
            self.ev('iter', s, n)

    def size(self, s):
        if self.kind != 'nodemap':
            self.ev('size', s)


def phases(g, total, nkeys):
    rng = g.rng
    n = 0
    while n < total:
        s = rng.choice(g.uses)
        ph = rng.choice(['grow', 'shrink', 'mix', 'churn', 'probe', 'growseq'])
        m = min(total - n, rng.randrange(5, max(6, total // 3)))
        base = rng.randrange(nkeys)
        for j in range(m):
            k = rng.randrange(nkeys)
            x = rng.random()
            if ph == 'grow':
                g.ins(s, k)
            elif ph == 'growseq':
                g.ins(s, (base + j) % nkeys)
            elif ph == 'shrink':
                g.rem(s, rng.choice(sorted(g.keys[s])) if g.keys[s] and x < 0.9 else k)
            elif ph == 'mix':
                if x < 0.4: g.ins(s, k)
                elif x < 0.7: g.rem(s, k)
                else: g.ev('get', s, k)
            elif ph == 'churn':     # insert and remove the same few keys over and over: deleted entries pile up
                if x < 0.5: g.ins(s, (base + j // 2 % 7) % nkeys)
                else: g.rem(s, (base + j // 2 % 7) % nkeys)
            else:
                g.ev('get', s, k)
            if rng.random() < 0.05:
                g.size(s)
            if rng.random() < 0.03:
                g.it(s, rng.random() < 0.6)
        n += m
        g.size(s)
        if g.kind == 'psetptr' and rng.random() < 0.3 and len(g.uses) > 1:
            t = rng.choice([u for u in g.uses if u != s])
            g.ev('merge', s, t)
            g.keys[s] |= g.keys[t]
            g.size(s)
    for s in g.uses:
        for k in sorted(g.keys[s]):
            if rng.random() < 0.5:
                g.ev('get', s, k)
        for _ in range(10):
            g.ev('get', s, rng.randrange(nkeys))
        g.it(s)
        g.size(s)
        g.it(s)


def params(rng, kind):
    slots = rng.choice([0, 0, 0, 1, 2, 5, 16, 40, 100])
    if kind in ('psetnew', 'pmap', 'psetptr'):
        return [rng.choice([8, 16, 0x1000, 0x7f0000000000]), rng.choice([1, 8, 16, 64, 256, 4096, 1 << 20, 1 << 35]), slots]
    if kind in ('cpset', 'pset', 'set'):
        return [rng.choice([0, 0, 1, 2, 3, 4, 5]), 0, slots]
    return [rng.choice([1, 1, 3, 2, 8, 16]), 0, slots]      # node stride: different for different keys below 256


def histories(chk):
    rng = chk.rng
    hs = []
    scale = 6 if TIER == 'thorough' else 1
    # exhaustive short histories
    for kind in KINDS:
        alpha = [('ins', 1, 11), ('ins', 1, 12), ('ins', 2, 13), ('get', 1, 0), ('get', 2, 0), ('iter', 1 << 30, 0)]
        if kind in REMOVABLE:
            alpha += [('rem', 1, 0), ('rem', 2, 0)]
        if kind == 'nodemap':
            alpha = [a for a in alpha if a[0] != 'iter']
        if kind == 'valueset':
            alpha.append(('rep', 1, 14))
        p = {'cpset': [1, 0, 1], 'pset': [1, 0, 1], 'set': [1, 0, 1]}.get(kind, [16, 4096, 1] if kind in ('psetnew', 'pmap', 'psetptr') else [1, 0, 1])
        for seq in itertools.product(alpha, repeat=3 if TIER == 'quick' else 4):
            present = set()
            ok = True
            h = new_hist(kind, p)
            for o, a, b in seq:
                if o == 'rem':
                    if kind in STRICT and a not in present:
                        ok = False
                        break
                    present.discard(a)
                if o in ('ins', 'rep'):
                    present.add(a)
                add(h, o, 0, a, b if kind in VALUED else 0)
            if ok:
                add(h, 'get', 0, 1)
                add(h, 'get', 0, 2)
                if kind != 'nodemap':
                    add(h, 'size', 0)
                    add(h, 'iter', 0, 1 << 30)
                hs.append(h)
    for kind in KINDS:
        for n in range(30 * scale):
            g = Gen(rng, kind, params(rng, kind))
            nkeys = rng.choice([3, 8, 20, 60, 150, 250])
            phases(g, rng.choice([60, 150, 300, 500]), nkeys)
            hs.append(g.h)
        # large: several doublings and segment splits
        for n in range(scale):
            p = params(rng, kind)
            if kind in ('cpset', 'pset', 'set'):
                p[0] = rng.choice([0, 3, 4])
            elif kind not in ('psetnew', 'pmap', 'psetptr'):
                p[0] = 1
            g = Gen(rng, kind, p)
            g.uses = [1]
            N = 1200
            for k in rng.sample(range(N), N if TIER == 'thorough' else 700):
                g.ins(1, k)
            g.size(1)
            for k in rng.sample(range(N), 250):
                g.ev('get', 1, k)
            g.it(1)
            for k in rng.sample(sorted(g.keys[1]), len(g.keys[1]) * 9 // 10):
                g.rem(1, k)
            g.size(1)
            for k in range(0, N, 9):
                g.ev('get', 1, k)
            for k in range(40):
                g.ins(1, k)         # may shrink here
            g.it(1)
            g.size(1)
            for k in range(0, N, 9):
                g.ev('get', 1, k)
            hs.append(g.h)
    return hs


def body(c):
    run_adt(c, histories(c), 'C03')
    c.assumptions += ['operations that the API forbids (removing an absent element from a pset, inserting during an iteration, '
                      'the two reserved pointers) are not generated']


if __name__ == '__main__':
    main('C03', 'model_checking', body)
