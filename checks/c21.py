"""C21: use lists mirror operand lists.  Mutation histories are judged by Edges.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from hist import *

SC = 15 if TIER == "thorough" else 1
CLASS = {'S': 'M', 'N': 'M', 'P': 'I', 'A': 'I', 'U': 'I', 'J': 'X', 'Q': 'X', 'D': 'X', 'B': 'B', 'C': 'T', 'E': 'E'}
NMAX = 40


class G:
    """keeps the graph to choose operations of the right kinds; all nodes stay kept alive by End"""
    def __init__(self, rng):
        self.rng = rng
        self.g = {1: ['B', 0, []], 2: ['B', 0, []], 3: ['E', 0, []]}
        self.act = False
        self.h = {'head': 'H', 'ops': [], 'ev': [], 'name': 'edges'}
        self.n = 3

    def ev(self, o, text, **f):
        self.h['ops'].append(o + ' ' + text)
        self.h['ev'].append(dict({'o': o, 'a': 0, 'b': 0, 'p': 0, 'l': [], 'k': '', 'm': 1, 'r0': 0}, **f))

    def of(self, c, but=()):
        return [n for n, r in self.g.items() if CLASS[r[0]] == c and n not in but and n != 3 and n != 2]

    def pick(self, c, but=()):
        l = self.of(c, but)
        return self.rng.choice(l) if l else None

    def rename(self, f, t, but=0):
        for n, r in self.g.items():
            if n != but:
                r[2] = [t if x == f else x for x in r[2]]
                if r[1] == f:
                    r[1] = t

    def keep(self, n):
        self.g[3][2].append(n)

    def new(self, k):
        rng = self.rng
        if self.n >= NMAX:
            return
        blk = 0 if k == 'B' else self.pick('B')
        cls = {'S': 'M', 'P': 'I', 'A': 'I', 'B': 'X', 'C': 'I', 'Q': 'T'}.get(k)
        cnt = {'A': 2, 'C': 1, 'Q': 1, 'J': 0, 'U': 0, 'N': 0, 'D': 0}.get(k, rng.choice([0, 1, 2, 2, 3, 5]))
        cand = self.of(cls) if cls else []
        if cnt and not cand:
            if k in 'ACQ':
                return
            cnt = 0
        ops = [rng.choice(cand) for _ in range(cnt)]
        if k == 'Q':
            blk = self.g[ops[0]][1]
        if k == 'D':
            blk = 1
        self.n += 1
        self.g[self.n] = [k, blk, ops]
        self.keep(self.n)
        self.ev('new', '%d %d %d %d %s' % (self.n, ord(k), blk, len(ops), ' '.join(map(str, ops))), a=self.n, k=k, b=blk, l=list(ops))
        return self.n

    def users(self, n):
        return [s for s, r in self.g.items() if r[1] == n or n in r[2]]

    def step(self):
        rng = self.rng
        o = rng.choice(['new'] * 5 + ['setn'] * 5 + ['setin'] * 3 + ['add', 'add', 'rem', 'rem', 'move', 'copy', 'ka', 'dbl', 'reroute', 'except',
                       'exch', 'exch', 'kill', 'act', 'act', 'deact' if rng.random() < 0.5 else 'outs', 'outs', 'walk', 'walk'])
        ids = [n for n in self.g if n > 3]
        if o == 'new' or not ids:
            return self.new(rng.choice('BJJSSPPAAUUNCQD'))
        n = rng.choice(ids)
        k, blk, ops = self.g[n]
        cls = {'S': 'M', 'P': 'I', 'A': 'I', 'B': 'X', 'C': 'I'}.get(k)
        if o == 'setn':
            if k in 'CQ' and rng.random() < 0.5 or k in 'QD':
                return
            lo = 0 if k in 'BC' else -1
            if lo >= len(ops):
                return
            p = rng.randrange(lo, len(ops))
            t = self.pick('B' if p < 0 else cls)
            if t is None:
                return
            if p < 0:
                self.g[n][1] = t
            else:
                ops[p] = t
            self.ev('setn', '%d %d %d' % (n, p, t), a=n, p=p, b=t)
        elif o == 'setin' and k in 'SPB':
            cand = self.of(cls)
            if not cand:
                return
            cnt = rng.choice([0, 1, 2, 3, len(ops), len(ops), len(ops) + 1, max(0, len(ops) - 1)])
            l = [rng.choice(ops) if ops and rng.random() < 0.5 else rng.choice(cand) for _ in range(cnt)]
            self.g[n][2] = l
            self.ev('setin', '%d %d %s' % (n, len(l), ' '.join(map(str, l))), a=n, l=list(l))
        elif o == 'add' and k in 'SN':
            if len(ops) > 20:
                return
            t = self.pick('M')
            if t is None:
                return
            ops.append(t)
            self.ev('add', '%d %d' % (n, t), a=n, b=t)
        elif o == 'rem' and k in 'SN' and ops:
            p = rng.randrange(len(ops))
            last = ops.pop()
            if p < len(ops):
                ops[p] = last
            self.ev('rem', '%d %d' % (n, p), a=n, p=p)
        elif o == 'move':
            t = self.pick('B')
            c = self.pick('T')
            if c is None:
                return
            l = [c] + [x for x, r in self.g.items() if r[0] == 'Q' and r[2] == [c]]
            for x in l:
                self.g[x][1] = t
            self.ev('move', '%d %d %s' % (t, len(l), ' '.join(map(str, l))), b=t, l=l)
        elif o == 'copy' and k in 'SPAU' and self.n < NMAX:
            self.n += 1
            self.g[self.n] = [k, blk, list(ops)]
            self.keep(self.n)
            self.ev('copy', '%d %d' % (self.n, n), a=self.n, b=n)
        elif o == 'ka':
            l = ids + [rng.choice(ids) for _ in range(rng.randrange(3))]
            rng.shuffle(l)
            l = l[:55]
            self.g[3][2] = list(l)
            self.ev('ka', '%d %s' % (len(l), ' '.join(map(str, l))), l=l)
        elif o == 'dbl':
            q, seen = self.g[3][2], set()
            for j in range(len(q) - 1, -1, -1):
                if self.g[q[j]][0] == 'D' or q[j] in seen:
                    last = q.pop()
                    if j < len(q):
                        q[j] = last
                else:
                    seen.add(q[j])
            for x in ids:       # Bads must stay reachable to take part in (re)activation
                if self.g[x][0] == 'D' and not [s for s in self.users(x) if s != 3]:
                    del self.g[x]
                    self.dead = True
            self.ev('dbl', '')
            if getattr(self, 'dead', False):
                return 'stop'
        elif o in ('reroute', 'except') and self.act:
            t = self.pick(CLASS[k], (n,))
            if t is None or k in 'QDC':
                return
            if o == 'reroute':
                self.ev(o, '%d %d' % (n, t), a=n, b=t)
                if t in [x for x in self.g if self.g[x][1] == n or n in self.g[x][2]] and False:
                    return
                self.rename(n, t)
            else:
                us = [u for u in self.users(n) if self.g[u][0] not in 'CQ' and u > 3]
                if not us:
                    return
                x = rng.choice(us)
                self.ev(o, '%d %d %d' % (n, t, x), a=n, b=t, p=x)
                self.rename(n, t, x)
            # everything stays reachable through the keep-alive of End, which has moved along
            if n not in self.g[3][2]:
                if not [s for s in self.users(n)]:
                    return 'stop'
        elif o == 'exch':
            t = self.pick(CLASS[k], (n,))
            if t is None or k in 'QDC' or self.g[t][0] in 'QD' and k == 'J' and rng.random() < 0.5:
                return
            if not self.act and k == 'B':
                return              # only nodes in a block may become an Id
            self.ev('exch', '%d %d' % (n, t), a=n, b=t)
            self.rename(n, t, n)
            lost = set(ops)
            del self.g[n]
        elif o == 'kill':
            cand = [x for x in ids if set(self.users(x)) <= {3} and self.g[3][2].count(x) == 1]
            if not cand:
                return
            n = rng.choice(cand)
            q = self.g[3][2]
            j = max(j for j in range(len(q)) if q[j] == n)
            last = q.pop()
            if j < len(q):
                q[j] = last
            self.ev('kill', '%d' % n, a=n)
            del self.g[n]
        elif o == 'act':
            self.act = True
            self.ev('act', '')
        elif o == 'deact':
            self.act = False
            self.ev('deact', '')
        elif o == 'outs':
            self.ev('outs', '')
        elif o == 'walk' and self.act:
            t = self.pick(CLASS[k], (n,))
            if t is None or k in 'BCQD':
                return
            m = rng.choice([1, 2, 3])
            r0 = rng.randrange(m)
            self.ev('walk', '%d %d %d %d' % (n, t, m, r0), a=n, b=t, m=m, r0=r0)
            for s, r in self.g.items():
                if s > 3:
                    r[2] = [t if x == n and (s + p) % m == r0 else x for p, x in enumerate(r[2])]
                    if r[1] == n and (s - 1) % m == r0:
                        r[1] = t


def all_reachable(g):
    """contract of activation: no node used later is unreachable from End; no block, the start block included, is out of
    reach of the kept nodes against the control flow"""
    blk = lambda n: n if g[n][0] == 'B' else g[n][1]
    seen, todo = {2}, [blk(n) for n in g[3][2]]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += [blk(p) for p in g[n][2]]
    if not all(n in seen for n, r in g.items() if r[0] == 'B'):
        return False
    seen, todo = set(), [3, 1, 2]
    while todo:
        n = todo.pop()
        if n in seen or n == 0:
            continue
        seen.add(n)
        todo += [g[n][1]] + g[n][2]
    return all(n in seen for n in g)


def gen(rng, steps):
    x = G(rng)
    for k in ('U', 'B', 'J', 'B', 'U', 'U', 'N'):
        x.new(k)
    for _ in range(steps):
        if x.step() == 'stop' or not all_reachable(x.g):
            break
        if sum(len(r[2]) for r in x.g.values()) > 250:
            break
    return x.h


def check(chk):
    rng = chk.rng
    hs = [gen(rng, rng.choice([8, 20, 40, 80])) for _ in range(400 * SC)]
    lib = build_lib()
    drv = build_driver('edgedrv', lib)
    done = record(chk, drv, hs)
    recs, states = [], 0
    for k in done:
        h = hs[k]
        recs.append({'ev': [dict(e, r=r) for e, r in zip(h['ev'], h['out'])]})
        states += len(h['ev']) + 1
        for e in h['ev']:
            chk.add('op_' + e['o'], 1)
    log('recorded', len(recs), states)
    for k in range(0, len(recs), max(1, len(recs) // 3)):
        chk.sample({'events': recs[k]['ev'][:6]})

    def describe(b):
        r = recs[b['h'] - 1]
        e = r['ev'][b['i'] - 1]
        return ('after operation %d (%s) the use lists do not mirror the operands' % (b['i'], {k: v for k, v in e.items() if k != 'r'}),
                {'events': [{k: v for k, v in x.items() if k != 'r'} for x in r['ev'][:b['i']]], 'observed': e['r'], 'specified': b['st'][:6000]}, None)
    validate(chk, 'Edges', recs, states, describe)


if __name__ == '__main__':
    main('C21', 'model_checking', check)
