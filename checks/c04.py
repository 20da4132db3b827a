"""C04: deques, priority queues, arrays, bit sets, union-find.  Recorded histories are checked by ADT.tla."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from hist import *
from adt import *

SC = 6 if TIER == 'thorough' else 1


def deques(rng, hs):
    # pointers; a block holds about 1000 bytes: bulk pushes cross blocks
    for n in range(60 * SC):
        h = new_hist('deq', [0, 0, 0])
        ln = [0, 0, 0]
        v = 1
        big = rng.random() < 0.5
        for _ in range(rng.choice([20, 60, 120])):
            s = rng.choice([0, 0, 0, 1])
            x = rng.random()
            m = rng.choice([1, 1, 2, 3]) if not big else rng.choice([1, 2, 60, 100, 126, 127, 128, 129, 200])
            if x < 0.45:
                if ln[s] + m > 400:
                    continue
                add(h, rng.choice(['pushl', 'pushr']), s, v, m)
                v += m
                ln[s] += m
            elif x < 0.85:
                m = ln[s] if rng.random() < 0.25 else min(m, ln[s])
                if m:
                    add(h, rng.choice(['popl', 'popr']), s, 0, m)
                    ln[s] -= m
            else:
                add(h, 'empty', s)
                if ln[s]:
                    add(h, 'peek', s)
                if ln[s] and rng.random() < 0.5:
                    add(h, 'iter', s)
        for s in (0, 1):
            add(h, 'empty', s)
            add(h, 'iter', s)
            add(h, 'popl' if rng.random() < 0.5 else 'popr', s, 0, ln[s])
            add(h, 'empty', s)
            add(h, 'iter', s)
        hs.append(h)
    # items of other sizes
    for n in range(40 * SC):
        size = rng.choice([1, 3, 4, 12, 16, 24, 40, 100, 500, 900])
        h = new_hist('deq', [0, size, 0])
        ln = 0
        mode = 0
        for k in range(rng.choice([40, 150])):
            if rng.random() < 0.1:
                mode = rng.choice([0, 1, 2])
            if rng.random() < (0.5, 0.9, 0.1)[mode]:
                add(h, rng.choice(['allocl', 'allocr']), 0, rng.randrange(256))
                ln += 1
            elif ln:
                add(h, rng.choice(['takel', 'taker']), 0)
                ln -= 1
            else:
                add(h, 'empty', 0)
        while ln:
            add(h, rng.choice(['takel', 'taker']), 0)
            ln -= 1
        add(h, 'empty', 0)
        hs.append(h)
    # exhaustive short histories, starting at every fill level around the block border
    for pre in (0, 1, 125, 126, 127, 128, 253, 254):
        for seq in itertools.product(['pushl', 'pushr', 'popl', 'popr'], repeat=3 if TIER == 'quick' else 5):
            for side in 'lr':
                h = new_hist('deq', [0, 0, 0])
                if pre:
                    add(h, 'push' + side, 0, 1000, pre)
                ln = pre
                for j, o in enumerate(seq):
                    if o[:3] == 'pop' and ln == 0:
                        add(h, 'empty', 0)
                        continue
                    add(h, o, 0, j + 1, 1)
                    ln += 1 if o[:4] == 'push' else -1
                add(h, 'iter', 0)
                add(h, 'popl', 0, 0, ln)
                add(h, 'empty', 0)
                hs.append(h)


def pqueues(rng, hs):
    for prios in itertools.product(range(3), repeat=5 if TIER == 'quick' else 6):
        h = new_hist('pqueue', [0, 0, 0])
        for j, p in enumerate(prios):
            add(h, 'put', 0, j + 1, p - 1)
        for j in range(len(prios)):
            add(h, 'pop', 0)
            add(h, 'len', 0)
        hs.append(h)
    for n in range(60 * SC):
        h = new_hist('pqueue', [0, 0, 0])
        span = rng.choice([2, 5, 100, 1 << 30])
        ln = 0
        up = rng.random()
        for j in range(rng.choice([10, 40, 150])):
            if ln and rng.random() > 0.35 + 0.4 * up:
                add(h, 'pop', 0)
                ln -= 1
            else:
                add(h, 'put', 0, j + 1, rng.choice([rng.randrange(-span, span), j, -j]))
                ln += 1
            if rng.random() < 0.1:
                add(h, 'len', 0)
        while ln:
            add(h, 'pop', 0)
            ln -= 1
        add(h, 'len', 0)
        hs.append(h)


def arrays(rng, hs):
    for n in range(80 * SC):
        h = new_hist('arr', [0, 0, 0])
        ln = [0, 0, 0]
        for j in range(rng.choice([15, 40, 100])):
            s = rng.choice([0, 0, 1, 2])
            o = rng.choice(['app'] * 5 + ['resize', 'resize', 'setlen', 'shrink', 'extend', 'exto', 'put', 'dup', 'zeros', 'dump', 'len'])
            if o == 'app':
                for q in range(rng.choice([1, 1, 3, 20])):
                    add(h, 'app', s, rng.randrange(1000))
                    ln[s] += 1
            elif o == 'resize':
                m = rng.choice([0, 1, max(0, ln[s] - 1), ln[s], ln[s] + 1, ln[s] * 2 + 1, rng.randrange(60)])
                m = min(m, 250)
                add(h, 'resize', s, m, rng.randrange(1000))
                ln[s] = m
            elif o == 'setlen':
                m = rng.randrange(50)
                add(h, 'setlen', s, m, rng.randrange(1000))
                ln[s] = m
            elif o == 'shrink':
                m = rng.randrange(ln[s] + 1)
                add(h, 'shrink', s, m)
                ln[s] = m
            elif o == 'extend':
                m = rng.randrange(1, 12)
                add(h, 'extend', s, m, rng.randrange(1000))
                ln[s] += m
            elif o == 'exto':
                m = rng.randrange(60)
                add(h, 'exto', s, m)
                if m >= ln[s]:
                    ln[s] = m
                    add(h, 'setlen', s, m, rng.randrange(1000))
            elif o == 'put' and ln[s]:
                add(h, 'put', s, rng.randrange(ln[s]), rng.randrange(1000))
            elif o == 'dup':
                t = rng.choice([k for k in range(3) if k != s])
                add(h, 'dup', s, 0, t)
                ln[s] = ln[t]
            elif o == 'zeros':
                m = rng.randrange(40)
                add(h, 'zeros', s, m)
                ln[s] = m
            elif o in ('dump', 'len'):
                add(h, o, s)
        for s in range(3):
            add(h, 'len', s)
            add(h, 'dump', s)
        hs.append(h)


def bitops(rng, h, kind, n, steps):
    raw = kind == 'rbitset'
    def pos(): return rng.choice([0, n - 1, n // 2, rng.randrange(n), min(n - 1, 31), min(n - 1, 32), min(n - 1, 63), min(n - 1, 64)])
    for j in range(steps):
        s, t = rng.randrange(3), rng.randrange(3)
        o = rng.choice(['set', 'clr', 'flip', 'flipall', 'setall', 'clrall', 'minus1', 'setrange', 'clrrange', 'setrange', 'clrrange', 'copy', 'and', 'or',
                        'andnot', 'xor', 'or'] if rng.random() < 0.5 else
                       ['isset', 'popcount', 'empty', 'contains', 'common', 'nextset', 'nextclr', 'prevset', 'prevclr', 'each', 'dump', 'nextset', 'nextclr',
                        'prevset', 'prevclr', 'contains'] + (['equal', 'tobitset', 'nextmax', 'nextmaxclr'] if raw else ['eachclr', 'eachrev']))
        if o in ('setrange', 'clrrange'):
            a, b = rng.randrange(n + 1), rng.randrange(n + 1)
            w = rng.randrange(4)
            if w == 0:
                a = a // 32 * 32
            elif w == 1:
                b = min(n, b // 32 * 32)
            if raw:         # needs from < to
                if a > b:
                    a, b = b, a
                if a == b:
                    a, b = (a - 1, a) if a else (0, 1)
            add(h, o, s, a, b)
        elif o in ('copy', 'and', 'or', 'andnot', 'xor', 'contains', 'common', 'equal'):
            if o == 'copy' and s == t:
                continue
            add(h, o, s, 0, t)
        elif o in ('nextmax', 'nextmaxclr'):
            b = rng.randrange(1, n + 1)
            add(h, o, s, rng.randrange(b + 1), b)
        elif o in ('nextset', 'nextclr'):
            add(h, o, s, rng.choice([0, pos(), pos(), n]))
        elif o in ('prevset', 'prevclr'):
            add(h, o, s, pos())
        else:
            add(h, o, s, pos(), 0)
        if rng.random() < 0.15:
            add(h, 'dump', s)
    for s in range(3):
        add(h, 'dump', s)
        add(h, 'popcount', s)
        add(h, 'empty', s)
        for a in range(n):
            add(h, 'nextset', s, a)
            add(h, 'nextclr', s, a)
            add(h, 'prevset', s, a)
            add(h, 'prevclr', s, a)
            if n > 40 and rng.random() < 0.6:
                break


def bitsets(rng, hs):
    sizes = [1, 2, 5, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 128, 130]
    for kind in ('bitset', 'rbitset'):
        for n in sizes:
            for k in range(5 * SC):
                h = new_hist(kind, [n, 0, 0])
                bitops(rng, h, kind, n, rng.choice([30, 100]))
                hs.append(h)
        # every range of small and word crossing sizes, on an empty and a full set
        for n in ([3, 33, 64, 66] if TIER == 'quick' else [3, 31, 32, 33, 64, 66, 97]):
            h = new_hist(kind, [n, 0, 0])
            pts = range(n + 1) if n < 10 else sorted({0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, n - 1, n} & set(range(n + 1)))
            for a in pts:
                for b in pts:
                    if a > b or (a == b and kind == 'rbitset'):
                        continue
                    add(h, 'clrall', 0)
                    add(h, 'setrange', 0, a, b)
                    add(h, 'dump', 0)
                    add(h, 'popcount', 0)
                    add(h, 'setall', 1)
                    add(h, 'clrrange', 1, a, b)
                    add(h, 'dump', 1)
                    add(h, 'common', 0, 0, 1)
                    add(h, 'flipall', 1)
                    add(h, 'contains', 0, 0, 1)
                    add(h, 'contains', 1, 0, 0)
                    if kind == 'rbitset':
                        add(h, 'equal', 0, 0, 1)
                    add(h, 'empty', 0)
                    for q in pts:
                        if q < n:
                            add(h, 'nextset', 0, q)
                            add(h, 'nextclr', 0, q)
                            add(h, 'prevset', 0, q)
                            add(h, 'prevclr', 0, q)
            hs.append(h)
        # all subsets of 4 bits against each other
        h = new_hist(kind, [4, 0, 0])
        for x in range(16):
            for y in range(16):
                for o in ('and', 'or', 'xor', 'andnot', 'contains', 'common') + (('equal',) if kind == 'rbitset' else ()):
                    add(h, 'clrall', 0)
                    add(h, 'clrall', 1)
                    for b in range(4):
                        if x >> b & 1:
                            add(h, 'set', 0, b)
                        if y >> b & 1:
                            add(h, 'set', 1, b)
                    add(h, o, 0, 0, 1)
                    add(h, 'dump', 0)
                    add(h, 'dump', 1)
        hs.append(h)
        # counting down through every value
        h = new_hist(kind, [5, 0, 0])
        for k in range(40):
            add(h, 'minus1', 0)
            add(h, 'dump', 0)
        hs.append(h)
    # bit pairs: two bits k apart set in a large set
    for kind in ('bitset', 'rbitset'):
        h = new_hist(kind, [161, 0, 0])
        for k in range(150):
            a, b = rng.randrange(161), rng.randrange(161)
            add(h, 'clrall', 0)
            add(h, 'set', 0, a)
            add(h, 'set', 0, b)
            for q in (0, a, b, (a + b) // 2, min(160, a + 1), min(160, b + 1)):
                add(h, 'nextset', 0, q)
                add(h, 'prevset', 0, q)
            add(h, 'minus1', 0)
            add(h, 'popcount', 0)
            add(h, 'flipall', 0)
            for q in (0, a, b, (a + b) // 2):
                add(h, 'nextclr', 0, q)
                add(h, 'prevclr', 0, q)
        hs.append(h)


def unions(rng, hs):
    for n in range(40 * SC):
        sz = rng.choice([2, 5, 12, 40])
        h = new_hist('uf', [sz, 0, 0])
        for j in range(rng.choice([10, 40])):
            if rng.random() < 0.5:
                add(h, 'union', 0, rng.randrange(sz), rng.randrange(sz))
            else:
                add(h, 'find', 0, rng.randrange(sz))
        for x in range(sz):
            add(h, 'find', 0, x)
        hs.append(h)


def body(c):
    hs = []
    for f in (deques, pqueues, arrays, bitsets, unions):
        f(c.rng, hs)
    run_adt(c, hs, 'C04')
    c.assumptions += ['operations that the API forbids (popping an empty queue, positions outside the set) are not generated']


if __name__ == '__main__':
    main('C04', 'model_checking', body)
