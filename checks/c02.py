"""C02: floating point target values.  Recorded library calls are checked by TarvalsF.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from vlib import *
from c01 import run_driver, parse_out, boundary


class H:
    def __init__(self):
        self.lines, self.groups, self.modes = [], [], []

    def fmode(self, e, m, x=0, ovf=0):
        t = ['f', e, m, x, ovf]
        if t not in self.modes:
            self.modes.append(t)
            self.lines.append('M f F%d_%d_%d_%d %d %d %d %d' % (e, m, x, ovf, x, e, m, ovf))
        return self.modes.index(t)

    def imode(self, n, s):
        t = ['i', n, s]
        if t not in self.modes:
            self.modes.append(t)
            self.lines.append('M i I%d_%d %d %d 0' % (n, s, n, s))
        return self.modes.index(t)

    def bits(self, m):
        t = self.modes[m]
        return t[1] if t[0] == 'i' else 1 + t[1] + t[2]

    def group(self, op, m, m2, vecs, enc):
        for k in range(0, len(vecs), 100):
            part = vecs[k:k + 100]
            self.lines.append('G %s %d %d' % (op, m, m2))
            for a, b in part:
                self.lines.append('= %x %x' % (a, b))
            self.groups.append({'op': op, 'm': self.modes[m], 'm2': self.modes[m2],
                                'vs': [[words(a, self.bits(m)), words(b, self.bits(m2))] for a, b in part], 'enc': enc})


def rnd(rng, e, m, x):
    """a valid encoding; biased towards edges"""
    E = rng.choice([0, 0, 1, 2, (1 << e) - 1, (1 << e) - 2, (1 << e) - 3, (1 << (e - 1)) - 1, 1 << (e - 1)] +
                   [rng.randrange(1 << e)] * 6 + [max(0, min((1 << e) - 1, (1 << (e - 1)) - 1 + rng.randrange(-m - 3, m + 4)))] * 8)
    fb = m - 1 if x else m
    k = rng.randrange(8)
    full = (1 << fb) - 1
    if k == 0:
        fr = 0
    elif k == 1:
        fr = full
    elif k == 2:
        fr = 1 << rng.randrange(fb)
    elif k == 3:
        fr = full & ~((1 << rng.randrange(fb)) - 1)
    elif k == 4:
        fr = (1 << rng.randrange(fb + 1)) - 1
    elif k == 5:
        fr = full ^ (1 << rng.randrange(fb))
    else:
        fr = rng.getrandbits(fb)
    if x and E > 0:
        fr |= 1 << fb
    return (rng.randrange(2) << (e + m)) | (E << m) | fr


def related(rng, e, m, x, a):
    """operand close in exponent to a (cancellation, alignment, ties)"""
    E = (a >> m) & ((1 << e) - 1)
    b = rnd(rng, e, m, x)
    E2 = max(0, min((1 << e) - 1, E + rng.choice([0, 0, 0, 1, -1, 2, -2, m, -m, m + 1, -m - 1, m + 2, -m - 2, rng.randrange(-m - 4, m + 5)])))
    fr = b & ((1 << m) - 1)
    if x:
        fr = (fr & ~(1 << (m - 1))) | ((1 << (m - 1)) if E2 else 0)
    return (b >> (e + m) << (e + m)) | (E2 << m) | fr


def gen(h, rng, tier):
    ARITH = ['add', 'sub', 'mul', 'div', 'cmp']
    UN = ['neg', 'abs', 'id', 'isnan', 'isfinite', 'isneg', 'isnull', 'isone']
    # exhaustive tiny formats
    tiny = [(2, 5), (3, 4), (4, 3), (5, 2)]     # 8 bit formats
    for e, m in tiny:
        f = h.fmode(e, m)
        n = 1 + e + m
        allv = range(1 << n)
        for op in ARITH:
            vs = [(a, b) for a in allv for b in allv]
            h.group(op, f, f, vs if tier != 'quick' else rng.sample(vs, 1500), 16 if op == 'cmp' else n)
        for op in UN:
            h.group(op, f, f, [(a, 0) for a in allv], n)
        for e2, m2 in ((4, 3), (3, 4), (5, 2), (5, 10), (8, 23), (2, 5)):
            g = h.fmode(e2, m2)
            h.group('conv', f, g, [(a, 0) for a in allv], 1 + e2 + m2)
        for k in (8, 16, 32):
            for s in (0, 1):
                im = h.imode(k, s)
                h.group('conv', f, im, [(a, 0) for a in allv], k)
    real = [(5, 10, 0), (8, 23, 0), (11, 52, 0), (15, 64, 1), (8, 7, 0), (15, 112, 0), (6, 9, 0)]
    K = 150 if tier == 'quick' else 3000
    for e, m, x in real:
        for ovf in (0, 1):
            f = h.fmode(e, m, x, ovf)
            n = 1 + e + m
            k = K if ovf == 0 else K // 5
            if m > 100:
                k //= 3
            for op in ARITH:
                vs = []
                for _ in range(k):
                    a = rnd(rng, e, m, x)
                    vs.append((a, related(rng, e, m, x, a) if rng.random() < 0.6 else rnd(rng, e, m, x)))
                h.group(op, f, f, vs, 16 if op == 'cmp' else n)
            for op in UN:
                h.group(op, f, f, [(rnd(rng, e, m, x), 0) for _ in range(k // 3)], n)
            norm = [v for v in (rnd(rng, e, m, x) for _ in range(k)) if 0 < ((v >> m) & ((1 << e) - 1)) < (1 << e) - 1]
            h.group('exponent', f, f, [(v, 0) for v in norm], 16)
            h.group('zeromant', f, f, [(v, 0) for v in norm], 16)
            for e2, m2, x2 in real:
                g = h.fmode(e2, m2, x2, 0)
                if g == f:
                    continue
                vs = []
                for _ in range(k // 2):
                    v = rnd(rng, e, m, x)
                    if rng.random() < 0.6:     # aim at the target's range borders and ties
                        E = (1 << (e - 1)) - 1 + rng.choice([0, (1 << (e2 - 1)), (1 << (e2 - 1)) - 1, -(1 << (e2 - 1)) + 2,
                                                            -(1 << (e2 - 1)) + 1 - rng.randrange(m2 + 3)])
                        E = max(1, min((1 << e) - 2, E))
                        fr = v & ((1 << m) - 1)
                        if m > m2:
                            low = m - m2 - (1 if x else 0) + (1 if x2 else 0)
                            low = max(1, min(m - 1, low))
                            fr = (fr >> low << low) | rng.choice([0, 1 << (low - 1), (1 << (low - 1)) + 1, (1 << (low - 1)) - 1, 1])
                        if x:
                            fr |= 1 << (m - 1)
                        v = (v >> (e + m) << (e + m)) | (E << m) | fr
                    vs.append((v, 0))
                h.group('conv', f, g, vs, 1 + e2 + m2)
                h.group('lossless', f, g, [v for v in vs if (v[0] >> m) & ((1 << e) - 1) != (1 << e) - 1], 16)
            for w in (8, 16, 32, 64):
                for s in (0, 1):
                    im = h.imode(w, s)
                    vs = []
                    for _ in range(k // 3):
                        v = rnd(rng, e, m, x)
                        if rng.random() < 0.7:
                            E = (1 << (e - 1)) - 1 + rng.choice([w - 1, w - 2, w, 0, -1, rng.randrange(w + 2)])
                            if 0 < E < (1 << e) - 1:
                                fr = v & ((1 << m) - 1)
                                if x:
                                    fr |= 1 << (m - 1)
                                v = (v >> (e + m) << (e + m)) | (E << m) | fr
                        vs.append((v, 0))
                    h.group('conv', f, im, vs, w)
                    if ovf == 0:
                        iv = [(v, 0) for v in boundary(rng, w, k // 4)]
                        for _ in range(k // 4):      # ties in the target precision
                            t = rng.getrandbits(m + 1) | (1 << m)
                            t = (t << rng.randrange(1, 12)) | rng.choice([0, 1])
                            t = (t << 1) | 1 if rng.random() < .5 else t
                            iv.append((t & ((1 << w) - 1), 0))
                        h.group('conv', im, f, iv, n)
            for op in ('null', 'one', 'max', 'min', 'inf'):
                h.group(op, f, f, [(0, 0)], n)
            if n in (16, 32, 64):
                for s in (0, 1):
                    im = h.imode(n, s)
                    # signalling NaN patterns included: raw bits must survive
                    h.group('bitcast', im, f, [(rnd(rng, e, m, x), 0) for _ in range(k // 3)], n)
                    h.group('bitcast', f, im, [(v, 0) for v in (rnd(rng, e, m, x) for _ in range(k // 3))
                                               if (v >> m) & ((1 << e) - 1) != (1 << e) - 1], n)


def body(c):
    lib = build_lib()
    drv = build_driver('tvdrv', lib)
    h = H()
    gen(h, c.rng, TIER)
    r = run_driver(drv, h.lines)
    outs = r.stdout.splitlines()
    k = 0
    done = []
    for g in h.groups:
        if k >= len(outs):
            break
        vs = []
        for v in g['vs']:
            if k >= len(outs):
                break
            vs.append(v + [parse_out(outs[k], g['enc'])])
            k += 1
        g['vs'] = vs
        done.append(g)
    if r.returncode == 3:
        raise CheckError('driver: ' + r.stderr[-500:])
    if r.returncode != 0:
        g = done[-1] if done else h.groups[0]
        c.violation('library died (%d) while executing %s on mode %s -> %s: %s' % (r.returncode, g['op'], g['m'], g['m2'], r.stderr[-300:]),
                    {'op': g['op'], 'mode': g['m'], 'mode2': g['m2'], 'stderr': r.stderr[-2000:], 'call': k})
    f = os.path.join(scratch_root(), 'tv.ndjson')
    write_ndjson(f, done)
    log('recorded', k, 'calls')
    t = run_tlc('TarvalsF', 'INIT Init\nNEXT Next\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n', {'TV_FILE': f},
                extra=['-continue'] if os.environ.get('VERIF_CONT') else ())
    c.tlc(t)
    c.cov['traces_validated_against_impl'] = len(done)
    c.cov['calls_checked'] = k
    c.cov['modes'] = len(h.modes)
    c.cov['distinct_operations'] = len({g['op'] for g in done})
    for g in c.rng.sample(done, min(3, len(done))):
        c.sample({'op': g['op'], 'mode': g['m'], 'mode2': g['m2'], 'vectors': g['vs'][:2]})
    if t.violated or t.prints():
        p = t.prints()
        for x in p[:40]:
            hx = ['%x' % unwords(w) if w and min(w) >= 0 else str(w) for w in x['vec'] + [x['expected']]]
            c.violation('%s on mode %s / %s: operands %s %s gave %s, IEEE-754 gives %s' % (x['op'], x['m'], x['m2'], *hx), x)
        if not p:
            raise CheckError('TLC reported a violation without a record:\n' + t.out[-2000:])


if __name__ == '__main__':
    vlib.main('C02', 'model_checking', body)
