"""C01: integer target values.  Histories of library calls are recorded and checked by Tarvals.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from vlib import *

BIN = ['add', 'sub', 'mul', 'div', 'mod', 'divmodq', 'divmodr', 'and', 'andnot', 'or', 'ornot', 'eor', 'cmp', 'same']
UN = ['neg', 'not', 'abs', 'popcount', 'low', 'high', 'isneg', 'isnull', 'isone', 'isallone', 'id', 'text', 'islong']
SH = ['shl', 'shr', 'shrs']
SHU = ['shlu', 'shru', 'shrsu']
NULLARY = ['min', 'max', 'null', 'one', 'allone']


class Hist:
    def __init__(self):
        self.lines, self.groups, self.modes, self.wrap = [], [], [], 1

    def mode(self, bits, sign, ms, ref=0, name=None):
        m = [bits, sign, ms, ref]
        if m in self.modes:
            return self.modes.index(m)
        i = len(self.modes)
        self.modes.append(m)
        self.lines.append(('M r R%d_%d %d %d' % (bits, ms, bits, ms)) if ref else
                          ('M i I%d_%d_%d %d %d %d' % (bits, sign, ms, bits, sign, ms)))
        return i

    def setwrap(self, w):
        self.wrap = w
        self.lines.append('W %d' % w)

    def group(self, op, m, m2, vecs, enc, dop=None):
        if op in ('low', 'high') and self.modes[m][0] % 8:
            return      # documented: -1 on modes that are not a whole number of bytes
        if op in ('shrs', 'shrsu') and self.modes[m][0] % 8:
            return      # declared unimplemented (asserted) for such widths
        """vecs: list of (a text, b text, a json, b json)"""
        for k in range(0, len(vecs), 400):
            part = vecs[k:k + 400]
            self.lines.append('G %s %d %d' % (dop or op, m, m2))
            self.lines += ['= %s %s' % (v[0], v[1]) for v in part]
            self.groups.append({'op': op, 'm': self.modes[m], 'm2': self.modes[m2], 'wrap': self.wrap,
                                'vs': [[v[2], v[3]] for v in part], 'enc': enc})


def boundary(rng, n, k):
    """interesting n-bit numbers"""
    M = (1 << n) - 1
    base = [0, 1, 2, 3, M, M - 1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, 10 & M, 0x5555555555555555555555 & M]
    base += [1 << rng.randrange(n) for _ in range(3)] + [((1 << rng.randrange(n + 1)) - 1) & M for _ in range(3)]
    base += [(M << rng.randrange(n)) & M for _ in range(2)]
    base += [rng.getrandbits(n) for _ in range(k)]
    return base


def gen(h, rng, tier):
    modes = []
    small = range(1, 5) if tier == 'quick' else range(1, 8)
    # exhaustive small widths
    for n in small:
        for sg in (0, 1):
            m = h.mode(n, sg, 0)
            allv = list(range(1 << n))
            for op in BIN:
                h.group(op, m, m, [('%x' % a, '%x' % b, words(a, n), words(b, n)) for a in allv for b in allv], n)
            for op in UN + ['getlong']:
                h.group(op, m, m, [('%x' % a, '0', words(a, n), []) for a in allv], 64 if op == 'getlong' else n)
            for op in NULLARY:
                h.group(op, m, m, [('0', '0', [], [])], n)
            for msx in (0, n, 2 * n):
                mm = h.mode(n, sg, msx)
                um = h.mode(8, 0, 0)
                for op in SH:
                    h.group(op, mm, um, [('%x' % a, '%x' % b, words(a, n), words(b, 8)) for a in allv for b in range(2 * n + 3)], n)
            for n2 in (1, 2, 3, 5, 8, 16, 33):
                for s2 in (0, 1):
                    h.group('conv', m, h.mode(n2, s2, 0), [('%x' % a, '0', words(a, n), []) for a in allv], n2)
    widths = [5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 96, 127, 128]
    cfgs = []
    for n in widths:
        for sg in (0, 1):
            for ms in {0, 32 if n <= 32 else n, n}:
                cfgs.append((n, sg, ms))
    rep = 1 if tier == 'quick' else 12
    K = 60 if tier == 'quick' else 400
    for _ in range(rep):
        for (n, sg, ms) in cfgs:
            m = h.mode(n, sg, ms)
            for wrap in ((1, 0) if n <= 64 else (1,)):
                h.setwrap(wrap)
                ops = BIN if ms == 0 or wrap == 0 else rng.sample(BIN, 3)
                for op in ops:
                    if wrap == 0 and op not in ('add', 'sub', 'mul', 'div', 'mod'):
                        continue
                    bs = boundary(rng, n, 20)
                    pairs = [(rng.choice(bs), rng.choice(bs)) for _ in range(K)]
                    # operands of similar and very different magnitude
                    pairs += [(rng.getrandbits(rng.randrange(1, n + 1)), rng.getrandbits(rng.randrange(1, n + 1))) for _ in range(K // 2)]
                    h.group(op, m, m, [('%x' % a, '%x' % b, words(a, n), words(b, n)) for a, b in pairs], n)
                for op in (UN if wrap else ['neg', 'abs']):
                    bs = boundary(rng, n, K // 3)
                    h.group(op, m, m, [('%x' % a, '0', words(a, n), []) for a in bs], n)
                for _ in range(3):
                    n2 = rng.choice(widths if wrap else [w for w in widths if w <= 64])
                    m2 = h.mode(n2, rng.randrange(2), 0)
                    bs = boundary(rng, n, K // 3)
                    h.group('conv', m, m2, [('%x' % a, '0', words(a, n), []) for a in bs], n2)
            h.setwrap(1)
            h.group('bitcast', m, h.mode(n, 1 - sg, ms), [('%x' % a, '0', words(a, n), []) for a in boundary(rng, n, 10)], n)
            for op in NULLARY:
                h.group(op, m, m, [('0', '0', [], [])], n)
            bs = boundary(rng, n, K)
            h.group('getlong', m, m, [('%x' % a, '0', words(a, n), []) for a in bs
                                      if n <= 64 or (a < 2 ** 63)], 64)
            h.group('subbits', m, m, [('%x' % a, '%d' % k, words(a, n), words(k, 16)) for a in bs[:30] for k in range(0, (n + 7) // 8 + 1)], -1)
            for op in SH:
                um = h.mode(rng.choice([8, 16, 32, 64]), 0, 0)
                un = h.modes[um][0]
                sh = [rng.choice([0, 1, n - 1, n, n + 1, 2 * n, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, rng.randrange(n + 2)]) for _ in range(K)]
                h.group(op, m, um, [('%x' % a, '%x' % (k & 255), words(a, n), words(k & 255, un)) for a, k in zip([rng.choice(bs) for _ in sh], sh)], n)
            for op in SHU:
                sh = [rng.choice([0, 1, n - 1, n, n + 1, 31, 32, 33, 63, 64, 65, 127, 128, 1000, rng.randrange(n + 2)]) for _ in range(K)]
                h.group(op, m, m, [('%x' % a, '%d' % k, words(a, n), words(k, 32)) for a, k in zip([rng.choice(bs) for _ in sh], sh)], n)
            # text
            for wrap in (1, 0):
                if wrap == 0 and n > 64:
                    continue
                h.setwrap(wrap)
                vecs = []
                for _ in range(K):
                    v = rng.choice(boundary(rng, n + 4, 4)) if rng.random() < 0.4 else rng.getrandbits(rng.randrange(1, n + 1))
                    v = min(v, (1 << 126) - 1)
                    sgn = rng.choice(['', '', '-', '+'])
                    t = sgn + rng.choice(['%d' % v, '0x%x' % v, '0x%X' % v, '0' + '%o' % v, '0b' + bin(v)[2:], '0X%x' % v])
                    vecs.append((t, '', [ord(c) for c in t], []))
                h.group('fromstr', m, m, vecs, n)
                for base in (2, 8, 10, 16):
                    for neg in (0, 1):
                        vecs = []
                        for _ in range(K // 8):
                            v = min(rng.getrandbits(rng.randrange(1, n + 1)), (1 << 126) - 1)
                            t = {2: bin(v)[2:], 8: '%o' % v, 10: '%d' % v, 16: '%x' % v}[base]
                            vecs.append((t, '', [ord(c) for c in t], [base, neg]))
                        h.group('intstr', m, m, vecs, n, dop='intstr%d%s' % (base, 'n' if neg else 'p'))
            h.setwrap(1)
            vecs = []
            for v in boundary(rng, 64, K // 3):
                s = v - (1 << 64) if v >> 63 else v
                vecs.append((str(s), '', words(v, 64), []))
            h.group('fromlong', m, m, vecs, n)
        # pointers
        for n in (32, 64):
            r = h.mode(n, 0, n, ref=1)
            bs = boundary(rng, n, K)
            for n2, s2 in ((8, 1), (16, 0), (32, 1), (32, 0), (64, 1)):
                if n2 > n:
                    continue
                m2 = h.mode(n2, s2, 0)
                bs2 = boundary(rng, n2, K)
                for op in ('add', 'sub'):
                    h.group(op, r, m2, [('%x' % a, '%x' % b, words(a, n), words(b, n2)) for a, b in zip(bs, bs2)], n)
                h.group('conv', r, m2, [('%x' % a, '0', words(a, n), []) for a in bs], n2)
                h.group('conv', m2, r, [('%x' % a, '0', words(a, n2), []) for a in bs2], n)
            h.group('subpp', r, r, [('%x' % a, '%x' % rng.choice(bs), words(a, n), None) for a in bs], n, dop='sub')
            for op in UN:
                h.group(op, r, r, [('%x' % a, '0', words(a, n), []) for a in bs], n)
            for op in ('cmp', 'same', 'and', 'or', 'mul'):
                h.group(op, r, r, [('%x' % a, '%x' % b, words(a, n), words(b, n)) for a, b in zip(bs, reversed(bs))], n)
    # fix up the pointer difference vectors (operand b was chosen at random above)
    it = iter(h.lines)


def fix_subpp(h):
    """b operands of subpp are read back from the command lines"""
    gi = -1
    cur = 0
    for l in h.lines:
        if l.startswith('G '):
            gi += 1
            cur = 0
        elif l.startswith('= '):
            v = h.groups[gi]['vs'][cur]
            if v[1] is None:
                v[1] = words(int(l.split()[2], 16), h.groups[gi]['m'][0])
            cur += 1


def run_driver(drv, lines):
    r = subprocess.run([drv], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300)
    return r


def parse_out(t, enc):
    if t.startswith('#'):
        return [int(t[1:])]
    if t.startswith('"'):
        return [ord(c) for c in t[1:]]
    if t == 'bad':
        return [-1]
    try:
        return words(int(t, 16), enc)
    except ValueError:
        return [-7]


def selftest(c, rng):
    """the Java accelerators equal the TLA+ definitions of Words.tla"""
    vecs = []
    for _ in range(40 if TIER == 'quick' else 400):
        n = rng.choice([1, 2, 3, 5, 8, 15, 16, 17, 18, 32] if _ % 8 else [33, 40, 64])
        a, b = rng.getrandbits(n), rng.getrandbits(rng.randrange(1, n + 1))
        vecs.append([n, words(a, n), words(b, n), rng.choice([1, 8, 16, 31, 64, 100]), words(rng.randrange(n + 3), 16)])
    f = os.path.join(scratch_root(), 'st.ndjson')
    outs = []
    import tempfile
    write_ndjson(f, [{'v': v} for v in vecs])
    for ov in (True, False):
        t = run_tlc('WordsSelfTest', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'WST_FILE': f}, use_ov=ov)
        outs.append(sorted(l for l in t.out.splitlines() if l.startswith('<<')))
    if outs[0] != outs[1] or not outs[0]:
        d = [x for x in zip(*outs) if x[0] != x[1]][:2]
        raise CheckError('Words overrides differ from the specification: %s' % d)
    c.cov['override_selftest_vectors'] = len(outs[0])


def body(c):
    lib = build_lib()
    drv = build_driver('tvdrv', lib)
    selftest(c, c.rng)
    h = Hist()
    gen(h, c.rng, TIER)
    fix_subpp(h)
    r = run_driver(drv, h.lines)
    outs = r.stdout.splitlines()
    # attach the results
    k = 0
    done = []
    for g in h.groups:
        if k >= len(outs):
            break
        vs = []
        for v in g['vs']:
            if k >= len(outs):
                break
            vs.append(v + [parse_out(outs[k], g['enc'] if g['enc'] > 0 else 16)])
            k += 1
        g['vs'] = vs
        g.pop('enc')
        done.append(g)
    if r.returncode != 0:
        g = done[-1] if done else h.groups[0]
        if r.returncode == 3:
            raise CheckError('driver: ' + r.stderr[-500:])
        c.violation('library died (%d) while executing %s on mode %s: %s' % (r.returncode, g['op'], g['m'], r.stderr[-300:]),
                    {'op': g['op'], 'mode': g['m'], 'stderr': r.stderr[-2000:], 'call': k})
    f = os.path.join(scratch_root(), 'tv.ndjson')
    write_ndjson(f, done)
    log('recorded', k, 'calls')
    t = run_tlc('Tarvals', 'INIT Init\nNEXT Next\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n', {'TV_FILE': f})
    c.tlc(t)
    c.cov['traces_validated_against_impl'] = len(done)
    c.cov['calls_checked'] = k
    c.cov['modes'] = len(h.modes)
    c.cov['distinct_operations'] = len({g['op'] for g in done})
    for g in c.rng.sample(done, min(3, len(done))):
        c.sample({'op': g['op'], 'mode': g['m'], 'mode2': g['m2'], 'wrap': g['wrap'], 'vectors': g['vs'][:2]})
    if t.violated:
        p = t.prints()
        for x in p[:3]:
            c.violation('%s on mode %s / %s (wrap=%s): operands %s gave %s, two\'s complement gives %s' % (
                x['op'], x['m'], x['m2'], x['wrap'], x['vec'][:2], x['vec'][2], x['expected']), x)
        if not p:
            raise CheckError('TLC reported a violation without a record:\n' + t.out[-2000:])


if __name__ == '__main__':
    vlib.main('C01', 'model_checking', body)
