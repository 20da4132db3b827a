"""Compares the Java accelerators of the specification with the TLA+ definitions they replace."""
import os
from vlib import *
from firmc import Modes, GROUPED


def pure_selftest(c, n=None):
    rng = random.Random('pure-%d' % SEED)
    modes = Modes()
    ms = [modes.get('i%d' % b, 'i', b, s, x, 0, 0) for b, x in ((8, 32), (16, 32), (32, 32), (64, 64), (32, 0)) for s in (0, 1)]
    bm = modes.get('b', 'b', 1, 0, 0, 0, 0)
    cases = []
    for _ in range(n or (60 if TIER == 'quick' else 600)):
        e, nodes = [], []
        slots = {}
        k = 0

        def new(m):
            nonlocal k
            k += 1
            slots.setdefault(m, []).append(k)
            e.append([])
            return k

        def val(bits):
            v = rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.getrandbits(bits), rng.randrange(1 << min(bits, 7))])
            return words(v & ((1 << bits) - 1), bits)
        for m in ms[:]:
            d = new(m)
            b = modes.tab[m - 1]['b']
            nodes.append({'o': 'Const', 'd': d, 'i': [], 'm': m, 'q': m, 'x': val(b)})
        new(bm)
        nodes.append({'o': 'Const', 'd': k, 'i': [], 'm': bm, 'q': bm, 'x': [rng.randrange(2)]})
        und = new(ms[4])     # stays undefined
        for _ in range(6):
            o = rng.choice(sorted(GROUPED) + ['Mux', 'Id'])
            m = q = rng.choice(ms)
            x = [0]
            pick = lambda mm: rng.choice(slots[mm])
            if o == 'Cmp':
                i, x = [pick(q), pick(q)], [rng.randrange(16)]
                m = bm
            elif o == 'Conv':
                q = rng.choice(ms)
                i = [pick(q)]
            elif o in ('Shl', 'Shr', 'Shrs'):
                q = rng.choice(ms)
                i = [pick(m), pick(q)]
            elif o in ('Not', 'Minus', 'Id'):
                i = [pick(m)]
            elif o == 'Mux':
                i = [pick(bm), pick(m), pick(m)]
            elif o == 'Sel':
                q = rng.choice(ms)
                i, x = [pick(m), pick(q)], [rng.randrange(200)]
            elif o == 'Off':
                i, x = [pick(m)], val(32)
            elif o in ('Add', 'Sub') and rng.random() < .3:
                q = rng.choice(ms)
                i = [pick(m), pick(q)]
            else:
                i = [pick(m), pick(m)]
            d = new(m)
            nodes.append({'o': o, 'd': d, 'i': i, 'm': m, 'q': q, 'x': x})
        cases.append({'e': e, 'n': nodes})
    f = os.path.join(scratch_root(), 'pst.ndjson')
    write_ndjson(f, [{'modes': modes.tab}] + cases)
    outs = []
    for ov in (True, False):
        t = run_tlc('FirmSelfTest', 'INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n', {'FIRM_FILE': f}, use_ov=ov)
        outs.append(sorted(t.prints()))
    if outs[0] != outs[1] or len(outs[0]) != len(cases):
        d = [x for x in zip(*outs) if x[0] != x[1]][:1]
        raise CheckError('PureSeq accelerator differs from the specification: %s (%d)' % (d, len(outs[0])))
    c.cov['override_selftest_sequences'] = len(cases)
