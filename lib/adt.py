"""Container histories (C03, C04): recording with drivers/adtdrv.c, validation with spec/ADT.tla."""
from vlib import *
from hist import *


def new_hist(kind, p):
    p = list(p) + [0] * (3 - len(p))
    return {'kind': kind, 'p': p, 'head': 'H %s %d %d %d' % (kind, p[0], p[1], p[2]), 'ops': [], 'ev': [],
            'name': kind}


def add(h, o, s=0, a=0, b=0, c=0):
    h['ops'].append('%s %d %d %d %d' % (o, s, a, b, c))
    h['ev'].append({'o': o, 's': s, 'a': a, 'b': b, 'c': c})


def run_adt(chk, hists, prop):
    lib = build_lib()
    drv = build_driver('adtdrv', lib)
    done = record(chk, drv, hists)
    recs, states = [], 0
    for k in done:
        h = hists[k]
        ev = [dict(e, r=r) for e, r in zip(h['ev'], h['out'])]
        recs.append({'kind': h['kind'], 'p': [x if abs(x) < 1 << 31 else 0 for x in h['p']], 'ev': ev})
        states += len(ev) + 1
        chk.add('events_' + h['kind'], len(ev))
    log('recorded', len(recs), 'histories', states, 'states')
    for k in range(0, len(recs), max(1, len(recs) // 3)):
        chk.sample({'kind': recs[k]['kind'], 'p': recs[k]['p'], 'events': recs[k]['ev'][:6]})

    def describe(b):
        r = recs[b['h'] - 1]
        e = r['ev'][b['i'] - 1]
        return ('%s: operation %d (%s) is not allowed to return %s' % (r['kind'], b['i'], {k: e[k] for k in 'osabc'}, e['r'][:20]),
                {'kind': r['kind'], 'params': r['p'], 'events': r['ev'][:b['i']], 'model_state': b['st'][:2000]}, None)
    validate(chk, 'ADT', recs, states, describe)
