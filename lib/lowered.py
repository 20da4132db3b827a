"""What remains after a lowering: facts of the exported graphs, judged by spec/Lowered.tla."""
from vlib import *
from hist import validate


def fact(js, target):
    pairs, switches, copies, members = set(), [], [], 0
    ml = js['modes']
    for f in js['fns']:
        N = f['nodes']
        for n in N:
            if not n:
                continue
            pairs.add((n[0], ml[n[1]][0]))
            if n[0] == 'Member' and not n[4]:
                members += 1
            elif n[0] == 'CopyB':
                copies.append(n[4])
            elif n[0] == 'Switch' and n[3][0] >= 0:
                mode = ml[N[n[3][0]][1]]
                rs = [(int(a, 16), int(b, 16)) for a, b, p in n[5] if p]
                if mode[1] == 's' or 's' in mode[0]:
                    w = 1 << (4 * len(n[5][0][0])) if n[5] else 1
                    rs = [(a - w if a >= w // 2 else a, b - w if b >= w // 2 else b) for a, b in rs]
                lo, hi = min([a for a, b in rs] or [0]), max([b for a, b in rs] or [0])
                switches.append({'mode': mode[0], 'cases': len(rs), 'span': min(hi - lo, 1 << 30), 'min': min(lo, 1 << 30)})
    return {'tag': js['tag'], 'target': target, 'pairs': sorted(pairs), 'switches': switches, 'copies': copies, 'members': members}


def judge(chk, b, target, tags):
    """every graph right after one of the named stages"""
    recs, of = [], []
    for i, rs in b.out.items():
        last = None
        for js in rs:
            if 'fns' in js:
                last = js
            if js['tag'] in tags and last is not None and js['tag'] not in ('exit', 'done'):
                recs.append(fact(dict(last, tag=js['tag']), target))
                of.append(i)
                chk.cov.setdefault('stages', {})
                k = target + ' ' + js['tag']
                chk.cov['stages'][k] = chk.cov['stages'].get(k, 0) + 1
    if not recs:
        return

    def describe(x):
        i = of[x['g'] - 1]
        return ('%s after "%s" (%s)' % ('; '.join(sorted(x['err'])), x['tag'], target),
                {'program': dict(b.texts)[i], 'target': b.target, 'record': recs[x['g'] - 1]}, 'remains:' + x['tag'])
    validate(chk, 'Lowered', recs, 2 * len(recs), describe, env_name='RECS')
