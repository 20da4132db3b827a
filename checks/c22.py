"""C22: dominance, postdominance and frontiers against their definitions by paths (spec/Analyses.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from anal import *

SC = 12 if TIER == 'thorough' else 1
ONLY = ['dom', 'pdom', 'df']


def check(chk):
    lib = build_lib()
    drv = build_driver('cfgdrv', lib)
    small = [{'head': 'H', 'ops': [g_line(s), 'F 0'], 'name': 'ex'} for s in all_cfgs(3)]
    run(chk, drv, small, ONLY)
    four = list(all_cfgs(4))
    if TIER != 'thorough':
        four = chk.rng.sample(four, 3000)
    run(chk, drv, [{'head': 'H', 'ops': [g_line(s), 'F 0'], 'name': 'ex'} for s in four], ONLY)
    chk.cov['exhaustive'] = {'blocks': 3, 'graphs': len(small), 'of_4_blocks': len(four)}
    rng = chk.rng
    run(chk, drv, [rand_hist(rng, ['F 1'], 'rnd', 12) for _ in range(500 * SC)], ONLY)
    run(chk, drv, [rand_hist(rng, ['F 1'], 'rnd', 12, True) for _ in range(200 * SC)], ONLY)
    run(chk, drv, [rand_hist(rng, ['F 1'], 'big', 30) for _ in range(120 * SC)], ONLY)
    programs(chk, lib, 40 * SC, lambda r: ['x construct', 'fresh'] + ['p ' + r.choice(('df', 'cf', 'combo', 'gvnpre', 'inv')) for _ in range(2)] + ['fresh'], ONLY, 'prog',
             floats=.1, switch=.3, goto=.3)
    chk.sample(rand_hist(rng, ['F 1'], 'rnd'))


if __name__ == '__main__':
    main('C22', 'model_checking', check)
