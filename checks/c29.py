"""C29: walkers visit everything once in a depth-first order; copies are isomorphic (spec/Analyses.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from anal import *

SC = 12 if TIER == 'thorough' else 1
ONLY = ['w_graph', 'c1', 'c2']


def check(chk):
    lib = build_lib()
    drv = build_driver('cfgdrv', lib)
    rng = chk.rng
    run(chk, drv, [rand_hist(rng, ['F 1', 'C', 'F 1'] if rng.random() < .5 else ['A %d' % NO_MANY, 'C'], 'rnd', 12) for _ in range(500 * SC)], ONLY)
    run(chk, drv, [rand_hist(rng, ['F 1', 'C', 'F 1'] if rng.random() < .5 else ['A %d' % NO_MANY, 'C'], 'rnd', 12, True) for _ in range(200 * SC)], ONLY)
    run(chk, drv, [rand_hist(rng, ['F 1', 'C', 'F 1'] if rng.random() < .5 else ['A %d' % NO_MANY, 'C'], 'big', 30) for _ in range(120 * SC)], ONLY)
    programs(chk, lib, 40 * SC, lambda r: ['x construct', 'fresh'] + ['p ' + r.choice(('df', 'cf', 'combo', 'gvnpre', 'inv')) for _ in range(2)] + ['fresh'], ONLY, 'prog',
             floats=.1, switch=.3, goto=.3)
    chk.sample(rand_hist(rng, ['F 1'], 'rnd'))


if __name__ == '__main__':
    main('C29', 'model_checking', check)
