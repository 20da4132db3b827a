"""C24: what a graph claims of itself is true, after any sequence of passes and requests (spec/Analyses.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from anal import *

SC = 12 if TIER == 'thorough' else 1
SCRIPT = ['local', 'df', 'cf', 'jt', 'bool', 'conv', 'gvnpre', 'ifconv', 'parmem', 'ldst', 'combmem', 'frame', 'osr+df', 'rmphi', 'reassoc', 'oneret', 'nret',
          'scalar', 'tailrec', 'combo', 'inv', 'unroll+df', 'dne', 'place', 'occult', 'lcssa+df', 'gcse', 'rmcrit', 'rmbad', 'confirm', 'rmconf', 'confopt',
          'inline', 'inline0', 'inline0', 'clone2', 'funccalls', 'gcents', 'lswitch', 'lcopyb', 'lmux', 'lalloc', 'lhl']


def script(rng):
    out = ['x construct']
    for _ in range(rng.randint(3, 8)):
        if rng.random() < .45:
            m = rng.choice([NO_ONE, NO_MANY, NO_MANY, NO_ONE, rng.randrange(1, 8192) & NO_MANY])
            out.append('an %d assure/%d' % (m, m))
        else:
            p = rng.choice(SCRIPT)
            for q in p.split('+'):
                out.append('p ' + q)
            out.append('an 0 ' + p)
    return out


def check(chk):
    lib = build_lib()
    drv = build_driver('cfgdrv', lib)
    rng = chk.rng
    run(chk, drv, [rand_hist(rng, seq_ops(rng, rng.randint(2, 10)), 'seq', 10, True) for _ in range(250 * SC)], STORED)
    run(chk, drv, [dag_hist(rng, seq_ops(rng, rng.randint(2, 10)), 'dag', 10) for _ in range(250 * SC)], STORED)
    programs(chk, lib, 40 * SC, script, STORED, 'prog', floats=.1, switch=.3, goto=.2, div=.2)
    chk.sample(dag_hist(rng, seq_ops(rng, 5), 'dag'))


if __name__ == '__main__':
    main('C24', 'model_checking', check)
