"""C10: loop transformations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


OWN = ['inv', 'unr', 'unroll+df', 'unroll4+df', 'osr', 'osr2', 'rmphi', 'lcssa+df', 'inv+unroll+df', 'osr+rmphi', 'inv+osr', 'df+inv+df', 'cf+unroll+df', 'unroll4+df+osr', 'df+osr2+df']
MIX = ['inv', 'unr', 'unroll+df', 'unroll4+df', 'osr', 'osr2', 'rmphi', 'lcssa+df', 'df', 'cf', 'gvnpre', 'ldst', 'combo', 'jt', 'ifconv', 'place', 'scalar', 'inline']
LOOP = dict(loops=1.5, ifs=.3, calls=.2, switch=.05, maxloop=9, exprdepth=2, depth=3)


def body(c):
    lib = build_lib()
    batch(c, lib, [
        dict(n=scale(len(OWN) * 6), scripts=OWN, runs=3, pre=(('opt 1',), ('opt 1',), ('opt 0',)), mem=.3, goto=.05, stmts=(3, 8), **LOOP),
        dict(n=scale(len(OWN) * 3), scripts=OWN, runs=3, mem=.7, goto=.1, stmts=(2, 5), small_consts=.9, **LOOP),
        dict(n=scale(len(OWN) * 2), scripts=OWN, runs=3, mem=.2, goto=.5, early_ret=.3, recursion=.2, dead=.05, stmts=(3, 6), **LOOP),
        dict(n=scale(45), scripts=pipelines(MIX, 2, 6), runs=3, mem=.4, goto=.1, stmts=(3, 7), **LOOP),
    ], limit=700)


if __name__ == '__main__':
    vlib.main('C10', 'model_checking', body)
