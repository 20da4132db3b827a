"""C06: SSA construction.  Source programs with mutable variables against the constructed graphs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from behav import *


def body(c):
    lib = build_lib()
    selftest.pure_selftest(c, 10 if not THOROUGH else 400)
    simple = dict(mem=.15, calls=.3, exprdepth=2, nfun=1, volatile=0, copyb=0, structs=False, mux=.1, div=.05)
    batch(c, lib, [
        # control flow dominated: few and simple expressions, many variables, any maturing order
        dict(n=scale(110), scripts=[''], runs=4, pre=(('opt 0',), ('opt 1',)), goto=.6, ifs=.6, loops=.5, switch=.3, stmts=(6, 14), undef=.1, **simple),
        dict(n=scale(80), scripts=[''], runs=4, pre=(('opt 0',), ('opt 1',)), goto=.3, ifs=.8, loops=.7, early_ret=.3, depth=4, stmts=(4, 9), **simple),
        dict(n=scale(80), scripts=[''], runs=4, pre=(('opt 0',), ('opt 1',)), goto=.3, mem=.7, **{**FEATS, 'div': .3}),
        # variables made from frame objects afterwards
        dict(n=scale(60), scripts=['scalar', 'scalar+local', 'scalar+df'], runs=3, mem=.8, loops=.5, goto=.25, copyb=.05, ptrvars=.05, calls=.2, exprdepth=2),
    ])


if __name__ == '__main__':
    vlib.main('C06', 'model_checking', body)
