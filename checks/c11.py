"""C11: transformations of whole programs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


OWN = ['inline', 'inline2', 'clone2', 'tailrec', 'funccalls', 'gcents', 'tailrec+inline2', 'inline2+inline2', 'clone2+inline2', 'clone2 5', 'funccalls+df+ldst', 'inline+gcents', 'df+tailrec', 'oneret+tailrec', 'nret+tailrec']
MIX = ['inline', 'inline2', 'clone2', 'tailrec', 'funccalls', 'gcents', 'df', 'cf', 'gvnpre', 'ldst', 'combo', 'scalar', 'oneret', 'nret', 'opt_ret', 'inv'][:-2] + ['inv']
FUN = dict(calls=1.0, mem=.4, loops=.3, exprdepth=2, stmts=(3, 7), depth=2)


def body(c):
    lib = build_lib()
    batch(c, lib, [
        dict(n=scale(len(OWN) * 5), scripts=OWN, runs=3, pre=(('opt 1',), ('opt 1',), ('opt 0',)), nfun=3, recursion=.7, goto=.05, **FUN),
        dict(n=scale(len(OWN) * 3), scripts=OWN, runs=3, nfun=4, recursion=.3, indirect=.4, compound=.4, ifs=.6, early_ret=.3, dead=.05, **FUN),
        dict(n=scale(len(OWN) * 2), scripts=OWN, runs=3, nfun=3, recursion=1.0, volatile=.05, undef=.05, floats=.2, **FUN),
        dict(n=scale(45), scripts=pipelines(MIX, 2, 6), runs=3, nfun=3, recursion=.6, raw=.1, **FUN),
    ], limit=700)


if __name__ == '__main__':
    vlib.main('C11', 'model_checking', body)
