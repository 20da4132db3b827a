"""C09: optimisations of loads, stores and frame objects."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


OWN = 'ldst,combmem,parmem,frame,scalar'.split(',')
SC = OWN + ['scalar+ldst', 'ldst+combmem', 'parmem+ldst', 'df+ldst+df+ldst', 'combmem+frame', 'ldst+scalar+frame', 'lhl+combmem', 'lhl+ldst', 'inline+scalar', 'inline+ldst']
MIX = OWN + ['df', 'cf', 'gvnpre', 'ifconv', 'jt', 'combo', 'inline', 'inv', 'lhl', 'place', 'local', 'lcopyb']
MEM = dict(mem=.9, calls=.35, ptrvars=.4, copyb=.3, exprdepth=2, volatile=.1, stmts=(6, 14))


def body(c):
    lib = build_lib()
    alias = (('opt 1',), ('opt 1',), ('opt 0',), ('opt 1', 'flag alias 1'))
    batch(c, lib, [
        dict(n=scale(len(SC) * 5), scripts=SC, runs=3, pre=alias, raw=.35, loops=.3, goto=.05, **MEM),
        dict(n=scale(len(SC) * 3), scripts=SC, runs=3, pre=alias, raw=.8, loops=.15, goto=0, ifs=.3, small_consts=.9, **MEM),
        dict(n=scale(len(SC) * 2), scripts=SC, runs=3, pre=(('opt 1',), ('opt 1', 'flag alias 6')), loops=.5, goto=.2, ifs=.6, recursion=.2, compound=.3, **MEM),
        dict(n=scale(len(SC) * 4), scripts=SC, runs=2, pre=alias, bytes=1., mem=.3, loops=.5, ifs=.4, calls=.15, goto=.05, stmts=(3, 6), exprdepth=2),
        dict(n=scale(150), scripts=['ldst', 'ldst', 'df+ldst', 'combmem', 'ldst+combmem', 'parmem+ldst', 'ldst+df+ldst'], runs=2, pre=alias, bytes=2., mem=.1, volatile=.03, loops=.4, ifs=.3, calls=0,
             switch=0, nfun=0, goto=0, stmts=(2, 5), exprdepth=1, depth=2),
        dict(n=scale(50), scripts=pipelines(MIX, 2, 6, LCSSA), runs=3, raw=.3, recursion=.2, **MEM),
    ])


if __name__ == '__main__':
    vlib.main('C09', 'model_checking', body)
