"""C13: x86-64 machine code has the meaning of the program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import *
import gen as G
from native import native, AMD64
from behav import scale

RICH = dict(floats=.4, builtins=.3, switch=.4, compound=.3, recursion=.3, volatile=.2)
SCR = ['', 'local+cf', 'local+gvnpre+cf', 'inline+local+ifconv+cf', 'combo+ldst+place', 'scalar+ldst+local']
PRESS = dict(exprdepth=5, nvars=14, calls=.4, mem=.5, depth=2)    # many live values


def body(c):
    lib = build_lib()
    groups = [([], [dict(n=scale(90), scripts=SCR, **RICH), dict(n=scale(60), scripts=SCR[:3], gen=G.ArithGen, runs=4),
                    dict(n=scale(40), scripts=[''], pre=('opt 0',), **RICH), dict(n=scale(30), scripts=SCR, **PRESS)])]
    opts = ['scheduler=random', 'scheduler=trivial', 'regalloc=pref verify=0', 'ra-chordal-coloring=pbqp', 'spill-algo=daemel', 'omitfp', 'pic', 'ra-chordal-co-algo=none',
            'spill-coalesce_slots=0 spill-remat=0', 'omitfp no-red-zone scheduler=random']
    for k, o in enumerate(opts):
        groups.append((o.split(), [dict(n=scale(18), scripts=SCR, **RICH), dict(n=scale(10), scripts=SCR, **PRESS), dict(n=scale(8), scripts=SCR[:3], gen=G.ArithGen)]))
    native(c, lib, AMD64, groups, maxbad=8)


if __name__ == '__main__':
    vlib.main('C13', 'model_checking', body)
