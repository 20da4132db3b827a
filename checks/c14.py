"""C14: IA-32 machine code has the meaning of the program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import *
import gen as G
from native import native, IA32
from behav import scale

RICH = dict(builtins=.3, switch=.4, compound=.3, recursion=.3, volatile=.2)
SCR = ['', 'local+cf', 'local+gvnpre+cf', 'inline+local+ifconv+cf', 'combo+ldst+place', 'scalar+ldst+local']
PRESS = dict(exprdepth=5, nvars=14, calls=.4, mem=.5, depth=2)    # many live values


def body(c):
    lib = build_lib()
    groups = [([], [dict(n=scale(90), scripts=SCR, **RICH), dict(n=scale(60), scripts=SCR[:3], gen=G.ArithGen, runs=4),
                    dict(n=scale(40), scripts=[''], pre=('opt 0',), **RICH), dict(n=scale(30), scripts=SCR, **PRESS)])]
    opts = ['scheduler=random', 'scheduler=trivial', 'regalloc=pref verify=0', 'spill-algo=daemel', 'omitfp', 'pic', 'pic noplt', 'ra-chordal-co-algo=none',
            'spill-coalesce_slots=0 spill-remat=0', 'optcc', 'size', 'arch=i386', 'arch=athlon', 'arch=core2 optcc omitfp', 'arch=pentium4 scheduler=random']
    for o in opts:
        post = ('ifconv', 'local') if 'arch=core2' in o or 'arch=pent' in o else ()
        groups.append((o.split(), [dict(n=scale(14), scripts=SCR, post=post, **RICH), dict(n=scale(8), scripts=SCR, post=post, **PRESS),
                                   dict(n=scale(8), scripts=SCR[:3], post=post, gen=G.ArithGen)]))
    native(c, lib, IA32, groups, maxbad=8)


if __name__ == '__main__':
    vlib.main('C14', 'model_checking', body)
