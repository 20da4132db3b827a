"""C07: local simplification: expressions built with the simplifier on and graphs re-optimised locally."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


PRE = (('opt 1',), ('opt 1',), ('opt 1', 'flag cse 0'), ('opt 1', 'flag alg 0'), ('opt 1', 'flag fold 0'), ('opt 0',))
SCR = ['', 'local', 'df', 'norm2', 'bool', 'conv', 'reassoc', 'gcse', 'confopt', 'df+norm2+df', 'bool+conv+reassoc+local', 'conv+df+bool+df']


def body(c):
    lib = build_lib()
    selftest.pure_selftest(c, 10 if not THOROUGH else 400)
    # many small expressions of the shapes rewriting looks for
    batch(c, lib, [
        dict(kind='peep', n=scale(150), scripts=SCR, runs=5, pre=PRE),
        dict(kind='peep', n=scale(24), scripts=SCR, runs=4, pre=PRE, modes_used=['Is', 'Iu'], depth=4),
        dict(kind='peep', n=scale(16), scripts=SCR, runs=4, pre=PRE, modes_used=['Bs', 'Bu', 'Ls', 'Lu'], depth=4),
        dict(kind='peep', n=scale(24), scripts=SCR, runs=3, pre=PRE, floats=.6),
    ], key='p', orders=(0,))
    # whole programs
    batch(c, lib, [
        dict(n=scale(60), scripts=SCR, runs=3, pre=PRE, mem=.5, dead=.1, recursion=.2, builtins=.3, undef=.05),
        dict(n=scale(20), scripts=['locc', 'locc+local'], runs=2),
    ], key='w')
    replay_known(c, lib)


if __name__ == '__main__':
    vlib.main('C07', 'model_checking', body)
