"""C08: optimisations of values and control flow, alone and in sequences."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


OWN = ('cf,jt,bool,conv,gvnpre,ifconv,ifconv_all,reassoc,oneret,nret,combo,dne,place,occult,rmcrit,rmbad,confirm,confopt,vrp,gcse,df,rmphi').split(',')
ALL = OWN + ['scalar', 'parmem', 'ldst', 'combmem', 'osr', 'inv', 'inline', 'norm2', 'local', 'domall']
CF = dict(mem=.25, calls=.3, loops=.5, goto=.35, switch=.3, ifs=.7, early_ret=.2, dead=.08, exprdepth=3)


def body(c):
    lib = build_lib()
    batch(c, lib, [
        dict(n=scale(len(OWN) * 5), scripts=OWN, runs=4, pre=(('opt 1',), ('opt 1',), ('opt 0',)), stmts=(5, 12), **CF),
        dict(n=scale(len(OWN) * 2), scripts=OWN, runs=3, pre=(('opt 1',), ('opt 0',)), recursion=.2, undef=.05, builtins=.3, floats=.1, mem=.5),
        dict(n=scale(60), scripts=pipelines(OWN, 2, 6), runs=3, **CF),
        dict(n=scale(50), scripts=pipelines(ALL, 3, 9, LCSSA), runs=3, recursion=.3, raw=.2, **CF),
    ])
    replay_known(c, lib)


if __name__ == '__main__':
    vlib.main('C08', 'model_checking', body)
