"""C25: what the value analyses claim is true of every value in every execution.

Programs are transformed by a random sequence of passes and then an analysis is run; its claims (known bits, value
ranges, possible relations, constant conditions, pointers that are not null, unreachable blocks) become checking
operations of the recorded graph, which the machine of Firm.tla executes on several inputs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


PRE = ['', '', 'local', 'confirm', 'confirm', 'cf', 'df', 'gvnpre', 'conv', 'scalar', 'jt', 'inline', 'ldst', 'ifconv', 'combo', 'vrp', 'lcssa+df', 'osr', 'inv', 'place', 'reassoc']
FACTS = ['f_bits', 'f_vrp', 'f_cmp']


def script(rng):
    s = [x for x in (rng.choice(PRE) for _ in range(rng.randint(0, 3))) if x]
    f = rng.choice(FACTS)
    if f == 'f_cmp' and rng.random() < .6:
        s.append('confirm')
    return '+'.join(s + FACTS) if rng.random() < .3 else '+'.join(s + [f])


def body(c):
    lib = build_lib()
    kw = dict(keep=lambda tag: tag.startswith('f_'), orders=(0,))
    for k, (target, pbits, n) in enumerate((('x86_64-linux-gnu', 64, 1), ('i686-linux-gnu', 32, 3))):
        b = batch(c, lib, [
            dict(n=scale(110 // n), scripts=script, runs=5, pre=(('opt 1',), ('opt 1',), ('opt 0',)), small_consts=.6, loops=.45, goto=.15, ifs=.7, switch=.4, mem=.3, calls=.3, builtins=.2, exprdepth=3, undef=0),
            dict(n=scale(50 // n), scripts=script, runs=5, pre=(('opt 1',), ('opt 0',)), mem=.6, ptrvars=.5, calls=.4, recursion=.3, compound=.2, floats=.1, undef=0),
            dict(n=scale(60 // n), kind='peep', scripts=['f_bits+f_cmp', 'f_vrp', 'confirm+f_cmp+f_bits'], runs=6, pre=('opt 0',)),
            dict(n=scale(40 // n), kind='arith', scripts=['f_bits+f_cmp', 'f_vrp+f_bits', 'confirm+f_cmp'], runs=6, pre=(('opt 0',), ('opt 1',))),
        ], key=target, target=target, pbits=pbits, **kw)
        c.add('claims', sum(getattr(p.canon, 'claims', 0) for p, _ in b.progs.values()))


if __name__ == '__main__':
    vlib.main('C25', 'model_checking', body)
