"""C26: alias answers and recorded entity usages are true of every execution.

After a random sequence of passes the answers of the disambiguator for pairs of accesses (disjoint / surely meeting) and
the usage flags of entities become checking operations of the recorded graph, executed by the machine of Firm.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *


PRE = ['', '', '', 'local', 'scalar', 'ldst', 'df', 'combmem', 'inline', 'parmem', 'lhl', 'gvnpre', 'ifconv', 'inv', 'conv', 'lcopyb', 'cf', 'tailrec', 'pure']
FACTS = ['f_alias', 'f_usage']


def script(rng):
    s = [x for x in (rng.choice(PRE) for _ in range(rng.randint(0, 3))) if x and x != 'pure']
    return '+'.join(s + FACTS)


MEM = dict(mem=.9, calls=.3, ptrvars=.45, copyb=.25, exprdepth=2, volatile=.1, stmts=(6, 14), undef=0)


def body(c):
    lib = build_lib()
    kw = dict(keep=lambda tag: tag.startswith('f_'), orders=(0,))
    alias = (('opt 1',), ('opt 1',), ('opt 0',), ('opt 1', 'flag alias 1'))
    for k, (target, pbits, n) in enumerate((('x86_64-linux-gnu', 64, 1), ('i686-linux-gnu', 32, 3))):
        b = batch(c, lib, [
            dict(n=scale(90 // n), scripts=script, runs=4, pre=alias, raw=.35, loops=.3, goto=.05, **MEM),
            dict(n=scale(70 // n), scripts=script, runs=4, pre=alias, raw=.8, loops=.15, goto=0, ifs=.3, small_consts=.9, **MEM),
            dict(n=scale(60 // n), scripts=script, runs=4, pre=(('opt 1',), ('opt 1', 'flag alias 6')), loops=.5, goto=.2, ifs=.6, recursion=.2, compound=.3, **MEM),
        ], key=target, target=target, pbits=pbits, **kw)
        c.add('claims', sum(getattr(p.canon, 'claims', 0) for p, _ in b.progs.values()))


if __name__ == '__main__':
    vlib.main('C26', 'model_checking', body)
