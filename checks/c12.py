"""C12: lowering of high-level constructs, of wide operations and of constants, for every target's configuration."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from behav import *
import lowered

TARGETS = [('x86_64-linux-gnu', 'amd64', 64), ('i686-linux-gnu', 'ia32', 32), ('riscv32-unknown-elf', 'riscv', 32)]
SINGLE = ['lswitch', 'lswitch2', 'lcopyb', 'lcopyb2', 'lmux', 'lmodeb', 'lalloc', 'lhl', 'lhlall', 'lconst', 'ifconv_all+lmux', 'bool+lmodeb', 'ifconv_all+lmodeb',
          'lhlall+lswitch', 'lhlall+lmux', 'local+ifconv_all+lhlall+lmux+lmodeb+lswitch']
BACK = ['lhlall+lower', 'lhlall+lower', 'local+cf+lhlall+lower', 'lhlall+ifconv_all+local+lower', 'combo+ldst+lhlall+lower', 'lhlall+jt+bool+lower']
TAGS = ['lhl', 'lhlall', 'lmux', 'lmodeb', 'lcopyb', 'lcopyb2', 'lswitch', 'lswitch2', 'be:lower-switch', 'be:lower-64', 'be:lower-modeb', 'be:lower-copyb']
RICH = dict(builtins=.3, switch=.45, compound=.35, recursion=.25, volatile=.2, loops=.3)


def body(c):
    lib = build_lib()
    for triple, name, bits in TARGETS:
        fl = dict(floats=.15) if name == 'amd64' else {}
        batch(c, lib, [
            dict(n=once(len(SINGLE) * 3), scripts=SINGLE, runs=3, undef=.05, **fl, **RICH),
            dict(n=once(60), scripts=BACK, runs=3, **fl, **RICH),
            dict(n=once(20), scripts=BACK, runs=3, pre=('opt 0',), **RICH),
            dict(n=once(60), scripts=['lower', 'local+lower', 'gvnpre+lower'], runs=4, kind='arith'),
            dict(n=once(30), scripts=BACK, runs=2, exprdepth=5, mem=.2, ifs=.6),
        ], key=name, target=triple, pbits=bits, ll=8, post=lambda b, bad: lowered.judge(c, b, name, TAGS))


if __name__ == '__main__':
    vlib.main('C12', 'model_checking', body)
