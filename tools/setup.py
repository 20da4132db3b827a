#!/usr/bin/env python3
"""setup_cmd: every check builds what it needs itself; this only proves the toolchain works."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
vlib.overrides()
vlib.build_lib()
