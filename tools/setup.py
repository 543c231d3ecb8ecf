#!/usr/bin/env python3-vt
"""Checks that the tools the framework uses are present; nothing has to be installed."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build
import z3, mpmath
miss = [x for x in (f'{build.LLBIN}/opt', f'{build.LLBIN}/llvm-link') if not os.path.exists(x)] + [x for x in ('llvm-cxxfilt-18',) if not shutil.which(x)]
if miss: print('missing', miss); sys.exit(1)
os.makedirs(build.BUILD, exist_ok=True)
print('z3', z3.get_version_string(), 'mpmath', mpmath.__version__, 'ok')
