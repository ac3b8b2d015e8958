#!/usr/bin/env python3
"""Checks that the tools the framework needs work here; every check builds what it needs itself."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for t in ('cmake', 'ninja', 'g++'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
os.makedirs(vlib.BUILD, exist_ok=True)
vlib.build_lib('asan')
print('setup ok')
