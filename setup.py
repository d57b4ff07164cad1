#!/usr/bin/env python3
"""Nothing a check needs is kept between runs: see that the tools are there and that the simulator builds."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mk
for t in ('g++', 'ld', 'objcopy', 'gcc', 'cargo', 'python3'):
    if not shutil.which(t):
        sys.exit(f'{t} is missing')
d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    mk.build_sim(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
print('the simulator builds')
