#!/usr/bin/env python3
"""Checks that the toolchain the harnesses need is present; the checks build what they need themselves."""
import shutil, sys, os
for t in ('g++', 'ld.lld', 'git', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
