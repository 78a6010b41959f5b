#!/usr/bin/env python3
"""Sanity check of the tools the checks need; nothing is built ahead of time."""
import subprocess, sys, os
for c in (['verus', '--version'], ['clang-18', '--version'], ['g++', '--version']):
    p = subprocess.run(c, capture_output=True, text=True)
    if p.returncode:
        print('missing tool: ' + ' '.join(c)); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence', 'replay'), exist_ok=True)
print('ok')
