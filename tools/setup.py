#!/usr/bin/env python3
"""Checks that the tools the checks need are present. The checks build what they need themselves."""
import shutil, sys
miss = [t for t in ('cmake', 'ninja', 'g++', 'gcc', 'mpirun', 'mpicxx', 'python3') if not shutil.which(t)]
if miss: print('missing:', miss); sys.exit(1)
print('ready')
