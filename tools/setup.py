#!/usr/bin/env python3
"""Checks that the tools exist and warms nothing that a check relies on: every check builds from /repo itself."""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'python3', 'ar') if not shutil.which(t)]
if missing: print('missing:', missing)
sys.exit(1 if missing else 0)
