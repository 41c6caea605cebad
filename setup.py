#!/usr/bin/env python3
"""Warms the Go build cache so that the first check does not pay for compiling the toolchain's libraries."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
work = tempfile.mkdtemp(prefix='verif-setup-')
try:
    check.build(os.path.join(work, 'props.test'), False)
    check.build(os.path.join(work, 'props.race'), True)
finally:
    shutil.rmtree(work, ignore_errors=True)
print('setup done')
