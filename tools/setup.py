#!/usr/bin/env python3
"""Checks that the tools that the checks need are present."""
import os
import shutil
import sys

TOOLS = ['clang++-20', 'ninja', 'protoc', 'java', 'ld.lld']
missing = [t for t in TOOLS if not shutil.which(t)]
if not os.path.exists('/opt/veriftools/tla/tla2tools.jar'):
  missing.append('tla2tools.jar')
if missing:
  sys.exit('missing: ' + ' '.join(missing))
print('ok')
