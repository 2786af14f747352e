#!/bin/bash
# Nothing to compile ahead of time: every check builds what it needs from /repo itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PY=/opt/venv/bin/python
$PY -c 'import numpy, sys; assert sys.version_info >= (3, 8)'
$PY -W ignore -c 'import sys; sys.path.insert(0, "."); from sim import core, vfs, net, loader, patch, harness; print("simulator loads")'
