#!/bin/bash
# nothing to install: checks the tools the framework uses
set -e
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
command -v clang++ >/dev/null
