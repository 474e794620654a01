#!/bin/sh
# nothing to build in advance: every check compiles what it needs from /repo
set -e
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
command -v g++ >/dev/null
command -v cvc5
