#!/bin/bash
# Nothing to install: the verifier is Python, the extraction uses the system clang.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, irv.exec, irv.prover' 
clang++-18 --version >/dev/null
opt-18 --version >/dev/null
cvc5 --version >/dev/null
