#!/bin/bash
# offline; compiles the verifier's Python files and checks that the tools it drives are there
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
python3-vt -m compileall -q mirv >/dev/null 2>&1 || true
python3-vt -c 'import z3'
command -v cvc5 z3 cargo rustc >/dev/null
