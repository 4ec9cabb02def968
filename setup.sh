#!/bin/bash
# nothing to install; verifies that the solvers and the engine start
cd "$(dirname "$(readlink -f "$0")")" || exit 1
cvc5 --version >/dev/null || exit 1
/opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import z3, vk.sym, vk.front, vk.contract'
