#!/bin/bash
# nothing to build: the verifier is Python; check the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -W ignore -c "import lingam; print(lingam.__file__)"
cvc5 --version | head -1
