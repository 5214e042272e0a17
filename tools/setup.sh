#!/bin/bash
# Nothing to install: checks that toolchain and package import work.
cd "$(dirname "$0")/.." || exit 1
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python -c "
from vh import boot
boot.install()
import numpy, networkx, apytypes, pybind11
print('ok')" || exit 1
command -v ghdl >/dev/null && command -v g++ >/dev/null
