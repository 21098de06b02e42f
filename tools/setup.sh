#!/bin/bash
# Builds the analyser and the IR of the library (the checks rebuild whatever /repo's tree requires).
set -e
cd "$(dirname "$0")/.."
python3 -c "
import sys; sys.path.insert(0,'tools')
import run
run.build_analyzer(); run.build_ir('std'); run.build_py_ir()"
