#!/bin/bash
# nothing to build: checks that the interpreter, the vendored libraries and lop import
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/vendor:/repo/src:$here/lib"
mkdir -p "$here/evidence"
cd "$here" && exec /opt/venv/bin/python -c "import hypothesis, numpy, scipy; print('hypothesis', hypothesis.__version__)"
