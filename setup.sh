#!/bin/bash
# nothing to build: the framework is plain Python on the interpreter of the project
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, scipy; import mc.core, mc.run" && echo ok
