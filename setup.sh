#!/bin/bash
# Nothing to compile: checks that the interpreter, the code under test and the
# simulator import.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH=/repo:$here PYTHONPYCACHEPREFIX=/nonexistent-verif-pycache
cd "$here" && mkdir -p evidence && $PY -W ignore -c "import sim.main, sim.simfs, sim.lines, sim.objs, sim.observe; print('simulator ready')"
