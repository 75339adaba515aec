#!/bin/bash
# Usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [...]
# Entry point of every check: runs the simulator against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH=${VERIF_REPO:-/repo}:$here
# never trust byte code lying in /repo: compile what is in the working tree now
export PYTHONPYCACHEPREFIX=/nonexistent-verif-pycache
export MPLBACKEND=Agg
cd "$here" || exit 2
exec $PY -W ignore -m sim.main "$@"
