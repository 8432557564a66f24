#!/bin/bash
# bash check.sh P03 [--replay FILE] [--only KIND] [--verbose]; VERIF_SEED and VERIF_TIER select the workload.
cd "$(dirname "$0")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/vf PYTHONUTF8=1
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP PYTHONUNBUFFERED
exec "$py" -X faulthandler -m vf.harness "$@"
