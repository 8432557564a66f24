#!/bin/bash
# Nothing to build ahead: checks import /repo's package as it is; P02 compiles its C producer into its own scratch folder.
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 "$py" -c "import vf.harness, vf.model, vf.gen; [vf.model.layout(v) for v in vf.model.VERSIONS]; print('ready')"
