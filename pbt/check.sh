#!/bin/bash
# usage: pbt/check.sh PROPERTY [quick|thorough]   (run in /verif)
cd "$(dirname "$0")/.." || exit 2
for py in /opt/venv/bin/python "$(command -v python)" "$(command -v python3)"; do
    [ -x "$py" ] && "$py" -c 'import docutils, markdown, textile, pygments, readme_renderer' 2>/dev/null && break
done
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8 TZ=UTC LC_ALL=C.UTF-8
# never read a .pyc that belongs to another state of the source
PYTHONPYCACHEPREFIX=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX
"$py" -B pbt/run.py "$@"
rc=$?
rmdir "$PYTHONPYCACHEPREFIX" 2>/dev/null
exit $rc
