#!/bin/bash
# Nothing to build ahead of time: the checks import /repo's working tree and compile kernels on demand.
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 python -c "import vsim.core, vsim.main" && echo setup ok
