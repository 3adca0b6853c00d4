#!/bin/bash
# run.sh ID [--replay FILE]: runs the check of one property (see tool/run.py).
. /opt/vp/env.sh
exec python3 "$(dirname "$(readlink -f "$0")")/tool/run.py" "$@"
