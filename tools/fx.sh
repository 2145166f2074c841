#!/bin/bash
# fx.sh PROP "fix message" "what failed" files...
P=$1; M=$2; W=$3; shift 3
cd /repo && git add "$@" && git commit -qm "fix: $M" && C=$(git rev-parse --short HEAD) && python3 /tmp/tools/kf.py $P $C "$W" && echo $C
