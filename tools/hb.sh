#!/bin/bash
# build harness bins
cd /verif/harness && . /verif/env.sh
a=(); for b in "$@"; do a+=(--bin $b); done
cargo build --offline --quiet "${a[@]}" 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -${LINES_:-70}
