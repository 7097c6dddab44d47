#!/bin/bash
# run.sh <property>: builds from /repo's current tree and runs one check.
# Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
set -u
cd /verif || exit 2
export VERIF_DIR=/verif
mkdir -p /verif/evidence /verif/replays
if [ "$1" = S04 ]; then
    /verif/build.sh san || exit 2
    exec python3 /verif/san/run.py
fi
/verif/build.sh mon || exit 2
export MON_DEV=/verif/target/dev/debug/monitor
[ -x /verif/target/fma/release/monitor ] && export MON_FMA=/verif/target/fma/release/monitor
exec /verif/target/mon/release/monitor run "$1"
