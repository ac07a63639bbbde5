#!/bin/sh
# run a built harness: d.sh pkg PROP [args]
P=$1; C=$2; shift 2
mkdir -p /tmp/pbt-d && cd /tmp/pbt-d && PBT_SCRATCH=/tmp/pbt-d /verif/build/target/debug/$P --property $C --tier quick --seed ${SEED:-1} --evidence /tmp/pbt-d/$C.json --replays /tmp/pbt-d/replays --findings /verif/KNOWN_FINDINGS.txt --status /tmp/pbt-d/status --corpus /tmp/pbt-d/corpus --cap ${CAP:-60} "$@" 2>&1 | tail -${N:-40}
