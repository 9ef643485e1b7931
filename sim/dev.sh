#!/bin/bash
# Development: run ID over several seeds.
bash /verif/build.sh || exit 2
export VERIF_DIR=/tmp/verifdev; mkdir -p $VERIF_DIR; cp /verif/known_findings.txt $VERIF_DIR/ 2>/dev/null
for s in ${3:-1 2 3}; do timeout 900 /verif/sim/target/release/sim check $1 --runs ${2:-20000} --seed $s | cut -c1-1500; done
