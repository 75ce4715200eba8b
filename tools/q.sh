#!/bin/bash
# q.sh ID [seeds...]: quick check under several seeds, terse
id=$1; shift; cd "$(dirname "$0")/.."
for s in ${@:-1 2 3}; do VERIF_SEED=$s bin/check $id quick 2>&1 | grep -v '\[rapid\] draw' | cut -c1-600 | head -${L:-40}; done
