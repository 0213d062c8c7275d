#!/bin/bash
# c.sh ID [seeds...]: run a check with several seeds
id=$1; shift
for s in ${@:-1 2 3}; do VERIF_SEED=$s timeout 900 python3 /verif/run.py check $id 2>&1 | tail -${LINES_OUT:-14}; done
