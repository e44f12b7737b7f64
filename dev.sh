#!/bin/bash
# dev.sh ID CASES SEEDS...: quick look while developing
cd /verif; . ./env.sh
(cd harness && cargo build --offline 2>&1 | grep -A12 "^error") && exit 1
id=$1; n=$2; shift 2
for i in "$@"; do VERIF_SEED=$i target/debug/vh check $id quick $n; done
python3 -c "import json,sys; print(json.load(open('evidence/$id.json'))['coverage']['classes'])"
