#!/bin/bash
# mkdemo.sh ID [sim]: lays out the demonstration of a planted change from /tmp/demo.go
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$1
mkdir -p $S/src/zdemo/demo
cp $V/tools/demo/demo.sh $S/demo.sh
cp $V/harness_extra/genesis_json.go $S/genesis_json.txt
if [ "$2" = sim ]; then mkdir -p $S/src/zdemo/sim; cp $V/harness/sim/*.go $S/src/zdemo/sim/; fi
sed 's#/v2/zverif/#/v2/zdemo/#' /tmp/demo.go > $S/src/zdemo/demo/main.go
git -C /repo diff > $S/patch.diff
git -C /repo checkout -- .
