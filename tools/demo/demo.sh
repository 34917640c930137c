#!/bin/bash
# Builds the demonstration beside this file into /repo's module through an overlay and runs it.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
python3 - "$D" "$T/overlay.json" <<'P' || exit 0
import json, os, re, sys
d, out = sys.argv[1:]
rep = {}
for root, _, files in os.walk(os.path.join(d, "src")):
    rel = os.path.relpath(root, os.path.join(d, "src"))
    for f in files:
        rep[os.path.join("/repo", rel, f)] = os.path.join(root, f)
cfg = "/repo/common/config"
if not any(re.search(r"^\s*(const|var)\s+genesisJson\b", open(os.path.join(cfg, f)).read(), re.M) for f in os.listdir(cfg) if f.endswith(".go")):
    rep[cfg + "/genesis_json_demo.go"] = os.path.join(d, "genesis_json.txt")
json.dump({"Replace": rep}, open(out, "w"))
P
cd /repo && go build -overlay "$T/overlay.json" -o "$T/demo" ./zdemo/demo || { echo "demo does not build"; exit 0; }
cd "$T" && TMPDIR="$T" timeout 200 "$T/demo"
