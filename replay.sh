#!/bin/bash
# usage: replay.sh FILE   replays a violation in a fresh process
cd "$(dirname "$0")" && exec python3 -B -c '
import sys; sys.path.insert(0, ".")
from dst import run
import json
rec = json.load(open(sys.argv[1])); r = run.replay(sys.argv[1])
ok = run.same(rec, r)
print("class", rec["class"], "| now", [v[0] for v in r.get("viols", [])], "| same class:", ok, "| exact trace:", r.get("digest") == rec["digest"])
for v in r.get("viols", []): print(v[1])
sys.exit(1 if ok else 0)' "$(realpath "$1")"
