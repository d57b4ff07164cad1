#!/bin/bash
# trybug.sh ID [PROP..]: what the checks say about a planted change, in a scratch copy of /repo
for id in "${@:1:1}"; do
  T=$(mktemp -d /tmp/tb-XXXXXX); mkdir "$T/r"; git -C /repo archive HEAD | tar -x -C "$T/r"
  (cd "$T/r" && git init -q && git apply "/verif/seeded/$id/patch.diff") || exit 1
  shift; P="$*"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for p in $P; do o=$(VERIF_REPO=$T/r python3 /verif/check.py $p 2>&1); echo "$id $p rc=$? $(echo "$o" | grep -E 'VIOLATION|runs' | cut -c1-220)"; done
  rm -rf "$T"
done
