#!/bin/bash
# bug.sh ID: with the change made in /tmp/bug (a copy of /repo), confirm it and keep it as /verif/seeded/ID.
# /verif/seeded/ID holds demo.sh (and its files) and meta.json already.
set -u
id=$1; S=/verif/seeded/$id
cd /tmp/bug || exit 1
if ! git diff --quiet -- devel; then tool/hone --header-content-amalgam > /tmp/hone.out && cp /tmp/hone.out include/wtr/watcher.hpp; fi
git diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
git -C /repo apply --check "$S/patch.diff" || exit 1
D=$(mktemp -d); cp -r "$S/." "$D/"; rm -f "$D"/*.diff "$D"/meta.json
(cd /repo && sh "$D/demo.sh" > /tmp/bug-clean.out 2>&1); a=$?
(cd /tmp/bug && sh "$D/demo.sh" > /tmp/bug-patched.out 2>&1); b=$?
rm -rf "$D"
echo "$id: demo clean $a patched $b"; tail -3 /tmp/bug-patched.out
git checkout -q -- .
