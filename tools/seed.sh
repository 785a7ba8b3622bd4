#!/bin/bash
# tools/seed.sh ID : take /repo's working-tree diff as planted bug ID (or apply the existing patch), confirm it, run its check, undo.
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cd /repo
if ! git diff --quiet; then git diff > $D/patch.diff; else git apply $D/patch.diff || exit 1; fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /tmp/rt.sh
bash $D/demo.sh >/tmp/demo.log 2>&1; echo "demo with the bug: rc $? ($(tail -1 /tmp/demo.log))"
cd /verif; for p in $P $2; do python3 vp.py check $p | tail -6; done
git -C /repo checkout -- .
if [ -z "$NOCLEAN" ]; then cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/demo.log 2>&1; echo "demo clean: rc $? ($(tail -1 /tmp/demo.log))"; fi
