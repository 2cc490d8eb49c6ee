#!/bin/bash
# tools/try.sh ID [extra run.py args]: runs the check of a planted bug on a scratch worktree with the patch applied
ID=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
W=$(mktemp -d /tmp/try_XXXX)
git -C /repo worktree add -q --detach $W/r HEAD && git -C $W/r apply /verif/seeded/$ID/patch.diff && mkdir -p $W/v && cp -r /verif/av /verif/contracts /verif/known_findings.txt /verif/MANIFEST.json $W/v/ && \
AV_REPO=$W/r python3-vt $W/v/av/run.py $P "$@" 2>&1 | cut -c1-300 | tail -${TAIL:-8}; echo "exit ${PIPESTATUS[0]}"
git -C /repo worktree remove --force $W/r; rm -rf $W
