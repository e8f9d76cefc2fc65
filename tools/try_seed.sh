#!/bin/bash
# tools/try_seed.sh ID [check-ids...]: confirms a planted bug in a scratch worktree, then runs checks on it in /repo.
id=$1; shift
d=/verif/seeded/$id
[ -f $d/patch.diff ] || { echo no patch; exit 2; }
[ -f $d/demo.sh ] || cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
if [ -z "$SKIP_CONFIRM" ]; then
w=/tmp/seedwork; rm -rf /tmp/seedwork
git -C /repo worktree prune; git -C /repo worktree add -q --detach $w HEAD || exit 2
( cd $w && $d/demo.sh >/tmp/demo.out 2>&1; echo "demo on clean: $? (want 0)"; tail -2 /tmp/demo.out
  git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
  $d/demo.sh >/tmp/demo.out 2>&1; echo "demo on bug: $? (want !=0)"; tail -3 /tmp/demo.out
  CARGO_TARGET_DIR=/tmp/seedtarget cargo +stable-x86_64-unknown-linux-gnu test --workspace --exclude dm-langserver --no-fail-fast --offline -q 2>&1 | grep -E "^test result|FAILED|failed|error|warning: unused" | grep -v "test result: ok" ); echo "(tests done)"
git -C /repo worktree remove --force $w
fi
git -C /repo apply $d/patch.diff || exit 1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${*:-$prop}; do /verif/check.sh $c quick 2>&1 | tail -4 | cut -c1-600; echo "check $c: ${PIPESTATUS[0]}"; done
git -C /repo checkout -q -- .
