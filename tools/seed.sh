#!/bin/bash
# bash tools/seed.sh ID   checks seeded/ID in a scratch worktree: builds, passes the tests, demo 0 without and non-zero with it.
# bash tools/seed.sh ID --catch   also runs the property's quick check with the change applied to /repo, and undoes it.
V=/verif; S=$V/seeded/$1; W=/tmp/seedwork; export DEMO_TARGET_DIR=/tmp/seedtarget
. /opt/vp/env.sh
[ -d $W ] || git -C /repo worktree add -f --detach $W HEAD >/dev/null 2>&1
git -C $W checkout -q --detach "$(git -C /repo rev-parse HEAD)" && git -C $W checkout -q -- . && cp /repo/Cargo.lock $W/Cargo.lock
cd $W || exit 1
bash $S/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
sleep 1.1; git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
export CARGO_TARGET_DIR=/tmp/seedtests
t=ok
for f in "--all-features" "--no-default-features --features serde,base64,silent-payments"; do
  cargo test --offline $f >/tmp/seed.tests 2>&1 || { t=FAIL; cp /tmp/seed.tests /tmp/seed.tests.fail; }
done
cargo build --offline --lib --no-default-features >/dev/null 2>&1 || t="FAIL no_std"
unset CARGO_TARGET_DIR
bash $S/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
git checkout -q -- .
echo "$1: tests $t, demo clean $d0, patched $d1 ($(tail -1 /tmp/seed.demo1 | cut -c1-150))"
# git blame: the removed lines must be those of the original repository
if [ "$2" = --catch ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff && bash $V/run.sh $P quick 2>&1 | grep -E "VIOLATION|cases=|KNOWN" | tail -3
  git -C /repo checkout -q -- .
fi
