#!/bin/bash
# development aid: qualifies a planted bug in a scratch copy of /repo and runs the property's check against it
# usage: seedtest.sh ID [nocheck]
set -u
ID=$1; D=/verif/seeded/$ID; S=/tmp/seedtest
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p $S
if [ ! -d $S/repo ]; then git clone -q /repo $S/repo; fi
git -C $S/repo fetch -q; git -C $S/repo checkout -q -f $(git -C /repo rev-parse HEAD)
cd $S/repo && unset CARGO_TARGET_DIR
sync_build() { cargo build -q --offline --workspace --bins 2>&1 | grep -E "^error" ; cargo test -q --offline --workspace --no-run >/dev/null 2>&1; }
if [ ! -f $S/clean_ok.$ID ]; then
  sync_build; bash $D/demo.sh >$S/demo.out 2>&1; rc=$?
  [ $rc -eq 0 ] || { echo "$ID: demo fails on the unchanged tree rc=$rc"; tail -5 $S/demo.out; exit 1; }
fi
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
sync_build
cargo test -q --offline --workspace --no-fail-fast >$S/test.out 2>&1 || { echo "$ID: tests fail"; grep -E "panicked|error" $S/test.out | head -5; git checkout -q -f .; exit 1; }
bash $D/demo.sh >$S/demo.out 2>&1; rc=$?
[ $rc -ne 0 ] || { echo "$ID: demo passes with the patch"; git checkout -q -f .; exit 1; }
echo "$ID: qualifies (demo rc=$rc: $(tail -1 $S/demo.out | cut -c1-150))"
if [ "${2:-}" != nocheck ]; then
  rm -rf $S/verif; mkdir $S/verif; (cd /verif && tar cf - --exclude=.git --exclude=.build --exclude=.work --exclude=seeded --exclude=replays .) | tar xf - -C $S/verif
  sed -i "s#\"/repo\"#\"$S/repo\"#" $S/verif/harness/Cargo.toml
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd $S/verif && VERIF_REPO=$S/repo VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P quick > $S/check.out 2>&1); rc=$?
  echo "$ID: check $P rc=$rc $(grep -m1 VIOLATION $S/check.out | cut -c1-200)"
fi
git checkout -q -f .
