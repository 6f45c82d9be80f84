#!/bin/bash
# trial.sh ID: confirm a planted change in a scratch copy (/tmp/sr): applies, builds, keeps the stable tests,
# demo passes without and fails with it.
ID=$1; S=/verif/seeded/$ID; R=/tmp/sr
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
if [ ! -d $R ]; then cp -a /repo $R; else git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD; fi
cd $R || exit 1
D=$(mktemp -d /tmp/demo.XXXX); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
if [ -z "$SKIPBASE" ]; then bash $D/demo.sh >/tmp/demo_base.log 2>&1 || { echo "demo FAILS on base"; tail -20 /tmp/demo_base.log; rm -rf "$D"; exit 1; }; fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
cargo test --workspace --exclude dm-langserver --offline 2>&1 | grep -E "^(error|test .*FAILED)" | head
bash $D/demo.sh >/tmp/demo_patch.log 2>&1; rc=$?
grep -m3 -E 'panicked|assert|left|right|rror' -A1 /tmp/demo_patch.log | head -4
[ $rc != 0 ] && echo "demo rc=$rc with patch: OK" || echo "demo PASSES with patch: BAD"
git checkout -q -- .
rm -rf "$D"
