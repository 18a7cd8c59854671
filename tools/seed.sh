#!/bin/bash
# Development tool: confirm a planted bug in a scratch copy (tests pass, demo fails with it and passes without),
# then run its property's check against /repo with the patch applied and undone again.
# usage: tools/seed.sh ID [--nocheck]
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -d $w ] || { mkdir $w; cp -a /repo/. $w/; }
cd $w; git fetch -q /repo HEAD 2>/dev/null; git checkout -qf FETCH_HEAD 2>/dev/null; git checkout -q -- .
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target RUSTUP_TOOLCHAIN=stable
bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "$id DEMO FAILS ON CLEAN"; tail -5 /tmp/demo.out; exit 1; }
git apply $d/patch.diff || { echo "$id NO APPLY"; exit 1; }
cargo test --workspace --offline -q >/tmp/seedtest.out 2>&1 || { echo "$id TESTS FAIL"; grep -E "FAILED|panicked|error" /tmp/seedtest.out | head -5; git checkout -q -- .; exit 1; }
bash $d/demo.sh >/tmp/demo.out 2>&1 && { echo "$id DEMO PASSES WITH BUG"; git checkout -q -- .; exit 1; }
git checkout -q -- .
echo "$id ok: $(tail -1 /tmp/demo.out | cut -c1-150)"
[ "$2" = --nocheck ] && exit 0
git -C /repo apply $d/patch.diff || exit 1
unset CARGO_TARGET_DIR
cd /verif; timeout 900 python3 check.py $prop >/tmp/seedcheck.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $prop exit $rc: $(grep -E 'VIOLATION' /tmp/seedcheck.out | head -1) $(grep -E 'native|held|ERROR' /tmp/seedcheck.out | tail -1 | cut -c1-200)"
