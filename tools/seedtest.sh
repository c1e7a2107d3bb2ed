#!/bin/bash
# seedtest.sh ID [P..]: in a scratch copy, confirm a planted bug (tests pass, demo 0 -> non-0)
# and show which checks fire. Never touches /repo.
id=$1; shift
S=${SCRATCH:-/tmp/sw}
V=/verif; D=$V/seeded/$id
mkdir -p $S; [ -d $S/repo ] || cp -a /repo $S/repo
[ -d $S/verif ] || { mkdir $S/verif; cp -a $V/target $S/verif/target; }
rm -rf $S/repo/src $S/verif/harness
cp -a /repo/src $S/repo/src; cp -a $V/harness $S/verif/; cp $V/env.sh $V/check.sh $V/known-findings.txt $S/verif/
cd $S/repo && git checkout -q -- . && git clean -fdq src
sed -i "s#\"/repo\"#\"$S/repo\"#; s#\"../../repo\"#\"$S/repo\"#" $S/verif/harness/Cargo.toml
[ -z "$NODEMO0" ] && { bash $D/demo.sh > $S/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"; }
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
timeout 300 cargo test --lib --offline > $S/test.log 2>&1; echo "tests: $?  $(grep 'test result' $S/test.log)"
[ -z "$NODEMO" ] && { bash $D/demo.sh > $S/demo1.log 2>&1; echo "demo patched: $? (want non-0)"; grep -E "panicked|assertion|error" -A2 $S/demo1.log | head -5; }
export VERIF_DIR=$S/verif
cd $S/verif && ./check.sh build > $S/build.log 2>&1 || { echo "harness does not build"; tail -5 $S/build.log; }
for p in ${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; do
  echo "$p: $(VERIF_SEED=1 ./check.sh $p quick 2>&1 | grep -E 'VIOLATION|  case' | head -2 | cut -c1-200 | tr '\n' ' ')"
done
