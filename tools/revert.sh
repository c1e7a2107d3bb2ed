#!/bin/bash
# revert.sh COMMIT P..: in a scratch copy, take one fix: commit back and show which checks fire.
c=$1; shift
S=${SCRATCH:-/tmp/rv}; V=/verif
mkdir -p $S; [ -d $S/repo ] || cp -a /repo $S/repo
[ -d $S/verif ] || { mkdir $S/verif; cp -a $V/target $S/verif/target; }
rm -rf $S/repo/src $S/verif/harness
cp -a /repo/src $S/repo/src; cp -a $V/harness $S/verif/; cp $V/env.sh $V/check.sh $V/known-findings.txt $S/verif/
cd $S/repo && git checkout -q -- .
sed -i "s#\"/repo\"#\"$S/repo\"#; s#\"../../repo\"#\"$S/repo\"#" $S/verif/harness/Cargo.toml
if [ -n "$SED" ]; then python3 -c "$SED"; else git show $c -- src | git apply -R -3 || { echo "$c: cannot be taken back"; git checkout -q HEAD -- .; exit 3; }; fi
git reset -q
export VERIF_DIR=$S/verif RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cd $S/verif && ./check.sh build > $S/build.log 2>&1 || { echo "$c: harness does not build"; tail -5 $S/build.log; }
for p in $*; do
  echo "$c $p: $(VERIF_SEED=1 ./check.sh $p quick 2>&1 | grep -E 'VIOLATION|  case' | head -2 | cut -c1-200 | tr '\n' ' ')"
done
cd $S/repo && git checkout -q HEAD -- .
