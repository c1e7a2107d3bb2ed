#!/bin/bash
# check.sh <property> [quick|thorough]   - decides one property
# check.sh <property> replay <file>      - runs one recorded case again
# check.sh build                         - builds every monitor (setup)
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
build() {
    local log; log=$(mktemp)
    if ! (cd harness && cargo build --offline "$@") >"$log" 2>&1; then
        tail -60 "$log"; rm -f "$log"
        echo "the monitors do not build against /repo" >&2
        exit 2
    fi
    rm -f "$log"
}
case "$1" in
    build) build --bins; build --bins --profile plain
        for p in dev plain; do build --bin field --features f63 --profile $p; done; exit 0 ;;
    P01|P02|P03|P20|P25|P27|P28) bin=complete ;;
    P04|P05|P06|P08|P09) bin=sound ;;
    P07|P10|P11|P13|P14|P15|P16) bin=tamper ;;
    P12|P23) bin=multi ;;
    P22) bin=recur ;;
    P29) bin=field; features="--features f63" ;;
    P17|P18|P19|P21|P24|P26) bin=units ;;
    *) echo "usage: $0 <property> [quick|thorough|replay <file>] | build" >&2; exit 2 ;;
esac
id=$1; mode=${2:-${VERIF_TIER:-quick}}
run() { # profile args: runs the monitor, turns a dead process into a violation
    local profile=$1; shift
    target/$profile/"$bin" "$@"
    local rc=$?
    case $rc in
        132|134|135|136|139)
            # the code under test took the whole process down (abort, stack
            # overflow, illegal access): no case may do that
            mkdir -p out
            f="$PWD/out/$id-crash.txt"
            echo "$profile/$bin $* VERIF_SEED=${VERIF_SEED:-1} died with status $rc" | tee "$f"
            echo "VIOLATION property=$id replay=$f"
            return 1 ;;
    esac
    return $rc
}
if [ "$mode" = replay ]; then
    if grep -q '"build": "plain"' "$3"; then profile=plain; build --bin "$bin" $features --profile plain; else profile=debug; build --bin "$bin" $features; fi
    run $profile "$id" replay "$3"
    exit $?
fi
build --bin "$bin" $features
build --bin "$bin" $features --profile plain
# a share of other cases in a build without overflow checks and debug
# assertions, then all cases with both
VERIF_PASS=plain run plain "$id" "$mode" || exit $?
run debug "$id" "$mode"
exit $?
