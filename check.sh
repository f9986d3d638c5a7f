#!/bin/bash
# check.sh ID [tier]: build the simulator against /repo's working tree and decide property ID.
# Exit 0: held; 1: violated (with a VIOLATION line); 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export SIM_VERIF=$PWD
export CARGO_NET_OFFLINE=true
mkdir -p out evidence

build() { # target-dir log [cargo args]
    local t=$1 log=$2
    shift 2
    cargo build --manifest-path sim/Cargo.toml --release --offline --locked --target-dir "sim/$t" "$@" >"$log" 2>&1
}

# threaded TARGET-DIR FEATURE WHAT: the thread-safe build.
threaded() {
    local t=$1 f=$2 log=out/build-$2.log
    if build $t $log --features $f; then
        exec sim/$t/release/sim check "$ID" "$TIER"
    fi
    # That the compiler no longer lets these cross a thread boundary is this property's business.
    if grep -qE 'cannot be (sent|shared) between threads safely' $log && build target out/build.log; then
        echo "in the thread-safe build, $3 can no longer be handed to another thread (compiler errors in the replay file)"
        cp $log out/$ID-not-send.log
        echo "VIOLATION property=$ID replay=$PWD/out/$ID-not-send.log"
        exit 1
    fi
    tail -40 $log
    echo "ERROR: the simulator does not build"
    exit 2
}

case $ID in
C15) threaded target-arc arc messages ;;
C24) threaded target-handoff handoff "parsers or streams" ;;
esac

LOG=out/build.log
if ! build target $LOG; then
    tail -40 $LOG
    echo "ERROR: the simulator does not build"
    exit 2
fi
exec sim/target/release/sim check "$ID" "$TIER"
