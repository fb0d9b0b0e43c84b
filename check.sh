#!/bin/bash
# check.sh PROP [quick|thorough]   builds the monitors from the working tree of /repo, and runs one of them
# check.sh build                   builds only
# check.sh replay FILE             runs one recorded case again
cd "$(dirname "$0")/harness" || exit 2
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T=../target
mkdir -p $T || exit 2
# cargo goes by the times of files: what was built is thrown away whenever the content is different
now=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
if [ "$now" != "$(cat $T/content 2>/dev/null)" ]; then
    rm -rf $T/release/.fingerprint/templito-*
fi
if ! cargo build --release >$T/build.log 2>&1; then
    echo "INCONCLUSIVE the monitors do not build:"
    grep -E -A12 '^error' $T/build.log | head -60
    tail -3 $T/build.log
    exit 2
fi
echo "$now" >$T/content
case "$1" in
build) exit 0 ;;
replay) exec $T/release/mon replay "$2" ;;
*) exec $T/release/mon check "$1" --tier "${2:-quick}" ;;
esac
