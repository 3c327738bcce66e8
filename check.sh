#!/bin/bash
# check.sh <property> [quick|thorough]     run one check
# check.sh build                           build what the checks share
# check.sh replay <file>                   replay a reported violation
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
REPO="/repo"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p build evidence

# cargo takes a file for unchanged when it is older than the build. What was built
# from other sources is built again whatever the dates of the files say.
sources=$(cd "$REPO" && find . -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.md' \) -print0 |
    sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sources" != "$(cat build/sources 2>/dev/null)" ]; then
    find build -depth -path '*/.fingerprint/stylish*' -delete
    echo "$sources" >build/sources
fi

# make <crate>: builds it and sets $H
make() {
    if ! CARGO_TARGET_DIR="$VERIF_DIR/build/target" cargo build --offline --manifest-path "$1/Cargo.toml" >"build/$1.log" 2>&1; then
        tail -40 "build/$1.log"
        echo "$1 does not build" >&2
        exit 2
    fi
    H="$VERIF_DIR/build/target/debug/$1"
}

RUNTIME=" C01 C02 C03 C04 C05 C06 C07 C12 C13 C14 C15 C16 "
PROGRAMS=" C08 C09 C10 C11 C15 C17 C18 "

case "${1:-}" in
    build)
        make harness
        make programs
        exec "$H" libs
        ;;
    replay)
        for crate in harness programs; do
            make $crate
            "$H" replay "$2"
            rc=$?
            [ $rc = 2 ] || exit $rc
        done
        exit 2
        ;;
    *)
        rc=2
        if [[ "$RUNTIME" == *" $1 "* ]]; then
            make harness
            "$H" check "$@"
            rc=$?
            [ $rc = 0 ] || exit $rc
        fi
        if [[ "$PROGRAMS" == *" $1 "* ]]; then
            make programs
            "$H" check "$@"
            rc=$?
        fi
        exit $rc
        ;;
esac
