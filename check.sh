#!/bin/bash
# check.sh ID [quick|thorough]     run the check of one property
# check.sh --replay FILE           run one stored case
# check.sh --build advcheck|cxxcheck|defs
# Rebuilds the harness against /repo's current working tree first.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run.
cd "$(dirname "$0")" || exit 2
here=$PWD
export ADVCHECK_VERIF=$here CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true
export VERIF_SEED=${VERIF_SEED:-1}
unset RUSTFLAGS CARGO_BUILD_TARGET
id=$1
case $1 in
    --replay) id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2 ;;
    --build) id=$2 ;;
    *) [ -n "$2" ] && export VERIF_TIER=$2 ;;
esac
triple=x86_64-unknown-linux-gnu
case $id in
    C23|C24|cxxcheck)
        bin=cxxcheck
        export CARGO_TARGET_DIR=$here/target/cxx RUSTFLAGS=-Zsanitizer=address
        cargo=(cargo +nightly) flags=(--target $triple) features=(--features cxx)
        exe=$CARGO_TARGET_DIR/$triple/debug/$bin ;;
    *)
        bin=advcheck
        cargo=(cargo) flags=() features=()
        exe=$CARGO_TARGET_DIR/debug/$bin ;;
esac
log=$CARGO_TARGET_DIR/build-$bin.log
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
# file times are not trusted: other contents of /repo mean a new build of it
hash=$(cd /repo && cat Cargo.toml $(find src include -type f | LC_ALL=C sort) | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/hash-$bin" 2>/dev/null)" != "$hash" ]; then
    (cd harness && touch build.rs && "${cargo[@]}" clean "${flags[@]}" --offline -p advantage) >"$log" 2>&1
    rm -f "$CARGO_TARGET_DIR/hash-$bin"
fi
if ! (cd harness && "${cargo[@]}" build "${flags[@]}" "${features[@]}" --offline --locked --bin $bin) >"$log" 2>&1; then
    echo "building the harness against /repo failed:" >&2
    tail -40 "$log" >&2
    exit 2
fi
echo "$hash" >"$CARGO_TARGET_DIR/hash-$bin"
if [ "$1" = --build ]; then
    [ "$id" = defs ] && { "$exe" --build-defs || exit 2; }
    exit 0
fi
exec "$exe" "$@"
