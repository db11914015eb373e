#!/bin/bash
# setup.sh: builds the harness once, offline, from the committed files.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
mkdir -p evidence replays
(cd harness && cargo build --offline) || exit 2
CARGO_TARGET_DIR=$CARGO_TARGET_DIR/server cargo build --manifest-path /repo/Cargo.toml -p polodb -p py-binding-polodb --offline --locked || exit 2
gcc -shared -fPIC -O1 -o "$PT_SHIM" harness/shim/shim.c -ldl || exit 2
"$CARGO_TARGET_DIR/debug/pt" list >/dev/null
