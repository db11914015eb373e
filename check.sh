#!/bin/bash
# check.sh ID TIER: rebuilds the harness from /repo's working tree and runs the check of one property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence replays
# cargo goes by times of files; go by their contents
NOW=$(cd /repo && find src py-polodb Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$NOW" != "$(cat "$CARGO_TARGET_DIR/repo.sha" 2>/dev/null)" ]; then
  find "$CARGO_TARGET_DIR" -maxdepth 4 -type d \( -name 'polodb_*' -o -name 'polodb-[0-9a-f]*' -o -name 'py-binding-*' \) -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null
fi
LOG=$(mktemp)
if ! (cd harness && cargo build --offline >"$LOG" 2>&1); then
  echo "the harness does not build:"
  grep -E '^error' -A8 "$LOG" | head -60
  rm -f "$LOG"
  exit 2
fi
case $ID in
C19|C20) PART=polodb;;
C21) PART=py-binding-polodb;;
*) PART=;;
esac
if [ -n "$PART" ]; then
  if ! CARGO_TARGET_DIR=$CARGO_TARGET_DIR/server cargo build --manifest-path /repo/Cargo.toml -p $PART --offline --locked >"$LOG" 2>&1; then
    echo "$PART does not build:"
    grep -E '^error' -A8 "$LOG" | head -60
    rm -f "$LOG"
    exit 2
  fi
fi
rm -f "$LOG"
echo "$NOW" > "$CARGO_TARGET_DIR/repo.sha"
if [ ! -f "$PT_SHIM" ] || [ harness/shim/shim.c -nt "$PT_SHIM" ]; then
  gcc -shared -fPIC -O1 -o "$PT_SHIM.$$" harness/shim/shim.c -ldl && mv "$PT_SHIM.$$" "$PT_SHIM" || exit 2
fi
export PT_SCRATCH
PT_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/polodb-pt.XXXXXX") || exit 2
trap 'rm -rf "$PT_SCRATCH"' EXIT
if [ "$ID" = C21 ]; then
  # the package as it is, with the module built just now
  export PT_PYTHON_MODULE=$PT_SCRATCH/python
  mkdir -p "$PT_PYTHON_MODULE" || exit 2
  cp -r /repo/py-polodb/polodb "$PT_PYTHON_MODULE/" || exit 2
  find "$PT_PYTHON_MODULE/polodb" -name '*.so' -delete
  cp "$CARGO_TARGET_DIR/server/debug/librust_polodb.so" "$PT_PYTHON_MODULE/polodb/rust_polodb.so" || exit 2
fi
"$CARGO_TARGET_DIR/debug/pt" run "$ID" "$TIER"
exit $?
