#!/usr/bin/env bash
# ./run.sh <PROPERTY> [replay <file>]
# Rebuilds the harness crate of the property against /repo's current working tree and runs its check.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id="${1:?property id}"; shift
crate="$(awk -v p="$id" '$1==p{print $2}' crates.map)"
[ -n "$crate" ] || { echo "unknown property $id" >&2; exit 2; }
mkdir -p evidence replays
log="$(mktemp)"
if ! cargo build --offline --manifest-path "harness/$crate/Cargo.toml" >"$log" 2>&1; then
  # a change that does not build is no answer about the property, but never a silent pass
  tail -60 "$log" >&2; rm -f "$log"
  echo "BUILD-FAILED harness=$crate" >&2
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/h-$crate" "$id" "$@"
