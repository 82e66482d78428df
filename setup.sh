#!/usr/bin/env bash
# Builds every harness crate once, offline, so that the checks only rebuild what changed.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p evidence replays
rc=0
for c in $(awk '!/^#/{print $2}' crates.map | sort -u); do
  cargo build --offline --manifest-path "harness/$c/Cargo.toml" || rc=1
done
exit $rc
