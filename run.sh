#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough   -- builds the harness against /repo's tree, then searches
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! (cd "$here/harness" && cargo build --release --offline >"$log" 2>&1); then
  cat "$log" >&2
  echo "harness build failed" >&2
  exit 2
fi
"$here/harness/target/release/vharness" "$1" --tier "${2:-quick}"
