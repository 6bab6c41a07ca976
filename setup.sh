#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" && cargo build --release --offline 2>&1 | tail -3
