#!/bin/bash
# Builds every monitor and sanitizer run from the committed files, offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence"
cd "$here/harness" && cargo build --offline --locked --quiet --bins && python3 "$here/san.py" setup && python3 "$here/ex.py" setup
