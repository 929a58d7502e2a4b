#!/bin/bash
# Runs the monitor of one property: check.sh <ID> [--case STAGE IDX SEED]
# Exit 0: held on everything observed. Exit 1 with a VIOLATION line: violated. Other: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property id}"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true VERIF_DIR="$here"
case "$id" in C28|C29) exec python3 "$here/san.py" "$id" "$@";; C41) exec python3 "$here/ex.py" "$id";; esac
cd "$here/harness" || exit 2
if ! log="$(cargo build --offline --locked --quiet --bin "$bin" 2>&1)"; then
  echo "$log" | tail -40 >&2
  echo "$id: the monitors do not build against /repo: no answer" >&2
  exit 2
fi
exec ./target/debug/"$bin" "$@"
