#!/bin/bash
# bugrun.sh [-a] BUG... : applies each planted bug to /repo, runs the check of its property (-a: every check), undoes it.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
all=0; [ "${1:-}" = "-a" ] && { all=1; shift; }
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
cd "$root" || exit 2
for b in "$@"; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$root/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  p="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$root/seeded/$b/meta.json")"
  if [ $all = 1 ]; then ps="$(python3 -c 'import json;print(" ".join(c["property"] for c in json.load(open("MANIFEST.json"))["checks"]))')"; else ps="$p"; fi
  hit=""; none=""
  for q in $ps; do
    cmd="$(python3 -c 'import json,sys
for c in json.load(open("MANIFEST.json"))["checks"]:
  if c["property"]==sys.argv[1]: print(c["quick_cmd"])' "$q")"
    t0=$(date +%s)
    out="$(timeout 900 bash -c "$cmd" 2>&1)"; rc=$?
    t1=$(date +%s)
    if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$q "; then hit="$hit $q"; [ "$q" = "$p" ] && line="$(echo "$out" | grep -v '^VIOLATION' | grep -i -m1 -E 'violat|expected|differs|got' )"
    elif [ $rc != 0 ]; then none="$none $q($rc)"; fi
  done
  git -C /repo checkout -- .
  case " $hit " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$b $p $v in $((t1-t0))s all:[$hit ] noanswer:[$none ] ${line:-}"; line=""
done
