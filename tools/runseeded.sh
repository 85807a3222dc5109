#!/bin/bash
# tools/runseeded.sh [NAME...]: runs the check of each planted bug's property
# on a copy of /repo with the bug applied (nothing of this is used by checks).
. /opt/vp/env.sh
cd /verif || exit 1
w=$(mktemp -d /tmp/runseeded.XXXXXX)
trap 'rm -rf "$w"' EXIT
[ $# = 0 ] && set -- $(ls seeded)
one() {
  n=$1; d=$w/$n; mkdir -p "$d/verif"
  git clone -q /repo "$d/repo" && git -C "$d/repo" apply "/verif/seeded/$n/patch.diff" || { echo "$n: does not apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  cp -r check.sh setup.sh gvc contracts refute MANIFEST.json properties.jsonl tools known-findings* "$d/verif/" 2>/dev/null
  mkdir -p "$d/verif/evidence"
  s=$(date +%s)
  o=$(GVC_REPO=$d/repo VERIF_SEED=1 bash "$d/verif/check.sh" "$p" quick 2>&1); rc=$?
  echo "$n: rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep -a VIOLATION | sed "s#$w[^ ]*/##")"
  [ -n "$V" ] && echo "$o"
  rm -rf "$d"
}
export -f one; export w V
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
