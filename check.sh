#!/bin/bash
# check.sh PROPERTY TIER: decide one property for the current tree of /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export GVC_VERIF=$here GVC_REPO=${GVC_REPO:-/repo}
bash "$here/setup.sh" >/dev/null || { echo "the verifier does not build" >&2; exit 2; }
cd "$here" && exec ./bin/gvc check "$1" "$2"
