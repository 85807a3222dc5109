#!/bin/bash
# run.sh PROPERTY SEED SECONDS: looks for an input on which the code in
# $GVC_REPO (default /repo) breaks the property, by running the real code on
# boundary and random inputs next to an executable oracle.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
repo=${GVC_REPO:-/repo}
tmp=$(mktemp -d /tmp/refute.XXXXXX) || exit 4
trap 'chmod -R u+rwx "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
chmod 755 "$tmp"; mkdir "$tmp/src" "$tmp/scratch"
cp "$here"/*.go "$tmp/src/"
cp "$repo/go.sum" "$tmp/src/go.sum"
{
  echo "module refute"
  echo "go 1.12"
  sed -n '/^require/,$p' "$repo/go.mod"
  echo "require github.com/kisom/psignify v0.0.0"
  echo "replace github.com/kisom/psignify => $repo"
} > "$tmp/src/go.mod"
if ! (cd "$tmp/src" && go build -o "$tmp/refute" .) 2>"$tmp/err"; then
  echo "the search does not build:"; tail -20 "$tmp/err"; exit 4
fi
if [ "$1" = P10 ] || [ "$1" = P19 ] || [ "$1" = P20 ]; then
  (cd "$repo" && go build -o "$tmp/psignify" ./cmd/psignify) 2>"$tmp/err" || { echo "the command does not build:"; tail -20 "$tmp/err"; exit 4; }
fi
if [ "$1" = P15 ]; then
  # a function no message is long enough to exercise, if the code has it
  printf '{"Replace": {"%s/crypto/zz_verif_test.go": "%s/inpkg/nonce_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
  (cd "$repo" && go test -overlay "$tmp/overlay.json" -count=1 -timeout 60s -run 'TestVerifNonce$' ./crypto) > "$tmp/out" 2>&1
  if grep -q '^COUNTEREXAMPLE' "$tmp/out"; then grep -v '^ok\|^PASS' "$tmp/out"; exit 1; fi
fi
cd "$tmp/scratch" || exit 4
HOME="$tmp/scratch" PSIGNIFY="$tmp/psignify" timeout $(($3 + 75)) "$tmp/refute" "$1" "$2" "$3" </dev/null
rc=$?
[ $rc = 3 ] && exit 0
exit $rc
