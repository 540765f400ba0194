#!/bin/bash
# run.sh ID   builds the harness against /repo's working tree and checks one
# property. VERIF_SEED and VERIF_TIER select the seed and the tier.
# run.sh build      only builds it.
# run.sh replay FILE...   runs saved cases.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
tmp=$(mktemp -d /tmp/verif-run-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
# a build cache of our own; the user's may be missing or read-only
export GOCACHE=$here/.cache/go-build
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/go-build
cp -a "$here/harness" "$tmp/harness" || exit 2
cd "$tmp/harness" || exit 2
if ! go build -o "$tmp/h" . ; then echo "harness error: build failed" >&2; exit 2; fi
if [ "$1" = build ]; then exit 0; fi
if [ "$1" = replay ]; then shift; cd "$here"; "$tmp/h" replay "$@"; exit $?; fi
race=
if [ "$1" = C20 ]; then
  if ! go build -race -o "$tmp/hr" . ; then echo "harness error: race build failed" >&2; exit 2; fi
  race="-race-bin $tmp/hr"
fi
fuzz=
if [ "${VERIF_TIER:-quick}" = thorough ]; then
  if ! go test -c -fuzz=FuzzProp -o "$tmp/fz" ./fuzz ; then echo "harness error: fuzz build failed" >&2; exit 2; fi
  fuzz="-fuzz-bin $tmp/fz"
fi
cd "$here" || exit 2
"$tmp/h" check -prop "$1" -root "$here" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" $race $fuzz
