#!/bin/bash
# Development aid: run checks against a scratch copy of the library.
#   tools/try.sh DIR OUT ID...     (ALL for every property)
# OUT receives replays/ and evidence/.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$(cd "$1" && pwd); out=$2; shift 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p "$out/replays"
rm -rf "$out/harness"; cp -a "$here/harness" "$out/harness"
cd "$out/harness"
go mod edit -replace github.com/nlpodyssey/gotokenizers="$dir"
go build -o "$out/h" .
ids="$*"
[ "$ids" = ALL ] && ids=$("$out/h" list | cut -d" " -f1 | sort -u | tr "\n" " ")
case " $ids " in *" C20 "*) go build -race -o "$out/hr" . ;; esac
cp "$here/known_findings.txt" "$out/" 2>/dev/null || true
[ -n "$CORPUS" ] && { rm -rf "$out/corpus"; cp -a "$here/corpus" "$out/corpus"; }
for id in $ids; do
  "$out/h" check -prop "$id" -root "$out" -race-bin "$out/hr" -tier "${TIER:-quick}" -seed "${SEED:-1}" || echo "$id: exit $?"
done
