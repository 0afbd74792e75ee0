#!/bin/bash
# build.sh SRC OUTDIR: translate SRC (a gotor src directory) and build the harness binary OUTDIR/harness.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
SRC=$1; OUT=$2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$OUT"
if [ ! -x "$V/.build/translate" ] || [ -n "$(find "$V/tools/translate" -newer "$V/.build/translate" -name '*.go' 2>/dev/null)" ]; then
  mkdir -p "$V/.build"
  (cd "$V/tools/translate" && go build -o "$V/.build/translate.$$" . && mv "$V/.build/translate.$$" "$V/.build/translate")
fi
case "$OUT" in /*/*) rm -rf -- "$OUT/sim" ;; *) echo "bad output directory $OUT" >&2; exit 3 ;; esac
cp -r "$V/sim" "$OUT/sim"
"$V/.build/translate" -src "$SRC" -out "$OUT/sim/gotor" -mainpkg gotormain > "$OUT/translate.log" 2>&1 || { cat "$OUT/translate.log" >&2; exit 3; }
cd "$OUT/sim"
# the component scenarios call exported functions directly; those that do not fit this tree are left out, the
# whole-client scenarios remain
if ! go build -o "$OUT/harness" ./harness 2> "$OUT/harness.err"; then
  tags=
  for c in file meta ppt rate read; do
    others=$(echo file meta ppt rate read | tr ' ' '\n' | grep -vx $c | sed 's/^/no/' | paste -sd,)
    go build -tags "$others" -o /dev/null ./harness 2> /dev/null || tags=$tags,no$c
  done
  echo "component scenarios left out: ${tags#,}" >&2; cat "$OUT/harness.err" >&2
  go build -tags "${tags#,}" -o "$OUT/harness" ./harness
fi
