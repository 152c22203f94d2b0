#!/bin/bash
# check.sh ID...|all: builds the analyser from its sources when needed and decides the properties on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 1
here=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="$here/checker/bin/vcv"
build() {
  mkdir -p "$here/checker/bin"
  tmp="$bin.$$"
  (cd "$here/checker" && go build -trimpath -o "$tmp" .) && mv -f "$tmp" "$bin"
}
newer=""
[ -x "$bin" ] && newer=$(find "$here/checker" -maxdepth 1 \( -name '*.go' -o -name 'go.mod' -o -name 'go.sum' \) -newer "$bin" -print -quit)
if [ ! -x "$bin" ] || [ -n "$newer" ]; then
  build || { echo "the analyser does not build"; exit 3; }
fi
[ "${1:-}" = build ] && exit 0
export VERIF_DIR="$here" GOGC="${GOGC:-400}"
exec "$bin" check "$@"
