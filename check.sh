#!/usr/bin/env bash
# check.sh <property> [quick|thorough] | --replay <file> | --setup
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="${GOFLAGS:--mod=mod}" GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="$here/.build/symgo"
build() {
  mkdir -p "$here/.build"
  local sig
  sig="$(cat "$here"/engine/*.go "$here/engine/go.mod" | sha256sum | cut -c1-16)"
  if [ ! -x "$bin" ] || [ "$(cat "$here/.build/sig" 2>/dev/null)" != "$sig" ]; then
    (cd "$here/engine" && go build -o "$here/.build/symgo.tmp" .) || exit 2
    mv "$here/.build/symgo.tmp" "$bin"
    echo "$sig" > "$here/.build/sig"
  fi
}
case "$1" in
  --setup) build; (cd /repo && go build ./... ) ; exit 0 ;;
  --replay) build; exec "$bin" -harness "$here/harness" -replay "$2" ;;
esac
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
shift; [ $# -gt 0 ] && shift
build
exec "$bin" -prop "$prop" -tier "$tier" -repo /repo -harness "$here/harness" -evidence "$here/evidence" -replays "$here/replays" -known "$here/known-findings.json" "$@"
