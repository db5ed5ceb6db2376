#!/bin/bash
# run.sh ID [quick|thorough]      run one property's check against /repo's working tree
# run.sh --replay FILE            run one saved failing case
# run.sh --setup                  only build (fills Go's build cache)
# Builds gql and the harness from /repo's current working tree into a fresh temporary directory.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
export GOROOT=${VERIF_GOROOT:-/opt/veriftools/go1.27.3}
[ -x "$GOROOT/bin/go" ] || GOROOT=$(go env GOROOT)
export PATH=$GOROOT/bin:$PATH GOTOOLCHAIN=local GOENV=off GOWORK=off GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
[ -d "$GOMODCACHE" ] || export GOMODCACHE=/root/go/pkg/mod
[ "${1:-}" = --replay ] && set -- --replay "$(readlink -f "$2")"
WORK=$(mktemp -d /tmp/vf.XXXXXX) || exit 4
trap 'rm -rf "$WORK"' EXIT
trap 'exit 4' INT TERM
cd "$ROOT/harness" || exit 4
go build -mod=readonly -o "$WORK/vf" . >"$WORK/log" 2>&1 || { cat "$WORK/log" >&2; echo "cannot build the harness against /repo" >&2; exit 4; }
(cd "${VERIF_REPO:-/repo}" && go build -o "$WORK/gql" .) >"$WORK/log" 2>&1 || { cat "$WORK/log" >&2; echo "cannot build gql from /repo" >&2; exit 4; }
[ "${1:-}" = --setup ] && { "$WORK/vf" list; exit 0; }
if [ "${1:-}" = --replay ]; then
  ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2" 2>/dev/null || grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | sed 's/.*"\([A-Z0-9]*\)"$/\1/')
  mkdir -p "$WORK/r"
  "$WORK/vf" replay "$ID" "$2" "$WORK/r" "$WORK/gql" 20
  exit $?
fi
"$WORK/vf" run "$1" "${2:-${VERIF_TIER:-quick}}" "$WORK/gql" "$WORK"
