#!/bin/bash
# check.sh ID [--thorough] [--replay FILE]: builds the harness against the
# working tree of the repository and decides one property.
# Environment: VERIF_SEED (1), VERIF_TIER (quick), VERIF_REPO (/repo),
# VERIF_SCALE (1, scales the number of generated cases), VERIF_NOEVIDENCE.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [--thorough] [--replay FILE]}; shift
tier=${VERIF_TIER:-quick}; replay=
while [ $# -gt 0 ]; do
  case $1 in
    --thorough) tier=thorough;;
    --quick) tier=quick;;
    --replay) replay=$(realpath "$2"); shift;;
    *) echo "unknown argument $1" >&2; exit 2;;
  esac
  shift
done
repo=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export CGO_ENABLED=${CGO_ENABLED:-1}
[ -n "${HOME:-}" ] || export HOME=/root
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
modfile=()
if [ "$repo" != /repo ]; then
  sed "s#=> /repo#=> $repo#; s#=> ../bridge#=> $here/bridge#" "$here/harness/go.mod" > "$tmp/go.mod"
  modfile=(-modfile "$tmp/go.mod")
fi
build() { (cd "$here/harness" && go build "${modfile[@]}" "$@" -o "$tmp/h" .) >"$tmp/build.log" 2>&1; }
# the properties decided under the race detector
race=()
case $id in C12|C18|C31|C32) race=(-race);; esac
if ! build "${race[@]}"; then
  cat "$tmp/build.log" >&2
  echo "error: the harness does not build against $repo" >&2
  exit 2
fi
args=(-prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here" -repo "$repo" -scale "${VERIF_SCALE:-1}")
[ -n "${VERIF_NOEVIDENCE:-}" ] && args+=(-noevidence)
if [ -n "$replay" ]; then
  "$tmp/h" -replay "$replay" -repo "$repo"
else
  "$tmp/h" "${args[@]}"
fi
exit $?
