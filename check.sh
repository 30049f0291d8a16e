#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Regenerates the encoding from /repo's current source and decides one property.
set -u
i=0
V="$(cd "$(dirname "$0")" && pwd)"
prop=$1; tier=${2:-quick}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$V/.build" "$V/evidence"
B=$(mktemp -d "$V/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
# Never write into the committed module files.
cp "$V/harness/go.mod" "$B/h.mod"; cp "$V/harness/go.sum" "$B/h.sum"
(cd "$V/engine" && go build -o "$B/symgo" .) || { echo "engine does not build"; exit 2; }
(cd "$V/harness" && go build -modfile="$B/h.mod" -o "$B/replay" ./cmd/replay) || { echo "/repo or the harness does not build"; exit 2; }
(cd "$V/harness" && go build -modfile="$B/h.mod" -o "$B/gimiq" terorie.dev/nimiq/cmd/gimiq) || { echo "/repo does not build"; exit 2; }
export GIMIQ_BIN="$B/gimiq"
race=()
case $prop in C27|C35)
  # Replays of concurrent cases: random delays at the repository's locks.
  { echo '{"Replace":{'; sep=
    while IFS= read -r f; do
      n="$B/stress$((++i)).go"
      sed -E 's#^([[:space:]]*|import )"sync"#\1sync "verif/harness/stress"#' "$f" > "$n"
      echo "$sep\"$f\":\"$n\""; sep=,
    done < <(grep -rlE --include=*.go '"sync"' "/repo" | grep -v _test.go)
    echo '}}'; } > "$B/overlay.json"
  (cd "$V/harness" && go build -overlay "$B/overlay.json" -modfile="$B/h.mod" -o "$B/replay-stress" ./cmd/replay) && race+=(-stressreplay "$B/replay-stress")
  (cd "$V/harness" && CGO_ENABLED=1 go build -race -modfile="$B/h.mod" -o "$B/replay-race" ./cmd/replay) && race+=(-racereplay "$B/replay-race");;
esac
budget=${BUDGET:-240}; [ "$tier" = thorough ] && budget=${BUDGET:-700}
export VERIF_TIER=$tier
cex="$V/.build/cex"; mkdir -p "$cex"
"$B/symgo" -prop "$prop" -harness "$V/harness" -modfile "$B/h.mod" -replay "$B/replay" "${race[@]}" \
  -known "$V/known-findings.txt" -cex "$cex" -evidence "$V/evidence/$prop.json" -tier "$tier" -budget "$budget" ${ONLY:+-only $ONLY}
rc=$?
exit $rc
