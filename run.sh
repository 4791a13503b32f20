#!/bin/bash
# usage: run.sh PROPERTY TIER   — builds the analyser from /verif/checker and decides PROPERTY on /repo's current source.
VERIF=$(cd "$(dirname "$0")" && pwd)
PROP=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
SCRATCH=$(mktemp -d /tmp/verif-XXXXXXXX) || { echo "cannot create scratch directory"; exit 2; }
trap 'rm -rf "$SCRATCH"' EXIT
fail() {
  mkdir -p "$VERIF/evidence/replay"
  echo "$1" | tee "$VERIF/evidence/replay/$PROP.txt"
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"other","coverage":{"explanation":"the analysis could not run: undecided"},"wall_s":0,"violations":1}\n' "$PROP" "$TIER" "${VERIF_SEED:-1}" > "$VERIF/evidence/$PROP.json"
  echo "VIOLATION property=$PROP replay=$VERIF/evidence/replay/$PROP.txt"
  exit 1
}
CHK=$VERIF/bin/fizzlint
if [ ! -x "$CHK" ] || [ -n "$(find "$VERIF/checker" -newer "$CHK" -name '*.go' -print -quit 2>/dev/null)" ] || [ "${VERIF_REBUILD:-1}" = 1 ]; then
  CHK=$SCRATCH/fizzlint
  (cd "$VERIF/checker" && go build -o "$CHK" .) > "$SCRATCH/build.log" 2>&1 || fail "the analyser does not build: $(tail -5 "$SCRATCH/build.log")"
fi
"$CHK" -prop "$PROP" -tier "$TIER" -verif "$VERIF" -repo "$REPO" -scratch "$SCRATCH" -seed "${VERIF_SEED:-1}"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) fail "the analyser ended with status $rc: undecided" ;;
esac
