#!/bin/bash
# check.sh ID: decide one property for the working tree of /repo.
# Exit 0: held. Exit 1: VIOLATION line printed. Exit 2: no answer.
. "$(dirname "$0")/env.sh"
id="$1"; shift
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
d="$(mktemp -d "$V/.work/run.XXXXXX")" || exit 2
trap 'rm -rf -- "$d"' EXIT
t0=$(date +%s.%N)
if ! build_harness "$d" >"$d/build.log" 2>&1; then
  echo "ERROR: building the instrumented tree failed"
  head -c 4000 "$d/build.log"
  exit 2
fi
t1=$(date +%s.%N)
"$d/vh" check -prop "$id" -tier "$tier" -seed "$seed" -evidence "$V/evidence/$id.json" \
  -replays "$V/replays" -known "$V/known_findings.txt" \
  -build_s "$(echo "$t1 $t0" | awk '{printf "%.2f", $1-$2}')" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || exit 2
exit $rc
