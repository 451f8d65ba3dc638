#!/bin/bash
# setup.sh: warm the build cache so that checks start quickly.
. "$(dirname "$0")/env.sh"
d="$(mktemp -d "$V/.work/run.XXXXXX")" || exit 2
trap 'rm -rf -- "$d"' EXIT
build_harness "$d" || exit 2
mkdir -p "$V/evidence" "$V/replays"
echo "setup done"
