#!/bin/bash
# replay.sh FILE: replay a recorded violation against the working tree of /repo.
. "$(dirname "$0")/env.sh"
d="$(mktemp -d "$V/.work/run.XXXXXX")" || exit 2
trap 'rm -rf -- "$d"' EXIT
build_harness "$d" >"$d/build.log" 2>&1 || { cat "$d/build.log"; exit 2; }
"$d/vh" replay "$@"
