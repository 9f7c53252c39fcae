#!/bin/bash
# replay.sh <file>: re-run a recorded violation exactly.
cd "$(dirname "$0")" || exit 2
most=$(grep -o '"circuit": *[0-9]*' "$1" | grep -o '[0-9]*$' | sort -n | tail -1)
if [ "${most:-0}" -ge 48 ]; then export DST_CIRCUITS=144; fi
bash ./build.sh || exit 2
exec ./target/debug/dst replay "$1"
