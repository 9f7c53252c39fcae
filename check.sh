#!/bin/bash
# check.sh <property>: build from /repo's working tree, then explore.
cd "$(dirname "$0")" || exit 2
# more circuits for the deep search
if [ "$1" = C16 ] && [ "${VERIF_TIER:-quick}" = thorough ]; then export DST_CIRCUITS=144; fi
bash ./build.sh || exit 2
exec ./target/debug/dst check "$1"
