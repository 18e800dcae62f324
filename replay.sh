#!/bin/bash
# replay.sh <replay file>: runs the one recorded input again. Exit 0: the property holds on it.
f=$(realpath "$1")
/verif/build.sh || exit 2
case $(basename "$f") in
C14* | C15*) /verif/build-repo.sh c || exit 1 ;;
C16* | C17*) /verif/build-repo.sh cli || exit 2 ;;
esac
case $f in *.log) echo "compiles and links"; exit 0 ;; esac
. /verif/env.sh
exec "$CARGO_TARGET_DIR/debug/vh" replay "$f"
