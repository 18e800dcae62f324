#!/bin/bash
# run.sh <property>: builds everything from /repo's working tree and runs one check.
id=$1
/verif/build.sh || exit 2
case $id in
C14 | C15)
  /verif/build-repo.sh c
  case $? in
  0) ;;
  3)
    # The library builds, but a program that uses it as documented doesn't compile or link.
    [ "$id" = C14 ] || exit 2
    mkdir -p /verif/replays
    cp /verif/target/repo/shim.log /verif/replays/C14-header.log
    . /verif/env.sh
    "$CARGO_TARGET_DIR/debug/vh" static-violation C14 "a program that calls the functions through the header does not compile or link"
    echo "VIOLATION property=C14 replay=/verif/replays/C14-header.log"
    exit 1
    ;;
  *) exit 2 ;;
  esac
  ;;
C16 | C17) /verif/build-repo.sh cli || exit 2 ;;
esac
. /verif/env.sh
exec "$CARGO_TARGET_DIR/debug/vh" check "$id"
