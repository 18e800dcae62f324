#!/bin/bash
# Builds the harness, and with it the crates in /repo, from /repo's working tree.
. /verif/env.sh
mkdir -p "$CARGO_TARGET_DIR"
# The build script of qhull-sys doesn't watch the C sources.
sum=$(find /repo/qhull-sys -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/qhull.sum" 2>/dev/null)" ]; then
  [ -e "$CARGO_TARGET_DIR/debug" ] && cargo clean --offline -p qhull-sys >/dev/null 2>&1
fi
gcc -O2 -shared -fPIC /verif/capi/heap.c -o "$CARGO_TARGET_DIR/libvhheap.so.$$" -lpthread && mv "$CARGO_TARGET_DIR/libvhheap.so.$$" "$CARGO_TARGET_DIR/libvhheap.so" || exit 2
if ! cargo build --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  tail -50 "$CARGO_TARGET_DIR/build.log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/qhull.sum"
