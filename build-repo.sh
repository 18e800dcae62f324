#!/bin/bash
# build-repo.sh c|cli: builds the C library (and the shim that is compiled against its header) or the
# command line tool from /repo's working tree, under /verif/target.
. /verif/env.sh
export CARGO_RESOLVER_LOCKFILE_PATH="$CARGO_TARGET_DIR/repo-lock/Cargo.lock"
export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/repo" CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR" "$(dirname "$CARGO_RESOLVER_LOCKFILE_PATH")"
cp /repo/Cargo.lock "$CARGO_RESOLVER_LOCKFILE_PATH"
sum=$(find /repo/qhull-sys -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/qhull.sum" 2>/dev/null)" ]; then
  [ -e "$CARGO_TARGET_DIR/debug" ] && cargo clean --offline --manifest-path /repo/Cargo.toml -p qhull-sys >/dev/null 2>&1
fi
if ! cargo build --offline --manifest-path /repo/Cargo.toml -p "image-palette-recoloring-$1" >"$CARGO_TARGET_DIR/build-$1.log" 2>&1; then
  tail -50 "$CARGO_TARGET_DIR/build-$1.log"
  echo "ERROR: image-palette-recoloring-$1 does not build"
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/qhull.sum"
if [ "$1" = c ]; then
  # once as C, once as C++: the header is meant for both
  out="$CARGO_TARGET_DIR/debug"
  flags=(-Wall -O1 -g -shared -fPIC -I/repo/image-palette-recoloring-c)
  libs=(-L"$out" -limage_palette_recoloring_c -Wl,-rpath,"$out" -Wl,--no-undefined)
  if ! { gcc -std=c99 -Werror=implicit-function-declaration "${flags[@]}" -x c /verif/capi/shim.c "${libs[@]}" -o "$out/libshim.so" &&
         g++ "${flags[@]}" -x c++ /verif/capi/shim.c -x none "${libs[@]}" -o "$out/libshimxx.so"; } >"$CARGO_TARGET_DIR/shim.log" 2>&1; then
    cat "$CARGO_TARGET_DIR/shim.log"
    exit 3
  fi
fi
