# Sourced by the scripts: toolchain settings of the sandbox, and where this checkout builds.
. /opt/vp/env.sh
unset CARGO_RESOLVER_LOCKFILE_PATH
export VERIF_DIR=/verif CARGO_TARGET_DIR=/verif/target
cd /verif/harness || exit 2
