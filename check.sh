#!/bin/bash
# ./check.sh ID [quick|thorough] [--only suite:index]
# Builds the harness of ID against /repo's current working tree and runs its exploration.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset TEST_DME RUSTFLAGS
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
. ./checks.conf
crate=${CRATE_OF[$id]}
[ -n "$crate" ] || { echo "unknown property $id" >&2; exit 2; }
. ./build.sh
build_crate "$crate" || { echo "check of $id: the harness does not build against /repo" >&2; exit 2; }
# a runaway allocation in the code under test must end that process, not the sandbox
ulimit -v 16000000
exec "$CARGO_TARGET_DIR/release/mc-$crate" "$id" --tier "$tier" "$@"
