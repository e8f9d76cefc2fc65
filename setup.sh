#!/bin/bash
# Builds every harness once (offline), so that the checks only rebuild what /repo changed.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset TEST_DME RUSTFLAGS
. ./checks.conf
. ./build.sh
rc=0
for c in $(printf '%s\n' "${CRATE_OF[@]}" | sort -u); do
    echo "building $c"; build_crate "$c" || rc=1
done
exit $rc
