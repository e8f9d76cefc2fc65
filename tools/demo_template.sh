#!/bin/bash
# Run with cwd = the repository: builds demo.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS TEST_DME CARGO_TARGET_DIR
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/" || exit 3
deps=$(sed -n 's,^// *deps: *,,p' "$here/demo.rs")
{
    printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = false\n[dependencies]\n'
    for d in $deps; do
        echo "$d = { path = \"$repo/crates/$d\" }"
    done
} > "$t/Cargo.toml"
cd "$t" || exit 3
cargo build --offline -q || exit 4
export RUST_BACKTRACE=0 DEMO_SCRATCH=$t
timeout 100 "$t/target/debug/demo"
