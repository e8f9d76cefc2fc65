# sourced by check.sh and setup.sh
export CARGO_TARGET_DIR=$VERIF_ROOT/mc/target
# Cargo decides staleness by file times; a laid-out copy of /repo may carry old times with new
# contents, so the sources' contents are hashed and repo crates are rebuilt whenever the hash moves.
repo_hash() {
    ( cd /repo && find Cargo.toml Cargo.lock crates -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1 )
}
build_crate() {
    local crate=$1 h stamp=$CARGO_TARGET_DIR/.repo-hash p
    mkdir -p "$CARGO_TARGET_DIR"
    h=$(repo_hash)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
        for p in "$CARGO_TARGET_DIR"/release/.fingerprint/{dreammaker,interval-tree,dreamchecker,dmm-tools,builtins-proc-macro,dap-types,mc-cli,mc-lsp,mc-sched}-*; do
            [ -d "$p" ] && rm -rf "$p"
        done
        echo "$h" > "$stamp"
    fi
    ( cd "mc/$crate" && cargo build --offline --release -q )
}
