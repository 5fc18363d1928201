#!/bin/bash
# run.sh setup            build everything
# run.sh ID TIER          rebuild against /repo's working tree and run one check
# run.sh build            rebuild only (prints errors)
set -u
cd "$(dirname "$0")" || exit 2
DIR=$PWD
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
# rustc 1.99 denies this lint by default; the macros of the library trip it
export RUSTFLAGS="--warn=semicolon_in_expressions_from_macros"
REPO=/repo
TARGET=$DIR/target
TARGET_CLI=$DIR/target-cli
mkdir -p "$TARGET" "$TARGET_CLI"

# cargo goes by time stamps; this goes by content
stamp() {
    (cd $REPO && find Cargo.toml Cargo.lock lib cli -name target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
}

build_lib() {
    local new old
    new=$(stamp)
    old=$(cat "$TARGET/repo.stamp" 2>/dev/null)
    if [ "$new" != "$old" ]; then
        rm -f "$TARGET/repo.stamp"
        (cd harness && cargo clean --release --offline --target-dir "$TARGET" -p ferrous-chloride) >/dev/null 2>&1
    fi
    if ! (cd harness && cargo build --release --offline --target-dir "$TARGET") >"$TARGET/build.log" 2>&1; then
        grep -A12 -E '^error' "$TARGET/build.log" | head -80 >&2
        return 2
    fi
    echo "$new" >"$TARGET/repo.stamp"
}

build_cli() {
    local new old
    new=$(stamp)
    old=$(cat "$TARGET_CLI/repo.stamp" 2>/dev/null)
    if [ "$new" != "$old" ]; then
        rm -f "$TARGET_CLI/repo.stamp"
        cargo clean --manifest-path $REPO/Cargo.toml --offline --target-dir "$TARGET_CLI" -p ferrous-chloride -p fecl >/dev/null 2>&1
    fi
    if ! cargo build --manifest-path $REPO/Cargo.toml -p fecl --locked --offline --target-dir "$TARGET_CLI" >"$TARGET_CLI/build.log" 2>&1; then
        grep -A12 -E '^error' "$TARGET_CLI/build.log" | head -80 >&2
        return 2
    fi
    echo "$new" >"$TARGET_CLI/repo.stamp"
}

exec 9>"$TARGET/lock"
flock 9
case "${1:-}" in
setup | build)
    build_lib || exit 2
    build_cli || exit 2
    exit 0
    ;;
lib) build_lib; exit $? ;;
esac
build_lib || exit 2
if [ "$1" = C27 ]; then
    build_cli || exit 2
    export FCMC_CLI=$TARGET_CLI/debug/fecl
fi
flock -u 9
exec 9>&-
export FCMC_DIR=$DIR
exec "$TARGET/release/fcmc" run "$1" "${2:-quick}"
