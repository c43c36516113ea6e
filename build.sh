#!/bin/bash
# build.sh [PROPERTY]: builds the harness against /repo and, for process-level properties, iso-tool and the Python module.
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/build_env.sh"
mkdir -p "$V/target"
LOG=$V/target/build-${1:-all}.log
run() { "$@" >"$LOG" 2>&1 || { cat "$LOG"; return 1; }; }
# cargo judges freshness by modification times; a copied tree may carry old ones, so compare contents as well
H=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
fresh() { # DIR MANIFEST PACKAGE...
    local d=$1 m=$2; shift 2
    [ -d "$d" ] || return 0
    [ "$(cat "$d/.repo_hash" 2>/dev/null)" = "$H" ] && return 0
    rm -f "$d/.repo_hash"
    for p in "$@"; do cargo clean --manifest-path "$m" --offline --release --target-dir "$d" -p "$p" >/dev/null 2>&1; done
    return 0
}
fresh "$V/target/harness" "$V/harness/Cargo.toml" disc_riider vharness
run cargo build --manifest-path "$V/harness/Cargo.toml" --offline --release --target-dir "$V/target/harness" || exit 1
echo "$H" >"$V/target/harness/.repo_hash"
case "${1:-all}" in
C08|C09|C10|C11|C15|C16|C17|C19|C20|all)
    # Cargo.lock is ignored by git in /repo; the sandbox keeps its copy with the build scripts
    [ -f /repo/Cargo.lock ] || [ ! -f /opt/vp/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    fresh "$V/target/repo" /repo/Cargo.toml disc_riider iso-tool disc-riider-py
    run cargo build --manifest-path /repo/Cargo.toml --workspace --release --offline --target-dir "$V/target/repo" || exit 1
    echo "$H" >"$V/target/repo/.repo_hash"
    mkdir -p "$V/target/py"
    cp "$V/target/repo/release/libdisc_riider_py.so" "$V/target/py/disc_riider_py.so.new" || exit 1
    mv "$V/target/py/disc_riider_py.so.new" "$V/target/py/disc_riider_py.so" || exit 1
    ;;
esac
exit 0
