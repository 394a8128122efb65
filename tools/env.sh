# Sourced by the scripts: one toolchain, one target directory, no network.
export HOME=${HOME:-/root}
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= TZ=UTC
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export MON_DIR=$VERIF_DIR
export CARGO_TARGET_DIR=$VERIF_DIR/build/target
mkdir -p "$VERIF_DIR/build"

# build_mon BIN: lays out the library by content and builds one monitor binary; asan_BIN,
# msan_BIN and tsan_BIN are the same monitors under a sanitizer (nightly toolchain, target
# directories of their own, for two of them with a standard library built the same way). A build that fails is an error of the check (exit 3), not a verdict.
build_mon() {
    local crate=mon lay= bin=${1#[amt]san_} std= san=
    case $bin in full_*) crate=full lay=--full ;; esac
    case $1 in asan_*) san=address ;; tsan_*) san=thread std="-Zbuild-std" ;; msan_*) san=memory std="-Zbuild-std" ;; esac
    (
        if [ -n "$san" ]; then
            export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$VERIF_DIR/build/$san
            export RUSTFLAGS="-Zsanitizer=$san"
            [ -n "$std" ] && RUSTFLAGS="$RUSTFLAGS -Cunsafe-allow-abi-mismatch=sanitizer"
            std="$std --target x86_64-unknown-linux-gnu"
        fi
        flock 9
        python3 "$VERIF_DIR/tools/layout.py" $lay &&
        cd "$VERIF_DIR/harness/$crate" &&
        cargo build --quiet --offline $std --bin "$bin" 2> "$VERIF_DIR/build/build-$1.log"
    ) 9> "$VERIF_DIR/build/lock" && return 0
    grep -E '^(error|warning: unused)' -A6 "$VERIF_DIR/build/build-$1.log" | head -60
    echo "could not build $1"
    return 1
}

mon_bin() {
    case $1 in
        asan_*) echo "$VERIF_DIR/build/address/x86_64-unknown-linux-gnu/debug/${1#asan_}" ;;
        msan_*) echo "$VERIF_DIR/build/memory/x86_64-unknown-linux-gnu/debug/${1#msan_}" ;;
        tsan_*) echo "$VERIF_DIR/build/thread/x86_64-unknown-linux-gnu/debug/${1#tsan_}" ;;
        *) echo "$VERIF_DIR/build/target/debug/$1" ;;
    esac
}

# A sanitizer's report ends the process by abort, which the kit observes; its shadow
# memory needs the whole address space.
sanitizer_env() {
    case $1 in
        asan_*) export MON_VMEM=unlimited ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=12000:allocator_may_return_null=1 ;;
        msan_*) export MON_VMEM=unlimited MSAN_OPTIONS=halt_on_error=1:abort_on_error=1 ;;
        tsan_*) export MON_VMEM=unlimited TSAN_OPTIONS=halt_on_error=1:abort_on_error=1 ;;
    esac
}
