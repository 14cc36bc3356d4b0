# Sourced by the check scripts.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MIRIFLAGS
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p "$CARGO_TARGET_DIR" /verif/work

src_hash() {
    (cd /repo && find Cargo.toml src fixed-map-derive/Cargo.toml fixed-map-derive/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# fresh CRATE TARGET: cargo judges freshness by modification times; judge by
# content as well.
fresh() {
    local h stamp="$2/.source-hash"
    mkdir -p "$2"
    h=$(src_hash)
    if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$h" ]; then
        # So that what follows is built anew.
        find "$2" -type d -name .fingerprint -prune -exec sh -c 'rm -rf "$1"/fixed-map-*' _ {} \; 2>/dev/null
    fi
    echo "$h" > "$stamp"
}

# locked TARGET COMMAND...
locked() {
    local t=$1; shift
    mkdir -p "$t"
    (flock 9; fresh - "$t"; "$@") 9> "$t/.lock"
}

build_bin() {
    locked "$CARGO_TARGET_DIR" cargo build --offline -q --manifest-path /verif/harness/Cargo.toml --bin "$1" >&2
}

build_all_bins() {
    locked "$CARGO_TARGET_DIR" cargo build --offline -q --manifest-path /verif/harness/Cargo.toml --bins >&2
}

# The checks which generate programs, and what those programs are linked with.
build_progs() {
    (
        export CARGO_TARGET_DIR=/verif/target/gen
        locked "$CARGO_TARGET_DIR" cargo build --offline -q --manifest-path /verif/progs/Cargo.toml --bins >&2 || exit 1
        export CARGO_TARGET_DIR=/verif/target/progs
        locked "$CARGO_TARGET_DIR" cargo build --offline -q --manifest-path /verif/progs-support/Cargo.toml >&2
    )
}

# The interpreter, for AddressSanitizer and Miri: four builds at a time, what they
# say one after the other.
build_memcheck() {
    (
        unset RUSTUP_TOOLCHAIN
        m=/verif/memcheck/Cargo.toml t=/verif/target
        said=$(mktemp -d /verif/work/said-XXXXXX) || exit 1
        cargo +nightly miri setup -q > "$said/setup" 2>&1 || { cat "$said/setup" >&2; rm -rf "$said"; exit 1; }
        export RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers"
        CARGO_TARGET_DIR=$t/asan locked $t/asan cargo +nightly build --offline -q --target x86_64-unknown-linux-gnu --manifest-path $m > "$said/1" 2>&1 & a=$!
        CARGO_TARGET_DIR=$t/asan-release locked $t/asan-release cargo +nightly build --offline -q --release --target x86_64-unknown-linux-gnu --manifest-path $m > "$said/2" 2>&1 & b=$!
        unset RUSTFLAGS
        export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        CARGO_TARGET_DIR=$t/miri locked $t/miri cargo +nightly miri run --offline -q --manifest-path $m -- /dev/null > "$said/3" 2>&1 & c=$!
        CARGO_TARGET_DIR=$t/miri-release locked $t/miri-release cargo +nightly miri run --release --offline -q --manifest-path $m -- /dev/null > "$said/4" 2>&1 & d=$!
        rc=0
        n=0
        for pid in $a $b $c $d; do
            n=$((n + 1))
            wait $pid || { rc=1; cat "$said/$n" >&2; }
        done
        rm -rf "$said"
        exit $rc
    )
}

# The directories where C24 builds, before it does.
fresh_features() {
    local d
    mkdir -p /verif/target/features
    for d in /verif/target/features/*/; do
        [ -d "$d" ] && fresh - "${d%/}"
    done
    return 0
}
