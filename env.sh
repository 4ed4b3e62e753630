# Sourced by check.sh and setup.sh.
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_PANIC RUSTFLAGS
export MC_VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$MC_VERIF/target"
mkdir -p "$CARGO_TARGET_DIR" "$MC_VERIF/evidence"

# cargo decides what to rebuild by mtime alone: touch every file whose content changed since the last build.
touch_changed() {
    local sums="$CARGO_TARGET_DIR/.sums"
    find /repo/Cargo.toml /repo/src "$MC_VERIF/harness" "$MC_VERIF/spec" -type f -print0 | sort -z | xargs -0 sha256sum > "$sums.$$"
    if [ -f "$sums" ]; then
        LC_ALL=C comm -13 <(LC_ALL=C sort "$sums") <(LC_ALL=C sort "$sums.$$") | cut -c67- | tr '\n' '\0' | xargs -0 -r touch --
    fi
    mv "$sums.$$" "$sums"
}
