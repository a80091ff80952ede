# Sourced: toolchain settings (as /opt/vp/build.sh has them) and build functions. Every
# build goes to $VERIF_ROOT/target; /repo's own target directory is left alone.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export HUFF_BIN=$VERIF_ROOT/target/huff/debug/huff HUFF_SHIM=$VERIF_ROOT/target/shim.so
PBT=$VERIF_ROOT/target/harness/release/pbt
# cargo goes by modification times; make a change of contents alone count too
fresh() {
    local h; h=$(cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    [ "$h" = "$(cat "$VERIF_ROOT/target/src.sha" 2>/dev/null)" ] && return
    /bin/rm -rf "$VERIF_ROOT"/target/harness/release/.fingerprint/{huff,pbt}* "$VERIF_ROOT"/target/huff/debug/.fingerprint/huff*
    echo "$h" > "$VERIF_ROOT/target/src.sha"
}
quietly() { local log; log=$(mktemp); "$@" >"$log" 2>&1 || { tail -40 "$log" >&2; /bin/rm -f "$log"; return 1; }; /bin/rm -f "$log"; }
build_harness() { (cd "$VERIF_ROOT/harness" && quietly cargo build --release --offline --locked --target-dir "$VERIF_ROOT/target/harness"); }
# overflow checks and debug assertions stay on (dev profile), optimised for large files
build_huff() { CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only quietly cargo build -p huff --manifest-path /repo/Cargo.toml --target-dir "$VERIF_ROOT/target/huff" --offline --locked; }
build_shim() { quietly gcc -O2 -Wall -shared -fPIC -o "$HUFF_SHIM.$$" "$VERIF_ROOT/shim/shim.c" -ldl -lpthread && mv -f "$HUFF_SHIM.$$" "$HUFF_SHIM"; }
mkdir -p "$VERIF_ROOT/target" "$VERIF_ROOT/evidence"
exec 9>"$VERIF_ROOT/target/.lock"
flock 9   # until the caller closes it after building
fresh
