# sourced by check.sh and setup.sh: vh_build [ffi|js] builds the harness from /repo's current working tree:
# harness/target/debug/vh, or with the callback interface (feature ffi) harness/target-ffi/debug/vh, or with the
# JavaScript interface (feature js) harness/target-js/debug/vh
V=${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
vh_build() {
  ( flock 9
    cd "$V/harness" || exit 4
    T=target; F=; P=
    if [ "$1" = ffi ]; then T=target-ffi; F="--features ffi"; P="-p didcomm-uniffi"; fi
    if [ "$1" = js ]; then T=target-js; F="--features js"; P="-p didcomm-js"; fi
    # cargo goes by modification times; a source tree swapped in with older ones must be rebuilt all the same
    H=$( (cd /repo && find src Cargo.toml uniffi wasm -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; cd "$V" && find harness/src standin harness/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    mkdir -p $T
    if [ "$(cat $T/.srchash 2>/dev/null)" != "$H" ]; then
      cargo clean --offline --target-dir $T -p didcomm -p vharness $P >/dev/null 2>&1
    fi
    rm -f "$V/harness/$T/.srchash"
    if ! cargo build --offline --locked $F --target-dir $T >$T/build.log 2>&1; then
      grep -E '^error|-->' $T/build.log | head -20 >&2; tail -3 $T/build.log >&2
      echo "the harness does not build against /repo" >&2; exit 4
    fi
    echo "$H" >$T/.srchash
  ) 9>"$V/.build.lock"
}
