#!/bin/bash
# ./run.sh Cxx [--replay FILE]   (tier from VERIF_TIER)
# Builds the check of one property against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export MCX_ROOT="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WORKSPACE_WRAPPER FORCE_COLOR CLICOLOR_FORCE CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$PWD/target/harness" RUST_BACKTRACE=0
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
prop="${1:?property id}"; shift
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
case "$prop" in
  C01|C02|C07|C08|C09|C15|C16) features="--features par" ;;
  *) features="" ;;
esac
build() {
  # cargo only compares mtimes: make sure changed contents are noticed
  local sum old
  mkdir -p target
  sum=$(find /repo/src /repo/Cargo.toml harness/src shim realpar atomics -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
  old=$(cat target/.sum 2>/dev/null)
  if [ "$sum" != "$old" ]; then
    rm -rf target/miri/miri/*/debug/.fingerprint/{matreex,mcx}-*
    rm -rf "$CARGO_TARGET_DIR"/{debug,rel}/.fingerprint/{matreex,mcx}-* target/{realpar,atomics}/debug/.fingerprint/{matreex,mcx}-*
    echo "$sum" > target/.sum
  fi
  cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml $features --bin "$bin" "$@"
}
if [ "$prop" = C20 ]; then
  # the colour build and the default-feature build, run by the check itself
  cp_build() {
    features="$1"; build || return 1
    cp -f "$CARGO_TARGET_DIR/debug/c20" "$2"
  }
  MCX_C20_FULL="$PWD/target/c20-full" MCX_C20_PAR="$PWD/target/c20-par"
  export MCX_C20_FULL MCX_C20_PAR
  cp_build "--features par,pretty" "$MCX_C20_FULL" && cp_build "--features par" "$MCX_C20_PAR" || { echo "ERROR: build failed"; exit 2; }
  features=""
fi
if [ "$prop" = C03 ] || [ "$prop" = C17 ] || { [ "$prop" = C01 ] && [ "$VERIF_TIER" = thorough ]; }; then
  # drivers that also run under Miri; if it cannot be built, the check notes it
  (build >/dev/null 2>&1; unset RUSTUP_TOOLCHAIN
   CARGO_TARGET_DIR="$PWD/target/miri" MIRIFLAGS= timeout 600 cargo +nightly miri run -q --offline --locked --manifest-path harness/Cargo.toml --bin mirip >target/miri.log 2>&1)
fi
if [ "$prop" = C16 ]; then
  (unset RUSTUP_TOOLCHAIN
   CARGO_TARGET_DIR="$PWD/target/miri" MIRIFLAGS= timeout 600 cargo +nightly miri run -q --offline --locked --manifest-path realpar/Cargo.toml --bin miripar >target/miri.log 2>&1)
fi
if [ "$prop" = C17 ]; then
  MCX_MATREEX_RLIB=$(cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml --bin c17 --message-format=json 2>/dev/null | grep -o '"[^"]*libmatreex-[^"]*\.rlib"' | tail -1 | tr -d '"')
  export MCX_MATREEX_RLIB
fi
if [ "$prop" != C17 ]; then
  build --profile rel || { echo "ERROR: build failed"; exit 2; }
  export MCX_REL="$CARGO_TARGET_DIR/rel/$bin"
fi
if [ "$prop" = C15 ] || [ "$prop" = C16 ]; then
  # the same driver on the real rayon-core
  if CARGO_TARGET_DIR="$PWD/target/realpar" cargo build --quiet --offline --locked --manifest-path realpar/Cargo.toml --bin "$bin"; then
    export MCX_REAL="$PWD/target/realpar/debug/$bin"
  else
    echo "NOTE: the real rayon-core does not build here; that part is skipped"
  fi
fi
if [ "$prop" = C16 ] && grep -rqE '\b(std|core)::(sync|\{[^}]*\bsync)' /repo/src; then
  # matreex uses atomics or locks: once more with those as scheduling points
  src="$PWD/target/atomics-src"
  rm -rf "$src"; mkdir -p "$src"
  cp -r /repo/src /repo/Cargo.toml "$src/" && {
    find "$src/src" -name '*.rs' -exec perl -pi -e 's/(?<![:\w])(std|core)::/::mcatomic::s::/g' {} +
    printf '\n[dependencies.mcatomic]\npath = "%s/shim/mcatomic"\n' "$PWD" >> "$src/Cargo.toml"
  }
  if CARGO_TARGET_DIR="$PWD/target/atomics" cargo build --quiet --offline --manifest-path atomics/Cargo.toml --bin "$bin" 2>target/atomics.log; then
    export MCX_ATOM="$PWD/target/atomics/debug/$bin"
  else
    echo "NOTE: no build with scheduling points at atomics; that part is skipped"
  fi
fi
if ! build; then echo "ERROR: build failed"; exit 2; fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
