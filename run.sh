#!/bin/bash
# ./run.sh PROP [--replay FILE]
# Builds what the check of PROP needs from /repo's current working tree and runs it.
# Exit 0: held; 1 with a VIOLATION line: broken; anything else: an error of the check.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
prop="$1"; [ -n "$prop" ] || { echo "usage: $0 PROP [--replay FILE]" >&2; exit 3; }
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p target
# what cargo's time stamps could miss: sources that changed without a newer time
sum=$(find /repo/crates -type f \( -name '*.rs' -o -name '*.toml' -o -path '*/resources/*' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
export REPO_SUM="$sum"
repo_pkgs="postgresql-cst-parser postgresql-cst-parser-wasm automata"

# build NAME MANIFEST EXTRA-RUSTFLAGS ARGS... : into target/NAME
build() {
  local name="$1" manifest="$2" flags="$3"; shift 3
  local dir="$VERIF_DIR/target/$name" log="$VERIF_DIR/target/$name.log"
  mkdir -p "$dir"
  if [ -e "$dir/.sum" ] && [ "$(cat "$dir/.sum")" != "$sum" ]; then
    for p in $repo_pkgs; do cargo clean --release --offline -p "$p" --manifest-path "$manifest" --target-dir "$dir" >/dev/null 2>&1; done
    case "$name" in gram|flex) rm -rf "$VERIF_DIR/target/$name/release/.fingerprint" ;; esac
  fi
  local wrapper=; [ "$name" = cov ] && wrapper="$VERIF_DIR/tools/rustc-cov.sh"
  if RUSTC_WRAPPER="$wrapper" RUSTFLAGS="$flags" cargo build --release --offline --manifest-path "$manifest" --target-dir "$dir" "$@" >"$log" 2>&1; then
    echo "$sum" > "$dir/.sum"; return 0
  fi
  return 1
}
need() { build "$@" || { echo "the harness does not build ($1):" >&2; tail -40 "$VERIF_DIR/target/$1.log" >&2; exit 3; }; }

H=harness
# the generators from the outside; P18 to P22 fall back to this when their harness does not build with changed internals
regen() {
  need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks
  W="$VERIF_DIR/target/regen-work"; export REGEN_STATUS="$W/status" VARIANT_BIN="$W/variant-bin"
  tools/regen.sh "$W" || exit 3
}
# coverage-guided search for texts, which the generators of the check then draw from; the check does without if it fails
guide() {
  build cov $H/checks/Cargo.toml "" || return
  local d="$VERIF_DIR/target/guided-$prop"; rm -rf "$d"; mkdir -p "$d"
  timeout -k 5 $([ "$VERIF_TIER" = thorough ] && echo 3000 || echo 100) target/cov/release/checks --guide "$d" $([ "$VERIF_TIER" = thorough ] && echo 40000000 || echo 250000) >/dev/null 2>&1
}
case "$prop" in
  P01|P02|P03|P04|P05|P06|P07|P08|P09|P10|P13|P14|P15|P16|P17|P24)
    case " $* " in *" --replay "*) ;; *) guide & guide_pid=$!; export GUIDED="$VERIF_DIR/target/guided-$prop" ;; esac ;;
esac
case "$prop" in
  P04|P12)
    # with the token-stream hook; through the public API alone if the hook does not build
    if build hooks $H/checks/Cargo.toml "--cfg verif" --features hooks; then bin=target/hooks/release/checks
    else need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks; fi ;;
  P15) need variant-regex $H/variant/Cargo.toml "" --features regex,empty-removed; export VARIANT_BIN="$VERIF_DIR/target/variant-regex/release/variant"
       need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks ;;
  P16) need variant-keep $H/variant/Cargo.toml ""; export VARIANT_BIN="$VERIF_DIR/target/variant-keep/release/variant"
       need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks ;;
  P17) need front $H/front/Cargo.toml ""; export VARIANT_BIN="$VERIF_DIR/target/front/release/front"
       # the tool itself
       need cli /repo/crates/postgresql-cst-parser/Cargo.toml "" --bin parse; export CLI_BIN="$VERIF_DIR/target/cli/release/parse"
       need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks ;;
  P18) if build auto $H/autocheck/Cargo.toml ""; then bin=target/auto/release/autocheck; else regen; fi ;;
  P19) if build flex $H/flexcheck/Cargo.toml ""; then bin=target/flex/release/flexcheck; else regen; fi ;;
  P20|P21|P22) if build gram $H/gramcheck/Cargo.toml "--cfg verif"; then bin=target/gram/release/gramcheck; else regen; fi ;;
  P23) regen ;;
  P27|P28) need e2e $H/endtoend/Cargo.toml ""; bin=target/e2e/release/endtoend ;;
  P26)
    # with branch counting; if this toolchain cannot instrument, with time and allocations alone
    if build cov $H/checks/Cargo.toml ""; then bin=target/cov/release/checks
    else need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks; fi ;;
  *) need plain $H/checks/Cargo.toml ""; bin=target/plain/release/checks ;;
esac
[ -n "${guide_pid:-}" ] && wait "$guide_pid"
"./$bin" "$@"
rc=$?
# P27 and P28 need copies of the working tree to build the way the tree does; from the outside when they do not
case "$prop:$rc" in P27:3|P28:3) case " $* " in *" --replay "*) ;; *) regen; "./$bin" "$@"; rc=$? ;; esac ;; esac
[ -n "${GUIDED:-}" ] && rm -rf "$GUIDED"
exit $rc
