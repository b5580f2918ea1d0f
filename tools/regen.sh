#!/bin/bash
# tools/regen.sh WORK: copies /repo's working tree into WORK/tree and runs the generators there.
# Writes WORK/status, a line "STEP ok" or "STEP failed: WHY" per step; WORK/variant holds a parser
# harness over the regenerated crate. Exit 3: a step could not be carried out at all.
set -u
W="$1"; V="$VERIF_DIR"; T="$V/target/regen"
rm -rf "$W"; mkdir -p "$W/tree" "$T"
exec 3>"$W/status"
die() { echo "$1" >&2; [ -n "${2:-}" ] && tail -30 "$2" >&2; exit 3; }
copy() { mkdir -p "$1"; (cd /repo && tar -cf - --exclude=target --exclude=node_modules --exclude=pkg Cargo.toml crates) | tar -xmf - -C "$1" && { cp /repo/Cargo.lock "$1/" 2>/dev/null || cp /opt/vp/Cargo.lock "$1/" 2>/dev/null || true; }; }
cargo_in() { (cd "$1" && cargo build --release --offline --target-dir "$T" -p "$2"); }
why() { grep -a -m1 -A1 'panicked at' "$1" | tr '\n' ' ' | cut -c1-300; }
sources() { (cd "$1" && find crates -name '*.rs' -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum); }
# run STEP DIR BINARY TIMEOUT
run() {
  (cd "$2" && timeout "$4" "$3" >"$W/$1.log" 2>&1); local rc=$?
  case $rc in
    0) echo "$1 ok" >&3; return 0 ;;
    137|143) die "$1 was ended (memory?)" "$W/$1.log" ;;
    124) echo "$1 failed: does not finish within $4 s" >&3 ;;
    *) echo "$1 failed: exits with $rc: $(why "$W/$1.log")" >&3 ;;
  esac
  return 1
}
copy "$W/tree" || die "cannot copy the tree"
cargo_in "$W/tree" lexer-generator >"$W/build1.log" 2>&1 || die "the lexer generator does not build" "$W/build1.log"
cp "$T/release/lexer-generator" "$W/lexer-generator"
run lexer-generator "$W/tree" "$W/lexer-generator" 200 || exit 0
a=$(sources "$W/tree")
for i in 2 3; do run lexer-generator-run-$i "$W/tree" "$W/lexer-generator" 200 || exit 0; b=$(sources "$W/tree"); [ "$a" = "$b" ] || { echo "lexer-deterministic failed: run $i writes other files: $(diff <(echo "$a") <(echo "$b") | grep '^>' | awk '{print $3}' | tr '\n' ' ')" >&3; exit 0; }; done
echo "lexer-deterministic ok" >&3
cargo_in "$W/tree" parser-generator >"$W/build2.log" 2>&1 || { echo "parser-generator-builds failed: the parser generator does not build with the regenerated lexer: $(grep -a -m1 -A3 '^error' "$W/build2.log" | tr '\n' ' ' | cut -c1-300)" >&3; exit 0; }
echo "parser-generator-builds ok" >&3
cp "$T/release/parser-generator" "$W/parser-generator"
( run parser-generator "$W/tree" "$W/parser-generator" 500; echo $? >"$W/rc" ) & big=$!
# the parser generator on a small grammar, several times over
copy "$W/small" && cp "$W/tree/crates/parser-generator/src/parser_generator/lexer/generated.rs" "$W/small/crates/parser-generator/src/parser_generator/lexer/generated.rs"
y="$W/small/crates/parser-generator/resources/gram.y"
{ sed '/^%%/,$d' "$y"; cat "$V/spec/fragment.y"; } >"$W/f.y" && mv "$W/f.y" "$y"
if cargo_in "$W/small" parser-generator >"$W/build3.log" 2>&1; then
  cp "$T/release/parser-generator" "$W/small-generator"
  n=$([ "$VERIF_TIER" = thorough ] && echo 60 || echo 8); ok=0; a=; bad=
  for i in $(seq "$n"); do
    # from the same files each time, so that leftovers of an earlier run cannot hide a difference
    (cd "$W/small" && timeout 200 "$W/small-generator" >"$W/small-$i.log" 2>&1); rc=$?
    [ $rc = 137 ] && die "the small generation was ended (memory?)"
    [ $rc = 0 ] && ok=$((ok+1))
    b="$rc $(sources "$W/small")"; [ -z "$a" ] && a="$b"
    [ "$a" = "$b" ] || bad="run $i differs from run 1: $(diff <(echo "$a") <(echo "$b") | grep '^>' | awk '{print $NF}' | tr '\n' ' ')"
  done
  if [ -n "$bad" ]; then echo "parser-deterministic failed: $bad" >&3; else echo "parser-deterministic ok ($ok of $n runs completed)" >&3; fi
fi
wait $big
[ "$(cat "$W/rc" 2>/dev/null)" = 0 ] || { grep -q '^parser-generator failed' "$W/status" && exit 0; exit 3; }
if [ "$VERIF_TIER" = thorough ]; then
  a=$(sources "$W/tree"); run parser-generator-again "$W/tree" "$W/parser-generator" 500 || exit 0; b=$(sources "$W/tree")
  if [ "$a" = "$b" ]; then echo "parser-deterministic-full ok" >&3; else echo "parser-deterministic-full failed: a second run writes other files" >&3; fi
fi
mkdir "$W/variant" && cp -r "$V/harness/variant/." "$W/variant" && sed -i "s#/repo/crates/postgresql-cst-parser#$W/tree/crates/postgresql-cst-parser#" "$W/variant/Cargo.toml" || die "cannot set up the harness"
if (cd "$W/variant" && cargo build --release --offline --target-dir "$T" --features empty-removed) >"$W/build4.log" 2>&1; then
  cp "$T/release/variant" "$W/variant-bin"; echo "regenerated-builds ok" >&3
else
  echo "regenerated-builds failed: $(grep -a -m1 -A3 '^error' "$W/build4.log" | tr '\n' ' ' | cut -c1-300)" >&3
fi
exit 0
