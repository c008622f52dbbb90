#!/bin/bash
# build.sh FEATURES OUTDIR HARNESS...
# Compiles /repo's current tree with the harness crate to LLVM bitcode, links it with the standard
# library's bitcode and writes OUTDIR/code.ll; also builds the native replay driver in two profiles.
set -e
V=$(cd "$(dirname "$0")" && pwd)
FEAT=$1; mkdir -p "$2"; OUT=$(realpath "$2"); shift 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
T=x86_64-unknown-linux-gnu
SYS=$(rustc --print sysroot)
BIN=$SYS/lib/rustlib/$T/bin
LIB=$SYS/lib/rustlib/$T/lib
mkdir -p "$OUT"
STD=$V/target/std
if [ ! -f "$STD/std.bc" ]; then
  TMPD=$(mktemp -d "$V/target/stdtmp.XXXXXX" 2>/dev/null || { mkdir -p "$V/target"; mktemp -d "$V/target/stdtmp.XXXXXX"; })
  ( cd "$TMPD"
    for l in core alloc std hashbrown memchr panic_abort std_detect cfg_if libc unwind compiler_builtins rustc_demangle gimli addr2line object miniz_oxide adler2 rustc_std_workspace_alloc rustc_std_workspace_core; do
      for f in "$LIB"/lib$l-*.rlib; do
        [ -f "$f" ] || continue
        mkdir -p $l; ( cd $l; "$BIN/llvm-ar" x "$f" )
        for o in $l/*.o; do
          [ -f "$o" ] || continue
          "$BIN/llvm-objcopy" --dump-section=.llvmbc=$o.bc $o /dev/null 2>/dev/null || true
        done
      done
    done
    "$BIN/llvm-link" $(find . -name '*.bc' -size +0) -o std.bc 2>link.err || { cat link.err; exit 1; }
  )
  mkdir -p "$STD"; mv "$TMPD/std.bc" "$STD/std.bc.$$"; mv "$STD/std.bc.$$" "$STD/std.bc"
  rm -rf "$TMPD"
fi
cd "$V/harness"
( CARGO_TARGET_DIR=$OUT/native cargo build -q --offline --locked --release --features "native,$FEAT" --bin replay \
  && cp "$OUT/native/release/replay" "$OUT/replay" ) >"$OUT/native.log" 2>&1 &
P1=$!
rm -rf "$OUT/bc/$T/release/deps"
CARGO_TARGET_DIR=$OUT/bc RUSTFLAGS="--emit=llvm-bc -C codegen-units=1 -C overflow-checks=on -C opt-level=1 -C no-vectorize-loops -C no-vectorize-slp -C panic=abort" \
  cargo build -q --offline --locked --release --features "$FEAT" --lib --target $T >"$OUT/bc.log" 2>&1 || { cat "$OUT/bc.log"; exit 2; }
API=$(echo "$@" | tr ' ' ',')
"$BIN/llvm-link" "$OUT"/bc/$T/release/deps/*.bc -o "$OUT/crates.bc"
"$BIN/llvm-link" "$OUT/crates.bc" --only-needed "$STD/std.bc" -o "$OUT/all.bc" 2>"$OUT/link.log" || { cat "$OUT/link.log"; exit 2; }
"$BIN/opt" --passes='internalize,globaldce,strip-dead-prototypes' --internalize-public-api-list="$API" -strip-debug "$OUT/all.bc" -o "$OUT/code.bc"
"$BIN/llvm-dis" "$OUT/code.bc" -o "$OUT/code.ll"
wait $P1 || { cat "$OUT/native.log"; exit 2; }
