#!/bin/bash
# usage: build_ir.sh TARGET_DIR OUT.ll -- compile claxon (from /repo), std and the harnesses to one LLVM IR module
set -e
H=$(cd "$(dirname "$0")" && pwd)/harness; T=$1; OUT=$2
mkdir -p "$T"; find "$T" -name "*.bc" -delete; rm -rf "$T/x86_64-unknown-linux-gnu"
cd "$H"
B() {
  CARGO_TARGET_DIR="$T" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 \
  RUSTFLAGS="--emit=llvm-bc -C codegen-units=16 -C no-vectorize-loops -C no-vectorize-slp -C linker-plugin-lto $1" \
  cargo +nightly build --offline -q --profile sym -Zbuild-std=std,panic_abort -Zbuild-std-features= --target x86_64-unknown-linux-gnu --lib
}
B "-Zthreads=8" 2>"$T/cargo.log" || B "" 2>"$T/cargo.log" || { cat "$T/cargo.log" >&2; exit 3; }
SR=$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
NAMES=$(python3 - "$H/src/lib.rs" <<'P'
import re,sys
s=open(sys.argv[1]).read()
m=re.search(r'^harnesses! \{(.*?)^\}',s,re.S|re.M).group(1)
m=re.sub(r'//.*','',m)
print(",".join(n.strip() for l in re.findall(r'\w+\s*:([^;]*);',m) for n in l.split(',') if n.strip()))
P
)
find "$T/x86_64-unknown-linux-gnu" -name '*.rcgu.bc' | grep -vE '/(panic_unwind|proc_macro)/' | sort > "$T/bcs"
xargs "$SR/llvm-link" -o "$T/all.bc" < "$T/bcs" 2>"$T/link.log" || { cat "$T/link.log" >&2; exit 3; }
"$SR/opt" -passes=internalize,globaldce "-internalize-public-api-list=$NAMES" -S "$T/all.bc" -o "$OUT"
