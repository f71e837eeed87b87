#!/bin/bash
# Runs demo.rs against the library in the current directory (cwd: /repo), in a scratch copy. Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/fitsrs-demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
# the `wcs` git dependency is not available offline: leave out the parts that need it
python3 - "$PWD" "$tmp/lib" <<'PY' || exit 3
import os, re, sys, shutil
src, dst = sys.argv[1:]
os.makedirs(dst)
for d in ("src", "benches", "crates"): shutil.copytree(os.path.join(src, d), os.path.join(dst, d), ignore=shutil.ignore_patterns("target"))
shutil.copy(os.path.join(src, "README.md"), dst)
def cut(rel, *pats):
    t = open(os.path.join(src, rel)).read()
    for p in pats: t = re.sub(p, "", t, flags=re.M)
    open(os.path.join(dst, rel), "w").write(t)
cut("Cargo.toml", r"^wcs = .*\n")
cut("src/error.rs", r"^[ \t]*WCS\s*\{\s*\n\s*from\(wcs::error::Error\)\n(?:(?![ \t]*\}\n).*\n)*[ \t]*\}\n")
cut("src/lib.rs", r"^pub mod wcs;\n", r"^pub use wcs::.*;\n")
os.remove(os.path.join(dst, "src/wcs.rs"))
PY
mkdir -p "$tmp/demo/src"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cat > "$tmp/demo/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fitsrs = { path = "../lib" }
futures = { version = "0.3.31", default-features = false, features = ["std"] }
TOML
cp "$here/Cargo.lock" "$tmp/demo/Cargo.lock" 2>/dev/null
cd "$tmp/demo" || exit 3
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cargo build --offline -q 2> "$tmp/log" || { cat "$tmp/log" >&2; exit 4; }
timeout 60 "$tmp/target/debug/demo"
