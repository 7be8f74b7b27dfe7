#!/bin/bash
# run with cwd /repo: compiles spec.pspec with the compiler in the current directory and runs test.rs against the generated code
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/gen/src"
cp "$here/gen.rs" "$t/gen/src/main.rs"; cp "$repo/Cargo.lock" "$t/gen/"
cat > "$t/gen/Cargo.toml" <<T
[package]
name = "demo-gen"
version = "0.1.0"
edition = "2021"
[dependencies]
protospec-build = { path = "$repo/protospec-build" }
proc-macro2 = "1"
quote = "1"
[workspace]
T
(cd "$t/gen" && cargo build --quiet --offline)
(cd "$t" && timeout 60 gen/target/debug/demo-gen "$here/spec.pspec" out.rs)
cp "$here/test.rs" "$t/"
if [ -f "$here/async" ]; then
mkdir -p "$t/t/src"; cp "$t/out.rs" "$t/t/src/"; cp "$t/test.rs" "$t/t/src/main.rs"
mkdir -p "$t/ar/src"; cp "$here/asyncrec.rs" "$t/ar/src/lib.rs"
printf '[package]\nname = "async-recursion"\nversion = "1.0.0"\nedition = "2021"\n[lib]\nproc-macro = true\n[workspace]\n' > "$t/ar/Cargo.toml"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ntokio = { version = "1", default-features = false, features = ["io-util"] }\nasync-recursion = { path = "../ar" }\n[workspace]\n' > "$t/t/Cargo.toml"
(cd "$t/t" && cargo build --quiet --offline)
timeout 60 "$t/t/target/debug/demo"
else
(cd "$t" && rustc --edition 2018 -A warnings -o demo test.rs)
timeout 60 "$t/demo"
fi
