#!/bin/bash
# mkdemo.sh ID PROPERTY "crate1 crate2 .." : writes the generic demo.sh of a seeded bug (main.rs must lie beside it)
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.sh <<X
#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it; nonzero when the behaviour is broken.
here="\$(cd "\$(dirname "\$0")" && pwd)"; repo="\$PWD"
w="\$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "\$w"' EXIT
mkdir -p "\$w/src"; cp "\$here/main.rs" "\$w/src/main.rs"
{ echo '[package]'; echo 'name = "demo"'; echo 'version = "0.0.0"'; echo 'edition = "2024"'; echo '[workspace]'; echo '[dependencies]'
for c in $3; do echo "\$c = { path = \"\$repo/crates/\$c\" }"; done; } > "\$w/Cargo.toml"
cp "\$repo/Cargo.lock" "\$w/Cargo.lock"
cd "\$w" && CARGO_TARGET_DIR="\$w/target" RUSTFLAGS=-Awarnings timeout 280 cargo run -q --offline
X
chmod +x $d/demo.sh
