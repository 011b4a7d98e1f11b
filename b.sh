cd /verif/harness && CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" cargo build -q --offline "$@" 2>&1 | head -${BL:-60}
