. /opt/vp/env.sh; cd /verif/mc; CARGO_TARGET_DIR=/verif/target/plain cargo build --no-default-features --features plain --release --offline --message-format short 2>&1 | grep -E "error" | head -${1:-20}
