. /opt/vp/env.sh; cd /verif/conc; RUSTFLAGS="--cfg fieldx_mc -Awarnings" CARGO_TARGET_DIR=/verif/target/conc cargo build --offline --bin $1 --features f_$1 2>&1 | grep -A12 "^error" | head -${2:-60}
