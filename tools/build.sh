. /opt/vp/env.sh; cd /verif/sim
for f in default full; do a=""; [ $f = full ] && a="--features full"; RUSTC_WRAPPER=/verif/tools/rustc.sh CARGO_TARGET_DIR=/verif/target/$f cargo build --offline $a 2>&1 | grep -E "^(error|warning: unu)" -A9 | head -${1:-60}; done
