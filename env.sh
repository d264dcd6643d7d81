# Same toolchain and profile as /opt/vp/env.sh (repeated here so that the
# checks do not depend on that file).
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_OPT_LEVEL=3 CARGO_PROFILE_DEV_DEBUG=1
unset RUSTFLAGS
export VP_ROOT="${VP_ROOT:-/verif}"
export CARGO_TARGET_DIR="$VP_ROOT/target"
