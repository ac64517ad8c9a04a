. /opt/vp/env.sh 2>/dev/null
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER CARGO_PROFILE_DEV_DEBUG
export CARGO_NET_OFFLINE=true
