V="${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}"
export RUSTUP_TOOLCHAIN=1.78.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/sim/target" RUSTFLAGS="--cfg vp_sim"
