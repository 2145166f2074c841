# toolchain settings shared by setup and every check
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-04-24
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
export RUST_BACKTRACE=0
if grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && grep -qw aes /proc/cpuinfo && grep -qw pclmulqdq /proc/cpuinfo; then
    export RUSTFLAGS="-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq --cfg binius_verif"
else
    export RUSTFLAGS="--cfg binius_verif"
fi
