# sourced by check.sh, setup.sh and pre/*.sh: one offline build environment
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export V
B="$V/.build"
T="$B/target"
export B T
export CARGO_TARGET_DIR="$T"
# the hooks in /repo are guarded by this cfg
export RUSTFLAGS="--cfg demixer_verif -Awarnings"
# checks that are run in both build modes (overflow-checked and release)
BOTH_MODES="c01 c02 c06 c07 c09 c10 c11 c12 c16 c17 c19 c20 c21 c22 c23 c24 c25"
