# Build environment shared by setup.sh and check.sh (sourced).
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset LIMABEAN_UBERJAR LIMABEAN_CLJ_LOCAL_ROOT LIMABEAN_CLJ_DEPS LIMABEAN_POD_LOG LIMABEAN_POD_LOG_LEVEL RUST_LOG
export CARGO_TARGET_DIR=/verif/.build/target
# optimised (the explorers run millions of bookings), but with integer overflow checks as in a debug build
export CARGO_INCREMENTAL=1 CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_OPT_LEVEL=1
export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
