# The environment in which the checks build and run. Sourced by check.sh and setup.sh.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=${LANG:-C.UTF-8}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export ROCKSDB_INCLUDE_DIR=/usr/include ROCKSDB_LIB_DIR=/usr/lib/x86_64-linux-gnu
export VIRTUAL_ENV=/opt/vp/venv PYO3_PYTHON=/opt/vp/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PT_VERIF=$VERIF
export CARGO_TARGET_DIR=$VERIF/target
export PT_SHIM=$CARGO_TARGET_DIR/pt-shim.so
