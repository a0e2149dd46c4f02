#!/bin/bash
# Builds the simulator from /repo's working tree; prints the path of the executable.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
cd "$here"
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${RTSIM_TARGET:-/verif/build/rtsim}
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt"
export CXXFLAGS="-fsanitize=thread"
cargo build --offline --locked --target x86_64-unknown-linux-gnu >&2
echo $CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/rtsim
