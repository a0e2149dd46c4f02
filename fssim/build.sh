#!/bin/bash
# Builds the simulator and the simulated programs from /repo's working tree; prints the path of the executable.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
cd "$here"
export CARGO_INCREMENTAL=0
T=${FSSIM_TARGET:-/verif/build/fssim}
export CARGO_TARGET_DIR=$T
mkdir -p "$T/nodecli" "$T/nodes"
# the command line program as a library: its own sources with an exported entry
rm -rf "$T/nodecli/src.new"
mkdir -p "$T/nodecli/src.new"
cp -rL /repo/gen/cmd/src/. "$T/nodecli/src.new/"
cat >>"$T/nodecli/src.new/main.rs" <<'R'

#[no_mangle]
pub extern "C" fn node_main(_: *const u8, _: usize) -> i32 {
    let r = match std::panic::catch_unwind(main) {
        Ok(()) => 0,
        Err(_) => 101,
    };
    // as the runtime does at exit
    let _ = std::io::Write::flush(&mut std::io::stdout());
    r
}
R
mkdir -p "$T/nodecli/src"
rsync -rc --delete "$T/nodecli/src.new/" "$T/nodecli/src/" 2>/dev/null || { rm -rf "$T/nodecli/src"; cp -r "$T/nodecli/src.new" "$T/nodecli/src"; }
python3 - "$T/nodecli/Cargo.toml" <<'P'
import re, sys
t = open('/repo/gen/cmd/Cargo.toml').read()
t = re.sub(r'\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*', '[lib]\nname = "nodecli"\ncrate-type = ["cdylib"]\npath = "src/main.rs"\n\n', t)
t = re.sub(r'(?m)^name = "cxxbridge-cmd"', 'name = "nodecli"', t)
t += '\n[workspace]\n\n[profile.dev]\nopt-level = 2\ndebug = "line-tables-only"\nincremental = false\noverflow-checks = true\ndebug-assertions = true\n'
p = sys.argv[1]
try:
    old = open(p).read()
except OSError:
    old = None
if old != t:
    open(p, 'w').write(t)
P
[ -s "$T/nodecli/Cargo.lock" ] || [ ! -s nodecli.lock ] || cp nodecli.lock "$T/nodecli/Cargo.lock"
build() { cargo build --offline --manifest-path "$1/Cargo.toml" $2 >&2; }
build nodebuild --locked
build "$T/nodecli"
build . --locked
for i in $(seq 0 ${FSSIM_COPIES:-15}); do
  cmp -s "$T/debug/libnodebuild.so" "$T/nodes/build$i.so" || { rm -f "$T/nodes/build$i.so"; cp "$T/debug/libnodebuild.so" "$T/nodes/build$i.so"; }
done
for i in $(seq 0 7); do
  cmp -s "$T/debug/libnodecli.so" "$T/nodes/cli$i.so" || { rm -f "$T/nodes/cli$i.so"; cp "$T/debug/libnodecli.so" "$T/nodes/cli$i.so"; }
done
echo "$T/debug/fssim"
