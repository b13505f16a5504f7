#!/bin/bash
# demo.sh of every planted bug: run from /repo; demo.rs and where.txt lie beside it.
# Builds a scratch crate from the sources in /repo plus demo.rs, inside a temporary directory, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$R/iOverlay/src" "$T/src"
SH=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/i_shape-1.10.0 | head -1)
cp -r "$SH" "$T/i_shape"
cat > "$T/i_shape/src/int/dedup.rs" <<'X'
use crate::int::shape::IntContour;
pub trait DedupContour { fn dedup_contour(&mut self) -> bool; }
impl DedupContour for IntContour {
    fn dedup_contour(&mut self) -> bool {
        let n = self.len();
        self.dedup();
        while self.len() > 1 && self.first() == self.last() { self.pop(); }
        n != self.len()
    }
}
X
printf '\npub mod dedup;\n' >> "$T/i_shape/src/int/mod.rs"
W=$(cat "$D/where.txt" 2>/dev/null)
if [ -n "$W" ]; then
  cp "$D/demo.rs" "$T/src/$W/demo.rs"
  printf '\npub mod demo;\n' >> "$T/src/$W/mod.rs"
  M="crate::$(echo "$W" | sed 's#/#::#g')::demo::main()"
else
  cp "$D/demo.rs" "$T/src/demo.rs"
  printf '\npub mod demo;\n' >> "$T/src/lib.rs"
  M="crate::demo::main()"
fi
printf '\npub fn demo_main() { %s }\n' "$M" >> "$T/src/lib.rs"
mkdir -p "$T/bin"
echo 'fn main() { seeddemo::demo_main() }' > "$T/bin/main.rs"
cat > "$T/Cargo.toml" <<'X'
[package]
name = "seeddemo"
version = "0.0.0"
edition = "2024"
[lib]
path = "src/lib.rs"
[[bin]]
name = "run"
path = "bin/main.rs"
[dependencies]
i_float = { version = "~1.9.0" }
i_shape = { version = "~1.10.0" }
i_tree = { version = "~0.13.0" }
i_key_sort = { version = "~0.4.0" }
[patch.crates-io]
i_shape = { path = "i_shape" }
[profile.dev]
opt-level = 1
debug = false
[workspace]
X
cd "$T" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
if ! cargo build --offline --quiet --target-dir "$T/target" > "$T/log" 2>&1; then grep -E "^error" -A6 "$T/log" | head -40; exit 3; fi
timeout 120 "$T/target/debug/run"
