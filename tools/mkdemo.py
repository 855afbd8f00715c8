#!/usr/bin/env python3
"""mkdemo.py ID crate,crate,... : write the demo scaffold of a planted bug (src.rs must exist there)."""
import sys
i, crates = sys.argv[1], sys.argv[2].split(",")
extra = sys.argv[3:]
deps = "\n".join(f'{c if not c.startswith("binius_") else c} = {{ path = "REPO/crates/{c.removeprefix("binius_")}"' +
                 (', features = ["test_utils"]' if c == "binius_m3" else "") + " }" for c in crates)
open(f"/verif/seeded/{i}/Cargo.toml", "w").write(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[[bin]]
name = "demo"
path = "src.rs"

[dependencies]
{deps}
{chr(10).join(extra)}

[profile.dev]
opt-level = 1
debug = false

[workspace]
""")
open(f"/verif/seeded/{i}/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the behaviour is right; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "${t:?}"' EXIT
sed "s#REPO#$repo#" "$here/Cargo.toml" > "$t/Cargo.toml"
cp "$here/src.rs" "$t/src.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
cargo build -q --offline || { rm -f Cargo.lock; cargo build -q --offline; } || exit 3
"$t/target/debug/demo"
""")
