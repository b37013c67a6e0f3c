#!/usr/bin/env python3
"""seednew.py ID PROP NEEDS BREAKS: stores the working-tree diff of /repo as a planted bug and reverts it.
demo: if /tmp/demo_main.rs exists it becomes a cargo demo program."""
import sys, os, json, subprocess, shutil
i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
assert diff, "no diff"
open(d + "/patch.diff", "wb").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if os.path.exists("/tmp/demo_main.rs"):
    shutil.move("/tmp/demo_main.rs", d + "/main.rs")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds main.rs against /repo's vertigo in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
s=$(mktemp -d); trap 'rm -rf "$s"' EXIT
mkdir "$s/src"; cp "$here/main.rs" "$s/src/main.rs"; cp /opt/vp/Cargo.lock "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vertigo = { path = "/repo/crates/vertigo" }
T
cd "$s" && cargo run --offline --quiet --target-dir "$s/target"
''')
    os.chmod(d + "/demo.sh", 0o755)
print("stored", d, len(diff))
