#!/usr/bin/env python3
"""seedmk.py ID PROP DIFF NEEDS BREAKS FILES...: makes a planted bug from DIFF and the demo files (a main.rs alone
becomes a cargo program), and confirms in a scratch copy of /repo, bound over /repo, that the demo passes
without the change and fails with it."""
import sys, os, json, subprocess, shutil
i, prop, diff, needs, breaks = sys.argv[1:6]; files = sys.argv[6:]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
shutil.copy(diff, d + "/patch.diff")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for f in files: shutil.copy(f, d + "/" + os.path.basename(f))
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds main.rs against /repo's vertigo in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
s=$(mktemp -d); trap 'rm -rf "$s"' EXIT
mkdir "$s/src"; cp "$here/main.rs" "$s/src/main.rs"; cp /opt/vp/Cargo.lock "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vertigo = { path = "/repo/crates/vertigo" }
T
cd "$s" && cargo run --offline --quiet --target-dir "$s/target"
''')
os.chmod(d + "/demo.sh", 0o755)
W = "/var/tmp/seedw"
if not os.path.exists(W + "/repo"): subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
os.makedirs(W + "/tmp", exist_ok=True)
subprocess.check_call(["bash", "-c", f"cd {W}/repo && git checkout -q -- . && git pull -q /repo HEAD 2>/dev/null; true"])
def run():
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {W}/repo /repo && mount --bind {W}/tmp /tmp && cd /repo && timeout 300 bash {d}/demo.sh"], capture_output=True, text=True)
a = run(); print("clean rc", a.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "")
subprocess.check_call(["git", "-C", W + "/repo", "apply", d + "/patch.diff"])
b = run(); print("patched rc", b.returncode, (b.stdout + b.stderr)[-400:])
subprocess.check_call(["git", "-C", W + "/repo", "checkout", "-q", "--", "."])
print("OK" if a.returncode == 0 and b.returncode != 0 else "NOT-CONFIRMED", i)
