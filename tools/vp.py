"""Orchestrator: builds the monitors from /repo's working tree, runs the jobs of a property,
judges their reports (violated / held on what was observed / inconclusive) and writes evidence."""
import json, os, sys, time, subprocess, shutil, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
KF = os.path.join(HERE, "known-findings.txt")

class Inconclusive(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2024-07-01", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTC", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e

def sh(cmd, timeout, cwd=None, extra=None, what="command"):
    e = env(); e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        raise Inconclusive(f"{what} did not finish within {timeout} s")
    return p.returncode, out.decode("utf-8", "replace")

def lock_copy(dst):
    """Cargo.lock of the pinned toolchain next to a harness crate."""
    src = "/opt/vp/Cargo.lock"
    if not os.path.exists(dst) and os.path.exists(src):
        shutil.copy(src, dst)

def cargo(crate, target, args=(), extra=None, timeout=800):
    d = os.path.join(HERE, "harness", crate)
    lock_copy(os.path.join(d, "Cargo.lock"))
    rc, out = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, target), *args], timeout, cwd=d, extra=extra, what=f"build of {crate}")
    if rc != 0:
        raise Inconclusive(f"build of {crate} failed:\n" + out[-6000:])

_built = set()
def build(what):
    if what in _built: return
    if what == "native":
        cargo("native", "native")
    elif what == "asan":
        cargo("native", "asan", ["--target", "x86_64-unknown-linux-gnu", "--features", "asan"], extra={"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"})
    else:
        import importlib
        importlib.import_module("jobs").build(what)
    _built.add(what)

def run_native(job, prop, seed, tier, outdir, idx):
    """job: dict(monitor, profile?, quick=(cases, secs), thorough=(cases, secs), asan?)"""
    build(job.get("build", "native"))
    cases, secs = job[tier]
    if job.get("build") == "asan":
        job = dict(job, exe="asan/x86_64-unknown-linux-gnu/debug/vpmon", env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66"})
    exe = os.path.join(BUILD, job.get("exe", "native/debug/vpmon"))
    out = os.path.join(outdir, f"{prop}-{idx}.json")
    cmd = [exe, job["monitor"], "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--threads", str(job.get("threads", 8)), "--out", out]
    if job.get("profile"): cmd += ["--profile", job["profile"]]
    if os.path.exists(out): os.unlink(out)
    rc, log = sh(cmd, secs + 120, extra=job.get("env"), what="monitor " + job["monitor"])
    if rc != 0 or not os.path.exists(out):
        # the monitored process died: a sanitizer report or an abort inside the library
        return crash_report(cmd, rc, log, prop, job)
    d = json.load(open(out))
    d["cmd"] = cmd
    return d

def crash_report(cmd, rc, log, prop, job):
    san = [l for l in log.splitlines() if "AddressSanitizer" in l or "SUMMARY" in l or "stack overflow" in l or "panicked" in l]
    sig = "crash"
    for l in log.splitlines():
        if "SUMMARY: AddressSanitizer" in l:
            sig = "asan:" + l.split("AddressSanitizer:")[1].split()[0]
        elif "VPALLOC" in l:
            sig = "alloc:" + l.split("VPALLOC")[1].split()[0]
    if not san and "VPALLOC" not in log and rc not in (-6, -11, 134, 139, -4, 66):
        raise Inconclusive(f"monitor ended with {rc}:\n{log[-3000:]}")
    return {"cmd": cmd, "evaluations": 1, "distinct_nontrivial": 0, "distinct_states": 0, "counters": {}, "samples": [], "harness_errors": [],
            "failures": [{"case": -1, "viols": [{"prop": prop, "sig": sig, "msg": (log[:200] + " ... " + log[-3500:])}], "trace": []}]}

def known():
    k = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith("known: "):
                f = l[7:].split(" ", 2)
                k.append((f[0].split("=", 1)[1], f[1].split("=", 1)[1], f[2]))
    return k

def main(args):
    if args and args[0] == "--setup":
        import jobs
        for w in jobs.SETUP:
            t = time.time(); build(w); print(f"built {w} in {time.time()-t:.1f} s", flush=True)
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        print("replaying:", " ".join(r["cmd"]))
        if r.get("build"): build(r["build"])
        e = env(); e.update(r.get("env") or {}); e["VPMON_ECHO"] = "1"
        return subprocess.call(r["cmd"], env=e)
    prop = args[0]
    import jobs
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if len(args) > 1: tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    outdir = os.path.join(BUILD, "out"); os.makedirs(outdir, exist_ok=True)
    spec = jobs.CHECKS[prop]
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}, "distinct_states": 0}
    fails, errors, per_job = [], [], []
    for idx, job in enumerate(spec["jobs"]):
        if tier not in job and "run" not in job: continue
        tj = time.time()
        try:
            fn = job.get("run", run_native)
            d = fn(job, prop, seed, tier, outdir, idx)
        except Inconclusive as e:
            errors.append(str(e)); continue
        total["evaluations"] += d["evaluations"]
        total["distinct_nontrivial"] += d["distinct_nontrivial"]
        total["distinct_states"] += d.get("distinct_states", 0)
        for k, v in d["counters"].items(): total["counters"][k] = total["counters"].get(k, 0) + v
        for s in d["samples"][:2]: total["samples"].append({"job": job.get("name", job.get("monitor")), **(s if isinstance(s, dict) else {"trace": s})})
        errors += d["harness_errors"]
        per_job.append({"job": job.get("name", job.get("monitor", "?")), "evaluations": d["evaluations"], "seconds": round(time.time() - tj, 1)})
        for f in d["failures"]: fails.append((job, d.get("cmd", []), f))
    kn = [(s, txt) for p, s, txt in known() if p == prop]
    seen_known, new = {}, []
    for job, cmd, f in fails:
        vs = [v for v in f["viols"] if v["prop"] in (prop, "*")]
        unk = [v for v in vs if not any(v["sig"] == s for s, _ in kn)]
        for v in vs:
            for s, txt in kn:
                if v["sig"] == s: seen_known[s] = txt
        if unk: new.append((job, cmd, f, unk))
    for s, txt in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {txt}")
    # every counter a job relies on must have been observed
    if not new:
        for k, m in spec.get("floor", {}).items():
            got = total["counters"].get(k, 0)
            if got < m: errors.append(f"too few events: {k} = {got} < {m}")
        if total["evaluations"] == 0: errors.append("nothing was evaluated")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"], "rule": spec["rule"],
                       "samples": total["samples"][:6], "observed_events": total["counters"], "distinct_states_seen": total["distinct_states"], "jobs": per_job},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if errors: ev["coverage"]["inconclusive"] = errors[:5]
    if seen_known: ev["coverage"]["known_findings_seen"] = list(seen_known.values())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
        # shortest witness first
        new.sort(key=lambda x: len(x[2].get("trace") or []) if x[2].get("trace") else 10**6)
        job, cmd, f, unk = new[0]
        rp = os.path.join(rdir, f"{prop}-{unk[0]['sig'].replace('/', '_').replace(' ', '_')[:60]}-{seed}.json")
        c2 = list(cmd)
        if f.get("case", -1) is not None and isinstance(f.get("case"), int) and f["case"] >= 0 and ("--threads" in c2 or "--exe" in c2): c2 += ["--case", str(f["case"])]
        if "--out" in c2: c2[c2.index("--out") + 1] = "-"
        with open(rp, "w") as fh:
            json.dump({"property": prop, "cmd": f.get("cmd") or c2, "build": job.get("build", "native" if "monitor" in job else None), "env": job.get("env"), "case": f.get("case"), "violations": unk, "trace": f.get("trace")}, fh, indent=1)
        for j, c, f2, u in new[:8]:
            print(f"  case {f2.get('case')}: [{u[0]['sig']}] {u[0]['msg'][:600]}")
        print(f"{len(new)} failing cases in {total['evaluations']} evaluations")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: " + " | ".join(str(e)[:2000] for e in errors[:3]))
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed}: {total['evaluations']} evaluations, {total['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    return 0
