"""What each property's check runs."""
import json, os
import vp
SETUP = ["native", "asan", "app", "ssr", "macros"]
R = "random source/computed/subscriber programs and histories replayed against an executable model; non-trivial: at least one delivery had to be made and was checked; distinct by hash of the model states passed through"
def reactive(q=50000, t=900000, **k):
    return [dict(monitor="reactive", quick=(q, 25), thorough=(t, 150), **k)]
CHECKS = {
  "C01": dict(jobs=reactive(), rule=R, floor={"subscriber_checks": 100000, "reads": 2000, "evaluations_checked": 50000}),
  "C02": dict(jobs=reactive(), rule=R, floor={"subscriber_checks": 100000, "inner_subscriptions": 5000, "drops_in_callback": 500, "handles_compared": 10000}),
  "C03": dict(jobs=reactive(), rule=R, floor={"evaluations_checked": 50000, "automap_gets": 10000}),
  "C04": dict(jobs=reactive(), rule=R, floor={"connects": 2000, "disconnects": 2000, "drops": 5000}),
  "C05": dict(jobs=reactive(), rule=R, floor={"nested_transactions": 5000, "hook_firings": 20000}),
}
RD = "random views (elements, texts, reactive parts, lists, fragments nested in each other) are mounted, changed by batches of writes and events, and released; a strict simulated host applies the update commands and is compared with an executable model after every batch; non-trivial: some batch moved or inserted nodes and more than five nodes were compared; distinct by hash of (commands, nodes, texts) per batch"
def dom(q=25000, t=500000, **k):
    return [dict(monitor="dom", quick=(q, 60), thorough=(t, 240), **k)]
CHECKS.update({
  "C06": dict(jobs=dom(), rule=RD, floor={"batches": 50000, "nodes_compared": 300000, "texts_compared": 80000}),
  "C07": dict(jobs=dom(), rule=RD, floor={"identities_compared": 300000, "render_counts_compared": 50000}),
  "C08": dict(jobs=dom(), rule=RD, floor={"commands": 1000000, "nodes_released": 100000, "handlers_released": 30000, "remount_memory_checks": 1000}),
  "C09": dict(jobs=dom(), rule=RD, floor={"attrs_compared": 500000}),
  "C10": dict(jobs=dom(), rule=RD, floor={"events_fired": 10000, "stale_events": 2000}),
  "C11": dict(jobs=dom(profile="suspense"), rule=RD, floor={"suspense_styles_compared": 100000}),
})
RC = "random style descriptions (declarations, nested selectors, media blocks, inline keyframes, quoted and non-ASCII data, macro templates with embedded values) translated by the library; the emitted rules are read by an independent CSS reader and compared place by place; non-trivial: rules for more than one place; distinct by description"
RV = "random values and buffers through the real codec against an independent codec, truncated at every length and corrupted; non-trivial: a buffer of more than 12 bytes; distinct by value"
RJ = "random values of derived and provided types against an independent statement of the mapping, then random wrong-shape inputs; non-trivial: a structured or numeric value; distinct by JSON text"
RM = "the codec, rendering, reactive and style workloads under a checking allocator (layout, double free, red zones, poisoning, live bytes) and under AddressSanitizer; non-trivial and distinct as in those workloads"
CHECKS.update({
  "C12": dict(jobs=[dict(monitor="css", quick=(60000, 40), thorough=(1500000, 240))], rule=RC, floor={"declarations": 200000, "animations": 10000, "macro_styles": 5000, "media_groups": 5000, "styles_reused": 10000, "comments": 40000}),
  "C13": dict(jobs=[dict(monitor="codec", profile="codec", quick=(60000, 40), thorough=(1500000, 240))], rule=RV, floor={"values_encoded": 50000, "truncated_buffers": 500000, "corrupted_buffers": 300000, "corrupted_buffers_valid": 50000}),
  "C14": dict(jobs=[dict(monitor="codec", profile="json", quick=(60000, 40), thorough=(1500000, 240))], rule=RJ, floor={"conversions": 50000, "rejections_required": 100000, "error_places_checked": 50000, "dates": 3000}),
  "C15": dict(jobs=[dict(monitor="codec", quick=(15000, 20), thorough=(300000, 120)),
                    dict(monitor="dom", quick=(3000, 20), thorough=(100000, 120)),
                    dict(monitor="codec", build="asan", name="codec under ASan", quick=(6000, 25), thorough=(200000, 150)),
                    dict(monitor="dom", build="asan", name="dom under ASan", quick=(2500, 25), thorough=(60000, 150)),
                    dict(monitor="reactive", build="asan", name="reactive under ASan", quick=(3000, 25), thorough=(60000, 150)),
                    dict(monitor="css", build="asan", name="css under ASan", quick=(2000, 25), thorough=(40000, 150))],
              rule=RM, floor={"repeated_task_memory_checks": 50, "repeated_fetch_memory_checks": 50, "repeated_load_memory_checks": 50, "repeated_connection_memory_checks": 50, "repeated_element_memory_checks": 20, "repeated_router_memory_checks": 50, "values_encoded": 30000, "repeated_exchanges": 3000, "commands": 100000, "remount_memory_checks": 100, "styles": 5000}),
})

# ------------------------------------------------------------------ browser monitors
WASM = os.path.join(vp.BUILD, "app/wasm32-unknown-unknown/debug/vpapp.wasm")
SHIPPED = "/repo/crates/vertigo/src/driver_module/wasm_run.js"
BUNDLE = os.path.join(vp.BUILD, "js/source.js")
def build(what):
    if what == "app":
        vp.cargo("app", "app", ["--target", "wasm32-unknown-unknown"])
        os.makedirs(os.path.dirname(BUNDLE), exist_ok=True)
        rc, out = vp.sh(["/opt/veriftools/node/node_modules/.bin/esbuild", "/repo/crates/vertigo/src/driver_module/src_js/index.ts", "--bundle", "--format=iife", "--target=es2020", "--outfile=" + BUNDLE, "--log-level=error"], 120, what="bundling of the driver's sources")
        if rc != 0: raise vp.Inconclusive("bundling of the driver's sources failed:\n" + out[-3000:])
    elif what == "macros":
        rc, out = macro_build(["probe"], os.path.join(vp.BUILD, "vpgen"))
        if rc != 0: raise vp.Inconclusive("build of the macro harness failed:\n" + out[-6000:])
    elif what == "ssr":
        vp.cargo("ssrapp", "app", ["--target", "wasm32-unknown-unknown"])
        vp.cargo("watchapp", "app", ["--target", "wasm32-unknown-unknown"])
        vp.lock_copy("/repo/Cargo.lock")
        # the same features and target directory as the project's own build
        rc, out = vp.sh(["cargo", "build", "--workspace", "--all-features", "--bin", "vertigo", "--offline"], 800, cwd="/repo", what="build of vertigo-cli")
        if rc != 0: raise vp.Inconclusive("build of vertigo-cli failed:\n" + out[-6000:])
    else:
        raise vp.Inconclusive("unknown build " + what)
def run_browser(job, prop, seed, tier, outdir, idx):
    vp.build("app")
    cases, secs = job[tier]
    out = os.path.join(outdir, f"{prop}-{idx}.json")
    cmd = ["node", os.path.join(vp.HERE, "harness/browser/main.mjs"), job["browser"], "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--threads", "8", "--wasm", WASM, "--shipped", SHIPPED, "--source", BUNDLE, "--out", out]
    if os.path.exists(out): os.unlink(out)
    rc, log = vp.sh(cmd, secs + 150, what="monitor " + job["browser"])
    if rc != 0 or not os.path.exists(out): raise vp.Inconclusive(f"monitor {job['browser']} ended with {rc}:\n{log[-3000:]}")
    d = json.load(open(out))
    d["cmd"] = cmd
    return d
def browser(m, q, t, qs=20, ts=200):
    return dict(browser=m, name=m + " in the browser harness", run=run_browser, build="app", quick=(q, qs), thorough=(t, ts))
RB = "the compiled WebAssembly application runs under the shipped driver script and under a bundle of its sources in a strict browser stand-in with a virtual clock; "
CHECKS["C13"]["jobs"].append(browser("values", 3000, 100000))
CHECKS["C13"]["floor"].update(js_to_rust=2000, rust_to_js=2000, there_and_back=2000)
CHECKS["C15"]["jobs"].append(browser("values", 1500, 40000))
for m in ("async", "net", "cache", "ws", "page", "route"): CHECKS["C15"]["jobs"].append(browser(m, 700, 15000, 12, 60))
for c in ("C06", "C07", "C08", "C10"): CHECKS[c]["jobs"].append(browser("page", 2000, 60000))
CHECKS.update({
  "C16": dict(jobs=[browser("async", 8000, 300000)], rule=RB + "random programs of futures, sleeps, intervals and publishers against an independent schedule model; non-trivial: the case observed several wake-ups; distinct by observed history"),
  "C17": dict(jobs=[browser("net", 8000, 300000)], rule=RB + "random requests with every method, header, body and answer (delays, failures, cut connections, wrong types); non-trivial: at least two requests were answered; distinct by what the server saw and the application got"),
  "C18": dict(jobs=[browser("cache", 8000, 300000)], rule=RB + "random histories of reads, observers, expiry, refreshes and failing answers against a model of the cache; non-trivial: several loads and reads; distinct by observed states"),
  "C19": dict(jobs=[browser("ws", 8000, 300000)], rule=RB + "random peers that accept, refuse, stay silent, send and disconnect, handles dropped at any time; exact expected list of notices and times; non-trivial: more than two notices; distinct by observed notices"),
  "C20": dict(jobs=[browser("route", 8000, 300000)], rule=RB + "random histories of route changes, traversals, manual address changes and cookies; the route is compared with the location after every step; non-trivial: more than ten routes compared; distinct by the locations passed through"),
  "C21": dict(jobs=[browser("page", 8000, 300000), browser("values", 1000, 20000)], rule=RB + "random views, update batches and events on blank and server-rendered pages; the live document is compared with an executable model after every batch; non-trivial: more than ten nodes compared; distinct by document"),
  "C28": dict(jobs=[browser("values", 6000, 200000)], rule=RB + "random access paths (root, element, get, set, call, get_props) with random values against an independent statement of their meaning; non-trivial: some value was structured; distinct by path and values"),
})
# ------------------------------------------------------------------ programs of the macros
def macro_build(bins, gen):
    d = os.path.join(vp.HERE, "harness/macros")
    vp.lock_copy(os.path.join(d, "Cargo.lock"))
    return vp.sh(["cargo", "build", "--offline", "--target-dir", os.path.join(vp.BUILD, "native")] + [a for b in bins for a in ("--bin", b)], 700, cwd=d, extra={"VPGEN": gen}, what="build of the macro programs")
def run_macros(job, prop, seed, tier, outdir, idx):
    rounds, count = job[tier]
    gen = os.path.join(vp.BUILD, "vpgen")
    rc, log = macro_build(["probe"], gen)
    if rc != 0: raise vp.Inconclusive("build of the macro harness failed:\n" + log[-6000:])
    d = {"cmd": [], "evaluations": 0, "distinct_nontrivial": 0, "counters": {}, "samples": [], "harness_errors": [], "failures": []}
    seen = set()
    bins = ["g%d" % k for k in range(6)]
    for r in range(rounds):
        g = ["python3", os.path.join(vp.HERE, "harness/macros/gen.py"), str(seed + 1000 * r), str(count), gen]
        rc, log = vp.sh(g, 60, what="generation of the macro programs")
        if rc != 0: raise vp.Inconclusive("generation of the macro programs failed:\n" + log[-3000:])
        progs = json.load(open(os.path.join(gen, "programs.json")))
        replay = lambda b, a: ["bash", "-c", " ".join(g) + f" && cd {vp.HERE}/harness/macros && VPGEN={gen} cargo build --offline --target-dir {vp.BUILD}/native --bin {b} && {vp.BUILD}/native/debug/{b} - {a}"]
        ok = bins
        rc, log = macro_build(bins, gen)
        if rc != 0:
            # the library and the harness do compile: programs of the grammar are rejected
            ok = []
            for b in bins:
                rc, log = macro_build([b], gen)
                if rc == 0: ok.append(b); continue
                errs = [e for e in ("\n" + log).split("\nerror")[1:]]
                d["failures"].append({"case": b, "viols": [{"prop": "C27", "sig": "rejected", "msg": "programs of the grammar do not compile: error" + "\nerror".join(errs)[:3000]}], "trace": [], "cmd": replay(b, "")})
        for b in ok:
            out = os.path.join(outdir, f"{prop}-{b}.json")
            if os.path.exists(out): os.unlink(out)
            rc, log = vp.sh([os.path.join(vp.BUILD, "native/debug", b), out], 120, what="macro programs " + b)
            if rc != 0 or not os.path.exists(out):
                d["failures"].append({"case": b, "viols": [{"prop": "C27", "sig": "crash", "msg": f"the programs ended with {rc}: {log[-2000:]}"}], "trace": [], "cmd": replay(b, "")})
                continue
            o = json.load(open(out))
            d["evaluations"] += o["evaluations"]
            for k, v in o["counters"].items(): d["counters"][k] = d["counters"].get(k, 0) + v
            mine = {p["name"]: p for p in progs if p["bin"] == b}
            for f in o["failures"]:
                f["cmd"] = replay(b, f["case"]); f["trace"] = mine[f["case"]]["src"].split("\n")
                d["failures"].append(f)
            for p in mine.values():
                body = p["src"].split("{", 1)[1]
                if body not in seen and p["nodes"] != 1: seen.add(body); d["distinct_nontrivial"] += 1
        d["samples"] += [{"program": p["src"]} for p in progs[:2]]
    return d
CHECKS["C27"] = dict(jobs=[dict(name="generated macro programs", run=run_macros, build="macros", quick=(1, 250), thorough=(10, 500))],
  rule="random programs of the view, component and binding macros are written by a generator together with what their text says, compiled against the library and executed against a strict host: tree after mounting and after every change, order and number of evaluations and copies, values; non-trivial: a program with more than one node, or a program of bindings; distinct by program text")
def run_generated(job, prop, seed, tier, outdir, idx):
    """rounds of: programs written by a generator with what their text says, compiled, run under the monitor"""
    rounds, count, secs = job[tier]
    b = job["bin"]
    gen = os.path.join(vp.BUILD, "vpgen")
    rc, log = macro_build(["probe"], gen)
    if rc != 0: raise vp.Inconclusive("build of the macro harness failed:\n" + log[-6000:])
    d = {"cmd": [], "evaluations": 0, "distinct_nontrivial": 0, "distinct_states": 0, "counters": {}, "samples": [], "harness_errors": [], "failures": []}
    for r in range(rounds):
        g = ["python3", os.path.join(vp.HERE, "harness/macros", job["gen"]), str(seed + 1000 * r), str(count), gen]
        rc, log = vp.sh(g, 60, what="generation of the programs")
        if rc != 0: raise vp.Inconclusive("generation of the programs failed:\n" + log[-3000:])
        replay = lambda a: ["bash", "-c", " ".join(g) + f" && cd {vp.HERE}/harness/macros && VPGEN={gen} cargo build --offline --target-dir {vp.BUILD}/native --bin {b} && {vp.BUILD}/native/debug/{b} - {seed} 1 30 {a}"]
        rc, log = macro_build([b], gen)
        if rc != 0:
            # the library and the harness do compile: programs of the grammar are rejected
            errs = ("\n" + log).split("\nerror")[1:]
            d["failures"].append({"case": f"round {r}", "viols": [{"prop": prop, "sig": "rejected", "msg": "programs of the grammar do not compile: error" + "\nerror".join(errs)[:3000]}], "trace": [], "cmd": replay("0")})
            continue
        out = os.path.join(outdir, f"{prop}-{b}.json")
        if os.path.exists(out): os.unlink(out)
        rc, log = vp.sh([os.path.join(vp.BUILD, "native/debug", b), out, str(seed), "10000000", str(secs)], secs + 100, what="generated programs")
        if rc != 0 or not os.path.exists(out):
            d["failures"].append({"case": f"round {r}", "viols": [{"prop": prop, "sig": "crash", "msg": f"the programs ended with {rc}: {log[-2000:]}"}], "trace": [], "cmd": replay("0")})
            continue
        o = json.load(open(out))
        for k in ("evaluations", "distinct_nontrivial", "distinct_states"): d[k] += o[k]
        for k, v in o["counters"].items(): d["counters"][k] = d["counters"].get(k, 0) + v
        d["counters"]["programs_compiled"] = d["counters"].get("programs_compiled", 0) + count
        for f in o["failures"]: f["cmd"] = replay(f["case"]); d["failures"].append(f)
        d["samples"] += o["samples"][:2]; d["harness_errors"] += o["harness_errors"]
    return d
CHECKS["C12"]["jobs"].append(dict(name="generated programs of the style macros", run=run_generated, build="macros", bin="c0", gen="gencss.py", quick=(1, 300, 8), thorough=(8, 500, 15)))
CHECKS["C12"]["floor"].update(macro_programs=5000, programs_compiled=200)
CHECKS["C12"]["rule"] += "; and generated programs of the style macros (literals, embedded expressions, references, media blocks, animations) are compiled and their meaning compared with what their text says"
CHECKS["C14"]["jobs"].append(dict(name="generated types", run=run_generated, build="macros", bin="j0", gen="genjson.py", quick=(1, 100, 8), thorough=(8, 150, 15)))
CHECKS["C14"]["floor"].update(type_programs=300, programs_compiled=80)
CHECKS["C14"]["rule"] += "; and generated types of every kind (nested, recursive, with odd names, attributes and defaults) are compiled with the derive macro and judged by what their declarations say"
# ------------------------------------------------------------------ server monitors
SSRWASM = os.path.join(vp.BUILD, "app/wasm32-unknown-unknown/debug/vpssr.wasm")
WATCHWASM = os.path.join(vp.BUILD, "app/wasm32-unknown-unknown/debug/vpwatch.wasm")
CLI = "/repo/target/debug/vertigo"
def run_ssr(job, prop, seed, tier, outdir, idx):
    vp.build("ssr")
    if BUNDLE in job.get("args", []): vp.build("app")
    cases, secs = job[tier]
    out = os.path.join(outdir, f"{prop}-{idx}.json")
    cmd = ["node", os.path.join(vp.HERE, "harness/ssr/main.mjs"), job["ssr"], "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--wasm", SSRWASM, "--exe", CLI, "--out", out, *job.get("args", [])]
    if os.path.exists(out): os.unlink(out)
    rc, log = vp.sh(cmd, secs + 230, what="monitor " + job["ssr"])
    if rc != 0 or not os.path.exists(out): raise vp.Inconclusive(f"monitor {job['ssr']} ended with {rc}:\n{log[-3000:]}")
    d = json.load(open(out))
    d["cmd"] = cmd
    return d
def ssr(m, q=1000000, t=10000000, qs=20, ts=240, **k):
    return dict(ssr=m, name=m + " against the real server", run=run_ssr, build="ssr", quick=(q, qs), thorough=(t, ts), **k)
RS = "the real `vertigo` binary serves (or builds) generated pages of a compiled application from a scratch directory; "
CHECKS.update({
  "C22": dict(jobs=[ssr("html_pages")], rule=RS + "the bytes of every answer are parsed by an independent HTML reader and compared with the page the model declares; non-trivial: a document with more than a few nodes; distinct by page"),
  "C23": dict(jobs=[ssr("html_mix")], rule=RS + "bundles of concurrent requests (equal ones, different ones, crashing, slow, failing), each answer judged against its own address alone; non-trivial: a bundle with answers of several kinds in flight at once; distinct by bundle"),
  "C24": dict(jobs=[ssr("html_loads", qs=25)], rule=RS + "pages with independent, equal, dependent, failing, slow and unanswered loads from a recording upstream, and crashing pages; non-trivial: several loads reached the upstream; distinct by page"),
  "C25": dict(jobs=[ssr("html_serve")], rule=RS + "plain answers, files, byte-for-byte paths trying to leave the build or the proxied address, and proxied requests to a recording target; non-trivial: an answer was judged; distinct by request"),
  "C26": dict(jobs=[ssr("html_build", q=60, t=3000, qs=40, args=["--inflight", "12", "--real", os.path.join(vp.BUILD, "real"), "--watchwasm", WATCHWASM, "--lock", "/opt/vp/Cargo.lock", "--shipped", SHIPPED])], rule=RS + "random projects, public paths and options through `vertigo build` (compiler outputs prepared by a stand-in, one project compiled for real) and `vertigo serve`; non-trivial: a build whose files were compared; distinct by options and changes"),
  "C29": dict(jobs=[ssr("html_watch", q=60, t=3000, qs=40, ts=400, args=["--inflight", "12", "--watchwasm", WATCHWASM])], rule=RS + "random histories of changes of the sources (succeeding and failing builds of every length, with and without optimisation), pages opened and clients connecting at any moment, under `vertigo watch`; pages run the watch script they are served; non-trivial: a history with several builds; distinct by history"),
  "C30": dict(jobs=[ssr("html_new", q=300, t=6000, qs=25, ts=120, args=["--template", "/repo/crates/vertigo-cli/src/new/template", "--lock", "/opt/vp/Cargo.lock", "--target", os.path.join(vp.BUILD, "app")])], rule=RS + "random names, destinations (missing, empty, occupied in every way) and working directories through `vertigo new`; every file of the surroundings is compared before and after; some of the projects are read and one is compiled by cargo; non-trivial: a project was made, or an occupied destination was refused; distinct by arguments and surroundings"),
  "C31": dict(jobs=[ssr("html_takeover", qs=40, ts=300, args=["--shipped", SHIPPED, "--source", BUNDLE])], rule=RS + "each page is opened in the strict browser stand-in under the shipped driver script or a bundle of its sources, with the loads answered at random times or never; the live document is compared with the served one and with the model after every task; non-trivial: a page with several served nodes was taken over and compared; distinct by page"),
})
CHECKS["C33"] = dict(jobs=[dict(monitor="inspect", quick=(12000, 40), thorough=(400000, 240))], rule="random views and histories recorded from before they are built; after every batch the debugging fragment is compared node by node with a strict host document that applied the same updates, and its text is read back as that tree; non-trivial: the history changed the page; distinct by hash of the texts' lengths and trees passed through")
CHECKS["C32"] = dict(jobs=[browser("host", 8000, 200000), ssr("html_host", qs=10, ts=120)], rule=RB + "random clocks, time zones, draws, variables, moments, messages and accesses against an independent statement; and pages of the real server stating what they read of it, with its output; non-trivial: several messages and moments, or a page's facts; distinct by history or page")
FLOORS = {
  "C33": dict(fragments=30000, texts_read=30000, nodes_compared=300000, attrs_compared=400000, styles_resolved=30000, handlers_compared=80000, whole_pages=800, released_fragments=3000),
  "C32": dict(facts=10000, random_numbers=50000, random_reach_checked=500, moments=4000, elapsed_read=500, clock_set_back=50, messages=5000, messages_inside=300, last_words=100, macro_accesses=3000, variables=2000, scripts_compared=50),
  "C22": dict(answers_html=400, nodes_compared=10000, texts_compared=4000, attrs_compared=4000, styled_compared=800),
  "C23": dict(answers_html=100, bundles=15),
  "C24": dict(answers_html=40, loads_received=100, failed_loads_in_documents=25, pages_with_a_hanging_load=2, answers_crash=3),
  "C25": dict(files=60, pages=40, outside_attempts=30, proxied_POST=60, proxied_GET=50, proxied_answers=90, proxied_failing=15, proxy_outside_attempts=12),
  "C26": dict(builds=20, targets_missing=3, files_checked=20, rebuilds_compared=5, served_builds=10, real_builds=4, static_files_requested=8, addresses_requested=20),
  "C29": dict(settled=10, changes=25, clients=12, pages_judged=4, notices=25, plain_answers=5, pages_loaded_again=2),
  "C31": dict(takeovers=60, takeovers_after_loads=30, single_steps=6, pages_kept=2, nodes_compared=1500, clicks=20, looks_before=400, named_twice=5),
  "C30": dict(created=40, refusals=40, files_compared=200, projects_read=2, projects_compiled=1),

  "C06": dict(documents_compared=2000), "C07": dict(documents_compared=2000), "C08": dict(releases_checked=200), "C10": dict(events_handled=300, late_files=10, events_passed_up=60, events_handled_twice=10),
  "C16": dict(tasks=4000, sleeps=5000, steps_checked=20000, interval_firings=30000, values_delivered=2000, scripts_compared=100),
  "C17": dict(answers_compared=8000, failures_compared=3000, requests_compared=6000, mismatches_rejected=1000, scripts_compared=100),
  "C18": dict(loads=8000, reads=5000, forced=2000, forgets=2000, load_counts_checked=50000, scripts_compared=100),
  "C19": dict(notices=15000, losses=2000, timeouts=1000, drops_while_connecting=1000, peer_messages_compared=6000, scripts_compared=100),
  "C20": dict(routes_compared=30000, traversals=2500, manual_changes=2000, cookies_read=4000, ends_checked=800, scripts_compared=100),
  "C21": dict(documents_compared=8000, updates=15000, served_pages=500, events_handled=1500, links_clicked=300, scripts_compared=100),
  "C27": dict(trees_compared=1000, nodes_compared=4000, logs_compared=1500, values_compared=1200, events_fired=200, tasks_run=80),
  "C28": dict(access_paths=800, access_failing=150, element_accesses=250, access_call=250),
}
for c, f in FLOORS.items(): CHECKS[c].setdefault("floor", {}).update(f)
NOT_APPLICABLE = {}
