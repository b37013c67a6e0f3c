//! Case runner: every case runs in a fresh thread (vertigo keeps its driver in a
//! thread local), panics are attributed to the library or to the harness by location,
//! and everything observed is counted.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Cov {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: bool,
    pub hash: u64,
    pub trace: Vec<String>,
    pub viols: Vec<Viol>,
}

impl Cov {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn viol(&mut self, prop: &str, sig: &str, msg: impl Into<String>) {
        self.viols.push(Viol { prop: prop.into(), sig: sig.into(), msg: msg.into() });
    }
    pub fn h(&mut self, x: u64) {
        self.hash = crate::rng::mix(self.hash ^ x);
    }
    pub fn hs(&mut self, s: &str) {
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

thread_local! {
    pub static COV: RefCell<Cov> = RefCell::new(Cov::default());
    static PANIC: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}
static LAST_PANIC: Mutex<Option<BTreeMap<String, (String, String)>>> = Mutex::new(None);

pub fn cov<R>(f: impl FnOnce(&mut Cov) -> R) -> R {
    COV.with(|c| f(&mut c.borrow_mut()))
}
pub fn trace(s: impl Into<String>) {
    let s = s.into();
    if std::env::var_os("VPMON_ECHO").is_some() { eprintln!("  {s}"); }
    cov(|c| {
        if c.trace.len() < 4000 {
            c.trace.push(s)
        }
    })
}
pub fn viol(prop: &str, sig: &str, msg: impl Into<String>) {
    let msg = msg.into();
    if std::env::var_os("VPMON_ECHO").is_some() { eprintln!("  !! {prop} {sig}: {msg}"); }
    cov(|c| c.viol(prop, sig, msg))
}

pub struct Opts {
    pub monitor: String,
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub cases: u64,
    pub first: u64,
    pub secs: u64,
    pub threads: usize,
    pub out: String,
}

pub struct Failure {
    pub case: u64,
    pub viols: Vec<Viol>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Total {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub failures: Vec<Failure>,
    pub harness_errors: Vec<String>,
}

pub type CaseFn = fn(&Opts, u64);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let name = format!("{:?}", std::thread::current().id());
        if std::env::var_os("VPMON_ECHO").is_some() {
            eprintln!("PANIC {loc} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        g.get_or_insert_with(BTreeMap::new).entry(name).or_insert((loc, msg));
    }));
}

/// Runs one case in the current worker by spawning a fresh thread; returns its coverage.
fn run_one(opts: &Arc<Opts>, f: CaseFn, case: u64) -> Result<Cov, String> {
    let o = opts.clone();
    let slot: Arc<Mutex<Option<Cov>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            struct Save(Arc<Mutex<Option<Cov>>>);
            impl Drop for Save {
                fn drop(&mut self) {
                    if let Ok(c) = COV.try_with(|c| c.try_borrow_mut().map(|mut c| std::mem::take(&mut *c)).unwrap_or_default()) {
                        *self.0.lock().unwrap_or_else(|e| e.into_inner()) = Some(c);
                    }
                }
            }
            let _s = Save(s2);
            f(&o, case);
        })
        .map_err(|e| format!("spawn: {e}"))?;
    let tid = format!("{:?}", th.thread().id());
    let res = th.join();
    let mut c = slot.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
    let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).as_mut().and_then(|m| m.remove(&tid));
    if res.is_err() {
        let (loc, msg) = p.unwrap_or_default();
        if loc.starts_with("src/") || loc.contains("/harness/") {
            // on the code as it was pinned no case ends like this: what the library did made the monitor lose track
            c.viols.push(Viol { prop: "*".into(), sig: "lost-track".into(), msg: format!("the execution could not be followed any further: {loc}: {msg}") });
            return Ok(c);
        }
        c.viols.push(Viol { prop: "*".into(), sig: format!("panic:{}", loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")), msg: format!("library panicked at {loc}: {msg}") });
    }
    Ok(c)
}

pub fn run(opts: Opts, f: CaseFn) -> Total {
    install_panic_hook();
    let opts = Arc::new(opts);
    let next = Arc::new(AtomicU64::new(opts.first));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total::default()));
    let end = Instant::now() + Duration::from_secs(opts.secs);
    let last = opts.first + opts.cases;
    let mut ths = Vec::new();
    let busy: Vec<Arc<AtomicU64>> = (0..opts.threads.max(1)).map(|_| Arc::default()).collect();
    for busy in busy.clone() {
        let (opts, next, stop, total) = (opts.clone(), next.clone(), stop.clone(), total.clone());
        ths.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) || Instant::now() > end {
                return;
            }
            let case = next.fetch_add(1, Ordering::Relaxed);
            if case >= last {
                return;
            }
            busy.store(case + 1, Ordering::Relaxed);
            let r = run_one(&opts, f, case);
            busy.store(0, Ordering::Relaxed);
            let mut t = total.lock().unwrap();
            t.evaluations += 1;
            match r {
                Err(e) => {
                    t.harness_errors.push(e);
                    if t.harness_errors.len() > 5 { stop.store(true, Ordering::Relaxed); }
                }
                Ok(c) => {
                    if c.nontrivial { t.nontrivial.insert(c.hash); }
                    for (k, v) in &c.counters { *t.counters.entry(k.clone()).or_insert(0) += v; }
                    t.distinct.extend(c.distinct.iter().copied());
                    if c.nontrivial && t.samples.len() < 3 && c.viols.is_empty() {
                        let mut s = c.trace.join(" ; ");
                        if s.len() > 1500 {
                            let mut k = 1500;
                            while !s.is_char_boundary(k) { k -= 1; }
                            s.truncate(k);
                        }
                        t.samples.push((case, s));
                    }
                    let vs: Vec<Viol> = c.viols.into_iter().filter(|v| v.prop == "*" || opts.prop == "*" || v.prop == opts.prop).collect();
                    if !vs.is_empty() {
                        t.failures.push(Failure { case, viols: vs, trace: c.trace });
                        if t.failures.len() >= 40 { stop.store(true, Ordering::Relaxed); }
                    }
                }
            }
        }));
    }
    // a case takes milliseconds: one that is still the same after this many seconds never ends
    let mut same: Vec<(u64, u32)> = busy.iter().map(|_| (0, 0)).collect();
    let mut ms = 0;
    while ths.iter().any(|t| !t.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        ms += 20;
        if ms < 1000 { continue }
        ms = 0;
        for (b, s) in busy.iter().zip(same.iter_mut()) {
            let c = b.load(Ordering::Relaxed);
            *s = if c != 0 && c == s.0 { (c, s.1 + 1) } else { (c, 0) };
            if s.1 >= 90 {
                let mut t = total.lock().unwrap();
                t.failures.push(Failure { case: c - 1, viols: vec![Viol { prop: "*".into(), sig: "hang".into(), msg: format!("case {} does not end: still running after {} s", c - 1, s.1) }], trace: vec![] });
                return std::mem::take(&mut *t);
            }
        }
    }
    for t in ths { let _ = t.join(); }
    let mut g = total.lock().unwrap();
    std::mem::take(&mut *g)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_json(path: &str, t: &Total, o: &str) {
    let mut s = String::from("{");
    s += &format!("\"opts\":{},", esc(o));
    s += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"distinct_states\":{},", t.evaluations, t.nontrivial.len(), t.distinct.len());
    s += "\"counters\":{";
    s += &t.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &t.samples.iter().map(|(c, x)| format!("{{\"case\":{},\"trace\":{}}}", c, esc(x))).collect::<Vec<_>>().join(",");
    s += "],\"harness_errors\":[";
    s += &t.harness_errors.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
    s += "],\"failures\":[";
    s += &t.failures.iter().map(|f| format!("{{\"case\":{},\"viols\":[{}],\"trace\":[{}]}}", f.case,
        f.viols.iter().take(10).map(|v| format!("{{\"prop\":{},\"sig\":{},\"msg\":{}}}", esc(&v.prop), esc(&v.sig), esc(&v.msg))).collect::<Vec<_>>().join(","),
        f.trace.iter().take(400).map(|x| esc(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    s += "]}";
    if path == "-" { println!("{s}"); } else { std::fs::write(path, s).expect("write out"); }
}
