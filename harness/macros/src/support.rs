//! Runs the generated programs: every program mounts what its macros built into a strict host and
//! compares tree, evaluation log and values with what the generator derived from the source text.
use crate::host::{Host, NK};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vertigo::{inspect, DomElement, DomNode};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// an evaluation the source text asks for
pub fn t<T>(id: impl ToString, v: T) -> T {
    LOG.with(|l| l.borrow_mut().push(id.to_string()));
    v
}
pub fn hit(id: impl ToString) {
    t(id, ())
}
/// a captured value: copies are logged, `v` is not shared between them
pub struct P {
    pub name: &'static str,
    pub v: i32,
}
impl P {
    pub fn new(name: &'static str, v: i32) -> P {
        P { name, v }
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        hit(format!("clone {}", self.name));
        P { name: self.name, v: self.v }
    }
}
pub struct Show(pub i32);
impl std::fmt::Display for Show {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

#[derive(Default, Clone)]
pub struct Out {
    pub viols: Vec<(String, String)>,
    pub counters: BTreeMap<String, u64>,
    pub lines: Vec<String>,
}
pub struct Run {
    host: Host,
    body: DomElement,
    out: Arc<Mutex<Out>>,
}
impl Run {
    fn inc(&self, k: &str, n: u64) {
        *self.out.lock().unwrap().counters.entry(k.into()).or_insert(0) += n
    }
    fn viol(&self, sig: &str, m: String) {
        let mut o = self.out.lock().unwrap();
        if o.viols.len() < 6 {
            o.viols.push((sig.into(), m))
        }
    }
    pub fn line(&self, s: String) {
        self.out.lock().unwrap().lines.push(s)
    }
    pub fn mount(&mut self, n: impl Into<DomNode>) {
        self.body.add_child(n);
    }
    fn sync(&mut self) {
        let l = inspect::log_take();
        inspect::log_start();
        self.inc("commands", l.len() as u64);
        self.host.batch(l);
        for (s, m) in std::mem::take(&mut self.host.errors) {
            self.viol(&s, m)
        }
    }
    fn show(&self, id: u64, o: &mut String) {
        let n = &self.host.n[&id];
        match n.kind {
            NK::Co => {}
            NK::Tx => {
                self.inc("texts_compared", 1);
                o.push('"');
                o.push_str(&n.text.replace('\\', "\\\\").replace('"', "\\\""));
                o.push('"')
            }
            NK::El => {
                self.inc("nodes_compared", 1);
                o.push('<');
                o.push_str(&n.tag);
                for (k, v) in &n.attrs {
                    self.inc("attrs_compared", 1);
                    o.push_str(&format!(" {k}="));
                    if k == "class" {
                        let mut c: Vec<String> = v.split_whitespace().map(|t| self.host.css.get(&format!(".{t}")).map(|r| format!("{{{}}}", r.join("|"))).unwrap_or(t.to_string())).collect();
                        c.sort();
                        o.push_str(&c.join(" "))
                    } else {
                        o.push('"');
                        o.push_str(&v.replace('\\', "\\\\").replace('"', "\\\""));
                        o.push('"')
                    }
                }
                let mut e: Vec<&String> = self.host.cbs.values().filter(|c| c.0 == id).map(|c| &c.1).collect();
                e.sort();
                for e in e {
                    o.push_str(&format!(" @{e}"))
                }
                o.push('>');
                for k in &n.kids {
                    self.show(*k, o)
                }
                o.push_str("</>")
            }
        }
    }
    /// what is in the document now
    pub fn tree(&mut self, at: &str, exp: &str) {
        self.sync();
        let mut o = String::new();
        for k in self.host.n[&3].kids.clone() {
            self.show(k, &mut o)
        }
        self.inc("trees_compared", 1);
        if o != exp {
            self.viol("tree", format!("{at}: the document is\n{o}\nexpected\n{exp}"))
        }
    }
    /// what was evaluated since the last call, in order
    pub fn log(&mut self, at: &str, exp: &[&str]) {
        let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        self.inc("evaluations_compared", l.len() as u64);
        self.inc("logs_compared", 1);
        if l != exp {
            self.viol("order", format!("{at}: evaluated {l:?}, expected {exp:?}"))
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, at: &str, a: T, b: T) {
        self.inc("values_compared", 1);
        if a != b {
            self.viol("value", format!("{at}: {a:?}, expected {b:?}"))
        }
    }
    /// the id the next registered callback will be past
    pub fn tick(&mut self) -> u64 {
        self.sync();
        let e = DomElement::new("q").on_click(|| {});
        self.sync();
        let id = self.host.cbs.keys().max().copied().unwrap_or(0);
        drop(e);
        self.sync();
        id
    }
    /// runs the timers (there is no host with timers here) set since then
    pub fn run_since(&mut self, from: u64) {
        for id in from + 1..self.tick() {
            self.inc("tasks_run", 1);
            vertigo::wasm_callback(id, 0);
        }
    }
    pub fn fire(&mut self, key: &str, ev: &str) {
        self.sync();
        let node = self.host.n.iter().find(|(_, n)| n.attrs.get("data-k").map(|k| k == key).unwrap_or(false)).map(|x| *x.0);
        let cb = self.host.cbs.iter().filter(|(_, (n, e))| Some(*n) == node && e == ev).map(|x| *x.0).next();
        match cb {
            None => self.viol("handler", format!("element {key} has no handler of {ev}")),
            Some(c) => {
                self.inc("events_fired", 1);
                vertigo::wasm_callback(c, 0);
            }
        }
    }
}
pub type Program = (&'static str, fn(&mut Run));

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn main(programs: &[Program]) {
    std::panic::set_hook(Box::new(|_| {}));
    let only = std::env::args().nth(2);
    let mut total: BTreeMap<String, u64> = BTreeMap::new();
    let mut fails = Vec::new();
    let mut n = 0;
    for (name, f) in programs {
        if only.as_deref().map(|o| o != *name).unwrap_or(false) {
            continue;
        }
        n += 1;
        let out = Arc::new(Mutex::new(Out::default()));
        let (o2, f) = (out.clone(), *f);
        let r = std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn(move || {
                inspect::log_start();
                let mut r = Run { host: Host::default(), body: DomElement::new("body"), out: o2 };
                f(&mut r);
                let (h, b) = (std::mem::take(&mut r.host), std::mem::replace(&mut r.body, DomElement::new("p")));
                drop((h, b));
            })
            .unwrap()
            .join();
        let mut o = out.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            o.viols.push(("panic".into(), format!("the program panicked: {m}")));
        }
        for (k, v) in o.counters {
            *total.entry(k).or_insert(0) += v
        }
        if !o.viols.is_empty() {
            fails.push(format!(
                "{{\"case\":{},\"viols\":[{}],\"trace\":[]}}",
                esc(name),
                o.viols.iter().map(|(s, m)| format!("{{\"prop\":\"C27\",\"sig\":{},\"msg\":{}}}", esc(s), esc(&format!("{name}: {m}")))).collect::<Vec<_>>().join(",")
            ));
        }
    }
    let c = total.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",");
    let j = format!("{{\"evaluations\":{n},\"counters\":{{{c}}},\"failures\":[{}]}}", fails.join(",\n"));
    match std::env::args().nth(1).as_deref() {
        Some("-") | None => println!("{j}"),
        Some(f) => std::fs::write(f, j).unwrap(),
    }
}
