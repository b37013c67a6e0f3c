//! Monitor for the rendering layer: a strict simulated host document applies the update
//! commands of the real library (in the order of a batch) and is compared with the model.
use crate::run::{cov, trace, viol, Opts};
use scen::{Exp, Profile, Scenario, T};
use crate::host::{Host, NK};
use std::collections::HashMap;
use vertigo::{inspect, DomElement, DriverDomCommand as C};

pub struct Check<'a> {
    pub host: &'a Host,
    pub inst2id: &'a mut HashMap<u64, u64>,
    pub id2inst: &'a mut HashMap<u64, u64>,
    pub out: Vec<(&'static str, String, String)>,
    pub nodes: u64,
    pub texts: u64,
    pub attrs: u64,
    pub keyed: u64,
    pub susp: u64,
}
impl Check<'_> {
    fn v(&mut self, p: &'static str, sig: &str, m: String) {
        if self.out.len() < 12 {
            self.out.push((p, sig.into(), m))
        }
    }
    fn visible(&self, id: u64) -> Vec<u64> {
        self.host.n[&id].kids.iter().copied().filter(|k| self.host.n[k].kind != NK::Co).collect()
    }
    fn show(&self, ids: &[u64]) -> String {
        ids.iter()
            .map(|i| {
                let n = &self.host.n[i];
                match n.kind {
                    NK::El => format!("<{} s={} k={}>", n.tag, n.attrs.get("data-s").cloned().unwrap_or_default(), n.attrs.get("data-k").cloned().unwrap_or_default()),
                    _ => format!("{:?}", n.text),
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn show_t(t: &[T]) -> String {
        t.iter()
            .map(|t| match t {
                T::El { tag, attrs, sid, .. } => format!("<{tag} s={sid} k={}>", match attrs.get("data-k") { Some(Exp::Is(k)) => k.clone(), _ => "".into() }),
                T::Tx { text, .. } => format!("{text:?}"),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn shape_eq(&self, t: &T, id: u64) -> bool {
        let n = &self.host.n[&id];
        match t {
            T::Tx { .. } => n.kind == NK::Tx,
            T::El { tag, attrs, .. } => n.kind == NK::El && n.tag == *tag && ["data-s", "data-k"].iter().all(|a| match attrs.get(*a) {
                Some(Exp::Is(v)) => n.attrs.get(*a) == Some(v),
                _ => n.attrs.get(*a).is_none(),
            }),
        }
    }
    pub fn kids(&mut self, exp: &[T], parent: u64) {
        let act = self.visible(parent);
        let same = exp.len() == act.len() && exp.iter().zip(&act).all(|(t, i)| self.shape_eq(t, *i));
        if !same {
            let m = format!("under node {parent}: expected [{}], document has [{}]", Self::show_t(exp), self.show(&act));
            let k = |t: &T| matches!(t, T::El { attrs, .. } if attrs.contains_key("data-k"));
            let keyed_here = self.host.n[&parent].attrs.get("data-k").is_none() && (exp.iter().any(k) || act.iter().any(|a| self.host.n[a].attrs.contains_key("data-k")));
            if keyed_here {
                self.v("C07", "list:order", m.clone());
            }
            self.v("C06", "structure", m);
            return;
        }
        for (t, id) in exp.iter().zip(&act) {
            self.node(t, *id)
        }
    }
    fn node(&mut self, t: &T, id: u64) {
        self.nodes += 1;
        let n = &self.host.n[&id];
        let inst = match t {
            T::Tx { inst, text } => {
                self.texts += 1;
                if n.text != *text {
                    let m = format!("text node {id}: expected {text:?}, document has {:?}", n.text);
                    self.v("C06", "text", m);
                }
                *inst
            }
            T::El { inst, .. } => *inst,
        };
        if let Some(i) = inst {
            self.keyed += 1;
            let a = *self.inst2id.entry(i).or_insert(id);
            let b = *self.id2inst.entry(id).or_insert(i);
            if a != id {
                self.v("C07", "identity:replaced", format!("instance {i} was node {a} and is now node {id}: {}", self.show(&[id])));
            } else if b != i {
                self.v("C07", "identity:reused", format!("node {id} belonged to instance {b} and now stands for the new instance {i}"));
            }
        }
        let T::El { attrs, classes, csses, kids, susp, .. } = t else { return };
        let n = &self.host.n[&id];
        let mut bad = Vec::new();
        for (k, v) in attrs {
            self.attrs += 1;
            match v {
                Exp::Any => {}
                Exp::Is(v) => {
                    if n.attrs.get(k) != Some(v) {
                        bad.push(format!("{k}={v:?} expected, element {id} has {:?}", n.attrs.get(k)))
                    }
                }
            }
        }
        for (k, v) in &n.attrs {
            if k != "class" && !attrs.contains_key(k) {
                bad.push(format!("{k}={v:?} on element {id}, expected to be absent"))
            }
        }
        let cl = n.attrs.get("class").cloned().unwrap_or_default();
        for m in bad {
            if m.starts_with("data-p") {
                self.v("C07", "list:payload", m.clone());
            }
            self.v("C06", "attr", m.clone());
            self.v("C09", "attr", m);
        }
        let mut toks = Vec::new();
        for t in cl.split_whitespace() {
            match self.host.css.get(&format!(".{t}")) {
                Some(r) if t.starts_with("autocss_") => toks.push(r.join("\u{1}")),
                _ => toks.push(t.to_string()),
            }
        }
        toks.sort();
        let mut e1 = classes.clone();
        e1.extend(csses.iter().cloned());
        let mut full = e1.clone();
        full.extend(susp.iter().cloned());
        full.sort();
        if susp.is_some() {
            self.susp += 1
        }
        if toks != full {
            let m = format!("element {id} (s={:?}): class {cl:?} stands for {toks:?}, expected {full:?}", n.attrs.get("data-s"));
            let mut only = e1.clone();
            if let Some(s) = susp {
                let other = [scen::susp_css(0, true), scen::susp_css(0, false), scen::susp_css(1, true), scen::susp_css(1, false)];
                let got: Vec<String> = toks.iter().filter(|t| other.contains(t)).cloned().collect();
                only.extend(got.iter().cloned());
                only.sort();
                if got != vec![s.clone()] {
                    self.v("C11", "suspense-style", m.clone());
                }
            } else {
                only.sort();
            }
            if only != toks || susp.is_none() {
                self.v("C09", "class", m);
            }
        }
        self.kids(kids, id);
    }
}

pub fn case(o: &Opts, k: u64) {
    let mut r = scen::rng::Rng::new(o.seed ^ 0x5eed, k);
    let suspense = match o.profile.as_str() {
        "suspense" => true,
        "plain" => false,
        _ => r.chance(40),
    };
    let p = Profile {
        events: r.chance(60),
        suspense,
        marker_items: r.chance(40),
        html_safe: false,
        dup_keys: r.chance(30),
        max_nodes: 4 + r.below(40),
    };
    inspect::log_start();
    let mut s = Scenario::new(o.seed, k, p);
    if !s.scale.is_empty() {
        cov(|c| c.inc(s.scale));
    }
    trace(format!("{p:?} {}", s.desc));
    trace(format!("start vals {:?} lists {:?}", s.model.st.vals, s.model.st.lists.iter().map(|l| l.iter().map(|i| i.key).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let mut host = Host::default();
    let root = DomElement::new("body").child(s.build());
    let (mut m1, mut m2) = (HashMap::new(), HashMap::new());
    let steps = 4 + r.below(14);
    let mut moved = 0;
    for step in 0..=steps {
        if step > 0 {
            let clicks: Vec<(u64, u64, String)> = host.cbs.iter().filter(|(_, (_, e))| e != "input" && e != "change" && e != "keydown").map(|(c, (n, e))| (*c, *n, e.clone())).collect();
            if !clicks.is_empty() && r.chance(35) {
                let (cb, node, ev) = r.pick(&clicks).clone();
                let sid: usize = host.n[&node].attrs["data-s"].parse().unwrap();
                let Some((prefix, action)) = s.expect_event(sid, &ev) else { panic!("no handler spec {sid} {ev}") };
                trace(format!("{step}: {ev} on s={sid} -> {action:?}"));
                s.world.fired.borrow_mut().clear();
                vertigo::wasm_callback(cb, 0);
                let f = s.world.fired.borrow().clone();
                cov(|c| c.inc("events_fired"));
                if f != vec![prefix.clone()] {
                    viol("C10", "handler", format!("{ev} on element s={sid}: handlers run {f:?}, expected [{prefix:?}]"));
                }
                s.model_act(&action);
            } else if !host.cbs_dead.is_empty() && r.chance(30) {
                let (cb, n, ev) = r.pick(&host.cbs_dead).clone();
                s.world.fired.borrow_mut().clear();
                vertigo::wasm_callback(cb, 0);
                cov(|c| c.inc("stale_events"));
                let f = s.world.fired.borrow().clone();
                if !f.is_empty() {
                    viol("C10", "stale-handler", format!("released handler {cb} of node {n} ({ev}) was run: {f:?}"));
                    break;
                }
                continue;
            } else {
                let ops = s.next_ops();
                trace(format!("{step}: {}", ops.iter().map(|o| match o { scen::Op::Set(i, v) => format!("v{i}={v}"), scen::Op::List(i, l) => format!("l{i}={:?}", l.iter().map(|x| (x.key, x.payload)).collect::<Vec<_>>()) }).collect::<Vec<_>>().join(" ")));
                s.apply(&ops);
            }
        }
        let log = inspect::log_take();
        inspect::log_start();
        if step > 0 {
            moved += log.iter().filter(|c| matches!(c, C::InsertBefore { .. })).count();
        }
        let n = host.batch(log);
        let exp = s.model.document();
        let mut c = Check { host: &host, inst2id: &mut m1, id2inst: &mut m2, out: vec![], nodes: 0, texts: 0, attrs: 0, keyed: 0, susp: 0 };
        c.kids(&exp, 3);
        let out = std::mem::take(&mut c.out);
        cov(|v| {
            v.add("commands", n as u64);
            v.inc("batches");
            v.add("nodes_compared", c.nodes);
            v.add("texts_compared", c.texts);
            v.add("attrs_compared", c.attrs);
            v.add("identities_compared", c.keyed);
            v.add("suspense_styles_compared", c.susp);
            v.h(n as u64 ^ (c.nodes << 20) ^ (c.texts << 40));
            let h = v.hash;
            v.distinct.insert(h);
        });
        let mut stop = !out.is_empty();
        for (p, sig, m) in out {
            viol(p, &sig, format!("step {step}: {m}"));
        }
        if s.model.exact_renders && s.world.renders.get() != s.model.renders {
            viol("C07", "render-count", format!("step {step}: item render function ran {} times, {} new items", s.world.renders.get(), s.model.renders));
            stop = true;
        }
        if s.model.exact_renders { cov(|c| c.inc("render_counts_compared")) }
        for (sig, m) in std::mem::take(&mut host.errors) {
            viol("C08", &sig, format!("step {step}: {m}"));
            stop = true;
        }
        if stop {
            break;
        }
    }
    drop(root);
    let n = host.batch(inspect::log_take());
    cov(|v| {
        v.add("commands", n as u64);
        v.add("nodes_released", host.dead.len() as u64);
        v.add("handlers_released", host.cbs_dead.len() as u64);
        v.nontrivial = moved > 0 && v.counters.get("nodes_compared").copied().unwrap_or(0) > 5;
    });
    if cov(|c| c.viols.is_empty()) {
        for (sig, m) in std::mem::take(&mut host.errors) {
            viol("C08", &sig, format!("release: {m}"));
        }
        if !host.n.is_empty() {
            let mut l: Vec<String> = host.n.iter().map(|(i, n)| format!("{i}:{:?}{}", n.kind, n.tag)).collect();
            l.sort();
            viol("C08", "not-removed", format!("after release these nodes were never removed: {}", l.join(" ")));
            viol("C06", "not-removed", format!("after release the document still holds: {}", l.join(" ")));
        }
        if !host.cbs.is_empty() {
            viol("C08", "handler-left", format!("after release these handlers are still registered: {:?}", host.cbs));
        }
        // no handler may run any more, and no write may reach the released page
        s.world.fired.borrow_mut().clear();
        for (cb, _, _) in host.cbs_dead.iter().take(20) {
            vertigo::wasm_callback(*cb, 0);
        }
        if !s.world.fired.borrow().is_empty() {
            viol("C10", "stale-handler", format!("handlers of the released view ran: {:?}", s.world.fired.borrow()));
        }
        inspect::log_start();
        let ops = s.next_ops();
        s.apply(&ops);
        let late = inspect::log_take();
        if !late.is_empty() {
            viol("C08", "update-after-release", format!("updates sent after the view was released: {late:?}"));
        }
    }
    // mounting and releasing the same view again and again must not grow the live memory
    if cfg!(not(feature = "asan")) && k % 8 == 0 && cov(|c| c.viols.is_empty()) {
        let mut seen = Vec::new();
        let mut queued = 0;
        for _ in 0..14 {
            inspect::log_start();
            let v = DomElement::new("body").child(s.build());
            drop(v);
            let log = inspect::log_take();
            let (before, vec) = (crate::alloc::live(), (log.capacity() * std::mem::size_of::<C>()) as isize);
            drop(log);
            // the driver's own queue is never flushed here and keeps a copy of every text
            queued += before - crate::alloc::live() - vec;
            seen.push(crate::alloc::live() - queued);
        }
        cov(|c| c.inc("remount_memory_checks"));
        let d: Vec<isize> = seen.windows(2).map(|w| w[1] - w[0]).collect();
        trace(format!("live bytes after remounts: {seen:?}"));
        // that queue itself grows now and then, by doubling
        if d[1..].iter().all(|x| *x > 0) {
            viol("C08", "remount-leak", format!("live memory grows with every mount and release: {seen:?}"));
        }
    }
}
