//! Monitor for the debugging fragment: built from the recorded updates it must be the page the
//! strict host document holds after the same updates, and its text must be that tree.
use crate::host::{Host, NK};
use crate::run::{cov, trace, viol, Opts};
use scen::{Profile, Scenario};
use std::collections::BTreeMap;
use vertigo::inspect::{log_start, log_take, DomDebugFragment};
use vertigo::{DomElement, DomId, DriverDomCommand as C};

/// What the fragment shows of an element: the class of a style block is resolved to its rules.
fn attrs_shown(h: &Host, id: u64) -> BTreeMap<String, String> {
    let mut a = h.n[&id].attrs.clone();
    if let Some(rules) = a.get("class").and_then(|c| h.css.get(&format!(".{c}"))) {
        let rules = rules.last().unwrap().clone();
        a.remove("class");
        a.insert("style".into(), rules);
    }
    a
}

struct Cmp<'a> {
    h: &'a Host,
    f: &'a DomDebugFragment,
    bad: Vec<(&'static str, String)>,
    nodes: u64,
    attrs: u64,
    styles: u64,
}
impl Cmp<'_> {
    fn v(&mut self, sig: &'static str, m: String) {
        if self.bad.len() < 8 {
            self.bad.push((sig, m))
        }
    }
    fn tree(&mut self) {
        for (id, n) in &self.h.n {
            self.nodes += 1;
            let Some(d) = self.f.map.get(&DomId::from_u64(*id)) else {
                self.v("missing", format!("node {id} ({}) of the page is not in the fragment", n.tag));
                continue;
            };
            let kids: Vec<u64> = d.children.iter().map(|i| i.to_u64()).collect();
            if kids != n.kids {
                self.v("children", format!("node {id} ({}) has the children {:?}, the fragment says {kids:?}", n.tag, n.kids));
            }
            if d.id.to_u64() != *id || d.parent_id.to_u64() != n.parent.unwrap_or(0) {
                self.v("parent", format!("node {id} is under {:?}, the fragment says {:?} under {:?}", n.parent, d.id, d.parent_id));
            }
            if d.name.as_str() != n.tag {
                self.v("name", format!("node {id} is a {:?}, the fragment says {:?}", n.tag, d.name.as_str()));
            }
            let text = match n.kind {
                NK::El => None,
                NK::Tx => Some(n.text.clone()),
                NK::Co => Some(format!("<!-- {} -->", n.text)),
            };
            if d.text != text {
                self.v("text", format!("node {id} reads {text:?}, the fragment says {:?}", d.text));
            }
            let exp = attrs_shown(self.h, *id);
            let got: BTreeMap<String, String> = d.attrs.iter().map(|(k, v)| (k.as_str().to_string(), v.clone())).collect();
            self.attrs += exp.len() as u64;
            self.styles += exp.contains_key("style") as u64;
            if exp != got {
                self.v("attrs", format!("node {id} ({}) shows {exp:?}, the fragment says {got:?}", n.tag));
            }
            let exp: BTreeMap<String, u64> = self.h.cbs.iter().filter(|(_, (n, _))| n == id).map(|(c, (_, e))| (e.clone(), *c)).collect();
            let got: BTreeMap<String, u64> = d.callbacks.iter().map(|(k, v)| (k.clone(), v.as_u64())).collect();
            if exp != got {
                self.v("callbacks", format!("node {id} ({}) has the handlers {exp:?}, the fragment says {got:?}", n.tag));
            }
        }
        for id in self.f.map.keys() {
            if !self.h.n.contains_key(&id.to_u64()) {
                self.v("extra", format!("the fragment holds node {}, which the page does not", id.to_u64()));
            }
        }
    }
    /// reads the text of a node off `s`; attributes and handlers may come in any order
    fn read<'s>(&self, id: u64, s: &'s str) -> Result<&'s str, String> {
        let n = &self.h.n[&id];
        let eat = |s: &'s str, p: &str| s.strip_prefix(p).ok_or_else(|| format!("at node {id}: {p:?} expected at {:?}", s.chars().take(60).collect::<String>()));
        match n.kind {
            NK::Tx => return eat(s, &n.text),
            NK::Co => return eat(s, &format!("<!-- {} -->", n.text)),
            NK::El => {}
        }
        let mut s = eat(s, &format!("<{}", n.tag))?;
        let mut left: Vec<String> = attrs_shown(self.h, id).iter().map(|(k, v)| format!(" {k}='{v}'")).collect();
        left.extend(self.h.cbs.iter().filter(|(_, (n, _))| *n == id).map(|(c, (_, e))| format!(" {e}={c}")));
        // a handler's number may begin another's
        left.sort_by_key(|t| std::cmp::Reverse(t.len()));
        while !left.is_empty() {
            let Some(i) = left.iter().position(|t| s.starts_with(t.as_str())) else {
                return Err(format!("at node {id}: one of {left:?} expected at {:?}", s.chars().take(60).collect::<String>()));
            };
            s = &s[left.remove(i).len()..];
        }
        s = eat(s, ">")?;
        for k in &n.kids {
            s = self.read(*k, s)?
        }
        eat(s, &format!("</{}>", n.tag))
    }
}

pub fn case(o: &Opts, k: u64) {
    let mut r = scen::rng::Rng::new(o.seed ^ 0x1259ec7, k);
    let p = Profile { events: r.chance(60), suspense: r.chance(20), marker_items: r.chance(40), html_safe: false, dup_keys: r.chance(20), max_nodes: 3 + r.below(30) };
    let mut s = Scenario::new(o.seed ^ 0x33, k, p);
    trace(format!("{p:?} {}", s.desc));
    // nothing is recorded before the start, and the start is not counted twice
    let early = log_take();
    if !early.is_empty() {
        viol("C33", "log-before-start", format!("{} updates recorded before the start", early.len()));
    }
    if r.chance(50) {
        let d = DomElement::new("i").child("unrecorded");
        drop(d);
        let early = log_take();
        if !early.is_empty() {
            viol("C33", "log-before-start", format!("updates recorded before the start: {early:?}"));
        }
    }
    log_start();
    let mut host = Host::default();
    let mut all: Vec<C> = Vec::new();
    let view = s.build();
    let root = if r.chance(25) {
        // a whole page: the fragment starts at its root, not at one of its parts
        cov(|c| c.inc("whole_pages"));
        DomElement::new("html").child(DomElement::new("head").child(DomElement::new("title").child("t"))).child(DomElement::new("body").child(view)).attr("lang", "pl")
    } else {
        let tag = *r.pick(&["div", "body", "main", "ul"]);
        DomElement::new(tag).attr("data-root", "r").child(view)
    };
    let steps = 2 + r.below(10);
    let mut changes = 0;
    for step in 0..=steps {
        if step > 0 {
            let ops = s.next_ops();
            s.apply(&ops);
            if r.chance(20) {
                log_start(); // already started: keeps what is there
            }
        }
        let log = log_take();
        log_start();
        if step > 0 {
            changes += log.len();
        }
        all.extend(log.iter().cloned());
        host.batch(log);
        let f = DomDebugFragment::from_cmds(all.clone());
        let mut c = Cmp { h: &host, f: &f, bad: vec![], nodes: 0, attrs: 0, styles: 0 };
        c.tree();
        let top: Vec<u64> = host.n.iter().filter(|(_, n)| n.parent.is_none()).map(|(i, _)| *i).collect();
        let html = f.to_pseudo_html();
        if top.len() == 1 {
            cov(|c| c.inc("texts_read"));
            match c.read(top[0], &html) {
                Ok("") => {}
                Ok(rest) => c.v("text-form", format!("{html:?} goes on with {rest:?}")),
                Err(m) => c.v("text-form", format!("{m} in {html:?}")),
            }
        }
        // the same updates give the same text
        for _ in 0..2 {
            let again = DomDebugFragment::from_cmds(all.clone()).to_pseudo_html();
            if top.len() == 1 && again != html {
                c.v("text-varies", format!("the same updates read {html:?} and {again:?}"));
                break;
            }
        }
        let bad = std::mem::take(&mut c.bad);
        cov(|v| {
            v.inc("fragments");
            v.add("updates_replayed", all.len() as u64);
            v.add("nodes_compared", c.nodes);
            v.add("attrs_compared", c.attrs);
            v.add("styles_resolved", c.styles);
            v.add("handlers_compared", host.cbs.len() as u64);
            v.h(html.len() as u64 ^ (c.nodes << 24) ^ ((all.len() as u64) << 40));
            let h = v.hash;
            v.distinct.insert(h);
        });
        let stop = !bad.is_empty();
        for (sig, m) in bad {
            viol("C33", sig, format!("step {step}: {m}"));
        }
        if stop {
            break;
        }
    }
    drop(root);
    let tail = log_take();
    all.extend(tail.iter().cloned());
    host.batch(tail);
    if cov(|c| c.viols.is_empty()) {
        let f = DomDebugFragment::from_cmds(all.clone());
        let left: Vec<u64> = f.map.keys().map(|i| i.to_u64()).filter(|i| !host.n.contains_key(i)).collect();
        if !left.is_empty() {
            viol("C33", "released", format!("after release the fragment still holds {left:?}"));
        }
        cov(|c| c.inc("released_fragments"));
        // a record that starts late knows nothing of the earlier nodes and must cope
        let cut = r.below(all.len().max(1));
        let late = DomDebugFragment::from_cmds(all[cut..].to_vec());
        for (id, d) in &late.map {
            for c in &d.children {
                if late.map.get(c).map(|c| c.parent_id) != Some(*id) {
                    viol("C33", "late-record", format!("from update {cut} on: {c:?} is listed under {id:?} but is not its child"));
                }
            }
        }
        let _ = late.to_pseudo_html();
        if !log_take().is_empty() {
            viol("C33", "log-taken-twice", "a record was given twice");
        }
    }
    cov(|v| v.nontrivial = changes > 2);
}
