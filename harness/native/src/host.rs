//! A strict simulated host document applying the update commands of the library.
use std::collections::{BTreeMap, HashMap, HashSet};
use vertigo::DriverDomCommand as C;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NK {
    El,
    Tx,
    Co,
}
pub struct N {
    pub kind: NK,
    pub tag: String,
    pub text: String,
    pub attrs: BTreeMap<String, String>,
    pub parent: Option<u64>,
    pub kids: Vec<u64>,
}
#[derive(Default)]
pub struct Host {
    pub n: HashMap<u64, N>,
    pub dead: HashSet<u64>,
    pub css: BTreeMap<String, Vec<String>>,
    pub cbs: BTreeMap<u64, (u64, String)>,
    pub cbs_dead: Vec<(u64, u64, String)>,
    pub errors: Vec<(String, String)>,
    pub applied: u64,
}
impl Host {
    fn err(&mut self, sig: &str, m: String) {
        if self.errors.len() < 20 {
            self.errors.push((sig.into(), m))
        }
    }
    fn create(&mut self, id: u64, kind: NK, tag: String, text: String) {
        if self.n.contains_key(&id) || (self.dead.contains(&id) && id > 3) {
            self.err("stream:create-twice", format!("node {id} created twice"));
        }
        self.n.insert(id, N { kind, tag, text, attrs: BTreeMap::new(), parent: None, kids: vec![] });
    }
    fn detach(&mut self, id: u64) {
        if let Some(p) = self.n.get_mut(&id).and_then(|n| n.parent.take()) {
            if let Some(p) = self.n.get_mut(&p) {
                p.kids.retain(|k| *k != id)
            }
        }
    }
    fn remove(&mut self, id: u64, kind: NK) {
        match self.n.get(&id) {
            None => return self.err("stream:remove-unknown", format!("removal of unknown node {id} ({kind:?})")),
            Some(n) if n.kind != kind => {
                let k = n.kind;
                self.err("stream:remove-kind", format!("node {id} is a {k:?}, removed as {kind:?}"))
            }
            _ => {}
        }
        self.detach(id);
        let n = self.n.remove(&id).unwrap();
        for k in n.kids {
            if let Some(k) = self.n.get_mut(&k) {
                k.parent = None
            }
        }
        if self.cbs.values().any(|c| c.0 == id) {
            self.err("stream:handler-outlives-node", format!("node {id} removed while its handler is registered"));
        }
        self.dead.insert(id);
    }
    fn apply(&mut self, c: &C) {
        self.applied += 1;
        match c {
            C::CreateNode { id, name } => self.create(id.to_u64(), NK::El, name.as_str().to_string(), String::new()),
            C::CreateText { id, value } => self.create(id.to_u64(), NK::Tx, String::new(), value.clone()),
            C::CreateComment { id, value } => self.create(id.to_u64(), NK::Co, String::new(), value.clone()),
            C::UpdateText { id, value } => match self.n.get_mut(&id.to_u64()) {
                Some(n) if n.kind == NK::Tx => n.text = value.clone(),
                _ => self.err("stream:update-unknown", format!("text update of {id:?}, which is no live text")),
            },
            C::SetAttr { id, name, value } => match self.n.get_mut(&id.to_u64()) {
                Some(n) if n.kind == NK::El => {
                    n.attrs.insert(name.as_str().to_string(), value.clone());
                }
                _ => self.err("stream:attr-unknown", format!("attribute of {id:?}, which is no live element")),
            },
            C::RemoveAttr { id, name } => match self.n.get_mut(&id.to_u64()) {
                Some(n) if n.kind == NK::El => {
                    n.attrs.remove(name.as_str());
                }
                _ => self.err("stream:attr-unknown", format!("attribute removal of {id:?}, which is no live element")),
            },
            C::RemoveNode { id } => self.remove(id.to_u64(), NK::El),
            C::RemoveText { id } => self.remove(id.to_u64(), NK::Tx),
            C::RemoveComment { id } => self.remove(id.to_u64(), NK::Co),
            C::InsertBefore { parent, child, ref_id } => {
                let (p, c, r) = (parent.to_u64(), child.to_u64(), ref_id.map(|r| r.to_u64()));
                if self.n.get(&p).map(|n| n.kind) != Some(NK::El) {
                    return self.err("stream:insert-parent", format!("insertion under {p}, which is no live element"));
                }
                if !self.n.contains_key(&c) {
                    return self.err("stream:insert-child", format!("insertion of unknown node {c}"));
                }
                let mut a = Some(p);
                while let Some(x) = a {
                    if x == c {
                        return self.err("stream:insert-cycle", format!("node {c} inserted below itself"));
                    }
                    a = self.n.get(&x).and_then(|n| n.parent);
                }
                if let Some(r) = r {
                    if self.n.get(&r).map(|n| n.parent) != Some(Some(p)) {
                        self.err("stream:insert-ref", format!("node {c} inserted under {p} before {r}, which is not a child of {p}"));
                    }
                    if r == c {
                        return self.err("stream:insert-ref", format!("node {c} inserted before itself"));
                    }
                }
                self.detach(c);
                let pos = r.and_then(|r| self.n[&p].kids.iter().position(|k| *k == r)).unwrap_or(self.n[&p].kids.len());
                self.n.get_mut(&p).unwrap().kids.insert(pos, c);
                self.n.get_mut(&c).unwrap().parent = Some(p);
            }
            C::InsertCss { selector, value } => self.css.entry(selector.clone()).or_default().push(value.clone()),
            C::CallbackAdd { id, event_name, callback_id } => {
                let (i, c) = (id.to_u64(), callback_id.as_u64());
                if !self.n.contains_key(&i) {
                    self.err("stream:callback-node", format!("handler for unknown node {i}"));
                }
                if self.cbs.insert(c, (i, event_name.clone())).is_some() || self.cbs_dead.iter().any(|d| d.0 == c) {
                    self.err("stream:callback-twice", format!("handler id {c} registered twice"));
                }
            }
            C::CallbackRemove { id, event_name, callback_id } => {
                let (i, c) = (id.to_u64(), callback_id.as_u64());
                match self.cbs.remove(&c) {
                    Some((n, e)) if n == i && e == *event_name => self.cbs_dead.push((c, n, e)),
                    x => self.err("stream:callback-remove", format!("removal of handler {c} ({i},{event_name}), registered as {x:?}")),
                }
                if !self.n.contains_key(&i) {
                    self.err("stream:callback-after-node", format!("handler {c} removed after its node {i}"));
                }
            }
        }
    }
    /// one flushed batch: removals go last
    pub fn batch(&mut self, list: Vec<C>) -> usize {
        let n = list.len();
        let (ev, dom): (Vec<_>, Vec<_>) = list.into_iter().partition(|c| matches!(c, C::RemoveNode { .. } | C::RemoveText { .. } | C::RemoveComment { .. }));
        for c in dom.iter().chain(ev.iter()) {
            self.apply(c)
        }
        n
    }
}

