//! Reference-model monitor for the reactive core (C01..C05).
//! Every defining function, callback, hook and connection reports to the world `W`,
//! which holds a plain executable model (current source values + expression trees).
use crate::rng::Rng;
use crate::run::{cov, trace, viol, Opts};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vertigo::{get_driver, transaction, AutoMap, Computed, Context, DropResource, Reactive, ToComputed, Value};

#[derive(Clone, Debug)]
pub enum E {
    S(usize),
    C(usize),
    K(i64),
    Add(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Max(Box<E>, Box<E>),
    Md(Box<E>, i64),
    If(Box<E>, Box<E>, Box<E>),
}

#[derive(Clone)]
enum SrcH {
    V(Value<i64>),
    C(Computed<i64>),
}
impl SrcH {
    fn get(&self, ctx: &Context) -> i64 {
        match self {
            SrcH::V(v) => v.get(ctx),
            SrcH::C(c) => c.get(ctx),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Dedupe,
    All,
}

#[derive(Clone, Debug)]
enum Act {
    Inner { comp: usize, kind: Kind },
    DropSub { slot: usize, on_call: u32 },
}

struct Sub {
    comp: usize,
    kind: Kind,
    parent: Option<usize>,
    alive: bool,
    creating: bool,
    born_refresh: bool,
    pre: bool,
    last: Option<i64>,
    last_before: Option<i64>,
    deps: BTreeSet<usize>,
    dirty: bool,
    calls: u32,
    total: u32,
    handle: Option<DropResource>,
    inter: Option<BTreeSet<(usize, usize)>>,
    ext_drop: bool,
}

#[derive(Default, Clone)]
struct EvalRec {
    evaluated: bool,
    srcs: BTreeSet<usize>,
    dirty: bool,
    maybe_lost: bool,
}

enum Ev {
    Eval { j: usize, legit: bool },
    Call,
    Hook,
}

struct Conn {
    is_conn: bool,
    connected: bool,
    linger: bool,
    events: u32,
    inner: Option<Value<i64>>,
    /// a second handle over the same source, made by the connecting function
    alias: Option<Computed<i64>>,
}

struct Hook {
    alive: bool,
    fired: u32,
    handle: Option<DropResource>,
}

pub struct W {
    vals: RefCell<Vec<i64>>,
    exprs: RefCell<Vec<E>>,
    subs: RefCell<Vec<Sub>>,
    evs: RefCell<Vec<Ev>>,
    evals: RefCell<Vec<EvalRec>>,
    conns: RefCell<Vec<Conn>>,
    hooks: RefCell<Vec<Hook>>,
    allowed: RefCell<BTreeSet<usize>>,
    comps: RefCell<Vec<Option<Computed<i64>>>>,
    srcs: RefCell<Vec<Option<SrcH>>>,
    aliases: Cell<bool>,
    turn: Cell<u32>,
    body: Cell<bool>,
    in_op: Cell<bool>,
    toks: Cell<i64>,
    dom: i64,
}

struct Tok(Rc<W>);
impl Tok {
    fn new(w: &Rc<W>) -> Tok {
        w.toks.set(w.toks.get() + 1);
        Tok(w.clone())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.toks.set(self.0.toks.get() - 1);
    }
}
struct InnerGuard(Rc<W>, usize);
impl Drop for InnerGuard {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.subs.try_borrow_mut() {
            s[self.1].alive = false;
        }
    }
}

#[derive(Default)]
struct Tr {
    s: BTreeSet<usize>,
    c: BTreeSet<usize>,
    /// direct reads (reader, read); sources are numbered from SRC
    e: BTreeSet<(usize, usize)>,
    cur: usize,
}
const SRC: usize = 1 << 20;
const ROOT: usize = 1 << 30;
fn reach(e: &BTreeSet<(usize, usize)>, c: &mut BTreeSet<usize>, s: &mut BTreeSet<usize>) {
    let mut todo = vec![ROOT];
    while let Some(x) = todo.pop() {
        for (_, y) in e.range((x, 0)..(x + 1, 0)) {
            let new = if *y >= SRC { s.insert(*y - SRC) } else { c.insert(*y) };
            if new && *y < SRC {
                todo.push(*y);
            }
        }
    }
}

impl W {
    fn ev(&self, e: &E, t: &mut Tr, memo: &mut BTreeMap<usize, i64>) -> i64 {
        match e {
            E::S(i) => {
                t.s.insert(*i);
                t.e.insert((t.cur, SRC + *i));
                self.vals.borrow()[*i]
            }
            E::C(j) => {
                t.c.insert(*j);
                t.e.insert((t.cur, *j));
                if let Some(v) = memo.get(j) {
                    return *v;
                }
                let ex = self.exprs.borrow()[*j].clone();
                let prev = std::mem::replace(&mut t.cur, *j);
                let v = self.ev(&ex, t, memo);
                t.cur = prev;
                memo.insert(*j, v);
                v
            }
            E::K(k) => *k,
            E::Add(a, b) => self.ev(a, t, memo).wrapping_add(self.ev(b, t, memo)) % 1000,
            E::Mul(a, b) => self.ev(a, t, memo).wrapping_mul(self.ev(b, t, memo)) % 1000,
            E::Max(a, b) => {
                let x = self.ev(a, t, memo);
                x.max(self.ev(b, t, memo))
            }
            E::Md(a, k) => self.ev(a, t, memo).rem_euclid(*k),
            E::If(c, a, b) => {
                if self.ev(c, t, memo) & 1 == 1 {
                    self.ev(a, t, memo)
                } else {
                    self.ev(b, t, memo)
                }
            }
        }
    }
    fn model(&self, j: usize) -> (i64, Tr) {
        let mut t = Tr { cur: ROOT, ..Tr::default() };
        let v = self.ev(&E::C(j), &mut t, &mut BTreeMap::new());
        (v, t)
    }
    fn snap(&self) {
        let n = self.subs.borrow().len();
        for i in 0..n {
            let (alive, comp) = {
                let s = self.subs.borrow();
                (s[i].alive, s[i].comp)
            };
            if !alive {
                continue;
            }
            let (_, t) = self.model(comp);
            self.allowed.borrow_mut().extend(t.c.iter().copied());
            let mut s = self.subs.borrow_mut();
            let s = &mut s[i];
            s.inter = Some(match s.inter.take() {
                None => t.e,
                Some(x) => x.intersection(&t.e).copied().collect(),
            });
        }
    }
    /// model side of a reported write
    fn m_report(&self, i: usize) {
        for s in self.subs.borrow_mut().iter_mut() {
            if s.alive && !s.creating && s.deps.contains(&i) {
                s.dirty = true;
            }
        }
        for e in self.evals.borrow_mut().iter_mut() {
            if e.srcs.contains(&i) {
                e.dirty = true;
            }
        }
    }
    fn begin(&self) {
        self.evs.borrow_mut().clear();
        self.allowed.borrow_mut().clear();
        for s in self.subs.borrow_mut().iter_mut() {
            s.pre = s.alive;
            s.calls = 0;
            s.dirty = false;
            s.ext_drop = false;
            s.last_before = s.last;
            s.inter = None;
            s.born_refresh = false;
        }
        for c in self.conns.borrow_mut().iter_mut() {
            c.events = 0;
        }
        for h in self.hooks.borrow_mut().iter_mut() {
            h.fired = 0;
        }
        self.snap();
        self.in_op.set(true);
    }
    /// A handle of a source: the one it was made with, or another one over the same source.
    fn handle(&self, i: usize) -> SrcH {
        self.turn.set(self.turn.get() + 1);
        if self.turn.get() % 2 == 0 {
            if let Some(a) = &self.conns.borrow()[i].alias {
                cov(|c| c.inc("second_handles"));
                return SrcH::C(a.clone());
            }
        }
        self.srcs.borrow()[i].clone().expect("src alive")
    }
    fn finish(&self, what: &str, txns: u32) {
        self.in_op.set(false);
        self.snap();
        let n = self.subs.borrow().len();
        let mut safe_c: BTreeSet<usize> = BTreeSet::new();
        let mut safe_s: BTreeSet<usize> = BTreeSet::new();
        for i in 0..n {
            let comp = self.subs.borrow()[i].comp;
            let (v, t) = self.model(comp);
            let parent_ran = {
                let s = self.subs.borrow();
                let mut p = s[i].parent;
                let mut ran = false;
                while let Some(x) = p {
                    ran |= s[x].calls > 0;
                    p = s[x].parent;
                }
                ran
            };
            // the result of the owner's last call holds its subscriptions, those of earlier calls are gone
            let owner_ran = {
                let s = self.subs.borrow();
                s[i].parent.is_some_and(|p| s[p].calls > 0 && s[p].alive)
            };
            let mut sb = self.subs.borrow_mut();
            let s = &mut sb[i];
            if s.parent.is_some() && owner_ran {
                cov(|c| c.inc("owners_ran_anew"));
                if s.pre && s.alive {
                    viol("C02", "inner-kept", format!("{what}: the owner of inner subscription {i} ran anew and the one of its earlier call was not released"));
                    viol("C04", "inner-kept", format!("{what}: the owner of inner subscription {i} ran anew and the result of its earlier call was not released"));
                }
            }
            let exp = match s.kind {
                Kind::Dedupe => (s.last_before != Some(v)) as u32,
                Kind::All => s.dirty as u32,
            };
            if s.alive {
                if s.born_refresh {
                    if s.calls != 0 {
                        viol("C02", "inner-extra", format!("{what}: subscription {i} created during refresh was called {} more times in the same transaction", s.calls));
                    }
                } else if s.calls < exp {
                    viol("C02", "missed-delivery", format!("{what}: subscriber {i} ({:?} of c{comp}) called {} times, expected {exp}; last delivered {:?}, current {v}", s.kind, s.calls, s.last));
                } else if s.calls > exp {
                    viol("C02", "extra-delivery", format!("{what}: subscriber {i} ({:?} of c{comp}) called {} times, expected {exp}; last before {:?}, current {v}", s.kind, s.calls, s.last_before));
                }
                if s.last != Some(v) {
                    viol("C01", "stale-subscriber", format!("{what}: last value delivered to subscriber {i} of c{comp} is {:?}, current value {v}", s.last));
                    s.last = Some(v);
                }
                cov(|c| {
                    c.inc("subscriber_checks");
                    if exp == 1 { c.inc("deliveries_checked") }
                });
                if s.pre {
                    if let Some(e) = &s.inter {
                        reach(e, &mut safe_c, &mut safe_s);
                    }
                }
                s.deps = t.s;
            } else {
                if s.calls > exp {
                    viol("C02", "extra-delivery-dead", format!("{what}: subscriber {i}, dropped in this operation, was called {} times, expected at most {exp}", s.calls));
                }
                if s.pre && parent_ran && !s.ext_drop && s.calls > 0 {
                    viol("C02", "inner-not-released", format!("{what}: inner subscription {i} ran although its owner ran anew in the same transaction"));
                }
            }
        }
        // evaluations
        let allowed = self.allowed.borrow().clone();
        let mut hook_seen = false;
        for e in self.evs.borrow().iter() {
            match e {
                Ev::Eval { j, legit } => {
                    cov(|c| c.inc("evaluations_checked"));
                    if !legit && safe_c.contains(j) {
                        viol("C03", "redundant-eval", format!("{what}: c{j} was evaluated again although it stayed observed and none of the sources it read was written"));
                    }
                    if !allowed.contains(j) {
                        viol("C03", "unobserved-eval", format!("{what}: c{j} was evaluated although nobody observes or reads it"));
                    }
                }
                Ev::Call => {
                    if hook_seen && txns == 1 {
                        viol("C05", "call-after-hook", format!("{what}: a subscriber ran after an after-transaction hook had fired"));
                    }
                }
                Ev::Hook => hook_seen = true,
            }
        }
        {
            let mut ev = self.evals.borrow_mut();
            for (j, e) in ev.iter_mut().enumerate() {
                if !safe_c.contains(&j) {
                    e.maybe_lost = true;
                }
            }
        }
        // hooks
        for (i, h) in self.hooks.borrow().iter().enumerate() {
            let exp = if h.alive { txns } else { 0 };
            if h.alive && h.fired != exp {
                viol("C05", "hook-count", format!("{what}: after-transaction hook {i} fired {} times, expected {exp}", h.fired));
            }
            if !h.alive && h.fired != 0 {
                viol("C05", "removed-hook", format!("{what}: removed after-transaction hook {i} fired"));
            }
            cov(|c| c.add("hook_firings", h.fired as u64));
        }
        // connections
        let obs = {
            let mut o: BTreeSet<usize> = BTreeSet::new();
            for s in self.subs.borrow().iter() {
                if s.alive {
                    o.extend(s.deps.iter().copied());
                }
            }
            o
        };
        for (i, c) in self.conns.borrow().iter().enumerate() {
            if !c.is_conn {
                continue;
            }
            cov(|k| k.inc("connection_checks"));
            if obs.contains(&i) && !c.connected {
                viol("C04", "not-connected", format!("{what}: source s{i} is observed but not connected"));
            }
            if !obs.contains(&i) && c.connected && !c.linger {
                viol("C04", "still-connected", format!("{what}: source s{i} has no observer but is still connected"));
            }
            if safe_s.contains(&i) && c.events > 0 {
                viol("C04", "flapping", format!("{what}: source s{i} stayed observed but its connection changed {} times", c.events));
            }
        }
        let mut h = 0u64;
        for v in self.vals.borrow().iter() {
            h = crate::rng::mix(h ^ *v as u64);
        }
        for s in self.subs.borrow().iter() {
            h = crate::rng::mix(h ^ ((s.alive as u64) << 1 | s.dirty as u64) ^ (s.comp as u64) << 8);
        }
        cov(|c| {
            c.distinct.insert(h);
            c.h(h);
            c.inc("operations");
        });
    }
}

fn refs(e: &E, s: &mut BTreeSet<usize>, c: &mut BTreeSet<usize>) {
    match e {
        E::S(i) => {
            s.insert(*i);
        }
        E::C(j) => {
            c.insert(*j);
        }
        E::K(_) => {}
        E::Add(a, b) | E::Mul(a, b) | E::Max(a, b) => {
            refs(a, s, c);
            refs(b, s, c)
        }
        E::Md(a, _) => refs(a, s, c),
        E::If(x, a, b) => {
            refs(x, s, c);
            refs(a, s, c);
            refs(b, s, c)
        }
    }
}

struct Caps {
    s: BTreeMap<usize, SrcH>,
    c: BTreeMap<usize, Computed<i64>>,
}
fn real(e: &E, k: &Caps, ctx: &Context) -> i64 {
    match e {
        E::S(i) => k.s[i].get(ctx),
        E::C(j) => k.c[j].get(ctx),
        E::K(v) => *v,
        E::Add(a, b) => real(a, k, ctx).wrapping_add(real(b, k, ctx)) % 1000,
        E::Mul(a, b) => real(a, k, ctx).wrapping_mul(real(b, k, ctx)) % 1000,
        E::Max(a, b) => {
            let x = real(a, k, ctx);
            x.max(real(b, k, ctx))
        }
        E::Md(a, m) => real(a, k, ctx).rem_euclid(*m),
        E::If(c, a, b) => {
            if real(c, k, ctx) & 1 == 1 {
                real(a, k, ctx)
            } else {
                real(b, k, ctx)
            }
        }
    }
}

fn on_eval(w: &W, j: usize, v: i64) {
    let (m, t) = w.model(j);
    let legit = {
        let mut ev = w.evals.borrow_mut();
        let e = &mut ev[j];
        let legit = !e.evaluated || e.dirty || e.maybe_lost;
        *e = EvalRec { evaluated: true, srcs: t.s, dirty: false, maybe_lost: false };
        legit
    };
    if m != v {
        viol("C01", "mixed-eval", format!("c{j} evaluated to {v} although the current sources give {m}"));
    }
    w.evs.borrow_mut().push(Ev::Eval { j, legit });
    if !w.in_op.get() {
        viol("C03", "eval-outside", format!("c{j} evaluated outside any operation"));
    }
}

fn new_comp(w: &Rc<W>, e: E, how: u64) -> usize {
    let j = w.exprs.borrow().len();
    let (mut s, mut c) = (BTreeSet::new(), BTreeSet::new());
    refs(&e, &mut s, &mut c);
    w.exprs.borrow_mut().push(e.clone());
    w.evals.borrow_mut().push(EvalRec::default());
    let caps = Caps {
        s: s.iter().map(|i| (*i, w.handle(*i))).collect(),
        c: c.iter().map(|i| (*i, w.comps.borrow()[*i].clone().expect("comp alive"))).collect(),
    };
    let tok = Tok::new(w);
    let n0 = w.evs.borrow().len();
    let comp = match (&e, how % 3) {
        // single-parent expressions also go through map()
        (E::Md(inner, k), 0) if matches!(**inner, E::S(_) | E::C(_)) => {
            let (k, w2) = (*k, w.clone());
            let f = move |x: i64| {
                let _t = &tok;
                let v = x.rem_euclid(k);
                on_eval(&w2, j, v);
                v
            };
            match &**inner {
                E::S(i) => match &caps.s[i] {
                    SrcH::V(v) => v.map(f),
                    SrcH::C(c) => c.map(f),
                },
                E::C(i) => caps.c[i].map(f),
                _ => unreachable!(),
            }
        }
        _ => {
            let w2 = w.clone();
            Computed::from(move |ctx| {
                let _t = &tok;
                let v = real(&e, &caps, ctx);
                on_eval(&w2, j, v);
                v
            })
        }
    };
    if w.evs.borrow().len() != n0 {
        viol("C03", "eager-create", format!("creating c{j} ran a defining function"));
    }
    w.comps.borrow_mut().push(Some(comp));
    cov(|c| c.inc("computeds"));
    j
}

fn on_call(w: &Rc<W>, id: usize, v: i64, acts: &[Act]) -> Vec<(InnerGuard, DropResource, Tok)> {
    let (comp, total) = {
        let mut sb = w.subs.borrow_mut();
        let s = &mut sb[id];
        if !s.alive {
            viol("C02", "called-after-drop", format!("subscriber {id} was called with {v} after its handle had been dropped"));
        }
        if w.body.get() && !s.creating {
            viol("C05", "early-call", format!("subscriber {id} was called before the transaction body ended"));
        }
        if s.kind == Kind::Dedupe && s.last == Some(v) {
            viol("C02", "duplicate-value", format!("subscriber {id} was called with the value {v} it already had"));
        }
        s.calls += 1;
        s.total += 1;
        s.last = Some(v);
        (s.comp, s.total)
    };
    let (m, _) = w.model(comp);
    if m != v {
        viol("C01", "stale-delivery", format!("subscriber {id} of c{comp} was given {v}, current sources give {m}"));
    }
    w.evs.borrow_mut().push(Ev::Call);
    if !w.in_op.get() {
        viol("C02", "call-outside", format!("subscriber {id} called outside any operation"));
    }
    let mut out = Vec::new();
    for a in acts {
        match a {
            Act::Inner { comp, kind } => {
                let h = w.comps.borrow()[*comp].clone();
                if let Some(h) = h {
                    let (iid, r) = new_sub(w, *comp, h, *kind, Vec::new(), Some(id));
                    out.push((InnerGuard(w.clone(), iid), r, Tok::new(w)));
                    cov(|c| c.inc("inner_subscriptions"));
                }
            }
            Act::DropSub { slot, on_call } => {
                if total == *on_call {
                    let h = {
                        let mut sb = w.subs.borrow_mut();
                        match sb.get_mut(*slot) {
                            Some(s) if s.handle.is_some() => {
                                s.alive = false;
                                s.ext_drop = true;
                                s.handle.take()
                            }
                            _ => None,
                        }
                    };
                    if h.is_some() {
                        mark_children_ext(w, *slot);
                        trace(format!("  (callback of sub{id} drops sub{slot})"));
                        cov(|c| c.inc("drops_in_callback"));
                    }
                    drop(h);
                }
            }
        }
    }
    out
}
fn mark_children_ext(w: &W, slot: usize) {
    for s in w.subs.borrow_mut().iter_mut() {
        if s.parent == Some(slot) {
            s.ext_drop = true;
        }
    }
}

fn new_sub(w: &Rc<W>, comp: usize, h: Computed<i64>, kind: Kind, acts: Vec<Act>, parent: Option<usize>) -> (usize, DropResource) {
    let id = w.subs.borrow().len();
    // created while subscribers are being refreshed (not in a body, not a top level subscribe)
    let refreshing = parent.is_some() && {
        let s = w.subs.borrow();
        let mut p = parent;
        let mut creating = false;
        while let Some(x) = p {
            creating |= s[x].creating;
            p = s[x].parent;
        }
        !creating
    };
    w.subs.borrow_mut().push(Sub {
        comp, kind, parent, alive: true, creating: true, born_refresh: false, pre: false, last: None, last_before: None,
        deps: BTreeSet::new(), dirty: false, calls: 0, total: 0, handle: None, inter: None, ext_drop: false,
    });
    let tok = Tok::new(w);
    let (_, t) = w.model(comp);
    w.allowed.borrow_mut().extend(t.c);
    let w2 = w.clone();
    let f = move |v: i64| {
        let _t = &tok;
        on_call(&w2, id, v, &acts)
    };
    let r = match kind {
        Kind::Dedupe => h.subscribe(f),
        Kind::All => h.subscribe_all(f),
    };
    let (v, t) = w.model(comp);
    let mut sb = w.subs.borrow_mut();
    let s = &mut sb[id];
    if s.calls != 1 {
        viol("C02", "initial-delivery", format!("subscribing to c{comp} called the callback {} times", s.calls));
    }
    s.creating = false;
    s.calls = 0;
    s.last = Some(v);
    s.last_before = Some(v);
    s.deps = t.s;
    s.born_refresh = refreshing;
    cov(|c| c.inc("subscriptions"));
    (id, r)
}

struct G {
    r: Rng,
    w: Rc<W>,
    dynamic: bool,
    drops: bool,
    drop_in_cb: bool,
    nsrc: usize,
    conn_pct: u64,
    reads: bool,
    max_comps: usize,
    /// a case of another order of size
    big: bool,
    /// a case of computed values that read many sources at once, and not always the same ones
    wide: bool,
}

impl G {
    fn live_comps(&self) -> Vec<usize> {
        self.w.comps.borrow().iter().enumerate().filter(|(_, c)| c.is_some()).map(|(i, _)| i).collect()
    }
    fn leaf(&mut self) -> E {
        let lc = self.live_comps();
        if !lc.is_empty() && self.r.chance(60) {
            let k = if self.r.chance(if self.big { 85 } else { 60 }) { lc.len().saturating_sub(1 + self.r.below(3.min(lc.len()))) } else { self.r.below(lc.len()) };
            E::C(lc[k])
        } else if self.r.chance(95) {
            E::S(self.r.below(self.nsrc))
        } else {
            E::K(self.r.range(0, 3))
        }
    }
    fn expr(&mut self) -> E {
        let b = Box::new;
        if self.wide && self.r.chance(60) {
            let n = 2 + self.r.below(5);
            let mut sum = |g: &mut G| (1..n).fold(g.leaf(), |e, _| E::Add(b(e), b(g.leaf())));
            let (x, y) = (sum(self), sum(self));
            return if self.dynamic { E::If(b(self.leaf()), b(x), b(y)) } else { E::Md(b(E::Add(b(x), b(y))), 3) };
        }
        match self.r.below(10) {
            0 => self.leaf(),
            1 | 2 => E::Md(b(self.leaf()), self.r.range(1, 3)),
            3 | 4 => E::Add(b(self.leaf()), b(self.leaf())),
            5 => E::Mul(b(self.leaf()), b(self.leaf())),
            6 => E::Max(b(self.leaf()), b(E::Md(b(self.leaf()), 2))),
            7 => E::Md(b(E::Add(b(self.leaf()), b(self.leaf()))), 3),
            _ => {
                if self.dynamic {
                    let (c, x, y) = (self.leaf(), self.leaf(), self.leaf());
                    if self.r.chance(30) {
                        let (x2, y2) = (self.leaf(), self.leaf());
                        E::If(b(c), b(x), b(E::Add(b(x2), b(y2))))
                    } else {
                        E::If(b(c), b(x), b(y))
                    }
                } else {
                    E::Add(b(self.leaf()), b(self.leaf()))
                }
            }
        }
    }
    fn mk_comp(&mut self) {
        let e = self.expr();
        let how = self.r.next();
        let t = format!("c{} := {:?}", self.w.exprs.borrow().len(), e);
        trace(t);
        new_comp(&self.w, e, how);
    }
    /// a computed value of many computed values that each have a source of their own
    fn mk_fan(&mut self) {
        let n = 13 + self.r.below(14);
        let mut e = E::K(0);
        for i in 0..n {
            let s = E::S(if i < self.nsrc { i } else { self.r.below(self.nsrc) });
            let x = if self.r.chance(50) { E::Md(Box::new(s), self.r.range(1, 3)) } else { E::Add(Box::new(s), Box::new(E::K(self.r.range(0, 3)))) };
            let how = self.r.next();
            let id = self.w.exprs.borrow().len();
            trace(format!("c{id} := {x:?}"));
            new_comp(&self.w, x, how);
            e = E::Add(Box::new(e), Box::new(E::C(id)));
        }
        let how = self.r.next();
        trace(format!("c{} := {e:?}", self.w.exprs.borrow().len()));
        new_comp(&self.w, e, how);
        cov(|c| c.inc("fans"));
    }
    fn mk_sub(&mut self) {
        let lc = self.live_comps();
        if lc.is_empty() {
            return;
        }
        if self.w.subs.borrow().iter().filter(|s| s.alive).count() > if self.big { 60 } else { 25 } {
            return self.drop_sub();
        }
        let comp = if self.r.chance(50) { *lc.last().unwrap() } else { *self.r.pick(&lc) };
        let kind = if self.r.chance(70) { Kind::Dedupe } else { Kind::All };
        let mut acts = Vec::new();
        if self.r.chance(25) {
            acts.push(Act::Inner { comp: *self.r.pick(&lc), kind: if self.r.chance(70) { Kind::Dedupe } else { Kind::All } });
            if self.r.chance(20) {
                acts.push(Act::Inner { comp: *self.r.pick(&lc), kind: Kind::Dedupe });
            }
        }
        if self.drop_in_cb && self.r.chance(25) {
            let n = self.w.subs.borrow().len() + 2;
            acts.push(Act::DropSub { slot: self.r.below(n), on_call: 1 + self.r.below(4) as u32 });
        }
        trace(format!("sub{} = c{comp}.{kind:?} acts={acts:?}", self.w.subs.borrow().len()));
        let h = self.w.comps.borrow()[comp].clone().unwrap();
        let (id, r) = new_sub(&self.w, comp, h, kind, acts, None);
        self.w.subs.borrow_mut()[id].handle = Some(r);
    }
    fn drop_sub(&mut self) {
        let l: Vec<usize> = self.w.subs.borrow().iter().enumerate().filter(|(_, s)| s.handle.is_some()).map(|(i, _)| i).collect();
        if l.is_empty() {
            return;
        }
        let i = *self.r.pick(&l);
        trace(format!("drop sub{i}"));
        let h = {
            let mut sb = self.w.subs.borrow_mut();
            sb[i].alive = false;
            sb[i].ext_drop = true;
            sb[i].handle.take()
        };
        mark_children_ext(&self.w, i);
        cov(|c| c.inc("drops"));
        drop(h);
    }
    fn drop_comp(&mut self) {
        let l = self.live_comps();
        if l.len() < 2 {
            return;
        }
        let i = *self.r.pick(&l);
        trace(format!("drop handle c{i}"));
        let c = self.w.comps.borrow_mut()[i].take();
        drop(c);
    }
    fn write(&mut self) {
        let i = self.r.below(self.nsrc);
        let v = self.r.range(0, self.w.dom - 1);
        let h = self.w.srcs.borrow()[i].clone();
        let val = match h {
            Some(SrcH::V(v)) => Some(v),
            _ => self.w.conns.borrow()[i].inner.clone(),
        };
        let Some(val) = val else { return };
        let old = self.w.vals.borrow()[i];
        match self.r.below(4) {
            0 | 1 => {
                trace(format!("s{i}.set({v})"));
                self.w.vals.borrow_mut()[i] = v;
                self.w.m_report(i);
                self.w.snap();
                // also as a generic component would
                if self.r.chance(30) { Reactive::set(&val, v) } else { val.set(v) }
            }
            2 => {
                trace(format!("s{i}.set_value_and_compare({v})"));
                self.w.vals.borrow_mut()[i] = v;
                if v != old {
                    self.w.m_report(i);
                }
                self.w.snap();
                val.set_value_and_compare(v);
            }
            _ => {
                trace(format!("s{i}.change(+1)"));
                let n = (old + 1) % self.w.dom;
                let w = self.w.clone();
                let dom = self.w.dom;
                let generic = self.r.chance(30);
                let f = |x: &mut i64| {
                    if *x != old {
                        viol("C01", "change-arg", format!("change() of s{i} was given {x}, current value {old}"));
                    }
                    *x = (*x + 1) % dom;
                    w.vals.borrow_mut()[i] = n;
                    w.m_report(i);
                    w.snap();
                };
                if generic { Reactive::change(&val, f) } else { val.change(f) }
            }
        }
        cov(|c| c.inc("writes"));
    }
    fn read(&mut self, ctx: &Context) {
        if self.r.chance(30) {
            let i = self.r.below(self.nsrc);
            if self.w.conns.borrow()[i].is_conn && !self.w.conns.borrow()[i].connected && !self.r.chance(20) {
                return;
            }
            let h = self.w.srcs.borrow()[i].clone();
            let Some(h) = h else { return };
            if self.w.conns.borrow()[i].is_conn {
                self.w.conns.borrow_mut()[i].linger = true;
            }
            let v = h.get(ctx);
            let m = self.w.vals.borrow()[i];
            if v != m {
                viol("C01", "stale-read", format!("reading s{i} gave {v}, current value {m}"));
            }
            cov(|c| c.inc("reads"));
            return;
        }
        let lc = self.live_comps();
        if lc.is_empty() {
            return;
        }
        let j = *self.r.pick(&lc);
        let h = self.w.comps.borrow()[j].clone().unwrap();
        let (m, t) = self.w.model(j);
        self.w.allowed.borrow_mut().extend(t.c);
        // a plain read leaves a cached computed behind which may keep its sources connected
        let mut todo = vec![j];
        let mut seen = BTreeSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let (mut ss, mut cc) = (BTreeSet::new(), BTreeSet::new());
            refs(&self.w.exprs.borrow()[x], &mut ss, &mut cc);
            todo.extend(cc);
            for i in ss {
                self.w.conns.borrow_mut()[i].linger = true;
            }
        }
        let v = h.get(ctx);
        trace(format!("read c{j} -> {v}"));
        if v != m {
            viol("C01", "stale-read", format!("reading c{j} gave {v}, current sources give {m}"));
        }
        cov(|c| c.inc("reads"));
    }
    fn body(&mut self, ctx: &Context, depth: u32) {
        let n = 1 + self.r.below(if self.big && depth == 0 { 60 } else { 4 });
        if self.big && depth > 0 && depth < 24 && self.r.chance(80) {
            self.txn(depth + 1)
        }
        for _ in 0..n {
            match self.r.below(20) {
                0..=9 => self.write(),
                10..=13 => {
                    if self.reads {
                        self.read(ctx)
                    }
                }
                14 | 15 => {
                    if depth < if self.big { 24 } else { 3 } {
                        self.txn(depth + 1)
                    }
                }
                16 => self.mk_sub(),
                17 => {
                    if self.drops {
                        self.drop_sub()
                    }
                }
                18 => {
                    if self.w.exprs.borrow().len() < self.max_comps {
                        self.mk_comp()
                    }
                }
                _ => self.mk_hook(),
            }
        }
    }
    fn mk_hook(&mut self) {
        let i = self.w.hooks.borrow().len();
        if i > if self.big { 60 } else { 5 } {
            return;
        }
        let w = self.w.clone();
        let tok = Tok::new(&self.w);
        let h = get_driver().on_after_transaction(move || {
            let _t = &tok;
            if w.body.get() {
                viol("C05", "early-hook", format!("hook {i} fired before the transaction body ended"));
            }
            w.hooks.borrow_mut()[i].fired += 1;
            w.evs.borrow_mut().push(Ev::Hook);
        });
        trace(format!("hook{i}"));
        self.w.hooks.borrow_mut().push(Hook { alive: true, fired: 0, handle: Some(h) });
    }
    fn drop_hook(&mut self) {
        let l: Vec<usize> = self.w.hooks.borrow().iter().enumerate().filter(|(_, h)| h.handle.is_some()).map(|(i, _)| i).collect();
        if l.is_empty() {
            return;
        }
        let i = *self.r.pick(&l);
        let h = {
            let mut hs = self.w.hooks.borrow_mut();
            hs[i].alive = false;
            hs[i].handle.take()
        };
        trace(format!("drop hook{i}"));
        drop(h);
    }
    fn txn(&mut self, depth: u32) {
        trace(format!("{}txn {{", " ".repeat(depth as usize)));
        let expect = self.r.next();
        let how = self.r.below(3);
        let outer_body = self.w.body.get();
        let w = self.w.clone();
        let f = |ctx: &Context| {
            w.body.set(true);
            self.body(ctx, depth);
            w.body.set(outer_body);
            expect
        };
        let got = match how {
            0 => transaction(f),
            1 => get_driver().transaction(f),
            _ => {
                let v = Value::new(0i64);
                v.deps().transaction(f)
            }
        };
        if got != expect {
            viol("C05", "result", "transaction did not return its body's result".to_string());
        }
        trace(format!("{}}}", " ".repeat(depth as usize)));
        cov(|c| {
            c.inc(if depth == 0 { "transactions" } else { "nested_transactions" });
        });
    }
}

fn automap(r: &mut Rng) {
    let counts: Rc<RefCell<BTreeMap<i64, u32>>> = Rc::default();
    let c2 = counts.clone();
    let m: AutoMap<i64, Rc<i64>> = AutoMap::new(move |me: &AutoMap<i64, Rc<i64>>, k: &i64| {
        *c2.borrow_mut().entry(*k).or_default() += 1;
        if *k > 1 {
            let a: Rc<i64> = me.get(&(k / 2));
            Rc::new(*a + k)
        } else {
            Rc::new(*k)
        }
    });
    let other = m.clone();
    let mut seen: BTreeMap<i64, Rc<i64>> = BTreeMap::new();
    for _ in 0..30 {
        let k = r.range(0, 20);
        let v = if r.chance(50) { m.get(&k) } else { other.get(&k) };
        let mut e = k;
        let mut x = k;
        while x > 1 {
            x /= 2;
            e += x;
        }
        if *v != e {
            viol("C03", "automap-value", format!("auto map gave {v} for {k}, expected {e}"));
        }
        if let Some(p) = seen.get(&k) {
            if !Rc::ptr_eq(p, &v) {
                viol("C03", "automap-identity", format!("auto map returned a different value for key {k} the second time"));
            }
        }
        seen.insert(k, v);
        cov(|c| c.inc("automap_gets"));
    }
    for (k, n) in counts.borrow().iter() {
        if *n != 1 {
            viol("C03", "automap-create", format!("auto map created key {k} {n} times"));
        }
    }
}

pub fn case(o: &Opts, case: u64) {
    let mut r = Rng::new(o.seed, case.wrapping_mul(31).wrapping_add(7));
    let profile = if o.profile.is_empty() { ["gen", "static", "conn", "batch"][(case % 4) as usize] } else { o.profile.as_str() };
    // a few cases are wide and deep, a few have long histories
    let scale = r.below(100);
    let big = scale < 1;
    let long = scale == 1;
    let wide = (2..14).contains(&scale);
    let nsrc = if wide { 5 + r.below(8) } else { 1 + r.below(if big { 40 } else { 4 }) };
    let w = Rc::new(W {
        vals: RefCell::default(), exprs: RefCell::default(), subs: RefCell::default(), evs: RefCell::default(), evals: RefCell::default(),
        conns: RefCell::default(), hooks: RefCell::default(), allowed: RefCell::default(), comps: RefCell::default(), srcs: RefCell::default(), aliases: Cell::new(false), turn: Cell::new(0),
        body: Cell::new(false), in_op: Cell::new(true), toks: Cell::new(0), dom: 2 + r.below(4) as i64,
    });
    w.aliases.set(r.chance(50));
    let mut g = G { dynamic: true, drops: true, drop_in_cb: true, nsrc, conn_pct: 25, reads: true, max_comps: if big { 90 } else { 9 }, big, wide, w: w.clone(), r };
    match profile {
        "static" => {
            g.dynamic = false;
            g.drop_in_cb = false;
            g.drops = g.r.chance(30);
            g.conn_pct = 0;
        }
        "conn" => {
            g.conn_pct = 80;
            g.reads = g.r.chance(15);
        }
        "batch" => g.conn_pct = 10,
        _ => {}
    }
    for i in 0..nsrc {
        let v = g.r.range(0, w.dom - 1);
        w.vals.borrow_mut().push(v);
        let is_conn = g.r.chance(g.conn_pct);
        w.conns.borrow_mut().push(Conn { is_conn, connected: false, linger: false, events: 0, inner: None, alias: None });
        let h = if is_conn {
            let w2 = Rc::downgrade(&w);
            let tok = Tok::new(&w);
            SrcH::C(Value::with_connect(v, move |val: &Value<i64>| {
                let _t = &tok;
                let Some(w) = w2.upgrade() else { return DropResource::new(|| ()) };
                {
                    let mut cs = w.conns.borrow_mut();
                    let c = &mut cs[i];
                    if c.connected {
                        viol("C04", "double-connect", format!("source s{i} was connected while already connected"));
                    }
                    c.connected = true;
                    c.events += 1;
                    c.inner = Some(val.clone());
                }
                if w.conns.borrow()[i].alias.is_none() && w.aliases.get() {
                    let a = val.to_computed();
                    w.conns.borrow_mut()[i].alias = Some(a);
                }
                cov(|c| c.inc("connects"));
                let w3 = Rc::downgrade(&w);
                DropResource::new(move || {
                    let Some(w) = w3.upgrade() else { return };
                    let old = {
                        let mut cs = w.conns.borrow_mut();
                        let c = &mut cs[i];
                        if !c.connected {
                            viol("C04", "double-disconnect", format!("source s{i} was disconnected twice"));
                        }
                        c.connected = false;
                        c.events += 1;
                        c.inner.take()
                    };
                    cov(|c| c.inc("disconnects"));
                    drop(old);
                })
            }))
        } else if g.r.chance(15) {
            // a source reached through its derived handle
            SrcH::V(Value::new(v))
        } else {
            SrcH::V(Value::new(v))
        };
        trace(format!("s{i} = {v}{}", if is_conn { " (connected source)" } else { "" }));
        w.srcs.borrow_mut().push(Some(h));
    }
    for _ in 0..1 + g.r.below(if big { 70 } else { 6 }) {
        g.mk_comp();
    }
    if wide && g.r.chance(25) || big {
        g.mk_fan();
    }
    w.begin();
    for _ in 0..1 + g.r.below(if big { 40 } else { 3 }) {
        g.mk_sub();
    }
    w.finish("initial subscriptions", 0);
    let steps = 8 + g.r.below(if long { 500 } else { 25 });
    if big || long {
        cov(|c| c.inc(if big { "wide_cases" } else { "long_cases" }));
    }
    if wide {
        cov(|c| c.inc("cases_of_many_sources"));
    }
    for step in 0..steps {
        w.begin();
        match g.r.below(20) {
            0..=7 => {
                // a write may be skipped (unconnected source), then no transaction happened
                let before = cov(|c| c.counters.get("writes").copied().unwrap_or(0));
                g.write();
                let after = cov(|c| c.counters.get("writes").copied().unwrap_or(0));
                w.finish(&format!("step {step} write"), (after - before) as u32);
            }
            8..=14 => {
                g.txn(0);
                w.finish(&format!("step {step} transaction"), 1);
            }
            15 | 16 => {
                g.mk_sub();
                w.finish(&format!("step {step} subscribe"), 0);
            }
            17 => {
                if g.drops || g.r.chance(10) {
                    g.drop_sub();
                }
                w.finish(&format!("step {step} drop"), 0);
            }
            18 => {
                if w.exprs.borrow().len() < g.max_comps {
                    g.mk_comp();
                } else if g.drops {
                    g.drop_comp();
                }
                w.finish(&format!("step {step} computed"), 0);
            }
            _ => {
                if g.r.chance(60) {
                    g.mk_hook()
                } else {
                    g.drop_hook()
                }
                w.finish(&format!("step {step} hook"), 0);
            }
        }
    }
    // tear everything down in a random order
    loop {
        let mut opts = Vec::new();
        if w.subs.borrow().iter().any(|s| s.handle.is_some()) {
            opts.push(0);
        }
        if w.comps.borrow().iter().any(|c| c.is_some()) {
            opts.push(1);
        }
        if w.hooks.borrow().iter().any(|h| h.handle.is_some()) {
            opts.push(2);
        }
        if w.srcs.borrow().iter().any(|h| h.is_some()) {
            opts.push(3);
        }
        if opts.is_empty() {
            break;
        }
        match *g.r.pick(&opts) {
            0 => {
                w.begin();
                g.drop_sub();
                w.finish("teardown drop", 0);
                // the survivors must still react
                if g.r.chance(50) && w.srcs.borrow().iter().all(|s| s.is_some()) {
                    w.begin();
                    let b = cov(|c| c.counters.get("writes").copied().unwrap_or(0));
                    g.write();
                    let a = cov(|c| c.counters.get("writes").copied().unwrap_or(0));
                    w.finish("teardown write", (a - b) as u32);
                }
            }
            1 => {
                let l = g.live_comps();
                let i = *g.r.pick(&l);
                let c = w.comps.borrow_mut()[i].take();
                drop(c);
            }
            2 => g.drop_hook(),
            _ => {
                let l: Vec<usize> = w.srcs.borrow().iter().enumerate().filter(|(_, s)| s.is_some()).map(|(i, _)| i).collect();
                let i = *g.r.pick(&l);
                let s = w.srcs.borrow_mut()[i].take();
                drop(s);
                let a = w.conns.borrow_mut()[i].alias.take();
                w.aliases.set(false);
                drop(a);
            }
        }
    }
    for (i, c) in w.conns.borrow().iter().enumerate() {
        if c.connected {
            viol("C04", "connected-at-end", format!("source s{i} is still connected after everything was dropped"));
        }
    }
    if w.toks.get() != 0 {
        viol("C04", "leak", format!("{} captured values were not freed after everything was dropped", w.toks.get()));
    }
    automap(&mut g.r);
    cov(|c| {
        let k = &c.counters;
        c.nontrivial = k.get("deliveries_checked").copied().unwrap_or(0) > 0;
    });
    handles(&mut g.r);
}
/// every way to a handle of a source shows that source
fn handles(r: &mut Rng) {
    let v = if r.chance(50) { Value::new(r.range(0, 9)) } else { Value::default() };
    let start = transaction(|c| v.get(c));
    let c0 = v.to_computed();
    let all: Vec<Computed<i64>> = vec![ToComputed::to_computed(&v), ToComputed::to_computed(&&v), v.clone().into(), ToComputed::to_computed(&c0), ToComputed::to_computed(&&c0), c0.clone(), v.clone().to_computed()];
    let fixed: Vec<Computed<i64>> = vec![(&start).into(), start.into()];
    let told = Rc::new(RefCell::new(Vec::new()));
    let n = r.range(10, 99);
    let i = r.below(all.len());
    let sub = { let t = told.clone(); all[i].clone().subscribe(move |x| t.borrow_mut().push(x)) };
    match r.below(3) {
        0 => Reactive::set(&v, n),
        1 => v.clone().set(n),
        _ => v.set_value_and_compare(n),
    }
    drop(sub);
    v.set(n + 1);
    let got: Vec<i64> = transaction(|c| all.iter().map(|x| x.get(c)).chain([Reactive::get(&v, c), v.get(c)]).collect());
    if got.iter().any(|x| *x != n + 1) {
        viol("C01", "handle", format!("handles of one source, written {} to: {got:?}", n + 1));
    }
    if transaction(|c| fixed.iter().any(|x| x.get(c) != start)) {
        viol("C01", "constant", "a computed made of a plain value changed".to_string());
    }
    if *told.borrow() != vec![start, n] {
        viol("C02", "handle", format!("subscriber of handle {i} was told {:?}, expected {:?}", told.borrow(), [start, n]));
    }
    // handles are the same when they are of the same source: what comparing writes and subscribers go by
    let other = Value::new(n + 1);
    if v != v.clone() || v == other || c0 != c0.clone() || c0 == other.to_computed() {
        viol("C02", "handle-identity", "handles of the same source differ, or those of different ones do not".to_string());
    }
    let holder = Value::new(v.clone());
    let calls = Rc::new(Cell::new(0));
    let sub = { let k = calls.clone(); holder.to_computed().subscribe(move |_| k.set(k.get() + 1)) };
    holder.set(v.clone());
    let same = calls.get();
    holder.set(other.clone());
    if (same, calls.get()) != (1, 2) {
        viol("C02", "handle-identity", format!("a subscriber of a value that holds handles ran {same} times for the same handle and {} times after another", calls.get()));
    }
    drop(sub);
    cov(|c| c.inc("handles_compared"));
}
