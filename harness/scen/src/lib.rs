//! Generated views: a specification tree, the real vertigo view built from it, and a plain
//! executable model predicting the document, node identities and handler invocations.
pub mod rng;
use rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::{transaction, Computed, Css, DomComment, DomElement, DomNode, DomText, KeyDownEvent, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Item {
    pub key: i64,
    pub payload: i64,
}

#[derive(Debug)]
pub enum Attr {
    Static(String),
    Val(usize),
    Opt(usize),
    /// a value of a string, given as it is
    Str(usize),
    /// a value of an optional string, given as it is
    StrOpt(usize),
    /// reactive through a computed of two values
    Sum(usize, usize),
}
#[derive(Debug)]
pub enum CssS {
    Static(usize),
    Dynamic(usize),
    Val(usize),
}
#[derive(Debug, Clone)]
pub enum Action {
    Log,
    Inc(usize),
    Set(usize, i64),
    ListRot(usize),
    ListPush(usize),
    ListPop(usize),
}
#[derive(Debug)]
pub enum Handler {
    Plain(Action),
    /// the handler is the one selected by the value at the time of the event
    Selected(usize, Vec<Action>),
}
#[derive(Debug)]
pub struct Elem {
    pub tag: &'static str,
    pub attrs: Vec<(&'static str, Attr)>,
    pub class: Option<Attr>,
    pub css: Option<CssS>,
    pub suspense: Option<usize>,
    /// an earlier suspense callback, replaced or cleared before the element is used
    pub susp_pre: Option<usize>,
    pub events: Vec<(&'static str, Handler)>,
    pub kids: Vec<Rc<Spec>>,
}
#[derive(Debug)]
pub enum Kind {
    Elem(Elem),
    Text(usize),
    TextVal(usize),
    RenderVal { v: usize, m: i64, cases: Vec<Rc<Spec>> },
    RenderOpt { v: usize, m: i64, cases: Vec<Option<Rc<Spec>>> },
    List { l: usize, templates: Vec<Rc<Spec>>, computed: bool },
    Frag(Vec<Rc<Spec>>),
}
#[derive(Debug)]
pub struct Spec {
    pub id: usize,
    pub kind: Kind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Profile {
    pub events: bool,
    pub suspense: bool,
    /// list items may be fragments / reactive parts instead of elements
    pub marker_items: bool,
    /// texts restricted to what survives HTML serialisation (no control characters)
    pub html_safe: bool,
    pub dup_keys: bool,
    pub max_nodes: usize,
}

pub const TEXTS: [&str; 12] = ["", "a", "<b>&amp;\"'", "zażółć gęślą 😀", "x y", "&lt;", "a>b</div>", "\"quoted\"", "'", "&&&", "--><!--", "éà"];
thread_local! { static LONG: Cell<usize> = const { Cell::new(0) }; }
/// In views of long texts they differ at their ends only.
fn long(word: &str, t: String) -> String {
    match LONG.with(|l| l.get()) { 0 => t, n => word.repeat(n) + &t }
}
pub fn text_of(v: i64) -> String {
    let t = TEXTS[(v.rem_euclid(TEXTS.len() as i64)) as usize];
    long("ż", format!("{t}{v}"))
}
/// The text of a node that follows a value, at times none.
pub fn shown_text(v: i64) -> String {
    if v == 2 { String::new() } else { text_of(v) }
}
/// Attribute texts: the empty one is a value like any other.
pub fn attr_text(v: i64) -> String {
    if v == 1 { String::new() } else { text_of(v) }
}
pub fn attr_opt(v: i64) -> Option<String> {
    (v % 3 != 0).then(|| attr_text(v))
}
/// What string values hold: read as an attribute or as a class list.
pub fn str_of(v: i64) -> String {
    if v == 1 { String::new() } else { long("l", format!("s{v} q")) }
}
pub fn str_opt(v: i64) -> Option<String> {
    (v % 2 != 0).then(|| str_of(v))
}
fn class_text(v: i64) -> String {
    if v == 4 { String::new() } else { long("k", format!("c{v}")) }
}
pub const CSSES: [&str; 5] = ["color: red", "margin: 1px; padding: 2px", "background: blue", "border: none", "width: 10px; height: 3px"];
pub fn css_dyn(v: i64) -> String {
    format!("top: {v}px")
}
pub fn susp_css(which: usize, loading: bool) -> String {
    match (which, loading) {
        (0, true) => "opacity: 1; left: 1px".into(),
        (0, false) => "opacity: 0; left: 2px".into(),
        (_, true) => "visibility: visible; left: 3px".into(),
        (_, false) => "visibility: hidden; left: 4px".into(),
    }
}
fn susp_fn0(l: bool) -> Css {
    Css::string(susp_css(0, l))
}
fn susp_fn1(l: bool) -> Css {
    Css::string(susp_css(1, l))
}

pub const EVENTS: [&str; 9] = ["click", "mousedown", "mouseup", "mouseenter", "mouseleave", "input", "change", "blur", "keydown"];

// ---------------------------------------------------------------- generation
pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub nvals: usize,
    pub nlists: usize,
    nodes: usize,
    next_id: usize,
    /// now and then an element has many children
    wide: bool,
    /// lists within one another
    nest: usize,
}
impl Gen {
    fn mk(&mut self, kind: Kind) -> Rc<Spec> {
        self.next_id += 1;
        Rc::new(Spec { id: self.next_id, kind })
    }
    fn action(&mut self) -> Action {
        match self.r.below(7) {
            0 | 1 => Action::Inc(self.r.below(self.nvals)),
            2 => Action::Set(self.r.below(self.nvals), self.r.range(0, 5)),
            3 => Action::ListRot(self.r.below(self.nlists)),
            4 => Action::ListPush(self.r.below(self.nlists)),
            5 => Action::ListPop(self.r.below(self.nlists)),
            _ => Action::Log,
        }
    }
    fn elem(&mut self, depth: usize, in_list: usize) -> Elem {
        let suspended = self.p.suspense && self.r.chance(12);
        let tag = if suspended { "vertigo-suspense" } else { *self.r.pick(&["div", "span", "p", "ul", "li", "section", "b", "button"]) };
        let mut attrs = Vec::new();
        for name in ["title", "data-a", "id"] {
            if self.r.chance(25) {
                let a = match self.r.below(7) {
                    0 | 1 => Attr::Static(attr_text(self.r.range(0, 11))),
                    5 => Attr::Str(self.r.below(self.nvals)),
                    6 => Attr::StrOpt(self.r.below(self.nvals)),
                    2 => Attr::Val(self.r.below(self.nvals)),
                    3 => Attr::Opt(self.r.below(self.nvals)),
                    _ => Attr::Sum(self.r.below(self.nvals), self.r.below(self.nvals)),
                };
                attrs.push((name, a));
            }
        }
        let class = if self.r.chance(25) {
            Some(match self.r.below(5) {
                0 => Attr::Static("cls-a".into()),
                3 => Attr::Str(self.r.below(self.nvals)),
                4 => Attr::StrOpt(self.r.below(self.nvals)),
                1 => Attr::Val(self.r.below(self.nvals)),
                _ => Attr::Opt(self.r.below(self.nvals)),
            })
        } else {
            None
        };
        let css = if self.r.chance(30) {
            Some(match self.r.below(3) {
                0 => CssS::Static(self.r.below(CSSES.len())),
                1 => CssS::Dynamic(self.r.below(3)),
                _ => CssS::Val(self.r.below(self.nvals)),
            })
        } else {
            None
        };
        let suspense = if self.p.suspense && self.r.chance(35) { Some(self.r.below(2)) } else { None };
        let susp_pre = if self.p.suspense && self.r.chance(8) { Some(self.r.below(2)) } else { None };
        let mut events = Vec::new();
        if self.p.events {
            for e in EVENTS {
                if self.r.chance(12) {
                    let h = if self.r.chance(60) {
                        Handler::Plain(self.action())
                    } else {
                        let n = 2 + self.r.below(2);
                        let a = (0..n).map(|_| self.action()).collect();
                        Handler::Selected(self.r.below(self.nvals), a)
                    };
                    events.push((e, h));
                }
            }
        }
        let most = if self.wide && self.r.chance(30) { 50 } else { 4 };
        let n = if depth == 0 { 0 } else { self.r.below(most) };
        let kids = (0..n).map(|_| self.node(depth - 1, in_list)).collect();
        Elem { tag, attrs, class, css, suspense, susp_pre, events, kids }
    }
    pub fn node(&mut self, depth: usize, in_list: usize) -> Rc<Spec> {
        self.nodes += 1;
        if depth == 0 || self.nodes > self.p.max_nodes {
            let k = match self.r.below(4) {
                0 => Kind::Text(self.r.below(12)),
                1 => Kind::TextVal(self.r.below(self.nvals)),
                _ => Kind::Elem(self.elem(0, in_list)),
            };
            return self.mk(k);
        }
        let k = match self.r.below(12) {
            0..=2 => Kind::Elem(self.elem(depth, in_list)),
            3 => Kind::Text(self.r.below(12)),
            4 => Kind::TextVal(self.r.below(self.nvals)),
            5 | 6 => {
                let n = 1 + self.r.below(3);
                Kind::RenderVal { v: self.r.below(self.nvals), m: if self.r.chance(30) { 0 } else { 2 + self.r.below(2) as i64 }, cases: (0..n).map(|_| self.node(depth - 1, in_list)).collect() }
            }
            7 => {
                let n = 1 + self.r.below(3);
                Kind::RenderOpt {
                    v: self.r.below(self.nvals),
                    m: if self.r.chance(30) { 0 } else { 2 + self.r.below(2) as i64 },
                    cases: (0..n).map(|_| if self.r.chance(60) { Some(self.node(depth - 1, in_list)) } else { None }).collect(),
                }
            }
            8 | 9 if in_list < self.nest => {
                let n = 1 + self.r.below(2);
                let templates = (0..n)
                    .map(|_| {
                        if self.p.marker_items && self.r.chance(50) {
                            self.node(depth - 1, in_list + 1)
                        } else {
                            let e = self.elem(depth - 1, in_list + 1);
                            self.mk(Kind::Elem(e))
                        }
                    })
                    .collect();
                Kind::List { l: self.r.below(self.nlists), templates, computed: self.r.chance(40) }
            }
            10 => {
                let n = self.r.below(4);
                Kind::Frag((0..n).map(|_| self.node(depth - 1, in_list)).collect())
            }
            _ => Kind::Elem(self.elem(depth, in_list)),
        };
        self.mk(k)
    }
}

// ---------------------------------------------------------------- real view
pub struct World {
    pub vals: Vec<Value<i64>>,
    /// the same as texts, written along with `vals`
    pub strs: Vec<Value<String>>,
    pub opts: Vec<Value<Option<String>>>,
    pub lists: Vec<Value<Vec<Item>>>,
    pub renders: Cell<u64>,
    pub fired: RefCell<Vec<String>>,
}

fn m_of(v: i64, m: i64) -> i64 {
    if m == 0 { v } else { v.rem_euclid(m) }
}

pub fn list_next(l: &[Item], a: &Action) -> Vec<Item> {
    let mut n = l.to_vec();
    match a {
        Action::ListRot(_) => {
            if !n.is_empty() {
                n.rotate_left(1)
            }
        }
        Action::ListPush(_) => {
            let k = (0..).find(|k| n.iter().all(|i| i.key != *k)).unwrap();
            if n.len() < 9 {
                n.insert(n.len() / 2, Item { key: k, payload: 0 })
            }
        }
        Action::ListPop(_) => {
            n.pop();
        }
        _ => {}
    }
    n
}

impl World {
    fn put_texts(&self, i: usize, v: i64) {
        if let Some(s) = self.strs.get(i) {
            s.set(str_of(v));
            self.opts[i].set(str_opt(v));
        }
    }
    fn put(&self, i: usize, v: i64) {
        self.vals[i].set(v);
        self.put_texts(i, v);
    }
    fn act(&self, a: &Action) {
        match a {
            Action::Log => {}
            Action::Inc(i) => {
                self.vals[*i].change(|v| *v = (*v + 1) % 6);
                let v = transaction(|c| self.vals[*i].get(c));
                self.put_texts(*i, v);
            }
            Action::Set(i, v) => self.put(*i, *v),
            Action::ListRot(l) | Action::ListPush(l) | Action::ListPop(l) => {
                let cur = transaction(|c| self.lists[*l].get(c));
                self.lists[*l].set(list_next(&cur, a));
            }
        }
    }
    fn comp_text(&self, v: usize) -> Computed<String> {
        self.vals[v].map(shown_text)
    }
    fn comp_attr(&self, v: usize) -> Computed<String> {
        self.vals[v].map(attr_text)
    }
    fn comp_opt(&self, v: usize) -> Computed<Option<String>> {
        self.vals[v].map(attr_opt)
    }

    pub fn build(self: &Rc<Self>, s: &Rc<Spec>, item: Option<Item>) -> DomNode {
        match &s.kind {
            Kind::Text(t) => DomText::new(text_of(*t as i64)).into(),
            Kind::TextVal(v) => DomNode::Text { node: DomText::new_computed(self.comp_text(*v)) },
            Kind::Frag(l) => DomComment::dom_fragment(l.iter().map(|x| self.build(x, item)).collect()).into(),
            Kind::RenderVal { v, m, cases } => {
                let (w, cases, m) = (self.clone(), cases.clone(), *m);
                let f = move |x: i64| w.build(&cases[(x.rem_euclid(cases.len() as i64)) as usize], item);
                if m == 0 {
                    self.vals[*v].render_value(f)
                } else {
                    self.vals[*v].map(move |x| m_of(x, m)).render_value(f)
                }
            }
            Kind::RenderOpt { v, m, cases } => {
                let (w, cases, m) = (self.clone(), cases.clone(), *m);
                let f = move |x: i64| cases[(x.rem_euclid(cases.len() as i64)) as usize].as_ref().map(|c| w.build(c, item));
                if m == 0 {
                    self.vals[*v].render_value_option(f)
                } else {
                    self.vals[*v].map(move |x| m_of(x, m)).render_value_option(f)
                }
            }
            Kind::List { l, templates, computed } => {
                let (w, t) = (self.clone(), templates.clone());
                let f = move |i: &Item| {
                    w.renders.set(w.renders.get() + 1);
                    w.build(&t[(i.key.rem_euclid(t.len() as i64)) as usize], Some(*i))
                };
                if *computed {
                    self.lists[*l].map(|x| x).render_list(|i| i.key, f)
                } else {
                    self.lists[*l].render_list(|i| i.key, f)
                }
            }
            Kind::Elem(e) => {
                let mut el = DomElement::new(e.tag);
                if let Some(which) = e.susp_pre {
                    el = el.suspense(Some(if which == 0 { susp_fn0 } else { susp_fn1 }));
                    if e.suspense.is_none() {
                        el = el.suspense(None);
                    }
                }
                if let Some(which) = e.suspense {
                    el = el.suspense(Some(if which == 0 { susp_fn0 } else { susp_fn1 }));
                }
                el = el.attr("data-s", s.id);
                if let Some(i) = item {
                    el = el.attr("data-k", i.key).attr("data-p", i.payload);
                }
                for (name, a) in &e.attrs {
                    el = match a {
                        Attr::Static(t) => el.attr(*name, t.clone()),
                        Attr::Val(v) => el.attr(*name, self.comp_attr(*v)),
                        Attr::Opt(v) if s.id % 2 == 0 => el.attr(*name, &self.comp_opt(*v)),
                        Attr::Opt(v) => el.attr(*name, self.comp_opt(*v)),
                        Attr::Str(v) if s.id % 2 == 0 => el.attr(*name, &self.strs[*v]),
                        Attr::Str(v) => el.attr(*name, self.strs[*v].clone()),
                        Attr::StrOpt(v) if s.id % 2 == 0 => el.attr(*name, &self.opts[*v]),
                        Attr::StrOpt(v) => el.attr(*name, self.opts[*v].clone()),
                        Attr::Sum(a, b) => {
                            let (a, b) = (self.vals[*a].clone(), self.vals[*b].clone());
                            el.attr(*name, Computed::from(move |c| format!("{}", a.get(c) + b.get(c))))
                        }
                    };
                }
                match &e.class {
                    Some(Attr::Static(t)) => el = el.attr("class", t.clone()),
                    Some(Attr::Val(v)) => el = el.attr("class", self.vals[*v].map(class_text)),
                    Some(Attr::Opt(v)) => el = el.attr("class", self.vals[*v].map(|v| if v % 2 == 0 { None } else { Some(format!("c{v}")) })),
                    Some(Attr::Str(v)) => el = el.attr("class", &self.strs[*v]),
                    Some(Attr::StrOpt(v)) => el = el.attr("class", self.opts[*v].clone()),
                    _ => {}
                }
                match &e.css {
                    Some(CssS::Static(i)) => el = el.css(Css::str(CSSES[*i])),
                    Some(CssS::Dynamic(i)) => el = el.css(Css::string(css_dyn(*i as i64))),
                    Some(CssS::Val(v)) => el = el.css(self.vals[*v].map(|v| if v % 2 == 0 { Css::str(CSSES[(v as usize) % CSSES.len()]) } else { Css::string(css_dyn(v)) })),
                    None => {}
                }
                for (name, h) in &e.events {
                    el = self.event(el, s.id, name, h);
                }
                for k in &e.kids {
                    el.add_child(self.build(k, item));
                }
                el.into()
            }
        }
    }

    fn event(self: &Rc<Self>, el: DomElement, sid: usize, name: &'static str, h: &Handler) -> DomElement {
        let run = {
            let w = self.clone();
            move |which: usize, a: &Action, arg: String| {
                w.fired.borrow_mut().push(format!("{sid}:{name}:{which}:{arg}"));
                w.act(a);
            }
        };
        let run = Rc::new(run);
        macro_rules! plain {
            ($method:ident, $ret:expr) => {
                match h {
                    Handler::Plain(a) => {
                        let (a, run) = (a.clone(), run.clone());
                        el.$method(move || {
                            run(0, &a, String::new());
                            $ret
                        })
                    }
                    Handler::Selected(v, acts) => {
                        let (acts, run) = (acts.clone(), run.clone());
                        el.$method(self.vals[*v].map(move |x| {
                            let i = (x as usize) % acts.len();
                            let (a, run) = (acts[i].clone(), run.clone());
                            let r: Rc<dyn Fn() -> _> = Rc::new(move || {
                                run(i, &a, String::new());
                                $ret
                            });
                            r
                        }))
                    }
                }
            };
        }
        macro_rules! with_arg {
            ($method:ident, $ty:ty, $fmt:expr, $ret:expr) => {
                match h {
                    Handler::Plain(a) => {
                        let (a, run) = (a.clone(), run.clone());
                        el.$method(move |x: $ty| {
                            run(0, &a, $fmt(x));
                            $ret
                        })
                    }
                    Handler::Selected(v, acts) => {
                        let (acts, run) = (acts.clone(), run.clone());
                        el.$method(self.vals[*v].map(move |x| {
                            let i = (x as usize) % acts.len();
                            let (a, run) = (acts[i].clone(), run.clone());
                            let r: Rc<dyn Fn($ty) -> _> = Rc::new(move |x: $ty| {
                                run(i, &a, $fmt(x));
                                $ret
                            });
                            r
                        }))
                    }
                }
            };
        }
        let yes = sid % 2 == 0;
        match name {
            "click" => plain!(on_click, ()),
            "mousedown" => plain!(on_mouse_down, yes),
            "mouseup" => plain!(on_mouse_up, yes),
            "mouseenter" => plain!(on_mouse_enter, ()),
            "mouseleave" => plain!(on_mouse_leave, ()),
            "blur" => plain!(on_blur, ()),
            "input" => with_arg!(on_input, String, |x: String| x, ()),
            "change" => with_arg!(on_change, String, |x: String| x, ()),
            "keydown" => with_arg!(on_key_down, KeyDownEvent, |k: KeyDownEvent| format!("{}|{}|{}{}{}{}", k.key, k.code, k.alt_key as u8, k.ctrl_key as u8, k.shift_key as u8, k.meta_key as u8), yes),
            _ => unreachable!(),
        }
    }
}

// ---------------------------------------------------------------- model
#[derive(Clone)]
pub struct MState {
    pub vals: Vec<i64>,
    pub lists: Vec<Vec<Item>>,
}
pub enum MN {
    El { spec: Rc<Spec>, inst: Option<u64>, item: Option<(Item, bool)>, kids: Vec<MN> },
    Tx { t: usize, inst: Option<u64> },
    Tv { v: usize, inst: Option<u64> },
    Rv { spec: Rc<Spec>, item: Option<(Item, bool)>, cur: i64, child: Option<Box<MN>>, checked: bool },
    Li { spec: Rc<Spec>, cur: Vec<(Item, MN)>, checked: bool },
    Fr(Vec<MN>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Is(String),
    Any,
}
/// expected document
#[derive(Clone, Debug)]
pub enum T {
    El { tag: &'static str, attrs: BTreeMap<String, Exp>, classes: Vec<String>, csses: Vec<String>, susp: Option<String>, inst: Option<u64>, sid: usize, kids: Vec<T> },
    Tx { text: String, inst: Option<u64> },
}

pub struct Model {
    pub st: MState,
    pub root: MN,
    next: u64,
    pub renders: u64,
    /// false when render counts are not determined (reactive parts inside moved list items)
    pub exact_renders: bool,
}

impl Model {
    fn build(&mut self, s: &Rc<Spec>, item: Option<(Item, bool)>, checked: bool) -> MN {
        self.next += 1;
        let inst = if checked { Some(self.next) } else { None };
        match &s.kind {
            Kind::Text(t) => MN::Tx { t: *t, inst },
            Kind::TextVal(v) => MN::Tv { v: *v, inst },
            Kind::Frag(l) => MN::Fr(l.iter().map(|x| self.build(x, item, checked)).collect()),
            Kind::RenderVal { v, m, cases } => {
                let cur = m_of(self.st.vals[*v], *m);
                let c = cases[(cur.rem_euclid(cases.len() as i64)) as usize].clone();
                let child = Some(Box::new(self.build(&c, item, checked)));
                MN::Rv { spec: s.clone(), item, cur, child, checked }
            }
            Kind::RenderOpt { v, m, cases } => {
                let cur = m_of(self.st.vals[*v], *m);
                let c = cases[(cur.rem_euclid(cases.len() as i64)) as usize].clone();
                let child = c.map(|c| Box::new(self.build(&c, item, checked)));
                MN::Rv { spec: s.clone(), item, cur, child, checked }
            }
            Kind::List { l, .. } => {
                let items = self.st.lists[*l].clone();
                let cur = items.iter().map(|i| (*i, self.item(s, i, &items, &[], checked))).collect();
                MN::Li { spec: s.clone(), cur, checked }
            }
            Kind::Elem(e) => {
                let kids = e.kids.iter().map(|k| self.build(k, item, checked)).collect();
                MN::El { spec: s.clone(), inst, item, kids }
            }
        }
    }
    fn item(&mut self, s: &Rc<Spec>, i: &Item, new: &[Item], old: &[(Item, MN)], checked: bool) -> MN {
        let Kind::List { templates, .. } = &s.kind else { unreachable!() };
        self.renders += 1;
        let t = templates[(i.key.rem_euclid(templates.len() as i64)) as usize].clone();
        let dup = new.iter().filter(|x| x.key == i.key).count() > 1 || old.iter().filter(|x| x.0.key == i.key).count() > 1;
        let is_el = matches!(t.kind, Kind::Elem(_));
        let is_text = matches!(t.kind, Kind::Text(_) | Kind::TextVal(_));
        if !is_el && !is_text {
            self.exact_renders = false;
        }
        // a reactive part as an item is rendered anew when it is moved: which payload it shows and
        // which nodes it keeps is not determined
        let checked = checked && (is_el || is_text);
        self.build(&t, Some((*i, dup || !checked)), checked && !dup)
    }
    fn update(&mut self, n: &mut MN) {
        match n {
            MN::El { kids, .. } => kids.iter_mut().for_each(|k| self.update(k)),
            MN::Tx { .. } | MN::Tv { .. } => {}
            MN::Fr(l) => l.iter_mut().for_each(|k| self.update(k)),
            MN::Rv { spec, item, cur, child, checked } => {
                let (v, m, c): (usize, i64, Option<Rc<Spec>>) = match &spec.kind {
                    Kind::RenderVal { v, m, cases } => {
                        let x = m_of(self.st.vals[*v], *m);
                        (*v, *m, Some(cases[(x.rem_euclid(cases.len() as i64)) as usize].clone()))
                    }
                    Kind::RenderOpt { v, m, cases } => {
                        let x = m_of(self.st.vals[*v], *m);
                        (*v, *m, cases[(x.rem_euclid(cases.len() as i64)) as usize].clone())
                    }
                    _ => unreachable!(),
                };
                let x = m_of(self.st.vals[v], m);
                if x != *cur {
                    *cur = x;
                    *child = c.map(|c| Box::new(self.build(&c, *item, *checked)));
                } else if let Some(c) = child {
                    self.update(c);
                }
            }
            MN::Li { spec, cur, checked } => {
                let Kind::List { l, .. } = &spec.kind else { unreachable!() };
                let new = self.st.lists[*l].clone();
                let mut old: Vec<(Item, MN)> = std::mem::take(cur);
                let same = old.len() == new.len() && old.iter().zip(&new).all(|(a, b)| a.0 == *b);
                if same {
                    for (_, m) in old.iter_mut() {
                        self.update(m);
                    }
                    *cur = old;
                    return;
                }
                let mut out = Vec::new();
                for i in &new {
                    let dup = new.iter().filter(|x| x.key == i.key).count() > 1;
                    if let Some(p) = old.iter().position(|o| o.0.key == i.key) {
                        let (_, mut m) = old.remove(p);
                        if dup || old.iter().any(|o| o.0.key == i.key) {
                            unknow(&mut m);
                        }
                        self.update(&mut m);
                        out.push((*i, m));
                    } else {
                        let m = self.item(spec, i, &new, &old, *checked);
                        out.push((*i, m));
                    }
                }
                // an item which stays while one of its duplicates vanishes is not determined either
                let keys: Vec<i64> = old.iter().map(|o| o.0.key).collect();
                for (i, m) in out.iter_mut() {
                    if keys.contains(&i.key) || new.iter().filter(|x| x.key == i.key).count() > 1 {
                        unknow(m);
                    }
                }
                *cur = out;
            }
        }
    }
    pub fn refresh(&mut self) {
        let mut root = std::mem::replace(&mut self.root, MN::Fr(Vec::new()));
        self.update(&mut root);
        self.root = root;
    }
    pub fn document(&self) -> Vec<T> {
        let mut o = Vec::new();
        self.doc(&self.root, &mut o);
        // the style of a layer depends on placeholders beneath the element it is placed in
        let root_susp = o.iter().any(susp_inside);
        for t in o.iter_mut() {
            mark_suspense(t, root_susp);
        }
        o
    }
    fn doc(&self, n: &MN, o: &mut Vec<T>) {
        match n {
            MN::Tx { t, inst } => o.push(T::Tx { text: text_of(*t as i64), inst: *inst }),
            MN::Tv { v, inst } => o.push(T::Tx { text: shown_text(self.st.vals[*v]), inst: *inst }),
            MN::Fr(l) => l.iter().for_each(|x| self.doc(x, o)),
            MN::Rv { child, .. } => child.iter().for_each(|x| self.doc(x, o)),
            MN::Li { cur, .. } => cur.iter().for_each(|x| self.doc(&x.1, o)),
            MN::El { spec, inst, item, kids } => {
                let Kind::Elem(e) = &spec.kind else { unreachable!() };
                let mut attrs = BTreeMap::new();
                attrs.insert("data-s".to_string(), Exp::Is(spec.id.to_string()));
                if let Some((i, dup)) = item {
                    attrs.insert("data-k".into(), Exp::Is(i.key.to_string()));
                    attrs.insert("data-p".into(), if *dup { Exp::Any } else { Exp::Is(i.payload.to_string()) });
                }
                let v = |i: &usize| self.st.vals[*i];
                for (name, a) in &e.attrs {
                    let x = match a {
                        Attr::Static(t) => Some(t.clone()),
                        Attr::Val(i) => Some(attr_text(v(i))),
                        Attr::Opt(i) => attr_opt(v(i)),
                        Attr::Str(i) => Some(str_of(v(i))),
                        Attr::StrOpt(i) => str_opt(v(i)),
                        Attr::Sum(a, b) => Some(format!("{}", v(a) + v(b))),
                    };
                    if let Some(x) = x {
                        attrs.insert(name.to_string(), Exp::Is(x));
                    }
                }
                let mut classes = Vec::new();
                match &e.class {
                    Some(Attr::Static(t)) => classes.push(t.clone()),
                    Some(Attr::Val(i)) => classes.extend(class_text(v(i)).split_whitespace().map(String::from)),
                    Some(Attr::Str(i)) => classes.extend(str_of(v(i)).split_whitespace().map(String::from)),
                    Some(Attr::StrOpt(i)) => classes.extend(str_opt(v(i)).iter().flat_map(|t| t.split_whitespace().map(String::from).collect::<Vec<_>>())),
                    Some(Attr::Opt(i)) if v(i) % 2 != 0 => classes.push(format!("c{}", v(i))),
                    _ => {}
                }
                let mut csses = Vec::new();
                match &e.css {
                    Some(CssS::Static(i)) => csses.push(CSSES[*i].to_string()),
                    Some(CssS::Dynamic(i)) => csses.push(css_dyn(*i as i64)),
                    Some(CssS::Val(i)) => csses.push(if v(i) % 2 == 0 { CSSES[(v(i) as usize) % CSSES.len()].to_string() } else { css_dyn(v(i)) }),
                    None => {}
                }
                let mut kk = Vec::new();
                kids.iter().for_each(|x| self.doc(x, &mut kk));
                // which style: filled in by mark_suspense
                let susp = e.suspense.map(|w| w.to_string());
                o.push(T::El { tag: e.tag, attrs, classes, csses, susp, inst: *inst, sid: spec.id, kids: kk });
            }
        }
    }
}
fn susp_inside(t: &T) -> bool {
    match t {
        T::El { tag, kids, .. } => *tag == "vertigo-suspense" || kids.iter().any(susp_inside),
        T::Tx { .. } => false,
    }
}
fn mark_suspense(t: &mut T, parent_has: bool) {
    if let T::El { susp, kids, .. } = t {
        if let Some(c) = susp {
            let w: usize = c.parse().unwrap();
            *c = susp_css(w, parent_has);
        }
        let inside = kids.iter().any(susp_inside) || matches!(t, T::El { tag: "vertigo-suspense", .. });
        if let T::El { kids, .. } = t {
            for k in kids.iter_mut() {
                mark_suspense(k, inside);
            }
        }
    }
}
/// identity and payload of a node are no longer determined (duplicate keys)
fn unknow(m: &mut MN) {
    match m {
        MN::El { inst, item, kids, .. } => {
            *inst = None;
            if let Some((_, d)) = item {
                *d = true;
            }
            kids.iter_mut().for_each(|k| unknow(k));
        }
        MN::Tx { inst, .. } | MN::Tv { inst, .. } => *inst = None,
        MN::Fr(l) => l.iter_mut().for_each(|k| unknow(k)),
        MN::Rv { child, checked, item, .. } => {
            *checked = false;
            if let Some((_, d)) = item {
                *d = true;
            }
            child.iter_mut().for_each(|k| unknow(k))
        }
        MN::Li { cur, checked, .. } => {
            *checked = false;
            cur.iter_mut().for_each(|k| unknow(&mut k.1))
        }
    }
}

// ---------------------------------------------------------------- scenario
pub struct Scenario {
    pub spec: Rc<Spec>,
    pub world: Rc<World>,
    pub model: Model,
    pub r: Rng,
    pub p: Profile,
    pub desc: String,
    /// element specs by id, for event prediction
    pub handlers: BTreeMap<(usize, &'static str), Rc<Spec>>,
    /// how long lists get
    pub most: usize,
    /// what is large about it
    pub scale: &'static str,
}

fn collect(s: &Rc<Spec>, out: &mut BTreeMap<(usize, &'static str), Rc<Spec>>) {
    match &s.kind {
        Kind::Elem(e) => {
            for (n, _) in &e.events {
                out.insert((s.id, *n), s.clone());
            }
            e.kids.iter().for_each(|k| collect(k, out));
        }
        Kind::RenderVal { cases, .. } => cases.iter().for_each(|k| collect(k, out)),
        Kind::RenderOpt { cases, .. } => cases.iter().flatten().for_each(|k| collect(k, out)),
        Kind::List { templates, .. } => templates.iter().for_each(|k| collect(k, out)),
        Kind::Frag(l) => l.iter().for_each(|k| collect(k, out)),
        _ => {}
    }
}

#[derive(Debug, Clone)]
pub enum Op {
    Set(usize, i64),
    List(usize, Vec<Item>),
}

impl Scenario {
    pub fn new(seed: u64, stream: u64, p: Profile) -> Scenario {
        let mut r = Rng::new(seed, stream);
        let nvals = 1 + r.below(4);
        let nlists = 1 + r.below(2);
        // a few views are of another size: long lists, many children, deep nesting
        let scale = r.below(100);
        let (long, wide, deep) = (scale < 2, scale == 2, scale == 3);
        let texts = scale == 4;
        LONG.with(|l| l.set(if texts { [70, 300, 5000][r.below(3)] } else { 0 }));
        let mut p = p;
        if wide || deep {
            p.max_nodes = 160;
        }
        let most = if long { 20 + r.below(140) } else { 9 };
        let mut g = Gen { r, p, nvals, nlists, nodes: 0, next_id: 0, wide, nest: if long { 1 } else { 2 } };
        let depth = if deep { 9 + g.r.below(7) } else { 2 + g.r.below(4) };
        let mut e = g.elem(0, 0);
        e.tag = "div";
        let n = 1 + g.r.below(4);
        e.kids = (0..n).map(|_| g.node(depth, 0)).collect();
        let k = match g.r.below(10) {
            // the parts of the page are placed in it directly
            0..=3 => Kind::Frag(e.kids),
            _ => Kind::Elem(e),
        };
        let spec = g.mk(k);
        let mut r = g.r;
        let vals: Vec<i64> = (0..nvals).map(|_| r.range(0, 5)).collect();
        let lists: Vec<Vec<Item>> = (0..nlists).map(|_| {
            let n = r.below(if long { most } else { 5 });
            random_list(&mut r, n, p.dup_keys, most)
        }).collect();
        let world = Rc::new(World {
            vals: vals.iter().map(|v| Value::new(*v)).collect(),
            strs: vals.iter().map(|v| Value::new(str_of(*v))).collect(),
            opts: vals.iter().map(|v| Value::new(str_opt(*v))).collect(),
            lists: lists.iter().map(|l| Value::new(l.clone())).collect(),
            renders: Cell::new(0),
            fired: RefCell::default(),
        });
        let mut model = Model { st: MState { vals, lists }, root: MN::Fr(Vec::new()), next: 0, renders: 0, exact_renders: true };
        model.root = model.build(&spec, None, true);
        let mut handlers = BTreeMap::new();
        collect(&spec, &mut handlers);
        let desc = format!("{:?}", short(&spec));
        Scenario { spec, world, model, r, p, desc, handlers, most, scale: if long { "long_lists" } else if wide { "wide_views" } else if deep { "deep_views" } else if texts { "long_texts" } else { "" } }
    }
    pub fn build(&self) -> DomNode {
        self.world.build(&self.spec, None)
    }
    pub fn next_ops(&mut self) -> Vec<Op> {
        let n = 1 + self.r.below(3);
        let mut lists = self.model.st.lists.clone();
        let mut out = Vec::new();
        for _ in 0..n {
            if self.r.chance(55) {
                out.push(Op::Set(self.r.below(self.model.st.vals.len()), self.r.range(0, 5)));
            } else {
                let i = self.r.below(lists.len());
                let l = edit_list(&mut self.r, &lists[i], self.p.dup_keys, self.most);
                lists[i] = l.clone();
                out.push(Op::List(i, l));
            }
        }
        out
    }
    /// real + model; `single` ops are written without an explicit transaction
    pub fn apply(&mut self, ops: &[Op]) {
        for o in ops {
            match o {
                Op::Set(i, v) => self.model.st.vals[*i] = *v,
                Op::List(i, l) => self.model.st.lists[*i] = l.clone(),
            }
        }
        self.model.refresh();
        let w = self.world.clone();
        let run = |o: &Op| match o {
            Op::Set(i, v) => w.put(*i, *v),
            Op::List(i, l) => w.lists[*i].set(l.clone()),
        };
        if ops.len() == 1 {
            run(&ops[0]);
        } else {
            transaction(|_| ops.iter().for_each(run));
        }
    }
    /// what the handler of (sid, event) must do now: expected log entry prefix and the action
    pub fn expect_event(&self, sid: usize, ev: &str) -> Option<(String, Action)> {
        let (k, s) = self.handlers.iter().find(|(k, _)| k.0 == sid && k.1 == ev)?;
        let Kind::Elem(e) = &s.kind else { return None };
        let h = &e.events.iter().find(|(n, _)| n == &k.1)?.1;
        Some(match h {
            Handler::Plain(a) => (format!("{sid}:{ev}:0:"), a.clone()),
            Handler::Selected(v, acts) => {
                let i = (self.model.st.vals[*v] as usize) % acts.len();
                (format!("{sid}:{ev}:{i}:"), acts[i].clone())
            }
        })
    }
    pub fn model_act(&mut self, a: &Action) {
        match a {
            Action::Log => {}
            Action::Inc(i) => self.model.st.vals[*i] = (self.model.st.vals[*i] + 1) % 6,
            Action::Set(i, v) => self.model.st.vals[*i] = *v,
            Action::ListRot(l) | Action::ListPush(l) | Action::ListPop(l) => {
                let n = list_next(&self.model.st.lists[*l], a);
                self.model.st.lists[*l] = n;
            }
        }
        self.model.refresh();
    }
}

pub fn random_list(r: &mut Rng, n: usize, dups: bool, most: usize) -> Vec<Item> {
    let mut keys: Vec<i64> = (0..most as i64).collect();
    r.shuffle(&mut keys);
    let mut l: Vec<Item> = keys[..n.min(most)].iter().map(|k| Item { key: *k, payload: 0 }).collect();
    if dups && !l.is_empty() && r.chance(40) {
        let x = *r.pick(&l);
        let p = r.below(l.len() + 1);
        l.insert(p, x);
    }
    l
}
pub fn edit_list(r: &mut Rng, l: &[Item], dups: bool, most: usize) -> Vec<Item> {
    let mut n = l.to_vec();
    match r.below(11) {
        0 => r.shuffle(&mut n),
        1 => n.reverse(),
        2 => {
            n.clear();
        }
        3 | 4 => {
            let k = (0..30).map(|_| r.range(0, most as i64 + 3)).find(|k| n.iter().all(|i| i.key != *k));
            if let Some(k) = k {
                let p = r.below(n.len() + 1);
                n.insert(p, Item { key: k, payload: r.range(0, 2) });
            }
        }
        5 => {
            if !n.is_empty() {
                let p = r.below(n.len());
                n.remove(p);
            }
        }
        6 => {
            if n.len() > 1 {
                let a = r.below(n.len());
                let x = n.remove(a);
                let b = r.below(n.len() + 1);
                n.insert(b, x);
            }
        }
        7 => {
            if !n.is_empty() {
                let p = r.below(n.len());
                n[p].payload = r.range(0, 3);
            }
        }
        8 => {
            let k = r.below(if most > 9 { most } else { 6 });
            n = random_list(r, k, dups, most);
        }
        9 => {
            if !n.is_empty() {
                n.rotate_right(1);
            }
        }
        _ => {
            if dups && !n.is_empty() && n.len() <= most {
                let x = *r.pick(&n);
                let p = r.below(n.len() + 1);
                n.insert(p, x);
            } else {
                r.shuffle(&mut n);
                n.truncate(n.len() / 2 + 1);
            }
        }
    }
    n
}

/// compact rendering of a spec for traces
pub fn short(s: &Rc<Spec>) -> String {
    match &s.kind {
        Kind::Text(t) => format!("'{t}'"),
        Kind::TextVal(v) => format!("{{v{v}}}"),
        Kind::RenderVal { v, m, cases } => format!("rv(v{v}%{m})[{}]", cases.iter().map(short).collect::<Vec<_>>().join("|")),
        Kind::RenderOpt { v, m, cases } => format!("ro(v{v}%{m})[{}]", cases.iter().map(|c| c.as_ref().map(short).unwrap_or("-".into())).collect::<Vec<_>>().join("|")),
        Kind::List { l, templates, .. } => format!("list(l{l})[{}]", templates.iter().map(short).collect::<Vec<_>>().join("|")),
        Kind::Frag(l) => format!("frag[{}]", l.iter().map(short).collect::<Vec<_>>().join(",")),
        Kind::Elem(e) => format!(
            "{}#{}{}{}{}{}({})",
            e.tag,
            s.id,
            e.attrs.iter().map(|(n, a)| format!("@{n}={a:?}")).collect::<String>(),
            e.class.as_ref().map(|c| format!(".{c:?}")).unwrap_or_default(),
            e.css.as_ref().map(|c| format!("!{c:?}")).unwrap_or_default(),
            e.events.iter().map(|(n, h)| format!("^{n}={h:?}")).collect::<String>() + if e.suspense.is_some() { "~s" } else if e.susp_pre.is_some() { "~p" } else { "" },
            e.kids.iter().map(short).collect::<Vec<_>>().join(",")
        ),
    }
}
