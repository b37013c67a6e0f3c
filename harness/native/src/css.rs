//! Monitor for style translation (C12): random style descriptions are given to the real
//! library; the emitted rules are parsed by an independent CSS reader (quotes, escapes,
//! parentheses, comments, nesting) and compared with the description.
use crate::rng::{mix, Rng};
use crate::run::{cov, trace, viol, Opts};
use std::collections::{BTreeMap, HashMap, HashSet};
use vertigo::{css, get_driver, inspect, Css, CssGroup, DriverDomCommand as C};

#[derive(Clone, Debug, PartialEq)]
pub enum It {
    Decl(String, String),
    Nest(String, Vec<It>),
    Media(String, Vec<It>),
    /// before, frames, after
    Anim(String, Vec<(String, Vec<(String, String)>)>, String),
}
const NAMES: &[&str] = &["color", "width", "background", "background-image", "content", "--own-prop", "-webkit-filter", "margin", "font-family", "grid-template-areas", "transition", "animation-name", "border-top-color", "animation"];
const VALS: &[&str] = &[
    "red", "#fff", "10px", "1px solid rgba(0, 0, 0, 0.3)", "calc(100% - (2 * 10px))", "var(--x, 1px)", "0", ".5em", "none !important",
    "url('data:image/svg+xml;utf8,<svg a=\"{x}\"/>')", "url(data:image/png;base64,iVBORw0KGgo==)", "url(\"a.png?x=1;y={2}\")",
    "\"zażółć; {gęślą}: x\"", "'it\\'s; {'", "\"\\\"};\"", "\"→\"", "Gęśl, 'Łąka Ω', sans-serif", "\"a:b\"", "progid:Foo.Bar(startColor='#80000000')", "\"🦀 {\"", "\"url(\"", "'/* no comment */'", "\"a\" \"b;c\" 'd}'", "translate(-50%, calc(1px + 2px)) rotate(10deg)", "\\201C x", "counter(x) \". \"",
];
const SELS: &[&str] = &[
    ":hover", ":focus::first-letter", ":nth-child(2n + 1)", "::before", ":hover > a", ":not(.ą)", ":not([data-x=\"a;b{c},d\"])", ":is(:hover, :focus)", ":hover, :focus", ":hover .inner, :nth-of-type(2), ::after",
    ":lang(pl) + .ż", "[data-on]", "[data-x=\"1\"]:hover", ":hover .autocss_9999", ":not(:first-child):before",
];
const QUERIES: &[&str] = &["@media screen and (min-width: 400px)", "@media print", "@media (max-width: 10.5em), print", "@media not all and (monochrome)", "@media screen", "@media (400px <= width <= 700px)"];
const ANIMS: &[&str] = &["1.0s infinite ease-in-out", "2s", "3s linear 1s", ".2s cubic-bezier(0.1, 0.7, 1, 0.1)"];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub lib_refs: Vec<String>,
}
impl Gen<'_> {
    fn val(&mut self) -> String {
        match self.r.below(6) {
            0 => format!("{}px", self.r.below(1000)),
            1 => format!("{} {}", self.r.pick(VALS), self.r.below(50)),
            2 => {
                let n = 1 + self.r.below(8);
                let q = *self.r.pick(&['"', '\'']);
                let mut s = String::from(q);
                for _ in 0..n {
                    let c = *self.r.pick(&['a', ';', '{', '}', ':', '(', ')', ',', ' ', 'ż', '中', '🦀', '/', '*', '.', '[', '@', '\\']);
                    if c == '\\' { s.push('\\'); s.push(*self.r.pick(&['\\', '"', '\'', 'a'])); } else { s.push(c) }
                }
                s.push(q);
                s
            }
            _ => self.r.pick(VALS).to_string(),
        }
    }
    fn decl(&mut self) -> It {
        let n = if self.r.chance(15) { format!("--p{}", self.r.below(100)) } else { self.r.pick(NAMES).to_string() };
        It::Decl(n, self.val())
    }
    fn plain(&mut self, n: usize) -> Vec<(String, String)> {
        (0..n).map(|_| loop { if let It::Decl(a, b) = self.decl() { if a != "animation" { return (a, b) } } }).collect()
    }
    fn anim(&mut self) -> It {
        let n = 1 + self.r.below(4);
        let fr = (0..n).map(|i| { let k = 1 + self.r.below(3); (format!("{}%", i * 100 / n.max(2).saturating_sub(1)), self.plain(k)) }).collect();
        It::Anim(self.r.pick(ANIMS).to_string(), fr, if self.r.chance(25) { "both".into() } else { String::new() })
    }
    fn body(&mut self, media: bool, depth: usize) -> Vec<It> {
        let n = 1 + self.r.below(4);
        (0..n)
            .map(|_| match self.r.below(10) {
                0 | 1 if depth == 0 || media => { let s = loop { let s = *self.r.pick(SELS); if !media || s.starts_with(':') { break s } }; It::Nest(s.into(), self.body(false, depth + 1)) }
                2 if depth == 0 => It::Media(self.r.pick(QUERIES).to_string(), self.body(true, 1)),
                3 => self.anim(),
                4 if depth == 0 && self.r.chance(40) => It::Nest(format!(".ref{}", self.r.below(5)), { let k = 1 + self.r.below(3); self.plain(k).into_iter().map(|(a, b)| It::Decl(a, b)).collect() }),
                _ => self.decl(),
            })
            .collect()
    }
}
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", " ", "\n", "\n        ", "  \t", " "])
}
const COMMENTS: &[&str] = &["", " x ", " it's ", " a: b; ", " .c { d: e } ", " :hover { ", " } ", "*", " \" ", " @media ", " żó ( ", "/", " ; ", ":"];
fn comment(r: &mut Rng, o: &mut String) {
    cov(|c| c.inc("comments"));
    o.push_str("/*"); o.push_str(*r.pick(COMMENTS)); o.push_str("*/"); o.push_str(ws(r));
}
fn write(items: &[It], r: &mut Rng, last_semi: bool, o: &mut String) {
    for (i, it) in items.iter().enumerate() {
        o.push_str(ws(r));
        if r.chance(4) { comment(r, o) }
        match it {
            It::Decl(n, v) => { o.push_str(n); o.push_str(if r.chance(90) { ":" } else { " :" }); o.push_str(ws(r)); o.push_str(v); if r.chance(3) { o.push(' '); comment(r, o) } }
            It::Nest(s, b) | It::Media(s, b) => {
                o.push_str(s);
                o.push_str(if r.chance(80) { " " } else { "" });
                o.push('{');
                let semi = r.chance(70);
                write(b, r, semi, o);
                o.push('}');
            }
            It::Anim(a, f, z) => {
                o.push_str("animation: "); o.push_str(a); o.push_str(" {");
                for (st, ds) in f {
                    o.push_str(ws(r)); o.push_str(st); o.push_str(" {");
                    let ds: Vec<It> = ds.iter().map(|(a, b)| It::Decl(a.clone(), b.clone())).collect();
                    let semi = r.chance(80);
                    write(&ds, r, semi, o);
                    o.push('}');
                }
                o.push('}');
                if !z.is_empty() { o.push(' '); o.push_str(z); }
            }
        }
        o.push_str(ws(r));
        if i + 1 < items.len() || last_semi { o.push(';'); o.push_str(ws(r)); }
    }
}
/// whitespace outside quotes collapsed
fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut q: Option<char> = None;
    let mut it = s.trim().chars();
    while let Some(c) = it.next() {
        if let Some(k) = q {
            o.push(c);
            if c == '\\' { if let Some(n) = it.next() { o.push(n) } } else if c == k { q = None }
            continue;
        }
        if c == '\\' { o.push(c); if let Some(n) = it.next() { o.push(n) } continue; }
        if c == '"' || c == '\'' { q = Some(c) }
        if c.is_whitespace() { if !o.ends_with(' ') { o.push(' ') } } else { o.push(c) }
    }
    o
}
type Key = (String, String); // (at-rule, selector)
/// ordered declarations per place
#[derive(Default, Debug)]
pub struct Flat {
    pub at: Vec<(Key, Vec<(String, String)>)>,
    pub errors: Vec<String>,
}
impl Flat {
    fn put(&mut self, k: Key, n: &str, v: &str) {
        let e = match self.at.iter_mut().find(|x| x.0 == k) { Some(e) => e, None => { self.at.push((k, vec![])); self.at.last_mut().unwrap() } };
        e.1.push((norm(n), norm(v)));
    }
}
/// independent reader of a rule list / declaration list
struct P<'a> { s: Vec<char>, i: usize, f: &'a mut Flat }
impl P<'_> {
    /// reads up to one of `;{}` at structural level; returns text and the stopper
    fn upto(&mut self) -> (String, Option<char>) {
        let mut o = String::new();
        let (mut q, mut d) = (None::<char>, 0usize);
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            if let Some(k) = q {
                o.push(c);
                if c == '\\' { if self.i < self.s.len() { o.push(self.s[self.i]); self.i += 1 } } else if c == k { q = None }
                continue;
            }
            match c {
                '\\' => { o.push(c); if self.i < self.s.len() { o.push(self.s[self.i]); self.i += 1 } }
                '"' | '\'' => { q = Some(c); o.push(c) }
                '/' if d == 0 && self.s.get(self.i) == Some(&'*') => {
                    self.i += 1;
                    while self.i < self.s.len() && !(self.s[self.i] == '*' && self.s.get(self.i + 1) == Some(&'/')) { self.i += 1 }
                    self.i += 2;
                    o.push(' ');
                }
                '(' => { d += 1; o.push(c) }
                ')' => { d = d.saturating_sub(1); o.push(c) }
                ';' | '{' | '}' if d == 0 => return (o, Some(c)),
                c => o.push(c),
            }
        }
        (o, None)
    }
    fn block(&mut self, at: &str, sel: &str) {
        loop {
            let (t, stop) = self.upto();
            let t = t.trim().to_string();
            match stop {
                Some('{') => {
                    if t.starts_with("@keyframes") { self.block(&norm(&t), "") }
                    else if t.starts_with("@media") { let a = norm(&t); self.block(&a, sel) }
                    else if at.starts_with("@keyframes") { self.block(at, &norm(&t)) }
                    else if sel.is_empty() { self.block(at, &norm(&t)) }
                    else if t.starts_with('&') { self.block(at, &norm(&t.replace('&', sel))) }
                    else { self.block(at, &norm(&format!("{sel} {t}"))) }
                }
                s => {
                    if !t.is_empty() {
                        match t.split_once(':') {
                            Some((n, v)) if !sel.is_empty() => self.f.put((at.into(), sel.into()), n, v),
                            _ => self.f.errors.push(format!("no declaration: {t:?} at {at:?} {sel:?}")),
                        }
                    }
                    if s != Some(';') { return }
                }
            }
        }
    }
}
fn scoped(sel: &str, class: &str) -> String {
    let mut out = vec![]; // split on top-level commas
    let (mut d, mut q, mut cur) = (0, None::<char>, String::new());
    for c in sel.chars() {
        if let Some(k) = q { if c == k { q = None } cur.push(c); continue; }
        match c {
            '"' | '\'' => { q = Some(c); cur.push(c) }
            '(' | '[' => { d += 1; cur.push(c) }
            ')' | ']' => { d -= 1; cur.push(c) }
            ',' if d == 0 => out.push(std::mem::take(&mut cur)),
            c => cur.push(c),
        }
    }
    out.push(cur);
    out.iter().map(|s| { let s = s.trim(); if s.starts_with([':', '[']) { format!(".{class}{s}") } else { format!(".{class} {s}") } }).collect::<Vec<_>>().join(", ")
}
/// expected places; animation names are resolved from the emitted value
fn expect(items: &[It], class: &str, at: &str, sel: &str, o: &mut Vec<(Key, Vec<(String, String)>)>, an: &mut Vec<(Key, usize, It)>) {
    fn slot<'a>(o: &'a mut Vec<(Key, Vec<(String, String)>)>, k: Key) -> &'a mut Vec<(String, String)> {
        if let Some(i) = o.iter().position(|x| x.0 == k) { return &mut o[i].1 }
        o.push((k, vec![]));
        &mut o.last_mut().unwrap().1
    }
    for it in items {
        match it {
            It::Decl(n, v) => slot(o, (at.into(), sel.into())).push((norm(n), norm(v))),
            It::Nest(s, b) => expect(b, class, at, &norm(&scoped(s, class)), o, an),
            It::Media(q, b) => expect(b, class, &norm(q), sel, o, an),
            It::Anim(a, _, z) => {
                let k: Key = (at.into(), sel.into());
                let s = slot(o, k.clone());
                an.push((k, s.len(), it.clone()));
                s.push(("animation".into(), norm(&format!("{a} \u{1} {z}"))));
            }
        }
    }
}

struct Mon {
    seen_static: HashMap<String, String>,
    seen_dyn: HashMap<String, String>,
    owners: HashMap<String, String>,
    keyframes: HashSet<String>,
    cases: u64,
}
impl Mon {
    /// asks the library for the class of one text and checks what it emitted
    fn one(&mut self, items: &[It], text: &str, css: &Css, stat: bool) {
        inspect::log_start();
        let cls = get_driver().class_name_for(css);
        let cmds = inspect::log_take();
        let rules: Vec<(String, String)> = cmds.iter().filter_map(|c| match c { C::InsertCss { selector, value } => Some((selector.clone(), value.clone())), _ => None }).collect();
        trace(format!("{} {text:?} -> {cls} {rules:?}", if stat { "static" } else { "dynamic" }));
        cov(|c| { c.inc("styles"); c.hs(text); c.distinct.insert(c.hash); });
        let seen = if stat { &mut self.seen_static } else { &mut self.seen_dyn };
        if let Some(old) = seen.get(text) {
            cov(|c| c.inc("styles_reused"));
            if *old != cls { viol("C12", "css:class-not-reused", format!("{text:?} had class {old}, now {cls}")) }
            if !rules.is_empty() { viol("C12", "css:emitted-twice", format!("{text:?} emitted again: {rules:?}")) }
            return;
        }
        seen.insert(text.to_string(), cls.clone());
        if cls.is_empty() || cls.contains(char::is_whitespace) { return viol("C12", "css:class-token", format!("class string {cls:?} for one description {text:?}")) }
        if rules.is_empty() { return viol("C12", "css:nothing-emitted", format!("no rules for {text:?}")) }
        if self.keyframes.contains(&cls) { viol("C12", "css:class-clash", format!("class {cls} is an animation's name")) }
        if let Some(o) = self.owners.insert(cls.clone(), text.to_string()) {
            if o != text { viol("C12", "css:class-clash", format!("{cls} belongs to {o:?} and {text:?}")) }
        }
        let mut f = Flat::default();
        for (s, v) in &rules {
            let s: Vec<char> = format!("{s} {{ {v} }}").chars().collect();
            let mut p = P { s, i: 0, f: &mut f };
            p.block("", "");
            if p.i < p.s.len() { f.errors.push(format!("unbalanced rule: {:?}", rules)) }
        }
        for e in &f.errors { viol("C12", "css:malformed", format!("{e} in the rules for {text:?}: {rules:?}")) }
        let (mut exp, mut an) = (vec![], vec![]);
        expect(items, &cls, "", &format!(".{cls}"), &mut exp, &mut an);
        let got: BTreeMap<Key, Vec<(String, String)>> = f.at.iter().cloned().collect();
        // resolve animations
        let mut used = HashSet::new();
        for (k, i, it) in &an {
            let It::Anim(a, frames, z) = it else { continue };
            let gv = got.get(k).and_then(|g| g.get(*i)).map(|x| x.1.clone()).unwrap_or_default();
            let (a, z) = (norm(a), norm(z));
            let name = gv.strip_prefix(a.as_str()).and_then(|x| x.strip_suffix(z.as_str())).map(|x| x.trim().to_string()).unwrap_or_default();
            if name.is_empty() || name.contains(' ') || !gv.starts_with(&format!("{a} ")) {
                viol("C12", "css:animation-value", format!("animation of {k:?} became {gv:?} in {rules:?} for {text:?}"));
            } else {
                cov(|c| c.inc("animations"));
                if !used.insert(name.clone()) || !self.keyframes.insert(name.clone()) || self.owners.contains_key(&name) { viol("C12", "css:animation-name", format!("animation name {name} is used twice ({text:?})")) }
                for (st, ds) in frames {
                    exp.push(((format!("@keyframes {name}"), norm(st)), ds.iter().map(|(a, b)| (norm(a), norm(b))).collect()));
                }
            }
            if let Some(s) = exp.iter_mut().find(|x| x.0 == *k) { s.1[*i].1 = gv }
        }
        let mut e2: BTreeMap<Key, Vec<(String, String)>> = BTreeMap::new();
        for (k, v) in &exp { e2.entry(k.clone()).or_default().extend(v.iter().cloned()) }
        e2.retain(|_, v| !v.is_empty());
        for (k, v) in &e2 {
            cov(|c| { c.add("declarations", v.len() as u64); c.inc("places") });
            match got.get(k) {
                None => viol("C12", "css:place-missing", format!("no rule for {k:?} {v:?} in {rules:?} for {text:?}")),
                Some(g) if g != v => viol("C12", "css:declarations", format!("{k:?} expected {v:?} got {g:?} for {text:?}")),
                _ => {}
            }
        }
        for k in got.keys() { if !e2.contains_key(k) { viol("C12", "css:place-extra", format!("unexpected rule {k:?} {:?} in {rules:?} for {text:?}", got[k])) } }
        for ((at, sel), _) in &got {
            if !at.starts_with("@keyframes") && sel.split(", ").count() > 0 && !sel.contains(&format!(".{cls}")) { viol("C12", "css:unscoped", format!("{sel:?} without class {cls} for {text:?}")) }
        }
        // rules of equal weight keep the written order, else another one wins
        let pos = |k: &Key| f.at.iter().position(|x| x.0 == *k);
        let main: Key = (String::new(), format!(".{cls}"));
        let order: Vec<Key> = exp.iter().map(|x| x.0.clone()).filter(|k| !k.0.starts_with("@keyframes") && *k != main && !k.1.contains(".ref")).collect();
        for w in order.windows(2) {
            if let (Some(a), Some(b)) = (pos(&w[0]), pos(&w[1])) {
                // within one media block plain declarations go first
                if a > b && w[0].0 != w[1].0 { viol("C12", "css:order", format!("{:?} is emitted after {:?} for {text:?}", w[0], w[1])) }
            }
        }
        if let Some(m) = e2.get(&main) {
            for (k, v) in &e2 {
                if k.0.starts_with("@media") && k.1 == main.1 && v.iter().any(|d| m.iter().any(|x| x.0 == d.0)) && pos(k) < pos(&main) {
                    viol("C12", "css:media-before-base", format!("the base rule follows the rule of {} and always overrides it", k.0));
                    break;
                }
            }
        }
        self.cases += 1;
        if e2.len() > 1 { cov(|c| c.nontrivial = true) }
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
pub fn d(n: &str, v: impl Into<String>) -> It {
    It::Decl(n.into(), v.into())
}
pub fn nest(s: impl Into<String>, b: Vec<It>) -> It {
    It::Nest(s.into(), b)
}
fn text_of(c: &Css) -> (String, bool) {
    match &c.groups[0] { CssGroup::CssStatic { value } => (value.to_string(), true), CssGroup::CssDynamic { value } => (value.clone(), false), CssGroup::CssMedia { .. } => (String::new(), false) }
}
/// what the generated programs of the macros embed
pub struct O { pub n: i32, pub name: String }
pub struct X { pub n: i32, pub m: u8, pub f: f64, pub col: String, pub word: &'static str, pub url: &'static str, pub o: O, pub r0: Css, pub r1: Css, pub r2: Css, pub k0: String, pub k1: String, pub k2: String }
pub fn twice(m: u8) -> u32 { m as u32 * 2 }
pub fn block(text: String) -> Css { Css::string(text) }
const WORDS: &[&str] = &["red", "rgba(1, 2, 3, 0.5)", "var(--ż)", "\"a;b\"", "calc(1px + {n})", "'{'", "\"{0} {{x}}\"", "0"];
fn embedded(m: &mut Mon, r: &mut Rng) -> X {
    let (r0, r1, r2) = (css! {"color: black;"}, css! {"width: 7px;"}, Css::string(format!("height: {}px", r.below(90))));
    let h = if let CssGroup::CssDynamic { value } = &r2.groups[0] { value.trim_start_matches("height: ").to_string() } else { String::new() };
    let (k0, k1, k2) = (m_class(m, &r0, &[d("color", "black")]), m_class(m, &r1, &[d("width", "7px")]), m_class(m, &r2, &[d("height", h)]));
    X { n: r.range(-20, 500) as i32, m: r.below(100) as u8, f: *r.pick(&[0.5, 1.25, -3.0, 100.0, 1e-3]), col: format!("#{:06x}", r.below(0xffffff)), word: *r.pick(WORDS), url: *r.pick(&["a.png", "data:image/png;base64,AA==", "x?y={z};"]), o: O { n: r.below(9) as i32, name: r.pick(WORDS).to_string() }, r0, r1, r2, k0, k1, k2 }
}
/// generated programs of the macros: each style with several sets of embedded values
pub fn programs(o: &Opts, k: u64, styles: &[fn(&X) -> (Css, Vec<It>)]) {
    let mut r = Rng::new(o.seed ^ 0xc55e, k);
    let mut m = Mon { seen_static: HashMap::new(), seen_dyn: HashMap::new(), owners: HashMap::new(), keyframes: HashSet::new(), cases: 0 };
    let mut x = embedded(&mut m, &mut r);
    for i in 0..6 {
        // every program runs for a number of cases not smaller than that of the programs
        let at = if i == 0 { k as usize % styles.len() } else { r.below(styles.len()) };
        if r.chance(30) { x = embedded(&mut m, &mut r) }
        let (c, items) = styles[at](&x);
        cov(|c| c.inc("macro_programs"));
        trace(format!("program {at}"));
        let (t, s) = text_of(&c);
        m.one(&items, &t, &c, s);
    }
}
/// styles written in the macro, with embedded values
fn macros(m: &mut Mon, r: &mut Rng) {
    let n = r.below(500);
    let col = format!("#{:06x}", r.below(0xffffff));
    let word = *r.pick(&["red", "rgba(1, 2, 3, 0.5)", "var(--ż)", "\"a;b\"", "calc(1px + {n})"]);
    let url = *r.pick(&["a.png", "data:image/png;base64,AA==", "x?y={z};"]);
    let inner = css! {"color: black;"};
    let icls = { m_class(m, &inner, &[d("color", "black")]) };
    let other = css! {"width: 7px;"};
    let ocls = m_class(m, &other, &[d("width", "7px")]);
    let k = r.below(9);
    let (c, exp): (Css, Vec<It>) = match k {
        0 => (css! {"width: {n}px; color: {col};"}, vec![d("width", format!("{n}px")), d("color", col.clone())]),
        1 => (css! {"color: {word}; :hover { background-color: {word}; margin: 1px; }; padding: 2px;"}, vec![d("color", word), nest(":hover", vec![d("background-color", word), d("margin", "1px")]), d("padding", "2px")]),
        2 => (css! {"background-image: url({url});"}, vec![d("background-image", format!("url('{url}')"))]),
        3 => (css! {"width: 40px; :hover [inner] [other] { color: {col}; };"}, vec![d("width", "40px"), nest(format!(":hover .{icls} .{ocls}"), vec![d("color", col.clone())])]),
        4 => (css! {"width: 40px; [inner] { color: {col}; margin: 0; }; height: 3px;"}, vec![d("width", "40px"), nest(format!(".{icls}"), vec![d("color", col.clone()), d("margin", "0")]), d("height", "3px")]),
        5 => (css! {"animation: 1.0s infinite ease-in-out { 0% { width: 1px; color: {col}; } 50% { width: {n}px; } 100% { width: 1px; } };"}, vec![It::Anim("1.0s infinite ease-in-out".into(), vec![("0%".into(), vec![("width".into(), "1px".into()), ("color".into(), col.clone())]), ("50%".into(), vec![("width".into(), format!("{n}px"))]), ("100%".into(), vec![("width".into(), "1px".into())])], String::new())]),
        6 => (css! {"color: red; @media screen and (min-width: 400px) { width: {n}px; :hover { margin: {n}px; }; }; @media print { height: 1px; };"}, vec![d("color", "red"), It::Media("@media screen and (min-width: 400px)".into(), vec![d("width", format!("{n}px")), nest(":hover", vec![d("margin", format!("{n}px"))])]), It::Media("@media print".into(), vec![d("height", "1px")])]),
        7 => (css! {"/* it's { a comment; */ color: red; :focus::first-letter { color: crimson; }; :nth-of-type(2) { color: {word}; };"}, vec![d("color", "red"), nest(":focus::first-letter", vec![d("color", "crimson")]), nest(":nth-of-type(2)", vec![d("color", word)])]),
        _ => (css! {"background: url('data:image/svg+xml;utf8,<svg/>'); color: red;"}, vec![d("background", "url('data:image/svg+xml;utf8,<svg/>')"), d("color", "red")]),
    };
    cov(|c| c.inc("macro_styles"));
    let (t, s) = text_of(&c);
    m.one(&exp, &t, &c, s);
}
fn m_class(m: &mut Mon, c: &Css, exp: &[It]) -> String {
    let (t, s) = text_of(c);
    m.one(exp, &t, c, s);
    get_driver().class_name_for(c)
}

/// changes one character of a value
fn near(items: &mut [It], r: &mut Rng) -> bool {
    let n = items.len();
    if n == 0 { return false }
    let i = r.below(n);
    let from = if r.chance(50) { i } else { n - 1 };
    match &mut items[from] {
        It::Decl(_, v) => {
            let c: Vec<char> = v.chars().collect();
            let at: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric() && (*i == 0 || c[*i - 1] != '\\')).collect();
            if at.is_empty() { return false }
            let at = *r.pick(&at);
            *v = c.iter().enumerate().map(|(i, ch)| match *ch {
                ch if i != at => ch,
                ch if ch.is_ascii_lowercase() => ch.to_ascii_uppercase(),
                ch if ch.is_ascii_uppercase() => ch.to_ascii_lowercase(),
                '9' => '0',
                ch => (ch as u8 + 1) as char,
            }).collect();
            true
        }
        It::Nest(_, b) | It::Media(_, b) => near(b, r),
        It::Anim(..) => false,
    }
}
pub fn case(o: &Opts, k: u64) {
    let mut r = Rng::new(o.seed ^ 0xc55, k);
    cov(|c| c.h(mix(k)));
    let mut m = Mon { seen_static: HashMap::new(), seen_dyn: HashMap::new(), owners: HashMap::new(), keyframes: HashSet::new(), cases: 0 };
    let mut pool: Vec<(Vec<It>, String, &'static str)> = vec![];
    let mut forms: Vec<(u64, bool)> = vec![];
    let steps = 6 + r.below(14);
    for _ in 0..steps {
        if r.chance(15) { macros(&mut m, &mut r); continue }
        let i = if !pool.is_empty() && r.chance(35) { r.below(pool.len()) } else {
            let mut items = Gen { r: &mut r, lib_refs: vec![] }.body(false, 0);
            let mut form = (r.below(1 << 30) as u64, r.chance(60));
            if !pool.is_empty() && r.chance(25) {
                // almost an earlier one: one character of one value differs, in the same form or another
                let i = r.below(pool.len());
                items = pool[i].0.clone();
                if r.chance(60) { form = forms[i] }
                if near(&mut items, &mut r) { cov(|c| c.inc("styles_almost_equal")) }
            }
            let mut t = String::new();
            write(&items, &mut Rng::new(form.0, k), form.1, &mut t);
            forms.push(form);
            let l = leak(&t);
            pool.push((items, t, l));
            pool.len() - 1
        };
        let (items, t, l) = pool[i].clone();
        match r.below(4) {
            0 => m.one(&items, &t, &Css::str(l), true),
            1 => m.one(&items, &t, &Css::string(t.clone()), false),
            2 => {
                // a media group given as parts
                let q = *r.pick(QUERIES);
                let ds = { let n = 1 + r.below(3); Gen { r: &mut r, lib_refs: vec![] }.plain(n) };
                let c = Css { groups: vec![CssGroup::CssMedia { query: q.trim_start_matches("@media ").into(), rules: ds.iter().map(|(a, b)| format!("{a}: {b}{}", if r.chance(40) { ";" } else { "" })).collect() }] };
                // with or without the last semicolon it is the same group
                let key = format!("\u{2}{q} {ds:?}");
                let exp = vec![It::Media(q.into(), ds.into_iter().map(|(a, b)| It::Decl(a, b)).collect())];
                if !m.seen_dyn.contains_key(&key) { cov(|c| c.inc("media_groups")); m.one(&exp, &key, &c, false) }
            }
            _ => {
                // composition: the class string lists the classes of the parts in order
                let mut c = Css::default();
                let mut parts = vec![];
                for _ in 0..1 + r.below(3) {
                    let (items, t, l) = pool[r.below(pool.len())].clone();
                    let st = r.chance(50);
                    let one = if st { Css::str(l) } else { Css::string(t.clone()) };
                    m.one(&items, &t, &one, st);
                    parts.push(get_driver().class_name_for(&one));
                    c = match (st, r.chance(50)) { (true, true) => c.push_str(l), (false, true) => { c.push_string(t); c } _ => c.extend(one) };
                }
                inspect::log_start();
                let cls = get_driver().class_name_for(&c);
                let left = inspect::log_take().len();
                cov(|c| c.inc("compositions"));
                if cls != parts.join(" ") || left > 0 { viol("C12", "css:composition", format!("{c:?} gives {cls:?} ({left} commands), its parts {parts:?}")) }
            }
        }
    }
}
