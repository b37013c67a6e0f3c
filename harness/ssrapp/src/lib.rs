//! The application behind the server monitors: it renders the page described in its address.
#[path = "../../app/src/json.rs"]
mod json;
use json::J;
use std::cell::RefCell;
use std::collections::BTreeMap;
use vertigo::router::Router;
use vertigo::{dom, get_driver, transaction, AutoJsJson, Computed, Css, DomComment, DomElement, DomNode, DomText, FetchMethod, JsJson, LazyCache, RequestBody, Reactive, RequestBuilder, Resource, Value};

#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Rec { s: String }

#[derive(Clone, PartialEq, Debug)]
struct Rt(String);
impl ToString for Rt { fn to_string(&self) -> String { self.0.clone() } }
impl From<String> for Rt { fn from(s: String) -> Rt { Rt(s) } }

#[derive(Default)]
struct W {
    vals: RefCell<BTreeMap<i64, Value<String>>>,
    lists: RefCell<BTreeMap<i64, Value<Vec<String>>>>,
    caches: RefCell<Vec<LazyCache<Rec>>>,
    router: RefCell<Option<Router<Rt>>>,
}
thread_local! { static WORLD: &'static W = Box::leak(Box::default()); }
fn w() -> &'static W { WORLD.with(|x| *x) }
fn val(i: i64) -> Value<String> { w().vals.borrow_mut().entry(i).or_insert_with(|| Value::new(String::new())).clone() }
fn list(i: i64) -> Value<Vec<String>> { w().lists.borrow_mut().entry(i).or_insert_with(|| Value::new(vec![])).clone() }

fn opt(s: String) -> Option<String> { if s.starts_with('~') { None } else { Some(s) } }
fn even(s: &str) -> bool { s.chars().count() % 2 == 0 }
fn nodes(l: &J) -> Vec<DomNode> { l.l().iter().map(node).collect() }
fn frag(l: &J) -> DomNode { DomNode::from(DomComment::dom_fragment(nodes(l))) }
fn attrs(mut e: DomElement, l: &J) -> DomElement {
    for a in l.l() {
        let a = a.l();
        let name = a[0].s().to_string();
        e = match a[1].s() {
            "s" => e.attr(name, a[2].s().to_string()),
            "v" => e.attr(name, val(a[2].i())),
            "c" => { let v = val(a[2].i()); e.attr(name, Computed::from(move |c| format!("{}!", v.get(c)))) }
            "o" => { let v = val(a[2].i()); e.attr(name, Computed::from(move |c| opt(v.get(c)))) }
            "css" => e.css(Css::string(a[2].s().to_string())),
            "cssv" => { let v = val(a[2].i()); e.css(Computed::from(move |c| Css::string(format!("color: c{}", v.get(c).chars().count())))) }
            "cssn" => e.css(Css::string(format!("color: red; :hover {{ color: {} }}", a[2].s()))),
            "cssm" => e.css(Css::string(format!("color: red; @media print {{ color: {} }}", a[2].s()))),
            "cssk" => e.css(Css::string(format!("color: red; animation: 1s {{ 0% {{ color: {} }} }}", a[2].s()))),
            "on" => { let v = val(a[2].i()); e.on_click(move || v.set("clicked".into())) }
            x => panic!("attr {x}"),
        };
    }
    e
}
fn node(n: &J) -> DomNode {
    let a = n.l();
    match a[0].s() {
        "e" => {
            let e = attrs(DomElement::new(a[1].s().to_string()), &a[2]);
            for k in a[3].l() { e.add_child(node(k)) }
            DomNode::from(e)
        }
        "t" => DomNode::from(DomText::new(a[1].s().to_string())),
        "tv" => vertigo::EmbedDom::embed(val(a[1].i())),
        "f" => frag(&a[1]),
        "rp" => frag(&J::L(vec![a[2].clone(); a[1].i() as usize])),
        "dp" => (0..a[1].i()).fold(node(&a[2]), |x, _| DomNode::from(DomElement::new("div").child(x))),
        "tr" => DomNode::from(DomText::new(a[1].s().repeat(a[2].i() as usize))),
        "rv" => {
            let (x, y) = (a[2].clone(), a[3].clone());
            val(a[1].i()).to_computed().render_value(move |s| frag(if even(&s) { &x } else { &y }))
        }
        "ro" => {
            let x = a[2].clone();
            val(a[1].i()).to_computed().render_value_option(move |s| opt(s).map(|_| frag(&x)))
        }
        "l" => {
            let tag = a[2].s().to_string();
            list(a[1].i()).to_computed().render_list(|x| x.clone(), move |x| DomNode::from(DomElement::new(tag.clone()).child_text(x.clone())))
        }
        "ld" => load(&a[1], a[2].s()),
        "env" => DomNode::from(DomText::new(get_driver().env(a[1].s()).unwrap_or("none".into()))),
        "isb" => DomNode::from(DomText::new(get_driver().is_browser().to_string())),
        "loc" => {
            let r = w().router.borrow_mut().get_or_insert_with(Router::new_history_router).clone();
            Computed::from(move |c| r.get(c).0).render_value(|s| DomNode::from(DomText::new(s)))
        }
        "rand" => {
            let v = get_driver().get_random(a[1].i() as u32, a[2].i() as u32) as i64;
            DomNode::from(DomText::new(format!("{}", v >= a[1].i() && v <= a[2].i())))
        }
        "tz" => DomNode::from(DomText::new(format!("{}", get_driver().timezone_offset() % 60))),
        "cookie" => DomNode::from(DomText::new(format!("[{}]", get_driver().cookie_get(a[1].s())))),
        "now" => DomNode::from(DomText::new(format!("{}", get_driver().utc_now() > 1_600_000_000_000))),
        "facts" => {
            let (a, b, n) = (a[1].i() as u32, a[2].i() as u32, a[3].i());
            let d = get_driver();
            let start = d.now();
            let l: Vec<J> = (0..n).map(|_| J::I(d.get_random(a, b) as i64)).collect();
            let pick: Vec<J> = (0..n).map(|_| J::I(d.get_random_from(&[3i64, 5, 8]).unwrap_or(-1))).collect();
            let t: Vec<J> = vec![J::I(d.utc_now()), J::I(start.instant as i64), J::I(start.elapsed() as i64), J::B(start.add_duration(std::time::Duration::from_secs(100)).is_expire()), J::I(d.timezone_offset() as i64), J::B(d.is_browser()), J::B(d.is_server()), J::B(d.get_random_from::<i64>(&[]).is_none())];
            DomNode::from(DomText::new(J::L(vec![J::L(l), J::L(pick), J::L(t)]).show()))
        }
        "say" => { say(a[1].s(), a[2].s()); frag(&J::L(vec![])) }
        "ws" => {
            let d = get_driver().websocket("ws://127.0.0.1:1/", |_| {});
            std::mem::forget(d);
            DomNode::from(DomText::new("ws".to_string()))
        }
        "boom" => boom(a[1].s()),
        x => panic!("node {x}"),
    }
}
fn builder(a: &[J]) -> RequestBuilder {
    let m = match a[0].s() { "GET" => FetchMethod::GET, "POST" => FetchMethod::POST, "PUT" => FetchMethod::PUT, "PATCH" => FetchMethod::PATCH, "DELETE" => FetchMethod::DELETE, "HEAD" => FetchMethod::HEAD, "OPTIONS" => FetchMethod::OPTIONS, x => panic!("method {x}") };
    let mut b = RequestBuilder::new(m, a[1].s());
    for h in a[2].l() { b = b.set_header(h.l()[0].s(), h.l()[1].s()) }
    match a[3].s() {
        "none" => b,
        "text" => b.body(RequestBody::Text(a[4].s().into())),
        "json" => b.body(RequestBody::Json(jj(&a[4]))),
        "bin" => b.body(RequestBody::Binary(a[4].l().iter().map(|x| x.i() as u8).collect())),
        x => panic!("body {x}"),
    }
}
fn jj(j: &J) -> JsJson {
    match j {
        J::N => JsJson::Null,
        J::B(b) => if *b { JsJson::True } else { JsJson::False },
        J::I(i) => JsJson::Number(*i as f64),
        J::F(f) => JsJson::Number(*f),
        J::S(s) => if s == "@nan" { JsJson::Number(f64::NAN) } else { JsJson::String(s.clone()) },
        J::L(l) => JsJson::List(l.iter().map(jj).collect()),
        J::O(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), jj(v))).collect()),
    }
}
fn unjj(j: &JsJson) -> J {
    match j {
        JsJson::Null => J::N,
        JsJson::True => J::B(true),
        JsJson::False => J::B(false),
        JsJson::Number(n) => if n.fract() == 0.0 && n.abs() < 1e15 { J::I(*n as i64) } else { J::S(format!("#{:016x}", n.to_bits())) },
        JsJson::String(s) => J::S(s.clone()),
        JsJson::List(l) => J::L(l.iter().map(unjj).collect()),
        JsJson::Object(o) => { let mut v: Vec<(String, J)> = o.iter().map(|(k, v)| (k.clone(), unjj(v))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); J::O(v) }
    }
}
/// A part of the page that depends on a load.
fn load(req: &J, mode: &str) -> DomNode {
    let a = req.l().to_vec();
    match mode {
        "cache" => {
            let c = builder(&a).ttl_minutes(10).lazy_cache(|s, b| match s { 200 => Some(b.into::<Rec>()), s => Some(Err(format!("st{s}"))) });
            w().caches.borrow_mut().push(c.clone());
            c.to_computed().render_value(|r| match r {
                Resource::Loading => DomNode::from(DomText::new("loading".to_string())),
                Resource::Ready(x) => frag(&J::parse(&x.s)),
                Resource::Error(e) => DomNode::from(DomText::new(if e.starts_with("st") { e } else { "fail".into() })),
            })
        }
        "fetch" | "boom" | "nap" => {
            let v: Value<Option<String>> = Value::new(None);
            let (boom, nap) = (mode == "boom", mode == "nap");
            get_driver().spawn({
                let v = v.clone();
                async move {
                    if nap { get_driver().sleep(0).await }
                    let r = builder(&a).call().await;
                    if nap { get_driver().sleep(0).await }
                    if boom { panic!("after the load") }
                    let out = if r.status().is_none() { "fail".to_string() } else {
                        r.into(|s, b| Some(Ok(match b {
                            RequestBody::Json(JsJson::Object(o)) if s == 200 && o.contains_key("s") => { if let JsJson::String(t) = &o["s"] { format!("@{t}") } else { "bad".into() } }
                            RequestBody::Json(j) => format!("{s} json {}", unjj(&j).show()),
                            RequestBody::Text(t) => format!("{s} text {t}"),
                            RequestBody::Binary(b) => format!("{s} bin {b:?}"),
                        }))).unwrap_or_else(|_| "fail".into())
                    };
                    v.set(Some(out));
                }
            });
            v.to_computed().render_value(|r| match r {
                None => DomNode::from(DomText::new("loading".to_string())),
                Some(t) => if let Some(s) = t.strip_prefix('@') { frag(&J::parse(s)) } else { DomNode::from(DomText::new(t)) },
            })
        }
        x => panic!("mode {x}"),
    }
}
fn say(level: &str, t: &str) {
    match level { "trace" => vertigo::log::trace!("{t}"), "debug" => vertigo::log::debug!("{t}"), "info" => vertigo::log::info!("{t}"), "warn" => vertigo::log::warn!("{t}"), _ => vertigo::log::error!("{t}") }
}
/// ends the application: with a panic, or without a word
fn boom(t: &str) -> ! {
    #[allow(unconditional_recursion)]
    fn deep(n: u64) -> u64 {
        let l = std::hint::black_box([n; 64]);
        deep(l[(n % 64) as usize] + 1) + l[3]
    }
    match t {
        "!trap abort" => std::process::abort(),
        "!trap deep" => panic!("{}", deep(1)),
        "!trap memory" => loop { std::mem::forget(std::hint::black_box(Vec::<u8>::with_capacity(1 << 30))) },
        "!trap access" => unsafe { panic!("{}", std::ptr::read_volatile(std::hint::black_box(0xffff_fff0u32) as *const u32)) },
        t => panic!("{t}"),
    }
}
fn act(a: &[J]) {
    match a[0].s() {
        "set" => val(a[1].i()).set(a[2].s().into()),
        "lset" => list(a[1].i()).set(a[2].l().iter().map(|x| x.s().to_string()).collect()),
        "lnum" => list(a[1].i()).set((0..a[2].i()).map(|i| format!("i{i}")).collect()),
        "tx" => transaction(|_| a[1].l().iter().for_each(|x| act(x.l()))),
        "boom" => boom(a[1].s()),
        "rtset" => { let r = w().router.borrow_mut().get_or_insert_with(Router::new_history_router).clone(); r.set(Rt(a[1].s().into())) }
        "log" => vertigo::log::info!("{}", a[1].s()),
        "say" => say(a[1].s(), a[2].s()),
        "ckset" => get_driver().cookie_set(a[1].s(), a[2].s(), 100),
        "then" => { let (d, l) = (a[1].i(), a[2].l().to_vec()); later(d, l) }
        "iv" => { let d = get_driver().set_interval(a[1].i() as u32, || panic!("an interval ran on the server")); std::mem::forget(d) }
        "loop" => loop { std::hint::black_box(0); },
        x => panic!("act {x}"),
    }
}
fn later(delay: i64, l: Vec<J>) {
    get_driver().spawn(async move {
        get_driver().sleep(delay as u32).await;
        act(&l);
    });
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn spec_of(url: &str) -> Option<J> {
    let (_, q) = url.split_once("d=")?;
    Some(J::parse(&unhex(q.split(|c: char| !c.is_ascii_hexdigit()).next().unwrap())))
}

#[vertigo::main]
fn render() -> DomNode {
    let url = Router::<Rt>::new_history_router();
    let url = transaction(|c| url.get(c).0);
    get_driver().plains(|url| {
        let s = spec_of(url)?;
        let p = &s.l()[5];
        if p.is_null() { None } else if p.s() == "@url" { Some(url.to_string()) } else { Some(p.s().to_string()) }
    });
    let Some(s) = spec_of(&url) else {
        return dom! { <html><head><title>"plain"</title></head><body><p>{url}</p></body></html> };
    };
    let a = s.l();
    for v in a[3].l() { let v = v.l(); if let J::L(x) = &v[1] { list(v[0].i()).set(x.iter().map(|x| x.s().to_string()).collect()) } else { val(v[0].i()).set(v[1].s().into()) } }
    for x in a[4].l() { let x = x.l(); later(x[0].i(), x[1].l().to_vec()) }
    let html = attrs(DomElement::new("html"), &a[0]);
    let head = attrs(DomElement::new("head"), &J::L(vec![]));
    for k in a[1].l() { head.add_child(node(k)) }
    let body = attrs(DomElement::new("body"), &a[2].l()[0]);
    for k in a[2].l()[1].l() { body.add_child(node(k)) }
    DomNode::from(html.child(head).child(body))
}
