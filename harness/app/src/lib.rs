//! The application run by the browser monitors: it executes textual commands of the host and
//! logs what it observes. Everything the host judges is in that log or in the fake browser.
mod alloc;
mod json;
use json::J;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};
use vertigo::router::Router;
use vertigo::{dom, get_driver, transaction, AutoJsJson, DomElement, DomNode, DropResource, FetchMethod, FutureBox, FutureBoxSend, JsJson, JsValue, LazyCache, Reactive, RequestBody, RequestBuilder, Resource, Value, WebsocketConnection, WebsocketMessage};

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

#[link(wasm_import_module = "vp")]
extern "C" {
    #[link_name = "log"]
    pub fn vp_log(ptr: *const u8, len: usize);
}
fn log(j: J) {
    let t = j.show();
    unsafe { vp_log(t.as_ptr(), t.len()) }
}
macro_rules! log { ($($x:expr),* $(,)?) => { log(J::L(vec![$(J::from($x)),*])) } }

#[derive(AutoJsJson, Clone, PartialEq, Debug)]
pub struct Rec {
    id: u32,
    name: String,
    tag: Option<String>,
}
fn rec(r: &Rec) -> J { J::L(vec![J::from(r.id), J::from(&r.name), J::from(r.tag.clone())]) }

#[derive(Clone, PartialEq, Debug)]
struct Rt(String);
impl ToString for Rt { fn to_string(&self) -> String { self.0.clone() } }
impl From<String> for Rt { fn from(s: String) -> Rt { Rt(s) } }

#[derive(Default)]
struct App {
    boxes: RefCell<BTreeMap<i64, (FutureBoxSend<i64>, Option<FutureBox<i64>>)>>,
    ivs: RefCell<BTreeMap<i64, DropResource>>,
    caches: RefCell<BTreeMap<i64, LazyCache<Rec>>>,
    subs: RefCell<BTreeMap<i64, DropResource>>,
    ws: RefCell<BTreeMap<i64, DropResource>>,
    conns: RefCell<BTreeMap<i64, WebsocketConnection>>,
    routers: RefCell<BTreeMap<i64, Router<Rt>>>,
    scen: RefCell<Option<scen::Scenario>>,
    insts: RefCell<BTreeMap<i64, vertigo::Instant>>,
    vals: RefCell<BTreeMap<i64, Value<i64>>>,
    els: RefCell<BTreeMap<i64, DomElement>>,
}
thread_local! {
    static APP: &'static App = Box::leak(Box::default());
    static VIEW: Value<Option<i64>> = Value::new(None);
    static TAKEN: Cell<i64> = const { Cell::new(0) };
}
fn app() -> &'static App { APP.with(|a| *a) }
fn now() -> i64 { get_driver().utc_now() }

// ------------------------------------------------------------------ futures
struct Watch { id: i64, name: &'static str, f: Pin<Box<dyn Future<Output = ()>>>, done: bool }
impl Future for Watch {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.done { log!["polled_after_done", self.id, self.name] }
        log!["poll", self.id];
        let r = self.f.as_mut().poll(cx);
        if r.is_ready() { self.done = true; log!["done", self.id, now()] }
        r
    }
}
impl Drop for Watch { fn drop(&mut self) { log!["drop", self.id, self.done] } }
struct Yield(u32, bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.1 { return Poll::Ready(()) }
        self.1 = true;
        for _ in 0..self.0 { cx.waker().wake_by_ref() }
        if self.0 > 2 { cx.waker().clone().wake() }
        Poll::Pending
    }
}
struct Join(Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>);
impl Future for Join {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let mut left = false;
        for f in self.0.iter_mut() {
            if let Some(x) = f { if x.as_mut().poll(cx).is_ready() { *f = None } else { left = true } }
        }
        if left { Poll::Pending } else { Poll::Ready(()) }
    }
}
struct Race(Vec<FutureBox<()>>);
impl Future for Race {
    type Output = usize;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<usize> {
        for (i, f) in self.0.iter_mut().enumerate() { if Pin::new(f).poll(cx).is_ready() { return Poll::Ready(i) } }
        Poll::Pending
    }
}
struct Either(Pin<Box<dyn Future<Output = ()>>>, FutureBox<()>);
impl Future for Either {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.0.as_mut().poll(cx).is_ready() { return Poll::Ready(()) }
        Pin::new(&mut self.1).poll(cx)
    }
}
fn steps(id: i64, prog: Vec<J>, path: String) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(async move {
        for (n, s) in prog.iter().enumerate() {
            let at = format!("{path}{n}");
            let a = s.l();
            log!["begin", id, at.clone(), now()];
            let mut out = J::N;
            match a[0].s() {
                "s" => get_driver().sleep(a[1].i() as u32).await,
                "w" => {
                    let f = app().boxes.borrow_mut().get_mut(&a[1].i()).and_then(|b| b.1.take());
                    match f { Some(f) => out = J::I(f.await), None => out = J::from("taken") }
                }
                "p" => publish(a[1].i(), a[2].i()),
                "k" => {
                    let f = app().boxes.borrow_mut().get_mut(&a[1].i()).and_then(|b| b.1.take());
                    match f {
                        Some(mut f) => {
                            let x = std::future::poll_fn(|cx| Poll::Ready(Pin::new(&mut f).poll(cx))).await;
                            if let Poll::Ready(v) = x { publish(a[1].i(), v); out = J::I(v) }
                            if let Some(b) = app().boxes.borrow_mut().get_mut(&a[1].i()) { b.1 = Some(f) }
                        }
                        None => out = J::from("taken"),
                    }
                }
                "y" => Yield(a[1].i() as u32, false).await,
                "c" => steps(id, a[1].l().to_vec(), format!("{at}.")).await,
                "sp" => spawn(a[1].i(), a[2].l().to_vec()),
                "j" => Join(a[1].l().iter().enumerate().map(|(k, p)| Some(steps(id, p.l().to_vec(), format!("{at}/{k}.")))).collect()).await,
                "d" => drop(get_driver().sleep(a[1].i() as u32)),
                "race" => { let w = Race(a[1].l().iter().map(|t| get_driver().sleep(t.i() as u32)).collect()).await; out = J::from(w) }
                "set" => { let v = app().vals.borrow().get(&a[1].i()).cloned(); if let Some(v) = v { v.set(a[2].i()) } }
                x => panic!("step {x}"),
            }
            log!["end", id, at, now(), out];
        }
    })
}
fn spawn(id: i64, prog: Vec<J>) {
    get_driver().spawn(Watch { id, name: "task", f: steps(id, prog, String::new()), done: false });
}
fn publish(k: i64, v: i64) {
    let s = app().boxes.borrow().get(&k).map(|b| b.0.clone());
    if let Some(s) = s { s.publish(v) }
}

// ------------------------------------------------------------------ values
fn jj(j: &J) -> JsJson {
    match j {
        J::N => JsJson::Null,
        J::B(true) => JsJson::True,
        J::B(false) => JsJson::False,
        J::I(i) => JsJson::Number(*i as f64),
        J::F(f) => JsJson::Number(*f),
        J::S(s) => JsJson::String(s.clone()),
        J::L(l) => JsJson::List(l.iter().map(jj).collect()),
        J::O(o) if o.len() == 1 && o[0].0 == "$f" => JsJson::Number(f64::from_bits(u64::from_str_radix(o[0].1.s(), 16).unwrap())),
        J::O(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), jj(v))).collect()),
    }
}
fn num(f: f64) -> J { if !f.is_finite() { return J::O(vec![("$f".into(), J::S(format!("{:016x}", f.to_bits())))]) } if f.fract() == 0.0 && f.abs() < 9e15 && (f != 0.0 || f.is_sign_positive()) { J::I(f as i64) } else { J::F(f) } }
fn unjj(j: &JsJson) -> J {
    match j {
        JsJson::Null => J::N,
        JsJson::True => J::B(true),
        JsJson::False => J::B(false),
        JsJson::Number(f) => num(*f),
        JsJson::String(s) => J::from(s),
        JsJson::List(l) => J::L(l.iter().map(unjj).collect()),
        JsJson::Object(o) => { let mut k: Vec<_> = o.iter().collect(); k.sort_by(|a, b| a.0.cmp(b.0)); J::O(k.into_iter().map(|(k, v)| (k.clone(), unjj(v))).collect()) }
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn jv(j: &J) -> JsValue {
    let a = j.l();
    match a[0].s() {
        "u32" => JsValue::U32(a[1].i() as u32),
        "i32" => JsValue::I32(a[1].i() as i32),
        "u64" => JsValue::U64(a[1].s().parse().unwrap()),
        "i64" => JsValue::I64(a[1].s().parse().unwrap()),
        "f64" => JsValue::F64(f64::from_bits(u64::from_str_radix(a[1].s(), 16).unwrap())),
        "true" => JsValue::True,
        "false" => JsValue::False,
        "null" => JsValue::Null,
        "undef" => JsValue::Undefined,
        "vec" => JsValue::Vec(unhex(a[1].s())),
        "str" => JsValue::String(a[1].s().to_string()),
        "list" => JsValue::List(a[1].l().iter().map(jv).collect()),
        "obj" => JsValue::Object(a[1].l().iter().map(|p| (p.l()[0].s().to_string(), jv(&p.l()[1]))).collect()),
        "json" => JsValue::Json(jj(&a[1])),
        x => panic!("value {x}"),
    }
}
fn unjv(v: &JsValue) -> J {
    let t = |k: &str, x: J| J::L(vec![J::from(k), x]);
    match v {
        JsValue::U32(x) => t("u32", J::I(*x as i64)),
        JsValue::I32(x) => t("i32", J::I(*x as i64)),
        JsValue::U64(x) => t("u64", J::S(x.to_string())),
        JsValue::I64(x) => t("i64", J::S(x.to_string())),
        JsValue::F64(x) => t("f64", J::S(format!("{:016x}", x.to_bits()))),
        JsValue::True => t("true", J::N),
        JsValue::False => t("false", J::N),
        JsValue::Null => t("null", J::N),
        JsValue::Undefined => t("undef", J::N),
        JsValue::Vec(b) => t("vec", J::S(hex(b))),
        JsValue::String(s) => t("str", J::from(s)),
        JsValue::List(l) => t("list", J::L(l.iter().map(unjv).collect())),
        JsValue::Object(o) => { let mut k: Vec<_> = o.iter().collect(); k.sort_by(|a, b| a.0.cmp(b.0)); t("obj", J::L(k.into_iter().map(|(k, v)| J::L(vec![J::from(k), unjv(v)])).collect())) }
        JsValue::Json(j) => t("json", unjj(j)),
    }
}

// ------------------------------------------------------------------ requests
fn body(b: &RequestBody) -> J {
    match b {
        RequestBody::Text(t) => J::L(vec![J::from("text"), J::from(t)]),
        RequestBody::Json(j) => J::L(vec![J::from("json"), unjj(j)]),
        RequestBody::Binary(b) => J::L(vec![J::from("bin"), J::from(hex(b))]),
    }
}
fn builder(a: &[J]) -> RequestBuilder {
    // method, url, headers, bodykind, body
    let mut b = match a[0].s() {
        "GET" => get_driver().request_get(a[1].s()),
        "POST" => get_driver().request_post(a[1].s()),
        "PUT" => RequestBuilder::new(FetchMethod::PUT, a[1].s()),
        "DELETE" => RequestBuilder::new(FetchMethod::DELETE, a[1].s()),
        "PATCH" => RequestBuilder::new(FetchMethod::PATCH, a[1].s()),
        "HEAD" => RequestBuilder::new(FetchMethod::HEAD, a[1].s()),
        "OPTIONS" => RequestBuilder::new(FetchMethod::OPTIONS, a[1].s()),
        x => panic!("method {x}"),
    };
    for h in a[2].l() {
        let h = h.l();
        b = if h[0].s() == "@all" { b.headers(h[1].l().iter().map(|h| { let h = h.l(); (h[0].s().to_string(), h[1].s().to_string()) }).collect()) } else if h[0].s() == "@bearer" { b.bearer_auth(h[1].s()) } else { b.set_header(h[0].s(), h[1].s()) };
    }
    match a[3].s() {
        "none" => b,
        "text" => b.body(RequestBody::Text(a[4].s().into())),
        "json" => b.body_json(Raw(jj(&a[4]))),
        "bin" => b.body(RequestBody::Binary(unhex(a[4].s()))),
        x => panic!("body {x}"),
    }
}
struct Raw(JsJson);
impl vertigo::JsJsonSerialize for Raw { fn to_json(self) -> JsJson { self.0 } }
fn res<T>(r: Result<T, String>, f: impl Fn(T) -> J) -> J {
    match r { Ok(x) => J::L(vec![J::from("ok"), f(x)]), Err(e) => J::L(vec![J::from("err"), J::from(e)]) }
}
async fn fetch(id: i64, a: Vec<J>) {
    let b = builder(&a[0..5]);
    let r = b.call().await;
    let st: J = r.status().into();
    let out = match a[5].s() {
        "raw" => res(r.into(|s, b| Some(Ok(J::L(vec![J::from(s), body(&b)])))), |x| x),
        "i32" => res(r.into_data::<i32>(), |x| J::I(x as i64)),
        "vec" => res(r.into_data::<Vec<String>>(), |v| J::L(v.iter().map(J::from).collect())),
        "rec" => res(r.into_data::<Rec>(), |x| rec(&x)),
        "recs" => res(r.into_data::<Vec<Rec>>(), |x| J::L(x.iter().map(rec).collect())),
        "s200" => res(r.into(|s, b| if s == 200 { Some(b.into::<Rec>()) } else { None }), |x| rec(&x)),
        "s4xx" => res(r.into(|s, b| match s { 200 => Some(b.into::<Rec>()), 400..=499 => Some(Err(format!("client {s}"))), _ => None }), |x| rec(&x)),
        "errmsg" => res(r.into_error_message::<i32>(), |x| J::I(x as i64)),
        x => panic!("conv {x}"),
    };
    log!["fetched", id, st, out];
}
fn resource(r: &Resource<Rc<Rec>>) -> J {
    match r {
        Resource::Loading => J::L(vec![J::from("loading")]),
        Resource::Ready(x) => J::L(vec![J::from("ready"), rec(x)]),
        Resource::Error(e) => J::L(vec![J::from("error"), J::from(e)]),
    }
}

// ------------------------------------------------------------------ view
#[vertigo::main]
fn render() -> DomNode {
    let view = VIEW.with(|v| v.clone()).to_computed().render_value_option(|s| {
        s?;
        app().scen.borrow().as_ref().map(|s| s.build())
    });
    dom! {
        <html>
            <head><title>"vp"</title></head>
            <body>
                <main>{view}</main>
            </body>
        </html>
    }
}
fn doc(t: &scen::T) -> J {
    match t {
        scen::T::Tx { text, inst } => J::L(vec![J::from("t"), J::from(text), inst.map(|i| i as i64).into()]),
        scen::T::El { tag, attrs, classes, csses, susp, inst, sid, kids } => J::L(vec![
            J::from("e"),
            J::from(*tag),
            J::O(attrs.iter().map(|(k, v)| (k.clone(), match v { scen::Exp::Is(s) => J::from(s), scen::Exp::Any => J::N })).collect()),
            J::L(classes.iter().map(J::from).collect()),
            J::L(csses.iter().map(J::from).collect()),
            susp.clone().into(),
            J::L(kids.iter().map(doc).collect()),
            inst.map(|i| i as i64).into(),
            J::from(*sid),
        ]),
    }
}

fn cmd(a: &[J]) {
    let ap = app();
    let i = |n: usize| a[n].i();
    match a[0].s() {
        "live" => log!["live", alloc::live() as i64, alloc::blocks() as i64],
        "tx" => transaction(|_| a[1].l().iter().for_each(|c| cmd(c.l()))),
        // futures
        "spawn" => spawn(i(1), a[2].l().to_vec()),
        "box" => { let (s, f) = FutureBox::new(); ap.boxes.borrow_mut().insert(i(1), (s, Some(f))); }
        "pub" => publish(i(1), i(2)),
        "boxdrop" => { let b = ap.boxes.borrow_mut().remove(&i(1)); drop(b) }
        "iv" => {
            let (id, n, count) = (i(1), i(3), Rc::new(Cell::new(0i64)));
            let d = get_driver().set_interval(i(2) as u32, move || {
                count.set(count.get() + 1);
                log!["iv", id, count.get(), now()];
                if count.get() == n { let d = app().ivs.borrow_mut().remove(&id); drop(d); log!["ivdropped", id] }
            });
            ap.ivs.borrow_mut().insert(id, d);
        }
        "ivdrop" => { let d = ap.ivs.borrow_mut().remove(&i(1)); drop(d) }
        "val" => { ap.vals.borrow_mut().insert(i(1), Value::new(0)); }
        "set" => { let v = ap.vals.borrow().get(&i(1)).cloned(); if let Some(v) = v { v.set(i(2)) } }
        // requests
        "fetch" => { let (id, r) = (i(1), a[2..].to_vec()); get_driver().spawn(fetch(id, r)) }
        "fetch2" => { // one builder called several times, one after the other
            let (id, n, r) = (i(1), i(2), a[3..].to_vec());
            get_driver().spawn(async move {
                let b = builder(&r[0..5]);
                for k in 0..n {
                    let x = b.call().await;
                    let st: J = x.status().into();
                    log!["fetched", id + k, st, res(x.into(|s, b| Some(Ok(J::L(vec![J::from(s), body(&b)])))), |x| x)];
                }
            })
        }
        "fetchdrop" => { // a request whose future is given up after a while
            let (id, ms, r) = (i(1), i(2) as u32, a[3..].to_vec());
            get_driver().spawn(async move {
                let f: Pin<Box<dyn Future<Output = ()>>> = Box::pin(fetch(id, r));
                Either(f, get_driver().sleep(ms)).await;
                log!["fetchgone", id, now()];
            })
        }
        // lazy caches
        "cache" => {
            let mut b = RequestBuilder::get(a[2].s());
            if !a[3].is_null() {
                let (n, u) = (a[3].l()[0].i() as u64, a[3].l()[1].s());
                b = match u { "s" => b.ttl_seconds(n), "m" => b.ttl_minutes(n), "h" => b.ttl_hours(n), _ => b.ttl_days(n) };
            }
            let c = if a[4].b() && !a[3].is_null() && a[3].l()[1].s() == "s" {
                LazyCache::<Rec>::new_resource(&a[2].s()[..1], &a[2].s()[1..], a[3].l()[0].i() as u64)
            } else {
                b.lazy_cache(|s, b| match s { 200 => Some(b.into::<Rec>()), 404 => Some(Err("not found".into())), _ => None })
            };
            ap.caches.borrow_mut().insert(i(1), c);
        }
        "cobs" => {
            let (c, oid) = (ap.caches.borrow()[&i(1)].clone(), i(2));
            let d = c.to_computed().subscribe(move |r| log!["c", oid, now(), resource(&r)]);
            ap.subs.borrow_mut().insert(oid, d);
        }
        "cget" => { let c = ap.caches.borrow()[&i(1)].clone(); let r = transaction(|x| c.get(x)); log!["cgot", i(1), resource(&r)] }
        "cforget" => { let c = ap.caches.borrow()[&i(1)].clone(); c.forget() }
        "cforce" => { let c = ap.caches.borrow()[&i(1)].clone(); c.force_update(a[2].b()) }
        "cupd" => { let c = ap.caches.borrow()[&i(1)].clone(); c.update(a[2].b(), a[3].b()) }
        "cdrop" => { let c = ap.caches.borrow_mut().remove(&i(1)); drop(c) }
        "subdrop" => { let d = ap.subs.borrow_mut().remove(&i(1)); drop(d) }
        // websockets
        "ws" => {
            let id = i(1);
            let on = Cell::new(0);
            let d = get_driver().websocket(a[2].s(), move |m| match m {
                WebsocketMessage::Connection(c) => { log!["ws", id, "open", ""]; on.set(on.get() + 1); c.send(format!("hello {}", on.get())); app().conns.borrow_mut().insert(id, c); }
                WebsocketMessage::Message(m) => {
                    log!["ws", id, "msg", &m];
                    if let Some(x) = m.strip_prefix("echo:") { let c = app().conns.borrow().get(&id).cloned(); if let Some(c) = c { c.send(x) } }
                    if m == "drop" { let d = app().ws.borrow_mut().remove(&id); drop(d); log!["wsdropped", id] }
                }
                WebsocketMessage::Close => log!["ws", id, "close", ""],
            });
            ap.ws.borrow_mut().insert(id, d);
        }
        "wseq" => {
            let l = ap.conns.borrow();
            for (a, x) in l.iter() { for (b, y) in l.iter() { log!["wseq", *a, *b, x == &y.clone()] } }
        }
        "wssend" => { let c = ap.conns.borrow().get(&i(1)).cloned(); if let Some(c) = c { c.send(a[2].s()) } }
        "wsdrop" => { let d = ap.ws.borrow_mut().remove(&i(1)); drop(d) }
        // location and cookies
        "rt" => {
            let r = match a[2].s() { "hash" => Router::<Rt>::new_hash_router(), _ => Router::new_history_router() };
            ap.routers.borrow_mut().insert(i(1), r);
        }
        "rtobs" => {
            let (r, oid) = (ap.routers.borrow()[&i(1)].route.clone(), i(2));
            let d = r.subscribe(move |x| log!["r", oid, x.0]);
            ap.subs.borrow_mut().insert(oid, d);
        }
        "rtget" => { let r = ap.routers.borrow()[&i(1)].clone(); let v = transaction(|c| r.get(c)); log!["rgot", i(1), v.0] }
        "rtset" => { let r = ap.routers.borrow()[&i(1)].clone(); r.set(Rt(a[2].s().into())) }
        "rtchg" => { let r = ap.routers.borrow()[&i(1)].clone(); Reactive::change(&r, |x| x.0.push_str(a[2].s())) }
        "rtdrop" => { let r = ap.routers.borrow_mut().remove(&i(1)); drop(r) }
        "hback" => get_driver().history_back(),
        "hrepl" => get_driver().history_replace(a[1].s()),
        "ckset" => get_driver().cookie_set(a[1].s(), a[2].s(), i(3) as u64),
        "ckget" => log!["ck", a[1].s(), get_driver().cookie_get(a[1].s())],
        "cksetj" => get_driver().cookie_set_json(a[1].s(), jj(&a[2]), i(3) as u64),
        "ckgetj" => log!["ckj", a[1].s(), unjj(&get_driver().cookie_get_json(a[1].s()))],
        "env" => log!["env", a[1].s(), get_driver().env(a[1].s())],
        "isb" => log!["isb", get_driver().is_browser()],
        "rnd" => log!["rnd", get_driver().get_random(i(1) as u32, i(2) as u32)],
        "rndfrom" => { let l = a[1].l().to_vec(); log!["rndfrom", get_driver().get_random_from(&l).map(|x| J::L(vec![x])).unwrap_or(J::N)] }
        "inst" => {
            let new = match a[2].s() {
                "now" => Some(get_driver().now()),
                "refresh" => Some(ap.insts.borrow()[&i(3)].refresh()),
                "add" => Some(ap.insts.borrow()[&i(3)].add_duration(std::time::Duration::from_millis(i(4) as u64))),
                "copy" => Some(ap.insts.borrow()[&i(3)].clone()),
                _ => None,
            };
            if let Some(x) = new { ap.insts.borrow_mut().insert(i(1), x); }
            let m = ap.insts.borrow();
            let x = &m[&i(1)];
            log!["inst", x.instant as i64, x.is_expire(), m.values().map(|y| J::B(x == y)).collect::<Vec<J>>()];
            if a[2].s() == "elapsed" { log!["elapsed", x.elapsed() as i64, x.seconds_elapsed() as i64] }
        }
        "log" => {
            let t = a[2].s();
            match a[1].s() { "trace" => vertigo::log::trace!("{t}"), "debug" => vertigo::log::debug!("{t}"), "info" => vertigo::log::info!("{t}"), "warn" => vertigo::log::warn!("{t}"), _ => vertigo::log::error!("{t}") }
        }
        "login" => { // messages from inside an evaluation, a subscriber and a destructor
            struct Bye(String);
            impl Drop for Bye { fn drop(&mut self) { vertigo::log::info!("{}", self.0) } }
            let t = a[1].s().to_string();
            let v = Value::new(0);
            let (v2, t2) = (v.clone(), t.clone());
            let c = vertigo::Computed::from(move |x| { vertigo::log::info!("{t2}"); v2.get(x) });
            let b = Bye(t.clone());
            let d = c.subscribe(move |_| { vertigo::log::warn!("{t}"); let _ = &b; });
            transaction(|_| { v.set(1); vertigo::log::debug!("{}", a[1].s()) });
            drop(d);
        }
        "boom" => panic!("{}", a[1].s()),
        "isval" => log!["isval", get_driver().is_server()],
        "win" => {
            let (n, s, b) = (i(2), a[3].s(), a[4].b());
            let f = f64::from_bits(u64::from_str_radix(a[5].s(), 16).unwrap());
            let pairs = || vec![(s.to_string(), JsValue::from(n as i32)), ("k".to_string(), JsValue::from(b))];
            let v = match i(1) {
                0 => vertigo::window!("vpget"),
                1 => vertigo::window!("vpf()"),
                2 => vertigo::window!("vpf()", n as i8, n as i16, n as i32, n, n as isize),
                3 => vertigo::window!("vpf()", n as u8, n as u16, n as u32, n as u64, n as usize),
                4 => vertigo::window!("vpf()", f, s, s.to_string(), b),
                5 => vertigo::document!("vpget"),
                6 => vertigo::document!("vpf()", s, b),
                7 => vertigo::document!("vpf()", pairs().into_iter().collect::<std::collections::HashMap<String, JsValue>>(), pairs()),
                _ => vertigo::document!("vpf()", vec![("a", JsValue::from(s)), ("b", JsValue::from(n))]),
            };
            log!["j", unjv(&v)]
        }
        "tz" => log!["tz", get_driver().timezone_offset() as i64],
        "now" => log!["now", now()],
        // values over the boundary
        "jcall" => { let v = get_driver().dom_access().root("window").get("vp").call(a[1].s(), a[2].l().iter().map(jv).collect()).fetch(); log!["j", unjv(&v)] }
        "jset" => { let v = get_driver().dom_access().root("window").get("vp").set(a[1].s(), jv(&a[2])).fetch(); log!["j", unjv(&v)] }
        "jget" => { let v = get_driver().dom_access().root("window").get("vp").get(a[1].s()).fetch(); log!["j", unjv(&v)] }
        "jprops" => {
            let l: Vec<&str> = a[1].l().iter().map(|x| x.s()).collect();
            let v = get_driver().dom_access().root("window").get("vp").get_props(&l).fetch();
            log!["j", unjv(&v)]
        }
        "elnew" => { let e = DomElement::new("b"); e.add_attr("id", format!("el{}", i(1))); ap.els.borrow_mut().insert(i(1), e); }
        "evnew" => { // an element with handlers: id, tag, kinds, what the handlers return
            let (id, yes) = (i(1), a[4].b());
            let tag: &'static str = match a[2].s() { "input" => "input", "textarea" => "textarea", "select" => "select", "a" => "a", "img" => "img", _ => "div" };
            let mut e = DomElement::new(tag);
            e.add_attr("id", format!("el{id}"));
            for k in a[3].l() {
                let k = *["click", "mousedown", "mouseup", "mouseenter", "mouseleave", "blur", "load", "input", "change", "keydown", "hook_keydown", "drop"].iter().find(|x| **x == k.s()).expect("a kind of event");
                let key = move |e: vertigo::KeyDownEvent| { log!["ev", id, k, J::L(vec![J::from(&e.key), J::from(&e.code), J::from(e.alt_key), J::from(e.ctrl_key), J::from(e.shift_key), J::from(e.meta_key)])]; yes };
                let plain = move || log!["ev", id, k, J::N];
                let text = move |t: String| log!["ev", id, k, &t];
                e = match k {
                    "click" => e.on_click(plain),
                    "mousedown" => e.on_mouse_down(move || { plain(); yes }),
                    "mouseup" => e.on_mouse_up(move || { plain(); yes }),
                    "mouseenter" => e.on_mouse_enter(plain),
                    "mouseleave" => e.on_mouse_leave(plain),
                    "blur" => e.on_blur(plain),
                    "load" => e.on_load(plain),
                    "input" => e.on_input(text),
                    "change" => e.on_change(text),
                    "keydown" => e.on_key_down(key),
                    "hook_keydown" => e.hook_key_down(key),
                    "drop" => e.on_dropfile(move |d: vertigo::DropFileEvent| log!["ev", id, k, J::L(d.items.iter().map(|f| J::L(vec![J::from(&f.name), J::from(hex(&f.data))])).collect())]),
                    x => panic!("event {x}"),
                };
            }
            ap.els.borrow_mut().insert(id, e);
        }
        "eldrop" => { let e = ap.els.borrow_mut().remove(&i(1)); drop(e) }
        "jpath" => {
            let mut d = None;
            for s in a[1].l() {
                let s = s.l();
                let next = match s[0].s() {
                    "element" => ap.els.borrow()[&s[1].i()].get_ref().dom_access(),
                    "root" => get_driver().dom_access().root(s[1].s()),
                    "get" => d.take().unwrap_or_else(|| get_driver().dom_access()).get(s[1].s()),
                    "set" => d.take().unwrap_or_else(|| get_driver().dom_access()).set(s[1].s(), jv(&s[2])),
                    "call" => d.take().unwrap_or_else(|| get_driver().dom_access()).call(s[1].s(), s[2].l().iter().map(jv).collect()),
                    "props" => { let l: Vec<&str> = s[1].l().iter().map(|x| x.s()).collect(); d.take().unwrap_or_else(|| get_driver().dom_access()).get_props(&l) }
                    x => panic!("step {x}"),
                };
                d = Some(next);
            }
            log!["j", unjv(&d.unwrap().fetch())]
        }
        "bulk" => get_driver().dom_access().api().get("dom").call("dom_bulk_update", vec![JsValue::Json(jj(&a[1]))]).exec(),
        "jbulk" => { // the same exchange over and over
            for _ in 0..i(1) {
                let v = get_driver().dom_access().root("window").get("vp").call("take", vec![jv(&a[2])]).fetch();
                std::hint::black_box(v);
            }
        }
        // views
        "dom" => {
            let p = scen::Profile { events: a[3].b(), suspense: a[4].b(), marker_items: a[5].b(), html_safe: false, dup_keys: a[6].b(), max_nodes: i(7) as usize };
            let s = scen::Scenario::new(i(1) as u64, i(2) as u64, p);
            log!["domdesc", &s.desc];
            *ap.scen.borrow_mut() = Some(s);
            VIEW.with(|v| v.clone()).set(Some(i(2)));
        }
        "domops" => {
            let mut s = ap.scen.borrow_mut().take().unwrap();
            let ops = s.next_ops();
            log!["domops", format!("{ops:?}")];
            s.apply(&ops);
            *ap.scen.borrow_mut() = Some(s);
        }
        "domdoc" => { let s = ap.scen.borrow(); let s = s.as_ref().unwrap(); log!["domdoc", J::L(s.model.document().iter().map(doc).collect())] }
        "domexp" => {
            let s = ap.scen.borrow();
            let s = s.as_ref().unwrap();
            s.world.fired.borrow_mut().clear();
            log!["domexp", s.expect_event(i(1) as usize, a[2].s()).map(|x| x.0)];
        }
        "domact" => {
            let mut s = ap.scen.borrow_mut().take().unwrap();
            let f: Vec<J> = s.world.fired.borrow_mut().drain(..).map(J::from).collect();
            log!["domfired", f];
            if a[3].b() {
                let act = s.expect_event(i(1) as usize, a[2].s()).unwrap().1;
                s.model_act(&act);
            }
            *ap.scen.borrow_mut() = Some(s);
        }
        "domfree" => { VIEW.with(|v| v.clone()).set(None); *ap.scen.borrow_mut() = None; }
        x => panic!("command {x}"),
    }
}

#[no_mangle]
pub extern "C" fn vp_alloc(n: usize) -> *mut u8 {
    let mut v = vec![0u8; n.max(1)].into_boxed_slice();
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}
#[no_mangle]
pub unsafe extern "C" fn vp_cmd(p: *mut u8, n: usize) {
    let b = Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n.max(1)));
    let t = std::str::from_utf8(&b[..n]).unwrap();
    cmd(J::parse(t).l());
}
