//! Monitor for the boundary codec and the JSON conversion (C13, C14, C15): random values
//! are encoded by the real library and read by an independent codec written from the wire
//! format, and the other way round; buffers are truncated and corrupted; derived and
//! provided JSON conversions are compared with an independent statement of their mapping.
use crate::rng::{mix, Rng};
use crate::run::{cov, trace, viol, Opts};
use std::collections::{BTreeMap, HashMap};
use vertigo::{from_json, to_json, AutoJsJson, JsJson, JsJsonDeserialize, JsJsonSerialize, JsValue, MemoryBlock};

// ---------- independent codec ----------
fn put_s(o: &mut Vec<u8>, s: &str) {
    o.extend((s.len() as u32).to_be_bytes());
    o.extend(s.as_bytes());
}
pub fn enc_j(j: &JsJson, o: &mut Vec<u8>) {
    match j {
        JsJson::True => o.push(1),
        JsJson::False => o.push(2),
        JsJson::Null => o.push(3),
        JsJson::String(s) => { o.push(4); put_s(o, s) }
        JsJson::Number(n) => { o.push(5); o.extend(n.to_bits().to_be_bytes()) }
        JsJson::List(l) => { o.push(6); o.extend((l.len() as u32).to_be_bytes()); for i in l { enc_j(i, o) } }
        JsJson::Object(m) => { o.push(7); o.extend((m.len() as u16).to_be_bytes()); for (k, v) in m { put_s(o, k); enc_j(v, o) } }
    }
}
pub fn enc(v: &JsValue, o: &mut Vec<u8>) {
    match v {
        JsValue::U32(x) => { o.push(1); o.extend(x.to_be_bytes()) }
        JsValue::I32(x) => { o.push(2); o.extend(x.to_be_bytes()) }
        JsValue::U64(x) => { o.push(3); o.extend(x.to_be_bytes()) }
        JsValue::I64(x) => { o.push(4); o.extend(x.to_be_bytes()) }
        JsValue::F64(x) => { o.push(5); o.extend(x.to_bits().to_be_bytes()) }
        JsValue::True => o.push(6),
        JsValue::False => o.push(7),
        JsValue::Null => o.push(8),
        JsValue::Undefined => o.push(9),
        JsValue::Vec(b) => { o.push(10); o.extend((b.len() as u32).to_be_bytes()); o.extend(b) }
        JsValue::String(s) => { o.push(11); put_s(o, s) }
        JsValue::List(l) => { o.push(12); o.extend((l.len() as u32).to_be_bytes()); for i in l { enc(i, o) } }
        JsValue::Object(m) => { o.push(13); o.extend((m.len() as u16).to_be_bytes()); for (k, v) in m { put_s(o, k); enc(v, o) } }
        JsValue::Json(j) => { o.push(14); enc_j(j, o) }
    }
}
pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let e = self.1.checked_add(n)?;
        let r = self.0.get(self.1..e)?;
        self.1 = e;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    fn u16(&mut self) -> Option<u16> { Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap())) }
    fn u32(&mut self) -> Option<u32> { Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
    fn u64(&mut self) -> Option<u64> { Some(u64::from_be_bytes(self.take(8)?.try_into().unwrap())) }
    fn s(&mut self) -> Option<String> { let n = self.u32()?; String::from_utf8(self.take(n as usize)?.to_vec()).ok() }
    pub fn j(&mut self) -> Option<JsJson> {
        Some(match self.u8()? {
            1 => JsJson::True,
            2 => JsJson::False,
            3 => JsJson::Null,
            4 => JsJson::String(self.s()?),
            5 => JsJson::Number(f64::from_bits(self.u64()?)),
            6 => { let n = self.u32()?; let mut l = vec![]; for _ in 0..n { l.push(self.j()?) } JsJson::List(l) }
            7 => { let n = self.u16()?; let mut m = HashMap::new(); for _ in 0..n { let k = self.s()?; m.insert(k, self.j()?); } JsJson::Object(m) }
            _ => return None,
        })
    }
    pub fn v(&mut self) -> Option<JsValue> {
        Some(match self.u8()? {
            1 => JsValue::U32(self.u32()?),
            2 => JsValue::I32(self.u32()? as i32),
            3 => JsValue::U64(self.u64()?),
            4 => JsValue::I64(self.u64()? as i64),
            5 => JsValue::F64(f64::from_bits(self.u64()?)),
            6 => JsValue::True,
            7 => JsValue::False,
            8 => JsValue::Null,
            9 => JsValue::Undefined,
            10 => { let n = self.u32()?; JsValue::Vec(self.take(n as usize)?.to_vec()) }
            11 => JsValue::String(self.s()?),
            12 => { let n = self.u32()?; let mut l = vec![]; for _ in 0..n { l.push(self.v()?) } JsValue::List(l) }
            13 => { let n = self.u16()?; let mut m = HashMap::new(); for _ in 0..n { let k = self.s()?; m.insert(k, self.v()?); } JsValue::Object(m) }
            14 => JsValue::Json(self.j()?),
            _ => return None,
        })
    }
}
pub fn same(a: &JsValue, b: &JsValue) -> bool {
    match (a, b) {
        (JsValue::F64(x), JsValue::F64(y)) => x.to_bits() == y.to_bits(),
        (JsValue::List(x), JsValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (JsValue::Object(x), JsValue::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (JsValue::Json(x), JsValue::Json(y)) => same_j(x, y),
        _ => std::mem::discriminant(a) == std::mem::discriminant(b) && a == b,
    }
}
pub fn same_j(a: &JsJson, b: &JsJson) -> bool {
    match (a, b) {
        (JsJson::True, JsJson::True) | (JsJson::False, JsJson::False) | (JsJson::Null, JsJson::Null) => true,
        (JsJson::Number(x), JsJson::Number(y)) => x.to_bits() == y.to_bits(),
        (JsJson::String(x), JsJson::String(y)) => x == y,
        (JsJson::List(x), JsJson::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_j(a, b)),
        (JsJson::Object(x), JsJson::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_j(v, w))),
        _ => false,
    }
}
// ---------- generators ----------
pub fn string(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => (*r.pick(&["\u{0}", "\u{feff}x", "\"quoted\\\"", "zażółć gęślą jaźń", "🦀\u{200d}👨‍👩‍👧", "\u{10ffff}", "a\u{301}", "line\nbreak\r\n\t", "\u{2028}", "__proto__", "constructor", "null", "0"])).to_string(),
        2 => { let n = r.below(400); (0..n).map(|_| char::from_u32(r.below(0x110000) as u32).unwrap_or('x')).collect() }
        _ => { let n = r.below(12); (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() }
    }
}
pub fn float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 9007199254740991.0, 9007199254740993.0, 2147483648.0, -2147483649.0, 4294967296.0]),
        1 => f64::from_bits(r.next()),
        2 => r.range(-1000, 1000) as f64,
        _ => r.range(-1_000_000, 1_000_000) as f64 / 128.0,
    }
}
pub fn json(r: &mut Rng, d: usize) -> JsJson {
    match r.below(if d == 0 { 6 } else { 9 }) {
        0 => JsJson::True,
        1 => JsJson::False,
        2 => JsJson::Null,
        3 | 4 => JsJson::String(string(r)),
        5 => JsJson::Number(float(r)),
        6 => { let n = r.below(6); JsJson::List((0..n).map(|_| json(r, d - 1)).collect()) }
        _ => { let n = r.below(6); JsJson::Object((0..n).map(|_| (string(r), json(r, d - 1))).collect()) }
    }
}
fn int(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1fffffffffffff, 0x20000000000000, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX]),
        1 => r.next(),
        2 => (r.next() >> (r.below(64))).wrapping_neg(),
        _ => r.next() >> r.below(64),
    }
}
pub fn value(r: &mut Rng, d: usize) -> JsValue {
    match r.below(if d == 0 { 13 } else { 17 }) {
        0 => JsValue::U32(int(r) as u32),
        1 => JsValue::I32(int(r) as i32),
        2 => JsValue::U64(int(r)),
        3 => JsValue::I64(int(r) as i64),
        4 => JsValue::F64(float(r)),
        5 => JsValue::True,
        6 => JsValue::False,
        7 => JsValue::Null,
        8 => JsValue::Undefined,
        9 => { let n = *r.pick(&[0, 1, 2, 7, 8, 9, 64, 1000]); JsValue::Vec((0..n).map(|_| r.next() as u8).collect()) }
        10 | 11 => JsValue::String(string(r)),
        12 => { let dd = d.min(2) + 1; JsValue::Json(json(r, dd)) }
        13 | 14 => { let n = r.below(6); JsValue::List((0..n).map(|_| value(r, d - 1)).collect()) }
        _ => { let n = r.below(6); JsValue::Object((0..n).map(|_| (string(r), value(r, d - 1))).collect()) }
    }
}
fn bytes_of(v: &JsValue) -> Vec<u8> {
    v.to_snapshot().convert_to_vec()
}
fn dec(b: &[u8]) -> Result<JsValue, String> {
    JsValue::from_block(MemoryBlock::from_slice(b))
}
fn short(b: &[u8]) -> String {
    format!("{:02x?}{}", &b[..b.len().min(60)], if b.len() > 60 { "…" } else { "" })
}

/// of another size: long texts and buffers, many members, deep nesting
fn large(r: &mut Rng) -> JsValue {
    let n = *r.pick(&[255, 256, 257, 4095, 4096, 65535, 65536, 65537, 100_000]);
    match r.below(8) {
        0 | 1 => { let c = *r.pick(&['a', 'ż', '\u{0}', '🦀']); JsValue::String(std::iter::repeat(c).take(n).collect()) }
        2 => JsValue::Vec((0..n).map(|i| i as u8).collect()),
        3 => { let n = *r.pick(&[200, 255, 256, 257, 1000]); JsValue::List((0..n).map(|_| value(r, 0)).collect()) }
        4 => { let n = *r.pick(&[200, 255, 256, 257, 1000]); JsValue::Object((0..n).map(|i| (format!("k{i}"), value(r, 0))).collect()) }
        5 => { let n = *r.pick(&[200, 255, 256, 257, 1000]); JsValue::Json(if r.chance(50) { JsJson::List((0..n).map(|_| json(r, 0)).collect()) } else { JsJson::Object((0..n).map(|i| (format!("k{i}"), json(r, 0))).collect()) }) }
        6 => { let mut v = value(r, 0); for i in 0..10 + r.below(80) { v = if i % 3 == 0 { JsValue::Object([("x".to_string(), v)].into_iter().collect()) } else { JsValue::List(vec![v]) } } v }
        _ => { let mut v = json(r, 0); for i in 0..10 + r.below(80) { v = if i % 3 == 0 { JsJson::Object([("x".to_string(), v)].into_iter().collect()) } else { JsJson::List(vec![v]) } } JsValue::Json(v) }
    }
}
fn roundtrip(r: &mut Rng) {
    let d = r.below(5);
    let v = if r.below(400) == 0 { cov(|c| c.inc("large_values")); large(r) } else { value(r, d) };
    let b = bytes_of(&v);
    trace(format!("{v:?} -> {}", short(&b)));
    cov(|c| { c.inc("values_encoded"); c.hs(&format!("{v:?}")); c.distinct.insert(c.hash); if b.len() > 12 { c.nontrivial = true } });
    let mut rd = Rd(&b, 0);
    match rd.v() {
        None => return viol("C13", "codec:encoding", format!("{v:?} encodes to {}, which is no value", short(&b))),
        Some(x) if !same(&x, &v) || rd.1 != b.len() => return viol("C13", "codec:encoding", format!("{v:?} encodes to {}, which is {x:?} followed by {} bytes", short(&b), b.len() - rd.1)),
        _ => {}
    }
    match dec(&b) {
        Ok(x) if same(&x, &v) => {}
        x => return viol("C13", "codec:roundtrip", format!("{v:?} decodes as {x:?}")),
    }
    let mut e = vec![];
    enc(&v, &mut e);
    match dec(&e) {
        Ok(x) if same(&x, &v) => cov(|c| c.inc("foreign_buffers_decoded")),
        x => viol("C13", "codec:decoding", format!("{} is {v:?} but decodes as {x:?}", short(&e))),
    }
    // every truncation is an error
    let step = (b.len() / 40).max(1);
    let mut k = r.below(step);
    while k < b.len() {
        if let Ok(x) = dec(&b[..k]) { viol("C13", "codec:truncated", format!("{k} of {} bytes of {v:?} decode as {x:?}", b.len())) }
        cov(|c| c.inc("truncated_buffers"));
        k += step;
    }
    // corruption: same verdict and value as the independent reader
    for _ in 0..8 {
        let mut c = b.clone();
        for _ in 0..1 + r.below(3) {
            match r.below(4) {
                0 => { let i = r.below(c.len()); c[i] = r.next() as u8 }
                1 => { let i = r.below(c.len()); c[i] ^= 1 << r.below(8) }
                2 => { let i = r.below(c.len() + 1); c.insert(i, *r.pick(&[0, 1, 4, 12, 13, 14, 0xff])) }
                _ => { if c.len() > 1 { let i = r.below(c.len()); c.remove(i); } }
            }
        }
        // huge counts of zero-size elements do not exist in the format, so this terminates
        let want = Rd(&c, 0).v();
        let got = dec(&c);
        cov(|v| { v.inc("corrupted_buffers"); if want.is_some() { v.inc("corrupted_buffers_valid") } });
        match (want, got) {
            (None, Err(_)) => {}
            (Some(a), Ok(b)) if same(&a, &b) => {}
            (a, g) => viol("C13", "codec:corrupted", format!("{} is {a:?} but decodes as {g:?}", short(&c))),
        }
    }
}
fn hostile(r: &mut Rng) {
    let n = r.below(40);
    let b: Vec<u8> = (0..n).map(|_| if r.chance(60) { r.below(16) as u8 } else { r.next() as u8 }).collect();
    let want = Rd(&b, 0).v();
    let got = dec(&b);
    cov(|c| c.inc("random_buffers"));
    match (want, got) {
        (None, Err(_)) => {}
        (Some(a), Ok(b)) if same(&a, &b) => {}
        (a, g) => viol("C13", "codec:corrupted", format!("{} is {a:?} but decodes as {g:?}", short(&b))),
    }
}
/// many repetitions of the same exchange must not grow the live memory
fn leak(r: &mut Rng) {
    let v = value(r, 3);
    let b = bytes_of(&v);
    let bad = &b[..b.len() - 1];
    let mut lives = [0isize; 3];
    for (i, n) in [1usize, 10, 10].iter().enumerate() {
        for _ in 0..*n {
            let x = dec(&b);
            let _ = dec(bad);
            let _ = v.to_snapshot();
            if let Ok(x) = x { let _ = bytes_of(&x); }
        }
        lives[i] = crate::alloc::live();
    }
    cov(|c| c.inc("repeated_exchanges"));
    if cfg!(not(feature = "asan")) && lives[2] > lives[1] && lives[1] > lives[0] { viol("C15", "codec:leak", format!("live bytes {lives:?} while repeating the exchange of {v:?}")) }
}

// ---------- JSON conversion ----------
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct Flat { pub id: i64, pub name: String, pub on: bool, pub small: i32, pub un: u32, pub big: u64 }
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct Nested { pub flat: Flat, pub opt: Option<Flat>, pub list: Vec<Flat>, pub map: HashMap<String, Vec<i32>>, pub tree: BTreeMap<String, Option<String>>, pub r#type: String, pub unit: () }
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct New(pub u32);
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct NewVec(pub Vec<Option<New>>);
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct Tup(pub i32, pub String, pub New, pub Vec<bool>);
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
#[allow(non_camel_case_types)]
pub enum En { Nothing, r#match, One(String), Wrap(New), Many(u32, String, Option<bool>), Named { x: i64, y: Option<String>, r#fn: Vec<u32> }, Rec(Vec<En>), Pair(Box2, New) }
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct Box2 { pub inner: Vec<En> }
#[derive(AutoJsJson, Debug, Clone, PartialEq)]
pub struct Def {
    pub a: String,
    #[js_json(default = None)]
    pub b: Option<String>,
    #[js_json(default = 7)]
    pub c: i32,
    #[js_json(default = "dflt".to_string())]
    pub d: String,
    #[js_json(default = vec![New(3)])]
    pub e: Vec<New>,
}
/// independent statement of the mapping
pub trait Spec: Sized {
    fn spec(&self) -> JsJson;
    fn gen(r: &mut Rng, d: usize) -> Self;
    /// is this JSON of the type's shape? None: not decided here
    fn shape(j: &JsJson) -> Option<bool>;
}
pub fn obj(v: Vec<(&str, JsJson)>) -> JsJson {
    JsJson::Object(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}
pub fn all(i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut un = false;
    for x in i { match x { Some(false) => return Some(false), None => un = true, _ => {} } }
    if un { None } else { Some(true) }
}
macro_rules! ints {
    ($t:ty, $lo:expr, $hi:expr) => {
        impl Spec for $t {
            fn spec(&self) -> JsJson { JsJson::Number(*self as f64) }
            fn gen(r: &mut Rng, _: usize) -> Self {
                let (lo, hi) = ($lo as i128, $hi as i128);
                let v: i128 = match r.below(4) { 0 => *r.pick(&[lo, hi, 0, 1, lo + 1, hi - 1]), 1 => lo + (r.next() as i128).rem_euclid(hi - lo + 1), _ => r.range(0, 300) as i128 };
                v.clamp(lo, hi) as $t
            }
            fn shape(j: &JsJson) -> Option<bool> {
                let JsJson::Number(n) = j else { return Some(false) };
                if n.is_nan() || n.is_infinite() || n.fract() != 0.0 { return Some(false) }
                let (lo, hi) = (<$t>::MIN as f64, <$t>::MAX as f64);
                // at the rounded upper end of a 64-bit type both answers are possible
                if *n == hi && hi > 4294967295.0 { return None }
                Some(*n >= lo && *n <= hi)
            }
        }
    };
}
ints!(i64, -9007199254740991i64, 9007199254740991i64);
ints!(u64, 0u64, 9007199254740991u64);
ints!(i32, i32::MIN, i32::MAX);
ints!(u32, u32::MIN, u32::MAX);
impl Spec for bool {
    fn spec(&self) -> JsJson { if *self { JsJson::True } else { JsJson::False } }
    fn gen(r: &mut Rng, _: usize) -> Self { r.chance(50) }
    fn shape(j: &JsJson) -> Option<bool> { Some(matches!(j, JsJson::True | JsJson::False)) }
}
impl Spec for () {
    fn spec(&self) -> JsJson { obj(vec![]) }
    fn gen(_: &mut Rng, _: usize) -> Self {}
    fn shape(j: &JsJson) -> Option<bool> { Some(matches!(j, JsJson::Object(m) if m.is_empty())) }
}
impl Spec for String {
    fn spec(&self) -> JsJson { JsJson::String(self.clone()) }
    fn gen(r: &mut Rng, _: usize) -> Self { string(r) }
    fn shape(j: &JsJson) -> Option<bool> { Some(matches!(j, JsJson::String(_))) }
}
impl<T: Spec> Spec for Option<T> {
    fn spec(&self) -> JsJson { self.as_ref().map(|x| x.spec()).unwrap_or(JsJson::Null) }
    fn gen(r: &mut Rng, d: usize) -> Self { if r.chance(40) { None } else { Some(T::gen(r, d)) } }
    fn shape(j: &JsJson) -> Option<bool> { if let JsJson::Null = j { Some(true) } else { T::shape(j) } }
}
impl<T: Spec> Spec for Vec<T> {
    fn spec(&self) -> JsJson { JsJson::List(self.iter().map(|x| x.spec()).collect()) }
    fn gen(r: &mut Rng, d: usize) -> Self { let n = if d == 0 { 0 } else { r.below(4) }; (0..n).map(|_| T::gen(r, d - 1)).collect() }
    fn shape(j: &JsJson) -> Option<bool> { if let JsJson::List(l) = j { all(l.iter().map(T::shape)) } else { Some(false) } }
}
impl<T: Spec> Spec for HashMap<String, T> {
    fn spec(&self) -> JsJson { JsJson::Object(self.iter().map(|(k, x)| (k.clone(), x.spec())).collect()) }
    fn gen(r: &mut Rng, d: usize) -> Self { let n = if d == 0 { 0 } else { r.below(4) }; (0..n).map(|_| (string(r), T::gen(r, d - 1))).collect() }
    fn shape(j: &JsJson) -> Option<bool> { if let JsJson::Object(l) = j { all(l.values().map(T::shape)) } else { Some(false) } }
}
impl<T: Spec> Spec for BTreeMap<String, T> {
    fn spec(&self) -> JsJson { JsJson::Object(self.iter().map(|(k, x)| (k.clone(), x.spec())).collect()) }
    fn gen(r: &mut Rng, d: usize) -> Self { let n = if d == 0 { 0 } else { r.below(4) }; (0..n).map(|_| (string(r), T::gen(r, d - 1))).collect() }
    fn shape(j: &JsJson) -> Option<bool> { HashMap::<String, T>::shape(j) }
}
pub fn mem<T: Spec>(j: &JsJson, n: &str) -> Option<bool> {
    match j { JsJson::Object(m) => match m.get(n) { Some(x) => T::shape(x), None => Some(false) }, _ => Some(false) }
}
/// defaulted member: absent is fine; present with a wrong shape is left open
pub fn dmem<T: Spec>(j: &JsJson, n: &str) -> Option<bool> {
    match j { JsJson::Object(m) => match m.get(n) { Some(x) => if T::shape(x) == Some(true) { Some(true) } else { None }, None => Some(true) }, _ => Some(false) }
}
impl Spec for Flat {
    fn spec(&self) -> JsJson { obj(vec![("id", self.id.spec()), ("name", self.name.spec()), ("on", self.on.spec()), ("small", self.small.spec()), ("un", self.un.spec()), ("big", self.big.spec())]) }
    fn gen(r: &mut Rng, d: usize) -> Self { Flat { id: Spec::gen(r, d), name: Spec::gen(r, d), on: Spec::gen(r, d), small: Spec::gen(r, d), un: Spec::gen(r, d), big: Spec::gen(r, d) } }
    fn shape(j: &JsJson) -> Option<bool> { all([mem::<i64>(j, "id"), mem::<String>(j, "name"), mem::<bool>(j, "on"), mem::<i32>(j, "small"), mem::<u32>(j, "un"), mem::<u64>(j, "big")].into_iter()) }
}
impl Spec for Nested {
    fn spec(&self) -> JsJson { obj(vec![("flat", self.flat.spec()), ("opt", self.opt.spec()), ("list", self.list.spec()), ("map", self.map.spec()), ("tree", self.tree.spec()), ("type", self.r#type.spec()), ("unit", obj(vec![]))]) }
    fn gen(r: &mut Rng, d: usize) -> Self { Nested { flat: Spec::gen(r, d), opt: Spec::gen(r, d), list: Spec::gen(r, d), map: Spec::gen(r, d), tree: Spec::gen(r, d), r#type: Spec::gen(r, d), unit: () } }
    fn shape(j: &JsJson) -> Option<bool> { all([mem::<Flat>(j, "flat"), mem::<Option<Flat>>(j, "opt"), mem::<Vec<Flat>>(j, "list"), mem::<HashMap<String, Vec<i32>>>(j, "map"), mem::<BTreeMap<String, Option<String>>>(j, "tree"), mem::<String>(j, "type"), mem::<()>(j, "unit")].into_iter()) }
}
impl Spec for New {
    fn spec(&self) -> JsJson { self.0.spec() }
    fn gen(r: &mut Rng, d: usize) -> Self { New(Spec::gen(r, d)) }
    fn shape(j: &JsJson) -> Option<bool> { u32::shape(j) }
}
impl Spec for NewVec {
    fn spec(&self) -> JsJson { self.0.spec() }
    fn gen(r: &mut Rng, d: usize) -> Self { NewVec(Spec::gen(r, d)) }
    fn shape(j: &JsJson) -> Option<bool> { Vec::<Option<New>>::shape(j) }
}
impl Spec for Tup {
    fn spec(&self) -> JsJson { JsJson::List(vec![self.0.spec(), self.1.spec(), self.2.spec(), self.3.spec()]) }
    fn gen(r: &mut Rng, d: usize) -> Self { Tup(Spec::gen(r, d), Spec::gen(r, d), Spec::gen(r, d), Spec::gen(r, d)) }
    fn shape(j: &JsJson) -> Option<bool> { match j { JsJson::List(l) if l.len() == 4 => all([i32::shape(&l[0]), String::shape(&l[1]), New::shape(&l[2]), Vec::<bool>::shape(&l[3])].into_iter()), _ => Some(false) } }
}
impl Spec for Box2 {
    fn spec(&self) -> JsJson { obj(vec![("inner", self.inner.spec())]) }
    fn gen(r: &mut Rng, d: usize) -> Self { Box2 { inner: Spec::gen(r, d) } }
    fn shape(j: &JsJson) -> Option<bool> { mem::<Vec<En>>(j, "inner") }
}
impl Spec for En {
    fn spec(&self) -> JsJson {
        let one = |n: &str, j: JsJson| obj(vec![(n, j)]);
        match self {
            En::Nothing => JsJson::String("Nothing".into()),
            En::r#match => JsJson::String("match".into()),
            En::One(s) => one("One", s.spec()),
            En::Wrap(n) => one("Wrap", n.spec()),
            En::Many(a, b, c) => one("Many", JsJson::List(vec![a.spec(), b.spec(), c.spec()])),
            En::Named { x, y, r#fn } => one("Named", obj(vec![("x", x.spec()), ("y", y.spec()), ("fn", r#fn.spec())])),
            En::Rec(l) => one("Rec", l.spec()),
            En::Pair(a, b) => one("Pair", JsJson::List(vec![a.spec(), b.spec()])),
        }
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(8) {
            0 => En::Nothing,
            1 => En::r#match,
            2 => En::One(Spec::gen(r, d)),
            3 => En::Wrap(Spec::gen(r, d)),
            4 => En::Many(Spec::gen(r, d), Spec::gen(r, d), Spec::gen(r, d)),
            5 => En::Named { x: Spec::gen(r, d), y: Spec::gen(r, d), r#fn: Spec::gen(r, d) },
            6 => En::Rec(Spec::gen(r, d)),
            _ => En::Pair(Spec::gen(r, d), Spec::gen(r, d)),
        }
    }
    fn shape(j: &JsJson) -> Option<bool> {
        match j {
            JsJson::String(s) => Some(s == "Nothing" || s == "match"),
            JsJson::Object(m) if m.len() == 1 => {
                let (k, v) = m.iter().next().unwrap();
                match k.as_str() {
                    "One" => String::shape(v),
                    "Wrap" => New::shape(v),
                    "Many" => match v { JsJson::List(l) if l.len() == 3 => all([u32::shape(&l[0]), String::shape(&l[1]), Option::<bool>::shape(&l[2])].into_iter()), _ => Some(false) },
                    "Named" => all([mem::<i64>(v, "x"), mem::<Option<String>>(v, "y"), mem::<Vec<u32>>(v, "fn")].into_iter()),
                    "Rec" => Vec::<En>::shape(v),
                    "Pair" => match v { JsJson::List(l) if l.len() == 2 => all([Box2::shape(&l[0]), New::shape(&l[1])].into_iter()), _ => Some(false) },
                    _ => Some(false),
                }
            }
            // more than one member next to a variant is left open
            JsJson::Object(m) if m.keys().any(|k| ["One", "Wrap", "Many", "Named", "Rec", "Pair"].contains(&k.as_str())) => None,
            _ => Some(false),
        }
    }
}
impl Spec for Def {
    fn spec(&self) -> JsJson { obj(vec![("a", self.a.spec()), ("b", self.b.spec()), ("c", self.c.spec()), ("d", self.d.spec()), ("e", self.e.spec())]) }
    fn gen(r: &mut Rng, d: usize) -> Self { Def { a: Spec::gen(r, d), b: Spec::gen(r, d), c: Spec::gen(r, d), d: Spec::gen(r, d), e: Spec::gen(r, d) } }
    fn shape(j: &JsJson) -> Option<bool> { all([mem::<String>(j, "a"), dmem::<Option<String>>(j, "b"), dmem::<i32>(j, "c"), dmem::<String>(j, "d"), dmem::<Vec<New>>(j, "e")].into_iter()) }
}
/// changes one place of a JSON tree; returns the member names on the way there
fn mutate(r: &mut Rng, j: &mut JsJson, path: &mut Vec<String>, d: usize) {
    let here = r.chance(35) || d == 0;
    match j {
        JsJson::Object(m) if !m.is_empty() && !here => {
            let mut ks: Vec<_> = m.keys().cloned().collect();
            ks.sort();
            let k = r.pick(&ks).clone();
            path.push(k.clone());
            mutate(r, m.get_mut(&k).unwrap(), path, d - 1)
        }
        JsJson::List(l) if !l.is_empty() && !here => { let i = r.below(l.len()); path.push(i.to_string()); mutate(r, &mut l[i], path, d - 1) }
        JsJson::Object(m) if !m.is_empty() && r.chance(60) => {
            let mut ks: Vec<_> = m.keys().cloned().collect();
            ks.sort();
            let k = r.pick(&ks).clone();
            path.push(k.clone());
            let v = m.remove(&k).unwrap();
            if r.chance(50) { let k2 = alike(r, &k); m.entry(k2).or_insert(v); }
        }
        JsJson::List(l) if r.chance(60) => { if r.chance(50) { l.push(json(r, 1)) } else { l.pop(); } }
        JsJson::Number(n) if r.chance(70) => *n = match r.below(5) { 0 => *n + 0.5, 1 => -*n - 1.0, 2 => float(r), 3 => *n + 4294967296.0, _ => *n * 1e10 },
        JsJson::String(s) if r.chance(60) => *s = alike(r, s),
        x => *x = json(r, 1),
    }
}
/// another text, sometimes one that a careless comparison takes for the same
fn alike(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(6) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => { if let Some(x) = c.first_mut() { *x = if x.is_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() } } c.into_iter().collect() }
        3 => { c.pop(); c.into_iter().collect() }
        4 => format!(" {s}"),
        _ => format!("{s}x"),
    }
}
pub fn conv<T: Spec + JsJsonSerialize + JsJsonDeserialize + PartialEq + Clone + std::fmt::Debug>(r: &mut Rng, name: &str, structural: bool) {
    let d = 1 + r.below(4);
    let v = T::gen(r, d);
    let j = to_json(v.clone());
    trace(format!("{name} {v:?} -> {j:?}"));
    cov(|c| { c.inc("conversions"); c.hs(&format!("{j:?}")); c.distinct.insert(c.hash); if !matches!(j, JsJson::True | JsJson::False | JsJson::Null) { c.nontrivial = true } });
    if !same_j(&j, &v.spec()) { return viol("C14", "json:mapping", format!("{name}: {v:?} became {j:?}, expected {:?}", v.spec())) }
    match from_json::<T>(j.clone()) {
        Ok(x) if x == v => {}
        x => return viol("C14", "json:roundtrip", format!("{name}: {v:?} comes back as {x:?}")),
    }
    // through the boundary buffer
    match dec(&bytes_of(&JsValue::Json(j.clone()))) { Ok(JsValue::Json(x)) if same_j(&x, &j) => {} x => viol("C13", "codec:roundtrip", format!("JSON {j:?} decodes as {x:?}")) }
    for _ in 0..6 {
        let mut m = j.clone();
        let mut path = vec![];
        for _ in 0..1 + r.below(2) { path.clear(); mutate(r, &mut m, &mut path, 4) }
        let want = T::shape(&m);
        let got = from_json::<T>(m.clone());
        cov(|c| { c.inc("mutated_conversions"); if want == Some(false) { c.inc("rejections_required") } });
        match (want, &got) {
            (Some(true), Err(e)) => viol("C14", "json:refused", format!("{name}: {m:?} is refused: {e}")),
            (Some(false), Ok(x)) => viol("C14", "json:accepted", format!("{name}: {m:?} is accepted as {x:?}")),
            (_, Ok(x)) => {
                // what was accepted says what the input says: members not understood may be dropped
                if want == Some(true) && !covers(&m, &x.spec(), name) { viol("C14", "json:altered", format!("{name}: {m:?} became {x:?}")) }
            }
            (Some(false), Err(e)) if structural && !e.starts_with("root") => viol("C14", "json:error-place", format!("{name}: {m:?} refused with {e:?}")),
            (Some(false), Err(e)) if structural => {
                // with a single broken place the message names the members on the way to it
                let mut m1 = j.clone();
                let mut p1 = vec![];
                mutate(r, &mut m1, &mut p1, 4);
                if T::shape(&m1) == Some(false) {
                    match from_json::<T>(m1.clone()) {
                        Err(e) => {
                            cov(|c| c.inc("error_places_checked"));
                            if let Some(k) = p1.first() { if !e.contains(k.as_str()) { viol("C14", "json:error-place", format!("{name}: {m1:?} (broken at {p1:?}) refused with {e:?}")) } }
                        }
                        Ok(x) => viol("C14", "json:accepted", format!("{name}: {m1:?} is accepted as {x:?}")),
                    }
                }
                let _ = e;
            }
            _ => {}
        }
    }
}
/// what the members of generated types have when they are absent
pub static FILLED: std::sync::OnceLock<fn(&str) -> Option<JsJson>> = std::sync::OnceLock::new();
fn filled(k: &str) -> Option<JsJson> { FILLED.get().and_then(|f| f(k)) }
/// generated types: each case converts values of several
pub fn types(o: &Opts, k: u64, all: &[fn(&mut Rng)]) {
    let mut r = Rng::new(o.seed ^ 0xdeca, k);
    cov(|c| c.h(mix(k)));
    for i in 0..4 {
        let at = if i == 0 { k as usize % all.len() } else { r.below(all.len()) };
        cov(|c| c.inc("type_programs"));
        all[at](&mut r);
    }
}
/// every part of `out` that `input` also states is equal (input may have extra members; defaults may fill in)
fn covers(input: &JsJson, out: &JsJson, name: &str) -> bool {
    match (input, out) {
        (JsJson::Object(a), JsJson::Object(b)) => b.iter().all(|(k, v)| match a.get(k) {
            Some(x) => covers(x, v, name),
            None => filled(k).is_some_and(|d| same_j(&d, v)) || name == "Def" && match (k.as_str(), v) { ("b", JsJson::Null) => true, ("c", JsJson::Number(n)) => *n == 7.0, ("d", JsJson::String(s)) => s == "dflt", ("e", JsJson::List(l)) => *l == vec![JsJson::Number(3.0)], _ => false },
        }),
        (JsJson::List(a), JsJson::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| covers(x, y, name)),
        (JsJson::Number(a), JsJson::Number(b)) => a == b,
        (a, b) => same_j(a, b),
    }
}
fn dates(r: &mut Rng) {
    use chrono::{DateTime, NaiveDate, Utc};
    let secs = r.range(-62_000_000_000, 200_000_000_000);
    let nano = *r.pick(&[0u32, 1, 999_999_999, 500_000_000, 123_000_000, 123_456_000]);
    if let Some(d) = DateTime::<Utc>::from_timestamp(secs, nano) {
        match from_json::<DateTime<Utc>>(to_json(d)) { Ok(x) if x == d => {} x => viol("C14", "json:date", format!("{d:?} comes back as {x:?}")) }
        let n: NaiveDate = d.date_naive();
        if to_json(n) != JsJson::String(n.to_string()) { viol("C14", "json:mapping", format!("{n:?} became {:?}", to_json(n))) }
        match from_json::<NaiveDate>(to_json(n)) { Ok(x) if x == n => {} x => viol("C14", "json:date", format!("{n:?} comes back as {x:?}")) }
        cov(|c| c.inc("dates"));
    }
    for bad in ["", "2020-13-01", "2020-02-30", "2021-01-01T25:00:00Z", "yesterday"] {
        if let Ok(x) = from_json::<NaiveDate>(JsJson::String(bad.into())) { viol("C14", "json:accepted", format!("date {bad:?} accepted as {x:?}")) }
        if let Ok(x) = from_json::<DateTime<Utc>>(JsJson::String(bad.into())) { viol("C14", "json:accepted", format!("date {bad:?} accepted as {x:?}")) }
    }
    if from_json::<NaiveDate>(json(r, 0)).is_ok() { viol("C14", "json:accepted", "random JSON accepted as a date") }
}
pub fn case(o: &Opts, k: u64) {
    let mut r = Rng::new(o.seed ^ 0xc0dec, k);
    cov(|c| c.h(mix(k)));
    let p = o.profile.as_str();
    for _ in 0..6 {
        if p != "json" {
            roundtrip(&mut r);
            hostile(&mut r);
            if k % 4 == 0 { leak(&mut r) }
        }
        if p != "codec" {
            match r.below(13) {
                0 => conv::<Flat>(&mut r, "Flat", true),
                1 | 2 => conv::<Nested>(&mut r, "Nested", true),
                3 => conv::<New>(&mut r, "New", false),
                4 => conv::<NewVec>(&mut r, "NewVec", false),
                5 => conv::<Tup>(&mut r, "Tup", false),
                6 | 7 => conv::<En>(&mut r, "En", false),
                8 => conv::<Box2>(&mut r, "Box2", true),
                9 | 10 => conv::<Def>(&mut r, "Def", true),
                11 => conv::<Vec<BTreeMap<String, Option<i64>>>>(&mut r, "collections", false),
                _ => dates(&mut r),
            }
        }
    }
    if k == 0 && p != "json" {
        // known finding: the member count of an object is 16 bit wide on the wire
        let v = JsValue::Object((0..65539).map(|i| (i.to_string(), JsValue::Null)).collect());
        if dec(&bytes_of(&v)).ok() != Some(v) { viol("C13", "codec:object-65536", "an object of 65539 members does not come back") }
    }
}
