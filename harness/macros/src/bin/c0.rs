// The programs are written by gencss.py into $VPGEN.
#![allow(unused, clippy::all)]
#[path = "../../../native/src/css.rs"]
pub mod css;
#[path = "../../../native/src/rng.rs"]
pub mod rng;
#[path = "../../../native/src/run.rs"]
pub mod run;
pub mod styles {
    include!(concat!(env!("VPGEN"), "/c0.rs"));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    // c0 OUT SEED CASES SECS [CASE]
    let mut o = run::Opts { monitor: "programs".into(), prop: "*".into(), profile: "".into(), seed: n(2, 1), cases: n(3, 1000), first: 0, secs: n(4, 30), threads: 8, out: a.get(1).cloned().unwrap_or("-".into()) };
    if let Some(c) = a.get(5).and_then(|x| x.parse().ok()) { o.first = c; o.cases = 1; o.threads = 1 }
    let out = o.out.clone();
    let t = run::run(o, |o, k| css::programs(o, k, styles::STYLES));
    run::write_json(&out, &t, &a[1..].join(" "));
    std::process::exit(0);
}
