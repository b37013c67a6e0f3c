mod alloc;
mod codec;
mod css;
mod dom;
mod host;
mod inspect;
mod reactive;
mod rng;
mod run;

#[cfg(not(feature = "asan"))]
#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = run::Opts { monitor: a.get(1).cloned().unwrap_or_default(), prop: "*".into(), profile: "".into(), seed: 1, cases: 1000, first: 0, secs: 30, threads: 8, out: "-".into() };
    let mut i = 2;
    while i + 1 < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--profile" => o.profile = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--cases" => o.cases = v.parse().unwrap(),
            "--first" => o.first = v.parse().unwrap(),
            "--case" => { o.first = v.parse().unwrap(); o.cases = 1; o.threads = 1; }
            "--secs" => o.secs = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--out" => o.out = v,
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let f: run::CaseFn = match o.monitor.as_str() {
        "reactive" => reactive::case,
        "dom" => dom::case,
        "css" => css::case,
        "inspect" => inspect::case,
        "codec" => codec::case,
        x => { eprintln!("unknown monitor {x}"); std::process::exit(2) }
    };
    let out = o.out.clone();
    let desc = a[1..].join(" ");
    let t = run::run(o, f);
    run::write_json(&out, &t, &desc);
    std::process::exit(0);
}
