"""Writes types that derive the JSON conversion and what the mapping says of them. genjson.py SEED COUNT OUTDIR"""
import random, sys, os
R = random.Random(int(sys.argv[1])); N = int(sys.argv[2]); OUT = sys.argv[3]
FIELDS = ["id", "name", "value", "json", "ctx", "context", "x", "y", "fields_rev", "compound_variant", "map", "list", "r#type", "r#fn", "r#match", "key", "some_long_name_of_a_member", "camelCase", "UPPER", "_hidden", "a1", "zażółć", "f_0", "f_1", "message", "result", "data", "ok", "r#in", "simple_variant", "typ", "types", "item", "items"]
VARIANTS = ["Nothing", "One", "Two", "Ok", "Err", "Some", "None", "String", "Object", "List", "r#match", "r#loop", "Value", "VALUE", "Values", "lower", "Zażółć", "A", "B", "Ab", "AB", "Named", "Tuple", "True", "Null", "Default", "X1", "X2", "X10", "With_Underscore"]
BASE = ["i64", "u64", "i32", "u32", "bool", "String", "()"]
done = []  # names of types defined so far
def un(n): return n[2:] if n.startswith("r#") else n
def s(n): return '"' + n + '"'
def ty(d=0, me=None):
    k = R.random()
    if me and k < .08: return f"Vec<{me}>"
    if me and k < .12: return f"HashMap<String, {me}>"
    if done and k < .4: return R.choice(done)
    if d < 3 and k < .5: return f"Vec<{ty(d + 1, me)}>"
    if d < 3 and k < .6:
        t = ty(d + 1, me)
        return t if t.startswith("Option") or t == "()" or t in opt else f"Option<{t}>"
    if d < 3 and k < .66: return f"{R.choice(['HashMap', 'BTreeMap'])}<String, {ty(d + 1, me)}>"
    return R.choice(BASE)
opt = set()  # newtypes of an Option: null is ambiguous under another Option
src, defaults = [], []
DEFAULTS = [("i32", "7", "JsJson::Number(7.0)"), ("String", '"dflt".to_string()', 'JsJson::String("dflt".to_string())'), ("Option<String>", "None", "JsJson::Null"), ("Vec<u32>", "vec![1, 2]", "JsJson::List(vec![JsJson::Number(1.0), JsJson::Number(2.0)])"), ("bool", "true", "JsJson::True"), ("u64", "2 + 3", "JsJson::Number(5.0)"), ("Vec<i64>", "Default::default()", "JsJson::List(vec![])"), ("bool", "!true", "JsJson::False"), ("i64", "-1", "JsJson::Number(-1.0)"), ("Option<i32>", "Some(twice(4))", "JsJson::Number(8.0)")]
DER = "#[derive(AutoJsJson, Debug, Clone, PartialEq)]\n#[allow(non_camel_case_types, non_snake_case)]\n"
def named(me, fs): # [(field, type, default)]
    return ", ".join(R.choice(["", "", "#[doc = \" a member's text \"] "]) + ("#[js_json(default = %s)] " % d[0] if d else "") + R.choice(["", "", "#[allow(unused)] "]) + "%s%s: %s" % (R.choice(["pub ", "", "pub(crate) "]), f, t) for f, t, d in fs)
def shape_named(fs, v): return "all([" + ", ".join(f"{'dmem' if d else 'mem'}::<{t}>({v}, {s(un(f))})" for f, t, d in fs) + "].into_iter())"
def shape_tuple(ts, v):
    return f"match {v} {{ JsJson::List(l) if l.len() == {len(ts)} => all([" + ", ".join(f"<{t}>::shape(&l[{i}])" for i, t in enumerate(ts)) + "].into_iter()), _ => Some(false) }"
def fields(me, n): return [(f, ty(0, me), None) for f in R.sample(FIELDS, min(n, len(FIELDS)))]
GEN = "Spec::gen(r, d.saturating_sub(1))"
for i in range(N):
    me = f"T{i}"; kind = R.choice(["struct", "struct", "new", "tuple", "enum", "enum"]); calls = "false"
    if kind == "struct":
        fs = fields(me, R.choice([1, 2, 3, 5, 8, 30])); calls = "true"
        if R.random() < .4:
            for _ in range(R.randint(1, 4)):
                t, e, j = R.choice(DEFAULTS); n = f"d{len(defaults)}"; defaults.append((n, j)); fs.insert(R.randint(0, len(fs)), (n, t, (e, j)))
        src.append(DER + f"""pub struct {me} {{ {named(me, fs)} }}
impl Spec for {me} {{
    fn spec(&self) -> JsJson {{ obj(vec![{", ".join(f"({s(un(f))}, self.{f}.spec())" for f, _, _ in fs)}]) }}
    fn gen(r: &mut Rng, d: usize) -> Self {{ {me} {{ {", ".join(f"{f}: {GEN}" for f, _, _ in fs)} }} }}
    fn shape(j: &JsJson) -> Option<bool> {{ {shape_named(fs, "j")} }}
}}""")
    elif kind == "new":
        t = ty(0)
        if t.startswith("Option") or t in opt: opt.add(me)
        src.append(DER + f"""pub struct {me}(pub {t});
impl Spec for {me} {{
    fn spec(&self) -> JsJson {{ self.0.spec() }}
    fn gen(r: &mut Rng, d: usize) -> Self {{ {me}(Spec::gen(r, d)) }}
    fn shape(j: &JsJson) -> Option<bool> {{ <{t}>::shape(j) }}
}}""")
    elif kind == "tuple":
        ts = [ty(0, me) for _ in range(R.choice([2, 2, 3, 4, 12]))]
        src.append(DER + f"""pub struct {me}({", ".join("pub " + t for t in ts)});
impl Spec for {me} {{
    fn spec(&self) -> JsJson {{ JsJson::List(vec![{", ".join(f"self.{k}.spec()" for k in range(len(ts)))}]) }}
    fn gen(r: &mut Rng, d: usize) -> Self {{ {me}({", ".join([GEN] * len(ts))}) }}
    fn shape(j: &JsJson) -> Option<bool> {{ {shape_tuple(ts, "j")} }}
}}""")
    else:
        decl, spec, gen, shape, units, objs = [], [], [], [], [], []
        vs = R.sample(VARIANTS, R.choice([1, 2, 3, 5, 8, 28]))
        mode = R.choice(["mixed", "mixed", "mixed", "units"])
        for k, v in enumerate(vs):
            f = "unit" if mode == "units" else R.choice(["unit", "one", "many", "named"]); q = s(un(v))
            if f == "unit": decl.append(v); spec.append(f"{me}::{v} => JsJson::String({q}.to_string())"); gen.append(f"{k} => {me}::{v}"); units.append(q); continue
            objs.append(q)
            rec = me if any(x in decl for x in vs) else None # a value without recursion exists
            if f == "one":
                t = ty(0, rec); decl.append(f"{v}({t})"); spec.append(f"{me}::{v}(a) => obj(vec![({q}, a.spec())])"); gen.append(f"{k} => {me}::{v}({GEN})"); shape.append(f"{q} => <{t}>::shape(v)")
            elif f == "many":
                ts = [ty(0, rec) for _ in range(R.choice([2, 3, 5]))]; a = [f"a{n}" for n in range(len(ts))]
                decl.append(f"{v}({', '.join(ts)})"); spec.append(f"{me}::{v}({', '.join(a)}) => obj(vec![({q}, JsJson::List(vec![{', '.join(x + '.spec()' for x in a)}]))])")
                gen.append(f"{k} => {me}::{v}({', '.join([GEN] * len(ts))})"); shape.append(f"{q} => {shape_tuple(ts, 'v')}")
            else:
                fs = fields(rec, R.choice([1, 2, 3, 6]))
                decl.append(f"{v} {{ {', '.join(f + ': ' + t for f, t, _ in fs)} }}")
                spec.append(f"{me}::{v} {{ {', '.join(f + ': b%d' % n for n, (f, _, _) in enumerate(fs))} }} => obj(vec![({q}, obj(vec![{', '.join('(%s, b%d.spec())' % (s(un(f)), n) for n, (f, _, _) in enumerate(fs))}]))])")
                gen.append(f"{k} => {me}::{v} {{ {', '.join(f + ': ' + GEN for f, _, _ in fs)} }}"); shape.append(f"{q} => {shape_named(fs, 'v')}")
        gen[-1] = "_" + gen[-1][gen[-1].index(" "):]
        src.append(DER + f"""pub enum {me} {{ {", ".join(decl)} }}
impl Spec for {me} {{
    fn spec(&self) -> JsJson {{ match self {{ {", ".join(spec)} }} }}
    fn gen(r: &mut Rng, d: usize) -> Self {{ match r.below({len(vs)}) {{ {", ".join(gen)} }} }}
    fn shape(j: &JsJson) -> Option<bool> {{
        let objs: &[&str] = &[{", ".join(objs)}];
        match j {{
            JsJson::String(s) => {{ let units: &[&str] = &[{", ".join(units)}]; Some(units.contains(&s.as_str())) }}
            JsJson::Object(m) if m.len() == 1 => {{ let (k, v) = m.iter().next().unwrap(); match k.as_str() {{ {" ".join(x + "," for x in shape)} _ => Some(false) }} }}
            JsJson::Object(m) if m.keys().any(|k| objs.contains(&k.as_str())) => None,
            _ => Some(false),
        }}
    }}
}}""")
    src.append(f'pub fn c{i}(r: &mut Rng) {{ conv::<{me}>(r, "{me}", {calls}) }}')
    done.append(me)
os.makedirs(OUT, exist_ok=True)
head = "use std::collections::{BTreeMap, HashMap};\nuse vertigo::{AutoJsJson, JsJson};\nuse super::codec::*;\nuse super::rng::Rng;\nfn twice(n: i32) -> i32 { n * 2 }\n"
open(os.path.join(OUT, "j0.rs"), "w").write(head + "\n".join(src) + "\npub const TYPES: &[fn(&mut Rng)] = &[" + ", ".join(f"c{i}" for i in range(N)) + "];\npub fn filled(k: &str) -> Option<JsJson> { match k { " + " ".join(f"{s(n)} => Some({j})," for n, j in defaults) + " _ => None } }\n")
