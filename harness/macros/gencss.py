"""Writes programs of the style macros and what their text says. gencss.py SEED COUNT OUTDIR"""
import random, sys, os
R = random.Random(int(sys.argv[1])); N = int(sys.argv[2]); OUT = sys.argv[3]
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'
NAMES = ["color", "width", "background", "background-image", "content", "margin", "font-family", "transition", "border-top-color", "grid-template-areas", "-webkit-filter", "--own-prop", "border", "padding", "transform", "box-shadow", "an", "all", "flex"]
# an embedded expression: its text in the macro, what it comes to
EXPRS = [("n", "n.to_string()"), ("n", "n.to_string()"), ("m", "m.to_string()"), ("f", "f.to_string()"), ("col", "col.clone()"), ("word", "word.to_string()"), ("n + 1", "(n + 1).to_string()"), ("n * 2 - 1", "(n * 2 - 1).to_string()"), (" m ", "m.to_string()"), ("o.n", "o.n.to_string()"), ("col.to_uppercase()", "col.to_uppercase()"), ("&word", "word.to_string()"), ("o.name", "o.name.clone()"), ("n.max(7)", "n.max(7).to_string()"), ("twice(m)", "twice(m).to_string()"), ("[\"a b\", \"a  b\", \"ab\"][1]", '"a  b".to_string()'), ("[\"a b\", \"a b\", \"ab\"][1]", '"a b".to_string()'), ("[\"a b\", \"ab\", \"ab\"][1]", '"ab".to_string()'), ("'A'.to_string() + &word", "['A'.to_string(), word.to_string()].concat()"), ("'a'.to_string() + &word", "['a'.to_string(), word.to_string()].concat()")]
NUMS = [e for e in EXPRS if "col" not in e[0] and "word" not in e[0] and "name" not in e[0] and '"' not in e[0]]
UNITS = ["px", "em", "%", "s", "deg", "vh", "rem", ""]
LITS = ["red", "1px solid", "auto", "0", ".5em", "none", "inherit", "10px 20px", "rgba(0, 0, 0, 0.3)", "var(--x, 1px)", "calc(100% - (2 * 10px))", "#abcdef", "#12345678", "#fff", "#abcdef00 solid", "translate(-50%, 10px)", "rgb(1,2,3)", "hsl(1, 2%, 3%)", "Gęśl, 'Łąka Ω', sans-serif", "\"a:b\"", "'a  b'", "\"🦀\"", "linear-gradient(to right, red 0%, #123456 50%)", "!important", "a / b", "\\201C x", "\"it's\"", "1fr minmax(10px, 1fr)"]
URLS = ["url('a.png')", "url('data:image/svg+xml;utf8,<svg/>')", "url(\"a.png?x=1;y=2\")", "url(b.png) no-repeat"]
SELS = [":hover", ":focus::first-letter", ":nth-child(2n + 1)", ":before", ":hover > a", ":not(.ą)", ":is(.a, .b)", ":first-child", ":hover .inner", ":nth-of-type(2)", ":lang(pl) + .ż"]
QUERIES = ["@media screen and (min-width: 400px)", "@media print", "@media (max-width: 10.5em), print", "@media not all and (monochrome)", "@media (400px <= width <= 700px)"]
ANIMS = ["1.0s infinite ease-in-out", "2s", "3s linear 1s", ".2s cubic-bezier(0.1, 0.7, 1, 0.1)"]
COMMENTS = [" x ", " it's ", " a: b; ", " } ", " :hover { ", "", " {n} "]
def ws(): return R.choice(["", " ", "\n", "\n    ", "  \t"])
class G:
    def __init__(self): self.plain = R.random() < .25; self.many = not self.plain and R.random() < .1; self.lone = R.random() < .4 # rows beginning with a reference stay in the rule and rely on nesting: not with media rows
    def num(self):
        if self.many: k = R.randrange(1000); return (f"n + {k}", f"(n + {k}).to_string()")
        return R.choice(NUMS)
    def value(self):
        """-> text, list of pieces (literal or ('e', rust))"""
        k = R.random() if not self.plain else R.choice([.1, .15, 1, 1, 1, 1, 1])
        if k < .06: e = R.choice([("url", "url.to_string()"), ("o.name", "o.name.clone()")]); return "url({%s})" % e[0], ["url('", ("e", e[1]), "')"]
        if k < .12: u = R.choice(URLS); return u, [u]
        if k < .18: s = R.choice(['"{{x}}"', "'{{'", "\"a}}b\"", '"{{}} {{n}}"']); return s, [s.replace("{{", "{").replace("}}", "}")]
        t, p = "", []
        for i in range(R.choice([1, 1, 2, 3, 5])):
            if i: s = R.choice([" ", " ", " ", ", ", "  ", "\n   "]); t += s; p.append(s)
            k = R.random() if not self.plain else 1
            if k < .3:
                e, u = self.num(), R.choice(UNITS); s = R.choice(["", "", "", "-", "+"])
                t += s + "{" + e[0] + "}" + u; p += [s, ("e", e[1]), u]
            elif k < .5:
                e = R.choice(EXPRS); t += "{" + e[0] + "}"; p.append(("e", e[1]))
            elif k < .58:
                e = R.choice(NUMS); f = R.choice(["calc(100% - ", "translate(", "max(1px, ", "rgba(1, 2, 3, "]); z = R.choice([")", "px)", "% + 1px)"])
                t += f + "{" + e[0] + "}" + z; p += [f, ("e", e[1]), z]
            else:
                l = R.choice(LITS); t += l; p.append(l)
        return t, p
    def decl(self):
        n = R.choice(NAMES); t, p = self.value()
        return f"{n}{R.choice([':', ':', ' :'])}{ws()}{t}{R.choice(['', '', ' '])};", ("d", n, p)
    def decls(self, n): return [self.decl() for _ in range(n)]
    def body(self, media, depth, n=None, anims=True):
        t, items = "", []
        for _ in range(n or R.randint(1, 4)):
            t += ws()
            if R.random() < .1: t += "/*" + R.choice(COMMENTS) + "*/" + ws()
            k = R.random()
            if k < .22 and depth == 0 or k < .2 and media:
                s = R.choice(SELS); refs = R.choice([0, 0, 0, 1, 2]); lone = self.lone and not media and R.random() < .4
                st, sp = ("", []) if lone else (s, [s])
                for i in range(max(refs, 1) if lone else refs):
                    x = R.randrange(3); st += (" " if st else "") + f"[r{x}]"; sp += [" ." if sp else ".", ("e", f"k{x}.clone()")]
                bt, bi = self.body(False, depth + 1, anims=not lone)
                t += st + R.choice([" ", ""]) + "{" + bt + ws() + "}" + R.choice([";", ";", ";"]); items.append(("n", sp, bi))
            elif k < .3 and depth == 0 and not media and not self.lone:
                qr = R.choice(QUERIES); bt, bi = self.body(True, 1)
                t += qr + " {" + bt + ws() + "};"; items.append(("m", qr, bi))
            elif k < .38 and anims:
                a = R.choice(ANIMS); fr = []; t += "animation: " + a + " {"
                for st in R.choice([["0%", "100%"], ["0%", "50%", "100%"], ["10%"], ["0%", "20%", "33%", "50%", "80%", "100%"]]):
                    ds = self.decls(R.choice([1, 1, 2, 2, 3, 5])); t += ws() + st + " {" + ws().join([""] + [d[0] for d in ds]) + ws() + "}"
                    fr.append((st, [d[1] for d in ds]))
                t += ws() + "};"; items.append(("a", a, fr))
            else:
                dt, di = self.decl(); t += dt; items.append(di)
        return t, items
def cat(p):
    p = [x for x in p if x != ""]
    return "[" + ", ".join(q(x) + ".to_string()" if isinstance(x, str) else x[1] for x in p) + "].concat()" if p else "String::new()"
def rust(i):
    if i[0] == "d": return f"d({q(i[1])}, {cat(i[2])})"
    if i[0] == "n": return f"nest({cat(i[1])}, vec![{', '.join(map(rust, i[2]))}])"
    if i[0] == "m": return f"It::Media({q(i[1])}.to_string(), vec![{', '.join(map(rust, i[2]))}])"
    fr = ", ".join("(%s.to_string(), vec![%s])" % (q(s), ", ".join(f"({q(x[1])}.to_string(), {cat(x[2])})" for x in ds)) for s, ds in i[2])
    return f"It::Anim({q(i[1])}.to_string(), vec![{fr}], String::new())"
os.makedirs(OUT, exist_ok=True)
names = []; src = []
for k in range(N):
    g = G(); t, items = g.body(False, 0, R.choice([20, 60]) if g.many else R.choice([1, 2, 3, 4, 6, 9]))
    form = R.choice(["css", "css", "css", "block"])
    lit = R.choice([q(t), 'r#"' + t + '"#'])
    mac = f"css! {{{lit}}}" if form == "css" else f"block(css_block! {{{lit}}}.to_string())"
    src.append(f"""pub fn s{k}(x: &X) -> (Css, Vec<It>) {{
    let X {{ n, m, f, col, word, url, o, r0, r1, r2, k0, k1, k2 }} = x; let (n, m, f) = (*n, *m, *f);
    let style = {mac};
    (style, vec![{', '.join(map(rust, items))}])
}}""")
    names.append(f"s{k}")
head = "use vertigo::{css, css_block, Css};\nuse super::css::*;\n"
open(os.path.join(OUT, "c0.rs"), "w").write(head + "\n".join(src) + "\npub const STYLES: &[fn(&X) -> (Css, Vec<It>)] = &[" + ", ".join(names) + "];\n")
