//! The command and log format: JSON, read and written independently of the library.
#[derive(Clone, Debug, PartialEq)]
pub enum J { N, B(bool), I(i64), F(f64), S(String), L(Vec<J>), O(Vec<(String, J)>) }
impl J {
    pub fn s(&self) -> &str { if let J::S(s) = self { s } else { panic!("string expected, got {self:?}") } }
    pub fn i(&self) -> i64 { match self { J::I(i) => *i, J::F(f) => *f as i64, J::B(b) => *b as i64, _ => panic!("number expected, got {self:?}") } }
    pub fn f(&self) -> f64 { match self { J::I(i) => *i as f64, J::F(f) => *f, _ => panic!("number expected") } }
    pub fn b(&self) -> bool { matches!(self, J::B(true)) }
    pub fn l(&self) -> &[J] { if let J::L(l) = self { l } else { panic!("list expected, got {self:?}") } }
    pub fn is_null(&self) -> bool { *self == J::N }
    pub fn parse(t: &str) -> J {
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        val(&c, &mut i)
    }
    pub fn show(&self) -> String { let mut o = String::new(); self.w(&mut o); o }
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => if f.is_finite() { o.push_str(&format!("{f:?}")) } else { o.push_str(&format!("\"{f}\"")) },
            J::S(s) => wstr(s, o),
            J::L(l) => { o.push('['); for (i, x) in l.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(l) => { o.push('{'); for (i, (k, x)) in l.iter().enumerate() { if i > 0 { o.push(',') } wstr(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1 } }
fn val(c: &[char], i: &mut usize) -> J {
    ws(c, i);
    match c[*i] {
        '{' => {
            *i += 1;
            let mut o = Vec::new();
            loop {
                ws(c, i);
                if c[*i] == '}' { *i += 1; return J::O(o) }
                if c[*i] == ',' { *i += 1; continue }
                let J::S(k) = val(c, i) else { panic!("key") };
                ws(c, i);
                assert_eq!(c[*i], ':');
                *i += 1;
                o.push((k, val(c, i)));
            }
        }
        '[' => {
            *i += 1;
            let mut o = Vec::new();
            loop {
                ws(c, i);
                if c[*i] == ']' { *i += 1; return J::L(o) }
                if c[*i] == ',' { *i += 1; continue }
                o.push(val(c, i));
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while c[*i] != '"' {
                if c[*i] == '\\' {
                    *i += 1;
                    match c[*i] {
                        'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'),
                        'u' => {
                            let h = |i: usize| u32::from_str_radix(&c[i..i + 4].iter().collect::<String>(), 16).unwrap();
                            let mut n = h(*i + 1);
                            *i += 4;
                            if (0xd800..0xdc00).contains(&n) && c[*i + 1] == '\\' { let m = h(*i + 3); *i += 6; n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00); }
                            s.push(char::from_u32(n).unwrap());
                        }
                        x => s.push(x),
                    }
                } else { s.push(c[*i]) }
                *i += 1;
            }
            *i += 1;
            J::S(s)
        }
        't' => { *i += 4; J::B(true) }
        'f' => { *i += 5; J::B(false) }
        'n' => { *i += 4; J::N }
        _ => {
            let b = *i;
            while *i < c.len() && (c[*i].is_ascii_digit() || "+-.eE".contains(c[*i])) { *i += 1 }
            let t: String = c[b..*i].iter().collect();
            if t != "-0" { if let Ok(n) = t.parse::<i64>() { return J::I(n) } }
            J::F(t.parse().unwrap())
        }
    }
}
impl From<&str> for J { fn from(s: &str) -> J { J::S(s.into()) } }
impl From<String> for J { fn from(s: String) -> J { J::S(s) } }
impl From<&String> for J { fn from(s: &String) -> J { J::S(s.clone()) } }
impl From<i64> for J { fn from(s: i64) -> J { J::I(s) } }
impl From<u32> for J { fn from(s: u32) -> J { J::I(s as i64) } }
impl From<usize> for J { fn from(s: usize) -> J { J::I(s as i64) } }
impl From<bool> for J { fn from(s: bool) -> J { J::B(s) } }
impl From<Vec<J>> for J { fn from(s: Vec<J>) -> J { J::L(s) } }
impl<T: Into<J>> From<Option<T>> for J { fn from(s: Option<T>) -> J { s.map(|x| x.into()).unwrap_or(J::N) } }
