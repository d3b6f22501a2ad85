//! A small JSON reader and writer (there is nothing else to link against offline).

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::new();
        $( m.insert($k.to_string(), $crate::json::J::from($v)); )*
        $crate::json::J::Obj(m)
    }};
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<&String> for J {
    fn from(s: &String) -> J {
        J::Str(s.clone())
    }
}
impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<f64> for J {
    fn from(b: f64) -> J {
        J::Num(b)
    }
}
macro_rules! ints { ($($t:ty),*) => { $( impl From<$t> for J { fn from(b: $t) -> J { J::Int(b as i128) } } )* } }
ints!(u8, u32, u64, usize, i32, i64);
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::Arr(v.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    fn from(v: Option<T>) -> J {
        v.map_or(J::Null, Into::into)
    }
}
impl From<BTreeMap<String, u64>> for J {
    fn from(v: BTreeMap<String, u64>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k, J::from(v))).collect())
    }
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn obj(&self) -> Option<&BTreeMap<String, J>> {
        match self {
            J::Obj(m) => Some(m),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i as i64,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn usize(&self) -> usize {
        self.u64() as usize
    }
    pub fn opt(&self) -> Option<&J> {
        match self {
            J::Null => None,
            j => Some(j),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, None, 0);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(1), 0);
        s.push('\n');
        s
    }
    fn write(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| {
            if let Some(n) = ind {
                o.push('\n');
                for _ in 0..l * n {
                    o.push(' ');
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => {
                if f.is_finite() {
                    write!(o, "{}", (f * 1000.0).round() / 1000.0).unwrap()
                } else {
                    o.push_str("0")
                }
            }
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Str(s) => wstr(o, s),
            J::Arr(v) => {
                let flat = v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        nl(o, lvl + 1);
                    }
                    x.write(o, ind, lvl + 1);
                }
                if !flat && !v.is_empty() {
                    nl(o, lvl);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, lvl + 1);
                    wstr(o, k);
                    o.push_str(": ");
                    x.write(o, ind, lvl + 1);
                }
                if !m.is_empty() {
                    nl(o, lvl);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let j = parse(&b, &mut p)?;
        ws(&b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {p}"));
        }
        Ok(j)
    }
}

fn wstr(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}
fn parse(b: &[char], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    let e = |p: usize| Err(format!("bad JSON at {p}"));
    let Some(&c) = b.get(*p) else { return e(*p) };
    match c {
        '{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b.get(*p) == Some(&'}') {
                *p += 1;
                return Ok(J::Obj(m));
            }
            loop {
                let J::Str(k) = parse(b, p)? else { return e(*p) };
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return e(*p);
                }
                *p += 1;
                let v = parse(b, p)?;
                m.insert(k, v);
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some('}') => {
                        *p += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return e(*p),
                }
            }
        }
        '[' => {
            *p += 1;
            let mut v = Vec::new();
            ws(b, p);
            if b.get(*p) == Some(&']') {
                *p += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(parse(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some(']') => {
                        *p += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return e(*p),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let Some(&c) = b.get(*p) else { return e(*p) };
                *p += 1;
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let Some(&c) = b.get(*p) else { return e(*p) };
                        *p += 1;
                        match c {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                if *p + 4 > b.len() {
                                    return e(*p);
                                }
                                let h: String = b[*p..*p + 4].iter().collect();
                                *p += 4;
                                let n = u32::from_str_radix(&h, 16).map_err(|x| x.to_string())?;
                                s.push(char::from_u32(n).unwrap_or('?'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' | 'f' | 'n' => {
            for (w, v) in [("true", J::Bool(true)), ("false", J::Bool(false)), ("null", J::Null)] {
                if b[*p..].iter().take(w.len()).collect::<String>() == w {
                    *p += w.len();
                    return Ok(v);
                }
            }
            e(*p)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                *p += 1;
            }
            let t: String = b[st..*p].iter().collect();
            if let Ok(i) = t.parse::<i128>() {
                return Ok(J::Int(i));
            }
            t.parse::<f64>().map(J::Num).or_else(|_| e(st))
        }
    }
}
