//! A tiny JSON reader/writer (the harness has no serde, to keep the build small).

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn obj() -> J {
        J::Obj(Vec::new())
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        self.set(k, v);
        self
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(o) = self {
            let v = v.into();
            if let Some(e) = o.iter_mut().find(|e| e.0 == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i128,
            J::Bool(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, None, 0);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(1), 0);
        s.push('\n');
        s
    }
    fn is_leafy(&self) -> bool {
        match self {
            J::Arr(a) => a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_))) ,
            J::Obj(_) => false,
            _ => true,
        }
    }
    fn write(&self, s: &mut String, ind: Option<usize>, depth: usize) {
        let nl = |s: &mut String, d: usize| {
            if let Some(n) = ind {
                s.push('\n');
                for _ in 0..n * d {
                    s.push(' ');
                }
            }
        };
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(s, "{i}");
            }
            J::Num(f) => {
                if f.is_finite() {
                    let _ = write!(s, "{:.3}", f);
                } else {
                    s.push('0');
                }
            }
            J::Str(x) => esc(s, x),
            J::Arr(a) => {
                s.push('[');
                let leafy = self.is_leafy();
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if !leafy {
                        nl(s, depth + 1);
                    }
                    x.write(s, if leafy { None } else { ind }, depth + 1);
                }
                if !leafy && !a.is_empty() {
                    nl(s, depth);
                }
                s.push(']');
            }
            J::Obj(o) => {
                s.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, depth + 1);
                    esc(s, k);
                    s.push(':');
                    if ind.is_some() {
                        s.push(' ');
                    }
                    x.write(s, ind, depth + 1);
                }
                if !o.is_empty() {
                    nl(s, depth);
                }
                s.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {p}"));
        }
        Ok(v)
    }
}

fn esc(s: &mut String, x: &str) {
    s.push('"');
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            '\r' => s.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("eof".into());
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = Vec::new();
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
                return Ok(J::Obj(o));
            }
            loop {
                let k = match val(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                o.push((k, val(b, p)?));
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::Obj(o));
                    }
                    _ => return Err(format!("object at {p}")),
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(val(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err(format!("array at {p}")),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            loop {
                match b.get(*p) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(s).map(J::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        *p += 1;
                        match b.get(*p) {
                            Some(b'n') => s.push(b'\n'),
                            Some(b't') => s.push(b'\t'),
                            Some(b'r') => s.push(b'\r'),
                            Some(b'u') => {
                                let h = std::str::from_utf8(b.get(*p + 1..*p + 5).ok_or("u")?)
                                    .map_err(|e| e.to_string())?;
                                let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                let mut t = [0u8; 4];
                                s.extend_from_slice(
                                    char::from_u32(c).unwrap_or('?').encode_utf8(&mut t).as_bytes(),
                                );
                                *p += 4;
                            }
                            Some(c) => s.push(*c),
                            None => return Err("esc".into()),
                        }
                        *p += 1;
                    }
                    Some(c) => {
                        s.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        b't' => {
            *p += 4;
            Ok(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Ok(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).map_err(|e| e.to_string())?;
            if let Ok(i) = t.parse::<i128>() {
                Ok(J::Int(i))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|_| format!("number at {st}"))
            }
        }
    }
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::Int(x as i128) } })* } }
from_int!(u8, u16, u32, u64, usize, i32, i64);
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.into())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(Into::into).collect())
    }
}

/// Conversion used by plan structs.
pub trait Js: Sized {
    fn to_j(&self) -> J;
    fn from_j(j: &J) -> Option<Self>;
}
macro_rules! js_int { ($($t:ty),*) => { $(impl Js for $t {
    fn to_j(&self) -> J { J::Int(*self as i128) }
    fn from_j(j: &J) -> Option<Self> { match j { J::Int(i) => Some(*i as $t), _ => None } }
})* } }
js_int!(u8, u16, u32, u64, usize, i32, i64);
impl Js for bool {
    fn to_j(&self) -> J {
        J::Bool(*self)
    }
    fn from_j(j: &J) -> Option<Self> {
        match j {
            J::Bool(b) => Some(*b),
            _ => None,
        }
    }
}
impl Js for String {
    fn to_j(&self) -> J {
        J::Str(self.clone())
    }
    fn from_j(j: &J) -> Option<Self> {
        match j {
            J::Str(b) => Some(b.clone()),
            _ => None,
        }
    }
}
impl<T: Js> Js for Vec<T> {
    fn to_j(&self) -> J {
        J::Arr(self.iter().map(|x| x.to_j()).collect())
    }
    fn from_j(j: &J) -> Option<Self> {
        match j {
            J::Arr(a) => a.iter().map(T::from_j).collect(),
            _ => None,
        }
    }
}
impl<T: Js> Js for Option<T> {
    fn to_j(&self) -> J {
        match self {
            None => J::Null,
            Some(x) => x.to_j(),
        }
    }
    fn from_j(j: &J) -> Option<Self> {
        match j {
            J::Null => Some(None),
            x => T::from_j(x).map(Some),
        }
    }
}
impl<A: Js, B: Js> Js for (A, B) {
    fn to_j(&self) -> J {
        J::Arr(vec![self.0.to_j(), self.1.to_j()])
    }
    fn from_j(j: &J) -> Option<Self> {
        let a = j.arr();
        Some((A::from_j(a.first()?)?, B::from_j(a.get(1)?)?))
    }
}
impl<A: Js, B: Js, C: Js> Js for (A, B, C) {
    fn to_j(&self) -> J {
        J::Arr(vec![self.0.to_j(), self.1.to_j(), self.2.to_j()])
    }
    fn from_j(j: &J) -> Option<Self> {
        let a = j.arr();
        Some((A::from_j(a.first()?)?, B::from_j(a.get(1)?)?, C::from_j(a.get(2)?)?))
    }
}

/// Struct with a Default and JSON in both directions; missing keys keep the default.
#[macro_export]
macro_rules! js_struct {
    ($(#[$m:meta])* pub struct $n:ident { $($(#[$fm:meta])* pub $f:ident : $t:ty = $d:expr),* $(,)? }) => {
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl Default for $n { fn default() -> Self { $n { $($f: $d),* } } }
        impl $crate::json::Js for $n {
            fn to_j(&self) -> $crate::json::J {
                let mut o = Vec::new();
                let d = $n::default();
                $( if self.$f != d.$f { o.push((stringify!($f).to_string(), self.$f.to_j())); } )*
                $crate::json::J::Obj(o)
            }
            fn from_j(j: &$crate::json::J) -> Option<Self> {
                let mut r = $n::default();
                $( if let Some(v) = j.get(stringify!($f)) { r.$f = $crate::json::Js::from_j(v)?; } )*
                Some(r)
            }
        }
    };
}
/// C-like enum stored by name.
#[macro_export]
macro_rules! js_enum {
    ($(#[$m:meta])* pub enum $n:ident { $($(#[$vm:meta])* $v:ident),* $(,)? }) => {
        $(#[$m])*
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub enum $n { $($(#[$vm])* $v),* }
        #[allow(dead_code)]
        impl $n { pub const ALL: &'static [$n] = &[$($n::$v),*]; }
        impl $crate::json::Js for $n {
            fn to_j(&self) -> $crate::json::J { $crate::json::J::Str(format!("{:?}", self)) }
            fn from_j(j: &$crate::json::J) -> Option<Self> {
                match j.str() { $(stringify!($v) => Some($n::$v),)* _ => None }
            }
        }
    };
}
