//! Reference for the proto3 JSON mapping: a strict JSON parser, a serializer into an expectation
//! tree, and a three-valued reader.
use crate::schema::{Card, Field, Schema, Ty};
use crate::value::{is_zero, Mv, V};
use crate::wire;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the literal
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum PErr {
    Bad,
    /// not settled by RFC 8259 (lone surrogates, nesting)
    Open,
}

pub fn parse(text: &str) -> Result<J, PErr> {
    let mut p = P { b: text.as_bytes(), i: 0, open: false };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(PErr::Bad);
    }
    if p.open {
        return Err(PErr::Open);
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    open: bool,
}

impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, PErr> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(PErr::Bad)
        }
    }
    fn value(&mut self, depth: usize) -> Result<J, PErr> {
        if depth > 100 {
            return Err(PErr::Open);
        }
        match self.b.get(self.i) {
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut out = vec![];
                self.ws();
                if self.eat(b']') {
                    return Ok(J::Arr(out));
                }
                loop {
                    self.ws();
                    out.push(self.value(depth + 1)?);
                    self.ws();
                    if self.eat(b']') {
                        return Ok(J::Arr(out));
                    }
                    if !self.eat(b',') {
                        return Err(PErr::Bad);
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut out = vec![];
                self.ws();
                if self.eat(b'}') {
                    return Ok(J::Obj(out));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return Err(PErr::Bad);
                    }
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(b':') {
                        return Err(PErr::Bad);
                    }
                    self.ws();
                    let v = self.value(depth + 1)?;
                    out.push((k, v));
                    self.ws();
                    if self.eat(b'}') {
                        return Ok(J::Obj(out));
                    }
                    if !self.eat(b',') {
                        return Err(PErr::Bad);
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => {
                let a = self.i;
                self.eat(b'-');
                let d = |s: &mut Self| {
                    let a = s.i;
                    while matches!(s.b.get(s.i), Some(b'0'..=b'9')) {
                        s.i += 1;
                    }
                    s.i - a
                };
                if self.eat(b'0') {
                } else if d(self) == 0 {
                    return Err(PErr::Bad);
                }
                if self.eat(b'.') && d(self) == 0 {
                    return Err(PErr::Bad);
                }
                if self.eat(b'e') || self.eat(b'E') {
                    let _ = self.eat(b'+') || self.eat(b'-');
                    if d(self) == 0 {
                        return Err(PErr::Bad);
                    }
                }
                Ok(J::Num(String::from_utf8(self.b[a..self.i].to_vec()).unwrap()))
            }
            _ => Err(PErr::Bad),
        }
    }
    fn string(&mut self) -> Result<String, PErr> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.b.get(self.i) {
                None => return Err(PErr::Bad),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|_| PErr::Bad);
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.b.get(self.i).ok_or(PErr::Bad)?;
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.b[self.i..].starts_with(b"\\u") {
                                    self.i += 2;
                                    let v = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&v) {
                                        u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
                                    } else {
                                        self.open = true;
                                        u = 0xfffd;
                                    }
                                } else {
                                    self.open = true;
                                    u = 0xfffd;
                                }
                            } else if (0xdc00..0xe000).contains(&u) {
                                self.open = true;
                                u = 0xfffd;
                            }
                            let mut b = [0; 4];
                            out.extend(char::from_u32(u).unwrap().encode_utf8(&mut b).as_bytes());
                        }
                        _ => return Err(PErr::Bad),
                    }
                }
                Some(c) if *c < 0x20 => return Err(PErr::Bad),
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, PErr> {
        let mut u = 0;
        for _ in 0..4 {
            let c = *self.b.get(self.i).ok_or(PErr::Bad)?;
            u = u * 16 + (c as char).to_digit(16).ok_or(PErr::Bad)?;
            self.i += 1;
        }
        Ok(u)
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn show(j: &J) -> String {
    match j {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Num(n) => n.clone(),
        J::Str(s) => quote(s),
        J::Arr(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")),
        J::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", quote(k), show(v))).collect::<Vec<_>>().join(",")),
    }
}

// ---------------------------------------------------------------- numbers

/// A decimal literal as (negative, digits without leading zeros, exponent of ten).
fn decimal(t: &str) -> Option<(bool, String, i64)> {
    let (neg, t) = match t.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, t),
    };
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].parse::<i64>().unwrap_or(if t[i + 1..].starts_with('-') { -1 << 40 } else { 1 << 40 })),
        None => (t, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mut d = format!("{i}{f}");
    let mut e = e - f.len() as i64;
    while d.ends_with('0') {
        d.pop();
        e += 1;
    }
    let d = d.trim_start_matches('0').to_owned();
    Some((neg, d, e))
}

pub enum Num {
    Int(i128),
    /// integer, but too large for every integer kind
    Huge,
    Frac,
}

pub fn number(t: &str) -> Num {
    let (neg, d, e) = decimal(t).unwrap();
    if d.is_empty() {
        return Num::Int(0);
    }
    if e < 0 {
        return Num::Frac;
    }
    if d.len() as i64 + e > 30 {
        return Num::Huge;
    }
    let v: i128 = format!("{d}{}", "0".repeat(e as usize)).parse().unwrap();
    Num::Int(if neg { -v } else { v })
}

pub fn is_json_number(t: &str) -> bool {
    matches!(parse(t), Ok(J::Num(n)) if n == t)
}

// ---------------------------------------------------------------- serializer

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SerOpt {
    pub str64: bool,
    pub enum_num: bool,
    pub proto_name: bool,
    pub skip: bool,
}

impl SerOpt {
    pub fn all() -> Vec<SerOpt> {
        (0..16).map(|i| SerOpt { str64: i & 1 == 0, enum_num: i & 2 != 0, proto_name: i & 4 != 0, skip: i & 8 == 0 }).collect()
    }
    pub fn real(&self) -> prost_reflect::SerializeOptions {
        prost_reflect::SerializeOptions::new()
            .stringify_64_bit_integers(self.str64)
            .use_enum_numbers(self.enum_num)
            .use_proto_field_name(self.proto_name)
            .skip_default_fields(self.skip)
    }
}

/// What the output must look like.
#[derive(Clone, Debug)]
pub enum X {
    Null,
    Bool(bool),
    Int(i128),
    F64(u64),
    F32(u32),
    Str(String),
    Arr(Vec<X>),
    /// key, value, may be absent
    Obj(Vec<(String, X, bool)>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SErr {
    /// The serializer must refuse.
    Refuse,
    /// The mapping does not say.
    Open,
}

pub fn matches(x: &X, j: &J) -> Result<(), String> {
    let bad = || Err(format!("expected {x:?}, found {}", show(j)));
    match (x, j) {
        (X::Null, J::Null) => Ok(()),
        (X::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (X::Int(a), J::Num(t)) if !t.contains(['.', 'e', 'E']) && t.parse::<i128>().ok() == Some(*a) => Ok(()),
        (X::F64(a), J::Num(t)) => {
            let v: f64 = t.parse().unwrap();
            if v.to_bits() == *a {
                Ok(())
            } else {
                bad()
            }
        }
        (X::F32(a), J::Num(t)) => {
            let v: f32 = t.parse().unwrap();
            if v.to_bits() == *a {
                Ok(())
            } else {
                bad()
            }
        }
        (X::Str(a), J::Str(b)) if a == b => Ok(()),
        (X::Arr(a), J::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| matches(a, b)),
        (X::Obj(a), J::Obj(b)) => {
            for (i, (k, _)) in b.iter().enumerate() {
                if b[..i].iter().any(|x| x.0 == *k) {
                    return Err(format!("key {k:?} is written twice"));
                }
                if !a.iter().any(|x| x.0 == *k) {
                    return Err(format!("unexpected key {k:?} in {}", show(j)));
                }
            }
            for (k, x, opt) in a {
                match b.iter().find(|b| b.0 == *k) {
                    Some((_, v)) => matches(x, v).map_err(|e| format!("{k}: {e}"))?,
                    None if *opt => {}
                    None => return Err(format!("key {k:?} is missing in {}", show(j))),
                }
            }
            Ok(())
        }
        _ => bad(),
    }
}

pub fn wkt(name: &str) -> Option<&str> {
    let n = name.strip_prefix("google.protobuf.")?;
    [
        "Any", "Timestamp", "Duration", "Struct", "FloatValue", "DoubleValue", "Int32Value", "Int64Value", "UInt32Value", "UInt64Value", "BoolValue",
        "StringValue", "BytesValue", "FieldMask", "ListValue", "Value", "Empty",
    ]
    .contains(&n)
    .then_some(n)
}

pub fn b64(y: &[u8], url: bool, pad: bool) -> String {
    let a: &[u8] = if url {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    } else {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    };
    let mut o = String::new();
    for c in y.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(a[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else if pad {
                o.push('=');
            }
        }
    }
    o
}

/// (year, month, day) of a day number counted from 1970-01-01, by counting years and months.
pub fn civil(days: i64) -> (i64, u32, u32) {
    // days since 0001-01-01
    let mut d = days + 719162;
    assert!(d >= 0);
    let n400 = d / 146097;
    d %= 146097;
    let mut y = 1 + 400 * n400;
    loop {
        let l = if leap(y) { 366 } else { 365 };
        if d < l {
            break;
        }
        d -= l;
        y += 1;
    }
    let mut m = 1;
    while d >= month_len(y, m) as i64 {
        d -= month_len(y, m) as i64;
        m += 1;
    }
    (y, m, d as u32 + 1)
}
pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_len(y: i64, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn days_of(y: i64, m: u32, d: u32) -> i64 {
    let p = y - 1;
    let mut n = p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    for k in 1..m {
        n += month_len(y, k) as i64;
    }
    n + d as i64 - 1 - 719162
}

fn frac(n: i32) -> String {
    if n == 0 {
        String::new()
    } else if n % 1_000_000 == 0 {
        format!(".{:03}", n / 1_000_000)
    } else if n % 1000 == 0 {
        format!(".{:06}", n / 1000)
    } else {
        format!(".{n:09}")
    }
}

pub fn ref_camel(part: &str) -> Option<String> {
    let mut o = String::new();
    let mut up = false;
    for c in part.chars() {
        if c.is_ascii_uppercase() {
            return None;
        }
        if up {
            if !c.is_ascii_lowercase() {
                return None;
            }
            o.push(c.to_ascii_uppercase());
            up = false;
        } else if c == '_' {
            up = true;
        } else {
            o.push(c);
        }
    }
    (!up).then_some(o)
}

fn i64_of(m: &Mv, n: u32) -> i64 {
    match m.f.get(&n) {
        Some(V::I64(i)) => *i,
        Some(V::I32(i)) => *i as i64,
        _ => 0,
    }
}

pub fn ser(s: &Schema, m: &Mv, o: &SerOpt) -> Result<X, SErr> {
    let md = &s.msgs[m.ty];
    if let Some(w) = wkt(&md.name) {
        return ser_wkt(s, w, m, o);
    }
    Ok(X::Obj(ser_fields(s, m, o)?))
}

fn ser_fields(s: &Schema, m: &Mv, o: &SerOpt) -> Result<Vec<(String, X, bool)>, SErr> {
    let md = &s.msgs[m.ty];
    let mut out = vec![];
    let mut open = false;
    for f in md.all() {
        let name = if f.ext {
            format!("[{}]", f.full)
        } else if o.proto_name {
            f.name.clone()
        } else {
            f.json.clone()
        };
        let dflt;
        let (v, optional) = match m.f.get(&f.num) {
            Some(v) => (v, false),
            None if !o.skip && !f.presence => {
                dflt = s.default_of(f);
                (&dflt, f.ext)
            }
            None => continue,
        };
        match ser_field(s, f, v, o) {
            Ok(x) => out.push((name, x, optional)),
            Err(SErr::Refuse) => return Err(SErr::Refuse),
            Err(SErr::Open) => open = true,
        }
    }
    if open {
        return Err(SErr::Open);
    }
    Ok(out)
}

fn all<T>(it: impl Iterator<Item = Result<T, SErr>>) -> Result<Vec<T>, SErr> {
    let mut out = vec![];
    let mut open = false;
    for r in it {
        match r {
            Ok(x) => out.push(x),
            Err(SErr::Refuse) => return Err(SErr::Refuse),
            Err(SErr::Open) => open = true,
        }
    }
    if open {
        Err(SErr::Open)
    } else {
        Ok(out)
    }
}

fn ser_field(s: &Schema, f: &Field, v: &V, o: &SerOpt) -> Result<X, SErr> {
    match v {
        V::L(l) => Ok(X::Arr(all(l.iter().map(|v| ser_one(s, f.ty, v, o)))?)),
        V::Map(m) => {
            let (_, vf) = s.map_kv(f).unwrap();
            Ok(X::Obj(all(m.iter().map(|(k, v)| {
                let key = match k {
                    V::B(b) => b.to_string(),
                    V::I32(i) => i.to_string(),
                    V::I64(i) => i.to_string(),
                    V::U32(i) => i.to_string(),
                    V::U64(i) => i.to_string(),
                    V::S(s) => s.clone(),
                    _ => unreachable!(),
                };
                Ok((key, ser_one(s, vf.ty, v, o)?, false))
            }))?))
        }
        v => ser_one(s, f.ty, v, o),
    }
}

fn ser_one(s: &Schema, ty: Ty, v: &V, o: &SerOpt) -> Result<X, SErr> {
    let nonfin = |x: f64| X::Str(if x.is_nan() { "NaN" } else if x > 0.0 { "Infinity" } else { "-Infinity" }.into());
    Ok(match v {
        V::B(b) => X::Bool(*b),
        V::I32(i) => X::Int(*i as i128),
        V::U32(i) => X::Int(*i as i128),
        V::I64(i) if o.str64 => X::Str(i.to_string()),
        V::U64(i) if o.str64 => X::Str(i.to_string()),
        V::I64(i) => X::Int(*i as i128),
        V::U64(i) => X::Int(*i as i128),
        V::F32(b) if f32::from_bits(*b).is_finite() => X::F32(*b),
        V::F64(b) if f64::from_bits(*b).is_finite() => X::F64(*b),
        V::F32(b) => nonfin(f32::from_bits(*b) as f64),
        V::F64(b) => nonfin(f64::from_bits(*b)),
        V::S(t) => X::Str(t.clone()),
        V::Y(y) => X::Str(b64(y, false, true)),
        V::E(n) => {
            let Ty::Enum(e) = ty else { unreachable!() };
            let e = &s.enums[e];
            if e.name == "google.protobuf.NullValue" {
                if *n != 0 {
                    return Err(SErr::Open);
                }
                X::Null
            } else if o.enum_num {
                X::Int(*n as i128)
            } else {
                match e.names_of(*n)[..] {
                    [] => X::Int(*n as i128),
                    [one] => X::Str(one.into()),
                    _ => return Err(SErr::Open),
                }
            }
        }
        V::M(m) => ser(s, m, o)?,
        V::L(_) | V::Map(_) => unreachable!(),
    })
}

fn ser_wkt(s: &Schema, w: &str, m: &Mv, o: &SerOpt) -> Result<X, SErr> {
    Ok(match w {
        "Empty" => X::Obj(vec![]),
        "Timestamp" => {
            let (sec, nanos) = (i64_of(m, 1), i64_of(m, 2));
            if !(-62135596800..=253402300799).contains(&sec) {
                return Err(if (0..1_000_000_000).contains(&nanos) { SErr::Refuse } else { SErr::Open });
            }
            if !(0..1_000_000_000).contains(&nanos) {
                return Err(SErr::Open);
            }
            let (y, mo, d) = civil(sec.div_euclid(86400));
            let r = sec.rem_euclid(86400);
            X::Str(format!("{y:04}-{mo:02}-{d:02}T{:02}:{:02}:{:02}{}Z", r / 3600, r / 60 % 60, r % 60, frac(nanos as i32)))
        }
        "Duration" => {
            let (sec, nanos) = (i64_of(m, 1), i64_of(m, 2));
            if !(-315_576_000_000..=315_576_000_000).contains(&sec) || nanos.abs() >= 1_000_000_000 || (sec > 0 && nanos < 0) || (sec < 0 && nanos > 0) {
                return Err(SErr::Refuse);
            }
            X::Str(format!("{}{}{}s", if sec < 0 || nanos < 0 { "-" } else { "" }, sec.abs(), frac(nanos.abs() as i32)))
        }
        "FieldMask" => {
            let Some(V::L(l)) = m.f.get(&1) else { return Ok(X::Str(String::new())) };
            let mut out = vec![];
            let mut open = false;
            for p in l {
                let V::S(p) = p else { unreachable!() };
                if p.is_empty() || p.contains(|c: char| c != '_' && c != '.' && !c.is_ascii_alphanumeric()) || p.split('.').any(|p| p.is_empty() || p.starts_with('_') || p.starts_with(|c: char| c.is_ascii_digit())) {
                    open = true;
                }
                match p.split('.').map(ref_camel).collect::<Option<Vec<_>>>() {
                    Some(v) => out.push(v.join(".")),
                    None => return Err(SErr::Refuse),
                }
            }
            if open {
                return Err(SErr::Open);
            }
            X::Str(out.join(","))
        }
        "Struct" => match m.f.get(&1) {
            Some(V::Map(x)) => X::Obj(all(x.iter().map(|(k, v)| {
                let (V::S(k), V::M(v)) = (k, v) else { unreachable!() };
                Ok((k.clone(), ser(s, v, o)?, false))
            }))?),
            _ => X::Obj(vec![]),
        },
        "ListValue" => match m.f.get(&1) {
            Some(V::L(x)) => X::Arr(all(x.iter().map(|v| {
                let V::M(v) = v else { unreachable!() };
                ser(s, v, o)
            }))?),
            _ => X::Arr(vec![]),
        },
        "Value" => match m.f.iter().next() {
            None => return Err(SErr::Open),
            Some((1, V::E(0))) => X::Null,
            Some((2, V::F64(b))) => {
                if !f64::from_bits(*b).is_finite() {
                    return Err(SErr::Refuse);
                }
                X::F64(*b)
            }
            Some((3, V::S(t))) => X::Str(t.clone()),
            Some((4, V::B(b))) => X::Bool(*b),
            Some((5 | 6, V::M(x))) => ser(s, x, o)?,
            _ => return Err(SErr::Open),
        },
        "Any" => {
            let url = match m.f.get(&1) {
                Some(V::S(u)) => u.as_str(),
                _ => "",
            };
            let val: &[u8] = match m.f.get(&2) {
                Some(V::Y(y)) => y,
                _ => b"",
            };
            if url.is_empty() && val.is_empty() {
                return Err(SErr::Open);
            }
            let Some((_, name)) = url.rsplit_once('/') else { return Err(SErr::Refuse) };
            if name.starts_with('.') {
                return Err(SErr::Open);
            }
            let Some(Ty::Msg(t)) = s.names.get(name).copied() else { return Err(SErr::Refuse) };
            let mut p = Mv::new(t);
            match wire::dec_into(s, &mut p, val) {
                Ok(()) => p.normalize(s),
                Err(wire::Bad::Malformed) => return Err(SErr::Refuse),
                Err(wire::Bad::Depth) => return Err(SErr::Open),
            };
            let ty = ("@type".to_owned(), X::Str(url.into()), false);
            if wkt(name).is_some() {
                X::Obj(vec![ty, ("value".into(), ser(s, &p, o)?, false)])
            } else {
                let mut f = ser_fields(s, &p, o)?;
                f.push(ty);
                X::Obj(f)
            }
        }
        _ => {
            // wrappers
            let f = s.msgs[m.ty].get(1).unwrap();
            let v = m.f.get(&1).cloned().unwrap_or_else(|| s.zero(f.ty));
            ser_one(s, f.ty, &v, o)?
        }
    })
}

// ---------------------------------------------------------------- reader

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    /// accepted, with this value
    Sure,
    /// refused, or accepted with this value
    Maybe,
    /// not settled
    Open,
    Refuse,
}

pub struct De<'a> {
    pub s: &'a Schema,
    pub deny: bool,
    pub maybe: bool,
    pub open: bool,
}

type R<T> = Result<T, ()>;

/// Reads a text as a message of the given type.
pub fn read(s: &Schema, ty: usize, text: &str, deny: bool) -> (Verdict, Mv) {
    let j = match parse(text) {
        Ok(j) => j,
        Err(PErr::Bad) => return (Verdict::Refuse, Mv::new(ty)),
        Err(PErr::Open) => return (Verdict::Open, Mv::new(ty)),
    };
    let mut d = De { s, deny, maybe: false, open: false };
    if !deny && big_number(&j) {
        return (Verdict::Open, Mv::new(ty));
    }
    match d.msg(ty, &j, true) {
        Err(()) => (Verdict::Refuse, Mv::new(ty)),
        Ok(_) if d.open => (Verdict::Open, Mv::new(ty)),
        Ok(mut m) => {
            m.normalize(s);
            m.canon();
            canon_any(s, &mut m);
            (if d.maybe { Verdict::Maybe } else { Verdict::Sure }, m)
        }
    }
}

/// A number no double can hold: whether it may be skipped in an unknown field is left open.
fn big_number(j: &J) -> bool {
    match j {
        J::Num(t) => t.parse::<f64>().unwrap().is_infinite(),
        J::Arr(a) => a.iter().any(big_number),
        J::Obj(o) => o.iter().any(|x| big_number(&x.1)),
        _ => false,
    }
}

/// Brings the payload of Any messages into a canonical encoding.
pub fn canon_any(s: &Schema, m: &mut Mv) {
    canon_any_opt(s, m, false)
}
/// The same without the unknown fields of the payloads, which JSON does not keep.
pub fn known_any(s: &Schema, m: &mut Mv) {
    canon_any_opt(s, m, true)
}
fn drop_unknown(m: &mut Mv) {
    m.unk.clear();
    m.f.values_mut().for_each(drop_unknown_v);
}
fn drop_unknown_v(v: &mut V) {
    match v {
        V::M(m) => drop_unknown(m),
        V::L(l) => l.iter_mut().for_each(drop_unknown_v),
        V::Map(m) => m.values_mut().for_each(drop_unknown_v),
        _ => {}
    }
}
fn canon_any_opt(s: &Schema, m: &mut Mv, drop: bool) {
    for v in m.f.values_mut() {
        canon_any_v(s, v, drop);
    }
    if s.msgs[m.ty].name == "google.protobuf.Any" {
        let Some(V::S(url)) = m.f.get(&1) else { return };
        let Some((_, name)) = url.rsplit_once('/') else { return };
        let Some(Ty::Msg(t)) = s.names.get(name).copied() else { return };
        let empty = vec![];
        let val = match m.f.get(&2) {
            Some(V::Y(y)) => y,
            _ => &empty,
        };
        if let Ok(mut p) = wire::dec(s, t, val) {
            p.normalize(s);
            p.canon();
            if drop {
                drop_unknown(&mut p);
            }
            canon_any_opt(s, &mut p, drop);
            let b = wire::enc(s, &p, &Default::default());
            if b.is_empty() {
                m.f.remove(&2);
            } else {
                m.f.insert(2, V::Y(b));
            }
        }
    }
}
fn canon_any_v(s: &Schema, v: &mut V, drop: bool) {
    match v {
        V::M(m) => canon_any_opt(s, m, drop),
        V::L(l) => l.iter_mut().for_each(|v| canon_any_v(s, v, drop)),
        V::Map(m) => m.values_mut().for_each(|v| canon_any_v(s, v, drop)),
        _ => {}
    }
}

fn bytes_in(t: &str, maybe: &mut bool) -> R<Vec<u8>> {
    let body = t.trim_end_matches('=');
    let pads = t.len() - body.len();
    let (mut std, mut url) = (false, false);
    let mut bits: Vec<u8> = vec![];
    for c in body.bytes() {
        bits.push(match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => {
                std = true;
                62
            }
            b'/' => {
                std = true;
                63
            }
            b'-' => {
                url = true;
                62
            }
            b'_' => {
                url = true;
                63
            }
            _ => return Err(()),
        });
    }
    if bits.len() % 4 == 1 {
        return Err(());
    }
    // "either standard or URL-safe base64 encoding", with or without padding
    if std && url {
        return Err(());
    }
    let want = (4 - bits.len() % 4) % 4;
    if pads > want {
        return Err(());
    }
    if pads != 0 && pads != want {
        *maybe = true;
    }
    let mut out = vec![];
    for c in bits.chunks(4) {
        let n = c.iter().enumerate().fold(0u32, |a, (i, b)| a | (*b as u32) << (18 - 6 * i));
        let k = c.len() * 6 / 8;
        for i in 0..k {
            out.push((n >> (16 - 8 * i)) as u8);
        }
        if n & ((1 << (24 - 8 * k)) - 1) != 0 {
            *maybe = true;
        }
    }
    Ok(out)
}

impl De<'_> {
    fn int(&mut self, j: &J, lo: i128, hi: i128) -> R<i128> {
        match j {
            J::Num(t) => {
                let plain = !t.contains(['.', 'e', 'E']);
                match number(t) {
                    Num::Int(n) if plain => {
                        if t == "-0" && lo == 0 {
                            self.open = true;
                        }
                        // beyond 64 bits the JSON parser hands over a rounded double, which may be in range
                        let (a, b) = (t.parse::<f64>().unwrap(), i128::from(i64::MIN)..=i128::from(u64::MAX));
                        if !b.contains(&n) && (lo..=hi).contains(&(a as i128)) {
                            self.open = true;
                            return Ok(n.clamp(lo, hi));
                        }
                        (lo..=hi).contains(&n).then_some(n).ok_or(())
                    }
                    Num::Int(n) => {
                        let f: f64 = t.parse().unwrap();
                        let g = f as i128;
                        if g == n {
                            if t.starts_with('-') && lo == 0 && n == 0 {
                                self.open = true;
                            }
                            (lo..=hi).contains(&n).then_some(n).ok_or(())
                        } else if (lo..=hi).contains(&n) || (lo..=hi).contains(&g) {
                            self.open = true;
                            Ok(n.clamp(lo, hi))
                        } else {
                            Err(())
                        }
                    }
                    Num::Huge => Err(()),
                    Num::Frac => {
                        let f: f64 = t.parse().unwrap();
                        if f.fract() == 0.0 && (lo..=hi).contains(&(f as i128)) {
                            self.open = true;
                            Ok(f as i128)
                        } else {
                            Err(())
                        }
                    }
                }
            }
            J::Str(t) => self.int_str(t, lo, hi),
            _ => Err(()),
        }
    }

    fn int_str(&mut self, t: &str, lo: i128, hi: i128) -> R<i128> {
        let d = t.strip_prefix(['-', '+']).unwrap_or(t);
        if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) {
            let z = d.trim_start_matches('0');
            let n: i128 = if z.len() > 30 {
                return Err(());
            } else if z.is_empty() {
                0
            } else {
                z.parse().unwrap()
            };
            let n = if t.starts_with('-') { -n } else { n };
            if !(lo..=hi).contains(&n) {
                return Err(());
            }
            if t.starts_with('+') || (d.len() > 1 && d.starts_with('0')) || (n == 0 && t.starts_with('-')) {
                self.open = true;
            }
            return Ok(n);
        }
        if is_json_number(t) {
            if let Num::Int(n) = number(t) {
                if (lo..=hi).contains(&n) {
                    self.open = true;
                    return Ok(n);
                }
            }
        }
        Err(())
    }

    fn f64(&mut self, j: &J) -> R<f64> {
        match j {
            J::Num(t) => {
                let f: f64 = t.parse().unwrap();
                f.is_finite().then_some(f).ok_or(())
            }
            J::Str(t) => match t.as_str() {
                "NaN" => Ok(f64::NAN),
                "Infinity" => Ok(f64::INFINITY),
                "-Infinity" => Ok(f64::NEG_INFINITY),
                t => match t.parse::<f64>() {
                    Ok(f) => {
                        if t.contains(|c: char| c.is_ascii_digit()) && f.is_infinite() {
                            return Err(());
                        }
                        if !is_json_number(t) {
                            self.open = true;
                        }
                        Ok(f)
                    }
                    Err(_) => Err(()),
                },
            },
            _ => Err(()),
        }
    }

    fn f32(&mut self, j: &J) -> R<f32> {
        let d = self.f64(j)?;
        let t = match j {
            J::Num(t) | J::Str(t) => t.as_str(),
            _ => unreachable!(),
        };
        if !d.is_finite() {
            return Ok(d as f32);
        }
        let direct: f32 = t.parse().map_err(|_| ())?;
        if direct.is_infinite() {
            // rounding the double may still stay in range
            if (d as f32).is_finite() {
                self.open = true;
                return Ok(d as f32);
            }
            return Err(());
        }
        if d.abs() > f32::MAX as f64 || direct.to_bits() != (d as f32).to_bits() {
            self.open = true;
        }
        Ok(direct)
    }

    /// Ok(None): an unknown enum name which is skipped.
    fn one(&mut self, ty: Ty, j: &J) -> R<Option<V>> {
        let r = |lo: i128, hi: i128| (lo, hi);
        Ok(Some(match ty {
            Ty::Double => V::F64(self.f64(j)?.to_bits()),
            Ty::Float => V::F32(self.f32(j)?.to_bits()),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => {
                let (lo, hi) = r(i32::MIN as i128, i32::MAX as i128);
                V::I32(self.int(j, lo, hi)? as i32)
            }
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(self.int(j, i64::MIN as i128, i64::MAX as i128)? as i64),
            Ty::Uint32 | Ty::Fixed32 => V::U32(self.int(j, 0, u32::MAX as i128)? as u32),
            Ty::Uint64 | Ty::Fixed64 => V::U64(self.int(j, 0, u64::MAX as i128)? as u64),
            Ty::Bool => match j {
                J::Bool(b) => V::B(*b),
                _ => return Err(()),
            },
            Ty::String => match j {
                J::Str(t) => V::S(t.clone()),
                _ => return Err(()),
            },
            Ty::Bytes => match j {
                J::Str(t) => V::Y(bytes_in(t, &mut self.maybe)?),
                _ => return Err(()),
            },
            Ty::Enum(e) => {
                let e = &self.s.enums[e];
                if e.name == "google.protobuf.NullValue" {
                    match j {
                        J::Null => V::E(0),
                        J::Str(t) if t == "NULL_VALUE" => V::E(0),
                        J::Str(_) if !self.deny => return Ok(None),
                        J::Num(t) if matches!(number(t), Num::Int(_)) => {
                            self.open = true;
                            V::E(0)
                        }
                        _ => return Err(()),
                    }
                } else {
                    match j {
                        J::Str(t) => match e.by_name(t) {
                            Some(n) => V::E(n),
                            None if self.deny => return Err(()),
                            None => return Ok(None),
                        },
                        J::Num(t) => match number(t) {
                            Num::Int(n) if (i32::MIN as i128..=i32::MAX as i128).contains(&n) => {
                                if t.contains(['.', 'e', 'E']) || t == "-0" {
                                    self.open = true;
                                }
                                V::E(n as i32)
                            }
                            _ => return Err(()),
                        },
                        _ => return Err(()),
                    }
                }
            }
            Ty::Msg(m) | Ty::Group(m) => V::M(Box::new(self.msg(m, j, false)?)),
        }))
    }

    fn key(&mut self, ty: Ty, t: &str) -> R<V> {
        Ok(match ty {
            Ty::Bool => match t {
                "true" => V::B(true),
                "false" => V::B(false),
                _ => return Err(()),
            },
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(self.int_str(t, i32::MIN as i128, i32::MAX as i128)? as i32),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(self.int_str(t, i64::MIN as i128, i64::MAX as i128)? as i64),
            Ty::Uint32 | Ty::Fixed32 => V::U32(self.int_str(t, 0, u32::MAX as i128)? as u32),
            Ty::Uint64 | Ty::Fixed64 => V::U64(self.int_str(t, 0, u64::MAX as i128)? as u64),
            Ty::String => V::S(t.to_owned()),
            _ => unreachable!(),
        })
    }

    fn is_value(&self, ty: Ty) -> bool {
        matches!(ty, Ty::Msg(m) if self.s.msgs[m].name == "google.protobuf.Value") || matches!(ty, Ty::Enum(e) if self.s.enums[e].name == "google.protobuf.NullValue")
    }

    /// A whole field; Ok(None): unset.
    fn field(&mut self, f: &Field, j: &J) -> R<Option<V>> {
        let s = self.s;
        if *j == J::Null && (f.card == Card::Rep || !self.is_value(f.ty)) {
            return Ok(None);
        }
        if let Some((kf, vf)) = s.map_kv(f) {
            let J::Obj(o) = j else { return Err(()) };
            let mut out = BTreeMap::new();
            let mut seen = std::collections::BTreeSet::new();
            for (k, v) in o {
                let k = self.key(kf.ty, k)?;
                if !seen.insert(k.clone()) {
                    self.maybe = true;
                }
                match self.one(vf.ty, v)? {
                    Some(v) => {
                        out.insert(k, v);
                    }
                    None => {
                        if out.contains_key(&k) {
                            self.open = true;
                        }
                    }
                }
            }
            Ok(Some(V::Map(out)))
        } else if f.card == Card::Rep {
            let J::Arr(a) = j else { return Err(()) };
            let mut out = vec![];
            for x in a {
                if let Some(v) = self.one(f.ty, x)? {
                    out.push(v);
                }
            }
            Ok(Some(V::L(out)))
        } else {
            self.one(f.ty, j)
        }
    }

    fn fields(&mut self, m: &mut Mv, o: &[(String, J)]) -> R<()> {
        let s = self.s;
        let md = &s.msgs[m.ty];
        let mut seen: BTreeMap<u32, bool> = BTreeMap::new();
        for (k, j) in o {
            let f = md
                .fields
                .iter()
                .find(|f| f.json == *k)
                .or_else(|| md.fields.iter().find(|f| f.name == *k))
                .or_else(|| md.exts.iter().find(|f| f.json == *k));
            let Some(f) = f else {
                if self.deny {
                    return Err(());
                }
                continue;
            };
            let v = self.field(f, j)?;
            if let Some(had) = seen.get(&f.num) {
                if *had && v.is_some() {
                    self.maybe = true;
                } else if *had || v.is_some() {
                    self.open = true;
                }
            }
            *seen.entry(f.num).or_default() |= v.is_some();
            if let Some(v) = v {
                if let Some(oi) = f.oneof {
                    for n in &md.oneofs[oi].fields {
                        if *n != f.num && m.f.contains_key(n) {
                            return Err(());
                        }
                    }
                }
                if !f.presence && is_zero(&v) {
                    m.f.remove(&f.num);
                } else {
                    m.f.insert(f.num, v);
                }
            }
        }
        Ok(())
    }

    fn msg(&mut self, ty: usize, j: &J, root: bool) -> R<Mv> {
        let s = self.s;
        let mut m = Mv::new(ty);
        let Some(w) = wkt(&s.msgs[ty].name) else {
            let J::Obj(o) = j else { return Err(()) };
            self.fields(&mut m, o)?;
            return Ok(m);
        };
        if root && *j == J::Null && w != "Value" {
            self.open = true;
            return Ok(m);
        }
        match (w, j) {
            ("Empty", J::Obj(o)) => {
                if !o.is_empty() {
                    if self.deny {
                        return Err(());
                    }
                    self.open = true;
                }
            }
            ("Timestamp", J::Str(t)) => {
                let (sec, n) = self.timestamp(t)?;
                put(&mut m, 1, V::I64(sec));
                put(&mut m, 2, V::I32(n));
            }
            ("Duration", J::Str(t)) => {
                let (sec, n) = self.duration(t)?;
                put(&mut m, 1, V::I64(sec));
                put(&mut m, 2, V::I32(n));
            }
            ("FieldMask", J::Str(t)) => {
                let mut out = vec![];
                if !t.is_empty() {
                    for p in t.split(',') {
                        if p.contains('_') {
                            return Err(());
                        }
                        if !p.split('.').all(|p| p.starts_with(|c: char| c.is_ascii_lowercase()) && p.bytes().all(|c| c.is_ascii_alphanumeric())) {
                            self.open = true;
                        }
                        let mut r = String::new();
                        for c in p.chars() {
                            if c.is_ascii_uppercase() {
                                r.push('_');
                                r.push(c.to_ascii_lowercase());
                            } else {
                                r.push(c);
                            }
                        }
                        out.push(V::S(r));
                    }
                }
                put(&mut m, 1, V::L(out));
            }
            ("Struct", J::Obj(o)) => {
                let vm = s.msg("google.protobuf.Value");
                let mut out = BTreeMap::new();
                for (k, v) in o {
                    if out.insert(V::S(k.clone()), V::M(Box::new(self.msg(vm, v, false)?))).is_some() {
                        self.maybe = true;
                    }
                }
                put(&mut m, 1, V::Map(out));
            }
            ("ListValue", J::Arr(a)) => {
                let vm = s.msg("google.protobuf.Value");
                let out = a.iter().map(|v| Ok(V::M(Box::new(self.msg(vm, v, false)?)))).collect::<R<Vec<_>>>()?;
                put(&mut m, 1, V::L(out));
            }
            ("Value", j) => match j {
                J::Null => {
                    m.f.insert(1, V::E(0));
                }
                J::Num(_) => {
                    m.f.insert(2, V::F64(self.f64(j)?.to_bits()));
                }
                J::Str(t) => {
                    m.f.insert(3, V::S(t.clone()));
                }
                J::Bool(b) => {
                    m.f.insert(4, V::B(*b));
                }
                J::Obj(_) => {
                    m.f.insert(5, V::M(Box::new(self.msg(s.msg("google.protobuf.Struct"), j, false)?)));
                }
                J::Arr(_) => {
                    m.f.insert(6, V::M(Box::new(self.msg(s.msg("google.protobuf.ListValue"), j, false)?)));
                }
            },
            ("Any", J::Obj(o)) => {
                if o.is_empty() {
                    self.open = true;
                    return Ok(m);
                }
                let types: Vec<&J> = o.iter().filter(|x| x.0 == "@type").map(|x| &x.1).collect();
                let Some(J::Str(url)) = types.first() else { return Err(()) };
                let Some((_, name)) = url.rsplit_once('/') else { return Err(()) };
                if name.starts_with('.') {
                    self.open = true;
                    return Ok(m);
                }
                let Some(Ty::Msg(t)) = s.names.get(name).copied() else { return Err(()) };
                if types.len() > 1 {
                    self.open = true;
                    return Ok(m);
                }
                let mut p;
                if wkt(name).is_some() {
                    let vals: Vec<&J> = o.iter().filter(|x| x.0 == "value").map(|x| &x.1).collect();
                    if o.iter().any(|x| x.0 != "value" && x.0 != "@type") && self.deny {
                        return Err(());
                    }
                    match vals[..] {
                        [] => return Err(()),
                        [v] => {
                            if *v == J::Null && name != "google.protobuf.Value" {
                                self.open = true;
                            }
                            if self.open {
                                return Ok(m);
                            }
                            p = self.msg(t, v, false)?;
                        }
                        _ => {
                            self.open = true;
                            return Ok(m);
                        }
                    }
                } else {
                    p = Mv::new(t);
                    let rest: Vec<_> = o.iter().filter(|x| x.0 != "@type").cloned().collect();
                    let before = self.maybe;
                    self.maybe = false;
                    self.fields(&mut p, &rest)?;
                    // which duplicate wins depends on buffering
                    if self.maybe {
                        self.open = true;
                    }
                    self.maybe |= before;
                }
                p.normalize(s);
                m.f.insert(1, V::S(url.clone()));
                let b = wire::enc(s, &p, &Default::default());
                if !b.is_empty() {
                    m.f.insert(2, V::Y(b));
                }
            }
            ("Any" | "Timestamp" | "Duration" | "FieldMask" | "Struct" | "ListValue" | "Empty", _) => return Err(()),
            _ => {
                let f = s.msgs[ty].get(1).unwrap();
                let v = self.one(f.ty, j)?.unwrap();
                put(&mut m, 1, v);
            }
        }
        Ok(m)
    }

    fn duration(&mut self, t: &str) -> R<(i64, i32)> {
        let b = t.strip_suffix('s').ok_or(())?;
        let (neg, b) = match b.strip_prefix('-') {
            Some(b) => (true, b),
            None => (false, b),
        };
        let (i, f) = match b.split_once('.') {
            Some((i, f)) => (i, Some(f)),
            None => (b, None),
        };
        let dig = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
        if i.strip_prefix('+').is_some_and(dig) && f.map_or(true, dig) {
            self.open = true;
            return Ok((0, 0));
        }
        if !dig(i) || !f.map_or(true, dig) {
            return Err(());
        }
        if i.is_empty() && f.map_or(true, str::is_empty) {
            return Err(());
        }
        if i.is_empty() || f == Some("") {
            self.open = true;
            return Ok((0, 0));
        }
        let z = i.trim_start_matches('0');
        if z.len() > 12 {
            return Err(());
        }
        let sec: i64 = if z.is_empty() { 0 } else { z.parse().unwrap() };
        if sec > 315_576_000_000 {
            return Err(());
        }
        let f = f.unwrap_or("");
        if f.len() > 9 {
            self.open = true;
            return Ok((0, 0));
        }
        let n: i32 = format!("{f:0<9}").parse().unwrap();
        Ok(if neg { (-sec, -n) } else { (sec, n) })
    }

    fn timestamp(&mut self, t: &str) -> R<(i64, i32)> {
        let b = t.as_bytes();
        let num = |a: usize, n: usize| -> R<i64> {
            let x = b.get(a..a + n).ok_or(())?;
            if !x.iter().all(u8::is_ascii_digit) {
                return Err(());
            }
            Ok(std::str::from_utf8(x).unwrap().parse().unwrap())
        };
        let at = |i: usize, c: u8| -> R<()> { (b.get(i) == Some(&c)).then_some(()).ok_or(()) };
        let (y, mo, d) = (num(0, 4)?, num(5, 2)?, num(8, 2)?);
        at(4, b'-')?;
        at(7, b'-')?;
        at(10, b'T')?;
        at(13, b':')?;
        at(16, b':')?;
        let (h, mi, se) = (num(11, 2)?, num(14, 2)?, num(17, 2)?);
        let mut i = 19;
        let mut n = 0i32;
        if b.get(i) == Some(&b'.') {
            let a = i + 1;
            i = a;
            while b.get(i).is_some_and(u8::is_ascii_digit) {
                i += 1;
            }
            if i == a {
                return Err(());
            }
            if i - a > 9 {
                self.maybe = true;
            }
            let f = &t[a..i.min(a + 9)];
            n = format!("{f:0<9}").parse().unwrap();
        }
        let mut off = 0;
        match b.get(i) {
            Some(b'Z') => i += 1,
            Some(c @ (b'+' | b'-')) => {
                let (oh, om) = (num(i + 1, 2)?, num(i + 4, 2)?);
                at(i + 3, b':')?;
                i += 6;
                if oh > 23 || om > 59 {
                    self.open = true;
                }
                off = (oh * 3600 + om * 60) * if *c == b'-' { -1 } else { 1 };
            }
            _ => return Err(()),
        }
        if i != b.len() {
            return Err(());
        }
        if mo == 0 || mo > 12 || d == 0 || h > 23 || mi > 59 || se > 60 {
            return Err(());
        }
        if d > month_len(y, mo as u32) as i64 {
            return Err(());
        }
        if y == 0 || se == 60 {
            self.open = true;
        }
        let sec = days_of(y, mo as u32, d as u32) * 86400 + h * 3600 + mi * 60 + se - off;
        if !(-62135596800..=253402300799).contains(&sec) {
            if self.open {
                return Ok((0, 0));
            }
            return Err(());
        }
        Ok((sec, n))
    }
}

fn put(m: &mut Mv, n: u32, v: V) {
    if !is_zero(&v) {
        m.f.insert(n, v);
    }
}
