//! Reference reader of the protobuf text format: a tokenizer and a typed recursive-descent parser,
//! written from the language specification. Texts the specification does not settle are "open".
use crate::schema::{Card, Field, Schema, Ty};
use crate::value::{is_zero, Mv, UV, Unk, V};
use crate::wire;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Int(String, u32),
    Fl(String),
    St(Vec<u8>),
    P(char),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Bad,
    /// the input ends too early
    Eof,
    /// not settled by the specification
    Open,
}
type R<T> = Result<T, E>;

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

pub fn lex(t: &str) -> R<Vec<Tok>> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if matches!(c, b' ' | b'\n' | b'\r' | b'\t' | 0x0b | 0x0c) {
            i += 1;
        } else if c == b'#' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let s = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            out.push(Tok::Id(t[s..i].into()));
        } else if c.is_ascii_digit() || (c == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            i = number(t, i, &mut out)?;
        } else if c == b'"' || c == b'\'' {
            i = string(b, i, &mut out)?;
        } else if b".-{}[]<>,:;/".contains(&c) {
            out.push(Tok::P(c as char));
            i += 1;
        } else {
            return Err(E::Bad);
        }
    }
    Ok(out)
}

fn number(t: &str, s: usize, out: &mut Vec<Tok>) -> R<usize> {
    let b = t.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(b' ');
    let mut i = s;
    if at(i) == b'0' && (at(i + 1) | 32) == b'x' {
        i += 2;
        let d = i;
        while at(i).is_ascii_hexdigit() {
            i += 1;
        }
        if d == i || word(at(i)) {
            return Err(E::Bad);
        }
        out.push(Tok::Int(t[d..i].into(), 16));
        return Ok(i);
    }
    while at(i).is_ascii_digit() {
        i += 1;
    }
    let int = i - s;
    let mut float = false;
    if at(i) == b'.' {
        float = true;
        i += 1;
        while at(i).is_ascii_digit() {
            i += 1;
        }
    }
    if at(i) | 32 == b'e' {
        let mut k = i + 1;
        if at(k) == b'+' || at(k) == b'-' {
            k += 1;
        }
        if at(k).is_ascii_digit() {
            float = true;
            while at(k).is_ascii_digit() {
                k += 1;
            }
            i = k;
        }
    }
    let end = i;
    let zero_led = int > 1 && b[s] == b'0';
    let suffix = at(i) | 32 == b'f' && !word(at(i + 1));
    if float || (suffix && !zero_led) {
        if suffix {
            i += 1;
        }
        if zero_led || word(at(i)) || at(i) == b'.' {
            return Err(E::Open);
        }
        out.push(Tok::Fl(t[s..end].into()));
        return Ok(i);
    }
    if word(at(i)) {
        return Err(E::Bad);
    }
    if zero_led {
        if !t[s..i].bytes().all(|c| (b'0'..=b'7').contains(&c)) {
            return Err(E::Bad);
        }
        out.push(Tok::Int(t[s + 1..i].into(), 8));
    } else {
        out.push(Tok::Int(t[s..i].into(), 10));
    }
    Ok(i)
}

fn string(b: &[u8], s: usize, out: &mut Vec<Tok>) -> R<usize> {
    let q = b[s];
    let mut i = s + 1;
    let mut v = vec![];
    let hex = |i: usize, max: usize| -> (u32, usize) {
        let mut n = 0;
        let mut x = 0u32;
        while n < max && i + n < b.len() && b[i + n].is_ascii_hexdigit() {
            x = x << 4 | (b[i + n] as char).to_digit(16).unwrap();
            n += 1;
        }
        (x, n)
    };
    let mut open = false;
    loop {
        let Some(&c) = b.get(i) else { return Err(E::Bad) };
        i += 1;
        match c {
            c if c == q => break,
            0 | b'\n' => return Err(E::Bad),
            b'\\' => {
                let Some(&e) = b.get(i) else { return Err(E::Bad) };
                i += 1;
                match e {
                    b'a' => v.push(7),
                    b'b' => v.push(8),
                    b'f' => v.push(12),
                    b'n' => v.push(10),
                    b'r' => v.push(13),
                    b't' => v.push(9),
                    b'v' => v.push(11),
                    b'?' | b'\\' | b'\'' | b'"' => v.push(e),
                    b'0'..=b'7' => {
                        let mut x = (e - b'0') as u32;
                        let mut n = 1;
                        while n < 3 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                            x = x * 8 + (b[i] - b'0') as u32;
                            i += 1;
                            n += 1;
                        }
                        if x > 255 {
                            open = true;
                        }
                        v.push(x as u8);
                    }
                    b'x' | b'X' => {
                        let (x, n) = hex(i, 2);
                        if n == 0 {
                            return Err(E::Bad);
                        }
                        i += n;
                        v.push(x as u8);
                    }
                    b'u' | b'U' => {
                        let want = if e == b'u' { 4 } else { 8 };
                        let (x, n) = hex(i, want);
                        if n < want {
                            return Err(E::Bad);
                        }
                        i += n;
                        if (0xd800..0xe000).contains(&x) {
                            open = true;
                        } else {
                            let Some(c) = char::from_u32(x) else { return Err(E::Bad) };
                            v.extend(c.to_string().bytes());
                        }
                    }
                    _ => return Err(E::Bad),
                }
            }
            c => v.push(c),
        }
    }
    if open {
        return Err(E::Open);
    }
    out.push(Tok::St(v));
    Ok(i)
}

#[derive(Clone, Debug)]
pub struct TMsg {
    pub ty: usize,
    pub f: Vec<(u32, TV)>,
    pub any: Option<(String, Box<TMsg>)>,
    pub unk: Vec<(u32, UT)>,
}
#[derive(Clone, Debug)]
pub enum TV {
    V(V),
    M(TMsg),
    L(Vec<TV>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum UT {
    Var(u64),
    W32(u32),
    W64(u64),
    Str(Vec<u8>),
    M(Vec<(u32, UT)>),
}

pub struct P<'a> {
    s: &'a Schema,
    t: &'a [Tok],
    i: usize,
    pub open: bool,
    pub maybe: bool,
    /// numbered unknown fields are allowed
    pub numeric: bool,
    /// a decimal whose rounding to float depends on the way
    pub rounding: bool,
}

impl<'a> P<'a> {
    pub fn new(s: &'a Schema, t: &'a [Tok]) -> P<'a> {
        P { s, t, i: 0, open: false, maybe: false, numeric: false, rounding: false }
    }
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn need(&self) -> R<&'a Tok> {
        self.peek().ok_or(E::Eof)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.is(c);
        if y {
            self.i += 1;
        }
        y
    }
    fn expect(&mut self, c: char) -> R<()> {
        self.need()?;
        if self.eat(c) {
            Ok(())
        } else {
            Err(E::Bad)
        }
    }
    pub fn top(&mut self, ty: usize) -> R<TMsg> {
        let mut m = TMsg { ty, f: vec![], any: None, unk: vec![] };
        while self.peek().is_some() {
            self.field(&mut m, 0)?;
        }
        Ok(m)
    }

    fn ident_path(&mut self, ends: &[char]) -> R<String> {
        let mut out = String::new();
        loop {
            match self.need()? {
                Tok::Id(x) => out.push_str(x),
                _ => return Err(E::Bad),
            }
            self.i += 1;
            match self.need()? {
                Tok::P('.') => {
                    out.push('.');
                    self.i += 1;
                }
                Tok::P(c) if ends.contains(c) => return Ok(out),
                _ => return Err(E::Bad),
            }
        }
    }

    fn field(&mut self, m: &mut TMsg, depth: usize) -> R<()> {
        let s = self.s;
        let md = &s.msgs[m.ty];
        match self.need()? {
            Tok::Id(n) => {
                let f = md.fields.iter().find(|f| f.name == *n && !matches!(f.ty, Ty::Group(_)));
                let g = md.fields.iter().find(|f| match f.ty {
                    Ty::Group(g) => s.msgs[g].name.rsplit('.').next() == Some(n),
                    _ => false,
                });
                let Some(f) = f.or(g) else {
                    let loose = md.fields.iter().any(|f| f.name == *n);
                    return Err(if loose { E::Open } else { E::Bad });
                };
                self.i += 1;
                self.typed(m, f, depth)?;
            }
            Tok::P('[') => {
                self.i += 1;
                let name = self.ident_path(&[']', '/'])?;
                if self.eat('/') {
                    let ty = self.ident_path(&[']'])?;
                    self.expect(']')?;
                    if md.name != "google.protobuf.Any" {
                        return Err(E::Bad);
                    }
                    let Some(Ty::Msg(t)) = s.names.get(&ty).copied() else { return Err(E::Bad) };
                    self.need()?;
                    self.eat(':');
                    let p = self.msg(t, depth + 1)?;
                    if m.any.is_some() || m.f.iter().any(|x| matches!(&x.1, TV::V(v) if !is_zero(v))) {
                        return Err(E::Bad);
                    }
                    if !m.f.is_empty() {
                        return Err(E::Open);
                    }
                    m.any = Some((format!("{name}/{ty}"), Box::new(p)));
                } else {
                    self.expect(']')?;
                    let Some(f) = md.exts.iter().find(|f| f.full == name) else { return Err(E::Bad) };
                    self.typed(m, f, depth)?;
                }
            }
            Tok::Int(d, 10) if self.numeric => {
                self.i += 1;
                let n: u32 = d.parse().map_err(|_| E::Bad)?;
                let v = self.unknown(depth)?;
                m.unk.push((n, v));
            }
            _ => return Err(E::Bad),
        }
        self.sep();
        Ok(())
    }
    fn sep(&mut self) {
        if self.is(',') || self.is(';') {
            self.i += 1;
        }
    }

    fn unknown(&mut self, depth: usize) -> R<UT> {
        if depth > 250 {
            return Err(E::Open);
        }
        let colon = self.eat(':');
        match self.need()? {
            Tok::P('{') => {
                self.i += 1;
                let mut out = vec![];
                while !self.eat('}') {
                    match self.need()? {
                        Tok::Int(d, 10) => {
                            self.i += 1;
                            let n: u32 = d.parse().map_err(|_| E::Bad)?;
                            out.push((n, self.unknown(depth + 1)?));
                            self.sep();
                        }
                        _ => return Err(E::Bad),
                    }
                }
                Ok(UT::M(out))
            }
            Tok::Int(d, 10) if colon => {
                self.i += 1;
                Ok(UT::Var(d.parse().map_err(|_| E::Bad)?))
            }
            Tok::Int(d, 16) if colon => {
                self.i += 1;
                match d.len() {
                    8 => Ok(UT::W32(u32::from_str_radix(d, 16).unwrap())),
                    16 => Ok(UT::W64(u64::from_str_radix(d, 16).unwrap())),
                    _ => Err(E::Bad),
                }
            }
            Tok::St(v) if colon => {
                self.i += 1;
                Ok(UT::Str(v.clone()))
            }
            _ => Err(E::Bad),
        }
    }

    fn typed(&mut self, m: &mut TMsg, f: &Field, depth: usize) -> R<()> {
        let is_msg = f.ty.msg().is_some();
        match self.need()? {
            Tok::P(':') => self.i += 1,
            Tok::P('{' | '<') if is_msg => {}
            // the specification allows a list of messages without a colon
            Tok::P('[') if is_msg && f.card == Card::Rep => {}
            _ => return Err(E::Bad),
        }
        if f.card == Card::Rep {
            self.need()?;
            if self.eat('[') {
                let mut l = vec![];
                self.need()?;
                if !self.eat(']') {
                    loop {
                        l.push(self.value(f.ty, depth)?);
                        match self.need()? {
                            Tok::P(',') => self.i += 1,
                            Tok::P(']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(E::Bad),
                        }
                    }
                }
                m.f.push((f.num, TV::L(l)));
            } else {
                let v = self.value(f.ty, depth)?;
                m.f.push((f.num, TV::L(vec![v])));
            }
            return Ok(());
        }
        let v = self.value(f.ty, depth)?;
        for (n, old) in &m.f {
            let g = self.s.msgs[m.ty].get(*n).unwrap();
            if *n == f.num {
                match old {
                    // whether a default value without presence counts as given is not settled
                    TV::V(o) if !f.presence && is_zero(o) => self.maybe = true,
                    _ => return Err(E::Bad),
                }
            } else if f.oneof.is_some() && g.oneof == f.oneof && !f.ext && !g.ext {
                return Err(E::Bad);
            }
        }
        if let Some((_, _)) = &m.any {
            return Err(if f.num == 1 { E::Bad } else { E::Open });
        }
        m.f.push((f.num, v));
        Ok(())
    }

    fn msg(&mut self, ty: usize, depth: usize) -> R<TMsg> {
        let end = match self.need()? {
            Tok::P('{') => '}',
            Tok::P('<') => '>',
            _ => return Err(E::Bad),
        };
        self.i += 1;
        if depth > 90 {
            return Err(E::Open);
        }
        let mut m = TMsg { ty, f: vec![], any: None, unk: vec![] };
        while !self.eat(end) {
            self.need()?;
            self.field(&mut m, depth)?;
        }
        Ok(m)
    }

    fn int(&mut self, lo: i128, hi: i128) -> R<i128> {
        self.need()?;
        let neg = self.eat('-');
        let Tok::Int(d, r) = self.need()? else { return Err(E::Bad) };
        self.i += 1;
        if neg && lo == 0 {
            return Err(E::Bad);
        }
        let z = d.trim_start_matches('0');
        if z.len() > 40 {
            return Err(E::Bad);
        }
        let n = if z.is_empty() { 0 } else { i128::from_str_radix(z, *r).map_err(|_| E::Bad)? };
        let n = if neg { -n } else { n };
        if (lo..=hi).contains(&n) {
            Ok(n)
        } else {
            Err(E::Bad)
        }
    }

    fn float(&mut self) -> R<(f64, f32)> {
        self.need()?;
        let neg = self.eat('-');
        let (a, b) = match self.need()? {
            Tok::Fl(t) | Tok::Int(t, 10) => (t.parse::<f64>().unwrap(), t.parse::<f32>().unwrap()),
            Tok::Id(n) => match n.to_ascii_lowercase().as_str() {
                "inf" | "infinity" => (f64::INFINITY, f32::INFINITY),
                "nan" => (f64::NAN, f32::NAN),
                _ => return Err(E::Bad),
            },
            _ => return Err(E::Bad),
        };
        self.i += 1;
        if !a.is_nan() && (a as f32) != b {
            self.rounding = true;
        }
        Ok(if neg { (-a, -b) } else { (a, b) })
    }

    fn bytes(&mut self) -> R<Vec<u8>> {
        let Tok::St(v) = self.need()? else { return Err(E::Bad) };
        self.i += 1;
        let mut v = v.clone();
        while let Some(Tok::St(w)) = self.peek() {
            v.extend(w);
            self.i += 1;
        }
        Ok(v)
    }

    fn value(&mut self, ty: Ty, depth: usize) -> R<TV> {
        Ok(TV::V(match ty {
            Ty::Double => V::F64(self.float()?.0.to_bits()),
            Ty::Float => V::F32(self.float()?.1.to_bits()),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(self.int(i32::MIN as i128, i32::MAX as i128)? as i32),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(self.int(i64::MIN as i128, i64::MAX as i128)? as i64),
            Ty::Uint32 | Ty::Fixed32 => V::U32(self.int(0, u32::MAX as i128)? as u32),
            Ty::Uint64 | Ty::Fixed64 => V::U64(self.int(0, u64::MAX as i128)? as u64),
            Ty::Bool => match self.need()? {
                Tok::Id(n) => {
                    self.i += 1;
                    match n.as_str() {
                        "true" | "True" | "t" => V::B(true),
                        "false" | "False" | "f" => V::B(false),
                        _ => return Err(E::Bad),
                    }
                }
                Tok::Int(..) => V::B(self.int(0, 1)? == 1),
                _ => return Err(E::Bad),
            },
            Ty::String => V::S(String::from_utf8(self.bytes()?).map_err(|_| E::Bad)?),
            Ty::Bytes => V::Y(self.bytes()?),
            Ty::Enum(e) => match self.need()? {
                Tok::Id(n) => {
                    self.i += 1;
                    V::E(self.s.enums[e].by_name(n).ok_or(E::Bad)?)
                }
                _ => {
                    let n = self.int(i32::MIN as i128, i32::MAX as i128)? as i32;
                    if self.s.enums[e].names_of(n).is_empty() && !self.s.enums[e].name.starts_with("t3.") && !self.s.enums[e].name.starts_with("t4.") && !self.s.enums[e].name.starts_with("google.") {
                        self.open = true; // unknown numbers of closed enums
                    }
                    V::E(n)
                }
            },
            Ty::Msg(t) | Ty::Group(t) => return Ok(TV::M(self.msg(t, depth + 1)?)),
        }))
    }
}

pub fn to_mv(s: &Schema, t: &TMsg) -> Mv {
    let mut m = Mv::new(t.ty);
    for (n, v) in &t.f {
        let f = s.msgs[t.ty].get(*n).unwrap();
        if let Some((kf, vf)) = s.map_kv(f) {
            let TV::L(l) = v else { unreachable!() };
            let V::Map(map) = m.f.entry(*n).or_insert_with(|| V::Map(BTreeMap::new())) else { unreachable!() };
            for e in l {
                let TV::M(e) = e else { unreachable!() };
                let x = to_mv(s, e);
                let k = x.f.get(&1).cloned().unwrap_or_else(|| s.zero(kf.ty));
                let v = x.f.get(&2).cloned().unwrap_or_else(|| s.zero(vf.ty));
                map.insert(k, v);
            }
        } else if f.card == Card::Rep {
            let TV::L(l) = v else { unreachable!() };
            let V::L(list) = m.f.entry(*n).or_insert_with(|| V::L(vec![])) else { unreachable!() };
            list.extend(l.iter().map(|v| to_v(s, v)));
        } else {
            m.f.insert(*n, to_v(s, v));
        }
    }
    if let Some((url, p)) = &t.any {
        let mut p = to_mv(s, p);
        p.normalize(s);
        m.f.insert(1, V::S(url.clone()));
        m.f.insert(2, V::Y(wire::enc(s, &p, &Default::default())));
    }
    m
}
fn to_v(s: &Schema, v: &TV) -> V {
    match v {
        TV::V(v) => v.clone(),
        TV::M(m) => V::M(Box::new(to_mv(s, m))),
        TV::L(_) => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Sure,
    Maybe,
    Open,
    /// refused; whether some longer text starting with these tokens could be accepted
    Refuse(bool),
}

pub fn read(s: &Schema, ty: usize, text: &str) -> (Verdict, Mv) {
    let none = Mv::new(ty);
    let toks = match lex(text) {
        Ok(t) => t,
        Err(E::Open) => return (Verdict::Open, none),
        Err(_) => return (Verdict::Refuse(false), none),
    };
    let mut p = P::new(s, &toks);
    match p.top(ty) {
        Ok(t) => {
            if p.open || p.rounding {
                return (Verdict::Open, none);
            }
            let mut m = to_mv(s, &t);
            m.normalize(s);
            m.canon();
            crate::json::canon_any(s, &mut m);
            (if p.maybe { Verdict::Maybe } else { Verdict::Sure }, m)
        }
        Err(E::Open) => (Verdict::Open, none),
        Err(e) => (Verdict::Refuse(e == E::Eof), none),
    }
}

// ---------------------------------------------------------------- what a printed text must mean

#[derive(Clone, Copy, Debug)]
pub struct Fmt {
    pub pretty: bool,
    pub skip_unknown: bool,
    pub skip_default: bool,
    pub expand: bool,
    pub index: bool,
}

impl Fmt {
    pub fn real(&self) -> prost_reflect::text_format::FormatOptions {
        prost_reflect::text_format::FormatOptions::new()
            .pretty(self.pretty)
            .skip_unknown_fields(self.skip_unknown)
            .skip_default_fields(self.skip_default)
            .expand_any(self.expand)
            .print_message_fields_in_index_order(self.index)
    }
    pub fn all() -> Vec<Fmt> {
        (0..32)
            .map(|i| Fmt { pretty: i & 1 != 0, skip_unknown: i & 2 == 0, skip_default: i & 4 == 0, expand: i & 8 == 0, index: i & 16 != 0 })
            .collect()
    }
}

/// Whether an Any has an expanded form.
fn expandable<'m>(s: &Schema, m: &'m Mv) -> Option<(&'m str, Option<Mv>)> {
    let Some(V::S(url)) = m.f.get(&1) else { return None };
    let (dom, name) = url.rsplit_once('/')?;
    let ident = |x: &str| !x.is_empty() && !x.as_bytes()[0].is_ascii_digit() && x.bytes().all(word);
    if !dom.split('.').all(ident) || !name.split('.').all(ident) {
        return None;
    }
    let Some(Ty::Msg(t)) = s.names.get(name).copied() else { return None };
    let empty = vec![];
    let b = match m.f.get(&2) {
        Some(V::Y(b)) => b,
        _ => &empty,
    };
    let mut p = Mv::new(t);
    match wire::dec_into(s, &mut p, b) {
        Ok(()) => {
            p.normalize(s);
            p.unk.sort_by_key(|u| u.num);
            Some((url, Some(p)))
        }
        Err(wire::Bad::Depth) => Some((url, None)),
        Err(_) => None,
    }
}

pub fn check(s: &Schema, m: &Mv, t: &TMsg, o: &Fmt) -> Result<(), String> {
    let md = &s.msgs[m.ty];
    if md.name == "google.protobuf.Any" {
        let x = expandable(s, m);
        if let Some((url, p)) = &t.any {
            if !o.expand {
                return Err("an Any is expanded although expand_any is off".into());
            }
            if !t.f.is_empty() || !t.unk.is_empty() {
                return Err("an expanded Any has other fields".into());
            }
            return match x {
                None => Err(format!("an Any is expanded as [{url}], which has no expanded form")),
                Some((_, None)) => Ok(()),
                Some((u, _)) if u != url => Err(format!("an Any of {u} is expanded as [{url}]")),
                Some((_, Some(want))) => check(s, &want, p, o).map_err(|e| format!("[{url}]: {e}")),
            };
        }
        if o.expand && matches!(x, Some((_, Some(_)))) {
            return Err("an Any is not expanded although expand_any is on".into());
        }
    } else if t.any.is_some() {
        return Err("expanded Any in another message".into());
    }
    let mut got: BTreeMap<u32, Vec<&TV>> = BTreeMap::new();
    let mut last = (0, 0);
    for (n, v) in &t.f {
        let f = md.get(*n).unwrap();
        got.entry(*n).or_default().push(v);
        // declared fields come first, by number or by declaration, then extensions by number
        let pos = if f.ext {
            (1, *n as usize)
        } else if o.index {
            (0, md.fields.iter().position(|f| f.num == *n).unwrap())
        } else {
            (0, *n as usize)
        };
        if pos < last {
            return Err(format!("field {} is printed out of order", f.full));
        }
        last = pos;
    }
    for (n, vs) in &got {
        let f = md.get(*n).unwrap();
        let at = |e: String| format!("{}: {e}", f.name);
        let want = match m.f.get(n) {
            Some(v) => v.clone(),
            None if !o.skip_default && !f.presence && !f.ext => {
                if s.map_kv(f).is_some() {
                    V::Map(BTreeMap::new())
                } else if f.card == Card::Rep {
                    V::L(vec![])
                } else {
                    s.zero(f.ty)
                }
            }
            None => return Err(format!("field {} is printed but not set", f.name)),
        };
        if let Some((kf, vf)) = s.map_kv(f) {
            let V::Map(map) = want else { unreachable!() };
            let mut seen = BTreeMap::new();
            for v in vs {
                let TV::L(l) = v else { unreachable!() };
                for e in l {
                    let TV::M(e) = e else { unreachable!() };
                    let k = e.f.iter().find(|x| x.0 == 1).map(|x| to_v(s, &x.1)).unwrap_or_else(|| s.zero(kf.ty));
                    let Some(want) = map.get(&k) else { return Err(at(format!("unexpected key {k:?}"))) };
                    match e.f.iter().find(|x| x.0 == 2) {
                        Some(v) => check_v(s, vf, want, &v.1, o).map_err(at)?,
                        None if is_zero(want) => {}
                        None => return Err(at(format!("key {k:?} has no value"))),
                    }
                    if seen.insert(k.clone(), ()).is_some() {
                        return Err(at(format!("key {k:?} twice")));
                    }
                }
            }
            if seen.len() != map.len() {
                return Err(at("entries are missing".into()));
            }
        } else if f.card == Card::Rep {
            let V::L(want) = want else { unreachable!() };
            let all: Vec<&TV> = vs.iter().flat_map(|v| if let TV::L(l) = v { l.iter() } else { unreachable!() }).collect();
            if all.len() != want.len() {
                return Err(at(format!("{} elements, expected {}", all.len(), want.len())));
            }
            for (a, b) in want.iter().zip(all) {
                check_v(s, f, a, b, o).map_err(at)?;
            }
        } else {
            if vs.len() != 1 {
                return Err(at("printed twice".into()));
            }
            check_v(s, f, &want, vs[0], o).map_err(at)?;
        }
    }
    for n in m.f.keys() {
        if !got.contains_key(n) {
            return Err(format!("field {} is missing", md.get(*n).unwrap().name));
        }
    }
    if !o.skip_default {
        for f in &md.fields {
            if !f.presence && !got.contains_key(&f.num) {
                return Err(format!("field {} is missing although default fields are printed", f.name));
            }
        }
    }
    if o.skip_unknown {
        if !t.unk.is_empty() {
            return Err("unknown fields are printed".into());
        }
        return Ok(());
    }
    let mut tu: Vec<&(u32, UT)> = t.unk.iter().collect();
    tu.sort_by_key(|x| x.0);
    check_unk(&m.unk, &tu)
}

fn check_unk(us: &[Unk], ts: &[&(u32, UT)]) -> Result<(), String> {
    if us.len() != ts.len() {
        return Err(format!("{} unknown fields are printed, expected {}", ts.len(), us.len()));
    }
    let mut us: Vec<&Unk> = us.iter().collect();
    us.sort_by_key(|x| x.num);
    for (u, (n, t)) in us.iter().zip(ts.iter().copied()) {
        let ok = u.num == *n
            && match (&u.val, t) {
                (UV::Var(a), UT::Var(b)) => a == b,
                (UV::W32(a), UT::W32(b)) => u32::from_le_bytes(*a) == *b,
                (UV::W64(a), UT::W64(b)) => u64::from_le_bytes(*a) == *b,
                (UV::Len(a), UT::Str(b)) => a == b,
                (UV::Len(a), UT::M(b)) => match wire::dec_unknown(a) {
                    Some(sub) if !sub.is_empty() => return check_group(&sub, b),
                    _ => false,
                },
                (UV::Grp(a), UT::M(b)) => return check_group(a, b),
                _ => false,
            };
        if !ok {
            return Err(format!("unknown field {u:?} is printed as {n} {t:?}"));
        }
    }
    Ok(())
}
fn check_group(us: &[Unk], ts: &[(u32, UT)]) -> Result<(), String> {
    let mut ts: Vec<&(u32, UT)> = ts.iter().collect();
    ts.sort_by_key(|x| x.0);
    check_unk(us, &ts)
}

fn check_v(s: &Schema, f: &Field, want: &V, got: &TV, o: &Fmt) -> Result<(), String> {
    match (want, got) {
        (V::M(m), TV::M(t)) => check(s, m, t, o),
        (V::F64(a), TV::V(V::F64(b))) if f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan() => Ok(()),
        (V::F32(a), TV::V(V::F32(b))) if f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan() => Ok(()),
        (a, TV::V(b)) if a == b => Ok(()),
        _ => Err(format!("{}: expected {want:?}, printed {got:?}", f.full)),
    }
}

/// Parses what was printed.
pub fn tree(s: &Schema, ty: usize, text: &str) -> Result<TMsg, String> {
    let toks = lex(text).map_err(|e| format!("the text has no tokens ({e:?})"))?;
    let mut p = P::new(s, &toks);
    p.numeric = true;
    p.top(ty).map_err(|e| format!("the text does not parse ({e:?} at token {} {:?})", p.i, toks.get(p.i)))
}
