//! Systematic edits of encoded messages of a known schema (descriptor sets above all): a tree of
//! records, and every single edit of it.
use crate::schema::{Schema, Ty};

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    I(u64),
    S(Vec<u8>),
    M(usize, Vec<N>),
    D([u8; 8]),
    F([u8; 4]),
}
#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub num: u32,
    pub p: P,
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 128 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn encode(t: &[N]) -> Vec<u8> {
    let mut o = vec![];
    for n in t {
        let key = |w: u64| (n.num as u64) << 3 | w;
        match &n.p {
            P::I(v) => {
                varint(&mut o, key(0));
                varint(&mut o, *v);
            }
            P::S(s) => {
                varint(&mut o, key(2));
                varint(&mut o, s.len() as u64);
                o.extend(s);
            }
            P::M(_, c) => {
                let s = encode(c);
                varint(&mut o, key(2));
                varint(&mut o, s.len() as u64);
                o.extend(s);
            }
            P::D(b) => {
                varint(&mut o, key(1));
                o.extend(b);
            }
            P::F(b) => {
                varint(&mut o, key(5));
                o.extend(b);
            }
        }
    }
    o
}

pub fn parse(s: &Schema, ty: usize, mut b: &[u8]) -> Vec<N> {
    fn v(b: &mut &[u8]) -> u64 {
        let mut r = 0u64;
        for i in 0.. {
            let x = b[0];
            *b = &b[1..];
            r |= ((x & 127) as u64) << (7 * i);
            if x < 128 {
                break;
            }
        }
        r
    }
    let mut out = vec![];
    while !b.is_empty() {
        let k = v(&mut b);
        let num = (k >> 3) as u32;
        let p = match k & 7 {
            0 => P::I(v(&mut b)),
            1 => {
                let x = b[..8].try_into().unwrap();
                b = &b[8..];
                P::D(x)
            }
            5 => {
                let x = b[..4].try_into().unwrap();
                b = &b[4..];
                P::F(x)
            }
            2 => {
                let n = v(&mut b) as usize;
                let (x, r) = b.split_at(n);
                b = r;
                match s.msgs[ty].get(num).map(|f| f.ty) {
                    Some(Ty::Msg(m)) => P::M(m, parse(s, m, x)),
                    _ => P::S(x.to_vec()),
                }
            }
            w => panic!("harness: wire type {w}"),
        };
        out.push(N { num, p });
    }
    out
}

#[derive(Clone, Debug)]
pub enum Op {
    Del(usize),
    Dup(usize),
    Swap(usize),
    Set(usize, P),
    /// takes the value of a sibling of the same field
    Copy(usize, usize),
    Ins(N),
}
#[derive(Clone, Debug)]
pub struct Edit {
    /// child indices down to the message edited
    pub path: Vec<usize>,
    pub op: Op,
}

/// Value sets.
#[derive(Clone, Debug, Default)]
pub struct Values {
    pub ints: Vec<u64>,
    /// relative to the present value
    pub rel: bool,
    pub strings: Vec<Vec<u8>>,
    /// for fields which hold names of entities or files
    pub names: Vec<Vec<u8>>,
    pub defaults: Vec<Vec<u8>>,
    pub insert: bool,
    pub order: bool,
}

const NAMEY: &[&str] = &["type_name", "extendee", "input_type", "output_type", "name_part", "dependency", "package", "name", "json_name", "reserved_name", "syntax", "aggregate_value", "identifier_value"];

impl Values {
    fn of(&self, s: &Schema, ty: usize, num: u32, cur: Option<&P>) -> Vec<P> {
        let Some(f) = s.msgs[ty].get(num) else { return vec![] };
        let mut out = vec![];
        match f.ty {
            Ty::String | Ty::Bytes => {
                let vals: Vec<&Vec<u8>> = if f.name == "default_value" {
                    self.defaults.iter().chain(&self.strings).collect()
                } else if NAMEY.contains(&f.name.as_str()) {
                    self.strings.iter().chain(&self.names).collect()
                } else {
                    self.strings.iter().collect()
                };
                out.extend(vals.into_iter().map(|x| P::S(x.clone())));
                if let Some(P::S(x)) = cur {
                    if self.rel {
                        let mut a = x.clone();
                        a.push(b'x');
                        let mut b = vec![b'.'];
                        b.extend(x);
                        let mut c = x.clone();
                        c.push(b'.');
                        out.extend([P::S(a), P::S(b), P::S(c)]);
                        if !x.is_empty() {
                            out.push(P::S(x[1..].to_vec()));
                            out.push(P::S(x[..x.len() - 1].to_vec()));
                            if let Some(i) = x[1..].iter().position(|c| *c == b'.') {
                                out.push(P::S(x[i + 2..].to_vec()));
                            }
                            out.push(P::S(x.to_ascii_uppercase()));
                            out.push(P::S(x.to_ascii_lowercase()));
                        }
                    }
                }
            }
            Ty::Msg(m) => out.push(P::M(m, vec![])),
            Ty::Double => out.extend([0.0f64, -1.5, f64::NAN, f64::INFINITY, 1e300].map(|x| P::D(x.to_le_bytes()))),
            Ty::Float => out.push(P::F([0; 4])),
            Ty::Bool => out.extend([0, 1, 2].map(P::I)),
            _ => {
                out.extend(self.ints.iter().map(|i| P::I(*i)));
                if let (Some(P::I(i)), true) = (cur, self.rel) {
                    out.extend([P::I(i.wrapping_add(1)), P::I(i.wrapping_sub(1))]);
                }
            }
        }
        let mut seen: Vec<P> = vec![];
        for x in out {
            if Some(&x) != cur && !seen.contains(&x) {
                seen.push(x);
            }
        }
        seen
    }
}

/// All single edits, with `keep` deciding on (message name, field name).
pub fn edits(s: &Schema, ty: usize, t: &[N], v: &Values) -> Vec<Edit> {
    fn go(s: &Schema, ty: usize, t: &[N], v: &Values, path: &mut Vec<usize>, out: &mut Vec<Edit>) {
        let mut put = |op: Op| out.push(Edit { path: path.clone(), op });
        for (i, n) in t.iter().enumerate() {
            put(Op::Del(i));
            put(Op::Dup(i));
            if v.order && i + 1 < t.len() && t[i + 1] != *n {
                put(Op::Swap(i));
            }
            for x in v.of(s, ty, n.num, Some(&n.p)) {
                put(Op::Set(i, x));
            }
            if v.order {
                for (j, o) in t.iter().enumerate() {
                    if j != i && o.num == n.num && o.p != n.p && (matches!(n.p, P::M(..)) && (j + 1 == i || i + 1 == j)) {
                        put(Op::Copy(i, j));
                    }
                }
            }
        }
        if v.insert {
            for f in s.msgs[ty].all() {
                if f.ext {
                    continue;
                }
                let present = t.iter().any(|n| n.num == f.num);
                let rep = f.card == crate::schema::Card::Rep;
                if present && !rep {
                    continue;
                }
                for x in v.of(s, ty, f.num, None) {
                    put(Op::Ins(N { num: f.num, p: x }));
                }
            }
        }
        for (i, n) in t.iter().enumerate() {
            if let P::M(m, c) = &n.p {
                path.push(i);
                go(s, *m, c, v, path, out);
                path.pop();
            }
        }
    }
    let mut out = vec![];
    go(s, ty, t, v, &mut vec![], &mut out);
    out
}

pub fn apply(t: &[N], e: &Edit) -> Option<Vec<N>> {
    let mut t = t.to_vec();
    let mut c = &mut t;
    for &i in &e.path {
        match c.get_mut(i).map(|n| &mut n.p) {
            Some(P::M(_, x)) => c = x,
            _ => return None,
        }
    }
    match &e.op {
        Op::Del(i) => {
            if *i >= c.len() {
                return None;
            }
            c.remove(*i);
        }
        Op::Dup(i) => {
            let n = c.get(*i)?.clone();
            c.insert(*i + 1, n);
        }
        Op::Swap(i) => {
            if *i + 1 >= c.len() {
                return None;
            }
            c.swap(*i, *i + 1)
        }
        Op::Set(i, p) => c.get_mut(*i)?.p = p.clone(),
        Op::Copy(i, j) => {
            let p = c.get(*j)?.p.clone();
            c.get_mut(*i)?.p = p;
        }
        Op::Ins(n) => c.push(n.clone()),
    }
    Some(t)
}

pub fn describe(s: &Schema, ty: usize, t: &[N], e: &Edit) -> String {
    let mut at = String::new();
    let (mut ty, mut c) = (ty, t);
    let label = |ty: usize, num: u32| s.msgs[ty].get(num).map_or(num.to_string(), |f| f.name.clone());
    let name = |c: &[N]| c.iter().find_map(|n| if let P::S(x) = &n.p { Some(String::from_utf8_lossy(x).into_owned()) } else { None }).unwrap_or_default();
    for &i in &e.path {
        let n = &c[i];
        at += &format!("/{}#{i}", label(ty, n.num));
        if let P::M(m, x) = &n.p {
            at += &format!("({})", name(x));
            ty = *m;
            c = x;
        }
    }
    let show = |p: &P| match p {
        P::I(i) => format!("{}", *i as i64),
        P::S(x) => format!("{:?}", String::from_utf8_lossy(x)),
        P::M(_, c) => format!("message {}({} records)", name(c), c.len()),
        P::D(b) => format!("{}", f64::from_le_bytes(*b)),
        P::F(b) => format!("{}", f32::from_le_bytes(*b)),
    };
    let was = |i: usize| format!("{} {}", label(ty, c[i].num), show(&c[i].p));
    format!(
        "{at}: {}",
        match &e.op {
            Op::Del(i) => format!("without {}", was(*i)),
            Op::Dup(i) => format!("twice {}", was(*i)),
            Op::Swap(i) => format!("swapped {} with {}", was(*i), was(*i + 1)),
            Op::Set(i, p) => format!("{} -> {}", was(*i), show(p)),
            Op::Copy(i, j) => format!("{} -> {}", was(*i), was(*j)),
            Op::Ins(n) => format!("added {} {}", label(ty, n.num), show(&n.p)),
        }
    )
}
