//! Bounded universes of message values.
use crate::schema::{Card, Field, Schema, Ty};
use crate::value::{is_zero, Mv, Unk, UV, V};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Lvl {
    Tiny,
    Small,
    Full,
}
use Lvl::*;

fn pick<T: Clone>(l: Lvl, full: &[T], small: usize, tiny: usize) -> Vec<T> {
    let n = match l {
        Tiny => tiny,
        Small => small,
        Full => full.len(),
    };
    full[..n.min(full.len())].to_vec()
}

pub fn f64s() -> Vec<u64> {
    let mut v: Vec<f64> = vec![
        1.5, 0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, 1.0, -0.0, 123456.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23,
        5e-324, 2.2250738585072011e-308, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 9007199254740993.0, 0.3, 1e-5, 1e-7,
        16777217.0, 3.4028235677973366e38, 2147483648.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, 1.0 / 3.0,
        1e100, -1e-100, 4.35, 0.000001, 100.0, 1e5,
    ];
    v.dedup();
    v.into_iter().map(f64::to_bits).collect()
}
pub fn f32s() -> Vec<u32> {
    [
        1.5f32, 0.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.1, 1.0, -0.0, 16777216.0, 1e7, 1e8, 1e9, 1e16, 1e21, 1e-5, 1e-7,
        1e-45, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, 0.3, 3.3, 1.0 / 3.0, 1e-10, 4.35, 100.0, 123456.79,
    ]
    .into_iter()
    .map(f32::to_bits)
    .collect()
}
pub fn i32s() -> Vec<i32> {
    vec![1, 0, -1, i32::MAX, i32::MIN, 2, 127, 128, 255, 256, 300, 16383, 16384, 2097151, 2097152, 268435455, 268435456, -2, -64, -65, 63, 64, -128, -129, 8191, 8192, -8192, -8193, 65535, 65536, i32::MAX - 1, i32::MIN + 1]
}
pub fn i64s() -> Vec<i64> {
    let mut v: Vec<i64> = vec![1, 0, -1, i64::MAX, i64::MIN];
    v.extend(i32s().iter().map(|i| *i as i64));
    v.extend([1i64 << 31, 1 << 32, (1 << 35) - 1, 1 << 35, 1 << 42, 1 << 49, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 56, (1 << 62) - 1, 1 << 62, -(1 << 31) - 1, i64::MAX - 1, i64::MIN + 1]);
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
pub fn u32s() -> Vec<u32> {
    vec![1, 0, u32::MAX, 2, 127, 128, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 1 << 31, (1 << 31) - 1, u32::MAX - 1, 65536]
}
pub fn u64s() -> Vec<u64> {
    let mut v: Vec<u64> = vec![1, 0, u64::MAX];
    v.extend(u32s().iter().map(|i| *i as u64));
    v.extend([1u64 << 32, (1 << 35) - 1, 1 << 35, 1 << 42, 1 << 49, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 1 << 56, 1 << 63, (1 << 63) - 1, u64::MAX - 1, 10_000_000_000_000_000_000]);
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
pub fn strs() -> Vec<String> {
    let mut v: Vec<String> = ["a", "", "\u{e9}\u{1F600}", "\"'\\\n", "\0\u{1}\u{7f}", "true", "1", "null", "NaN", "a\tb\r\u{8}\u{c}\u{b}\u{7}", "\u{2028}\u{feff}\u{ffff}", "\u{10FFFF}\u{80}\u{7ff}\u{800}", "}", "# no comment", "\\x41\\101\\u0041", " lead", "-1", "[a.b]", "\u{0}7", "\u{1}f", "\u{d7ff}\u{e000}", "</script>&'", "\"\"", "ab"].map(String::from).to_vec();
    v.push("x".repeat(127));
    v.push("y".repeat(128));
    v.push("z".repeat(300));
    v.push("\u{e9}".repeat(8192));
    v
}
pub fn byts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"a".to_vec(), vec![], vec![0xff, 0xfe], vec![0], b"\"'\\\n".to_vec(), vec![0xfb, 0xef, 0xbe], vec![0, 0, 0], b"ab".to_vec(), b"abc".to_vec(), b"abcd".to_vec(), vec![0xfb, 0xff], vec![0xc3, 0x28], vec![0xed, 0xa0, 0x80], b"\x000".to_vec(), b"\x01f".to_vec(), b"\xff7".to_vec(), "\u{e9}".as_bytes().to_vec(),
    ];
    v.push((0..=255).collect());
    v.push(vec![7; 127]);
    v.push(vec![7; 128]);
    v.push(vec![0xAA; 16384]);
    v
}

pub struct Uni<'a> {
    pub s: &'a Schema,
    memo: HashMap<(usize, usize, bool), Rc<Vec<Mv>>>,
    memo_vals: HashMap<(Ty, usize), Rc<Vec<V>>>,
    /// include unknown fields in the weighted universes
    pub unknown: bool,
    /// Value filter: (message name, field) pairs to leave out.
    pub skip: fn(&Schema, &Field) -> bool,
}

fn never(_: &Schema, _: &Field) -> bool {
    false
}

impl<'a> Uni<'a> {
    pub fn new(s: &'a Schema) -> Self {
        Uni { s, memo: HashMap::new(), memo_vals: HashMap::new(), unknown: false, skip: never }
    }

    pub fn alpha(&mut self, ty: Ty, l: Lvl) -> Vec<V> {
        match ty {
            Ty::Double => pick(l, &f64s(), 4, 2).into_iter().map(V::F64).collect(),
            Ty::Float => pick(l, &f32s(), 4, 2).into_iter().map(V::F32).collect(),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => pick(l, &i32s(), 4, 2).into_iter().map(V::I32).collect(),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => pick(l, &i64s(), 4, 2).into_iter().map(V::I64).collect(),
            Ty::Uint32 | Ty::Fixed32 => pick(l, &u32s(), 3, 2).into_iter().map(V::U32).collect(),
            Ty::Uint64 | Ty::Fixed64 => pick(l, &u64s(), 3, 2).into_iter().map(V::U64).collect(),
            Ty::Bool => vec![V::B(true), V::B(false)],
            Ty::String => pick(l, &strs(), 4, 2).into_iter().map(V::S).collect(),
            Ty::Bytes => pick(l, &byts(), 4, 2).into_iter().map(V::Y).collect(),
            Ty::Enum(e) => {
                let mut v: Vec<i32> = self.s.enums[e].values.iter().map(|v| v.1).collect();
                if v.len() > 1 {
                    v.swap(0, 1);
                }
                v.truncate(2);
                for x in self.s.enums[e].values.iter().map(|v| v.1).chain([7777, -3, i32::MIN, i32::MAX]) {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                if self.s.enums[e].name == "google.protobuf.NullValue" {
                    v = vec![0];
                }
                pick(l, &v, 3, 2).into_iter().map(V::E).collect()
            }
            Ty::Msg(m) | Ty::Group(m) => self.msgs(m, l),
        }
    }

    /// Messages to use as field values.
    fn msgs(&mut self, m: usize, l: Lvl) -> Vec<V> {
        if let Some(v) = wkt(self, m, l) {
            return v.into_iter().map(|m| V::M(Box::new(m))).collect();
        }
        let mut out = vec![Mv::new(m)];
        let s = self.s;
        let mut n = 0;
        for f in s.msgs[m].all() {
            if (self.skip)(s, f) {
                continue;
            }
            n += 1;
            let inner = match l {
                Full => {
                    if f.ty.msg().is_some() {
                        continue;
                    }
                    Tiny
                }
                _ if f.ty.msg().is_some() => continue,
                _ => Tiny,
            };
            if l == Tiny && n > 1 {
                break;
            }
            if l == Small && n > 2 {
                break;
            }
            for v in self.field_values(f, inner) {
                if l == Tiny && out.len() >= 2 {
                    break;
                }
                out.push(Mv::new(m).with(f.num, v));
            }
        }
        if l == Full {
            // lengths around the limits of one and two bytes of a length prefix
            if let Some(f) = s.msgs[m].all().find(|f| matches!(f.ty, Ty::String | Ty::Bytes) && !(self.skip)(s, f) && f.card != Card::Rep) {
                for n in [124usize, 125, 126, 300, 16379, 16380, 16381] {
                    let v = if f.ty == Ty::String { V::S("x".repeat(n)) } else { V::Y(vec![7; n]) };
                    out.push(Mv::new(m).with(f.num, v));
                }
            }
        }
        out.into_iter().map(|m| V::M(Box::new(m))).collect()
    }

    /// Values of a whole field which count as set.
    pub fn field_values(&mut self, f: &Field, l: Lvl) -> Vec<V> {
        let s = self.s;
        if let Some((kf, vf)) = s.map_kv(f) {
            let ks = self.alpha(kf.ty, l);
            let vs = self.alpha(vf.ty, l);
            let mut out = vec![];
            let one = |k: &V, v: &V| V::Map(BTreeMap::from([(k.clone(), v.clone())]));
            for k in &ks {
                out.push(one(k, &vs[0]));
            }
            for v in &vs[1.min(vs.len())..] {
                out.push(one(&ks[0], v));
                if l == Full {
                    out.push(one(&ks[1], v));
                }
            }
            if l >= Small {
                for i in 0..ks.len().min(4) {
                    for j in 0..i {
                        for v in vs.iter().take(3) {
                            for w in vs.iter().take(2) {
                                out.push(V::Map(BTreeMap::from([(ks[i].clone(), v.clone()), (ks[j].clone(), w.clone())])));
                            }
                        }
                    }
                }
                out.push(V::Map(ks.iter().enumerate().map(|(i, k)| (k.clone(), vs[i % vs.len()].clone())).collect()));
            }
            out
        } else if f.card == Card::Rep {
            let a = self.alpha(f.ty, l);
            let mut out: Vec<V> = a.iter().map(|v| V::L(vec![v.clone()])).collect();
            match l {
                Tiny => {}
                Small => {
                    for x in a.iter().take(2) {
                        for y in a.iter().take(2) {
                            out.push(V::L(vec![x.clone(), y.clone()]));
                        }
                    }
                }
                Full => {
                    let b = self.alpha(f.ty, Small);
                    for x in &b {
                        for y in &b {
                            out.push(V::L(vec![x.clone(), y.clone()]));
                            for z in b.iter().take(2) {
                                out.push(V::L(vec![x.clone(), y.clone(), z.clone()]));
                            }
                        }
                    }
                    out.push(V::L(a.clone()));
                    out.push(V::L((0..200).map(|i| b[i % b.len()].clone()).collect()));
                }
            }
            out
        } else {
            let mut a = self.alpha(f.ty, l);
            if !f.presence {
                a.retain(|v| !is_zero(v));
            }
            a
        }
    }

    pub fn singles(&mut self, m: usize) -> Vec<Mv> {
        let mut out = vec![Mv::new(m)];
        let s = self.s;
        for f in s.msgs[m].all() {
            if (self.skip)(s, f) {
                continue;
            }
            for v in self.field_values(f, Full) {
                out.push(Mv::new(m).with(f.num, v));
            }
        }
        out
    }

    pub fn pairs(&mut self, m: usize, l: Lvl) -> Vec<Mv> {
        let s = self.s;
        let mut out = vec![];
        let fs: Vec<(&Field, Vec<V>)> = s.msgs[m]
            .all()
            .filter(|f| !(self.skip)(s, f))
            .collect::<Vec<_>>()
            .into_iter()
            .map(|f| (f, self.field_values(f, l)))
            .collect();
        for (i, (f, fv)) in fs.iter().enumerate() {
            for (g, gv) in &fs[..i] {
                if f.oneof.is_some() && f.oneof == g.oneof {
                    continue;
                }
                for v in fv {
                    for w in gv {
                        out.push(Mv::new(m).with(f.num, v.clone()).with(g.num, w.clone()));
                    }
                }
            }
        }
        // every field at once
        let rounds = fs.iter().map(|f| f.1.len()).max().unwrap_or(0);
        for r in 0..rounds {
            let mut x = Mv::new(m);
            for (f, v) in &fs {
                if let Some(o) = f.oneof {
                    if !s.msgs[m].oneofs[o].synthetic {
                        let ns = &s.msgs[m].oneofs[o].fields;
                        if ns[r % ns.len()] != f.num {
                            continue;
                        }
                    }
                }
                if !v.is_empty() {
                    x.f.insert(f.num, v[r % v.len()].clone());
                }
            }
            out.push(x);
        }
        out
    }

    fn vals(&mut self, ty: Ty, w: usize) -> Rc<Vec<V>> {
        if let Some(v) = self.memo_vals.get(&(ty, w)) {
            return v.clone();
        }
        let v: Vec<V> = match ty {
            Ty::Msg(m) | Ty::Group(m) => {
                if w == 0 {
                    vec![]
                } else {
                    self.weighted(m, w - 1, false).iter().map(|m| V::M(Box::new(m.clone()))).collect()
                }
            }
            _ if w == 1 => self.alpha(ty, Tiny),
            _ => vec![],
        };
        let v = Rc::new(v);
        self.memo_vals.insert((ty, w), v.clone());
        v
    }

    /// All values of a field with exactly weight w.
    fn field_w(&mut self, f: &Field, w: usize) -> Vec<V> {
        let s = self.s;
        if let Some((kf, vf)) = s.map_kv(f) {
            let mut keys = self.alpha(kf.ty, Small);
            keys.truncate(3);
            // subsets of keys in order
            let mut acc: Vec<(BTreeMap<V, V>, usize)> = vec![(BTreeMap::new(), 0)];
            for k in keys {
                let mut next = acc.clone();
                for (m, used) in &acc {
                    for x in 1..=w.saturating_sub(*used) {
                        for v in self.vals(vf.ty, x).iter() {
                            let mut m2 = m.clone();
                            m2.insert(k.clone(), v.clone());
                            next.push((m2, used + x));
                        }
                    }
                }
                acc = next;
            }
            acc.into_iter().filter(|(m, u)| *u == w && !m.is_empty()).map(|(m, _)| V::Map(m)).collect()
        } else if f.card == Card::Rep {
            let mut done = vec![];
            let mut acc: Vec<(Vec<V>, usize)> = vec![(vec![], 0)];
            while let Some((l, used)) = acc.pop() {
                if used == w {
                    if !l.is_empty() {
                        done.push(V::L(l));
                    }
                    continue;
                }
                for x in 1..=w - used {
                    for v in self.vals(f.ty, x).iter() {
                        let mut l2 = l.clone();
                        l2.push(v.clone());
                        acc.push((l2, used + x));
                    }
                }
            }
            done
        } else {
            let mut v: Vec<V> = self.vals(f.ty, w).to_vec();
            if !f.presence {
                v.retain(|v| !is_zero(v));
            }
            v
        }
    }

    /// All messages of a type whose fields have total weight exactly w.
    pub fn weighted(&mut self, m: usize, w: usize, top: bool) -> Rc<Vec<Mv>> {
        let _ = top;
        if let Some(v) = self.memo.get(&(m, w, false)) {
            return v.clone();
        }
        let s = self.s;
        let mut acc: Vec<(Mv, usize, u64)> = vec![(Mv::new(m), 0, 0)];
        for f in s.msgs[m].all() {
            if (self.skip)(s, f) {
                continue;
            }
            let by_w: Vec<Vec<V>> = (0..=w).map(|x| if x == 0 { vec![] } else { self.field_w(f, x) }).collect();
            let bit = f.oneof.map(|o| 1u64 << o).unwrap_or(0);
            let mut next = vec![];
            for (m, used, mask) in acc {
                if mask & bit == 0 {
                    for x in 1..=w - used {
                        for v in &by_w[x] {
                            next.push((m.clone().with(f.num, v.clone()), used + x, mask | bit));
                        }
                    }
                }
                next.push((m, used, mask));
            }
            acc = next;
        }
        if self.unknown {
            let us = unknowns(&s.msgs[m]);
            let mut next = vec![];
            for (m, used, mask) in acc {
                let mut layer = vec![m];
                for u in used..=w {
                    for m in &layer {
                        next.push((m.clone(), u, mask));
                    }
                    if u < w {
                        layer = layer
                            .iter()
                            .flat_map(|m| {
                                us.iter().map(move |x| {
                                    let mut m = m.clone();
                                    m.unk.push(x.clone());
                                    m
                                })
                            })
                            .collect();
                    }
                }
            }
            acc = next;
        }
        let v: Rc<Vec<Mv>> = Rc::new(acc.into_iter().filter(|x| x.1 == w).map(|x| x.0).collect());
        self.memo.insert((m, w, false), v.clone());
        v
    }

    pub fn up_to(&mut self, m: usize, w: usize) -> Vec<Mv> {
        (0..=w).flat_map(|w| self.weighted(m, w, true).to_vec()).collect()
    }
}

/// Numbers which no message of the schema uses.
pub fn free_nums(m: &crate::schema::Msg) -> Vec<u32> {
    [4000u32, 3, 536870910, 200, 19500].into_iter().filter(|n| m.get(*n).is_none()).take(2).collect()
}

pub fn unknowns(m: &crate::schema::Msg) -> Vec<Unk> {
    let n = free_nums(m);
    vec![
        Unk { num: n[0], val: UV::Var(300) },
        Unk { num: n[1], val: UV::Len(b"\x08\x01".to_vec()) },
        Unk { num: n[0], val: UV::Grp(vec![Unk { num: 1, val: UV::W32([1, 2, 3, 4]) }]) },
    ]
}

pub fn unknowns_full(m: &crate::schema::Msg) -> Vec<Unk> {
    let n = free_nums(m);
    let mut out = vec![];
    for num in n {
        for val in [
            UV::Var(0), UV::Var(127), UV::Var(128), UV::Var(u64::MAX), UV::W32([0; 4]), UV::W32([1, 2, 3, 255]), UV::W64([9, 8, 7, 6, 5, 4, 3, 2]),
            UV::Len(vec![]), UV::Len(b"text".to_vec()), UV::Len(b"\x08\x01".to_vec()), UV::Len(vec![0xff; 130]), UV::Len(b"\n\0\"\\".to_vec()), UV::Len(b"\x0a\x02\x08\x01\x15\0\0\0\0\x1b\x1c".to_vec()),
            UV::Grp(vec![]),
            UV::Grp(vec![Unk { num: 1, val: UV::Var(5) }, Unk { num: 1, val: UV::Len(b"x".to_vec()) }]),
            UV::Grp(vec![Unk { num: 536870911, val: UV::Grp(vec![Unk { num: 2, val: UV::W64([1; 8]) }]) }]),
        ] {
            out.push(Unk { num, val });
        }
    }
    // chains of groups of each depth around each kind of value, alone or with a neighbour on either side
    let num = free_nums(m)[0];
    for val in [UV::Var(300), UV::W32([4, 3, 2, 1]), UV::W64([8, 7, 6, 5, 4, 3, 2, 1]), UV::Len(vec![]), UV::Len(b"\"t".to_vec()), UV::Grp(vec![])] {
        for depth in 1..=5 {
            for side in 0..3 {
                let mut x = Unk { num: 2, val: val.clone() };
                for k in 0..depth {
                    let mut g = vec![x];
                    let near = Unk { num: 1 + k as u32, val: UV::Grp(vec![]) };
                    match side {
                        1 => g.insert(0, near),
                        2 => g.push(near),
                        _ => {}
                    }
                    x = Unk { num: if k + 1 == depth { num } else { 3 + k as u32 }, val: UV::Grp(g) };
                }
                out.push(x);
            }
        }
    }
    out
}

/// Universes for well-known types: only values in the domain of their JSON mapping.
fn wkt(u: &mut Uni, m: usize, l: Lvl) -> Option<Vec<Mv>> {
    let s = u.s;
    let name = s.msgs[m].name.strip_prefix("google.protobuf.")?;
    let n = |ty: &str| s.msg(&format!("google.protobuf.{ty}"));
    let secs = |list: &[(i64, i32)]| -> Vec<Mv> {
        list.iter()
            .map(|(a, b)| {
                let mut x = Mv::new(m);
                if *a != 0 {
                    x.f.insert(1, V::I64(*a));
                }
                if *b != 0 {
                    x.f.insert(2, V::I32(*b));
                }
                x
            })
            .collect()
    };
    Some(match name {
        "Timestamp" => pick(l, &secs(&timestamps()), 3, 2),
        "Duration" => pick(l, &secs(&durations()), 3, 2),
        "Empty" => vec![Mv::new(m)],
        "FieldMask" => {
            let paths: Vec<Vec<&str>> = vec![vec!["a"], vec![], vec!["foo_bar.baz", "q"], vec!["a", "a"], vec!["x1", "long_path_name.sub_field.leaf"], vec!["a1b2.c3"]];
            pick(l, &paths, 3, 2)
                .into_iter()
                .map(|p| {
                    let mut x = Mv::new(m);
                    if !p.is_empty() {
                        x.f.insert(1, V::L(p.into_iter().map(|p| V::S(p.into())).collect()));
                    }
                    x
                })
                .collect()
        }
        "Value" => pick(l, &values(s, if l == Full { 2 } else { 1 }), 5, 2),
        "ListValue" => {
            let vs = values(s, 1);
            let mk = |v: Vec<Mv>| {
                let mut x = Mv::new(m);
                if !v.is_empty() {
                    x.f.insert(1, V::L(v.into_iter().map(|m| V::M(Box::new(m))).collect()));
                }
                x
            };
            let mut out = vec![mk(vec![vs[0].clone()]), mk(vec![]), mk(vec![vs[1].clone(), vs[2].clone()])];
            out.extend(vs.iter().map(|v| mk(vec![v.clone()])));
            out.push(mk(vs.clone()));
            pick(l, &out, 3, 2)
        }
        "Struct" => {
            let vs = values(s, 1);
            let mk = |v: Vec<(&str, Mv)>| {
                let mut x = Mv::new(m);
                if !v.is_empty() {
                    x.f.insert(1, V::Map(v.into_iter().map(|(k, m)| (V::S(k.into()), V::M(Box::new(m)))).collect()));
                }
                x
            };
            let mut out = vec![mk(vec![("k", vs[0].clone())]), mk(vec![]), mk(vec![("", vs[1].clone()), ("@type", vs[2].clone())])];
            out.extend(vs.iter().map(|v| mk(vec![("k\n\"", v.clone())])));
            pick(l, &out, 3, 2)
        }
        "DoubleValue" | "FloatValue" | "Int64Value" | "UInt64Value" | "Int32Value" | "UInt32Value" | "BoolValue" | "StringValue" | "BytesValue" => {
            let f = s.msgs[m].get(1).unwrap();
            let mut out: Vec<Mv> = u.alpha(f.ty, l).into_iter().filter(|v| !is_zero(v)).map(|v| Mv::new(m).with(1, v)).collect();
            out.insert(1.min(out.len()), Mv::new(m));
            if l == Tiny {
                out.truncate(2);
            }
            out
        }
        "Any" => {
            let mk = |url: &str, x: &Mv| {
                let mut a = Mv::new(m).with(1, V::S(url.into()));
                let b = crate::wire::enc(s, x, &Default::default());
                if !b.is_empty() {
                    a.f.insert(2, V::Y(b));
                }
                a
            };
            let mut out = vec![];
            let msg_name = if s.names.contains_key("t3.Leaf") { "t3.Leaf" } else { "t2.Leaf" };
            let lf = s.msg(msg_name);
            let leaf = Mv::new(lf).with(1, V::I32(3)).with(2, V::S("s".into()));
            out.push(mk(&format!("type.googleapis.com/{msg_name}"), &leaf));
            out.push(mk(&format!("a.b/{msg_name}"), &Mv::new(lf)));
            if s.names.contains_key("google.protobuf.Duration") {
                let d = Mv::new(n("Duration")).with(1, V::I64(1)).with(2, V::I32(500_000_000));
                out.push(mk("type.googleapis.com/google.protobuf.Duration", &d));
                let st = Mv::new(n("Struct")).with(1, V::Map(BTreeMap::from([(V::S("x".into()), V::M(Box::new(values(s, 0)[0].clone())))])));
                out.push(mk("type.googleapis.com/google.protobuf.Struct", &st));
                let iv = Mv::new(n("Int64Value")).with(1, V::I64(-5));
                out.push(mk("type.googleapis.com/google.protobuf.Int64Value", &iv));
                out.push(mk("type.googleapis.com/google.protobuf.Empty", &Mv::new(n("Empty"))));
                out.push(mk("type.googleapis.com/google.protobuf.FieldMask", &Mv::new(n("FieldMask")).with(1, V::L(vec![V::S("a_b".into())]))));
                out.push(mk("type.googleapis.com/google.protobuf.BytesValue", &Mv::new(n("BytesValue")).with(1, V::Y(vec![1, 2, 255]))));
                for v in values(s, 1) {
                    out.push(mk("type.googleapis.com/google.protobuf.Value", &v));
                }
                let inner = mk("type.googleapis.com/t3.Leaf", &leaf);
                out.push(mk("x/google.protobuf.Any", &inner));
                let wk = Mv::new(s.msg("t3.Wk")).with(1, V::M(Box::new(inner)));
                out.push(mk("type.googleapis.com/t3.Wk", &wk));
                let na = Mv::new(s.msg("t3.Na")).with(1, V::I32(1)).with(7, V::I32(2)).with(8, V::I32(3));
                out.push(mk("type.googleapis.com/t3.Na", &na));
            }
            pick(l, &out, 3, 2)
        }
        _ => return None,
    })
}

pub fn timestamps() -> Vec<(i64, i32)> {
    let mut v = vec![(1, 500_000_000), (0, 0), (-1, 999_999_999)];
    for s in [-62135596800i64, -62135596799, 253402300799, 253402300798, -1, 1, 951782400, 951868800, 4107542400, 68169600, -2203891200, 1_600_000_000, -62104060800, 253370764800, 86399, 86400, -86400, -86401, -951782400, 1709164800, 1709251199, 1735689599, 978307199, 946684799] {
        for n in [0, 1, 10, 100, 1000, 999_999_999, 100_000_000, 999_000_000, 123_456_789, 120_000_000, 1_000_000, 999_000, 1_001_000] {
            v.push((s, n));
        }
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

pub fn durations() -> Vec<(i64, i32)> {
    let mut v = vec![(1, 500_000_000), (0, 0), (-1, -999_999_999)];
    for s in [0i64, 1, 59, 3600, 1_000_000_000, 315_576_000_000, 315_575_999_999] {
        for n in [0, 1, 10, 100, 1000, 999_999_999, 100_000_000, 999_000_000, 123_456_789, 120_000_000, 1_000_000, 999_000, 1_001_000] {
            if s == 315_576_000_000 && n != 0 {
                continue;
            }
            v.push((s, n));
            v.push((-s, -n));
        }
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

/// Values of google.protobuf.Value with a kind, nested at most `depth` levels.
pub fn values(s: &Schema, depth: usize) -> Vec<Mv> {
    let vm = s.msg("google.protobuf.Value");
    let lm = s.msg("google.protobuf.ListValue");
    let sm = s.msg("google.protobuf.Struct");
    let mut out = vec![
        Mv::new(vm).with(1, V::E(0)),
        Mv::new(vm).with(2, V::F64(1.5f64.to_bits())),
        Mv::new(vm).with(3, V::S("s".into())),
        Mv::new(vm).with(4, V::B(true)),
        Mv::new(vm).with(4, V::B(false)),
        Mv::new(vm).with(2, V::F64(0)),
        Mv::new(vm).with(3, V::S(String::new())),
        Mv::new(vm).with(2, V::F64((-1e300f64).to_bits())),
        Mv::new(vm).with(2, V::F64(1e15f64.to_bits())),
        Mv::new(vm).with(2, V::F64(9007199254740993f64.to_bits())),
        Mv::new(vm).with(3, V::S("NaN".into())),
    ];
    let b = |m: &Mv| V::M(Box::new(m.clone()));
    out.push(Mv::new(vm).with(6, b(&Mv::new(lm))));
    out.push(Mv::new(vm).with(5, b(&Mv::new(sm))));
    if depth > 0 {
        for v in values(s, depth - 1).into_iter().take(if depth > 1 { 100 } else { 5 }) {
            out.push(Mv::new(vm).with(6, V::M(Box::new(Mv::new(lm).with(1, V::L(vec![b(&v)]))))));
            out.push(Mv::new(vm).with(6, V::M(Box::new(Mv::new(lm).with(1, V::L(vec![b(&v), b(&out[0])]))))));
            out.push(Mv::new(vm).with(5, V::M(Box::new(Mv::new(sm).with(1, V::Map(BTreeMap::from([(V::S("k".into()), b(&v))])))))));
        }
    }
    out
}
