//! W01-W05: the binary wire format.
use crate::report::{hex, no_panic, Ctx};
use crate::schema::{Card, Field, Schema, Ty, ALL_BIN};
use crate::uni::{Lvl, Uni};
use crate::value::{show, Bind, Mv, Unk, UV, V};
use crate::wire::{self, Bad, Enc};
use prost::bytes::Buf;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage};

pub const TYPES: &[&str] = &[
    "t3.Sc", "t3.Leaf", "t3.Op", "t3.Rp", "t3.Ru", "t3.Mk", "t3.Mv", "t3.On", "t3.Rec", "t3.Nu", "t3.Na", "t3.Wk", "t3.Wr", "t3.By", "t3.Fo",
    "t3.Ev", "t3.Tx", "t2.Sc", "t2.Leaf", "t2.De", "t2.Rq", "t2.Rp", "t2.Pk", "t2.Gr", "t2.Ex", "t2.By", "t2.Fo", "t2.Tx",
];
const DEEP: &[(&str, usize, usize)] = &[
    ("t3.Rec", 4, 5),
    ("t3.On", 3, 3),
    ("t3.By", 3, 4),
    ("t3.Tx", 2, 3),
    ("t3.Ev", 3, 4),
    ("t2.Gr", 4, 5),
    ("t2.By", 3, 4),
    ("t2.Tx", 3, 4),
    ("t2.Ex", 2, 2),
    ("t2.Fo", 3, 4),
    ("t3.Leaf", 5, 7),
    ("t2.Rq", 4, 5),
];

/// Values of the messages which look like well-known types but are not (t4.proto, t5.proto), of messages which hold them,
/// and of `Any` with such payloads.
pub fn look_alikes(b: &Bind) -> Vec<Mv> {
    let s = &b.s;
    let mut u = Uni::new(s);
    let any = s.msg("google.protobuf.Any");
    let anys: Vec<Mv> = u.alpha(crate::schema::Ty::Msg(any), Lvl::Full).into_iter().map(|v| if let V::M(m) = v { *m } else { unreachable!() }).collect();
    let tys: Vec<usize> = (0..s.msgs.len())
        .filter(|i| {
            let n = &s.msgs[*i].name;
            !s.msgs[*i].map_entry && (n.starts_with("t4.") || n.starts_with("google.protobuf.") && crate::json::wkt(n).is_none())
        })
        .collect();
    assert!(tys.len() > 20);
    let mut out = vec![];
    let mut like = vec![];
    for &t in &tys {
        let vs = u.singles(t);
        out.extend(vs.iter().cloned());
        out.extend(u.pairs(t, Lvl::Tiny));
        if s.msgs[t].all().any(|f| f.name == "type_url") {
            like.push(t);
            out.extend(anys.iter().map(|a| Mv { ty: t, ..a.clone() }));
        }
        for v in vs.iter().take(2).chain([&Mv::new(t)]) {
            let bytes = wire::enc(s, v, &Enc::default());
            let mut a = Mv::new(any).with(1, V::S(format!("type.googleapis.com/{}", s.msgs[t].name)));
            if !bytes.is_empty() {
                a.f.insert(2, V::Y(bytes));
            }
            out.push(a);
        }
    }
    for holder in ["t4.google.protobuf.Lk", "t4.google.protobuf.Lo"] {
        let h = s.msg(holder);
        for f in s.msgs[h].all() {
            if f.ty.msg().is_some_and(|t| like.contains(&t)) {
                for a in &anys {
                    out.push(Mv::new(h).with(f.num, V::M(Box::new(Mv { ty: f.ty.msg().unwrap(), ..a.clone() }))));
                }
            }
        }
    }
    for m in &mut out {
        m.normalize(s);
        m.canon();
    }
    out
}

/// Messages nested through each sort of field to the depth of 100 messages, map entries included, which prost decodes,
/// with the depth of their JSON.
pub fn deep(b: &Bind, all: bool) -> Vec<(Mv, usize)> {
    let s = &b.s;
    let rec = s.msg("t3.Rec");
    let (val, list, st) = (s.msg("google.protobuf.Value"), s.msg("google.protobuf.ListValue"), s.msg("google.protobuf.Struct"));
    let mut out = vec![];
    let shapes: &[&[u32]] = &[&[2], &[3], &[4], &[5], &[2, 3], &[4, 5], &[2, 4, 3, 5]];
    let bx = |m: Mv| V::M(Box::new(m));
    for n in 1..=100usize {
        if !all && !(n % 10 == 0 || n > 95 || (45..=52).contains(&n) || (30..=34).contains(&n)) {
            continue;
        }
        let mut of = vec![];
        for sh in shapes {
            let mut m = Mv::new(rec).with(1, V::I32(7));
            let (mut d, mut levels) = (1, 0);
            for i in 0..n {
                let f = sh[i % sh.len()];
                levels += 1 + (f == 4) as usize;
                d += 1 + (f == 3 || f == 4) as usize;
                m = Mv::new(rec).with(f, match f {
                    3 => V::L(vec![bx(m)]),
                    4 => V::Map(std::collections::BTreeMap::from([(V::S("k".into()), bx(m))])),
                    _ => bx(m),
                });
            }
            of.push((m, d, levels));
        }
        for lists in [true, false] {
            let mut v = Mv::new(val).with(4, V::B(true));
            for _ in 0..n {
                v = if lists {
                    Mv::new(val).with(6, bx(Mv::new(list).with(1, V::L(vec![bx(v)]))))
                } else {
                    Mv::new(val).with(5, bx(Mv::new(st).with(1, V::Map(std::collections::BTreeMap::from([(V::S("k".into()), bx(v))])))))
                };
            }
            of.push((v, n, n * (3 - lists as usize)));
        }
        out.extend(of.into_iter().filter(|x| x.2 <= 100).map(|x| (x.0, x.1)));
    }
    out
}

/// More elements than any limit on nesting: lists and maps of 130 elements, 130 unknown fields of each sort.
pub fn wide(b: &Bind, unknown: bool) -> Vec<Mv> {
    const N: usize = 130;
    let s = &b.s;
    let mut u = Uni::new(s);
    let mut out = vec![];
    for t in TYPES {
        let ty = s.msg(t);
        for f in s.msgs[ty].all() {
            if f.card != Card::Rep {
                continue;
            }
            if let Some((kf, vf)) = s.map_kv(f) {
                let vs = u.alpha(vf.ty, Lvl::Tiny);
                let key = |i: usize| match kf.ty {
                    Ty::String => Some(V::S(format!("k{i}"))),
                    Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => Some(V::I32(i as i32)),
                    Ty::Uint64 | Ty::Fixed64 => Some(V::U64(i as u64)),
                    _ => None,
                };
                if key(0).is_some() {
                    out.push(Mv::new(ty).with(f.num, V::Map((0..N).map(|i| (key(i).unwrap(), vs[i % vs.len()].clone())).collect())));
                }
            } else {
                let vs = u.alpha(f.ty, Lvl::Tiny);
                out.push(Mv::new(ty).with(f.num, V::L((0..N).map(|i| vs[i % vs.len()].clone()).collect())));
            }
        }
        if unknown {
            for x in crate::uni::unknowns_full(&s.msgs[ty]) {
                let mut m = Mv::new(ty);
                m.unk = vec![x; N];
                out.push(m);
            }
        }
    }
    for m in &mut out {
        m.normalize(s);
        m.canon();
    }
    out
}

pub fn universe(c: &Ctx, b: &Bind, unknown: bool) -> Vec<Mv> {
    let mut out = vec![];
    let mut u = Uni::new(&b.s);
    for t in TYPES {
        let m = b.s.msg(t);
        out.extend(u.singles(m));
        out.extend(u.pairs(m, c.pick(Lvl::Tiny, Lvl::Small)));
    }
    u.unknown = unknown;
    for (t, q, th) in DEEP {
        out.extend(u.up_to(b.s.msg(t), c.pick(*q, *th)));
    }
    if unknown {
        for t in TYPES {
            let ty = b.s.msg(t);
            let us = crate::uni::unknowns_full(&b.s.msgs[ty]);
            for x in &us {
                let mut m = Mv::new(ty);
                m.unk.push(x.clone());
                out.push(m.clone());
                for y in us.iter().step_by(c.pick(5, 1)) {
                    let mut m2 = m.clone();
                    m2.unk.push(y.clone());
                    out.push(m2);
                }
            }
        }
    }
    for m in &mut out {
        m.normalize(&b.s);
        m.canon();
    }
    c.param("message types", TYPES.len());
    c.param("universe", "per type: every field x full value alphabet; every pair of fields; all messages up to a total weight (values, elements, nesting, unknown fields)");
    out
}

fn eq(b: &Bind, what: &str, got: &DynamicMessage, want: &Mv) -> Result<(), String> {
    let mut g = b.from_dyn(got).map_err(|e| format!("{what}: {e}"))?;
    g.normalize(&b.s);
    g.canon();
    if g != *want {
        return Err(format!("{what}: got {} want {}", show(&b.s, &g), show(&b.s, want)));
    }
    Ok(())
}

/// The same message with every unset field without presence stored explicitly.
/// The same message with all absent fields without presence, extensions too, set to their defaults
pub fn explicit(b: &Bind, m: &Mv) -> DynamicMessage {
    let mut d = b.to_dyn(m);
    for f in b.s.msgs[m.ty].all() {
        if !f.presence && !m.f.contains_key(&f.num) {
            let v = b.to_value(&if b.s.map_kv(f).is_some() {
                V::Map(Default::default())
            } else if f.card == Card::Rep {
                V::L(vec![])
            } else {
                b.s.zero(f.ty)
            });
            match &b.fd[m.ty][&f.num] {
                crate::value::FX::F(x) => d.set_field(x, v),
                crate::value::FX::X(x) => d.set_extension(x, v),
            }
        }
    }
    d
}

pub fn w01(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let u = universe(c, &b, true);
    c.sample(|| show(&b.s, &u[u.len() / 2]));
    c.sample(|| show(&b.s, &u[u.len() - 1]));
    c.par(
        u.len(),
        |i| show(&b.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            for (k, d) in [b.to_dyn(m), explicit(&b, m)].into_iter().enumerate() {
                eq(&b, "the message as built", &d, m)?;
                let bytes = d.encode_to_vec();
                if bytes.len() != d.encoded_len() {
                    return Err(format!("encoded_len() is {} but {} bytes were written", d.encoded_len(), bytes.len()));
                }
                // encode into a buffer which grows and into one with exactly enough room
                let mut exact = &mut vec![0u8; bytes.len()][..];
                d.encode(&mut exact).map_err(|e| format!("encode: {e}"))?;
                if !exact.is_empty() {
                    return Err("encode wrote another number of bytes".into());
                }
                let back = DynamicMessage::decode(b.md[m.ty].clone(), bytes.as_slice())
                    .map_err(|e| format!("decoding its own encoding failed: {e}; bytes {}", hex(&bytes)))?;
                eq(&b, "decoded", &back, m)?;
                let ld = d.encode_length_delimited_to_vec();
                let mut want = vec![];
                wire::varint(bytes.len() as u64, 0, &mut want);
                if ld.len() != want.len() + bytes.len() || ld[..want.len()] != want[..] {
                    return Err("length-delimited encoding has a wrong prefix".into());
                }
                let mut back2 = DynamicMessage::new(b.md[m.ty].clone());
                back2.merge_length_delimited(ld.as_slice()).map_err(|e| format!("merge_length_delimited: {e}"))?;
                eq(&b, "length-delimited round trip", &back2, m)?;
                // a second trip
                let again = DynamicMessage::decode(b.md[m.ty].clone(), back.encode_to_vec().as_slice())
                    .map_err(|e| format!("second trip: {e}"))?;
                eq(&b, "second trip", &again, m)?;
                // clones are equal and independent
                let cl = back.clone();
                let has_nan = {
                    let mut f = |v: &V| matches!(v, V::F32(x) if f32::from_bits(*x).is_nan()) || matches!(v, V::F64(x) if f64::from_bits(*x).is_nan());
                    m.any_v(&mut f)
                };
                if k == 0 && !has_nan && (cl != back || again != back) {
                    return Err("round trip is not equal by ==".into());
                }
                c.step(8);
                c.trace(1);
            }
            Ok(())
        },
    );
}

macro_rules! statics {
    ($name:expr, $f:ident, $($arg:expr),*) => {
        match $name {
            "t3.Sc" => $f::<crate::gen::t3::Sc>($($arg),*), "t3.Leaf" => $f::<crate::gen::t3::Leaf>($($arg),*), "t3.Op" => $f::<crate::gen::t3::Op>($($arg),*),
            "t3.Rp" => $f::<crate::gen::t3::Rp>($($arg),*), "t3.Ru" => $f::<crate::gen::t3::Ru>($($arg),*), "t3.Mk" => $f::<crate::gen::t3::Mk>($($arg),*),
            "t3.Mv" => $f::<crate::gen::t3::Mv>($($arg),*), "t3.On" => $f::<crate::gen::t3::On>($($arg),*), "t3.Rec" => $f::<crate::gen::t3::Rec>($($arg),*),
            "t3.Nu" => $f::<crate::gen::t3::Nu>($($arg),*), "t3.Na" => $f::<crate::gen::t3::Na>($($arg),*), "t3.Wk" => $f::<crate::gen::t3::Wk>($($arg),*),
            "t3.Wr" => $f::<crate::gen::t3::Wr>($($arg),*), "t3.By" => $f::<crate::gen::t3::By>($($arg),*), "t3.Fo" => $f::<crate::gen::t3::Fo>($($arg),*),
            "t3.Ev" => $f::<crate::gen::t3::Ev>($($arg),*), "t3.Tx" => $f::<crate::gen::t3::Tx>($($arg),*), "t2.Sc" => $f::<crate::gen::t2::Sc>($($arg),*),
            "t2.Leaf" => $f::<crate::gen::t2::Leaf>($($arg),*), "t2.De" => $f::<crate::gen::t2::De>($($arg),*), "t2.Rq" => $f::<crate::gen::t2::Rq>($($arg),*),
            "t2.Rp" => $f::<crate::gen::t2::Rp>($($arg),*), "t2.Pk" => $f::<crate::gen::t2::Pk>($($arg),*), "t2.Gr" => $f::<crate::gen::t2::Gr>($($arg),*),
            "t2.Ex" => $f::<crate::gen::t2::Ex>($($arg),*), "t2.By" => $f::<crate::gen::t2::By>($($arg),*), "t2.Fo" => $f::<crate::gen::t2::Fo>($($arg),*),
            "t2.Tx" => $f::<crate::gen::t2::Tx>($($arg),*),
            other => panic!("harness: no static type {other}"),
        }
    };
}
pub(crate) use statics;

/// Decodes with the type prost generated and encodes again.
fn static_recode<T: Message + Default>(bytes: &[u8]) -> Result<Vec<u8>, String> {
    T::decode(bytes).map(|t| t.encode_to_vec()).map_err(|e| e.to_string())
}

/// What a static type keeps of a message: no unknown fields, no extensions.
pub fn strip(s: &Schema, m: &Mv) -> Mv {
    let mut o = Mv::new(m.ty);
    for (n, v) in &m.f {
        let f = s.msgs[m.ty].get(*n).unwrap();
        if !f.ext {
            o.f.insert(*n, strip_v(s, v));
        }
    }
    o
}
fn strip_v(s: &Schema, v: &V) -> V {
    match v {
        V::M(m) => V::M(Box::new(strip(s, m))),
        V::L(l) => V::L(l.iter().map(|v| strip_v(s, v)).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), strip_v(s, v))).collect()),
        v => v.clone(),
    }
}
/// prost static types write required fields even if nothing set them.
fn with_required(s: &Schema, m: &mut Mv) {
    for f in s.msgs[m.ty].all() {
        if f.card == Card::Req && !m.f.contains_key(&f.num) {
            m.f.insert(f.num, s.default_of(f));
        }
    }
    fn rec(s: &Schema, v: &mut V) {
        match v {
            V::M(m) => with_required(s, m),
            V::L(l) => l.iter_mut().for_each(|v| rec(s, v)),
            V::Map(m) => m.values_mut().for_each(|v| rec(s, v)),
            _ => {}
        }
    }
    m.f.values_mut().for_each(|v| rec(s, v));
}

fn well_formed(s: &Schema, m: &Mv, bytes: &[u8]) -> Result<(), String> {
    let recs = wire::records(bytes).ok_or_else(|| format!("output is not a sequence of fields: {}", hex(bytes)))?;
    let md = &s.msgs[m.ty];
    let mut unk = vec![];
    let mut seen: std::collections::BTreeMap<u32, (usize, bool)> = Default::default();
    for (n, w, raw) in &recs {
        match md.get(*n) {
            None => unk.extend(wire::dec_unknown(raw).unwrap()),
            Some(f) => {
                let e = seen.entry(*n).or_default();
                e.0 += 1;
                let want = if s.map_kv(f).is_some() || (f.card == Card::Rep && f.packed) { 2 } else { f.ty.wire() };
                if *w != want {
                    return Err(format!("field {} is written with wire type {w}, not {want}", f.full));
                }
            }
        }
    }
    for f in md.all() {
        let got = seen.get(&f.num).map(|x| x.0).unwrap_or(0);
        let want = match m.f.get(&f.num) {
            None => 0,
            Some(V::L(l)) if !f.packed => l.len(),
            Some(V::Map(x)) => x.len(),
            Some(_) => 1,
        };
        if got != want {
            return Err(format!("field {} is written as {got} records, not {want}", f.full));
        }
    }
    unk.sort_by_key(|u| u.num);
    if unk != m.unk {
        return Err(format!("unknown fields written as {unk:?}, not {:?}", m.unk));
    }
    Ok(())
}

pub fn w02(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let u = universe(c, &b, true);
    c.sample(|| show(&b.s, &u[u.len() / 3]));
    c.par(
        u.len(),
        |i| show(&b.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let md = &b.s.msgs[m.ty];
            for d in [b.to_dyn(m), explicit(&b, m)] {
                let bytes = d.encode_to_vec();
                well_formed(&b.s, m, &bytes)?;
                let r = wire::dec(&b.s, m.ty, &bytes).map_err(|e| format!("the reference decoder refuses the output ({e:?}): {}", hex(&bytes)))?;
                if r != *m {
                    return Err(format!("the output means {}", show(&b.s, &r)));
                }
                let name = md.name.as_str();
                let st: Vec<u8> = statics!(name, static_recode, &bytes).map_err(|e| format!("the static type refuses the output: {e}"))?;
                let r = wire::dec(&b.s, m.ty, &st).map_err(|e| format!("harness: static output {e:?}"))?;
                let mut want = strip(&b.s, m);
                with_required(&b.s, &mut want);
                want.normalize(&b.s);
                want.canon();
                if r != want {
                    return Err(format!("to the static type the output means {}", show(&b.s, &r)));
                }
                c.step(4);
                c.trace(1);
            }
            Ok(())
        },
    );
}

/// Records for token sequences: well-formed and malformed ones of every field.
fn tokens(s: &Schema, ty: usize, rich: bool) -> Vec<Vec<u8>> {
    let mut u = Uni::new(s);
    let mut out: Vec<Vec<u8>> = vec![];
    for f in s.msgs[ty].all() {
        let vals = u.field_values(f, if rich { Lvl::Small } else { Lvl::Tiny });
        for v in vals.iter().take(if rich { 8 } else { 2 }) {
            for o in [Enc::default(), Enc { flip_packed: true, pad: 1, swap_entry: true, defaults: true, ..Enc::default() }] {
                let mut r = vec![];
                wire::enc_field(s, f, v, &o, &mut r);
                out.push(r);
            }
        }
        // explicit zero
        if f.card != Card::Rep {
            let mut r = vec![];
            wire::enc_field(s, f, &s.zero(f.ty), &Enc::default(), &mut r);
            out.push(r);
        }
        // each wire type with a short payload
        for (w, p) in [(0u32, &b"\x01"[..]), (1, b"\0\0\0\0\0\0\0\x01"), (2, b"\x01\x01"), (2, b"\x00"), (2, b"\x02\x08\x01"), (2, b"\x04\x08\x01\x10\x01"), (3, b""), (4, b""), (5, b"\x01\0\0\0")] {
            let mut r = vec![];
            wire::key(f.num, w, &mut r);
            r.extend(p);
            out.push(r.clone());
            if w == 3 {
                wire::key(f.num, 4, &mut r);
                out.push(r);
            }
        }
        if rich {
            for p in [&b"\x05\x01"[..], b"", b"\x01\xff", b"\x80", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x02", b"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", b"\xff\xff\xff\xff\x0f", b"\x02\xc3\x28"] {
                let mut r = vec![];
                wire::key(f.num, f.ty.wire(), &mut r);
                r.extend(p);
                out.push(r);
                let mut r = vec![];
                wire::key(f.num, 2, &mut r);
                r.extend(p);
                out.push(r);
            }
            // map entries: missing, repeated, reordered and foreign fields
            if let Some((kf, vf)) = s.map_kv(f) {
                let k = u.alpha(kf.ty, Lvl::Tiny);
                let v = u.alpha(vf.ty, Lvl::Tiny);
                let mut parts: Vec<Vec<u8>> = vec![];
                for x in &k {
                    let mut p = vec![];
                    wire::enc_field(s, kf, x, &Enc::default(), &mut p);
                    parts.push(p);
                }
                for x in &v {
                    let mut p = vec![];
                    wire::enc_field(s, vf, x, &Enc::default(), &mut p);
                    parts.push(p);
                }
                parts.push(b"\x18\x05".to_vec());
                parts.push(b"\x09\0\0\0\0\0\0\0\0".to_vec());
                let n = parts.len();
                for a in 0..=n {
                    for b in 0..=n {
                        let e: Vec<u8> = [a, b].iter().filter_map(|i| parts.get(*i)).flatten().copied().collect();
                        let mut r = vec![];
                        wire::key(f.num, 2, &mut r);
                        wire::varint(e.len() as u64, 0, &mut r);
                        r.extend(e);
                        out.push(r);
                    }
                }
            }
        }
    }
    let n = crate::uni::free_nums(&s.msgs[ty]);
    for x in crate::uni::unknowns_full(&s.msgs[ty]).into_iter().take(if rich { 100 } else { 4 }) {
        let mut r = vec![];
        wire::enc_unknown(&[x], &mut r);
        out.push(r);
    }
    let mut r = vec![];
    wire::key(n[0], 4, &mut r);
    out.push(r);
    let mut r = vec![];
    wire::key(n[0], 6, &mut r);
    out.push(r);
    out.push(vec![0, 1]);
    // tag beyond 32 bits
    out.push(vec![0x88, 0x80, 0x80, 0x80, 0x10, 1]);
    // overlong key
    out.push(vec![0x88, 0x80, 0, 1]);
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out
}

fn check_decode(b: &Bind, ty: usize, bytes: &[u8]) -> Result<bool, String> {
    let real = no_panic("decode", || DynamicMessage::decode(b.md[ty].clone(), bytes))?;
    match (wire::dec(&b.s, ty, bytes), real) {
        (Ok(m), Ok(d)) => eq(b, "decode", &d, &m).map(|_| true),
        (Ok(m), Err(e)) => Err(format!("valid input refused: {e}; it means {}", show(&b.s, &m))),
        (Err(Bad::Malformed), Ok(d)) => Err(format!("malformed input accepted as {}", show(&b.s, &b.from_dyn(&d)?))),
        _ => Ok(false),
    }
}

pub fn w03(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let names: Vec<usize> = TYPES.iter().map(|t| b.s.msg(t)).collect();
    // 1. all byte strings up to a length
    for &ty in &names {
        let small = ["t3.By", "t2.By"].contains(&b.s.msgs[ty].name.as_str());
        let len = if c.thorough && small { 3 } else { 2 };
        let n = 256usize.pow(len as u32);
        let make = |i: usize| -> Vec<u8> { (0..len).map(|k| (i >> (8 * k)) as u8).collect() };
        c.par(
            n,
            |i| format!("{} bytes {}", b.s.msgs[ty].name, hex(&make(i))),
            |i| {
                let x = make(i);
                if i < 256 {
                    check_decode(&b, ty, &x[..1])?;
                }
                check_decode(&b, ty, &x)?;
                c.step(1);
                c.trace(1);
                Ok(())
            },
        );
        c.states_add(n as u64);
    }
    c.param("all byte strings", c.pick("length 1 and 2 for 28 types", "length 1 and 2 for 28 types, length 3 for By"));
    // 2. longer strings over a small alphabet
    for name in ["t3.By", "t2.By"] {
        let ty = b.s.msg(name);
        let al: Vec<u8> = if name == "t3.By" {
            vec![0x08, 0x12, 0x1a, 0x18, 0x22, 0x2a, 0x38, 0x42, 0x00, 0x01, 0x02, 0x03, 0x04, 0x80, 0xff, 0x10]
        } else {
            vec![0x08, 0x13, 0x14, 0x1b, 0x1c, 0x20, 0x28, 0x3a, 0x38, 0x0a, 0x00, 0x01, 0x02, 0x03, 0x80, 0x53]
        };
        let len = c.pick(5usize, 6);
        let n = 16usize.pow(len as u32);
        let make = |i: usize| -> Vec<u8> { (0..len).map(|k| al[(i >> (4 * k)) & 15]).collect() };
        c.par(
            n,
            |i| format!("{name} bytes {}", hex(&make(i))),
            |i| {
                let x = make(i);
                check_decode(&b, ty, &x)?;
                c.step(1);
                c.trace(1);
                Ok(())
            },
        );
        c.states_add(n as u64);
    }
    c.param("alphabet strings", format!("all strings of length {} over 16 bytes, two types", c.pick(5, 6)));
    // 3. sequences of records
    for &ty in &names {
        let rich = tokens(&b.s, ty, true);
        let plain = tokens(&b.s, ty, false);
        let name = &b.s.msgs[ty].name;
        let two: &[Vec<u8>] = if c.thorough || rich.len() < 400 { &rich } else { &plain };
        let n = rich.len() + two.len() * two.len();
        let make = |i: usize| -> Vec<u8> {
            if i < rich.len() {
                rich[i].clone()
            } else {
                let i = i - rich.len();
                [&two[i / two.len()][..], &two[i % two.len()][..]].concat()
            }
        };
        c.sample(|| format!("{name} {}", hex(&make(n / 2))));
        c.par(
            n,
            |i| format!("{name} bytes {}", hex(&make(i))),
            |i| {
                let x = make(i);
                c.state(&(ty, &x));
                check_decode(&b, ty, &x)?;
                // every truncation of single records
                if i < rich.len() {
                    for k in 0..x.len().min(40) {
                        check_decode(&b, ty, &x[..k])?;
                        c.trace(1);
                    }
                }
                c.step(1);
                c.trace(1);
                Ok(())
            },
        );
        if ["t3.By", "t2.By", "t3.On", "t2.Gr", "t3.Fo", "t2.Fo", "t3.Leaf"].contains(&name.as_str()) {
            let t: Vec<Vec<u8>> = if c.thorough { plain.iter().take(140).cloned().collect() } else { plain.iter().take(60).cloned().collect() };
            let n = t.len().pow(3);
            let make = |i: usize| -> Vec<u8> { [&t[i % t.len()][..], &t[i / t.len() % t.len()][..], &t[i / t.len() / t.len()][..]].concat() };
            c.par(
                n,
                |i| format!("{name} bytes {}", hex(&make(i))),
                |i| {
                    let x = make(i);
                    check_decode(&b, ty, &x)?;
                    c.step(1);
                    c.trace(1);
                    Ok(())
                },
            );
            c.states_add(n as u64);
        }
    }
    // 4. sub-message payloads: every record and pair inside each message, group and map-entry position
    for (outer, num) in [("t3.Rec", 2u32), ("t3.Rec", 3), ("t3.Rec", 5), ("t2.Gr", 16), ("t2.By", 3), ("t3.Tx", 4)] {
        let ty = b.s.msg(outer);
        let f = b.s.msgs[ty].get(num).unwrap();
        let inner = tokens(&b.s, f.ty.msg().unwrap(), true);
        c.par(
            inner.len() * 4,
            |i| format!("{outer}.{} payload {}", f.name, hex(&inner[i / 4])),
            |i| {
                let p = &inner[i / 4];
                let mut x = vec![];
                if let Ty::Group(_) = f.ty {
                    wire::key(num, 3, &mut x);
                    x.extend(p);
                    wire::key(num, 4, &mut x);
                } else {
                    wire::key(num, 2, &mut x);
                    // exact, short, long and zero lengths
                    let len = match i % 4 {
                        0 => p.len(),
                        1 => p.len() + 1,
                        2 => p.len().saturating_sub(1),
                        _ => p.len() * 2,
                    };
                    wire::varint(len as u64, 0, &mut x);
                    x.extend(p);
                    if i % 4 == 3 {
                        x.extend(p);
                    }
                }
                c.state(&(ty, &x));
                check_decode(&b, ty, &x)?;
                c.step(1);
                c.trace(1);
                Ok(())
            },
        );
    }
    // map entries: every sequence of up to three of their parts, unknown fields of each wire type among them
    let foreign: &[&[u8]] = &[
        b"\x18\x05",
        b"\x19\0\0\0\0\0\0\0\x01",
        b"\x1a\x02\x08\x01",
        b"\x1d\0\0\0\x01",
        b"\x1b\x1c",
        b"\x1b\x08\x05\x12\x01x\x1c",
        b"\x1b\x23\x24\x1b\x1c\x1c",
        b"\xfb\xff\xff\xff\x0f\xfc\xff\xff\xff\x0f",
        b"\x1b\x24", // another group ends
        b"\x1b",     // no end
        b"\x1c",     // no start
        b"\x0c",
        b"\x1e\x01",
        b"\x1f",
        b"\x00\x01",
        b"\x1a\x05x",
        b"\x18",
        b"\x18\xff\xff\xff\xff\xff\xff\xff\xff\xff\x02",
    ];
    for &ty in &names {
        for f in b.s.msgs[ty].all() {
            let Some((kf, vf)) = b.s.map_kv(f) else { continue };
            let mut u = Uni::new(&b.s);
            let mut parts: Vec<Vec<u8>> = foreign.iter().map(|p| p.to_vec()).collect();
            for (x, n) in [(kf, 3), (vf, 3)] {
                for v in u.alpha(x.ty, Lvl::Small).iter().take(n) {
                    let mut p = vec![];
                    wire::enc_field(&b.s, x, v, &Enc::default(), &mut p);
                    parts.push(p);
                }
                for (w, p) in [(0u32, &b"\x01"[..]), (1, b"\0\0\0\0\0\0\0\x01"), (2, b"\x01\x01"), (3, b""), (5, b"\x01\0\0\0")] {
                    let mut r = vec![];
                    wire::key(x.num, w, &mut r);
                    r.extend(p);
                    if w == 3 {
                        wire::key(x.num, 4, &mut r);
                    }
                    parts.push(r);
                }
            }
            let n = parts.len() + 1;
            let make = |i: usize| -> Vec<u8> {
                let mut e = Vec::<u8>::new();
                for d in [i % n, i / n % n, i / n / n] {
                    if d > 0 {
                        e.extend(&parts[d - 1]);
                    }
                }
                let mut x = vec![];
                wire::key(f.num, 2, &mut x);
                wire::varint(e.len() as u64, 0, &mut x);
                x.extend(e);
                x
            };
            c.par(
                n * n * n,
                |i| format!("{}.{} bytes {}", b.s.msgs[ty].name, f.name, hex(&make(i))),
                |i| {
                    let x = make(i);
                    check_decode(&b, ty, &x)?;
                    c.step(1);
                    c.trace(1);
                    Ok(())
                },
            );
            c.states_add((n * n * n) as u64);
        }
    }
    c.param("parts of map entries", format!("all sequences of up to 3 of {} and of the entry's own", foreign.len()));
    // nesting: chains of every kind of sub-message, at each depth well below the limit
    for (outer, nums) in [("t3.Rec", &[2u32, 3, 4, 5][..]), ("t2.Gr", &[16]), ("t2.By", &[3]), ("t3.Tx", &[4, 6]), ("t3.Leaf", &[9])] {
        let ty = b.s.msg(outer);
        for &num in nums {
            c.par(
                90,
                |i| format!("{outer} field {num} nested {i} deep"),
                |i| {
                    if outer == "t3.Rec" && num == 4 && i > 45 {
                        return Ok(()); // an entry is a level of its own
                    }
                    let mut x: Vec<u8> = if outer == "t2.Gr" { vec![0x30, 7] } else { vec![0x08, 7] };
                    for _ in 0..i {
                        let mut y = vec![];
                        match b.s.msgs[ty].get(num) {
                            Some(f) if b.s.map_kv(f).is_some() => {
                                let mut e = b"\x0a\x01k\x12".to_vec();
                                wire::varint(x.len() as u64, 0, &mut e);
                                e.extend(&x);
                                wire::key(num, 2, &mut y);
                                wire::varint(e.len() as u64, 0, &mut y);
                                y.extend(e);
                            }
                            Some(Field { ty: Ty::Msg(_), .. }) => {
                                wire::key(num, 2, &mut y);
                                wire::varint(x.len() as u64, 0, &mut y);
                                y.extend(&x);
                            }
                            Some(_) if outer == "t2.By" => {
                                // group H { By b = 1 }
                                let mut e = b"\x0a".to_vec();
                                wire::varint(x.len() as u64, 0, &mut e);
                                e.extend(&x);
                                wire::key(num, 3, &mut y);
                                y.extend(e);
                                wire::key(num, 4, &mut y);
                                if i > 45 {
                                    return Ok(());
                                }
                            }
                            _ => {
                                wire::key(num, 3, &mut y);
                                y.extend(&x);
                                wire::key(num, 4, &mut y);
                            }
                        }
                        x = y;
                    }
                    let case = |e: String| format!("{e} (depth {i})");
                    if !check_decode(&b, ty, &x).map_err(case)? {
                        return Err("harness: chain is malformed".into());
                    }
                    c.state(&(ty, &x));
                    c.step(1);
                    c.trace(1);
                    Ok(())
                },
            );
        }
    }
    // 5. every style of encoder
    let u = universe(c, &b, true);
    let styles: Vec<Enc> = (0..256u32)
        .filter(|i| c.thorough || i.count_ones() <= 1 || *i == 255)
        .map(|i| Enc {
            flip_packed: i & 1 != 0,
            split_packed: i & 2 != 0,
            desc: i & 4 != 0,
            unk_first: i & 8 != 0,
            pad: if i & 16 != 0 { 2 } else { 0 },
            defaults: i & 32 != 0,
            swap_entry: i & 64 != 0,
            split_msgs: i & 128 != 0,
        })
        .collect();
    let stride = c.pick(3, 2);
    let n = u.len() / stride;
    c.par(
        n,
        |i| show(&b.s, &u[i * stride]),
        |i| {
            let m = &u[i * stride];
            c.state(m);
            for o in &styles {
                if o.count() > 1 && (i % 16 != 0) {
                    continue;
                }
                let x = wire::enc(&b.s, m, o);
                let d = DynamicMessage::decode(b.md[m.ty].clone(), x.as_slice()).map_err(|e| format!("valid input refused: {e}; {o:?} {}", hex(&x)))?;
                eq(&b, "decode", &d, m).map_err(|e| format!("{e}; {o:?} {}", hex(&x)))?;
                c.step(1);
                c.trace(1);
            }
            Ok(())
        },
    );
}

impl Enc {
    fn count(&self) -> usize {
        [self.flip_packed, self.split_packed, self.desc, self.unk_first, self.pad > 0, self.defaults, self.swap_entry, self.split_msgs].iter().filter(|x| **x).count()
    }
}

/// A buffer handing out its content in pieces.
struct Pieces<'a>(Vec<&'a [u8]>);
impl Buf for Pieces<'_> {
    fn remaining(&self) -> usize {
        self.0.iter().map(|p| p.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.iter().find(|p| !p.is_empty()).copied().unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        for p in &mut self.0 {
            let k = n.min(p.len());
            *p = &p[k..];
            n -= k;
        }
        assert!(n == 0, "advanced past the end");
    }
}

pub fn w04(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    // 1. merging is concatenation: all pairs of records, all triples for small types
    for t in TYPES {
        let ty = s.msg(t);
        let toks: Vec<Vec<u8>> = tokens(s, ty, false).into_iter().filter(|x| wire::dec(s, ty, x).is_ok()).collect();
        let toks = &toks[..toks.len().min(c.pick(120, 220))];
        let n = toks.len() * toks.len();
        c.sample(|| format!("{t}: {} | {}", hex(&toks[0]), hex(&toks[toks.len() - 1])));
        c.par(
            n,
            |i| format!("{t}: {} then {}", hex(&toks[i / toks.len()]), hex(&toks[i % toks.len()])),
            |i| {
                let (x, y) = (&toks[i / toks.len()], &toks[i % toks.len()]);
                c.state(&(ty, x, y));
                let xy = [&x[..], &y[..]].concat();
                let want = wire::dec(s, ty, &xy).map_err(|e| format!("harness: {e:?}"))?;
                let mut d = DynamicMessage::decode(b.md[ty].clone(), x.as_slice()).map_err(|e| e.to_string())?;
                d.merge(y.as_slice()).map_err(|e| format!("merge refused: {e}"))?;
                eq(&b, "merge", &d, &want)?;
                // merging into a message built through the accessors
                let mut d2 = b.to_dyn(&wire::dec(s, ty, x).unwrap());
                let mut ld = vec![];
                wire::varint(y.len() as u64, 0, &mut ld);
                ld.extend(y);
                ld.extend(b"\xff\xffrest");
                let mut rd = ld.as_slice();
                d2.merge_length_delimited(&mut rd).map_err(|e| format!("merge_length_delimited refused: {e}"))?;
                if rd != b"\xff\xffrest" {
                    return Err(format!("merge_length_delimited left {} bytes, not 6", rd.len()));
                }
                eq(&b, "merge_length_delimited into a built message", &d2, &want)?;
                // encoding then merging on top of itself
                let both = DynamicMessage::decode(b.md[ty].clone(), xy.as_slice()).map_err(|e| e.to_string())?;
                eq(&b, "decode of the concatenation", &both, &want)?;
                let mut e = both.encode_to_vec();
                let once = e.clone();
                e.extend(&once);
                let mut d3 = both.clone();
                d3.merge(once.as_slice()).map_err(|e| e.to_string())?;
                eq(&b, "merging a message into its copy", &d3, &wire::dec(s, ty, &e).map_err(|e| format!("{e:?}"))?)?;
                eq(&b, "the original after its clone changed", &both, &want)?;
                // clear
                d.clear();
                eq(&b, "clear", &d, &Mv::new(ty))?;
                if d.encoded_len() != 0 {
                    return Err("a cleared message is not empty".into());
                }
                d.merge(y.as_slice()).map_err(|e| e.to_string())?;
                eq(&b, "merge after clear", &d, &wire::dec(s, ty, y).unwrap())?;
                c.step(6);
                c.trace(1);
                Ok(())
            },
        );
    }
    for t in ["t3.By", "t2.By", "t3.On", "t2.Gr", "t3.Fo", "t2.Fo", "t3.Leaf", "t3.Rec"] {
        let ty = s.msg(t);
        let toks: Vec<Vec<u8>> = tokens(s, ty, false).into_iter().filter(|x| wire::dec(s, ty, x).is_ok()).take(c.pick(30, 60)).collect();
        let k = toks.len();
        c.par(
            k * k * k,
            |i| format!("{t}: {} {} {}", hex(&toks[i / k / k]), hex(&toks[i / k % k]), hex(&toks[i % k])),
            |i| {
                let parts = [&toks[i / k / k], &toks[i / k % k], &toks[i % k]];
                let mut d = DynamicMessage::new(b.md[ty].clone());
                let mut all = vec![];
                for p in parts {
                    d.merge(p.as_slice()).map_err(|e| e.to_string())?;
                    all.extend(p);
                }
                c.state(&(ty, &all));
                eq(&b, "three merges", &d, &wire::dec(s, ty, &all).map_err(|e| format!("{e:?}"))?)?;
                c.step(3);
                c.trace(1);
                Ok(())
            },
        );
    }
    // 2. the pieces of the input buffer do not matter
    let mut u = Uni::new(s);
    u.unknown = true;
    let mut ms = vec![];
    for t in TYPES {
        ms.extend(u.singles(s.msg(t)));
        ms.extend(u.pairs(s.msg(t), Lvl::Tiny).into_iter().step_by(c.pick(20, 3)));
    }
    for t in ["t3.By", "t2.By", "t3.Rec", "t2.Gr"] {
        ms.extend(u.up_to(s.msg(t), 3).into_iter().step_by(c.pick(4, 1)));
    }
    for m in &mut ms {
        m.normalize(s);
        m.canon();
    }
    c.par(
        ms.len(),
        |i| show(s, &ms[i]),
        |i| {
            let m = &ms[i];
            let x = wire::enc(s, m, &Enc { pad: i % 2, ..Enc::default() });
            c.state(&(m, "cut"));
            let dec = |p: Pieces, cut: &dyn Fn() -> String| -> Result<(), String> {
                let d = no_panic("decode", || DynamicMessage::decode(b.md[m.ty].clone(), p))?.map_err(|e| format!("refused when cut {}: {e}", cut()))?;
                eq(&b, "decoded from pieces", &d, m).map_err(|e| format!("{e}; cut {}", cut()))?;
                c.step(1);
                c.trace(1);
                Ok(())
            };
            let cuts: Vec<usize> = if x.len() <= 80 { (0..=x.len()).collect() } else { (0..20).chain(x.len() - 20..=x.len()).collect() };
            for &k in &cuts {
                dec(Pieces(vec![&x[..k], &x[k..]]), &|| format!("at {k}"))?;
            }
            if x.len() <= c.pick(14, 30) {
                for &k in &cuts {
                    for &l in &cuts {
                        if k < l {
                            dec(Pieces(vec![&x[..k], &[], &x[k..l], &x[l..]]), &|| format!("at {k} and {l}"))?;
                        }
                    }
                }
            }
            if x.len() <= 400 {
                dec(Pieces(x.chunks(1).collect()), &|| "into bytes".into())?;
            }
            // malformed input cut anywhere is refused all the same
            if x.len() <= 80 && !x.is_empty() {
                for k in 1..x.len() {
                    let whole = wire::dec(s, m.ty, &x[..k]);
                    let p = Pieces(x[..k].chunks(1).collect());
                    let got = no_panic("decode", || DynamicMessage::decode(b.md[m.ty].clone(), p))?;
                    if got.is_ok() != whole.is_ok() {
                        return Err(format!("first {k} bytes in pieces: ok={} but should be ok={}", got.is_ok(), whole.is_ok()));
                    }
                    c.trace(1);
                }
            }
            Ok(())
        },
    );
}

fn prune(set: &prost_types::FileDescriptorSet, file: &str, msg: &str, keep: &dyn Fn(i32) -> bool) -> Vec<u8> {
    let mut set = set.clone();
    for f in &mut set.file {
        if f.name() == file {
            for m in &mut f.message_type {
                if m.name() == msg {
                    m.field.retain(|f| keep(f.number()));
                    // close gaps in oneofs
                    let used: Vec<i32> = (0..m.oneof_decl.len() as i32).filter(|o| m.field.iter().any(|f| f.oneof_index == Some(*o))).collect();
                    for f in &mut m.field {
                        if let Some(o) = f.oneof_index {
                            f.oneof_index = Some(used.iter().position(|u| *u == o).unwrap() as i32);
                        }
                    }
                    m.oneof_decl = used.iter().map(|u| m.oneof_decl[*u as usize].clone()).collect();
                }
            }
            f.extension.retain(|x| !x.extendee().ends_with(&format!(".{msg}")) || keep(x.number()));
            for m in &mut f.message_type {
                if m.name() == msg {
                    m.extension.retain(|x| keep(x.number()));
                }
            }
        }
    }
    set.encode_to_vec()
}

pub fn w05(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    let set = prost_types::FileDescriptorSet::decode(ALL_BIN).unwrap();
    // every subset of the fields of a message is an older schema
    let mut jobs: Vec<(&str, &str, &str, Vec<Vec<u32>>, Vec<Mv>)> = vec![];
    let subsets = |nums: &[u32]| -> Vec<Vec<u32>> { (0..1usize << nums.len()).map(|k| nums.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|x| *x.1).collect()).collect() };
    let mut u = Uni::new(s);
    u.unknown = true;
    let norm = |mut v: Vec<Mv>| {
        for m in &mut v {
            m.normalize(s);
            m.canon();
        }
        v
    };
    let nums = |t: &str| s.msgs[s.msg(t)].all().map(|f| f.num).collect::<Vec<_>>();
    for (t, file, w) in [("t3.Ev", "t3.proto", 2usize), ("t2.Gr", "t2.proto", 3), ("t3.Rec", "t3.proto", 3), ("t2.Fo", "t2.proto", 3), ("t2.By", "t2.proto", 3), ("t3.On", "t3.proto", 2), ("t3.Fo", "t3.proto", 2)] {
        let ty = s.msg(t);
        let ns = nums(t);
        let mut ms = u.up_to(ty, w + c.thorough as usize);
        ms.extend(u.singles(ty).into_iter().filter(|m| m.f.values().next().is_some_and(|v| v.depth() <= 3)));
        ms.extend(u.pairs(ty, Lvl::Small).into_iter().step_by(c.pick(4, 1)));
        let cap = c.pick(3000usize, 20000);
        let step = ms.len().div_ceil(cap);
        let ms: Vec<Mv> = ms.into_iter().step_by(step).collect();
        let subs = if ns.len() <= 8 { subsets(&ns) } else { ns.iter().map(|n| ns.iter().copied().filter(|x| x != n).collect()).chain(ns.iter().map(|n| vec![*n])).chain([vec![]]).collect() };
        jobs.push((t, file, t.split_once('.').unwrap().1, subs, norm(ms)));
    }
    for (t, file) in [("t3.Sc", "t3.proto"), ("t3.Op", "t3.proto"), ("t3.Rp", "t3.proto"), ("t3.Ru", "t3.proto"), ("t3.Mk", "t3.proto"), ("t3.Mv", "t3.proto"), ("t2.Ex", "t2.proto"), ("t2.Rp", "t2.proto"), ("t2.Pk", "t2.proto"), ("t3.Wk", "t3.proto"), ("t3.Nu", "t3.proto")] {
        let ty = s.msg(t);
        let ns = nums(t);
        let ms: Vec<Mv> = u.singles(ty).into_iter().chain(u.pairs(ty, Lvl::Tiny)).collect();
        let step = ms.len().div_ceil(c.pick(2500, 20000));
        let ms = ms.into_iter().step_by(step).collect();
        // drop nothing, everything, each field, every other
        let mut subs = vec![vec![], ns.clone(), ns.iter().copied().step_by(2).collect(), ns.iter().copied().skip(1).step_by(2).collect()];
        if c.thorough {
            subs.extend(ns.iter().map(|n| ns.iter().copied().filter(|x| x != n).collect::<Vec<_>>()));
        }
        jobs.push((t, file, t.split_once('.').unwrap().1, subs, norm(ms)));
    }
    for (t, file, short, subs, ms) in &jobs {
        let ty = s.msg(t);
        c.count(&format!("schemas of {t}"), subs.len() as u64);
        c.sample(|| format!("{t} read with fields {:?}", subs[subs.len() / 2]));
        // the older readers
        c.par(
            subs.len(),
            |i| format!("{t} with fields {:?}", subs[i]),
            |i| {
                let keep = &subs[i];
                let bytes = prune(&set, file, short, &|n| keep.contains(&(n as u32)));
                let old = Bind::new(&bytes);
                let oty = old.s.msg(t);
                // with 256 schemas a part of the messages for each, every message for some of them
                let stride = if c.thorough || subs.len() <= 64 { 1 } else { subs.len() / 64 };
                for (k, m) in ms.iter().enumerate() {
                    if (k + i) % stride != 0 {
                        continue;
                    }
                    let x = wire::enc(s, m, &Enc::default());
                    let want_old = wire::dec(&old.s, oty, &x).map_err(|e| format!("harness: {e:?}"))?;
                    let case = || format!("message {}", show(s, m));
                    let mut d = DynamicMessage::decode(old.md[oty].clone(), x.as_slice()).map_err(|e| format!("{}: the older reader refuses: {e}", case()))?;
                    c.state(&(i, m));
                    eq(&old, "as seen by the older reader", &d, &want_old).map_err(|e| format!("{e}; {}", case()))?;
                    let back = wire::dec(s, ty, &d.encode_to_vec()).map_err(|e| format!("re-encoded output is malformed ({e:?}); {}", case()))?;
                    if back != *m {
                        return Err(format!("passing through the older reader changed {} into {}", show(s, m), show(s, &back)));
                    }
                    if d.encode_to_vec().len() != d.encoded_len() {
                        return Err(format!("encoded_len is wrong; {}", case()));
                    }
                    // other fields being changed does not lose unknown fields
                    let cl = d.clone();
                    for f in old.s.msgs[oty].all() {
                        match &old.fd[oty][&f.num] {
                            crate::value::FX::F(x) => d.clear_field(x),
                            crate::value::FX::X(x) => d.clear_extension(x),
                        }
                    }
                    let mut only = Mv::new(oty);
                    only.unk = want_old.unk.clone();
                    eq(&old, "unknown fields after clearing known ones", &d, &only).map_err(|e| format!("{e}; {}", case()))?;
                    let got = wire::dec(&old.s, oty, &cl.encode_to_vec()).map_err(|e| format!("{e:?}"))?;
                    if got != want_old {
                        return Err(format!("a clone encodes to {}", show(&old.s, &got)));
                    }
                    // draining
                    let taken: Vec<_> = d.take_unknown_fields().collect();
                    let mut raw = vec![];
                    for t in &taken {
                        t.encode(&mut raw);
                    }
                    let mut t2 = wire::dec_unknown(&raw).ok_or("taken unknown fields do not parse")?;
                    t2.sort_by_key(|u| u.num);
                    if t2 != want_old.unk {
                        return Err(format!("take_unknown_fields yields {t2:?}, not {:?}; {}", want_old.unk, case()));
                    }
                    if d.unknown_fields().next().is_some() || d.encoded_len() != 0 {
                        return Err(format!("unknown fields remain after taking them; {}", case()));
                    }
                    // the drained message is filled again, twice, through a clone
                    let mut e = d.clone();
                    for (n, o) in [(1, &mut d), (2, &mut e)] {
                        for _ in 0..n {
                            o.merge(x.as_slice()).map_err(|e| format!("merging into a drained message: {e}; {}", case()))?;
                        }
                        let xs = x.repeat(n);
                        let want = wire::dec(&old.s, oty, &xs).map_err(|e| format!("harness: {e:?}"))?;
                        eq(&old, "merged into a drained message", o, &want).map_err(|e| format!("{e}; {}", case()))?;
                        let again = wire::dec(&old.s, oty, &o.encode_to_vec()).map_err(|e| format!("{e:?}; {}", case()))?;
                        if again != want || o.encoded_len() != o.encode_to_vec().len() {
                            return Err(format!("the encoding after merging into a drained message means {}; {}", show(&old.s, &again), case()));
                        }
                    }
                    c.step(8);
                    c.trace(1);
                }
                Ok(())
            },
        );
    }
    // unknown fields by themselves: UnknownField::decode / encode on every kind of record
    let empty = s.msg("t3.Leaf");
    let us = crate::uni::unknowns_full(&s.msgs[empty]);
    let n = us.len();
    c.par(
        n * n,
        |i| format!("{:?} {:?}", us[i / n], us[i % n]),
        |i| {
            let (x, y) = (&us[i / n], &us[i % n]);
            let mut one = vec![];
            wire::enc_unknown(std::slice::from_ref(x), &mut one);
            let mut both = one.clone();
            wire::enc_unknown(std::slice::from_ref(y), &mut both);
            let mut rd = both.as_slice();
            let f = prost_reflect::UnknownField::decode(&mut rd, Default::default()).map_err(|e| e.to_string())?;
            if both.len() - rd.len() != one.len() {
                return Err(format!("UnknownField::decode consumed {} bytes, not {}", both.len() - rd.len(), one.len()));
            }
            let mut out = vec![];
            f.encode(&mut out);
            if out != one || f.encoded_len() != one.len() || f.number() != x.num || f.wire_type() as u32 != x.wire() {
                return Err(format!("an unknown field {} was read back as {}", hex(&one), hex(&out)));
            }
            // interleaved with known fields, and nested in a group of the same number
            let mut m = Mv::new(empty).with(1, V::I32(5));
            m.unk = vec![x.clone(), y.clone(), x.clone()];
            m.unk.push(Unk { num: x.num, val: UV::Grp(vec![x.clone(), y.clone()]) });
            let mut stream = vec![];
            wire::enc_unknown(&m.unk[..2], &mut stream);
            stream.extend(b"\x08\x05");
            wire::enc_unknown(&m.unk[2..], &mut stream);
            m.canon();
            let d = DynamicMessage::decode(b.md[empty].clone(), stream.as_slice()).map_err(|e| e.to_string())?;
            eq(&b, "unknown fields around a known one", &d, &m)?;
            let back = wire::dec(s, empty, &d.encode_to_vec()).map_err(|e| format!("{e:?}"))?;
            if back != m {
                return Err(format!("re-encoded as {}", show(s, &back)));
            }
            c.state(&stream);
            c.step(3);
            c.trace(1);
            Ok(())
        },
    );
}

#[allow(unused)]
fn unused(_: &Field, _: &DescriptorPool, d: &DynamicMessage) {
    let _ = d.descriptor();
}
