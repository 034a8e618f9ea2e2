//! Reference protobuf wire format: an encoder with the freedom the specification gives to
//! encoders, and a decoder. Written from the specification, independent of prost.
use crate::schema::{Card, Field, Schema, Ty};
use crate::value::{Mv, Unk, UV, V};
use std::collections::BTreeMap;

pub fn varint(mut v: u64, pad: usize, out: &mut Vec<u8>) {
    let mut n = 0;
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        n += 1;
        if v == 0 && n > pad {
            out.push(b);
            return;
        }
        if v == 0 && n >= 10 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn key(num: u32, wire: u32, out: &mut Vec<u8>) {
    varint(((num as u64) << 3) | wire as u64, 0, out);
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Enc {
    /// write packed fields unpacked and the other way round
    pub flip_packed: bool,
    /// split a packed list into one record per element
    pub split_packed: bool,
    /// fields in descending number order
    pub desc: bool,
    /// unknown fields first
    pub unk_first: bool,
    /// superfluous continuation bytes in varints
    pub pad: usize,
    /// write out zero values of unset fields without presence, and map entry defaults
    pub defaults: bool,
    /// value before key in map entries
    pub swap_entry: bool,
    /// split every singular message into one record per field
    pub split_msgs: bool,
}

fn zz32(i: i32) -> u32 {
    ((i << 1) ^ (i >> 31)) as u32
}
fn zz64(i: i64) -> u64 {
    ((i << 1) ^ (i >> 63)) as u64
}

fn scalar(ty: Ty, v: &V, pad: usize, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Double, V::F64(b)) => out.extend(b.to_le_bytes()),
        (Ty::Float, V::F32(b)) => out.extend(b.to_le_bytes()),
        (Ty::Int32, V::I32(i)) | (Ty::Enum(_), V::E(i)) => varint(*i as i64 as u64, pad, out),
        (Ty::Int64, V::I64(i)) => varint(*i as u64, pad, out),
        (Ty::Uint32, V::U32(i)) => varint(*i as u64, pad, out),
        (Ty::Uint64, V::U64(i)) => varint(*i, pad, out),
        (Ty::Sint32, V::I32(i)) => varint(zz32(*i) as u64, pad, out),
        (Ty::Sint64, V::I64(i)) => varint(zz64(*i), pad, out),
        (Ty::Fixed32, V::U32(i)) => out.extend(i.to_le_bytes()),
        (Ty::Fixed64, V::U64(i)) => out.extend(i.to_le_bytes()),
        (Ty::Sfixed32, V::I32(i)) => out.extend(i.to_le_bytes()),
        (Ty::Sfixed64, V::I64(i)) => out.extend(i.to_le_bytes()),
        (Ty::Bool, V::B(b)) => varint(*b as u64, pad, out),
        (Ty::String, V::S(s)) => {
            varint(s.len() as u64, pad, out);
            out.extend(s.as_bytes());
        }
        (Ty::Bytes, V::Y(s)) => {
            varint(s.len() as u64, pad, out);
            out.extend(s);
        }
        _ => panic!("harness: {ty:?} {v:?}"),
    }
}

fn single(s: &Schema, num: u32, ty: Ty, v: &V, o: &Enc, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Msg(_), V::M(m)) => {
            key(num, 2, out);
            let b = enc(s, m, o);
            varint(b.len() as u64, o.pad, out);
            out.extend(b);
        }
        (Ty::Group(_), V::M(m)) => {
            key(num, 3, out);
            out.extend(enc(s, m, o));
            key(num, 4, out);
        }
        _ => {
            key(num, ty.wire(), out);
            scalar(ty, v, o.pad, out);
        }
    }
}

pub fn enc_field(s: &Schema, f: &Field, v: &V, o: &Enc, out: &mut Vec<u8>) {
    if let (Some((kf, vf)), V::Map(m)) = (s.map_kv(f), v) {
        for (k, v) in m {
            let mut e = vec![];
            let skip = |f: &Field, v: &V| !o.defaults && s.zero(f.ty) == *v && f.ty.msg().is_none();
            if o.swap_entry && !skip(vf, v) {
                single(s, 2, vf.ty, v, o, &mut e);
            }
            if !skip(kf, k) {
                single(s, 1, kf.ty, k, o, &mut e);
            }
            if !o.swap_entry && !skip(vf, v) {
                single(s, 2, vf.ty, v, o, &mut e);
            }
            key(f.num, 2, out);
            varint(e.len() as u64, o.pad, out);
            out.extend(e);
        }
    } else if let V::L(l) = v {
        if f.ty.packable() && f.packed != o.flip_packed {
            let chunk = if o.split_packed { 1 } else { l.len().max(1) };
            for c in l.chunks(chunk) {
                let mut e = vec![];
                for v in c {
                    scalar(f.ty, v, o.pad, &mut e);
                }
                key(f.num, 2, out);
                varint(e.len() as u64, o.pad, out);
                out.extend(e);
            }
        } else {
            for v in l {
                single(s, f.num, f.ty, v, o, out);
            }
        }
    } else {
        match v {
            V::M(m) if o.split_msgs && m.f.len() + m.unk.len() > 1 => {
                let o = &Enc { defaults: false, ..*o };
                for (n, v) in &m.f {
                    let mut p = Mv::new(m.ty);
                    p.f.insert(*n, v.clone());
                    single(s, f.num, f.ty, &V::M(Box::new(p)), o, out);
                }
                for u in &m.unk {
                    let mut p = Mv::new(m.ty);
                    p.unk.push(u.clone());
                    single(s, f.num, f.ty, &V::M(Box::new(p)), o, out);
                }
            }
            _ => single(s, f.num, f.ty, v, o, out),
        }
    }
}

pub fn enc(s: &Schema, m: &Mv, o: &Enc) -> Vec<u8> {
    let mut out = vec![];
    let md = &s.msgs[m.ty];
    if o.unk_first {
        enc_unknown(&m.unk, &mut out);
    }
    let mut fs: Vec<&Field> = md.all().collect();
    if o.desc {
        fs.reverse();
    }
    for f in fs {
        match m.f.get(&f.num) {
            Some(v) => enc_field(s, f, v, o, &mut out),
            None if o.defaults && !f.presence && f.card != Card::Rep => {
                enc_field(s, f, &s.zero(f.ty), o, &mut out)
            }
            None => {}
        }
    }
    if !o.unk_first {
        enc_unknown(&m.unk, &mut out);
    }
    out
}

pub fn enc_unknown(us: &[Unk], out: &mut Vec<u8>) {
    for u in us {
        key(u.num, u.wire(), out);
        match &u.val {
            UV::Var(v) => varint(*v, 0, out),
            UV::W32(b) => out.extend(b),
            UV::W64(b) => out.extend(b),
            UV::Len(b) => {
                varint(b.len() as u64, 0, out);
                out.extend(b);
            }
            UV::Grp(g) => {
                enc_unknown(g, out);
                key(u.num, 4, out);
            }
        }
    }
}

/// Nesting levels (messages and groups) below the top level, at which decoding must succeed; a
/// deeper input may be refused, see `Depth`.
pub const MAX_DEPTH: usize = 100;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Bad {
    /// malformed: must be rejected
    Malformed,
    /// nested too deeply: the specification leaves the limit to implementations
    Depth,
}
type R<T> = Result<T, Bad>;
use Bad::*;

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn byte(&mut self) -> R<u8> {
        let (b, r) = self.0.split_first().ok_or(Malformed)?;
        self.0 = r;
        Ok(*b)
    }
    fn varint(&mut self) -> R<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = self.byte()?;
            if i == 9 && b > 1 {
                return Err(Malformed);
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b < 0x80 {
                return Ok(v);
            }
        }
        Err(Malformed)
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > self.0.len() as u64 {
            return Err(Malformed);
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Ok(a)
    }
    fn len(&mut self) -> R<&'a [u8]> {
        let n = self.varint()?;
        self.take(n)
    }
    fn key(&mut self) -> R<(u32, u32)> {
        let k = self.varint()?;
        if k > u32::MAX as u64 {
            return Err(Malformed);
        }
        let (n, w) = ((k >> 3) as u32, (k & 7) as u32);
        if n == 0 || w > 5 {
            return Err(Malformed);
        }
        Ok((n, w))
    }
    fn scalar(&mut self, ty: Ty) -> R<V> {
        let a4 = |s: &[u8]| <[u8; 4]>::try_from(s).unwrap();
        let a8 = |s: &[u8]| <[u8; 8]>::try_from(s).unwrap();
        Ok(match ty {
            Ty::Double => V::F64(u64::from_le_bytes(a8(self.take(8)?))),
            Ty::Float => V::F32(u32::from_le_bytes(a4(self.take(4)?))),
            Ty::Int32 => V::I32(self.varint()? as i32),
            Ty::Enum(_) => V::E(self.varint()? as i32),
            Ty::Int64 => V::I64(self.varint()? as i64),
            Ty::Uint32 => V::U32(self.varint()? as u32),
            Ty::Uint64 => V::U64(self.varint()?),
            Ty::Sint32 => {
                let n = self.varint()? as u32;
                V::I32((n >> 1) as i32 ^ -((n & 1) as i32))
            }
            Ty::Sint64 => {
                let n = self.varint()?;
                V::I64((n >> 1) as i64 ^ -((n & 1) as i64))
            }
            Ty::Fixed32 => V::U32(u32::from_le_bytes(a4(self.take(4)?))),
            Ty::Fixed64 => V::U64(u64::from_le_bytes(a8(self.take(8)?))),
            Ty::Sfixed32 => V::I32(i32::from_le_bytes(a4(self.take(4)?))),
            Ty::Sfixed64 => V::I64(i64::from_le_bytes(a8(self.take(8)?))),
            Ty::Bool => V::B(self.varint()? != 0),
            Ty::String => V::S(String::from_utf8(self.len()?.to_vec()).map_err(|_| Malformed)?),
            Ty::Bytes => V::Y(self.len()?.to_vec()),
            Ty::Msg(_) | Ty::Group(_) => unreachable!(),
        })
    }
    fn unknown(&mut self, num: u32, wire: u32, depth: usize) -> R<Unk> {
        let val = match wire {
            0 => UV::Var(self.varint()?),
            1 => UV::W64(self.take(8)?.try_into().unwrap()),
            2 => UV::Len(self.len()?.to_vec()),
            5 => UV::W32(self.take(4)?.try_into().unwrap()),
            3 => {
                if depth >= MAX_DEPTH {
                    return Err(Depth);
                }
                let mut g = vec![];
                loop {
                    let (n, w) = self.key()?;
                    if w == 4 {
                        if n != num {
                            return Err(Malformed);
                        }
                        break;
                    }
                    g.push(self.unknown(n, w, depth + 1)?);
                }
                UV::Grp(g)
            }
            _ => return Err(Malformed),
        };
        Ok(Unk { num, val })
    }
}

/// Merges the encoded fields into `m`. Zero values of fields without presence are kept: normalize.
pub fn dec_into(s: &Schema, m: &mut Mv, b: &[u8]) -> R<()> {
    let mut r = Rd(b);
    body(s, m, &mut r, None, 0)
}

pub fn dec(s: &Schema, ty: usize, b: &[u8]) -> R<Mv> {
    let mut m = Mv::new(ty);
    dec_into(s, &mut m, b)?;
    m.normalize(s);
    m.canon();
    Ok(m)
}

fn body(s: &Schema, m: &mut Mv, r: &mut Rd, group: Option<u32>, depth: usize) -> R<()> {
    if depth > MAX_DEPTH {
        return Err(Depth);
    }
    loop {
        if r.0.is_empty() {
            return if group.is_some() { Err(Malformed) } else { Ok(()) };
        }
        let (n, w) = r.key()?;
        if w == 4 {
            return if group == Some(n) { Ok(()) } else { Err(Malformed) };
        }
        field(s, m, r, n, w, depth)?;
    }
}

fn field(s: &Schema, m: &mut Mv, r: &mut Rd, n: u32, w: u32, depth: usize) -> R<()> {
    let md = &s.msgs[m.ty];
    let Some(f) = md.get(n) else {
        let u = r.unknown(n, w, depth)?;
        m.unk.push(u);
        return Ok(());
    };
    if let Some((kf, vf)) = s.map_kv(f) {
        if w != 2 {
            return Err(Malformed);
        }
        let b = r.len()?;
        if depth >= MAX_DEPTH {
            return Err(Depth);
        }
        let mut e = Rd(b);
        let mut tmp = Mv::new(match f.ty {
            Ty::Msg(m) => m,
            _ => unreachable!(),
        });
        while !e.0.is_empty() {
            let (n, w) = e.key()?;
            field(s, &mut tmp, &mut e, n, w, depth + 1)?;
        }
        let k = tmp.f.remove(&1).unwrap_or_else(|| s.default_of(kf));
        let v = tmp.f.remove(&2).unwrap_or_else(|| s.default_of(vf));
        let e = m.f.entry(n).or_insert_with(|| V::Map(BTreeMap::new()));
        match e {
            V::Map(m) => m.insert(k, v),
            _ => unreachable!(),
        };
        return Ok(());
    }
    if f.card == Card::Rep {
        if w == 2 && f.ty.packable() {
            let mut p = Rd(r.len()?);
            let mut vs = vec![];
            while !p.0.is_empty() {
                vs.push(p.scalar(f.ty)?);
            }
            list(m, n).extend(vs);
            return Ok(());
        }
        if w != f.ty.wire() {
            return Err(Malformed);
        }
        let v = match f.ty {
            Ty::Msg(t) | Ty::Group(t) => {
                let mut c = Mv::new(t);
                sub(s, &mut c, f, r, depth)?;
                V::M(Box::new(c))
            }
            t => r.scalar(t)?,
        };
        list(m, n).push(v);
        return Ok(());
    }
    if w != f.ty.wire() {
        return Err(Malformed);
    }
    let v = match f.ty {
        Ty::Msg(t) | Ty::Group(t) => {
            let mut c = match m.f.remove(&n) {
                Some(V::M(c)) => *c,
                _ => Mv::new(t),
            };
            sub(s, &mut c, f, r, depth)?;
            V::M(Box::new(c))
        }
        t => r.scalar(t)?,
    };
    if let Some(o) = f.oneof {
        for g in &md.oneofs[o].fields {
            m.f.remove(g);
        }
    }
    m.f.insert(n, v);
    Ok(())
}

fn sub(s: &Schema, c: &mut Mv, f: &Field, r: &mut Rd, depth: usize) -> R<()> {
    match f.ty {
        Ty::Msg(_) => {
            let b = r.len()?;
            body(s, c, &mut Rd(b), None, depth + 1)
        }
        _ => body(s, c, r, Some(f.num), depth + 1),
    }
}

fn list(m: &mut Mv, n: u32) -> &mut Vec<V> {
    match m.f.entry(n).or_insert_with(|| V::L(vec![])) {
        V::L(l) => l,
        _ => unreachable!(),
    }
}

pub fn dec_unknown(b: &[u8]) -> Option<Vec<Unk>> {
    let mut r = Rd(b);
    let mut out = vec![];
    while !r.0.is_empty() {
        let (n, w) = r.key().ok()?;
        out.push(r.unknown(n, w, 0).ok()?);
    }
    Some(out)
}

/// Top-level records as (number, wire type, whole record bytes).
pub fn records(b: &[u8]) -> Option<Vec<(u32, u32, Vec<u8>)>> {
    let mut r = Rd(b);
    let mut out = vec![];
    while !r.0.is_empty() {
        let start = r.0;
        let (n, w) = r.key().ok()?;
        r.unknown(n, w, 0).ok()?;
        out.push((n, w, start[..start.len() - r.0.len()].to_vec()));
    }
    Some(out)
}
