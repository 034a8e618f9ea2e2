//! Reference values, and conversion to and from the real DynamicMessage through its public API.
use crate::schema::{Card, Field, Schema, Ty};
use prost_reflect::{
    DescriptorPool, DynamicMessage, ExtensionDescriptor, FieldDescriptor, MapKey,
    MessageDescriptor, Value,
};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    B(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    S(String),
    Y(Vec<u8>),
    E(i32),
    M(Box<Mv>),
    L(Vec<V>),
    Map(BTreeMap<V, V>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mv {
    pub ty: usize,
    /// Only fields which are set: with presence, or not equal to their default.
    pub f: BTreeMap<u32, V>,
    /// In wire order.
    pub unk: Vec<Unk>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Unk {
    pub num: u32,
    pub val: UV,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum UV {
    Var(u64),
    W32([u8; 4]),
    W64([u8; 8]),
    Len(Vec<u8>),
    Grp(Vec<Unk>),
}

impl Mv {
    pub fn new(ty: usize) -> Mv {
        Mv {
            ty,
            f: BTreeMap::new(),
            unk: vec![],
        }
    }
    pub fn with(mut self, num: u32, v: V) -> Mv {
        self.f.insert(num, v);
        self
    }
    /// Unknown fields in a canonical order: by number, wire order within a number.
    pub fn canon(&mut self) {
        self.unk.sort_by_key(|u| u.num);
        for v in self.f.values_mut() {
            v.canon();
        }
    }
    /// Drops fields without presence which hold the zero value.
    pub fn normalize(&mut self, s: &Schema) {
        let m = &s.msgs[self.ty];
        self.f.retain(|n, v| {
            v.normalize(s);
            let f = m.get(*n).expect("field");
            if f.presence {
                true
            } else {
                !is_zero(v)
            }
        });
        self.unk.sort_by_key(|u| u.num);
    }
    pub fn depth(&self) -> usize {
        1 + self.f.values().map(V::depth).max().unwrap_or(0)
    }
    pub fn any_v(&self, p: &mut dyn FnMut(&V) -> bool) -> bool {
        self.f.values().any(|v| v.any(p))
    }
    pub fn has_unknown(&self) -> bool {
        !self.unk.is_empty()
            || self.any_v(&mut |v| match v {
                V::M(m) => !m.unk.is_empty(),
                _ => false,
            })
    }
}

pub fn is_zero(v: &V) -> bool {
    match v {
        V::B(b) => !b,
        V::I32(i) => *i == 0,
        V::I64(i) => *i == 0,
        V::U32(i) => *i == 0,
        V::U64(i) => *i == 0,
        V::F32(b) => f32::from_bits(*b) == 0.0,
        V::F64(b) => f64::from_bits(*b) == 0.0,
        V::S(s) => s.is_empty(),
        V::Y(s) => s.is_empty(),
        V::E(i) => *i == 0,
        V::M(_) => false,
        V::L(l) => l.is_empty(),
        V::Map(m) => m.is_empty(),
    }
}

impl V {
    pub fn canon(&mut self) {
        match self {
            V::F32(b) if f32::from_bits(*b).is_nan() => *b = f32::NAN.to_bits(),
            V::F64(b) if f64::from_bits(*b).is_nan() => *b = f64::NAN.to_bits(),
            V::M(m) => m.canon(),
            V::L(l) => l.iter_mut().for_each(V::canon),
            V::Map(m) => m.values_mut().for_each(|v| {
                // a negative zero counts as the default of a map value, as it does in prost
                match v {
                    V::F32(b) if *b == (-0.0f32).to_bits() => *b = 0,
                    V::F64(b) if *b == (-0.0f64).to_bits() => *b = 0,
                    _ => v.canon(),
                }
            }),
            _ => {}
        }
    }
    pub fn normalize(&mut self, s: &Schema) {
        match self {
            V::M(m) => m.normalize(s),
            V::L(l) => l.iter_mut().for_each(|v| v.normalize(s)),
            V::Map(m) => m.values_mut().for_each(|v| v.normalize(s)),
            _ => {}
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::M(m) => m.depth(),
            V::L(l) => l.iter().map(V::depth).max().unwrap_or(0),
            V::Map(m) => m.values().map(V::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn any(&self, p: &mut dyn FnMut(&V) -> bool) -> bool {
        if p(self) {
            return true;
        }
        match self {
            V::M(m) => m.f.values().any(|v| v.any(p)),
            V::L(l) => l.iter().any(|v| v.any(p)),
            V::Map(m) => m.iter().any(|(k, v)| k.any(p) || v.any(p)),
            _ => false,
        }
    }
}

/// The descriptors of the real pool which correspond to the reference schema.
pub struct Bind {
    pub s: Schema,
    pub pool: DescriptorPool,
    pub md: Vec<MessageDescriptor>,
    pub fd: Vec<BTreeMap<u32, FX>>,
}

#[derive(Clone, Debug)]
pub enum FX {
    F(FieldDescriptor),
    X(ExtensionDescriptor),
}

impl Bind {
    pub fn new(bytes: &[u8]) -> Bind {
        let pool = DescriptorPool::decode(bytes).expect("descriptor pool of the test schema");
        Bind::with_pool(Schema::parse(bytes), pool)
    }

    pub fn with_pool(s: Schema, pool: DescriptorPool) -> Bind {
        let md: Vec<_> = s
            .msgs
            .iter()
            .map(|m| pool.get_message_by_name(&m.name).expect("message lookup by name"))
            .collect();
        let fd = s
            .msgs
            .iter()
            .zip(&md)
            .map(|(m, d)| {
                m.all()
                    .map(|f| {
                        let x = if f.ext {
                            FX::X(pool.get_extension_by_name(&f.full).expect("extension lookup"))
                        } else {
                            FX::F(d.get_field_by_name(&f.name).expect("field lookup"))
                        };
                        (f.num, x)
                    })
                    .collect()
            })
            .collect();
        Bind { s, pool, md, fd }
    }

    pub fn desc(&self, name: &str) -> MessageDescriptor {
        self.md[self.s.msg(name)].clone()
    }

    pub fn to_dyn(&self, m: &Mv) -> DynamicMessage {
        let mut d = DynamicMessage::new(self.md[m.ty].clone());
        for (n, v) in &m.f {
            let val = self.to_value(v);
            match &self.fd[m.ty][n] {
                FX::F(f) => d.set_field(f, val),
                FX::X(x) => d.set_extension(x, val),
            }
        }
        if !m.unk.is_empty() {
            let mut b = vec![];
            crate::wire::enc_unknown(&m.unk, &mut b);
            prost::Message::merge(&mut d, b.as_slice()).expect("merging unknown fields");
        }
        d
    }

    pub fn to_value(&self, v: &V) -> Value {
        match v {
            V::B(b) => Value::Bool(*b),
            V::I32(i) => Value::I32(*i),
            V::I64(i) => Value::I64(*i),
            V::U32(i) => Value::U32(*i),
            V::U64(i) => Value::U64(*i),
            V::F32(b) => Value::F32(f32::from_bits(*b)),
            V::F64(b) => Value::F64(f64::from_bits(*b)),
            V::S(s) => Value::String(s.clone()),
            V::Y(y) => Value::Bytes(y.clone().into()),
            V::E(e) => Value::EnumNumber(*e),
            V::M(m) => Value::Message(self.to_dyn(m)),
            V::L(l) => Value::List(l.iter().map(|v| self.to_value(v)).collect()),
            V::Map(m) => Value::Map(
                m.iter()
                    .map(|(k, v)| (to_key(k), self.to_value(v)))
                    .collect(),
            ),
        }
    }

    /// Reads a message back through the accessors. An error describes an inconsistency.
    pub fn from_dyn(&self, d: &DynamicMessage) -> Result<Mv, String> {
        let name = prost_reflect::ReflectMessage::descriptor(d);
        let ty = match self.s.names.get(name.full_name()) {
            Some(Ty::Msg(t)) => *t,
            _ => return Err(format!("message of unexpected type {}", name.full_name())),
        };
        self.from_dyn_ty(d, ty)
    }

    pub fn from_dyn_ty(&self, d: &DynamicMessage, ty: usize) -> Result<Mv, String> {
        let m = &self.s.msgs[ty];
        let mut out = Mv::new(ty);
        for f in m.all() {
            let (has, val) = match &self.fd[ty][&f.num] {
                FX::F(x) => (d.has_field(x), d.get_field(x)),
                FX::X(x) => (d.has_extension(x), d.get_extension(x)),
            };
            if has {
                out.f.insert(f.num, self.from_value(&val, f)?);
            } else if out.f.is_empty() || f.presence {
                // unset fields read as their default
                if let (Value::Message(e), Some(t)) = (val.as_ref(), f.ty.msg()) {
                    if f.card != Card::Rep {
                        let d = prost_reflect::ReflectMessage::descriptor(e);
                        if d.full_name() != self.s.msgs[t].name || prost::Message::encoded_len(e) != 0 {
                            return Err(format!("unset field {} does not read as an empty message", f.full));
                        }
                        continue;
                    }
                }
                let got = self.from_value(&val, f)?;
                let mut want = self.s.default_of(f);
                want.canon();
                let mut g2 = got.clone();
                g2.canon();
                if g2 != want && !(!f.presence && is_zero(&got) && is_zero(&want)) {
                    return Err(format!(
                        "unset field {} reads as {:?}, its default is {:?}",
                        f.full, got, want
                    ));
                }
            }
        }
        let mut nf = 0;
        for (x, v) in d.fields() {
            nf += 1;
            match out.f.get(&x.number()) {
                Some(w) if m.get(x.number()).is_some_and(|f| !f.ext && f.full == x.full_name()) => {
                    if !matches!(w, V::M(_) | V::L(_) | V::Map(_)) {
                        let f = m.get(x.number()).unwrap();
                        if &self.from_value(v, f)? != w {
                            return Err(format!("fields() yields another value for {}", f.full));
                        }
                    }
                }
                _ => return Err(format!("fields() yields {} which has_field denies", x.full_name())),
            }
        }
        for (x, _) in d.extensions() {
            nf += 1;
            match out.f.get(&x.number()) {
                Some(_) if m.get(x.number()).is_some_and(|f| f.ext && f.full == x.full_name()) => {}
                _ => return Err(format!("extensions() yields {} which has_extension denies", x.full_name())),
            }
        }
        if nf != out.f.len() {
            return Err(format!(
                "fields() and extensions() yield {nf} fields, has_* reports {}",
                out.f.len()
            ));
        }
        for u in d.unknown_fields() {
            let mut b = vec![];
            u.encode(&mut b);
            if b.len() != u.encoded_len() {
                return Err(format!("unknown field {} has encoded_len {} but encodes to {} bytes", u.number(), u.encoded_len(), b.len()));
            }
            let us = crate::wire::dec_unknown(&b).ok_or("unknown field does not re-parse")?;
            if us.len() != 1 || us[0].num != u.number() || us[0].wire() != u.wire_type() as u32 {
                return Err(format!("unknown field {} misreported", u.number()));
            }
            out.unk.extend(us);
        }
        Ok(out)
    }

    pub fn from_value(&self, v: &Value, f: &Field) -> Result<V, String> {
        if let Some((kf, vf)) = self.s.map_kv(f) {
            let Value::Map(map) = v else {
                return Err(format!("map field {} holds {v:?}", f.full));
            };
            let mut out = BTreeMap::new();
            for (k, v) in map {
                out.insert(from_key(k, kf)?, self.from_single(v, vf.ty)?);
            }
            if out.len() != map.len() {
                return Err("map keys collide".into());
            }
            Ok(V::Map(out))
        } else if f.card == Card::Rep {
            let Value::List(l) = v else {
                return Err(format!("repeated field {} holds {v:?}", f.full));
            };
            Ok(V::L(
                l.iter()
                    .map(|v| self.from_single(v, f.ty))
                    .collect::<Result<_, _>>()?,
            ))
        } else {
            self.from_single(v, f.ty)
        }
    }

    pub fn from_single(&self, v: &Value, ty: Ty) -> Result<V, String> {
        Ok(match (v, ty) {
            (Value::Bool(b), Ty::Bool) => V::B(*b),
            (Value::I32(i), Ty::Int32 | Ty::Sint32 | Ty::Sfixed32) => V::I32(*i),
            (Value::I64(i), Ty::Int64 | Ty::Sint64 | Ty::Sfixed64) => V::I64(*i),
            (Value::U32(i), Ty::Uint32 | Ty::Fixed32) => V::U32(*i),
            (Value::U64(i), Ty::Uint64 | Ty::Fixed64) => V::U64(*i),
            (Value::F32(x), Ty::Float) => V::F32(x.to_bits()),
            (Value::F64(x), Ty::Double) => V::F64(x.to_bits()),
            (Value::String(s), Ty::String) => V::S(s.clone()),
            (Value::Bytes(b), Ty::Bytes) => V::Y(b.to_vec()),
            (Value::EnumNumber(e), Ty::Enum(_)) => V::E(*e),
            (Value::Message(m), Ty::Msg(t) | Ty::Group(t)) => V::M(Box::new(self.from_dyn_ty(m, t)?)),
            _ => return Err(format!("value {v:?} does not match kind {ty:?}")),
        })
    }
}

impl Unk {
    pub fn wire(&self) -> u32 {
        match self.val {
            UV::Var(_) => 0,
            UV::W64(_) => 1,
            UV::Len(_) => 2,
            UV::Grp(_) => 3,
            UV::W32(_) => 5,
        }
    }
}

pub fn to_key(k: &V) -> MapKey {
    match k {
        V::B(b) => MapKey::Bool(*b),
        V::I32(i) => MapKey::I32(*i),
        V::I64(i) => MapKey::I64(*i),
        V::U32(i) => MapKey::U32(*i),
        V::U64(i) => MapKey::U64(*i),
        V::S(s) => MapKey::String(s.clone()),
        _ => panic!("harness: bad key"),
    }
}

pub fn from_key(k: &MapKey, f: &Field) -> Result<V, String> {
    Ok(match (k, f.ty) {
        (MapKey::Bool(b), Ty::Bool) => V::B(*b),
        (MapKey::I32(i), Ty::Int32 | Ty::Sint32 | Ty::Sfixed32) => V::I32(*i),
        (MapKey::I64(i), Ty::Int64 | Ty::Sint64 | Ty::Sfixed64) => V::I64(*i),
        (MapKey::U32(i), Ty::Uint32 | Ty::Fixed32) => V::U32(*i),
        (MapKey::U64(i), Ty::Uint64 | Ty::Fixed64) => V::U64(*i),
        (MapKey::String(s), Ty::String) => V::S(s.clone()),
        _ => return Err(format!("map key {k:?} does not match {:?}", f.ty)),
    })
}

pub fn show(s: &Schema, m: &Mv) -> String {
    let mut o = String::new();
    show_m(s, m, &mut o);
    o
}
fn show_m(s: &Schema, m: &Mv, o: &mut String) {
    let md = &s.msgs[m.ty];
    let _ = write!(o, "{}{{", md.name);
    for (n, v) in &m.f {
        let _ = write!(o, "{}=", md.get(*n).map(|f| f.name.as_str()).unwrap_or("?"));
        show_v(s, v, o);
        o.push(' ');
    }
    if !m.unk.is_empty() {
        let _ = write!(o, "unknown={:?}", m.unk);
    }
    o.push('}');
}
fn show_v(s: &Schema, v: &V, o: &mut String) {
    match v {
        V::M(m) => show_m(s, m, o),
        V::L(l) => {
            o.push('[');
            for v in l {
                show_v(s, v, o);
                o.push(',');
            }
            o.push(']');
        }
        V::Map(m) => {
            o.push('{');
            for (k, v) in m {
                let _ = write!(o, "{k:?}:");
                show_v(s, v, o);
                o.push(',');
            }
            o.push('}');
        }
        V::F32(b) => {
            let _ = write!(o, "{:e}f32#{b:08x}", f32::from_bits(*b));
        }
        V::F64(b) => {
            let _ = write!(o, "{:e}f64#{b:016x}", f64::from_bits(*b));
        }
        other => {
            let _ = write!(o, "{other:?}");
        }
    }
}
