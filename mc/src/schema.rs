//! The reference view of a schema: computed from raw descriptor protos only (never from the
//! descriptor API under test), following the protobuf language specification.
use crate::value::V;
use prost::Message;
use prost_types::{
    field_descriptor_proto::{Label, Type},
    DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto,
    FileDescriptorSet,
};
use std::collections::{BTreeMap, HashMap};

pub const ALL_BIN: &[u8] = include_bytes!("../protos/all.bin");

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Double,
    Float,
    Int32,
    Int64,
    Uint32,
    Uint64,
    Sint32,
    Sint64,
    Fixed32,
    Fixed64,
    Sfixed32,
    Sfixed64,
    Bool,
    String,
    Bytes,
    Enum(usize),
    Msg(usize),
    Group(usize),
}

impl Ty {
    pub fn packable(self) -> bool {
        !matches!(self, Ty::String | Ty::Bytes | Ty::Msg(_) | Ty::Group(_))
    }
    pub fn msg(self) -> Option<usize> {
        match self {
            Ty::Msg(m) | Ty::Group(m) => Some(m),
            _ => None,
        }
    }
    /// wire type: 0 varint, 1 64-bit, 2 length delimited, 3 group, 5 32-bit
    pub fn wire(self) -> u32 {
        match self {
            Ty::Double | Ty::Fixed64 | Ty::Sfixed64 => 1,
            Ty::Float | Ty::Fixed32 | Ty::Sfixed32 => 5,
            Ty::String | Ty::Bytes | Ty::Msg(_) => 2,
            Ty::Group(_) => 3,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
    Opt,
    Req,
    Rep,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub num: u32,
    pub name: String,
    pub full: String,
    pub json: String,
    pub card: Card,
    pub ty: Ty,
    pub packed: bool,
    pub presence: bool,
    pub oneof: Option<usize>,
    pub ext: bool,
    pub default: Option<V>,
}

#[derive(Clone, Debug)]
pub struct Oneof {
    pub name: String,
    pub fields: Vec<u32>,
    pub synthetic: bool,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub proto3: bool,
    pub map_entry: bool,
    /// declaration order
    pub fields: Vec<Field>,
    pub exts: Vec<Field>,
    pub oneofs: Vec<Oneof>,
    pub by_num: BTreeMap<u32, (bool, usize)>,
}

impl Msg {
    pub fn get(&self, num: u32) -> Option<&Field> {
        self.by_num
            .get(&num)
            .map(|&(e, i)| if e { &self.exts[i] } else { &self.fields[i] })
    }
    pub fn all(&self) -> impl Iterator<Item = &Field> {
        self.by_num
            .values()
            .map(move |&(e, i)| if e { &self.exts[i] } else { &self.fields[i] })
    }
}

#[derive(Clone, Debug)]
pub struct Enum {
    pub name: String,
    pub values: Vec<(String, i32)>,
}

impl Enum {
    pub fn by_name(&self, n: &str) -> Option<i32> {
        self.values.iter().find(|v| v.0 == n).map(|v| v.1)
    }
    pub fn names_of(&self, n: i32) -> Vec<&str> {
        self.values
            .iter()
            .filter(|v| v.1 == n)
            .map(|v| v.0.as_str())
            .collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub msgs: Vec<Msg>,
    pub enums: Vec<Enum>,
    pub names: HashMap<String, Ty>,
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_owned()
    } else {
        format!("{a}.{b}")
    }
}

pub fn ref_json_name(name: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in name.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

impl Schema {
    pub fn parse(bytes: &[u8]) -> Schema {
        let set = FileDescriptorSet::decode(bytes).expect("descriptor set");
        Schema::from_files(&set.file)
    }

    pub fn from_files(files: &[FileDescriptorProto]) -> Schema {
        let mut s = Schema::default();
        // names first
        fn names(s: &mut Schema, scope: &str, m: &[DescriptorProto], e: &[EnumDescriptorProto], p3: bool) {
            for e in e {
                let full = join(scope, e.name());
                s.names.insert(full.clone(), Ty::Enum(s.enums.len()));
                s.enums.push(Enum {
                    name: full,
                    values: e
                        .value
                        .iter()
                        .map(|v| (v.name().to_owned(), v.number()))
                        .collect(),
                });
            }
            for m in m {
                let full = join(scope, m.name());
                s.names.insert(full.clone(), Ty::Msg(s.msgs.len()));
                s.msgs.push(Msg {
                    name: full.clone(),
                    proto3: p3,
                    map_entry: m.options.as_ref().is_some_and(|o| o.map_entry()),
                    fields: vec![],
                    exts: vec![],
                    oneofs: m
                        .oneof_decl
                        .iter()
                        .map(|o| Oneof {
                            name: o.name().to_owned(),
                            fields: vec![],
                            synthetic: false,
                        })
                        .collect(),
                    by_num: BTreeMap::new(),
                });
                names(s, &full, &m.nested_type, &m.enum_type, p3);
            }
        }
        for f in files {
            names(&mut s, f.package(), &f.message_type, &f.enum_type, f.syntax() == "proto3");
        }
        fn fields(s: &mut Schema, scope: &str, m: &[DescriptorProto], p3: bool) {
            for m in m {
                let full = join(scope, m.name());
                let Some(Ty::Msg(idx)) = s.names.get(&full).copied() else { unreachable!() };
                for f in &m.field {
                    let fd = s.field(&full, f, p3, false);
                    if let Some(o) = fd.oneof {
                        s.msgs[idx].oneofs[o].fields.push(fd.num);
                        if f.proto3_optional() {
                            s.msgs[idx].oneofs[o].synthetic = true;
                        }
                    }
                    let n = s.msgs[idx].fields.len();
                    s.msgs[idx].by_num.insert(fd.num, (false, n));
                    s.msgs[idx].fields.push(fd);
                }
                for x in &m.extension {
                    s.extension(&full, x, p3);
                }
                fields(s, &full, &m.nested_type, p3);
            }
        }
        for f in files {
            let p3 = f.syntax() == "proto3";
            fields(&mut s, f.package(), &f.message_type, p3);
            for x in &f.extension {
                s.extension(f.package(), x, p3);
            }
        }
        s
    }

    fn extension(&mut self, scope: &str, x: &FieldDescriptorProto, p3: bool) {
        let fd = self.field(scope, x, p3, true);
        let ext = self.msg(x.extendee().trim_start_matches('.'));
        let m = &mut self.msgs[ext];
        m.by_num.insert(fd.num, (true, m.exts.len()));
        m.exts.push(fd);
    }

    fn field(&self, scope: &str, f: &FieldDescriptorProto, p3: bool, ext: bool) -> Field {
        let full = join(scope, f.name());
        let named = || *self.names.get(f.type_name().trim_start_matches('.')).expect("type name");
        let ty = match f.r#type() {
            Type::Double => Ty::Double,
            Type::Float => Ty::Float,
            Type::Int64 => Ty::Int64,
            Type::Uint64 => Ty::Uint64,
            Type::Int32 => Ty::Int32,
            Type::Fixed64 => Ty::Fixed64,
            Type::Fixed32 => Ty::Fixed32,
            Type::Bool => Ty::Bool,
            Type::String => Ty::String,
            Type::Bytes => Ty::Bytes,
            Type::Uint32 => Ty::Uint32,
            Type::Sfixed32 => Ty::Sfixed32,
            Type::Sfixed64 => Ty::Sfixed64,
            Type::Sint32 => Ty::Sint32,
            Type::Sint64 => Ty::Sint64,
            Type::Enum | Type::Message => named(),
            Type::Group => match named() {
                Ty::Msg(m) => Ty::Group(m),
                _ => unreachable!(),
            },
        };
        let card = match f.label() {
            Label::Optional => Card::Opt,
            Label::Required => Card::Req,
            Label::Repeated => Card::Rep,
        };
        let opt_packed = f.options.as_ref().and_then(|o| o.packed);
        let packed = card == Card::Rep && ty.packable() && opt_packed.unwrap_or(p3);
        let presence = card != Card::Rep
            && (!p3 || ext || f.oneof_index.is_some() || f.proto3_optional() || ty.msg().is_some());
        let json = if ext {
            format!("[{full}]")
        } else {
            f.json_name.clone().unwrap_or_else(|| ref_json_name(f.name()))
        };
        let default = f.default_value.as_ref().map(|d| match ty {
            Ty::Enum(e) => V::E(self.enums[e].by_name(d).expect("default enum")),
            _ => ref_default(ty, d).expect("default value"),
        });
        Field {
            num: f.number() as u32,
            name: f.name().to_owned(),
            full,
            json,
            card,
            ty,
            packed,
            presence,
            oneof: f.oneof_index.map(|i| i as usize),
            ext,
            default,
        }
    }

    pub fn msg(&self, name: &str) -> usize {
        match self.names.get(name) {
            Some(Ty::Msg(m)) => *m,
            _ => panic!("harness: no message {name}"),
        }
    }

    pub fn map_kv(&self, f: &Field) -> Option<(&Field, &Field)> {
        match f.ty {
            Ty::Msg(m) if f.card == Card::Rep && self.msgs[m].map_entry => {
                Some((self.msgs[m].get(1).unwrap(), self.msgs[m].get(2).unwrap()))
            }
            _ => None,
        }
    }
    pub fn is_list(&self, f: &Field) -> bool {
        f.card == Card::Rep && self.map_kv(f).is_none()
    }

    /// Zero value of a kind (ignoring declared defaults).
    pub fn zero(&self, ty: Ty) -> V {
        match ty {
            Ty::Double => V::F64(0),
            Ty::Float => V::F32(0),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(0),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(0),
            Ty::Uint32 | Ty::Fixed32 => V::U32(0),
            Ty::Uint64 | Ty::Fixed64 => V::U64(0),
            Ty::Bool => V::B(false),
            Ty::String => V::S(String::new()),
            Ty::Bytes => V::Y(vec![]),
            Ty::Enum(e) => V::E(self.enums[e].values[0].1),
            Ty::Msg(m) | Ty::Group(m) => V::M(Box::new(crate::value::Mv::new(m))),
        }
    }

    /// The value reading an unset field yields.
    pub fn default_of(&self, f: &Field) -> V {
        if self.map_kv(f).is_some() {
            V::Map(BTreeMap::new())
        } else if f.card == Card::Rep {
            V::L(vec![])
        } else if let Some(d) = &f.default {
            d.clone()
        } else {
            self.zero(f.ty)
        }
    }
}

/// Parse the default_value string of a descriptor as protoc writes it.
pub fn ref_default(ty: Ty, d: &str) -> Option<V> {
    let fl = |d: &str| -> Option<f64> {
        match d {
            "inf" => Some(f64::INFINITY),
            "-inf" => Some(f64::NEG_INFINITY),
            "nan" => Some(f64::NAN),
            _ => d.parse().ok(),
        }
    };
    Some(match ty {
        Ty::Double => V::F64(fl(d)?.to_bits()),
        Ty::Float => V::F32(match d {
            "inf" | "-inf" | "nan" => (fl(d)? as f32).to_bits(),
            _ => d.parse::<f32>().ok()?.to_bits(),
        }),
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(d.parse().ok()?),
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(d.parse().ok()?),
        Ty::Uint32 | Ty::Fixed32 => V::U32(d.parse().ok()?),
        Ty::Uint64 | Ty::Fixed64 => V::U64(d.parse().ok()?),
        Ty::Bool => V::B(match d {
            "true" => true,
            "false" => false,
            _ => return None,
        }),
        Ty::String => V::S(d.to_owned()),
        Ty::Bytes => V::Y(ref_unescape(d)?),
        _ => return None,
    })
}

/// C escapes as protoc writes them into the default of a bytes field.
pub fn ref_unescape(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        let c = *b.get(i)?;
        i += 1;
        match c {
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'v' => out.push(11),
            b'\\' | b'?' | b'\'' | b'"' => out.push(c),
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                for _ in 0..2 {
                    match b.get(i) {
                        Some(d @ b'0'..=b'7') => {
                            v = v * 8 + (d - b'0') as u32;
                            i += 1;
                        }
                        _ => break,
                    }
                }
                out.push(u8::try_from(v).ok()?);
            }
            b'x' | b'X' => {
                let h = |c: u8| (c as char).to_digit(16);
                let v = h(*b.get(i)?)? * 16 + h(*b.get(i + 1)?)?;
                i += 2;
                out.push(v as u8);
            }
            _ => return None,
        }
    }
    Some(out)
}
