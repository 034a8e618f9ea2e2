//! What a descriptor pool reports, as lines of text: once through the API under test and once
//! computed from the reference model. Equal lines = equal observable content.
use crate::descr::{find_msg, join, RField, Ref};
use crate::schema::{ref_json_name, Ty};
use crate::value::V;
use prost::Message;
use prost_reflect::{
    DescriptorPool, EnumDescriptor, FileDescriptor, Kind, MessageDescriptor, MethodDescriptor,
    ReflectMessage, ServiceDescriptor, Value,
};
use prost_types::{field_descriptor_proto::Label, EnumOptions, EnumValueOptions, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodOptions, OneofOptions, ServiceOptions};
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};

/// What to look up in a pool.
#[derive(Clone, Debug, Default)]
pub struct Queries {
    pub full: BTreeSet<String>,
    pub exts: BTreeSet<String>,
    pub simple: BTreeSet<String>,
    pub nums: BTreeSet<u32>,
    pub files: BTreeSet<String>,
    /// standard options only, decoded
    pub options: bool,
    /// ignore the order of files
    pub unordered: bool,
}

impl Queries {
    pub fn of(r: &Ref, options: bool) -> Queries {
        let mut q = Queries { options, ..Default::default() };
        for n in r.names.keys() {
            q.full.insert(n.clone());
            q.full.insert(format!("{n}x"));
            let s = n.rsplit('.').next().unwrap();
            q.simple.insert(s.to_owned());
            q.simple.insert(ref_json_name(s));
        }
        for m in &r.msgs {
            for f in &m.fields {
                q.simple.insert(f.json.clone());
                let n = f.p.number() as u32;
                q.nums.extend([n, n.wrapping_add(1), n.wrapping_sub(1)]);
            }
        }
        for x in &r.exts {
            q.exts.insert(x.at.full.clone());
            q.exts.insert(x.at.name.clone());
            q.nums.insert(x.p.number() as u32);
        }
        for m in r.msgs.iter().take(3) {
            q.exts.insert(m.at.full.clone());
        }
        q.exts.extend(["", ".", "nope"].map(String::from));
        q.full.extend(["", ".", "nope"].map(String::from));
        q.simple.extend(["", "nope", "["].map(String::from));
        q.nums.extend([0, 1, 2, 19000, 536870911, u32::MAX]);
        for f in &r.files {
            q.files.insert(f.p.name().to_owned());
            q.files.insert(format!("{}x", f.p.name()));
        }
        q.files.insert(String::new());
        q
    }
}

#[derive(Default)]
pub struct Lines(pub Vec<String>);
impl Lines {
    fn p(&mut self, key: &str, attr: &str, v: impl Display) {
        self.0.push(format!("{key} {attr} = {v}"));
    }
    fn d(&mut self, key: &str, attr: &str, v: impl Debug) {
        self.0.push(format!("{key} {attr} = {v:?}"));
    }
}

pub fn diff(real: &[String], want: &[String]) -> Result<(), String> {
    for i in 0..real.len().max(want.len()) {
        let (a, b) = (real.get(i), want.get(i));
        if a != b {
            let cut = |s: Option<&String>| s.map_or("nothing".into(), |s| s.chars().take(700).collect::<String>());
            return Err(format!("descriptors report\n    {}\n  but it should be\n    {}", cut(a), cut(b)));
        }
    }
    Ok(())
}

fn names<T>(it: impl Iterator<Item = T>, f: impl Fn(&T) -> String) -> Vec<String> {
    it.map(|x| f(&x)).collect()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn enc(m: &impl Message) -> String {
    hexs(&m.encode_to_vec())
}

macro_rules! opts {
    ($t:ty, $d:expr) => {{
        let o = $d.options();
        let raw = o.encode_to_vec();
        match <$t>::decode(raw.as_slice()) {
            Ok(m) => format!("{}:{}", o.descriptor().full_name(), enc(&m)),
            Err(e) => format!("{} undecodable: {e}", o.descriptor().full_name()),
        }
    }};
}
/// The options of everything, with all their bytes (custom ones included).
macro_rules! optsraw {
    ($d:expr) => {{
        let o = $d.options();
        let mut v = o.encode_to_vec();
        let _ = &mut v;
        format!("{}:{}", o.descriptor().full_name(), hexs(&v))
    }};
}

fn value(v: &Value) -> String {
    match v {
        Value::Bool(b) => format!("{b}"),
        Value::I32(b) => format!("i32 {b}"),
        Value::I64(b) => format!("i64 {b}"),
        Value::U32(b) => format!("u32 {b}"),
        Value::U64(b) => format!("u64 {b}"),
        Value::F32(b) => format!("f32 {:x}", b.to_bits()),
        Value::F64(b) => format!("f64 {:x}", b.to_bits()),
        Value::String(b) => format!("{b:?}"),
        Value::Bytes(b) => format!("bytes {:?}", &b[..]),
        Value::EnumNumber(b) => format!("enum {b}"),
        Value::Message(m) => format!("message {} {:?}", m.descriptor().full_name(), m.encode_to_vec()),
        Value::List(l) => format!("list {}", l.len()),
        Value::Map(l) => format!("map {}", l.len()),
    }
}

fn kind(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(m) => format!("enum {}", m.full_name()),
        k => format!("{k:?}"),
    }
}

macro_rules! real_field {
    ($l:expr, $k:expr, $f:expr, $q:expr) => {{
        let (l, k, f): (&mut Lines, &str, _) = ($l, $k, $f);
        l.p(k, "name", f.name());
        l.p(k, "full", f.full_name());
        l.d(k, "path", f.path());
        l.p(k, "file", f.parent_file().name());
        l.p(k, "number", f.number());
        l.p(k, "json", f.json_name());
        l.d(k, "cardinality", f.cardinality());
        l.d(k, "list map group packed presence", (f.is_list(), f.is_map(), f.is_group(), f.is_packed(), f.supports_presence()));
        l.p(k, "kind", kind(&f.kind()));
        l.d(k, "wire", f.kind().wire_type());
        l.p(k, "kind default", value(&f.kind().default_value()));
        l.p(k, "default", value(&f.default_value()));
        l.p(k, "proto", enc(f.field_descriptor_proto()));
        if let Kind::Message(m) = f.kind() {
            if f.parent_pool().get_message_by_name(m.full_name()).as_ref() != Some(&m) {
                l.p(k, "kind", "is not the message found by its name");
            }
        }
        if let Kind::Enum(m) = f.kind() {
            if f.parent_pool().get_enum_by_name(m.full_name()).as_ref() != Some(&m) {
                l.p(k, "kind", "is not the enum found by its name");
            }
        }
        if $q.options {
            l.p(k, "options", opts!(FieldOptions, f));
        } else {
            l.p(k, "options", optsraw!(f));
        }
    }};
}

pub fn real(p: &DescriptorPool, q: &Queries) -> Vec<String> {
    let mut l = Lines::default();
    let k = "pool";
    let order = |v: Vec<String>| if q.unordered { sorted(v) } else { v };
    l.d(k, "files", order(names(p.files(), |f| f.name().to_owned())));
    l.d(k, "counts", (p.files().len(), p.services().len(), p.all_messages().len(), p.all_enums().len(), p.all_extensions().len()));
    l.d(k, "services", order(names(p.services(), |f| f.full_name().to_owned())));
    l.d(k, "messages", sorted(names(p.all_messages(), |f| f.full_name().to_owned())));
    l.d(k, "enums", sorted(names(p.all_enums(), |f| f.full_name().to_owned())));
    l.d(k, "extensions", sorted(names(p.all_extensions(), |f| f.full_name().to_owned())));
    for n in &q.files {
        l.d(k, &format!("file {n}"), p.get_file_by_name(n).map(|f| (f.name().to_owned(), if q.unordered { 0 } else { f.index() })));
    }
    for n in &q.full {
        for n in [n.clone(), format!(".{n}")] {
            l.d(
                k,
                &format!("lookup {n}"),
                (
                    p.get_message_by_name(&n).map(|m| m.full_name().to_owned()),
                    p.get_enum_by_name(&n).map(|m| m.full_name().to_owned()),
                    p.get_extension_by_name(&n).map(|m| m.full_name().to_owned()),
                    p.get_service_by_name(&n).map(|m| m.full_name().to_owned()),
                ),
            );
        }
    }
    if names(p.file_descriptor_protos(), |f| f.name().to_owned()) != names(p.files(), |f| f.name().to_owned()) {
        l.p(k, "file protos", "are not those of the files");
    }
    let mut fs: Vec<_> = p.files().enumerate().collect();
    if q.unordered {
        fs.sort_by(|a, b| a.1.name().cmp(b.1.name()));
    }
    for (i, f) in fs {
        if FileDescriptor::new(p.clone(), i) != f || p.file_descriptor_protos().nth(i) != Some(f.file_descriptor_proto()) {
            l.p(k, "file", format!("{i} is not itself"));
        }
        real_file(&mut l, &f, q);
    }
    let mut ss: Vec<_> = p.services().enumerate().collect();
    if q.unordered {
        ss.sort_by(|a, b| a.1.full_name().cmp(b.1.full_name()));
    }
    for (i, s) in ss {
        if ServiceDescriptor::new(p.clone(), i) != s || s.index() != i {
            l.p(k, "service", format!("{i} is not itself"));
        }
        real_service(&mut l, &s, q);
    }
    let mut ms: Vec<_> = p.all_messages().collect();
    ms.sort_by(|a, b| a.full_name().cmp(b.full_name()));
    for m in &ms {
        real_message(&mut l, m, q);
    }
    let mut ms: Vec<_> = p.all_enums().collect();
    ms.sort_by(|a, b| a.full_name().cmp(b.full_name()));
    for m in &ms {
        real_enum(&mut l, m, q);
    }
    let mut ms: Vec<_> = p.all_extensions().collect();
    ms.sort_by(|a, b| a.full_name().cmp(b.full_name()));
    for x in &ms {
        let k = format!("extension {}", x.full_name());
        real_field!(&mut l, &k, x, q);
        l.p(&k, "containing", x.containing_message().full_name());
        l.p(&k, "package", x.package_name());
        l.d(&k, "parent", x.parent_message().map(|m| m.full_name().to_owned()));
        l.p(&k, "file proto", x.parent_file_descriptor_proto().name());
        if !x.containing_message().extensions().any(|y| y == *x) {
            l.p(&k, "itself", "not found in its message");
        }
    }
    l.0
}

fn real_file(l: &mut Lines, f: &FileDescriptor, q: &Queries) {
    let k = format!("file {}", f.name());
    let k = &k;
    l.d(k, "name package index", (f.name(), f.package_name(), if q.unordered { 0 } else { f.index() }));
    l.d(k, "syntax", f.syntax());
    l.d(k, "dependencies", names(f.dependencies(), |f| f.name().to_owned()));
    l.d(k, "public", names(f.public_dependencies(), |f| f.name().to_owned()));
    l.d(k, "messages", names(f.messages(), |f| f.full_name().to_owned()));
    l.d(k, "enums", names(f.enums(), |f| f.full_name().to_owned()));
    l.d(k, "extensions", names(f.extensions(), |f| f.full_name().to_owned()));
    l.d(k, "services", names(f.services(), |f| f.full_name().to_owned()));
    l.d(k, "counts", (f.dependencies().len(), f.public_dependencies().len(), f.messages().len(), f.enums().len(), f.extensions().len(), f.services().len()));
    l.p(k, "proto", enc(f.file_descriptor_proto()));
    match FileDescriptorProto::decode(f.encode_to_vec().as_slice()) {
        Ok(p) => l.p(k, "encoded", enc(&p)),
        Err(e) => l.p(k, "encoded", e),
    }
    if q.options {
        l.p(k, "options", opts!(FileOptions, f));
    } else {
        l.p(k, "options", optsraw!(f));
        l.p(k, "encoded raw", hexs(&f.encode_to_vec()));
    }
}

fn real_service(l: &mut Lines, s: &ServiceDescriptor, q: &Queries) {
    let k = format!("service {}", s.full_name());
    let k = &k;
    l.d(k, "name package index path", (s.name(), s.package_name(), if q.unordered { 0 } else { s.index() }, s.path()));
    l.p(k, "file", s.parent_file().name());
    l.p(k, "file proto", s.parent_file_descriptor_proto().name());
    l.p(k, "proto", enc(s.service_descriptor_proto()));
    l.p(k, "methods", s.methods().len());
    if q.options {
        l.p(k, "options", opts!(ServiceOptions, s));
    } else {
        l.p(k, "options", optsraw!(s));
    }
    for (i, m) in s.methods().enumerate() {
        let k = format!("method {}", m.full_name());
        let k = &k;
        if MethodDescriptor::new(s.clone(), i) != m || m.parent_service() != s {
            l.p(k, "itself", "not");
        }
        l.d(k, "name full index path", (m.name(), m.full_name(), m.index(), m.path()));
        l.p(k, "file", m.parent_file().name());
        l.p(k, "proto", enc(m.method_descriptor_proto()));
        l.d(k, "io", (m.input().full_name(), m.output().full_name(), m.is_client_streaming(), m.is_server_streaming()));
        if q.options {
            l.p(k, "options", opts!(MethodOptions, m));
        } else {
            l.p(k, "options", optsraw!(m));
        }
    }
}

fn real_message(l: &mut Lines, m: &MessageDescriptor, q: &Queries) {
    let k = format!("message {}", m.full_name());
    let k = &k;
    l.d(k, "name package path", (m.name(), m.package_name(), m.path()));
    l.p(k, "file", m.parent_file().name());
    l.p(k, "file proto", m.parent_file_descriptor_proto().name());
    l.d(k, "parent", m.parent_message().map(|m| m.full_name().to_owned()));
    l.p(k, "proto", enc(m.descriptor_proto()));
    if q.options {
        l.p(k, "options", opts!(MessageOptions, m));
    } else {
        l.p(k, "options", optsraw!(m));
    }
    l.d(k, "messages", names(m.child_messages(), |f| f.full_name().to_owned()));
    l.d(k, "enums", names(m.child_enums(), |f| f.full_name().to_owned()));
    l.d(k, "own extensions", names(m.child_extensions(), |f| f.full_name().to_owned()));
    l.d(k, "extensions", sorted(names(m.extensions(), |f| f.full_name().to_owned())));
    l.d(k, "fields", names(m.fields(), |f| f.name().to_owned()));
    l.d(k, "oneofs", names(m.oneofs(), |f| f.full_name().to_owned()));
    l.d(k, "counts", (m.child_messages().len(), m.child_enums().len(), m.child_extensions().len(), m.extensions().len(), m.fields().len(), m.oneofs().len()));
    l.d(k, "reserved", (m.reserved_ranges().collect::<Vec<_>>(), m.reserved_names().collect::<Vec<_>>(), m.extension_ranges().collect::<Vec<_>>()));
    l.d(k, "map entry", m.is_map_entry());
    if m.is_map_entry() {
        l.d(k, "key value", (m.map_entry_key_field().name(), m.map_entry_value_field().name()));
    }
    for c in m.child_messages() {
        if c.parent_message().as_ref() != Some(m) {
            l.p(k, "child", format!("{} has another parent", c.full_name()));
        }
    }
    let num: Vec<_> = q.nums.iter().filter_map(|&n| m.get_field(n).map(|f| (n, f.name().to_owned()))).collect();
    let xnum: Vec<_> = q.nums.iter().filter_map(|&n| m.get_extension(n).map(|f| (n, f.full_name().to_owned()))).collect();
    let by: Vec<_> = q.simple.iter().filter_map(|n| m.get_field_by_name(n).map(|f| (n, f.name().to_owned()))).collect();
    let json: Vec<_> = q.simple.iter().filter_map(|n| m.get_field_by_json_name(n).map(|f| (n, f.name().to_owned()))).collect();
    let xby: Vec<_> = q.exts.iter().filter_map(|n| m.get_extension_by_full_name(n).map(|f| (n, f.full_name().to_owned()))).collect();
    let xjson: Vec<_> = q
        .exts
        .iter()
        .flat_map(|n| [n.clone(), format!("[{n}]"), format!("[{n}"), format!("{n}]")])
        .filter_map(|n| m.get_extension_by_json_name(&n).map(|f| (n, f.full_name().to_owned())))
        .collect();
    l.d(k, "by number", num);
    l.d(k, "extension by number", xnum);
    l.d(k, "by name", by);
    l.d(k, "by JSON name", json);
    l.d(k, "extension by name", xby);
    l.d(k, "extension by JSON name", xjson);
    for f in m.fields() {
        let k = format!("field {}", f.full_name());
        real_field!(l, &k, &f, q);
        l.d(&k, "parent required oneof", (f.parent_message().full_name(), f.is_required(), f.containing_oneof().map(|o| o.name().to_owned())));
        if f.parent_message() != m || m.get_field(f.number()).as_ref() != Some(&f) || m.get_field_by_name(f.name()).as_ref() != Some(&f) {
            l.p(&k, "itself", "not found by number or name");
        }
    }
    for o in m.oneofs() {
        let k = format!("oneof {}", o.full_name());
        let k = &k;
        l.d(k, "name path", (o.name(), o.path()));
        l.p(k, "file", o.parent_file().name());
        l.p(k, "parent", o.parent_message().full_name());
        l.d(k, "fields", sorted(names(o.fields(), |f| f.name().to_owned())));
        l.d(k, "synthetic", (o.is_synthetic(), o.fields().len()));
        l.p(k, "proto", enc(o.oneof_descriptor_proto()));
        if q.options {
            l.p(k, "options", opts!(OneofOptions, o));
        } else {
            l.p(k, "options", optsraw!(o));
        }
        for f in o.fields() {
            if f.containing_oneof().as_ref() != Some(&o) || f.parent_message() != m {
                l.p(k, "field", format!("{} is in another", f.name()));
            }
        }
    }
}

fn real_enum(l: &mut Lines, e: &EnumDescriptor, q: &Queries) {
    let k = format!("enum {}", e.full_name());
    let k = &k;
    l.d(k, "name package path", (e.name(), e.package_name(), e.path()));
    l.p(k, "file", e.parent_file().name());
    l.p(k, "file proto", e.parent_file_descriptor_proto().name());
    l.d(k, "parent", e.parent_message().map(|m| m.full_name().to_owned()));
    l.p(k, "proto", enc(e.enum_descriptor_proto()));
    if q.options {
        l.p(k, "options", opts!(EnumOptions, e));
    } else {
        l.p(k, "options", optsraw!(e));
    }
    l.d(k, "reserved", (e.reserved_ranges().collect::<Vec<_>>(), e.reserved_names().collect::<Vec<_>>()));
    l.d(k, "default", e.default_value().name());
    l.d(k, "values", (e.values().len(), names(e.values(), |v| v.number().to_string())));
    let mut vs: Vec<_> = e.values().collect();
    vs.sort_by(|a, b| (a.number(), a.name()).cmp(&(b.number(), b.name())));
    for v in &vs {
        let k = format!("value {}", v.full_name());
        let k = &k;
        l.d(k, "name path number", (v.name(), v.path(), v.number()));
        l.p(k, "file", v.parent_file().name());
        l.p(k, "parent", v.parent_enum().full_name());
        l.p(k, "proto", enc(v.enum_value_descriptor_proto()));
        l.d(k, "found", (e.get_value(v.number()).map(|x| x.number()), e.get_value_by_name(v.name()).as_ref() == Some(v)));
        if q.options {
            l.p(k, "options", opts!(EnumValueOptions, v));
        } else {
            l.p(k, "options", optsraw!(v));
        }
    }
    let by: Vec<_> = q.simple.iter().filter_map(|n| e.get_value_by_name(n).map(|f| (n, f.name().to_owned()))).collect();
    l.d(k, "by name", by);
    let by: Vec<_> = (-5..12).chain([i32::MIN, i32::MAX]).filter_map(|n| e.get_value(n).map(|f| (n, f.number()))).collect();
    l.d(k, "by number", by);
}

// ---- the same lines from the reference

fn rvalue(r: &Ref, v: &V) -> String {
    match v {
        V::B(b) => format!("{b}"),
        V::I32(b) => format!("i32 {b}"),
        V::I64(b) => format!("i64 {b}"),
        V::U32(b) => format!("u32 {b}"),
        V::U64(b) => format!("u64 {b}"),
        V::F32(b) => format!("f32 {b:x}"),
        V::F64(b) => format!("f64 {b:x}"),
        V::S(b) => format!("{b:?}"),
        V::Y(b) => format!("bytes {:?}", &b[..]),
        V::E(b) => format!("enum {b}"),
        V::M(m) => format!("message {} []", r.msgs[m.ty].at.full),
        V::L(_) => "list 0".into(),
        V::Map(_) => "map 0".into(),
    }
}

fn zero(r: &Ref, t: Ty) -> V {
    match t {
        Ty::Double => V::F64(0),
        Ty::Float => V::F32(0),
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(0),
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(0),
        Ty::Uint32 | Ty::Fixed32 => V::U32(0),
        Ty::Uint64 | Ty::Fixed64 => V::U64(0),
        Ty::Bool => V::B(false),
        Ty::String => V::S(String::new()),
        Ty::Bytes => V::Y(vec![]),
        Ty::Enum(e) => V::E(r.enums[e].p.value[0].number()),
        Ty::Msg(m) | Ty::Group(m) => V::M(Box::new(crate::value::Mv::new(m))),
    }
}

fn opt<M: Message>(name: &str, o: &Option<M>, q: &Queries) -> String {
    let _ = q;
    format!("google.protobuf.{name}:{}", o.as_ref().map_or(String::new(), enc))
}

fn ref_field(l: &mut Lines, k: &str, f: &RField, r: &Ref, q: &Queries) {
    l.p(k, "name", &f.at.name);
    l.p(k, "full", &f.at.full);
    l.d(k, "path", &f.at.path);
    l.p(k, "file", r.files[f.at.file].p.name());
    l.p(k, "number", f.p.number());
    l.p(k, "json", &f.json);
    let rep = f.p.label == Some(Label::Repeated as i32);
    l.p(
        k,
        "cardinality",
        if rep {
            "Repeated"
        } else if f.p.label == Some(Label::Required as i32) {
            "Required"
        } else {
            "Optional"
        },
    );
    let map = rep && matches!(f.ty, Ty::Msg(m) if r.msgs[m].p.options.as_ref().is_some_and(|o| o.map_entry()));
    l.d(k, "list map group packed presence", (rep && !map, map, matches!(f.ty, Ty::Group(_)), f.packed, f.presence));
    l.p(
        k,
        "kind",
        match f.ty {
            Ty::Msg(m) | Ty::Group(m) => format!("message {}", r.msgs[m].at.full),
            Ty::Enum(m) => format!("enum {}", r.enums[m].at.full),
            t => format!("{t:?}").to_lowercase(),
        },
    );
    l.p(
        k,
        "wire",
        match f.ty {
            Ty::Double | Ty::Fixed64 | Ty::Sfixed64 => "SixtyFourBit",
            Ty::Float | Ty::Fixed32 | Ty::Sfixed32 => "ThirtyTwoBit",
            Ty::String | Ty::Bytes | Ty::Msg(_) | Ty::Group(_) => "LengthDelimited",
            _ => "Varint",
        },
    );
    let z = rvalue(r, &zero(r, f.ty));
    l.p(k, "kind default", &z);
    let d = if map {
        "map 0".into()
    } else if rep {
        "list 0".into()
    } else {
        f.default.as_ref().map_or(z, |d| rvalue(r, d))
    };
    l.p(k, "default", d);
    l.p(k, "proto", enc(&f.p));
    l.p(k, "options", opt("FieldOptions", &f.p.options, q));
}

pub fn reference(r: &Ref, q: &Queries) -> Vec<String> {
    let mut l = Lines::default();
    let k = "pool";
    let mut ms: Vec<_> = r.msgs.iter().collect();
    ms.sort_by(|a, b| a.at.full.cmp(&b.at.full));
    let mut es: Vec<_> = r.enums.iter().collect();
    es.sort_by(|a, b| a.at.full.cmp(&b.at.full));
    let mut xs: Vec<_> = r.exts.iter().collect();
    xs.sort_by(|a, b| a.at.full.cmp(&b.at.full));
    l.d(k, "files", names(r.files.iter(), |f| f.p.name().to_owned()));
    l.d(k, "counts", (r.files.len(), r.svcs.len(), ms.len(), es.len(), xs.len()));
    l.d(k, "services", names(r.svcs.iter(), |f| f.at.full.clone()));
    l.d(k, "messages", names(ms.iter(), |f| f.at.full.clone()));
    l.d(k, "enums", names(es.iter(), |f| f.at.full.clone()));
    l.d(k, "extensions", names(xs.iter(), |f| f.at.full.clone()));
    for n in &q.files {
        l.d(k, &format!("file {n}"), r.file(n).map(|i| (n.to_owned(), i)));
    }
    for n in &q.full {
        let hit = (
            r.msgs.iter().find(|m| m.at.full == *n).map(|_| n.to_owned()),
            r.enums.iter().find(|m| m.at.full == *n).map(|_| n.to_owned()),
            r.exts.iter().find(|m| m.at.full == *n).map(|_| n.to_owned()),
            r.svcs.iter().find(|m| m.at.full == *n).map(|_| n.to_owned()),
        );
        l.d(k, &format!("lookup {n}"), &hit);
        l.d(k, &format!("lookup .{n}"), &hit);
    }
    for (i, f) in r.files.iter().enumerate() {
        let k = format!("file {}", f.p.name());
        let k = &k;
        l.d(k, "name package index", (f.p.name(), f.p.package(), i));
        l.p(k, "syntax", f.p.syntax.as_deref().filter(|s| !s.is_empty()).unwrap_or("proto2"));
        l.d(k, "dependencies", &f.p.dependency);
        l.d(k, "public", names(f.p.public_dependency.iter(), |&&n| f.p.dependency[n as usize].clone()));
        let full = |n: &str| join(f.p.package(), n);
        l.d(k, "messages", names(f.p.message_type.iter(), |m| full(m.name())));
        l.d(k, "enums", names(f.p.enum_type.iter(), |m| full(m.name())));
        l.d(k, "extensions", names(f.p.extension.iter(), |m| full(m.name())));
        l.d(k, "services", names(f.p.service.iter(), |m| full(m.name())));
        l.d(k, "counts", (f.p.dependency.len(), f.p.public_dependency.len(), f.p.message_type.len(), f.p.enum_type.len(), f.p.extension.len(), f.p.service.len()));
        l.p(k, "proto", enc(&f.p));
        l.p(k, "encoded", enc(&f.p));
        l.p(k, "options", opt("FileOptions", &f.p.options, q));
    }
    for (i, s) in r.svcs.iter().enumerate() {
        let k = format!("service {}", s.at.full);
        let k = &k;
        let f = &r.files[s.at.file].p;
        let p = &f.service[s.at.path[1] as usize];
        l.d(k, "name package index path", (&s.at.name, f.package(), i, &s.at.path));
        l.p(k, "file", f.name());
        l.p(k, "file proto", f.name());
        l.p(k, "proto", enc(p));
        l.p(k, "methods", p.method.len());
        l.p(k, "options", opt("ServiceOptions", &p.options, q));
        for (j, m) in p.method.iter().enumerate() {
            let full = join(&s.at.full, m.name());
            let k = format!("method {full}");
            let k = &k;
            let mut path = s.at.path.clone();
            path.extend([2, j as i32]);
            l.d(k, "name full index path", (m.name(), &full, j, path));
            l.p(k, "file", f.name());
            l.p(k, "proto", enc(m));
            l.d(k, "io", (&r.msgs[s.io[j].0].at.full, &r.msgs[s.io[j].1].at.full, m.client_streaming(), m.server_streaming()));
            l.p(k, "options", opt("MethodOptions", &m.options, q));
        }
    }
    for m in &ms {
        ref_message(&mut l, m, r, q);
    }
    for e in &es {
        let f = &r.files[e.at.file].p;
        let k = format!("enum {}", e.at.full);
        let k = &k;
        l.d(k, "name package path", (&e.at.name, f.package(), &e.at.path));
        l.p(k, "file", f.name());
        l.p(k, "file proto", f.name());
        l.d(k, "parent", e.at.parent.map(|m| &r.msgs[m].at.full));
        l.p(k, "proto", enc(&e.p));
        l.p(k, "options", opt("EnumOptions", &e.p.options, q));
        l.d(k, "reserved", (e.p.reserved_range.iter().map(|r| r.start()..=r.end()).collect::<Vec<_>>(), &e.p.reserved_name));
        l.d(k, "default", e.p.value[0].name());
        let mut vs: Vec<_> = e.p.value.iter().enumerate().collect();
        vs.sort_by(|a, b| (a.1.number(), a.1.name()).cmp(&(b.1.number(), b.1.name())));
        l.d(k, "values", (vs.len(), names(vs.iter(), |v| v.1.number().to_string())));
        let scope = e.at.full[..e.at.full.len() - e.at.name.len()].trim_end_matches('.');
        for (i, v) in &vs {
            let k = format!("value {}", join(scope, v.name()));
            let k = &k;
            let mut path = e.at.path.clone();
            path.extend([2, *i as i32]);
            l.d(k, "name path number", (v.name(), path, v.number()));
            l.p(k, "file", f.name());
            l.p(k, "parent", &e.at.full);
            l.p(k, "proto", enc(*v));
            l.d(k, "found", (Some(v.number()), true));
            l.p(k, "options", opt("EnumValueOptions", &v.options, q));
        }
        let by: Vec<_> = q.simple.iter().filter(|n| e.p.value.iter().any(|v| v.name() == **n)).map(|n| (n, n)).collect();
        l.d(k, "by name", by);
        let by: Vec<_> = (-5..12).chain([i32::MIN, i32::MAX]).filter(|n| e.p.value.iter().any(|v| v.number() == *n)).map(|n| (n, n)).collect();
        l.d(k, "by number", by);
    }
    for x in &xs {
        let k = format!("extension {}", x.at.full);
        ref_field(&mut l, &k, x, r, q);
        l.p(&k, "containing", &r.msgs[x.extendee.unwrap()].at.full);
        let f = &r.files[x.at.file].p;
        l.p(&k, "package", f.package());
        l.d(&k, "parent", x.at.parent.map(|m| &r.msgs[m].at.full));
        l.p(&k, "file proto", f.name());
    }
    l.0
}

fn ref_message(l: &mut Lines, m: &crate::descr::RMsg, r: &Ref, q: &Queries) {
    let k = format!("message {}", m.at.full);
    let k = &k;
    let f = &r.files[m.at.file].p;
    l.d(k, "name package path", (&m.at.name, f.package(), &m.at.path));
    l.p(k, "file", f.name());
    l.p(k, "file proto", f.name());
    l.d(k, "parent", m.at.parent.map(|m| &r.msgs[m].at.full));
    l.p(k, "proto", enc(find_msg(f, &m.at.path)));
    l.p(k, "options", opt("MessageOptions", &m.p.options, q));
    let full = |n: &str| join(&m.at.full, n);
    l.d(k, "messages", names(m.p.nested_type.iter(), |n| full(n.name())));
    l.d(k, "enums", names(m.p.enum_type.iter(), |n| full(n.name())));
    l.d(k, "own extensions", names(m.p.extension.iter(), |n| full(n.name())));
    let exts: Vec<&RField> = m.exts.iter().map(|&x| &r.exts[x]).collect();
    l.d(k, "extensions", sorted(names(exts.iter(), |x| x.at.full.clone())));
    let mut fs: Vec<_> = m.fields.iter().collect();
    fs.sort_by_key(|f| f.p.number());
    l.d(k, "fields", names(fs.iter(), |f| f.at.name.clone()));
    l.d(k, "oneofs", names(m.p.oneof_decl.iter(), |o| full(o.name())));
    l.d(k, "counts", (m.p.nested_type.len(), m.p.enum_type.len(), m.p.extension.len(), exts.len(), fs.len(), m.p.oneof_decl.len()));
    l.d(
        k,
        "reserved",
        (
            m.p.reserved_range.iter().map(|r| r.start() as u32..r.end() as u32).collect::<Vec<_>>(),
            &m.p.reserved_name,
            m.p.extension_range.iter().map(|r| r.start() as u32..r.end() as u32).collect::<Vec<_>>(),
        ),
    );
    let entry = m.p.options.as_ref().is_some_and(|o| o.map_entry());
    l.d(k, "map entry", entry);
    if entry {
        l.d(k, "key value", ("key", "value"));
    }
    l.d(k, "by number", q.nums.iter().filter_map(|&n| fs.iter().find(|f| f.p.number() as u32 == n).map(|f| (n, &f.at.name))).collect::<Vec<_>>());
    l.d(k, "extension by number", q.nums.iter().filter_map(|&n| exts.iter().find(|f| f.p.number() as u32 == n).map(|f| (n, &f.at.full))).collect::<Vec<_>>());
    l.d(k, "by name", q.simple.iter().filter(|n| fs.iter().any(|f| f.at.name == **n)).map(|n| (n, n)).collect::<Vec<_>>());
    l.d(k, "by JSON name", q.simple.iter().filter_map(|n| fs.iter().find(|f| f.json == *n).map(|f| (n, &f.at.name))).collect::<Vec<_>>());
    l.d(k, "extension by name", q.exts.iter().filter(|n| exts.iter().any(|f| f.at.full == **n)).map(|n| (n, n)).collect::<Vec<_>>());
    l.d(k, "extension by JSON name", q.exts.iter().filter(|n| exts.iter().any(|f| f.at.full == **n)).map(|n| (format!("[{n}]"), n)).collect::<Vec<_>>());
    for x in &fs {
        let k = format!("field {}", x.at.full);
        ref_field(l, &k, x, r, q);
        let o = x.p.oneof_index.map(|o| m.p.oneof_decl[o as usize].name());
        l.d(&k, "parent required oneof", (&m.at.full, x.p.label == Some(Label::Required as i32), o));
    }
    for (i, o) in m.p.oneof_decl.iter().enumerate() {
        let k = format!("oneof {}", full(o.name()));
        let k = &k;
        let mut path = m.at.path.clone();
        path.extend([8, i as i32]);
        l.d(k, "name path", (o.name(), path));
        l.p(k, "file", f.name());
        l.p(k, "parent", &m.at.full);
        let of: Vec<_> = fs.iter().filter(|f| f.p.oneof_index == Some(i as i32)).collect();
        l.d(k, "fields", sorted(names(of.iter(), |f| f.at.name.clone())));
        l.d(k, "synthetic", (of.len() == 1 && of[0].p.proto3_optional(), of.len()));
        l.p(k, "proto", enc(o));
        l.p(k, "options", opt("OneofOptions", &o.options, q));
    }
}

/// The Debug output of everything in the pool.
pub fn debug(p: &DescriptorPool) -> usize {
    let mut n = format!("{p:?}").len();
    n += format!("{p:#?}").len();
    for f in p.files() {
        n += format!("{f:?}").len();
    }
    for m in p.all_messages() {
        n += format!("{m:?}").len();
        for f in m.fields() {
            n += format!("{f:?} {:?}", f.kind()).len();
        }
        for f in m.oneofs() {
            n += format!("{f:?}").len();
        }
    }
    for m in p.all_enums() {
        n += format!("{m:?}").len();
        for f in m.values() {
            n += format!("{f:?}").len();
        }
    }
    for f in p.all_extensions() {
        n += format!("{f:?} {:?}", f.kind()).len();
    }
    for s in p.services() {
        n += format!("{s:?}").len();
        for f in s.methods() {
            n += format!("{f:?}").len();
        }
    }
    n
}

fn hexs(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
