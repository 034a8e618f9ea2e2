//! Reference model of descriptor pools: which sets of files are valid, how names resolve, and what
//! every descriptor reports. Written from the protobuf language specification (and from protoc's
//! documented behaviour); it shares no code with the crate.
use crate::schema::{ref_default, ref_json_name, ref_unescape, Ty};
use crate::value::V;
use prost_types::{
    field_descriptor_proto::{Label, Type},
    DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto, UninterpretedOption,
};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ent {
    Pkg,
    Msg(usize),
    Enum(usize),
    Field,
    Oneof,
    Value,
    Ext(usize),
    Svc(usize),
    Method,
}

impl Ent {
    fn aggregate(self) -> bool {
        matches!(self, Ent::Pkg | Ent::Msg(_) | Ent::Enum(_) | Ent::Svc(_))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Type,
    Msg,
    Ext,
}
impl Want {
    fn ok(self, e: Ent) -> bool {
        match self {
            Want::Type => matches!(e, Ent::Msg(_) | Ent::Enum(_)),
            Want::Msg => matches!(e, Ent::Msg(_)),
            Want::Ext => matches!(e, Ent::Ext(_)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Found {
    Yes(Ent),
    /// protoc stops at something of the wrong sort, a more lenient search goes on and finds this
    Lenient(Ent),
    No,
}

/// Where an entity is: file, path and the scope its own name is in.
#[derive(Clone, Debug)]
pub struct At {
    pub file: usize,
    pub path: Vec<i32>,
    pub full: String,
    pub name: String,
    pub parent: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct RField {
    pub at: At,
    pub p: FieldDescriptorProto,
    pub ty: Ty,
    pub packed: bool,
    pub presence: bool,
    pub json: String,
    pub default: Option<V>,
    pub extendee: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct RMsg {
    pub at: At,
    pub p: DescriptorProto,
    pub fields: Vec<RField>,
    pub exts: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct REnum {
    pub at: At,
    pub p: EnumDescriptorProto,
}
#[derive(Clone, Debug)]
pub struct RSvc {
    pub at: At,
    pub io: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct RFile {
    /// with resolved names, types and JSON names filled in
    pub p: FileDescriptorProto,
    pub visible: HashSet<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub files: Vec<RFile>,
    pub names: HashMap<String, (Ent, usize)>,
    pub msgs: Vec<RMsg>,
    pub enums: Vec<REnum>,
    pub exts: Vec<RField>,
    pub svcs: Vec<RSvc>,
    /// where a name was declared in the last batch
    decls: HashMap<String, (usize, Vec<i32>)>,
    /// the places an error about the last batch may point to
    pub blame: Vec<Place>,
    /// it may also point nowhere
    pub nowhere: bool,
}

/// A place in a file: an entity, or the part of it at fault.
#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub file: String,
    pub path: Vec<i32>,
    pub ends: &'static [&'static [i32]],
}
impl Place {
    pub fn is(&self, file: &str, path: &[i32]) -> bool {
        self.file == file && (self.path == path || path.strip_prefix(self.path.as_slice()).is_some_and(|r| self.ends.contains(&r)))
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Accept,
    Open(String),
    Refuse(String),
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_owned()
    } else {
        format!("{a}.{b}")
    }
}

fn ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && !b[0].is_ascii_digit() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

fn in_package(pkg: &str, name: &str) -> bool {
    pkg == name || (pkg.starts_with(name) && pkg.as_bytes().get(name.len()) == Some(&b'.'))
}

const NAME: &[&[i32]] = &[&[1]];
const PKG: &[&[i32]] = &[&[2]];
const NUMBER: &[&[i32]] = &[&[3]];

struct B {
    r: Ref,
    bad: Vec<String>,
    open: Vec<String>,
}

/// The value of an option which may be interpreted or not yet.
fn unint_bool(us: &[UninterpretedOption], name: &str) -> Option<bool> {
    us.iter()
        .find(|u| u.name.len() == 1 && u.name[0].name_part == name && !u.name[0].is_extension)
        .and_then(|u| match u.identifier_value.as_deref() {
            Some("true") => Some(true),
            Some("false") => Some(false),
            _ => None,
        })
}

impl Ref {
    pub fn file(&self, name: &str) -> Option<usize> {
        self.files.iter().position(|f| f.p.name() == name)
    }

    /// What adding these files in one call should do.
    pub fn add(&self, batch: &[FileDescriptorProto]) -> (Verdict, Ref) {
        let mut b = B { r: self.clone(), bad: vec![], open: vec![] };
        b.r.decls.clear();
        b.r.blame.clear();
        b.r.nowhere = false;
        let first = self.files.len();
        let mut seen = HashSet::new();
        let new: Vec<&FileDescriptorProto> = batch.iter().filter(|f| self.file(f.name()).is_none()).collect();
        for f in &new {
            if !seen.insert(f.name()) {
                b.bad.push(format!("file name {} twice", f.name()));
                b.r.nowhere = true;
            }
        }
        for f in &new {
            b.names(f);
        }
        if b.bad.is_empty() {
            for i in first..b.r.files.len() {
                b.imports(i);
            }
            for i in first..b.r.files.len() {
                b.resolve(i);
            }
            if b.bad.is_empty() {
                b.maps(first);
            }
            if b.bad.is_empty() {
                b.options(first);
                b.maps(first);
            }
        }
        let v = if b.open.iter().any(|o| o.starts_with("names:")) {
            Verdict::Open(b.open.join("; "))
        } else if !b.bad.is_empty() {
            Verdict::Refuse(b.bad.join("; "))
        } else if !b.open.is_empty() {
            Verdict::Open(b.open.join("; "))
        } else {
            Verdict::Accept
        };
        (v, b.r)
    }

    fn visible(&self, file: usize, full: &str) -> Option<Ent> {
        let &(e, f) = self.names.get(full)?;
        let vis = &self.files[file].visible;
        let ok = match e {
            Ent::Pkg => vis.iter().any(|&v| in_package(self.files[v].p.package(), full)),
            _ => vis.contains(&f),
        };
        ok.then_some(e)
    }

    /// `scope`: the full name of the innermost scope the reference is in.
    pub fn resolve(&self, file: usize, scope: &str, name: &str, want: Want) -> Found {
        if let Some(full) = name.strip_prefix('.') {
            return match self.visible(file, full) {
                Some(e) if want.ok(e) => Found::Yes(e),
                _ => Found::No,
            };
        }
        let first = name.split('.').next().unwrap();
        let mut scope = scope;
        let mut lenient = false;
        loop {
            if let Some(e) = self.visible(file, &join(scope, first)) {
                if first.len() < name.len() {
                    if e.aggregate() {
                        return match self.visible(file, &join(scope, name)) {
                            Some(e) if want.ok(e) && lenient => Found::Lenient(e),
                            Some(e) if want.ok(e) => Found::Yes(e),
                            _ => Found::No,
                        };
                    }
                } else if want.ok(e) {
                    return if lenient { Found::Lenient(e) } else { Found::Yes(e) };
                } else if want != Want::Type {
                    lenient = true;
                }
            }
            if scope.is_empty() {
                return Found::No;
            }
            scope = scope.rfind('.').map_or("", |i| &scope[..i]);
        }
    }
}

impl B {
    /// The entry of a map field has a key and a value.
    fn maps(&mut self, first: usize) {
        let all: Vec<RField> = self.r.msgs.iter().flat_map(|m| &m.fields).chain(&self.r.exts).filter(|f| f.at.file >= first).cloned().collect();
        for f in all {
            let Ty::Msg(t) = f.ty else { continue };
            let e = &self.r.msgs[t];
            if f.p.label() != Label::Repeated || !e.p.options.as_ref().is_some_and(|o| o.map_entry()) {
                continue;
            }
            let at = |n: i32| e.fields.iter().find(|f| f.p.number() == n && f.p.label() != Label::Repeated).map(|f| f.ty);
            let key = at(1).is_some_and(|k| (k.packable() || k == Ty::String) && !matches!(k, Ty::Double | Ty::Float | Ty::Enum(_)));
            if !key || at(2).is_none() {
                let why = format!("{}: {} is no map entry", f.at.full, e.at.full);
                self.bad(f.at.file, &f.at.path, &[&[6]], why);
            }
        }
    }

    fn bad(&mut self, file: usize, path: &[i32], ends: &'static [&'static [i32]], why: String) {
        self.bad.push(why);
        let file = self.r.files[file].p.name().to_owned();
        self.r.blame.push(Place { file, path: path.to_vec(), ends });
    }

    fn name(&mut self, full: &str, e: Ent, file: usize, path: &[i32]) {
        let old = match (self.r.decls.get(full), e) {
            (Some(_), Ent::Pkg) if matches!(self.r.names.get(full), Some((Ent::Pkg, _))) => None,
            (Some(x), _) => Some(x.clone()),
            (None, _) => {
                self.r.decls.insert(full.to_owned(), (file, path.to_vec()));
                None
            }
        };
        // the order in which the names of one file are declared is not laid down
        if let Some((f, p)) = old {
            if f == file {
                let file = self.r.files[f].p.name().to_owned();
                self.r.blame.push(Place { file, ends: if p.is_empty() { PKG } else { NAME }, path: p });
            }
        }
        match self.r.names.get(full) {
            None => {
                self.r.names.insert(full.to_owned(), (e, file));
            }
            Some((Ent::Pkg, _)) if e == Ent::Pkg => {}
            Some(_) => self.bad(file, path, if path.is_empty() { PKG } else { NAME }, format!("name {full} twice")),
        }
    }

    fn decl(&mut self, s: &str) {
        if !ident(s) {
            self.open.push(format!("names: {s:?} is no identifier"));
        }
    }

    fn names(&mut self, f: &FileDescriptorProto) {
        let file = self.r.files.len();
        let mut syntax = None;
        let p3 = match f.syntax.as_deref() {
            None | Some("proto2") => false,
            Some("proto3") => true,
            Some("") => {
                self.open.push("empty syntax".into());
                false
            }
            Some(s) => {
                syntax = Some(format!("syntax {s}"));
                false
            }
        };
        if f.name.is_none() || f.name() == "" {
            self.open.push("file without a name".into());
        }
        self.r.files.push(RFile { p: f.clone(), visible: HashSet::new() });
        if let Some(s) = syntax {
            self.bad(file, &[], &[&[12]], s);
        }
        let pkg = f.package().to_owned();
        if !pkg.is_empty() {
            if !pkg.split('.').all(ident) {
                self.open.push("names: package".into());
            }
            for (i, _) in pkg.match_indices('.') {
                self.name(&pkg[..i], Ent::Pkg, file, &[]);
            }
            self.name(&pkg, Ent::Pkg, file, &[]);
        }
        for (i, m) in f.message_type.iter().enumerate() {
            self.msg_names(file, p3, &pkg, &[4, i as i32], None, m);
        }
        for (i, e) in f.enum_type.iter().enumerate() {
            self.enum_names(file, p3, &pkg, &[5, i as i32], None, e);
        }
        for (i, s) in f.service.iter().enumerate() {
            self.decl(s.name());
            let full = join(&pkg, s.name());
            self.name(&full, Ent::Svc(self.r.svcs.len()), file, &[6, i as i32]);
            for (j, m) in s.method.iter().enumerate() {
                self.decl(m.name());
                self.name(&join(&full, m.name()), Ent::Method, file, &[6, i as i32, 2, j as i32]);
            }
            self.r.svcs.push(RSvc { at: At { file, path: vec![6, i as i32], full, name: s.name().into(), parent: None }, io: vec![] });
        }
        for (i, x) in f.extension.iter().enumerate() {
            self.ext_name(file, &pkg, vec![7, i as i32], None, x);
        }
    }

    fn ext_name(&mut self, file: usize, scope: &str, path: Vec<i32>, parent: Option<usize>, x: &FieldDescriptorProto) {
        self.decl(x.name());
        let full = join(scope, x.name());
        self.name(&full, Ent::Ext(self.r.exts.len()), file, &path);
        self.r.exts.push(RField {
            at: At { file, path, full, name: x.name().into(), parent },
            p: x.clone(),
            ty: Ty::Double,
            packed: false,
            presence: false,
            json: String::new(),
            default: None,
            extendee: None,
        });
    }

    fn enum_names(&mut self, file: usize, p3: bool, scope: &str, path: &[i32], parent: Option<usize>, e: &EnumDescriptorProto) {
        self.decl(e.name());
        let full = join(scope, e.name());
        self.name(&full, Ent::Enum(self.r.enums.len()), file, path);
        if e.value.is_empty() {
            self.bad(file, path, &[&[1], &[2]], format!("enum {full} is empty"));
        } else if p3 && e.value[0].number() != 0 {
            self.bad(file, path, &[&[2, 0], &[2, 0, 2]], format!("first value of {full} is not zero"));
        }
        for (k, v) in e.value.iter().enumerate() {
            self.decl(v.name());
            let vp: Vec<i32> = path.iter().copied().chain([2, k as i32]).collect();
            self.name(&join(scope, v.name()), Ent::Value, file, &vp);
            if v.number.is_none() {
                self.open.push("enum value without a number".into());
            }
        }
        self.r.enums.push(REnum { at: At { file, path: path.to_vec(), full, name: e.name().into(), parent }, p: e.clone() });
    }

    fn msg_names(&mut self, file: usize, p3: bool, scope: &str, path: &[i32], parent: Option<usize>, m: &DescriptorProto) {
        self.decl(m.name());
        let full = join(scope, m.name());
        let idx = self.r.msgs.len();
        self.name(&full, Ent::Msg(idx), file, path);
        self.r.msgs.push(RMsg { at: At { file, path: path.to_vec(), full: full.clone(), name: m.name().into(), parent }, p: m.clone(), fields: vec![], exts: vec![] });
        let mut lower = HashSet::new();
        let sub = |k: i32, i: usize| -> Vec<i32> { path.iter().copied().chain([k, i as i32]).collect() };
        for (i, f) in m.field.iter().enumerate() {
            self.decl(f.name());
            self.name(&join(&full, f.name()), Ent::Field, file, &sub(2, i));
            let l: String = f.name().chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect();
            if !lower.insert(l) && p3 {
                self.bad(file, &sub(2, i), NAME, format!("{full}: camel-case name of {} twice", f.name()));
            }
        }
        for (i, o) in m.oneof_decl.iter().enumerate() {
            self.decl(o.name());
            self.name(&join(&full, o.name()), Ent::Oneof, file, &sub(8, i));
        }
        for (i, n) in m.nested_type.iter().enumerate() {
            self.msg_names(file, p3, &full, &sub(3, i), Some(idx), n);
        }
        for (i, e) in m.enum_type.iter().enumerate() {
            self.enum_names(file, p3, &full, &sub(4, i), Some(idx), e);
        }
        for (i, x) in m.extension.iter().enumerate() {
            self.ext_name(file, &full, sub(6, i), Some(idx), x);
        }
    }

    fn imports(&mut self, i: usize) {
        let p = self.r.files[i].p.clone();
        let mut vis = HashSet::from([i]);
        let mut seen = HashSet::new();
        for (di, d) in p.dependency.iter().enumerate() {
            if !seen.insert(d) {
                self.open.push(format!("{d} imported twice"));
            }
            match self.r.file(d) {
                None => self.bad(i, &[3, di as i32], &[], format!("import {d} not found")),
                Some(j) => {
                    if j == i {
                        self.open.push("file imports itself".into());
                    }
                    // j and all its transitive public imports
                    let mut todo = vec![j];
                    let mut pubs = HashSet::new();
                    while let Some(j) = todo.pop() {
                        if !pubs.insert(j) {
                            continue;
                        }
                        vis.insert(j);
                        let q = &self.r.files[j].p;
                        for k in &q.public_dependency {
                            if let Some(t) = q.dependency.get(*k as usize).and_then(|d| self.r.file(d)) {
                                todo.push(t);
                            }
                        }
                    }
                }
            }
        }
        for k in p.public_dependency.iter().chain(&p.weak_dependency) {
            if *k < 0 || *k as usize >= p.dependency.len() {
                self.bad.push(format!("import index {k}"));
                self.r.nowhere = true;
            }
        }
        // cycles are not part of what the builder enforces
        let mut todo: Vec<usize> = p.dependency.iter().filter_map(|d| self.r.file(d)).collect();
        let mut reach = HashSet::new();
        while let Some(j) = todo.pop() {
            if reach.insert(j) {
                todo.extend(self.r.files[j].p.dependency.iter().filter_map(|d| self.r.file(d)));
            }
        }
        if reach.contains(&i) {
            self.open.push("import cycle".into());
        }
        self.r.files[i].visible = vis;
    }

    fn number(&mut self, msg: usize, f: &FieldDescriptorProto, full: &str, file: usize, path: &[i32]) {
        let n = f.number();
        if !(1..=536_870_911).contains(&n) || (19000..=19999).contains(&n) {
            let set = self.r.msgs[msg].p.options.as_ref().is_some_and(|o| o.message_set_wire_format());
            if set {
                self.open.push("message set".into());
            } else {
                self.bad(file, path, NUMBER, format!("{full}: number {n}"));
            }
        }
        let m = self.r.msgs[msg].p.clone();
        if m.reserved_range.iter().any(|r| r.start() <= n && n < r.end()) {
            self.bad(file, path, NUMBER, format!("{full}: number {n} is reserved"));
        }
        let inx = m.extension_range.iter().any(|r| r.start() <= n && n < r.end());
        match (&f.extendee, inx) {
            (None, true) => self.bad(file, path, NUMBER, format!("{full}: number {n} is for extensions")),
            (Some(_), false) => self.bad(file, path, NUMBER, format!("{full}: {n} is no extension number")),
            _ => {}
        }
    }

    fn found(&mut self, f: Found, what: &str, file: usize, path: &[i32], ends: &'static [&'static [i32]]) -> Option<Ent> {
        match f {
            Found::Yes(e) => Some(e),
            Found::Lenient(e) => {
                self.open.push(format!("{what}: found behind something of another sort"));
                Some(e)
            }
            Found::No => {
                self.bad(file, path, ends, format!("{what} does not resolve"));
                None
            }
        }
    }

    fn full_of(&self, e: Ent) -> String {
        match e {
            Ent::Msg(m) => self.r.msgs[m].at.full.clone(),
            Ent::Enum(m) => self.r.enums[m].at.full.clone(),
            Ent::Ext(m) => self.r.exts[m].at.full.clone(),
            _ => unreachable!(),
        }
    }

    /// Type, label, default and so on; `p` is completed.
    fn field(&mut self, at: At, p: &mut FieldDescriptorProto, p3: bool, ext: bool) -> RField {
        let scope = at.full[..at.full.len() - at.name.len()].trim_end_matches('.').to_owned();
        let label = match p.label {
            None => Label::Optional,
            Some(l) => Label::try_from(l).unwrap_or_else(|_| {
                self.open.push("label".into());
                Label::Optional
            }),
        };
        let rep = label == Label::Repeated;
        if p3 && label == Label::Required {
            self.open.push("proto3: required".into());
        }
        let opens = self.open.len();
        let ty = if p.type_name().is_empty() {
            if p.type_name.is_some() {
                self.open.push("empty type name".into());
            }
            let t = match p.r#type {
                None => {
                    self.open.push("no type".into());
                    Type::Double
                }
                Some(t) => Type::try_from(t).unwrap_or_else(|_| {
                    self.open.push("type".into());
                    Type::Double
                }),
            };
            match t {
                Type::Double => Ty::Double,
                Type::Float => Ty::Float,
                Type::Int64 => Ty::Int64,
                Type::Uint64 => Ty::Uint64,
                Type::Int32 => Ty::Int32,
                Type::Fixed64 => Ty::Fixed64,
                Type::Fixed32 => Ty::Fixed32,
                Type::Bool => Ty::Bool,
                Type::String => Ty::String,
                Type::Bytes => Ty::Bytes,
                Type::Uint32 => Ty::Uint32,
                Type::Sfixed32 => Ty::Sfixed32,
                Type::Sfixed64 => Ty::Sfixed64,
                Type::Sint32 => Ty::Sint32,
                Type::Sint64 => Ty::Sint64,
                Type::Enum | Type::Message | Type::Group => {
                    self.bad(at.file, &at.path, &[&[5], &[6]], format!("{}: no type name", at.full));
                    Ty::Double
                }
            }
        } else {
            let r = self.r.resolve(at.file, &scope, p.type_name(), Want::Type);
            match self.found(r, &format!("type {} of {}", p.type_name(), at.full), at.file, &at.path, &[&[6]]) {
                None => Ty::Double,
                Some(e) => {
                    let t = p.r#type;
                    p.type_name = Some(format!(".{}", self.full_of(e)));
                    match e {
                        Ent::Msg(m) if t == Some(Type::Group as i32) => Ty::Group(m),
                        Ent::Msg(m) => {
                            if t.is_some() && t != Some(Type::Message as i32) {
                                self.open.push("a message, but another type is given".into());
                            }
                            p.set_type(Type::Message);
                            Ty::Msg(m)
                        }
                        Ent::Enum(m) => {
                            if t.is_some() && t != Some(Type::Enum as i32) {
                                self.open.push("an enum, but another type is given".into());
                            }
                            if t != Some(Type::Group as i32) {
                                p.set_type(Type::Enum);
                            }
                            let ef = self.r.enums[m].at.file;
                            if p3 && self.r.files[ef].p.syntax() != "proto3" {
                                self.open.push("proto2 enum in proto3".into());
                            }
                            Ty::Enum(m)
                        }
                        _ => unreachable!(),
                    }
                }
            }
        };
        let unsure = self.open.len() > opens;
        if p3 && matches!(ty, Ty::Group(_)) {
            self.open.push("group in proto3".into());
        }
        let opts = p.options.clone().unwrap_or_default();
        let popt = opts.packed.or_else(|| unint_bool(&opts.uninterpreted_option, "packed"));
        if popt.is_some() && (!rep || !ty.packable()) {
            self.open.push("packed on a field which cannot be".into());
        }
        if opts.lazy.is_some() || opts.jstype.is_some() || opts.ctype.is_some() {
            self.open.push("options with rules of their own".into());
        }
        let packed = rep && ty.packable() && popt.unwrap_or(p3);
        let presence = !rep && (ext || !p3 || p.oneof_index.is_some() || p.proto3_optional() || ty.msg().is_some());
        if p.proto3_optional.is_some() && (!p3 || ext || p.oneof_index.is_none() || rep) {
            self.open.push("proto3_optional elsewhere".into());
        }
        if p.oneof_index.is_some() && (label != Label::Optional || ext) {
            self.open.push("label in a oneof".into());
        }
        let default = p.default_value.clone().and_then(|d| {
            if rep || p3 {
                self.open.push("default value of a repeated field or in proto3".into());
            }
            match self.default(ty, &d) {
                _ if unsure => None,
                Some(Some(v)) => Some(v),
                Some(None) => {
                    self.open.push(format!("default {d:?}"));
                    None
                }
                None => {
                    self.bad(at.file, &at.path, &[&[7]], format!("{}: default {d:?}", at.full));
                    None
                }
            }
        });
        if p.json_name.is_none() {
            p.json_name = Some(ref_json_name(&at.name));
        } else if ext && p.json_name() != ref_json_name(&at.name) {
            self.open.push("JSON name of an extension".into());
        }
        if p.json_name().starts_with('[') || p.json_name().contains('\0') {
            self.open.push("JSON name".into());
        }
        let json = if ext { format!("[{}]", at.full) } else { p.json_name().to_owned() };
        RField { at, p: p.clone(), ty, packed, presence, json, default, extendee: None }
    }

    /// None = invalid, Some(None) = unsettled.
    fn default(&self, ty: Ty, d: &str) -> Option<Option<V>> {
        let int = |d: &str| {
            let x = d.strip_prefix('-').unwrap_or(d);
            !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) && (x == "0" || !x.starts_with('0')) && d != "-0"
        };
        let oddint = |d: &str| {
            // signs, blanks, other bases
            let x = d.trim_start().trim_start_matches(['-', '+']);
            !x.is_empty() && (x.bytes().all(|c| c.is_ascii_digit()) && (d != x && !d.starts_with('-') || x.starts_with('0') || d == "-0") || x.starts_with("0x") || x.starts_with("0X"))
        };
        match ty {
            Ty::Enum(e) => self.r.enums[e].p.value.iter().find(|v| v.name() == d).map(|v| Some(V::E(v.number()))),
            Ty::Msg(_) | Ty::Group(_) => None,
            Ty::Bool | Ty::String => ref_default(ty, d).map(Some),
            Ty::Bytes => match ref_unescape(d) {
                Some(v) => Some(Some(V::Y(v))),
                // protoc's own unescaping is lenient
                None => Some(None),
            },
            Ty::Double | Ty::Float => {
                let plain = {
                    let x = d.strip_prefix('-').unwrap_or(d);
                    let (m, e) = x.split_once(['e', 'E']).map_or((x, None), |(m, e)| (m, Some(e)));
                    let (i, f) = m.split_once('.').map_or((m, None), |(i, f)| (i, Some(f)));
                    let dig = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
                    dig(i) && f.is_none_or(dig) && e.is_none_or(|e| dig(e.strip_prefix(['+', '-']).unwrap_or(e)))
                };
                if plain || ["inf", "-inf", "nan"].contains(&d) {
                    Some(ref_default(ty, d))
                } else if d.parse::<f64>().is_ok() || d.bytes().all(|c| c.is_ascii_alphanumeric() || b"+-. ".contains(&c)) && d.bytes().any(|c| c.is_ascii_digit()) || d.to_ascii_lowercase().contains("nan") || d.to_ascii_lowercase().contains("inf") {
                    Some(None)
                } else {
                    None
                }
            }
            _ => {
                if int(d) {
                    if d.starts_with('-') && ref_default(ty, d).is_none() && matches!(ty, Ty::Uint32 | Ty::Uint64 | Ty::Fixed32 | Ty::Fixed64) {
                        // strtoul wraps; never written by protoc
                        return Some(None);
                    }
                    // out of range: protoc's strtol saturates or truncates silently
                    match ref_default(ty, d) {
                        Some(v) => Some(Some(v)),
                        None => Some(None),
                    }
                } else if oddint(d) {
                    Some(None)
                } else {
                    None
                }
            }
        }
    }

    fn resolve(&mut self, i: usize) {
        let mut p = self.r.files[i].p.clone();
        let p3 = p.syntax() == "proto3";
        let mi: Vec<usize> = (0..self.r.msgs.len()).filter(|&m| self.r.msgs[m].at.file == i).collect();
        for m in mi {
            self.message(m, p3);
        }
        for e in 0..self.r.enums.len() {
            if self.r.enums[e].at.file == i {
                self.enum_(e);
            }
        }
        for s in 0..self.r.svcs.len() {
            if self.r.svcs[s].at.file != i {
                continue;
            }
            let at = self.r.svcs[s].at.clone();
            let sp = &mut p.service[at.path[1] as usize];
            let mut io = vec![];
            for (j, m) in sp.method.iter_mut().enumerate() {
                let one = |b: &mut B, t: &mut Option<String>, ends: &'static [&'static [i32]]| -> usize {
                    let name = t.clone().unwrap_or_default();
                    let r = b.r.resolve(i, &at.full, &name, Want::Msg);
                    match b.found(r, &format!("{name} in {}", at.full), i, &[6, at.path[1], 2, j as i32], ends) {
                        Some(Ent::Msg(m)) => {
                            *t = Some(format!(".{}", b.r.msgs[m].at.full));
                            m
                        }
                        _ => 0,
                    }
                };
                let a = one(self, &mut m.input_type, &[&[2]]);
                let z = one(self, &mut m.output_type, &[&[3]]);
                io.push((a, z));
            }
            self.r.svcs[s].io = io;
        }
        for x in 0..self.r.exts.len() {
            if self.r.exts[x].at.file != i {
                continue;
            }
            let at = self.r.exts[x].at.clone();
            let mut q = self.r.exts[x].p.clone();
            let scope = at.full[..at.full.len() - at.name.len()].trim_end_matches('.').to_owned();
            let r = self.r.resolve(i, &scope, q.extendee(), Want::Msg);
            let target = match self.found(r, &format!("extendee {} of {}", q.extendee(), at.full), i, &at.path, &[&[2]]) {
                Some(Ent::Msg(m)) => {
                    q.extendee = Some(format!(".{}", self.r.msgs[m].at.full));
                    self.number(m, &q.clone(), &at.full, i, &at.path);
                    if self.r.msgs[m].exts.iter().any(|&e| self.r.exts[e].p.number() == q.number()) {
                        self.bad(i, &at.path, NUMBER, format!("{}: extension number {} twice", self.r.msgs[m].at.full, q.number()));
                    }
                    self.r.msgs[m].exts.push(x);
                    if q.label == Some(Label::Required as i32) {
                        self.open.push("required extension".into());
                    }
                    if p3 && !self.r.msgs[m].at.full.starts_with("google.protobuf.") {
                        self.open.push("extension in proto3".into());
                    }
                    if self.r.msgs[m].p.options.as_ref().is_some_and(|o| o.message_set_wire_format()) {
                        self.open.push("message set".into());
                    }
                    Some(m)
                }
                _ => None,
            };
            if q.oneof_index.is_some() {
                self.open.push("extension in a oneof".into());
            }
            let mut f = self.field(at, &mut q, p3, true);
            if matches!(f.ty, Ty::Msg(m) if self.r.msgs[m].p.options.as_ref().is_some_and(|o| o.map_entry())) {
                self.open.push("map entry elsewhere".into());
            }
            f.extendee = target;
            self.r.exts[x] = f;
        }
        // write the completed parts back
        fn put_fields(r: &Ref, file: usize, path: &mut Vec<i32>, ms: &mut [DescriptorProto], k: i32) {
            for (n, m) in ms.iter_mut().enumerate() {
                path.extend([k, n as i32]);
                let rm = r.msgs.iter().find(|x| x.at.file == file && x.at.path == *path).unwrap();
                for (q, f) in m.field.iter_mut().zip(&rm.fields) {
                    *q = f.p.clone();
                }
                for (j, q) in m.extension.iter_mut().enumerate() {
                    path.extend([6, j as i32]);
                    *q = r.exts.iter().find(|x| x.at.file == file && x.at.path == *path).unwrap().p.clone();
                    path.truncate(path.len() - 2);
                }
                put_fields(r, file, path, &mut m.nested_type, 3);
                path.truncate(path.len() - 2);
            }
        }
        put_fields(&self.r, i, &mut vec![], &mut p.message_type, 4);
        for (j, q) in p.extension.iter_mut().enumerate() {
            *q = self.r.exts.iter().find(|x| x.at.file == i && x.at.path == [7, j as i32]).unwrap().p.clone();
        }
        self.r.files[i].p = p;
        self.refresh(i);
    }

    /// Message, enum protos out of the file proto.
    fn refresh(&mut self, i: usize) {
        let p = self.r.files[i].p.clone();
        for m in self.r.msgs.iter_mut().filter(|m| m.at.file == i) {
            m.p = find_msg(&p, &m.at.path).clone();
            for (f, q) in m.fields.iter_mut().zip(&m.p.field) {
                f.p = q.clone();
            }
        }
        for e in self.r.enums.iter_mut().filter(|e| e.at.file == i) {
            e.p = if e.at.path.len() == 2 {
                p.enum_type[e.at.path[1] as usize].clone()
            } else {
                let n = e.at.path.len();
                find_msg(&p, &e.at.path[..n - 2]).enum_type[e.at.path[n - 1] as usize].clone()
            };
        }
        for x in self.r.exts.iter_mut().filter(|x| x.at.file == i) {
            let n = x.at.path.len();
            x.p = if n == 2 { p.extension[x.at.path[1] as usize].clone() } else { find_msg(&p, &x.at.path[..n - 2]).extension[x.at.path[n - 1] as usize].clone() };
        }
    }

    fn enum_(&mut self, e: usize) {
        let at = self.r.enums[e].at.clone();
        let p = self.r.enums[e].p.clone();
        let o = p.options.clone().unwrap_or_default();
        let alias = o.allow_alias.or_else(|| unint_bool(&o.uninterpreted_option, "allow_alias"));
        let mut seen = HashSet::new();
        let mut dup = false;
        for (k, v) in p.value.iter().enumerate() {
            let vp: Vec<i32> = at.path.iter().copied().chain([2, k as i32]).collect();
            if !seen.insert(v.number()) {
                dup = true;
                if alias != Some(true) {
                    self.bad(at.file, &vp, &[&[2]], format!("{}: number {} twice", at.full, v.number()));
                }
            }
            if p.reserved_range.iter().any(|r| r.start() <= v.number() && v.number() <= r.end()) {
                self.bad(at.file, &vp, &[&[2]], format!("{}: number {} is reserved", at.full, v.number()));
            }
            if p.reserved_name.iter().any(|n| n == v.name()) {
                self.open.push("reserved name used".into());
            }
        }
        let _ = dup;
        if self.r.files[at.file].p.syntax() == "proto3" || true {
            // values which differ in case and prefix only
            let strip = |n: &str| -> String { n.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect() };
            let pre = strip(p.name());
            let mut short: HashMap<String, i32> = HashMap::new();
            for v in &p.value {
                let s = strip(v.name());
                let s = s.strip_prefix(&pre).filter(|x| !x.is_empty()).map(str::to_owned).unwrap_or(s);
                if short.insert(s, v.number()).is_some_and(|n| n != v.number()) {
                    self.open.push("enum values which clash without prefix".into());
                }
            }
        }
        ranges(&mut self.open, p.reserved_range.iter().map(|r| (r.start.map(i64::from), r.end.map(|e| e as i64 + 1))), i32::MIN as i64, i32::MAX as i64 + 1);
        let mut n = HashSet::new();
        if p.reserved_name.iter().any(|x| !n.insert(x)) {
            self.open.push("reserved name twice".into());
        }
    }

    fn message(&mut self, m: usize, p3: bool) {
        let at = self.r.msgs[m].at.clone();
        let p = self.r.msgs[m].p.clone();
        let mut nums = HashSet::new();
        let mut jsons = HashSet::new();
        let mut fields = vec![];
        let mut oneofs = vec![0; p.oneof_decl.len()];
        let mut ois = vec![];
        for (i, f) in p.field.iter().enumerate() {
            let full = join(&at.full, f.name());
            let mut q = f.clone();
            if q.extendee.is_some() {
                self.open.push("extendee of a field".into());
            }
            if q.number.is_none() {
                self.open.push("no number".into());
            }
            let fp: Vec<i32> = at.path.iter().copied().chain([2, i as i32]).collect();
            self.number(m, f, &full, at.file, &fp);
            let fat = At { file: at.file, path: at.path.iter().copied().chain([2, i as i32]).collect(), full: full.clone(), name: f.name().into(), parent: Some(m) };
            let rf = self.field(fat, &mut q, p3, false);
            if !nums.insert(f.number()) {
                self.bad(at.file, &fp, NUMBER, format!("{full}: number {} twice", f.number()));
            }
            if !jsons.insert(rf.json.clone()) {
                self.bad(at.file, &fp, &[&[1], &[10]], format!("{full}: JSON name {} twice", rf.json));
            }
            if let Some(o) = f.oneof_index {
                ois.push(o);
                match oneofs.get_mut(o as usize) {
                    Some(n) if o >= 0 => *n += 1,
                    _ => {
                        self.bad.push(format!("{full}: oneof {o}"));
                        self.r.nowhere = true;
                    }
                }
            }
            if p.reserved_name.iter().any(|n| n == f.name()) {
                self.open.push("reserved name used".into());
            }
            fields.push(rf);
        }
        if oneofs.contains(&0) {
            self.open.push("oneof without fields".into());
        }
        // fields of a oneof must be together, synthetic oneofs last
        let mut last = -1;
        let mut closed = HashSet::new();
        for f in &p.field {
            let o = f.oneof_index.unwrap_or(-1);
            if o != last {
                if o >= 0 && closed.contains(&o) {
                    self.open.push("fields of a oneof are not together".into());
                }
                closed.insert(last);
                last = o;
            }
        }
        for (i, _) in p.oneof_decl.iter().enumerate() {
            let fs: Vec<_> = p.field.iter().filter(|f| f.oneof_index == Some(i as i32)).collect();
            let syn = fs.iter().any(|f| f.proto3_optional());
            if syn && fs.len() != 1 {
                self.open.push("synthetic oneof with several fields".into());
            }
            if !syn && p.field.iter().any(|f| f.proto3_optional() && f.oneof_index.is_some_and(|o| o < i as i32)) {
                self.open.push("synthetic oneof before another".into());
            }
        }
        let o = p.options.clone().unwrap_or_default();
        if o.message_set_wire_format() {
            self.open.push("message set".into());
        }
        // map entries
        if o.map_entry.is_some() {
            let parent = at.parent.map(|x| &self.r.msgs[x].p);
            let camel: String = {
                let n = at.name.strip_suffix("Entry").unwrap_or("");
                n.to_owned()
            };
            let user = parent.is_some_and(|q| {
                q.field.iter().filter(|f| f.type_name().rsplit('.').next() == Some(&at.name)).count() == 1
                    && q.field.iter().any(|f| f.type_name().rsplit('.').next() == Some(&at.name) && map_name(f.name()) == camel && f.label == Some(Label::Repeated as i32))
            });
            let f = |n: i32, name: &str| fields.iter().find(|f| f.p.number() == n && f.at.name == name && f.p.label() == Label::Optional);
            let shape = o.map_entry == Some(true)
                && fields.len() == 2
                && f(2, "value").is_some_and(|v| !matches!(v.ty, Ty::Group(_)) && v.p.default_value.is_none())
                && f(1, "key").is_some_and(|k| k.ty.packable() && !matches!(k.ty, Ty::Double | Ty::Float | Ty::Enum(_)) && k.p.default_value.is_none() || matches!(k.ty, Ty::String))
                && p.nested_type.is_empty()
                && p.enum_type.is_empty()
                && p.extension.is_empty()
                && p.extension_range.is_empty()
                && p.oneof_decl.is_empty()
                && fields[0].p.number() == 1;
            if !user || !shape {
                self.open.push("map entry".into());
            }
        }
        for f in &fields {
            if let Ty::Msg(t) | Ty::Group(t) = f.ty {
                let is = self.r.msgs[t].p.options.as_ref().is_some_and(|o| o.map_entry());
                if is && (matches!(f.ty, Ty::Group(_)) || self.r.msgs[t].at.parent != Some(m) || f.p.label != Some(Label::Repeated as i32) || f.p.oneof_index.is_some()) {
                    self.open.push("map entry used elsewhere".into());
                }
            }
        }
        // protoc 3.21 generates the map entry names from the field name; what it does with
        // fields which merely look alike is not part of the contract
        ranges(&mut self.open, p.reserved_range.iter().map(|r| (r.start.map(i64::from), r.end.map(i64::from))), 1, 536_870_912);
        ranges(&mut self.open, p.extension_range.iter().map(|r| (r.start.map(i64::from), r.end.map(i64::from))), 1, 536_870_912);
        let all = p.reserved_range.iter().map(|r| (r.start(), r.end())).chain(p.extension_range.iter().map(|r| (r.start(), r.end()))).collect::<Vec<_>>();
        for (i, a) in all.iter().enumerate() {
            for b in &all[i + 1..] {
                if a.0 < b.1 && b.0 < a.1 {
                    self.open.push("ranges overlap".into());
                }
            }
        }
        if p3 && !p.extension_range.is_empty() {
            self.open.push("extension range in proto3".into());
        }
        let mut n = HashSet::new();
        if p.reserved_name.iter().any(|x| !n.insert(x)) {
            self.open.push("reserved name twice".into());
        }
        self.r.msgs[m].fields = fields;
    }

    fn options(&mut self, first: usize) {
        let mut us = 0;
        for i in first..self.r.files.len() {
            let p = self.r.files[i].p.clone();
            each_unint(&p, &mut |u| {
                us += u.len();
                if u.iter().any(|u| u.name.len() == 1 && !u.name[0].is_extension && u.name[0].name_part == "nonesuch") {
                    self.bad.push("no such option".into());
                    self.r.nowhere = true;
                }
            });
        }
        if us > 0 {
            self.open.push("uninterpreted options".into());
        }
    }
}

fn map_name(n: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in n.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

fn ranges(open: &mut Vec<String>, rs: impl Iterator<Item = (Option<i64>, Option<i64>)>, lo: i64, hi: i64) {
    let rs: Vec<_> = rs.collect();
    for (i, (a, b)) in rs.iter().enumerate() {
        let (Some(a), Some(b)) = (a, b) else {
            open.push("range without an end".into());
            continue;
        };
        if a >= b || *a < lo || *b > hi {
            open.push("odd range".into());
        }
        for (c, d) in &rs[i + 1..] {
            if let (Some(c), Some(d)) = (c, d) {
                if a < d && c < b {
                    open.push("ranges overlap".into());
                }
            }
        }
    }
}

/// All uninterpreted options of a file.
pub fn each_unint(p: &FileDescriptorProto, f: &mut dyn FnMut(&[UninterpretedOption])) {
    fn msg(m: &DescriptorProto, f: &mut dyn FnMut(&[UninterpretedOption])) {
        if let Some(o) = &m.options {
            f(&o.uninterpreted_option);
        }
        for x in m.field.iter().chain(&m.extension) {
            if let Some(o) = &x.options {
                f(&o.uninterpreted_option);
            }
        }
        for x in &m.oneof_decl {
            if let Some(o) = &x.options {
                f(&o.uninterpreted_option);
            }
        }
        for x in &m.extension_range {
            if let Some(o) = &x.options {
                f(&o.uninterpreted_option);
            }
        }
        for e in &m.enum_type {
            en(e, f);
        }
        for n in &m.nested_type {
            msg(n, f);
        }
    }
    fn en(e: &EnumDescriptorProto, f: &mut dyn FnMut(&[UninterpretedOption])) {
        if let Some(o) = &e.options {
            f(&o.uninterpreted_option);
        }
        for v in &e.value {
            if let Some(o) = &v.options {
                f(&o.uninterpreted_option);
            }
        }
    }
    if let Some(o) = &p.options {
        f(&o.uninterpreted_option);
    }
    for m in &p.message_type {
        msg(m, f);
    }
    for e in &p.enum_type {
        en(e, f);
    }
    for x in &p.extension {
        if let Some(o) = &x.options {
            f(&o.uninterpreted_option);
        }
    }
    for s in &p.service {
        if let Some(o) = &s.options {
            f(&o.uninterpreted_option);
        }
        for m in &s.method {
            if let Some(o) = &m.options {
                f(&o.uninterpreted_option);
            }
        }
    }
}

pub fn find_msg<'a>(p: &'a FileDescriptorProto, path: &[i32]) -> &'a DescriptorProto {
    let mut m = &p.message_type[path[1] as usize];
    for c in path[2..].chunks(2) {
        assert_eq!(c[0], 3);
        m = &m.nested_type[c[1] as usize];
    }
    m
}
