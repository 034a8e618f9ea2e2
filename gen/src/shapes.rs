//! The enumerated schemas, settings and derive arguments.
use crate::report::{no_panic, Ctx};
use prost::Message;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Pool,
    Bytes,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    CompileProtos,
    WithConfig,
    Configure,
    /// `WithConfig`, with a relative path of the descriptor set while `OUT_DIR` is another directory
    Relative,
    /// `WithConfig`, with settings of the user's own in the configuration
    Custom,
    /// `Configure`, where the schemas are named without their directory
    Named,
}

#[derive(Clone)]
pub struct Conf {
    pub files: Vec<(String, String)>,
    /// The files named to the compiler
    pub roots: Vec<String>,
    pub packages: Vec<String>,
    pub mode: Mode,
    pub api: Api,
    /// marker -> full name
    pub messages: BTreeMap<usize, String>,
}

impl Conf {
    pub fn text(&self) -> String {
        let f: Vec<String> = self.files.iter().map(|(n, t)| format!("{n}: {}", t.replace('\n', " "))).collect();
        format!("{:?} {:?} {}", self.mode, self.api, f.join(" / "))
    }
}

/// What a name stands for in a scope
#[derive(Clone, Debug)]
pub enum Node {
    Message(Forest),
    Enum,
}
pub type Forest = Vec<(&'static str, Node)>;

/// All forests over the names up to the depth; with enums or without
pub fn forests(names: &[&'static str], depth: usize, enums: bool) -> Vec<Forest> {
    if depth == 0 {
        return vec![vec![]];
    }
    let below = forests(names, depth - 1, enums);
    let mut out: Vec<Forest> = vec![vec![]];
    for n in names {
        let mut next = vec![];
        for f in &out {
            next.push(f.clone());
            if enums {
                next.push(f.iter().cloned().chain([(*n, Node::Enum)]).collect());
            }
            for b in &below {
                next.push(f.iter().cloned().chain([(*n, Node::Message(b.clone()))]).collect());
            }
        }
        out = next;
    }
    out
}

fn count(f: &Forest) -> usize {
    f.iter().map(|(_, n)| if let Node::Message(b) = n { 1 + count(b) } else { 0 }).sum()
}

/// What else each message has
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Extra {
    Nothing,
    /// fields of the nested types, a oneof, a map, an enum, itself
    Full,
    /// A map whose entry is called like a message elsewhere may be
    Maps,
    Groups,
}

pub struct Writer {
    next: usize,
    pub messages: BTreeMap<usize, String>,
}

impl Writer {
    pub fn new() -> Writer {
        Writer { next: 0, messages: BTreeMap::new() }
    }
    pub fn file(&mut self, package: &str, imports: &[&str], forest: &Forest, extra: Extra) -> String {
        let syntax = if extra == Extra::Groups { "proto2" } else { "proto3" };
        let mut s = format!("syntax = \"{syntax}\";\n");
        if !package.is_empty() {
            s += &format!("package {package};\n");
        }
        for i in imports {
            s += &format!("import \"{i}\";\n");
        }
        self.forest(package, forest, extra, &mut s);
        s
    }
    fn forest(&mut self, scope: &str, forest: &Forest, extra: Extra, s: &mut String) {
        for (n, node) in forest {
            let id = self.next;
            self.next += 1;
            let full = if scope.is_empty() { n.to_string() } else { format!("{scope}.{n}") };
            match node {
                Node::Enum => *s += &format!("enum {n} {{ V{id} = 0; }}\n"),
                Node::Message(b) => {
                    let opt = if extra == Extra::Groups { "optional " } else { "" };
                    *s += &format!("message {n} {{ {opt}int32 marker_{id} = 1;\n");
                    self.forest(&full, b, extra, s);
                    match extra {
                        Extra::Nothing => {}
                        Extra::Full => {
                            for (k, (c, _)) in b.iter().enumerate() {
                                *s += &format!("{c} f{k} = {}; repeated {c} r{k} = {};\n", 10 + k, 20 + k);
                            }
                            *s += &format!("{n} self_ = 2; oneof o {{ string s = 3; .{full} m = 4; }} map<string, .{full}> k = 5; enum E {{ W{id} = 0; }} E e = 6; optional bytes y = 7;\n");
                        }
                        Extra::Maps => *s += &format!("map<string, .{full}> aa = 2; map<int32, int32> b = 3;\n"),
                        Extra::Groups => {
                            let g = self.next;
                            self.next += 1;
                            *s += &format!("optional group G = 2 {{ optional int32 marker_{g} = 1; }}\n");
                            self.messages.insert(g, format!("{full}.G"));
                        }
                    }
                    *s += "}\n";
                    self.messages.insert(id, full);
                }
            }
        }
    }
}

fn one(package: &str, f: &Forest, extra: Extra, mode: Mode, api: Api) -> Conf {
    let mut w = Writer::new();
    let t = w.file(package, &[], f, extra);
    Conf { files: vec![("a.proto".into(), t)], roots: vec!["a.proto".into()], packages: vec![package.into()], mode, api, messages: w.messages }
}

fn two(p: &str, q: &str, f: &Forest, g: &Forest, import: bool, mode: Mode, api: Api) -> Conf {
    let mut w = Writer::new();
    let b = w.file(q, &[], g, Extra::Nothing);
    let a = w.file(p, if import { &["b.proto"] } else { &[] }, f, Extra::Nothing);
    let roots = if import { vec!["a.proto".into()] } else { vec!["b.proto".into(), "a.proto".into()] };
    let mut packages = vec![p.to_owned()];
    if q != p {
        packages.push(q.to_owned());
    }
    Conf { files: vec![("a.proto".into(), a), ("b.proto".into(), b)], roots, packages, mode, api, messages: w.messages }
}

pub fn all(thorough: bool) -> Vec<Conf> {
    use {Api::*, Extra::*, Mode::*};
    let mut out = vec![];
    let c_depth = if thorough { 8 } else { 5 };
    let ab = ["A", "B"];
    let with_message = |f: &Forest| count(f) > 0;
    // Every forest of the full depth.
    let deep: Vec<Forest> = if thorough { forests(&ab, 3, false) } else { forests(&ab, 2, true) };
    for f in deep.iter().filter(|f| with_message(f)) {
        out.push(one("", f, Nothing, Pool, WithConfig));
    }
    if thorough {
        for f in forests(&ab, 2, true).iter().filter(|f| with_message(f)) {
            for p in ["", "p", "q.p"] {
                for m in [Pool, Bytes] {
                    out.push(one(p, f, Nothing, m, WithConfig));
                }
            }
        }
    }
    // Chains of distinct names, with every setting and way to call.
    for n in 3..=c_depth {
        let mut f: Forest = vec![];
        for k in (0..n).rev() {
            f = vec![(["A", "B", "C", "D", "E", "F", "G", "H"][k], Node::Message(f))];
        }
        for m in [Pool, Bytes] {
            for a in [CompileProtos, WithConfig, Configure, Relative, Custom, Named] {
                out.push(one("p", &f, Nothing, m, a));
            }
        }
    }
    // A chain of one name, of different depths.
    for n in 1..=8 {
        let mut f: Forest = vec![];
        for _ in 0..n {
            f = vec![("A", Node::Message(f))];
        }
        out.push(one("p", &f, Nothing, Pool, WithConfig));
    }
    // Every setting and way to call, and what else messages may hold.
    for f in forests(&ab, 2, false).iter().filter(|f| with_message(f)) {
        for p in ["", "p", "q.p"] {
            out.push(one(p, f, Nothing, Bytes, Configure));
        }
        for e in [Full, Maps, Groups] {
            out.push(one("p", f, e, Pool, WithConfig));
        }
        for e in if thorough { vec![Full, Maps, Groups] } else { vec![] } {
            out.push(one("", f, e, Bytes, Configure));
        }
    }
    for f in forests(&ab, 1, true).iter().filter(|f| with_message(f)) {
        for e in [Nothing, Full, Maps, Groups] {
            for m in [Pool, Bytes] {
                for a in [CompileProtos, WithConfig, Configure, Relative, Custom, Named] {
                    for p in ["", "p", "q.p"] {
                        out.push(one(p, f, e, m, a));
                    }
                }
            }
        }
    }
    // Names which the generated code changes.
    for n in ["a", "type", "Self", "self", "HTTPServer", "snake_case", "A_B", "Option", "String", "Vec", "Message", "Box", "A1", "_A"] {
        let leaf = || Node::Message(vec![]);
        for f in [vec![(n, leaf())], vec![("Outer", Node::Message(vec![(n, leaf())]))], vec![(n, Node::Message(vec![("Inner", leaf())]))]] {
            for m in [Pool, Bytes] {
                out.push(one("p", &f, Nothing, m, WithConfig));
            }
        }
    }
    // The entry of a map and a message which is called so.
    {
        let mut w = Writer::new();
        let t = w.file("", &[], &vec![("A", Node::Message(vec![])), ("B", Node::Message(vec![("A", Node::Message(vec![("AaEntry", Node::Message(vec![])), ("KEntry", Node::Message(vec![]))]))]))], Nothing);
        let t = t.replacen("message A {", "message A { map<string, string> aa = 5; map<string, A> k = 6;", 1);
        for m in [Pool, Bytes] {
            out.push(Conf { files: vec![("a.proto".into(), t.clone())], roots: vec!["a.proto".into()], packages: vec!["".into()], mode: m, api: WithConfig, messages: w.messages.clone() });
        }
    }
    // A well-known type as the type of a field, and a message whose name ends like one.
    for p in ["", "p", "x.google.protobuf"] {
        for m in [Pool, Bytes] {
            let mut w = Writer::new();
            let t = w.file(p, &["google/protobuf/any.proto", "google/protobuf/timestamp.proto"], &vec![("Timestamp", Node::Message(vec![("Any", Node::Message(vec![]))])), ("Any", Node::Message(vec![]))], Nothing);
            let t = t.replacen("message Timestamp {", "message Timestamp { .google.protobuf.Any z = 5; repeated .google.protobuf.Timestamp t = 6;", 1);
            let (packages, messages) = (vec![p.to_owned()], w.messages);
            out.push(Conf { files: vec![("a.proto".into(), t)], roots: vec!["a.proto".into()], packages, mode: m, api: WithConfig, messages });
        }
    }
    // Two files.
    let small = forests(&ab, 1, true);
    let larger = forests(&ab, if thorough { 2 } else { 1 }, false);
    for (p, q) in [("", "p"), ("p", ""), ("p", "q.p"), ("q.p", "p"), ("p", "p.q"), ("p", "q")] {
        for f in small.iter().filter(|f| with_message(f)) {
            for g in larger.iter().filter(|f| with_message(f)) {
                for import in [false, true] {
                    out.push(two(p, q, f, g, import, if import { Bytes } else { Pool }, WithConfig));
                }
            }
        }
    }
    // The same package in two files.
    out.push(two("p", "p", &vec![("A", Node::Message(vec![("B", Node::Message(vec![]))]))], &vec![("B", Node::Message(vec![("A", Node::Message(vec![]))]))], false, Pool, WithConfig));
    out.push(two("p", "p", &vec![("A", Node::Message(vec![("B", Node::Message(vec![]))]))], &vec![("B", Node::Message(vec![("A", Node::Message(vec![]))]))], true, Bytes, Configure));
    out
}

/// Calls which must fail with an error.
pub fn errors(c: &Ctx, work: &Path) {
    let dir = work.join("errors");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("good.proto"), "syntax = \"proto3\"; message A {}").unwrap();
    std::fs::write(dir.join("empty.proto"), "").unwrap();
    std::fs::write(dir.join("bad.proto"), "syntax = \"proto3\"; message A { Nope n = 1; }").unwrap();
    for set in ["none", "pool", "bytes", "both"] {
        for file in ["good.proto", "empty.proto", "bad.proto", "missing.proto"] {
            for api in [Api::WithConfig, Api::Configure] {
                for fds in [dir.join("fds.bin"), dir.join("no/such/dir/fds.bin")] {
                    let want = set != "none" && ["good.proto", "empty.proto"].contains(&file) && !fds.to_string_lossy().contains("no/such");
                    let what = format!("{set} {file} {api:?} {}", fds.display());
                    let mut b = prost_reflect_build::Builder::default();
                    b.file_descriptor_set_path(&fds);
                    if set == "pool" || set == "both" {
                        b.descriptor_pool("crate::POOL");
                    }
                    if set == "bytes" || set == "both" {
                        b.file_descriptor_set_bytes("crate::BYTES");
                    }
                    let mut b = b.clone();
                    let mut cfg = prost_build::Config::new();
                    cfg.out_dir(&dir);
                    let (ps, is) = ([dir.join(file)], [dir.clone()]);
                    let r = no_panic(&what, || match api {
                        Api::Configure => b.configure(&mut cfg, &ps, &is),
                        _ => b.compile_protos_with_config(cfg, &ps, &is),
                    });
                    c.trace(1);
                    c.step(1);
                    c.state(&what);
                    match r {
                        Err(p) => c.fail(p),
                        Ok(r) if r.is_ok() != want => c.fail(format!("{what}: {r:?}")),
                        Ok(_) => {}
                    }
                }
            }
        }
    }
}

/// A file "x.proto" with `package x; message M { int32 a = 1; }`
pub fn x_bytes() -> Vec<u8> {
    use prost_types::*;
    FileDescriptorSet {
        file: vec![FileDescriptorProto {
            name: Some("x.proto".into()),
            package: Some("x".into()),
            syntax: Some("proto3".into()),
            message_type: vec![DescriptorProto {
                name: Some("M".into()),
                field: vec![FieldDescriptorProto { name: Some("a".into()), number: Some(1), label: Some(1), r#type: Some(5), ..Default::default() }],
                ..Default::default()
            }],
            ..Default::default()
        }],
    }
    .encode_to_vec()
}

pub struct Form {
    pub id: usize,
    pub before: String,
    pub attrs: String,
}

pub fn forms() -> Vec<Form> {
    let mut out = vec![];
    let pools = ["crate::x::POOL", "crate::x::POOL.clone()", "crate::x::pool()", "::prost_reflect::DescriptorPool::global()", "(&*crate::x::POOL)", "(*crate::x::POOL)"];
    let bytes = ["crate::x::BYTES", "crate::x::BYTES.as_ref()", "&mut crate::x::BYTES.as_ref()", "crate::x::bytes().as_slice()", "::prost::bytes::Bytes::from_static(crate::x::BYTES)"];
    let args = pools.iter().map(|p| (format!("descriptor_pool = {p:?}"), "google.protobuf.Int32Value")).chain(bytes.iter().map(|b| (format!("file_descriptor_set_bytes = {b:?}"), "x.M")));
    for (a, name) in args {
        for n in [format!("message_name = {name:?}"), format!("message_name = r{name:?}"), format!("message_name = r#{name:?}#")] {
            for (a, b) in [(&a, &n), (&n, &a)] {
                for attrs in [
                    format!("#[prost_reflect({a}, {b})]"),
                    format!("#[prost_reflect({a}, {b},)]"),
                    format!("#[prost_reflect({a})] #[prost_reflect({b})]"),
                    format!("#[prost_reflect({a})] #[doc = \"between\"] #[allow(dead_code)] #[prost_reflect({b})]"),
                    format!("#[prost_reflect()] #[prost_reflect({a})] #[prost_reflect({b})]"),
                ] {
                    out.push(Form { id: out.len(), before: "#[doc = \"x\"]".into(), attrs });
                }
            }
        }
    }
    out
}

pub fn bad_forms() -> Vec<String> {
    let pool = r#"descriptor_pool = "crate::x::POOL""#;
    let bytes = r#"file_descriptor_set_bytes = "crate::x::BYTES""#;
    let name = r#"message_name = "google.protobuf.Empty""#;
    let mut out = vec![String::new(), "#[prost_reflect]".into(), "#[prost_reflect = \"x\"]".into(), "#[prost_reflect()]".into(), format!("#[prost_reflect({name})]"), format!("#[prost_reflect({pool})]"), format!("#[prost_reflect({bytes})]"), format!("#[prost_reflect({pool}, {bytes})]")];
    for p in [pool, bytes] {
        let key = p.split(' ').next().unwrap();
        for a in ["unknown = \"x\"", "unknown", "messagename = \"x\"", "message_names = \"x\"", "x::message_name = \"x\"", "message_name(\"x\")", "message_name"] {
            out.push(format!("#[prost_reflect({p}, {a})]"));
            out.push(format!("#[prost_reflect({p}, {name}, {a})]"));
            out.push(format!("#[prost_reflect({p}, {name})] #[prost_reflect({a})]"));
        }
        for v in ["1", "x", "\"crate::\"", "\"\"", "\"1 +\"", "true", "b\"x\""] {
            out.push(format!("#[prost_reflect({key} = {v}, {name})]"));
        }
        for v in ["1", "x", "true", "b\"x\""] {
            out.push(format!("#[prost_reflect({p}, message_name = {v})]"));
        }
    }
    out
}
