//! D06: options.
use super::descr::*;
use crate::descr::{Ref, Verdict};
use crate::mutate::{self, N, P};
use crate::optref::{Fail, Scope};
use crate::report::{no_panic, Ctx};
use crate::schema::{ref_json_name, Schema};
use crate::value::{show, Mv};
use crate::wire;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage};
use prost_types::{source_code_info::Location, uninterpreted_option::NamePart, FileDescriptorProto, SourceCodeInfo, UninterpretedOption};

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Id(&'static str),
    Pos(u64),
    Neg(i64),
    Dbl(f64),
    Str(&'static [u8]),
    Agg(&'static str),
    None,
}
type Stmt = (&'static str, Val);

/// `(a.b).c.(.d)` as the parts of a name.
fn uopt((name, v): &Stmt) -> UninterpretedOption {
    let mut parts = vec![];
    let mut rest = *name;
    while !rest.is_empty() {
        rest = rest.strip_prefix('.').unwrap_or(rest);
        if let Some(r) = rest.strip_prefix('(') {
            let i = r.find(')').unwrap();
            parts.push(NamePart { name_part: r[..i].into(), is_extension: true });
            rest = &r[i + 1..];
        } else {
            let i = rest.find('.').unwrap_or(rest.len());
            parts.push(NamePart { name_part: rest[..i].into(), is_extension: false });
            rest = &rest[i..];
        }
    }
    let mut u = UninterpretedOption { name: parts, ..Default::default() };
    match v {
        Val::Id(s) => u.identifier_value = Some((*s).into()),
        Val::Pos(n) => u.positive_int_value = Some(*n),
        Val::Neg(n) => u.negative_int_value = Some(*n),
        Val::Dbl(n) => u.double_value = Some(*n),
        Val::Str(n) => u.string_value = Some(n.to_vec()),
        Val::Agg(n) => u.aggregate_value = Some((*n).into()),
        Val::None => {}
    }
    u
}

/// Something which holds options: where it is in the file (field number, index), the number of its
/// options field, their type, the scope of names in them, and how to read them through the API.
struct Holder {
    what: &'static str,
    path: Vec<(u32, usize)>,
    num: u32,
    ty: &'static str,
    scope: &'static str,
    get: fn(&DescriptorPool) -> Option<DynamicMessage>,
}

/// The file which holds the options; every sort of holder twice, at different depths.
fn host() -> FileDescriptorProto {
    let mut f = FileDescriptorProto { name: Some("u.proto".into()), package: Some("u.v".into()), ..Default::default() };
    f.dependency = vec!["ko.proto".into(), "google/protobuf/descriptor.proto".into()];
    let en = |n: &str, a: &str, b: &str| prost_types::EnumDescriptorProto {
        name: Some(n.into()),
        value: [a, b]
            .iter()
            .enumerate()
            .map(|(i, v)| prost_types::EnumValueDescriptorProto { name: Some((*v).into()), number: Some(i as i32), ..Default::default() })
            .collect(),
        ..Default::default()
    };
    let field = |n: &str, num: i32| prost_types::FieldDescriptorProto { name: Some(n.into()), number: Some(num), label: Some(1), r#type: Some(5), json_name: Some(ref_json_name(n)), ..Default::default() };
    let ext = |n: &str, num: i32, x: &str| prost_types::FieldDescriptorProto { extendee: Some(x.into()), ..field(n, num) };
    let one = |n: &str| prost_types::OneofDescriptorProto { name: Some(n.into()), ..Default::default() };
    let range = |a: i32, b: i32| prost_types::descriptor_proto::ExtensionRange { start: Some(a), end: Some(b), options: None };
    let message = |n: &str| prost_types::DescriptorProto {
        name: Some(n.into()),
        field: vec![
            field("f", 1),
            field("g", 2),
            prost_types::FieldDescriptorProto { oneof_index: Some(0), ..field("a", 3) },
            prost_types::FieldDescriptorProto { oneof_index: Some(1), ..field("b", 4) },
        ],
        oneof_decl: vec![one("w"), one("x")],
        enum_type: vec![en("E", "E0", "E1"), en("D", "D0", "D1")],
        extension_range: vec![range(100, 200), range(300, 400)],
        ..Default::default()
    };
    let mut m = message("H");
    let mut inner = message("N");
    inner.extension = vec![ext("nx", 110, ".u.v.H"), ext("loc", 60010, ".google.protobuf.FieldOptions")];
    m.nested_type = vec![message("M"), inner];
    m.extension = vec![ext("hx", 111, ".u.v.H"), ext("own", 60011, ".google.protobuf.MessageOptions"), ext("loc", 60012, ".google.protobuf.FieldOptions")];
    f.message_type = vec![message("G"), m];
    f.enum_type = vec![en("TE", "TE0", "TE1"), en("TD", "TD0", "TD1")];
    f.extension = vec![ext("tx", 112, ".u.v.H"), ext("loc", 60013, ".google.protobuf.FieldOptions"), ext("floc", 60014, ".google.protobuf.FileOptions"), ext("mloc", 60015, ".google.protobuf.MessageOptions")];
    let method = |n: &str| prost_types::MethodDescriptorProto { name: Some(n.into()), input_type: Some(".u.v.H".into()), output_type: Some(".u.v.G".into()), ..Default::default() };
    let svc = |n: &str| prost_types::ServiceDescriptorProto { name: Some(n.into()), method: vec![method("A"), method("B")], options: None };
    f.service = vec![svc("S"), svc("T")];
    f
}

fn holders() -> Vec<Holder> {
    macro_rules! h {
        ($what:expr, [$($p:expr),*], $num:expr, $ty:expr, $scope:expr, $get:expr) => {
            Holder { what: $what, path: vec![$($p),*], num: $num, ty: concat!("google.protobuf.", $ty), scope: $scope, get: $get }
        };
    }
    vec![
        h!("file", [], 8, "FileOptions", "u.v", |p| Some(p.get_file_by_name("u.proto")?.options())),
        h!("message G", [(4, 0)], 7, "MessageOptions", "u.v.G", |p| Some(p.get_message_by_name("u.v.G")?.options())),
        h!("message H", [(4, 1)], 7, "MessageOptions", "u.v.H", |p| Some(p.get_message_by_name("u.v.H")?.options())),
        h!("message H.M", [(4, 1), (3, 0)], 7, "MessageOptions", "u.v.H.M", |p| Some(p.get_message_by_name("u.v.H.M")?.options())),
        h!("message H.N", [(4, 1), (3, 1)], 7, "MessageOptions", "u.v.H.N", |p| Some(p.get_message_by_name("u.v.H.N")?.options())),
        h!("field H.f", [(4, 1), (2, 0)], 8, "FieldOptions", "u.v.H.f", |p| Some(p.get_message_by_name("u.v.H")?.get_field(1)?.options())),
        h!("field H.g", [(4, 1), (2, 1)], 8, "FieldOptions", "u.v.H.g", |p| Some(p.get_message_by_name("u.v.H")?.get_field(2)?.options())),
        h!("field H.N.g", [(4, 1), (3, 1), (2, 1)], 8, "FieldOptions", "u.v.H.N.g", |p| Some(p.get_message_by_name("u.v.H.N")?.get_field(2)?.options())),
        h!("field G.b", [(4, 0), (2, 3)], 8, "FieldOptions", "u.v.G.b", |p| Some(p.get_message_by_name("u.v.G")?.get_field(4)?.options())),
        h!("oneof H.w", [(4, 1), (8, 0)], 2, "OneofOptions", "u.v.H.w", |p| Some(p.get_message_by_name("u.v.H")?.oneofs().next()?.options())),
        h!("oneof H.x", [(4, 1), (8, 1)], 2, "OneofOptions", "u.v.H.x", |p| Some(p.get_message_by_name("u.v.H")?.oneofs().nth(1)?.options())),
        h!("oneof H.M.x", [(4, 1), (3, 0), (8, 1)], 2, "OneofOptions", "u.v.H.M.x", |p| Some(p.get_message_by_name("u.v.H.M")?.oneofs().nth(1)?.options())),
        h!("range H 0", [(4, 1), (5, 0)], 3, "ExtensionRangeOptions", "u.v.H", |_| None),
        h!("range H 1", [(4, 1), (5, 1)], 3, "ExtensionRangeOptions", "u.v.H", |_| None),
        h!("range H.N 1", [(4, 1), (3, 1), (5, 1)], 3, "ExtensionRangeOptions", "u.v.H.N", |_| None),
        h!("enum TE", [(5, 0)], 3, "EnumOptions", "u.v.TE", |p| Some(p.get_enum_by_name("u.v.TE")?.options())),
        h!("enum TD", [(5, 1)], 3, "EnumOptions", "u.v.TD", |p| Some(p.get_enum_by_name("u.v.TD")?.options())),
        h!("enum H.D", [(4, 1), (4, 1)], 3, "EnumOptions", "u.v.H.D", |p| Some(p.get_enum_by_name("u.v.H.D")?.options())),
        h!("enum H.N.E", [(4, 1), (3, 1), (4, 0)], 3, "EnumOptions", "u.v.H.N.E", |p| Some(p.get_enum_by_name("u.v.H.N.E")?.options())),
        h!("value TE0", [(5, 0), (2, 0)], 3, "EnumValueOptions", "u.v.TE0", |p| Some(p.get_enum_by_name("u.v.TE")?.get_value(0)?.options())),
        h!("value TD1", [(5, 1), (2, 1)], 3, "EnumValueOptions", "u.v.TD1", |p| Some(p.get_enum_by_name("u.v.TD")?.get_value(1)?.options())),
        h!("value H.E1", [(4, 1), (4, 0), (2, 1)], 3, "EnumValueOptions", "u.v.H.E1", |p| Some(p.get_enum_by_name("u.v.H.E")?.get_value(1)?.options())),
        h!("value H.N.D0", [(4, 1), (3, 1), (4, 1), (2, 0)], 3, "EnumValueOptions", "u.v.H.N.D0", |p| Some(p.get_enum_by_name("u.v.H.N.D")?.get_value(0)?.options())),
        h!("service S", [(6, 0)], 3, "ServiceOptions", "u.v.S", |p| Some(p.get_service_by_name("u.v.S")?.options())),
        h!("service T", [(6, 1)], 3, "ServiceOptions", "u.v.T", |p| Some(p.get_service_by_name("u.v.T")?.options())),
        h!("method S.A", [(6, 0), (2, 0)], 4, "MethodOptions", "u.v.S.A", |p| Some(p.get_service_by_name("u.v.S")?.methods().next()?.options())),
        h!("method S.B", [(6, 0), (2, 1)], 4, "MethodOptions", "u.v.S.B", |p| Some(p.get_service_by_name("u.v.S")?.methods().nth(1)?.options())),
        h!("method T.B", [(6, 1), (2, 1)], 4, "MethodOptions", "u.v.T.B", |p| Some(p.get_service_by_name("u.v.T")?.methods().nth(1)?.options())),
        h!("extension tx", [(7, 0)], 8, "FieldOptions", "u.v.tx", |p| Some(p.get_extension_by_name("u.v.tx")?.options())),
        h!("extension loc", [(7, 1)], 8, "FieldOptions", "u.v.loc", |p| Some(p.get_extension_by_name("u.v.loc")?.options())),
        h!("extension H.hx", [(4, 1), (6, 0)], 8, "FieldOptions", "u.v.H.hx", |p| Some(p.get_extension_by_name("u.v.H.hx")?.options())),
        h!("extension H.own", [(4, 1), (6, 1)], 8, "FieldOptions", "u.v.H.own", |p| Some(p.get_extension_by_name("u.v.H.own")?.options())),
        h!("extension H.N.nx", [(4, 1), (3, 1), (6, 0)], 8, "FieldOptions", "u.v.H.N.nx", |p| Some(p.get_extension_by_name("u.v.H.N.nx")?.options())),
    ]
}

struct World {
    s: Schema,
    r: Ref,
    file: usize,
    base: DescriptorPool,
    tree: Vec<N>,
    holders: Vec<Holder>,
}

/// What is written on one holder.
struct On<'a> {
    holder: usize,
    raw: Vec<u8>,
    stmts: &'a [Stmt],
}

impl World {
    fn new() -> World {
        let meta = Meta::new();
        let mut files = set(KO);
        let base = DescriptorPool::decode(KO).expect("harness: ko");
        let host = host();
        files.push(host.clone());
        let (v, r) = Ref::default().add(&files);
        assert!(matches!(v, Verdict::Accept), "harness: {v:?}");
        let s = Schema::from_files(&r.files.iter().map(|f| f.p.clone()).collect::<Vec<_>>());
        let file = r.file("u.proto").unwrap();
        let tree = mutate::parse(&meta.s, meta.s.msg("google.protobuf.FileDescriptorProto"), &host.encode_to_vec());
        World { s, r, file, base, tree, holders: holders() }
    }

    fn put(t: &mut Vec<N>, path: &[(u32, usize)], n: N) {
        match path.split_first() {
            None => t.push(n),
            Some((&(num, i), rest)) => {
                let mut k = 0;
                for c in t.iter_mut() {
                    if c.num == num {
                        if k == i {
                            let P::M(_, c) = &mut c.p else { unreachable!() };
                            return World::put(c, rest, n);
                        }
                        k += 1;
                    }
                }
                unreachable!()
            }
        }
    }

    /// The bytes of a field at a path in an encoded file.
    fn at<'a>(b: &'a [u8], path: &[(u32, usize)]) -> Option<Vec<u8>> {
        let Some((&(num, i), rest)) = path.split_first() else { return Some(b.to_vec()) };
        let rs = wire::records(b)?;
        let (_, _, x) = rs.into_iter().filter(|(n, w, _)| *n == num && *w == 2).nth(i)?;
        // the record without its key and length
        let mut i = 0;
        for _ in 0..2 {
            while x[i] & 0x80 != 0 {
                i += 1;
            }
            i += 1;
        }
        World::at(&x[i..], rest)
    }

    fn case(&self, c: &Ctx, ons: &[On]) -> Result<&'static str, String> {
        let mut t = self.tree.clone();
        let mut want: Vec<(usize, Mv)> = vec![];
        let mut verdict = "interpreted";
        let mut why = String::new();
        let mut blame = None;
        let mut info = SourceCodeInfo::default();
        let mut locs: Vec<(Vec<i32>, i32)> = vec![];
        for (oi, on) in ons.iter().enumerate() {
            let h = &self.holders[on.holder];
            let ty = self.s.msg(h.ty);
            let mut b = on.raw.clone();
            let mut m = wire::dec(&self.s, ty, &on.raw).map_err(|_| ()).expect("harness: raw options");
            let sc = Scope { s: &self.s, r: &self.r, file: self.file, scope: h.scope, msg: h.ty.ends_with("MessageOptions") || h.ty.ends_with("ExtensionRangeOptions") };
            let hp: Vec<i32> = h.path.iter().flat_map(|(a, b)| [*a as i32, *b as i32]).chain([h.num as i32]).collect();
            for (i, st) in on.stmts.iter().enumerate() {
                let u = uopt(st);
                let e = u.encode_to_vec();
                wire::key(999, 2, &mut b);
                wire::varint(e.len() as u64, 0, &mut b);
                b.extend(e);
                let mut p = hp.clone();
                p.extend([999, i as i32]);
                let span = (oi * 100 + i) as i32;
                info.location.push(Location { path: p.clone(), span: vec![span, 0, 1], ..Default::default() });
                // something within it
                p.push(3);
                info.location.push(Location { path: p.clone(), span: vec![span, 5, 6], ..Default::default() });
                p.pop();
                match sc.set(&mut m, &u) {
                    Ok(p) => locs.push((hp.iter().copied().chain(p).collect(), span)),
                    Err(Fail::Bad(w)) => {
                        if verdict == "interpreted" {
                            verdict = "refused";
                            why = w;
                            blame = Some((p, span as usize));
                        }
                    }
                    Err(Fail::Open(_)) => verdict = "unsettled",
                }
            }
            m.normalize(&self.s);
            m.canon();
            World::put(&mut t, &h.path, N { num: h.num, p: P::S(b) });
            want.push((on.holder, m));
        }
        // a location which is none of the options
        info.location.push(Location { path: vec![4, 1, 2, 0], span: vec![9999, 0, 1], ..Default::default() });
        t.push(N { num: 9, p: P::S(info.encode_to_vec()) });
        let bytes = mutate::encode(&t);
        let mut p = self.base.clone();
        let got = no_panic("decode_file_descriptor_proto", || p.decode_file_descriptor_proto(bytes.as_slice()))?;
        c.step(1);
        match (verdict, got) {
            ("unsettled", _) => return Ok("unsettled"),
            ("refused", Ok(())) => return Err(format!("accepted, although {why}")),
            ("refused", Err(e)) => {
                let Some((path, span)) = blame else { unreachable!() };
                if e.file() != Some("u.proto") || e.path() != Some(path.as_slice()) || e.line() != Some(span) {
                    return Err(format!("the error points to {:?} {:?} line {:?}, not to the option at {path:?} line {span}: {e}", e.file(), e.path(), e.line()));
                }
                return Ok("refused");
            }
            (_, Err(e)) => return Err(format!("refused: {e}")),
            _ => {}
        }
        c.trace(1);
        self.holds(&p, &want, "")?;
        let back = no_panic("DescriptorPool::encode", || DescriptorPool::decode(p.encode_to_vec().as_slice()))?.map_err(|e| format!("the encoded pool is refused: {e}"))?;
        self.holds(&back, &want, "after encoding the pool: ")?;
        let mut again = self.base.clone();
        no_panic("FileDescriptor::encode", || again.decode_file_descriptor_proto(p.get_file_by_name("u.proto").unwrap().encode_to_vec().as_slice()))?.map_err(|e| format!("the encoded file is refused: {e}"))?;
        self.holds(&again, &want, "after encoding the file: ")?;
        // locations
        let fp = p.get_file_by_name("u.proto").unwrap().file_descriptor_proto().clone();
        let ls = fp.source_code_info.unwrap_or_default().location;
        if ls.len() != 2 * locs.len() + 1 {
            return Err(format!("{} locations of {}", ls.len(), 2 * locs.len() + 1));
        }
        for (path, span) in &locs {
            let l: Vec<_> = ls.iter().filter(|l| l.span[0] == *span).collect();
            let mut inner = path.clone();
            inner.push(3);
            if l.len() != 2 || l[0].path != *path || l[1].path != inner {
                return Err(format!("the location of the option is {:?}, not {path:?}", l.iter().map(|l| &l.path).collect::<Vec<_>>()));
            }
        }
        if ls.iter().find(|l| l.span[0] == 9999).map(|l| l.path.as_slice()) != Some(&[4, 1, 2, 0]) {
            return Err("another location changed".into());
        }
        Ok("interpreted")
    }

    /// All holders have the options wanted, and the others none.
    fn holds(&self, p: &DescriptorPool, want: &[(usize, Mv)], when: &str) -> Result<(), String> {
        let f = p.get_file_by_name("u.proto").ok_or("the file is missing")?;
        let enc = f.encode_to_vec();
        for (i, h) in self.holders.iter().enumerate() {
            let ty = self.s.msg(h.ty);
            let m = want.iter().find(|w| w.0 == i).map(|w| w.1.clone()).unwrap_or_else(|| Mv::new(ty));
            let mut path = h.path.clone();
            path.push((h.num, 0));
            let raw = World::at(&enc, &path).unwrap_or_default();
            let dec = |b: &[u8], what: &str| -> Result<(), String> {
                let mut got = wire::dec(&self.s, ty, b).map_err(|_| format!("{when}{}: {what} does not decode", h.what))?;
                got.normalize(&self.s);
                got.canon();
                if got != m {
                    return Err(format!("{when}{}: {what}\n    {}\n  should be\n    {}", h.what, show(&self.s, &got), show(&self.s, &m)));
                }
                Ok(())
            };
            dec(&raw, "the options in the encoded file")?;
            let o = no_panic("options()", || (h.get)(p))?;
            if let Some(o) = o {
                dec(&o.encode_to_vec(), "options()")?;
                let unknown = o.unknown_fields().count();
                if unknown != m.unk.len() {
                    return Err(format!("{when}{}: options() has {unknown} unknown fields, not {}", h.what, m.unk.len()));
                }
                let sm = &self.s.msgs[ty];
                let ne = m.f.keys().filter(|n| sm.get(**n).unwrap().ext).count();
                if o.extensions().count() != ne || o.fields().count() != m.f.len() - ne {
                    return Err(format!("{when}{}: options() has {} fields and {} extensions set, not {} and {ne}", h.what, o.fields().count(), o.extensions().count(), m.f.len() - ne));
                }
            }
        }
        Ok(())
    }
}

fn values() -> Vec<Val> {
    use Val::*;
    vec![
        Id("true"), Id("false"), Id("True"), Id("OE_A"), Id("OE_B"), Id("OE_C"), Id("inf"), Id("nan"), Id("x"), Id(""), Id("STRING"), Id("CORD"), Id("SPEED"), Id("JS_STRING"), Id("IDEMPOTENT"),
        Pos(0), Pos(1), Pos(2), Pos(16777217), Pos(i32::MAX as u64), Pos(i32::MAX as u64 + 1), Pos(u32::MAX as u64), Pos(u32::MAX as u64 + 1), Pos(i64::MAX as u64), Pos(i64::MAX as u64 + 1), Pos(u64::MAX),
        Neg(-1), Neg(i32::MIN as i64), Neg(i32::MIN as i64 - 1), Neg(i64::MIN),
        Dbl(0.0), Dbl(1.0), Dbl(1.5), Dbl(-0.1), Dbl(1e300), Dbl(f64::INFINITY), Dbl(f64::NEG_INFINITY), Dbl(f64::NAN), Dbl(3.4028235e38), Dbl(-0.0),
        Str(b""), Str(b"abc"), Str("\u{e9}\0".as_bytes()), Str(b"\xff\x01"), Str(b"1"), Str(b"true"),
        Agg(""), Agg("i: 1"), Agg("g: 3"), Agg("i: 1 s: 'x' r: [1, 2] m { i: 2 }"), Agg("i: 'x'"), Agg("nope: 1"), Agg("i: 1 i: 2"), Agg("[o.xi]: 5"), Agg("[o.OM.ni]: 5"), Agg("i: 1 }"), Agg("{i: 1}"), Agg("mp { key: 'a' value: 3 } mp { value: 4 }"),
        Agg("Og { g: 1 } e: OE_B d: 1.5 f: 2 b: true u: 3 y: '\\001' rs: 'a' rs: 'b' re: [OE_A, OE_B] ms { } ms { i: 1 }"), Agg("key: 'a' value: 1"), Agg("mm { key: 3 value { i: 1 } } # c"),
        None,
    ]
}

fn field_names() -> Vec<&'static str> {
    vec![
        "(o.fo_double)", "(o.fo_float)", "(o.fo_int32)", "(o.fo_int64)", "(o.fo_uint32)", "(o.fo_uint64)", "(o.fo_sint32)", "(o.fo_sint64)", "(o.fo_fixed32)", "(o.fo_fixed64)", "(o.fo_sfixed32)", "(o.fo_sfixed64)", "(o.fo_bool)",
        "(o.fo_string)", "(o.fo_bytes)", "(o.fo_enum)", "(o.fo_msg)", "(o.fogrp)", "(o.fo_rep)", "(o.fo_reps)", "(o.fo_repm)", "(o.fo_repe)", "(o.fo_packed)", "ctype", "jstype", "lazy", "deprecated", "weak",
        // within messages
        "(o.fo_msg).i", "(o.fo_msg).s", "(o.fo_msg).m", "(o.fo_msg).m.m.i", "(o.fo_msg).r", "(o.fo_msg).ms", "(o.fo_msg).mp", "(o.fo_msg).mm", "(o.fo_msg).e", "(o.fo_msg).wa", "(o.fo_msg).wb", "(o.fo_msg).og", "(o.fo_msg).og.g", "(o.fo_msg).d", "(o.fo_msg).y",
        "(o.fo_msg).rs", "(o.fo_msg).re", "(o.fo_msg).f", "(o.fo_msg).b", "(o.fo_msg).u", "(o.fogrp).g", "(o.fo_msg).(o.xi)", "(o.fo_msg).(o.xm)", "(o.fo_msg).(o.xm).i", "(o.fo_msg).(o.xm).(o.OM.nm).s", "(o.fo_msg).(o.xr)", "(o.fo_msg).(o.OM.ni)", "(o.fo_msg).m.(o.xi)",
        // what cannot be
        "(o.fo_msg).nope", "(o.fo_msg).OM", "(o.fo_msg).Og", "(o.fo_msg).(o.fo_int32)", "(o.fo_int32).x", "(o.fo_rep).x", "(o.fo_repm).i", "(o.fo_msg).ms.i", "(o.fo_msg).mp.key", "(o.fo_enum).OE_A", "nope", "fo_int32", "(deprecated)", "(o.nope)", "(o.OM)", "(o)", "(o.msg_i)", "(o.file_i)", "deprecated.x",
        "(o.fo_msg).i.x", "(o.xi)", "(o.fo_msg).xi", "(o.fo_msg).(i)", "(o.FoGrp)", "(o.fo_msg).(o.xr).i",
        // other spellings
        "(.o.fo_int32)", "(fo_int32)", "(v.loc)", "(loc)", "(u.v.loc)", "(.u.v.loc)", "(H.loc)", "(H.N.loc)", "(N.loc)", "(u.v.H.loc)", "(v.H.N.loc)", "(.loc)", "(.H.loc)", "(.o.nope)", "(.fo_int32)", "(o.fo_msg).(.o.xi)", "(o.fo_msg).(xi)", "(o.fo_msg).(OM.ni)",
    ]
}

pub fn d06(c: &Ctx) {
    let w = World::new();
    let vals = values();
    // every name with every value, on fields at different depths
    let names = field_names();
    let hs: Vec<usize> = w.holders.iter().enumerate().filter(|(_, h)| h.ty.ends_with(".FieldOptions")).map(|x| x.0).collect();
    let n = names.len() * vals.len() * hs.len();
    c.param("names x values x fields", n);
    let run = |c: &Ctx, ons: &[On]| -> Result<(), String> {
        let r = w.case(c, ons)?;
        c.count(r, 1);
        c.states_add(1);
        Ok(())
    };
    let text = |ons: &[(usize, &[Stmt])]| ons.iter().map(|(h, s)| format!("{}: {s:?}", w.holders[*h].what)).collect::<Vec<_>>().join("; ");
    let one = |i: usize| -> (usize, Stmt) { (hs[i % hs.len()], (names[i / hs.len() / vals.len()], vals[i / hs.len() % vals.len()].clone())) };
    c.par(
        n,
        |i| {
            let (h, s) = one(i);
            text(&[(h, &[s])])
        },
        |i| {
            let (h, s) = one(i);
            run(c, &[On { holder: h, raw: vec![], stmts: &[s] }])
        },
    );
    // every standard field and every custom option of every holder, with every value
    let mut all: Vec<(usize, Stmt)> = vec![];
    for (h, hd) in w.holders.iter().enumerate() {
        let m = &w.s.msgs[w.s.msg(hd.ty)];
        for f in m.fields.iter().chain(&m.exts) {
            if f.name == "uninterpreted_option" || hd.what == "file" && f.name == "features" {
                continue;
            }
            // these change what the file means
            if ["map_entry", "message_set_wire_format", "packed", "allow_alias"].contains(&f.name.as_str()) {
                continue;
            }
            let name: &'static str = Box::leak(if f.ext { format!("({})", f.full) } else { f.name.clone() }.into_boxed_str());
            for v in &vals {
                all.push((h, (name, v.clone())));
            }
        }
    }
    c.param("holders x options x values", all.len());
    c.par(all.len(), |i| text(&[(all[i].0, &[all[i].1.clone()])]), |i| run(c, &[On { holder: all[i].0, raw: vec![], stmts: &[all[i].1.clone()] }]));

    // sequences of statements on one holder, after options which are there already
    use Val::*;
    let menu: Vec<Stmt> = vec![
        ("(o.fo_int32)", Pos(1)), ("(o.fo_int32)", Pos(2)), ("(o.fo_rep)", Pos(3)), ("(o.fo_rep)", Neg(-4)), ("(o.fo_packed)", Dbl(1.5)), ("(o.fo_msg).i", Pos(5)), ("(o.fo_msg).s", Str(b"t")), ("(o.fo_msg).m.i", Pos(6)), ("(o.fo_msg).m", Agg("s: 'z'")),
        ("(o.fo_msg)", Agg("i: 7")), ("(o.fo_msg)", Agg("")), ("(o.fo_msg).r", Pos(8)), ("(o.fo_msg).mp", Agg("key: 'a' value: 1")), ("(o.fo_msg).mp", Agg("key: 'a' value: 2")), ("(o.fo_msg).mp", Agg("key: 'b'")), ("(o.fo_msg).wa", Pos(1)), ("(o.fo_msg).wb", Str(b"w")),
        ("(o.fo_msg).(o.xi)", Pos(9)), ("(o.fo_msg).(o.xm).i", Pos(10)), ("(o.fo_msg).(o.xr)", Agg("i: 1")), ("(o.fo_repm)", Agg("i: 11")), ("(o.fo_repm)", Agg("")), ("(o.fogrp).g", Pos(12)), ("(o.fogrp)", Agg("g: 13")), ("deprecated", Id("true")), ("deprecated", Id("false")), ("jstype", Id("JS_NORMAL")),
        ("(loc)", Pos(14)), ("(o.fo_string)", Str(b"")), ("(o.fo_double)", Pos(15)), ("(o.fo_int32)", Str(b"bad")), ("(o.fo_msg).ms", Agg("m { i: 1 }")),
    ];
    let fo = w.s.msg("google.protobuf.FieldOptions");
    let raws: Vec<(&str, Vec<u8>)> = {
        let mut unknown = vec![];
        wire::key(70000, 0, &mut unknown);
        wire::varint(5, 0, &mut unknown);
        let text = |t: &str| {
            let (v, m) = crate::text::read(&w.s, fo, t);
            assert!(matches!(v, crate::text::Verdict::Sure), "harness: {t}");
            wire::enc(&w.s, &m, &wire::Enc::default())
        };
        vec![
            ("nothing", vec![]),
            ("[o.fo_int32]: 1", text("[o.fo_int32]: 1")),
            ("[o.fo_msg] { i: 1 m { } mp { key: 'a' value: 9 } r: 3 [o.xi]: 4 }", text("[o.fo_msg] { i: 1 m { } mp { key: 'a' value: 9 } r: 3 [o.xi]: 4 }")),
            ("deprecated: true [o.fo_rep]: [1, 2] [o.fo_packed]: 3 [o.fogrp] { }", text("deprecated: true [o.fo_rep]: [1, 2] [o.fo_packed]: 3 [o.fogrp] { }")),
            ("an unknown field", unknown),
        ]
    };
    let len = c.pick(2, 3);
    let words = menu.len().pow(len);
    c.param("statements", menu.len());
    c.param("statements in a row", len);
    let word = |i: usize| -> Vec<Stmt> { (0..len).map(|d| menu[i / menu.len().pow(d) % menu.len()].clone()).collect() };
    c.par(
        words * raws.len(),
        |i| format!("{}; already there: {}", text(&[(hs[i % hs.len()], &word(i / raws.len()))]), raws[i % raws.len()].0),
        |i| run(c, &[On { holder: hs[i % hs.len()], raw: raws[i % raws.len()].1.clone(), stmts: &word(i / raws.len()) }]),
    );

    // options on any two holders at once, interpreted or not
    let simple = |h: usize, v: u64| -> (Vec<u8>, Vec<Stmt>) {
        let t = w.holders[h].ty.rsplit('.').next().unwrap();
        let name = match t {
            "FileOptions" => "(o.file_i)",
            "MessageOptions" => "(o.msg_i)",
            "FieldOptions" => "(o.fo_int32)",
            "OneofOptions" => "(o.oneof_i)",
            "EnumOptions" => "(o.enum_i)",
            "EnumValueOptions" => "(o.val_i)",
            "ServiceOptions" => "(o.svc_i)",
            "MethodOptions" => "(o.mth_i)",
            _ => "(o.rng_i)",
        };
        let mut raw = vec![];
        wire::key(if t == "FieldOptions" { 50003 } else { 50000 }, 0, &mut raw);
        wire::varint(v, 0, &mut raw);
        (raw, vec![(name, Pos(v))])
    };
    let nh = w.holders.len();
    c.par(
        nh * nh * 4,
        |i| format!("{} and {}, interpreted before: {:02b}", w.holders[i / 4 % nh].what, w.holders[i / 4 / nh].what, i % 4),
        |i| {
            let (a, b) = (i / 4 % nh, i / 4 / nh);
            let mk = |h: usize, v: u64, raw: bool| {
                let (r, s) = simple(h, v);
                if raw { (r, vec![]) } else { (vec![], s) }
            };
            let (x, y) = (mk(a, 3, i & 1 == 1), mk(b, 4, i & 2 == 2));
            let mut ons = vec![On { holder: a, raw: x.0, stmts: &x.1 }];
            if a != b {
                ons.push(On { holder: b, raw: y.0, stmts: &y.1 });
            }
            run(c, &ons)
        },
    );
    // and on all of them, in every state of one against the rest
    c.par(
        nh * 4,
        |i| format!("all holders, {} apart", w.holders[i / 4].what),
        |i| {
            let all: Vec<(Vec<u8>, Vec<Stmt>)> = (0..nh)
                .map(|h| {
                    let (r, s) = simple(h, 100 + h as u64);
                    match (i % 4, h == i / 4) {
                        (0, false) | (1, true) | (3, true) => (r, vec![]),
                        (2, true) => (vec![], vec![]),
                        _ => (vec![], s),
                    }
                })
                .collect();
            let ons: Vec<On> = all.iter().enumerate().map(|(h, x)| On { holder: h, raw: x.0.clone(), stmts: &x.1 }).collect();
            run(c, &ons)
        },
    );
}
