//! R01: static types, the well-known types and dynamic messages convert into each other without loss.
use super::wire::{universe, TYPES};
use crate::report::{hash, hex, Ctx};
use crate::schema::{Schema, ALL_BIN};
use crate::uni::{Lvl, Uni};
use crate::value::{show, Bind, Mv, V};
use crate::wire::{self, Enc};
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage};
use prost_types::{DescriptorProto, EnumDescriptorProto, FileDescriptorProto, FileDescriptorSet};

/// The well-known types as protobuf 25 has them: the output of protoc 3.21 with the later additions, reviewed.
pub const WKT_BIN: &[u8] = include_bytes!("../../protos/wkt25.bin");

macro_rules! well_known {
    ($name:expr, $f:ident, $($arg:expr),*) => {
        match $name {
            ("google.protobuf.Empty", 0) => $f::<()>($($arg),*),
            ("google.protobuf.BoolValue", 0) => $f::<bool>($($arg),*),
            ("google.protobuf.FloatValue", 0) => $f::<f32>($($arg),*),
            ("google.protobuf.DoubleValue", 0) => $f::<f64>($($arg),*),
            ("google.protobuf.Int32Value", 0) => $f::<i32>($($arg),*),
            ("google.protobuf.Int64Value", 0) => $f::<i64>($($arg),*),
            ("google.protobuf.StringValue", 0) => $f::<std::string::String>($($arg),*),
            ("google.protobuf.UInt32Value", 0) => $f::<u32>($($arg),*),
            ("google.protobuf.UInt64Value", 0) => $f::<u64>($($arg),*),
            ("google.protobuf.BytesValue", 0) => $f::<Vec<u8>>($($arg),*),
            ("google.protobuf.Any", 0) => $f::<prost_types::Any>($($arg),*),
            ("google.protobuf.Api", 0) => $f::<prost_types::Api>($($arg),*),
            ("google.protobuf.compiler.CodeGeneratorRequest", 0) => $f::<prost_types::compiler::CodeGeneratorRequest>($($arg),*),
            ("google.protobuf.compiler.CodeGeneratorResponse", 0) => $f::<prost_types::compiler::CodeGeneratorResponse>($($arg),*),
            ("google.protobuf.compiler.CodeGeneratorResponse.File", 0) => $f::<prost_types::compiler::code_generator_response::File>($($arg),*),
            ("google.protobuf.compiler.Version", 0) => $f::<prost_types::compiler::Version>($($arg),*),
            ("google.protobuf.DescriptorProto", 0) => $f::<prost_types::DescriptorProto>($($arg),*),
            ("google.protobuf.DescriptorProto.ExtensionRange", 0) => $f::<prost_types::descriptor_proto::ExtensionRange>($($arg),*),
            ("google.protobuf.DescriptorProto.ReservedRange", 0) => $f::<prost_types::descriptor_proto::ReservedRange>($($arg),*),
            ("google.protobuf.Duration", 0) => $f::<prost_types::Duration>($($arg),*),
            ("google.protobuf.Enum", 0) => $f::<prost_types::Enum>($($arg),*),
            ("google.protobuf.EnumDescriptorProto", 0) => $f::<prost_types::EnumDescriptorProto>($($arg),*),
            ("google.protobuf.EnumDescriptorProto.EnumReservedRange", 0) => $f::<prost_types::enum_descriptor_proto::EnumReservedRange>($($arg),*),
            ("google.protobuf.EnumOptions", 0) => $f::<prost_types::EnumOptions>($($arg),*),
            ("google.protobuf.EnumValue", 0) => $f::<prost_types::EnumValue>($($arg),*),
            ("google.protobuf.EnumValueDescriptorProto", 0) => $f::<prost_types::EnumValueDescriptorProto>($($arg),*),
            ("google.protobuf.EnumValueOptions", 0) => $f::<prost_types::EnumValueOptions>($($arg),*),
            ("google.protobuf.ExtensionRangeOptions", 0) => $f::<prost_types::ExtensionRangeOptions>($($arg),*),
            ("google.protobuf.Field", 0) => $f::<prost_types::Field>($($arg),*),
            ("google.protobuf.FieldDescriptorProto", 0) => $f::<prost_types::FieldDescriptorProto>($($arg),*),
            ("google.protobuf.FieldMask", 0) => $f::<prost_types::FieldMask>($($arg),*),
            ("google.protobuf.FieldOptions", 0) => $f::<prost_types::FieldOptions>($($arg),*),
            ("google.protobuf.FileDescriptorProto", 0) => $f::<prost_types::FileDescriptorProto>($($arg),*),
            ("google.protobuf.FileDescriptorSet", 0) => $f::<prost_types::FileDescriptorSet>($($arg),*),
            ("google.protobuf.FileOptions", 0) => $f::<prost_types::FileOptions>($($arg),*),
            ("google.protobuf.GeneratedCodeInfo", 0) => $f::<prost_types::GeneratedCodeInfo>($($arg),*),
            ("google.protobuf.GeneratedCodeInfo.Annotation", 0) => $f::<prost_types::generated_code_info::Annotation>($($arg),*),
            ("google.protobuf.ListValue", 0) => $f::<prost_types::ListValue>($($arg),*),
            ("google.protobuf.MessageOptions", 0) => $f::<prost_types::MessageOptions>($($arg),*),
            ("google.protobuf.Method", 0) => $f::<prost_types::Method>($($arg),*),
            ("google.protobuf.MethodDescriptorProto", 0) => $f::<prost_types::MethodDescriptorProto>($($arg),*),
            ("google.protobuf.MethodOptions", 0) => $f::<prost_types::MethodOptions>($($arg),*),
            ("google.protobuf.Mixin", 0) => $f::<prost_types::Mixin>($($arg),*),
            ("google.protobuf.OneofDescriptorProto", 0) => $f::<prost_types::OneofDescriptorProto>($($arg),*),
            ("google.protobuf.OneofOptions", 0) => $f::<prost_types::OneofOptions>($($arg),*),
            ("google.protobuf.Option", 0) => $f::<prost_types::Option>($($arg),*),
            ("google.protobuf.ServiceDescriptorProto", 0) => $f::<prost_types::ServiceDescriptorProto>($($arg),*),
            ("google.protobuf.ServiceOptions", 0) => $f::<prost_types::ServiceOptions>($($arg),*),
            ("google.protobuf.SourceCodeInfo", 0) => $f::<prost_types::SourceCodeInfo>($($arg),*),
            ("google.protobuf.SourceCodeInfo.Location", 0) => $f::<prost_types::source_code_info::Location>($($arg),*),
            ("google.protobuf.SourceContext", 0) => $f::<prost_types::SourceContext>($($arg),*),
            ("google.protobuf.Struct", 0) => $f::<prost_types::Struct>($($arg),*),
            ("google.protobuf.Timestamp", 0) => $f::<prost_types::Timestamp>($($arg),*),
            ("google.protobuf.Type", 0) => $f::<prost_types::Type>($($arg),*),
            ("google.protobuf.UninterpretedOption", 0) => $f::<prost_types::UninterpretedOption>($($arg),*),
            ("google.protobuf.UninterpretedOption.NamePart", 0) => $f::<prost_types::uninterpreted_option::NamePart>($($arg),*),
            ("google.protobuf.Value", 0) => $f::<prost_types::Value>($($arg),*),
            ("google.protobuf.BytesValue", 1) => $f::<prost::bytes::Bytes>($($arg),*),
            other => panic!("harness: no well-known type {other:?}"),
        }
    };
}
const WELL_KNOWN: &[(&str, u8)] = &[("google.protobuf.Empty", 0), ("google.protobuf.BoolValue", 0), ("google.protobuf.FloatValue", 0), ("google.protobuf.DoubleValue", 0), ("google.protobuf.Int32Value", 0), ("google.protobuf.Int64Value", 0), ("google.protobuf.StringValue", 0), ("google.protobuf.UInt32Value", 0), ("google.protobuf.UInt64Value", 0), ("google.protobuf.BytesValue", 0), ("google.protobuf.Any", 0), ("google.protobuf.Api", 0), ("google.protobuf.compiler.CodeGeneratorRequest", 0), ("google.protobuf.compiler.CodeGeneratorResponse", 0), ("google.protobuf.compiler.CodeGeneratorResponse.File", 0), ("google.protobuf.compiler.Version", 0), ("google.protobuf.DescriptorProto", 0), ("google.protobuf.DescriptorProto.ExtensionRange", 0), ("google.protobuf.DescriptorProto.ReservedRange", 0), ("google.protobuf.Duration", 0), ("google.protobuf.Enum", 0), ("google.protobuf.EnumDescriptorProto", 0), ("google.protobuf.EnumDescriptorProto.EnumReservedRange", 0), ("google.protobuf.EnumOptions", 0), ("google.protobuf.EnumValue", 0), ("google.protobuf.EnumValueDescriptorProto", 0), ("google.protobuf.EnumValueOptions", 0), ("google.protobuf.ExtensionRangeOptions", 0), ("google.protobuf.Field", 0), ("google.protobuf.FieldDescriptorProto", 0), ("google.protobuf.FieldMask", 0), ("google.protobuf.FieldOptions", 0), ("google.protobuf.FileDescriptorProto", 0), ("google.protobuf.FileDescriptorSet", 0), ("google.protobuf.FileOptions", 0), ("google.protobuf.GeneratedCodeInfo", 0), ("google.protobuf.GeneratedCodeInfo.Annotation", 0), ("google.protobuf.ListValue", 0), ("google.protobuf.MessageOptions", 0), ("google.protobuf.Method", 0), ("google.protobuf.MethodDescriptorProto", 0), ("google.protobuf.MethodOptions", 0), ("google.protobuf.Mixin", 0), ("google.protobuf.OneofDescriptorProto", 0), ("google.protobuf.OneofOptions", 0), ("google.protobuf.Option", 0), ("google.protobuf.ServiceDescriptorProto", 0), ("google.protobuf.ServiceOptions", 0), ("google.protobuf.SourceCodeInfo", 0), ("google.protobuf.SourceCodeInfo.Location", 0), ("google.protobuf.SourceContext", 0), ("google.protobuf.Struct", 0), ("google.protobuf.Timestamp", 0), ("google.protobuf.Type", 0), ("google.protobuf.UninterpretedOption", 0), ("google.protobuf.UninterpretedOption.NamePart", 0), ("google.protobuf.Value", 0), ("google.protobuf.BytesValue", 1)];

macro_rules! generated {
    ($name:expr, $f:ident, $($arg:expr),*) => {
        match $name {
            "t2.Gr.Og" => $f::<crate::gen::t2::gr::Og>($($arg),*),
            "t2.Gr.Og.Inner" => $f::<crate::gen::t2::gr::og::Inner>($($arg),*),
            "t2.Gr.Rg" => $f::<crate::gen::t2::gr::Rg>($($arg),*),
            "t2.Gr.Xg" => $f::<crate::gen::t2::gr::Xg>($($arg),*),
            "t2.Xgrp" => $f::<crate::gen::t2::Xgrp>($($arg),*),
            "t2.Xrg" => $f::<crate::gen::t2::Xrg>($($arg),*),
            "t2.By.G" => $f::<crate::gen::t2::by::G>($($arg),*),
            "t2.By.H" => $f::<crate::gen::t2::by::H>($($arg),*),
            "t2.Tx.Gp" => $f::<crate::gen::t2::tx::Gp>($($arg),*),
            "t2.Tx.Rg" => $f::<crate::gen::t2::tx::Rg>($($arg),*),
            name => super::wire::statics!(name, $f, $($arg),*),
        }
    };
}
const NESTED: &[&str] = &["t2.Gr.Og", "t2.Gr.Og.Inner", "t2.Gr.Rg", "t2.Gr.Xg", "t2.Xgrp", "t2.Xrg", "t2.By.G", "t2.By.H", "t2.Tx.Gp", "t2.Tx.Rg"];

// every form of the attribute
macro_rules! form {
    ($t:ident, $(#[$a:meta])*) => {
        #[derive(Clone, PartialEq, prost::Message, prost_reflect::ReflectMessage)]
        $(#[$a])*
        pub struct $t {
            #[prost(int32, tag = "1")]
            pub i: i32,
            #[prost(string, tag = "2")]
            pub s: String,
        }
    };
}
form!(Form1, #[prost_reflect(descriptor_pool = "crate::gen::POOL", message_name = "t3.Leaf")]);
form!(Form2, #[prost_reflect(message_name = "t3.Leaf", descriptor_pool = "crate::gen::POOL.clone()")]);
form!(Form3, #[prost_reflect(descriptor_pool = "{ let p = &crate::gen::POOL; p }")] #[prost_reflect(message_name = "t3.Leaf")]);
form!(Form4, #[prost_reflect(message_name = r"t3.Leaf")] #[doc = "between"] #[prost_reflect(file_descriptor_set_bytes = "crate::schema::ALL_BIN")]);
form!(Form5, #[prost_reflect(file_descriptor_set_bytes = "&mut &crate::schema::ALL_BIN[..]", message_name = "t3.Leaf")]);

#[derive(prost_reflect::ReflectMessage)]
pub enum Nothing {
    #[allow(dead_code)]
    A,
}

struct Case<'a> {
    b: &'a Bind,
    m: &'a Mv,
    /// messages to merge into
    into: &'a [Mv],
    /// the descriptor must be this very one
    same: bool,
}

fn eq(b: &Bind, what: &str, got: &DynamicMessage, want: &Mv) -> Result<(), String> {
    let mut g = b.from_dyn(got).map_err(|e| format!("{what}: {e}"))?;
    g.normalize(&b.s);
    g.canon();
    if g != *want {
        return Err(format!("{what}: got {} want {}", show(&b.s, &g), show(&b.s, want)));
    }
    Ok(())
}

fn has_nan(m: &Mv) -> bool {
    m.any_v(&mut |v: &V| matches!(v, V::F32(x) if f32::from_bits(*x).is_nan()) || matches!(v, V::F64(x) if f64::from_bits(*x).is_nan()))
}

fn trip<T: ReflectMessage + Message + Default + Clone + PartialEq>(k: &Case, bytes: &[u8]) -> Result<u64, String> {
    let (b, s) = (k.b, &k.b.s);
    let name = s.msgs[k.m.ty].name.as_str();
    // prost itself may drop or keep less: what it writes is what the static value means
    let t = T::decode(bytes).map_err(|e| format!("harness: the static type refuses {}: {e}", hex(bytes)))?;
    let kept = t.encode_to_vec();
    let want = wire::dec(s, k.m.ty, &kept).map_err(|e| format!("harness: static output {e:?}"))?;
    let boxed: Box<T> = Box::new(t.clone());
    for (i, d) in [t.descriptor(), boxed.descriptor(), (&t as &dyn ReflectMessage).descriptor(), (Box::new(t.clone()) as Box<dyn ReflectMessage>).descriptor(), T::default().descriptor()]
        .into_iter()
        .enumerate()
    {
        if d.full_name() != name || (k.same && d != b.md[k.m.ty]) {
            return Err(format!("descriptor() [{i}] of the type of {name} is {}", d.full_name()));
        }
    }
    let dy = t.transcode_to_dynamic();
    eq(b, "transcode_to_dynamic", &dy, &want)?;
    eq(b, "transcode_to_dynamic of a box", &boxed.transcode_to_dynamic(), &want)?;
    if k.same && (dy.descriptor() != b.md[k.m.ty] || dy.transcode_to_dynamic().descriptor() != dy.descriptor()) {
        return Err("the dynamic message has another descriptor".into());
    }
    eq(b, "a dynamic message made dynamic", &dy.transcode_to_dynamic(), &want)?;
    let back: T = dy.transcode_to().map_err(|e| format!("transcode_to: {e}"))?;
    // (in which order the entries of maps are written is not fixed)
    let again = wire::dec(s, k.m.ty, &back.encode_to_vec()).map_err(|e| format!("harness: static output {e:?}"))?;
    if again != want || (!has_nan(&want) && back != t) {
        return Err(format!("back in the static type it is {}, it was {}", show(s, &again), show(s, &want)));
    }
    let b2: Box<T> = dy.transcode_to().map_err(|e| format!("transcode_to a box: {e}"))?;
    if !has_nan(&want) && *b2 != t {
        return Err("transcode_to a box gives another value".into());
    }
    let mut fresh = DynamicMessage::new(b.md[k.m.ty].clone());
    fresh.transcode_from(&t).map_err(|e| format!("transcode_from: {e}"))?;
    eq(b, "transcode_from", &fresh, &want)?;
    let mut n = 10;
    for x in k.into {
        let mut d = b.to_dyn(x);
        let mut w = x.clone();
        wire::dec_into(s, &mut w, &kept).map_err(|e| format!("harness: {e:?}"))?;
        w.normalize(s);
        w.canon();
        d.transcode_from(&t).map_err(|e| format!("transcode_from: {e}"))?;
        eq(b, &format!("transcode_from into {}", show(s, x)), &d, &w)?;
        n += 1;
    }
    // what only the dynamic message can hold is left behind, nothing else
    let d = b.to_dyn(k.m);
    let t2: T = d.transcode_to().map_err(|e| format!("transcode_to of the original: {e}"))?;
    let got = wire::dec(s, k.m.ty, &t2.encode_to_vec()).map_err(|e| format!("harness: static output {e:?}"))?;
    if got != want {
        return Err(format!("transcode_to keeps {}, not {}", show(s, &got), show(s, &want)));
    }
    Ok(n)
}

/// From a static type to a dynamic message of another type, and on to the static type of that.
fn cross<T: Message + Default>(bytes: &[u8]) -> Option<T> {
    T::decode(bytes).ok()
}
fn cross_from<T: ReflectMessage + Message + Default + Clone + PartialEq>(b: &Bind, bytes: &[u8], to: usize) -> Result<(), String> {
    let s = &b.s;
    let Some(t) = cross::<T>(bytes) else { return Ok(()) };
    let kept = t.encode_to_vec();
    let mut d = DynamicMessage::new(b.md[to].clone());
    let r = d.transcode_from(&t);
    match (wire::dec(s, to, &kept), r) {
        (Ok(w), Ok(())) => {
            eq(b, "transcode_from another type", &d, &w)?;
            // going on to a static type is like decoding what the message means
            let sorted = |t: Result<T, _>| t.ok().and_then(|t: T| wire::records(&t.encode_to_vec())).map(|mut v| {
                v.sort();
                v
            });
            let back = sorted(d.transcode_to::<T>());
            let e = sorted(T::decode(wire::enc(s, &w, &Enc::default()).as_slice()));
            if back != e && !has_nan(&w) {
                return Err(format!("transcode_to the first type gives {back:?}, not {e:?}"));
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(w), Err(e)) => Err(format!("refused ({e}), it means {}", show(s, &w))),
        (Err(_), Ok(())) => Err(format!("accepted although {} is no {}", hex(&kept), s.msgs[to].name)),
    }
}

fn cases(c: &Ctx, b: &Bind, types: &[String]) -> Vec<Mv> {
    let mut u = Uni::new(&b.s);
    let mut out = vec![];
    for t in types {
        let m = b.s.msg(t);
        out.push(Mv::new(m));
        out.extend(u.singles(m));
        out.extend(u.pairs(m, c.pick(Lvl::Tiny, Lvl::Small)));
        out.extend(u.up_to(m, c.pick(2, 3)));
    }
    for m in &mut out {
        m.normalize(&b.s);
        m.canon();
    }
    out
}

fn intos(b: &Bind, ty: usize, step: usize) -> Vec<Mv> {
    let mut u = Uni::new(&b.s);
    let mut v: Vec<Mv> = u.singles(ty).into_iter().step_by(step).collect();
    for m in &mut v {
        m.normalize(&b.s);
        m.canon();
    }
    v.truncate(4);
    v
}

pub fn r01(c: &Ctx) {
    // generated types
    let b = Bind::with_pool(Schema::parse(ALL_BIN), crate::gen::POOL.clone());
    let mut u = universe(c, &b, true);
    u.extend(cases(c, &b, &NESTED.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let into: std::collections::HashMap<usize, Vec<Mv>> = b.s.msgs.iter().enumerate().map(|(i, _)| (i, intos(&b, i, 7))).collect();
    c.count("values of generated types", u.len() as u64);
    c.sample(|| show(&b.s, &u[u.len() / 2]));
    c.par(
        u.len(),
        |i| show(&b.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let bytes = wire::enc(&b.s, m, &Enc::default());
            let few = if i % 5 == 0 { &into[&m.ty][..] } else { &[] };
            let k = Case { b: &b, m, into: few, same: true };
            let n = generated!(b.s.msgs[m.ty].name.as_str(), trip, &k, &bytes)?;
            c.step(n);
            c.trace(1);
            Ok(())
        },
    );
    // every pair of types
    let mut pairs = vec![];
    let mut un = Uni::new(&b.s);
    for a in TYPES {
        let vs: Vec<Mv> = un.singles(b.s.msg(a)).into_iter().step_by(c.pick(4, 1)).collect();
        for t in TYPES {
            for m in &vs {
                let mut m = m.clone();
                m.normalize(&b.s);
                pairs.push((m, b.s.msg(t)));
            }
        }
    }
    c.count("values transcoded into other types", pairs.len() as u64);
    c.par(
        pairs.len(),
        |i| format!("{} into {}", show(&b.s, &pairs[i].0), b.s.msgs[pairs[i].1].name),
        |i| {
            let (m, to) = &pairs[i];
            c.state(&(hash(m), to));
            let bytes = wire::enc(&b.s, m, &Enc::default());
            generated!(b.s.msgs[m.ty].name.as_str(), cross_from, &b, &bytes, *to)?;
            c.step(2);
            c.trace(1);
            Ok(())
        },
    );
    // the well-known types
    let pool = DescriptorPool::global();
    let files = FileDescriptorSet::decode(WKT_BIN).expect("wkt25.bin").file;
    for f in &files {
        let got = pool.get_file_by_name(f.name());
        c.check(|| f.name().to_owned(), got.ok_or("the file is not in the global pool".to_owned()).and_then(|g| same_file(g.file_descriptor_proto(), f)));
        c.step(1);
    }
    if c.stopped() {
        return;
    }
    // (the alphabet of Any has messages of the test schema)
    let mut all = files.clone();
    let own: Vec<FileDescriptorProto> =
        FileDescriptorSet::decode(ALL_BIN).expect("all.bin").file.into_iter().filter(|f| !f.name().starts_with("google/")).collect();
    all.extend(own.iter().cloned());
    let w = match crate::report::no_panic("reading the global pool", || {
        let mut pool = pool.clone();
        pool.add_file_descriptor_protos(own.clone()).map_err(|e| e.to_string())?;
        Ok(Bind::with_pool(Schema::from_files(&all), pool))
    }) {
        Ok(Ok(w)) => w,
        Err(e) | Ok(Err(e)) => {
            c.fail(format!("{e}\n  case: the well-known types"));
            return;
        }
    };
    let mut types: Vec<String> = WELL_KNOWN.iter().filter(|x| x.1 == 0).map(|x| x.0.to_owned()).collect();
    types.sort();
    let u = cases(c, &w, &types);
    let into: std::collections::HashMap<usize, Vec<Mv>> = types.iter().map(|t| (w.s.msg(t), intos(&w, w.s.msg(t), 7))).collect();
    c.count("values of well-known types", u.len() as u64);
    c.sample(|| show(&w.s, &u[u.len() / 2]));
    c.par(
        u.len(),
        |i| show(&w.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(&(1, m));
            let bytes = wire::enc(&w.s, m, &Enc::default());
            let few = if i % 5 == 0 { &into[&m.ty][..] } else { &[] };
            let k = Case { b: &w, m, into: few, same: false };
            let name = w.s.msgs[m.ty].name.as_str();
            for alt in [0u8, 1] {
                if let Some(&(n, a)) = WELL_KNOWN.iter().find(|x| x.0 == name && x.1 == alt) {
                    c.step(well_known!((n, a), trip, &k, &bytes)?);
                    c.trace(1);
                }
            }
            Ok(())
        },
    );
    // the forms of the attribute
    let ty = b.s.msg("t3.Leaf");
    let global = {
        let _ = Form4::default().descriptor();
        DescriptorPool::global()
    };
    let g = Bind::with_pool(Schema::parse(ALL_BIN), global);
    for (i, m) in Uni::new(&b.s).singles(ty).into_iter().enumerate() {
        let mut m = m.clone();
        m.normalize(&b.s);
        m.canon();
        let bytes = wire::enc(&b.s, &m, &Enc::default());
        let k = Case { b: &b, m: &m, into: &[], same: true };
        let kg = Case { b: &g, m: &m, into: &[], same: false };
        let r = crate::report::no_panic("derived type", || {
            trip::<Form1>(&k, &bytes)?;
            trip::<Form2>(&k, &bytes)?;
            trip::<Form3>(&k, &bytes)?;
            trip::<Form4>(&kg, &bytes)?;
            trip::<Form5>(&kg, &bytes)
        });
        c.check(|| format!("form of the attribute, value {i} of t3.Leaf"), r.and_then(|r| r.map(|_| ())));
        c.trace(5);
        c.step(5);
    }
    c.param("well-known types", WELL_KNOWN.len());
    c.param("generated types", TYPES.len() + NESTED.len());
}

// ---------------------------------------------------------------- the descriptors of the well-known types

fn same_file(a: &FileDescriptorProto, b: &FileDescriptorProto) -> Result<(), String> {
    let sorted = |v: &[String]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if a.package() != b.package() || a.syntax() != b.syntax() || sorted(&a.dependency) != sorted(&b.dependency) {
        return Err("package, syntax or imports differ".into());
    }
    if !a.extension.is_empty() || !a.service.is_empty() {
        return Err("there are extensions or services".into());
    }
    same_all("message", &a.message_type, &b.message_type, |m| m.name(), same_message)?;
    same_all("enum", &a.enum_type, &b.enum_type, |m| m.name(), same_enum)
}
fn same_all<T>(what: &str, a: &[T], b: &[T], name: fn(&T) -> &str, f: fn(&T, &T) -> Result<(), String>) -> Result<(), String> {
    for x in a {
        if !b.iter().any(|y| name(x) == name(y)) {
            return Err(format!("there is a {what} {}", name(x)));
        }
    }
    for y in b {
        match a.iter().filter(|x| name(x) == name(y)).collect::<Vec<_>>()[..] {
            [x] => f(x, y).map_err(|e| format!("{what} {}: {e}", name(y)))?,
            [] => return Err(format!("there is no {what} {}", name(y))),
            _ => return Err(format!("there are several {what} {}", name(y))),
        }
    }
    Ok(())
}
fn same_message(a: &DescriptorProto, b: &DescriptorProto) -> Result<(), String> {
    same_all("field", &a.field, &b.field, |f| f.name(), |x, y| {
        let key = |f: &prost_types::FieldDescriptorProto| {
            (
                (f.number(), f.label(), f.r#type(), f.type_name().to_owned(), f.default_value.clone()),
                (f.oneof_index, f.json_name().to_owned(), f.proto3_optional(), f.options.as_ref().and_then(|o| o.packed), f.options.as_ref().map_or(false, |o| o.deprecated())),
            )
        };
        if key(x) == key(y) {
            Ok(())
        } else {
            Err(format!("is {:?}, not {:?}", key(x), key(y)))
        }
    })?;
    same_all("message", &a.nested_type, &b.nested_type, |m| m.name(), same_message)?;
    same_all("enum", &a.enum_type, &b.enum_type, |m| m.name(), same_enum)?;
    same_all("oneof", &a.oneof_decl, &b.oneof_decl, |m| m.name(), |_, _| Ok(()))?;
    let ranges = |m: &DescriptorProto| {
        let mut r: Vec<(u8, i32, i32)> = m.extension_range.iter().map(|r| (0, r.start(), r.end())).collect();
        r.extend(m.reserved_range.iter().map(|r| (1, r.start(), r.end())));
        r.sort();
        (r, m.options.as_ref().map_or(false, |o| o.map_entry()))
    };
    if ranges(a) != ranges(b) {
        return Err(format!("ranges are {:?}, not {:?}", ranges(a), ranges(b)));
    }
    Ok(())
}
fn same_enum(a: &EnumDescriptorProto, b: &EnumDescriptorProto) -> Result<(), String> {
    same_all("value", &a.value, &b.value, |v| v.name(), |x, y| if x.number() == y.number() { Ok(()) } else { Err(format!("is {}", x.number())) })?;
    if a.value.first().map(|v| v.name()) != b.value.first().map(|v| v.name()) {
        return Err("another value comes first".into());
    }
    Ok(())
}
