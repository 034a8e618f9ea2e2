//! W06: no input makes the library panic, overflow the stack, hang or allocate without bound.
use super::descr::{self, fld, msg, names_of, set, values, Meta, K, KO};
use super::json::nth;
use super::wire::TYPES;
use crate::alloc;
use crate::descr::{Ref, Verdict};
use crate::json::SerOpt;
use crate::mutate;
use crate::report::{guard, hex, no_panic, Ctx};
use crate::schema::ALL_BIN;
use crate::text::Fmt;
use crate::uni::Uni;
use crate::value::Bind;
use crate::views::{self, Queries};
use crate::wire::{key, varint};
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, MessageDescriptor};
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::time::Instant;

// ---------------------------------------------------------------- printing everything

#[derive(Clone, Copy, PartialEq)]
enum How {
    /// all options
    All,
    /// all but the indented Debug output, which takes cubic time in the depth
    Deep,
    /// defaults and their opposites
    Some,
    /// one of each, for large messages
    One,
    /// the same without Debug, which shows the descriptor with every message
    Flat,
}

/// Every way to look at a message. Nothing is expected of the outcome but that there is one.
fn print_all(d: &DynamicMessage, how: How) -> Result<u64, String> {
    let mut n = 0u64;
    n += no_panic("encode", || {
        let y = d.encode_to_vec();
        assert_eq!(y.len(), d.encoded_len());
        let mut small = vec![0u8; y.len().saturating_sub(1)];
        let mut b: &mut [u8] = &mut small;
        let r = d.encode(&mut b).is_err();
        if !y.is_empty() {
            assert!(r, "encoding into too small a buffer succeeds");
        }
        y.len() as u64
    })?;
    let so = SerOpt::all();
    for (i, o) in so.iter().enumerate() {
        if how == How::All || how == How::Deep || i == 0 || (how == How::Some && i == 15) {
            n += no_panic("serialize", || {
                let mut s = serde_json::Serializer::new(vec![]);
                let _ = d.serialize_with_options(&mut s, &o.real());
                s.into_inner().len() as u64
            })?;
        }
    }
    let fo = Fmt::all();
    for (i, o) in fo.iter().enumerate() {
        if how == How::All || how == How::Deep || i == 0 || (how == How::Some && [1, 2, 31].contains(&i)) {
            n += no_panic("to_text_format", || d.to_text_format_with_options(&o.real()).len() as u64)?;
        }
    }
    n += no_panic("Display", || format!("{d}").len() as u64)?;
    if how != How::Flat {
        n += no_panic("Debug", || format!("{d:?}").len() as u64)?;
    }
    n += no_panic("Display", || format!("{d:#}").len() as u64)?;
    if matches!(how, How::All | How::Some) {
        n += no_panic("Debug", || format!("{d:#?}").len() as u64)?;
    }
    n += no_panic("unknown fields", || {
        let mut n = 0;
        for u in d.unknown_fields() {
            n += format!("{u}").len() + format!("{u:?}").len() + u.encoded_len();
        }
        n as u64
    })?;
    no_panic("fields", || {
        let e = d.clone();
        std::hint::black_box(e == *d);
        for (f, v) in d.fields() {
            assert!(d.has_field(&f));
            std::hint::black_box(v);
        }
        drop(e)
    })?;
    Ok(n)
}

fn wire_in(md: &MessageDescriptor, y: &[u8], how: How) -> Result<bool, String> {
    let r = no_panic("decode", || DynamicMessage::decode(md.clone(), y).map_err(|e| format!("{e} {e:?}")))?;
    if let Ok(d) = &r {
        print_all(d, how)?;
    }
    no_panic("drop", || drop(r)).map(|_| false)?;
    Ok(true)
}
fn json_in(md: &MessageDescriptor, t: &str, how: How) -> Result<bool, String> {
    let r = no_panic("deserialize", || {
        let mut d = serde_json::Deserializer::from_str(t);
        DynamicMessage::deserialize(md.clone(), &mut d).map_err(|e| format!("{e} {e:?}"))
    })?;
    if let Ok(d) = &r {
        print_all(d, how)?;
    }
    Ok(r.is_ok())
}
fn text_in(md: &MessageDescriptor, t: &str, how: How) -> Result<bool, String> {
    let r = no_panic("parse_text_format", || DynamicMessage::parse_text_format(md.clone(), t).map_err(|e| format!("{e} {e:?}")))?;
    if let Ok(d) = &r {
        print_all(d, how)?;
    }
    Ok(r.is_ok())
}
fn pool_in(y: &[u8], r: Option<&Ref>) -> Result<Option<DescriptorPool>, String> {
    let p = no_panic("DescriptorPool::decode", || DescriptorPool::decode(y).map_err(|e| format!("{e} {e:?} {:?} {:?}", e.file(), e.path())))?;
    let Ok(p) = p else { return Ok(None) };
    no_panic("Debug of the pool", || views::debug(&p))?;
    no_panic("encoding the pool", || p.encode_to_vec().len() + p.file_descriptor_protos().count())?;
    no_panic("options", || options_of(&p))?;
    if let Some(r) = r {
        let q = Queries::of(r, true);
        no_panic("reading the pool", || views::real(&p, &q).len())?;
    }
    Ok(Some(p))
}

/// The options of everything in the pool, decoded.
fn options_of(p: &DescriptorPool) -> usize {
    let mut n = 0;
    let mut o = |m: DynamicMessage| n += m.encoded_len();
    for f in p.files() {
        o(f.options());
    }
    for m in p.all_messages() {
        o(m.options());
        m.fields().for_each(|f| o(f.options()));
        m.oneofs().for_each(|f| o(f.options()));
    }
    for e in p.all_enums() {
        o(e.options());
        e.values().for_each(|v| o(v.options()));
    }
    p.all_extensions().for_each(|x| o(x.options()));
    for s in p.services() {
        o(s.options());
        s.methods().for_each(|m| o(m.options()));
    }
    n
}

// ---------------------------------------------------------------- limits

/// Runs a case on a thread with the default stack of a Rust thread; its allocations and time are
/// bounded by the size of its input.
fn limited(c: &Ctx, what: &str, len: usize, f: impl FnOnce() -> Result<(), String> + Send) {
    crate::report::note(&c.id, what);
    let t = Instant::now();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                let m = alloc::mark();
                let r = guard(f);
                (r, alloc::peak(m))
            })
            .unwrap()
            .join()
            .unwrap()
    });
    crate::report::note(&c.id, "");
    c.states_add(1);
    c.step(1);
    c.trace(1);
    match r.0 {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(Ok(e)) => c.fail(format!("{e}\n  case: {what}")),
        Err(Err(e)) => panic!("harness: {e}"),
    }
    let max = ALLOC_BASE + ALLOC_PER_BYTE * len;
    if r.1 > max {
        c.fail(format!("{} bytes were allocated at a time for an input of {len} bytes\n  case: {what}", r.1));
    }
    let s = t.elapsed().as_secs_f64();
    if s > 60.0 {
        c.fail(format!("it took {s:.0} s\n  case: {what}"));
    }
    if std::env::var("MC_TIMES").is_ok() {
        println!("{s:8.3} s {:12} bytes ({:6.1} per byte) {what}", r.1, r.1 as f64 / len.max(1) as f64);
    }
}
const ALLOC_BASE: usize = 4 << 20;
const ALLOC_PER_BYTE: usize = 2000;

// ---------------------------------------------------------------- deep inputs

/// A record wrapped n times: each level is `pre`, the key of `num`, the length, `inner`.
fn ld_chain(n: usize, num: u32, pre: &[u8], seed: &[u8]) -> Vec<u8> {
    let mut sizes = vec![seed.len()];
    let head = |len: usize| {
        let mut h = pre.to_vec();
        key(num, 2, &mut h);
        varint(len as u64, 0, &mut h);
        h
    };
    for i in 0..n {
        let h = head(sizes[i]);
        sizes.push(sizes[i] + h.len());
    }
    let mut out = Vec::with_capacity(*sizes.last().unwrap());
    for i in (0..n).rev() {
        out.extend(head(sizes[i]));
    }
    out.extend(seed);
    out
}
/// Alternating field numbers.
fn ld_chain2(n: usize, nums: &[u32], seed: &[u8]) -> Vec<u8> {
    let mut sizes = vec![seed.len()];
    let head = |i: usize, len: usize| {
        let mut h = vec![];
        key(nums[i % nums.len()], 2, &mut h);
        varint(len as u64, 0, &mut h);
        h
    };
    for i in 0..n {
        let h = head(i, sizes[i]);
        sizes.push(sizes[i] + h.len());
    }
    let mut out = Vec::with_capacity(*sizes.last().unwrap());
    for i in (0..n).rev() {
        out.extend(head(i, sizes[i]));
    }
    out.extend(seed);
    out
}
fn group_chain(n: usize, num: u32, end: bool) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..n {
        key(num, 3, &mut out);
    }
    if end {
        for _ in 0..n {
            key(num, 4, &mut out);
        }
    }
    out
}
fn rep(a: &str, n: usize, mid: &str, b: &str) -> String {
    format!("{}{mid}{}", a.repeat(n), b.repeat(n))
}

fn deep(c: &Ctx, b: &Bind) {
    let s = &b.s;
    let mut depths = vec![1usize, 2, 50];
    depths.extend(96..=104);
    depths.extend([126, 127, 128, 129, 198, 199, 200, 201, 202, 1000, 10_000, 200_000]);
    c.param("depths", format!("{depths:?}"));
    let mut any_url = vec![0x0a];
    varint(20, 0, &mut any_url);
    any_url.extend(b"/google.protobuf.Any");
    let mut wk_url = vec![0x0a];
    varint(6, 0, &mut wk_url);
    wk_url.extend(b"/t3.Wk");
    let mut rec_url = vec![0x0a];
    varint(7, 0, &mut rec_url);
    rec_url.extend(b"/t3.Rec");
    let f = |t: &str, n: &str| {
        let m = &s.msgs[s.msg(t)];
        let num = m.all().find(|f| f.name == n || f.full.ends_with(n)).unwrap_or_else(|| panic!("harness: no {n} in {t}")).num;
        num
    };
    for &n in &depths {
        let how = match n {
            0..=2 => How::All,
            3..=1000 => How::Deep,
            _ => How::One,
        };
        // wire
        let mut w: Vec<(&str, String, Vec<u8>)> = vec![];
        for x in ["child", "kids", "left"] {
            for seed in [&[][..], &[8, 1], &[8], &[0xff]] {
                w.push(("t3.Rec", format!("{x} inside {}", hex(seed)), ld_chain(n, f("t3.Rec", x), &[], seed)));
            }
            w.push(("t3.Rec", format!("{x} after a field"), ld_chain(n, f("t3.Rec", x), &[8, 1], &[8, 1])));
        }
        w.push(("t3.Rec", "all ways".into(), ld_chain2(n, &[f("t3.Rec", "child"), f("t3.Rec", "kids"), f("t3.Rec", "left")], &[8, 1])));
        // a map: entry { value: Rec { entry ... } }
        w.push(("t3.Rec", "map values".into(), ld_chain2(n, &[2, f("t3.Rec", "named")], &[])));
        w.push(("t3.Rec", "map values with a key".into(), ld_chain2(n, &[f("t3.Rec", "named"), 2], b"\x0a\x01a")));
        // descending through two records at each level
        w.push(("t3.Ev", "d, g".into(), ld_chain2(n, &[4, 7], &[8, 1])));
        w.push(("t2.Ex", "x_self".into(), ld_chain(n, f("t2.Ex", "x_self"), &[], &[])));
        w.push(("t2.Tx", "tr".into(), ld_chain(n, f("t2.Tx", "tr"), &[], &[])));
        for end in [true, false] {
            for (t, num) in [("t2.Gr", f("t2.Gr", "sub")), ("t2.Gr", 777), ("t3.Leaf", 100), ("t2.Ex", f("t2.Ex", "xgrp")), ("t2.Ex", 4000), ("t3.Rec", f("t3.Rec", "child"))] {
                w.push((t, format!("groups {num} {end}"), group_chain(n, num, end)));
            }
            for f in s.msgs[s.msg("t2.Gr")].all() {
                w.push(("t2.Gr", format!("groups {} {end}", f.name), group_chain(n, f.num, end)));
            }
        }
        for seed in [&[][..], &[8, 1], &[0xff], b"text"] {
            w.push(("t3.Leaf", "unknown records".into(), ld_chain(n, 100, &[], seed)));
            w.push(("google.protobuf.Empty", "unknown records and numbers".into(), ld_chain(n, 3, &[0x28, 7], seed)));
        }
        w.push(("t3.Leaf", "end groups".into(), group_chain(0, 1, true).into_iter().chain((0..n).flat_map(|_| vec![0x0c])).collect()));
        // unknown groups of unknown records of ...
        let mut mixed = vec![];
        for _ in 0..n {
            key(9, 3, &mut mixed);
            mixed.extend([0x52, 3, 0x5a, 1, 0]);
        }
        for _ in 0..n {
            key(9, 4, &mut mixed);
        }
        w.push(("t3.Leaf", "unknown groups with records".into(), mixed));
        w.push(("google.protobuf.Value", "lists".into(), ld_chain2(n, &[1, 6], &[])));
        w.push(("google.protobuf.ListValue", "lists".into(), ld_chain2(n, &[6, 1], &[8, 0])));
        w.push(("google.protobuf.Struct", "structs".into(), ld_chain2(n, &[5, 2, 1], &[])));
        w.push(("google.protobuf.Value", "structs".into(), ld_chain2(n, &[1, 2, 5], &[])));
        if n <= 10_000 {
            w.push(("google.protobuf.Any", "Any in Any".into(), ld_chain(n, 2, &any_url, &any_url)));
            w.push(("google.protobuf.Any", "Any in Any, broken inside".into(), ld_chain(n, 2, &any_url, &[0xff])));
            // Wk.any of Wk: any { url, value: Wk { any ...
            let mut y = vec![];
            for _ in 0..n.min(2000) {
                let mut a = wk_url.clone();
                key(2, 2, &mut a);
                varint(y.len() as u64, 0, &mut a);
                a.extend(&y);
                let mut m = vec![0x0a];
                varint(a.len() as u64, 0, &mut m);
                m.extend(a);
                y = m;
            }
            w.push(("t3.Wk", "Any of messages with Any".into(), y));
            // an Any of a deep message, at the end of a deep chain of Any
            let inner = ld_chain(n.min(98), f("t3.Rec", "child"), &[], &[8, 1]);
            let mut a = rec_url.clone();
            key(2, 2, &mut a);
            varint(inner.len() as u64, 0, &mut a);
            a.extend(inner);
            w.push(("google.protobuf.Any", "deep messages in a chain of Any".into(), ld_chain(n.min(2000), 2, &any_url, &a)));
        }
        for (t, what, y) in &w {
            let md = b.desc(t);
            limited(c, &format!("wire data for {t}: {what}, {n} deep"), y.len(), || wire_in(&md, y, how).map(|_| ()));
        }
        // JSON
        let mut w: Vec<(&str, String)> = vec![];
        w.push(("t3.Rec", rep("{\"child\":", n, "{}", "}")));
        w.push(("t3.Rec", rep("{\"kids\":[", n, "{}", "]}")));
        w.push(("t3.Rec", rep("{\"named\":{\"a\":", n, "{}", "}}")));
        w.push(("t3.Rec", rep("{\"child\":{\"kids\":[{\"named\":{\"a\":", n, "{}", "}}]}}")));
        w.push(("t3.Rec", rep("{\"child\":", n, "", "")));
        w.push(("t3.Rec", format!("{{\"zz\":{}}}", rep("[", n, "", "]"))));
        w.push(("t3.Rec", format!("{{\"zz\":{}}}", rep("{\"a\":", n, "1", "}"))));
        w.push(("google.protobuf.Value", rep("[", n, "", "]")));
        w.push(("google.protobuf.Value", rep("[", n, "", "")));
        w.push(("google.protobuf.Value", rep("{\"a\":", n, "1", "}")));
        w.push(("google.protobuf.ListValue", rep("[", n, "", "]")));
        w.push(("google.protobuf.Struct", rep("{\"a\":", n, "1", "}")));
        w.push(("google.protobuf.Any", rep("{\"@type\":\"/google.protobuf.Any\",\"value\":", n, "{}", "}")));
        w.push(("google.protobuf.Any", rep("{\"value\":", n, "{}", ",\"@type\":\"/google.protobuf.Any\"}")));
        w.push(("google.protobuf.Any", rep("{\"any\":", n, "{}", ",\"@type\":\"/t3.Wk\"}")));
        w.push(("google.protobuf.Any", rep("{\"@type\":\"/t3.Wk\",\"any\":", n, "{}", "}")));
        w.push(("google.protobuf.Any", format!("{{\"@type\":\"/google.protobuf.Value\",\"value\":{}}}", rep("[", n, "", "]"))));
        w.push(("google.protobuf.Any", format!("{{\"value\":{},\"@type\":\"/google.protobuf.Value\"}}", rep("[", n, "", "]"))));
        w.push(("t2.Ex", rep("{\"[t2.x_self]\":", n, "{}", "}")));
        for (t, x) in &w {
            let md = b.desc(t);
            limited(c, &format!("JSON for {t}: {}..., {n} deep", &x[..x.len().min(30)]), x.len(), || json_in(&md, x, how).map(|_| ()));
        }
        // text format
        let mut w: Vec<(&str, String)> = vec![];
        for (o, e) in [("{", "}"), ("<", ">"), (":{", "}"), (": <", " > "), ("{", ""), ("<", "")] {
            w.push(("t3.Tx", rep(&format!("m{o}"), n, "", e)));
            w.push(("t3.Tx", rep(&format!("i:1 m{o} r:1 q{o}"), n, "", &format!("{e} i:2{e}"))));
            w.push(("t2.Ex", rep(&format!("[t2.x_self]{o}"), n, "", e)));
            w.push(("t2.Tx", rep(&format!("[t2.tr]{o}"), n, "", e)));
            w.push(("t3.Rec", rep(&format!("named{o}value{o}"), n, "", &format!("{e}{e}"))));
            w.push(("t3.Tx", rep(&format!("any{o}[x/t3.Tx]{o}"), n, "", &format!("{e}{e}"))));
            w.push(("google.protobuf.Any", rep(&format!("[x/google.protobuf.Any]{o}"), n, "", e)));
            w.push(("google.protobuf.Value", rep(&format!("list_value{o}values{o}"), n, "", &format!("{e}{e}"))));
            w.push(("t3.Tx", rep(&format!("zz{o}"), n, "", e)));
            w.push(("t3.Tx", rep(&format!("[zz.y]{o}"), n, "", e)));
        }
        w.push(("t3.Tx", rep("q:[{", n, "", "}]")));
        w.push(("t3.Tx", rep("q:[{},<", n, "", ">]")));
        w.push(("t3.Tx", rep("q:[", n, "", "]")));
        w.push(("t3.Tx", rep("r:[", n, "1", "]")));
        w.push(("t3.Tx", rep("[", n, "", "]")));
        w.push(("t3.Tx", format!("i:{}1", "-".repeat(n))));
        w.push(("t3.Tx", rep("{", n, "", "}")));
        w.push(("t2.Gr", rep("sub{", n, "", "}")));
        for f in s.msgs[s.msg("t2.Gr")].all() {
            if let Some(t) = f.ty.msg() {
                let short = s.msgs[t].name.rsplit('.').next().unwrap().to_owned();
                w.push(("t2.Gr", rep(&format!("{short}{{"), n, "", "}")));
            }
        }
        for (t, x) in &w {
            let md = b.desc(t);
            limited(c, &format!("text for {t}: {}..., {n} deep", &x[..x.len().min(30)]), x.len(), || text_in(&md, x, how).map(|_| ()));
        }
        // descriptors: nested types, groups in unknown fields, the same in a pool's files
        let mut w: Vec<(&str, Vec<u8>)> = vec![];
        let named = b"\x0a\x01a";
        let mut y = ld_chain(n, 3, named, named);
        let mut fd = b"\x0a\x01f".to_vec();
        key(4, 2, &mut fd);
        varint(y.len() as u64, 0, &mut fd);
        fd.append(&mut y);
        let mut fs = vec![0x0a];
        varint(fd.len() as u64, 0, &mut fs);
        fs.extend(fd);
        w.push(("nested types", fs));
        w.push(("unknown groups in the set", group_chain(n, 9, true)));
        w.push(("unknown records in the set", ld_chain(n, 9, &[], &[])));
        // options: extensions of options nested
        for (what, y) in &w {
            limited(c, &format!("descriptor set: {what}, {n} deep"), y.len(), || pool_in(y, None).map(|_| ()));
        }
    }
}

// ---------------------------------------------------------------- long inputs

fn flat(c: &Ctx, b: &Bind) {
    let s = &b.s;
    let n = c.pick(100_000usize, 1_000_000);
    c.param("long inputs: elements", n);
    let mut w: Vec<(&str, &str, Vec<u8>)> = vec![];
    let many = |x: &[u8]| x.iter().copied().cycle().take(x.len() * n).collect::<Vec<u8>>();
    w.push(("t3.Rec", "empty kids", many(&[0x1a, 0])));
    w.push(("t3.Rec", "the child again", many(&[0x12, 0])));
    w.push(("t3.Rec", "left again", many(&[0x2a, 2, 8, 1])));
    w.push(("t3.Rec", "one map key", many(&[0x22, 0])));
    w.push(("t3.Leaf", "unknown numbers", many(&[0x28, 0])));
    w.push(("t3.Leaf", "unknown records", many(&[0x2a, 0])));
    w.push(("t3.Leaf", "unknown groups", many(&[0x2b, 0x2c])));
    w.push(("t3.Leaf", "a number again", many(&[8, 1])));
    w.push(("t3.Leaf", "a string again", many(&[0x12, 1, b'a'])));
    w.push(("t3.Rp", "unpacked numbers", many(&[0x18, 0])));
    w.push(("t3.Rp", "packed numbers of length 0", many(&[0x1a, 0])));
    w.push(("t3.Rp", "empty strings", many(&[0x72, 0])));
    let mut distinct = vec![];
    for i in 0..n {
        let mut k = vec![8];
        varint(i as u64, 0, &mut k);
        distinct.push(0x0a);
        distinct.push(k.len() as u8);
        distinct.extend(k);
    }
    w.push(("t3.Mk", "map entries", distinct));
    let mut packed = vec![0x6a];
    varint(n as u64, 0, &mut packed);
    packed.extend(vec![1; n]);
    w.push(("t3.Rp", "packed booleans", packed));
    // oneof members in turn
    w.push(("t3.On", "oneof members", many(&[0x10, 1, 0x1a, 0, 0x32, 0])));
    let mut unk = vec![];
    for i in 0..n {
        key(100 + (i as u64 * 7919 % 100_000) as u32, 0, &mut unk);
        unk.push(1);
    }
    w.push(("t3.Leaf", "distinct unknown numbers", unk));
    for ty in ["google.protobuf.ListValue", "google.protobuf.FieldMask", "google.protobuf.Struct", "google.protobuf.Any"] {
        w.push((ty, "empty records", many(&[0x0a, 0])));
    }
    // lengths without data
    for len in [1u64, 127, 128, 1 << 16, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX] {
        for t in TYPES {
            for f in s.msgs[s.msg(t)].all() {
                let mut y = vec![];
                key(f.num, 2, &mut y);
                varint(len, 0, &mut y);
                let md = b.desc(t);
                limited(c, &format!("wire data for {t}: {} with a length of {len}", f.name), y.len(), || wire_in(&md, &y, How::Flat).map(|_| ()));
                y.extend([0; 10]);
                limited(c, &format!("wire data for {t}: {} with a length of {len} and 10 bytes", f.name), y.len(), || wire_in(&md, &y, How::Flat).map(|_| ()));
            }
        }
        let mut y = vec![];
        key(999, 2, &mut y);
        varint(len, 0, &mut y);
        let md = b.desc("t3.Leaf");
        limited(c, &format!("wire data: unknown field with a length of {len}"), y.len(), || wire_in(&md, &y, How::Flat).map(|_| ()));
        for num in 1..3 {
            let mut y = vec![];
            key(num, 2, &mut y);
            varint(len, 0, &mut y);
            limited(c, &format!("descriptor set with a length of {len}"), y.len(), || pool_in(&y, None).map(|_| ()));
        }
    }
    for (t, what, y) in &w {
        let md = b.desc(t);
        limited(c, &format!("wire data for {t}: {n} x {what}"), y.len(), || wire_in(&md, y, How::Flat).map(|_| ()));
    }
    drop(w);
    // JSON
    let mut w: Vec<(&str, &str, String)> = vec![];
    let list = |x: &str| format!("[{}{x}]", format!("{x},").repeat(n));
    w.push(("t3.Rec", "kids", format!("{{\"kids\":{}}}", list("{}"))));
    w.push(("t3.Rec", "unknown lists", format!("{{\"zz\":{}}}", list("[]"))));
    w.push(("t3.Rec", "the same key", format!("{{{}\"v\":1}}", "\"v\":1,".repeat(n))));
    w.push(("t3.Rec", "the same null key", format!("{{{}\"v\":null}}", "\"v\":null,".repeat(n))));
    w.push(("t3.Rp", "numbers", format!("{{\"fInt32\":{}}}", list("1"))));
    w.push(("t3.Rp", "numbers as strings", format!("{{\"fInt64\":{}}}", list("\"1\""))));
    w.push(("t3.Mk", "map keys", format!("{{\"kInt32\":{{{}\"x\":1}}}}", (0..n).map(|i| format!("\"{i}\":\"\",")).collect::<String>())));
    w.push(("t3.Sc", "digits", format!("{{\"fInt64\":{}}}", "1".repeat(n))));
    w.push(("t3.Sc", "digits in a string", format!("{{\"fInt64\":\"{}\"}}", "1".repeat(n))));
    w.push(("t3.Sc", "zeros in a string", format!("{{\"fInt64\":\"1.{}\"}}", "0".repeat(n))));
    w.push(("t3.Sc", "zeros before", format!("{{\"fInt64\":\"{}1\"}}", "0".repeat(n))));
    w.push(("t3.Sc", "digits of a double", format!("{{\"fDouble\":{}.5e-7}}", "1".repeat(n))));
    w.push(("t3.Sc", "digits of a double in a string", format!("{{\"fDouble\":\"0.{}1\"}}", "0".repeat(n))));
    for e in ["1e99999", "1e-99999", "1e999999999999999999999", "-1e2147483648", "1e-9223372036854775809", "0e999999999999", "9e18", "1e400"] {
        for f in ["fDouble", "fFloat", "fInt32", "fInt64", "fUint64", "fFixed32", "fEnum", "fBool"] {
            w.push(("t3.Sc", "exponents", format!("{{\"{f}\":{e}}}")));
            w.push(("t3.Sc", "exponents", format!("{{\"{f}\":\"{e}\"}}")));
        }
    }
    w.push(("t3.Sc", "base64", format!("{{\"fBytes\":\"{}\"}}", "abcd".repeat(n))));
    w.push(("t3.Sc", "padding", format!("{{\"fBytes\":\"{}\"}}", "=".repeat(n))));
    w.push(("t3.Sc", "escapes", format!("{{\"fString\":\"{}\"}}", "\\u0000".repeat(n))));
    w.push(("t3.Sc", "a long enum name", format!("{{\"fEnum\":\"{}\"}}", "E".repeat(n))));
    w.push(("t3.Sc", "a long field name", format!("{{\"{}\":1}}", "f".repeat(n))));
    w.push(("google.protobuf.FieldMask", "paths", format!("\"{}a\"", "aB,".repeat(n))));
    w.push(("google.protobuf.FieldMask", "dots", format!("\"{}a\"", "aB.".repeat(n))));
    w.push(("google.protobuf.FieldMask", "capitals", format!("\"a{}\"", "B".repeat(n))));
    w.push(("google.protobuf.Duration", "seconds", format!("\"{}s\"", "1".repeat(n))));
    w.push(("google.protobuf.Duration", "nanos", format!("\"1.{}s\"", "1".repeat(n))));
    w.push(("google.protobuf.Timestamp", "nanos", format!("\"2000-01-01T00:00:00.{}Z\"", "1".repeat(n))));
    w.push(("google.protobuf.Timestamp", "year", format!("\"{}-01-01T00:00:00Z\"", "1".repeat(n))));
    w.push(("google.protobuf.Any", "a long type URL", format!("{{\"@type\":\"{}t3.Leaf\"}}", "/".repeat(n))));
    w.push(("google.protobuf.Any", "types", format!("{{{}\"i\":1}}", "\"@type\":\"/t3.Leaf\",".repeat(n))));
    w.push(("google.protobuf.Any", "fields before the type", format!("{{{}\"@type\":\"/t3.Leaf\"}}", "\"i\":1,".repeat(n))));
    w.push(("google.protobuf.Value", "numbers", list("1")));
    w.push(("google.protobuf.Value", "lists", list("[]")));
    w.push(("google.protobuf.Struct", "keys", format!("{{{}\"a\":1}}", (0..n).map(|i| format!("\"{i}\":1,")).collect::<String>())));
    for (t, what, x) in &w {
        let md = b.desc(t);
        limited(c, &format!("JSON for {t}: {n} x {what} ({})", &x[..x.len().min(30)]), x.len(), || json_in(&md, x, How::Flat).map(|_| ()));
    }
    drop(w);
    // text format
    let mut w: Vec<(&str, &str, String)> = vec![];
    w.push(("t3.Tx", "fields", "r:1 ".repeat(n)));
    w.push(("t3.Tx", "messages", "q{}".repeat(n)));
    w.push(("t3.Tx", "separators", format!("i:1{}", ";".repeat(n))));
    w.push(("t3.Tx", "a list", format!("r:[{}1]", "1,".repeat(n))));
    w.push(("t3.Tx", "literals", format!("s:{}", "'a'".repeat(n))));
    w.push(("t3.Tx", "empty literals", format!("s:{}", "''".repeat(n))));
    w.push(("t3.Tx", "a comment", format!("#{}\ni:1", "#".repeat(n))));
    w.push(("t3.Tx", "comments", "#\n".repeat(n)));
    w.push(("t3.Tx", "white space", " \n\t".repeat(n)));
    w.push(("t3.Tx", "digits", format!("i:{}", "1".repeat(n))));
    w.push(("t3.Tx", "octal digits", format!("i:0{}", "7".repeat(n))));
    w.push(("t3.Tx", "hex digits", format!("i:0x{}", "f".repeat(n))));
    w.push(("t3.Tx", "digits of a float", format!("f:{}.5", "1".repeat(n))));
    w.push(("t3.Tx", "exponent", format!("f:1e{}", "9".repeat(n))));
    w.push(("t3.Tx", "identifier", format!("{}:1", "a".repeat(n))));
    w.push(("t3.Tx", "extension name", format!("[{}a]:1", "a.".repeat(n))));
    w.push(("t3.Tx", "slashes", format!("[{}a]:1", "a/".repeat(n))));
    w.push(("t3.Tx", "any domain", format!("any{{[{}b/t3.Tx]{{}}}}", "a.".repeat(n))));
    w.push(("t3.Tx", "any path", format!("any{{[{}t3.Tx]{{}}}}", "a/".repeat(n))));
    w.push(("t3.Tx", "map entries", (0..n).map(|i| format!("p{{key:'{i}' value:1}}")).collect()));
    w.push(("t3.Tx", "map entries of one key", "p{}".repeat(n)));
    w.push(("t3.Tx", "escapes", format!("y:'{}'", "\\377".repeat(n))));
    w.push(("t3.Tx", "escapes", format!("y:'{}", "\\".repeat(n))));
    w.push(("t3.Tx", "quotes", "'".repeat(n)));
    w.push(("t3.Tx", "long characters", format!("s:'{}'", "\u{10ffff}".repeat(n))));
    w.push(("t3.Tx", "junk", "\u{e9}".repeat(n)));
    w.push(("t3.Tx", "an error at the end", format!("{}x:", "r:1\n".repeat(n))));
    for (t, what, x) in &w {
        let md = b.desc(t);
        let head: String = x.chars().take(20).collect();
        limited(c, &format!("text for {t}: {n} x {what} ({head})"), x.len(), || text_in(&md, x, How::Flat).map(|_| ()));
    }
    drop(w);
    // pools
    let pool = |what: String, fs: Vec<FileDescriptorProto>| {
        let y = FileDescriptorSet { file: fs }.encode_to_vec();
        limited(c, &what, y.len(), || pool_in(&y, None).map(|_| ()));
    };
    let m = c.pick(2_000usize, 10_000);
    for n in [10, 60, m] {
        pool(
            format!("a chain of {n} public imports"),
            (0..n)
                .map(|i| {
                    descr::file(&format!("{i}"), |f| {
                        if i > 0 {
                            f.dependency = vec![format!("{}", i - 1)];
                            f.public_dependency = vec![0];
                        }
                        f.message_type.push(msg(&format!("M{i}")));
                    })
                })
                .collect(),
        );
        let n2 = n.min(300);
        pool(
            format!("a ladder of {n2} public imports"),
            (0..2 * n2)
                .map(|i| {
                    descr::file(&format!("{i}"), |f| {
                        if i > 1 {
                            f.dependency = vec![format!("{}", (i / 2) * 2 - 2), format!("{}", (i / 2) * 2 - 1)];
                            f.public_dependency = vec![0, 1];
                        }
                        let mut x = msg(&format!("M{i}"));
                        if i > 1 {
                            x.field.push(fld("f", 1, 11, "M0"));
                        }
                        f.message_type.push(x);
                    })
                })
                .collect(),
        );
        // every prefix of a package is a name of its own, which is quadratic
        let k = n.min(2_000);
        pool(format!("a package of {k} parts"), vec![descr::file("f", |f| {
            f.package = Some("a.".repeat(k) + "a");
            let mut x = msg("M");
            x.field.push(fld("f", 1, 11, "M"));
            x.field.push(fld("g", 2, 11, "nope"));
            x.field.push(fld("h", 3, 11, "a.a.a.M"));
            f.message_type.push(x);
        })]);
        pool(format!("{n} fields"), vec![descr::file("f", |f| {
            let mut x = msg("M");
            for i in 0..n {
                x.field.push(fld(&format!("f{i}"), i as i32 + 1, 5, ""));
            }
            f.message_type.push(x);
        })]);
        pool(format!("{n} fields of one number and name"), vec![descr::file("f", |f| {
            let mut x = msg("M");
            for _ in 0..n {
                x.field.push(fld("f", 1, 5, ""));
            }
            f.message_type.push(x);
        })]);
        pool(format!("{n} reserved ranges, extension ranges and names"), vec![descr::file("f", |f| {
            let mut x = msg("M");
            for i in 0..n as i32 {
                x.reserved_range.push(prost_types::descriptor_proto::ReservedRange { start: Some(i * 4 + 100_000), end: Some(i * 4 + 100_001) });
                x.extension_range.push(prost_types::descriptor_proto::ExtensionRange { start: Some(i * 4 + 100_002), end: Some(i * 4 + 100_003), options: None });
                x.reserved_name.push(format!("r{i}"));
                x.field.push(fld(&format!("f{i}"), i + 1, 5, ""));
            }
            f.message_type.push(x);
        })]);
        pool(format!("{n} enum values and oneofs"), vec![descr::file("f", |f| {
            let mut e = prost_types::EnumDescriptorProto { name: Some("E".into()), ..Default::default() };
            for i in 0..n as i32 {
                e.value.push(prost_types::EnumValueDescriptorProto { name: Some(format!("V{i}")), number: Some(i), ..Default::default() });
            }
            f.enum_type.push(e);
            let mut x = msg("M");
            for i in 0..n as i32 {
                x.oneof_decl.push(prost_types::OneofDescriptorProto { name: Some(format!("o{i}")), ..Default::default() });
                x.field.push(prost_types::FieldDescriptorProto { oneof_index: Some(i), ..fld(&format!("f{i}"), i + 1, 5, "") });
            }
            f.message_type.push(x);
        })]);
        pool(format!("{n} source locations"), vec![descr::file("f", |f| {
            f.message_type.push(msg("M"));
            f.message_type.push(msg("M"));
            let mut si = prost_types::SourceCodeInfo::default();
            for i in 0..n as i32 {
                si.location.push(prost_types::source_code_info::Location { path: vec![4; (i % 50) as usize], span: vec![i, i, i], ..Default::default() });
            }
            f.source_code_info = Some(si);
        })]);
        // option names and values
        for n in [1, 90, 98, 99, 100, 101, 102, n] {
            for leaf in ["v", "nope", "child"] {
                let mut parts = vec![(".ro.rec", true)];
                parts.extend(vec![("child", false); n]);
                parts.push((leaf, false));
                pool(format!("an option name of {n} parts .. {leaf}"), with_option(parts, &|u| u.positive_int_value = Some(1)));
            }
            for agg in [rep("child{", n, "v:1", "}"), rep("child<", n, "", ">"), rep("child{", n, "", ""), rep("{", n, "", "}"), "'".repeat(n), "v:1 ".repeat(n)] {
                pool(format!("an option value {}... {n} deep", &agg[..agg.len().min(10)]), with_option(vec![(".ro.rec", true)], &|u| u.aggregate_value = Some(agg.clone())));
            }
        }
    }
}

/// A file with a message option of a recursive type, set by an option statement.
fn with_option(parts: Vec<(&str, bool)>, f: &dyn Fn(&mut prost_types::UninterpretedOption)) -> Vec<FileDescriptorProto> {
    let mut fs: Vec<FileDescriptorProto> = set(descr::DESCRIPTOR);
    let mut u = prost_types::UninterpretedOption {
        name: parts.into_iter().map(|(p, x)| prost_types::uninterpreted_option::NamePart { name_part: p.into(), is_extension: x }).collect(),
        ..Default::default()
    };
    f(&mut u);
    fs.push(descr::file("rec.proto", |f| {
        f.package = Some("ro".into());
        f.dependency = vec!["google/protobuf/descriptor.proto".into()];
        let mut x = msg("R");
        x.field.push(fld("v", 1, 5, ""));
        x.field.push(fld("child", 2, 11, ".ro.R"));
        f.message_type.push(x);
        f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(".google.protobuf.MessageOptions".into()), ..fld("rec", 5000, 11, ".ro.R") });
        let mut x = msg("Uo");
        x.options = Some(prost_types::MessageOptions { uninterpreted_option: vec![u], ..Default::default() });
        f.message_type.push(x);
    }));
    fs
}

// ---------------------------------------------------------------- short inputs

fn short(c: &Ctx, b: &Bind) {
    let s = &b.s;
    // every byte string of up to two bytes, and three over the interesting ones
    let tys = ["t3.By", "t2.Gr", "t3.Wk", "t3.Rec", "google.protobuf.Any", "t2.Ex", "google.protobuf.Value"];
    let some: Vec<u8> = vec![0, 1, 2, 3, 7, 8, 9, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x12, 0x13, 0x14, 0x15, 0x18, 0x1a, 0x22, 0x23, 0x24, 0x25, 0x28, 0x2a, 0x2b, 0x2c, 0x32, 0x3a, 0x42, 0x4a, 0x7f, 0x80, 0x82, 0x83, 0x84, 0xc2, 0xf8, 0xfa, 0xff];
    let l = c.pick(3, 4);
    c.param("byte strings", format!("all of up to 2 bytes, and of up to {l} of {} bytes", some.len()));
    let full = 1 + 256 + 65536usize;
    let extra: usize = (3..=l).map(|k| some.len().pow(k)).sum();
    let nth_bytes = |mut i: usize| -> Vec<u8> {
        if i < full {
            return match i {
                0 => vec![],
                1..=256 => vec![(i - 1) as u8],
                _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
            };
        }
        i -= full;
        let mut k = 3;
        while i >= some.len().pow(k) {
            i -= some.len().pow(k);
            k += 1;
        }
        (0..k)
            .map(|_| {
                let x = some[i % some.len()];
                i /= some.len();
                x
            })
            .collect()
    };
    let total = full + extra;
    c.par(
        total * (tys.len() + 1),
        |i| format!("{} as {}", hex(&nth_bytes(i % total)), tys.get(i / total).unwrap_or(&"a descriptor set")),
        |i| {
            let y = nth_bytes(i % total);
            c.states_add(1);
            c.step(1);
            c.trace(1);
            match tys.get(i / total) {
                Some(t) => wire_in(&b.desc(t), &y, if y.len() < 2 { How::All } else { How::One }).map(|_| ()),
                None => pool_in(&y, None).map(|_| ()),
            }
        },
    );
    // records
    let mut seqs: Vec<(&str, Vec<Vec<u8>>)> = vec![];
    for t in ["t2.Gr", "t3.Wk", "t3.Rec", "t2.Ex", "t3.By", "google.protobuf.Any"] {
        let mut toks: Vec<Vec<u8>> = vec![];
        let m = &s.msgs[s.msg(t)];
        let nums: Vec<u32> = m.all().map(|f| f.num).step_by(if m.fields.len() > 12 { 3 } else { 1 }).chain([9999]).collect();
        for num in nums {
            for (w, vals) in [(0, vec![&[1u8][..]]), (2, vec![&[0][..], &[2, 8, 1], &[2, 0x0a, 0]]), (3, vec![&[][..]]), (4, vec![&[][..]]), (5, vec![&[0, 0, 0, 0][..]])] {
                for v in vals {
                    let mut y = vec![];
                    key(num, w, &mut y);
                    y.extend(v);
                    toks.push(y);
                }
            }
        }
        if t == "google.protobuf.Any" {
            for u in ["/t3.Leaf", "/google.protobuf.Any", "/t3.Wk", "x", "/google.protobuf.Value", "/google.protobuf.Duration", "/google.protobuf.FieldMask"] {
                let mut y = vec![0x0a, u.len() as u8];
                y.extend(u.as_bytes());
                toks.push(y);
            }
            for v in [&b"\x08\x01"[..], b"\x0a\x01a", b"\xff", b"\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"\x11\0\0\0\0\0\0\xf8\x7f", b"\x0a\x08/t3.Leaf", b"\x0a\x03A_b"] {
                let mut y = vec![0x12, v.len() as u8];
                y.extend(v);
                toks.push(y);
            }
        }
        seqs.push((t, toks));
    }
    for (t, toks) in &seqs {
        let l = if toks.len().pow(3) < c.pick(40_000, 3_000_000) { 3 } else { 2 };
        let total: usize = (0..=l).map(|k| toks.len().pow(k)).sum();
        c.param(&format!("records of {t}"), format!("{} up to {l}", toks.len()));
        let md = b.desc(t);
        let bytes = |mut i: usize| {
            let mut l = 0u32;
            while i >= toks.len().pow(l) {
                i -= toks.len().pow(l);
                l += 1;
            }
            let mut y = vec![];
            for _ in 0..l {
                y.extend(&toks[i % toks.len()]);
                i /= toks.len();
            }
            y
        };
        c.par(
            total,
            |i| format!("{} as {t}", hex(&bytes(i))),
            |i| {
                c.states_add(1);
                c.step(1);
                c.trace(1);
                wire_in(&md, &bytes(i), How::Some).map(|_| ())
            },
        );
    }
    // JSON and text tokens, after starts inside of an object or value, so that short sequences go far
    let jt: &[(&str, &[&str], &[&str])] = &[
        (
            "t3.Wk",
            &["{", "}", "[", "]", ":", ",", "\"any\"", "\"@type\"", "\"/t3.Leaf\"", "\"val\"", "\"ts\"", "\"st\"", "\"value\"", "null", "1", "\"1s\"", "\"a\"", "\"wInt64\""],
            &["", "{", "{\"any\":{\"@type\":", "{\"any\":{\"@type\":\"/google.protobuf.Value\",", "{\"val\":", "{\"st\":{", "{\"ts\":", "{\"mask\":", "{\"dur\":"],
        ),
        (
            "google.protobuf.Any",
            &["{", "}", "[", "]", ":", ",", "\"@type\"", "\"/t3.Leaf\"", "\"/google.protobuf.Any\"", "\"/google.protobuf.Duration\"", "\"value\"", "\"i\"", "null", "1", "\"1s\"", "\"x\""],
            &["", "{", "{\"@type\":\"/google.protobuf.Any\",", "{\"@type\":\"/google.protobuf.Duration\",", "{\"value\":"],
        ),
        ("google.protobuf.Value", &["{", "}", "[", "]", ":", ",", "null", "1", "-1e400", "\"a\"", "true", "\"\\ud800\""], &["", "[", "{\"a\":"]),
        (
            "t3.Mk",
            &["{", "}", "[", "]", ":", ",", "\"kInt32\"", "\"kBool\"", "\"kString\"", "\"1\"", "\"true\"", "\"x\"", "null", "1"],
            &["", "{\"kInt32\":{", "{\"kBool\":{", "{\"kString\":{"],
        ),
    ];
    let depth = |toks: &[&str], starts: &[&str]| {
        let fits = |l: &u32| (toks.len().pow(*l) * starts.len() * 5) < c.pick(2_500_000, 40_000_000);
        (1..8).take_while(fits).last().unwrap()
    };
    for (t, toks, starts) in jt {
        let l = depth(toks, starts);
        c.param(&format!("JSON tokens of {t}"), format!("{} up to {l}", toks.len()));
        let total: usize = (0..=l).map(|k| toks.len().pow(k)).sum();
        let md = b.desc(t);
        let ends = ["", "}", "}}", "]", "]}"];
        let text = |i: usize| format!("{}{}{}", starts[i / total % starts.len()], nth(toks, i % total), ends[i / total / starts.len()]);
        c.par(
            total * starts.len() * ends.len(),
            |i| format!("{} as JSON of {t}", text(i)),
            |i| {
                c.states_add(1);
                c.step(1);
                c.trace(1);
                if json_in(&md, &text(i), How::Some)? {
                    c.count("JSON accepted", 1);
                }
                Ok(())
            },
        );
    }
    let tt: &[(&str, &[&str], &[&str])] = &[
        (
            "t3.Tx",
            &["m", "q", "p", "any", "[x/t3.Leaf]", "{", "}", "<", ">", "[", "]", ":", ",", ";", "1", "'a", "'", "\\", "#", "-", "key", "value", "i", "s", ".", "/"],
            &["", "m{", "q:[", "any{", "p{", "s:'", "i:-", "any{[", "any{[x/t3.Leaf]{"],
        ),
        (
            "t2.Tx",
            &["Gp", "Rg", "[t2.tx]", "[t2.tr]", "[", "]", "{", "}", ":", "1", "t2", ".", "tr", "\u{e9}", "\0", "0x", "08", "1.", ".5", "1e", "inf"],
            &["", "Gp{", "[t2.tr]:[", "[t2.tx]:", "a:"],
        ),
        (
            "google.protobuf.Any",
            &["[", "]", "/", ".", "x", "t3.Leaf", "{", "}", ":", "type_url", "value", "'x/t3.Leaf'", "'\\377'", "i", "1", "google.protobuf.Any"],
            &["", "[x/google.protobuf.Any]{", "type_url:'x/t3.Leaf'", "[x/"],
        ),
    ];
    for (t, toks, starts) in tt {
        let l = depth(toks, starts);
        c.param(&format!("text tokens of {t}"), format!("{} up to {l}", toks.len()));
        let total: usize = (0..=l).map(|k| toks.len().pow(k)).sum();
        let md = b.desc(t);
        let ends = ["", "}", "]", "'", "}}"];
        let text = |i: usize| format!("{}{}{}", starts[i / total % starts.len()], nth(toks, i % total), ends[i / total / starts.len()]);
        c.par(
            total * starts.len() * ends.len(),
            |i| format!("{:?} as text of {t}", text(i)),
            |i| {
                c.states_add(1);
                c.step(1);
                c.trace(1);
                if text_in(&md, &text(i), How::Some)? {
                    c.count("text accepted", 1);
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- pools

/// Drives every message of a pool through every parser, once per field and form.
fn drive(p: &DescriptorPool, only: Option<&str>) -> Result<u64, String> {
    let mut n = 0;
    for m in p.all_messages() {
        if only.is_some_and(|f| m.parent_file().name() != f) {
            continue;
        }
        wire_in(&m, &[], How::Flat)?;
        let mut each = |num: u32, text: &str, json: &str| -> Result<(), String> {
            for (w, v) in [
                (0u32, &[1u8][..]),
                (0, &[0]),
                (1, &[0; 8]),
                (1, &[1, 0, 0, 0, 0, 0, 0xf8, 0x7f]),
                (5, &[1, 0, 0, 0]),
                (2, &[0]),
                (2, &[1, 1]),
                (2, &[2, 8, 1]),
                (2, &[4, 0x0a, 0, 0x12, 0]),
                (2, &[2, 0x10, 1]),
                (2, &[8, 0, 0, 0, 0, 0, 0, 0, 0]),
            ] {
                let mut y = vec![];
                key(num, w, &mut y);
                y.extend(v);
                wire_in(&m, &y, How::Flat)?;
                n += 1;
            }
            let mut y = vec![];
            key(num, 3, &mut y);
            y.extend([8, 1, 0x12, 0]);
            key(num, 4, &mut y);
            wire_in(&m, &y, How::Flat)?;
            for v in ["null", "1", "\"1\"", "\"a\"", "true", "[]", "[null]", "[1]", "[\"a\"]", "[{}]", "{}", "{\"a\":1}", "{\"1\":{}}", "{\"1\":\"1\"}", "{\"true\":true}"] {
                json_in(&m, &format!("{{{}:{v}}}", crate::json::quote(json)), How::Flat)?;
                n += 1;
            }
            for v in [":1", ":'a'", ":true", ":E", "{}", ":[]", ":[1]", ":[{}]", "{key:1}", "{key:'a' value:1}", "{key:true value{}}", "{value:'a'}"] {
                text_in(&m, &format!("{text}{v}"), How::Flat)?;
                n += 1;
            }
            Ok(())
        };
        for f in m.fields() {
            let t = if f.is_group() { f.kind().as_message().map_or(String::new(), |m| m.name().to_owned()) } else { f.name().to_owned() };
            each(f.number(), &t, f.json_name())?;
        }
        for f in m.extensions() {
            each(f.number(), &format!("[{}]", f.full_name()), f.json_name())?;
        }
    }
    Ok(n)
}

fn pools(c: &Ctx) {
    let meta = Meta::new();
    for (what, base) in [("k", K), ("ko", KO)] {
        if what == "ko" && !c.thorough {
            continue;
        }
        let t = mutate::parse(&meta.s, meta.set, base);
        let es = mutate::edits(&meta.s, meta.set, &t, &values(c.thorough, names_of(&set(base))));
        let files = set(base);
        c.param(&format!("edits of {what}"), es.len());
        c.par(
            es.len(),
            |i| format!("{what}: {}", mutate::describe(&meta.s, meta.set, &t, &es[i])),
            |i| {
                let Some(u) = mutate::apply(&t, &es[i]) else { return Ok(()) };
                let y = mutate::encode(&u);
                c.state(&y);
                c.step(1);
                c.trace(1);
                let r = FileDescriptorSet::decode(&y[..]).ok().and_then(|s| {
                    let (v, r) = Ref::default().add(&s.file);
                    (!matches!(v, Verdict::Refuse(_))).then_some(r)
                });
                let Some(p) = pool_in(&y, r.as_ref())? else { return Ok(()) };
                c.count("pools accepted", 1);
                let only = (!c.thorough).then(|| es[i].path.first().and_then(|&f| files.get(f)).map(|f| f.name().to_owned())).flatten();
                if what == "k" || c.thorough {
                    c.count("driven", drive(&p, only.as_deref())?);
                }
                // its own descriptors, once more
                let y2 = no_panic("encode", || p.encode_to_vec())?;
                pool_in(&y2, None)?;
                Ok(())
            },
        );
        // byte edits of the encoded set
        let vals: Vec<u8> = if c.thorough { (0..=255).collect() } else { vec![0, 1, 2, 0x0a, 0x12, 0x22, 0x7f, 0x80, 0xff] };
        let n = base.len() * (vals.len() * 2 + 2);
        c.param(&format!("byte edits of {what}"), n);
        c.par(
            n,
            |i| format!("{what}.bin: byte edit {} at {}", i / base.len(), i % base.len()),
            |i| {
                let (k, at) = (i / base.len(), i % base.len());
                let mut y = base.to_vec();
                if k < vals.len() {
                    y[at] = vals[k];
                } else if k < 2 * vals.len() {
                    y.insert(at, vals[k - vals.len()]);
                } else if k == 2 * vals.len() {
                    y.remove(at);
                } else {
                    y.truncate(at);
                }
                c.states_add(1);
                c.step(1);
                c.trace(1);
                if let Some(p) = pool_in(&y, None)? {
                    c.count("pools from bytes accepted", 1);
                    drop(p);
                }
                Ok(())
            },
        );
    }
}

/// Options written in a file before the pool knows the extension they belong to: whatever the
/// extension turns out to be, the options can be looked at.
fn late_extensions(c: &Ctx) {
    let mut raws: Vec<Vec<u8>> = vec![];
    for (w, vals) in [
        (0u32, vec![&[0u8][..], &[1], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1]]),
        (1, vec![&[1, 2, 3, 4, 5, 6, 7, 8][..]]),
        (2, vec![&[0][..], &[1, 1], &[1, 0xff], &[2, 8, 1], &[2, 0x0a, 0], &[3, 0x80, 0x80, 0x80], &[4, 1, 2, 3, 4], &[8, 1, 2, 3, 4, 5, 6, 7, 8], &[2, 0x13, 0x14]]),
        (3, vec![&[][..], &[8, 1], &[0x0a, 1, b'a']]),
        (5, vec![&[1, 2, 3, 4][..]]),
    ] {
        for v in vals {
            let mut y = vec![];
            key(5000, w, &mut y);
            y.extend(v);
            if w == 3 {
                key(5000, 4, &mut y);
            }
            raws.push(y);
        }
    }
    let mut deep = vec![];
    for n in [50, 98, 99, 100, 101, 150] {
        deep.push(ld_chain(n, 2, &[], &[8, 1]));
    }
    for d in deep {
        let mut y = vec![];
        key(5000, 2, &mut y);
        varint(d.len() as u64, 0, &mut y);
        y.extend(d);
        raws.push(y);
    }
    let one = raws.len();
    for i in 0..one {
        for j in 0..one {
            let mut y = raws[i].clone();
            y.extend(&raws[j]);
            raws.push(y);
        }
    }
    const HOLDERS: usize = 6;
    let base = DescriptorPool::decode(descr::DESCRIPTOR).unwrap();
    let n = raws.len() * 18 * 3 * HOLDERS;
    let case = |i: usize| (&raws[i % raws.len()], i / raws.len() % 18 + 1, i / raws.len() / 18 % 3, i / raws.len() / 54);
    c.param("options of extensions to come", n);
    c.par(
        n,
        |i| {
            let (y, ty, label, h) = case(i);
            format!("options {} (holder {h}), then an extension of type {ty} ({})", hex(y), ["optional", "repeated", "repeated packed"][label])
        },
        |i| {
            let (y, ty, label, h) = case(i);
            if !c.thorough && h != 1 && i % raws.len() >= one {
                return Ok(());
            }
            let holder = ["File", "Message", "Field", "Enum", "EnumValue", "Service"][h];
            // the file is put together from records, since the raw options have no other form
            let rec = |num: u32, y: &[u8]| {
                let mut o = vec![];
                key(num, 2, &mut o);
                varint(y.len() as u64, 0, &mut o);
                o.extend(y);
                o
            };
            let opt = |h2: usize, num: u32| if h == h2 { rec(num, y) } else { vec![] };
            let a = [
                rec(1, b"a"),
                opt(0, 8),
                rec(4, &[rec(1, b"A"), rec(2, &[rec(1, b"f"), vec![0x18, 1, 0x20, 1, 0x28, 5], opt(2, 8)].concat()), opt(1, 7)].concat()),
                rec(5, &[rec(1, b"E"), rec(2, &[rec(1, b"V"), vec![0x10, 0], opt(4, 3)].concat()), opt(3, 3)].concat()),
                rec(6, &[rec(1, b"S"), opt(5, 3)].concat()),
            ]
            .concat();
            let x = descr::file("b", |f| {
                f.package = Some("b".into());
                f.dependency = vec!["google/protobuf/descriptor.proto".into()];
                let mut x = msg("R");
                x.field.push(fld("v", 1, 5, ""));
                x.field.push(fld("child", 2, 11, ".b.R"));
                f.message_type.push(x);
                f.enum_type.push(prost_types::EnumDescriptorProto {
                    name: Some("K".into()),
                    value: vec![prost_types::EnumValueDescriptorProto { name: Some("Z".into()), number: Some(0), ..Default::default() }],
                    ..Default::default()
                });
                let tn = match ty {
                    10 | 11 => ".b.R",
                    14 => ".b.K",
                    _ => "",
                };
                f.extension.push(prost_types::FieldDescriptorProto {
                    extendee: Some(format!(".google.protobuf.{holder}Options")),
                    label: Some(if label == 0 { 1 } else { 3 }),
                    options: (label == 2).then(|| prost_types::FieldOptions { packed: Some(true), ..Default::default() }),
                    ..fld("x", 5000, ty as i32, tn)
                });
            })
            .encode_to_vec();
            c.states_add(1);
            c.step(2);
            c.trace(1);
            let mut p = base.clone();
            if no_panic("decode_file_descriptor_proto", || p.decode_file_descriptor_proto(&a[..]).is_err())? {
                return Ok(());
            }
            c.count("options accepted before their extension", 1);
            no_panic("options", || options_of(&p))?;
            let r = no_panic("decode_file_descriptor_proto", || p.decode_file_descriptor_proto(&x[..]).is_ok())?;
            if r {
                c.count("extensions accepted after their options", 1);
            }
            no_panic("options", || options_of(&p))?;
            // what can be read at all is read
            let got = match h {
                0 => p.get_file_by_name("a").unwrap().options(),
                1 => p.get_message_by_name("A").unwrap().options(),
                2 => p.get_message_by_name("A").unwrap().get_field(1).unwrap().options(),
                3 => p.get_enum_by_name("E").unwrap().options(),
                4 => p.get_enum_by_name("E").unwrap().get_value(0).unwrap().options(),
                _ => p.get_service_by_name("S").unwrap().options(),
            };
            if let Ok(want) = DynamicMessage::decode(p.get_message_by_name(&format!("google.protobuf.{holder}Options")).unwrap(), &y[..]) {
                c.count("options readable", 1);
                if got != want {
                    return Err(format!("the options are {got}, not {want}"));
                }
            }
            no_panic("Debug of the pool", || views::debug(&p))?;
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- odd writers

struct Lim(usize);
impl std::fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
struct LimIo(usize);
impl std::io::Write for LimIo {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 && !s.is_empty() {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = s.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The numbers below n, without the middle of a large range.
fn ends(n: usize) -> impl Iterator<Item = usize> {
    (0..n).filter(move |l| *l < 600 || *l + 600 > n)
}

/// Writers and buffers which are full after every number of bytes: the error comes back.
fn writers(c: &Ctx, b: &Bind) {
    use std::fmt::Write;
    let s = &b.s;
    let mut un = Uni::new(s);
    let mut vs = vec![];
    for t in TYPES.iter().chain(&["t3.Tx", "t2.Tx", "google.protobuf.Any", "google.protobuf.Value", "google.protobuf.Struct"]) {
        vs.extend(un.singles(s.msg(t)).into_iter().step_by(c.pick(23, 3)));
    }
    c.param("messages for full writers", vs.len());
    c.par(
        vs.len(),
        |i| crate::value::show(s, &vs[i]),
        |i| {
            let d = b.to_dyn(&vs[i]);
            c.states_add(1);
            c.trace(1);
            let full = no_panic("Display", || format!("{d}"))?;
            for l in ends(full.len()) {
                c.step(1);
                if no_panic("Display", || write!(Lim(l), "{d}").is_ok())? {
                    return Err(format!("Display into a writer of {l} bytes succeeds although {} are needed", full.len()));
                }
                // must come back, whatever they say
                no_panic("Display", || {
                    let _ = write!(Lim(l), "{d:#}");
                })?;
            }
            let js = no_panic("serialize", || serde_json::to_string(&d))?;
            if let Ok(js) = js {
                for l in ends(js.len()) {
                    c.step(1);
                    if no_panic("serialize", || serde_json::to_writer(LimIo(l), &d).is_ok())? {
                        return Err(format!("serializing into a writer of {l} bytes succeeds although {} are needed", js.len()));
                    }
                }
            }
            let y = d.encode_to_vec();
            for l in ends(y.len()) {
                let mut buf = vec![0u8; l];
                let mut o: &mut [u8] = &mut buf;
                if no_panic("encode", || d.encode(&mut o).is_ok())? {
                    return Err(format!("encoding into a buffer of {l} bytes succeeds although {} are needed", y.len()));
                }
            }
            Ok(())
        },
    );
}

pub fn w06(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let only = std::env::var("MC_PART").ok();
    let part = |n: &str| only.as_deref().map_or(true, |o| o == n);
    if part("deep") {
        deep(c, &b);
    }
    if part("flat") {
        flat(c, &b);
    }
    if part("short") {
        short(c, &b);
    }
    if part("pools") {
        pools(c);
    }
    if part("late") {
        late_extensions(c);
    }
    if part("writers") {
        writers(c, &b);
    }
}
