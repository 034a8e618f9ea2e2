//! Enumerated families of schemas. D05: every view of every descriptor; D07: what errors point to.
use super::descr::*;
use crate::descr::{Ref, Verdict};
use crate::mutate::{self, N, P};
use crate::report::{no_panic, Ctx};
use crate::schema::{Card, Schema};
use prost::Message;
use prost_reflect::{DescriptorError, DescriptorPool};
use prost_types::{
    source_code_info::Location, SourceCodeInfo,
    descriptor_proto::{ExtensionRange, ReservedRange},
    enum_descriptor_proto::EnumReservedRange,
    DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileDescriptorSet, MessageOptions, MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto,
};

use std::collections::HashMap;

/// The digits of a case number, one for each choice.
struct Pick(usize);
impl Pick {
    fn n(&mut self, n: usize) -> usize {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
    fn of<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.n(x.len())]
    }
    fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
}

/// What is done with every schema.
pub type Judge<'a> = dyn Fn(&Ctx, usize, &[FileDescriptorProto]) -> Result<(), String> + Sync + 'a;

struct Run<'a> {
    c: &'a Ctx,
    j: &'a Judge<'a>,
}

fn family(r: &Run, what: &str, n: usize, f: impl Fn(usize) -> Vec<FileDescriptorProto> + Sync) {
    let c = r.c;
    c.param(what, n);
    c.par(
        n,
        |i| format!("{what}: {:?}", f(i)),
        |i| {
            let files = f(i);
            (r.j)(c, i, &files)?;
            c.state(&(what, i));
            Ok(())
        },
    );
}

pub fn d05(c: &Ctx) {
    verdicts(c);
}

/// Every schema of the families against the reference.
pub fn verdicts(c: &Ctx) {
    families(c, &|c, i, files| {
        let set = FileDescriptorSet { file: files.to_vec() };
        let p = no_panic("building a pool", || match i % 3 {
            0 => DescriptorPool::from_file_descriptor_set(set),
            1 => DescriptorPool::decode(set.encode_to_vec().as_slice()),
            _ => {
                let mut p = DescriptorPool::new();
                set.file.into_iter().try_for_each(|f| p.add_file_descriptor_proto(f)).map(|()| p)
            }
        })?;
        let e = p.as_ref().map_err(err);
        let r = against_ref(files, e.as_ref().map(|p| *p).map_err(|e| e.as_str()), Some(c))?;
        c.count(r, 1);
        c.trace(1);
        Ok(())
    });
}

/// D07: what an error points to.
pub fn d07(c: &Ctx) {
    let meta = Meta::new();
    let judge = |c: &Ctx, i: usize, files: &[FileDescriptorProto]| -> Result<(), String> {
        let (Verdict::Refuse(_), r) = Ref::default().add(files) else { return Ok(()) };
        let mut files = files.to_vec();
        let mut spans: HashMap<(String, Vec<i32>), (usize, usize)> = HashMap::new();
        for (k, f) in files.iter_mut().enumerate() {
            let ty = meta.s.msg("google.protobuf.FileDescriptorProto");
            f.source_code_info = None;
            let t = mutate::parse(&meta.s, ty, &f.encode_to_vec());
            let mut ps = vec![vec![]];
            paths(&meta.s, ty, &t, &mut vec![], &mut ps);
            let mut info = SourceCodeInfo::default();
            for (n, p) in ps.into_iter().enumerate() {
                // some places have no location
                if (n + i) % 7 == 6 {
                    continue;
                }
                let (l, col) = (1000 * k + n, n % 5 * 3);
                let span = if (n + i) % 2 == 0 { vec![l as i32, col as i32, col as i32 + 4] } else { vec![l as i32, col as i32, l as i32 + 2, 1] };
                info.location.push(Location { path: p.clone(), span, ..Default::default() });
                spans.insert((f.name().to_owned(), p), (l, col));
            }
            f.source_code_info = Some(info);
        }
        let set = FileDescriptorSet { file: files };
        let e = match no_panic("building a pool", || if i % 2 == 0 { DescriptorPool::decode(set.encode_to_vec().as_slice()) } else { DescriptorPool::from_file_descriptor_set(set) })? {
            Ok(_) => return Err("accepted".into()),
            Err(e) => e,
        };
        c.step(1);
        c.trace(1);
        points(&r, &spans, &e)
    };
    families(c, &judge);
    mutations(c, "k", K, |_, _, bytes| {
        let Ok(s) = FileDescriptorSet::decode(bytes) else { return Ok(()) };
        judge(c, bytes.len(), &s.file)
    });
}

/// Whether an error points to a place at fault, with the location which the file gives for it.
pub fn points(r: &Ref, spans: &HashMap<(String, Vec<i32>), (usize, usize)>, e: &DescriptorError) -> Result<(), String> {
    let text = no_panic("showing an error", || format!("{e} {e:?}"))?;
    match (e.file(), e.path()) {
        (None, None) => {
            if !r.nowhere {
                return Err(format!("{text}: points nowhere, but should to one of {:?}", r.blame));
            }
            if e.line().is_some() || e.column().is_some() {
                return Err(format!("{text}: a line without a file"));
            }
        }
        (Some(f), Some(p)) => {
            if !r.nowhere && !r.blame.iter().any(|b| b.is(f, p)) {
                return Err(format!("{text}: points to {f} {p:?}, but should to one of {:?}", r.blame));
            }
            let want = spans.get(&(f.to_owned(), p.to_vec()));
            if e.line() != want.map(|x| x.0) || e.column() != want.map(|x| x.1) {
                return Err(format!("{text}: at line {:?} column {:?}, but the location of {f} {p:?} is {want:?}", e.line(), e.column()));
            }
        }
        x => return Err(format!("{text}: file and path are {x:?}")),
    }
    Ok(())
}

/// The paths of everything in a message.
fn paths(s: &Schema, ty: usize, t: &[N], at: &mut Vec<i32>, out: &mut Vec<Vec<i32>>) {
    let mut seen: HashMap<u32, i32> = HashMap::new();
    for n in t {
        let Some(f) = s.msgs[ty].get(n.num) else { continue };
        let len = at.len();
        at.push(n.num as i32);
        if f.card == Card::Rep {
            let i = seen.entry(n.num).or_default();
            at.push(*i);
            *i += 1;
        }
        out.push(at.clone());
        if let P::M(m, c) = &n.p {
            paths(s, *m, c, at, out);
        }
        at.truncate(len);
    }
}

fn enm(name: &str, vals: &[(&str, i32)]) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: Some(name.into()),
        value: vals.iter().map(|(n, v)| EnumValueDescriptorProto { name: Some((*n).into()), number: Some(*v), ..Default::default() }).collect(),
        ..Default::default()
    }
}
fn oneof(name: &str) -> OneofDescriptorProto {
    OneofDescriptorProto { name: Some(name.into()), ..Default::default() }
}
fn syn(p3: bool) -> Option<String> {
    p3.then(|| "proto3".into())
}

/// `E`, `Sub` and (proto2) `G` are there to be referred to.
fn defaults(ty: i32) -> &'static [&'static str] {
    match ty {
        1 | 2 => &["1.5", "-2e300", "inf", "nan", "-0"],
        8 => &["true", "false"],
        9 => &["", "a\\n", "\u{e9}"],
        12 => &["", "a\\n\\377", "\\x01\\\\"],
        14 => &["V1", "V0", "VN"],
        3 | 16 | 18 => &["-9223372036854775808", "0x7f", "012"],
        5 | 15 | 17 => &["-2147483648", "0x7f", "012"],
        4 | 6 => &["18446744073709551615", "0x7f", "012"],
        7 | 13 => &["4294967295", "0x7f", "012"],
        _ => &[],
    }
}

pub fn families(c: &Ctx, j: &Judge) {
    let r = &Run { c, j };
    // one field, every combination of what a field can say
    let types: Vec<i32> = (1..=18).collect();
    let sizes: Vec<usize> = vec![2, 18, 3, 3, 4, 6, 3, 3];
    let total: usize = sizes.iter().product();
    family(r, "one field", total, |i| {
        let mut p = Pick(i);
        let p3 = p.flag();
        let ty = *p.of(&types);
        let label = 1 + p.n(3) as i32;
        let packed = [None, Some(true), Some(false)][p.n(3)];
        // a plain field, in a oneof, proto3 optional, an extension
        let role = p.n(4);
        let def = p.n(6);
        let json = p.n(3);
        let place = p.n(3);
        let mut f = fld("some_field", 7, ty, match ty {
            10 | 11 => "Sub",
            14 => ".q.E",
            _ => "",
        });
        f.label = Some(label);
        if packed.is_some() {
            f.options = Some(FieldOptions { packed, ..Default::default() });
        }
        if def > 0 {
            f.default_value = defaults(ty).get(def - 1).map(|s| (*s).into());
        }
        f.json_name = [None, Some("someField".to_owned()), Some("oTher-1".to_owned())][json].clone();
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), package: Some("q".into()), syntax: syn(p3), ..Default::default() };
        fp.enum_type.push(enm("E", &[("V0", 0), ("V1", 1), ("VN", -3)]));
        fp.message_type.push(msg("Sub"));
        let mut m = msg("M");
        m.field.push(fld("before", 1, 5, ""));
        match role {
            1 => {
                m.oneof_decl.push(oneof("o"));
                m.field.push(FieldDescriptorProto { oneof_index: Some(0), ..fld("other", 9, 5, "") });
                f.oneof_index = Some(0);
            }
            2 => {
                m.oneof_decl.push(oneof("_some_field"));
                f.oneof_index = Some(0);
                f.proto3_optional = Some(true);
            }
            3 => {
                m.extension_range.push(ExtensionRange { start: Some(5), end: Some(10), options: None });
                f.extendee = Some(".q.M".into());
            }
            _ => {}
        }
        match (role, place) {
            (3, 0) => fp.extension.push(f),
            (3, 1) => m.extension.push(f),
            (3, _) => fp.message_type[0].extension.push(f),
            (_, 0) => m.field.push(f),
            (_, 1) => m.field.insert(0, f),
            (_, _) => {
                f.number = Some(0x1fff_ffff);
                m.field.push(f);
            }
        }
        fp.message_type.push(m);
        vec![fp]
    });

    // map fields: every type of key and value, and entries which are not what they should be
    let n = 18 * 18 * 2 * 4;
    family(r, "map entries", n, |i| {
        let mut p = Pick(i);
        let (k, v, p3, odd) = (1 + p.n(18) as i32, 1 + p.n(18) as i32, p.flag(), p.n(4));
        let name = |t: i32| match t {
            10 | 11 => ".Sub",
            14 => ".E",
            _ => "",
        };
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), ..Default::default() };
        fp.enum_type.push(enm("E", &[("V0", 0), ("V1", 1)]));
        fp.message_type.push(msg("Sub"));
        let mut e = msg("MpEntry");
        e.options = Some(MessageOptions { map_entry: Some(true), ..Default::default() });
        e.field = vec![fld("key", 1, k, name(k)), fld("value", 2, v, name(v))];
        if odd == 1 {
            e.field.reverse();
        }
        let mut m = msg("M");
        m.field.push(FieldDescriptorProto { label: Some(3), ..fld("mp", 1, 11, ".M.MpEntry") });
        if odd == 2 {
            m.field.push(FieldDescriptorProto { label: Some(3), ..fld("np", 2, 11, ".M.NpEntry") });
            m.nested_type.push(DescriptorProto { name: Some("NpEntry".into()), ..e.clone() });
        }
        if odd == 3 {
            // no map, only looks like one
            e.options = None;
        }
        m.nested_type.push(e);
        fp.message_type.push(m);
        vec![fp]
    });

    // every name over a small alphabet, without a JSON name
    let chars = ['a', 'B', '_', '1', 'z'];
    let len = c.pick(4, 6);
    let words: Vec<String> = (0..len).fold(vec![String::new()], |acc, _| {
        let mut v: Vec<String> = acc.clone();
        v.extend(acc.iter().flat_map(|w| chars.iter().map(move |c| format!("{w}{c}"))));
        v.sort();
        v.dedup();
        v
    });
    let words: Vec<&String> = words.iter().filter(|w| !w.is_empty() && !w.starts_with('1')).collect();
    family(r, "names of fields", words.len(), |i| {
        let mut fp = FileDescriptorProto { name: Some(format!("{}.proto", words[i])), package: Some(words[i].clone()), ..Default::default() };
        let mut m = msg(words[i]);
        m.field.push(fld(words[i], 1, 5, ""));
        m.oneof_decl.push(oneof(&format!("{}o", words[i])));
        m.field.push(FieldDescriptorProto { oneof_index: Some(0), ..fld(&format!("x{}", words[i]), 2, 5, "") });
        m.extension_range.push(ExtensionRange { start: Some(100), end: Some(101), options: None });
        fp.message_type.push(m);
        fp.extension.push(FieldDescriptorProto { extendee: Some(words[i].clone()), ..fld(&format!("e{}", words[i]), 100, 5, "") });
        vec![fp]
    });

    // longer names over fewer characters
    let chars = ['a', 'B', '_', '1'];
    let len = c.pick(7, 9);
    let n: usize = (5..=len).map(|l| 4usize.pow(l)).sum();
    family(r, "long names of fields", n, |mut i| {
        let mut l = 5;
        while i >= 4usize.pow(l) {
            i -= 4usize.pow(l);
            l += 1;
        }
        let mut p = Pick(i);
        let mut w: String = (0..l).map(|_| *p.of(&chars)).collect();
        if w.starts_with('1') {
            w = format!("z{}", &w[1..]);
        }
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), ..Default::default() };
        let mut m = msg("M");
        m.field.push(fld(&w, 1, 5, ""));
        fp.message_type.push(m);
        vec![fp]
    });

    // which fields are in which oneofs, in which order and with which numbers
    let perm = orders(4);
    let roles = 5usize;
    family(r, "oneofs", roles.pow(4) * perm.len() * 2, |i| {
        let mut p = Pick(i);
        let p3 = p.flag();
        let order = p.of(&perm).clone();
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), ..Default::default() };
        let mut m = msg("M");
        m.oneof_decl = vec![oneof("o"), oneof("p")];
        let mut used = [false; 2];
        for (k, n) in order.iter().enumerate() {
            let mut f = fld(["f", "g", "h", "i"][k], *n as i32 * 3 + 1, 5, "");
            match p.n(roles) {
                0 => {}
                r @ (1 | 2) => {
                    f.oneof_index = Some(r as i32 - 1);
                    used[r - 1] = true;
                }
                3 => {
                    f.oneof_index = Some(m.oneof_decl.len() as i32);
                    f.proto3_optional = Some(true);
                    m.oneof_decl.push(oneof(&format!("_{}", f.name())));
                }
                _ => {
                    f.label = Some(3);
                }
            }
            m.field.push(f);
        }
        // leave out what is unused
        if !used[1] {
            m.oneof_decl.remove(1);
            for f in &mut m.field {
                f.oneof_index = f.oneof_index.map(|x| if x > 1 { x - 1 } else { x });
            }
        }
        if !used[0] {
            m.oneof_decl.remove(0);
            for f in &mut m.field {
                f.oneof_index = f.oneof_index.map(|x| x - 1);
            }
        }
        fp.message_type.push(m);
        vec![fp]
    });

    // enums: every sequence of values
    let nums = [0, 1, -1, i32::MAX, i32::MIN];
    let len = c.pick(3, 4);
    let n: usize = (1..=len).map(|l| nums.len().pow(l as u32)).sum::<usize>() * 8;
    family(r, "enum values", n, |i| {
        let mut p = Pick(i);
        let (p3, alias, nested) = (p.flag(), p.flag(), p.flag());
        let mut l = 1;
        while p.0 >= nums.len().pow(l as u32) {
            p.0 -= nums.len().pow(l as u32);
            l += 1;
        }
        let vs: Vec<(String, i32)> = (0..l).map(|k| (format!("V{}", 9 - k), *p.of(&nums))).collect();
        let mut e = enm("E", &vs.iter().map(|(n, v)| (n.as_str(), *v)).collect::<Vec<_>>());
        if alias {
            e.options = Some(EnumOptions { allow_alias: Some(true), ..Default::default() });
        }
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), package: Some("q".into()), syntax: syn(p3), ..Default::default() };
        let mut m = msg("M");
        // fields of the enum, with and without default
        m.field.push(fld("e", 1, 14, "E"));
        m.field.push(FieldDescriptorProto { label: Some(3), ..fld("r", 2, 14, "E") });
        if !p3 {
            m.field.push(FieldDescriptorProto { default_value: Some(vs.last().unwrap().0.clone()), ..fld("d", 3, 14, "E") });
        }
        if nested {
            m.enum_type.push(e);
        } else {
            fp.enum_type.push(e);
        }
        fp.message_type.push(m);
        vec![fp]
    });

    // reserved and extension ranges of messages, reserved ranges of enums
    let ends = [1, 2, 3, 5, 8, 536870912];
    let pairs: Vec<(i32, i32)> = ends.iter().flat_map(|a| ends.iter().filter(move |b| *b > a).map(move |b| (*a, *b))).collect();
    family(r, "ranges", pairs.len().pow(2) * 4 * 2, |i| {
        let mut p = Pick(i);
        let (a, b, sort, field) = (*p.of(&pairs), *p.of(&pairs), p.n(4), p.flag());
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), ..Default::default() };
        let mut m = msg("M");
        let mut e = enm("E", &[("V", 0)]);
        for (k, (x, y)) in [a, b].into_iter().enumerate() {
            let ext = match sort {
                0 => false,
                1 => true,
                2 => k == 0,
                _ => {
                    e.reserved_range.push(EnumReservedRange { start: Some(x), end: Some(y) });
                    e.reserved_name.push(format!("n{k}"));
                    continue;
                }
            };
            if ext {
                m.extension_range.push(ExtensionRange { start: Some(x), end: Some(y), options: None });
            } else {
                m.reserved_range.push(ReservedRange { start: Some(x), end: Some(y) });
                m.reserved_name.push(format!("n{k}"));
            }
        }
        if field {
            m.field.push(fld("f", 4, 5, ""));
            e.value.push(EnumValueDescriptorProto { name: Some("W".into()), number: Some(4), ..Default::default() });
        }
        fp.message_type.push(m);
        fp.enum_type.push(e);
        vec![fp]
    });

    // trees of messages, with enums, extensions and oneofs at the leaves
    let nodes = c.pick(5, 6);
    let shapes = forests(nodes);
    let leafs = 4usize;
    let counts: Vec<usize> = shapes.iter().map(|s| leafs.pow(s.iter().filter(|d| d.leaf).count() as u32)).collect();
    let mut index = vec![];
    for (s, n) in counts.iter().enumerate() {
        index.extend((0..*n).map(|k| (s, k)));
    }
    family(r, "trees", index.len(), |i| {
        let (s, k) = index[i];
        let mut p = Pick(k);
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), package: Some("a.b".into()), ..Default::default() };
        let mut target = msg("T");
        target.extension_range.push(ExtensionRange { start: Some(1), end: Some(100), options: None });
        fp.message_type.push(target);
        let mut pos = 0;
        let mut num = 0;
        build(&shapes[s], &mut pos, 0, &mut |parent: Option<&mut DescriptorProto>, leaf: bool, fp: &mut FileDescriptorProto, subs: Vec<DescriptorProto>| {
            num += 1;
            let name = format!("N{num}");
            let kind = if leaf { p.n(leafs) } else { 0 };
            let mut m = DescriptorProto { nested_type: subs, ..msg(&name) };
            let e = enm(&name, &[(&format!("V{num}"), num), (&format!("W{num}"), 0)]);
            let x = FieldDescriptorProto { extendee: Some("a.b.T".into()), ..fld(&format!("x{num}"), num, 5, "") };
            m.field.push(fld("f", num, 11, ".a.b.T"));
            if kind == 3 {
                m.oneof_decl.push(oneof(&format!("o{num}")));
                m.field.push(FieldDescriptorProto { oneof_index: Some(0), ..fld("g", num + 100, 5, "") });
            }
            match (kind, parent) {
                (0 | 3, Some(q)) => q.nested_type.push(m),
                (0 | 3, None) => fp.message_type.push(m),
                (1, Some(q)) => q.enum_type.push(e),
                (1, None) => fp.enum_type.push(e),
                (_, Some(q)) => q.extension.push(x),
                (_, None) => fp.extension.push(x),
            }
        }, &mut fp);
        vec![fp]
    });

    // graphs of imports between four files
    let n = 4usize;
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    family(r, "imports", 4usize.pow(edges.len() as u32) * 2, |i| {
        let mut p = Pick(i);
        let rev = p.flag();
        let mut files: Vec<FileDescriptorProto> = (0..n)
            .map(|k| {
                let mut f = FileDescriptorProto { name: Some(format!("f{k}.proto")), package: Some(format!("p{}", k / 2)), ..Default::default() };
                f.message_type.push(msg(&format!("M{k}")));
                f.message_type[0].extension_range.push(ExtensionRange { start: Some(1), end: Some(9), options: None });
                f
            })
            .collect();
        let mut es = edges.clone();
        if rev {
            es.reverse();
        }
        for (a, b) in es {
            let kind = p.n(4);
            if kind == 0 {
                continue;
            }
            let f = &mut files[a];
            let at = f.dependency.len() as i32;
            f.dependency.push(format!("f{b}.proto"));
            match kind {
                2 => f.public_dependency.push(at),
                3 => f.weak_dependency.push(at),
                _ => {}
            }
            // a use of the import
            f.message_type[0].field.push(fld(&format!("u{b}"), b as i32 + 1, 11, &format!(".p{}.M{b}", b / 2)));
            f.extension.push(FieldDescriptorProto { extendee: Some(format!(".p{}.M{b}", b / 2)), ..fld(&format!("x{a}{b}"), a as i32 + 1, 5, "") });
        }
        if rev {
            // a set need not be in the order of the imports
            files.reverse();
        }
        if i % 3 == 2 {
            files.sort_by(|a, b| a.name().cmp(b.name()));
        }
        files
    });

    // services and methods
    let io = ["A", ".q.A", "A.B", "q.A.B", ".q.A.B"];
    family(r, "services", 25 * 16 * 4 * 2, |i| {
        let mut p = Pick(i);
        let (x, y) = (*p.of(&io), *p.of(&io));
        let (cs, ss) = (p.n(4), p.n(4));
        let shape = p.n(4);
        let pkg = p.flag();
        let fl = |k: usize| [None, Some(false), Some(true), None][k];
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), ..Default::default() };
        if pkg {
            fp.package = Some("q".into());
        }
        let mut a = msg("A");
        a.nested_type.push(msg("B"));
        fp.message_type.push(a);
        if !pkg {
            // the names with a package are then those of nested messages
            let mut q = msg("q");
            let mut a = msg("A");
            a.nested_type.push(msg("B"));
            q.nested_type.push(a);
            fp.message_type.push(q);
        }
        let m = |n: &str, x: &str, y: &str, cs: Option<bool>, ss: Option<bool>| MethodDescriptorProto { name: Some(n.into()), input_type: Some(x.into()), output_type: Some(y.into()), client_streaming: cs, server_streaming: ss, options: None };
        let s = |n: &str, v: Vec<MethodDescriptorProto>| ServiceDescriptorProto { name: Some(n.into()), method: v, options: None };
        let (m1, m2) = (m("Go", x, y, fl(cs), fl(ss)), m("Come", y, x, fl(ss), fl(cs)));
        fp.service = match shape {
            0 => vec![s("S", vec![m1])],
            1 => vec![s("S", vec![m2, m1])],
            2 => vec![s("T", vec![]), s("S", vec![m1, m2])],
            _ => vec![s("T", vec![m1]), s("S", vec![m2])],
        };
        vec![fp]
    });

    // enums: numbers, aliases and reserved numbers and names
    let nums = [0, 1, 2, -1];
    let res: &[&[(i32, i32)]] = &[&[], &[(1, 1)], &[(2, 3)], &[(-1, 0)], &[(3, 9), (1, 1)], &[(5, 9), (-9, -2)]];
    let len = c.pick(4, 5);
    family(r, "enums: numbers", nums.len().pow(len as u32) * res.len() * 3 * 2 * 3, |i| {
        let mut p = Pick(i);
        let (p3, alias, rs) = (p.flag(), [None, Some(false), Some(true)][p.n(3)], *p.of(res));
        let name = p.n(3);
        let vs: Vec<(String, i32)> = (0..len).map(|k| (format!("V{k}"), *p.of(&nums))).collect();
        let mut e = enm("E", &vs.iter().map(|(n, v)| (n.as_str(), *v)).collect::<Vec<_>>());
        if alias.is_some() {
            e.options = Some(EnumOptions { allow_alias: alias, ..Default::default() });
        }
        e.reserved_range = rs.iter().map(|(a, b)| EnumReservedRange { start: Some(*a), end: Some(*b) }).collect();
        e.reserved_name = [vec![], vec!["W".to_owned(), "U".into()], vec!["W".to_owned(), "V2".into()]][name].clone();
        vec![FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), enum_type: vec![e], ..Default::default() }]
    });

    // messages: numbers of fields, reserved and extension ranges
    let nums = [1, 2, 3, 4];
    let res: &[&[(i32, i32)]] = &[&[], &[(1, 2)], &[(2, 3)], &[(2, 4)], &[(4, 9), (1, 2)], &[(5, 9)]];
    let len = c.pick(4, 5);
    family(r, "messages: numbers", nums.len().pow(len as u32) * res.len() * res.len() * 2, |i| {
        let mut p = Pick(i);
        let (p3, rs, xs) = (p.flag(), *p.of(res), *p.of(res));
        let mut m = msg("M");
        m.field = (0..len).map(|k| fld(&format!("f{}", 9 - k), *p.of(&nums), 5, "")).collect();
        m.reserved_range = rs.iter().map(|(a, b)| ReservedRange { start: Some(*a), end: Some(*b) }).collect();
        m.extension_range = xs.iter().map(|(a, b)| ExtensionRange { start: Some(*a), end: Some(*b), options: None }).collect();
        vec![FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), message_type: vec![m], ..Default::default() }]
    });

    // messages: names and JSON names of fields, reserved names
    let names = ["a", "b", "A", "a_b", "aB", "ab", "a_B", "_a"];
    let json = [None, Some("b"), Some("aB"), Some("a"), Some("")];
    family(r, "messages: names", names.len().pow(3) * json.len() * json.len() * 2 * 4, |i| {
        let mut p = Pick(i);
        let p3 = p.flag();
        let (j1, j3) = (*p.of(&json), *p.of(&json));
        let reserved = p.n(4);
        let mut m = msg("M");
        m.field = (0..3).map(|k| fld(names[p.n(names.len())], k + 1, 5, "")).collect();
        m.field[0].json_name = j1.map(|s| s.into());
        m.field[2].json_name = j3.map(|s| s.into());
        m.reserved_name = [vec![], vec!["z", "a"], vec!["aB"], vec!["y", "z"]][reserved].iter().map(|s| s.to_string()).collect();
        vec![FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), message_type: vec![m], ..Default::default() }]
    });

    // three ranges
    let ends = [0, 1, 2, 3, 5];
    let spans: Vec<(i32, i32)> = ends.iter().flat_map(|a| ends.iter().map(move |b| (*a, *b))).collect();
    let good: Vec<(i32, i32)> = spans.iter().copied().filter(|(a, b)| a < b && *a > 0).collect();
    let (n2, n3) = ((spans.len() * 3).pow(2), (good.len() * 3).pow(3));
    family(r, "several ranges", n2 + n3, |i| {
        let (mut p, k, of) = if i < n2 { (Pick(i), 2, &spans) } else { (Pick(i - n2), 3, &good) };
        let mut m = msg("M");
        let mut e = enm("E", &[("V", 9)]);
        for _ in 0..k {
            let (sort, (x, y)) = (p.n(3), *p.of(of));
            match sort {
                0 => m.extension_range.push(ExtensionRange { start: Some(x), end: Some(y), options: None }),
                1 => m.reserved_range.push(ReservedRange { start: Some(x), end: Some(y) }),
                _ => e.reserved_range.push(EnumReservedRange { start: Some(x), end: Some(y) }),
            }
        }
        vec![FileDescriptorProto { name: Some("q.proto".into()), message_type: vec![m], enum_type: vec![e], ..Default::default() }]
    });

    // oneof indexes, whether the fields of a oneof follow each other, and proto3 optional
    let idx = [None, Some(0), Some(1), Some(2), Some(-1)];
    family(r, "oneof indexes", idx.len().pow(3) * 8 * 3 * 2 * 2, |i| {
        let mut p = Pick(i);
        let (p3, n, opt, rep) = (p.flag(), p.n(3), p.n(8), p.flag());
        let mut m = msg("M");
        m.oneof_decl = (0..n).map(|k| oneof(["o", "_f1"][k])).collect();
        m.field = (0..3)
            .map(|k| FieldDescriptorProto {
                oneof_index: *p.of(&idx),
                proto3_optional: (opt >> k & 1 == 1).then_some(true),
                label: Some(if rep && k == 0 { 3 } else { 1 }),
                ..fld(&format!("f{k}"), k as i32 + 1, 5, "")
            })
            .collect();
        vec![FileDescriptorProto { name: Some("q.proto".into()), syntax: syn(p3), message_type: vec![m], ..Default::default() }]
    });

    // three extensions of two messages
    let (nums, to) = ([10, 12, 20, 1], ["A", ".q.B", "q.N"]);
    family(r, "extension numbers", (nums.len() * to.len()).pow(3) * 8 * 2, |i| {
        let mut p = Pick(i);
        let (p3, scope) = (p.flag(), p.n(8));
        let mut fp = FileDescriptorProto { name: Some("q.proto".into()), package: Some("q".into()), ..Default::default() };
        let mut a = msg("A");
        a.extension_range = vec![ExtensionRange { start: Some(10), end: Some(11), options: None }, ExtensionRange { start: Some(12), end: Some(30), options: None }];
        let mut b = msg("B");
        b.field.push(fld("f", 1, 5, ""));
        b.extension_range = vec![ExtensionRange { start: Some(2), end: Some(13), options: None }];
        let mut own = msg("O");
        let mut other = FileDescriptorProto { name: Some("r.proto".into()), package: Some("q".into()), dependency: vec!["q.proto".into()], syntax: syn(p3), ..Default::default() };
        for k in 0..3 {
            let x = FieldDescriptorProto { extendee: Some((*p.of(&to)).into()), ..fld(&format!("x{k}"), *p.of(&nums), 5, "") };
            if scope >> k & 1 == 0 {
                other.extension.push(x);
            } else if k == 1 {
                own.extension.push(x);
            } else {
                fp.extension.push(x);
            }
        }
        fp.message_type = vec![a, b, msg("N")];
        other.message_type.push(own);
        vec![fp, other]
    });

    // names which clash: declarations of every kind in one or two files
    let pkgs = ["", "a", "a.b", "b"];
    family(r, "clashing names", 10usize.pow(3) * pkgs.len().pow(2) * 8, |i| {
        let mut p = Pick(i);
        let (pk, split) = ([*p.of(&pkgs), *p.of(&pkgs)], p.n(8));
        let mut fs: Vec<FileDescriptorProto> = (0..2)
            .map(|k| FileDescriptorProto { name: Some(format!("f{k}.proto")), package: (!pk[k].is_empty()).then(|| pk[k].to_owned()), ..Default::default() })
            .collect();
        for k in 0..3 {
            let f = &mut fs[split >> k & 1];
            let (kind, name) = (p.n(5), ["a", "b"][p.n(2)]);
            match kind {
                0 => f.message_type.push(msg(name)),
                1 => f.enum_type.push(enm(name, &[(&format!("V{k}"), 0)])),
                2 => f.enum_type.push(enm(&format!("E{k}"), &[(name, 0)])),
                3 => f.service.push(ServiceDescriptorProto { name: Some(name.into()), ..Default::default() }),
                _ => {
                    let mut t = msg(&format!("T{k}"));
                    t.extension_range.push(ExtensionRange { start: Some(1), end: Some(9), options: None });
                    f.message_type.push(t);
                    f.extension.push(FieldDescriptorProto { extendee: Some(format!("T{k}")), ..fld(name, k as i32 + 1, 5, "") });
                }
            }
        }
        fs
    });

    // names which clash inside a message or a service
    family(r, "clashing names in a message", 14usize.pow(3) * 2, |i| {
        let mut p = Pick(i);
        let p3 = p.flag();
        let mut m = msg("M");
        let mut s = ServiceDescriptorProto { name: Some("S".into()), ..Default::default() };
        m.extension_range.push(ExtensionRange { start: Some(50), end: Some(60), options: None });
        for k in 0..3 {
            let (kind, name) = (p.n(7), ["a", "b"][p.n(2)]);
            match kind {
                0 => m.nested_type.push(msg(name)),
                1 => m.enum_type.push(enm(name, &[(&format!("V{k}"), 0)])),
                2 => m.enum_type.push(enm(&format!("E{k}"), &[(name, 0)])),
                3 => m.field.push(fld(name, k + 1, 5, "")),
                4 => {
                    m.field.push(FieldDescriptorProto { oneof_index: Some(m.oneof_decl.len() as i32), ..fld(&format!("f{k}"), k + 1, 5, "") });
                    m.oneof_decl.push(oneof(name));
                }
                5 => m.extension.push(FieldDescriptorProto { extendee: Some(if p3 { "U" } else { "M" }.into()), ..fld(name, k + 50, 5, "") }),
                _ => s.method.push(MethodDescriptorProto { name: Some(name.into()), input_type: Some("M".into()), output_type: Some("M".into()), ..Default::default() }),
            }
        }
        let mut u = msg("U");
        u.extension_range.push(ExtensionRange { start: Some(50), end: Some(60), options: None });
        vec![FileDescriptorProto { name: Some("q.proto".into()), message_type: vec![m, u], service: vec![s], ..Default::default() }]
    });
}

/// A node of an ordered forest in preorder.
#[derive(Clone, Debug)]
struct Node {
    depth: usize,
    leaf: bool,
}

/// All ordered forests of `n` nodes.
fn forests(n: usize) -> Vec<Vec<Node>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let max = cur.last().map_or(0, |d| d + 1);
        for d in 0..=max {
            cur.push(d);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out.into_iter().map(|v| (0..v.len()).map(|i| Node { depth: v[i], leaf: i + 1 == v.len() || v[i + 1] <= v[i] }).collect()).collect()
}

type Put<'a> = dyn FnMut(Option<&mut DescriptorProto>, bool, &mut FileDescriptorProto, Vec<DescriptorProto>) + 'a;

/// Builds the forest from the leaves up: what is below a node is collected in a message first.
fn build(s: &[Node], pos: &mut usize, depth: usize, put: &mut Put, fp: &mut FileDescriptorProto) {
    fn node(s: &[Node], pos: &mut usize, put: &mut Put, fp: &mut FileDescriptorProto, parent: Option<&mut DescriptorProto>) {
        let me = s[*pos].clone();
        *pos += 1;
        let mut holder = DescriptorProto::default();
        while *pos < s.len() && s[*pos].depth > me.depth {
            node(s, pos, put, fp, Some(&mut holder));
        }
        // the children of a node: hand the messages over, then add the rest
        let at = match parent {
            Some(p) => {
                let before = p.nested_type.len();
                put(Some(p), me.leaf, fp, std::mem::take(&mut holder.nested_type));
                p.nested_type.get_mut(before)
            }
            None => {
                let before = fp.message_type.len();
                put(None, me.leaf, fp, std::mem::take(&mut holder.nested_type));
                fp.message_type.get_mut(before)
            }
        };
        if let Some(m) = at {
            m.enum_type = holder.enum_type;
            m.extension = holder.extension;
        }
    }
    while *pos < s.len() && s[*pos].depth >= depth {
        node(s, pos, put, fp, None);
    }
}
