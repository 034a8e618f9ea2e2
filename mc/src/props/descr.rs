//! D01-D06: descriptor pools.
use crate::descr::{Ref, Verdict};
use crate::mutate::{self, Edit, Values, N};
use crate::report::{no_panic, Ctx};
use crate::schema::Schema;
use crate::views::{self, Queries};
use prost::Message;
use prost_reflect::DescriptorPool;
use prost_types::{FileDescriptorProto, FileDescriptorSet};

pub const K: &[u8] = include_bytes!("../../protos/k.bin");
pub const KO: &[u8] = include_bytes!("../../protos/ko.bin");
pub const DESCRIPTOR: &[u8] = include_bytes!("../../protos/descriptor.bin");

pub fn set(b: &[u8]) -> Vec<FileDescriptorProto> {
    FileDescriptorSet::decode(b).expect("harness: descriptor set").file
}

/// descriptor.proto itself, as a schema for the edits.
pub struct Meta {
    pub s: Schema,
    pub set: usize,
}
impl Meta {
    pub fn new() -> Meta {
        let s = Schema::parse(DESCRIPTOR);
        let set = s.msg("google.protobuf.FileDescriptorSet");
        Meta { s, set }
    }
}

pub fn b(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}

pub fn values(thorough: bool, names: Vec<Vec<u8>>) -> Values {
    let i = |x: i64| x as u64;
    let mut ints = vec![0, 1, 2, 3, 5, 9, 10, 11, 17, i(-1), 100, 199, 200, 18999, 19000, 19999, 20000, 536870911, 536870912, i32::MAX as u64, i(i32::MIN as i64)];
    if thorough {
        ints.extend([4, 6, 7, 8, 12, 13, 14, 15, 16, 18, 19, 99, 101, 150, 999, 1000, 18998, 20001, u32::MAX as u64, 1 << 32, u64::MAX >> 1]);
    }
    Values {
        ints,
        rel: true,
        strings: ["", ".", "a", "x.y", "a b", "é"].map(b).to_vec(),
        names,
        defaults: [
            "0", "1", "-1", "1.5", "-1.5", "1e3", "1e400", "true", "false", "inf", "-inf", "nan", "EN_A", "EN_B", "Z", "\\", "\\x", "\\n", "\\001", "\\400", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
            "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-0", "007", "0x1", "+1", " 1", "1 ", "1f", "True", "t", "infinity", "1_0", "'", "\"", ",",
        ]
        .map(b)
        .to_vec(),
        insert: true,
        order: true,
    }
}

pub fn names_of(files: &[FileDescriptorProto]) -> Vec<Vec<u8>> {
    let (_, r) = Ref::default().add(files);
    let mut v: Vec<String> = vec![];
    for n in r.names.keys() {
        v.push(format!(".{n}"));
        v.push(n.rsplit('.').next().unwrap().to_owned());
    }
    for f in files {
        v.push(f.name().to_owned());
    }
    v.extend(["proto2", "proto3", "editions", "k.p.M.N", "p.M", "M.N", "In.Ie", "Base.In", "packed", "k.p"].map(String::from));
    v.sort();
    v.dedup();
    v.into_iter().map(|s| s.into_bytes()).collect()
}

/// Reasons for an open verdict which leave nothing open about what an accepted pool reports.
const REPORTABLE: &[&str] = &[
    "reserved name used",
    "reserved name twice",
    "ranges overlap",
    "odd range",
    "range without an end",
    "JSON name of an extension",
    "proto2 enum in proto3",
    "proto3: required",
    "fields of a oneof are not together",
    "synthetic oneof with several fields",
    "synthetic oneof before another",
    "extension in a oneof",
    "required extension",
    "group in proto3",
    "extension in proto3",
    "oneof without fields",
    "extension range in proto3",
    "a message, but another type is given",
    "enum values which clash without prefix",
    "options with rules of their own",
    "enum value without a number",
    "message set",
];

/// The verdict of the reference against the outcome of building; if built, all views too.
pub fn against_ref(files: &[FileDescriptorProto], p: Result<&DescriptorPool, &str>, c: Option<&Ctx>) -> Result<&'static str, String> {
    let (v, r) = Ref::default().add(files);
    match (&v, p) {
        (Verdict::Accept, Ok(p)) => {
            let q = Queries::of(&r, true);
            let want = views::reference(&r, &q);
            let got = no_panic("reading the pool", || views::real(p, &q))?;
            if let Some(c) = c {
                c.step(got.len() as u64);
            }
            views::diff(&got, &want)?;
            Ok("valid")
        }
        (Verdict::Accept, Err(e)) => Err(format!("a valid schema is refused: {e}")),
        (Verdict::Refuse(w), Ok(_)) => Err(format!("an invalid schema is accepted ({w})")),
        (Verdict::Refuse(_), Err(_)) => Ok("invalid"),
        (Verdict::Open(w), Ok(p)) => {
            // what these leave open is whether to accept, not what is then reported
            if w.split("; ").all(|w| REPORTABLE.contains(&w)) {
                let q = Queries::of(&r, true);
                let want = views::reference(&r, &q);
                let got = no_panic("reading the pool", || views::real(p, &q))?;
                views::diff(&got, &want)?;
            }
            Ok("unsettled, accepted")
        }
        (Verdict::Open(_), Err(_)) => Ok("unsettled, refused"),
    }
}

pub fn err(e: &impl std::fmt::Display) -> String {
    e.to_string()
}

pub fn mutations(c: &Ctx, what: &str, base: &[u8], f: impl Fn(&[N], &Edit, &[u8]) -> Result<(), String> + Sync) {
    let meta = Meta::new();
    let t = mutate::parse(&meta.s, meta.set, base);
    let es = mutate::edits(&meta.s, meta.set, &t, &values(c.thorough, names_of(&set(base))));
    c.param(&format!("{what} edits"), es.len());
    c.par(
        es.len(),
        |i| format!("{what}: {}", mutate::describe(&meta.s, meta.set, &t, &es[i])),
        |i| {
            let Some(u) = mutate::apply(&t, &es[i]) else { return Ok(()) };
            let bytes = mutate::encode(&u);
            c.state(&bytes);
            f(&u, &es[i], &bytes)
        },
    );
}

pub fn d03(c: &Ctx) {
    super::schemas::verdicts(c);
    // the base sets themselves
    for (n, base) in [("k", K)] {
        let files = set(base);
        let p = DescriptorPool::decode(base);
        if let Err(e) = against_ref(&files, p.as_ref().map_err(err).as_ref().map(|p| *p).map_err(|e| e.as_str()), Some(c)) {
            c.fail(format!("{e}\n  case: {n}.bin"));
        }
        mutations(c, n, base, |_, _, bytes| {
            let Ok(s) = FileDescriptorSet::decode(bytes) else { return Ok(()) };
            let p = no_panic("DescriptorPool::decode", || DescriptorPool::decode(bytes))?;
            let e = p.as_ref().map_err(err);
            let r = against_ref(&s.file, e.as_ref().map(|p| *p).map_err(|e| e.as_str()), Some(c))?;
            c.trace(1);
            c.count(r, 1);
            Ok(())
        });
    }
}

/// Writes every edited set with the verdict of the reference (for comparing the latter with protoc).
pub fn dump(c: &Ctx) {
    let dir = std::path::PathBuf::from(std::env::var("DUMP").unwrap());
    let n = std::sync::atomic::AtomicUsize::new(0);
    mutations(c, "k", K, |_, _, bytes| {
        let Ok(s) = FileDescriptorSet::decode(bytes) else { return Ok(()) };
        let (v, _) = Ref::default().add(&s.file);
        let i = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::fs::write(dir.join(format!("{i}.bin")), bytes).unwrap();
        std::fs::write(dir.join(format!("{i}.txt")), format!("{}\n{v:?}\n", s.file.iter().map(|f| f.name()).collect::<Vec<_>>().join(" "))).unwrap();
        Ok(())
    });
    c.trace(1);
}

// ---- D01

/// Everything a pool shows, in one text.
fn look(p: &DescriptorPool, q: &Queries) -> Result<Vec<String>, String> {
    no_panic("reading the pool", || {
        let mut l = views::real(p, q);
        l.push(format!("{p:?}"));
        l.push(crate::report::hash(&p.encode_to_vec()).to_string());
        l
    })
}

fn add_err(r: Result<Result<(), String>, String>) -> Result<Result<(), String>, String> {
    r
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Set,
    Protos,
    Bytes,
    /// one file after the other, until one fails
    Each,
    EachBytes,
}

fn add(p: &mut DescriptorPool, files: &[FileDescriptorProto], how: How) -> Result<Result<(), String>, String> {
    let set = FileDescriptorSet { file: files.to_vec() };
    add_err(no_panic("adding files", || match how {
        How::Set => p.add_file_descriptor_set(set).map_err(|e| format!("{e} {e:?}")),
        How::Protos => p.add_file_descriptor_protos(set.file).map_err(|e| format!("{e} {e:?}")),
        How::Bytes => p.decode_file_descriptor_set(set.encode_to_vec().as_slice()).map_err(|e| format!("{e} {e:?}")),
        How::Each => set.file.into_iter().try_for_each(|f| p.add_file_descriptor_proto(f)).map_err(|e| format!("{e} {e:?}")),
        How::EachBytes => set.file.into_iter().try_for_each(|f| p.decode_file_descriptor_proto(f.encode_to_vec().as_slice())).map_err(|e| format!("{e} {e:?}")),
    }))
}

/// Histories of additions: every word over the menu up to a length, each step against the model
/// (the reference's list of files), with clones and descriptors taken before each step.
fn histories(c: &Ctx, what: &str, menu: &[(String, Vec<FileDescriptorProto>, How)], depth: usize) {
    let all: Vec<FileDescriptorProto> = set(K);
    let (_, full) = Ref::default().add(&all);
    let mut q = Queries::of(&full, true);
    q.full.extend(["k.Bad", "k.Bad.v", "k.bad_ext", "k.new", "bad", "k.G"].map(String::from));
    q.files.insert("bad.proto".into());
    c.param(&format!("{what}: menu"), menu.len());
    c.param(&format!("{what}: length"), depth);
    let n = menu.len().pow(depth as u32);
    c.par(
        n,
        |i| (0..depth).map(|d| menu[i / menu.len().pow((depth - 1 - d) as u32) % menu.len()].0.clone()).collect::<Vec<_>>().join(", then "),
        |i| {
            let mut p = DescriptorPool::new();
            let mut r = Ref::default();
            let mut before = look(&p, &q)?;
            for d in 0..depth {
                let (_, files, how) = &menu[i / menu.len().pow((depth - 1 - d) as u32) % menu.len()];
                let old = p.clone();
                let held: Vec<_> = p.all_messages().collect();
                let texts: Vec<String> = held.iter().map(|m| format!("{m:?}")).collect();
                let (v, r2) = r.add(files);
                let got = add(&mut p, files, *how)?;
                let now = look(&p, &q)?;
                match (&v, &got) {
                    (Verdict::Accept, Err(e)) => return Err(format!("step {d}: a valid addition fails: {e}")),
                    (Verdict::Refuse(w), Ok(())) => return Err(format!("step {d}: an invalid addition succeeds ({w})")),
                    (Verdict::Open(w), _) => panic!("harness: open verdict in the menu: {w}"),
                    (Verdict::Accept, Ok(())) => {
                        r = r2;
                        let want = views::reference(&r, &q);
                        views::diff(&now[..now.len() - 2], &want).map_err(|e| format!("step {d}: {e}"))?;
                    }
                    (Verdict::Refuse(_), Err(_)) => {
                        views::diff(&now, &before).map_err(|e| format!("step {d}: after a failed addition {e}"))?;
                    }
                }
                let was = look(&old, &q)?;
                views::diff(&was, &before).map_err(|e| format!("step {d}: in a clone taken before {e}"))?;
                for (m, t) in held.iter().zip(&texts) {
                    if format!("{m:?}") != *t {
                        return Err(format!("step {d}: a descriptor obtained before changed: {t} -> {m:?}"));
                    }
                }
                if i % menu.len().pow((depth - 1 - d) as u32) == 0 {
                    c.state(&(i / menu.len().pow((depth - 1 - d) as u32), d));
                    c.step(1);
                }
                before = now;
            }
            c.trace(1);
            Ok(())
        },
    );
}

pub fn file(name: &str, f: impl FnOnce(&mut FileDescriptorProto)) -> FileDescriptorProto {
    let mut x = FileDescriptorProto { name: Some(name.into()), package: Some("k".into()), ..Default::default() };
    f(&mut x);
    x
}
pub fn msg(name: &str) -> prost_types::DescriptorProto {
    prost_types::DescriptorProto { name: Some(name.into()), ..Default::default() }
}
pub fn fld(name: &str, n: i32, ty: i32, tn: &str) -> prost_types::FieldDescriptorProto {
    prost_types::FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(1),
        r#type: Some(ty),
        type_name: (!tn.is_empty()).then(|| tn.into()),
        ..Default::default()
    }
}

/// Files which are refused, each at another stage of building.
fn bad_files() -> Vec<(&'static str, FileDescriptorProto)> {
    let en = |name: &str, v: &str| prost_types::EnumDescriptorProto {
        name: Some(name.into()),
        value: vec![prost_types::EnumValueDescriptorProto { name: Some(v.into()), number: Some(0), ..Default::default() }],
        ..Default::default()
    };
    // everything which leaves a trace in the pool, followed by what is wrong
    let full = |f: &mut FileDescriptorProto| {
        let mut m = msg("Bad");
        m.field.push(fld("v", 1, 5, ""));
        m.nested_type.push(msg("In"));
        m.enum_type.push(en("E", "BAD_E"));
        m.oneof_decl.push(prost_types::OneofDescriptorProto { name: Some("o".into()), ..Default::default() });
        m.field.push(prost_types::FieldDescriptorProto { oneof_index: Some(0), ..fld("w", 2, 5, "") });
        f.message_type.push(m);
        f.enum_type.push(en("BE", "BE_E"));
        f.dependency.push("k0.proto".into());
        f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(".k.Base".into()), ..fld("bad_ext", 150, 5, "") });
        f.service.push(prost_types::ServiceDescriptorProto {
            name: Some("Sv".into()),
            method: vec![prost_types::MethodDescriptorProto { name: Some("M".into()), input_type: Some("Bad".into()), output_type: Some("Base".into()), ..Default::default() }],
            ..Default::default()
        });
    };
    vec![
        (
            "name taken",
            file("bad.proto", |f| {
                full(f);
                f.message_type.push(msg("En"));
            }),
        ),
        (
            "import missing",
            file("bad.proto", |f| {
                full(f);
                f.dependency.push("none.proto".into());
            }),
        ),
        (
            "type missing",
            file("bad.proto", |f| {
                full(f);
                f.message_type[0].field.push(fld("z", 3, 11, "None"));
            }),
        ),
        (
            "extendee missing",
            file("bad.proto", |f| {
                full(f);
                f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(".k.None".into()), ..fld("bad_ext2", 151, 5, "") });
            }),
        ),
        (
            "extension number",
            file("bad.proto", |f| {
                full(f);
                f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(".k.Base".into()), ..fld("bad_ext2", 50, 5, "") });
            }),
        ),
        (
            "method type",
            file("bad.proto", |f| {
                full(f);
                f.service[0].method[0].output_type = Some("BE".into());
            }),
        ),
        (
            "option",
            file("bad.proto", |f| {
                full(f);
                f.message_type[0].options = Some(prost_types::MessageOptions {
                    uninterpreted_option: vec![prost_types::UninterpretedOption {
                        name: vec![prost_types::uninterpreted_option::NamePart { name_part: "nonesuch".into(), is_extension: false }],
                        identifier_value: Some("true".into()),
                        ..Default::default()
                    }],
                    ..Default::default()
                });
            }),
        ),
    ]
}

pub fn d01(c: &Ctx) {
    let k = set(K);
    let good = file("bad.proto", |f| {
        f.message_type.push(msg("Bad"));
        f.dependency.push("k0.proto".into());
        f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(".k.Base".into()), ..fld("bad_ext", 150, 5, "") });
    });
    let mut menu: Vec<(String, Vec<FileDescriptorProto>, How)> = vec![];
    for (i, f) in k.iter().enumerate() {
        menu.push((format!("k{i}"), vec![f.clone()], How::Protos));
    }
    menu.push(("k0+k1+k2".into(), k.clone(), How::Bytes));
    menu.push(("good".into(), vec![good], How::Set));
    let mut m2 = menu.clone();
    for (w, f) in bad_files() {
        menu.push((format!("bad ({w})"), vec![f.clone()], How::Protos));
        m2.push((format!("k0+bad ({w})"), vec![k[0].clone(), f.clone()], How::Set));
        m2.push((format!("bad ({w})+k0+k1"), vec![f, k[0].clone(), k[1].clone()], How::Bytes));
    }
    menu.push(("file twice".into(), vec![k[0].clone(), k[0].clone()], How::Set));
    histories(c, "single files", &menu, c.pick(3, 4));
    histories(c, "batches", &m2, c.pick(2, 3));

    // packages of files which could not be added, then names like theirs
    let pkgs = ["", "a", "ab", "a.b", "a.bc"];
    let mut m3: Vec<(String, Vec<FileDescriptorProto>, How)> = vec![];
    for (i, p) in pkgs.iter().enumerate() {
        let mut f = FileDescriptorProto { name: Some(format!("g{i}.proto")), package: Some(p.to_string()), ..Default::default() };
        m3.push((format!("empty file of package {p:?}"), vec![f.clone()], How::Protos));
        f.name = Some(format!("h{i}.proto"));
        f.dependency.push("nothing.proto".into());
        m3.push((format!("bad file of package {p:?}"), vec![f.clone()], How::Protos));
        f.dependency.clear();
        let mut m = msg("M");
        m.field.push(fld("x", 1, 11, "Nothing"));
        f.message_type.push(m);
        m3.push((format!("bad file with a message of package {p:?}"), vec![f.clone()], How::Bytes));
    }
    for (p, n) in [("", "a"), ("", "ab"), ("a", "b"), ("a", "bc"), ("a.b", "M")] {
        let mut f = FileDescriptorProto { name: Some(format!("m_{p}_{n}.proto")), package: Some(p.into()), ..Default::default() };
        f.message_type.push(msg(n));
        m3.push((format!("message {n} in package {p:?}"), vec![f], How::Protos));
    }
    histories(c, "packages", &m3, c.pick(3, 4));

    // every edit of a valid set, as an addition which fails after other files are there
    let (_, full) = Ref::default().add(&k);
    let q = Queries::of(&full, true);
    for stage in 0..3usize {
        let mut base = DescriptorPool::new();
        base.add_file_descriptor_protos(k[..stage].to_vec()).expect("harness: base");
        let before = look(&base, &q).unwrap();
        let mut end = base.clone();
        end.add_file_descriptor_protos(k.clone()).expect("harness: full");
        let after = look(&end, &q).unwrap();
        mutations(c, &format!("k on {stage} files"), K, |_, e, bytes| {
            if e.path.first().is_some_and(|&f| f < stage) {
                return Ok(());
            }
            let mut p = base.clone();
            let keep = p.clone();
            let r = no_panic("decode_file_descriptor_set", || p.decode_file_descriptor_set(bytes))?;
            c.step(1);
            if r.is_ok() {
                return views::diff(&look(&keep, &q)?, &before).map_err(|e| format!("clone: {e}"));
            }
            c.trace(1);
            views::diff(&look(&p, &q)?, &before).map_err(|e| format!("after a failed addition {e}"))?;
            views::diff(&look(&keep, &q)?, &before).map_err(|e| format!("clone: {e}"))?;
            match no_panic("the addition afterwards", || p.add_file_descriptor_protos(k.clone()))? {
                Err(e) => Err(format!("after a failed addition a valid one fails: {e}")),
                Ok(()) => views::diff(&look(&p, &q)?, &after).map_err(|e| format!("a failed addition left a trace: {e}")),
            }
        });
    }
}

// ---- D02

pub fn orders(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

/// Encoding a pool or a file into a buffer of any size: it succeeds exactly if there is room, and writes what
/// encode_to_vec gives, after what the buffer holds already.
fn sinks(p: &DescriptorPool) -> Result<(), String> {
    use prost::bytes::{self, BufMut};
    let one = |what: &str, all: Vec<u8>, f: &dyn Fn(&mut bytes::buf::Limit<&mut Vec<u8>>) -> bool| -> Result<(), String> {
        for room in [0, all.len() / 2, all.len().saturating_sub(1), all.len(), all.len() + 1] {
            let mut v = b"before".to_vec();
            let ok = no_panic(what, || f(&mut (&mut v).limit(room)))?;
            if ok != (room >= all.len()) {
                return Err(format!("{what}: {} bytes into a buffer with room for {room}: {}", all.len(), if ok { "succeeds" } else { "fails" }));
            }
            if ok && (!v.starts_with(b"before") || v[6..] != all) {
                return Err(format!("{what} and encode_to_vec differ"));
            }
        }
        Ok(())
    };
    one("DescriptorPool::encode", p.encode_to_vec(), &|b| p.encode(b).is_ok())?;
    for f in p.files() {
        one("FileDescriptor::encode", f.encode_to_vec(), &|b| f.encode(b).is_ok())?;
    }
    Ok(())
}

pub fn d02(c: &Ctx) {
    let mut files = set(K);
    let mut raw: Vec<Vec<u8>> = vec![];
    // the bytes of each file, custom options included
    let meta = Meta::new();
    for b in [K, KO] {
        for n in mutate::parse(&meta.s, meta.set, b) {
            raw.push(mutate::encode(match &n.p {
                mutate::P::M(_, c) => c,
                _ => unreachable!(),
            }));
        }
    }
    files.extend(set(KO));
    let extra = file("x.proto", |f| {
        f.package = Some("o".into());
        f.dependency = vec!["k1.proto".into(), "ko.proto".into()];
        f.public_dependency = vec![1];
        let mut m = msg("X");
        m.field.push(fld("a", 1, 11, ".k.p.M"));
        m.field.push(fld("b", 2, 11, "OM"));
        m.field.push(fld("c", 3, 11, "k.Base.In"));
        f.message_type.push(m);
        f.extension.push(prost_types::FieldDescriptorProto { extendee: Some("OM".into()), json_name: None, ..fld("xo", 190, 14, "k.En") });
    });
    raw.push(extra.encode_to_vec());
    files.push(extra);
    let n = files.len();
    let (v, full) = Ref::default().add(&files);
    assert!(matches!(v, Verdict::Accept), "harness: {v:?}");
    let mut q = Queries::of(&full, true);
    q.unordered = true;
    let qraw = Queries { options: false, ..q.clone() };
    let setof = |ix: &[usize]| -> Vec<u8> {
        let mut out = vec![];
        for &i in ix {
            out.push(10);
            mutate::varint(&mut out, raw[i].len() as u64);
            out.extend(&raw[i]);
        }
        out
    };
    let id: Vec<usize> = (0..n).collect();
    let want = views::real(&DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.clone() }).expect("harness: all"), &q);
    let want_raw = views::real(&DescriptorPool::decode(setof(&id).as_slice()).expect("harness: all"), &qraw);
    let ords = orders(n);
    // a cut after position j if bit j is set
    let cuts = 1usize << (n - 1);
    c.param("files", n);
    c.param("orders x partitions", ords.len() * cuts);
    c.par(
        ords.len() * cuts,
        |i| format!("order {:?} of k0 k1 k2 descriptor ko x, cut {:05b}", ords[i / cuts], i % cuts),
        |i| {
            let (o, cut) = (&ords[i / cuts], i % cuts);
            let mut batches: Vec<Vec<usize>> = vec![vec![]];
            for (j, &f) in o.iter().enumerate() {
                batches.last_mut().unwrap().push(f);
                if j + 1 < n && cut >> j & 1 == 1 {
                    batches.push(vec![]);
                }
            }
            for how in [How::Set, How::Protos, How::Bytes, How::EachBytes] {
                // one way per case unless all are asked for
                if !c.thorough && (i + how as usize) % 4 != 0 {
                    continue;
                }
                let mut p = DescriptorPool::new();
                let mut r = Ref::default();
                let mut dead = false;
                for (bi, b) in batches.iter().enumerate() {
                    // duplicates of earlier files come along
                    let mut b = b.clone();
                    if bi > 0 {
                        b.insert(0, batches[bi - 1][0]);
                    }
                    let protos: Vec<_> = b.iter().map(|&f| files[f].clone()).collect();
                    let got = no_panic("adding files", || match how {
                        How::Set => p.add_file_descriptor_set(FileDescriptorSet { file: protos.clone() }),
                        How::Protos => p.add_file_descriptor_protos(protos.clone()),
                        How::Bytes => p.decode_file_descriptor_set(setof(&b).as_slice()),
                        _ if b.len() == 1 => p.decode_file_descriptor_proto(raw[b[0]].as_slice()),
                        _ => p.decode_file_descriptor_set(setof(&b).as_slice()),
                    })?;
                    let (v, r2) = r.add(&protos);
                    c.step(1);
                    match (v, got) {
                        (Verdict::Accept, Ok(())) => r = r2,
                        (Verdict::Refuse(_), Err(_)) => {
                            dead = true;
                            break;
                        }
                        (Verdict::Accept, Err(e)) => return Err(format!("{how:?}: batch {bi} of valid files is refused: {e}")),
                        (Verdict::Refuse(w), Ok(())) => return Err(format!("{how:?}: batch {bi} is accepted ({w})")),
                        (Verdict::Open(w), _) => panic!("harness: open: {w}"),
                    }
                }
                c.trace(1);
                if dead {
                    c.count("imports come too late", 1);
                    continue;
                }
                c.count("complete", 1);
                let (q, want) = if matches!(how, How::Bytes | How::EachBytes) { (&qraw, &want_raw) } else { (&q, &want) };
                let got = no_panic("reading the pool", || views::real(&p, q))?;
                views::diff(&got, want).map_err(|e| format!("{how:?}: {e}"))?;
                if i % 11 == 0 {
                    sinks(&p)?;
                }
                let back = no_panic("DescriptorPool::encode", || DescriptorPool::decode(p.encode_to_vec().as_slice()))?.map_err(|e| format!("{how:?}: the encoded pool is refused: {e}"))?;
                let got = no_panic("reading the pool", || views::real(&back, q))?;
                views::diff(&got, want).map_err(|e| format!("{how:?}: encoded and decoded again: {e}"))?;
                let mut ord = q.clone();
                ord.unordered = false;
                if i % 7 == 0 {
                    views::diff(&views::real(&back, &ord), &views::real(&p, &ord)).map_err(|e| format!("{how:?}: encoded and decoded again, with order: {e}"))?;
                }
                // adding everything again changes nothing
                let whole = look(&p, &ord)?;
                let again = no_panic("adding again", || if i % 2 == 0 { p.add_file_descriptor_protos(files.clone()) } else { p.decode_file_descriptor_set(setof(o).as_slice()) })?;
                if let Err(e) = again {
                    return Err(format!("{how:?}: adding the same files again fails: {e}"));
                }
                views::diff(&look(&p, &ord)?, &whole).map_err(|e| format!("{how:?}: adding the same files again: {e}"))?;
            }
            c.states_add(1);
            Ok(())
        },
    );
    // duplicates: every file twice in a row, in every position of one batch = a duplicate name in the batch
    for &i in &id {
        for at in 0..=n {
            let mut b = id.clone();
            b.insert(at, i);
            let mut p = DescriptorPool::new();
            let before = look(&p, &q).unwrap();
            match no_panic("adding a file twice", || p.decode_file_descriptor_set(setof(&b).as_slice())) {
                Err(e) => c.fail(format!("{e}\n  case: file {i} again at {at}")),
                Ok(Ok(())) => c.fail(format!("two files of one name in one batch are accepted\n  case: file {i} again at {at}")),
                Ok(Err(_)) => {
                    if let Err(e) = look(&p, &q).and_then(|l| views::diff(&l, &before)) {
                        c.fail(format!("{e}\n  case: file {i} again at {at}"));
                    }
                }
            }
            c.trace(1);
        }
    }
    file_names(c);
}

/// Files are told apart by the exact text of their names.
fn file_names(c: &Ctx) {
    let names = ["a", "./a", "/a", "a/", "A", "a ", "a.proto", "A.proto", "b/a", "b//a", "b/./a", "a/../a", "b\\a", "\u{e4}", "a\u{308}", ".a", "google/protobuf/any.proto"];
    let make = |name: &str, m: &str, deps: &[&str], uses: Option<&str>| {
        file(name, |f| {
            f.dependency = deps.iter().map(|d| d.to_string()).collect();
            let mut d = msg(m);
            if let Some(u) = uses {
                d.field.push(fld("x", 1, 11, u));
            }
            f.message_type.push(d);
        })
    };
    c.param("file names", names.len());
    c.par(
        names.len() * names.len(),
        |i| format!("file names {:?} and {:?}", names[i / names.len()], names[i % names.len()]),
        |i| {
            let (a, b) = (names[i / names.len()], names[i % names.len()]);
            let (fa, fb) = (make(a, "Ma", &[], None), make(b, "Mb", &[], None));
            let by = |d: &str, u: &str| make("c", "Mc", &[d], Some(u));
            let histories: Vec<Vec<Vec<FileDescriptorProto>>> = vec![
                vec![vec![fa.clone()], vec![fb.clone()]],
                vec![vec![fa.clone(), fb.clone()]],
                vec![vec![fa.clone()], vec![make(b, "Mb", &[a], Some("Ma"))]],
                vec![vec![make(b, "Mb", &[a], Some("Ma")), fa.clone()]],
                vec![vec![fa.clone()], vec![by(b, "Ma")]],
                vec![vec![fa.clone()], vec![fb.clone(), by(b, "Mb")], vec![make("d", "Md", &[a], Some("Ma"))]],
                vec![vec![fa.clone()], vec![fb.clone()], vec![by(b, "Ma")], vec![by(a, "Ma")]],
                vec![vec![by(b, "Mb"), fa.clone()], vec![fa.clone(), fb.clone()], vec![fa.clone(), fb.clone(), by(a, "Ma")]],
            ];
            for h in &histories {
                for bytes in [false, true] {
                    let mut p = DescriptorPool::new();
                    let mut r = Ref::default();
                    for (k, batch) in h.iter().enumerate() {
                        let set = FileDescriptorSet { file: batch.clone() };
                        let got = no_panic("adding files", || if bytes { p.decode_file_descriptor_set(set.encode_to_vec().as_slice()) } else { p.add_file_descriptor_set(set) })?;
                        let (v, r2) = r.add(batch);
                        c.step(1);
                        match (v, got) {
                            (Verdict::Accept, Ok(())) => r = r2,
                            (Verdict::Refuse(_), Err(_)) => {}
                            (Verdict::Accept, Err(e)) => return Err(format!("batch {k} of valid files is refused: {e}\n  {:?}", describe(h))),
                            (Verdict::Refuse(w), Ok(())) => return Err(format!("batch {k} is accepted ({w})\n  {:?}", describe(h))),
                            (Verdict::Open(w), _) => panic!("harness: open: {w}"),
                        }
                        let mut q = Queries::of(&r, true);
                        q.files.extend(names.iter().map(|n| n.to_string()));
                        views::diff(&no_panic("reading the pool", || views::real(&p, &q))?, &views::reference(&r, &q)).map_err(|e| format!("after batch {k}: {e}\n  {:?}", describe(h)))?;
                        c.state(&(i, &describe(h), k));
                    }
                    c.trace(1);
                }
            }
            Ok(())
        },
    );
}
fn describe(h: &[Vec<FileDescriptorProto>]) -> Vec<Vec<String>> {
    h.iter().map(|b| b.iter().map(|f| format!("{:?} imports {:?}", f.name(), f.dependency)).collect()).collect()
}

// ---- D04

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sort {
    None,
    Msg,
    /// without the nested enum U
    Bare,
    Enum,
    Field,
    Oneof,
    Value,
    Svc,
    Method,
    Ext,
    InB,
}

fn open_msg(name: &str) -> prost_types::DescriptorProto {
    prost_types::DescriptorProto {
        extension_range: vec![prost_types::descriptor_proto::ExtensionRange { start: Some(1000), end: Some(2000), options: None }],
        ..msg(name)
    }
}
fn enumd(name: &str, v: &str) -> prost_types::EnumDescriptorProto {
    prost_types::EnumDescriptorProto {
        name: Some(name.into()),
        value: vec![prost_types::EnumValueDescriptorProto { name: Some(v.into()), number: Some(0), ..Default::default() }],
        ..Default::default()
    }
}
fn target(bare: bool) -> prost_types::DescriptorProto {
    let mut t = open_msg("T");
    if !bare {
        t.enum_type.push(enumd("U", "U0"));
    }
    t
}
fn ext_t() -> prost_types::FieldDescriptorProto {
    prost_types::FieldDescriptorProto { extendee: Some("Xt".into()), ..fld("T", 1001, 5, "") }
}

/// Declares T of a sort within a message.
fn put_msg(m: &mut prost_types::DescriptorProto, s: Sort) {
    match s {
        Sort::None => {}
        Sort::Msg => m.nested_type.push(target(false)),
        Sort::Bare => m.nested_type.push(target(true)),
        Sort::Enum => m.enum_type.push(enumd("T", "TV")),
        Sort::Field => m.field.push(fld("T", 7, 5, "")),
        Sort::Oneof => {
            m.oneof_decl.push(prost_types::OneofDescriptorProto { name: Some("T".into()), options: None });
            m.field.push(prost_types::FieldDescriptorProto { oneof_index: Some(0), ..fld("in_t", 8, 5, "") });
        }
        Sort::Value => m.enum_type.push(enumd("Ev", "T")),
        Sort::Ext => m.extension.push(ext_t()),
        Sort::InB => {
            let mut b = open_msg("b");
            b.nested_type.push(target(false));
            m.nested_type.push(b);
        }
        Sort::Svc | Sort::Method => unreachable!(),
    }
}
fn put_file(f: &mut FileDescriptorProto, s: Sort) {
    let svc = |name: &str, m: Option<&str>| prost_types::ServiceDescriptorProto {
        name: Some(name.into()),
        method: m
            .map(|m| prost_types::MethodDescriptorProto { name: Some(m.into()), input_type: Some("Xt".into()), output_type: Some("Xt".into()), ..Default::default() })
            .into_iter()
            .collect(),
        options: None,
    };
    match s {
        Sort::None => {}
        Sort::Msg => f.message_type.push(target(false)),
        Sort::Bare => f.message_type.push(target(true)),
        Sort::Enum => f.enum_type.push(enumd("T", "TV")),
        Sort::Value => f.enum_type.push(enumd("Ev", "T")),
        Sort::Ext => f.extension.push(ext_t()),
        Sort::Svc => f.service.push(svc("T", None)),
        Sort::Method => f.service.push(svc("Svt", Some("T"))),
        Sort::InB => {
            let mut b = open_msg("b");
            b.nested_type.push(target(false));
            f.message_type.push(b);
        }
        Sort::Field | Sort::Oneof => unreachable!(),
    }
}

const REFS: &[&str] = &[
    "T", ".T", "T.U", ".T.U", "a.T", ".a.T", "a.b.T", ".a.b.T", "b.T", ".b.T", "Q.T", "Q.R.T", "R.T", ".a.Q.T", "a.Q.R.T", "a.T.U", ".a.T.U", "b.T.U", "a.b.T.U", "Q", ".a.Q", "a", "a.b", "c.T", "a.b.Q.R", "b", ".a.b.T.U", "T.T", "a.a.T",
    "Q.Q",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Use {
    Field,
    ExtType,
    Extendee,
    ExtendeeTop,
    Input,
    Output,
}

pub fn d04(c: &Ctx) {
    let pkgs: &[&str] = &["", "a", "a.b", "b", "T", "a.T"];
    let p0s: &[&str] = if c.thorough { &["", "a", "a.b", "a.b.c"] } else { &["", "a", "a.b"] };
    // what f0 declares at the top, in Q and in Q.R
    let tops = [Sort::None, Sort::Msg, Sort::Bare, Sort::Enum, Sort::Value, Sort::Svc, Sort::Method, Sort::Ext, Sort::InB];
    let ins = [Sort::None, Sort::Msg, Sort::Bare, Sort::Enum, Sort::Field, Sort::Oneof, Sort::Value, Sort::Ext, Sort::InB];
    let mut d0: Vec<(Sort, Sort, Sort)> = vec![];
    for &t in &tops {
        for &q in &ins {
            for &r in &ins {
                let n = [t, q, r].iter().filter(|x| **x != Sort::None).count();
                if n <= 1 {
                    d0.push((t, q, r));
                }
            }
        }
    }
    // pairs of the telling ones
    for t in [Sort::Msg, Sort::Enum] {
        for &s in if c.thorough { &ins[1..] } else { &[Sort::Bare, Sort::Field, Sort::InB] } {
            d0.push((t, s, Sort::None));
            d0.push((t, Sort::None, s));
        }
    }
    if c.thorough {
        for s in [Sort::Bare, Sort::Field, Sort::InB] {
            for t in [Sort::Msg, Sort::Enum, Sort::InB] {
                d0.push((Sort::None, s, t));
                d0.push((Sort::None, t, s));
            }
        }
    }
    let fs: Vec<(&str, Sort)> = pkgs.iter().flat_map(|p| [Sort::None, Sort::Msg, Sort::Enum, Sort::InB].map(|s| (*p, s))).collect();
    // edges f0-f1, f1-f2, f0-f2: 0 none, 1 plain, 2 public
    let graphs: Vec<(u8, u8, u8)> = [(1, 0, 0), (1, 1, 0), (1, 2, 0), (2, 2, 0), (1, 1, 1), (0, 2, 1), (0, 0, 2), (0, 0, 0), (2, 1, 0)].to_vec();
    let uses = [Use::Field, Use::ExtType, Use::Extendee, Use::ExtendeeTop, Use::Input, Use::Output];
    c.param("f0 declarations", d0.len());
    c.param("f1, f2 declarations", fs.len());
    c.param("import graphs", graphs.len());
    c.param("references", REFS.len());
    let pairs: Vec<(usize, usize)> = (0..fs.len())
        .flat_map(|i| (0..fs.len()).map(move |j| (i, j)))
        .filter(|(i, j)| fs[*i].1 == Sort::None || fs[*j].1 == Sort::None || (fs[*i].0 != fs[*j].0 && fs[*i].1 == fs[*j].1 && fs[*i].1 == Sort::Msg))
        .collect();
    let total = pairs.len() * graphs.len();
    c.par(
        total,
        |n| format!("f1 {:?}, f2 {:?}, edges {:?}", fs[pairs[n / graphs.len()].0], fs[pairs[n / graphs.len()].1], graphs[n % graphs.len()]),
        |n| {
            let (i, j) = pairs[n / graphs.len()];
            let g = graphs[n % graphs.len()];
            let lib = |name: &str, (pkg, s): (&str, Sort)| {
                file(name, |f| {
                    f.package = (!pkg.is_empty()).then(|| pkg.to_owned());
                    put_file(f, s);
                })
            };
            let import = |f: &mut FileDescriptorProto, name: &str, e: u8| {
                if e > 0 {
                    if e == 2 {
                        f.public_dependency.push(f.dependency.len() as i32);
                    }
                    f.dependency.push(name.into());
                }
            };
            let f2 = lib("f2.proto", fs[j]);
            let mut f1 = lib("f1.proto", fs[i]);
            import(&mut f1, "f2.proto", g.1);
            let libs = vec![f2, f1];
            let (v, r12) = Ref::default().add(&libs);
            let mut p12 = DescriptorPool::new();
            match (&v, p12.add_file_descriptor_protos(libs)) {
                (Verdict::Accept, Ok(())) => {}
                (Verdict::Refuse(_), Err(_)) => return Ok(()),
                (v, r) => return Err(format!("libraries: {v:?} but {r:?}")),
            }
            let (mut steps, mut traces) = (0, 0);
            for &p0 in p0s {
                for &(t, sq, sr) in &d0 {
                    let mut f0 = file("f0.proto", |f| {
                        f.package = (!p0.is_empty()).then(|| p0.to_owned());
                    });
                    import(&mut f0, "f1.proto", g.0);
                    import(&mut f0, "f2.proto", g.2);
                    let mut q = open_msg("Q");
                    let mut rr = open_msg("R");
                    put_msg(&mut rr, sr);
                    q.nested_type.push(rr);
                    put_msg(&mut q, sq);
                    f0.message_type.push(q);
                    f0.message_type.push(open_msg("Xt"));
                    put_file(&mut f0, t);
                    let (v, r0) = r12.add(&[f0.clone()]);
                    if !matches!(v, Verdict::Accept) {
                        let mut p = p12.clone();
                        let got = no_panic("adding f0", || p.add_file_descriptor_proto(f0.clone()))?;
                        match (&v, got) {
                            (Verdict::Refuse(w), Ok(())) => return Err(format!("package {p0:?}, T as {:?}: accepted ({w})", (t, sq, sr))),
                            _ => continue,
                        }
                    }
                    let fi = r0.file("f0.proto").unwrap();
                    let pre = if p0.is_empty() { String::new() } else { format!("{p0}.") };
                    for &u in &uses {
                        // the smaller menus of declarations for the rarer uses
                        if !c.thorough && u != Use::Field && (n + u as usize) % 5 != 0 {
                            continue;
                        }
                        let (scope, want) = match u {
                            Use::Field => (format!("{pre}Q.R"), crate::descr::Want::Type),
                            Use::ExtType => (format!("{pre}Q"), crate::descr::Want::Type),
                            Use::Extendee => (format!("{pre}Q.R"), crate::descr::Want::Msg),
                            Use::ExtendeeTop => (p0.to_owned(), crate::descr::Want::Msg),
                            Use::Input | Use::Output => (format!("{pre}Sv"), crate::descr::Want::Msg),
                        };
                        for &name in REFS {
                            let found = r0.resolve(fi, &scope, name, want);
                            let mut f = f0.clone();
                            match u {
                                Use::Field => f.message_type[0].nested_type[0].field.push(prost_types::FieldDescriptorProto { r#type: None, ..fld("the_ref", 77, 5, name) }),
                                Use::ExtType => f.message_type[0].extension.push(prost_types::FieldDescriptorProto { r#type: None, extendee: Some("Xt".into()), ..fld("the_ref", 1077, 5, name) }),
                                Use::Extendee => f.message_type[0].nested_type[0].extension.push(prost_types::FieldDescriptorProto { extendee: Some(name.into()), ..fld("the_ref", 1077, 5, "") }),
                                Use::ExtendeeTop => f.extension.push(prost_types::FieldDescriptorProto { extendee: Some(name.into()), ..fld("the_ref", 1077, 5, "") }),
                                Use::Input | Use::Output => {
                                    let (a, b) = if u == Use::Input { (name, "Xt") } else { ("Xt", name) };
                                    f.service.push(prost_types::ServiceDescriptorProto {
                                        name: Some("Sv".into()),
                                        method: vec![prost_types::MethodDescriptorProto { name: Some("the_ref".into()), input_type: Some(a.into()), output_type: Some(b.into()), ..Default::default() }],
                                        options: None,
                                    });
                                }
                            }
                            // Xt may be hidden by a package or nested name; then the case says nothing
                            if matches!(u, Use::ExtType | Use::Input | Use::Output) && !matches!(r0.resolve(fi, &scope, "Xt", crate::descr::Want::Msg), crate::descr::Found::Yes(_)) {
                                continue;
                            }
                            let mut p = p12.clone();
                            let got = no_panic("adding f0", || p.add_file_descriptor_proto(f))?;
                            steps += 1;
                            let full = |e: crate::descr::Ent| match e {
                                crate::descr::Ent::Msg(m) => format!("message {}", r0.msgs[m].at.full),
                                crate::descr::Ent::Enum(m) => format!("enum {}", r0.enums[m].at.full),
                                e => format!("{e:?}"),
                            };
                            let case = || format!("package {p0:?}, T at the top, in Q and in Q.R as {:?}, {u:?} {name:?}", (t, sq, sr));
                            let expect = match found {
                                crate::descr::Found::Yes(e) | crate::descr::Found::Lenient(e) => full(e),
                                crate::descr::Found::No => "nothing".into(),
                            };
                            match (got, found) {
                                (Ok(()), crate::descr::Found::No) => return Err(format!("{}: resolves although nothing of that sort is visible", case())),
                                (Err(_), crate::descr::Found::No | crate::descr::Found::Lenient(_)) => {}
                                (Err(e), crate::descr::Found::Yes(_)) => return Err(format!("{}: does not resolve to {expect}: {e}", case())),
                                (Ok(()), _) => {
                                    traces += 1;
                                    let kind = |k: prost_reflect::Kind| match k {
                                        prost_reflect::Kind::Message(m) => format!("message {}", m.full_name()),
                                        prost_reflect::Kind::Enum(m) => format!("enum {}", m.full_name()),
                                        k => format!("{k:?}"),
                                    };
                                    let got = match u {
                                        Use::Field => p.get_message_by_name(&format!("{pre}Q.R")).and_then(|m| m.get_field(77)).map(|f| kind(f.kind())),
                                        Use::ExtType => p.get_extension_by_name(&format!("{pre}Q.the_ref")).map(|f| kind(f.kind())),
                                        Use::Extendee => p.get_extension_by_name(&format!("{pre}Q.R.the_ref")).map(|f| format!("message {}", f.containing_message().full_name())),
                                        Use::ExtendeeTop => p.get_extension_by_name(&format!("{pre}the_ref")).map(|f| format!("message {}", f.containing_message().full_name())),
                                        Use::Input => p.get_service_by_name(&format!("{pre}Sv")).and_then(|s| s.methods().next()).map(|m| format!("message {}", m.input().full_name())),
                                        Use::Output => p.get_service_by_name(&format!("{pre}Sv")).and_then(|s| s.methods().next()).map(|m| format!("message {}", m.output().full_name())),
                                    };
                                    if got.as_deref() != Some(&expect) {
                                        return Err(format!("{}: resolves to {got:?}, not to {expect}", case()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            c.step(steps);
            c.trace(traces);
            c.states_add(steps);
            Ok(())
        },
    );
}
