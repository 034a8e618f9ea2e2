//! T01-T03: the text format.
use super::json::nth;
use super::wire::{universe, TYPES};
use crate::json::{canon_any, known_any, wkt};
use crate::report::{no_panic, Ctx};
use crate::schema::{Card, Field, Schema, Ty, ALL_BIN};
use crate::text::{self, check, read, tree, Fmt, Verdict};
use crate::uni::{Lvl, Uni};
use crate::value::{show, Bind, Mv, V};
use prost_reflect::{DynamicMessage, Value};
use std::collections::BTreeMap;

fn canon(b: &Bind, d: &DynamicMessage) -> Result<Mv, String> {
    let mut g = b.from_dyn(d)?;
    g.normalize(&b.s);
    g.canon();
    canon_any(&b.s, &mut g);
    Ok(g)
}

fn parse(b: &Bind, ty: usize, t: &str) -> Result<Result<DynamicMessage, String>, String> {
    no_panic("parse_text_format", || {
        DynamicMessage::parse_text_format(b.md[ty].clone(), t).map_err(|e| {
            // the error must be printable
            format!("{e} {e:?}")
        })
    })
}
fn print(d: &DynamicMessage, o: &Fmt) -> Result<String, String> {
    no_panic("to_text_format", || d.to_text_format_with_options(&o.real()))
}

fn text_universe(c: &Ctx, b: &Bind, unknown: bool) -> Vec<Mv> {
    let s = &b.s;
    let mut u = universe(c, b, unknown);
    u.extend(super::wire::look_alikes(b));
    u.extend(super::wire::wide(b, unknown));
    let mut un = Uni::new(s);
    for m in 0..s.msgs.len() {
        if wkt(&s.msgs[m].name).is_some() {
            for v in un.alpha(Ty::Msg(m), Lvl::Full) {
                let V::M(x) = v else { unreachable!() };
                u.push(*x);
            }
        }
    }
    // Any: payloads of every type, in several places, and URLs which cannot be expanded
    let any = s.msg("google.protobuf.Any");
    let mk = |url: &str, p: Vec<u8>| {
        let mut m = Mv::new(any);
        if !url.is_empty() {
            m.f.insert(1, V::S(url.into()));
        }
        if !p.is_empty() {
            m.f.insert(2, V::Y(p));
        }
        m
    };
    let mut anys = vec![];
    for t in TYPES {
        for v in un.singles(s.msg(t)).into_iter().step_by(c.pick(6, 1)) {
            anys.push(mk(&format!("h.x/{t}"), crate::wire::enc(s, &v, &Default::default())));
        }
    }
    for url in ["", "t3.Leaf", "/t3.Leaf", "x/t3.Leaf", "x/y/t3.Leaf", "x/", "/", "x/t3.Nope", "x/.t3.Leaf", "x/t3.E3", "1x/t3.Leaf", "x.1/t3.Leaf", "x-y/t3.Leaf", "_/t3.Leaf", "x./t3.Leaf", ".x/t3.Leaf", "x..y/t3.Leaf", "x /t3.Leaf", "\u{e9}/t3.Leaf", "x/google.protobuf.Any", "x/t3.Mv.VInt32Entry", "type.googleapis.com/t2.Rq", "x\"/t3.Leaf", "x]/t3.Leaf", "inf/t3.Leaf"] {
        for p in [vec![], vec![8, 1], vec![8], vec![0x0a, 1, b'a'], vec![0xff], vec![0x80, 0x20, 1], vec![18, 2, b'"', b'\n'], vec![18, 1, 0xff]] {
            anys.push(mk(url, p));
        }
    }
    let inner: Vec<Mv> = anys.iter().step_by(c.pick(40, 8)).cloned().collect();
    for a in &inner {
        anys.push(mk("x/google.protobuf.Any", crate::wire::enc(s, a, &Default::default())));
        let bx = V::M(Box::new(a.clone()));
        u.push(Mv::new(s.msg("t3.Wk")).with(1, bx.clone()));
        u.push(Mv::new(s.msg("t3.Wr")).with(1, V::L(vec![bx.clone(), bx.clone()])));
        u.push(Mv::new(s.msg("t3.Wr")).with(23, V::Map(BTreeMap::from([(V::B(true), bx.clone())]))));
        u.push(Mv::new(s.msg("t2.Ex")).with(128, bx));
    }
    u.extend(anys);
    // every byte in strings and bytes, and pairs around escapes
    let sc = s.msg("t3.Sc");
    for x in 0..=255u8 {
        for y in [0, 7, b'0', b'7', b'8', b'x', b'"', b'\'', b'\\', b'\n', b'?', 127, 128, 255] {
            u.push(Mv::new(sc).with(15, V::Y(vec![x, y])));
            u.push(Mv::new(sc).with(15, V::Y(vec![y, x, y])));
            if x < 128 && y < 128 {
                u.push(Mv::new(sc).with(14, V::S(String::from_utf8(vec![x, y]).unwrap())));
            }
        }
    }
    for ch in ['\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{2028}'] {
        u.push(Mv::new(sc).with(14, V::S(format!("{ch}0{ch}"))));
        u.push(Mv::new(s.msg("t3.Mk")).with(12, V::Map(BTreeMap::from([(V::S(ch.to_string()), V::I32(1))]))));
    }
    for m in &mut u {
        m.normalize(s);
        m.canon();
        canon_any(s, m);
    }
    u
}

pub fn t01(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    let u = text_universe(c, &b, false);
    // as deep as the wire format goes
    let deep = super::wire::deep(&b, c.thorough);
    c.count("deeply nested messages", deep.len() as u64);
    c.par(
        deep.len(),
        |i| show(s, &deep[i].0),
        |i| {
            let m = &deep[i].0;
            c.state(m);
            let bytes = crate::wire::enc(&b.s, m, &Default::default());
            let d = DynamicMessage::decode(b.md[m.ty].clone(), bytes.as_slice()).map_err(|e| format!("a message of at most 100 levels is not decoded: {e}"))?;
            for o in [&Fmt::all()[i % 32], &Fmt::all()[0]] {
                let t = print(&d, o)?;
                let g = canon(&b, &parse(&b, m.ty, &t)?.map_err(|e| format!("{o:?}: the printed text is refused: {e}"))?)?;
                if g != *m {
                    return Err(format!("{o:?}: reads back as {}", show(s, &g)));
                }
                c.step(2);
            }
            c.trace(1);
            Ok(())
        },
    );
    c.param("option sets", 32);
    c.par(
        u.len(),
        |i| show(s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let d = b.to_dyn(m);
            let mut want = m.clone();
            known_any(s, &mut want);
            // unknown fields cannot be parsed
            let unknown = want != *m;
            for (k, o) in Fmt::all().iter().enumerate() {
                if unknown && !o.skip_unknown {
                    continue;
                }
                let t = print(&d, o)?;
                let back = parse(&b, m.ty, &t)?.map_err(|e| format!("{o:?}: the printed text is refused: {e}\n  text {t}"))?;
                let mut g = canon(&b, &back)?;
                known_any(s, &mut g);
                if g != want {
                    return Err(format!("{o:?}: reads back as {}\n  text {t}", show(s, &g)));
                }
                if k == 0 {
                    let disp = no_panic("Display", || format!("{d}"))?;
                    let pretty = no_panic("Display", || format!("{d:#}"))?;
                    for t in [disp, pretty, d.to_text_format()] {
                        let mut g = canon(&b, &parse(&b, m.ty, &t)?.map_err(|e| format!("Display: {e}\n  text {t}"))?)?;
                        known_any(s, &mut g);
                        if g != want {
                            return Err(format!("Display reads back as {}\n  text {t}", show(s, &g)));
                        }
                    }
                    // into a message which has none of the fields
                    let mut e = DynamicMessage::new(b.md[m.ty].clone());
                    e.merge_text_format(&t).map_err(|e| format!("merge_text_format: {e}"))?;
                    if canon(&b, &e)? != canon(&b, &back)? {
                        return Err(format!("merge_text_format gives another message than parse_text_format\n  text {t}"));
                    }
                }
                c.step(2);
                c.trace(1);
            }
            Ok(())
        },
    );
    // merging the text of one field into a message with another one
    let mut un = Uni::new(s);
    let mut jobs = vec![];
    for t in TYPES {
        let ty = s.msg(t);
        for f in s.msgs[ty].all() {
            let vs = un.field_values(f, Lvl::Tiny);
            for g in s.msgs[ty].all() {
                let clash = f.oneof.is_some() && f.oneof == g.oneof && !f.ext && !g.ext;
                if clash || (f.num == g.num && f.card != Card::Rep) {
                    continue;
                }
                let ws = un.field_values(g, Lvl::Tiny);
                for v in vs.iter().take(2) {
                    for w in ws.iter().take(2) {
                        jobs.push((ty, f.num, v.clone(), g.num, w.clone()));
                    }
                }
            }
        }
    }
    c.count("merges", jobs.len() as u64);
    c.par(
        jobs.len(),
        |i| format!("{} {} {:?} then {} {:?}", s.msgs[jobs[i].0].name, jobs[i].1, jobs[i].2, jobs[i].3, jobs[i].4),
        |i| {
            let (ty, n, v, k, w) = jobs[i].clone();
            let a = Mv::new(ty).with(n, v.clone());
            let x = Mv::new(ty).with(k, w.clone());
            let mut d = b.to_dyn(&a);
            let t = b.to_dyn(&x).to_text_format();
            no_panic("merge_text_format", || d.merge_text_format(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("refused: {e}\n  text {t}"))?;
            let mut want = a;
            if n == k {
                let f = s.msgs[ty].get(n).unwrap();
                let joined = match (v, w) {
                    (V::L(mut a), V::L(b)) => {
                        a.extend(b);
                        V::L(a)
                    }
                    (V::Map(mut a), V::Map(b)) => {
                        a.extend(b);
                        V::Map(a)
                    }
                    _ => return Err(format!("harness: {}", f.name)),
                };
                want.f.insert(n, joined);
            } else {
                want.f.insert(k, w);
            }
            want.normalize(s);
            want.canon();
            known_any(s, &mut want);
            let mut g = canon(&b, &d)?;
            known_any(s, &mut g);
            if g != want {
                return Err(format!("merging {t} gives {}, expected {}", show(s, &g), show(s, &want)));
            }
            c.states_add(1);
            c.step(1);
            c.trace(1);
            Ok(())
        },
    );
    // floats
    let op = s.msg("t3.Op");
    let md = b.md[op].clone();
    let (ff, fd) = (md.get_field(2).unwrap(), md.get_field(1).unwrap());
    let trip = |bits: u64, wide: bool| -> Result<(), String> {
        let mut d = DynamicMessage::new(md.clone());
        let f = if wide { &fd } else { &ff };
        d.set_field(f, if wide { Value::F64(f64::from_bits(bits)) } else { Value::F32(f32::from_bits(bits as u32)) });
        let text = d.to_text_format();
        let back = parse(&b, op, &text)?.map_err(|e| format!("{text}: {e}"))?;
        let ok = match back.get_field(f).as_ref() {
            Value::F64(x) => x.to_bits() == bits || (x.is_nan() && f64::from_bits(bits).is_nan()),
            Value::F32(x) => x.to_bits() == bits as u32 || (x.is_nan() && f32::from_bits(bits as u32).is_nan()),
            _ => false,
        };
        if !ok {
            let key = if wide { format!("f64:{bits:016x}") } else { format!("f32:{bits:08x}") };
            c.fail_keyed(&key, format!("{text} reads back as {:?}", back.get_field(f)));
        }
        Ok(())
    };
    let p64 = super::json::f64_patterns(c);
    c.count("f64 bit patterns", p64.len() as u64);
    c.par(p64.len(), |i| format!("f64 {:016x}", p64[i]), |i| trip(p64[i], true));
    if c.thorough {
        c.par(1 << 20, |i| format!("f32 block {i:x}"), |i| {
            for k in 0..(1u64 << 12) {
                trip((i as u64) << 12 | k, false)?;
            }
            Ok(())
        });
        c.count("f32 bit patterns", 1 << 32);
        c.states_add((1 << 32) + p64.len() as u64);
    } else {
        let p32 = super::json::f32_patterns(c);
        c.par(p32.len(), |i| format!("f32 {:08x}", p32[i]), |i| trip(p32[i] as u64, false));
        c.count("f32 bit patterns", p32.len() as u64);
        c.states_add((p32.len() + p64.len()) as u64);
    }
}

pub fn t03(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    let u = text_universe(c, &b, true);
    c.param("option sets", 32);
    c.par(
        u.len(),
        |i| show(s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let d = b.to_dyn(m);
            let judge = |t: &str, o: &Fmt| -> Result<(), String> {
                let tr = tree(s, m.ty, t).map_err(|e| format!("{o:?}: {e}\n  text {t}"))?;
                check(s, m, &tr, o).map_err(|e| format!("{o:?}: {e}\n  text {t}"))
            };
            let e = super::wire::explicit(&b, m);
            for o in &Fmt::all() {
                let t = print(&d, o)?;
                judge(&t, o)?;
                if print(&e, o)? != t {
                    judge(&print(&e, o)?, o).map_err(|e| format!("with defaults set: {e}"))?;
                }
                c.step(2);
                c.trace(1);
            }
            let def = Fmt { pretty: false, skip_unknown: true, skip_default: true, expand: true, index: false };
            judge(&no_panic("to_text_format", || d.to_text_format())?, &def)?;
            judge(&no_panic("Display", || format!("{d}"))?, &def)?;
            judge(&no_panic("Display", || format!("{d:#}"))?, &def)
        },
    );
}

fn judge(c: &Ctx, b: &Bind, ty: usize, t: &str) -> Result<Verdict, String> {
    let (v, want) = read(&b.s, ty, t);
    let got = parse(b, ty, t)?;
    c.step(1);
    c.trace(1);
    match (v, got) {
        (Verdict::Open, Ok(d)) => {
            canon(b, &d)?;
        }
        (Verdict::Open | Verdict::Maybe | Verdict::Refuse(_), Err(_)) => {}
        (Verdict::Sure, Err(e)) => return Err(format!("refused ({e}), it means {}\n  text {t}", show(&b.s, &want))),
        (Verdict::Refuse(_), Ok(d)) => return Err(format!("accepted as {}, must be refused\n  text {t}", canon(b, &d).map(|m| show(&b.s, &m)).unwrap_or_default())),
        (Verdict::Sure | Verdict::Maybe, Ok(d)) => {
            let g = canon(b, &d)?;
            if g != want {
                return Err(format!("read as {}, it means {}\n  text {t}", show(&b.s, &g), show(&b.s, &want)));
            }
        }
    }
    Ok(v)
}

/// Joins tokens with as few separators as possible, or with one of several separators.
fn join(toks: &[&str], sep: Option<&str>) -> String {
    let mut out = String::new();
    for t in toks {
        let wordy = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '"' || c == '\'';
        match sep {
            Some(s) if !out.is_empty() => out.push_str(s),
            None if out.ends_with(wordy) && t.starts_with(wordy) => out.push(' '),
            _ => {}
        }
        out.push_str(t);
    }
    out
}

const SYM: [&str; 9] = [":", "{", "}", "<", ">", "[", "]", ",", ";"];

fn sequences(c: &Ctx, b: &Bind, ty: &str, words: &[&str], full: usize, deep: usize) {
    let ty = b.s.msg(ty);
    let alpha: Vec<&str> = SYM.iter().copied().chain(words.iter().copied()).collect();
    let n = alpha.len();
    fn rec<'x>(c: &Ctx, b: &Bind, ty: usize, alpha: &[&'x str], p: &mut Vec<&'x str>, full: usize, deep: usize) -> Result<(), String> {
        if c.stopped() {
            return Ok(());
        }
        c.states_add(1);
        let v = judge(c, b, ty, &join(p, None))?;
        if p.len() <= 3 {
            for sep in [" ", "\n", "\t\r", "#:{x\n"] {
                let w = judge(c, b, ty, &join(p, Some(sep)))?;
                if w != v {
                    return Err(format!("harness: separators matter: {p:?}"));
                }
            }
        }
        let dead = matches!(v, Verdict::Refuse(false) | Verdict::Open);
        let more = if dead { p.len() < full } else { p.len() < deep };
        if more {
            for t in alpha {
                p.push(t);
                rec(c, b, ty, alpha, p, full, deep)?;
                p.pop();
            }
        }
        Ok(())
    }
    c.par(
        n * n,
        |i| format!("{} {} ...", alpha[i / n], alpha[i % n]),
        |i| {
            let mut p = vec![alpha[i / n], alpha[i % n]];
            if i % n == 0 {
                judge(c, b, ty, p[0])?;
            }
            rec(c, b, ty, &alpha, &mut p, full, deep)
        },
    );
    c.param(&format!("token sequences of {}", b.s.msgs[ty].name), format!("{n} tokens, all of length <= {full}, all extensions of viable prefixes of length <= {deep}"));
}

fn literals() -> Vec<String> {
    let mut v: Vec<String> = [
        "0", "1", "-1", "- 1", "-\n1", "--1", "+1", "00", "01", "-01", "07", "08", "010", "-0", "0x0", "0x1", "0X1f", "-0x1", "0x", "0xg", "0x1g", "1a", "1_", "0b1", "1.5abc", "127", "128", "255", "256", "1 2", "1.0", "1.", ".5", "-.5", ".", "-.", "-", "1.5", "1e3", "1E+3", "1e-3", "1e", "1e+", "1.e5", ".5e1", "1f", "1F", "0f", "01f", "1.5f", "1.f", ".5f", "1e3f", "1ff", "0x1f", "1.5.5", "1..5",
        "inf", "-inf", "Infinity", "INF", "iNfInItY", "-infinity", "nan", "NaN", "NAN", "-nan", "+inf", "infin", "inff", "- inf", "1inf",
        "1e400", "-1e400", "1e-400", "1.7976931348623157e308", "3.4028235e38", "3.5e38", "-3.5e38", "1e-46", "0.1", "16777217", "9007199254740993", "123456789012345678901234567890", "0x8000000000000000", "01777777777777777777777",
        "true", "false", "True", "False", "t", "f", "TRUE", "T", "F", "tRue", "yes", "no", "truee", "-true", "2", "0x01", "0001", "00000000000000000000001", "0x100", "-1",
        "\"\"", "''", "\"a\"", "'a'", "\"a\" \"b\"", "\"a\"'b'\"c\"", "\"a\" , \"b\"", "\"a\"#c\n\"b\"", "\"a", "a\"", "'a\"", "\"'\"", "'\"'", "\"\\\"\"", "'\\''", "\"\u{e9}\"", "\"\\303\\251\"", "\"\\303\" '\\251'", "\"\\303\"", "\"\\xff\"", "\"\\u00e9\"", "\"\\U0001F600\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\U00110000\"", "\"\\U0010FFFF\"", "\"\\400\"", "\"\\377\"", "\"\\8\"", "\"\\z\"", "\"\\x\"", "\"\\xg\"", "\"\\x1\"", "\"\\x123\"", "\"\\1234\"", "\"\\n\\r\\t\\a\\b\\f\\v\\?\\\\\"", "\"\n\"", "\"\r\"", "\"\t\"", "\"\0\"", "\"\u{1}\"", "\"#\"", "\"\\", "\"\\u12\"", "\"\\U1234567\"", "\"\\u12345\"",
        "E3_ZERO", "E3_ONE", "E3_NEG", "E3_MAX", "E3_MIN", "E3_NOPE", "e3_one", "E2_ONE", "E2_TWO", "E2_NEG", "A3_ONE", "A3_UNO", "NULL_VALUE", "-E3_ONE", "\"E3_ONE\"", "7777", "-7777", "0x7fffffff", "-5", "E3_ONE E3_ZERO", "E3.ONE", "-0x80000000",
        "{}", "<>", "{ }", "{", "}", "<", ">", "{>", "<}", "{}{}", "{i:1}", "<i:1>", "{i:1,s:'x'}", "{i:1;s:'x';}", "{i:1,,s:'x'}", "{,}", "{i:1 i:1}", "{i:0 i:1}", "{i:1 i:0}", "{i}", "{i:}", "{i 1}", "{nope:1}", "{i:{}}", "{1:1}", "{[t2.x_int32]:1}", "{[a/t3.Leaf]{}}", "{i:1}}", "{{}}", "{v:1 child{v:2}}", "{v:1 child<v:2>}", "{child{child{child{}}}}", "{a:1}", "{g:1}", "{q:true}", "{key:1}",
        "[]", "[1]", "[1,2]", "[1 2]", "[1,]", "[,]", "[,1]", "[[]]", "[[1]]", "[1;2]", "[", "]", "[1", "[{}]", "[{},{}]", "[<>,{}]", "[{i:1},<i:2>]", "[{} {}]", "['a','b']", "['a' 'b','c']", "[true,f]", "[inf,-nan,1]", "[E3_ONE,1]", "[E2_ONE,-5]", "[0x1,01,1]", "[1.5,2]", "[] []", "[]:", "[x]", "[-1,- 2]", "[1,'a']", "[{},1]",
        "", " ", "#", "#\n", ":", "::1", ",", ";", "1,", "1;", "1,,", "1,;", "1 ,", "@", "$", "\u{e9}", "\\", "!", "(", "1)", "/", "//x", "/*x*/1", "\u{a0}1", "\u{feff}1", "\u{b}1", "`",
    ]
    .map(String::from)
    .to_vec();
    for x in [1i128 << 7, 1 << 8, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64, 1 << 65] {
        for y in [x - 1, x, x + 1] {
            for sign in ["", "-"] {
                v.push(format!("{sign}{y}"));
                v.push(format!("{sign}0x{y:x}"));
                v.push(format!("{sign}0X{y:X}"));
                v.push(format!("{sign}0{y:o}"));
                v.push(format!("{sign}0x000{y:x}"));
                v.push(format!("{sign}{y}.0"));
                v.push(format!("{sign}{y}f"));
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

fn tname(s: &Schema, f: &Field) -> String {
    if f.ext {
        format!("[{}]", f.full)
    } else if let Ty::Group(g) = f.ty {
        s.msgs[g].name.rsplit('.').next().unwrap().into()
    } else {
        f.name.clone()
    }
}

fn sample(ty: Ty) -> &'static str {
    match ty {
        Ty::Bool => "true",
        Ty::String | Ty::Bytes => "'k'",
        Ty::Msg(_) | Ty::Group(_) => "{}",
        _ => "1",
    }
}

fn placed(s: &Schema, f: &Field, lits: &[String]) -> Vec<String> {
    let n = tname(s, f);
    let mut out = vec![];
    for l in lits {
        out.push(format!("{n}:{l}"));
        out.push(format!("{n}{l}"));
        out.push(format!("{n} : [{l},{l}]"));
        out.push(format!("{n}:{l} {n}:{l}"));
        if let Some((kf, vf)) = s.map_kv(f) {
            let (k, v) = (sample(kf.ty), sample(vf.ty));
            out.push(format!("{n}{{key:{k} value:{l}}}"));
            out.push(format!("{n}{{key:{l},value:{v}}}"));
            out.push(format!("{n}:[{{value:{l};key:{k}}},<value:{v} key:{k}>]"));
            out.push(format!("{n}<key:{l}>{n}<value:{l}>"));
            out.push(format!("{n}{{key:{k} key:{l}}}"));
            out.push(format!("{n}{{value:{v} value:{l}}}"));
        }
    }
    out
}

pub fn t02(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    // token sequences
    let (full, deep) = (c.pick(4, 5), c.pick(5, 7));
    sequences(c, &b, "t3.Tx", &["i", "f", "s", "m", "r", "q", "p", "e", "b", "u", "y", "any", "key", "value", "0", "1", "-", "1.5", "inf", "'a'", "t", "E3_ONE", "[x/t3.Leaf]", "/"], full, deep);
    sequences(c, &b, "t2.Tx", &["i", "Gp", "gp", "Rg", "a", "b", "d", "z", "e", "[t2.tx]", "[t2.tr]", "t2", ".", "txs", "1", "-", "nan", "\"x\"", "E2_ONE"], full, deep);
    sequences(c, &b, "google.protobuf.Any", &["type_url", "value", "[x.y/t3.Leaf]", "x", "/", ".", "t3", "Leaf", "i", "s", "'a'", "''", "1", "[x/google.protobuf.Any]", "[x/t3.Nope]"], full, deep + 1);
    sequences(c, &b, "t3.On", &["o_int", "o_str", "o_msg", "p_int", "p_msg", "before", "0", "1", "'a'", "i"], full, deep + 1);
    // literals everywhere
    let lits = literals();
    let mut jobs: Vec<(usize, String)> = vec![];
    for t in TYPES.iter().chain(&["t3.Tx", "t2.Tx"]) {
        let ty = s.msg(t);
        for f in s.msgs[ty].all() {
            for t in placed(s, f, &lits) {
                jobs.push((ty, t));
            }
        }
    }
    c.count("literal placements", jobs.len() as u64);
    // string literals
    let al = ["\\", "x", "X", "0", "3", "7", "4", "u", "U", "n", "\"", "'", "a", "\u{e9}", "\n", "D", "8"];
    let mut total = 0;
    for l in 0..=c.pick(4, 5) {
        total += al.len().pow(l);
    }
    let sc = s.msg("t3.Sc");
    for i in 0..total {
        let x = nth(&al, i);
        jobs.push((sc, format!("f_bytes:\"{x}\"")));
        jobs.push((sc, format!("f_string:\"{x}\"")));
    }
    for p in ["\\u", "\\U", "\\x", "\\", "\\U000", "\\uD8"] {
        let al = ["0", "1", "8", "D", "f", "F", "g"];
        for i in 0..(0..=4).map(|l| al.len().pow(l)).sum() {
            for q in ["", "0", "00", "F00", "1F600"] {
                jobs.push((sc, format!("f_string:'{p}{}{q}'", nth(&al, i))));
            }
        }
    }
    // numbers: all short strings over the characters of numbers
    let al = ["0", "1", "7", "8", ".", "e", "-", "+", "x", "f", "a", "_", " "];
    let mut total = 0;
    for l in 0..=c.pick(4, 5) {
        total += al.len().pow(l);
    }
    let op = s.msg("t3.Op");
    for i in 0..total {
        let x = nth(&al, i);
        jobs.push((op, format!("f_double:{x}")));
        jobs.push((op, format!("f_int32:{x}")));
        jobs.push((op, format!("f_float:{x};f_enum:{x}")));
        if i < 400 {
            jobs.push((op, format!("f_uint64:{x}")));
            jobs.push((op, format!("f_bool:{x}")));
        }
    }
    // edits of printed messages
    let mut un = Uni::new(s);
    let chars: Vec<char> = "{}[]<>:,;.-/\"'\\#0a \n\u{e9}_".chars().collect();
    let before = jobs.len();
    for t in TYPES.iter().chain(&["t3.Tx", "t2.Tx"]) {
        let ty = s.msg(t);
        let vs = un.singles(ty);
        for m in vs.iter().step_by(c.pick(11, 2)) {
            let mut m = m.clone();
            m.normalize(s);
            let d = b.to_dyn(&m);
            for o in [Fmt { pretty: false, skip_unknown: true, skip_default: true, expand: true, index: false }, Fmt { pretty: true, skip_unknown: true, skip_default: true, expand: true, index: false }] {
                let t = d.to_text_format_with_options(&o.real());
                if t.len() > c.pick(60, 300) {
                    continue;
                }
                for e in super::json::edits(&t, &chars) {
                    jobs.push((ty, e));
                }
            }
        }
    }
    c.count("edited texts", (jobs.len() - before) as u64);
    c.sample(|| jobs[jobs.len() / 2].1.clone());
    c.sample(|| jobs[before + 100].1.clone());
    c.par(
        jobs.len(),
        |i| format!("{}: {:?}", s.msgs[jobs[i].0].name, jobs[i].1),
        |i| {
            c.states_add(1);
            judge(c, &b, jobs[i].0, &jobs[i].1).map(|_| ())
        },
    );
    // merging a text into a message with fields set: singular fields are refused, repeated ones appended
    let before: Vec<(usize, Mv)> = ["t3.Tx", "t2.Tx", "t3.On", "t3.Op", "t2.Fo", "t3.Mk"].iter().flat_map(|t| un.singles(s.msg(t)).into_iter().step_by(5).map(|m| (m.ty, m))).collect();
    let mut jobs: Vec<(Mv, Mv)> = vec![];
    for (ty, m) in &before {
        for (ty2, n) in &before {
            if ty == ty2 {
                jobs.push((m.clone(), n.clone()));
            }
        }
    }
    c.count("merges into a message", jobs.len() as u64);
    c.par(
        jobs.len(),
        |i| format!("{} then {}", show(s, &jobs[i].0), show(s, &jobs[i].1)),
        |i| {
            let (mut m, mut n) = jobs[i].clone();
            for x in [&mut m, &mut n] {
                x.normalize(s);
                x.canon();
            }
            let f = Fmt { pretty: false, skip_unknown: true, skip_default: true, expand: true, index: false };
            let (tm, tn) = (print(&b.to_dyn(&m), &f)?, print(&b.to_dyn(&n), &f)?);
            // one text after the other is as good as merging, as no field is printed at its default
            let mut d = b.to_dyn(&m);
            let r = no_panic("merge_text_format", || d.merge_text_format(&tn).map_err(|e| e.to_string()))?;
            let (v, want) = read(s, m.ty, &format!("{tm} {tn}"));
            c.states_add(1);
            c.step(1);
            c.trace(1);
            match (v, r) {
                (Verdict::Sure, Ok(())) => {
                    let g = canon(&b, &d)?;
                    if g != want {
                        return Err(format!("merging {tn} gives {}, expected {}", show(s, &g), show(s, &want)));
                    }
                }
                (Verdict::Sure, Err(e)) => return Err(format!("merging {tn} is refused: {e}")),
                (Verdict::Refuse(_), Ok(())) => return Err(format!("merging {tn} is accepted although a singular field is set already")),
                _ => {}
            }
            Ok(())
        },
    );
    let _ = text::UT::Var(0);
}
