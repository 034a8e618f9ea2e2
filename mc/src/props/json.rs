//! J01-J04: the proto3 JSON mapping.
use super::wire::{universe, TYPES};
use crate::json::{self, matches, parse, quote, read, ser, wkt, SErr, SerOpt, Verdict, J};
use crate::report::{no_panic, Ctx};
use crate::schema::{Card, Field, Schema, Ty, ALL_BIN};
use crate::uni::{self, Lvl, Uni};
use crate::value::{show, Bind, Mv, V};
use prost_reflect::{DeserializeOptions, DynamicMessage};
use std::collections::BTreeMap;

fn canon(b: &Bind, d: &DynamicMessage) -> Result<Mv, String> {
    let mut g = b.from_dyn(d)?;
    g.normalize(&b.s);
    g.canon();
    json::canon_any(&b.s, &mut g);
    Ok(g)
}

fn de_opt(deny: bool) -> DeserializeOptions {
    DeserializeOptions::new().deny_unknown_fields(deny)
}

pub fn de_text(b: &Bind, ty: usize, text: &str, deny: bool) -> Result<Result<DynamicMessage, String>, String> {
    no_panic("deserialize", || {
        let mut d = serde_json::Deserializer::from_str(text);
        let m = DynamicMessage::deserialize_with_options(b.md[ty].clone(), &mut d, &de_opt(deny)).map_err(|e| e.to_string())?;
        d.end().map_err(|e| e.to_string())?;
        Ok(m)
    })
}
fn de_reader(b: &Bind, ty: usize, text: &str, deny: bool) -> Result<Result<DynamicMessage, String>, String> {
    no_panic("deserialize from a reader", || {
        let mut d = serde_json::Deserializer::from_reader(text.as_bytes());
        let m = DynamicMessage::deserialize_with_options(b.md[ty].clone(), &mut d, &de_opt(deny)).map_err(|e| e.to_string())?;
        d.end().map_err(|e| e.to_string())?;
        Ok(m)
    })
}
fn de_value(b: &Bind, ty: usize, v: serde_json::Value, deny: bool) -> Result<Result<DynamicMessage, String>, String> {
    no_panic("deserialize from a Value", || DynamicMessage::deserialize_with_options(b.md[ty].clone(), v, &de_opt(deny)).map_err(|e| e.to_string()))
}

fn ser_text(d: &DynamicMessage, o: &SerOpt) -> Result<Result<String, String>, String> {
    no_panic("serialize", || {
        let mut s = serde_json::Serializer::new(vec![]);
        d.serialize_with_options(&mut s, &o.real()).map_err(|e| e.to_string())?;
        Ok(String::from_utf8(s.into_inner()).map_err(|e| e.to_string())?)
    })
}
fn ser_value(d: &DynamicMessage, o: &SerOpt) -> Result<Result<serde_json::Value, String>, String> {
    no_panic("serialize to a Value", || d.serialize_with_options(serde_json::value::Serializer, &o.real()).map_err(|e| e.to_string()))
}

fn json_universe(c: &Ctx, b: &Bind, unknown: bool) -> Vec<Mv> {
    let mut u = universe(c, b, unknown);
    u.extend(super::wire::look_alikes(b));
    u.extend(super::wire::wide(b, unknown));
    // well-known types as roots
    let mut un = Uni::new(&b.s);
    for m in 0..b.s.msgs.len() {
        if wkt(&b.s.msgs[m].name).is_some() {
            for v in un.alpha(Ty::Msg(m), Lvl::Full) {
                let V::M(x) = v else { unreachable!() };
                let mut x = *x;
                x.normalize(&b.s);
                x.canon();
                u.push(x);
            }
        }
    }
    for m in &mut u {
        json::canon_any(&b.s, m);
    }
    u
}

/// f32 and f64 bit patterns: every sign and exponent with mantissa patterns; thorough: every f32.
pub fn f32_patterns(c: &Ctx) -> Vec<u32> {
    let mut out = vec![];
    for hi in 0..=0xffffu32 {
        for lo in c.pick(&[0u32, 1, 0x43fd, 0xffff][..], &[0u32, 1, 2, 0x43fd, 0x7fff, 0x8000, 0xaaaa, 0xfffe, 0xffff][..]) {
            out.push(hi << 16 | lo);
        }
    }
    out
}
pub fn f64_patterns(c: &Ctx) -> Vec<u64> {
    let mut out = vec![];
    let ms: Vec<u64> = {
        let mut v = vec![0, 1, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x3333333333333];
        let n = c.pick(8, 52);
        v.extend((0..n).map(|i| 1u64 << (i * 52 / n)));
        v.extend((0..n).map(|i| ((1u64 << 52) - 1) ^ (1u64 << (i * 52 / n))));
        v
    };
    for se in 0..4096u64 {
        for m in &ms {
            out.push(se << 52 | m);
        }
    }
    out
}

const ODD_NAMES: [&str; 9] = ["a", "b", "a_b", "aB", "x", "", "$", "\u{e4}\"\\", "@type"];

/// Messages of three fields a, b and a_b with every assignment of JSON names, those of the other fields among them.
fn odd_names() -> Bind {
    use prost::Message;
    let mut f = super::descr::file("odd.proto", |_| ());
    let n = ODD_NAMES.len();
    for i in 0..n * n * n {
        let ix = [i % n, i / n % n, i / n / n];
        if ix[0] == ix[1] || ix[1] == ix[2] || ix[0] == ix[2] {
            continue;
        }
        let mut m = super::descr::msg(&format!("N{i}"));
        for (k, name) in ["a", "b", "a_b"].iter().enumerate() {
            m.field.push(prost_types::FieldDescriptorProto { json_name: Some(ODD_NAMES[ix[k]].into()), ..super::descr::fld(name, k as i32 + 1, 5, "") });
        }
        f.message_type.push(m);
    }
    let set = prost_types::FileDescriptorSet { file: vec![f] };
    Bind::new(&set.encode_to_vec())
}

pub fn j01(c: &Ctx) {
    // under odd names first
    let b = odd_names();
    c.par(
        b.s.msgs.len() * 8,
        |i| format!("{:?}, fields {:03b}", b.s.msgs[i / 8].all().map(|f| (&f.name, &f.json)).collect::<Vec<_>>(), i % 8),
        |i| {
            let mut m = Mv::new(i / 8);
            for k in 0..3 {
                if i >> k & 1 == 1 {
                    m = m.with(k + 1, V::I32(k as i32 + 5));
                }
            }
            let d = b.to_dyn(&m);
            c.state(&m);
            for o in &SerOpt::all() {
                // under its proto name a field may be taken for that whose JSON name it is
                let t = &b.s.msgs[i / 8];
                if o.proto_name && t.all().any(|f| t.all().any(|g| g.num != f.num && g.json == f.name)) {
                    continue;
                }
                let text = ser_text(&d, o)?.map_err(|e| format!("{o:?}: serializing failed: {e}"))?;
                let back = de_text(&b, m.ty, &text, true)?.map_err(|e| format!("{o:?}: reading it back failed: {e}\n  text {text}"))?;
                let g = canon(&b, &back)?;
                if g != m {
                    return Err(format!("{o:?}: reads back as {}\n  text {text}", show(&b.s, &g)));
                }
                c.step(1);
                c.trace(1);
            }
            Ok(())
        },
    );
    let b = Bind::new(ALL_BIN);
    let u = json_universe(c, &b, false);
    let opts = SerOpt::all();
    c.param("serializer option sets", 16);
    c.param("deserializer option sets", 2);
    c.par(
        u.len(),
        |i| show(&b.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let d = b.to_dyn(m);
            for o in &opts {
                if ser(&b.s, m, o).is_err() {
                    c.count("outside the domain of the mapping", 1);
                    return Ok(());
                }
                let text = ser_text(&d, o)?.map_err(|e| format!("{o:?}: serializing failed: {e}"))?;
                for deny in [true, false] {
                    let back = de_text(&b, m.ty, &text, deny)?.map_err(|e| format!("{o:?} deny={deny}: reading it back failed: {e}\n  text {text}"))?;
                    let g = canon(&b, &back)?;
                    if g != *m {
                        return Err(format!("{o:?} deny={deny}: reads back as {}\n  text {text}", show(&b.s, &g)));
                    }
                }
                let val = ser_value(&d, o)?.map_err(|e| format!("{o:?}: serializing to a Value failed: {e}"))?;
                let back = de_value(&b, m.ty, val.clone(), true)?.map_err(|e| format!("{o:?}: reading back the Value failed: {e}\n  value {val}"))?;
                let g = canon(&b, &back)?;
                if g != *m {
                    return Err(format!("{o:?}: the Value reads back as {}\n  value {val}", show(&b.s, &g)));
                }
                c.step(5);
                c.trace(1);
            }
            Ok(())
        },
    );
    // as deep as the wire format goes (the parser of serde_json has a limit of its own)
    let deep = super::wire::deep(&b, c.thorough);
    c.count("deeply nested messages", deep.len() as u64);
    c.par(
        deep.len(),
        |i| show(&b.s, &deep[i].0),
        |i| {
            let (m, depth) = &deep[i];
            c.state(m);
            let bytes = crate::wire::enc(&b.s, m, &Default::default());
            let d = DynamicMessage::decode(b.md[m.ty].clone(), bytes.as_slice()).map_err(|e| format!("a message of at most 100 levels is not decoded: {e}"))?;
            let o = &opts[i % opts.len()];
            let val = ser_value(&d, o)?.map_err(|e| format!("{o:?}: serializing to a Value failed: {e}"))?;
            let g = canon(&b, &de_value(&b, m.ty, val, true)?.map_err(|e| format!("{o:?}: reading back the Value failed: {e}"))?)?;
            if g != *m {
                return Err(format!("{o:?}: the Value reads back as {}", show(&b.s, &g)));
            }
            let text = ser_text(&d, o)?.map_err(|e| format!("{o:?}: serializing failed: {e}"))?;
            if *depth < 120 {
                let g = canon(&b, &de_text(&b, m.ty, &text, true)?.map_err(|e| format!("{o:?}: reading it back failed: {e}"))?)?;
                if g != *m {
                    return Err(format!("{o:?}: reads back as {}", show(&b.s, &g)));
                }
            }
            c.step(2);
            c.trace(1);
            Ok(())
        },
    );
    // floats
    let sc = b.s.msg("t3.Op");
    let md = b.md[sc].clone();
    let (ff, fd) = (md.get_field(2).unwrap(), md.get_field(1).unwrap());
    let trip = |bits: u64, wide: bool| -> Result<(), String> {
        use prost_reflect::Value;
        let mut d = DynamicMessage::new(md.clone());
        let f = if wide { &fd } else { &ff };
        d.set_field(f, if wide { Value::F64(f64::from_bits(bits)) } else { Value::F32(f32::from_bits(bits as u32)) });
        let text = serde_json::to_string(&d).map_err(|e| e.to_string())?;
        let back = de_text(&b, sc, &text, true)?.map_err(|e| format!("{text}: {e}"))?;
        let ok = match back.get_field(f).as_ref() {
            Value::F64(x) => x.to_bits() == bits || (x.is_nan() && f64::from_bits(bits).is_nan()),
            Value::F32(x) => x.to_bits() == bits as u32 || (x.is_nan() && f32::from_bits(bits as u32).is_nan()),
            _ => false,
        };
        if !ok {
            if wide {
                c.fail_keyed(&format!("f64:{bits:016x}"), format!("{text} reads back as {:?}", back.get_field(f)));
            } else {
                c.fail_keyed(&format!("f32:{bits:08x}"), format!("{text} reads back as {:?}", back.get_field(f)));
            }
        }
        Ok(())
    };
    let p32 = f32_patterns(c);
    let p64 = f64_patterns(c);
    c.count("f64 bit patterns", p64.len() as u64);
    c.par(p64.len(), |i| format!("f64 {:016x}", p64[i]), |i| trip(p64[i], true));
    if c.thorough {
        // every f32
        c.par(1 << 20, |i| format!("f32 block {i:x}"), |i| {
            for k in 0..(1u64 << 12) {
                trip((i as u64) << 12 | k, false)?;
            }
            Ok(())
        });
        c.count("f32 bit patterns", 1 << 32);
        c.states_add((1 << 32) + p64.len() as u64);
        c.trace((1 << 32) + p64.len() as u64);
    } else {
        c.par(p32.len(), |i| format!("f32 {:08x}", p32[i]), |i| trip(p32[i] as u64, false));
        c.count("f32 bit patterns", p32.len() as u64);
        c.states_add((p32.len() + p64.len()) as u64);
        c.trace((p32.len() + p64.len()) as u64);
    }
    c.step(1);
}

fn check_ser(b: &Bind, m: &Mv, d: &DynamicMessage, o: &SerOpt) -> Result<(), String> {
    let want = ser(&b.s, m, o);
    let got = ser_text(d, o)?;
    let gotv = ser_value(d, o)?;
    if got.is_ok() != gotv.is_ok() {
        return Err(format!("{o:?}: text and Value serializers disagree: {got:?} {gotv:?}"));
    }
    match (want, got) {
        (Err(SErr::Open), _) => Ok(()),
        (Err(SErr::Refuse), Err(_)) => Ok(()),
        (Err(SErr::Refuse), Ok(t)) => Err(format!("{o:?}: has no JSON form but was written as {t}")),
        (Ok(_), Err(e)) => Err(format!("{o:?}: serializing failed: {e}")),
        (Ok(x), Ok(t)) => {
            let j = parse(&t).map_err(|e| format!("{o:?}: the output is not JSON ({e:?}): {t}"))?;
            matches(&x, &j).map_err(|e| format!("{o:?}: {e}\n  text {t}"))?;
            let tv = gotv.unwrap().to_string();
            let j = parse(&tv).map_err(|e| format!("{o:?}: the Value is not JSON ({e:?}): {tv}"))?;
            matches(&x, &j).map_err(|e| format!("{o:?}: as a Value: {e}\n  value {tv}"))
        }
    }
}

pub fn j02(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let u = json_universe(c, &b, true);
    let opts = SerOpt::all();
    c.par(
        u.len(),
        |i| show(&b.s, &u[i]),
        |i| {
            let m = &u[i];
            c.state(m);
            let d = b.to_dyn(m);
            let e = super::wire::explicit(&b, m);
            for o in &opts {
                check_ser(&b, m, &d, o)?;
                let (x, y) = (ser_text(&d, o)?, ser_text(&e, o)?);
                if x != y && !matches!((&x, &y), (Ok(x), Ok(y)) if parse(x).map(|j| sorted(&j)) == parse(y).map(|j| sorted(&j))) {
                    return Err(format!("{o:?}: the same message with defaults set is written otherwise: {x:?} and {y:?}"));
                }
            }
            // the Serialize impl uses the default options
            let t = no_panic("Serialize", || serde_json::to_string(&d).map_err(|e| e.to_string()))?;
            let t2 = ser_text(&d, &opts[0])?;
            if let (Ok(a), Ok(b)) = (&t, &t2) {
                if parse(a).map(|j| sorted(&j)) != parse(b).map(|j| sorted(&j)) {
                    return Err(format!("Serialize gives {a}, the default options give {b}"));
                }
            } else if t.is_ok() != t2.is_ok() {
                return Err("Serialize and the default options disagree".into());
            }
            c.step(33);
            c.trace(16);
            Ok(())
        },
    );
}

fn sorted(j: &J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(sorted).collect()),
        J::Obj(o) => {
            let mut v: Vec<_> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        j => j.clone(),
    }
}

fn has_dup(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().any(has_dup),
        J::Obj(o) => o.iter().enumerate().any(|(i, x)| o[..i].iter().any(|y| y.0 == x.0) || has_dup(&x.1)),
        _ => false,
    }
}

fn check_read(c: &Ctx, b: &Bind, ty: usize, text: &str) -> Result<(), String> {
    let j = parse(text);
    for deny in [true, false] {
        let (v, want) = read(&b.s, ty, text, deny);
        let judge = |how: &str, got: Result<DynamicMessage, String>| -> Result<(), String> {
            match (v, got) {
                (Verdict::Open, Ok(d)) => canon(b, &d).map(|_| ()).map_err(|e| format!("{how} deny={deny}: {e}")),
                (Verdict::Refuse | Verdict::Maybe | Verdict::Open, Err(_)) => Ok(()),
                (Verdict::Sure, Err(e)) => Err(format!("{how} deny={deny}: refused ({e}), it means {}", show(&b.s, &want))),
                (Verdict::Refuse, Ok(d)) => Err(format!("{how} deny={deny}: accepted as {}, must be refused", canon(b, &d).map(|m| show(&b.s, &m)).unwrap_or_default())),
                (Verdict::Sure | Verdict::Maybe, Ok(d)) => {
                    let g = canon(b, &d).map_err(|e| format!("{how} deny={deny}: {e}"))?;
                    if g != want {
                        return Err(format!("{how} deny={deny}: read as {}, it means {}", show(&b.s, &g), show(&b.s, &want)));
                    }
                    Ok(())
                }
            }
        };
        judge("text", de_text(b, ty, text, deny)?)?;
        judge("reader", de_reader(b, ty, text, deny)?)?;
        c.step(2);
        if let Ok(j) = &j {
            if !has_dup(j) {
                if let Ok(val) = serde_json::from_str::<serde_json::Value>(text) {
                    judge("value", de_value(b, ty, val, deny)?)?;
                    c.step(1);
                }
            }
        }
        c.trace(1);
    }
    Ok(())
}

fn literals() -> Vec<String> {
    let mut v: Vec<String> = [
        "null", "true", "false", "0", "-0", "1", "-1", "01", "+1", "1.", ".5", "-", "0.0", "-0.0", "1.0", "1.5", "-1.5", "1e2", "1E+2", "1e-2", "100e-2", "15e-1", "0e5",
        "127", "128", "255", "256", "2147483647", "2147483648", "-2147483648", "-2147483649", "2147483647.0", "2147483648.0", "-2147483648.0", "-2147483649.0", "2147483647.5", "4294967295", "4294967296", "4294967295.0", "4294967296.0", "4294967295.5",
        "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "9007199254740993.0", "9007199254740992.0", "1e18", "1e19", "1e20", "-1e18", "-1e19",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "9223372036854775807.0", "9223372036854775808.0", "-9223372036854775808.0", "9223372036854774784.0", "-9223372036854777856.0",
        "18446744073709551615", "18446744073709551616", "18446744073709551615.0", "18446744073709551616.0", "18446744073709549568.0", "-18446744073709551616", "123456789012345678901234567890", "1.7976931348623157e308", "1.7976931348623159e308", "-1.7976931348623157e308", "1e308", "1e309", "-1e309", "1e400", "1e-400", "5e-324", "2e-324",
        "3.4028235e38", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028236e38", "-3.4028235e38", "-3.5e38", "3.5e38", "1e39", "1e-45", "1e-46", "1.17549435e-38", "0.1", "0.10000000149011612", "16777217", "16777216.5", "33554431",
        "\"\"", "\" \"", "\"0\"", "\"-0\"", "\"1\"", "\"-1\"", "\"+1\"", "\"01\"", "\" 1\"", "\"1 \"", "\"1.0\"", "\"1.5\"", "\"1e2\"", "\"1e-2\"", "\".5\"", "\"1.\"", "\"0x1\"", "\"1_000\"", "\"1,0\"", "\"--1\"", "\"-\"", "\"\\u0031\"", "\"\u{ff11}\"",
        "\"2147483647\"", "\"2147483648\"", "\"-2147483648\"", "\"-2147483649\"", "\"4294967295\"", "\"4294967296\"", "\"9007199254740993\"", "\"9223372036854775807\"", "\"9223372036854775808\"", "\"-9223372036854775808\"", "\"-9223372036854775809\"", "\"18446744073709551615\"", "\"18446744073709551616\"", "\"123456789012345678901234567890\"",
        "\"NaN\"", "\"Infinity\"", "\"-Infinity\"", "\"nan\"", "\"inf\"", "\"-inf\"", "\"infinity\"", "\"+Infinity\"", "\"-NaN\"", "\"INF\"", "NaN", "Infinity", "-Infinity", "\"1e309\"", "\"-1e309\"", "\"1e39\"", "\"1e308\"", "\"3.4028235e38\"", "\"3.5e38\"", "\"1e-46\"", "\"5e-324\"", "\"0.1\"", "\"-0.0\"",
        "\"true\"", "\"false\"", "\"True\"", "True", "TRUE", "\"null\"", "nul", "\"t\"", "\"yes\"",
        "\"a\"", "\"abc\"", "\"YQ==\"", "\"YQ\"", "\"YQ=\"", "\"YWI=\"", "\"YWI\"", "\"YWJj\"", "\"YWJjZA==\"", "\"YR==\"", "\"YWJ=\"", "\"+/+/\"", "\"-_-_\"", "\"+/-_\"", "\"-w==\"", "\"-w\"", "\"+w\"", "\"_w==\"", "\"/w==\"", "\"Y\"", "\"YWJjZ\"", "\"====\"", "\"=\"", "\"Y=Q=\"", "\"YQ==YQ==\"", "\"Y Q\"", "\"YQ\\n==\"", "\"Y*==\"", "\"\u{e9}\"", "\"YQ==\\u0000\"", "\"+/\"", "\"_\"", "\"AAAA_AAA\"", "\"AAAA/AAA\"",
        "\"E3_ZERO\"", "\"E3_ONE\"", "\"E3_NEG\"", "\"E3_MAX\"", "\"E3_MIN\"", "\"E2_ONE\"", "\"E2_TWO\"", "\"E2_NEG\"", "\"e3_one\"", "\"E3_ONE \"", "\"E3_UNKNOWN\"", "\"ONE\"", "7777", "-5", "2", "\"NULL_VALUE\"", "\"null_value\"",
        "[]", "[0]", "[1]", "[null]", "[1,2]", "[[]]", "[[1]]", "[{}]", "[\"a\"]", "[1,null]", "[null,1]", "[true,false]", "[1,]", "[,1]", "[1 2]", "[\"E3_ONE\",\"NOPE\",1]", "[\"NOPE\"]", "[1", "]", "[\"1\",2]", "[1.5]", "[1,\"x\"]", "[{},null]",
        "{}", "{\"a\":1}", "{\"i\":1}", "{\"i\":1,\"s\":\"x\"}", "{\"i\":null}", "{\"i\":1,\"i\":2}", "{\"nope\":1}", "{\"i\":\"1\"}", "{\"i\":{}}", "{\"\":1}", "{\"k\":1}", "{\"k\":null}", "{\"1\":1}", "{\"k\":\"v\"}", "{\"1\":\"v\"}", "{\"i\":1,}", "{i:1}", "{\"i\" 1}", "{\"i\":}", "{", "}", "{\"i\":1,\"nope\":{\"x\":[1,2,{}]}}", "{\"@type\":\"x\"}", "{\"value\":1}", "{\"seconds\":1}", "{\"kind\":1}",
        "\"1970-01-01T00:00:00Z\"", "\"1.5s\"", "\"1s\"", "\"a,b\"", "\"fooBar.baz\"", "\"foo_bar\"",
        "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "\"\\ud83dx\"", "\"\\x41\"", "\"\\/\"", "\"\\\"\\\\\\b\\f\\n\\r\\t\"", "\"\u{1}\"", "\"\n\"", "\"abc", "'a'", "\"\\u12\"", "\"\\u00e9\"", "\"\u{7f}\"", "\"\u{2028}\"",
        "", " ", " 1 ", "1 1", "1,", "// c\n1", "/* */1", "\u{feff}1", "\t1\r\n", "\u{b}1", "\u{a0}1",
    ]
    .map(String::from)
    .to_vec();
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

fn map_keys() -> Vec<&'static str> {
    vec![
        "", "0", "-0", "1", "-1", "+1", "01", " 1", "1 ", "1.0", "1e2", "true", "false", "True", "TRUE", "null", "a", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740993", "\u{e9}", "x\"y", "\n",
    ]
}

/// JSON texts which put the literals into every position of a field.
fn placed(s: &Schema, f: &Field, lits: &[String]) -> Vec<String> {
    let name = quote(&f.json);
    let mut out = vec![];
    if let Some((kf, vf)) = s.map_kv(f) {
        let k = quote(match kf.ty {
            Ty::Bool => "true",
            Ty::String => "k",
            _ => "1",
        });
        for l in lits {
            out.push(format!("{{{name}:{{{k}:{l}}}}}"));
            out.push(format!("{{{name}:{l}}}"));
        }
        let v = sample(s, vf.ty);
        for key in map_keys() {
            out.push(format!("{{{name}:{{{}:{v}}}}}", quote(key)));
            // any two keys, so that equal ones meet
            for key2 in map_keys() {
                out.push(format!("{{{name}:{{{}:{v},{}:{v}}}}}", quote(key), quote(key2)));
            }
        }
        for l in ["1", "true", "null", "{}"] {
            out.push(format!("{{{name}:{{{l}:{v}}}}}"));
        }
    } else if f.card == Card::Rep {
        let v = sample(s, f.ty);
        for l in lits {
            out.push(format!("{{{name}:[{l}]}}"));
            out.push(format!("{{{name}:{l}}}"));
            out.push(format!("{{{name}:[{v},{l},{v}]}}"));
        }
    } else {
        for l in lits {
            out.push(format!("{{{name}:{l}}}"));
        }
    }
    out
}

fn sample(s: &Schema, ty: Ty) -> String {
    match ty {
        Ty::Bool => "true".into(),
        Ty::String | Ty::Bytes => "\"YQ==\"".into(),
        Ty::Enum(e) => {
            if s.enums[e].name == "google.protobuf.NullValue" {
                "null".into()
            } else {
                quote(&s.enums[e].values[1.min(s.enums[e].values.len() - 1)].0)
            }
        }
        Ty::Msg(m) | Ty::Group(m) => match wkt(&s.msgs[m].name) {
            None => "{}".into(),
            Some("Timestamp") => "\"1970-01-01T00:00:01Z\"".into(),
            Some("Duration") => "\"1s\"".into(),
            Some("FieldMask") => "\"a\"".into(),
            Some("ListValue") => "[1]".into(),
            Some("Any") => "{\"@type\":\"x/google.protobuf.Empty\",\"value\":{}}".into(),
            Some("Struct" | "Empty") => "{}".into(),
            Some("BoolValue") => "true".into(),
            Some("StringValue" | "BytesValue") => "\"YQ==\"".into(),
            Some(_) => "1".into(),
        },
        _ => "1".into(),
    }
}

fn spellings(s: &Schema, ty: usize) -> Vec<String> {
    let mut out = vec![];
    for f in s.msgs[ty].all() {
        let v = match (s.map_kv(f), f.card) {
            (Some((kf, vf)), _) => format!(
                "{{{}:{}}}",
                quote(match kf.ty {
                    Ty::Bool => "true",
                    Ty::String => "k",
                    _ => "1",
                }),
                sample(s, vf.ty)
            ),
            (_, Card::Rep) => format!("[{}]", sample(s, f.ty)),
            _ => sample(s, f.ty),
        };
        let esc: String = f.json.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
        let first_up: String = f.json.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect();
        for n in [
            quote(&f.json), quote(&f.name), quote(&f.full), quote(&format!("[{}]", f.full)), quote(&format!("[{}]", f.name)), format!("\"{esc}\""), quote(&first_up), quote(&f.json.to_lowercase()),
            quote(&f.json.to_uppercase()), quote(&format!("{} ", f.json)), quote(&crate::schema::ref_json_name(&f.name)), f.num.to_string(), quote(&f.num.to_string()), quote(&format!("[.{}]", f.full)), quote(&format!("_{}", f.name)), f.json.clone(),
        ] {
            out.push(format!("{{{n}:{v}}}"));
            out.push(format!("{{ {n} :\n{v}\t}}"));
        }
        // twice, under both names
        out.push(format!("{{{}:{v},{}:{v}}}", quote(&f.json), quote(&f.name)));
    }
    out
}

/// Members for object sequences.
fn members(s: &Schema, ty: usize, max: usize) -> Vec<String> {
    let mut out = vec!["\"nope\":1".to_owned(), "\"@type\":\"x\"".into()];
    for f in s.msgs[ty].all() {
        let n = quote(&f.json);
        match (s.map_kv(f), f.card) {
            (Some(_), _) => {
                out.push(format!("{n}:{{}}"));
                out.push(format!("{n}:null"));
            }
            (_, Card::Rep) => {
                out.push(format!("{n}:[{}]", sample(s, f.ty)));
                out.push(format!("{n}:[]"));
            }
            _ => {
                let z = match f.ty {
                    Ty::Msg(_) | Ty::Group(_) => "null".to_owned(),
                    Ty::Bool => "false".into(),
                    Ty::String | Ty::Bytes => "\"\"".into(),
                    _ => "0".into(),
                };
                out.push(format!("{n}:{}", sample(s, f.ty)));
                out.push(format!("{n}:{z}"));
                if matches!(f.ty, Ty::Enum(_)) {
                    out.push(format!("{n}:\"NOPE\""));
                }
                if f.oneof.is_some() {
                    out.push(format!("{n}:null"));
                }
            }
        }
    }
    if out.len() > max {
        out.truncate(max);
    }
    out
}

pub fn j03(c: &Ctx) {
    // odd names first: every key, and pairs of keys
    let b = odd_names();
    let n = ODD_NAMES.len();
    c.par(
        b.s.msgs.len() * n * (n + 1),
        |i| format!("{:?}, keys {} {}", b.s.msgs[i / (n * (n + 1))].all().map(|f| (&f.name, &f.json)).collect::<Vec<_>>(), i % n, i / n % (n + 1)),
        |i| {
            let (k, l) = (i % n, i / n % (n + 1));
            // in the order which a map of keys has too
            if l < n && ODD_NAMES[k] > ODD_NAMES[l] {
                return Ok(());
            }
            let key = |k: usize| serde_json::to_string(ODD_NAMES[k]).unwrap();
            let text = if l == n { format!("{{{}:7}}", key(k)) } else { format!("{{{}:7,{}:8}}", key(k), key(l)) };
            check_read(c, &b, i / (n * (n + 1)), &text)
        },
    );
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    let lits = literals();
    c.param("literals", lits.len());
    // 1. every field x position x literal
    let mut jobs: Vec<(usize, String)> = vec![];
    for t in TYPES {
        let ty = s.msg(t);
        for f in s.msgs[ty].all() {
            jobs.extend(placed(s, f, &lits).into_iter().map(|x| (ty, x)));
        }
        jobs.extend(spellings(s, ty).into_iter().map(|x| (ty, x)));
        jobs.extend(lits.iter().map(|l| (ty, l.clone())));
    }
    // wrappers and other well-known types as roots
    for ty in 0..s.msgs.len() {
        if wkt(&s.msgs[ty].name).is_some() {
            jobs.extend(lits.iter().map(|l| (ty, l.clone())));
        }
    }
    c.count("literal placements", jobs.len() as u64);
    // 2. sequences of members
    let n0 = jobs.len();
    for (t, max, len) in [("t3.On", 40, 3), ("t3.Fo", 30, 3), ("t2.Fo", 30, 3), ("t3.Leaf", 12, c.pick(4, 5)), ("t3.By", 24, 3), ("t3.Na", 24, c.pick(2, 3)), ("t2.Gr", 16, 3), ("t3.Op", 20, 3), ("t3.Wr", 20, c.pick(2, 3)), ("t2.De", 16, c.pick(2, 3))] {
        let ty = s.msg(t);
        let ms = members(s, ty, max);
        let mut layer: Vec<String> = vec![String::new()];
        for k in 0..len {
            let mut next = vec![];
            for p in &layer {
                for m in &ms {
                    next.push(if k == 0 { m.clone() } else { format!("{p},{m}") });
                }
            }
            jobs.extend(next.iter().map(|x| (ty, format!("{{{x}}}"))));
            layer = next;
        }
    }
    c.count("member sequences", (jobs.len() - n0) as u64);
    // 3. every edit of one character of valid texts
    let n1 = jobs.len();
    let seeds: Vec<(&str, &str)> = vec![
        ("t3.Sc", r#"{"fInt32":-12, "fString":"a\u00e9\n","fBool":true,"fDouble":1.5e3,"fBytes":"YWI=","fEnum":"E3_ONE","fInt64":"7","fMsg":{"i":1}}"#),
        ("t3.Mv", r#"{"vInt32":{"1":2,"-3":4},"vBool":{"5":true},"vString":{"a":"b"}}"#),
        ("t3.Rp", r#"{"fInt32":[1,2,-3], "fDouble":["NaN",0.5,"Infinity"],"fMsg":[{},{"s":"x"}]}"#),
        ("t3.On", r#"{"before":null,"oStr":"x","pInt":5}"#),
        ("t2.Ex", r#"{"base":1,"[t2.x_int32]":5,"[t2.Ex.nested_ext]":6,"[t2.x_rep]":[1]}"#),
        ("t3.Wk", r#"{"val":{"a":[1,null,{}]},"wInt64":"3","nul":null,"wBool":false}"#),
        ("t3.Wk", r#"{"any":{"@type":"a/t3.Leaf","i":1},"ts":"2000-02-29T23:59:59.5+01:00","dur":"-1.5s","mask":"a,bC"}"#),
    ];
    let alpha: Vec<char> = "\"\\{}[],: \t01-+.eEntfau/_\u{0}\u{e9}".chars().collect();
    for (t, x) in &seeds {
        let ty = s.msg(t);
        let cs: Vec<char> = x.chars().collect();
        for i in 0..=cs.len() {
            let pre: String = cs[..i].iter().collect();
            if i < cs.len() {
                let rest: String = cs[i + 1..].iter().collect();
                jobs.push((ty, format!("{pre}{rest}")));
                jobs.push((ty, format!("{pre}{}{}{rest}", cs[i], cs[i])));
                if i + 1 < cs.len() {
                    let r2: String = cs[i + 2..].iter().collect();
                    jobs.push((ty, format!("{pre}{}{}{r2}", cs[i + 1], cs[i])));
                }
            }
            jobs.push((ty, pre.clone()));
            for a in &alpha {
                let rest: String = cs[i..].iter().collect();
                jobs.push((ty, format!("{pre}{a}{rest}")));
                if i < cs.len() {
                    let rest: String = cs[i + 1..].iter().collect();
                    jobs.push((ty, format!("{pre}{a}{rest}")));
                    if c.thorough && i + 1 < cs.len() {
                        for a2 in &alpha {
                            let rest: String = cs[i + 2..].iter().collect();
                            jobs.push((ty, format!("{pre}{a}{a2}{rest}")));
                        }
                    }
                }
            }
        }
    }
    c.count("edited texts", (jobs.len() - n1) as u64);
    c.sample(|| jobs[jobs.len() / 2].1.clone());
    c.sample(|| jobs[n0 + 5000].1.clone());
    c.par(
        jobs.len(),
        |i| format!("{} {}", s.msgs[jobs[i].0].name, jobs[i].1),
        |i| {
            c.state(&jobs[i]);
            check_read(c, &b, jobs[i].0, &jobs[i].1)
        },
    );
    // 4. short token sequences
    let toks = ["{", "}", "[", "]", ",", ":", "\"i\"", "\"s\"", "1", "null", "\"x\"", "\"r\"", "\"m\"", " "];
    let ty = s.msg("t3.By");
    let len = c.pick(5, 7);
    c.param("token sequences over t3.By up to length", len);
    let mut total = 0usize;
    for l in 0..=len {
        total += toks.len().pow(l as u32);
    }
    c.par(
        total,
        |i| nth(&toks, i),
        |i| {
            c.states_add(1);
            let t = nth(&toks, i);
            let (v, want) = read(s, ty, &t, true);
            let got = de_text(&b, ty, &t, true)?;
            c.trace(1);
            match (v, got) {
                (Verdict::Sure, Ok(d)) if canon(&b, &d)? == want => Ok(()),
                (Verdict::Refuse, Err(_)) | (Verdict::Maybe, Err(_)) | (Verdict::Open, _) => Ok(()),
                (Verdict::Maybe, Ok(d)) if canon(&b, &d)? == want => Ok(()),
                (v, g) => Err(format!("reference {v:?}, implementation {:?}", g.map(|d| canon(&b, &d).map(|m| show(s, &m))))),
            }
        },
    );
}

/// The i-th string over tokens, ordered by length.
pub fn nth(toks: &[&str], mut i: usize) -> String {
    let n = toks.len();
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= n;
        len += 1;
    }
    let mut out = String::new();
    for _ in 0..len {
        out.push_str(toks[i % n]);
        i /= n;
    }
    out
}

pub fn edits(t: &str, alpha: &[char]) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    for i in 0..=cs.len() {
        let pre: String = cs[..i].iter().collect();
        for a in alpha {
            let rest: String = cs[i..].iter().collect();
            out.push(format!("{pre}{a}{rest}"));
            if i < cs.len() {
                let rest: String = cs[i + 1..].iter().collect();
                out.push(format!("{pre}{a}{rest}"));
            }
        }
        if i < cs.len() {
            let rest: String = cs[i + 1..].iter().collect();
            out.push(format!("{pre}{rest}"));
        }
    }
    out
}

pub fn j04(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    let g = |n: &str| s.msg(&format!("google.protobuf.{n}"));
    // ---- writing
    let mut vals: Vec<Mv> = vec![];
    let sn = |ty: usize, a: i64, n: i32| {
        let mut m = Mv::new(ty);
        if a != 0 {
            m.f.insert(1, V::I64(a));
        }
        if n != 0 {
            m.f.insert(2, V::I32(n));
        }
        m
    };
    let nanos = [0, 1, 9, 10, 999, 1000, 1001, 999_000, 1_000_000, 1_000_001, 100_000_000, 120_000_000, 123_456_789, 500_000_000, 999_000_000, 999_999_000, 999_999_999];
    // timestamps: first and last second of days around every month boundary of chosen years
    let years: Vec<i64> = if c.thorough { (1..=9999).collect() } else { (1..=9999).filter(|y| y % 100 < 5 || *y % 400 == 0 || (1960..2040).contains(y) || *y > 9990 || *y < 10).collect() };
    for y in &years {
        for m in 1..=12u32 {
            for d in [1, 2, 28, 29, 30, 31] {
                if d > json::month_len(*y, m) {
                    continue;
                }
                let day = json::days_of(*y, m, d) * 86400;
                vals.push(sn(g("Timestamp"), day, 0));
                vals.push(sn(g("Timestamp"), day + 86399, 999_999_999));
            }
        }
    }
    for n in nanos.iter().chain(&[-1, 1_000_000_000, i32::MAX, i32::MIN]) {
        for (a, bb) in uni::timestamps() {
            let _ = bb;
            vals.push(sn(g("Timestamp"), a, *n));
        }
        for a in [-62135596801i64, -62135596802, 253402300800, 253402300801, i64::MIN, i64::MAX, i64::MIN + 1] {
            vals.push(sn(g("Timestamp"), a, *n));
        }
        for a in [0i64, 1, 59, 3600, 315_576_000_000, 315_576_000_001, 315_575_999_999, 1 << 40, i64::MAX, i64::MIN, 1_000_000_000_000] {
            for (x, y) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                vals.push(sn(g("Duration"), a.wrapping_mul(x), n.wrapping_mul(y)));
            }
        }
    }
    // field masks: all short paths
    let chars = ["a", "b", "_", ".", "A", "1"];
    let mut total = 0;
    for l in 0..=c.pick(5, 6) {
        total += chars.len().pow(l);
    }
    let mask = |ps: Vec<String>| {
        let mut m = Mv::new(g("FieldMask"));
        if !ps.is_empty() {
            m.f.insert(1, V::L(ps.into_iter().map(V::S).collect()));
        }
        m
    };
    for i in 0..total {
        vals.push(mask(vec![nth(&chars, i)]));
    }
    for a in ["a", "a_b", "ab.cd_e", "A", "_a", "a_", "a__b", "", "a,b", "\u{e9}", "a_\u{e9}", "a-b"] {
        for bb in ["x", "y_z", "", "B", "a,b"] {
            vals.push(mask(vec![a.into(), bb.into()]));
            vals.push(mask(vec![bb.into(), a.into(), "q".into()]));
        }
    }
    // values: numbers, kinds, nesting
    for v in uni::values(s, 2) {
        vals.push(v);
    }
    for x in uni::f64s() {
        vals.push(Mv::new(g("Value")).with(2, V::F64(x)));
    }
    vals.push(Mv::new(g("Value")));
    vals.push(Mv::new(g("Value")).with(6, V::M(Box::new(Mv::new(g("ListValue")).with(1, V::L(vec![V::M(Box::new(Mv::new(g("Value")).with(2, V::F64(f64::NAN.to_bits()))))]))))));
    // wrappers
    let mut u = Uni::new(s);
    for w in ["DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue", "Empty", "Struct", "ListValue"] {
        for v in u.alpha(Ty::Msg(g(w)), Lvl::Full) {
            let V::M(m) = v else { unreachable!() };
            vals.push(*m);
        }
    }
    // Any: every type and payload, good and bad
    let mut anys = vec![];
    let mk = |url: &str, bytes: Vec<u8>| {
        let mut m = Mv::new(g("Any"));
        if !url.is_empty() {
            m.f.insert(1, V::S(url.into()));
        }
        if !bytes.is_empty() {
            m.f.insert(2, V::Y(bytes));
        }
        m
    };
    for v in vals.iter().step_by(c.pick(37, 7)) {
        anys.push(mk(&format!("type.googleapis.com/{}", s.msgs[v.ty].name), crate::wire::enc(s, v, &Default::default())));
    }
    for t in TYPES {
        let ty = s.msg(t);
        for v in u.singles(ty).into_iter().step_by(c.pick(5, 1)) {
            anys.push(mk(&format!("x/{t}"), crate::wire::enc(s, &v, &Default::default())));
        }
    }
    for url in ["", "t3.Leaf", "/t3.Leaf", "x/t3.Leaf", "x/y/t3.Leaf", "x/", "/", "x/t3.Nope", "x/.t3.Leaf", "x/t3.E3", "x/t3", "x/google.protobuf.Any", "x/google.protobuf.Empty", "x/google.protobuf.Duration", "x/t3.Mv.VInt32Entry", "x/t2.Ex", "x t/t3.Leaf", "\u{e9}/t3.Leaf"] {
        for bytes in [vec![], vec![8, 1], vec![8], vec![0x0a, 1, b'a'], vec![0xff], vec![0x80, 0x20, 1], vec![8, 0x80, 0x80, 0x80, 0x80, 0x80, 0x20]] {
            anys.push(mk(url, bytes));
        }
    }
    let inner: Vec<Mv> = anys.iter().step_by(c.pick(50, 10)).cloned().collect();
    for a in &inner {
        anys.push(mk("x/google.protobuf.Any", crate::wire::enc(s, a, &Default::default())));
        anys.push(mk("x/t3.Wk", crate::wire::enc(s, &Mv::new(s.msg("t3.Wk")).with(1, V::M(Box::new(a.clone()))), &Default::default())));
    }
    vals.extend(anys);
    for v in &mut vals {
        v.normalize(s);
    }
    c.count("values written", vals.len() as u64);
    let opts = SerOpt::all();
    // hosts: the root, a field, a list element, a map value, a oneof member, an Any
    let wk = s.msg("t3.Wk");
    let wr = s.msg("t3.Wr");
    let hosts = |v: &Mv| -> Vec<Mv> {
        let mut out = vec![v.clone()];
        for f in s.msgs[wk].all() {
            if f.ty == Ty::Msg(v.ty) {
                out.push(Mv::new(wk).with(f.num, V::M(Box::new(v.clone()))));
            }
        }
        for f in s.msgs[wr].all() {
            if let Some((kf, vf)) = s.map_kv(f) {
                if vf.ty == Ty::Msg(v.ty) {
                    out.push(Mv::new(wr).with(f.num, V::Map(BTreeMap::from([(s.zero(kf.ty), V::M(Box::new(v.clone())))]))));
                }
            } else if f.ty == Ty::Msg(v.ty) {
                let x = V::M(Box::new(v.clone()));
                out.push(Mv::new(wr).with(f.num, if f.card == Card::Rep { V::L(vec![x.clone(), x]) } else { x }));
            }
        }
        out.push(mk(&format!("h/{}", s.msgs[v.ty].name), crate::wire::enc(s, v, &Default::default())));
        out
    };
    c.par(
        vals.len(),
        |i| show(s, &vals[i]),
        |i| {
            let hs = hosts(&vals[i]);
            let n = if i % c.pick(16, 1) == 0 || vals[i].ty != g("Timestamp") { hs.len() } else { 1 };
            for (k, h) in hs[..n].iter().enumerate() {
                c.state(h);
                let d = b.to_dyn(h);
                for o in if k == 0 { &opts[..] } else { &opts[..1] } {
                    check_ser(&b, h, &d, o).map_err(|e| format!("in {}: {e}", show(s, h)))?;
                    c.trace(1);
                    if ser(s, h, o).is_ok() && (k == 0 || i % 4 == 0) {
                        let t = ser_text(&d, o)??;
                        let back = de_text(&b, h.ty, &t, true)?.map_err(|e| format!("reading back {t}: {e}"))?;
                        let mut want = h.clone();
                        want.canon();
                        json::known_any(s, &mut want);
                        let got = canon(&b, &back)?;
                        if got != want {
                            return Err(format!("{t} reads back as {}", show(s, &got)));
                        }
                        c.step(2);
                    }
                }
            }
            Ok(())
        },
    );
    // ---- reading
    let mut jobs: Vec<(usize, String)> = vec![];
    let q = |t: &str| quote(t);
    // timestamps: products of components, and edits
    let mut ts: Vec<String> = vec![];
    for y in ["0000", "0001", "0004", "0100", "0400", "1582", "1900", "1970", "1999", "2000", "2023", "2024", "2100", "9999"] {
        for mo in ["00", "01", "02", "04", "11", "12", "13"] {
            for d in ["00", "01", "28", "29", "30", "31", "32"] {
                for tail in ["T00:00:00Z", "T23:59:59Z", "T00:00:00+00:01", "T23:59:59-00:01", "T12:30:15.25+05:30"] {
                    ts.push(format!("{y}-{mo}-{d}{tail}"));
                }
            }
        }
    }
    for h in ["00", "01", "12", "23", "24", "99", "1", "-1"] {
        for mi in ["00", "30", "59", "60", "99"] {
            for se in ["00", "59", "60", "61", "99"] {
                for f in ["", ".", ".0", ".1", ".001", ".000000001", ".999999999", ".1234567891", ".0000000000", ",5", ".5.5", ".x"] {
                    for z in ["Z", "z", "", "+00:00", "-00:00", "+23:59", "-23:59", "+24:00", "+00:60", "+1:00", "+0100", "+01", "+01:0", "-12:30", "Z ", " Z", "+01:00Z", "UTC"] {
                        ts.push(format!("2001-02-03T{h}:{mi}:{se}{f}{z}"));
                    }
                }
            }
        }
    }
    let alpha: Vec<char> = "0159-+:.TtZz \u{e9}".chars().collect();
    for base in ["2000-02-29T23:59:59.999999999+01:00", "1969-12-31T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2015-05-21T17:50:12.500003Z"] {
        let e1 = edits(base, &alpha);
        if c.thorough {
            for e in &e1 {
                ts.extend(edits(e, &alpha));
            }
        }
        ts.extend(e1);
    }
    c.count("timestamp texts", ts.len() as u64);
    // durations: all short strings
    let dt = ["-", "0", "1", "9", ".", "s", "+"];
    let mut total = 0;
    for l in 0..=c.pick(6, 8) {
        total += dt.len().pow(l);
    }
    let mut ds: Vec<String> = vec![];
    for i in 0..total {
        ds.push(nth(&dt, i));
    }
    for i in ["315576000000", "315576000001", "315575999999", "9223372036854775807", "9223372036854775808", "99999999999999999999", "000000000000000000001", "12", "0"] {
        for sg in ["", "-", "+", "--"] {
            for f in ["", ".", ".0", ".1", ".999999999", ".000000001", ".0000000001", ".9999999999", ".1e2"] {
                for e in ["s", "S", "", " s", "ss", "ms", "s "] {
                    ds.push(format!("{sg}{i}{f}{e}"));
                }
            }
        }
    }
    for base in ["-3.000000001s", "12.5s"] {
        for e in edits(base, &"0-.s e\u{e9}".chars().collect::<Vec<_>>()) {
            ds.extend(edits(&e, &"0-.s e\u{e9}".chars().collect::<Vec<_>>()));
            ds.push(e);
        }
    }
    c.count("duration texts", ds.len() as u64);
    let ft = ["a", "B", "_", ".", ",", "1", "b"];
    let mut fs: Vec<String> = vec![];
    let mut total = 0;
    for l in 0..=c.pick(5, 7) {
        total += ft.len().pow(l);
    }
    for i in 0..total {
        fs.push(nth(&ft, i));
    }
    fs.extend(["fooBar", "fooBar.bazQux,q", "foo-bar", " a", "a ", "a, b", "\u{e9}", "a\u{c9}", "FooBar", "a.B", "aBC"].map(String::from));
    c.count("field mask texts", fs.len() as u64);
    let places = |ty: usize, lit: &str| -> Vec<(usize, String)> {
        let mut out = vec![(ty, lit.to_owned())];
        for h in [wk, wr] {
            for f in s.msgs[h].all() {
                if let Some((kf, vf)) = s.map_kv(f) {
                    if vf.ty == Ty::Msg(ty) {
                        let k = if kf.ty == Ty::Bool { "true" } else { "1" };
                        out.push((h, format!("{{{}:{{\"{k}\":{lit}}}}}", quote(&f.json))));
                    }
                } else if f.ty == Ty::Msg(ty) {
                    out.push((h, if f.card == Card::Rep { format!("{{{}:[{lit},{lit}]}}", quote(&f.json)) } else { format!("{{{}:{lit}}}", quote(&f.json)) }));
                }
            }
        }
        let n = &s.msgs[ty].name;
        out.push((g("Any"), format!("{{\"@type\":\"x/{n}\",\"value\":{lit}}}")));
        out.push((g("Any"), format!("{{\"value\":{lit},\"@type\":\"x/{n}\"}}")));
        out
    };
    for (k, (ty, list)) in [(g("Timestamp"), &ts), (g("Duration"), &ds), (g("FieldMask"), &fs)].into_iter().enumerate() {
        let _ = k;
        for (i, t) in list.iter().enumerate() {
            if i % c.pick(20, 4) == 0 {
                jobs.extend(places(ty, &q(t)));
            } else {
                jobs.push((ty, q(t)));
            }
        }
    }
    let lits = literals();
    for ty in 0..s.msgs.len() {
        if wkt(&s.msgs[ty].name).is_some() {
            for l in &lits {
                jobs.extend(places(ty, l));
            }
        }
    }
    // Value, Struct and ListValue: all short token sequences
    let vt = ["{", "}", "[", "]", ",", "\"k\":", "1", "null", "\"s\"", "true", "-0.5", "1e400"];
    let mut total = 0;
    for l in 0..=c.pick(4, 6) {
        total += vt.len().pow(l);
    }
    for i in 0..total {
        for t in ["Value", "Struct", "ListValue"] {
            jobs.push((g(t), nth(&vt, i)));
        }
    }
    for t in ["Value", "Struct", "ListValue"] {
        for x in ["{\"a\":1,\"a\":2}", "{\"a\":{\"b\":[{},[],\"\",false,-1.5e-7]}}", "[[[[[[]]]]]]", "9007199254740993", "18446744073709551615", "-9223372036854775808", "18446744073709551616", "1e308", "1e309", "-0", "{\"null\":null}", "[null,null]", "{\"\":\"\"}"] {
            jobs.extend(places(g(t), x));
        }
    }
    // Any: sequences of members
    let am: Vec<String> = [
        "\"@type\":\"x/t3.Leaf\"", "\"@type\":\"x/google.protobuf.Duration\"", "\"@type\":\"x/google.protobuf.Value\"", "\"@type\":\"x/google.protobuf.Any\"", "\"@type\":\"t3.Leaf\"", "\"@type\":\"x/t3.Nope\"", "\"@type\":1", "\"@type\":null", "\"@type\":\"x/t3.On\"", "\"@type\":\"x/google.protobuf.Empty\"", "\"@type\":\"x/t2.Ex\"", "\"@type\":\"x/google.protobuf.Struct\"",
        "\"value\":\"1s\"", "\"value\":null", "\"value\":{}", "\"value\":{\"@type\":\"x/t3.Leaf\",\"i\":4}", "\"value\":5", "\"i\":1", "\"s\":\"y\"", "\"nope\":[1,{\"a\":null}]", "\"i\":\"2\"", "\"i\":null", "\"oInt\":1", "\"oStr\":\"z\"", "\"oMsg\":{\"i\":3}", "\"pMsg\":{}", "\"[t2.x_int32]\":5", "\"base\":9007199254740993", "\"oDouble\":\"NaN\"", "\"oU64\":18446744073709551615", "\"oBytes\":\"-_==\"", "\"before\":-1",
    ]
    .map(String::from)
    .to_vec();
    for x in &am {
        jobs.push((g("Any"), format!("{{{x}}}")));
        for y in &am {
            jobs.push((g("Any"), format!("{{{x},{y}}}")));
            for z in am.iter() {
                jobs.push((g("Any"), format!("{{{x},{y},{z}}}")));
                if c.thorough {
                    for w in am.iter() {
                        jobs.push((g("Any"), format!("{{{x},{y},{z},{w}}}")));
                    }
                }
            }
        }
    }
    // longer sequences over fewer members
    let few = ["\"@type\":\"x/t3.Leaf\"", "\"@type\":\"x/google.protobuf.Duration\"", "\"value\":\"1s\"", "\"nope\":[1,{\"a\":null}]", "\"more\":\"\"", "\"i\":1", "\"s\":\"y\""];
    for n in 4..=c.pick(5usize, 6) {
        for k in 0..few.len().pow(n as u32) {
            let mut k = k;
            let l: Vec<&str> = (0..n)
                .map(|_| {
                    let x = few[k % few.len()];
                    k /= few.len();
                    x
                })
                .collect();
            if l.iter().filter(|x| x.starts_with("\"@")).count() == 1 {
                jobs.push((g("Any"), format!("{{{}}}", l.join(","))));
            }
        }
    }
    for t in TYPES {
        for v in u.singles(s.msg(t)).into_iter().step_by(c.pick(4, 1)) {
            // written by the reference in three orders
            if let Ok(x) = ser(s, &v, &opts[0]) {
                let body = text_of(&x);
                let body = &body[1..body.len() - 1];
                let ty = format!("\"@type\":\"h/{t}\"");
                if body.is_empty() {
                    jobs.push((g("Any"), format!("{{{ty}}}")));
                } else {
                    jobs.push((g("Any"), format!("{{{ty},{body}}}")));
                    jobs.push((g("Any"), format!("{{{body},{ty}}}")));
                    jobs.push((wk, format!("{{\"any\":{{{body},{ty}}}}}")));
                }
            }
        }
    }
    c.count("texts read", jobs.len() as u64);
    c.sample(|| jobs[jobs.len() / 3].1.clone());
    c.sample(|| jobs[jobs.len() - 7].1.clone());
    c.par(
        jobs.len(),
        |i| format!("{} {}", s.msgs[jobs[i].0].name, jobs[i].1),
        |i| {
            c.states_add(1);
            check_read(c, &b, jobs[i].0, &jobs[i].1)
        },
    );
}

fn text_of(x: &json::X) -> String {
    use json::X;
    match x {
        X::Null => "null".into(),
        X::Bool(b) => b.to_string(),
        X::Int(i) => i.to_string(),
        X::F64(b) => format!("{:e}", f64::from_bits(*b)),
        X::F32(b) => format!("{:e}", f32::from_bits(*b)),
        X::Str(s) => quote(s),
        X::Arr(a) => format!("[{}]", a.iter().map(text_of).collect::<Vec<_>>().join(",")),
        X::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v, _)| format!("{}:{}", quote(k), text_of(v))).collect::<Vec<_>>().join(",")),
    }
}
