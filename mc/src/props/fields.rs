//! F01: the field accessors as a state machine. F02: which values a field accepts.
use crate::report::{hash, no_panic, Ctx};
use crate::schema::{Card, Field, Ty, ALL_BIN};
use crate::value::{from_key, is_zero, show, Bind, Mv, Unk, FX, UV, V};
use crate::wire::{self, Enc};
use prost::Message;
use prost_reflect::{DynamicMessage, MapKey, ReflectMessage, SetFieldError, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

#[derive(Clone, Debug)]
enum Op {
    Set(u32, V),
    TrySet(u32, V),
    Clear(u32),
    Take(u32),
    /// get_mut without changing the value
    Touch(u32),
    /// get_mut, then assign
    Assign(u32, V),
    Push(u32, V),
    Insert(u32, V, V),
    Remove(u32, V),
    /// get_mut on a message field, then set a field in it
    Nested(u32, u32, V),
    NestedClear(u32, u32),
    TakeFields,
    TakeExtensions,
    TakeUnknown,
    /// fields_mut: assign the zero value to every field
    ZeroAll,
    ClearAll,
    Merge(Vec<u8>),
    Reencode,
}

/// The model: what is stored, including zero values.
fn store(b: &Bind, m: &mut Mv, n: u32, v: V) {
    let md = &b.s.msgs[m.ty];
    let f = md.get(n).unwrap();
    if let Some(o) = f.oneof {
        for g in &md.oneofs[o].fields {
            if *g != n {
                m.f.remove(g);
            }
        }
    }
    m.f.insert(n, v);
}
fn entry<'a>(b: &Bind, m: &'a mut Mv, n: u32) -> &'a mut V {
    if !m.f.contains_key(&n) {
        let d = b.s.default_of(b.s.msgs[m.ty].get(n).unwrap());
        store(b, m, n, d);
    }
    m.f.get_mut(&n).unwrap()
}
fn has(b: &Bind, m: &Mv, n: u32) -> bool {
    let f = b.s.msgs[m.ty].get(n).unwrap();
    m.f.get(&n).is_some_and(|v| f.presence || !is_zero(v))
}
fn zero_of(b: &Bind, f: &Field) -> V {
    if b.s.map_kv(f).is_some() {
        V::Map(BTreeMap::new())
    } else if f.card == Card::Rep {
        V::L(vec![])
    } else {
        b.s.zero(f.ty)
    }
}

fn model(b: &Bind, m: &Mv, op: &Op) -> Mv {
    let mut m = m.clone();
    match op {
        Op::Set(n, v) | Op::TrySet(n, v) | Op::Assign(n, v) => store(b, &mut m, *n, v.clone()),
        Op::Clear(n) | Op::Take(n) => {
            m.f.remove(n);
        }
        Op::Touch(n) => {
            entry(b, &mut m, *n);
        }
        Op::Push(n, v) => {
            if let V::L(l) = entry(b, &mut m, *n) {
                l.push(v.clone());
            }
        }
        Op::Insert(n, k, v) => {
            if let V::Map(x) = entry(b, &mut m, *n) {
                x.insert(k.clone(), v.clone());
            }
        }
        Op::Remove(n, k) => {
            if let V::Map(x) = entry(b, &mut m, *n) {
                x.remove(k);
            }
        }
        Op::Nested(n, k, v) => {
            if let V::M(x) = entry(b, &mut m, *n) {
                store(b, x, *k, v.clone());
            }
        }
        Op::NestedClear(n, k) => {
            if let V::M(x) = entry(b, &mut m, *n) {
                x.f.remove(k);
            }
        }
        Op::TakeFields => {
            let gone: Vec<u32> = m.f.keys().copied().filter(|n| has(b, &m, *n) && !b.s.msgs[m.ty].get(*n).unwrap().ext).collect();
            for n in gone {
                m.f.remove(&n);
            }
        }
        Op::TakeExtensions => {
            let gone: Vec<u32> = m.f.keys().copied().filter(|n| has(b, &m, *n) && b.s.msgs[m.ty].get(*n).unwrap().ext).collect();
            for n in gone {
                m.f.remove(&n);
            }
        }
        Op::TakeUnknown => m.unk.clear(),
        Op::ZeroAll => {
            let ns: Vec<u32> = m.f.keys().copied().filter(|n| has(b, &m, *n)).collect();
            for n in ns {
                let z = zero_of(b, b.s.msgs[m.ty].get(n).unwrap());
                m.f.insert(n, z);
            }
        }
        Op::ClearAll => m = Mv::new(m.ty),
        Op::Merge(x) => {
            wire::dec_into(&b.s, &mut m, x).expect("harness: merge op");
            m.unk.sort_by_key(|u| u.num);
        }
        Op::Reencode => m.normalize(&b.s),
    }
    m
}

/// Applies the operation to the real message, checking what it returns.
fn real(b: &Bind, before: &Mv, d: &mut DynamicMessage, op: &Op, how: usize) -> Result<(), String> {
    let ty = before.ty;
    let x = |n: u32| &b.fd[ty][&n];
    let get_mut = |d: &mut DynamicMessage, n: u32| -> *mut Value {
        match x(n) {
            FX::X(e) => d.get_extension_mut(e) as *mut _,
            FX::F(f) => match how {
                0 => d.get_field_mut(f) as *mut _,
                1 => d.get_field_by_number_mut(n).expect("get_field_by_number_mut yields None") as *mut _,
                _ => d.get_field_by_name_mut(f.name()).expect("get_field_by_name_mut yields None") as *mut _,
            },
        }
    };
    // the value handed out must be what the model says is there
    let current = |d: &mut DynamicMessage, n: u32| -> Result<*mut Value, String> {
        let p = get_mut(d, n);
        let f = b.s.msgs[ty].get(n).unwrap();
        let got = b.from_value(unsafe { &*p }, f)?;
        let mut m = before.clone();
        let want = entry(b, &mut m, n).clone();
        if norm(b, got.clone()) != norm(b, want.clone()) {
            return Err(format!("get_mut({}) is {got:?}, should be {want:?}", f.name));
        }
        Ok(p)
    };
    match op {
        Op::Set(n, v) => {
            let v = b.to_value(v);
            match x(*n) {
                FX::X(e) => d.set_extension(e, v),
                FX::F(f) => match how {
                    0 => d.set_field(f, v),
                    1 => d.set_field_by_number(*n, v),
                    _ => d.set_field_by_name(f.name(), v),
                },
            }
        }
        Op::TrySet(n, v) => {
            let v = b.to_value(v);
            match x(*n) {
                FX::X(e) => d.set_extension(e, v),
                FX::F(f) => match how {
                    0 => d.try_set_field(f, v),
                    1 => d.try_set_field_by_number(*n, v),
                    _ => d.try_set_field_by_name(f.name(), v),
                }
                .map_err(|e| format!("try_set refused a valid value: {e:?}"))?,
            }
        }
        Op::Clear(n) => match x(*n) {
            FX::X(e) => d.clear_extension(e),
            FX::F(f) => match how {
                0 => d.clear_field(f),
                1 => d.clear_field_by_number(*n),
                _ => d.clear_field_by_name(f.name()),
            },
        },
        Op::Take(n) => {
            let got = match x(*n) {
                FX::X(e) => d.take_extension(e),
                FX::F(f) => match how {
                    0 => d.take_field(f),
                    1 => d.take_field_by_number(*n),
                    _ => d.take_field_by_name(f.name()),
                },
            };
            let f = b.s.msgs[ty].get(*n).unwrap();
            let got = got.map(|v| b.from_value(&v, f)).transpose()?;
            let want = if has(b, before, *n) { before.f.get(n).cloned() } else { None };
            if got.clone().map(|v| norm(b, v)) != want.clone().map(|v| norm(b, v)) {
                return Err(format!("take({}) returned {got:?}, should be {want:?}", f.name));
            }
        }
        Op::Touch(n) => {
            current(d, *n)?;
        }
        Op::Assign(n, v) => {
            let p = current(d, *n)?;
            unsafe { *p = b.to_value(v) };
        }
        Op::Push(n, v) => {
            let p = current(d, *n)?;
            let v = b.to_value(v);
            unsafe { &mut *p }.as_list_mut().ok_or("a repeated field is not a list")?.push(v);
        }
        Op::Insert(n, k, v) => {
            let p = current(d, *n)?;
            let v = b.to_value(v);
            unsafe { &mut *p }.as_map_mut().ok_or("a map field is not a map")?.insert(crate::value::to_key(k), v);
        }
        Op::Remove(n, k) => {
            let p = current(d, *n)?;
            unsafe { &mut *p }.as_map_mut().ok_or("a map field is not a map")?.remove(&crate::value::to_key(k));
        }
        Op::Nested(n, k, v) => {
            let p = current(d, *n)?;
            let v = b.to_value(v);
            unsafe { &mut *p }.as_message_mut().ok_or("a message field is not a message")?.set_field_by_number(*k, v);
        }
        Op::NestedClear(n, k) => {
            let p = current(d, *n)?;
            unsafe { &mut *p }.as_message_mut().ok_or("a message field is not a message")?.clear_field_by_number(*k);
        }
        Op::TakeFields | Op::TakeExtensions => {
            let ext = matches!(op, Op::TakeExtensions);
            let got: Vec<(u32, String, Value)> = if ext {
                d.take_extensions().map(|(f, v)| (f.number(), f.full_name().to_owned(), v)).collect()
            } else {
                d.take_fields().map(|(f, v)| (f.number(), f.full_name().to_owned(), v)).collect()
            };
            let mut seen = BTreeMap::new();
            for (n, name, v) in got {
                let f = b.s.msgs[ty].get(n).filter(|f| f.ext == ext && f.full == name).ok_or_else(|| format!("draining yields a foreign field {name}"))?;
                if seen.insert(n, norm(b, b.from_value(&v, f)?)).is_some() {
                    return Err(format!("draining yields {name} twice"));
                }
            }
            let want: BTreeMap<u32, V> = before
                .f
                .iter()
                .filter(|(n, _)| has(b, before, **n) && b.s.msgs[ty].get(**n).unwrap().ext == ext)
                .map(|(n, v)| (*n, norm(b, v.clone())))
                .collect();
            if seen != want {
                return Err(format!("draining yields {seen:?}, should be {want:?}"));
            }
        }
        Op::TakeUnknown => {
            let mut raw = vec![];
            for u in d.take_unknown_fields() {
                u.encode(&mut raw);
            }
            let mut got = wire::dec_unknown(&raw).ok_or("unknown fields do not parse")?;
            got.sort_by_key(|u| u.num);
            if got != before.unk {
                return Err(format!("take_unknown_fields yields {got:?}, should be {:?}", before.unk));
            }
        }
        Op::ZeroAll => {
            let mut n1 = vec![];
            for (f, v) in d.fields_mut() {
                n1.push(f.number());
                let f = b.s.msgs[ty].get(f.number()).ok_or("fields_mut yields a foreign field")?;
                *v = b.to_value(&zero_of(b, f));
            }
            for (f, v) in d.extensions_mut() {
                n1.push(f.number());
                let f = b.s.msgs[ty].get(f.number()).ok_or("extensions_mut yields a foreign field")?;
                *v = b.to_value(&zero_of(b, f));
            }
            n1.sort();
            let want: Vec<u32> = before.f.keys().copied().filter(|n| has(b, before, *n)).collect();
            if n1 != want {
                return Err(format!("fields_mut and extensions_mut yield {n1:?}, should be {want:?}"));
            }
        }
        Op::ClearAll => d.clear(),
        Op::Merge(x) => d.merge(x.as_slice()).map_err(|e| format!("merge refused: {e}"))?,
        Op::Reencode => {
            *d = DynamicMessage::decode(d.descriptor(), d.encode_to_vec().as_slice()).map_err(|e| format!("re-decoding: {e}"))?;
        }
    }
    Ok(())
}

fn norm(b: &Bind, mut v: V) -> V {
    v.normalize(&b.s);
    v.canon();
    v
}

fn observe(b: &Bind, d: &DynamicMessage, want: &Mv) -> Result<(), String> {
    let s = &b.s;
    let mut w = want.clone();
    w.normalize(s);
    w.canon();
    let mut got = b.from_dyn(d)?;
    got.normalize(s);
    got.canon();
    if got != w {
        return Err(format!("the message is {}, should be {}", show(s, &got), show(s, &w)));
    }
    // by name and by number
    for f in s.msgs[want.ty].all() {
        let set = w.f.contains_key(&f.num);
        if f.ext {
            if d.has_field_by_number(f.num) || d.get_field_by_number(f.num).is_some() || d.get_field_by_name(&f.name).is_some() {
                return Err(format!("extension {} is reachable as a field", f.name));
            }
            continue;
        }
        if d.has_field_by_number(f.num) != set || d.has_field_by_name(&f.name) != set {
            return Err(format!("has_field_by_number/name({}) is not {set}", f.name));
        }
        if let FX::F(fd) = &b.fd[want.ty][&f.num] {
            let by_desc = b.from_value(&d.get_field(fd), f)?;
            let by_num = b.from_value(d.get_field_by_number(f.num).ok_or("get_field_by_number is None")?.as_ref(), f)?;
            let by_name = b.from_value(d.get_field_by_name(&f.name).ok_or("get_field_by_name is None")?.as_ref(), f)?;
            if norm(b, by_num) != norm(b, by_desc.clone()) || norm(b, by_name) != norm(b, by_desc) {
                return Err(format!("get_field, _by_number and _by_name differ for {}", f.name));
            }
        }
    }
    for o in &s.msgs[want.ty].oneofs {
        let set = o.fields.iter().filter(|n| w.f.contains_key(n)).count();
        if set > 1 {
            return Err(format!("{set} members of oneof {} are set", o.name));
        }
    }
    if d.has_field_by_number(77777) || d.get_field_by_number(77777).is_some() || d.has_field_by_name("no such") || d.get_field_by_name("no such").is_some() {
        return Err("a field which does not exist is there".into());
    }
    let x = d.encode_to_vec();
    if x.len() != d.encoded_len() {
        return Err("encoded_len is wrong".into());
    }
    let e = wire::dec(s, want.ty, &x).map_err(|e| format!("encoding is malformed: {e:?}"))?;
    if e != w {
        return Err(format!("encodes to {}, should be {}", show(s, &e), show(s, &w)));
    }
    Ok(())
}

struct Machine {
    ty: &'static str,
    ops: Vec<Op>,
    /// nothing longer than this in a list or map
    cap: usize,
}

fn size(v: &V) -> usize {
    match v {
        V::L(l) => l.len(),
        V::Map(m) => m.len(),
        _ => 0,
    }
}

fn machines(b: &Bind) -> Vec<Machine> {
    let leaf3 = b.s.msg("t3.Leaf");
    let leaf2 = b.s.msg("t2.Leaf");
    let m = |t: usize, f: &[(u32, V)]| {
        let mut x = Mv::new(t);
        x.f.extend(f.iter().cloned());
        V::M(Box::new(x))
    };
    let i = V::I32;
    let enc = |v: Mv| wire::enc(&b.s, &v, &Enc { defaults: false, ..Enc::default() });
    let fo3 = b.s.msg("t3.Fo");
    let fo2 = b.s.msg("t2.Fo");
    let all = [Op::TakeFields, Op::TakeExtensions, Op::TakeUnknown, Op::ZeroAll, Op::ClearAll, Op::Reencode];
    let generic = |n: u32, vs: &[V]| {
        let mut o = vec![Op::Clear(n), Op::Take(n), Op::Touch(n)];
        for v in vs {
            o.extend([Op::Set(n, v.clone()), Op::TrySet(n, v.clone()), Op::Assign(n, v.clone())]);
        }
        o
    };
    let mut out = vec![];
    // proto3
    let mut o: Vec<Op> = all.to_vec();
    o.extend(generic(1, &[i(0), i(1)]));
    o.extend(generic(2, &[i(0), i(1)]));
    o.extend(generic(3, &[V::L(vec![]), V::L(vec![i(0)])]));
    o.extend([Op::Push(3, i(0)), Op::Push(3, i(2))]);
    o.extend(generic(4, &[V::Map(BTreeMap::new()), V::Map(BTreeMap::from([(i(0), i(0))]))]));
    o.extend([Op::Insert(4, i(0), i(1)), Op::Insert(4, i(3), i(0)), Op::Remove(4, i(0))]);
    o.extend(generic(5, &[i(0), i(4)]));
    o.extend(generic(6, &[m(leaf3, &[]), m(leaf3, &[(1, i(2))])]));
    o.extend([Op::Nested(6, 1, i(3)), Op::Nested(6, 1, i(0)), Op::NestedClear(6, 1)]);
    o.extend(generic(8, &[V::S("".into()), V::S("x".into())]));
    o.extend(generic(7, &[m(leaf3, &[])]));
    o.extend([Op::Nested(7, 2, V::S("n".into())), Op::NestedClear(7, 2)]);
    let mut stream = enc(Mv::new(fo3).with(1, i(9)).with(6, m(leaf3, &[(2, V::S("q".into()))])));
    o.push(Op::Merge(stream.clone()));
    stream = b"\x08\x00\x28\x00".to_vec();
    wire::enc_unknown(&[Unk { num: 50, val: UV::Var(1) }], &mut stream);
    o.push(Op::Merge(stream));
    o.push(Op::Merge(b"\x1a\x01\x05\x22\x04\x08\x00\x10\x07".to_vec()));
    out.push(Machine { ty: "t3.Fo", ops: o, cap: 2 });
    // proto2 with defaults and extensions
    let mut o: Vec<Op> = all.to_vec();
    o.extend(generic(1, &[i(0), i(7), i(1)]));
    o.extend(generic(2, &[V::L(vec![]), V::L(vec![i(0)])]));
    o.push(Op::Push(2, i(2)));
    o.extend(generic(3, &[m(leaf2, &[]), m(leaf2, &[(1, i(0))])]));
    o.push(Op::Nested(3, 1, i(3)));
    o.extend(generic(4, &[i(0), i(4)]));
    o.extend(generic(5, &[V::S("".into()), V::S("x".into())]));
    o.extend(generic(100, &[i(0), i(5)]));
    o.extend(generic(101, &[V::L(vec![]), V::L(vec![i(0)])]));
    o.push(Op::Push(101, i(6)));
    o.extend(generic(102, &[m(leaf2, &[])]));
    o.extend([Op::Nested(102, 1, i(0)), Op::NestedClear(102, 1)]);
    let mut stream = enc(Mv::new(fo2).with(100, i(9)).with(102, m(leaf2, &[(2, V::S("q".into()))])).with(5, V::S("o".into())));
    wire::enc_unknown(&[Unk { num: 60, val: UV::Len(vec![1]) }], &mut stream);
    o.push(Op::Merge(stream));
    o.push(Op::Merge(b"\x08\x07\xa8\x06\x01\xa8\x06\x02".to_vec()));
    out.push(Machine { ty: "t2.Fo", ops: o, cap: 1 });
    out
}

pub fn f01(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    for mach in machines(&b) {
        let ty = b.s.msg(mach.ty);
        let seen: Vec<Mutex<HashSet<Mv>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let add = |m: &Mv| seen[(hash(m) >> 58) as usize].lock().unwrap().insert(m.clone());
        let start = (Mv::new(ty), DynamicMessage::new(b.md[ty].clone()));
        add(&start.0);
        let mut frontier = vec![start];
        let mut depth = 0;
        let max_depth = c.pick(if mach.ty == "t3.Fo" { 5 } else { 6 }, 40);
        let max_states = c.pick(40_000usize, 1_500_000);
        let mut total = 1usize;
        while !frontier.is_empty() && depth < max_depth && !c.stopped() && total < max_states {
            let next: Mutex<Vec<(Mv, DynamicMessage)>> = Mutex::new(vec![]);
            let fr = &frontier;
            c.par(
                fr.len(),
                |k| format!("{} state {}", mach.ty, show(&b.s, &fr[k].0)),
                |k| {
                    let (m, d) = &fr[k];
                    for (j, op) in mach.ops.iter().enumerate() {
                        let m2 = model(&b, m, op);
                        if m2.f.values().any(|v| size(v) > mach.cap) || m2.unk.len() > 1 {
                            continue;
                        }
                        let before = d.encoded_len();
                        let mut d2 = d.clone();
                        let how = (k + j) % 3;
                        let case = |e: String| format!("{e}\n  after {op:?} (variant {how})");
                        no_panic("operation", || real(&b, m, &mut d2, op, how)).and_then(|r| r).map_err(case)?;
                        c.step(1);
                        // every transition is observed, also the ones to known states: hidden state may differ
                        no_panic("observers", || observe(&b, &d2, &m2)).and_then(|r| r).map_err(case)?;
                        if d.encoded_len() != before {
                            return Err(case("changing a clone changed the original".into()));
                        }
                        c.trace(1);
                        if add(&m2) {
                            next.lock().unwrap().push((m2, d2));
                        }
                    }
                    observe(&b, d, m).map_err(|e| format!("{e}\n  after its clones were changed"))?;
                    Ok(())
                },
            );
            frontier = next.into_inner().unwrap();
            // deterministic order
            frontier.sort_by(|a, b| a.0.cmp(&b.0));
            total += frontier.len();
            depth += 1;
        }
        c.states_add(total as u64);
        c.count(&format!("{} operations", mach.ty), mach.ops.len() as u64);
        c.count(&format!("{} depth", mach.ty), depth as u64);
        c.count(&format!("{} states", mach.ty), total as u64);
        c.count(&format!("{} closed", mach.ty), frontier.is_empty() as u64);
        if let Some(x) = frontier.first() {
            c.sample(|| show(&b.s, &x.0));
        } else {
            c.sample(|| format!("{}: reachable states closed at depth {depth}", mach.ty));
        }
    }
    // all sequences of two and three operations from the empty message, for every way of addressing a field,
    // including pairs of operations on hidden states (stored zeros, drained fields)
    for mach in machines(&b) {
        let ty = b.s.msg(mach.ty);
        let n = mach.ops.len();
        let depth = 3;
        c.par(
            n * n,
            |i| format!("{}: {:?}; {:?}", mach.ty, mach.ops[i / n], mach.ops[i % n]),
            |i| {
                for how in 0..3 {
                    let mut m = Mv::new(ty);
                    let mut d = DynamicMessage::new(b.md[ty].clone());
                    for op in [&mach.ops[i / n], &mach.ops[i % n]] {
                        no_panic("operation", || real(&b, &m, &mut d, op, how)).and_then(|r| r)?;
                        m = model(&b, &m, op);
                        c.step(1);
                    }
                    observe(&b, &d, &m)?;
                    c.trace(1);
                    if c.thorough || how == i % 3 {
                        for op in &mach.ops {
                            let mut d2 = d.clone();
                            no_panic("operation", || real(&b, &m, &mut d2, op, how)).and_then(|r| r).map_err(|e| format!("{e}; then {op:?}"))?;
                            let m2 = model(&b, &m, op);
                            observe(&b, &d2, &m2).map_err(|e| format!("{e}; then {op:?}"))?;
                            c.step(1);
                            c.trace(1);
                        }
                    }
                }
                Ok(())
            },
        );
        c.param(&format!("{} sequences", mach.ty), format!("all of length {depth}"));
    }
}

/// A value with its reference meaning: a tag describing which kinds it fits.
#[derive(Clone, Debug)]
enum T {
    One(V),
    List(Vec<T>),
    Map(Vec<(V, T)>),
}

fn fits_one(v: &V, ty: Ty) -> Option<bool> {
    Some(match (v, ty) {
        (V::B(_), Ty::Bool) => true,
        (V::I32(_), Ty::Int32 | Ty::Sint32 | Ty::Sfixed32) => true,
        (V::I64(_), Ty::Int64 | Ty::Sint64 | Ty::Sfixed64) => true,
        (V::U32(_), Ty::Uint32 | Ty::Fixed32) => true,
        (V::U64(_), Ty::Uint64 | Ty::Fixed64) => true,
        (V::F32(_), Ty::Float) => true,
        (V::F64(_), Ty::Double) => true,
        (V::S(_), Ty::String) => true,
        (V::Y(_), Ty::Bytes) => true,
        (V::E(_), Ty::Enum(_)) => true,
        // a message of another type can be encoded as well: the documentation leaves this open
        (V::M(m), Ty::Msg(t) | Ty::Group(t)) => {
            if m.ty == t {
                true
            } else {
                return None;
            }
        }
        _ => false,
    })
}

fn fits(b: &Bind, v: &T, f: &Field) -> Option<bool> {
    // None if unspecified, unless something else already decides
    let all = |xs: Vec<Option<bool>>| {
        if xs.contains(&Some(false)) {
            Some(false)
        } else if xs.contains(&None) {
            None
        } else {
            Some(true)
        }
    };
    if let Some((kf, vf)) = b.s.map_kv(f) {
        match v {
            T::Map(es) => all(es
                .iter()
                .flat_map(|(k, v)| {
                    [
                        fits_one(k, kf.ty),
                        match v {
                            T::One(v) => fits_one(v, vf.ty),
                            _ => Some(false),
                        },
                    ]
                })
                .collect()),
            _ => Some(false),
        }
    } else if f.card == Card::Rep {
        match v {
            T::List(l) => all(l
                .iter()
                .map(|v| match v {
                    T::One(v) => fits_one(v, f.ty),
                    _ => Some(false),
                })
                .collect()),
            _ => Some(false),
        }
    } else {
        match v {
            T::One(v) => fits_one(v, f.ty),
            _ => Some(false),
        }
    }
}

/// Maps for fields which are not maps: a fraction of them per field in quick runs.
fn k_skip(i: usize, t: &T) -> bool {
    (hash(&format!("{t:?}")) as usize + i) % 16 != 0
}

fn t_value(b: &Bind, t: &T) -> Value {
    match t {
        T::One(v) => b.to_value(v),
        T::List(l) => Value::List(l.iter().map(|t| t_value(b, t)).collect()),
        T::Map(m) => Value::Map(m.iter().map(|(k, v)| (crate::value::to_key(k), t_value(b, v))).collect()),
    }
}

/// Every variant of Value and MapKey x every typed accessor: an accessor answers exactly for its own variant, what it
/// gives is the content, and what is written through the mutable one is in the value. With the same values the
/// conversions between both types, and is_default / default_value for every kind.
fn accessors(c: &Ctx, b: &Bind) {
    let m3 = DynamicMessage::new(b.md[b.s.msg("t3.Leaf")].clone());
    let mut m3x = m3.clone();
    m3x.set_field_by_number(1, Value::I32(7));
    let vals = |k: usize| -> Vec<Value> {
        vec![
            Value::Bool(k == 1),
            Value::I32([0, -7][k]),
            Value::I64([0, i64::MIN][k]),
            Value::U32([0, u32::MAX][k]),
            Value::U64([0, u64::MAX][k]),
            Value::F32([0.0, 1.5][k]),
            Value::F64([0.0, -2.5][k]),
            Value::String(["", "é"][k].into()),
            Value::Bytes(vec![255u8; k].into()),
            Value::EnumNumber([0, -3][k]),
            Value::Message([&m3, &m3x][k].clone()),
            Value::List(vec![Value::I32(1); k]),
            Value::Map([(MapKey::I32(1), Value::I32(2))].into_iter().take(k).collect()),
        ]
    };
    let (old, new) = (vals(0), vals(1));
    macro_rules! check {
        ($v:expr, $w:expr, $i:expr, $ty:ident, [$(($n:expr, $get:ident, $mutf:ident, $var:ident, $conv:expr, $write:expr)),*]) => {{
            $(
                let mut v = $v.clone();
                let own = $i == $n;
                #[allow(clippy::redundant_closure_call)]
                let got = v.$get().map(|x| $ty::$var(($conv)(x)));
                if got != own.then(|| v.clone()) {
                    return Err(format!("{}::{} of {v:?} is {got:?}", stringify!($ty), stringify!($get)));
                }
                let hit = match (v.$mutf(), &$w) {
                    (Some(r), $ty::$var(w)) => {
                        #[allow(clippy::redundant_closure_call)]
                        ($write)(r, w);
                        true
                    }
                    (Some(_), _) => return Err(format!("{}::{} answers for {:?}", stringify!($ty), stringify!($mutf), $v)),
                    (None, _) => false,
                };
                if hit != own {
                    return Err(format!("{}::{} of {:?} is {}", stringify!($ty), stringify!($mutf), $v, if hit { "Some" } else { "None" }));
                }
                let want = if own { $w.clone() } else { $v.clone() };
                if v != want {
                    return Err(format!("{}::{}: after writing {:?} over {:?} the value is {v:?}", stringify!($ty), stringify!($mutf), $w, $v));
                }
                c.step(2);
            )*
        }};
    }
    c.par(
        old.len() * 2,
        |i| format!("accessors of {:?}", if i % 2 == 0 { &old } else { &new }[i / 2]),
        |i| {
            let n = i / 2;
            let (v, w) = if i % 2 == 0 { (&old[n], &new[n]) } else { (&new[n], &old[n]) };
            c.state(&("accessors", i));
            check!(v, w, n, Value, [
                (0, as_bool, as_bool_mut, Bool, |x| x, |r: &mut bool, w: &bool| *r = *w),
                (1, as_i32, as_i32_mut, I32, |x| x, |r: &mut i32, w: &i32| *r = *w),
                (2, as_i64, as_i64_mut, I64, |x| x, |r: &mut i64, w: &i64| *r = *w),
                (3, as_u32, as_u32_mut, U32, |x| x, |r: &mut u32, w: &u32| *r = *w),
                (4, as_u64, as_u64_mut, U64, |x| x, |r: &mut u64, w: &u64| *r = *w),
                (5, as_f32, as_f32_mut, F32, |x| x, |r: &mut f32, w: &f32| *r = *w),
                (6, as_f64, as_f64_mut, F64, |x| x, |r: &mut f64, w: &f64| *r = *w),
                (7, as_str, as_string_mut, String, |x: &str| x.to_owned(), |r: &mut String, w: &String| r.clone_from(w)),
                (8, as_bytes, as_bytes_mut, Bytes, |x: &prost::bytes::Bytes| x.clone(), |r: &mut prost::bytes::Bytes, w: &prost::bytes::Bytes| *r = w.clone()),
                (9, as_enum_number, as_enum_number_mut, EnumNumber, |x| x, |r: &mut i32, w: &i32| *r = *w),
                (10, as_message, as_message_mut, Message, |x: &DynamicMessage| x.clone(), |r: &mut DynamicMessage, w: &DynamicMessage| *r = w.clone()),
                (11, as_list, as_list_mut, List, |x: &[Value]| x.to_vec(), |r: &mut Vec<Value>, w: &Vec<Value>| r.clone_from(w)),
                (12, as_map, as_map_mut, Map, |x: &std::collections::HashMap<MapKey, Value>| x.clone(), |r: &mut std::collections::HashMap<MapKey, Value>, w: &std::collections::HashMap<MapKey, Value>| r.clone_from(w))
            ]);
            let key = v.clone().into_map_key();
            let is_key = matches!(v, Value::Bool(_) | Value::I32(_) | Value::I64(_) | Value::U32(_) | Value::U64(_) | Value::String(_));
            if key.is_some() != is_key {
                return Err(format!("into_map_key gave {key:?}"));
            }
            if let (Some(k), Some(kw)) = (key, w.clone().into_map_key()) {
                if Value::from(k.clone()) != *v {
                    return Err(format!("Value::from({k:?}) is {:?}", Value::from(k.clone())));
                }
                check!(k, kw, n, MapKey, [
                    (0, as_bool, as_bool_mut, Bool, |x| x, |r: &mut bool, w: &bool| *r = *w),
                    (1, as_i32, as_i32_mut, I32, |x| x, |r: &mut i32, w: &i32| *r = *w),
                    (2, as_i64, as_i64_mut, I64, |x| x, |r: &mut i64, w: &i64| *r = *w),
                    (3, as_u32, as_u32_mut, U32, |x| x, |r: &mut u32, w: &u32| *r = *w),
                    (4, as_u64, as_u64_mut, U64, |x| x, |r: &mut u64, w: &u64| *r = *w),
                    (7, as_str, as_string_mut, String, |x: &str| x.to_owned(), |r: &mut String, w: &String| r.clone_from(w))
                ]);
            }
            Ok(())
        },
    );
    // the default of every kind, field and extension, against every value
    let all: Vec<Value> = old.iter().chain(&new).cloned().collect();
    let zero = |t: Ty| -> Option<Value> {
        Some(match t {
            Ty::Bool => Value::Bool(false),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => Value::I32(0),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => Value::I64(0),
            Ty::Uint32 | Ty::Fixed32 => Value::U32(0),
            Ty::Uint64 | Ty::Fixed64 => Value::U64(0),
            Ty::Float => Value::F32(0.0),
            Ty::Double => Value::F64(0.0),
            Ty::String => Value::String(String::new()),
            Ty::Bytes => Value::Bytes(Default::default()),
            Ty::Enum(e) => Value::EnumNumber(b.s.enums[e].values[0].1),
            Ty::Msg(t) | Ty::Group(t) => Value::Message(DynamicMessage::new(b.md[t].clone())),
        })
    };
    let fields: Vec<(usize, &Field)> = b.s.msgs.iter().enumerate().flat_map(|(i, m)| m.all().map(move |f| (i, f))).collect();
    c.par(
        fields.len(),
        |i| format!("default of {}", fields[i].1.full),
        |i| {
            let (ty, f) = fields[i];
            let x = &b.fd[ty][&f.num];
            let kind = match x {
                FX::F(fd) => fd.kind(),
                FX::X(xd) => xd.kind(),
            };
            let Some(z) = zero(f.ty) else { return Ok(()) };
            if Value::default_value(&kind) != z || kind.default_value() != z {
                return Err(format!("default_value({kind:?}) is {:?}", Value::default_value(&kind)));
            }
            let of = match x {
                FX::F(fd) => (Value::default_value_for_field(fd), fd.default_value()),
                FX::X(xd) => (Value::default_value_for_extension(xd), xd.default_value()),
            };
            if format!("{:?}", of.0) != format!("{:?}", of.1) {
                return Err(format!("default_value_for_field is {:?}, FieldDescriptor::default_value is {:?}", of.0, of.1));
            }
            for v in all.iter().chain([&z, &of.0]) {
                c.step(1);
                if v.is_default(&kind) != (*v == z) {
                    return Err(format!("{v:?}.is_default({kind:?}) is {}", v.is_default(&kind)));
                }
                let d = match x {
                    FX::F(fd) => v.is_default_for_field(fd),
                    FX::X(xd) => v.is_default_for_extension(xd),
                };
                if d != (*v == of.0) {
                    return Err(format!("{v:?}: is_default_for_field is {d}"));
                }
                let keyed = matches!(f.ty, Ty::Bool | Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 | Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 | Ty::Uint32 | Ty::Fixed32 | Ty::Uint64 | Ty::Fixed64 | Ty::String);
                if let (true, Some(k)) = (keyed, v.clone().into_map_key()) {
                    if k.is_default(&kind) != (*v == z) || Value::from(MapKey::default_value(&kind)) != z {
                        return Err(format!("{k:?}: MapKey::is_default({kind:?}) is {}", k.is_default(&kind)));
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn f02(c: &Ctx) {
    let b = Bind::new(ALL_BIN);
    let s = &b.s;
    accessors(c, &b);
    let leaf3 = V::M(Box::new(Mv::new(s.msg("t3.Leaf")).with(1, V::I32(1))));
    let leaf2 = V::M(Box::new(Mv::new(s.msg("t2.Leaf"))));
    let mut ones = vec![
        V::B(true), V::I32(1), V::I64(1), V::U32(1), V::U64(1), V::F32(1f32.to_bits()), V::F64(1f64.to_bits()), V::S("a".into()), V::Y(vec![1]), V::E(1),
        V::B(false), V::I32(0), V::I64(0), V::U32(0), V::U64(0), V::F32(0), V::F64(0), V::S("".into()), V::Y(vec![]), V::E(0), V::E(12345),
        leaf3.clone(), leaf2.clone(),
    ];
    // an empty message of every type used by a field
    let mut tys: Vec<usize> = s.msgs.iter().flat_map(|m| m.all().filter_map(|f| f.ty.msg()).collect::<Vec<_>>()).collect();
    tys.sort();
    tys.dedup();
    ones.extend(tys.iter().map(|t| V::M(Box::new(Mv::new(*t)))));
    let keys = [V::B(true), V::I32(1), V::I64(1), V::U32(1), V::U64(1), V::S("a".into())];
    let core = &ones[..10];
    let mut ts: Vec<T> = ones.iter().cloned().map(T::One).collect();
    ts.push(T::List(vec![]));
    ts.push(T::Map(vec![]));
    for v in &ones {
        ts.push(T::List(vec![T::One(v.clone())]));
        for k in &keys {
            ts.push(T::Map(vec![(k.clone(), T::One(v.clone()))]));
        }
    }
    for v in core.iter().chain([&leaf3, &leaf2]) {
        for w in core.iter().chain([&leaf3, &leaf2]) {
            // the second element decides
            ts.push(T::List(vec![T::One(v.clone()), T::One(w.clone())]));
            for k in &keys {
                for l in &keys {
                    if k != l && (c.thorough || matches!(v, V::B(_) | V::I32(_) | V::S(_)) && v == w) {
                        ts.push(T::Map(vec![(k.clone(), T::One(v.clone())), (l.clone(), T::One(w.clone()))]));
                    }
                }
                let other = match k {
                    V::B(_) => V::B(false),
                    V::I32(_) => V::I32(2),
                    V::I64(_) => V::I64(2),
                    V::U32(_) => V::U32(2),
                    V::U64(_) => V::U64(2),
                    _ => V::S("b".into()),
                };
                ts.push(T::Map(vec![(k.clone(), T::One(v.clone())), (other, T::One(w.clone()))]));
            }
        }
        ts.push(T::List(vec![T::List(vec![T::One(v.clone())])]));
        ts.push(T::List(vec![T::Map(vec![(V::I32(1), T::One(v.clone()))])]));
        ts.push(T::Map(vec![(V::S("a".into()), T::List(vec![T::One(v.clone())]))]));
        ts.push(T::Map(vec![(V::I32(1), T::List(vec![T::One(v.clone())]))]));
        ts.push(T::Map(vec![(V::I32(1), T::Map(vec![(V::I32(1), T::One(v.clone()))]))]));
        ts.push(T::List(vec![T::One(v.clone()), T::One(v.clone()), T::List(vec![])]));
    }
    ts.push(T::List(vec![T::List(vec![])]));
    ts.push(T::List(vec![T::Map(vec![])]));
    let fields: Vec<(usize, &Field)> = s.msgs.iter().enumerate().flat_map(|(i, m)| m.all().map(move |f| (i, f))).filter(|(i, _)| !s.msgs[*i].map_entry).collect();
    c.param("fields", fields.len());
    c.param("values", ts.len());
    c.par(
        fields.len(),
        |i| fields[i].1.full.clone(),
        |i| {
            let (ty, f) = fields[i];
            let x = &b.fd[ty][&f.num];
            // messages in which the field, another field, or a oneof sibling is set already
            let mut bases = vec![Mv::new(ty)];
            let mut u = crate::uni::Uni::new(s);
            for g in s.msgs[ty].all() {
                if (g.oneof.is_some() && g.oneof == f.oneof) || g.num == f.num {
                    if let Some(v) = u.field_values(g, crate::uni::Lvl::Tiny).first() {
                        bases.push(Mv::new(ty).with(g.num, v.clone()));
                    }
                }
            }
            let other = s.msgs[ty].all().find(|g| g.num != f.num && g.oneof.is_none() && g.ty.msg().is_none());
            if let Some(g) = other {
                if let Some(v) = u.field_values(g, crate::uni::Lvl::Tiny).first() {
                    bases.push(Mv::new(ty).with(g.num, v.clone()));
                }
            }
            for m in &mut bases {
                m.normalize(s);
                m.canon();
            }
            for t in &ts {
                let Some(ok) = fits(&b, t, f) else { continue };
                let v = t_value(&b, t);
                c.state(&(i, format!("{t:?}")));
                let case = |e: String| format!("{e}; value {t:?}");
                let valid = match x {
                    FX::F(fd) => v.is_valid_for_field(fd),
                    FX::X(xd) => v.is_valid_for_extension(xd),
                };
                if valid != ok {
                    return Err(case(format!("is_valid_for_{} is {valid}, should be {ok}", if f.ext { "extension" } else { "field" })));
                }
                if !c.thorough && !ok && matches!(t, T::Map(_)) && s.map_kv(f).is_none() && k_skip(i, t) {
                    continue;
                }
                // the kind alone
                let (kind, one) = match x {
                    FX::F(fd) => (fd.kind(), t),
                    FX::X(xd) => (xd.kind(), t),
                };
                if s.map_kv(f).is_none() {
                    let want = match one {
                        T::One(v) => fits_one(v, f.ty),
                        _ => Some(false),
                    };
                    if want.is_some_and(|w| v.is_valid(&kind) != w) {
                        return Err(case("is_valid(kind) is wrong".into()));
                    }
                    if let T::One(k) = one {
                        if let Some(mk) = v.clone().into_map_key() {
                            if Some(mk.is_valid(&kind)) != want || MapKey::from(mk.clone()) != mk {
                                return Err(case("MapKey::is_valid is wrong".into()));
                            }
                            let fake = f;
                            if want == Some(true) && from_key(&mk, fake)? != *k {
                                return Err(case("into_map_key changed the value".into()));
                            }
                        } else if matches!(k, V::B(_) | V::I32(_) | V::I64(_) | V::U32(_) | V::U64(_) | V::S(_)) {
                            return Err(case("into_map_key refused a key".into()));
                        }
                    }
                }
                for (bi, base) in bases.iter().enumerate() {
                    for how in 0..3 {
                        // every way of addressing the field for every value; with each base in thorough runs
                        if !c.thorough && (bi + how + i) % 3 != 0 {
                            continue;
                        }
                        let mut d = b.to_dyn(base);
                        let res = match x {
                            FX::F(fd) => {
                                let r = no_panic("try_set_field", || match how {
                                    0 => d.try_set_field(fd, v.clone()),
                                    1 => d.try_set_field_by_number(f.num, v.clone()),
                                    _ => d.try_set_field_by_name(&f.name, v.clone()),
                                })
                                .map_err(case)?;
                                r
                            }
                            FX::X(xd) => {
                                if !ok {
                                    continue;
                                }
                                no_panic("set_extension", || d.set_extension(xd, v.clone())).map_err(case)?;
                                Ok(())
                            }
                        };
                        c.step(1);
                        match (res, ok) {
                            (Ok(()), true) => {
                                let mut want = base.clone();
                                let rv = {
                                    fn conv(t: &T) -> V {
                                        match t {
                                            T::One(v) => v.clone(),
                                            T::List(l) => V::L(l.iter().map(conv).collect()),
                                            T::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
                                        }
                                    }
                                    conv(t)
                                };
                                store(&b, &mut want, f.num, rv);
                                no_panic("observers", || observe(&b, &d, &want)).and_then(|r| r).map_err(case)?;
                            }
                            (Err(e), false) => {
                                match e {
                                    SetFieldError::InvalidType { field, value } => {
                                        if field.number() != f.num || field.full_name() != f.full || value != v {
                                            return Err(case(format!("the error names {} and value {value:?}", field.full_name())));
                                        }
                                    }
                                    e => return Err(case(format!("error {e:?}"))),
                                }
                                let mut got = b.from_dyn(&d).map_err(|e| case(format!("after a refusal: {e}")))?;
                                got.normalize(s);
                                got.canon();
                                if got != *base {
                                    return Err(case(format!("after a refusal the message is {}", show(s, &got))));
                                }
                            }
                            (r, _) => return Err(case(format!("try_set returned {r:?}, the value is {}valid", if ok { "" } else { "in" }))),
                        }
                        c.trace(1);
                    }
                }
            }
            let mut d = DynamicMessage::new(b.md[ty].clone());
            if d.try_set_field_by_number(77777, Value::I32(1)) != Err(SetFieldError::NotFound) || d.try_set_field_by_name("no such", Value::I32(1)) != Err(SetFieldError::NotFound) {
                return Err("setting a field which does not exist".into());
            }
            d.set_field_by_number(77777, Value::I32(1));
            d.set_field_by_name("no such", Value::I32(1));
            d.clear_field_by_number(77777);
            d.clear_field_by_name("no such");
            if d.take_field_by_number(77777).is_some() || d.take_field_by_name("no such").is_some() || d.encoded_len() != 0 {
                return Err("a field which does not exist has effects".into());
            }
            Ok(())
        },
    );
}
