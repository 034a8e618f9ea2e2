//! G01: the global pool under every interleaving of two and three real threads, up to a preemption bound.
use crate::report::{self, guard, Ctx};
use crate::sched;
use prost::Message as _;
use prost_reflect::{DescriptorPool, ReflectMessage};
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, LazyLock, Mutex};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

// ---------------------------------------------------------------- what is added

/// (file, its package, its messages, the files it imports, whether it is refused)
const FILES: &[(&str, &str, &[&str], &[&str], bool)] = &[
    ("ga.proto", "ga", &["A"], &[], false),
    ("gb.proto", "gb", &["B"], &[], false),
    ("gb2.proto", "gb", &["B2"], &["gb.proto"], false),
    ("gc.proto", "gc", &["C"], &[], false),
    ("gbad.proto", "gc", &["D"], &["gc.proto"], true),
    ("gd.proto", "gd", &["D"], &["ga.proto"], false),
    ("ge.proto", "ga", &["A"], &[], false),
    ("gx.proto", "gx", &["X", "Y"], &[], false),
    ("gz.proto", "gz", &["Z"], &["gx.proto"], false),
];
/// What is added at once.
const SETS: &[&[usize]] = &[&[0], &[1, 2], &[3, 4], &[5], &[6], &[7], &[7, 8], &[1], &[0, 5], &[3, 6]];

fn proto(i: usize) -> FileDescriptorProto {
    let (name, package, messages, deps, bad) = FILES[i];
    let mut f = FileDescriptorProto {
        name: Some(name.into()),
        package: Some(package.into()),
        syntax: Some("proto3".into()),
        dependency: deps.iter().map(|d| d.to_string()).collect(),
        ..Default::default()
    };
    for m in messages {
        let mut d = super::descr::msg(m);
        let fld = |name: &str, n, ty, tn: &str| {
            let mut x = super::descr::fld(name, n, ty, tn);
            x.json_name = Some(name.into());
            x
        };
        let x = fld("x", 1, 5, "");
        d.field.push(x);
        if let Some(dep) = deps.first() {
            let (_, p, ms, ..) = FILES[FILES.iter().position(|f| f.0 == *dep).unwrap()];
            d.field.push(fld("y", 2, 11, &format!(".{p}.{}", ms[0])));
        }
        if bad {
            d.field.push(fld("z", 3, 11, ".nothing.Here"));
        }
        f.message_type.push(d);
    }
    f
}
static BYTES: LazyLock<Vec<Vec<u8>>> = LazyLock::new(|| {
    SETS.iter().map(|s| FileDescriptorSet { file: s.iter().map(|&i| proto(i)).collect() }.encode_to_vec()).collect()
});
static PROTOS: LazyLock<Vec<FileDescriptorProto>> = LazyLock::new(|| (0..FILES.len()).map(proto).collect());
/// All the message names, with the file of each.
static NAMES: LazyLock<Vec<(String, usize)>> =
    LazyLock::new(|| FILES.iter().enumerate().flat_map(|(i, f)| f.2.iter().map(move |m| (format!("{}.{m}", f.1), i))).collect());
pub fn set(i: usize) -> &'static [u8] {
    &BYTES[i]
}

macro_rules! derived {
    ($t:ident, $name:literal, $set:literal) => {
        #[derive(Clone, PartialEq, prost::Message, prost_reflect::ReflectMessage)]
        #[prost_reflect(message_name = $name, file_descriptor_set_bytes = $set)]
        pub struct $t {
            #[prost(int32, tag = "1")]
            pub x: i32,
        }
    };
}
derived!(X, "gx.X", "crate::props::global::set(5)");
derived!(Y, "gx.Y", "crate::props::global::set(6)");
derived!(Z, "gz.Z", "crate::props::global::set(6)");

const DERIVED: &[(&str, usize)] = &[("gx.X", 5), ("gx.Y", 6), ("gz.Z", 6)];

fn descriptor(i: usize) -> prost_reflect::MessageDescriptor {
    match i {
        0 => X::default().descriptor(),
        1 => Y::default().descriptor(),
        _ => Z::default().descriptor(),
    }
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, Debug)]
enum Call {
    /// global(), kept until the end
    Keep,
    /// global(), released at once
    Look,
    Decode(usize),
    Add(usize),
    /// descriptor() of a derived type
    Derived(usize),
    /// descriptor() of a well-known type
    Wkt,
    /// add a set to a copy of the pool obtained last
    Local(usize),
}
use Call::*;

struct Scenario {
    name: &'static str,
    /// Starts before the global pool exists.
    cold: bool,
    threads: &'static [&'static [Call]],
    /// preemptions in the quick and the thorough tier
    bound: (usize, usize),
}
const SCENARIOS: &[Scenario] = &[
    Scenario { name: "two additions", cold: false, threads: &[&[Decode(0), Look], &[Add(1), Look]], bound: (2, 2) },
    Scenario { name: "two additions by file", cold: false, threads: &[&[Add(0)], &[Add(1), Look]], bound: (2, 2) },
    Scenario { name: "addition and readers", cold: false, threads: &[&[Decode(1)], &[Look, Look, Look]], bound: (2, 2) },
    Scenario { name: "failed addition and reader", cold: false, threads: &[&[Decode(2), Look], &[Look, Look]], bound: (2, 2) },
    Scenario { name: "failed and good addition", cold: false, threads: &[&[Decode(2)], &[Add(3), Look]], bound: (2, 2) },
    Scenario { name: "conflicting additions", cold: false, threads: &[&[Add(0), Look], &[Add(6), Look]], bound: (2, 2) },
    Scenario { name: "conflicting sets", cold: false, threads: &[&[Decode(9), Look], &[Decode(0), Look]], bound: (1, 2) },
    Scenario { name: "the same addition twice", cold: false, threads: &[&[Decode(1), Look], &[Decode(1), Look]], bound: (2, 2) },
    Scenario { name: "overlapping sets", cold: false, threads: &[&[Decode(7), Look], &[Decode(1), Look]], bound: (1, 2) },
    Scenario { name: "dependent addition", cold: false, threads: &[&[Decode(0)], &[Add(5), Look, Add(5)]], bound: (2, 2) },
    Scenario { name: "kept pools", cold: false, threads: &[&[Keep, Decode(0), Keep], &[Keep, Add(1), Keep]], bound: (1, 1) },
    Scenario { name: "changed copies", cold: false, threads: &[&[Keep, Local(1), Look], &[Decode(0), Look]], bound: (1, 1) },
    Scenario { name: "changed copies twice", cold: false, threads: &[&[Keep, Local(0), Look], &[Keep, Local(1), Decode(0), Look]], bound: (1, 1) },
    Scenario { name: "one derived type", cold: false, threads: &[&[Derived(0)], &[Derived(0), Look]], bound: (2, 2) },
    Scenario { name: "two derived types", cold: false, threads: &[&[Derived(0)], &[Derived(1)]], bound: (2, 2) },
    Scenario { name: "derived type and addition", cold: false, threads: &[&[Derived(2)], &[Decode(5), Derived(0)]], bound: (1, 2) },
    Scenario { name: "derived twice, reader", cold: false, threads: &[&[Derived(0), Derived(0)], &[Look, Derived(2)]], bound: (1, 2) },
    Scenario { name: "three additions", cold: false, threads: &[&[Decode(0)], &[Add(1)], &[Add(3), Look]], bound: (1, 2) },
    Scenario { name: "three derived types", cold: false, threads: &[&[Derived(0)], &[Derived(1)], &[Derived(2)]], bound: (1, 2) },
    Scenario { name: "derived, failed, reader", cold: false, threads: &[&[Derived(0)], &[Decode(2)], &[Look, Look]], bound: (1, 2) },
    Scenario { name: "first use: readers", cold: true, threads: &[&[Look], &[Look]], bound: (1, 1) },
    Scenario { name: "first use: additions", cold: true, threads: &[&[Decode(0), Look], &[Add(1), Look]], bound: (1, 1) },
    Scenario { name: "first use: derived", cold: true, threads: &[&[Derived(0)], &[Derived(0)]], bound: (1, 1) },
    Scenario { name: "first use: well-known", cold: true, threads: &[&[Wkt, Look], &[Derived(1)]], bound: (1, 1) },
    Scenario { name: "first use: failed", cold: true, threads: &[&[Decode(2), Look], &[Wkt, Look]], bound: (1, 1) },
    Scenario { name: "first use: three threads", cold: true, threads: &[&[Derived(2)], &[Decode(2)], &[Look]], bound: (0, 1) },
];

// ---------------------------------------------------------------- the calls and what they return

#[derive(Clone, PartialEq, Debug)]
enum Ret {
    /// whether an addition was accepted
    Added(bool),
    /// which of NAMES are there, and the number of files
    Seen(u64, usize),
    Panic(String),
    Wrong(String),
}

fn seen(p: &DescriptorPool) -> Ret {
    let mut bits = 0;
    for (i, (n, _)) in NAMES.iter().enumerate() {
        if p.get_message_by_name(n).is_some() {
            bits |= 1 << i;
        }
    }
    Ret::Seen(bits, p.files().len())
}

/// The files added to the pool, after checking that the pool is whole.
fn whole(p: &DescriptorPool, base: &[String]) -> Result<BTreeSet<String>, String> {
    let names: Vec<String> = p.files().map(|f| f.name().to_owned()).collect();
    if names.len() < base.len() || names[..base.len()] != *base {
        return Err(format!("the pool does not start with the well-known types: {names:?}"));
    }
    let added: BTreeSet<String> = names[base.len()..].iter().cloned().collect();
    if added.len() != names.len() - base.len() {
        return Err(format!("a file is twice in the pool: {names:?}"));
    }
    let mut messages = BTreeSet::new();
    for (i, f) in FILES.iter().enumerate() {
        let got = p.get_file_by_name(f.0);
        if got.is_some() != added.contains(f.0) {
            return Err(format!("get_file_by_name({}) disagrees with files() {names:?}", f.0));
        }
        let Some(got) = got else { continue };
        if got.file_descriptor_proto() != &PROTOS[i] {
            return Err(format!("the file {} is not as it was added", f.0));
        }
        for m in f.2 {
            let n = format!("{}.{m}", f.1);
            let Some(d) = p.get_message_by_name(&n) else {
                return Err(format!("{} is in the pool, its message {n} is not", f.0));
            };
            if d.parent_file().name() != f.0 || d.fields().count() != if f.3.is_empty() { 1 } else { 2 } || d.get_field(1).map(|f| f.name() == "x") != Some(true) {
                return Err(format!("the message {n} is not as it was added"));
            }
            messages.insert(n);
        }
    }
    for (n, _) in NAMES.iter() {
        if p.get_message_by_name(n).is_some() != messages.contains(n) {
            return Err(format!("the message {n} is in the pool without a file"));
        }
    }
    let mut all: Vec<String> = p.all_messages().map(|m| m.full_name().to_owned()).collect();
    all.retain(|n| !n.starts_with("google.protobuf."));
    all.sort();
    if all != messages.iter().cloned().collect::<Vec<_>>() {
        return Err(format!("all_messages() gives {all:?}, the files have {messages:?}"));
    }
    Ok(added)
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    begin: usize,
    end: usize,
    call: Call,
    ret: Ret,
}

struct Log {
    events: Vec<Event>,
    /// pools and what was seen when they were obtained; the set added to it, if it is a copy
    kept: Vec<(DescriptorPool, Ret, Option<usize>)>,
}

fn exec(call: Call, kept: &mut Vec<(DescriptorPool, Ret, Option<usize>)>) -> Ret {
    match call {
        Keep => {
            let p = DescriptorPool::global();
            let r = seen(&p);
            kept.push((p, r.clone(), None));
            r
        }
        Look => {
            let p = DescriptorPool::global();
            seen(&p)
        }
        Decode(s) => Ret::Added(DescriptorPool::decode_global_file_descriptor_set(set(s)).is_ok()),
        Add(f) => Ret::Added(DescriptorPool::add_global_file_descriptor_proto(PROTOS[f].clone()).is_ok()),
        Derived(i) => {
            let d = descriptor(i);
            if d.full_name() != DERIVED[i].0 || d.get_field_by_name("x").is_none() {
                return Ret::Wrong(format!("descriptor() of {} is {}", DERIVED[i].0, d.full_name()));
            }
            seen(d.parent_pool())
        }
        Wkt => {
            let d = prost_types::Duration::default().descriptor();
            if d.full_name() != "google.protobuf.Duration" || d.fields().len() != 2 {
                return Ret::Wrong(format!("descriptor() of Duration is {}", d.full_name()));
            }
            seen(d.parent_pool())
        }
        Local(s) => {
            let mut copy = kept.last().expect("a pool").0.clone();
            if copy.decode_file_descriptor_set(set(s)).is_err() {
                return Ret::Wrong("a copy of the pool refuses a good file".into());
            }
            let r = seen(&copy);
            kept.push((copy, r.clone(), Some(s)));
            r
        }
    }
}

// ---------------------------------------------------------------- the sequential meaning

type State = BTreeSet<usize>;

fn add(s: &State, files: &[usize]) -> Option<State> {
    let mut n = s.clone();
    let new: Vec<usize> = files.iter().copied().filter(|&f| !s.iter().any(|&g| FILES[g].0 == FILES[f].0)).collect();
    for &f in &new {
        let (_, p, ms, _, bad) = FILES[f];
        if bad || n.iter().any(|&g| FILES[g].1 == p && FILES[g].2.iter().any(|m| ms.contains(m))) {
            return None;
        }
        n.insert(f);
    }
    for &f in &new {
        if FILES[f].3.iter().any(|d| !n.iter().any(|&g| FILES[g].0 == *d)) {
            return None;
        }
    }
    Some(n)
}

fn expect_seen(s: &State, base: usize) -> Ret {
    let mut bits = 0;
    for (i, (n, _)) in NAMES.iter().enumerate() {
        if s.iter().any(|&f| FILES[f].2.iter().any(|m| format!("{}.{m}", FILES[f].1) == *n)) {
            bits |= 1 << i;
        }
    }
    Ret::Seen(bits, base + s.len())
}

/// A step of the sequential pool, or None if it cannot return what was returned.
fn apply(s: &State, what: &Call, ret: &Ret, base: usize) -> Option<State> {
    match what {
        Keep | Look | Wkt => (*ret == expect_seen(s, base)).then(|| s.clone()),
        Decode(_) | Add(_) => {
            let one;
            let files = match what {
                Decode(i) => SETS[*i],
                Add(f) => {
                    one = [*f];
                    &one
                }
                _ => unreachable!(),
            };
            match (add(s, files), ret) {
                (Some(n), Ret::Added(true)) => Some(n),
                (None, Ret::Added(false)) => Some(s.clone()),
                _ => None,
            }
        }
        Local(_) => Some(s.clone()),
        Derived(_) => unreachable!(),
    }
}

/// Whether the calls can be put in one order, each between its begin and its end.
fn linear(done: &mut Vec<bool>, ops: &[(usize, usize, usize, Call, Ret)], s: &State, base: usize, count: &mut u64) -> bool {
    if done.iter().all(|d| *d) {
        return true;
    }
    for i in 0..ops.len() {
        if done[i] {
            continue;
        }
        // the next of its thread, and nothing undone ended before it began
        if (0..i).any(|j| !done[j] && ops[j].0 == ops[i].0) || (0..ops.len()).any(|j| !done[j] && ops[j].2 < ops[i].1) {
            continue;
        }
        *count += 1;
        if let Some(n) = apply(s, &ops[i].3, &ops[i].4, base) {
            done[i] = true;
            if linear(done, ops, &n, base, count) {
                return true;
            }
            done[i] = false;
        }
    }
    false
}

fn judge(logs: &[Log], base: &[String]) -> Result<(), String> {
    let history = || {
        let mut v: Vec<&Event> = logs.iter().flat_map(|l| &l.events).collect();
        v.sort_by_key(|e| e.begin);
        v.iter().map(|e| format!("\n    thread {} {:?} [{}..{}] -> {:?}", e.thread, e.call, e.begin, e.end, e.ret)).collect::<String>()
    };
    let mut ops = vec![];
    for l in logs {
        for e in &l.events {
            match &e.ret {
                Ret::Panic(p) => return Err(format!("{:?} panics: {p}{}", e.call, history())),
                Ret::Wrong(p) => return Err(format!("{:?}: {p}{}", e.call, history())),
                _ => {}
            }
            match e.call {
                Derived(i) => {
                    // the addition, then a look; the addition is that of the first call
                    ops.push((e.thread, e.begin, e.end, Decode(DERIVED[i].1), Ret::Added(true)));
                    ops.push((e.thread, e.begin, e.end, Look, e.ret.clone()));
                }
                c => ops.push((e.thread, e.begin, e.end, c, e.ret.clone())),
            }
        }
    }
    let mut n = 0;
    if !linear(&mut vec![false; ops.len()], &ops, &State::new(), base.len(), &mut n) {
        return Err(format!("the results fit no order of the calls{}", history()));
    }
    for l in logs {
        for (p, then, local) in &l.kept {
            if seen(p) != *then {
                return Err(format!("a pool obtained earlier has changed: it was {then:?}, it is {:?}{}", seen(p), history()));
            }
            let files = whole(p, base).map_err(|e| format!("{e}{}", history()))?;
            if let Some(s) = local {
                if SETS[*s].iter().any(|&f| !files.contains(FILES[f].0)) {
                    return Err(format!("a copy lacks what was added to it{}", history()));
                }
            }
        }
    }
    let end = DescriptorPool::global();
    let files = whole(&end, base).map_err(|e| format!("at the end: {e}{}", history()))?;
    for l in logs {
        for e in &l.events {
            let must: &[usize] = match (e.call, &e.ret) {
                (Decode(s), Ret::Added(true)) => SETS[s],
                (Add(f), Ret::Added(true)) => &[f][..].to_vec().leak(),
                (Derived(i), _) => SETS[DERIVED[i].1],
                _ => &[],
            };
            if let Some(f) = must.iter().find(|&&f| !files.contains(FILES[f].0)) {
                return Err(format!("the addition of {} is lost{}", FILES[*f].0, history()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- one execution, in a process of its own

#[derive(Clone, Debug)]
struct Schedule {
    scenario: usize,
    order: Vec<usize>,
    pre: Vec<(usize, usize)>,
    leaf: bool,
}

impl Schedule {
    fn line(&self) -> String {
        let o: Vec<String> = self.order.iter().map(|x| x.to_string()).collect();
        let p: Vec<String> = self.pre.iter().map(|(s, t)| format!("{s}:{t}")).collect();
        format!("{} {} {} {}", self.scenario, o.join(","), p.join(","), self.leaf as u8)
    }
    fn parse(l: &str) -> Schedule {
        let v: Vec<&str> = l.trim_end_matches('\n').split(' ').collect();
        Schedule {
            scenario: v[0].parse().unwrap(),
            order: v[1].split(',').map(|x| x.parse().unwrap()).collect(),
            pre: v[2]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (a, b) = x.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect(),
            leaf: v[3] == "1",
        }
    }
    fn show(&self) -> String {
        let s = &SCENARIOS[self.scenario];
        format!(
            "scenario {:?}{}: threads {:?}; order {:?}; preemptions (step, to thread) {:?}",
            s.name,
            if s.cold { " (the global pool does not exist yet)" } else { "" },
            s.threads,
            self.order,
            self.pre
        )
    }
}

fn execute(s: &Schedule, base: &[String]) -> String {
    let sc = &SCENARIOS[s.scenario];
    let logs: Vec<Arc<Mutex<Log>>> =
        sc.threads.iter().map(|t| Arc::new(Mutex::new(Log { events: Vec::with_capacity(t.len()), kept: Vec::with_capacity(8) }))).collect();
    let bodies = sc
        .threads
        .iter()
        .enumerate()
        .map(|(i, calls)| {
            let log = logs[i].clone();
            Box::new(move || {
                for &call in calls.iter() {
                    sched::point();
                    let mut l = log.lock().unwrap();
                    let l = &mut *l;
                    let begin = sched::stamp();
                    let ret = match guard(|| exec(call, &mut l.kept)) {
                        Ok(r) => r,
                        Err(Ok(p)) | Err(Err(p)) => Ret::Panic(p),
                    };
                    let end = sched::stamp();
                    l.events.push(Event { thread: i, begin, end, call, ret });
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let r = sched::run(bodies, &s.order, &s.pre, s.leaf);
    if r.deadlock {
        return "V the threads wait for each other for ever (no progress for 20 s)".into();
    }
    let logs: Vec<Log> = logs.into_iter().map(|l| Arc::try_unwrap(l).ok().expect("done").into_inner().unwrap_or_else(|e| e.into_inner())).collect();
    match guard(|| judge(&logs, base)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return format!("V {}", e.replace('\n', "\u{1}")),
        Err(Ok(p)) => return format!("V the pool at the end: {}", p.replace('\n', "\u{1}")),
        Err(Err(p)) => return format!("E {}", p.replace('\n', "\u{1}")),
    }
    let outcome = report::hash(&format!("{:?}", logs.iter().map(|l| l.events.iter().map(|e| (e.begin, e.end, e.ret.clone())).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let segs: Vec<String> = r.segs.iter().map(|(n, t, m)| format!("{n}:{t}:{m}")).collect();
    format!("K {} {} {} {} {}", r.steps, r.void as u8, r.blocked, outcome, segs.join(","))
}

/// The process which runs schedules, each in a child of its own.
pub fn worker(kind: &str, base: &str) -> ! {
    report::install_hook();
    unsafe { prctl(29, 1000, 0, 0, 0) };
    let base: Vec<String> = base.split(',').map(|s| s.to_owned()).collect();
    LazyLock::force(&BYTES);
    LazyLock::force(&PROTOS);
    LazyLock::force(&NAMES);
    if kind == "warm" {
        let _ = guard(DescriptorPool::global);
    }
    // the hash keys of this thread, so that all children start alike
    let _ = std::collections::HashMap::<u8, u8>::new();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let s = Schedule::parse(&l);
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut out = execute(&s, &base);
            out.push('\n');
            unsafe {
                write(1, out.as_ptr(), out.len());
                _exit(0)
            }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            let out = format!("V the process ended with status {st:#x} (abort or memory fault)\n");
            unsafe { write(1, out.as_ptr(), out.len()) };
        }
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------- the exploration

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Worker {
    fn new(cold: bool, base: &str) -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["G01-worker", if cold { "cold" } else { "warm" }, base])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Worker { child, to, from }
    }
    fn run(&mut self, s: &Schedule) -> String {
        let mut l = s.line();
        l.push('\n');
        self.to.write_all(l.as_bytes()).expect("worker");
        let mut out = String::new();
        self.from.read_line(&mut out).expect("worker");
        assert!(!out.is_empty(), "the worker has gone");
        out
    }
    fn end(mut self) {
        drop(self.to);
        let _ = self.child.wait();
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![0]];
    }
    let mut v = vec![];
    for o in orders(n - 1) {
        for i in 0..n {
            let mut x = o.clone();
            x.insert(i, n - 1);
            v.push(x);
        }
    }
    v.sort();
    v
}

/// An execution and the points at which another thread could have gone on
struct Parent {
    schedule: Schedule,
    /// (points, running thread, mask of the threads which could run instead)
    segs: Vec<(usize, usize, usize)>,
    children: u64,
}

impl Parent {
    fn new(schedule: Schedule, segs: Vec<(usize, usize, usize)>, threads: usize) -> Parent {
        let mut p = Parent { schedule, segs, children: 0 };
        p.children = p.parts(threads).map(|(_, n, others)| n as u64 * others.len() as u64).sum();
        p
    }
    /// (first step, steps, other threads) of each part after the last preemption
    fn parts(&self, threads: usize) -> impl Iterator<Item = (usize, usize, Vec<usize>)> + '_ {
        let last = self.schedule.pre.last().map_or(0, |p| p.0);
        let mut at = 0;
        self.segs.iter().map(move |&(n, run, mask)| {
            let (first, end) = ((at + 1).max(last + 1), at + n);
            at += n;
            (first, (end + 1).saturating_sub(first), (0..threads).filter(|&t| t != run && mask & (1 << t) != 0).collect())
        })
    }
    fn child(&self, mut i: u64, threads: usize, leaf: bool) -> Schedule {
        for (first, n, others) in self.parts(threads) {
            let m = n as u64 * others.len() as u64;
            if i < m {
                let mut s = self.schedule.clone();
                s.pre.push((first + (i / others.len() as u64) as usize, others[(i % others.len() as u64) as usize]));
                s.leaf = leaf;
                return s;
            }
            i -= m;
        }
        unreachable!()
    }
}

/// What is explored next: the schedules with one more preemption than these
struct Level {
    parents: Vec<Parent>,
    ends: Vec<u64>,
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn g01(c: &Ctx) {
    let base: Vec<String> = DescriptorPool::global().files().map(|f| f.name().to_owned()).collect();
    let base = base.join(",");
    c.param("scenarios", SCENARIOS.len());
    c.param("switching points", "every allocation, reallocation and release of a thread and every call");
    // On the code as it is, the bounds are reached long before; changes may make the schedules too many.
    let budget = c.pick(420.0, 840.0);
    let warm: Mutex<Vec<Worker>> = Mutex::new(vec![]);
    let cold: Mutex<Vec<Worker>> = Mutex::new(vec![]);
    let only = std::env::var("MC_PART").ok();
    let bound = |sc: &Scenario| c.pick(sc.bound.0, sc.bound.1);
    let used = |sc: &Scenario| !only.as_ref().is_some_and(|o| !sc.name.contains(o.as_str()));
    let mut levels: Vec<Level> = SCENARIOS.iter().map(|_| Level { parents: vec![], ends: vec![] }).collect();
    let mut totals = vec![0u64; SCENARIOS.len()];
    // Fewer preemptions first, over all scenarios.
    for depth in 0..=SCENARIOS.iter().map(bound).max().unwrap_or(0) {
        // The small ones first
        let size = |si: usize| levels[si].ends.last().copied().unwrap_or(0);
        let mut which: Vec<usize> = (0..SCENARIOS.len()).filter(|&si| used(&SCENARIOS[si]) && depth <= bound(&SCENARIOS[si])).collect();
        which.sort_by_key(|&si| size(si));
        for si in which {
            let sc = &SCENARIOS[si];
            if c.stopped() {
                break;
            }
            let start = c.elapsed();
            let leaf = depth == bound(sc);
            let level = std::mem::replace(&mut levels[si], Level { parents: vec![], ends: vec![] });
            let first: Vec<Schedule> = orders(sc.threads.len()).into_iter().map(|order| Schedule { scenario: si, order, pre: vec![], leaf }).collect();
            let n = if depth == 0 { first.len() as u64 } else { level.ends.last().copied().unwrap_or(0) };
            // An order which spreads over the level, for the case that the time does not suffice.
            let mut stride = ((n as f64 * 0.618) as u64).max(1);
            while gcd(stride, n.max(1)) != 1 {
                stride += 1;
            }
            let get = |i: usize| -> Schedule {
                let i = (i as u128 * stride as u128 % n as u128) as u64;
                if depth == 0 {
                    return first[i as usize].clone();
                }
                let p = level.ends.partition_point(|&e| e <= i);
                let before = if p == 0 { 0 } else { level.ends[p - 1] };
                level.parents[p].child(i - before, sc.threads.len(), leaf)
            };
            let pool = if sc.cold { &cold } else { &warm };
            let next: Mutex<Vec<Parent>> = Mutex::new(vec![]);
            let done = std::sync::atomic::AtomicU64::new(0);
            c.par(
                n as usize,
                |i| get(i).show(),
                |i| {
                    if c.elapsed() > budget {
                        return Ok(());
                    }
                    let s = get(i);
                    done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let w = pool.lock().unwrap().pop();
                    let mut w = w.unwrap_or_else(|| Worker::new(sc.cold, &base));
                    let out = w.run(&s);
                    pool.lock().unwrap().push(w);
                    let out = out.trim_end();
                    c.trace(1);
                    if let Some(e) = out.strip_prefix("V ") {
                        return Err(e.replace('\u{1}', "\n"));
                    }
                    if let Some(e) = out.strip_prefix("E ") {
                        panic!("{e}");
                    }
                    let v: Vec<&str> = out.split(' ').collect();
                    let steps: usize = v[1].parse().unwrap();
                    c.step(steps as u64);
                    c.state(&(si, v[4]));
                    c.count("executions with a blocked thread", (v[3] != "0") as u64);
                    c.count("preemptions which could not be made", (v[2] == "1") as u64);
                    if depth == 0 {
                        c.sample(|| format!("{}: {steps} points", s.show()));
                    }
                    if !leaf {
                        let segs = v.get(5).copied().unwrap_or("").split(',').filter(|x| !x.is_empty());
                        let segs = segs
                            .map(|seg| {
                                let f: Vec<usize> = seg.split(':').map(|x| x.parse().unwrap()).collect();
                                (f[0], f[1], f[2])
                            })
                            .collect();
                        let p = Parent::new(s, segs, sc.threads.len());
                        if p.children > 0 {
                            next.lock().unwrap().push(p);
                        }
                    }
                    Ok(())
                },
            );
            let done = done.into_inner();
            totals[si] += done;
            c.count("schedules", done);
            if done < n && !c.stopped() {
                c.truncate();
                c.param(&format!("not all schedules: {}, {depth} preemptions", sc.name), format!("{done} of {n}"));
            }
            let mut parents = next.into_inner().unwrap();
            parents.sort_by(|a, b| (&a.schedule.order, &a.schedule.pre).cmp(&(&b.schedule.order, &b.schedule.pre)));
            let mut at = 0;
            let ends = parents
                .iter()
                .map(|p| {
                    at += p.children;
                    at
                })
                .collect();
            levels[si] = Level { parents, ends };
            c.param(&format!("preemptions: {}", sc.name), depth);
            if std::env::var("MC_TIMES").is_ok() {
                println!("{:30} preemptions {depth} schedules {done} of {n} {:.1}s", sc.name, c.elapsed() - start);
            }
        }
    }
    for w in warm.into_inner().unwrap().into_iter().chain(cold.into_inner().unwrap()) {
        w.end();
    }
}
