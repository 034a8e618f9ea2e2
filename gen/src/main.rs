//! B01: the code which prost-reflect-build and the derive macro make, enumerated, compiled and run.
#[allow(dead_code)]
#[path = "../../mc/src/report.rs"]
mod report;
mod shapes;

use prost::Message;
use report::{no_panic, Ctx};
use shapes::{Api, Conf, Mode};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::Command;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = args.get(2).is_some_and(|a| a == "thorough");
    report::install_hook();
    if args.get(1).is_some_and(|a| a == "prepare") {
        // Builds the dependencies of the generated crates.
        let work = report::root().join("target").join("gen-work").join("prepare");
        let r = compile(&work, &["fn main() {}\n".to_owned()]);
        let _ = std::fs::remove_dir_all(&work);
        match r {
            Ok(Ok(())) => std::process::exit(0),
            e => println!("ERROR: {e:?}"),
        }
        std::process::exit(2);
    }
    let c = Ctx::new("B01", thorough);
    let work = report::root().join("target").join("gen-work").join(if thorough { "t" } else { "q" });
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    let work = work.canonicalize().unwrap();
    match report::guard(|| run(&c, &work)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            println!("ERROR in the harness: {e}");
            std::process::exit(2);
        }
        Err(Ok(p)) => c.fail(format!("{p}\n  case: while preparing the exploration")),
        Err(Err(p)) => {
            println!("ERROR in the harness: {p}");
            std::process::exit(2);
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    std::process::exit(c.finish());
}

fn run(c: &Ctx, work: &Path) -> Result<(), String> {
    shapes::errors(c, work);
    let confs = shapes::all(c.thorough);
    c.param("names", "{A, B}, each absent, a message or an enum");
    c.param("depth of nesting", c.pick(2, 3));
    c.param("packages", "none, p, q.p and pairs of them; two files, imported or not");
    // Generate.
    let mut built: BTreeMap<usize, Built> = BTreeMap::new();
    let results: std::sync::Mutex<Vec<(usize, Result<Built, String>)>> = Default::default();
    // `compile_protos` takes its directories from the environment, so that runs which use it come one at a time.
    let env = std::sync::RwLock::new(());
    c.par(
        confs.len(),
        |i| confs[i].text(),
        |i| {
            let r = if matches!(confs[i].api, Api::CompileProtos | Api::Relative) {
                let _g = env.write().unwrap();
                generate(&confs[i], i, work)
            } else {
                let _g = env.read().unwrap();
                generate(&confs[i], i, work)
            };
            results.lock().unwrap().push((i, r));
            Ok(())
        },
    );
    for (i, r) in results.into_inner().unwrap() {
        c.step(1);
        c.state(&("generate", i));
        match r {
            Ok(b) => {
                built.insert(i, b);
            }
            Err(e) => c.fail(format!("{e}\n  case: {}", confs[i].text())),
        }
    }
    c.count("configurations generated", built.len() as u64);
    if c.stopped() {
        return Ok(());
    }

    // Compile, without those which do not after the first time.
    let mut left: BTreeSet<usize> = built.keys().copied().collect();
    let mut forms = shapes::forms();
    for round in 0..4 {
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("{:.1} s: compiling {} configurations", c.elapsed(), left.len());
        }
        let srcs: Vec<String> = (0..SHARDS).map(|k| program(&built, &left, &forms, k)).collect();
        let errors = match compile(work, &srcs)? {
            Ok(()) => break,
            Err(e) => e,
        };
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut badf: BTreeMap<usize, String> = BTreeMap::new();
        for e in &errors {
            if let Some(i) = e.file.strip_prefix(&format!("{}/c", work.display())).and_then(|r| r.split('/').next()).and_then(|r| r.parse().ok()) {
                bad.entry(i).or_insert_with(|| format!("{}:{}: {}", e.file, e.line, e.text));
            } else if e.file.ends_with("main.rs") {
                let l = srcs[e.shard].lines().nth(e.line - 1).unwrap_or("");
                if let Some(i) = tag(l, "/*c") {
                    bad.entry(i).or_insert_with(|| e.text.clone());
                } else if let Some(i) = tag(l, "/*form") {
                    badf.entry(i).or_insert_with(|| e.text.clone());
                }
            }
        }
        if bad.is_empty() && badf.is_empty() || round == 3 {
            return Err(format!("the generated crate does not compile: {:?}", errors.first()));
        }
        // Make sure that it is not the sandbox which fails.
        if round == 0 {
            if let Err(e) = compile(work, &["fn main() {}\n".to_owned()])? {
                return Err(format!("an empty crate does not compile: {e:?}"));
            }
        }
        for (i, e) in bad {
            left.remove(&i);
            c.fail(format!("the generated code does not compile: {e}\n  case: {}", confs[i].text()));
        }
        for (i, e) in badf {
            if let Some(f) = forms.iter_mut().find(|f| f.id == i) {
                c.fail(format!("an allowed form of the derive arguments does not compile: {e}\n  case: {}", f.attrs));
            }
            forms.retain(|f| f.id != i);
        }
    }
    if std::env::var_os("MC_TIMES").is_some() {
        eprintln!("{:.1} s: running", c.elapsed());
    }

    // Run each configuration in a process of its own.
    let exe = |i: usize| report::root().join(format!("target/genrun/debug/gencheck{}", i % SHARDS));
    let outputs: std::sync::Mutex<BTreeMap<usize, String>> = Default::default();
    let ids: Vec<usize> = left.iter().copied().collect();
    c.par(
        ids.len(),
        |i| confs[ids[i]].text(),
        |i| {
            let o = Command::new(exe(ids[i])).arg(format!("c{}", ids[i])).output().map_err(|e| e.to_string())?;
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            if !o.status.success() {
                return Err(format!("the generated code fails: {t} {}", String::from_utf8_lossy(&o.stderr)));
            }
            outputs.lock().unwrap().insert(ids[i], t);
            Ok(())
        },
    );
    for (i, t) in outputs.into_inner().unwrap() {
        let conf = &confs[i];
        let mut seen = BTreeMap::new();
        for l in t.lines() {
            let mut p = l.split('\t');
            let (id, name, res) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            c.trace(1);
            c.step(3);
            seen.insert(id.parse::<usize>().map_err(|e| format!("{e}: {l}"))?, ());
            let want = &conf.messages[&id.parse::<usize>().unwrap()];
            c.state(&(i, want, conf.mode == Mode::Pool));
            if name != want {
                c.fail(format!("descriptor() of the type generated for {want} is that of {name}\n  case: {}", conf.text()));
            } else if res != "ok" {
                c.fail(format!("the type generated for {want}: {res}\n  case: {}", conf.text()));
            }
        }
        if seen.len() != conf.messages.len() {
            return Err(format!("{} of {} types were found: {}", seen.len(), conf.messages.len(), conf.text()));
        }
        c.count("generated types run", seen.len() as u64);
        if i % 97 == 0 {
            c.sample(|| format!("{} -> {}", conf.text(), t.replace('\n', "; ")));
        }
    }
    for f in &forms {
        let o = Command::new(exe(f.id)).arg(format!("form{}", f.id)).output().map_err(|e| e.to_string())?;
        c.trace(1);
        c.step(1);
        c.state(&("form", f.id));
        if !o.status.success() {
            c.fail(format!("a type with allowed derive arguments fails: {}\n  case: {}", String::from_utf8_lossy(&o.stderr), f.attrs));
        }
    }
    c.count("forms of the derive arguments", forms.len() as u64);
    bad_forms(c, work)
}

fn tag(line: &str, what: &str) -> Option<usize> {
    let r = &line[line.find(what)? + what.len()..];
    r[..r.find("*/")?].parse().ok()
}

struct Built {
    /// Rust paths below the module of the configuration, with the marker of the message
    types: Vec<(String, usize)>,
    /// Packages, with the file generated for each
    packages: Vec<(String, PathBuf)>,
    fds: PathBuf,
}

fn generate(conf: &Conf, i: usize, work: &Path) -> Result<Built, String> {
    let dir = work.join(format!("c{i}"));
    let (inc, out) = (dir.join("proto"), dir.join("out"));
    std::fs::create_dir_all(&inc).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    for (n, t) in &conf.files {
        std::fs::write(inc.join(n), t).unwrap();
    }
    let protos: Vec<PathBuf> = conf.roots.iter().map(|n| if conf.api == Api::Named { n.into() } else { inc.join(n) }).collect();
    let incs = [inc.clone()];
    // The schemas themselves must be good.
    let plain = dir.join("plain");
    std::fs::create_dir_all(&plain).unwrap();
    prost_build::Config::new().out_dir(&plain).compile_protos(&protos, &incs).unwrap_or_else(|e| panic!("{e}: {}", conf.text()));
    let mut fds = dir.join("fds.bin");
    if conf.api == Api::CompileProtos {
        std::env::set_var("OUT_DIR", &out);
        fds = out.join("file_descriptor_set.bin");
    }
    let mut path = fds.clone();
    if conf.api == Api::Relative {
        std::env::set_var("OUT_DIR", &out);
        let cwd = std::env::current_dir().unwrap().canonicalize().unwrap();
        // from the current directory up to the root and down again, where it is not below
        path = fds.strip_prefix(&cwd).map(|p| p.to_owned()).unwrap_or_else(|_| cwd.components().skip(1).map(|_| "..").collect::<PathBuf>().join(fds.strip_prefix("/").unwrap()));
        assert!(path.is_relative());
    }
    let mut b = no_panic("Builder::new", prost_reflect_build::Builder::new)?;
    if conf.api != Api::CompileProtos {
        b.file_descriptor_set_path(&path);
    }
    match conf.mode {
        Mode::Pool => b.descriptor_pool(format!("crate::c{i}::POOL")),
        Mode::Bytes => b.file_descriptor_set_bytes(format!("crate::c{i}::BYTES")),
    };
    let mut cfg = prost_build::Config::new();
    cfg.out_dir(&out);
    if conf.api == Api::Custom {
        cfg.type_attribute(".", "#[doc = \"of the user\"]").message_attribute(".", "#[allow(clippy::all)]").btree_map(["."]).bytes(["."]).disable_comments(["."]);
    }
    let what = format!("{:?}", conf.api);
    no_panic(&what, || match conf.api {
        Api::CompileProtos => b.compile_protos(&protos, &incs),
        Api::WithConfig | Api::Relative | Api::Custom => b.compile_protos_with_config(cfg, &protos, &incs),
        Api::Configure | Api::Named => b.configure(&mut cfg, &protos, &incs).and_then(|_| cfg.compile_protos(&protos, &incs)),
    })?
    .map_err(|e| format!("{what} fails: {e}"))?;
    // The descriptor set lies where it should, and has all files.
    let set = std::fs::read(&fds).map_err(|e| format!("no descriptor set at {}: {e}", fds.display()))?;
    let set = prost_types::FileDescriptorSet::decode(&set[..]).map_err(|e| format!("a bad descriptor set: {e}"))?;
    for (n, _) in &conf.files {
        if !set.file.iter().any(|f| f.name() == n) {
            return Err(format!("the descriptor set lacks {n}"));
        }
    }
    let mut packages = vec![];
    let mut types = vec![];
    for p in &conf.packages {
        let f = out.join(if p.is_empty() { "_.rs".into() } else { format!("{p}.rs") });
        let t = std::fs::read_to_string(&f).map_err(|e| format!("nothing was generated for the package {p:?}: {e}"))?;
        let ast = syn::parse_file(&t).map_err(|e| format!("the generated code does not parse: {e}"))?;
        if conf.api == Api::Custom && t.matches("of the user").count() < t.matches("pub struct").count() {
            return Err(format!("the attributes of the user are missing: {t}"));
        }
        let module: String = p.split('.').filter(|p| !p.is_empty()).map(|p| format!("::{p}")).collect();
        structs(&ast.items, &module, &mut types);
        packages.push((p.clone(), f));
    }
    if types.len() != conf.messages.len() {
        panic!("{} types for {} messages: {}", types.len(), conf.messages.len(), conf.text());
    }
    Ok(Built { types, packages, fds })
}

/// The structs with a marker field, with their paths.
fn structs(items: &[syn::Item], module: &str, out: &mut Vec<(String, usize)>) {
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    structs(items, &format!("{module}::{}", m.ident), out);
                }
            }
            syn::Item::Struct(s) => {
                for f in &s.fields {
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    if let Some(id) = n.strip_prefix("marker_").and_then(|n| n.parse().ok()) {
                        out.push((format!("{module}::{}", s.ident), id));
                    }
                }
            }
            _ => {}
        }
    }
}

/// The program for a part of the configurations and forms
fn program(built: &BTreeMap<usize, Built>, left: &BTreeSet<usize>, forms: &[shapes::Form], shard: usize) -> String {
    let mut s = include_str!("template.rs").replace("XBYTES", &format!("{:?}", shapes::x_bytes()));
    let mut calls = String::new();
    for i in left.iter().filter(|&i| i % SHARDS == shard) {
        let b = &built[i];
        let _ = writeln!(s, "pub mod c{i} {{");
        let _ = writeln!(s, "pub static BYTES: &[u8] = include_bytes!({:?});", b.fds);
        let _ = writeln!(s, "pub static POOL: std::sync::LazyLock<prost_reflect::DescriptorPool> = std::sync::LazyLock::new(|| prost_reflect::DescriptorPool::decode(BYTES).unwrap());");
        let _ = writeln!(s, "pub mod g {{");
        modules(&b.packages, "", &mut s);
        let _ = writeln!(s, "}}\npub fn run() {{");
        for (p, id) in &b.types {
            let _ = writeln!(s, "/*c{i}*/ crate::check::<g{p}>({id});");
        }
        let _ = writeln!(s, "}}\n}}");
        let _ = writeln!(calls, "\"c{i}\" => c{i}::run(),");
    }
    for f in forms.iter().filter(|f| f.id % SHARDS == shard) {
        let _ = writeln!(s, "/*form{0}*/ {1} #[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)] {2} pub struct Form{0} {{ #[prost(int32, tag = \"1\")] a: i32 }}", f.id, f.before, f.attrs);
        let _ = writeln!(calls, "\"form{0}\" => form::<Form{0}>(),", f.id);
    }
    let _ = writeln!(s, "fn main() {{ match std::env::args().nth(1).unwrap().as_str() {{\n{calls}_ => std::process::exit(9) }} }}");
    s
}

fn modules(packages: &[(String, PathBuf)], at: &str, s: &mut String) {
    for (p, f) in packages {
        if p == at {
            let _ = writeln!(s, "include!({f:?});");
        }
    }
    let mut subs = BTreeSet::new();
    for (p, _) in packages {
        let rest = if at.is_empty() { Some(p.as_str()) } else { p.strip_prefix(at).and_then(|r| r.strip_prefix('.')) };
        if let Some(r) = rest.filter(|r| !r.is_empty()) {
            subs.insert(r.split('.').next().unwrap().to_owned());
        }
    }
    for m in subs {
        let _ = writeln!(s, "pub mod {m} {{");
        modules(packages, &if at.is_empty() { m.clone() } else { format!("{at}.{m}") }, s);
        let _ = writeln!(s, "}}");
    }
}

const SHARDS: usize = 8;

#[derive(Debug)]
struct Error {
    shard: usize,
    file: String,
    line: usize,
    text: String,
}

fn compile(work: &Path, srcs: &[String]) -> Result<Result<(), Vec<Error>>, String> {
    let dir = work.join("gencheck");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let members: Vec<String> = (0..srcs.len()).map(|k| format!("s{k}")).collect();
    std::fs::write(dir.join("Cargo.toml"), format!("[workspace]\nresolver = \"2\"\nmembers = {members:?}\n[profile.dev]\ndebug = false\nincremental = false\n")).unwrap();
    let mut lock = include_str!("../Cargo.lock").to_owned();
    let own = lock.split("[[package]]").find(|p| p.contains("name = \"gen\"")).unwrap().to_owned();
    let all: Vec<String> = (0..srcs.len()).map(|k| own.replace("name = \"gen\"", &format!("name = \"gencheck{k}\""))).collect();
    lock = lock.replace(&own, &all.join("[[package]]"));
    std::fs::write(dir.join("Cargo.lock"), lock).unwrap();
    for (k, src) in srcs.iter().enumerate() {
        let d = dir.join(format!("s{k}"));
        std::fs::create_dir_all(d.join("src")).unwrap();
        std::fs::write(d.join("src/main.rs"), src).unwrap();
        std::fs::write(d.join("Cargo.toml"), include_str!("gencheck.toml").replace("NAME", &format!("gencheck{k}"))).unwrap();
    }
    let o = Command::new("cargo")
        .args(["build", "--offline", "-q", "--keep-going", "--message-format", "json"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", report::root().join("target/genrun"))
        .env_remove("OUT_DIR")
        .output()
        .map_err(|e| format!("cargo: {e}"))?;
    if o.status.success() {
        return Ok(Ok(()));
    }
    let mut errors = vec![];
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let m = &v["message"];
        if v["reason"] != "compiler-message" || m["level"] != "error" {
            continue;
        }
        let Some(shard) = v["target"]["name"].as_str().and_then(|n| n.strip_prefix("gencheck")).and_then(|n| n.parse().ok()) else {
            return Err(format!("a dependency does not compile: {}", m["rendered"]));
        };
        for sp in m["spans"].as_array().into_iter().flatten() {
            // Errors within a macro are at the place where it is used.
            let mut sp = sp;
            while sp["expansion"]["span"].is_object() && !sp["file_name"].as_str().is_some_and(|f| f.starts_with('/') || f.ends_with("main.rs")) {
                sp = &sp["expansion"]["span"];
            }
            errors.push(Error {
                shard,
                file: sp["file_name"].as_str().unwrap_or("").to_owned(),
                line: sp["line_start"].as_u64().unwrap_or(1) as usize,
                text: m["message"].as_str().unwrap_or("").to_owned(),
            });
        }
    }
    if errors.is_empty() {
        return Err(format!("cargo fails: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(Err(errors))
}

/// Each bad form of the arguments must be an error of its own.
fn bad_forms(c: &Ctx, work: &Path) -> Result<(), String> {
    let forms = shapes::bad_forms();
    let mut s = String::from("#![allow(dead_code)]\nfn main() {}\nmod x { pub static POOL: std::sync::LazyLock<prost_reflect::DescriptorPool> = std::sync::LazyLock::new(prost_reflect::DescriptorPool::global); pub static BYTES: &[u8] = &[]; }\n");
    for (i, f) in forms.iter().enumerate() {
        let _ = writeln!(s, "/*form{i}*/ #[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)] {f} pub struct Bad{i} {{}}");
    }
    let errors = match compile(work, &[s.clone()])? {
        Ok(()) => vec![],
        Err(e) => e,
    };
    let bad: BTreeSet<usize> = errors.iter().filter_map(|e| tag(s.lines().nth(e.line - 1)?, "/*form")).collect();
    for (i, f) in forms.iter().enumerate() {
        c.trace(1);
        c.step(1);
        c.state(&("bad", i));
        if !bad.contains(&i) {
            c.fail(format!("the derive macro accepts wrong arguments: {f}"));
        }
    }
    c.count("wrong derive arguments", forms.len() as u64);
    Ok(())
}
