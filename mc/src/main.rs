#![allow(dead_code, clippy::all)]
mod alloc;
mod descr;
mod gen;
mod json;
mod mutate;
mod optref;
mod props;
mod report;
mod sched;
mod schema;
mod text;
mod uni;
mod value;
mod views;
mod wire;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use report::Ctx;
use std::os::unix::process::ExitStatusExt;
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc PROPERTY quick|thorough");
        std::process::exit(2);
    }
    let (id, tier) = (args[1].as_str(), args[2].as_str());
    if id == "G01-worker" {
        props::global::worker(tier, args.get(3).map_or("", |s| s));
    }
    if std::env::var_os("MC_CHILD").is_none() {
        std::process::exit(supervise(id, tier));
    }
    report::install_hook();
    let ctx = Arc::new(Ctx::new(id, tier == "thorough"));
    ctx.watchdog();
    let c2 = ctx.clone();
    let id2 = id.to_owned();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || report::guard(|| run(&id2, &c2)))
        .unwrap();
    match h.join().unwrap() {
        Ok(true) => {}
        Ok(false) => {
            println!("ERROR: no such property {id}");
            std::process::exit(2);
        }
        Err(Ok(p)) => ctx.fail(format!("{p}\n  case: while preparing the exploration")),
        Err(Err(p)) => {
            println!("ERROR in the harness: {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}

fn run(id: &str, c: &Ctx) -> bool {
    match id {
        "W01" => props::wire::w01(c),
        "W02" => props::wire::w02(c),
        "W03" => props::wire::w03(c),
        "W04" => props::wire::w04(c),
        "W05" => props::wire::w05(c),
        "W06" => props::robust::w06(c),
        "F01" => props::fields::f01(c),
        "F02" => props::fields::f02(c),
        "R01" => props::reflect::r01(c),
        "G01" => props::global::g01(c),
        "J01" => props::json::j01(c),
        "J02" => props::json::j02(c),
        "J03" => props::json::j03(c),
        "J04" => props::json::j04(c),
        "T01" => props::text::t01(c),
        "T02" => props::text::t02(c),
        "T03" => props::text::t03(c),
        "DUMP" => props::descr::dump(c),
        "D01" => props::descr::d01(c),
        "D02" => props::descr::d02(c),
        "D04" => props::descr::d04(c),
        "D07" => props::schemas::d07(c),
        "D05" => props::schemas::d05(c),
        "D06" => props::options::d06(c),
        "D03" => props::descr::d03(c),
        _ => return false,
    }
    true
}

/// Runs the check in a child process, so that a crash of the code under test is a verdict too.
fn supervise(id: &str, tier: &str) -> i32 {
    let t = std::time::Instant::now();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args([id, tier])
        .env("MC_CHILD", "1")
        .env("RUST_BACKTRACE", "0")
        .status()
        .expect("spawn");
    match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (_, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            let dir = report::root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{id}.replay.txt"));
            let msg = format!("property {id}\nthe process running the exploration was killed by signal {sig} (abort, stack overflow or memory fault in the code under test){}\nreplay: mc {id} {tier}\n", current(id));
            let _ = std::fs::write(&p, &msg);
            report::write_evidence(
                id,
                &serde_json::json!({"property": id, "tier": tier, "seed": 1, "level": "model_checking",
                    "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [msg]},
                    "wall_s": t.elapsed().as_secs_f64(), "violations": 1}),
            );
            println!("VIOLATION property={id} replay={}", p.display());
            1
        }
        (_, s) => {
            println!("ERROR: child ended by signal {s:?}");
            2
        }
    }
}

/// The case which was running when the process died, if it is one of those which are noted.
fn current(id: &str) -> String {
    let t = std::fs::read_to_string(report::root().join("evidence").join(format!("{id}.current.txt"))).unwrap_or_default();
    if t.is_empty() {
        t
    } else {
        format!("\n  case: {t}")
    }
}
