//! The command line: `run ID` supervises `worker ID`, which runs one check and writes its evidence.

use crate::checks;
use crate::engine::{self, campaign, case_seed, install_panic_hook, run_case, shrink, CaseEnd, Check, Cx, Fail, Src};
use serde_json::{json, Value};
use std::fs;
use std::io::Write;
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn out_dir(sub: &str) -> PathBuf {
    let d = root().join("out").join(sub);
    let _ = fs::create_dir_all(&d);
    d
}

const FIXED: u64 = u64::MAX - 1;

pub fn main() -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    match &args[..] {
        ["run", id] => run(id),
        ["worker", id] => with_check(id, worker),
        ["one", id, index] => {
            let index = index.to_string();
            with_check(id, |c| big(move || one(c, &index)))
        }
        ["replay", file] => replay(file),
        ["reduce", file] => {
            let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("file")).expect("json");
            big(move || {
                let (t, d) = crate::oracle::reduce(v["query"].as_str().unwrap_or(""), &v["doc"]);
                println!("{t}\n{d}");
                0
            })
        }
        ["first", seed] => checks::first_use(seed.parse().unwrap_or(0)),
        ["deep", kind] => crate::known::deep(kind),
        ["list"] => {
            for c in checks::all() {
                println!("{} quick={} thorough={}", c.id, c.quick, c.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run|worker ID | one ID INDEX | replay FILE | list");
            2
        }
    }
}

fn with_check(id: &str, f: impl FnOnce(&'static Check) -> i32) -> i32 {
    match checks::all().iter().find(|c| c.id == id) {
        Some(c) => f(c),
        None => {
            eprintln!("no check {id}");
            2
        }
    }
}

/// On a thread with a large stack
fn big(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(engine::STACK).spawn(f).unwrap().join().unwrap_or(2)
}

fn write_evidence(id: &str, coverage: Value, assumptions: &[&str], wall: f64, violations: u64) {
    let e = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let d = root().join("evidence");
    let _ = fs::create_dir_all(&d);
    fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&e).unwrap() + "\n").unwrap();
}

fn write_replay(id: &str, body: Value) -> PathBuf {
    let f = out_dir("replays").join(format!("{id}.json"));
    fs::write(&f, serde_json::to_string_pretty(&body).unwrap() + "\n").unwrap();
    f.canonicalize().unwrap_or(f)
}

fn violation(id: &str, file: &std::path::Path) -> i32 {
    println!("VIOLATION property={id} replay={}", file.display());
    let _ = std::io::stdout().flush();
    1
}

fn journal_path(id: &str) -> PathBuf {
    out_dir("journal").join(id)
}

fn count(c: &Check) -> u64 {
    let n = if thorough() { c.thorough } else { c.quick };
    match std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        Some(k) => k,
        // a part of the cases only, for experiments
        None => match std::env::var("VERIF_PART").ok().and_then(|s| s.parse::<u64>().ok()) {
            Some(d) if d > 0 => n / d,
            _ => n,
        },
    }
}

fn worker(c: &'static Check) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let j = fs::File::create(journal_path(c.id)).expect("journal");
    let mut fixed = 0;
    if let Some(f) = c.fixed {
        use std::os::unix::fs::FileExt;
        let _ = j.write_all_at(&(FIXED + 1).to_le_bytes(), 0);
        let r = std::thread::Builder::new()
            .stack_size(engine::STACK)
            .spawn(move || std::panic::catch_unwind(|| f(thorough())).map_err(|_| engine::last_panic()))
            .unwrap()
            .join()
            .unwrap();
        match r {
            Ok(Ok(n)) => fixed = n,
            Ok(Err(f)) => {
                println!("{}: {}", c.id, f.msg);
                let file = write_replay(c.id, json!({"property": c.id, "kind": "fixed", "message": f.msg}));
                let cov = json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": c.rule, "samples": [f.msg], "note": "stopped at a listed case"});
                write_evidence(c.id, cov, c.assumptions, t0.elapsed().as_secs_f64(), 1);
                return violation(c.id, &file);
            }
            Err(m) => {
                eprintln!("{}: the check itself failed: {m}", c.id);
                return 2;
            }
        }
        let _ = j.write_all_at(&0u64.to_le_bytes(), 0);
    }
    let s = campaign(c, seed, count(c), Some(&j));
    if let Some((i, m)) = s.harness_error {
        eprintln!("{}: the check itself failed on case {i}: {m}", c.id);
        return 2;
    }
    let mut labels: Vec<(String, u64)> = s.labels.into_iter().collect();
    labels.sort_by_key(|l| std::cmp::Reverse(l.1));
    let mut samples: Vec<String> = s.samples.into_values().collect();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, choices, f)) = s.failure {
        let (choices, f, runs) = {
            let c2: &'static Check = c;
            let r = std::thread::Builder::new()
                .stack_size(engine::STACK)
                .spawn(move || shrink(c2, choices, f))
                .unwrap()
                .join();
            match r {
                Ok(r) => r,
                Err(_) => {
                    eprintln!("{}: shrinking failed", c.id);
                    return 2;
                }
            }
        };
        println!("{}: case {i} (shrunk in {runs} runs): {}", c.id, f.msg);
        samples.insert(0, f.msg.clone());
        let file = write_replay(
            c.id,
            json!({"property": c.id, "kind": "choices", "seed": seed, "index": i, "choices": choices, "message": f.msg}),
        );
        violations = 1;
        code = violation(c.id, &file);
    }
    let labels: serde_json::Map<String, Value> = labels.into_iter().map(|(k, v)| (k, v.into())).collect();
    let cov = json!({
        "evaluations": s.evaluations,
        "distinct_nontrivial": s.distinct.len(),
        "rule": c.rule,
        "samples": samples,
        "labels": labels,
        "listed_cases_run_first": fixed,
        "exhaustive": false,
    });
    write_evidence(c.id, cov, c.assumptions, t0.elapsed().as_secs_f64(), violations);
    if code == 0 {
        for l in crate::known::lines(c.id) {
            println!("KNOWN-FINDING: property={} {l}", c.id);
        }
        println!("{}: held on {} cases ({} distinct non-trivial) in {:.1} s", c.id, s.evaluations, s.distinct.len(), t0.elapsed().as_secs_f64());
    }
    code
}

/// One case of a coverage-guided search; a failure is shrunk, written and ends the process
pub fn fuzz_case(id: &str, src: &mut Src) {
    let c = checks::all().iter().find(|c| c.id == id).expect("a check");
    let mut cx = Cx::new(false);
    match run_case(c, src, &mut cx) {
        CaseEnd::Ok => {}
        CaseEnd::Harness(m) => {
            eprintln!("{id}: the check itself failed: {m}");
            std::process::abort();
        }
        CaseEnd::Fail(f) => {
            let choices = src.rec.clone();
            let r = std::thread::Builder::new().stack_size(engine::STACK).spawn(move || shrink(c, choices, f)).unwrap().join();
            let (choices, f, runs) = r.expect("shrinking");
            println!("{id}: a case found by coverage (shrunk in {runs} runs): {}", f.msg);
            let file = write_replay(id, json!({"property": id, "kind": "choices", "choices": choices, "message": f.msg}));
            violation(id, &file);
            std::process::abort();
        }
    }
}

fn one(c: &Check, index: &str) -> i32 {
    let i: u64 = index.parse().expect("index");
    if i == FIXED {
        return match c.fixed.map(|f| f(thorough())) {
            Some(Err(f)) => {
                println!("{}", f.msg);
                1
            }
            _ => 0,
        };
    }
    let mut src = Src::random(case_seed(seed(), c.id, i));
    let mut cx = Cx::new(true);
    report(run_case(c, &mut src, &mut cx), &cx)
}

fn report(end: CaseEnd, cx: &Cx) -> i32 {
    if let Some(s) = &cx.sample {
        println!("{s}");
    }
    println!("labels {:?}", cx.labels);
    match end {
        CaseEnd::Ok => {
            println!("holds");
            0
        }
        CaseEnd::Fail(Fail { msg }) => {
            println!("fails: {msg}");
            1
        }
        CaseEnd::Harness(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("").to_string();
    with_check(&id, |c| {
        let index = match v["kind"].as_str() {
            Some("choices") => {
                let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().filter_map(Value::as_u64).collect();
                return big(move || {
                    let mut src = Src::replay(choices);
                    let mut cx = Cx::new(true);
                    report(run_case(c, &mut src, &mut cx), &cx)
                });
            }
            Some("fixed") => FIXED,
            _ => v["index"].as_u64().expect("index"),
        };
        if let Some(s) = v["seed"].as_u64() {
            std::env::set_var("VERIF_SEED", s.to_string());
        }
        big(move || one(c, &index.to_string()))
    })
}

/// Run `cmd` to its end, or give up on it
fn wait(mut cmd: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let limit = Duration::from_secs(if thorough() { 6 * 3600 } else { 700 });
    let mut cmd = Command::new(&exe);
    cmd.args(["worker", id]);
    let Some(status) = wait(cmd, limit) else {
        eprintln!("{id}: no answer within {} s", limit.as_secs());
        return 2;
    };
    if let Some(code) = status.code() {
        if code != 101 {
            return code;
        }
    }
    // The process died. Find out which of the cases that were running does that on its own.
    eprintln!("{id}: the worker ended with {status}");
    let j = fs::read(journal_path(id)).unwrap_or_default();
    let mut running: Vec<u64> =
        j.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|i| *i > 0).map(|i| i - 1).collect();
    running.sort_unstable();
    for i in running {
        let mut cmd = Command::new(&exe);
        cmd.args(["one", id, &i.to_string()]);
        let Some(s) = wait(cmd, Duration::from_secs(120)) else { continue };
        if s.code().is_none() {
            let msg = format!("the process dies ({s}) on case {i}");
            println!("{id}: {msg}");
            let file = write_replay(id, json!({"property": id, "kind": "index", "seed": seed(), "index": i, "message": msg}));
            let cov = json!({"evaluations": i + 1, "distinct_nontrivial": 1, "rule": "see the check", "samples": [msg]});
            write_evidence(id, cov, &[], t0.elapsed().as_secs_f64(), 1);
            return violation(id, &file);
        }
    }
    eprintln!("{id}: the crash does not recur");
    2
}
