//! Decides one property: `harness run ID`, or re-executes a recorded case: `harness replay FILE`.
//! See /verif/DESIGN.md.
mod cov;
mod engine;
mod gen;
mod mats;
mod model;
mod num_t;
mod p_disp;
mod p_dq;
#[cfg(feature = "fields")]
mod p_gen;
mod p_hist;
mod p_mat;
mod p_quat;
mod p_pure;
mod p_total;
mod p_tr;
mod p_vec;
#[cfg(feature = "rich")]
mod p_wide;
use engine::*;
use std::process::exit;
use std::sync::OnceLock;
use std::time::Instant;

fn all_checks() -> Vec<Check> {
    let mut o = vec![];
    p_vec::checks(&mut o);
    #[cfg(feature = "rich")]
    p_wide::checks(&mut o);
    p_mat::checks(&mut o);
    p_quat::checks(&mut o);
    p_dq::checks(&mut o);
    p_tr::checks(&mut o);
    p_disp::checks(&mut o);
    p_hist::checks(&mut o);
    #[cfg(feature = "fields")]
    p_gen::checks(&mut o);
    p_total::checks(&mut o);
    p_pure::checks(&mut o);
    o
}
fn env(k: &str, default: &str) -> String {
    std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or_else(|| default.to_string())
}
/// the ids of the known findings of a property, and all their descriptions
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(env("VERIF_KNOWN", "/verif/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut w = r.splitn(3, ' ');
            let (p, i, d) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            if p == prop {
                if let Some(i) = i.strip_prefix("id=") {
                    v.push((i.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}
/// the property that is being decided (C24 runs the checks of all the others)
static TARGET: OnceLock<String> = OnceLock::new();
fn out_file(c: &Check) -> String {
    let dir = env("VERIF_OUT", "/verif/out");
    let _ = std::fs::create_dir_all(&dir);
    let name: String = c.id().chars().map(|x| if x.is_alphanumeric() { x } else { '_' }).collect();
    format!("{}/{}-{}.replay.json", dir, TARGET.get().unwrap(), name.trim_matches('_'))
}
fn report(c: &Check, case: &Case, msg: &str, hang: bool) {
    let f = out_file(c);
    let _ = std::fs::write(&f, replay_text(c, case, msg, hang));
    println!("{} [{}]: {}", c.id(), c.prop, msg);
    println!("VIOLATION property={} replay={}", TARGET.get().unwrap(), f);
}
fn on_hang(c: &Check, case: &Case) {
    report(c, case, "the case did not end in 30 seconds", true);
    exit(1);
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let cmd = av.get(1).map(|x| x.as_str()).unwrap_or("");
    match cmd {
        "--pure" => return p_pure::child(&av[2..]),
        "--format" => return p_disp::format_child(&av[2..]),
        "run" if av.len() == 3 => supervise_run(&av[2]),
        "run-here" if av.len() == 3 => run(&av[2]),
        "fuzz-here" if av.len() >= 7 => fuzz_here(&av[2..]),
        "replay" if av.len() == 3 => supervise_replay(&av[2]),
        "replay-here" if av.len() == 3 => again(&av[2]),
        _ => {
            eprintln!("usage: harness run ID | harness replay FILE");
            exit(2)
        }
    }
}

fn child(args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("path of the harness"));
    c.args(args);
    c
}
/// the signal of a process that ended by its own fault
fn crash(s: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal().filter(|x| [4, 6, 7, 8, 11].contains(x))
}
/// The checks run in a child: when it dies (a stack overflow is not a panic) the case that killed it is
/// looked for, and is a violation.
fn supervise_run(prop: &str) {
    let s = child(&["run-here", prop]).status().expect("run the checks");
    if let Some(c) = s.code() {
        exit(c);
    }
    if crash(&s).is_none() {
        eprintln!("the checks did not end: {}", s);
        exit(2);
    }
    TARGET.set(prop.to_string()).unwrap();
    let dir = std::path::PathBuf::from(format!("{}/trace-{}", env("VERIF_OUT", "/verif/out"), prop));
    let _ = std::fs::create_dir_all(&dir);
    let s = child(&["run-here", prop]).env("VERIF_TRACE", &dir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("run the checks");
    let checks = checks_of(prop);
    for (k, seed) in engine::Trace::read(&dir) {
        let case = Case { f: vec![], i: vec![seed as i64] };
        let f = out_file(&checks[k]);
        let msg = format!("the process ended: {}", s);
        let _ = std::fs::write(&f, replay_text(&checks[k], &case, &msg, true));
        let r = child(&["replay-here", &f]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("replay");
        if crash(&r).is_some() {
            let _ = std::fs::remove_dir_all(&dir);
            let ev = env("VERIF_EVIDENCE", &format!("/verif/evidence/{}.json", prop));
            let tier = env("VERIF_TIER", "quick");
            let _ = std::fs::write(ev, format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"the case that ended the process\", \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                json_str(prop), json_str(if tier == "thorough" { "thorough" } else { "quick" }), env("VERIF_SEED", "1").parse::<u64>().unwrap_or(1), json_str(&format!("{} seed {}", checks[k].id(), seed))
            ));
            println!("{} [{}]: {}", checks[k].id(), checks[k].prop, msg);
            println!("VIOLATION property={} replay={}", prop, f);
            exit(1);
        }
        let _ = std::fs::remove_file(&f);
    }
    eprintln!("the checks ended ({}) and the case was not found", s);
    exit(2);
}

/// What the coverage-guided stage did with one check
#[derive(Default, Clone)]
struct FuzzResult {
    /// execs, evals, corpus, edges, nontrivial, known
    n: [usize; 6],
    /// the message of the failure, whose replay file is written
    failure: Option<String>,
    incomplete: Option<String>,
}
/// fuzz-here PROPERTY INDEX SEED N NOTE [K LOG]: the coverage-guided search of one check, single-threaded
fn fuzz_here(a: &[String]) {
    TARGET.set(a[0].clone()).unwrap();
    let checks = checks_of(&a[0]);
    let num = |k: usize| a[k].parse::<u64>().expect("a number");
    let c = &checks[num(1) as usize];
    std::panic::set_hook(Box::new(|_| {}));
    let ids: Vec<String> = known_findings(&a[0]).into_iter().map(|x| x.0).collect();
    let note = std::fs::File::create(&a[4]).expect("note");
    let log = (a.len() > 6).then(|| (num(5) as usize, std::fs::File::create(&a[6]).expect("log")));
    let r = fuzz(c, num(2), num(3) as usize, &ids, &note, log);
    println!("{} {} {} {} {} {}", r.execs, r.evals, r.corpus, r.edges, r.nontrivial, r.known);
    if let Some((case, msg, _)) = r.failure {
        let _ = std::fs::write(out_file(c), replay_text(c, &case, &msg, false));
        println!("{}", msg);
        exit(1);
    }
}
/// Run `fuzz-here` for one check in a process of the instrumented build
fn fuzz_one(bin: &str, prop: &str, checks: &[Check], k: usize, seed: u64, n: usize) -> FuzzResult {
    use std::io::Read;
    let c = &checks[k];
    let dir = std::path::PathBuf::from(format!("{}/fuzz-{}-{}", env("VERIF_OUT", "/verif/out"), prop, k));
    let _ = std::fs::create_dir_all(&dir);
    let go = |at: Option<usize>| {
        let mut cmd = std::process::Command::new(bin);
        cmd.args(["fuzz-here", prop, &k.to_string(), &seed.to_string(), &n.to_string()]).arg(dir.join("note"));
        if let Some(at) = at {
            cmd.arg(at.to_string()).arg(dir.join("log"));
        }
        cmd.stdin(std::process::Stdio::null()).stdout(std::fs::File::create(dir.join("out")).expect("out")).stderr(std::process::Stdio::null());
        let mut p = cmd.spawn().expect("run the instrumented build");
        let read = || {
            let mut b = [0u8; 8];
            let ok = std::fs::File::open(dir.join("note")).and_then(|mut f| f.read_exact(&mut b)).is_ok();
            ok.then(|| u64::from_le_bytes(b) as usize)
        };
        let (mut last, mut since) = (None, Instant::now());
        loop {
            if let Some(s) = p.try_wait().expect("wait") {
                return (Some(s), read());
            }
            std::thread::sleep(std::time::Duration::from_millis(3));
            let x = read();
            if x != last {
                last = x;
                since = Instant::now();
            } else if since.elapsed().as_secs() > 30 {
                let _ = p.kill();
                let _ = p.wait();
                return (None, x);
            }
        }
    };
    let (st, at) = go(None);
    let mut o = FuzzResult::default();
    let text = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
    for (x, y) in o.n.iter_mut().zip(text.lines().next().unwrap_or("").split_whitespace()) {
        *x = y.parse().unwrap_or(0);
    }
    let died = match st {
        None => Some("the case did not end in 30 seconds".to_string()),
        Some(s) => match (s.code(), crash(&s)) {
            (Some(0), _) => None,
            (Some(1), _) => {
                o.failure = Some(text.splitn(2, '\n').nth(1).unwrap_or("").trim().to_string());
                None
            }
            (_, Some(_)) => Some(format!("the process ended: {}", s)),
            _ => {
                o.incomplete = Some(format!("{}", s));
                None
            }
        },
    };
    if let Some(msg) = died {
        // once more, to learn the case
        match at {
            Some(at) => {
                go(Some(at));
                let case = logged_case(&std::fs::read(dir.join("log")).unwrap_or_default());
                let _ = std::fs::write(out_file(c), replay_text(c, &case, &msg, false));
                o.failure = Some(msg);
            }
            None => o.incomplete = Some(msg),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    o
}
fn fuzz_all(bin: &str, prop: &str, checks: &[Check], seed: u64, mult: f64) -> Vec<FuzzResult> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Vec<std::sync::Mutex<FuzzResult>> = checks.iter().map(|_| Default::default()).collect();
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= checks.len() {
                    break;
                }
                let n = ((checks[k].n as f64 * mult) as usize).max(1);
                *res[k].lock().unwrap() = fuzz_one(bin, prop, checks, k, seed, n);
            });
        }
    });
    res.into_iter().map(|x| x.into_inner().unwrap()).collect()
}
fn supervise_replay(file: &str) {
    let s = child(&["replay-here", file]).status().expect("replay");
    if crash(&s).is_some() {
        println!("the process ended: {}", s);
        let text = std::fs::read_to_string(file).unwrap_or_default();
        let (id, _, _) = parse_replay(&text);
        let c = all_checks().into_iter().find(|c| c.id() == id).unwrap();
        println!("VIOLATION property={} replay={}", c.prop, file);
        exit(1);
    }
    exit(s.code().unwrap_or(2));
}
fn checks_of(prop: &str) -> Vec<Check> {
    let mut checks = all_checks();
    if prop == "C24" {
        // it is about the process, not about the configuration
        checks.retain(|c| c.name != "quiet_process" && c.name != "any_process");
    } else {
        checks.retain(|c| c.prop == prop);
    }
    checks
}

fn run(prop: &str) {
    TARGET.set(prop.to_string()).unwrap();
    let start = Instant::now();
    let tier = env("VERIF_TIER", "quick");
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let checks = checks_of(prop);
    let mut mult = if tier == "thorough" { 200.0 } else { 8.0 };
    if prop == "C24" {
        mult /= 8.0;
    }
    let mult = env("VERIF_MULT", "").parse().unwrap_or(mult);
    if checks.is_empty() {
        eprintln!("no checks for {}", prop);
        exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let known = known_findings(prop);
    let ids: Vec<String> = known.iter().map(|x| x.0.clone()).collect();
    let (stats, fails) = run_all(&checks, seed, mult, &ids, on_hang);
    for (id, d) in &known {
        let n: usize = stats.iter().filter(|s| s.known.iter().any(|k| k.0 == id)).map(|s| s.known_count).sum();
        println!("KNOWN-FINDING: property={} {} {} (seen in {} cases of this run)", prop, id, d, n);
    }
    for f in &fails {
        report(&f.check, &f.case, &f.msg, false);
    }
    // the coverage-guided stage, when the random one found nothing
    let mut violations = fails.len();
    let bin = env("VERIF_FUZZ_BIN", "");
    let fm: f64 = env("VERIF_FUZZ_MULT", "").parse().unwrap_or(if tier == "thorough" { 100.0 } else { 4.0 });
    let fuzzed = if bin.is_empty() || !fails.is_empty() { vec![] } else { fuzz_all(&bin, prop, &checks, seed, fm) };
    for (c, f) in checks.iter().zip(&fuzzed) {
        if let Some(m) = &f.failure {
            println!("{} [{}]: {}", c.id(), c.prop, m);
            println!("VIOLATION property={} replay={}", prop, out_file(c));
            violations += 1;
        }
        if let Some(m) = &f.incomplete {
            println!("{}: the coverage-guided stage did not end: {}", c.id(), m);
        }
    }
    let guided: usize = fuzzed.iter().map(|f| f.n[1]).sum();
    let evals: usize = stats.iter().map(|s| s.evals).sum::<usize>() + guided;
    let nontriv: usize = stats.iter().map(|s| s.nontrivial.len()).sum();
    let mut per = vec![];
    let mut samples = vec![];
    let every = (checks.len() / 12).max(1);
    for (k, (c, s)) in checks.iter().zip(&stats).enumerate() {
        per.push(format!(
            "{{\"check\": {}, \"of\": {}, \"evaluations\": {}, \"outside_the_domain\": {}, \"distinct_nontrivial\": {}, \"nontrivial_when\": {}{}}}",
            json_str(&c.id()), json_str(c.prop), s.evals, s.discards, s.nontrivial.len(), json_str(c.rule),
            match fuzzed.get(k) {
                None => String::new(),
                Some(f) => format!(
                    ", \"coverage_guided\": {{\"executions\": {}, \"evaluations\": {}, \"corpus\": {}, \"edges\": {}, \"distinct_nontrivial\": {}, \"complete\": {}}}",
                    f.n[0], f.n[1], f.n[2], f.n[3], f.n[4], f.incomplete.is_none()
                ),
            }
        ));
        if k % every == 0 {
            for x in s.samples.iter().take(1) {
                samples.push(format!("{{\"check\": {}, \"case\": {}}}", json_str(&c.id()), json_str(x)));
            }
        }
    }
    let known_seen: usize = stats.iter().map(|s| s.known_count).sum();
    let known_samples: Vec<String> = stats.iter().flat_map(|s| s.known.iter().take(1)).map(|k| json_str(&format!("{}: {}", k.0, k.1))).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"coverage_guided_evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"configuration\": {},\n  \"known_finding_cases\": {},\n  \"known_finding_samples\": [{}],\n  \"checks\": [\n   {}\n  ]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(if tier == "thorough" { "thorough" } else { "quick" }),
        seed,
        evals,
        guided,
        nontriv,
        json_str("cases are drawn by the generator of each check (a sequence of floats and integers, hashed to count the distinct ones) from VERIF_SEED; non-trivial by the condition of each check in `checks`; distinct ones are counted up to 2000000 per check"),
        samples.join(",\n   "),
        json_str(if cfg!(feature = "nostd") { "no-std" } else { "default" }),
        known_seen,
        known_samples.join(", "),
        per.join(",\n   "),
        "[\"f64 reference models and tolerances in multiples of the machine epsilon (see DESIGN.md)\", \"the domains stated in DESIGN.md\"]",
        start.elapsed().as_secs_f64(),
        violations
    );
    let ev = env("VERIF_EVIDENCE", &format!("/verif/evidence/{}.json", prop));
    if let Some(d) = std::path::Path::new(&ev).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(&ev, text) {
        eprintln!("cannot write {}: {}", ev, e);
        exit(2);
    }
    println!("{}: {} cases in {} checks ({} of them coverage-guided), {} distinct and non-trivial, {} violations", prop, evals, checks.len(), guided, nontriv, violations);
    exit(if violations == 0 { 0 } else { 1 });
}

fn again(file: &str) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            exit(2)
        }
    };
    let (id, case, hang) = parse_replay(&text);
    let c = match all_checks().into_iter().find(|c| c.id() == id) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", id);
            exit(2)
        }
    };
    TARGET.set(c.prop.to_string()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let show = format!("{:?}", case);
    // it may not end
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(40));
        println!("the case did not end");
        println!("VIOLATION property={} replay={}", c.prop, std::env::args().nth(2).unwrap());
        exit(1);
    });
    let mut r = replay(&c, case.clone(), hang);
    // what depends on the number of calls in the process
    let start = std::time::Instant::now();
    while c.prop == "C29" && r.is_ok() && start.elapsed().as_secs() < 15 {
        r = replay(&c, case.clone(), hang);
    }
    match r {
        Ok(_) => println!("{}: the case passes {}", id, show),
        Err(Stop::Discard) => println!("{}: the case is outside of the domain {}", id, show),
        Err(Stop::Known(k, m)) => println!("KNOWN-FINDING: property={} {} {}", c.prop, k, m),
        Err(Stop::Fail(m)) => {
            println!("{}: {} {}", id, m, show);
            println!("VIOLATION property={} replay={}", c.prop, file);
            exit(1)
        }
    }
}
