//! Runs the workloads of a property in worker processes, and turns what they report into a verdict
//! and an evidence file.
//!
//! Verdicts are three-valued: `violated` (an oracle refuted a case, the library panicked, crashed
//! the process, or did not finish a case even alone and with a generous limit), `held`, or
//! inconclusive (exit 2: a worker was killed, or an error of the harness itself).

use crate::ctx::Ctx;
use crate::registry::{properties, Kind, Property, Workload};
use crate::rng::{hash_str, splitmix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Sender};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A case which takes longer than its workload's limit is looked at separately, and if it does not
/// finish alone within this time (and its limit) either, it is considered to hang.
const SOLO_LIMIT: Duration = Duration::from_secs(150);
const BATCH: usize = 16;

fn case_seed(seed: u64, property: &str, workload: &str, index: usize) -> u64 {
    let mut x = seed
        .wrapping_mul(0x9e3779b97f4a7c15)
        .wrapping_add(hash_str(property))
        .wrapping_add(hash_str(workload).rotate_left(17))
        .wrapping_add((index as u64).wrapping_mul(0xd1342543de82ef95));
    splitmix(&mut x)
}

fn find(id: &str) -> Option<Property> {
    properties().into_iter().find(|p| p.id == id)
}

// --- Worker: `worker PROPERTY WORKLOAD THOROUGH SEED SECONDS INDEX STEP END`

pub static PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

fn hook_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line()));
        let (file, line) = loc.unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        // These end the process, and are told by what is on stderr
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("{} at {}:{}", msg, file, line);
        }
        let own = file.starts_with("src/") || file.contains("/harness/src/");
        *PANIC.lock().unwrap() = Some((format!("panic: {} at {}:{}", msg, file, line), own));
    }));
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn json_string(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

enum Outcome {
    Held,
    Violated(String),
    Broken(String),
}

fn run_case(run: crate::registry::CaseFn, seed: u64, ctx: &mut Ctx) -> Outcome {
    let mut rng = Rng::new(seed);
    match catch_unwind(AssertUnwindSafe(|| run(&mut rng, ctx))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(e)) => match e.strip_prefix("HARNESS: ") {
            Some(e) => Outcome::Broken(e.to_string()),
            None => Outcome::Violated(e),
        },
        Err(_) => match PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() {
            Some((m, false)) => Outcome::Violated(m),
            Some((m, true)) => Outcome::Broken(m),
            None => Outcome::Broken("unknown panic".into()),
        },
    }
}

pub fn worker(args: &[String]) -> i32 {
    let prop = find(&args[0]).unwrap();
    let wl = prop.workloads.iter().find(|w| w.name == args[1]).unwrap();
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let (thorough, seed, seconds) = (n(2) == 1, n(3), n(4));
    let (index, step, end) = (n(5) as usize, n(6) as usize, n(7) as usize);
    hook_panics();
    let start = Instant::now();
    let mut ctx = Ctx {
        thorough,
        ..Default::default()
    };
    let mut i = index;
    let mut batch = 0;
    let flush = |ctx: &mut Ctx, i: usize| {
        // Written by hand: the libraries for this have their own undefined behaviour, for Miri
        let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, n)| format!("{:?}:{}", k, n)).collect::<Vec<_>>().join(",");
        let cases: Vec<String> = ctx.cases.iter().map(|(h, n)| format!("[\"{}\",{}]", h, n)).collect();
        println!(
            "\n@@data {{\"next\":{},\"counters\":{{{}}},\"maxima\":{{{}}},\"cases\":[{}],\"sample\":{}}}",
            i,
            map(&ctx.counters),
            map(&ctx.maxima),
            cases.join(","),
            ctx.sample.take().map_or("null".to_string(), |s| json_string(&s))
        );
        ctx.counters.clear();
        ctx.cases.clear();
    };
    while i < end && start.elapsed() < Duration::from_secs(seconds) {
        println!("\n@@begin {}", i);
        let s = case_seed(seed, &args[0], &args[1], i);
        // Deep recursion belongs to the library's own limits: use an ordinary main-thread sized stack
        let out = run_case(wl.run, s, &mut ctx);
        match out {
            Outcome::Held => {}
            Outcome::Violated(m) => {
                println!("\n@@violated {} {}", i, one_line(&m));
                return 0;
            }
            Outcome::Broken(m) => {
                println!("\n@@broken {} {}", i, one_line(&m));
                return 0;
            }
        }
        i += step;
        batch += 1;
        if batch % BATCH == 0 || cfg!(miri) {
            flush(&mut ctx, i);
        }
    }
    flush(&mut ctx, i);
    println!("\n@@done {}", i);
    0
}

// --- Parent

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct Slot {
    child: Option<Child>,
    current: Option<usize>,
    since: Instant,
    finished: bool,
}

fn spawn(
    id: &str,
    wl: &Workload,
    thorough: bool,
    seed: u64,
    seconds: u64,
    range: (usize, usize, usize),
) -> Child {
    let exe = std::env::current_exe().unwrap();
    let build = exe.ancestors().nth(3).unwrap().to_path_buf();
    let mut cmd = Command::new("bash");
    match wl.kind {
        // Address space is limited, so that runaway memory is an abort and not an out-of-memory kill
        Kind::Native => {
            cmd.args(["-c", "ulimit -c 0; ulimit -v 4000000; exec \"$0\" \"$@\""]).arg(exe);
        }
        Kind::Asan => {
            cmd.args(["-c", "ulimit -c 0; exec \"$0\" \"$@\""])
                .arg(build.join("asan/x86_64-unknown-linux-gnu/debug/ncheck"))
                .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:allocator_may_return_null=0");
        }
        Kind::Miri => {
            cmd.args(["-c", "ulimit -c 0; exec \"$0\" \"$@\"", "cargo", "+nightly", "miri", "run", "--offline", "-q"])
                .args(["--manifest-path", "harness/Cargo.toml", "--target-dir"])
                .arg(build.join("miri"))
                .arg("--")
                // As check.sh has built it
                .env("CARGO_PROFILE_DEV_DEBUG_ASSERTIONS", "false")
                .env("CARGO_PROFILE_DEV_OVERFLOW_CHECKS", "false")
                .env("MIRIFLAGS", "-Zmiri-symbolic-alignment-check");
        }
    }
    cmd
        .arg("worker")
        .args([id, wl.name])
        .args([
            (thorough as usize).to_string(),
            seed.to_string(),
            seconds.to_string(),
            range.0.to_string(),
            range.1.to_string(),
            range.2.to_string(),
        ])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap()
}

fn listen(n: usize, child: &mut Child, tx: Sender<Msg>) {
    let out = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut buf = vec![];
        while let Ok(k) = r.read_until(b'\n', &mut buf) {
            if k == 0 {
                break;
            }
            if buf.starts_with(b"@@") {
                let s = String::from_utf8_lossy(&buf).trim_end().to_string();
                if tx.send(Msg::Line(n, s)).is_err() {
                    return;
                }
            }
            buf.clear();
        }
        let _ = tx.send(Msg::Eof(n));
    });
}

#[derive(Default)]
struct Totals {
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    executed: u64,
}

impl Totals {
    fn absorb(&mut self, v: &Value) {
        for (k, n) in v["counters"].as_object().unwrap() {
            *self.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["maxima"].as_object().unwrap() {
            let e = self.maxima.entry(k.clone()).or_insert(0);
            *e = (*e).max(n.as_u64().unwrap());
        }
        for c in v["cases"].as_array().unwrap() {
            let h: u64 = c[0].as_str().unwrap().parse().unwrap();
            self.evaluations += 1;
            self.distinct.insert(h);
            if c[1].as_bool().unwrap() {
                self.nontrivial.insert(h);
            }
        }
        if let Some(s) = v["sample"].as_str() {
            if self.samples.len() < 6 {
                self.samples.push(s.to_string());
            }
        }
    }
}

enum Verdict {
    Violated { index: usize, what: String },
    Inconclusive(String),
    Held,
}

/// CPU time which a process has used so far
fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

/// Run a single case in a process of its own
fn solo(id: &str, wl: &Workload, thorough: bool, seed: u64, index: usize) -> Verdict {
    let mut child = spawn(id, wl, thorough, seed, 3600, (index, 1, index + 1));
    let (tx, rx) = channel();
    listen(0, &mut child, tx);
    let err = child.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut s = String::new();
        for l in BufReader::new(err).lines().map_while(Result::ok).take(2000) {
            s.push_str(&l);
            s.push('\n');
        }
        s
    });
    let start = Instant::now();
    let mut verdict = None;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(_, l)) => {
                if let Some(m) = l.strip_prefix("@@violated ") {
                    let (_, m) = m.split_once(' ').unwrap_or(("", m));
                    verdict = Some(Verdict::Violated { index, what: m.to_string() });
                } else if let Some(m) = l.strip_prefix("@@broken ") {
                    verdict = Some(Verdict::Inconclusive(m.to_string()));
                } else if l.starts_with("@@done") {
                    verdict = Some(Verdict::Held);
                }
            }
            Ok(Msg::Eof(_)) => break,
            Err(_) => {
                if start.elapsed() > SOLO_LIMIT.max(Duration::from_secs(wl.limit)) {
                    let cpu = cpu_seconds(child.id());
                    let _ = child.kill();
                    let _ = child.wait();
                    // A busy machine is not a hang: it has to have had the time
                    if wl.kind != Kind::Native || (wl.procs > 1 && cpu < SOLO_LIMIT.as_secs() as f64 / 4.0) {
                        return Verdict::Inconclusive(format!("case {} takes too long ({} s of CPU time)", index, cpu));
                    }
                    return Verdict::Violated {
                        index,
                        what: format!(
                            "no answer within {} s and {} s of CPU time, alone in a process (a case takes milliseconds)",
                            SOLO_LIMIT.as_secs(),
                            cpu
                        ),
                    };
                }
            }
        }
    }
    let status = child.wait().unwrap();
    let errs = errs.join().unwrap_or_default();
    if let Some(v) = verdict {
        return v;
    }
    use std::os::unix::process::ExitStatusExt;
    match status.signal() {
        Some(9) => Verdict::Inconclusive("worker was killed".into()),
        None if status.code() == Some(0) => Verdict::Inconclusive("worker ended early".into()),
        _ if wl.kind != Kind::Native
            && !["AddressSanitizer", "Undefined Behavior", "unsafe precondition", "panic in a function that cannot unwind"]
                .iter()
                .any(|m| errs.contains(m)) =>
        {
            let tail: String = errs.chars().take(2000).collect();
            Verdict::Inconclusive(format!("{}, for a reason other than a memory error: {}", status, tail))
        }
        _ => {
            let interesting = |l: &str| l.contains("Undefined Behavior") || l.contains("AddressSanitizer") || l.contains("panicked");
            let from = errs.lines().position(interesting).unwrap_or(0);
            let tail: Vec<&str> = errs.lines().skip(from).take(40).collect();
            Verdict::Violated {
                index,
                what: format!("the process died: {} {}", status, tail.join(" / ")),
            }
        }
    }
}

fn run_workload(
    id: &str,
    wl: &Workload,
    thorough: bool,
    seed: u64,
    cases: usize,
    seconds: u64,
    totals: &mut Totals,
) -> Verdict {
    let (tx, rx) = channel();
    let workers = wl.procs.min(cases.max(1));
    let mut slots: Vec<Slot> = (0..workers)
        .map(|n| {
            let mut child = spawn(id, wl, thorough, seed, seconds, (n, workers, cases));
            listen(n, &mut child, tx.clone());
            // Whatever they write to stderr is not needed
            let mut err = child.stderr.take().unwrap();
            std::thread::spawn(move || std::io::copy(&mut err, &mut std::io::sink()));
            Slot {
                child: Some(child),
                current: None,
                since: Instant::now(),
                finished: false,
            }
        })
        .collect();
    let begin = Instant::now();
    let mut suspects: Vec<usize> = vec![];
    let mut verdict = Verdict::Held;
    let mut first: Option<(usize, String)> = None;
    let mut alive = workers;
    while alive > 0 {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(n, l)) => {
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match tag {
                    "@@begin" => {
                        slots[n].current = rest.parse().ok();
                        slots[n].since = Instant::now();
                        totals.executed += 1;
                    }
                    "@@data" => {
                        if let Ok(v) = serde_json::from_str::<Value>(rest) {
                            totals.absorb(&v);
                        }
                    }
                    "@@violated" => {
                        let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
                        let i = i.parse().unwrap_or(0);
                        slots[n].finished = true;
                        if first.as_ref().map_or(true, |(j, _)| i < *j) {
                            first = Some((i, m.to_string()));
                        }
                    }
                    "@@broken" => {
                        slots[n].finished = true;
                        verdict = Verdict::Inconclusive(format!("error of the harness: {}", rest));
                    }
                    "@@done" => slots[n].finished = true,
                    _ => {}
                }
            }
            Ok(Msg::Eof(n)) => {
                alive -= 1;
                if let Some(mut c) = slots[n].child.take() {
                    let _ = c.wait();
                }
                if !slots[n].finished {
                    if let Some(i) = slots[n].current {
                        suspects.push(i);
                    } else {
                        verdict = Verdict::Inconclusive("a worker did not start".into());
                    }
                }
            }
            Err(_) => {}
        }
        for s in slots.iter_mut() {
            if let Some(c) = s.child.as_mut() {
                // Time stands nearly still inside of Miri, so it has to be stopped from here
                if wl.kind == Kind::Miri && begin.elapsed() > Duration::from_secs(seconds) {
                    s.finished = true;
                    let _ = c.kill();
                }
                let limit = if wl.kind == Kind::Native { Duration::from_secs(wl.limit) } else { SOLO_LIMIT };
                let stuck = s.current.is_some() && s.since.elapsed() > limit && !s.finished;
                if stuck || first.is_some() {
                    let _ = c.kill();
                    if first.is_some() {
                        s.finished = true;
                    }
                }
            }
        }
    }
    if let Some((index, what)) = first {
        return Verdict::Violated { index, what };
    }
    for i in suspects.into_iter().take(3) {
        totals.counters.entry("cases_repeated_alone".into()).and_modify(|n| *n += 1).or_insert(1);
        match solo(id, wl, thorough, seed, i) {
            Verdict::Held => {}
            v @ Verdict::Violated { .. } => return v,
            v => verdict = v,
        }
    }
    verdict
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(default)
}

/// Findings which are known and not repaired: `known: property=<id> signature=<text>`, matched
/// as a part of what the case reports
fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} signature=", id)))
        .map(|s| s.to_string())
        .collect()
}

pub fn run(id: &str) -> i32 {
    let start = Instant::now();
    let prop = match find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            return 2;
        }
    };
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seconds = env_u64("NCHECK_SECONDS", if thorough { 600 } else { 70 });
    let scale = env_u64("NCHECK_PERCENT", 100) as usize;
    let mut totals = Totals::default();
    let mut verdict = Verdict::Held;
    let mut failed = "";
    // (Those with a limit of their own take the time they take)
    let weight: Vec<u64> = prop.workloads.iter().map(|w| (w.limit <= 45) as u64).collect();
    let mut per_workload = BTreeMap::new();
    let known = known_findings(id);
    for (w, k) in prop.workloads.iter().zip(&weight) {
        let cases = if thorough { w.cases.1 } else { w.cases.0 };
        let share = (seconds * k / weight.iter().sum::<u64>()).max(1);
        let before = totals.executed;
        let v = run_workload(id, w, thorough, seed, (cases * scale / 100).max(1), share, &mut totals);
        per_workload.insert(w.name, json!({"executed": totals.executed - before, "planned": cases}));
        match v {
            Verdict::Held => {}
            Verdict::Violated { ref what, .. } if known.iter().any(|k| what.contains(k.as_str())) => {
                // Whatever else may fail is looked for all the same
                let k = known.iter().find(|k| what.contains(k.as_str())).unwrap();
                println!("KNOWN-FINDING: property={} {}", id, k);
            }
            v => {
                failed = w.name;
                verdict = v;
                break;
            }
        }
    }
    let violations = matches!(verdict, Verdict::Violated { .. }) as u64;
    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": totals.evaluations,
            "distinct_nontrivial": totals.nontrivial.len(),
            "distinct": totals.distinct.len(),
            "executions": totals.executed,
            "rule": prop.rule,
            "samples": totals.samples,
            "observed": totals.counters,
            "largest": totals.maxima,
            "workloads": per_workload,
        },
        "assumptions": ["held on the executions counted here; nothing is claimed about others"],
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    if std::env::var("NCHECK_NO_EVIDENCE").is_err() {
        let _ = std::fs::create_dir_all("evidence");
        let part = std::env::var("NCHECK_EVIDENCE").unwrap_or(format!("evidence/{}.json", id));
        let _ = std::fs::write(part, serde_json::to_string_pretty(&evidence).unwrap() + "\n");
    }
    match verdict {
        Verdict::Violated { index, what } => {
            let _ = std::fs::create_dir_all("replays");
            let path = format!("replays/{}-{}-{}-{}.json", id, failed, seed, index);
            let replay = json!({
                "property": id, "workload": failed, "thorough": thorough, "seed": seed, "index": index,
                "what": what,
                "command": format!("./check.sh replay {}", path),
            });
            let mut f = std::fs::File::create(&path).unwrap();
            let _ = writeln!(f, "{}", serde_json::to_string_pretty(&replay).unwrap());
            let mut short: String = what.chars().take(1500).collect();
            if short.len() < what.len() {
                short.push_str("...");
            }
            println!("{}", short);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Verdict::Inconclusive(m) => {
            println!("inconclusive: {}", m);
            2
        }
        Verdict::Held => {
            if totals.nontrivial.is_empty() {
                println!("inconclusive: nothing was observed");
                return 2;
            }
            println!(
                "{}: held on {} evaluations ({} distinct and non-trivial), {:.0} s",
                id,
                totals.evaluations,
                totals.nontrivial.len(),
                start.elapsed().as_secs_f64()
            );
            0
        }
    }
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let s = |k: &str| v[k].as_str().unwrap().to_string();
    let id = s("property");
    let prop = find(&id).unwrap();
    let wl = prop.workloads.iter().find(|w| w.name == s("workload")).unwrap();
    match solo(
        &id,
        wl,
        v["thorough"].as_bool().unwrap(),
        v["seed"].as_u64().unwrap(),
        v["index"].as_u64().unwrap() as usize,
    ) {
        Verdict::Violated { what, .. } => {
            println!("{}\nVIOLATION property={} replay={}", what, id, path);
            1
        }
        Verdict::Inconclusive(m) => {
            println!("inconclusive: {}", m);
            2
        }
        Verdict::Held => {
            println!("held");
            0
        }
    }
}
