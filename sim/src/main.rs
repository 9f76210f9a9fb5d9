//! Deterministic simulation of claxon with fault injection: the runner.

mod alloc;
mod bits;
#[macro_use]
mod cx;
mod drive;
mod gen;
mod model;
mod props;
mod reader;
mod rng;
mod shrink;
mod simfs;
mod steps;

use cx::*;
use props::Prop;
use rng::{mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

/// The build profile: with debug assertions and overflow checks, or as shipped.
pub const PROFILE: &str = if steps::ON { "stepped" } else if cfg!(debug_assertions) { "release" } else { "shipped" };

extern "C" { fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32; }

/// A run that allocates without bound must die alone, not take others along.
fn limit_memory() {
    const RLIMIT_DATA: i32 = 2;
    unsafe { setrlimit(RLIMIT_DATA, &[3 << 30, 3 << 30]); }
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub hash: u64,
    pub events: u64,
    pub lines: Vec<String>,
    pub tape: Vec<u64>,
}

/// One run: a function of the choices and of the code under test only.
pub fn exec(p: &Prop, src: Src, thorough: bool, trace: bool) -> Outcome {
    let _ = alloc::take_redzone();
    let mut cx = Cx::new(src, thorough, trace);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx)));
    alloc::pause();
    let mut violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) if e.is::<reader::SimHang>() => Some(Violation { class: "hang".into(), detail: "the budget of read calls was exceeded".into() }),
        Err(_) if drive::last_panic().contains("repo/src/") => Some(Violation { class: "panic".into(), detail: drive::last_panic() }),
        Err(_) => Some(Violation { class: "HARNESS".into(), detail: "the harness itself panicked: ".to_string() + &drive::last_panic() }),
    };
    if alloc::take_redzone() && violation.is_none() {
        violation = Some(Violation { class: "memory-corruption".into(), detail: "a red zone behind an allocation was overwritten".into() });
    }
    let mut l = cx.log.0.lock().unwrap_or_else(|e| e.into_inner());
    let lines = std::mem::take(&mut l.lines);
    let (hash, events) = (l.hash, l.events);
    drop(l);
    Outcome { violation, stats: cx.st, hash, events, lines, tape: cx.src.rec }
}

pub fn source(p: &Prop, seed: u64, idx: u64) -> Src {
    let tag = p.id.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut s = Src::from_seed(mix(mix(seed, tag), idx));
    s.forced = (p.forced)(idx);
    s
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn one_line(s: &str) -> String { s.replace('\n', " ").replace('\t', " ") }

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    drive::install_panic_hook();
    let prop = arg(&args, "--prop").and_then(|id| props::all().into_iter().find(|p| p.id == id));
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier").map_or(false, |t| t == "thorough");
    let code = match cmd.as_str() {
        "check" => check(&args, prop, seed, thorough),
        "work" | "one" | "trace" | "shrink" | "replay" => {
            limit_memory();
            // Library code runs on a stack of ordinary size.
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match cmd.as_str() {
                "work" => work(&args, prop.unwrap(), seed, thorough),
                "one" => one(&args, prop.unwrap(), seed, thorough),
                "trace" => trace(&args, prop.unwrap(), seed, thorough),
                "shrink" => shrink::main(&args, prop.unwrap(), thorough),
                _ => replay(&args),
            }).unwrap();
            h.join().unwrap_or(3)
        }
        "list" => { for p in props::all() { println!("{}", p.id) } 0 }
        _ => { eprintln!("usage: dst check|replay|work|one|trace|shrink|list"); 2 }
    };
    std::process::exit(code);
}

fn num(args: &[String], n: &str) -> u64 { arg(args, n).and_then(|s| s.parse().ok()).unwrap_or(0) }

/// Runs the indices of one chunk, reporting on stdout.
fn work(args: &[String], p: Prop, seed: u64, thorough: bool) -> i32 {
    let (from, to) = (num(args, "--from"), num(args, "--to"));
    let verbose = args.iter().any(|a| a == "--hashes");
    let out = std::io::stdout();
    let mut hashes: Vec<u8> = Vec::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sim_ns, mut reads, mut nontrivial, mut violations, mut events) = (0u64, 0u64, 0u64, 0, 0u64);
    for idx in from..to {
        { let mut o = out.lock(); let _ = writeln!(o, "B {}", idx); let _ = o.flush(); }
        let oc = exec(&p, source(&p, seed, idx), thorough, false);
        for (k, v) in &oc.stats.counts { bump(&mut counts, k, *v) }
        for (k, v) in &oc.stats.faults { bump(&mut faults, k, *v) }
        sim_ns += oc.stats.sim_ns;
        reads += oc.stats.reads;
        events += oc.events;
        if oc.stats.nontrivial { nontrivial += 1; hashes.extend_from_slice(&oc.hash.to_le_bytes()) }
        if verbose { println!("H {} {:016x} {} {}", idx, oc.hash, oc.events, oc.violation.is_some()) }
        if let Some(v) = oc.violation {
            println!("V {} {}\t{}", idx, v.class, one_line(&v.detail));
            violations += 1;
            if violations >= 20 { break }
        }
    }
    if let Some(f) = arg(args, "--out") { let _ = std::fs::write(f, &hashes); }
    for (k, v) in &counts { println!("C {} {}", k, v) }
    for (k, v) in &faults { println!("F {} {}", k, v) }
    println!("T {} {} {} {}", sim_ns, reads, nontrivial, events);
    println!("E");
    0
}

/// One run whose tape survives a crash.
fn one(args: &[String], p: Prop, seed: u64, thorough: bool) -> i32 {
    let mut src = match arg(args, "--tape") {
        Some(f) => Src::from_tape(shrink::read_tape(&f)),
        None => source(&p, seed, num(args, "--idx")),
    };
    if let Some(f) = arg(args, "--spill") { src.spill = std::fs::File::create(f).ok() }
    let oc = exec(&p, src, thorough, false);
    match oc.violation {
        Some(v) => { println!("V 0 {}\t{}", v.class, one_line(&v.detail)); 1 }
        None => 0,
    }
}

fn trace(args: &[String], p: Prop, seed: u64, thorough: bool) -> i32 {
    let oc = exec(&p, source(&p, seed, num(args, "--idx")), thorough, true);
    println!("hash={:016x} events={} draws={} nontrivial={}", oc.hash, oc.events, oc.tape.len(), oc.stats.nontrivial);
    for l in oc.lines { println!("{}", l) }
    if let Some(v) = oc.violation { println!("violation {}: {}", v.class, v.detail) }
    0
}

fn replay(args: &[String]) -> i32 {
    let file = args.get(1).cloned().unwrap_or_default();
    let text = match std::fs::read_to_string(&file) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", file, e); return 2 } };
    let get = |k: &str| text.lines().take_while(|l| !l.starts_with("--- ")).find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
    let id = get("property=").unwrap_or_default();
    let class = get("class=").unwrap_or_default();
    let thorough = get("tier=").map_or(false, |t| t == "thorough");
    let quiet = args.iter().any(|a| a == "--quiet");
    let p = match props::all().into_iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("no property {}", id); return 2 } };
    // A crash or a hang is replayed in a child of its own.
    if class.starts_with("crash") || class == "hang-cpu" {
        if !args.iter().any(|a| a == "--inner") {
            let (st, _) = run_child(&["replay", &file, "--inner"], Duration::from_secs(200));
            let got = match st { Some(c) if c.success() => String::new(), Some(c) => shrink::crash_class(&c), None => "hang-cpu".into() };
            println!("replay: outcome {:?}, recorded {:?}", got, class);
            if got == class || (!got.is_empty() && class.starts_with("crash") && got.starts_with("crash")) {
                println!("VIOLATION property={} replay={}", id, file);
                return 1;
            }
            return 0;
        }
    }
    let mut last = None;
    if let Some(seq) = get("sequence=") {
        let f: Vec<u64> = seq.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let (seed, from, to) = (f[0], f[1], f[2]);
        for idx in from..=to { last = Some(exec(&p, source(&p, seed, idx), thorough, idx == to && !quiet)) }
    } else {
        let tape: Vec<u64> = get("tape=").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
        last = Some(exec(&p, Src::from_tape(tape), thorough, !quiet));
    }
    let oc = last.unwrap();
    for l in &oc.lines { println!("{}", l) }
    match oc.violation {
        Some(v) => {
            println!("violation class={} hash={:016x}", v.class, oc.hash);
            println!("{}", one_line(&v.detail));
            if v.class == class { println!("VIOLATION property={} replay={}", id, file); 1 } else { 4 }
        }
        None => { println!("replay: no violation"); 0 }
    }
}

pub fn run_child(a: &[&str], limit: Duration) -> (Option<std::process::ExitStatus>, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(a).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let out = c.stdout.take().unwrap();
    let t = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut BufReader::new(out), &mut s); s });
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() { return (Some(st), t.join().unwrap_or_default()) }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return (None, t.join().unwrap_or_default());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

#[derive(Clone, Debug)]
struct Found { idx: u64, class: String, detail: String, chunk_from: u64 }

#[derive(Default)]
struct Total {
    counts: BTreeMap<String, u64>, faults: BTreeMap<String, u64>,
    sim_ns: u64, reads: u64, nontrivial: u64, events: u64, runs: u64,
    hashes: HashSet<u64>, found: Vec<Found>, harness: Vec<String>, known: BTreeMap<String, u64>,
}

/// `finding: property=<id> class=<class> match=<text in the detail> -- <what fails>`
fn known_findings(root: &Path, id: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (p, l) = l.split_once(" class=")?;
        if p != id { return None }
        let (class, l) = l.split_once(" match=")?;
        let (m, what) = l.split_once(" -- ")?;
        Some((class.to_string(), m.to_string(), what.to_string()))
    }).collect()
}

fn check(args: &[String], prop: Option<Prop>, seed: u64, thorough: bool) -> i32 {
    let p = match prop { Some(p) => p, None => { eprintln!("no such property"); return 2 } };
    let t0 = Instant::now();
    let root = PathBuf::from(arg(args, "--root").unwrap_or_else(|| "/verif".into()));
    let tier = if thorough { "thorough" } else { "quick" };
    let total = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = Duration::from_secs(arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 5 * 3600 } else { 420 }));
    let workers = arg(args, "--workers").and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(16));
    let tmp = std::env::temp_dir().join(format!("dst-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    if let Err(e) = simfs::selftest() { eprintln!("self-test failed: {}", e); return 2 }

    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let capped = AtomicBool::new(false);
    let sum = Mutex::new(Total::default());
    let known = known_findings(&root, p.id);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop_at, capped, sum, tmp, p, known) = (&next, &stop_at, &capped, &sum, &tmp, &p, &known);
            s.spawn(move || loop {
                // The first chunks are single runs, so that scheduled heavy runs spread out.
                let c = next.fetch_add(1, Ordering::SeqCst);
                let heads = p.heavy;
                let (from, to) = if c < heads { (c, c + 1) } else { let f = heads + (c - heads) * p.chunk; (f, (f + p.chunk).min(total)) };
                if from >= total || from > stop_at.load(Ordering::SeqCst) { break }
                if t0.elapsed() > cap { capped.store(true, Ordering::SeqCst); break }
                let hf = tmp.join(format!("h{}", w));
                let found = chunk(p, seed, tier, from, to, &hf, sum);
                let mut su = sum.lock().unwrap();
                if let Ok(b) = std::fs::read(&hf) {
                    for x in b.chunks_exact(8) { su.hashes.insert(u64::from_le_bytes(x.try_into().unwrap())); }
                }
                let _ = std::fs::remove_file(&hf);
                for f in found {
                    if f.class == "HARNESS" { su.harness.push(format!("run {}: {}", f.idx, f.detail)); continue }
                    if let Some(k) = known.iter().find(|k| k.0 == f.class && f.detail.contains(&k.1)) {
                        *su.known.entry(k.2.clone()).or_insert(0) += 1;
                        continue;
                    }
                    stop_at.fetch_min(f.idx, Ordering::SeqCst);
                    su.found.push(f);
                }
            });
        }
    });
    let mut su = sum.into_inner().unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    let searched = t0.elapsed();
    su.found.sort_by_key(|f| f.idx);
    for k in &known { println!("KNOWN-FINDING: property={} {} (seen {} times)", p.id, k.2, su.known.get(&k.2).unwrap_or(&0)) }

    let mut code = 0;
    if let Some(f) = su.found.first().cloned() {
        let rp = root.join("replays");
        let _ = std::fs::create_dir_all(&rp);
        let file = rp.join(format!("{}-{}.replay", p.id, f.idx));
        let note = shrink::report(&p, seed, tier, f.idx, &f.class, &f.detail, f.chunk_from, &file);
        println!("{}", note);
        println!("VIOLATION property={} replay={}", p.id, file.display());
        code = 1;
    } else if !su.harness.is_empty() {
        eprintln!("harness errors: {:?}", &su.harness[..su.harness.len().min(3)]);
        code = 2;
    }
    // What was covered.
    let mut samples = Vec::new();
    for i in [p.heavy, p.heavy + 1, p.heavy + 2] {
        let (a, b) = (seed.to_string(), i.to_string());
        let (_, out) = run_child(&["trace", "--prop", p.id, "--seed", &a, "--tier", tier, "--idx", &b], Duration::from_secs(60));
        let mut lines: Vec<&str> = out.lines().collect();
        if lines.len() > 24 { lines.truncate(24); lines.push("...") }
        samples.push(format!("seed {} run {}: {}", seed, i, lines.join("; ")));
    }
    let secs = searched.as_secs_f64().max(1e-6);
    let mut j = String::new();
    let _ = write!(j, "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", q(p.id), q(tier), seed);
    let _ = write!(j, "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", su.runs, su.hashes.len(),
        q(&format!("one evaluation is one simulated run, a function of (seed, run index); {} A run is non-trivial if {} Distinct: the 64-bit hash of its whole event schedule (every read call with position and outcome, every fault, every operation result) differs.", p.rule, p.nontrivial)));
    let _ = write!(j, "    \"samples\": [{}],\n", samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "    \"nontrivial_runs\": {},\n    \"runs_per_hour\": {},\n    \"simulated_seconds\": {:.6},\n    \"simulated_read_calls\": {},\n    \"events\": {},\n",
        su.nontrivial, (su.runs as f64 / secs * 3600.0) as u64, su.sim_ns as f64 / 1e9, su.reads, su.events);
    let _ = write!(j, "    \"faults_injected\": {},\n    \"reached\": {},\n", obj(&su.faults), obj(&su.counts));
    if let Some(x) = arg(args, "--extra") { let _ = write!(j, "    \"also_run\": {},\n", q(&x)); }
    let _ = write!(j, "    \"build_profile\": {},\n", q(match PROFILE { "release" => "optimised, debug assertions and overflow checks on", "stepped" => "optimised, debug assertions and overflow checks on, every basic block, load and store instrumented", _ => "optimised, as shipped" }));
    let _ = write!(j, "    \"wall_cap_reached\": {},\n    \"workers\": {},\n", capped.load(Ordering::SeqCst), workers);
    let _ = write!(j, "    \"real_components\": \"all of claxon, compiled from /repo/src\",\n    \"simulated_components\": {}\n  }},\n",
        q(p.simulated));
    let _ = write!(j, "  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|a| q(a)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), su.found.len());
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", p.id)), j) { eprintln!("evidence: {}", e); return 2 }
    println!("{} {}: {} runs, {} distinct, {} read calls, {:.1} simulated s, {:.1} s, {}", p.id, tier, su.runs, su.hashes.len(), su.reads,
        su.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "NOT held" });
    code
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn obj(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))
}

/// User and system time that a process of ours has used, and whether it is stopped.
fn cpu_of(pid: u32) -> Option<(f64, bool)> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    let tick = 100.0;
    Some(((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / tick, f[0] == "T"))
}

/// Runs one chunk in a child process; a child that dies or stalls is a finding,
/// if it does so twice: the first time may be the fault of the machine.
fn chunk(p: &Prop, seed: u64, tier: &str, from: u64, to: u64, hf: &Path, sum: &Mutex<Total>) -> Vec<Found> {
    let (found, ended) = chunk_once(p, seed, tier, from, to, hf, sum, false);
    if ended { return found }
    let _ = std::fs::remove_file(hf);
    chunk_once(p, seed, tier, from, to, hf, sum, true).0
}

fn chunk_once(p: &Prop, seed: u64, tier: &str, from: u64, to: u64, hf: &Path, sum: &Mutex<Total>, again: bool) -> (Vec<Found>, bool) {
    let exe = std::env::current_exe().unwrap();
    let mut found = Vec::new();
    let mut c = match Command::new(exe)
        .args(["work", "--prop", p.id, "--seed", &seed.to_string(), "--tier", tier, "--from", &from.to_string(), "--to", &to.to_string(), "--out"])
        .arg(hf).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (vec![Found { idx: from, class: "HARNESS".into(), detail: format!("spawn: {}", e), chunk_from: from }], again),
    };
    let out = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let t = std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } } });
    let mut at = from;
    let mut done = false;
    let mut stalled = false;
    let (mut counts, mut faults): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let mut tot = (0u64, 0u64, 0u64, 0u64);
    let mut begun = 0u64;
    // One run may use this much processor time, or be blocked this long.
    let (max_cpu, max_idle) = if tier == "quick" { (100.0, 240) } else { (400.0, 900) };
    let (mut cpu0, mut cpu, mut idle) = (None, 0.0, Instant::now());
    loop {
        match rx.recv_timeout(Duration::from_secs(5)) {
            Ok(l) => {
                cpu0 = None;
                idle = Instant::now();
                let (k, rest) = l.split_at(l.len().min(2));
                match k.trim() {
                    "B" => { at = rest.parse().unwrap_or(at); begun += 1 }
                    "V" => if let Some((i, r)) = rest.split_once(' ') {
                        let (class, detail) = r.split_once('\t').unwrap_or((r, ""));
                        found.push(Found { idx: i.parse().unwrap_or(at), class: class.into(), detail: detail.into(), chunk_from: from });
                    },
                    "C" => if let Some((k, v)) = rest.rsplit_once(' ') { bump(&mut counts, k, v.parse().unwrap_or(0)) },
                    "F" => if let Some((k, v)) = rest.rsplit_once(' ') { bump(&mut faults, k, v.parse().unwrap_or(0)) },
                    "T" => { let f: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect(); if f.len() == 4 { tot = (f[0], f[1], f[2], f[3]) } }
                    "E" => done = true,
                    _ => {}
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => if let Some((t, stopped)) = cpu_of(c.id()) {
                if stopped || t > cpu + 0.1 { idle = Instant::now() }
                cpu = t;
                if t - *cpu0.get_or_insert(t) > max_cpu || idle.elapsed().as_secs() > max_idle { stalled = true; let _ = c.kill(); break }
            },
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    let st = c.wait().ok();
    drop(rx);
    let _ = t.join();
    if stalled {
        found.push(Found { idx: at, class: "hang-cpu".into(), detail: "the run did not finish; the worker was stopped".into(), chunk_from: from });
    } else if !done {
        let class = st.map_or("crash".to_string(), |s| shrink::crash_class(&s));
        found.push(Found { idx: at, class: class.clone(), detail: if class == "crash-too-much-work" { "an operation took far more computation than the bytes it was given warrant".into() } else { format!("the process died during the run ({})", class) }, chunk_from: from });
    }
    let ended = done && !stalled;
    if !ended && !again { return (found, false) }
    let mut s = sum.lock().unwrap();
    for (k, v) in counts { bump(&mut s.counts, &k, v) }
    for (k, v) in faults { bump(&mut s.faults, &k, v) }
    s.sim_ns += tot.0;
    s.reads += tot.1;
    s.nontrivial += tot.2;
    s.events += tot.3;
    s.runs += begun;
    (found, ended)
}
