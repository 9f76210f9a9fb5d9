//! Minimising a failing tape and writing the replay file.

use crate::props::Prop;
use crate::rng::Src;
use crate::{exec, run_child};
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::ExitStatus;
use std::time::{Duration, Instant};

pub fn read_tape(f: &str) -> Vec<u64> {
    std::fs::read_to_string(f).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn write_tape(f: &Path, t: &[u64]) {
    let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    let _ = std::fs::write(f, s.join("\n"));
}

pub fn crash_class(s: &ExitStatus) -> String {
    if s.code() == Some(crate::steps::WORK_EXIT) { return "crash-too-much-work".into() }
    match s.signal() { Some(n) => format!("crash-signal-{}", n), None => format!("crash-exit-{}", s.code().unwrap_or(-1)) }
}

/// `shrink --prop P --tier T --tape IN --class C --res OUT --secs N [--isolate]`
pub fn main(args: &[String], p: Prop, thorough: bool) -> i32 {
    let a = |n: &str| crate::arg(args, n).unwrap_or_default();
    let tape = read_tape(&a("--tape"));
    let class = a("--class");
    let out = a("--res");
    let secs: u64 = a("--secs").parse().unwrap_or(15);
    let isolate = args.iter().any(|x| x == "--isolate");
    let tmp = format!("{}.cand", out);
    let mut eval = |t: &[u64]| -> bool {
        if isolate {
            write_tape(Path::new(&tmp), t);
            let tier = if thorough { "thorough" } else { "quick" };
            let (st, _) = run_child(&["one", "--prop", p.id, "--tier", tier, "--tape", &tmp], Duration::from_secs(20));
            match st { Some(s) => crash_class(&s) == class, None => class == "hang-cpu" }
        } else {
            exec(&p, Src::from_tape(t.to_vec()), thorough, false).violation.map_or(false, |v| v.class == class)
        }
    };
    let best = minimise(tape, Instant::now() + Duration::from_secs(secs), &mut eval, &mut |t| write_tape(Path::new(&out), t));
    write_tape(Path::new(&out), &best);
    let _ = std::fs::remove_file(&tmp);
    0
}

fn minimise(mut t: Vec<u64>, end: Instant, eval: &mut dyn FnMut(&[u64]) -> bool, save: &mut dyn FnMut(&[u64])) -> Vec<u64> {
    if !eval(&t) { return t }
    let late = || Instant::now() > end;
    // A shorter tape means zeros for the rest.
    let (mut lo, mut hi) = (0, t.len());
    while lo < hi && !late() {
        let mid = (lo + hi) / 2;
        if eval(&t[..mid]) { hi = mid; t.truncate(mid); save(&t) } else { lo = mid + 1 }
    }
    for _round in 0..6 {
        let before = t.clone();
        let mut k = (t.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < t.len() && !late() {
                let j = (i + k).min(t.len());
                let mut c = t.clone();
                c.drain(i..j);
                if eval(&c) { t = c; save(&t); continue }
                if t[i..j].iter().any(|&x| x != 0) {
                    let mut c = t.clone();
                    for x in &mut c[i..j] { *x = 0 }
                    if eval(&c) { t = c; save(&t) }
                }
                i = j;
            }
            if k == 1 || late() { break }
            k /= 2;
        }
        let mut i = 0;
        while i < t.len() && !late() {
            // Lower each value as far as it goes.
            let mut lo = 0u64;
            while lo < t[i] && !late() {
                let mid = lo + (t[i] - lo) / 2;
                let mut c = t.clone();
                c[i] = mid;
                if eval(&c) { t = c } else { lo = mid + 1 }
            }
            i += 1;
        }
        save(&t);
        if t == before || late() { break }
    }
    t
}

/// Minimises, confirms in a fresh process, writes the replay file.
pub fn report(p: &Prop, seed: u64, tier: &str, idx: u64, class: &str, detail: &str, chunk_from: u64, file: &Path) -> String {
    let dir = std::env::temp_dir().join(format!("dst-shrink-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let full = dir.join("full");
    let small = dir.join("small");
    let crash = class.starts_with("crash") || class == "hang-cpu";
    let (s, i) = (seed.to_string(), idx.to_string());
    let fs = full.to_string_lossy().to_string();
    let ss = small.to_string_lossy().to_string();
    // The tape: from the run itself, spilled as it goes so that it survives a crash.
    let lim = Duration::from_secs(if class == "hang-cpu" { 20 } else { 150 });
    let _ = run_child(&["one", "--prop", p.id, "--seed", &s, "--tier", tier, "--idx", &i, "--spill", &fs], lim);
    let tape = read_tape(&fs);
    let mut cands: Vec<Vec<u64>> = Vec::new();
    if class != "hang-cpu" {
        let mut a = vec!["shrink", "--prop", p.id, "--tier", tier, "--tape", &fs, "--class", class, "--res", &ss, "--secs", "20"];
        if crash { a.push("--isolate") }
        let _ = run_child(&a, Duration::from_secs(60));
        let t = read_tape(&ss);
        if small.exists() { cands.push(t) }
    }
    cands.push(tape.clone());
    let mut note = String::new();
    let mut confirmed = false;
    for t in &cands {
        write(p, seed, tier, idx, class, detail, Some(t), None, &[], file);
        if class == "hang-cpu" { break }
        if confirm(file) {
            confirmed = true;
            note = format!("{}: {} (class {}; run {} of seed {}; {} draws, minimised from {})", p.id, detail, class, idx, seed, t.len(), tape.len());
            // Rewrite with the trace and the detail of the minimised run.
            let (_, out) = run_child(&["replay", &file.to_string_lossy()], Duration::from_secs(60));
            let lines: Vec<&str> = out.lines().filter(|l| !l.starts_with("VIOLATION")).collect();
            write(p, seed, tier, idx, class, detail, Some(t), None, &lines, file);
            break;
        }
    }
    if !confirmed && class != "hang-cpu" {
        // State that outlives a run: replay the sequence of runs of this process.
        write(p, seed, tier, idx, class, detail, None, Some((seed, chunk_from, idx)), &[], file);
        let ok = confirm(file);
        note = format!("{}: {} (class {}; needs the sequence of runs {}..={} in one process; replay {})", p.id, detail, class, chunk_from, idx, if ok { "confirmed" } else { "NOT confirmed" });
    } else if !confirmed {
        note = format!("{}: {} (class {}; run {} of seed {})", p.id, detail, class, idx, seed);
    }
    let _ = std::fs::remove_dir_all(&dir);
    note
}

fn confirm(file: &Path) -> bool {
    let (st, _) = run_child(&["replay", &file.to_string_lossy(), "--quiet"], Duration::from_secs(200));
    st.and_then(|s| s.code()) == Some(1)
}

fn write(p: &Prop, seed: u64, tier: &str, idx: u64, class: &str, detail: &str, tape: Option<&Vec<u64>>,
         seq: Option<(u64, u64, u64)>, trace: &[&str], file: &Path) {
    let mut s = format!("property={}\nclass={}\ntier={}\nprofile={}\nfound=seed {} run {}\ndetail={}\n", p.id, class, tier, crate::PROFILE, seed, idx, detail);
    if let Some(t) = tape {
        let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        s += &format!("tape={}\n", v.join(" "));
    }
    if let Some((a, b, c)) = seq { s += &format!("sequence={} {} {}\n", a, b, c) }
    s += "--- trace of the minimised run (informative; the lines above are what is replayed)\n";
    for l in trace { s += l; s.push('\n') }
    let _ = std::fs::write(file, s);
}
