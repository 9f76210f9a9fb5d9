//! Several decoders at once. A seeded scheduler owns every switch: real threads
//! that run one at a time and may be switched at every read call, decoders that
//! run inside another decoder's read call, decoders that move between threads.

use super::*;
use crate::steps;
use std::sync::{Condvar, Mutex};

/// One decoder's work, decided before anything runs.
#[derive(Clone)]
struct Plan {
    bytes: Arc<Vec<u8>>,
    chunks: Chunks,
    faults: Vec<Fault>,
    arrivals_seed: u64,
    opts: (bool, bool),
    style: u64,
    errors: u32,
    limit: usize,
    truth: Option<Vec<(u32, u32, Vec<i32>)>>,
    /// The end of what opening must report.
    opened: Option<String>,
    /// Tag lookups among the other calls: how many, and what is looked up.
    looks: (u32, u64),
    names: Vec<String>,
    tags: Option<Vec<(String, String)>>,
    name: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Item { Opened(String), Failed(EObs), Block(BObs), Samples(Vec<i32>), Look(String, usize, Vec<String>), Err(EObs), End }

/// A decoder as a step machine: one call, one item.
struct Dec {
    plan: Plan,
    reader: Option<SimReader>,
    fr: Option<FlacReader<SimReader>>,
    out: Vec<Item>,
    errors: u32,
    done: bool,
    obs: Shared,
    looks: (u32, Rng),
}

// Judged by `sendable`.
unsafe impl Send for Dec {}

struct Pool { bufs: Vec<Vec<i32>>, r: Rng }

impl Pool {
    fn new(seed: u64) -> Pool { Pool { bufs: vec![], r: Rng::new(seed) } }
    fn take(&mut self) -> Vec<i32> {
        if self.bufs.is_empty() || self.r.below(4) == 0 { return Vec::new() }
        let i = self.r.below(self.bufs.len() as u64) as usize;
        self.bufs.swap_remove(i)
    }
    fn put(&mut self, v: Vec<i32>) { if self.bufs.len() < 6 { self.bufs.push(v) } }
}

impl Dec {
    fn new(p: &Plan, log: &Log) -> Dec {
        let mut r = SimReader::new(Data::Bytes(p.bytes.clone()), p.chunks.clone(), p.faults.clone(), log);
        r.name = p.name * 8;
        let obs = r.obs.clone();
        Dec { plan: p.clone(), reader: Some(r), fr: None, out: vec![], errors: 0, done: false, obs, looks: (p.looks.0, Rng::new(p.looks.1)) }
    }
    fn step(&mut self, pool: &Mutex<Pool>) -> Res<()> {
        if self.done { return Ok(()) }
        if let Some(r) = self.reader.take() {
            let o = options(self.plan.opts.0, self.plan.opts.1);
            match call("FlacReader::new_ext", move || FlacReader::new_ext(r, o))? {
                Ok(f) => {
                    let s = format!("{:?} {:?} {:?}", f.streaminfo(), f.vendor(), f.tags().collect::<Vec<_>>());
                    self.out.push(Item::Opened(s));
                    if self.plan.opts.0 && self.looks.0 == 0 { self.done = true }
                    self.fr = Some(f);
                }
                Err(e) => { self.out.push(Item::Failed(eobs(&e))); self.done = true }
            }
            return Ok(());
        }
        let style = self.plan.style;
        let fr = self.fr.as_mut().unwrap();
        if self.looks.0 > 0 && (self.plan.opts.0 || self.looks.1.below(3) == 0) {
            // Another lookup.
            self.looks.0 -= 1;
            let r = &mut self.looks.1;
            let mut n = self.plan.names[r.below(self.plan.names.len() as u64) as usize].clone();
            if r.below(3) == 0 { n = n.to_ascii_lowercase() }
            let max = if r.below(3) == 0 { 1 } else { usize::MAX };
            let got = call("get_tag", || fr.get_tag(&n).take(max).map(|v| v.to_string()).collect())?;
            self.out.push(Item::Look(n, max, got));
            if self.plan.opts.0 && self.looks.0 == 0 { self.done = true }
            return Ok(());
        }
        if style == 1 {
            // All samples in one step.
            let mut v = vec![];
            let mut err = None;
            let max = self.plan.limit * 65536 * 8;
            let r = lib(|| for x in fr.samples() {
                match x { Ok(s) => v.push(s), Err(e) => { err = Some(e); break } }
                if v.len() > max { break }
            });
            no_panic("samples", r)?;
            self.out.push(Item::Samples(v));
            match err {
                Some(e) => { self.out.push(Item::Err(eobs(&e))); self.errors += 1; if self.errors > self.plan.errors { self.done = true } }
                None => { self.out.push(Item::End); self.done = true }
            }
            return Ok(());
        }
        let buf = pool.lock().unwrap_or_else(|e| e.into_inner()).take();
        let x = call("read_next_or_eof", || fr.blocks().read_next_or_eof(buf))?;
        match x {
            Ok(Some(b)) => {
                self.out.push(Item::Block(observe(&b)?));
                pool.lock().unwrap_or_else(|e| e.into_inner()).put(b.into_buffer());
            }
            Ok(None) => { self.out.push(Item::End); self.done = true }
            Err(e) => { self.out.push(Item::Err(eobs(&e))); self.errors += 1; if self.errors > self.plan.errors { self.done = true } }
        }
        if self.out.len() > self.plan.limit { self.done = true }
        Ok(())
    }
}

fn gen_plan(cx: &mut Cx, name: u64, last: &mut Option<Stream>) -> Plan {
    let size = [Some(Size::Tiny), Some(Size::Small)][cx.src.weighted(&[3, 1])];
    let twin = cx.src.chance(1, 5);
    let s = match *last {
        // As like the stream before as two streams can be.
        Some(ref l) if twin => { cx.count("streams_alike", 1); let mut r = cx.src.sub(); l.twin(&mut r) }
        _ => {
            let meta = if cx.src.chance(1, 3) { MetaLevel::Rich } else { MetaLevel::Light };
            stream(cx, StreamOpts { size, min_frames: 1, meta, ..StreamOpts::default() })
        }
    };
    let bounds = s.boundaries();
    let mut bytes = s.bytes.clone();
    let mut faults = vec![];
    let mut truth = Some(s.frames.iter().map(|f| (f.bs, f.ch, f.data.clone())).collect::<Vec<_>>());
    let opts = (cx.src.chance(1, 10), !cx.src.chance(1, 6));
    match cx.src.weighted(&[5, 2, 1, 1, 1]) {
        0 => {}
        1 => { let at = gen_offset(&mut cx.src, &bounds, 0, bytes.len()) as u64; faults.push(Fault { at, kind: FaultKind::Err(gen_err(&mut cx.src)), count: cx.src.range(1, 2) }); truth = None }
        2 => { let at = gen_offset(&mut cx.src, &bounds, 0, bytes.len()); bytes.truncate(at); truth = None }
        3 => { let i = gen_offset(&mut cx.src, &bounds, 0, bytes.len() - 1); bytes[i] ^= 1 << cx.src.draw(8); truth = None }
        _ => { let at = gen_offset(&mut cx.src, &bounds, 0, bytes.len()) as u64; faults.push(Fault { at, kind: FaultKind::Intr, count: cx.src.range(1, 3) }) }
    }
    let tags: Vec<(&str, &str)> = if !opts.1 { vec![] } else { s.vorbis().map_or(vec![], |v| v.1.iter().map(|c| { let i = c.find('=').unwrap(); (&c[..i], &c[i + 1..]) }).collect()) };
    let opened = if truth.is_some() { Some(format!(" {:?} {:?}", if opts.1 { s.vorbis().map(|v| &v.0[..]) } else { None }, tags)) } else { None };
    // What a user looks up: the tags there are, and some there are not.
    let mut names: Vec<String> = tags.iter().map(|t| t.0.to_string()).collect();
    names.truncate(12);
    names.extend(["artist".to_string(), "TITLE".to_string()]);
    let looks = (if cx.src.chance(1, 2) { cx.src.draw(7) as u32 } else { 0 }, cx.src.sub().next());
    let truth_tags = if truth.is_some() { Some(tags.iter().map(|t| (t.0.to_string(), t.1.to_string())).collect()) } else { None };
    // Small pieces make many points at which to switch.
    let chunks = match cx.src.weighted(&[3, 3, 2]) {
        0 => gen_chunks(&mut cx.src, &bounds),
        1 => if bytes.len() < 1500 { Chunks::One } else { Chunks::Fixed(bytes.len() / 300 + 1) },
        _ => Chunks::Random(bytes.len() / 200 + 8, cx.src.sub()),
    };
    let limit = 30 + s.frames.len() * 2 + looks.0 as usize;
    *last = Some(s);
    Plan {
        opened, looks, names, tags: truth_tags, limit, bytes: Arc::new(bytes), chunks, faults, arrivals_seed: 0, opts,
        style: cx.src.weighted(&[3, 1]) as u64, errors: cx.src.draw(4) as u32, truth, name,
    }
}

/// What the decoder gives on its own.
fn alone(p: &Plan) -> Res<Vec<Item>> {
    let mut d = Dec::new(p, &Log::default());
    let pool = Mutex::new(Pool::new(1));
    while !d.done { d.step(&pool)? }
    Ok(d.out)
}

fn compare(cx: &mut Cx, p: &Plan, got: &[Item], want: &[Item], how: &str) -> Res<()> {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        if g != w {
            let b = |x: Option<&Item>| match x { Some(&Item::Block(ref b)) => b.brief(), Some(&Item::Samples(ref v)) => format!("{} samples hash {:016x}", v.len(), hash_i32(0, v)), x => format!("{:?}", x) };
            return fail("interference", format!("decoder {} ({}): item {} is {} but alone it is {}", p.name, how, i, b(g), b(w)));
        }
    }
    if let Some(ref t) = p.opened {
        let ok = match got.first() { Some(&Item::Opened(ref s)) => s.ends_with(&t[..]), _ => false };
        ensure!(ok, "interference", "decoder {} ({}): the metadata is not that of its stream", p.name, how);
    }
    if let Some(ref t) = p.tags {
        for i in got {
            if let Item::Look(ref n, max, ref v) = *i {
                let want: Vec<&String> = t.iter().filter(|t| t.0.eq_ignore_ascii_case(n)).take(max).map(|t| &t.1).collect();
                ensure!(v.iter().collect::<Vec<_>>() == want, "interference", "decoder {} ({}): get_tag({:?}) gave {:?}, its stream has {:?}", p.name, how, n, v, want);
                cx.count("tag_lookups_compared", 1);
            }
        }
    }
    if let (Some(ref t), false) = (&p.truth, p.opts.0) {
        let mut blocks = vec![];
        let mut samples = vec![];
        for i in got { match *i { Item::Block(ref b) => blocks.push((b.bs, b.ch, b.data.clone())), Item::Samples(ref v) => samples.extend_from_slice(v), _ => {} } }
        if p.style == 1 {
            let mut want = vec![];
            for f in t.iter() { let bs = f.0 as usize; for i in 0..bs { for c in 0..f.1 as usize { want.push(f.2[c * bs + i]) } } }
            ensure!(samples == want, "interference", "decoder {} ({}): the samples are not those of its stream", p.name, how);
        } else {
            ensure!(blocks == **t, "interference", "decoder {} ({}): the blocks are not those of its stream", p.name, how);
        }
        cx.count("compared_with_the_encoded_audio", 1);
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) -> Res<()> {
    sendable()?;
    let n = cx.src.usize(2, 4) as u64;
    let mut last = None;
    let plans: Vec<Plan> = (0..n).map(|i| gen_plan(cx, i, &mut last)).collect();
    let how = cx.src.weighted(&[4, 3, 2, 2]);
    let first = cx.src.chance(1, 2);
    // Alone first or afterwards: neither order may matter.
    let mut want = vec![];
    if first { for p in &plans { want.push(alone(p)?) } }
    cx.note(|| format!("{} decoders, {}", n, ["threads", "nested", "migrating", "taking turns"][how]));
    let got = match how {
        0 => threads(cx, &plans)?,
        1 => nested(cx, &plans)?,
        2 => migrating(cx, &plans)?,
        _ => turns(cx, &plans)?,
    };
    if !first { for p in &plans { want.push(alone(p)?) } }
    let name = ["on threads", "nested", "migrating", "taking turns"][how];
    cx.count(["schedules_threads", "schedules_nested", "schedules_migrating", "schedules_turns"][how], 1);
    for ((p, g), w) in plans.iter().zip(&got).zip(&want) { compare(cx, p, g, w, name)? }
    cx.st.nontrivial = true;
    Ok(())
}

fn absorb(cx: &mut Cx, decs: &[Dec]) { for d in decs { account(cx, &d.obs) } }

// ---------------------------------------------------------------- threads

struct BatonState {
    turn: Option<usize>, live: Vec<bool>, r: Rng, switches: u64, stay: u64,
    /// The mean number of steps inside the code under test between two switches.
    fine: u64,
    preempted: u64,
    /// Rises whenever the running thread shows signs of life.
    pulse: u64,
    /// System ids of the threads, and how often one was found blocked by another.
    tids: Vec<i32>, stuck: u64,
}

struct Baton { s: Mutex<BatonState>, c: Condvar, log: Log }

impl Baton {
    fn lock(&self) -> std::sync::MutexGuard<'_, BatonState> { self.s.lock().unwrap_or_else(|e| e.into_inner()) }
    fn choose(&self, s: &mut BatonState) {
        let live: Vec<usize> = (0..s.live.len()).filter(|&i| s.live[i]).collect();
        let before = s.turn;
        s.turn = if live.is_empty() { None } else { let i = s.r.below(live.len() as u64) as usize; Some(live[i]) };
        if s.turn != before {
            s.switches += 1;
            let (a, b) = (before, s.turn);
            self.log.ev(90, b.map_or(99, |x| x as u64), 0, || format!("scheduler: {:?} -> {:?}", a, b));
        }
    }
    fn wait(&self, me: usize) {
        let s = self.lock();
        self.sleep(s, me);
    }
    /// Sleeps until it is this thread's turn. A thread whose turn it is may be
    /// blocked by one that was preempted (a lock inside the code under test):
    /// then, and only then, another one takes the turn from it.
    fn sleep<'a>(&'a self, mut s: std::sync::MutexGuard<'a, BatonState>, me: usize) -> std::sync::MutexGuard<'a, BatonState> {
        let mut seen = (s.pulse, 0);
        while s.turn != Some(me) {
            let (g, t) = self.c.wait_timeout(s, std::time::Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if !t.timed_out() || s.fine == 0 { continue }
            let blocked = s.turn.map_or(false, |t| sleeping(s.tids[t]));
            if s.pulse != seen.0 || !blocked { seen = (s.pulse, 0); continue }
            seen.1 += 1;
            if seen.1 >= 3 && s.turn != Some(me) {
                s.stuck += 1;
                s.pulse += 1;
                s.turn = Some(me);
                self.c.notify_all();
            }
        }
        s
    }
    /// A point at which the scheduler may switch.
    fn point(&self, me: usize) {
        let mut s = self.lock();
        s.pulse += 1;
        if s.turn == Some(me) {
            let stay = s.stay;
            if stay > 0 && s.r.below(stay + 1) != 0 { return }
            self.choose(&mut s);
            if s.turn == Some(me) { return }
            self.c.notify_all();
        }
        drop(self.sleep(s, me));
    }
    /// The allowance of steps is used up, in the middle of the code under test:
    /// switches, and gives the next allowance.
    fn preempt(&self, me: usize) -> u64 {
        let mut s = self.lock();
        s.pulse += 1;
        s.preempted += 1;
        if s.turn == Some(me) {
            self.log.ev(92, me as u64, steps::total(), || format!("decoder {} preempted after its step {}", me, steps::total()));
            self.choose(&mut s);
            if s.turn != Some(me) { self.c.notify_all() }
        }
        let mut s = self.sleep(s, me);
        if s.preempted > 1500 { return u64::MAX }
        let m = if s.r.below(60) == 0 { 20_000 } else { s.fine * 2 };
        1 + s.r.below(m)
    }
    fn leave(&self, me: usize) {
        let mut s = self.lock();
        s.live[me] = false;
        s.pulse += 1;
        if s.turn == Some(me) { self.choose(&mut s) }
        self.c.notify_all();
    }
}

extern "C" { fn gettid() -> i32; }

fn sleeping(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()
        .and_then(|t| t.rsplit_once(')').map(|x| x.1.trim_start().starts_with('S'))).unwrap_or(false)
}

fn threads(cx: &mut Cx, plans: &[Plan]) -> Res<Vec<Vec<Item>>> {
    let n = plans.len();
    let r = cx.src.sub();
    let stay = cx.src.pick(&[0u64, 1, 5, 40]);
    // Switch inside the code under test as well, not only when it reads.
    let fine = cx.src.pick(&[300u64, 0, 40, 6, 3000]);
    let fine = if steps::ON { fine } else { 0 };
    let baton = Arc::new(Baton { s: Mutex::new(BatonState { turn: Some(cx.src.usize(0, n - 1)), live: vec![true; n], r, switches: 0, stay, fine, preempted: 0, pulse: 0, tids: vec![0; n], stuck: 0 }), c: Condvar::new(), log: cx.log.clone() });
    let pool = Arc::new(Mutex::new(Pool::new(7)));
    let mut results: Vec<(Dec, Res<()>)> = vec![];
    let decs: Vec<Dec> = plans.iter().enumerate().map(|(i, p)| {
        let mut d = Dec::new(p, &cx.log);
        let b = baton.clone();
        d.reader.as_mut().unwrap().hook = Some(Box::new(move || b.point(i)));
        d
    }).collect();
    std::thread::scope(|sc| {
        let hs: Vec<_> = decs.into_iter().enumerate().map(|(i, mut d)| {
            let (b, pool) = (baton.clone(), pool.clone());
            sc.spawn(move || {
                b.lock().tids[i] = unsafe { gettid() };
                b.wait(i);
                if fine > 0 {
                    let h = b.clone();
                    let first = { let mut s = b.lock(); 1 + s.r.below(fine * 2) };
                    steps::preempt(first, Box::new(move || h.preempt(i)));
                }
                let mut r = Ok(());
                while !d.done {
                    r = d.step(&pool);
                    if r.is_err() { break }
                    b.point(i);
                }
                steps::free();
                b.leave(i);
                (d, r)
            })
        }).collect();
        for h in hs { results.push(h.join().unwrap()) }
    });
    let (sw, pre, stuck) = { let s = baton.lock(); (s.switches, s.preempted, s.stuck) };
    cx.count("thread_switches", sw);
    if fine > 0 {
        cx.count("schedules_threads_preempted", 1);
        cx.count("preemptions_inside_the_code", pre);
        if stuck > 0 { cx.count("waits_for_a_preempted_thread", stuck) }
    }
    let mut out = vec![];
    let mut ds = vec![];
    for (d, r) in results { r?; out.push(d.out.clone()); ds.push(d) }
    absorb(cx, &ds);
    Ok(out)
}

// ----------------------------------------------------------------- nested

/// Decoder i+1 advances inside the read calls of decoder i.
struct Inner { dec: Option<Dec>, result: Res<()>, r: Rng, odds: u64, entered: u64 }

fn nested(cx: &mut Cx, plans: &[Plan]) -> Res<Vec<Vec<Item>>> {
    let n = plans.len();
    let pool = Arc::new(Mutex::new(Pool::new(9)));
    let odds = cx.src.pick(&[2u64, 1, 8, 40]);
    let seeds: Vec<Rng> = (0..n).map(|_| cx.src.sub()).collect();
    let mut boxes: Vec<Arc<Mutex<Inner>>> = vec![];
    let mut below: Option<Arc<Mutex<Inner>>> = None;
    let mut top: Option<Dec> = None;
    for i in (0..n).rev() {
        let mut d = Dec::new(&plans[i], &cx.log);
        if let Some(b) = below.take() {
            let pool = pool.clone();
            d.reader.as_mut().unwrap().hook = Some(Box::new(move || advance(&b, &pool)));
        }
        if i > 0 {
            let b = Arc::new(Mutex::new(Inner { dec: Some(d), result: Ok(()), r: seeds[i].clone(), odds, entered: 0 }));
            boxes.push(b.clone());
            below = Some(b);
        } else { top = Some(d) }
    }
    boxes.reverse();
    let mut top = top.unwrap();
    while !top.done { top.step(&pool)? }
    let mut out = vec![top.out.clone()];
    account(cx, &top.obs);
    // What did not finish inside finishes outside.
    for b in &boxes {
        let mut d = {
            let mut g = b.lock().unwrap_or_else(|e| e.into_inner());
            cx.count("steps_inside_a_read_call", g.entered);
            std::mem::replace(&mut g.result, Ok(()))?;
            g.dec.take().unwrap()
        };
        while !d.done { d.step(&pool)? }
        account(cx, &d.obs);
        out.push(d.out.clone());
        // Break the chain of hooks only after use.
        b.lock().unwrap_or_else(|e| e.into_inner()).dec = Some(d);
    }
    Ok(out)
}

fn advance(b: &Arc<Mutex<Inner>>, pool: &Mutex<Pool>) {
    // Not re-entered: the decoder below is only ever driven from here.
    let mut d = {
        let mut g = match b.try_lock() { Ok(g) => g, Err(_) => return };
        let odds = g.odds;
        if g.result.is_err() || g.r.below(odds) != 0 { return }
        g.entered += 1;
        match g.dec.take() { Some(d) => d, None => return }
    };
    let r = d.step(pool);
    let mut g = b.lock().unwrap_or_else(|e| e.into_inner());
    g.dec = Some(d);
    if r.is_err() { g.result = r }
}

// -------------------------------------------------- migrating and turns

fn migrating(cx: &mut Cx, plans: &[Plan]) -> Res<Vec<Vec<Item>>> {
    let pool = Mutex::new(Pool::new(11));
    let mut decs: Vec<Dec> = plans.iter().map(|p| Dec::new(p, &cx.log)).collect();
    let mut r = cx.src.sub();
    let mut moves = 0;
    while decs.iter().any(|d| !d.done) {
        // One thread's life: it takes over the decoders for some steps.
        let steps = 1 + r.below(12);
        let (ds, res, rr) = std::thread::scope(|sc| {
            let (pool, mut ds, mut rr) = (&pool, std::mem::take(&mut decs), r.clone());
            sc.spawn(move || {
                let mut res = Ok(());
                for _ in 0..steps {
                    let live: Vec<usize> = (0..ds.len()).filter(|&i| !ds[i].done).collect();
                    if live.is_empty() { break }
                    let i = live[rr.below(live.len() as u64) as usize];
                    res = ds[i].step(pool);
                    if res.is_err() { break }
                }
                (ds, res, rr)
            }).join().unwrap()
        });
        decs = ds;
        r = rr;
        res?;
        moves += 1;
    }
    cx.count("thread_migrations", moves);
    absorb(cx, &decs);
    Ok(decs.into_iter().map(|d| d.out).collect())
}

fn turns(cx: &mut Cx, plans: &[Plan]) -> Res<Vec<Vec<Item>>> {
    let pool = Mutex::new(Pool::new(13));
    let mut decs: Vec<Dec> = plans.iter().map(|p| Dec::new(p, &cx.log)).collect();
    let mut r = cx.src.sub();
    loop {
        let live: Vec<usize> = (0..decs.len()).filter(|&i| !decs[i].done).collect();
        if live.is_empty() { break }
        let i = live[r.below(live.len() as u64) as usize];
        decs[i].step(&pool)?;
        cx.count("turns", 1);
    }
    absorb(cx, &decs);
    Ok(decs.into_iter().map(|d| d.out).collect())
}
