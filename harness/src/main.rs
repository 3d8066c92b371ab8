//! wpmon: runtime monitors for webparse.
//!
//!   wpmon run <ID> [--tier quick|thorough] [--seed N] [--verif DIR] [--scale N]
//!   wpmon only <ID> <part> <idx> [--seed N]       one case, verbose
//!   wpmon list
mod core;
mod props;
mod refm;

use core::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(not(miri))]
#[global_allocator]
static A: core::CountingAlloc = core::CountingAlloc;

const HANG_EXIT: i32 = 97;

struct Opts {
    mode: String,
    id: String,
    tier: Tier,
    seed: u64,
    verif: String,
    state: Option<String>,
    workers: usize,
    part: usize,
    idx: u64,
    scale: f64,
    hang_s: u64,
    deadline_s: u64,
    stage: Option<String>,
}

fn parse_opts() -> Opts {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        mode: a.get(1).cloned().unwrap_or_default(),
        id: a.get(2).cloned().unwrap_or_default(),
        tier: Tier::Quick,
        seed: 1,
        verif: "/verif".into(),
        state: None,
        workers: 8,
        part: 0,
        idx: 0,
        scale: 1.0,
        hang_s: 25,
        deadline_s: 0,
        stage: None,
    };
    let mut pos = vec![];
    let mut i = 3;
    while i < a.len() {
        let next = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--tier" => o.tier = if next() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = next().parse().unwrap_or(1),
            "--verif" => o.verif = next(),
            "--stage" => o.stage = Some(next()),
            "--state" => o.state = Some(next()),
            "--workers" => o.workers = next().parse().unwrap_or(8),
            "--scale" => o.scale = next().parse().unwrap_or(1.0),
            "--hang" => o.hang_s = next().parse().unwrap_or(25),
            "--deadline" => o.deadline_s = next().parse().unwrap_or(0),
            x => {
                pos.push(x.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    if o.mode == "only" || o.mode == "only-child" {
        o.part = pos.get(0).and_then(|x| x.parse().ok()).unwrap_or(0);
        o.idx = pos.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    }
    if o.deadline_s == 0 {
        o.deadline_s = if o.tier == Tier::Quick { 500 } else { 3000 };
    }
    o
}

fn main() {
    let o = parse_opts();
    let code = match o.mode.as_str() {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
                for x in &p.parts {
                    println!("   {} quick={} thorough={}", x.name, x.quick, x.thorough);
                }
            }
            0
        }
        "run" => supervise(&o),
        "child" => child(&o),
        "only" | "only-child" => only(&o),
        "pick" => pick(&o),
        "some" => some(&o),
        "firstuse" => {
            install_panic_hook();
            let t = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(4);
            props::threads::firstuse(o.id.parse().unwrap_or(1), t)
        }
        _ => {
            eprintln!("usage: wpmon run|only|list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
}

// ------------------------------------------------------------ one case
fn only(o: &Opts) -> i32 {
    install_panic_hook();
    let p = find(&o.id);
    let part = &p.parts[o.part];
    let mut c = Ctx::new(p.id, o.tier);
    c.verbose = true;
    if o.mode == "only-child" {
        start_hang_watch(Arc::new(vec![Slot::new()]), o.hang_s);
        // the single case runs on the main thread, slot 0
        unsafe { WATCHED = gettid() };
    }
    println!("case {} part {} ({}) idx {} seed {}", p.id, o.part, part.name, o.idx, o.seed);
    c.run_case(part.f, o.part, o.idx, case_seed(o.seed, p.id, part.name, o.idx));
    for e in &c.harness_errors {
        println!("  harness error: {}", e);
    }
    if !c.viols.is_empty() {
        1
    } else if !c.harness_errors.is_empty() {
        2
    } else {
        println!("  held");
        0
    }
}

/// Cases of every part that are quick enough for an interpreter:
/// "wpmon pick <k> <micros> [--seed N]" prints k of each, one per line.
fn pick(o: &Opts) -> i32 {
    install_panic_hook();
    let k: u64 = o.id.parse().unwrap_or(1);
    let budget: u64 = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(150);
    let warm = |f: fn(&mut Rng, &mut Ctx, u64), i: usize, idx: u64, s: u64, id: &'static str| {
        let mut c = Ctx::new(id, Tier::Quick);
        let t0 = Instant::now();
        c.run_case(f, i, idx, s);
        t0.elapsed().as_micros() as u64
    };
    for p in props::all() {
        for (i, part) in p.parts.iter().enumerate() {
            if p.id == "C29" || part.name == "first use" || part.name == "monitors" {
                continue;
            }
            let budget = if p.id == "C27" { budget * 40 } else { budget };
            let mut n = 0;
            for j in 0..20 * k {
                let mut r = Rng::new(case_seed(o.seed, p.id, part.name, j) ^ 0x77);
                let idx = r.below(part.quick as usize) as u64;
                let s = case_seed(o.seed, p.id, part.name, idx);
                warm(part.f, i, idx, s, p.id);
                if warm(part.f, i, idx, s, p.id) <= budget {
                    println!("{} {} {} {}", p.id, i, idx, o.seed);
                    n += 1;
                    if n == k {
                        break;
                    }
                }
            }
        }
    }
    0
}

/// Runs the cases of a list written by `pick`, on this thread.
fn some(o: &Opts) -> i32 {
    install_panic_hook();
    let text = match std::fs::read_to_string(&o.id) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let ps = props::all();
    let (mut n, mut checks, mut bad) = (0u64, 0u64, 0usize);
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let p = match ps.iter().find(|p| p.id == f[0]) {
            Some(p) => p,
            None => continue,
        };
        let (i, idx, seed): (usize, u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        // an interpreter's report names the case by the last line before it
        println!("case {}", l);
        let t0 = Instant::now();
        let mut c = Ctx::new(p.id, Tier::Quick);
        c.run_case(p.parts[i].f, i, idx, case_seed(seed, p.id, p.parts[i].name, idx));
        if std::env::var("WPMON_TIMES").is_ok() {
            println!("   {} {:?}", p.parts[i].name, t0.elapsed());
        }
        n += 1;
        checks += c.checks;
        bad += c.viols.len();
    }
    println!("ran {} {} {}", n, checks, bad);
    0
}

static mut WATCHED: i32 = 0;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
fn gettid() -> i32 {
    unsafe { syscall(186) as i32 }
}

struct Slot {
    tid: AtomicU64,
    seq: AtomicU64,
    active: AtomicBool,
}
impl Slot {
    fn new() -> Slot {
        Slot { tid: AtomicU64::new(0), seq: AtomicU64::new(0), active: AtomicBool::new(false) }
    }
}

fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Ends the process when one single case has used `hang_s` seconds of CPU time.
fn start_hang_watch(slots: Arc<Vec<Slot>>, hang_s: u64) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, u64)> = slots.iter().map(|_| (u64::MAX, 0)).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in slots.iter().enumerate() {
                let mut tid = s.tid.load(Ordering::SeqCst);
                let mut active = s.active.load(Ordering::SeqCst);
                let w = unsafe { std::ptr::addr_of!(WATCHED).read() };
                if w != 0 {
                    tid = w as u64;
                    active = true;
                }
                let seq = s.seq.load(Ordering::SeqCst);
                if tid == 0 || !active {
                    last[i].0 = u64::MAX;
                    continue;
                }
                let t = match cpu_ticks(tid) {
                    Some(t) => t,
                    None => continue,
                };
                if last[i].0 != seq {
                    last[i] = (seq, t);
                } else if t - last[i].1 > hang_s * 100 {
                    eprintln!("hang: one case used more than {} s of CPU time", hang_s);
                    std::process::exit(HANG_EXIT);
                }
            }
        }
    });
}

// ------------------------------------------------------------ child
fn child(o: &Opts) -> i32 {
    install_panic_hook();
    let p = find(&o.id);
    let t0 = Instant::now();
    let parts = Arc::new(p.parts.clone());
    let counts: Vec<u64> = parts
        .iter()
        .map(|x| {
            let n = if o.tier == Tier::Quick { x.quick } else { x.thorough };
            if o.scale == 1.0 { n } else { ((n as f64 * o.scale) as u64).max(1).min(n.max(x.thorough)) }
        })
        .collect();
    let total: u64 = counts.iter().sum();
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let slots: Arc<Vec<Slot>> = Arc::new((0..o.workers).map(|_| Slot::new()).collect());
    start_hang_watch(slots.clone(), o.hang_s);
    let state = o.state.as_ref().map(|s| {
        Arc::new(std::fs::OpenOptions::new().create(true).write(true).open(s).expect("state file"))
    });
    let results: Arc<Mutex<Vec<Ctx>>> = Arc::new(Mutex::new(vec![]));
    // every part is interleaved evenly, so a deadline thins all of them alike
    let order = Arc::new(Schedule::new(&counts));
    let mut hs = vec![];
    for w in 0..o.workers {
        let (parts, next, done, slots, results, state, order) = (
            parts.clone(), next.clone(), done.clone(), slots.clone(), results.clone(), state.clone(), order.clone(),
        );
        let (id, seed, tier, deadline) = (p.id, o.seed, o.tier, o.deadline_s);
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    slots[w].tid.store(gettid() as u64, Ordering::SeqCst);
                    let mut c = Ctx::new(id, tier);
                    loop {
                        let n = next.fetch_add(1, Ordering::SeqCst);
                        if n >= total || t0.elapsed().as_secs() > deadline {
                            break;
                        }
                        let (pi, idx) = order.get(n);
                        if let Some(f) = &state {
                            let rec = format!("{:>6} {:>20} 1\n", pi, idx);
                            let _ = f.write_at(rec.as_bytes(), w as u64 * 64);
                        }
                        slots[w].seq.fetch_add(1, Ordering::SeqCst);
                        slots[w].active.store(true, Ordering::SeqCst);
                        let part = &parts[pi];
                        c.run_case(part.f, pi, idx, case_seed(seed, id, part.name, idx));
                        c.add(&format!("cases:{}", part.name), 1);
                        slots[w].active.store(false, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::SeqCst);
                    }
                    if let Some(f) = &state {
                        let rec = format!("{:>6} {:>20} 0\n", 0, 0);
                        let _ = f.write_at(rec.as_bytes(), w as u64 * 64);
                    }
                    results.lock().unwrap().push(c);
                })
                .expect("spawn"),
        );
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker died");
            return 2;
        }
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    let mut all = Ctx::new(p.id, o.tier);
    for c in rs.drain(..) {
        for (k, v) in c.counters {
            if k.starts_with("max:") {
                let e = all.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *all.counters.entry(k).or_insert(0) += v;
            }
        }
        all.distinct.extend(c.distinct);
        all.samples.extend(c.samples);
        all.harness_errors.extend(c.harness_errors);
        all.checks += c.checks;
        for (k, (n, v)) in c.viols {
            all.viols
                .entry(k)
                .and_modify(|e| {
                    e.0 += n;
                    if (v.part, v.idx) < (e.1.part, e.1.idx) {
                        e.1 = v.clone();
                    }
                })
                .or_insert((n, v));
        }
    }
    let evals = done.load(Ordering::SeqCst);
    finish(o, &p, all, evals, total, t0.elapsed().as_secs_f64())
}

/// Proportional interleaving of the parts.
struct Schedule {
    counts: Vec<u64>,
    total: u64,
    cum: Vec<u64>,
}
impl Schedule {
    fn new(counts: &[u64]) -> Schedule {
        let mut cum = vec![];
        let mut s = 0;
        for c in counts {
            cum.push(s);
            s += c;
        }
        Schedule { counts: counts.to_vec(), total: s, cum }
    }
    fn get(&self, n: u64) -> (usize, u64) {
        // a fixed permutation of 0..total, then the part it falls into
        let m = permute(n, self.total);
        let mut p = self.counts.len() - 1;
        while self.cum[p] > m {
            p -= 1;
        }
        (p, m - self.cum[p])
    }
}
fn permute(n: u64, total: u64) -> u64 {
    // multiplication by a number coprime to total is a bijection
    let mut k = 0x9E37_79B1u64 % total.max(1);
    if k < 2 {
        return n;
    }
    while gcd(k, total) != 1 {
        k += 1;
    }
    ((n as u128 * k as u128) % total as u128) as u64
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

// ------------------------------------------------------------ reporting
fn jesc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Signatures of recorded findings: "finding: property=<id> sig=<signature> ..."
fn known(verif: &str, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("").to_string();
                if p == id && !sig.is_empty() {
                    m.insert(sig, it.next().unwrap_or("").to_string());
                }
            }
        }
    }
    m
}

fn write_replay(o: &Opts, sig: &str, detail: &str, part: usize, idx: u64) -> String {
    let dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let name: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
    let path = format!("{}/{}-{}.txt", dir, name, o.seed);
    let text = format!(
        "property {}\nsignature {}\nreplay: bash /verif/check.sh --replay {} {} {} {}\ndetail: {}\n",
        o.id, sig, o.id, part, idx, o.seed, detail
    );
    let _ = std::fs::write(&path, text);
    path
}

/// what another build of these monitors found, see tools/stage.py
fn merge_stage(o: &Opts, c: &mut Ctx) {
    let text = match &o.stage {
        Some(f) => std::fs::read_to_string(f).unwrap_or_default(),
        None => return,
    };
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(3, '\t').collect();
        if f.len() == 3 && f[0] == "count" {
            c.add(f[1], f[2].parse().unwrap_or(0));
        } else if f.len() == 3 && f[0] == "viol" {
            c.violation(f[1], f[2].replace("\\n", "\n"));
        }
    }
}

fn finish(o: &Opts, p: &Prop, mut c: Ctx, evals: u64, planned: u64, wall: f64) -> i32 {
    merge_stage(o, &mut c);
    let kn = known(&o.verif, p.id);
    let mut fresh: Vec<(u64, Viol)> = vec![];
    let mut seen_known = vec![];
    for (sig, (n, v)) in &c.viols {
        if kn.contains_key(sig) {
            seen_known.push(format!("{} ({} times)", sig, n));
            println!("KNOWN-FINDING: property={} {} ({}, {} times in this run)", p.id, kn[sig], sig, n);
        } else {
            fresh.push((*n, v.clone()));
        }
    }
    let mut first = None;
    for (n, v) in &fresh {
        println!("  {} x{}: part {} idx {}: {}", v.sig, n, p.parts[v.part].name, v.idx, v.detail);
        let path = write_replay(o, &v.sig, &v.detail, v.part, v.idx);
        if first.is_none() {
            first = Some(path);
        }
    }
    write_evidence(o, p, &c, evals, planned, wall, fresh.len() as u64, &seen_known);
    if let Some(path) = first {
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !c.harness_errors.is_empty() {
        for e in c.harness_errors.iter().take(5) {
            eprintln!("harness error: {}", e);
        }
        return 2;
    }
    if c.distinct.is_empty() || c.checks == 0 {
        eprintln!("nothing was observed");
        return 2;
    }
    println!(
        "{} held on {} executions ({} planned), {} oracle decisions, {} distinct non-trivial cases, {:.1} s",
        p.id, evals, planned, c.checks, c.distinct.len(), wall
    );
    0
}

fn write_evidence(o: &Opts, p: &Prop, c: &Ctx, evals: u64, planned: u64, wall: f64, viols: u64, kn: &[String]) {
    let dir = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n", jesc(p.id)));
    s.push_str(&format!(" \"tier\": {},\n", jesc(if o.tier == Tier::Quick { "quick" } else { "thorough" })));
    s.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n", o.seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n", evals));
    s.push_str(&format!("  \"distinct_nontrivial\": {},\n", c.distinct.len()));
    s.push_str(&format!("  \"planned\": {},\n", planned));
    s.push_str(&format!("  \"oracle_decisions\": {},\n", c.checks));
    s.push_str(&format!("  \"rule\": {},\n", jesc(p.rule)));
    s.push_str("  \"samples\": [");
    let mut sm = c.samples.clone();
    sm.truncate(12);
    if sm.is_empty() {
        sm.push(format!("(no sample drawn in {} cases)", evals));
    }
    s.push_str(&sm.iter().map(|x| jesc(&x.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", "));
    s.push_str("],\n  \"observed\": {");
    s.push_str(&c.counters.iter().map(|(k, v)| format!("{}: {}", jesc(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"known_findings_seen\": [");
    s.push_str(&kn.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(", "));
    s.push_str("],\n  \"violation_signatures\": [");
    s.push_str(
        &c.viols
            .values()
            .map(|(n, v)| jesc(&format!("{} x{}", v.sig, n)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    s.push_str("]\n },\n");
    s.push_str(" \"assumptions\": [");
    s.push_str(&p.assumptions.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, viols));
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), s);
}

// ------------------------------------------------------------ supervisor
fn supervise(o: &Opts) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("wpmon-{}-{}", o.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let state = dir.join("state");
    let t0 = Instant::now();
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let st = std::process::Command::new(&exe)
        .args(["child", &o.id, "--tier", tier, "--seed", &o.seed.to_string(), "--verif", &o.verif])
        .args(["--state", state.to_str().unwrap(), "--workers", &o.workers.to_string()])
        .args(match &o.stage {
            Some(f) => vec!["--stage", f],
            None => vec![],
        })
        .args(["--scale", &o.scale.to_string(), "--hang", &o.hang_s.to_string(), "--deadline", &o.deadline_s.to_string()])
        .status();
    let _ = std::io::stdout().flush();
    let code = match st {
        Ok(s) if matches!(s.code(), Some(0) | Some(1) | Some(2)) => s.code().unwrap(),
        Ok(s) => {
            eprintln!("child ended abnormally: {:?}", s);
            settle(o, &exe, &state, t0)
        }
        Err(e) => {
            eprintln!("cannot start child: {}", e);
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// The child crashed or hung: a case is blamed only when it does so again alone.
fn settle(o: &Opts, exe: &std::path::Path, state: &std::path::Path, t0: Instant) -> i32 {
    let p = find(&o.id);
    let text = std::fs::read(state).unwrap_or_default();
    let mut cases: Vec<(usize, u64)> = vec![];
    for ch in text.chunks(64) {
        let s: String = ch.iter().map(|b| *b as char).filter(|c| *c != '\0').collect();
        let f: Vec<&str> = s.split_whitespace().collect();
        if f.len() == 3 && f[2] == "1" {
            if let (Ok(a), Ok(b)) = (f[0].parse(), f[1].parse()) {
                cases.push((a, b));
            }
        }
    }
    for (part, idx) in cases {
        let st = std::process::Command::new(exe)
            .args(["only-child", &o.id, &part.to_string(), &idx.to_string()])
            .args(["--seed", &o.seed.to_string(), "--hang", &(o.hang_s * 2).to_string()])
            .output();
        if let Ok(out) = st {
            let what = match (out.status.code(), out.status.signal()) {
                (Some(HANG_EXIT), _) => Some("nontermination".to_string()),
                // killed from outside: no verdict
                (_, Some(9)) | (_, Some(15)) => None,
                (_, Some(s)) => Some(format!("crash:signal{}", s)),
                (Some(1), _) => Some("only-alone".to_string()),
                _ => None,
            };
            if let Some(w) = what {
                let sig = format!("{}/{}", o.id, w);
                let detail = format!(
                    "part {} idx {} seed {}: {} {}",
                    p.parts[part].name, idx, o.seed,
                    String::from_utf8_lossy(&out.stdout).chars().take(2000).collect::<String>(),
                    String::from_utf8_lossy(&out.stderr).chars().take(2000).collect::<String>()
                );
                println!("  {}: {}", sig, detail);
                let path = write_replay(o, &sig, &detail, part, idx);
                let mut c = Ctx::new(p.id, o.tier);
                c.part = part;
                c.idx = idx;
                c.violation(&w, detail);
                write_evidence(o, &p, &c, 1, 0, t0.elapsed().as_secs_f64(), 1, &[]);
                println!("VIOLATION property={} replay={}", o.id, path);
                return 1;
            }
        }
    }
    eprintln!("no single case reproduces the abnormal end: inconclusive");
    2
}
