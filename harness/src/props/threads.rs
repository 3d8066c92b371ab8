//! C27: codecs used from several threads.
use super::hpack::{fields_of, gen_field, name_of, show_fields};
use super::robust::{feed, hostile};
use super::torture as T;
use crate::core::*;
use crate::refm::hpack as R;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier, RwLock};
use std::time::{Duration, Instant};
use webparse::http2::frame::Settings;
use webparse::http2::{encoder::Encoder, Decoder, HeaderIndex, HuffmanDecoder, HuffmanEncoder};
use webparse::ws::{CloseCode, DataFrame, DataFrameable, Opcode, OwnedMessage};
use webparse::{Extensions, HeaderMap, HeaderName, HeaderValue, Request, Response, Url};

type Job<T> = Box<dyn FnOnce(&AtomicU64) -> T + Send>;

const LOOKS: usize = if cfg!(miri) { 6 } else { 500 };
static STUCK: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
fn tid() -> u64 {
    if cfg!(miri) {
        0
    } else {
        unsafe { syscall(186) as u64 }
    }
}

/// state letter and CPU ticks of one thread of this process
fn thread_state(t: u64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", t)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f.get(0)?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

/// Runs the jobs on threads of their own. `None` after a panic or a deadlock,
/// which is reported. A deadlock is: for 20 s no thread did a step, every
/// unfinished one sleeps and none has used the CPU.
fn run_all<T: Send + 'static>(c: &mut Ctx, jobs: Vec<Job<T>>, what: &dyn Fn() -> String) -> Option<Vec<T>> {
    let n = jobs.len();
    let (tx, rx) = mpsc::channel();
    let steps: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let tids: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    for (i, job) in jobs.into_iter().enumerate() {
        let (tx, steps, tids) = (tx.clone(), steps.clone(), tids.clone());
        std::thread::spawn(move || {
            tids[i].store(tid(), Ordering::SeqCst);
            let r = guarded(|| job(&steps[i]));
            let _ = tx.send((i, r));
        });
    }
    drop(tx);
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut done = vec![false; n];
    let mut bad = false;
    let mut last: (u64, Vec<u64>) = (u64::MAX, vec![]);
    let mut since = Instant::now();
    let mut left = n;
    while left > 0 {
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok((i, Ok(v))) => {
                out[i] = Some(v);
                done[i] = true;
                left -= 1;
            }
            Ok((i, Err((msg, loc)))) => {
                done[i] = true;
                left -= 1;
                bad = true;
                if loc.contains("/harness/src/") && !msg.contains("Poison") {
                    c.harness_errors.push(format!("thread {}: {} at {}", i, msg, loc));
                } else {
                    c.violation("panic:thread", format!("{} at {}; {}", msg, loc, what()));
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if cfg!(miri) {
                    continue;
                }
                let sum: u64 = steps.iter().map(|s| s.load(Ordering::SeqCst)).sum();
                let mut asleep = true;
                let mut cpu = vec![];
                for i in 0..n {
                    if !done[i] {
                        match thread_state(tids[i].load(Ordering::SeqCst)) {
                            Some((s, t)) => {
                                asleep &= s == 'S';
                                cpu.push(t)
                            }
                            None => asleep = false,
                        }
                    }
                }
                let now = (sum, cpu);
                if !asleep || now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(20) {
                    STUCK.store(true, Ordering::SeqCst);
                    c.violation("deadlock", format!("{} of {} threads wait for each other for ever; {}", left, n, what()));
                    return None;
                }
            }
            Err(_) => break,
        }
    }
    if bad || out.iter().any(|o| o.is_none()) {
        return None;
    }
    Some(out.into_iter().map(|o| o.unwrap()).collect())
}

/// a pause drawn from the case's random source
fn pause(r: &mut Rng) {
    match r.below(12) {
        0 | 1 => std::thread::yield_now(),
        2 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop()
            }
        }
        3 if r.chance(1, 20) => std::thread::sleep(Duration::from_micros(r.below(120) as u64)),
        _ => {}
    }
}

// ------------------------------------------------------------ independent
#[derive(Clone)]
struct Job1 {
    kind: usize,
    blocks: Vec<Vec<u8>>,
    limit: usize,
    table: usize,
}
impl Job1 {
    fn gen(r: &mut Rng) -> Job1 {
        let kind = r.below(7);
        let n = if kind == 1 || kind == 2 { r.range(1, 4) } else { 1 };
        let blocks = (0..n).map(|_| hostile(r, if kind == 6 { 1 } else { kind })).collect();
        Job1 { kind, blocks, limit: if r.bool() { 1 << 20 } else { r.below(600) }, table: if r.bool() { 4096 } else { r.below(400) } }
    }
    /// everything one connection of its own sees
    fn run(&self) -> (u64, u64, u64) {
        let mut d = Decoder::new();
        d.index.write().unwrap().set_max_table_size(self.table);
        let mut e = T::Eye::new();
        for b in &self.blocks {
            // a panic is C05's business; here it only has to be the same panic
            if let Err((m, _)) = guarded(|| feed(&mut e, self.kind, b, &mut d, self.limit)) {
                e.b(m.as_bytes());
                break;
            }
        }
        (e.h, e.ok, e.err)
    }
}

fn independent(r: &mut Rng, c: &mut Ctx, _i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let n = if cfg!(miri) { 2 } else { r.range(4, 12) };
    let jobs: Arc<Vec<Job1>> = Arc::new((0..n).map(|_| Job1::gen(r)).collect());
    let alone: Vec<(u64, u64, u64)> = jobs.iter().map(|j| j.run()).collect();
    let threads = r.range(2, 6);
    let mut v: Vec<Job<Vec<(usize, (u64, u64, u64))>>> = vec![];
    for _ in 0..threads {
        let jobs = jobs.clone();
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut order: Vec<usize> = (0..jobs.len()).collect();
            rr.shuffle(&mut order);
            let mut out = vec![];
            for i in order {
                out.push((i, jobs[i].run()));
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
            }
            out
        }));
    }
    let outs = match run_all(c, v, &|| "independent codecs".to_string()) {
        Some(o) => o,
        None => return,
    };
    for o in outs {
        for (i, got) in o {
            let j = &jobs[i];
            c.eq(&got, &alone[i], "differs-from-alone", || {
                format!("kind {} {}", j.kind, j.blocks.iter().map(|b| show(b)).collect::<Vec<_>>().join(" | "))
            });
        }
    }
    c.add("jobs on threads", (n * threads) as u64);
    c.add("threads", threads as u64);
    for j in jobs.iter() {
        c.seen_bytes(&j.blocks.concat());
    }
    c.sample(|| format!("{} jobs on {} threads, kinds {:?}", n, threads, jobs.iter().map(|j| j.kind).collect::<Vec<_>>()));
}

// ------------------------------------------------------------ other monitors
/// what a monitor observed in one case, as one number
fn print_of(c: &Ctx) -> u64 {
    let mut d: Vec<u64> = c.distinct.iter().copied().collect();
    d.sort();
    let mut h = mix(c.checks);
    for x in d {
        h = mix(h ^ x);
    }
    for (k, v) in &c.counters {
        if !k.contains("octets") {
            h = mix(h ^ hash_bytes(k.as_bytes()) ^ mix(*v));
        }
    }
    for (k, v) in &c.viols {
        h = mix(h ^ hash_bytes(k.as_bytes()) ^ v.0);
    }
    h
}

type Case = (&'static str, &'static str, fn(&mut Rng, &mut Ctx, u64), usize, u64, u64);

pub fn other_cases(r: &mut Rng, n: usize) -> Vec<Case> {
    thread_local! {
        static PARTS: Vec<(&'static str, Vec<Part>)> = super::all_but_threads().into_iter().map(|p| (p.id, p.parts)).collect();
    }
    PARTS.with(|ps| {
        (0..n)
            .map(|_| {
                let (id, parts) = r.pick(ps);
                let k = r.below(parts.len());
                let p = &parts[k];
                let idx = r.below(p.quick as usize) as u64;
                (*id, p.name, p.f, k, idx, r.u64())
            })
            .collect()
    })
}

pub fn run_other(x: &Case) -> Ctx {
    let mut c = Ctx::new(x.0, Tier::Quick);
    c.run_case(x.2, x.3, x.4, x.5);
    c
}

/// the oracles of the other properties decide the same on several threads
fn monitors(r: &mut Rng, c: &mut Ctx, _i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let n = r.range(4, 10);
    let cases: Arc<Vec<Case>> = Arc::new(other_cases(r, n));
    let alone: Vec<(u64, usize)> = cases
        .iter()
        .map(|x| {
            let s = run_other(x);
            (print_of(&s), s.viols.len())
        })
        .collect();
    let threads = r.range(2, 5);
    let mut v: Vec<Job<Vec<(usize, (u64, usize), Option<String>)>>> = vec![];
    for _ in 0..threads {
        let cases = cases.clone();
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut order: Vec<usize> = (0..cases.len()).collect();
            rr.shuffle(&mut order);
            let mut out = vec![];
            for i in order {
                let s = run_other(&cases[i]);
                let first = s.viols.values().next().map(|v| format!("{}: {}", v.1.sig, v.1.detail));
                out.push((i, (print_of(&s), s.viols.len()), first));
                steps.fetch_add(1, Ordering::Relaxed);
            }
            out
        }));
    }
    let outs = match run_all(c, v, &|| "monitors of other properties".to_string()) {
        Some(o) => o,
        None => return,
    };
    for o in outs {
        for (i, got, first) in o {
            let x = &cases[i];
            c.eq(&got, &alone[i], "monitor-differs-from-alone", || {
                format!("{} part {} idx {} seed {:#x}: {:?}", x.0, x.1, x.4, x.5, first)
            });
        }
    }
    for (x, a) in cases.iter().zip(&alone) {
        c.seen(a.0 ^ hash_bytes(x.1.as_bytes()));
        c.count(&format!("monitor:{}", x.0));
    }
}

// ------------------------------------------------------------ one writer
#[derive(Clone, Debug, PartialEq, Eq)]
struct Snap {
    entries: Vec<(Vec<u8>, Vec<u8>)>,
    max: usize,
}
impl Snap {
    fn of(t: &R::Table) -> Snap {
        Snap { entries: t.entries.iter().cloned().collect(), max: t.max }
    }
    fn hash(&self) -> u64 {
        let mut h = mix(self.max as u64);
        for (n, v) in &self.entries {
            h = mix(h ^ hash_bytes(n) ^ mix(hash_bytes(v)));
        }
        h
    }
}

/// looks at a shared table through one read lock
fn look(t: &RwLock<HeaderIndex>, r: &mut Rng) -> (Snap, Vec<String>) {
    let g = t.read().unwrap();
    let mut bad = vec![];
    let list = g.to_vec();
    if r.chance(1, 4) {
        std::thread::yield_now();
    }
    let entries = fields_of(&list);
    let sum: usize = entries.iter().map(|(n, v)| n.len() + v.len() + 32).sum();
    if g.get_size() != sum {
        bad.push(format!("size {} but the entries sum to {}", g.get_size(), sum));
    }
    if g.len() != entries.len() {
        bad.push(format!("len {} but {} entries", g.len(), entries.len()));
    }
    if sum > g.get_max_table_size() {
        bad.push(format!("{} octets in a table of {}", sum, g.get_max_table_size()));
    }
    for (i, (n, v)) in entries.iter().enumerate() {
        match g.get_from_index(62 + i) {
            Some((a, b)) if a.as_bytes() == &n[..] && b.as_bytes() == &v[..] => {}
            o => bad.push(format!("index {} is {:?}, entry {} is {} {}", 62 + i, o, i, show(n), show(v))),
        }
    }
    if g.get_from_index(62 + entries.len()).is_some() {
        bad.push("an entry past the end".to_string());
    }
    if let Some((n, v)) = list.first() {
        match g.find_header((n, v)) {
            Some((i, true)) => match g.get_from_index(i) {
                Some((a, b)) if a == n && b == v => {}
                o => bad.push(format!("find gives {} which is {:?}", i, o)),
            },
            Some((_, false)) => {}
            // a name of the static table is only looked for there
            None if crate::refm::tables::STATIC.iter().any(|s| s.0.as_bytes() == n.as_bytes()) => {}
            None => bad.push("the newest entry is not found".to_string()),
        }
    }
    (Snap { entries, max: g.get_max_table_size() }, bad)
}

struct Seen {
    lo: u64,
    hi: u64,
    snap: Snap,
    bad: Vec<String>,
}

/// a reader that also resolves the newest entry the way a decoder does
fn reader(
    t: Arc<RwLock<HeaderIndex>>,
    started: Arc<AtomicU64>,
    done: Arc<AtomicU64>,
    over: Arc<AtomicBool>,
    looks: usize,
    mut r: Rng,
) -> Job<(Vec<Seen>, Vec<(u64, u64, Option<(Vec<u8>, Vec<u8>)>)>)> {
    Box::new(move |steps| {
        let mut v = vec![];
        let mut firsts = vec![];
        let mut d = Decoder::new_index(t.clone());
        while v.len() < looks {
            let last = over.load(Ordering::SeqCst);
            let lo = done.load(Ordering::SeqCst);
            let (snap, bad) = look(&t, &mut r);
            let hi = started.load(Ordering::SeqCst);
            v.push(Seen { lo, hi, snap, bad });
            if r.chance(1, 3) {
                let lo = done.load(Ordering::SeqCst);
                let got = d.decode(&mut Binary::from(vec![0x80 | 62u8])).ok();
                let hi = started.load(Ordering::SeqCst);
                firsts.push((lo, hi, got.and_then(|l| fields_of(&l).into_iter().next())));
            }
            steps.fetch_add(1, Ordering::Relaxed);
            pause(&mut r);
            if last {
                break;
            }
        }
        (v, firsts)
    })
}

/// every look is a state of the writer's sequence, inside its window and never
/// going back
fn settle(c: &mut Ctx, states: &[Snap], seen: &[(Vec<Seen>, Vec<(u64, u64, Option<(Vec<u8>, Vec<u8>)>)>)], what: &dyn Fn() -> String) {
    for (looks, firsts) in seen {
        let mut at = 0usize;
        for s in looks {
            c.check(s.bad.is_empty(), "shared-accounting", || format!("{:?}; {}", s.bad, what()));
            let from = at.max(s.lo as usize);
            let to = (s.hi as usize).min(states.len() - 1);
            let hit = (from..=to).find(|k| states[*k] == s.snap);
            let ok = c.check(hit.is_some(), "shared-state", || {
                format!(
                    "between steps {} and {} a reader saw max {} [{}], which the table never was; {}",
                    from, to, s.snap.max, show_fields(&s.snap.entries), what()
                )
            });
            if !ok {
                return;
            }
            at = hit.unwrap();
            c.count("looks");
            if s.hi > s.lo {
                c.count("looks during a step");
            }
            c.seen(s.snap.hash() ^ mix(at as u64));
        }
        for (lo, hi, got) in firsts {
            let hit = (*lo as usize..=(*hi as usize).min(states.len() - 1)).any(|k| states[k].entries.first().cloned() == *got);
            c.check(hit, "shared-decode", || format!("a decoder on the shared table read {:?} for index 62 between steps {} and {}; {}", got, lo, hi, what()));
            c.count("shared decodes");
        }
    }
}

fn small_field(r: &mut Rng) -> R::Field {
    let mut f = gen_field(r);
    if f.1.len() > 120 {
        f.1.truncate(r.range(0, 120));
    }
    f
}

fn one_encoder(r: &mut Rng, c: &mut Ctx, _i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    enum Op {
        Field(R::Field),
        Size(usize),
    }
    let cap = *r.pick(&[4096usize, 1000, 300, 120, 64]);
    let pool: Vec<R::Field> = (0..r.range(3, 14)).map(|_| small_field(r)).collect();
    let n = if cfg!(miri) { 8 } else { r.range(20, 120) };
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            if r.chance(1, 14) {
                Op::Size(r.below(cap + 200))
            } else if r.chance(2, 3) {
                Op::Field(r.pick(&pool).clone())
            } else {
                Op::Field(small_field(r))
            }
        })
        .collect();
    let t = Arc::new(RwLock::new(HeaderIndex::new()));
    t.write().unwrap().set_max_table_size(cap);
    let (started, done, over) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicBool::new(false)));
    let readers = r.range(1, 3);
    type Out = (Vec<Seen>, Vec<(u64, u64, Option<(Vec<u8>, Vec<u8>)>)>);
    enum O {
        W(Vec<(Option<usize>, Option<(R::Field, Vec<u8>)>)>),
        R(Out),
    }
    let mut v: Vec<Job<O>> = vec![];
    {
        let (t, started, done, over) = (t.clone(), started.clone(), done.clone(), over.clone());
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut enc = Encoder::new_index(t.clone(), 16_384);
            let mut log = vec![];
            for (k, op) in ops.into_iter().enumerate() {
                started.store(k as u64 + 1, Ordering::SeqCst);
                match op {
                    Op::Field((n, v)) => {
                        let (a, b) = (HeaderName::from_bytes(&n).unwrap(), HeaderValue::from_bytes(&v));
                        let mut out = algorithm::buf::BinaryMut::new();
                        enc.encode_header_into((&a, &b), &mut out).unwrap();
                        log.push((None, Some(((n, v), out.chunk().to_vec()))));
                    }
                    Op::Size(s) => {
                        t.write().unwrap().set_max_table_size(s);
                        log.push((Some(s), None));
                    }
                }
                done.store(k as u64 + 1, Ordering::SeqCst);
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
            }
            over.store(true, Ordering::SeqCst);
            O::W(log)
        }));
    }
    for _ in 0..readers {
        let job = reader(t.clone(), started.clone(), done.clone(), over.clone(), LOOKS, Rng::new(r.u64()));
        v.push(Box::new(move |s| O::R(job(s))));
    }
    let outs = match run_all(c, v, &|| "one encoder, readers".to_string()) {
        Some(o) => o,
        None => return,
    };
    let mut log = vec![];
    let mut seen = vec![];
    for o in outs {
        match o {
            O::W(l) => log = l,
            O::R(s) => seen.push(s),
        }
    }
    let what = || {
        log.iter()
            .map(|(s, f)| match (s, f) {
                (Some(s), _) => format!("max {}", s),
                (_, Some((f, _))) => show_fields(&[f.clone()]),
                _ => String::new(),
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    // what was written, read alone by the reference
    let mut rd = R::Decoder::new(1 << 20);
    rd.table.resize(4096.min(cap));
    rd.table.max = cap;
    let mut cur = rd.table.clone();
    let mut states = vec![Snap::of(&cur)];
    for (s, f) in &log {
        if let Some(s) = s {
            cur.resize(*s);
        }
        if let Some((f, bytes)) = f {
            match rd.decode(bytes) {
                Ok((l, _)) => {
                    c.check(l.len() == 1 && l[0] == *f, "shared-encoding", || format!("{} was written as {} = {}; {}", show_fields(&[f.clone()]), hex(bytes), show_fields(&l), what()));
                }
                Err(e) => {
                    c.violation("shared-encoding", format!("{} is not HPACK: {}; {}", hex(bytes), e, what()));
                    return;
                }
            }
            cur = rd.table.clone();
        }
        states.push(Snap::of(&cur));
    }
    settle(c, &states, &seen, &what);
    let (end, bad) = look(&t, r);
    c.check(bad.is_empty() && end == *states.last().unwrap(), "shared-end", || format!("{:?} {:?}; {}", bad, end, what()));
    c.sample(|| what());
}

fn one_decoder(r: &mut Rng, c: &mut Ctx, _i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let cap = *r.pick(&[4096usize, 1000, 300, 120, 64]);
    let t = Arc::new(RwLock::new(HeaderIndex::new()));
    t.write().unwrap().set_max_table_size(cap);
    let mut enc = R::Encoder::new(cap);
    let mut states = vec![Snap::of(&enc.table)];
    let pool: Vec<R::Field> = (0..r.range(3, 14)).map(|_| small_field(r)).collect();
    let mut blocks: Vec<(Vec<u8>, Vec<R::Field>, u64)> = vec![];
    for _ in 0..if cfg!(miri) { 4 } else { r.range(5, 40) } {
        let mut b = vec![];
        let mut fields = vec![];
        if r.chance(1, 6) {
            for _ in 0..r.range(1, 2) {
                let s = r.below(cap + 1);
                enc.size_update(&mut b, s);
                states.push(Snap::of(&enc.table));
            }
        }
        for _ in 0..r.range(0, 6) {
            let f = if r.bool() { r.pick(&pool).clone() } else { small_field(r) };
            enc.field(&mut b, &f.0, &f.1, r);
            states.push(Snap::of(&enc.table));
            fields.push(f);
        }
        blocks.push((b, fields, states.len() as u64 - 1));
    }
    let blocks = Arc::new(blocks);
    let (started, done, over) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicBool::new(false)));
    type Out = (Vec<Seen>, Vec<(u64, u64, Option<(Vec<u8>, Vec<u8>)>)>);
    enum O {
        W(Vec<Result<Vec<R::Field>, String>>),
        R(Out),
    }
    let mut v: Vec<Job<O>> = vec![];
    {
        let (t, started, done, over, blocks) = (t.clone(), started.clone(), done.clone(), over.clone(), blocks.clone());
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut d = Decoder::new_index(t);
            let mut log = vec![];
            for (b, _, end) in blocks.iter() {
                started.store(*end, Ordering::SeqCst);
                let got = if rr.bool() {
                    d.decode(&mut &b[..]).map(|l| fields_of(&l))
                } else {
                    let mut l = vec![];
                    d.decode_with_cb(&mut Binary::from(b.clone()), |n, v| l.push((n.as_bytes().to_vec(), v.as_bytes().to_vec()))).map(|_| l)
                };
                log.push(got.map_err(|e| format!("{:?}", e)));
                done.store(*end, Ordering::SeqCst);
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
            }
            over.store(true, Ordering::SeqCst);
            O::W(log)
        }));
    }
    for _ in 0..r.range(1, 3) {
        let job = reader(t.clone(), started.clone(), done.clone(), over.clone(), LOOKS, Rng::new(r.u64()));
        v.push(Box::new(move |s| O::R(job(s))));
    }
    let what = || blocks.iter().map(|b| format!("{} = {}", hex(&b.0), show_fields(&b.1))).collect::<Vec<_>>().join("; ");
    let outs = match run_all(c, v, &|| "one decoder, readers".to_string()) {
        Some(o) => o,
        None => return,
    };
    let mut seen = vec![];
    for o in outs {
        match o {
            O::W(log) => {
                for (g, b) in log.iter().zip(blocks.iter()) {
                    c.check(g.as_ref().ok() == Some(&b.1), "shared-decoding", || format!("{:?} for {} = {}", g, hex(&b.0), show_fields(&b.1)));
                }
            }
            O::R(s) => seen.push(s),
        }
    }
    settle(c, &states, &seen, &what);
    let (end, bad) = look(&t, r);
    c.check(bad.is_empty() && end == *states.last().unwrap(), "shared-end", || format!("{:?} {:?}; {}", bad, end, what()));
    c.sample(|| what());
}

// ------------------------------------------------------------ several writers
/// Several encoders on one table: what they write may refer to one another's
/// entries, but the table's own books stay in order and nothing is lost.
fn many_writers(r: &mut Rng, c: &mut Ctx, i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let cap = if i % 3 == 0 { 1 << 20 } else { *r.pick(&[4096usize, 700, 200, 64]) };
    let resize = i % 3 != 0;
    let t = Arc::new(RwLock::new(HeaderIndex::new()));
    t.write().unwrap().set_max_table_size(cap);
    let writers = r.range(2, 4);
    let over = Arc::new(AtomicUsize::new(0));
    enum O {
        W(Vec<R::Field>),
        R(Vec<(Snap, Vec<String>)>),
    }
    let mut v: Vec<Job<O>> = vec![];
    for w in 0..writers {
        let (t, over) = (t.clone(), over.clone());
        let mut rr = Rng::new(r.u64());
        let n = if cfg!(miri) { 5 } else { r.range(10, 60) };
        v.push(Box::new(move |steps| {
            let mut enc = Encoder::new_index(t.clone(), 16_384);
            let mut mine = vec![];
            for k in 0..n {
                if resize && rr.chance(1, 12) {
                    t.write().unwrap().set_max_table_size(rr.below(cap + 100));
                }
                let (a, b) = (format!("x-w{}-{}", w, rr.below(5)), format!("{}-{}", k, "v".repeat(rr.below(40))));
                let (hn, hv) = (HeaderName::from_bytes(a.as_bytes()).unwrap(), HeaderValue::from_bytes(b.as_bytes()));
                let l = [(hn, hv)];
                let out = enc.encode(l.iter().map(|x| (&x.0, &x.1)));
                assert!(out.remaining() > 0);
                mine.push((a.into_bytes(), b.into_bytes()));
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
            }
            over.fetch_add(1, Ordering::SeqCst);
            O::W(mine)
        }));
    }
    for _ in 0..r.range(1, 2) {
        let (t, over) = (t.clone(), over.clone());
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut out = vec![];
            while out.len() < LOOKS {
                let last = over.load(Ordering::SeqCst) == writers;
                out.push(look(&t, &mut rr));
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
                if last {
                    break;
                }
            }
            O::R(out)
        }));
    }
    let outs = match run_all(c, v, &|| format!("{} encoders on one table", writers)) {
        Some(o) => o,
        None => return,
    };
    let mut wrote: Vec<Vec<R::Field>> = vec![];
    let mut looks = vec![];
    for o in outs {
        match o {
            O::W(m) => wrote.push(m),
            O::R(l) => looks.push(l),
        }
    }
    let end = look(&t, r);
    looks.push(vec![end]);
    // per writer, the entries of every look are in the order it wrote them
    let place = |f: &R::Field| wrote.iter().enumerate().find_map(|(w, m)| m.iter().position(|x| x == f).map(|k| (w, k)));
    for l in &looks {
        for (s, bad) in l {
            c.check(bad.is_empty(), "writers-accounting", || format!("{:?}", bad));
            let mut last = vec![usize::MAX; writers];
            for f in &s.entries {
                match place(f) {
                    Some((w, k)) => {
                        c.check(k < last[w], "writers-order", || format!("entry {} of writer {} is older than {}", k, w, last[w]));
                        last[w] = k;
                    }
                    None => {
                        c.violation("writers-invented", format!("{} {} was never written", show(&f.0), show(&f.1)));
                    }
                }
            }
            c.count("looks");
            c.seen(s.hash());
        }
    }
    if !resize {
        let s = &looks.last().unwrap()[0].0;
        let total: usize = wrote.iter().map(|m| m.len()).sum();
        c.check(s.entries.len() == total, "writers-lost", || format!("{} entries, {} were written", s.entries.len(), total));
        c.add("entries conserved", total as u64);
    }
}

// ------------------------------------------------------------ shared values
fn gen_values(r: &mut Rng) -> Option<(Request<String>, Response<String>, Url, OwnedMessage, HeaderMap)> {
    let a = super::http1::gen_request(r).bytes;
    let b = super::http1::gen_response(r).bytes;
    let mut q = Request::new();
    q.parse(&a).ok()?;
    let mut s = Response::<()>::new(());
    s.parse(&b).ok()?;
    let (q, _) = q.into("a body".to_string());
    let (s, _) = s.into("a body".to_string());
    let u = Url::parse(super::robust::gen_url(r)).ok()?;
    let m = if r.bool() { OwnedMessage::Text("a text \u{4e2d}".to_string()) } else { OwnedMessage::Binary(r.bytes(40)) };
    let h = q.headers().clone();
    Some((q, s, u, m, h))
}

fn digest_values(v: &(Request<String>, Response<String>, Url, OwnedMessage, HeaderMap)) -> u64 {
    let mut e = T::Eye::new();
    T::headers(&mut e, v.0.headers());
    T::headers(&mut e, v.1.headers());
    T::headers(&mut e, &v.4);
    T::url(&mut e, v.0.url());
    T::url(&mut e, &v.2);
    e.b(format!("{:?} {:?} {:?}", v.0.method(), v.0.version(), v.1.status()).as_bytes());
    let mut q = Request::<()>::new_by_parts(v.0.parts().clone()).into(v.0.body().clone()).0;
    e.b(&q.http1_data().map(|b| b.to_vec()).unwrap_or_default());
    e.s(v.1.body());
    e.h
}

/// values read and cloned from several threads at once
fn shared_values(r: &mut Rng, c: &mut Ctx, _i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let vals = match gen_values(r) {
        Some(v) => Arc::new(v),
        None => {
            c.count("no values");
            return;
        }
    };
    let want = digest_values(&vals);
    let mut v: Vec<Job<Vec<u64>>> = vec![];
    for _ in 0..r.range(2, 4) {
        let vals = vals.clone();
        let mut rr = Rng::new(r.u64());
        v.push(Box::new(move |steps| {
            let mut out = vec![];
            for _ in 0..if cfg!(miri) { 1 } else { 6 } {
                out.push(digest_values(&vals));
                steps.fetch_add(1, Ordering::Relaxed);
                pause(&mut rr);
            }
            out
        }));
    }
    if let Some(outs) = run_all(c, v, &|| "values shared for reading".to_string()) {
        for o in outs.concat() {
            c.eq(&o, &want, "shared-read-differs", || format!("{:?}", vals.0.url()));
            c.count("shared reads");
        }
        c.seen(want);
        c.eq(&digest_values(&vals), &want, "reading-changes", String::new);
    }
}

// ------------------------------------------------------------ first use
/// operations that each touch the lazily built tables in their own way
fn first_ops(seed: u64, turn: usize) -> u64 {
    let mut out = [0u64; 8];
    for k in 0..8 {
        let k = (k + turn) % 8;
        let mut r = Rng::new(mix(seed) ^ k as u64);
        let mut e = T::Eye::new();
        match k {
            0 => {
                let s = super::hpack::gen_value(&mut r);
                let h = HuffmanEncoder::encode(&s);
                e.b(&h);
                match HuffmanDecoder::new().decode(&h) {
                    Ok(v) => e.b(&v),
                    Err(_) => e.n(9),
                }
            }
            1 => {
                let l: Vec<(HeaderName, HeaderValue)> = (0..12)
                    .map(|_| {
                        let f = small_field(&mut r);
                        (name_of(&mut r, &f.0), HeaderValue::from_bytes(&f.1))
                    })
                    .collect();
                let mut enc = Encoder::new();
                let b = enc.encode(l.iter().map(|x| (&x.0, &x.1)));
                e.b(b.chunk());
                match Decoder::new().decode(&mut &b.chunk()[..]) {
                    Ok(l) => fields_of(&l).iter().for_each(|f| {
                        e.b(&f.0);
                        e.b(&f.1)
                    }),
                    Err(_) => e.n(7),
                }
            }
            2 => {
                let mut enc = R::Encoder::new(4096);
                let mut b = vec![];
                for _ in 0..12 {
                    let f = small_field(&mut r);
                    enc.field(&mut b, &f.0, &f.1, &mut r);
                }
                T::hpack(&mut e, &b, &mut Decoder::new());
            }
            3 => {
                let t = HeaderIndex::new();
                for i in 0..70 {
                    if let Some((n, v)) = t.get_from_index(i) {
                        e.b(n.as_bytes());
                        e.b(v.as_bytes());
                        e.n(t.find_header((n, v)).map(|x| x.0 as u64).unwrap_or(0));
                    }
                }
            }
            4 => T::http1(&mut e, &super::http1::gen_request(&mut r).bytes),
            5 => {
                let b = hostile(&mut r, 1);
                T::h2(&mut e, &b, &mut Decoder::new(), 1 << 16)
            }
            6 => {
                let b = hostile(&mut r, 3);
                T::ws(&mut e, &b)
            }
            _ => {
                let f = small_field(&mut r);
                let t = HeaderIndex::new();
                let o = t.find_header((&name_of(&mut r, &f.0), &HeaderValue::from_bytes(&f.1)));
                e.b(format!("{:?}", o).as_bytes())
            }
        }
        out[k] = e.h;
    }
    out.iter().fold(1, |h, x| mix(h ^ x))
}

/// body of the process that makes the first use from all threads at once
pub fn firstuse(seed: u64, threads: usize) -> i32 {
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                bar.wait();
                guarded(|| first_ops(seed, k)).map_err(|e| format!("{} at {}", e.0, e.1))
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(d)) => println!("{:016x}", d),
            Ok(Err(m)) => println!("panic {}", m),
            Err(_) => println!("panic"),
        }
    }
    0
}

fn first_use(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let seed = r.u64() >> 1;
    let threads = r.range(2, 8);
    let want = first_ops(seed, 0);
    let want = format!("{:016x}", want);
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return,
    };
    let mut child = match std::process::Command::new(exe)
        .args(["firstuse", &seed.to_string(), &threads.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
    {
        Ok(ch) => ch,
        Err(e) => {
            c.harness_errors.push(format!("cannot start a process: {}", e));
            return;
        }
    };
    // a process whose threads wait for each other sleeps without using the CPU
    let t0 = Instant::now();
    let mut quiet = Instant::now();
    let mut cpu = u64::MAX;
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) => {}
            Err(_) => break,
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 100 }));
        let now = std::fs::read_to_string(format!("/proc/{}/stat", child.id()))
            .ok()
            .and_then(|s| {
                let f: Vec<u64> = s[s.rfind(')')? + 2..].split(' ').skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
                Some(f.iter().sum::<u64>())
            })
            .unwrap_or(0);
        if now != cpu {
            cpu = now;
            quiet = Instant::now();
        }
        if quiet.elapsed() > Duration::from_secs(30) {
            let _ = child.kill();
            let _ = child.wait();
            c.violation("first-use-deadlock", format!("seed {} threads {}: no CPU used for 30 s", seed, threads));
            return;
        }
    }
    let out = match child.wait_with_output() {
        Ok(o) => o,
        Err(e) => {
            c.harness_errors.push(format!("{}", e));
            return;
        }
    };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().collect();
    c.check(lines.len() == threads && lines.iter().all(|l| *l == want), "first-use", || {
        format!("seed {} threads {}: {:?} {:?}, want {} from each; {}", seed, threads, out.status, lines, want, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>())
    });
    c.add("first uses", threads as u64);
    c.count("processes");
    c.seen(mix(seed));
}

// ------------------------------------------------------------ tight loops
/// operations small enough to be done millions of times
const TIGHT: [&str; 22] = [
    "chunk", "chunk-out", "url", "escape", "name", "number", "huffman", "huffman-back", "tokens", "ws-frame", "ws-message", "h2-frame",
    "settings", "headers", "request", "response", "encoder", "decoder", "extensions", "table", "builder", "kinds",
];

/// inputs for one of them, each its own
fn tight_input(k: usize, r: &mut Rng) -> Vec<u8> {
    let word = |r: &mut Rng, n: usize| {
        let n = r.range(1, n);
        r.from_set(b"abcdefghijkXYZ019-_", n)
    };
    let join = |v: &[&[u8]]| v.concat();
    match k {
        0 => {
            let n = r.below(70);
            let mut b = format!("{:x}\r\n", n).into_bytes();
            b.extend(r.bytes(n));
            b.extend(b"\r\n");
            if r.chance(1, 8) {
                b.truncate(r.below(b.len()));
            }
            b
        }
        2 => join(&[r.pick(&["http", "https", "ws", "wss", "ftp"]).as_bytes(), b"://", &word(r, 8), b":", format!("{}", r.below(70000)).as_bytes(), b"/", &word(r, 8), b"?", &word(r, 8)]),
        3 => join(&[&word(r, 6), *r.pick(&[&b"%20"[..], b" ", "é".as_bytes(), b"%41", b"%4", b"/&="]), &word(r, 6)]),
        5 => format!("{}", r.u64() >> r.below(64)).into_bytes(),
        14 => join(&[r.pick(&["GET", "POST", "PUT", "HEAD", "X"]).as_bytes(), b" /", &word(r, 8), b" HTTP/1.", r.pick(&[&b"0"[..], b"1"]), b"\r\nHost: ", &word(r, 8), b"\r\n", &word(r, 12), b": ", &word(r, 12), b"\r\n\r\n"]),
        15 => join(&[b"HTTP/1.", r.pick(&[&b"0"[..], b"1"]), format!(" {} ", r.range(100, 599)).as_bytes(), &word(r, 8), b"\r\n", &word(r, 12), b": ", &word(r, 12), b"\r\n\r\n"]),
        _ => {
            let n = r.range(1, 24);
            r.bytes(n)
        }
    }
}

fn tight_op(k: usize, b: &[u8]) -> u64 {
    let mut e = T::Eye::new();
    let half = b.len() / 2;
    let hexed: String = b.iter().map(|x| format!("{:x}", x)).collect();
    match k {
        0 | 1 => T::chunks(&mut e, b),
        2 => {
            if let Ok(u) = Url::parse(b.to_vec()) {
                T::url(&mut e, &u);
            }
        }
        3 => {
            let t = String::from_utf8_lossy(b).to_string();
            e.s(&Url::url_encode(&t));
            let d = Url::url_decode(&t);
            if e.res(&d) {
                e.s(&d.unwrap());
            }
        }
        4 => {
            let (x, y) = (HeaderName::try_from(hexed[..half].to_string()), HeaderName::try_from(hexed[half..].to_string()));
            if let (Ok(x), Ok(y)) = (x, y) {
                let z = HeaderName::from_bytes(x.name().to_uppercase().as_bytes()).unwrap();
                e.n((x == y) as u64 + 2 * (x == z) as u64 + 4 * (y == z) as u64);
                e.s(x.name());
                e.s(&y.to_string());
            }
        }
        5 => {
            let v = HeaderValue::from_bytes(b);
            let x: Result<usize, _> = (&v).try_into();
            e.n(x.map(|x| x as u64).unwrap_or(7));
            let x: Result<isize, _> = (&v).try_into();
            e.n(x.map(|x| x as u64).unwrap_or(7));
        }
        6 => {
            let h = HuffmanEncoder::encode(b);
            e.b(&h);
            match HuffmanDecoder::new().decode(&h) {
                Ok(v) => e.b(&v),
                Err(_) => e.n(9),
            }
        }
        7 => match HuffmanDecoder::new().decode(b) {
            Ok(v) => e.b(&v),
            Err(_) => e.n(9),
        },
        8 => T::texts(&mut e, &b[..b.len().min(6)]),
        9 => {
            let mask = [b[0], b[half], 3, b.len() as u8];
            let f = DataFrame::new(true, Opcode::Binary, b.to_vec());
            let mut out = BinaryMut::new();
            e.n(f.write_to(&mut out, if b[0] % 3 == 0 { None } else { Some(mask) }).is_ok() as u64);
            e.b(out.chunk());
            let g = DataFrame::read_dataframe(&mut Binary::from(out.chunk().to_vec()), b[0] % 3 != 0);
            if e.res(&g) {
                e.b(&g.unwrap().data);
            }
        }
        10 => {
            let at = half;
            let f = vec![DataFrame::new(false, Opcode::Text, hexed.as_bytes()[..at].to_vec()), DataFrame::new(true, Opcode::Continuation, hexed.as_bytes()[at..].to_vec())];
            match OwnedMessage::from_dataframes(f) {
                Ok(OwnedMessage::Text(t)) => e.s(&t),
                _ => e.n(8),
            }
        }
        11 => {
            let kind = b[0] % 9;
            let mut w = vec![0, 0, (b.len() - 1) as u8, kind, 0, 0, 0, 0, (kind % 4 != 0) as u8];
            w.extend(&b[1..]);
            T::h2(&mut e, &w, &mut Decoder::new(), 1 << 16);
        }
        12 => {
            let mut s = Settings::default();
            s.set_max_header_list_size(Some(b[0] as u32 * 7));
            s.set_initial_window_size(Some(b[half] as u32 * 70_001));
            s.set_max_concurrent_streams(Some(b.len() as u32));
            let t = s.encode_http_settings();
            e.s(&t);
            let x = Settings::default().parse_http_settings(&t);
            if e.res(&x) {
                let x = x.unwrap();
                e.n(x.max_header_list_size().unwrap_or(9) as u64);
                e.n(x.initial_window_size().unwrap_or(9) as u64);
                e.n(x.max_concurrent_streams().unwrap_or(9) as u64);
            }
        }
        13 => {
            let mut m = HeaderMap::new();
            for (i, x) in b.iter().enumerate().take(12) {
                let n = format!("x-{}", x % 7);
                match x % 5 {
                    0 => {
                        e.n(m.remove(&HeaderName::try_from(n).unwrap()).is_some() as u64);
                    }
                    1 => {
                        m.push(n, hexed[i..].to_string());
                    }
                    _ => {
                        m.insert(n, hexed[..i].to_string());
                    }
                }
            }
            T::headers(&mut e, &m);
        }
        14 => {
            let mut q = Request::new();
            let r = q.parse(b);
            e.res(&r);
            T::headers(&mut e, q.headers());
            e.s(q.method().as_str());
            e.s(q.path());
            e.os(&q.get_host());
            e.n(q.get_body_len() as u64);
            if let Ok(d) = q.http1_data() {
                e.b(&d);
            }
        }
        15 => {
            let mut q = Response::new(());
            let r = q.parse(b);
            e.res(&r);
            T::headers(&mut e, q.headers());
            e.n(q.status().as_u16() as u64);
            if let Ok(d) = q.httpdata() {
                e.b(&d);
            }
        }
        16 | 17 => {
            let l: Vec<(HeaderName, HeaderValue)> = b
                .iter()
                .take(6)
                .map(|x| (HeaderName::try_from(["accept", "x-a", ":path", "x-bb", "host", "te"][*x as usize % 6].to_string()).unwrap(), HeaderValue::from_bytes(&hexed.as_bytes()[..*x as usize % hexed.len()])))
                .collect();
            let w = Encoder::new().encode(l.iter().map(|x| (&x.0, &x.1)));
            e.b(w.chunk());
            let mut d = Decoder::new();
            if k == 17 {
                T::hpack(&mut e, b, &mut d);
            }
            match d.decode(&mut &w.chunk()[..]) {
                Ok(l) => fields_of(&l).iter().for_each(|f| {
                    e.b(&f.0);
                    e.b(&f.1)
                }),
                Err(_) => e.n(7),
            }
        }
        18 => {
            let mut x = Extensions::new();
            e.n(x.insert(b[0]).is_some() as u64);
            e.n(x.insert(hexed.clone()).is_some() as u64);
            e.n(x.insert(b[half]).map(|v| v as u64).unwrap_or(999));
            e.ose(x.get::<String>());
            e.n(x.remove::<u8>().map(|v| v as u64).unwrap_or(999));
            e.n(x.len() as u64);
        }
        19 => {
            let mut t = HeaderIndex::new();
            t.set_max_table_size(b[0] as usize + 60);
            for x in b.iter().take(8) {
                t.add_header(HeaderName::try_from(format!("x-{}", x % 5)).unwrap(), HeaderValue::from_bytes(&[*x % 16 + b'a']));
                e.n(t.get_size() as u64);
            }
            for i in [1usize, 2, 5, 16, 61, 62, 63, 65] {
                if let Some((n, v)) = t.get_from_index(i) {
                    e.b(n.as_bytes());
                    e.b(v.as_bytes());
                    e.n(t.find_header((n, v)).map(|x| x.0 as u64 + 1000 * x.1 as u64).unwrap_or(0));
                }
            }
        }
        20 => {
            let q = Request::builder().method(["GET", "POST", "X-Y"][b[0] as usize % 3]).url(format!("http://{}.example/{}?{}", &hexed[..half + 1], &hexed[half..], half)).header("x-a", hexed.clone()).body(());
            if e.res(&q) {
                let mut q = q.unwrap();
                if let Ok(d) = q.http1_data() {
                    e.b(&d);
                }
            }
            let q = Response::builder().status(b[0] as u16 % 500 + 100).header("x-a", hexed.clone()).body(());
            if e.res(&q) {
                if let Ok(d) = q.unwrap().httpdata() {
                    e.b(&d);
                }
            }
        }
        _ => {
            for x in b {
                let n: u16 = CloseCode::from(1000 + *x as u16 % 30).into();
                e.n(n as u64);
                e.n(Opcode::new(x & 15).map(|o| o as u64).unwrap_or(99));
                e.dbg(format!("{:?}", webparse::http2::frame::Kind::new(*x)));
                e.s(&format!("{:?}", webparse::StatusCode::try_from(*x as u16 % 500 + 100).map(|s| s.to_string()).ok()));
            }
        }
    }
    e.h ^ hash_bytes(e.bad.concat().as_bytes())
}

fn tight(r: &mut Rng, c: &mut Ctx, i: u64) {
    if STUCK.load(Ordering::SeqCst) {
        return;
    }
    let k = i as usize % TIGHT.len();
    let inputs: Arc<Vec<(Vec<u8>, u64)>> = Arc::new(
        (0..r.range(3, 7))
            .map(|_| {
                let b = tight_input(k, r);
                let h = tight_op(k, &b);
                (b, h)
            })
            .collect(),
    );
    let threads = if cfg!(miri) { 2 } else { r.range(4, 8) };
    let turns = if cfg!(miri) { 6 } else { 1500 };
    let go = Arc::new(AtomicUsize::new(0));
    let mut v: Vec<Job<Vec<(usize, u64)>>> = vec![];
    for t in 0..threads {
        let (inputs, go) = (inputs.clone(), go.clone());
        v.push(Box::new(move |steps| {
            // all at once
            go.fetch_add(1, Ordering::SeqCst);
            while go.load(Ordering::SeqCst) < threads {
                std::thread::yield_now();
            }
            let mut bad = vec![];
            let mut h = t as u64;
            for _ in 0..turns {
                h = mix(h);
                let n = h as usize % inputs.len();
                let got = tight_op(k, &inputs[n].0);
                if got != inputs[n].1 && bad.len() < 3 {
                    bad.push((n, got));
                }
                steps.fetch_add(1, Ordering::Relaxed);
            }
            bad
        }));
    }
    let Some(outs) = run_all(c, v, &|| format!("{} in tight loops", TIGHT[k])) else { return };
    for o in outs {
        c.add("operations in tight loops", turns as u64);
        c.check(o.is_empty(), &format!("tight:{}", TIGHT[k]), || {
            o.iter().map(|(n, got)| format!("{} gave {:x}, alone {:x}", show(&inputs[*n].0), got, inputs[*n].1)).collect::<Vec<_>>().join("; ")
        });
    }
    c.count(&format!("tight:{}", TIGHT[k]));
    for x in inputs.iter() {
        c.seen(x.1);
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "Independent codecs and the monitors of the other properties on 2 to 6 threads against the same on one; processes whose threads make the first use of the static tables together; one encoder or decoder with readers of its table, every look matched to a state of the writer's sequence inside its time window; several encoders on one table; 22 small operations done by 4 to 8 threads in tight loops, each result against the one alone. Pauses are injected at random. The same workload runs under ThreadSanitizer. Non-trivial: a distinct input, table state seen, or first-use process.",
        parts: vec![
            part("independent", 8_000, 300_000, independent),
            part("monitors", 2_500, 100_000, monitors),
            part("first use", 400, 10_000, first_use),
            part("one encoder", 8_000, 400_000, one_encoder),
            part("one decoder", 8_000, 400_000, one_decoder),
            part("many writers", 6_000, 300_000, many_writers),
            part("shared values", 4_000, 150_000, shared_values),
            part("tight loops", 660, 22_000, tight),
        ],
        assumptions: vec!["schedules are those the machine and the injected pauses produce", "several encoders on one table need a lock around each block to produce readable blocks; only the table's own accounting is required of them here"],
    }]
}
