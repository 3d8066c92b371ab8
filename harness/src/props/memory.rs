//! C29: the workloads of the other properties as food for the sanitizers, and
//! two things that can be seen without one: memory not given back and text
//! that is not text.
use super::robust::{feed, hostile, FEEDS};
use super::threads::{other_cases, run_other};
use super::torture as T;
use crate::core::*;
use webparse::http2::Decoder;

/// live bytes of this thread that `f` leaves behind the second time it runs
fn left_behind(mut f: impl FnMut()) -> isize {
    f();
    let _ = take_panic();
    let a = live_bytes();
    f();
    let _ = take_panic();
    live_bytes() - a
}

fn feeds(r: &mut Rng, c: &mut Ctx, i: u64) {
    let kind = i as usize % 7;
    let n = r.range(1, 4);
    let bs: Vec<Vec<u8>> = (0..n).map(|_| hostile(r, if kind == 6 { 1 } else { kind })).collect();
    let limit = if r.bool() { 1 << 20 } else { r.below(600) };
    let mut bad = vec![];
    let mut counts = (0, 0, false);
    let left = left_behind(|| {
        let mut d = Decoder::new();
        let mut e = T::Eye::new();
        for b in &bs {
            if guarded(|| feed(&mut e, kind, b, &mut d, limit)).is_err() {
                counts.2 = true;
                break;
            }
        }
        counts.0 = e.ok;
        counts.1 = e.err;
        if let Some(b) = e.bad.pop() {
            bad = vec![b];
        }
    });
    let d = || bs.iter().map(|b| format!("{} {}", show(b), hex(b))).collect::<Vec<_>>().join(" | ");
    c.check(bad.is_empty(), "invalid-text", || format!("{}: {:?}; {}", FEEDS[kind], bad, d()));
    if counts.2 {
        // a panic is C05's business
        c.count("panicked");
        return;
    }
    c.check(!cfg!(not(miri)) || !bad.is_empty() || left == 0, "leak", || format!("{}: {} bytes are not given back; {}", FEEDS[kind], left, d()));
    c.add("results", counts.0);
    c.add("refusals", counts.1);
    c.seen_bytes(&bs.concat());
    c.sample(|| d());
}

fn anything(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let x = other_cases(r, 1).remove(0);
    let mut out = (0, 0);
    let left = left_behind(|| {
        let s = run_other(&x);
        out = (s.checks, s.viols.len());
    });
    // a case with a violation says so in its own property's check
    if out.1 == 0 {
        c.check(!cfg!(not(miri)) || left == 0, "leak:monitor", || format!("{} part {} idx {} seed {:#x}: {} bytes are not given back", x.0, x.1, x.4, x.5, left));
    }
    c.add("decisions of other monitors", out.0);
    c.count(&format!("monitor:{}", x.0));
    c.seen(mix(x.4) ^ hash_bytes(x.1.as_bytes()) ^ hash_bytes(x.0.as_bytes()));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "Hostile octets to every reader with everything asked and rewritten, and cases of the monitors of all the other properties, each twice with the bytes left behind by the second run counted. The same cases run in an AddressSanitizer (with LeakSanitizer where the machine allows it) and a MemorySanitizer build, and a selection under Miri. Non-trivial: a distinct input or case.",
        parts: vec![part("feeds", 100_000, 2_000_000, feeds), part("monitors", 50_000, 1_000_000, anything)],
        assumptions: vec!["sanitizers and Miri see the executions they are given"],
    }]
}
