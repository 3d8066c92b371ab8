//! C25: the type-keyed store, with every value's life observed.
use crate::core::*;
use std::any::TypeId;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use webparse::{Extensions, Request, Response};

/// where every value is: alive, and how often it was dropped
#[derive(Default)]
struct Log {
    made: u64,
    dropped: BTreeMap<u64, u32>,
}
type L = Arc<Mutex<Log>>;

/// a value of the K-th type
struct V<const K: usize> {
    id: u64,
    log: L,
    /// types differ in size and alignment
    body: [u8; K],
}
impl<const K: usize> V<K> {
    fn new(log: &L) -> V<K> {
        let mut l = log.lock().unwrap();
        l.made += 1;
        V { id: l.made, log: log.clone(), body: [(l.made % 251) as u8; K] }
    }
    fn sound(&self) -> bool {
        self.body.iter().all(|b| *b == (self.id % 251) as u8)
    }
}
impl<const K: usize> Drop for V<K> {
    fn drop(&mut self) {
        *self.log.lock().unwrap().dropped.entry(self.id).or_insert(0) += 1;
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct Unit;
#[derive(Debug, PartialEq, Clone, Copy)]
struct Wrap(u64);
#[repr(align(64))]
#[derive(Debug, PartialEq, Clone, Copy)]
struct Wide(u64);

/// what the store should hold, by type
type Model = BTreeMap<usize, u64>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Insert,
    Get,
    GetMut,
    Swap,
    Remove,
}

fn typed<const K: usize>(c: &mut Ctx, e: &mut Extensions, m: &mut Model, log: &L, op: Op, hist: &dyn Fn() -> String) {
    let d = || format!("type {} {:?}; {}", K, op, hist());
    match op {
        Op::Insert => {
            let v = V::<K>::new(log);
            let id = v.id;
            let Some(old) = c.call("insert", &d, || e.insert(v)) else { return };
            let want = m.insert(K, id);
            c.check(old.as_ref().map(|v| v.id) == want, "insert", || format!("{:?} instead of {:?}; {}", old.as_ref().map(|v| v.id), want, d()));
            c.check(old.as_ref().map_or(true, |v| v.sound()), "bytes", d);
        }
        Op::Get => {
            let Some(v) = c.call("get", &d, || e.get::<V<K>>().map(|v| (v.id, v.sound()))) else { return };
            let want = m.get(&K).copied();
            c.check(v == want.map(|i| (i, true)), "get", || format!("{:?} instead of {:?}; {}", v, want, d()));
        }
        Op::GetMut | Op::Swap => {
            let fresh = V::<K>::new(log);
            let Some(v) = c.call("get_mut", &d, || {
                e.get_mut::<V<K>>().map(|v| {
                    let seen = (v.id, v.sound());
                    if op == Op::Swap {
                        *v = fresh;
                    }
                    (seen, v.id)
                })
            }) else {
                return;
            };
            let want = m.get(&K).copied();
            c.check(v.map(|v| v.0) == want.map(|i| (i, true)), "get-mut", || format!("{:?} instead of {:?}; {}", v, want, d()));
            if let (Some((_, now)), true) = (v, op == Op::Swap) {
                m.insert(K, now);
            }
        }
        Op::Remove => {
            let Some(v) = c.call("remove", &d, || e.remove::<V<K>>()) else { return };
            let want = m.remove(&K);
            c.check(v.as_ref().map(|v| v.id) == want, "remove", || format!("{:?} instead of {:?}; {}", v.as_ref().map(|v| v.id), want, d()));
            c.check(v.as_ref().map_or(true, |v| v.sound()), "bytes", d);
        }
    }
}

type TypedFn = fn(&mut Ctx, &mut Extensions, &mut Model, &L, Op, &dyn Fn() -> String);
macro_rules! typed {
    ($($k:literal)*) => { &[$(typed::<$k>),*] };
}
const TYPES: &[TypedFn] = typed!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299);

/// nothing is dropped twice, and exactly what the stores do not hold is dropped
fn account(c: &mut Ctx, log: &L, held: &[&Model], d: &dyn Fn() -> String) {
    let l = log.lock().unwrap();
    for (id, n) in &l.dropped {
        c.check(*n == 1, "dropped-twice", || format!("value {} dropped {} times; {}", id, n, d()));
    }
    let alive: Vec<u64> = held.iter().flat_map(|m| m.values().copied()).collect();
    for id in &alive {
        c.check(!l.dropped.contains_key(id), "dropped-early", || format!("value {}; {}", id, d()));
    }
    c.check(l.made as usize - l.dropped.len() == alive.len(), "leaked", || {
        let lost: Vec<u64> = (1..=l.made).filter(|i| !l.dropped.contains_key(i) && !alive.contains(i)).collect();
        format!("values {:?} neither held nor dropped; {}", lost, d())
    });
}

fn c25_histories(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let log: L = Default::default();
    let n = 2;
    let mut stores: Vec<Extensions> = (0..n).map(|k| if k == 0 { Extensions::new() } else { Extensions::default() }).collect();
    let mut models: Vec<Model> = vec![Model::new(); n];
    // now and then more types than a small table or a narrow counter holds
    let many = r.chance(1, 300);
    let kinds = if many { *r.pick(&[64, 65, 129, 256, 257, TYPES.len()]) } else { *r.pick(&[1usize, 3, 8, 40]) };
    let mut hist: Vec<String> = vec![];
    let mut h = 1u64;
    if many {
        let mut order: Vec<usize> = (0..kinds).collect();
        r.shuffle(&mut order);
        hist.push(format!("{} types inserted", kinds));
        for t in order {
            let s = r.chance(1, 8) as usize;
            TYPES[t](c, &mut stores[s], &mut models[s], &log, Op::Insert, &|| format!("filling with {} types", kinds));
        }
        c.count("filled with many types");
    }
    for _ in 0..r.range(1, 60) {
        let s = r.below(n);
        let step = r.below(20);
        {
            let t = r.below(kinds);
            let op = *r.pick(&[Op::Insert, Op::Insert, Op::Get, Op::GetMut, Op::Swap, Op::Remove]);
            h = mix(h ^ (step * 1000 + t * 10 + s) as u64 ^ (op as u64) << 20);
            match step {
                0 => {
                    hist.push(format!("clear {}", s));
                    c.call("clear", &|| hist.join(" "), || stores[s].clear());
                    models[s].clear();
                    c.count("clear");
                }
                1 | 2 => {
                    hist.push(format!("extend {} by {}", s, 1 - s));
                    let other = std::mem::take(&mut stores[1 - s]);
                    c.call("extend", &|| hist.join(" "), || stores[s].extend(other));
                    let other = std::mem::take(&mut models[1 - s]);
                    c.count(match (models[s].is_empty(), other.is_empty()) {
                        (true, _) => "extend empty",
                        (_, true) => "extend by empty",
                        _ => "extend both",
                    });
                    models[s].extend(other);
                }
                3 => {
                    hist.push(format!("drop {}", s));
                    stores[s] = Extensions::new();
                    models[s].clear();
                    c.count("drop");
                }
                _ => {
                    hist.push(format!("{:?} {} in {}", op, t, s));
                    let hf = || hist.join(" ");
                    TYPES[t](c, &mut stores[s], &mut models[s], &log, op, &hf);
                    c.count(match op {
                        Op::Insert => "insert",
                        Op::Get => "get",
                        Op::GetMut => "get_mut",
                        Op::Swap => "replace through get_mut",
                        Op::Remove => "remove",
                    });
                }
            }
        }
        let hf = || hist.join(" ");
        for k in 0..n {
            let (len, empty) = (stores[k].len(), stores[k].is_empty());
            c.check(len == models[k].len() && empty == models[k].is_empty(), "len", || format!("{} {} instead of {}; {}", len, empty, models[k].len(), hf()));
        }
        account(c, &log, &models.iter().collect::<Vec<_>>(), &hf);
    }
    // look at every type at the end
    let hf = || hist.join(" ");
    for k in 0..n {
        for f in &TYPES[..kinds.max(40)] {
            f(c, &mut stores[k], &mut models[k], &log, Op::Get, &hf);
        }
    }
    drop(stores);
    account(c, &log, &[], &hf);
    c.seen(h);
    c.max("values in one history", log.lock().unwrap().made);
    c.sample(hf);
}

/// types that are easily mistaken for each other, and their memory
fn c25_types(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let a = r.u64();
    c.seen(a);
    let base = live_bytes();
    {
        let mut e = Extensions::new();
        c.check(e.insert(a).is_none() && e.insert(Wrap(!a)).is_none() && e.insert(a as i64).is_none() && e.insert(Unit).is_none() && e.insert(()).is_none(), "first-insert", String::new);
        c.check(e.insert(Wide(a)).is_none() && e.insert(Some(a)).is_none() && e.insert(vec![a]).is_none() && e.insert(a.to_string()).is_none(), "first-insert", String::new);
        let st: &'static str = "static";
        c.check(e.insert(st).is_none() && e.insert(Box::new(a)).is_none() && e.insert([a; 3]).is_none(), "first-insert", String::new);
        let boxed: Box<dyn std::any::Any + Send + Sync> = Box::new(7u8);
        c.check(e.insert(boxed).is_none() && e.insert(Arc::new(a)).is_none() && e.insert(TypeId::of::<u64>()).is_none(), "first-insert", String::new);
        c.check(e.len() == 15 && !e.is_empty(), "len", || e.len().to_string());
        c.check(
            e.get::<u64>() == Some(&a) && e.get::<Wrap>() == Some(&Wrap(!a)) && e.get::<i64>() == Some(&(a as i64)) && e.get::<Unit>() == Some(&Unit) && e.get::<()>() == Some(&()),
            "get-similar",
            String::new,
        );
        c.check(
            e.get::<Wide>().map(|w| (w.0, w as *const _ as usize % 64)) == Some((a, 0)) && e.get::<Option<u64>>() == Some(&Some(a)) && e.get::<Vec<u64>>() == Some(&vec![a]) && e.get::<String>() == Some(&a.to_string()),
            "get-similar",
            String::new,
        );
        c.check(
            e.get::<&'static str>() == Some(&st) && e.get::<Box<u64>>() == Some(&Box::new(a)) && e.get::<[u64; 3]>() == Some(&[a; 3]) && e.get::<Arc<u64>>() == Some(&Arc::new(a)),
            "get-similar",
            String::new,
        );
        c.check(e.get::<u8>().is_none() && e.get::<[u64; 2]>().is_none() && e.get::<Box<dyn std::any::Any + Send + Sync>>().is_some(), "get-absent", String::new);
        *e.get_mut::<u64>().unwrap() = 1;
        c.check(e.get::<u64>() == Some(&1) && e.get::<Wrap>() == Some(&Wrap(!a)), "get-mut-similar", String::new);
        c.check(e.insert(2u64) == Some(1) && e.remove::<u64>() == Some(2) && e.remove::<u64>().is_none() && e.get::<u64>().is_none() && e.len() == 14, "replace", String::new);
        // a store inside a store
        let mut outer = Extensions::new();
        outer.insert(e);
        c.check(outer.get::<Extensions>().map(|e| e.len()) == Some(14) && outer.len() == 1, "nested", String::new);
        if r.bool() {
            let inner = outer.remove::<Extensions>().unwrap();
            outer.extend(inner);
            c.check(outer.len() == 14 && outer.get::<Wrap>() == Some(&Wrap(!a)), "nested", String::new);
        }
    }
    let left = live_bytes() - base;
    c.check(left <= 4 * 1024, "memory", || format!("{} octets still live", left));
}

/// values that come and go leave nothing behind
fn c25_churn(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut e = Extensions::new();
    let other: u64 = r.u64();
    let script: Vec<u8> = (0..r.range(1, 6)).map(|_| r.below(7) as u8).collect();
    let round = |e: &mut Extensions| {
        let mut sum = 0u64;
        for s in &script {
            match s {
                0 => {
                    e.insert(other);
                    sum ^= e.remove::<u64>().unwrap_or(1);
                }
                1 => {
                    e.insert([other; 40]);
                    sum ^= e.remove::<[u64; 40]>().map_or(1, |v| v[0]);
                }
                2 => {
                    e.insert(vec![other; 9]);
                    e.insert(vec![other; 7]);
                    sum ^= e.remove::<Vec<u64>>().map_or(1, |v| v[6]);
                }
                3 => {
                    e.insert(Wide(other));
                    e.insert(format!("{}", other));
                    e.clear();
                }
                4 => {
                    let mut f = Extensions::new();
                    f.insert(other);
                    f.insert(Wrap(other));
                    e.extend(f);
                    e.remove::<Wrap>();
                    sum ^= e.remove::<u64>().unwrap_or(1);
                }
                5 => {
                    e.insert(Box::new(other));
                    let f = std::mem::replace(e, Extensions::new());
                    drop(f);
                }
                _ => {
                    e.insert(Unit);
                    e.remove::<Unit>();
                }
            }
        }
        sum
    };
    for _ in 0..3 {
        round(&mut e);
    }
    let base = live_bytes();
    let n = 40;
    for _ in 0..n {
        round(&mut e);
    }
    let left = live_bytes() - base;
    c.check(left < 8 * n, "memory", || format!("{} octets more after {} rounds of {:?}", left, n, script));
    c.add("values come and gone", n as u64 * script.len() as u64);
    c.seen_bytes(&script);
}

/// the stores inside messages
fn c25_messages(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let log: L = Default::default();
    let mut m = Model::new();
    let v = V::<5>::new(&log);
    m.insert(5, v.id);
    let id = v.id;
    let which = r.bool();
    if which {
        let mut q = Request::builder().method("GET").url("/").body("x").unwrap();
        c.check(q.extensions().is_empty(), "message", String::new);
        q.extensions_mut().insert(v);
        c.check(q.extensions().get::<V<5>>().map(|v| v.id) == Some(id), "message", String::new);
        account(c, &log, &[&m], &|| "request".into());
        let q: Request<String> = q.into("y".to_string()).0;
        c.check(q.extensions().get::<V<5>>().map(|v| v.id) == Some(id), "message-parts", String::new);
        account(c, &log, &[&m], &|| "request parts".into());
        drop(q);
    } else {
        let mut q = Response::builder().status(200).body("x").unwrap();
        c.check(q.extensions().is_empty(), "message", String::new);
        q.extensions_mut().insert(v);
        c.check(q.extensions().get::<V<5>>().map(|v| v.id) == Some(id), "message", String::new);
        account(c, &log, &[&m], &|| "response".into());
        let p = q.into_parts().0;
        c.check(p.extensions.get::<V<5>>().map(|v| v.id) == Some(id), "message-parts", String::new);
        account(c, &log, &[&m], &|| "response parts".into());
        drop(p);
    }
    account(c, &log, &[], &|| "message dropped".into());
    c.seen(id ^ mix(r.u64()));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "Random histories over two stores and forty types whose values log their own drop, checked after every operation against a map and against the count of live values; types that are easily confused; the stores of messages. Non-trivial: a distinct history.",
        parts: vec![
            part("histories", 60_000, 2_500_000, c25_histories),
            part("types", 20_000, 400_000, c25_types),
            part("churn", 10_000, 200_000, c25_churn),
            part("messages", 20_000, 400_000, c25_messages),
        ],
        assumptions: vec![],
    }]
}
