//! C31: equality, order, hash and copies of the library's values.
//!
//! Every value is made from a key, which is what the value stands for (the
//! name without its letter case, the octets, the code, the fields of a frame).
//! Values made in different ways from equal keys are one value, and values of
//! different keys are not.
use crate::core::*;
use crate::refm::h2 as F;
use algorithm::buf::Binary;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, BinaryHeap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use webparse::http2::frame::{
    Data, ErrorCode, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Ping, Priority, PriorityFrame, PushPromise, Reason, Reset, Settings, SizeIncrement,
    StreamDependency, StreamIdentifier, WindowUpdate,
};
use webparse::http2::Decoder;
use webparse::ws::{CloseCode, CloseData, DataFrame, Message, Opcode, OwnedMessage};
use webparse::{HeaderMap, HeaderName, HeaderValue, Method, Scheme, StatusCode, Url, Version};

type Key = Vec<u8>;

fn equal<T: PartialEq>(c: &mut Ctx, what: &str, v: &[(Key, T)]) {
    c.count(what);
    for (a, x) in v {
        for (b, y) in v {
            let same = a == b;
            c.check((x == y) == same && (x != y) != same, &format!("eq:{}", what), || {
                format!("{} and {} are {}taken for equal", show(a), show(b), if same { "not " } else { "" })
            });
            c.count(if same { "equal pairs" } else { "different pairs" });
        }
    }
}

fn copies<T: PartialEq + Clone>(c: &mut Ctx, what: &str, v: &[(Key, T)]) {
    let w: Vec<(Key, T)> = v.to_vec();
    for ((a, x), (_, y)) in v.iter().zip(&w) {
        c.check(x == y && y == x, &format!("clone:{}", what), || show(a));
    }
    let mut all = w;
    all.extend(v.iter().cloned());
    equal(c, what, &all);
}

fn hashes<T: PartialEq + Eq + Hash + Clone>(c: &mut Ctx, what: &str, v: &[(Key, T)]) {
    let hash = |x: &T| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    for (a, x) in v {
        for (b, y) in v {
            if a == b {
                c.check(hash(x) == hash(y), &format!("hash:{}", what), || format!("{} and {}", show(a), show(b)));
            }
        }
    }
    let keys: BTreeSet<&Key> = v.iter().map(|x| &x.0).collect();
    let set: HashSet<T> = v.iter().map(|x| x.1.clone()).collect();
    c.check(set.len() == keys.len(), &format!("set:{}", what), || format!("{} of {}", set.len(), keys.len()));
    for (a, x) in v {
        c.check(set.contains(x), &format!("set:{}", what), || show(a));
    }
    copies(c, what, v);
}

/// keys compare as octets in the order of the values
fn orders<T: PartialEq + Eq + Ord + Debug>(c: &mut Ctx, what: &str, v: &[(Key, T)]) {
    for (a, x) in v {
        for (b, y) in v {
            let d = || format!("{} and {}", hex(a), hex(b));
            let want = a.cmp(b);
            c.check(x.cmp(y) == want && x.partial_cmp(y) == Some(want), &format!("order:{}", what), d);
            c.check((x < y) == (want == Ordering::Less) && (x <= y) == (want != Ordering::Greater) && (x > y) == (want == Ordering::Greater) && (x >= y) == (want != Ordering::Less), &format!("order:{}", what), d);
        }
    }
    let mut s: Vec<&(Key, T)> = v.iter().collect();
    s.sort_by(|a, b| a.1.cmp(&b.1));
    c.check(s.windows(2).all(|w| w[0].0 <= w[1].0), &format!("sorted:{}", what), || format!("{:?}", s));
    let mut heap: BinaryHeap<&T> = v.iter().map(|x| &x.1).collect();
    let mut last: Option<&T> = None;
    while let Some(x) = heap.pop() {
        c.check(last.map_or(true, |l| l >= x), &format!("heap:{}", what), || format!("{:?} after {:?}", x, last));
        last = Some(x);
    }
}

/// one key, and some near it
fn near<T: Clone>(r: &mut Rng, make: &mut dyn FnMut(&mut Rng) -> T, change: &mut dyn FnMut(&mut Rng, &T) -> T) -> Vec<T> {
    let a = make(r);
    let mut v = vec![a.clone(), a.clone()];
    for _ in 0..r.range(1, 4) {
        let from = r.pick(&v).clone();
        v.push(if r.chance(1, 4) { make(r) } else { change(r, &from) });
    }
    v
}

fn near_text(r: &mut Rng, set: &'static [u8]) -> Vec<Vec<u8>> {
    near(
        r,
        &mut |r| {
            let n = r.len(24);
            r.from_set(set, n)
        },
        &mut |r, a| {
            let mut b = a.clone();
            if b.is_empty() || r.chance(1, 6) {
                b.push(*r.pick(set));
            } else if r.chance(1, 6) {
                b.pop();
            } else {
                let at = if r.chance(1, 3) { b.len() - 1 } else { r.below(b.len()) };
                b[at] = if r.chance(1, 2) && b[at].is_ascii_alphabetic() { b[at] ^ 32 } else { *r.pick(set) };
            }
            b
        },
    )
}

fn near_nums(r: &mut Rng) -> Vec<u32> {
    near(
        r,
        &mut |r| match r.below(4) {
            0 => r.below(20) as u32,
            1 => 1u32 << r.below(32),
            2 => (1u32 << r.below(32)).wrapping_sub(1),
            _ => r.u32(),
        },
        &mut |r, a| match r.below(4) {
            0 => a.wrapping_add(1),
            1 => a ^ (1 << r.below(32)),
            2 => a.swap_bytes(),
            _ => *a,
        },
    )
}

const TEXT: &[u8] = b"abcxyzABCXYZ019-_.~[]{}@`^";

fn leak(s: &str) -> &'static str {
    // texts of one letter or two: few, and kept
    use std::sync::Mutex;
    static POOL: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = p.get(s) {
        return x;
    }
    if p.len() > 20_000 {
        return "";
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    p.insert(x);
    x
}

fn c31_texts(r: &mut Rng, c: &mut Ctx, i: u64) {
    let v = near_text(r, TEXT);
    c.seen_bytes(&v.join(&b"\0"[..]));
    let texts: Vec<String> = v.iter().map(|b| String::from_utf8(b.clone()).unwrap()).collect();
    // the same text from static memory, or owned
    c.sample(|| format!("texts {}: {:?}", i % 6, texts));
    let fixed = |s: &str| if s.len() <= 2 { Some(leak(s)).filter(|x| *x == s) } else { None };
    match i % 6 {
        0 => {
            let names: Vec<(Key, HeaderName)> = texts
                .iter()
                .map(|s| {
                    let n = match (fixed(s), r.below(3)) {
                        (Some(x), 0) => HeaderName::from_static(x),
                        (_, 1) => HeaderName::try_from(s.clone()).unwrap(),
                        _ => HeaderName::Value(s.clone()),
                    };
                    (s.to_ascii_lowercase().into_bytes(), n)
                })
                .collect();
            hashes(c, "HeaderName", &names);
            for (k, n) in &names {
                for s in &texts {
                    let same = *k == s.to_ascii_lowercase().into_bytes();
                    let d = || format!("{:?} and {:?}", n, s);
                    c.check((*n == &s[..]) == same && (*n == s.as_bytes()) == same && (s.as_bytes() == *n) == same, "cross:HeaderName", d);
                }
            }
        }
        1 => {
            let values: Vec<(Key, HeaderValue)> = texts
                .iter()
                .map(|s| {
                    let n = match (fixed(s), r.below(3)) {
                        (Some(x), 0) => HeaderValue::from_static(x),
                        (_, 1) => HeaderValue::from_bytes(s.as_bytes()),
                        _ => HeaderValue::Value(s.clone().into_bytes()),
                    };
                    (s.clone().into_bytes(), n)
                })
                .collect();
            hashes(c, "HeaderValue", &values);
            for (k, n) in &values {
                for s in &texts {
                    let same = k == s.as_bytes();
                    let d = || format!("{:?} and {:?}", n, s);
                    let t: &str = s;
                    c.check((*n == t) == same && (*n == *s.as_bytes()) == same && (*s.as_bytes() == *n) == same && (t == *n) == same, "cross:HeaderValue", d);
                }
            }
        }
        2 => {
            // URLs by their parts, and against text
            let (mut u, mut cross) = (vec![], vec![]);
            for s in &texts {
                let mut x = Url::new();
                x.path = format!("/{}", s);
                let k = r.below(7);
                match k {
                    0 => x.scheme = Scheme::Http,
                    1 => x.port = Some(r.range(1, 2) as u16),
                    2 => x.domain = Some("h".into()),
                    3 => x.username = Some("u".into()),
                    4 => x.query = Some(s.clone()),
                    5 => x.password = Some("u".into()),
                    _ => {}
                }
                let key = format!("{}\0{:?}\0{:?}\0{}\0{}", k, x.port, x.query, x.path, s);
                cross.push((x.to_string(), x.clone()));
                u.push((key.into_bytes(), x));
            }
            copies(c, "Url", &u);
            for (_, x) in &cross {
                for (s, _) in &cross {
                    let same = x.to_string() == *s;
                    c.check((*x == **s) == same && (**s == *x) == same, "cross:Url", || format!("{:?} and {}", x, s));
                }
            }
        }
        3 => {
            let maps: Vec<(Key, HeaderMap)> = texts
                .iter()
                .enumerate()
                .map(|(k, s)| {
                    let mut m = HeaderMap::new();
                    m.insert(if r.bool() { "First" } else { "first" }, "1");
                    let name = if s.is_empty() { "x".to_string() } else { s.clone() };
                    let value = if k % 2 == 0 { "v" } else { "V" };
                    m.insert(name.clone(), value);
                    (format!("{}\0{}", name.to_ascii_lowercase(), value).into_bytes(), m)
                })
                .collect();
            copies(c, "HeaderMap", &maps);
        }
        4 => {
            let ws: Vec<(Key, DataFrame)> = v
                .iter()
                .map(|b| {
                    let (fin, op) = (r.chance(3, 4), *r.pick(&[1u8, 1, 2, 10]));
                    ([vec![fin as u8, op], b.clone()].concat(), DataFrame::new(fin, Opcode::new(op).unwrap(), b.clone()))
                })
                .collect();
            copies(c, "DataFrame", &ws);
            let ms: Vec<(Key, OwnedMessage)> = texts
                .iter()
                .map(|s| {
                    let k = *r.pick(&[0u8, 0, 0, 1, 2, 3, 4]);
                    let m = match k {
                        0 => OwnedMessage::Text(s.clone()),
                        1 => OwnedMessage::Binary(s.clone().into_bytes()),
                        2 => OwnedMessage::Ping(s.clone().into_bytes()),
                        3 => OwnedMessage::Pong(s.clone().into_bytes()),
                        _ => OwnedMessage::Close(Some(CloseData::new(1000u16, s.clone()))),
                    };
                    ([vec![k], s.clone().into_bytes()].concat(), m)
                })
                .collect();
            copies(c, "OwnedMessage", &ms);
            // owned and borrowed payloads are one message
            let bs: Vec<(Key, Message)> = texts
                .iter()
                .map(|s| {
                    let k = r.below(3) as u8;
                    let m = match (k, r.bool()) {
                        (0, true) => Message::text(&s[..]),
                        (0, false) => Message::text(s.clone()),
                        (1, true) => Message::binary(s.as_bytes()),
                        (1, false) => Message::binary(s.clone().into_bytes()),
                        (_, true) => Message::ping(s.as_bytes()),
                        (_, false) => Message::ping(s.clone().into_bytes()),
                    };
                    ([vec![k], s.clone().into_bytes()].concat(), m)
                })
                .collect();
            copies(c, "Message", &bs);
        }
        _ => {
            // words of which some are known
            let words: Vec<String> = texts.iter().map(|s| if r.bool() { s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect() } else { r.pick(&["http", "HTTP", "Https", "ws", "WSS", "ftp", "ftpx", "w", "htt", "coap"]).to_string() }).collect();
            let s: Vec<(Key, Scheme)> = words.iter().filter_map(|w| Scheme::try_from(&w[..]).ok().map(|x| (scheme_key(w), x))).collect();
            hashes(c, "Scheme", &s);
            let words: Vec<&str> = (0..texts.len()).map(|_| *r.pick(&["GET", "POST", "PUT", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE", "DELETE", "PRI"])).collect();
            let m: Vec<(Key, Method)> = words.iter().filter_map(|w| Method::try_from(*w).ok().map(|x| (w.as_bytes().to_vec(), x))).collect();
            hashes(c, "Method", &m);
            let vs = [("HTTP/1.0", Version::Http10), ("HTTP/1.1", Version::Http11), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3), ("", Version::None)];
            let v: Vec<(Key, Version)> = (0..4).map(|_| r.pick(&vs).clone()).map(|(k, v)| (k.as_bytes().to_vec(), v)).collect();
            copies(c, "Version", &v);
        }
    }
}

fn scheme_key(w: &str) -> Key {
    // known names in any case; others are only given in lower case
    w.to_ascii_lowercase().into_bytes()
}

fn c31_numbers(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let v = near_nums(r);
    let be = |n: &u32| n.to_be_bytes().to_vec();
    c.seen(v.iter().fold(1, |h, n| mix(h ^ *n as u64)));
    let ids: Vec<(Key, StreamIdentifier)> = v.iter().map(|n| (be(n), if r.bool() { StreamIdentifier(*n) } else { StreamIdentifier::from(*n) })).collect();
    hashes(c, "StreamIdentifier", &ids);
    orders(c, "StreamIdentifier", &ids);
    let st: Vec<(Key, StatusCode)> = v.iter().map(|n| 100 + n % 900).map(|n| (be(&n), StatusCode::from_u16(n as u16).unwrap())).collect();
    hashes(c, "StatusCode", &st);
    orders(c, "StatusCode", &st);
    for (k, x) in &st {
        for n in &v {
            let n = (*n % 1100) as u16;
            let same = *k == (n as u32).to_be_bytes();
            c.check((*x == n) == same && (n == *x) == same, "cross:StatusCode", || format!("{:?} and {}", x, n));
        }
    }
    let e: Vec<(Key, ErrorCode)> = v.iter().map(|n| (be(n), ErrorCode(*n))).collect();
    hashes(c, "ErrorCode", &e);
    let e: Vec<(Key, SizeIncrement)> = v.iter().map(|n| (be(n), SizeIncrement(*n))).collect();
    hashes(c, "SizeIncrement", &e);
    let e: Vec<(Key, Reason)> = v.iter().map(|n| (be(n), Reason::from(*n))).collect();
    copies(c, "Reason", &e);
    let e: Vec<(Key, Flag)> = v.iter().map(|n| (vec![*n as u8], Flag::from_bits_retain(*n as u8))).collect();
    hashes(c, "Flag", &e);
    let e: Vec<(Key, Kind)> = v.iter().map(|n| (*n as u8).min(10)).map(|n| (vec![n], Kind::new(n))).collect();
    hashes(c, "Kind", &e);
    let e: Vec<(Key, CloseCode)> = v.iter().map(|n| if n % 3 == 0 { *n as u16 } else { (n % 20 + 998) as u16 }).map(|n| (n.to_be_bytes().to_vec(), CloseCode::from(n))).collect();
    copies(c, "CloseCode", &e);
    let e: Vec<(Key, Opcode)> = v.iter().map(|n| (*n % 16) as u8).map(|n| (vec![n], Opcode::new(n).unwrap())).collect();
    copies(c, "Opcode", &e);
    // frames to be sent in order of weight
    let e: Vec<(Key, PriorityFrame)> = v.iter().map(|n| (vec![*n as u8], {
        let weight = *n as u8;
        let f: Frame = Frame::from(Ping::new([r.u8(); 8]));
        if r.bool() {
            PriorityFrame::new(f, weight)
        } else {
            let mut p = PriorityFrame::new(f, !weight);
            p.set_weight(weight);
            p
        }
    })).collect();
    for (k, p) in &e {
        c.check(p.weight() == k[0], "weight", || hex(k));
    }
    equal(c, "PriorityFrame", &e);
    orders(c, "PriorityFrame", &e);
}

/// frames differ when one of their fields does
fn c31_frames(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let n = r.range(2, 5);
    let base = [r.u32() & F::U31, r.u32() & F::U31, r.below(14) as u32, r.u32()];
    let rows: Vec<[u32; 4]> = (0..n)
        .map(|k| {
            let mut x = base;
            if k > 1 || r.bool() {
                let at = r.below(4);
                x[at] ^= 1 << r.below(31);
            }
            x
        })
        .collect();
    let key = |x: &[u32]| x.iter().flat_map(|n| n.to_be_bytes()).collect::<Key>();
    for x in &rows {
        c.seen_bytes(&key(x));
    }
    let id = |n: u32| StreamIdentifier(n & F::U31);
    let small = |n: u32| n & 0xff_ffff;
    let e: Vec<(Key, FrameHeader)> = rows
        .iter()
        .map(|x| {
            let (len, kind, flag, sid) = (small(x[0]), (x[2] % 11) as u8, x[3] as u8, x[1] & F::U31);
            (key(&[len, kind as u32, flag as u32, sid]), FrameHeader { length: len, kind: Kind::new(kind), flag: Flag::from_bits_retain(flag), id: StreamIdentifier(sid) })
        })
        .collect();
    hashes(c, "FrameHeader", &e);
    let mut ping: Vec<(Key, Ping)> = vec![];
    let mut goaway: Vec<(Key, GoAway)> = vec![];
    let mut window: Vec<(Key, WindowUpdate)> = vec![];
    let mut reset: Vec<(Key, Reset)> = vec![];
    let mut dep: Vec<(Key, StreamDependency)> = vec![];
    let mut prio: Vec<(Key, Priority)> = vec![];
    let mut data: Vec<(Key, Data<Vec<u8>>)> = vec![];
    let mut heads: Vec<(Key, Headers)> = vec![];
    let mut push: Vec<(Key, PushPromise)> = vec![];
    let mut sets: Vec<(Key, Settings)> = vec![];
    for x in &rows {
        let p: [u8; 8] = key(&x[..2]).try_into().unwrap();
        let ack = x[2] & 1;
        ping.push((key(&[x[0], x[1], ack]), if ack == 1 { Ping::pong(p) } else { Ping::new(p) }));
        goaway.push((key(&[x[0] & F::U31, x[2]]), GoAway::new(id(x[0]), Reason::from(x[2]))));
        window.push((key(&[x[0] & F::U31, x[1]]), WindowUpdate::new(id(x[0]), x[1])));
        reset.push((key(&[x[0] & F::U31, x[2]]), Reset::new(id(x[0]), Reason::from(x[2]))));
        let d = || StreamDependency::new(id(x[0]), x[3] as u8, ack == 1);
        dep.push((key(&[x[0] & F::U31, x[3] & 255, ack]), d()));
        // read from the wire, since that is the only way to make one
        let mut w = ((x[0] & F::U31) | ack << 31).to_be_bytes().to_vec();
        w.push(x[3] as u8);
        let fh = FrameHeader { length: 5, kind: Kind::Priority, flag: Flag::from_bits_retain(0), id: id(x[1] | 1) };
        if x[0] & F::U31 != (x[1] | 1) & F::U31 {
            if let Ok(Frame::Priority(q)) = Frame::<Binary>::parse(fh, Binary::from(w), &mut Decoder::new(), usize::MAX) {
                prio.push((key(&[x[0] & F::U31, x[3] & 255, ack, (x[1] | 1) & F::U31]), q));
            }
        }
        let end = x[2] & 2;
        let fh = |k: Kind| FrameHeader { length: 0, kind: k, flag: Flag::from_bits_retain((end >> 1) as u8), id: id(x[0]) };
        data.push((key(&[x[0] & F::U31, end, x[3]]), Data::new(fh(Kind::Data), x[3].to_be_bytes().to_vec())));
        let mut m = HeaderMap::new();
        m.insert("x-a", x[3].to_string());
        let mut h = Headers::new(fh(Kind::Headers), m.clone());
        h.set_path(format!("/{}", x[1]));
        heads.push((key(&[x[0] & F::U31, end, x[3], x[1]]), h));
        let mut h = PushPromise::new(fh(Kind::PushPromise), id(x[1]), m);
        h.set_path(format!("/{}", x[2]));
        push.push((key(&[x[0] & F::U31, end, x[1] & F::U31, x[3], x[2]]), h));
        let mut s = Settings::default();
        let opt = |k: u32, n: u32| if x[2] >> k & 1 == 1 { Some(n) } else { None };
        s.set_initial_window_size(opt(0, x[0]));
        s.set_max_concurrent_streams(opt(1, x[1]));
        s.set_enable_connect_protocol(opt(2, x[3]));
        s.set_max_header_list_size(opt(3, x[0]));
        let show_key = format!("{:?}", (opt(0, x[0]), opt(1, x[1]), opt(2, x[3]), opt(3, x[0])));
        sets.push((show_key.into_bytes(), s));
    }
    copies(c, "Ping", &ping);
    copies(c, "GoAway", &goaway);
    copies(c, "WindowUpdate", &window);
    copies(c, "Reset", &reset);
    copies(c, "StreamDependency", &dep);
    copies(c, "Priority", &prio);
    equal(c, "Data", &data);
    equal(c, "Headers", &heads);
    equal(c, "PushPromise", &push);
    hashes(c, "Settings", &sets);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "Groups of values made from equal and nearly equal keys (texts that differ in one letter or its case, numbers that differ in one bit, frames that differ in one field), in the several ways the library offers, compared pairwise with == and != in both directions and across types, hashed, put in hash sets, sorted, put in heaps and cloned; the oracle compares the keys. Non-trivial: a distinct group.",
        parts: vec![part("texts", 120_000, 5_000_000, c31_texts), part("numbers", 60_000, 3_000_000, c31_numbers), part("frames", 60_000, 3_000_000, c31_frames)],
        assumptions: vec!["two header maps with the same fields in another order may be equal or not"],
    }]
}
