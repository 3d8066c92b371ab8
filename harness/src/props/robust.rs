//! C05 hostile octets everywhere, C26 limits and memory.
use super::http1::{gen_request, gen_response, text};
use super::{h2, hpack as H, torture as T};
use crate::core::*;
use crate::refm::h2 as F;
use crate::refm::h2::Raw;
use crate::refm::hpack as R;
use crate::refm::ws as W;
use algorithm::buf::{Binary, BinaryMut};
use webparse::http2::frame::{Frame, FrameHeader};
use webparse::http2::Decoder;
use webparse::ws::{DataFrame, OwnedMessage};
use webparse::{Helper, Request, Response, Url, WebError};

const TOKENS: &[&[u8]] = &[
    b"GET", b"POST", b"CONNECT", b"OPTIONS", b"PRI", b" ", b"/", b"*", b"?", b"#", b"@", b":", b"://", b"[", b"]", b"%", b"%00", b"%2", b"%zz", b"%ff", b"\r\n", b"\n", b"\r",
    b"\r\n\r\n", b"\n\n", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/2", b"HTTP/", b"1.1", b"200", b"099", b"1000", b"OK", b"Host", b"Host: ", b"Content-Length", b"Content-Length: ",
    b"Transfer-Encoding: ", b"chunked", b"Connection: ", b"Upgrade: ", b"HTTP2-Settings: ", b"gzip, chunked", b"65535", b"65536", b"18446744073709551615", b"18446744073709551616",
    b"-1", b"-9223372036854775808", b"-9223372036854775809", b"9223372036854775807", b"9223372036854775808", b"ffffffffffffffff", b"10000000000000000", b"\0", b"\x7f", b"\x80", b"\xff",
    b"\xc3\xa9", b"\xe4\xb8\xad", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\t", b"  ", b"a", b"=", b";", b",", b"\"", b"\\", b"..", b"//", b"http", b"https", b"ws", b"example.com", b"[::1]", b"+", b"0x", b"0", b"00",
];
const HOT: &[u8] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15, 16, 30, 31, 32, 33, 37, 45, 47, 48, 57, 58, 63, 64, 65, 90, 91, 97, 122, 126, 127, 128, 129, 130, 143, 159, 160, 191, 192, 223, 224, 240, 254, 255];

/// octets that are nearly something
fn mutate(r: &mut Rng, mut b: Vec<u8>, other: &[u8]) -> Vec<u8> {
    let k = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => r.range(2, 4),
        _ => r.range(5, 20),
    };
    for _ in 0..k {
        let n = b.len();
        match r.below(12) {
            0 if n > 0 => b[r.below(n)] ^= 1 << r.below(8),
            1 if n > 0 => b[r.below(n)] = *r.pick(HOT),
            2 if n > 0 => {
                b.remove(r.below(n));
            }
            3 => b.insert(r.below(n + 1), *r.pick(HOT)),
            4 => b.truncate(r.below(n + 1)),
            5 => {
                let at = r.below(n + 1);
                let t = *r.pick(TOKENS);
                b.splice(at..at, t.iter().copied());
            }
            6 if n > 1 => {
                let a = r.below(n);
                let l = r.range(1, (n - a).min(30));
                let piece = b[a..a + l].to_vec();
                let at = r.below(n + 1);
                b.splice(at..at, piece);
            }
            7 if n > 1 => {
                let a = r.below(n);
                let l = r.range(1, (n - a).min(30));
                b.drain(a..a + l);
            }
            8 if !other.is_empty() => {
                let a = r.below(other.len());
                let cut = r.below(n + 1);
                b.truncate(cut);
                b.extend(&other[a..]);
            }
            9 if n > 0 => {
                // a number elsewhere
                if let Some(at) = (0..n).filter(|i| b[*i].is_ascii_digit()).nth(r.below(3)) {
                    let t = *r.pick(&TOKENS[34..58]);
                    b.splice(at..at + 1, t.iter().copied());
                }
            }
            10 if n > 2 => {
                let at = r.below(n - 1);
                let v = *r.pick(&[0u16, 1, 0x7fff, 0x8000, 0xffff, 126, 127]);
                b[at] = (v >> 8) as u8;
                b[at + 1] = v as u8;
            }
            _ => {
                let m = r.below(6);
                let t = r.bytes(m);
                b.extend(t);
            }
        }
    }
    b
}

fn noise(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => {
            let n = r.len(200);
            r.bytes(n)
        }
        1 => {
            let n = r.len(60);
            r.from_set(HOT, n)
        }
        2 => {
            let n = r.len(200);
            r.from_set(b" :/?#@%\r\nHTP1.0aA=[]-", n)
        }
        3 => {
            let n = r.len(40);
            text(r, n).into_bytes()
        }
        _ => {
            let mut b = vec![];
            for _ in 0..r.size(40) {
                b.extend(*r.pick(TOKENS));
            }
            b
        }
    }
}

fn frames(r: &mut Rng) -> Vec<u8> {
    let mut enc = R::Encoder::new(4096);
    let mut out = vec![];
    for _ in 0..r.range(1, 5) {
        out.extend(one_frame(r, &mut enc));
    }
    out
}

fn block(r: &mut Rng, enc: &mut R::Encoder) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..r.below(8) {
        let (n, v) = H::gen_field(r);
        enc.field(&mut b, &n, &v, r);
    }
    b
}

fn one_frame(r: &mut Rng, enc: &mut R::Encoder) -> Vec<u8> {
    let kind = match r.below(12) {
        0..=9 => r.below(10) as u8,
        _ => r.u8(),
    };
    let flags = match r.below(3) {
        0 => r.u8(),
        1 => *r.pick(&[0u8, 1, 4, 5, 8, 0x20, 0x28, 0x2d]),
        _ => 0,
    };
    let id = h2::gen_id(r);
    let payload = match r.below(6) {
        0 => {
            let n = r.len(80);
            r.bytes(n)
        }
        1 if kind == 4 => h2::gen_settings_payload(r),
        _ => match kind {
            1 | 5 | 9 => {
                let mut p = vec![];
                if flags & 8 != 0 {
                    p.push(r.below(6) as u8);
                }
                if kind == 1 && flags & 0x20 != 0 || kind == 5 {
                    let n = if kind == 5 { 4 } else { 5 };
                    p.extend(r.bytes(n));
                }
                p.extend(block(r, enc));
                let n = r.below(6);
                p.extend(vec![0; n]);
                p
            }
            2 => {
                let n = *r.pick(&[4usize, 5, 6]);
                r.bytes(n)
            }
            3 | 8 => {
                let n = *r.pick(&[3usize, 4, 5]);
                r.bytes(n)
            }
            4 => h2::gen_settings_payload(r),
            6 => {
                let n = *r.pick(&[7usize, 8, 9]);
                r.bytes(n)
            }
            7 => {
                let n = r.range(6, 40);
                r.bytes(n)
            }
            _ => {
                let n = r.len(100);
                r.bytes(n)
            }
        },
    };
    F::write(&Raw::new(kind, flags, id, payload))
}

fn ws_stream(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for k in 0..r.range(1, 5) {
        let n = match r.below(8) {
            0 => *r.pick(&[125usize, 126, 127, 65535, 65536]),
            _ => r.below(30),
        };
        let op = match r.below(6) {
            0 => r.u8() & 15,
            1 => *r.pick(&[8u8, 9, 10]),
            _ => {
                if k == 0 {
                    *r.pick(&[1u8, 2])
                } else {
                    0
                }
            }
        };
        let data = if r.bool() { text(r, n).into_bytes() } else { r.bytes(n) };
        let mask = if r.bool() { Some([r.u8(), r.u8(), r.u8(), r.u8()]) } else { None };
        let h = W::Head { fin: r.bool(), rsv: [r.chance(1, 9), r.chance(1, 9), r.chance(1, 9)], opcode: op, mask, len: data.len() as u64 };
        b.extend(W::head_as(&h, if r.chance(1, 10) && data.len() < 60000 { r.below(2) as u8 + 1 } else { W::form(h.len) }));
        b.extend(W::xor(mask, &data));
    }
    b
}

pub fn gen_url(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    if r.bool() {
        s.push_str(*r.pick(&["http", "https", "ws", "wss", "HTTP", "ftp", "h-t.p+1"]));
        s.push_str("://");
    }
    if r.chance(1, 3) {
        s.push_str("us%65r:p%40ss@");
    }
    if r.bool() {
        s.push_str(&super::http1::gen_host(r));
        if r.bool() {
            s.push_str(&format!(":{}", super::http1::gen_port(r)));
        }
    }
    s.push_str(&super::http1::gen_path(r));
    if let Some(q) = super::http1::gen_query(r) {
        s.push('?');
        s.push_str(&q);
    }
    s.into_bytes()
}

pub const KINDS: usize = 6;
/// hostile octets for one of the input languages
pub fn hostile(r: &mut Rng, kind: usize) -> Vec<u8> {
    let src = |r: &mut Rng| match kind {
        0 => {
            if r.bool() {
                gen_request(r).bytes
            } else {
                gen_response(r).bytes
            }
        }
        1 => frames(r),
        2 => {
            let mut enc = R::Encoder::new(4096);
            let mut b = block(r, &mut enc);
            b.extend(block(r, &mut enc));
            b
        }
        3 => ws_stream(r),
        4 => gen_url(r),
        _ => match r.below(3) {
            0 => {
                let n = r.below(60);
                let mut b = format!("{:x}\r\n", n).into_bytes();
                b.extend(r.bytes(n));
                b.extend(b"\r\n0\r\n\r\n");
                b
            }
            1 => r.pick(TOKENS).to_vec(),
            _ => r.pick(TOKENS).iter().chain(r.pick(TOKENS).iter()).copied().collect(),
        },
    };
    if r.chance(1, 6) {
        return noise(r);
    }
    let a = src(r);
    let b = if r.chance(1, 4) { noise(r) } else { src(r) };
    mutate(r, a, &b)
}

/// octets of one language to its readers, now and then to another's
pub fn feed(e: &mut T::Eye, kind: usize, b: &[u8], d: &mut Decoder, limit: usize) {
    match kind {
        0 => T::http1(e, b),
        1 => T::h2(e, b, d, limit),
        2 => T::hpack(e, b, d),
        3 => T::ws(e, b),
        4 => T::texts(e, b),
        5 => {
            T::chunks(e, b);
            T::texts(e, b)
        }
        _ => T::h2_payloads(e, b, d, limit),
    }
}

pub const FEEDS: [&str; 7] = ["http1", "h2", "hpack", "ws", "texts", "chunks", "h2-payloads"];

fn c05(r: &mut Rng, c: &mut Ctx, kind: usize) {
    let mut d = Decoder::new();
    if r.chance(1, 5) {
        d.index.write().unwrap().set_max_table_size(r.below(300));
    }
    let n = if kind == 2 || kind == 1 { r.range(1, 4) } else { 1 };
    let limit = if r.bool() { 1 << 20 } else { r.below(600) };
    for _ in 0..n {
        let b = hostile(r, kind);
        let to = if r.chance(1, 15) { r.below(7) } else { kind };
        let to = if kind == 1 && r.chance(1, 4) { 6 } else { to };
        let mut e = T::Eye::new();
        let ok = c.call(FEEDS[to], &|| format!("{} {}", show(&b), hex(&b)), || feed(&mut e, to, &b, &mut d, limit));
        c.check(e.bad.is_empty(), "nonsense", || format!("{:?} for {} {}", e.bad, show(&b), hex(&b)));
        c.add("results", e.ok);
        c.add("refusals", e.err);
        c.max("octets", b.len() as u64);
        c.seen_bytes(&b);
        if e.ok > 0 && e.err > 0 {
            c.seen(e.h);
        }
        c.sample(|| show(&b));
        if ok.is_none() {
            // the decoder may hold a poisoned lock now
            return;
        }
    }
}

fn c05_http1(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 0)
}
fn c05_h2(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 1)
}
fn c05_hpack(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 2)
}
fn c05_ws(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 3)
}
fn c05_url(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 4)
}
fn c05_text(r: &mut Rng, c: &mut Ctx, _i: u64) {
    c05(r, c, 5)
}

/// every octet string up to two octets, and three over the ones that matter,
/// to every reader
fn c05_short(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let i = i as usize;
    let b: Vec<u8> = if i == 0 {
        vec![]
    } else if i <= 256 {
        vec![(i - 1) as u8]
    } else if i <= 256 + 65536 {
        let k = i - 257;
        vec![(k >> 8) as u8, k as u8]
    } else {
        let k = i - 257 - 65536;
        let n = HOT.len();
        vec![HOT[k / n / n % n], HOT[k / n % n], HOT[k % n]]
    };
    for to in 0..7 {
        let mut d = Decoder::new();
        let mut e = T::Eye::new();
        c.call(FEEDS[to], &|| hex(&b), || feed(&mut e, to, &b, &mut d, 1 << 20));
        c.check(e.bad.is_empty(), "nonsense", || format!("{:?} for {}", e.bad, hex(&b)));
        c.add("results", e.ok);
        c.add("refusals", e.err);
    }
    c.seen_bytes(&b);
}

// ------------------------------------------------------------------ C26
/// live bytes allowed for reading n octets: a constant, and a constant factor
/// (each field of a map takes two owned strings; results are kept twice while
/// they are converted)
fn allowed(n: usize) -> isize {
    32 * 1024 + 64 * n as isize
}

fn within(c: &mut Ctx, what: &str, n: usize, peak: isize, b: &[u8]) {
    c.max(&format!("peak octets for {} ", what), peak.max(0) as u64);
    c.check(peak <= allowed(n), &format!("memory:{}", what), || format!("{} octets live while reading {} octets: {}", peak, n, hex(b)));
}

fn measure(c: &mut Ctx, b: &[u8], d: &mut Decoder, limit: usize) {
    let n = b.len();
    let (_, p) = peak_of(|| guarded(|| Request::new().parse(b).is_ok()));
    within(c, "a request", n, p, b);
    let (_, p) = peak_of(|| guarded(|| Response::new(()).parse(b).is_ok()));
    within(c, "a response", n, p, b);
    let (_, p) = peak_of(|| guarded(|| Url::parse(b.to_vec()).is_ok()));
    within(c, "a URL", n, p, b);
    let (_, p) = peak_of(|| guarded(|| Helper::parse_chunk_data(&mut &b[..]).is_ok()));
    within(c, "a chunk", n, p, b);
    let (_, p) = peak_of(|| guarded(|| DataFrame::read_dataframe(&mut &b[..], false).is_ok()));
    within(c, "a WebSocket frame", n, p, b);
    let (_, p) = peak_of(|| guarded(|| DataFrame::read_dataframe_with_limit(&mut &b[..], false, limit).is_ok()));
    within(c, "a limited WebSocket frame", n.min(limit + 64), p, b);
    let (_, p) = peak_of(|| {
        guarded(|| {
            let mut x = &b[..];
            let h = FrameHeader::parse(&mut x);
            if let Ok(h) = h {
                let k = (h.length as usize).min(x.len());
                if k == h.length as usize {
                    let _ = Frame::<Binary>::parse(h, Binary::from(x[..k].to_vec()), d, limit);
                }
            }
        })
    });
    // the table of the decoder is the other thing it may keep
    within(c, "an HTTP/2 frame", n.max(limit.min(1 << 16)) + 4096, p, b);
    c.seen_bytes(b);
}

fn c26_announced(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut b = match r.below(8) {
        // WebSocket: a length that is not there
        0 | 1 => {
            let len = match r.below(4) {
                0 => 1u64 << r.range(20, 62),
                1 => u64::MAX >> r.range(1, 40),
                2 => u64::MAX,
                _ => r.u64(),
            };
            let h = W::Head { fin: true, rsv: [false; 3], opcode: *r.pick(&[1u8, 2, 0, 9]), mask: if r.bool() { Some([1, 2, 3, 4]) } else { None }, len };
            W::head_as(&h, 2)
        }
        // a chunk
        2 => format!("{:x}\r\n", r.u64() >> r.below(40)).into_bytes(),
        // an HTTP/2 frame
        3 => {
            let mut b = vec![0xff, 0xff, 0xff, r.below(10) as u8, r.u8(), 0, 0, 0, 1];
            b[0] = r.u8();
            b
        }
        // a message with a length
        4 => format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n", r.u64()).into_bytes(),
        5 => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", r.u64()).into_bytes(),
        _ => {
            let k = r.below(KINDS);
            hostile(r, k)
        }
    };
    let n = r.below(40);
    b.extend(r.bytes(n));
    let mut d = Decoder::new();
    let limit = r.below(100);
    measure(c, &b, &mut d, limit);
    c.sample(|| hex(&b));
}

/// HPACK: strings that announce more than there is, tables that fill up,
/// small blocks that spell long lists
fn c26_hpack(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut d = Decoder::new();
    let max = match r.below(4) {
        0 => r.below(300),
        1 => 0,
        _ => 4096,
    };
    // what a peer is told in SETTINGS
    d.index.write().unwrap().set_max_table_size(max);
    let table_cost = |d: &Decoder| {
        let i = d.index.read().unwrap();
        (i.get_size(), i.len(), i.get_max_table_size())
    };
    let rounds = r.range(2, 10);
    let mut hashes = [0u64; 16];
    c.max("peak octets for a header block", 0);
    c.add("blocks refused", 0);
    c.add("blocks read", 0);
    let base = live_bytes();
    for k in 0..rounds {
        let mut b = vec![];
        let mut list = 0;
        match r.below(5) {
            0 => {
                // a string of 2^28 octets, of which a few are there
                b.push(if r.bool() { 0x40 } else { 0 });
                R::put_int(&mut b, 0x80 * (r.bool() as u8), 7, (1usize << r.range(10, 30)) as u64);
                let n = r.below(50);
                b.extend(r.bytes(n));
            }
            1 => {
                // fields of any size, each to be remembered
                for _ in 0..r.range(1, 20) {
                    let name = format!("x-{}", r.below(1000)).into_bytes();
                    let n = r.below(400);
                    let v = vec![b'v'; n];
                    b.push(0x40);
                    R::put_int(&mut b, 0, 7, (name.len()) as u64);
                    b.extend(&name);
                    R::put_int(&mut b, 0, 7, (v.len()) as u64);
                    b.extend(&v);
                    list += R::entry_size(&name, &v);
                }
            }
            2 => {
                // one long field, then references to it
                let n = max.saturating_sub(40).min(3000);
                b.push(0x40);
                R::put_int(&mut b, 0, 7, (1) as u64);
                b.push(b'n');
                R::put_int(&mut b, 0, 7, (n) as u64);
                b.extend(vec![b'v'; n]);
                let k = if r.chance(1, 10) { r.range(1000, 6000) } else { r.range(10, 400) };
                for _ in 0..k {
                    b.push(0x80 + 62);
                    list += n + 33;
                }
            }
            3 => {
                // static fields
                for _ in 0..r.range(1, 500) {
                    b.push(0x80 + r.range(1, 61) as u8);
                }
                list += b.len() * 80;
            }
            _ => {
                // Huffman at its longest
                let n = r.range(1, 3000);
                b.push(0x40);
                R::put_int(&mut b, 0, 7, (1) as u64);
                b.push(b'n');
                let v: Vec<u8> = vec![*r.pick(b"0a1e"); n];
                let h = R::huff_encode(&v);
                R::put_int(&mut b, 0x80, 7, (h.len()) as u64);
                b.extend(&h);
                list += n + 33;
            }
        }
        let limit = match r.below(4) {
            0 => r.below(2000),
            1 => 16384,
            2 => *r.pick(&[60_000, 65_535, 100_000]),
            _ => 1 << 24,
        };
        hashes[k] = hash_bytes(&b);
        let w = F::write(&Raw::new(F::HEADERS, 4, 1, b.clone()));
        let dd = || format!("table limit {} list limit {} round {} block {}", max, limit, k, hex(&b));
        let (got, peak) = peak_of(|| guarded(|| h2::read_frame(&w, &mut d, limit, 0)));
        let Ok(got) = got else {
            let (m, l) = got.err().unwrap();
            c.violation("panic:headers", format!("{} at {}; {}", m, l, dd()));
            return;
        };
        // the block is held in a buffer, the list up to the limit
        let bound = 32 * 1024 + 64 * b.len() as isize + 8 * max as isize + 8 * (list.min(limit) as isize);
        c.check(peak <= bound, "memory:header-block", || format!("{} octets live, {} allowed; {}", peak, bound, dd()));
        c.max("peak octets for a header block", peak.max(0) as u64);
        let over = got.is_err();
        drop(got);
        let (size, len, m) = table_cost(&d);
        c.check(size <= m && m == max && len * 32 <= size, "table-limit", || format!("size {} of {} entries, limit {} set {}; {}", size, len, m, max, dd()));
        if over {
            c.count("blocks refused");
        } else {
            c.count("blocks read");
        }
    }
    // what stays is the table alone
    let left = live_bytes() - base;
    c.check(left <= 24 * 1024 + 8 * max as isize, "memory:table", || format!("{} octets stay for a table limited to {}", left, max));
    c.max("octets kept by a decoder", left.max(0) as u64);
    for h in hashes {
        c.seen(h);
    }
}

/// long connections: what is read and dropped leaves nothing behind
fn c26_leaks(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut d = Decoder::new();
    let mut e = T::Eye::new();
    let kind = r.below(KINDS);
    let n = r.range(10, 30);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| hostile(r, kind)).collect();
    for b in &inputs {
        if guarded(|| feed(&mut e, kind, b, &mut d, 1 << 20)).is_err() {
            return;
        }
    }
    e.bad = vec![];
    let base = live_bytes();
    let rounds = 3;
    for _ in 0..rounds {
        for b in &inputs {
            if guarded(|| feed(&mut e, kind, b, &mut d, 1 << 20)).is_err() {
                return;
            }
        }
    }
    e.bad = vec![];
    let left = live_bytes() - base;
    c.check(left <= 8 * 1024, "memory:kept", || format!("{} octets more after {} more rounds over {} inputs ({})", left, rounds, n, FEEDS[kind]));
    c.max("octets kept over rounds", left.max(0) as u64);
    c.seen(e.h);
    c.add("inputs read again", (rounds * n) as u64);
}

/// a limit on WebSocket frames is the limit: one octet more is refused
/// before anything is taken
fn c26_ws_limit(r: &mut Rng, c: &mut Ctx, i: u64) {
    if i % 8 == 5 {
        // far longer than the limit, above all where the low half is not:
        // refused now, so that nobody waits for the rest
        let len = ((r.u32() as u64 >> r.below(31)) + 1) << 32 & !(1 << 63) | if r.bool() { r.below(200) as u64 } else { r.u32() as u64 };
        let limit = *r.pick(&[0usize, 1, 125, 126, 200, 65536, 1 << 20, 1 << 31, u32::MAX as usize]);
        let h = W::Head { fin: true, rsv: [false; 3], opcode: 2, mask: if r.bool() { Some([1, 2, 3, 4]) } else { None }, len };
        let mut b = W::head_as(&h, 2);
        let n = r.below(300);
        b.extend(r.bytes(n));
        let dd = || format!("length {} limit {}", len, limit);
        let (got, peak) = peak_of(|| guarded(|| DataFrame::read_dataframe_with_limit(&mut Binary::from(b.clone()), false, limit)));
        let Ok(got) = got else {
            let (m, l) = got.err().unwrap();
            c.violation("panic:limited", format!("{} at {}; {}", m, l, dd()));
            return;
        };
        c.check(got.is_err(), "ws-limit-exceeded", dd);
        c.check(!matches!(&got, Err(WebError::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof), "ws-limit-awaits-more", || format!("{:?}; {}", got, dd()));
        c.check(peak <= allowed(b.len()), "memory:limited", || format!("{}; {}", peak, dd()));
        c.seen(mix(len) ^ limit as u64);
        c.count("announced far beyond the limit");
        return;
    }
    let len = match r.below(5) {
        0 => r.below(130),
        1 => *r.pick(&[125usize, 126, 127, 65535, 65536, 65537]),
        2 => r.below(70000),
        _ => r.below(1000),
    };
    let limit = match r.below(6) {
        0 => len,
        1 => len.saturating_sub(1),
        2 => len + 1,
        3 => 0,
        4 => usize::MAX,
        _ => r.below(2 * len + 2),
    };
    let mask = if r.bool() { Some([r.u8(), r.u8(), r.u8(), r.u8()]) } else { None };
    let h = W::Head { fin: true, rsv: [false; 3], opcode: 2, mask, len: len as u64 };
    let data = r.bytes(len);
    let mut b = W::head_as(&h, W::form(len as u64));
    let complete = r.chance(3, 4);
    b.extend(W::xor(mask, if complete { &data } else { &data[..len / 2] }));
    let dd = || format!("length {} limit {} complete {}", len, limit, complete);
    let (got, peak) = peak_of(|| guarded(|| DataFrame::read_dataframe_with_limit(&mut BinaryMut::from(&b[..]), false, limit)));
    let Ok(got) = got else {
        let (m, l) = got.err().unwrap();
        c.violation("panic:limited", format!("{} at {}; {}", m, l, dd()));
        return;
    };
    match got {
        Ok(f) => {
            c.check(len <= limit, "ws-limit-exceeded", dd);
            c.check(complete || len == 0, "ws-incomplete", dd);
            c.check(f.data == data, "ws-limit-data", dd);
            let (m, p2) = peak_of(|| OwnedMessage::from_dataframes(vec![f]));
            c.check(p2 <= allowed(len) && m.is_ok(), "memory:message", || format!("{}; {}", p2, dd()));
        }
        Err(e) => {
            c.check(len > limit || !complete, "ws-limit-too-strict", || format!("{:?}; {}", e, dd()));
            if len > limit {
                c.check(peak <= b.len() as isize + 32 * 1024, "memory:over-limit", || format!("{}; {}", peak, dd()));
            }
        }
    }
    c.check(peak <= allowed(b.len()), "memory:limited", || format!("{}; {}", peak, dd()));
    c.seen(mix(len as u64) ^ mix((limit as u64).wrapping_add(77)));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "Valid messages of six input languages mutated (bit flips, boundary octets, cuts, splices, repeated pieces, replaced numbers), token soup and noise, fed to every decoder through step-counting buffers; everything that can be asked of what comes back is asked, and it is written out again. Every string of up to two octets and the three-octet strings over 45 boundary octets go to every reader. Non-trivial: a distinct input, or a distinct trace of observations with both results and refusals.",
            parts: vec![
                part("http1", 150_000, 6_000_000, c05_http1),
                part("http2", 100_000, 5_000_000, c05_h2),
                part("hpack", 150_000, 6_000_000, c05_hpack),
                part("websocket", 100_000, 5_000_000, c05_ws),
                part("url", 150_000, 6_000_000, c05_url),
                part("text", 100_000, 3_000_000, c05_text),
                part("short", 257 + 65536, 257 + 65536 + 45 * 45 * 45, c05_short),
            ],
            assumptions: vec!["a payload handed to a frame reader has the announced length, as its callers ensure; get_value, Index and hex_to_vec are documented to panic on misuse and are not decoders"],
        },
        Prop {
            id: "C26",
            rule: "Header lists around the configured limit; WebSocket lengths around the limit; announced lengths that are not there; HPACK blocks that fill tables or spell long lists; repeated reading. Peak and remaining live octets per call come from a counting allocator. Non-trivial: a distinct input.",
            parts: vec![
                part("header lists", 60_000, 2_000_000, h2::c26_lists),
                part("announced", 100_000, 3_000_000, c26_announced),
                part("hpack", 15_000, 500_000, c26_hpack),
                part("kept", 2_000, 60_000, c26_leaks),
                part("websocket limit", 60_000, 2_000_000, c26_ws_limit),
            ],
            assumptions: vec!["live octets are counted per thread by the global allocator"],
        },
    ]
}
