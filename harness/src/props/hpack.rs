//! C12 decoder, C13 encoder, C14 dynamic table, C15 Huffman.
use crate::core::*;
use crate::refm::hpack as R;
use crate::refm::hpack::Field;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::{encoder::Encoder, Decoder, HeaderIndex, HuffmanDecoder, HuffmanEncoder};
use webparse::{HeaderName, HeaderValue, WebResult};

const CUSTOM: &[&str] = &["x-a", "x-b", "x-long-custom-header-name-for-eviction", "custom-key", "k", "trace-id", "x-forwarded-for", "x"];
const VALUES: &[&str] = &["", "a", "b", "200", "GET", "gzip, deflate", "/", "/index.html", "no-cache", "custom-value", "https", "\u{fc}ml\u{e4}ut"];
const STATIC_NAMES: &[&str] = &[":authority", ":method", ":path", ":scheme", ":status", "accept", "accept-charset", "accept-encoding", "age", "cookie", "date", "etag", "host", "server", "vary", "via", "www-authenticate", "set-cookie", "content-length", "user-agent", "link"];

pub fn gen_name(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0..=3 => r.pick(STATIC_NAMES).as_bytes().to_vec(),
        4..=7 => r.pick(CUSTOM).as_bytes().to_vec(),
        8 => {
            let n = r.range(1, 12);
            r.from_set(b"abcdefghijklmnopqrstuvwxyz0123456789-_!#$%&'*+.^`|~", n)
        }
        _ => {
            let n = r.range(20, 200);
            let n = if r.chance(1, 30) { r.len(200) } else { n };
            let mut v = b"x-".to_vec();
            v.extend(r.from_set(b"abcdefgh-", n));
            v
        }
    }
}

pub fn gen_value(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0..=5 => r.pick(VALUES).as_bytes().to_vec(),
        6..=8 => {
            let n = r.len(40);
            r.from_set(b"abcdefghijklmnopqrstuvwxyzABC 0123456789;,=/%\"", n)
        }
        9 => {
            let n = r.len(60);
            r.bytes(n)
        }
        10 => {
            // lengths around the prefix boundaries of the string length
            let n = r.range(120, 300);
            r.from_set(b"0123456789abcdef\x00\xff", n)
        }
        _ => {
            let n = if r.chance(1, 6) { r.range(4000, 20000) } else { r.range(300, 1200) };
            r.from_set(b"abcdefghijklmnop", n)
        }
    }
}

pub fn gen_field(r: &mut Rng) -> Field {
    if r.chance(1, 4) {
        let i = r.range(1, 61);
        let (n, v) = crate::refm::tables::STATIC[i - 1];
        return (n.as_bytes().to_vec(), v.as_bytes().to_vec());
    }
    (gen_name(r), gen_value(r))
}

pub fn gen_size(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => r.below(70),
        2 => r.range(33, 200),
        3 => r.range(100, 600),
        4 | 5 => 4096,
        6 => r.range(3000, 5000),
        _ => r.range(5000, 70000),
    }
}

pub fn fields_of(v: &[(HeaderName, HeaderValue)]) -> Vec<Field> {
    v.iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}
pub fn lower(v: &[Field]) -> Vec<Field> {
    v.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect()
}
pub fn show_fields(v: &[Field]) -> String {
    v.iter().map(|(n, v)| format!("{}={}", show(n), show(v))).collect::<Vec<_>>().join(" | ")
}

fn decode_with(d: &mut Decoder, block: &[u8], kind: usize) -> WebResult<Vec<(HeaderName, HeaderValue)>> {
    match kind {
        0 => d.decode(&mut BinaryMut::from(block.to_vec())),
        1 => d.decode(&mut Binary::from(block.to_vec())),
        2 => {
            let mut b: &[u8] = block;
            d.decode(&mut b)
        }
        _ => d.decode(&mut CountBt::new(block.to_vec())),
    }
}

/// table of the code under test against the reference table
fn same_table(c: &mut Ctx, idx: &HeaderIndex, t: &R::Table, sig: &str, ctx: &dyn Fn() -> String) -> bool {
    let got = lower(&fields_of(&idx.to_vec()));
    let want: Vec<Field> = lower(&t.entries.iter().cloned().collect::<Vec<_>>());
    let mut ok = c.check(got == want, sig, || {
        format!("table {} ; reference {} ; {}", show_fields(&got), show_fields(&want), ctx())
    });
    ok &= c.check(
        idx.get_size() == t.size() && idx.len() == t.entries.len() && idx.get_max_table_size() == t.max,
        &format!("{}-accounting", sig),
        || {
            format!(
                "size {} len {} max {} ; reference {} {} {} ; {}",
                idx.get_size(), idx.len(), idx.get_max_table_size(), t.size(), t.entries.len(), t.max, ctx()
            )
        },
    );
    ok
}

// ------------------------------------------------------------------ C12
fn c12_history(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut limit = if r.chance(1, 2) { 4096 } else { gen_size(r) };
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut d = Decoder::new_index(index.clone());
    let mut e = R::Encoder::new(4096);
    if limit != 4096 {
        index.write().unwrap().set_max_table_size(limit);
        e.table.resize(limit);
    }
    let pool: Vec<Field> = (0..r.range(1, 12)).map(|_| gen_field(r)).collect();
    let blocks = r.range(1, 30);
    let mut pending_update = false;
    let mut log: Vec<String> = vec![];
    let mut h = 0u64;
    for _ in 0..blocks {
        if r.chance(1, 12) {
            // a new SETTINGS_HEADER_TABLE_SIZE, announced by the encoder
            limit = gen_size(r);
            index.write().unwrap().set_max_table_size(limit);
            e.table.resize(limit);
            pending_update = true;
            log.push(format!("limit {}", limit));
        }
        let mut block = vec![];
        if pending_update || r.chance(1, 8) {
            if r.chance(1, 3) {
                let n = r.below(limit + 1);
                e.size_update(&mut block, n);
                log.push(format!("update {}", n));
            }
            let n = if r.bool() { limit } else { r.below(limit + 1) };
            e.size_update(&mut block, n);
            log.push(format!("update {}", n));
            pending_update = false;
            c.count("size_updates");
        }
        let mut want = vec![];
        for _ in 0..r.size(25) {
            let f = if r.chance(3, 4) { r.pick(&pool).clone() } else { gen_field(r) };
            let (repr, used) = e.field(&mut block, &f.0, &f.1, r);
            match (repr, used > 61) {
                (R::Repr::Indexed, true) => c.count("indexed_dynamic"),
                (R::Repr::Indexed, false) => c.count("indexed_static"),
                (R::Repr::Incremental, _) => c.count("literal_incremental"),
                (R::Repr::Without, _) => c.count("literal_without"),
                (R::Repr::Never, _) => c.count("literal_never"),
            }
            if used > 61 && repr != R::Repr::Indexed {
                c.count("name_from_dynamic");
            }
            want.push(f);
        }
        h = mix(h ^ hash_bytes(&block));
        let kind = r.below(4);
        log.push(hex(&block));
        let inp = || log.join(" / ");
        let got = match c.call("decode", &inp, || decode_with(&mut d, &block, kind)) {
            Some(v) => v,
            None => return,
        };
        c.count("blocks");
        match got {
            Err(e) => {
                c.check(false, "valid-block-refused", || format!("{:?}; history {}", e, inp()));
                return;
            }
            Ok(v) => {
                let got = lower(&fields_of(&v));
                if !c.check(got == want, "fields", || {
                    format!("got {} want {}; history {}", show_fields(&got), show_fields(&want), inp())
                }) {
                    return;
                }
            }
        }
        let idx = index.read().unwrap();
        if !same_table(c, &idx, &e.table, "table", &inp) {
            return;
        }
    }
    c.add("evictions", e.table.evictions);
    c.max("dynamic_entries", e.table.entries.len() as u64);
    c.seen(h);
    c.sample(|| format!("limit {} blocks {}", limit, log.iter().take(3).cloned().collect::<Vec<_>>().join(" / ")));
}

/// names of any bytes: the library keeps names as text, so one that is not text
/// is either refused or kept as it is, and the tables stay in step
fn c12_names(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut d = Decoder::new_index(index.clone());
    let mut e = R::Encoder::new(4096);
    let mut log = vec![];
    let mut pool: Vec<Field> = vec![];
    for _ in 0..r.range(1, 8) {
        let n = r.below(12);
        let name = match r.below(4) {
            0 => r.bytes(n),
            1 => r.from_set(b"ab\xc3\xa9\xe2\x82\xac", n),
            2 => "n\u{e9}\u{20ac}".as_bytes().to_vec(),
            _ => gen_name(r),
        };
        pool.push((name.to_ascii_lowercase(), gen_value(r)));
    }
    for _ in 0..r.range(1, 8) {
        let mut block = vec![];
        let mut want = vec![];
        for _ in 0..r.range(1, 5) {
            let f = r.pick(&pool).clone();
            e.field(&mut block, &f.0, &f.1, r);
            want.push(f);
        }
        let text = want.iter().all(|f| std::str::from_utf8(&f.0).is_ok());
        log.push(hex(&block));
        c.seen_bytes(&block);
        let inp = || log.join(" / ");
        let Some(got) = c.call("decode", &inp, || decode_with(&mut d, &block, 0)) else { return };
        match got {
            Err(e) => {
                c.count("name is not text: refused");
                c.check(!text, "text-name-refused", || format!("{:?}; history {}", e, inp()));
                return;
            }
            Ok(v) => {
                let got = lower(&fields_of(&v));
                if !c.check(got == want, "name-altered", || format!("got {} want {}; history {}", show_fields(&got), show_fields(&want), inp())) {
                    return;
                }
                let idx = index.read().unwrap();
                if !same_table(c, &idx, &e.table, "table-of-names", &inp) {
                    return;
                }
            }
        }
    }
}

/// Valid blocks with one corruption, and hand-made bad ones: refused exactly
/// when the strict reference refuses.
fn c12_corrupt(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let limit = *r.pick(&[4096usize, 4096, 0, 64, 200, 1000]);
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    index.write().unwrap().set_max_table_size(limit);
    let mut d = Decoder::new_index(index.clone());
    let mut rd = R::Decoder::new(limit);
    let mut e = R::Encoder::new(limit);
    let mut log = vec![];
    // a valid prefix of history
    for _ in 0..r.below(4) {
        let mut b = vec![];
        for _ in 0..r.size(8) {
            let f = gen_field(r);
            e.field(&mut b, &f.0, &f.1, r);
        }
        log.push(hex(&b));
        let inp = || log.join(" / ");
        let ok = c.call("decode", &inp, || decode_with(&mut d, &b, 0).is_ok());
        let want = rd.decode(&b).is_ok();
        if ok != Some(want) {
            c.check(false, "valid-block-refused", || inp());
            return;
        }
    }
    let mut b = vec![];
    let what = r.below(8);
    for _ in 0..r.size(6) {
        let f = gen_field(r);
        e.field(&mut b, &f.0, &f.1, r);
    }
    match what {
        0 => {
            // index outside the tables
            let n = e.table.total();
            let i = match r.below(4) {
                0 => 0,
                1 => n + 1,
                2 => n + 1 + r.below(300),
                _ => n + 1 + r.below(1 << 27),
            };
            match r.below(4) {
                0 => R::put_int(&mut b, 0x80, 7, i as u64),
                1 => R::put_int(&mut b, 0x40, 6, if i == 0 { n + 1 } else { i } as u64),
                2 => R::put_int(&mut b, 0x00, 4, if i == 0 { n + 1 } else { i } as u64),
                _ => R::put_int(&mut b, 0x10, 4, if i == 0 { n + 1 } else { i } as u64),
            }
            R::put_str(&mut b, b"v", false);
            c.count("bad_index");
        }
        1 => {
            // truncated
            let f = gen_field(r);
            let at = b.len();
            b.push([0x40u8, 0, 0x10][r.below(3)]);
            R::put_str(&mut b, &f.0, r.bool());
            R::put_str(&mut b, &f.1, r.bool());
            let cut = r.range(at + 1, b.len() - 1);
            b.truncate(cut);
            c.count("truncated");
        }
        2 => {
            // bad Huffman string
            b.push(0x40);
            R::put_str(&mut b, b"x", false);
            let mut s = R::huff_encode(&gen_value(r));
            match r.below(4) {
                0 => s.push(0xff),
                1 => s.extend([0xff, 0xff, 0xff, 0xff]),
                2 => {
                    let n = s.len();
                    if n > 0 {
                        s[n - 1] ^= 1;
                    } else {
                        s.push(0);
                    }
                }
                _ => {
                    let n = r.range(1, 6);
                    s = r.bytes(n)
                }
            }
            R::put_int(&mut b, 0x80, 7, s.len() as u64);
            b.extend(s);
            c.count("bad_huffman");
        }
        3 => {
            // oversized integer
            b.push([0xffu8, 0x7f, 0x3f, 0x0f, 0x1f][r.below(5)]);
            for _ in 0..r.range(5, 12) {
                b.push(0x80 | r.u8());
            }
            b.push(r.u8() & 0x7f);
            c.count("oversized_int");
            let inp = || format!("{} / {}", log.join(" / "), hex(&b));
            if let Some(v) = c.call("decode", &inp, || decode_with(&mut d, &b, 0).is_err()) {
                c.check(v, "oversized-integer-accepted", inp);
            }
            c.seen_bytes(&b);
            return;
        }
        4 => {
            // table size above the limit
            let n = limit + 1 + r.below(5000);
            let mut u = vec![];
            R::put_int(&mut u, 0x20, 5, n as u64);
            u.extend(&b);
            b = u;
            c.count("bad_update");
        }
        5 => {
            // a length that runs past the end
            b.push(0);
            R::put_str(&mut b, b"n", false);
            let n = r.range(1, 1 << 20);
            R::put_int(&mut b, if r.bool() { 0x80 } else { 0 }, 7, n as u64);
            let have = r.below(n.min(40));
            b.extend(r.bytes(have));
            c.count("long_length");
        }
        _ => {
            // byte corruption
            for _ in 0..r.range(1, 3) {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.u8();
                }
            }
            c.count("byte_corruption");
        }
    }
    let inp = || format!("limit {} history {} / {}", limit, log.join(" / "), hex(&b));
    let kind = r.below(4);
    let got = match c.call("decode", &inp, || decode_with(&mut d, &b, kind)) {
        Some(v) => v,
        None => return,
    };
    let want = rd.decode(&b);
    c.seen_bytes(&b);
    if long_int(&b) {
        // five-octet limit of this implementation: either answer is allowed
        return;
    }
    match (&got, &want) {
        (Ok(_), Err(e)) => {
            c.check(false, "bad-block-accepted", || format!("reference refuses: {}; {}", e, inp()));
        }
        (Err(e), Ok((w, _))) => {
            let text = w.iter().all(|f| std::str::from_utf8(&f.0).is_ok());
            c.check(!text, "valid-block-refused", || format!("{:?}; {}", e, inp()));
        }
        (Ok(v), Ok((w, _))) => {
            c.count("corrupt_but_valid");
            {
                let g = lower(&fields_of(v));
                let w = lower(w);
                c.check(g == w, "fields", || format!("got {} want {}; {}", show_fields(&g), show_fields(&w), inp()));
                let idx = index.read().unwrap();
                same_table(c, &idx, &rd.table, "table", &inp);
            }
        }
        (Err(_), Err(_)) => {
            c.count("refused");
            c.check(true, "", String::new);
        }
    }
}

/// does any run of continuation octets exceed four (an integer over 5 octets)?
fn long_int(b: &[u8]) -> bool {
    let mut run = 0;
    for x in b {
        if x & 0x80 != 0 {
            run += 1;
            if run >= 4 {
                return true;
            }
        } else {
            run = 0;
        }
    }
    false
}

/// every index of a populated table, every prefix length form
fn c12_indices(r: &mut Rng, c: &mut Ctx, i: u64) {
    let n = (i % 220) as usize;
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    index.write().unwrap().set_max_table_size(1 << 20);
    let mut d = Decoder::new_index(index.clone());
    let mut e = R::Encoder::new(1 << 20);
    let mut b = vec![];
    for k in 0..n {
        b.push(0x40);
        let name = format!("n{}", k);
        let val = format!("v{}", k);
        R::put_str(&mut b, name.as_bytes(), r.bool());
        R::put_str(&mut b, val.as_bytes(), r.bool());
        e.table.add(name.as_bytes(), val.as_bytes());
    }
    let inp = || format!("{} dynamic entries", n);
    if c.call("decode", &inp, || decode_with(&mut d, &b, 0).is_ok()) != Some(true) {
        c.check(false, "valid-block-refused", inp);
        return;
    }
    for ix in 0..=(e.table.total() + 2) {
        let want = e.table.get(ix);
        let mut b = vec![];
        let form = ix % 4;
        match form {
            0 => R::put_int(&mut b, 0x80, 7, ix as u64),
            1 => {
                R::put_int(&mut b, 0x00, 4, ix as u64);
                R::put_str(&mut b, b"zz", false);
            }
            2 => {
                R::put_int(&mut b, 0x10, 4, ix as u64);
                R::put_str(&mut b, b"zz", true);
            }
            _ => R::put_int(&mut b, 0x80, 7, ix as u64),
        }
        if form != 0 && form != 3 && ix == 0 {
            continue;
        }
        let inp = || format!("{} dynamic entries, index {} block {}", n, ix, hex(&b));
        let got = match c.call("decode", &inp, || decode_with(&mut d, &b, 2)) {
            Some(v) => v,
            None => return,
        };
        let got = got.ok().map(|v| lower(&fields_of(&v)));
        let want = want.map(|(n, v)| vec![(n, if form == 0 || form == 3 { v } else { b"zz".to_vec() })]);
        c.check(got == want, "index-resolution", || format!("got {:?} want {:?}; {}", got, want, inp()));
        c.count("indices");
    }
    c.seen(mix(n as u64));
}

// ------------------------------------------------------------------ C13
pub fn name_of(r: &mut Rng, n: &[u8]) -> HeaderName {
    let s = String::from_utf8(n.to_vec()).unwrap();
    match r.below(3) {
        0 => HeaderName::from_bytes(n).unwrap(),
        1 => HeaderName::try_from(s).unwrap(),
        _ => {
            let m: String = s.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
            HeaderName::try_from(m).unwrap()
        }
    }
}

fn c13_history(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let start = if r.chance(1, 2) { 4096 } else { gen_size(r) };
    let eidx = Arc::new(RwLock::new(HeaderIndex::new()));
    let didx = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut e = Encoder::new_index(eidx.clone(), 16384);
    let mut d = Decoder::new_index(didx.clone());
    let mut rd = R::Decoder::new(4096);
    if start != 4096 {
        eidx.write().unwrap().set_max_table_size(start);
        didx.write().unwrap().set_max_table_size(start);
        rd.limit = start;
        rd.table.resize(start);
    }
    let pool: Vec<Field> = (0..r.range(1, 12)).map(|_| gen_field(r)).collect();
    let mut log: Vec<String> = vec![format!("size {}", start)];
    let mut h = start as u64;
    let mut announced = true;
    let mut smallest = start;
    for _ in 0..r.range(1, 25) {
        if r.chance(1, 8) {
            let n = gen_size(r);
            announced &= n == rd.table.max;
            smallest = if announced { n } else { smallest.min(n) };
            eidx.write().unwrap().set_max_table_size(n);
            didx.write().unwrap().set_max_table_size(n);
            rd.limit = n;
            rd.table.resize(n);
            log.push(format!("size {}", n));
            c.count("size_changes");
        }
        let list: Vec<Field> = (0..r.size(25))
            .map(|_| if r.chance(3, 4) { r.pick(&pool).clone() } else { gen_field(r) })
            .collect();
        let hv: Vec<(HeaderName, HeaderValue)> = list
            .iter()
            .map(|(n, v)| (name_of(r, n), HeaderValue::from_bytes(v)))
            .collect();
        log.push(show_fields(&list));
        let inp = || log.join(" / ");
        let whole = r.bool();
        let block = match c.call("encode", &inp, || {
            if whole {
                e.encode(hv.iter().map(|(n, v)| (n, v))).chunk().to_vec()
            } else {
                let mut b = BinaryMut::new();
                for x in &hv {
                    e.encode_header_into((&x.0, &x.1), &mut b).unwrap();
                }
                b.chunk().to_vec()
            }
        }) {
            Some(v) => v,
            None => return,
        };
        c.count("blocks");
        h = mix(h ^ hash_bytes(&block));
        if !announced && !list.is_empty() {
            // RFC 7541 4.2: a change of the maximum size is signalled at the
            // beginning of the next block
            let ok = block.first().map_or(false, |b| b & 0xe0 == 0x20);
            c.check(ok, "reduced-table-size-not-announced", || format!("block {}; {}", hex(&block), inp()));
            announced = true;
            smallest = rd.table.max;
        }
        let want = list.clone();
        match rd.decode(&block) {
            Err(x) => {
                c.check(false, "undecodable", || format!("reference: {}; block {}; {}", x, hex(&block), inp()));
                return;
            }
            Ok((got, st)) => {
                c.add("indexed_dynamic", st.indexed_dynamic);
                c.add("indexed_static", st.indexed_static);
                c.add("literals", st.inc + st.lit);
                if !c.check(got == want, "reference-fields", || {
                    format!("got {} want {} block {}; {}", show_fields(&got), show_fields(&want), hex(&block), inp())
                }) {
                    return;
                }
            }
        }
        let got = match c.call("decode", &inp, || decode_with(&mut d, &block, 0)) {
            Some(v) => v,
            None => return,
        };
        match got {
            Err(x) => {
                c.check(false, "own-decoder-refuses", || format!("{:?} block {}; {}", x, hex(&block), inp()));
                return;
            }
            Ok(v) => {
                let got = lower(&fields_of(&v));
                if !c.check(got == want, "own-fields", || {
                    format!("got {} want {} block {}; {}", show_fields(&got), show_fields(&want), hex(&block), inp())
                }) {
                    return;
                }
            }
        }
        if announced {
            let a = eidx.read().unwrap();
            let b = didx.read().unwrap();
            if !same_table(c, &a, &rd.table, "encoder-table", &inp) || !same_table(c, &b, &rd.table, "decoder-table", &inp) {
                return;
            }
        }
    }
    c.add("evictions", rd.table.evictions);
    c.seen(h);
    c.sample(|| log.iter().take(3).cloned().collect::<Vec<_>>().join(" / "));
}

// integer and string lengths around every octet boundary
fn c13_lengths(r: &mut Rng, c: &mut Ctx, i: u64) {
    let n = match i {
        0..=700 => i as usize,
        _ => {
            let p = r.range(8, 17);
            ((1usize << p) + r.range(0, 300)).saturating_sub(150)
        }
    };
    let mut e = Encoder::new();
    let mut rd = R::Decoder::new(4096);
    let v = r.from_set(b"0ae~\x00", n);
    let hn = HeaderName::try_from("x-len".to_string()).unwrap();
    let inp = || format!("value of {} bytes", n);
    let hv = HeaderValue::from_bytes(&v);
    for _ in 0..2 {
        let b = match c.call("encode", &inp, || e.encode(std::iter::once((&hn, &hv))).chunk().to_vec()) {
            Some(b) => b,
            None => return,
        };
        let got = rd.decode(&b);
        c.check(
            got.as_ref().map_or(false, |(g, _)| g.len() == 1 && g[0].1 == v && g[0].0 == b"x-len"),
            "length-boundary",
            || format!("{}: block {}", inp(), hex(&b)),
        );
    }
    for prefix in 1..=8u8 {
        let mut out = BinaryMut::new();
        let val = match r.below(4) {
            0 => n,
            1 => (1usize << prefix) - 1 + r.below(3),
            2 => r.below(1 << 28),
            _ => (1usize << prefix) - 1 + 127 + r.below(4),
        };
        let inp = || format!("integer {} prefix {}", val, prefix);
        if c.call("encode_integer_into", &inp, || Encoder::encode_integer_into(val, prefix, 0, &mut out)).is_none() {
            return;
        }
        let mut want = vec![];
        R::put_int(&mut want, 0, prefix, val as u64);
        c.check(out.chunk() == &want[..], "integer", || format!("{} got {} want {}", inp(), hex(out.chunk()), hex(&want)));
    }
    c.seen(mix(n as u64 ^ 0x55));
}

// ------------------------------------------------------------------ C14
fn c14_ops(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut x = HeaderIndex::new();
    let mut t = R::Table::new(4096);
    let mut log = vec![];
    let mut h = 0;
    let pool: Vec<Field> = (0..r.range(2, 15)).map(|_| gen_field(r)).collect();
    for _ in 0..r.range(1, 60) {
        if r.chance(1, 7) {
            let n = gen_size(r);
            log.push(format!("max {}", n));
            let inp = || log.join(" / ");
            if c.call("set_max_table_size", &inp, || x.set_max_table_size(n)).is_none() {
                return;
            }
            t.resize(n);
            h = mix(h ^ n as u64);
        } else {
            let f = if r.bool() { r.pick(&pool).clone() } else { gen_field(r) };
            let hn = name_of(r, &f.0);
            let hv = HeaderValue::from_bytes(&f.1);
            log.push(format!("add {}={}", show(&f.0), show(&f.1)));
            let inp = || log.join(" / ");
            if c.call("add_header", &inp, || x.add_header(hn, hv)).is_none() {
                return;
            }
            t.add(&f.0, &f.1);
            h = mix(h ^ hash_bytes(&f.0) ^ mix(hash_bytes(&f.1)));
        }
        let inp = || log.join(" / ");
        if !same_table(c, &x, &t, "table", &inp) {
            return;
        }
        c.check(x.get_size() <= x.get_max_table_size(), "over-max", || inp());
        c.count("operations");
    }
    // every valid index, and invalid ones
    let total = t.total();
    let mut idxs: Vec<usize> = (0..=total + 2).collect();
    idxs.extend([usize::MAX, usize::MAX - 61, 1 << 31, 1000]);
    for i in idxs {
        let inp = || format!("index {} after {}", i, log.join(" / "));
        let got = match c.call("get_from_index", &inp, || {
            x.get_from_index(i).map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec()))
        }) {
            Some(v) => v,
            None => return,
        };
        c.check(got == t.get(i), "resolve", || format!("got {:?} want {:?}; {}", got, t.get(i), inp()));
        c.count("indices_resolved");
    }
    // search
    for _ in 0..25 {
        let f = match r.below(4) {
            0 => gen_field(r),
            1 => r.pick(&pool).clone(),
            2 => (r.pick(&pool).0.clone(), gen_value(r)),
            _ => t.get(r.range(1, total)).unwrap(),
        };
        let hn = name_of(r, &f.0);
        let hv = HeaderValue::from_bytes(&f.1);
        let inp = || format!("find {}={} after {}", show(&f.0), show(&f.1), log.join(" / "));
        let got = match c.call("find_header", &inp, || x.find_header((&hn, &hv))) {
            Some(v) => v,
            None => return,
        };
        match got {
            Some((i, full)) => {
                let w = t.get(i);
                let ok = w.as_ref().map_or(false, |w| w.0 == f.0 && (!full || w.1 == f.1));
                c.check(ok, "find", || format!("got {:?} which is {:?}; {}", got, w, inp()));
                c.count(if full { "found_field" } else { "found_name" });
            }
            None => {
                let is_static = crate::refm::tables::STATIC.iter().any(|(n, v)| n.as_bytes() == &f.0[..] && v.as_bytes() == &f.1[..]);
                let custom = !crate::refm::tables::STATIC.iter().any(|(n, _)| n.as_bytes() == &f.0[..]);
                let in_dyn = custom && t.entries.iter().any(|e| *e == f);
                c.check(!is_static && !in_dyn, "not-found", inp);
                c.count("not_found");
            }
        }
    }
    c.add("evictions", t.evictions);
    c.seen(h);
    c.sample(|| log.iter().take(5).cloned().collect::<Vec<_>>().join(" / "));
}

// ------------------------------------------------------------------ C15
fn huff_one(c: &mut Ctx, s: &[u8], reuse: Option<&mut HuffmanDecoder>) {
    let inp = || hex(s);
    let want = R::huff_encode(s);
    if let Some(got) = c.call("huffman-encode", &inp, || HuffmanEncoder::encode(s)) {
        c.check(got == want, "encode", || format!("got {} want {} for {}", hex(&got), hex(&want), inp()));
    }
    let low = s.to_ascii_lowercase();
    if let Some(got) = c.call("huffman-encode-lower", &inp, || HuffmanEncoder::encode_lower(s)) {
        let want = R::huff_encode(&low);
        c.check(got == want, "encode-lower", || format!("got {} want {} for {}", hex(&got), hex(&want), inp()));
    }
    let dec = match reuse {
        Some(d) => c.call("huffman-decode", &inp, || d.decode(&want)),
        None => c.call("huffman-decode", &inp, || HuffmanDecoder::new().decode(&want)),
    };
    if let Some(got) = dec {
        let ok = matches!(&got, Ok(v) if v == s);
        c.check(ok, "round-trip", || format!("got {:?} for {}", got.as_ref().map(|v| hex(v)), inp()));
    }
}

fn huff_dec(c: &mut Ctx, e: &[u8]) {
    let inp = || hex(e);
    let want = R::tree().decode(e);
    if let Some(got) = c.call("huffman-decode", &inp, || HuffmanDecoder::new().decode(e)) {
        match (&got, &want) {
            (Ok(g), Ok(w)) => {
                c.count("accepted");
                c.check(g == w, "decode", || format!("got {} want {} for {}", hex(g), hex(w), inp()));
            }
            (Err(_), Err(_)) => {
                c.count("refused");
                c.check(true, "", String::new);
            }
            (Ok(g), Err(w)) => {
                c.check(false, "bad-accepted", || format!("got {} but reference: {} for {}", hex(g), w, inp()));
            }
            (Err(g), Ok(_)) => {
                c.check(false, "good-refused", || format!("{:?} for {}", g, inp()));
            }
        }
    }
}

fn c15_short(_r: &mut Rng, c: &mut Ctx, i: u64) {
    // i enumerates 256 first bytes
    let a = i as u8;
    if i == 0 {
        huff_one(c, &[], None);
        huff_dec(c, &[]);
    }
    huff_one(c, &[a], None);
    huff_dec(c, &[a]);
    for b in 0..=255u8 {
        huff_one(c, &[a, b], None);
        huff_dec(c, &[a, b]);
        c.seen(mix((a as u64) << 8 | b as u64));
        // three and four octet strings that end in long codes
        huff_dec(c, &[0xff, a, b]);
        huff_dec(c, &[0xff, 0xff, a, b]);
        huff_dec(c, &[0xff, 0xff, 0xff, a, b]);
        huff_dec(c, &[a, b, 0xff]);
        huff_dec(c, &[a, b, 0xff, 0xff]);
    }
}

fn c15_random(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let n = if r.chance(1, 50) { r.range(500, 5000) } else { r.size(80) };
    let s = match r.below(3) {
        0 => r.bytes(n),
        1 => r.from_set(b"abcdefghijklmnopqrstuvwxyz0123456789-./: ", n),
        _ => {
            let k = r.u8();
            let set = [k, k.wrapping_add(1), 0xff, 0, b'a'];
            r.from_set(&set, n)
        }
    };
    let mut d = HuffmanDecoder::new();
    huff_one(c, &s, Some(&mut d));
    huff_one(c, &s, Some(&mut d));
    c.seen_bytes(&s);
    let mut e = R::huff_encode(&s);
    for _ in 0..6 {
        match r.below(8) {
            0 => e.push(0xff),
            1 => {
                e.pop();
            }
            2 => {
                if let Some(x) = e.last_mut() {
                    *x ^= 1 << r.below(8)
                }
            }
            3 => {
                if !e.is_empty() {
                    let i = r.below(e.len());
                    e[i] ^= 1 << r.below(8)
                }
            }
            4 => {
                // the end-of-string code after a few symbols, bit-exact
                e = eos_string(r, &s);
                c.count("eos_strings");
            }
            5 => e.push(r.u8()),
            _ => {
                let n = r.range(0, 12);
                e = r.bytes(n)
            }
        }
        huff_dec(c, &e);
    }
    c.sample(|| hex(&s));
}

/// symbols, then the 30-bit end-of-string code, then further symbols, padded with ones
fn eos_string(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut bits: Vec<u8> = vec![];
    let put = |bits: &mut Vec<u8>, sym: usize| {
        let (c, l) = crate::refm::tables::HUFF[sym];
        for i in (0..l).rev() {
            bits.push((c >> i & 1) as u8);
        }
    };
    for b in s.iter().take(r.below(6)) {
        put(&mut bits, *b as usize);
    }
    put(&mut bits, 256);
    for _ in 0..r.below(4) {
        put(&mut bits, r.u8() as usize);
    }
    while bits.len() % 8 != 0 {
        bits.push(1);
    }
    bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect()
}

// integers of every length the format needs: table sizes up to 28 bits, and a
// few strings long enough for three and four octets of length
fn c12_integers(r: &mut Rng, c: &mut Ctx, i: u64) {
    const TOP: u64 = 30 + (1 << 28);
    let near = |r: &mut Rng| -> u64 {
        let at = *r.pick(&[0u64, 31, 31 + 128, 31 + (1 << 14), 31 + (1 << 21), 31 + (1 << 28)]);
        let at = if r.bool() { at } else { 1 << r.range(0, 28) };
        (at + r.below(5) as u64).saturating_sub(2).min(TOP)
    };
    let idx = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut d = Decoder::new_index(idx.clone());
    let mut rd = R::Decoder::new(4096);
    if i % 500 == 499 {
        // long strings
        let n = (*r.pick(&[127u64, 127 + 128, 127 + (1 << 14), 127 + (1 << 21)]) + r.below(5) as u64).saturating_sub(2) as usize;
        let v = r.from_set(b"0ae~\x00", n);
        let mut b = vec![];
        b.push(*r.pick(&[0u8, 0x10, 0x40]));
        R::put_str(&mut b, b"x-long", r.bool());
        let huff = r.bool();
        R::put_str(&mut b, &v, huff);
        let inp = || format!("value of {} octets, huffman {}", n, huff);
        c.seen(mix(n as u64 ^ (b[0] as u64) << 40));
        let want = rd.decode(&b).map(|x| x.0);
        let Some(got) = c.call("decode", &inp, || decode_with(&mut d, &b, i as usize)) else { return };
        match (got, want) {
            (Ok(g), Ok(w)) => {
                c.check(lower(&fields_of(&g)) == w, "long-string", inp);
                c.max("string length", n as u64);
            }
            (g, w) => {
                c.check(false, "long-string-refused", || format!("{:?} {:?} {}", g.err(), w.is_ok(), inp()));
            }
        }
        same_table(c, &idx.read().unwrap(), &rd.table, "long-string-table", &inp);
        return;
    }
    let limit = near(r);
    idx.write().unwrap().set_max_table_size(limit as usize);
    rd.limit = limit as usize;
    rd.table.resize(limit as usize);
    let mut log = format!("limit {}", limit);
    for _ in 0..r.range(1, 4) {
        let v = if r.chance(1, 4) { limit.saturating_add(r.below(2) as u64).min(TOP) } else { near(r) };
        let mut b = vec![];
        R::put_int(&mut b, 0x20, 5, v);
        let octets = b.len() as u64;
        let n = r.u8();
        b.push(0x40);
        R::put_str(&mut b, &[b'x', n % 26 + b'a'], r.bool());
        R::put_str(&mut b, b"1", false);
        log.push_str(&format!(" / {}", hex(&b)));
        let inp = || log.clone();
        let want = rd.decode(&b).map(|x| x.0);
        let Some(got) = c.call("decode", &inp, || decode_with(&mut d, &b, i as usize)) else { return };
        c.max("octets of one integer", octets);
        c.seen(hash_bytes(log.as_bytes()));
        match (got, want) {
            (Ok(g), Ok(w)) => {
                c.count("sizes accepted");
                c.check(lower(&fields_of(&g)) == w, "size-then-field", inp);
            }
            (Err(_), Err(_)) => {
                c.count("sizes above the limit refused");
                return;
            }
            (Ok(_), Err(e)) => {
                c.check(false, "size-accepted", || format!("{} {}", e, inp()));
                return;
            }
            (Err(e), Ok(_)) => {
                c.check(false, "size-refused", || format!("{:?} {}", e, inp()));
                return;
            }
        }
        if !same_table(c, &idx.read().unwrap(), &rd.table, "size-table", &inp) {
            return;
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "Histories of header blocks made by an independent RFC 7541 encoder that chooses every representation, string form and size update at random; integers of one to five octets around every boundary; blocks corrupted by index, truncation, Huffman, integer, size and byte faults, judged by a strict reference decoder; every index of tables with 0..219 entries. Non-trivial: a distinct history or block whose decoding was compared.",
            parts: vec![part("histories", 30_000, 1_000_000, c12_history), part("corrupt", 200_000, 6_000_000, c12_corrupt), part("names", 40_000, 1_000_000, c12_names), part("indices", 220, 2200, c12_indices), part("integers", 60_000, 1_500_000, c12_integers)],
            assumptions: vec!["a field name that is not UTF-8 may be refused; integers need at most five octets (longer ones may be refused)"],
        },
        Prop {
            id: "C13",
            rule: "Histories of random header lists with table size changes, encoded by the library and decoded by an independent strict RFC 7541 decoder and by the library; both dynamic tables compared with the reference after each block; all string lengths 0..700 and around powers of two. Non-trivial: a distinct history.",
            parts: vec![part("histories", 30_000, 1_000_000, c13_history), part("lengths", 1500, 8000, c13_lengths)],
            assumptions: vec!["names are UTF-8 text"],
        },
        Prop {
            id: "C14",
            rule: "Random sequences of additions and size changes on HeaderIndex against a reference FIFO, compared after every operation, then every index and 25 searches. Non-trivial: a distinct operation sequence.",
            parts: vec![part("operations", 60_000, 1_500_000, c14_ops)],
            assumptions: vec![],
        },
        Prop {
            id: "C15",
            rule: "All strings of up to two octets and families of 3-5 octets, random strings to 5000 octets, mutated and end-of-string-bearing encodings, against a code tree built from RFC 7541 Appendix B. Non-trivial: a distinct source string.",
            parts: vec![part("short", 256, 256, c15_short), part("random", 150_000, 4_000_000, c15_random)],
            assumptions: vec![],
        },
    ]
}
