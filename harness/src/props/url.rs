//! C10 URL parsing, C11 URL writing, percent-coding, building, merging.
use crate::core::*;
use crate::props::http1::{gen_path, gen_port, gen_query, text};
use crate::refm::http1::percent_decode;
use crate::refm::url::{default_port, judge, Parts, Verdict};
use std::str::FromStr;
use webparse::{Scheme, Url, WebResult};

fn scheme_text(s: &Scheme) -> Option<String> {
    match s {
        Scheme::None => None,
        s => Some(s.as_str().to_ascii_lowercase()),
    }
}

pub fn parts_of(u: &Url) -> Parts {
    Parts {
        scheme: scheme_text(&u.scheme),
        username: u.username.clone(),
        password: u.password.clone(),
        domain: u.domain.clone(),
        port: u.port,
        path: u.path.clone(),
        query: u.query.clone(),
    }
}

fn parse(c: &mut Ctx, b: &[u8]) -> Option<WebResult<Url>> {
    c.call("Url::parse", &|| show(b), || Url::parse(b.to_vec()))
}

/// parses and compares with the verdict of the grammar
fn judge_one(c: &mut Ctx, b: &[u8]) -> Option<Url> {
    let v = judge(b);
    let res = parse(c, b)?;
    let d = || show(b);
    match (&v, &res) {
        (Verdict::Refuse(why), Ok(u)) => {
            c.check(false, &format!("accepted:{}", why.replace(' ', "-")), || format!("{:?} for {}", u, d()));
        }
        (Verdict::Refuse(why), Err(e)) => {
            c.count(&format!("refused: {}", why));
            c.check(!e.is_partial(), "partial", d);
        }
        (Verdict::Accept(p), Ok(u)) => {
            c.count("accepted");
            let got = parts_of(u);
            c.check(got == *p, "components", || format!("{:?} instead of {:?} for {}", got, p, d()));
        }
        (Verdict::Accept(_), Err(e)) => {
            c.check(false, "refused", || format!("{:?} for {}", e, d()));
        }
        (Verdict::Either(p), Ok(u)) => {
            c.count("accepted though odd");
            let got = parts_of(u);
            c.check(got == *p, "components-odd", || format!("{:?} instead of {:?} for {}", got, p, d()));
        }
        (_, Err(e)) => {
            c.count("refused though open");
            c.check(!e.is_partial(), "partial", d);
        }
        (Verdict::Open, Ok(_)) => c.count("accepted though open"),
    }
    // every way in gives the same
    if c.idx % 4 == 0 {
        let same = |a: &WebResult<Url>| match (a, &res) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        let a = c.call("Url::try_from(&[u8])", &d, || Url::try_from(b))?;
        c.check(same(&a), "entry", || format!("&[u8]: {:?} for {}", a, d()));
        if let Ok(s) = std::str::from_utf8(b) {
            let a = c.call("Url::try_from(&str)", &d, || Url::try_from(s))?;
            c.check(same(&a), "entry", || format!("&str: {:?} for {}", a, d()));
            let a = c.call("Url::try_from(String)", &d, || Url::try_from(s.to_string()))?;
            c.check(same(&a), "entry", || format!("String: {:?} for {}", a, d()));
            let a = c.call("Url::from_str", &d, || Url::from_str(s))?;
            c.check(same(&a), "entry", || format!("from_str: {:?} for {}", a, d()));
        }
    }
    res.ok()
}

fn esc(r: &mut Rng, s: &str, lit: &[u8], out: &mut Vec<u8>) {
    for b in s.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-._~".contains(&b) || lit.contains(&b);
        if plain && !r.chance(1, 15) {
            out.push(b);
        } else if r.bool() {
            out.extend(format!("%{:02x}", b).as_bytes());
        } else {
            out.extend(format!("%{:02X}", b).as_bytes());
        }
    }
}

const SUB: &[u8] = b"!$&'()*+,;=";

fn gen_scheme(r: &mut Rng) -> String {
    let s = match r.below(8) {
        0..=4 => r.pick(&["http", "https", "ws", "wss", "ftp"]).to_string(),
        5 => "a+b-c.9".to_string(),
        6 => {
            let n = r.range(0, 63);
            let mut s = String::from("x");
            s.push_str(&String::from_utf8(r.from_set(b"abcXYZ019+-.", n)).unwrap());
            s
        }
        _ => r.pick(&["mailto", "htt", "httpss", "w", "h", "file", "wsss", "http2"]).to_string(),
    };
    if r.chance(1, 4) {
        s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    } else {
        s
    }
}

fn gen_domain(r: &mut Rng) -> String {
    let n = r.range(1, 20);
    match r.below(8) {
        0 => "[::1]".into(),
        1 => "[2001:db8:0:1::192.0.2.1]".into(),
        2 => "127.0.0.1".into(),
        3 => text(r, n),
        4 => String::from_utf8(r.from_set(b"abcdefXYZ0123-._~!$&'()*+,;=", n)).unwrap(),
        _ => r.pick(&["example.com", "a", "WWW.Example.org", "localhost", "xn--bcher-kva.example", "b\u{fc}cher.example"]).to_string(),
    }
}

/// text of a URL together with what it must mean
fn gen_url(r: &mut Rng) -> (Vec<u8>, Parts) {
    let mut p = Parts { scheme: None, username: None, password: None, domain: None, port: Some(0), path: "/".into(), query: None };
    let mut out = vec![];
    let path = gen_path(r);
    let mut with_path = true;
    if r.chance(4, 5) {
        let s = gen_scheme(r);
        out.extend(s.as_bytes());
        out.extend(b"://");
        let s = s.to_ascii_lowercase();
        p.port = Some(default_port(Some(&s)));
        p.scheme = Some(s);
        if r.chance(1, 3) {
            let n = r.len(20);
            let u = text(r, n);
            let n = r.len(20);
            let w = text(r, n);
            esc(r, &u, SUB, &mut out);
            out.push(b':');
            esc(r, &w, SUB, &mut out);
            out.push(b'@');
            p.username = Some(u);
            p.password = Some(w);
        }
        let d = gen_domain(r);
        if d.starts_with("[") && d.ends_with("]") && d.len() > 2 && d[1..d.len() - 1].bytes().all(|b| b.is_ascii_hexdigit() || b == b':' || b == b'.') {
            out.extend(d.as_bytes());
        } else {
            esc(r, &d, SUB, &mut out);
        }
        p.domain = Some(d);
        if r.bool() {
            let port = gen_port(r);
            p.port = Some(port);
            if r.chance(1, 6) {
                out.extend(format!(":{:0w$}", port, w = r.range(1, 9)).as_bytes());
            } else {
                out.extend(format!(":{}", port).as_bytes());
            }
        }
        with_path = r.chance(4, 5);
    }
    if with_path {
        out.push(b'/');
        esc(r, &path[1..], b"/:@!$&'()*+,;=", &mut out);
        p.path = path;
    }
    p.query = gen_query(r);
    if let Some(q) = &p.query {
        out.push(b'?');
        esc(r, q, b"/?:@!$&'()*+,;=", &mut out);
    }
    (out, p)
}

// ------------------------------------------------------------------- C10
fn c10_valid(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (b, want) = gen_url(r);
    c.seen_bytes(&b);
    c.max("URL bytes", b.len() as u64);
    c.sample(|| show(&b));
    let d = || show(&b);
    let Some(res) = parse(c, &b) else { return };
    match res {
        Ok(u) => {
            let got = parts_of(&u);
            c.check(got == want, "components", || format!("{:?} instead of {:?} for {}", got, want, d()));
            let known = matches!(want.scheme.as_deref(), Some("http" | "https" | "ws" | "wss" | "ftp") | None);
            c.check(known != matches!(u.scheme, Scheme::Extension(_)), "scheme-kind", || format!("{:?} for {}", u.scheme, d()));
        }
        Err(e) => c.violation("refused", format!("{:?} for {}", e, d())),
    }
    judge_one(c, &b);
}

fn c10_broken(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (mut b, _) = gen_url(r);
    for _ in 0..r.range(1, 3) {
        let at = r.below(b.len().max(1));
        match r.below(7) {
            0 if !b.is_empty() => {
                b.remove(at);
            }
            1 => {
                b.truncate(at);
            }
            2 => {
                let x = r.u8();
                b.insert(at, x);
            }
            3 | 4 => {
                let x = *r.pick(b"/?:@[]%#0&=ahttp.\\ -+9");
                b.insert(at, x);
            }
            5 => {
                let x: &[u8] = r.pick(&[&b"%zz"[..], b"%", b"%4", b"://", b"@evil.example", b"x:y@", b":80", b"?x", b"/..", b"//", b":65536", b"[::1]", b"%2F", b"%00"]);
                b.splice(at..at, x.iter().cloned());
            }
            _ if !b.is_empty() => b[at] = *r.pick(b"/?:@[]%#1"),
            _ => {}
        }
    }
    c.seen_bytes(&b);
    judge_one(c, &b);
}

/// every string over the characters that matter, shortest first
fn c10_small(_r: &mut Rng, c: &mut Ctx, i: u64) {
    const A: &[u8] = b"ah/:?@%2[]#";
    let mut n = i;
    let mut len = 0;
    let mut base = 1u64;
    while n >= base {
        n -= base;
        base *= A.len() as u64;
        len += 1;
    }
    let mut t = vec![];
    for _ in 0..len {
        t.push(A[(n % A.len() as u64) as usize]);
        n /= A.len() as u64;
    }
    for prefix in [&b""[..], b"h://", b"http://h"] {
        let b = [prefix, &t].concat();
        c.seen_bytes(&b);
        judge_one(c, &b);
    }
}

/// nothing behind the authority can change the host
fn c10_authority(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let scheme = gen_scheme(r);
    let mut auth = vec![];
    let n = r.range(1, 12);
    match r.below(3) {
        0 => auth.extend(b"good.example"),
        1 => auth.extend(r.from_set(b"ab.@:[]#%41", n)),
        _ => auth.extend(b"u:p@good.example:81"),
    }
    let mut reference = None;
    let mut results = vec![];
    for k in 0..4 {
        let mut b = scheme.as_bytes().to_vec();
        b.extend(b"://");
        b.extend(&auth);
        if k > 0 {
            b.push(*r.pick(b"/?"));
            let n = r.len(30);
            match r.below(3) {
                0 => b.extend(r.from_set(b"ab/:?@[]%41.", n).iter().filter(|c| **c != b'%')),
                1 => b.extend(*r.pick(&[&b"@evil.example/"[..], b":99@evil.example", b"http://evil.example/", b"x:y@evil.example:82/z", b"]@[evil]", b"//evil.example"])),
                _ => b.extend(r.from_set(b"abc/", n)),
            }
        }
        let Some(res) = parse(c, &b) else { return };
        c.seen_bytes(&b);
        let key = res.ok().map(|u| (u.scheme.clone(), u.username.clone(), u.password.clone(), u.domain.clone(), u.port));
        if k == 0 {
            reference = Some(key.clone());
        }
        results.push((show(&b), key));
    }
    let reference = reference.unwrap();
    c.count(if reference.is_some() { "authority accepted" } else { "authority refused" });
    for (s, k) in &results[1..] {
        c.check(*k == reference, "authority", || format!("{} gave {:?}, {} gave {:?}", results[0].0, reference, s, k));
    }
}

// ------------------------------------------------------------------- C11
fn nonempty(r: &mut Rng) -> String {
    let n = r.range(1, 16);
    text(r, n)
}

fn gen_parts(r: &mut Rng) -> Url {
    let mut u = Url::new();
    if r.chance(4, 5) {
        u.scheme = match r.below(7) {
            0 => Scheme::Https,
            1 => Scheme::Ws,
            2 => Scheme::Wss,
            3 => Scheme::Ftp,
            4 => Scheme::Extension(format!("x{}", r.below(50))),
            _ => Scheme::Http,
        };
        u.domain = Some(match r.below(4) {
            0 => nonempty(r),
            1 => gen_domain(r),
            _ => "www.example.com".to_string(),
        });
        if r.chance(1, 3) {
            let mut part = || if r.chance(1, 5) { r.pick(&["[::1]", "[a:b.c]", "a@b", "[", "]", "%41", "a:b"]).to_string() } else { nonempty(r) };
            // at times only one of the two
            let (a, b) = (part(), part());
            let one = r.below(8);
            u.username = Some(a).filter(|_| one != 0);
            u.password = Some(b).filter(|_| one != 1);
        }
        u.port = if r.chance(1, 4) { None } else { Some(gen_port(r)) };
    }
    u.path = if r.bool() {
        gen_path(r)
    } else {
        format!("/{}", nonempty(r))
    };
    if r.bool() {
        u.query = Some(nonempty(r));
    }
    u
}

fn c11_roundtrip(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let u = gen_parts(r);
    let desc = format!("{:?}", u);
    c.seen_bytes(desc.as_bytes());
    let Some(s) = c.call("Url Display", &|| desc.clone(), || u.to_string()) else { return };
    c.sample(|| s.clone());
    let d = || format!("{} written as {:?}", desc, s);
    c.check(s.bytes().all(|b| (0x21..0x7f).contains(&b)), "written-bytes", d);
    let Some(res) = parse(c, s.as_bytes()) else { return };
    let mut want = u.clone();
    if want.port.is_none() {
        want.port = Some(default_port(scheme_text(&want.scheme).as_deref()));
    }
    if want.username.is_some() || want.password.is_some() {
        // of a name and a password the one that is not there is written as an empty one
        want.username.get_or_insert_with(String::new);
        want.password.get_or_insert_with(String::new);
    }
    match &res {
        Ok(v) => {
            c.check(*v == want, "roundtrip", || format!("{:?}; {}", v, d()));
            c.check(v.to_string() == want.to_string(), "rewrite", d);
        }
        Err(e) => c.violation("unreadable", format!("{:?}; {}", e, d())),
    }
    // the independent reader agrees on what was written
    match judge(s.as_bytes()) {
        Verdict::Accept(p) | Verdict::Either(p) => {
            c.check(p == parts_of(&want), "meaning", || format!("{:?}; {}", p, d()));
        }
        v => c.violation("unreadable", format!("{:?}; {}", v, d())),
    }
    if let Some(h) = want.domain.as_deref().filter(|h| h.parse::<std::net::IpAddr>().is_err() && h.strip_prefix('[').and_then(|h| h.strip_suffix(']')).map_or(false, |h| h.parse::<std::net::Ipv6Addr>().is_ok())) {
        // only in brackets is it an address
        c.check(s.contains(h), "address-literal", d);
        c.count("address literal");
    }
    c.check(u == *s, "eq-str", d);
    c.check(u != *format!("{}x", s), "eq-str", d);
    c.check(*s.as_str() == u && *format!("{}x", s) != u, "str-eq", d);
}

/// whatever was accepted can be written and read again
fn c11_reread(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (mut b, _) = gen_url(r);
    if r.bool() {
        let at = r.below(b.len());
        b.insert(at, *r.pick(b"/?:@[]%#\"<>\\^`{|}a"));
    }
    let Some(Ok(u)) = parse(c, &b) else { return };
    c.seen_bytes(&b);
    c.count("accepted");
    let Some(s) = c.call("Url Display", &|| show(&b), || u.to_string()) else { return };
    let odd = |s: &Option<String>| s.as_deref() == Some("");
    if odd(&u.domain) || odd(&u.query) || odd(&u.username) || odd(&u.password) {
        return;
    }
    let Some(res) = parse(c, s.as_bytes()) else { return };
    c.check(matches!(&res, Ok(v) if *v == u), "reread", || format!("{} read as {:?} written as {:?} read as {:?}", show(&b), u, s, res));
}

fn c11_percent(r: &mut Rng, c: &mut Ctx, i: u64) {
    let s = if i < 0x800 {
        format!("a{}b", char::from_u32(i as u32).unwrap_or('x'))
    } else {
        let n = r.len(60);
        text(r, n)
    };
    c.seen_bytes(s.as_bytes());
    let shown = || format!("{:?}", s);
    let Some(e) = c.call("url_encode", &shown, || Url::url_encode(&s)) else { return };
    c.check(e.bytes().all(|b| (0x21..0x7f).contains(&b)), "encoded-bytes", || format!("{:?} as {:?}", s, e));
    c.check(percent_decode(e.as_bytes()).ok().as_deref() == Some(s.as_bytes()), "encode", || format!("{:?} as {:?}", s, e));
    let Some(back) = c.call("url_decode", &shown, || Url::url_decode(&e)) else { return };
    c.check(back.as_ref().ok() == Some(&s), "percent-roundtrip", || format!("{:?} as {:?} back {:?}", s, e, back));
    // decoding of anything
    let n = r.len(20);
    let mut t: String = (0..n).map(|_| *r.pick(&['%', '4', '1', 'a', 'F', 'g', '+', ' ', 'é', '-', '%'])).collect();
    if r.chance(1, 4) {
        t = format!("{}%{}", e, r.pick(&["", "4", "g", "zz", "4g", "+4", "é", "-1", " 1"]));
    }
    let Some(got) = c.call("url_decode", &|| t.clone(), || Url::url_decode(&t)) else { return };
    match percent_decode(t.as_bytes()) {
        Err(_) => {
            c.count("malformed escapes");
            c.check(got.is_err(), "escape-accepted", || format!("{:?} decoded to {:?}", t, got));
        }
        Ok(b) => match String::from_utf8(b) {
            Ok(w) => {
                c.check(got.as_ref().ok() == Some(&w), "decode", || format!("{:?} decoded to {:?} instead of {:?}", t, got, w));
            }
            Err(_) => c.count("not text"),
        },
    }
}

fn c11_build(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let want = gen_parts(r);
    let desc = format!("{:?}", want);
    c.seen_bytes(desc.as_bytes());
    let mut order: Vec<usize> = (0..7).collect();
    r.shuffle(&mut order);
    let mut b = Url::builder();
    for k in order {
        b = match k {
            0 if want.scheme != Scheme::None => {
                let s = want.scheme.as_str();
                if r.bool() {
                    b.scheme(s)
                } else {
                    b.scheme(want.scheme.clone())
                }
            }
            1 if want.username.is_some() => b.username(want.username.clone().unwrap()),
            2 if want.password.is_some() => b.password(want.password.clone().unwrap()),
            3 if want.domain.is_some() => b.domain(want.domain.clone().unwrap()),
            4 if want.port.is_some() => b.port(want.port.unwrap()),
            5 if want.path != "/" => b.path(want.path.clone()),
            6 if want.query.is_some() => b.query(want.query.clone().unwrap()),
            _ => b,
        };
    }
    let got = b.build();
    c.check(got.as_ref().ok() == Some(&want), "build", || format!("{:?} instead of {}", got, desc));
    let long = "x".repeat(r.range(65, 90));
    c.check(Url::builder().domain("a").scheme(&*long).path("/x".into()).build().is_err(), "build-error-lost", || long.clone());
    // authority, connect address, scheme text
    let port = match (&want.scheme, want.port) {
        (Scheme::None, _) | (_, None) => None,
        (Scheme::Http, Some(80)) | (Scheme::Https, Some(443)) => None,
        (_, p) => p,
    };
    let auth = match (&want.domain, port) {
        (None, _) => String::new(),
        (Some(d), None) => d.clone(),
        (Some(d), Some(p)) => format!("{}:{}", d, p),
    };
    c.eq(&want.get_authority(), &auth, "authority", || desc.clone());
    let connect = match (&want.domain, want.port) {
        (Some(d), Some(p)) => Some(format!("{}:{}", d, p)),
        _ => None,
    };
    c.eq(&want.get_connect_url(), &connect, "connect", || desc.clone());
    c.eq(&want.get_scheme(), &want.scheme.as_str().to_string(), "scheme", || desc.clone());
}

fn c11_merge(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut a = gen_parts(r);
    let mut b = gen_parts(r);
    // components missing independently of each other
    for u in [&mut a, &mut b] {
        if r.chance(1, 3) {
            u.scheme = Scheme::None;
        }
        if r.chance(1, 3) {
            u.domain = None;
        }
        if r.chance(1, 3) {
            u.path = "/".into();
        }
        if r.chance(1, 3) {
            u.port = if r.bool() { None } else { Some(0) };
        }
        if r.bool() {
            u.username = if r.bool() { None } else { Some(nonempty(r)) };
        }
        if r.bool() {
            u.password = if r.bool() { None } else { Some(nonempty(r)) };
        }
    }
    if r.chance(1, 4) {
        b.query = a.query.clone();
        b.domain = a.domain.clone();
    }
    let want = Url {
        scheme: if b.scheme != Scheme::None { b.scheme.clone() } else { a.scheme.clone() },
        path: if b.path != "/" { b.path.clone() } else { a.path.clone() },
        username: b.username.clone().or(a.username.clone()),
        password: b.password.clone().or(a.password.clone()),
        domain: b.domain.clone().or(a.domain.clone()),
        port: match b.port {
            None | Some(0) => a.port,
            p => p,
        },
        query: b.query.clone().or(a.query.clone()),
    };
    let desc = format!("{:?} merged with {:?}", a, b);
    c.seen_bytes(desc.as_bytes());
    let mut m = a.clone();
    m.merge(b.clone());
    c.check(m == want, "merge", || format!("{:?} instead of {:?}; {}", m, want, desc));
    let mut twice = m.clone();
    twice.merge(b);
    c.check(twice == m, "merge-twice", || desc.clone());
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "parsing gives exactly the components an independent reading by the grammar gives, and refuses what the grammar refuses",
            parts: vec![
                part("valid", 500_000, 25_000_000, c10_valid),
                part("broken", 700_000, 35_000_000, c10_broken),
                part("small", 177_156, 1_948_717, c10_small),
                part("authority", 200_000, 10_000_000, c10_authority),
            ],
            assumptions: vec![
                "left open: a user without a password, a password with a literal colon, an empty port, a fragment sign, escapes that do not spell UTF-8, visible characters outside the URI set (when accepted, the components are still judged where the grammar decides them)",
            ],
        },
        Prop {
            id: "C11",
            rule: "a written URL is read back, by the library and by an independent reader, as the same components; percent-coding is lossless; building and merging keep exactly what was given",
            parts: vec![
                part("roundtrip", 400_000, 20_000_000, c11_roundtrip),
                part("reread", 200_000, 10_000_000, c11_reread),
                part("percent", 300_000, 15_000_000, c11_percent),
                part("build", 200_000, 10_000_000, c11_build),
                part("merge", 200_000, 10_000_000, c11_merge),
            ],
            assumptions: vec!["a path begins with a slash, user and password come together, a URL without scheme has no host"],
        },
    ]
}
