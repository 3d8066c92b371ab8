//! C01 request parsing, C02 response parsing, C03 truncation and buffers,
//! C04 malformed heads, C06 request encoding, C07 response encoding.
use crate::core::*;
use crate::refm::http1 as R;
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::{HeaderMap, HeaderName, HeaderValue, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version, WebError, WebResult};

pub const METHODS: [(&str, Method); 9] = [
    ("GET", Method::Get),
    ("HEAD", Method::Head),
    ("POST", Method::Post),
    ("PUT", Method::Put),
    ("DELETE", Method::Delete),
    ("CONNECT", Method::Connect),
    ("OPTIONS", Method::Options),
    ("TRACE", Method::Trace),
    ("PATCH", Method::Patch),
];
pub const VERSIONS: [(&str, Version); 4] = [
    ("HTTP/1.0", Version::Http10),
    ("HTTP/1.1", Version::Http11),
    ("HTTP/2", Version::Http2),
    ("HTTP/3", Version::Http3),
];
const NAMES: &[&str] = &[
    "accept", "Accept", "ACCEPT", "Content-Type", "content-type", "content-length", "Content-Length",
    "User-Agent", "Cookie", "Set-Cookie", "X-A", "x-b", "Connection", "Transfer-Encoding", "Upgrade",
    "Server", "Date", "ETag", "If-None-Match", "Referer", "Via", "Sec-WebSocket-Key", "X_y", "a", "!#$%&'*+-.^_`|~09",
    "Age", "Vary", "TE", "DNT", "Location", "Range", "accept-charset", "www-authenticate", "te", "host-x", "hos",
];
const VALUES: &[&str] = &[
    "", "x", "text/html", "gzip, deflate, br", "12", "0", "a:b", ": ", "a=b; c=d", "*/*;q=0.1", "\"quoted, string\"",
    "Mozilla/5.0 (X11; Linux) Gecko", "keep-alive", "chunked", "Sat, 01 Jan 2000 00:00:00 GMT", "https://h.example/p?q#f", "a  b\tc", "{\"json\": [1,2]}",
];
const PCHAR: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@";
const UNRES: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-._~";

pub type Fields = Vec<(Vec<u8>, Vec<u8>)>;

/// What a parsed request must report.
#[derive(Debug, Clone, PartialEq)]
pub struct Want {
    pub method: Method,
    pub version: Version,
    pub scheme: Scheme,
    pub username: Option<String>,
    pub password: Option<String>,
    pub domain: Option<String>,
    pub port: Option<u16>,
    pub path: String,
    pub query: Option<String>,
    pub headers: Fields,
}

#[derive(Debug, Clone)]
pub struct ReqCase {
    pub bytes: Vec<u8>,
    pub want: Want,
    /// where the target, and each header line, lies
    pub target: (usize, usize),
    pub lines: Vec<(usize, usize)>,
    pub form: u8,
}

#[derive(Debug, Clone)]
pub struct ResCase {
    pub bytes: Vec<u8>,
    pub version: Version,
    pub status: u16,
    pub headers: Fields,
    pub status_at: usize,
    pub reason: (usize, usize),
    pub lines: Vec<(usize, usize)>,
}

fn escape(out: &mut Vec<u8>, r: &mut Rng, b: u8) {
    let h = format!("%{:02X}", b);
    if r.bool() {
        out.extend(h.as_bytes());
    } else {
        out.extend(h.to_lowercase().as_bytes());
    }
}

pub fn text(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| match r.below(12) {
            0 => *r.pick(&['é', '中', '\u{1F600}', '\u{80}', '\u{7ff}', '\u{ffff}', 'ß']),
            1 => *r.pick(&['%', '?', '#', '/', '&', '=', '+', ' ', '@', ':', ';', '[', ']', '"', '<', '>', '\\', '^', '`', '{', '|', '}', '~', '\'']),
            2 => r.below(0x20) as u8 as char,
            3 => '\u{7f}',
            4 => r.range(0x20, 0x7e) as u8 as char,
            _ => *r.pick(UNRES) as char,
        })
        .collect()
}

/// writes `s` as wire characters of a path or query
fn wire(r: &mut Rng, s: &str, extra: &[u8], out: &mut Vec<u8>) {
    for b in s.bytes() {
        let lit = PCHAR.contains(&b) || extra.contains(&b);
        if lit && !r.chance(1, 12) {
            out.push(b);
        } else {
            escape(out, r, b);
        }
    }
}

pub fn gen_path(r: &mut Rng) -> String {
    let mut s = String::from("/");
    let k = r.below(4);
    for i in 0..k {
        if i > 0 {
            s.push('/');
        }
        let n = r.len(30);
        s.push_str(&match r.below(8) {
            0 => "..".to_string(),
            1 => "index.html".to_string(),
            2 => text(r, n),
            _ => String::from_utf8(r.from_set(UNRES, n)).unwrap(),
        });
    }
    s
}

pub fn gen_query(r: &mut Rng) -> Option<String> {
    if r.bool() {
        return None;
    }
    let n = r.len(40);
    Some(match r.below(5) {
        0 => String::new(),
        1 => "a=1&b=2".to_string(),
        2 => text(r, n),
        3 => format!("u=http://e.example/{}?x", r.below(100)),
        _ => String::from_utf8(r.from_set(PCHAR, n)).unwrap(),
    })
}

pub fn gen_host(r: &mut Rng) -> String {
    match r.below(7) {
        0 => "[::1]".into(),
        1 => "[2001:db8::7]".into(),
        2 => format!("{}.{}.{}.{}", r.u8(), r.u8(), r.u8(), r.u8()),
        3 => "WWW.Example.COM".into(),
        4 => {
            let n = r.len(20).max(1);
            String::from_utf8(r.from_set(UNRES, n)).unwrap()
        }
        _ => r.pick(&["localhost", "www.baidu.com", "a", "foo.example", "1.2.3.4"]).to_string(),
    }
}

pub fn gen_port(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => 80,
        1 => 443,
        2 => *r.pick(&[0, 1, 21, 65535, 65534, 8080, 10, 100]),
        _ => r.u32() as u16,
    }
}

fn port_text(r: &mut Rng, p: u16) -> String {
    if r.chance(1, 8) {
        format!("{:0w$}", p, w = r.range(1, 7))
    } else {
        p.to_string()
    }
}

fn gen_header_name(r: &mut Rng, used: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    loop {
        let n = match r.below(6) {
            0 => {
                let n = r.len(14).max(1);
                r.from_set(b"abcdefXYZ0189-_!#$%&'*+.^`|~", n)
            }
            1 => format!("X-{}", r.below(1000)).into_bytes(),
            _ => r.pick(NAMES).as_bytes().to_vec(),
        };
        if n.eq_ignore_ascii_case(b"host") || used.iter().any(|(u, _)| u.eq_ignore_ascii_case(&n)) {
            continue;
        }
        return n;
    }
}

/// a field value without whitespace at its ends
fn gen_header_value(r: &mut Rng) -> Vec<u8> {
    let v = match r.below(8) {
        0 => {
            let n = r.len(80);
            (0..n)
                .map(|_| loop {
                    let b = r.u8();
                    if b == b'\t' || (b >= 0x20 && b != 0x7f) {
                        break b;
                    }
                })
                .collect()
        }
        1 => {
            let m = if r.chance(1, 20) { 9000 } else { 60 };
            let n = r.size(m);
            (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
        }
        _ => r.pick(VALUES).as_bytes().to_vec(),
    };
    R::trim_ows(&v).to_vec()
}

fn put_field(r: &mut Rng, out: &mut Vec<u8>, name: &[u8], value: &[u8]) -> (usize, usize) {
    let start = out.len();
    out.extend(name);
    out.push(b':');
    let ows = |r: &mut Rng, out: &mut Vec<u8>| {
        let n = if r.chance(1, 6) { r.below(4) } else { 0 };
        let v = r.from_set(b" \t", n);
        out.extend(v);
    };
    if r.chance(4, 5) {
        out.push(b' ');
    }
    ows(r, out);
    out.extend(value);
    ows(r, out);
    out.extend(b"\r\n");
    (start, out.len())
}

fn gen_fields(r: &mut Rng) -> Fields {
    let mut v: Fields = vec![];
    let k = match r.below(12) {
        0 => 0,
        1 => r.range(8, 20),
        _ => r.range(1, 6),
    };
    let k = r.count(k);
    for i in 0..k {
        let n = if i < 25 { gen_header_name(r, &v) } else { format!("{}-of-many-{}", r.pick(&["X", "a", "Field"]), i).into_bytes() };
        v.push((n, gen_header_value(r)));
    }
    v
}

pub fn gen_request(r: &mut Rng) -> ReqCase {
    let mut out = vec![];
    if r.chance(1, 10) {
        let n = r.range(1, 5);
        for _ in 0..r.count(n) {
            out.extend(b"\r\n");
        }
    }
    let (mtext, mut method) = r.pick(&METHODS).clone();
    let form = match mtext {
        "CONNECT" => 2,
        "OPTIONS" if r.bool() => 3,
        _ => r.chance(1, 3) as u8,
    };
    let mut mtext = mtext;
    if form == 2 && mtext != "CONNECT" {
        mtext = "CONNECT";
        method = Method::Connect;
    }
    let (vtext, version) = *r.pick(&VERSIONS);
    let path = gen_path(r);
    let query = gen_query(r);
    let host = gen_host(r);
    let port = gen_port(r);
    let with_port = r.bool();
    out.extend(mtext.as_bytes());
    out.push(b' ');
    let t0 = out.len();
    let mut want = Want {
        method,
        version,
        scheme: Scheme::Http,
        username: None,
        password: None,
        domain: None,
        port: None,
        path: "/".into(),
        query: None,
        headers: vec![],
    };
    let origin = |r: &mut Rng, out: &mut Vec<u8>, want: &mut Want, skip: bool| {
        if !skip {
            want.path = path.clone();
            wire(r, &path[1..], b"/", {
                out.push(b'/');
                out
            });
        }
        if let Some(q) = &query {
            want.query = Some(q.clone());
            out.push(b'?');
            wire(r, q, b"/?", out);
        }
    };
    match form {
        0 => origin(r, &mut out, &mut want, false),
        1 => {
            let (stext, scheme, def) = match r.below(8) {
                0 | 1 => ("https", Scheme::Https, 443),
                2 => ("HTTP", Scheme::Http, 80),
                3 => ("ws", Scheme::Ws, 80),
                4 => ("wss", Scheme::Wss, 443),
                5 => ("ftp", Scheme::Ftp, 21),
                _ => ("http", Scheme::Http, 80),
            };
            out.extend(stext.as_bytes());
            out.extend(b"://");
            want.scheme = scheme;
            if r.chance(1, 6) {
                out.extend(b"us%20er:p%40ss@");
                want.username = Some("us er".into());
                want.password = Some("p@ss".into());
            }
            out.extend(host.as_bytes());
            want.domain = Some(host.clone());
            want.port = Some(def);
            if with_port {
                out.push(b':');
                out.extend(port_text(r, port).as_bytes());
                want.port = Some(port);
            }
            let skip = r.chance(1, 5);
            origin(r, &mut out, &mut want, skip);
        }
        2 => {
            out.extend(host.as_bytes());
            out.push(b':');
            out.extend(port_text(r, port).as_bytes());
            want.domain = Some(host.clone());
            want.port = Some(port);
            want.scheme = Scheme::None;
        }
        _ => {
            out.push(b'*');
            want.path = "*".into();
        }
    }
    let t1 = out.len();
    out.push(b' ');
    out.extend(vtext.as_bytes());
    out.extend(b"\r\n");
    let mut fields = gen_fields(r);
    if r.chance(4, 5) {
        let h = if form == 1 || form == 2 { gen_host(r) } else { host.clone() };
        let mut v = h.clone();
        let mut p = None;
        if with_port || r.chance(1, 4) {
            let port = if form == 1 || form == 2 { gen_port(r) } else { port };
            p = Some(port);
            v.push(':');
            v.push_str(&port_text(r, port));
        }
        let at = r.below(fields.len() + 1);
        let name: &[u8] = *r.pick(&[&b"Host"[..], b"host", b"HOST"]);
        fields.insert(at, (name.to_vec(), v.into_bytes()));
        if form == 0 || form == 3 {
            want.domain = Some(h);
            want.port = Some(p.unwrap_or(80));
        }
    } else if form == 3 {
        // no Host: the target names no host
        want.domain = None;
    }
    let mut lines = vec![];
    for (n, v) in &fields {
        lines.push(put_field(r, &mut out, n, v));
    }
    out.extend(b"\r\n");
    want.headers = fields;
    ReqCase { bytes: out, want, target: (t0, t1), lines, form }
}

pub fn gen_response(r: &mut Rng) -> ResCase {
    let mut out = vec![];
    if r.chance(1, 12) {
        let n = r.range(1, 5);
        for _ in 0..r.count(n) {
            out.extend(b"\r\n");
        }
    }
    let (vtext, version) = *r.pick(&VERSIONS);
    let status = if r.bool() {
        r.range(100, 999) as u16
    } else {
        *r.pick(&[100, 101, 200, 204, 206, 301, 304, 404, 418, 500, 503, 511, 599, 600, 999])
    };
    out.extend(vtext.as_bytes());
    out.push(b' ');
    let status_at = out.len();
    out.extend(status.to_string().as_bytes());
    out.push(b' ');
    let r0 = out.len();
    let reason: Vec<u8> = match r.below(8) {
        0 | 1 => vec![],
        2 => b"OK".to_vec(),
        3 => b"200 HTTP/1.1 a: b".to_vec(),
        4 => {
            let n = r.len(60);
            (0..n)
                .map(|_| loop {
                    let b = r.u8();
                    if b == b'\t' || (b >= 0x20 && b != 0x7f) {
                        break b;
                    }
                })
                .collect()
        }
        _ => {
            let n = r.len(40);
            (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
        }
    };
    out.extend(&reason);
    let r1 = out.len();
    out.extend(b"\r\n");
    let headers = gen_fields(r);
    let mut lines = vec![];
    for (n, v) in &headers {
        lines.push(put_field(r, &mut out, n, v));
    }
    out.extend(b"\r\n");
    ResCase { bytes: out, version, status, headers, status_at, reason: (r0, r1), lines }
}

pub fn fields_of(h: &HeaderMap) -> Fields {
    h.iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

fn lower(v: &Fields) -> Fields {
    v.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect()
}

/// everything a request reports, in comparable form
pub fn observe<T: Serialize>(q: &Request<T>) -> Want {
    let u = q.url();
    Want {
        method: q.method().clone(),
        version: q.version(),
        scheme: u.scheme.clone(),
        username: u.username.clone(),
        password: u.password.clone(),
        domain: u.domain.clone(),
        // without a host the port says nothing
        port: if u.domain.is_some() { u.port } else { None },
        path: u.path.clone(),
        query: u.query.clone(),
        headers: lower(&fields_of(q.headers())),
    }
}

fn want_lower(w: &Want) -> Want {
    Want { headers: lower(&w.headers), ..w.clone() }
}

/// compares field by field so that a violation names what differs
fn same_want(c: &mut Ctx, got: &Want, want: &Want, tag: &str, input: &[u8]) -> bool {
    let d = || format!("{} input {}", tag, show(input));
    let mut ok = true;
    ok &= c.eq(&got.method, &want.method, "method", d);
    ok &= c.eq(&got.version, &want.version, "version", d);
    ok &= c.eq(&got.scheme, &want.scheme, "scheme", d);
    ok &= c.eq(&got.username, &want.username, "userinfo", d);
    ok &= c.eq(&got.password, &want.password, "userinfo", d);
    ok &= c.eq(&got.domain, &want.domain, "host", d);
    ok &= c.eq(&got.port, &want.port, "port", d);
    ok &= c.eq(&got.path, &want.path, "path", d);
    ok &= c.eq(&got.query, &want.query, "query", d);
    ok &= c.check(got.headers == want.headers, "headers", || {
        let i = got.headers.iter().zip(&want.headers).position(|(a, b)| a != b).unwrap_or(got.headers.len().min(want.headers.len()));
        format!(
            "{} fields, want {}; first difference at {}: got {:?} want {:?}; {}",
            got.headers.len(),
            want.headers.len(),
            i,
            got.headers.get(i).map(|(n, v)| (show(n), show(v))),
            want.headers.get(i).map(|(n, v)| (show(n), show(v))),
            d()
        )
    });
    ok
}

fn err_name(e: &WebError) -> String {
    format!("{:?}", e)
}

/// something for an object to have parsed before
fn pollute_request(r: &mut Rng, q: &mut Request<()>) {
    let n = r.range(1, 2);
    for _ in 0..n {
        let c = gen_request(r);
        let mut b = c.bytes;
        match r.below(4) {
            0 => {
                let n = r.below(b.len());
                b.truncate(n);
            }
            1 => {
                let i = r.below(b.len());
                b[i] = r.u8();
            }
            _ => {}
        }
        let _ = guarded(|| q.parse(&b).is_ok());
    }
}

fn pollute_response(r: &mut Rng, q: &mut Response<()>) {
    let n = r.range(1, 2);
    for _ in 0..n {
        let c = gen_response(r);
        let mut b = c.bytes;
        match r.below(4) {
            0 => {
                let n = r.below(b.len());
                b.truncate(n);
            }
            1 => {
                let i = r.below(b.len());
                b[i] = r.u8();
            }
            _ => {}
        }
        let _ = guarded(|| q.parse(&b).is_ok());
    }
}

fn flip_case(r: &mut Rng, n: &[u8]) -> Vec<u8> {
    n.iter()
        .map(|b| if r.bool() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() })
        .collect()
}

// ------------------------------------------------------------------- C01
fn c01_requests(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = gen_request(r);
    let input = case.bytes.clone();
    let shown = || show(&input);
    let want = want_lower(&case.want);
    c.seen_bytes(&input);
    c.count(["form:origin", "form:absolute", "form:authority", "form:asterisk"][case.form as usize]);
    c.count(&format!("method:{}", want.method));
    c.max("head bytes", input.len() as u64);
    c.add("fields read", want.headers.len() as u64);
    c.sample(|| show(&case.bytes));
    let mut q = Request::new();
    let reused = r.chance(1, 3);
    if reused {
        c.count("parsed by a used object");
        pollute_request(r, &mut q);
    }
    let Some(res) = c.call("Request::parse", &shown, || q.parse(&input)) else { return };
    let n = match res {
        Ok(n) => n,
        Err(e) => {
            c.violation("refused", format!("{} for {}", err_name(&e), show(&input)));
            return;
        }
    };
    c.eq(&n, &input.len(), "consumed", || show(&input));
    c.check(q.is_complete() && !q.is_partial(), "complete", || show(&input));
    let got = observe(&q);
    let ok = same_want(c, &got, &want, if reused { "used object," } else { "" }, &input);
    if !ok {
        return;
    }
    c.eq(q.path(), &want.path, "path()", || show(&input));
    let host = want
        .headers
        .iter()
        .find(|(n, _)| n == b"host")
        .map(|(_, v)| String::from_utf8_lossy(v).to_string());
    c.eq(&q.get_host(), &want.domain.clone().or(host.clone()), "get_host", || show(&input));
    c.eq(&q.headers().get_host(), &host, "headers().get_host", || show(&input));
    let connect = match (&want.domain, want.port) {
        (Some(d), Some(p)) => Some(format!("{}:{}", d, p)),
        _ => None,
    };
    c.eq(&q.get_connect_url(), &connect, "get_connect_url", || show(&input));
    for (n, v) in &want.headers {
        let k = flip_case(r, n);
        let found = q.headers().get_option_value(&k).map(|v| v.as_bytes().to_vec());
        c.eq(&found.as_ref(), &Some(v), "lookup", || format!("field {} of {}", show(&k), show(&input)));
    }
    // again on the same object, and again from a buffer with more behind it
    let mut b = BinaryMut::from(&input[..]);
    let tail_n = r.size(40);
    let tail = r.bytes(tail_n);
    b.put_slice(&tail);
    let Some(res) = c.call("Request::parse_buffer", &shown, || q.parse_buffer(&mut b)) else { return };
    match res {
        Ok(n) => {
            c.eq(&n, &input.len(), "consumed", || format!("with {} bytes behind: {}", tail.len(), show(&input)));
            c.check(b.chunk() == &tail[..], "remaining", || show(&input));
            same_want(c, &observe(&q), &want, "second time,", &input);
        }
        Err(e) => c.violation("refused", format!("{} for {} with bytes behind it", err_name(&e), show(&input))),
    }
}

/// every target built from a small alphabet, exhaustively
fn c01_small_targets(_r: &mut Rng, c: &mut Ctx, i: u64) {
    const A: &[&str] = &["a", "/", "?", ":", "@", "%41", "%2F", "%3f", ".", "&"];
    let mut target = String::from("/");
    let mut path = String::from("/");
    let mut query: Option<String> = None;
    let mut n = i;
    let mut len = 0;
    let mut base = 1u64;
    while n >= base {
        n -= base;
        base *= A.len() as u64;
        len += 1;
    }
    for _ in 0..len {
        let t = A[(n % A.len() as u64) as usize];
        n /= A.len() as u64;
        target.push_str(t);
        let d = match t {
            "%41" => "A",
            "%2F" => "/",
            "%3f" => "?",
            t => t,
        };
        match (&mut query, t) {
            (None, "?") => query = Some(String::new()),
            (Some(q), _) => q.push_str(d),
            (None, _) => path.push_str(d),
        }
    }
    let head = format!("GET {} HTTP/1.1\r\nHost: h.example:8081\r\n\r\n", target);
    let mut q = Request::new();
    c.seen_bytes(target.as_bytes());
    let shown = || head.clone();
    let Some(res) = c.call("Request::parse", &shown, || q.parse(head.as_bytes())) else { return };
    if !c.check(res.is_ok(), "refused", || format!("{:?} for {}", res, head)) {
        return;
    }
    c.eq(q.path(), &path, "path", || head.clone());
    c.eq(&q.url().query, &query, "query", || head.clone());
    c.eq(&q.url().domain, &Some("h.example".to_string()), "host", || head.clone());
    c.eq(&q.url().port, &Some(8081), "port", || head.clone());
    c.eq(&res.unwrap(), &head.len(), "consumed", || head.clone());
}

/// the same name on several lines: every value has to be reported
fn repeated(c: &mut Ctx, got: &Fields, name: &[u8], values: &[Vec<u8>], input: &[u8]) {
    let mine: Vec<&Vec<u8>> = got.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v).collect();
    let joins = |sep: &[u8]| values.join(sep);
    let ok = mine == values.iter().collect::<Vec<_>>()
        || (mine.len() == 1 && [&b","[..], b", ", b";", b"; "].iter().any(|s| *mine[0] == joins(s)));
    if ok {
        c.checks += 1;
        return;
    }
    let last = mine.len() == 1 && *mine[0] == values[values.len() - 1];
    c.check(false, if last { "repeated-field-keeps-last" } else { "repeated-field" }, || {
        format!("field {} reported as {:?}; input {}", show(name), mine.iter().map(|v| show(v)).collect::<Vec<_>>(), show(input))
    });
}

fn repeated_head(r: &mut Rng, start: &str) -> (Vec<u8>, Vec<u8>, Vec<Vec<u8>>, usize) {
    let mut out = start.as_bytes().to_vec();
    let name: &[u8] = *r.pick(&[&b"Set-Cookie"[..], b"Accept", b"X-Forwarded-For", b"cookie", b"x-a"]);
    let k = r.range(2, 4);
    let mut values = vec![];
    let mut others = 0;
    for j in 0..k {
        if r.bool() {
            out.extend(format!("X-Other-{}: {}\r\n", j, j).as_bytes());
            others += 1;
        }
        let v = format!("v{}-{}", j, r.below(1000)).into_bytes();
        out.extend(flip_case(r, name));
        out.extend(b": ");
        out.extend(&v);
        out.extend(b"\r\n");
        values.push(v);
    }
    out.extend(b"\r\n");
    (out, name.to_vec(), values, others)
}

fn c01_repeated(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (head, name, values, others) = repeated_head(r, "GET / HTTP/1.1\r\nHost: a\r\n");
    let mut q = Request::new();
    let shown = || show(&head);
    let Some(res) = c.call("Request::parse", &shown, || q.parse(&head)) else { return };
    if !c.check(res.is_ok(), "refused", || format!("{:?} for {}", res, show(&head))) {
        return;
    }
    c.seen_bytes(&head);
    let got = fields_of(q.headers());
    c.eq(&got.iter().filter(|(n, _)| n.starts_with(b"X-Other")).count(), &others, "headers", || show(&head));
    repeated(c, &got, &name, &values, &head);
}

// ------------------------------------------------------------------- C02
fn check_response(c: &mut Ctx, q: &Response<()>, case: &ResCase, tag: &str) {
    let d = || format!("{} input {}", tag, show(&case.bytes));
    c.eq(&q.version(), &case.version, "version", d);
    c.eq(&q.status().as_u16(), &case.status, "status", d);
    c.check(!q.is_partial(), "complete", d);
    let got = lower(&fields_of(q.headers()));
    let want = lower(&case.headers);
    c.check(got == want, "headers", || {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        format!(
            "{} fields, want {}; first difference at {}: got {:?} want {:?}; {}",
            got.len(),
            want.len(),
            i,
            got.get(i).map(|(n, v)| (show(n), show(v))),
            want.get(i).map(|(n, v)| (show(n), show(v))),
            d()
        )
    });
}

fn c02_responses(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = gen_response(r);
    let shown = || show(&case.bytes);
    c.seen_bytes(&case.bytes);
    c.seen(mix(case.status as u64));
    c.add("fields read", case.headers.len() as u64);
    c.max("head bytes", case.bytes.len() as u64);
    c.sample(|| show(&case.bytes));
    if case.reason.0 == case.reason.1 {
        c.count("empty reason");
    }
    let mut q: Response<()> = Response::default();
    let reused = r.chance(1, 3);
    if reused {
        c.count("parsed by a used object");
        pollute_response(r, &mut q);
    }
    let Some(res) = c.call("Response::parse", &shown, || q.parse(&case.bytes)) else { return };
    match res {
        Ok(n) => {
            c.eq(&n, &case.bytes.len(), "consumed", || shown());
            check_response(c, &q, &case, if reused { "used object," } else { "" });
        }
        Err(e) => {
            c.violation("refused", format!("{} for {}", err_name(&e), shown()));
            return;
        }
    }
    for (n, v) in &case.headers {
        let k = flip_case(r, n);
        let found = q.headers().get_option_value(&k).map(|v| v.as_bytes().to_vec());
        c.eq(&found.as_ref(), &Some(v), "lookup", || format!("field {} of {}", show(&k), shown()));
    }
    let tail_n = r.size(40);
    let tail = r.bytes(tail_n);
    let mut b = BinaryMut::from(&case.bytes[..]);
    b.put_slice(&tail);
    let Some(res) = c.call("Response::parse_buffer", &shown, || q.parse_buffer(&mut b)) else { return };
    match res {
        Ok(n) => {
            c.eq(&n, &case.bytes.len(), "consumed", || format!("with bytes behind: {}", shown()));
            c.check(b.chunk() == &tail[..], "remaining", || shown());
            check_response(c, &q, &case, "second time,");
        }
        Err(e) => c.violation("refused", format!("{} for {} with bytes behind it", err_name(&e), shown())),
    }
}

/// every status from 100 to 999 with every version
fn c02_status(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let status = 100 + (i % 900) as u16;
    let (vtext, version) = VERSIONS[(i / 900 % 4) as usize];
    let reason = ["", "Any Reason", "x"][(i % 3) as usize];
    let head = format!("{} {} {}\r\n\r\n", vtext, status, reason);
    let mut q: Response<()> = Response::default();
    let shown = || head.clone();
    let Some(res) = c.call("Response::parse", &shown, || q.parse(head.as_bytes())) else { return };
    c.seen_bytes(head.as_bytes());
    if c.check(res.is_ok(), "refused", || format!("{:?} for {}", res, head)) {
        c.eq(&q.status().as_u16(), &status, "status", || head.clone());
        c.eq(&q.version(), &version, "version", || head.clone());
        c.eq(&q.headers().len(), &0, "headers", || head.clone());
        c.eq(&res.unwrap(), &head.len(), "consumed", || head.clone());
    }
}

fn c02_repeated(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (head, name, values, others) = repeated_head(r, "HTTP/1.1 200 OK\r\n");
    let mut q: Response<()> = Response::default();
    let shown = || show(&head);
    let Some(res) = c.call("Response::parse", &shown, || q.parse(&head)) else { return };
    if !c.check(res.is_ok(), "refused", || format!("{:?} for {}", res, show(&head))) {
        return;
    }
    c.seen_bytes(&head);
    let got = fields_of(q.headers());
    c.eq(&got.iter().filter(|(n, _)| n.starts_with(b"X-Other")).count(), &others, "headers", || show(&head));
    repeated(c, &got, &name, &values, &head);
}

// ------------------------------------------------------------------- C03
fn short_request(r: &mut Rng) -> ReqCase {
    loop {
        let c = gen_request(r);
        if c.bytes.len() < 700 {
            return c;
        }
    }
}
fn short_response(r: &mut Rng) -> ResCase {
    loop {
        let c = gen_response(r);
        if c.bytes.len() < 700 {
            return c;
        }
    }
}

fn partial_check(c: &mut Ctx, what: &str, res: Option<WebResult<usize>>, partial: bool, input: &[u8], n: usize) {
    let Some(res) = res else { return };
    let d = |s: String| format!("{} {} of {} bytes of {}", s, n, input.len(), show(input));
    match res {
        Ok(k) => {
            c.check(false, "prefix-accepted", || d(format!("{} consumed {} from", what, k)));
        }
        Err(e) => {
            c.check(e.is_partial(), "prefix-malformed", || d(format!("{} {}", what, err_name(&e))));
        }
    }
    c.check(partial, "prefix-complete", || d(format!("{} reports complete after", what)));
}

fn c03_request_prefixes(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = short_request(r);
    let input = &case.bytes;
    let want = want_lower(&case.want);
    let mut q = Request::new();
    if r.bool() {
        pollute_request(r, &mut q);
    }
    c.seen_bytes(input);
    c.count(["form:origin", "form:absolute", "form:authority", "form:asterisk"][case.form as usize]);
    for n in 0..input.len() {
        let shown = || show(&input[..n]);
        let res = match n % 3 {
            0 => c.call("Request::parse", &shown, || q.parse(&input[..n])),
            1 => {
                let mut b = BinaryMut::from(&input[..n]);
                c.call("Request::parse_buffer", &shown, || q.parse_buffer(&mut b))
            }
            _ => {
                let mut b = &input[..n];
                c.call("Request::parse_buffer", &shown, || q.parse_buffer(&mut b))
            }
        };
        partial_check(c, "request", res, q.is_partial() && !q.is_complete(), input, n);
        c.count("prefixes tried");
        if c.viols.len() > 3 {
            return;
        }
    }
    let shown = || show(input);
    if let Some(res) = c.call("Request::parse", &shown, || q.parse(input)) {
        if c.check(matches!(res, Ok(n) if n == input.len()), "completed", || format!("{:?} for {}", res, show(input))) {
            same_want(c, &observe(&q), &want, "completed,", input);
        }
    }
}

fn c03_response_prefixes(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = short_response(r);
    let input = &case.bytes;
    let mut q: Response<()> = Response::default();
    if r.bool() {
        pollute_response(r, &mut q);
    }
    c.seen_bytes(input);
    for n in 0..input.len() {
        let shown = || show(&input[..n]);
        let res = match n % 3 {
            0 => c.call("Response::parse", &shown, || q.parse(&input[..n])),
            1 => {
                let mut b = Binary::from(input[..n].to_vec());
                c.call("Response::parse_buffer", &shown, || q.parse_buffer(&mut b))
            }
            _ => {
                let mut b = &input[..n];
                c.call("Response::parse_buffer", &shown, || q.parse_buffer(&mut b))
            }
        };
        partial_check(c, "response", res, q.is_partial(), input, n);
        c.count("prefixes tried");
        if c.viols.len() > 3 {
            return;
        }
    }
    let shown = || show(input);
    if let Some(res) = c.call("Response::parse", &shown, || q.parse(input)) {
        if c.check(matches!(res, Ok(n) if n == input.len()), "completed", || format!("{:?} for {}", res, show(input))) {
            check_response(c, &q, &case, "completed,");
        }
    }
}

fn pipeline_requests<B: Bt>(c: &mut Ctx, kind: &str, mut b: B, cases: &[ReqCase], tail: &[u8], fresh: bool) {
    let mut q = Request::new();
    for (k, case) in cases.iter().enumerate() {
        if fresh {
            q = Request::new();
        }
        let before = b.remaining();
        let shown = || format!("{} message {}: {}", kind, k, show(&case.bytes));
        let Some(res) = c.call("Request::parse_buffer", &shown, || q.parse_buffer(&mut b)) else { return };
        let ok = c.check(matches!(res, Ok(n) if n == case.bytes.len()), "pipelined", || format!("{:?} for {}", res, shown()));
        if !ok {
            return;
        }
        c.eq(&(before - b.remaining()), &case.bytes.len(), "pipelined-consumed", || shown());
        same_want(c, &observe(&q), &want_lower(&case.want), &format!("pipelined in {}, message {},", kind, k), &case.bytes);
        c.count(&format!("pipelined from {}", kind));
    }
    c.check(b.chunk() == tail, "pipelined-rest", || format!("{} left {}", kind, show(b.chunk())));
}

fn pipeline_responses<B: Bt>(c: &mut Ctx, kind: &str, mut b: B, cases: &[ResCase], tail: &[u8]) {
    let mut q: Response<()> = Response::default();
    for (k, case) in cases.iter().enumerate() {
        let before = b.remaining();
        let shown = || format!("{} message {}: {}", kind, k, show(&case.bytes));
        let Some(res) = c.call("Response::parse_buffer", &shown, || q.parse_buffer(&mut b)) else { return };
        if !c.check(matches!(res, Ok(n) if n == case.bytes.len()), "pipelined", || format!("{:?} for {}", res, shown())) {
            return;
        }
        c.eq(&(before - b.remaining()), &case.bytes.len(), "pipelined-consumed", || shown());
        check_response(c, &q, case, &format!("pipelined in {}, message {},", kind, k));
        c.count(&format!("pipelined from {}", kind));
    }
    c.check(b.chunk() == tail, "pipelined-rest", || format!("{} left {}", kind, show(b.chunk())));
}

fn c03_pipelines(r: &mut Rng, c: &mut Ctx, i: u64) {
    let k = r.range(2, 6);
    let k = r.count(k);
    let tn = r.size(60);
    let tail = if r.bool() { r.bytes(tn) } else { b"GET /next HT".to_vec() };
    let fresh = r.bool();
    let mut all = vec![];
    if i % 2 == 0 {
        let cases: Vec<ReqCase> = (0..k).map(|_| gen_request(r)).collect();
        for x in &cases {
            all.extend(&x.bytes);
        }
        c.seen_bytes(&all);
        all.extend(&tail);
        match i / 2 % 6 {
            0 => pipeline_requests(c, "BinaryMut", BinaryMut::from(all), &cases, &tail, fresh),
            1 => pipeline_requests(c, "Binary", Binary::from(all), &cases, &tail, fresh),
            2 => pipeline_requests(c, "&[u8]", &all[..], &cases, &tail, fresh),
            3 => pipeline_requests(c, "counting buffer", CountBt::new(all), &cases, &tail, fresh),
            4 => {
                let mut b = BinaryMut::with_capacity(8);
                for ch in all.chunks(7) {
                    b.put_slice(ch);
                }
                pipeline_requests(c, "grown BinaryMut", b, &cases, &tail, fresh)
            }
            _ => {
                // some consumed in front already
                let mut v = b"consumed before".to_vec();
                let n = v.len();
                v.extend(&all);
                let mut b = Binary::from(v);
                b.advance(n);
                pipeline_requests(c, "advanced Binary", b, &cases, &tail, fresh)
            }
        }
    } else {
        let cases: Vec<ResCase> = (0..k).map(|_| gen_response(r)).collect();
        for x in &cases {
            all.extend(&x.bytes);
        }
        c.seen_bytes(&all);
        all.extend(&tail);
        match i / 2 % 4 {
            0 => pipeline_responses(c, "BinaryMut", BinaryMut::from(all), &cases, &tail),
            1 => pipeline_responses(c, "Binary", Binary::from(all), &cases, &tail),
            2 => pipeline_responses(c, "&[u8]", &all[..], &cases, &tail),
            _ => pipeline_responses(c, "counting buffer", CountBt::new(all), &cases, &tail),
        }
    }
}

/// arbitrary bytes, well-formed or not: the result must not depend on the
/// buffer, nor a complete head on what follows, nor may a prefix of an
/// accepted head be called malformed
fn c03_any_bytes(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut b = if i % 2 == 0 { short_request(r).bytes } else { short_response(r).bytes };
    for _ in 0..r.below(3) {
        let at = r.below(b.len());
        match r.below(4) {
            0 => {
                b.remove(at);
            }
            1 => {
                let x = r.u8();
                b.insert(at, x)
            }
            2 => b.insert(at, *r.pick(b"\r\n :\t/?%[]@\0\x7f\xff")),
            _ => b[at] = r.u8(),
        }
        if b.is_empty() {
            b.push(b'\n');
        }
    }
    if r.chance(1, 3) {
        // bare line feeds are tolerated: keep the tolerance consistent
        let s: Vec<u8> = b.clone();
        b.clear();
        let mut k = 0;
        while k < s.len() {
            if s[k] == b'\r' && s.get(k + 1) == Some(&b'\n') && r.bool() {
                k += 1;
            }
            b.push(s[k]);
            k += 1;
        }
    }
    c.seen_bytes(&b);
    let shown = || show(&b);
    fn kind<T>(r: &WebResult<T>) -> u8 {
        match r {
            Ok(_) => 0,
            Err(e) if e.is_partial() => 1,
            Err(_) => 2,
        }
    }
    macro_rules! all_ways {
        ($mk:expr, $what:expr, $obs:expr) => {{
            let mut results = vec![];
            for way in 0..4 {
                let mut q = $mk;
                let res = match way {
                    0 => c.call($what, &shown, || q.parse(&b)),
                    1 => {
                        let mut x = Binary::from(b.clone());
                        c.call($what, &shown, || q.parse_buffer(&mut x))
                    }
                    2 => {
                        let mut x = &b[..];
                        c.call($what, &shown, || q.parse_buffer(&mut x))
                    }
                    _ => {
                        let mut x = CountBt::new(b.clone());
                        c.call($what, &shown, || q.parse_buffer(&mut x))
                    }
                };
                let Some(res) = res else { return };
                results.push((kind(&res), res.ok(), $obs(&q)));
            }
            for w in 1..4 {
                let same = results[w].0 == results[0].0 && results[w].1 == results[0].1 && (results[0].0 != 0 || results[w].2 == results[0].2);
                c.check(same, "buffer-kind", || format!("way {}: {:?}, parse(): {:?}; {}", w, results[w], results[0], shown()));
            }
            if let Some(n) = results[0].1 {
                c.count("accepted");
                // what follows does not matter
                let mut longer = b[..n].to_vec();
                let k = r.size(20);
                longer.extend(r.bytes(k));
                let mut q = $mk;
                if let Some(res) = c.call($what, &shown, || q.parse(&longer)) {
                    c.check(res.as_ref().ok() == Some(&n) && $obs(&q) == results[0].2, "what-follows", || format!("{:?}, alone {}; {}", res, n, show(&longer)));
                }
                // and every strict prefix is partial
                for m in 0..n {
                    let mut q = $mk;
                    let res = c.call($what, &shown, || q.parse(&b[..m]));
                    partial_check(c, $what, res, q.is_partial(), &b[..n], m);
                    if c.viols.len() > 3 {
                        return;
                    }
                }
            } else {
                c.count(["", "partial", "refused"][results[0].0 as usize]);
            }
        }};
    }
    if i % 2 == 0 {
        all_ways!(Request::new(), "Request::parse", |q: &Request<()>| observe(q));
    } else {
        all_ways!(Response::<()>::default(), "Response::parse", |q: &Response<()>| (q.status().as_u16(), q.version(), fields_of(q.headers())));
    }
}

// ------------------------------------------------------------------- C04
fn replace(b: &[u8], at: (usize, usize), with: &[u8]) -> Vec<u8> {
    let mut v = b[..at.0].to_vec();
    v.extend(with);
    v.extend(&b[at.1..]);
    v
}

/// first line starts after leading empty lines
fn line_start(b: &[u8]) -> usize {
    b.iter().position(|x| *x != b'\r' && *x != b'\n').unwrap_or(0)
}

fn bad_name_byte(r: &mut Rng) -> u8 {
    loop {
        let b = r.u8();
        if !R::is_tchar(b) && b != b':' && b != b' ' && b != b'\n' {
            return b;
        }
    }
}

/// breaks one header line (or adds a broken one)
fn break_header(r: &mut Rng, b: &[u8], lines: &[(usize, usize)]) -> (Vec<u8>, &'static str) {
    let end = b.len() - 2;
    let at = if lines.is_empty() { (end, end) } else { *r.pick(lines) };
    let val = gen_header_value(r);
    let cut = r.below(val.len() + 1);
    let mut l: Vec<u8> = vec![];
    let what = match r.below(10) {
        0 => {
            // illegal byte in the name
            let n = r.range(0, 6);
            l.extend(r.from_set(b"abcXYZ-09", n));
            l.push(bad_name_byte(r));
            let n = r.below(4);
            l.extend(r.from_set(b"abc", n));
            l.extend(b": ");
            l.extend(&val);
            l.extend(b"\r\n");
            "header name byte"
        }
        1 => {
            l.extend(b": ");
            l.extend(&val);
            l.extend(b"\r\n");
            "empty header name"
        }
        2 => {
            l.extend(b"Na me: ");
            l.extend(&val);
            l.extend(b"\r\n");
            "space inside header name"
        }
        3 => {
            l.extend(b"X-Nul: ");
            l.extend(&val[..cut]);
            l.push(0);
            l.extend(&val[cut..]);
            l.extend(b"\r\n");
            "NUL in header value"
        }
        4 => {
            l.extend(b"X-Cr: ");
            l.extend(&val[..cut]);
            l.push(b'\r');
            let x = loop {
                let x = r.u8();
                if x != b'\n' {
                    break x;
                }
            };
            l.push(x);
            l.extend(&val[cut..]);
            l.extend(b"\r\n");
            "bare CR in header value"
        }
        5 => {
            l.extend(b"X-No-Colon\r\n");
            "missing colon"
        }
        6 => {
            l.extend(b"X-No-Colon value without\r\n");
            "missing colon"
        }
        7 => {
            l.push(*r.pick(b" \t"));
            l.extend(b"folded value\r\n");
            "line folding"
        }
        8 => {
            l.extend(b"X-Tab\t: v\r\n");
            "tab before colon"
        }
        _ => {
            l.extend(b"X-Ctl\x01Name: v\r\n");
            "control in header name"
        }
    };
    let whole = r.bool();
    (replace(b, if whole { at } else { (at.0, at.0) }, &l), what)
}

fn refuse_check(r: &mut Rng, c: &mut Ctx, what: &str, bad: &[u8], is_req: bool) {
    c.seen_bytes(bad);
    c.count(&format!("broken: {}", what));
    let mut v = bad.to_vec();
    if r.bool() {
        match r.below(3) {
            0 => {
                let n = r.size(100);
                v.extend(r.bytes(n));
            }
            1 => v.extend(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"),
            _ => v.extend(b"\r\n\r\n\r\n"),
        }
    }
    let shown = || show(&v);
    let (res, complete) = if is_req {
        let mut q = Request::new();
        if r.bool() {
            let _ = guarded(|| q.parse(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n").is_ok());
        }
        let res = if r.bool() {
            c.call("Request::parse", &shown, || q.parse(&v))
        } else {
            let mut b = BinaryMut::from(&v[..]);
            c.call("Request::parse_buffer", &shown, || q.parse_buffer(&mut b))
        };
        (res, q.is_complete() || !q.is_partial())
    } else {
        let mut q: Response<()> = Response::default();
        let res = if r.bool() {
            c.call("Response::parse", &shown, || q.parse(&v))
        } else {
            let mut b = BinaryMut::from(&v[..]);
            c.call("Response::parse_buffer", &shown, || q.parse_buffer(&mut b))
        };
        (res, !q.is_partial())
    };
    let Some(res) = res else { return };
    match res {
        Ok(n) => {
            c.check(false, &format!("accepted:{}", what.replace(' ', "-")), || format!("consumed {} of {}", n, shown()));
        }
        Err(e) => {
            c.check(!e.is_partial(), &format!("partial:{}", what.replace(' ', "-")), || shown());
            c.check(!complete, "complete-after-refusal", || format!("{}: {}", what, shown()));
        }
    }
}

fn c04_requests(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = gen_request(r);
    let b = &case.bytes;
    let t = case.target;
    let s = line_start(b);
    let sp1 = (t.0 - 1, t.0);
    let sp2 = (t.1, t.1 + 1);
    let eol = t.1 + b[t.1..].iter().position(|x| *x == b'\r').unwrap();
    let version = (t.1 + 1, eol);
    let (bad, what): (Vec<u8>, &str) = match r.below(24) {
        0 => {
            let m: Vec<u8> = match r.below(5) {
                0 => b[s..t.0 - 1].to_ascii_lowercase(),
                1 => b[s..t.0 - 2].to_vec(),
                2 => [&b[s..t.0 - 1], b"S"].concat(),
                3 => b"PROPFIND".to_vec(),
                _ => {
                    let n = r.range(1, 9);
                    let mut m = r.from_set(b"ABCDEGHILNOPRSTUV", n);
                    m.push(b'Z');
                    m
                }
            };
            (replace(b, (s, t.0 - 1), &m), "unknown method")
        }
        1 => {
            let mut m = b[s..t.0 - 1].to_vec();
            let at = r.below(m.len());
            m[at] = *r.pick(&[0u8, 1, 9, 0x1f, 0x7f, 0x80, 0xc3, 0xff]);
            (replace(b, (s, t.0 - 1), &m), "illegal byte in the method")
        }
        2 => (replace(b, (s, t.0 - 1), b""), "missing method"),
        3 => {
            let v: &[u8] = *r.pick(&[&b"HTTP/1.2"[..], b"http/1.1", b"HTTP/1.1x", b"HTTP/1", b"HTTP/11", b"HTTP/1.11", b"XHTTP/1.1", b"HTTP1.1", b"HTTPS/1.1", b"HTTP/9", b"HTTP/0.9", b"HTTP/1.1,", b"HTTP/2x", b"HTTP/4", b"1.1"]);
            (replace(b, version, v), "unknown version")
        }
        4 => (replace(b, (t.1, eol), if r.bool() { b" " } else { b"" }), "missing version"),
        5 => {
            // an illegal byte somewhere in the target
            let x = *r.pick(&[0u8, 1, 7, 9, 0x0b, 0x1f, 0x7f, 0x80, 0x81, 0xa0, 0xc3, 0xe4, 0xff]);
            let at = r.range(t.0, t.1);
            (replace(b, (at, at), &[x]), "illegal byte in the target")
        }
        6 => {
            let at = r.range(t.0 + 1, t.1);
            (replace(b, (at, at), b" x"), "space in the target")
        }
        7 if case.form < 2 => {
            let e: &[u8] = *r.pick(&[&b"%zz"[..], b"%4", b"%", b"%g0", b"%0g", b"%%41", b"%-1", b"%+1", b"% 1"]);
            let e = if e.contains(&b' ') { b"%" } else { e };
            // at the end, so that it cannot be completed by what follows
            (replace(b, (t.1, t.1), e), "bad escape in the target")
        }
        8 if case.form < 2 => {
            let x: &[u8] = *r.pick(&[&b"abc"[..], b"*", b"?x=1", b"host:80", b"http", b"http:", b"http:/h/", b"http//h/", b":80/", b"@/", b"1/", b"//"]);
            let x = if x == b"//" { &b"a/b"[..] } else { x };
            let m: &[u8] = *r.pick(&[&b"GET"[..], b"POST", b"DELETE"]);
            let v = replace(b, t, x);
            (replace(&v, (s, t.0 - 1), m), "target of no known form")
        }
        9 if case.form == 1 => {
            let x: &[u8] = *r.pick(&[&b"http://h:65536/"[..], b"http://h:99999/", b"http://h:8x/", b"http://h:80:80/", b"http://h:-1/", b"http://h:+80/", b"https://h:18446744073709551617/", b"http://h:0x50/"]);
            (replace(b, t, x), "bad port in the target")
        }
        10 if case.form == 2 => {
            let x: &[u8] = *r.pick(&[&b"h:65536"[..], b"h:x", b"h:80:80", b"h:-1", b"h:+1", b"[::1]x", b"[::1]:x", b"[::1]:65536", b"h:99999999999999999999999999"]);
            (replace(b, t, x), "bad port in the CONNECT target")
        }
        11 | 12 if case.form == 0 || case.form == 3 => {
            let x: &[u8] = *r.pick(&[&b"h:65536"[..], b"h:x", b"h:80:80", b"h:-1", b"h:+80", b"h:8 0", b"[::1]x", b"[::1]80", b"[::1]:x", b"h:99999999999999999999999999", b"h:80a", b"h: 80"]);
            let mut fields: Fields = case.want.headers.iter().filter(|(n, _)| !n.eq_ignore_ascii_case(b"host")).cloned().collect();
            let at = r.below(fields.len() + 1);
            fields.insert(at, (b"Host".to_vec(), x.to_vec()));
            let mut v = b[..eol + 2].to_vec();
            for (n, x) in &fields {
                put_field(r, &mut v, n, x);
            }
            v.extend(b"\r\n");
            (v, "invalid port in Host")
        }
        13 => {
            let x = loop {
                let x = r.u8();
                if x != b'\n' {
                    break x;
                }
            };
            (replace(b, (eol + 1, eol + 2), &[x]), "CR without LF after the version")
        }
        14 => {
            let x = loop {
                let x = r.u8();
                if x != b'\n' {
                    break x;
                }
            };
            let n = b.len();
            (replace(b, (n - 1, n), &[x]), "CR without LF at the end of the head")
        }
        15 => (replace(b, sp1, b"\t"), "no space after the method"),
        16 => (replace(b, sp2, b"\t"), "no space after the target"),
        17 => (replace(b, (s, s), b"\rX"), "CR without LF before the request"),
        _ => break_header(r, b, &case.lines),
    };
    // the change may have produced a tolerated or still valid head
    if what == "unknown method" && METHODS.iter().any(|(m, _)| bad[s..].starts_with(m.as_bytes()) && bad[s + m.len()] == b' ') {
        return;
    }
    refuse_check(r, c, what, &bad, true);
}

fn c04_responses(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let case = gen_response(r);
    let b = &case.bytes;
    let s = line_start(b);
    let st = (case.status_at, case.status_at + 3);
    let eol = case.reason.1;
    let (bad, what): (Vec<u8>, &str) = match r.below(16) {
        0 => {
            let v: &[u8] = *r.pick(&[&b"HTTP/1.2"[..], b"http/1.1", b"HTTP/1.1x", b"HTTP/1", b"ICY", b"HTTP", b"HTTP/0.9", b"HTTPS/1.1", b"1.1", b"HTTP/11", b"HTTP/4"]);
            (replace(b, (s, st.0 - 1), v), "unknown version")
        }
        1 | 2 | 3 => {
            let x: Vec<u8> = match r.below(8) {
                0 => r.range(0, 99).to_string().into_bytes(),
                1 => format!("{:03}", r.below(100)).into_bytes(),
                2 => r.range(1000, 99999).to_string().into_bytes(),
                3 => {
                    let mut x = case.status.to_string().into_bytes();
                    let at = r.below(3);
                    x[at] = loop {
                        let y = r.range(0x21, 0x7e) as u8;
                        if !y.is_ascii_digit() {
                            break y;
                        }
                    };
                    x
                }
                4 => b"0x1".to_vec(),
                5 => b"+20".to_vec(),
                6 => b"2e2".to_vec(),
                _ => b"-20".to_vec(),
            };
            (replace(b, st, &x), "invalid status")
        }
        4 => {
            let mut x = case.status.to_string().into_bytes();
            let at = r.below(3);
            x[at] = *r.pick(&[0u8, 9, 0x7f, 0x80, 0xb2, 0xff, 0x1f]);
            (replace(b, st, &x), "illegal byte in the status")
        }
        5 => (replace(b, (st.0, eol), b""), "missing status"),
        6 | 7 => {
            let x = *r.pick(&[0u8, 1, 7, 8, 0x0b, 0x0c, 0x1b, 0x1f, 0x7f]);
            let at = r.range(case.reason.0, eol);
            (replace(b, (at, at), &[x]), "control in the reason")
        }
        8 => {
            let x = loop {
                let x = r.u8();
                if x != b'\n' {
                    break x;
                }
            };
            (replace(b, (eol + 1, eol + 2), &[x]), "CR without LF after the reason")
        }
        9 => {
            let x = loop {
                let x = r.u8();
                if x != b'\n' {
                    break x;
                }
            };
            let n = b.len();
            (replace(b, (n - 1, n), &[x]), "CR without LF at the end of the head")
        }
        10 => (replace(b, (st.0 - 1, st.0), b"\t"), "no space after the version"),
        11 => (replace(b, (st.0 - 1, st.0), b""), "no space after the version"),
        _ => break_header(r, b, &case.lines),
    };
    refuse_check(r, c, what, &bad, false);
}

/// every byte at every position of a small head, judged by the grammar
fn c04_every_byte(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let x = (i % 256) as u8;
    let k = i / 256;
    // position, head, which bytes are legal there
    let heads: [(&[u8], usize, fn(u8) -> bool, &str); 8] = [
        (b"GET /a?b HTTP/1.1\r\nHost: h\r\n\r\n", 5, |b| (0x21..0x7f).contains(&b) && b != b'%', "path byte"),
        (b"GET /a?b HTTP/1.1\r\nHost: h\r\n\r\n", 7, |b| (0x21..0x7f).contains(&b) && b != b'%', "query byte"),
        (b"GET / HTTP/1.1\r\nXaY: h\r\n\r\n", 17, |b| R::is_tchar(b) || b == b':', "header name byte"),
        (b"GET / HTTP/1.1\r\nXY: hah\r\n\r\n", 21, |b| b != 0 && b != b'\r' && b != b'\n', "header value byte"),
        (b"GET / HTTP/1.1\r\nXY: hah\r\n\r\n", 14, |b| b == b'\r', "line end byte"),
        (b"HTTP/1.1 200 OKOK\r\nXY: hah\r\n\r\n", 15, |b| b == 9 || (b >= 0x20 && b != 0x7f) || b == b'\n', "reason byte"),
        (b"HTTP/1.1 200 OK\r\nXaY: hah\r\n\r\n", 18, |b| R::is_tchar(b) || b == b':', "header name byte"),
        (b"HTTP/1.1 200 OK\r\nXY: hah\r\n\r\n", 22, |b| b != 0 && b != b'\r' && b != b'\n', "header value byte"),
    ];
    let (head, at, legal, what) = heads[(k % 8) as usize];
    let mut v = head.to_vec();
    v[at] = x;
    let req = v.starts_with(b"GET");
    // a space splits, a bare line feed ends a line by tolerance: judged elsewhere
    if x == b' ' || x == b'\n' {
        return;
    }
    c.seen_bytes(&v);
    c.count(what);
    let shown = || show(&v);
    let res = if req {
        let mut q = Request::new();
        c.call("Request::parse", &shown, || q.parse(&v))
    } else {
        let mut q: Response<()> = Response::default();
        c.call("Response::parse", &shown, || q.parse(&v))
    };
    let Some(res) = res else { return };
    if legal(x) {
        // visible characters outside the URI set may be refused or not
        let must = if what == "path byte" || what == "query byte" { PCHAR.contains(&x) || b"/?".contains(&x) } else { x >= 0x20 || x == 9 || x == b'\r' };
        if must {
            c.check(matches!(res, Ok(n) if n == v.len()), &format!("refused:{}", what.replace(' ', "-")), || format!("{:?} for {}", res, show(&v)));
        }
    } else {
        c.check(matches!(&res, Err(e) if !e.is_partial()), &format!("accepted:{}", what.replace(' ', "-")), || format!("{:?} for {}", res, show(&v)));
    }
}

// ------------------------------------------------------------------- C06
#[derive(Debug)]
enum Body {
    Unit,
    Static(&'static str),
    Text(String),
    Vec(Vec<u8>),
    Bin(Vec<u8>),
    BinMut(Vec<u8>),
}

fn gen_body(r: &mut Rng) -> (Body, Vec<u8>) {
    let n = r.len(300);
    let b = r.bytes(n);
    match r.below(6) {
        0 => (Body::Unit, vec![]),
        1 => (Body::Static("static body\r\n\r\nGET / HTTP/1.1\r\n"), b"static body\r\n\r\nGET / HTTP/1.1\r\n".to_vec()),
        2 => {
            let t = text(r, n.min(80));
            (Body::Text(t.clone()), t.into_bytes())
        }
        3 => (Body::Vec(b.clone()), b),
        4 => (Body::Bin(b.clone()), b),
        _ => (Body::BinMut(b.clone()), b),
    }
}

fn utf8_value(r: &mut Rng) -> Vec<u8> {
    loop {
        let v = gen_header_value(r);
        if std::str::from_utf8(&v).is_ok() {
            return v;
        }
    }
}

struct Built {
    method: Method,
    version: Version,
    path: String,
    query: Option<String>,
    domain: Option<String>,
    port: Option<u16>,
    headers: Fields,
    target: Option<String>,
}

const STATIC_FIELDS: &[(&str, &str)] = &[("X-Static", "static value"), ("Accept", "*/*"), ("content-type", "text/plain"), ("TE", "")];

fn add_header(b: webparse::http::request::Builder, r: &mut Rng, n: &[u8], v: &[u8]) -> webparse::http::request::Builder {
    let name = String::from_utf8(n.to_vec()).unwrap();
    match (std::str::from_utf8(v), r.below(3)) {
        (Ok(s), 0) => b.header(name, s.to_string()),
        (_, 1) => b.header(HeaderName::from_bytes(n).unwrap(), HeaderValue::from_bytes(v)),
        _ => b.header(name, HeaderValue::Value(v.to_vec())),
    }
}

/// what a later value for a name that is already there does
fn set_field(l: &mut Fields, n: &[u8], v: &[u8]) {
    match l.iter_mut().find(|(m, _)| m.eq_ignore_ascii_case(n)) {
        Some(f) => f.1 = v.to_vec(),
        None => l.push((n.to_vec(), v.to_vec())),
    }
}

/// fields given first and overruled later
fn early_fields(r: &mut Rng, fields: &Fields) -> Fields {
    let mut early: Fields = vec![];
    if r.chance(1, 3) {
        for (n, _) in fields {
            if r.chance(1, 3) {
                let n = flip_case(r, n);
                early.push((n, gen_header_value(r)));
            }
        }
    }
    early
}

/// builds a request in one of the ways the API offers
fn build_request<T: Serialize>(r: &mut Rng, c: &mut Ctx, body: T) -> Option<(Request<T>, Built)> {
    let (mtext, mut method) = r.pick(&METHODS).clone();
    let (_, version) = *r.pick(&VERSIONS);
    let mut b = Request::builder();
    if r.chance(1, 12) {
        let n = r.range(1, 12);
        method = Method::Extension(String::from_utf8(r.from_set(b"ABCXYZabc-_.09!#$%&'*+^`|~", n)).unwrap());
        b = b.method(method.clone());
    } else if r.bool() {
        b = b.method(mtext);
    } else {
        b = b.method(method.clone());
    }
    b = b.version(version);
    let mut built = Built { method: method.clone(), version, path: "/".into(), query: None, domain: None, port: None, headers: vec![], target: None };
    let path = gen_path(r);
    let query = gen_query(r);
    let host = gen_host(r);
    let port = gen_port(r);
    let is_connect = method == Method::Connect;
    let mut late = 0;
    // where the target comes from
    match r.below(4) {
        0 | 1 => {
            // an absolute URL in text
            let (stext, _scheme, def) = *r.pick(&[("http", 0, 80u16), ("https", 1, 443), ("ws", 2, 80)]);
            let mut u = format!("{}://{}", stext, host).into_bytes();
            let mut p = def;
            if r.bool() {
                p = port;
                u.extend(format!(":{}", port).as_bytes());
            }
            u.push(b'/');
            wire(r, &path[1..], b"/", &mut u);
            if let Some(q) = &query {
                u.push(b'?');
                wire(r, q, b"/?", &mut u);
            }
            let u = String::from_utf8(u).unwrap();
            b = if r.bool() { b.url(u) } else { b.url(&*u) };
            built.path = path.clone();
            built.query = query.clone();
            built.domain = Some(host.clone());
            built.port = Some(p);
            built.headers.push((b"Host".to_vec(), format!("{}:{}", host, p).into_bytes()));
        }
        2 if !is_connect => {
            // a path in text
            let mut u = vec![b'/'];
            wire(r, &path[1..], b"/", &mut u);
            if let Some(q) = &query {
                u.push(b'?');
                wire(r, q, b"/?", &mut u);
            }
            b = b.url(String::from_utf8(u).unwrap());
            built.path = path.clone();
            built.query = query.clone();
        }
        _ => late = 1,
    }
    let mut fields = gen_fields(r);
    if r.chance(1, 4) {
        let (n, v) = *r.pick(STATIC_FIELDS);
        fields.retain(|(m, _)| !m.eq_ignore_ascii_case(n.as_bytes()));
        b = b.header(n, v);
        built.headers.push((n.as_bytes().to_vec(), v.as_bytes().to_vec()));
    }
    for (n, v) in &early_fields(r, &fields) {
        b = add_header(b, r, n, v);
        set_field(&mut built.headers, n, v);
        c.count("fields given twice");
    }
    match r.below(3) {
        0 => {
            for (n, v) in &fields {
                b = add_header(b, r, n, v);
            }
        }
        1 => {
            let mut m = HeaderMap::new();
            for (n, v) in &fields {
                m.insert(String::from_utf8(n.clone()).unwrap(), HeaderValue::from_bytes(v));
            }
            b = b.headers(m);
        }
        _ => {
            for (n, v) in &fields {
                b.headers_mut().unwrap().insert(HeaderName::from_bytes(n).unwrap(), HeaderValue::from_bytes(v));
            }
        }
    }
    for (n, v) in &fields {
        set_field(&mut built.headers, n, v);
    }
    if !built.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case(b"user-agent")) {
        built.headers.push((b"User-Agent".to_vec(), b"wenmeng".to_vec()));
    }
    let mut q = match b.body(body) {
        Ok(q) => q,
        Err(e) => {
            c.violation("builder-refused", format!("{:?} for {:?} {:?}", e, built.path, built.query));
            return None;
        }
    };
    if late == 1 {
        if is_connect {
            let mut u = Url::new();
            u.domain = Some(host.clone());
            u.port = Some(port);
            let has_host = built.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case(b"host"));
            q.set_url(u);
            if !has_host {
                built.headers.push((b"Host".to_vec(), format!("{}:{}", host, port).into_bytes()));
            }
            built.domain = Some(host);
            built.port = Some(port);
        } else {
            let star = method == Method::Options && r.bool();
            if star {
                q.set_path("*".to_string());
                built.path = "*".into();
                built.target = Some("*".into());
            } else {
                q.set_path(path.clone());
                built.path = path;
                q.url_mut().query = query.clone();
                built.query = query;
            }
        }
    }
    if is_connect {
        built.target = Some(format!("{}:{}", built.domain.as_ref()?, built.port?));
    }
    Some((q, built))
}

fn finish_request<T: Serialize>(r: &mut Rng, c: &mut Ctx, mut q: Request<T>, built: Built, body: &[u8], display: Option<Box<dyn Fn(&Request<T>) -> String>>) {
    let desc = format!("{:?} {:?} path {:?} query {:?} domain {:?} port {:?} fields {:?}", built.method, built.version, built.path, built.query, built.domain, built.port, built.headers.iter().map(|(n, v)| (show(n), show(v))).collect::<Vec<_>>());
    let shown = || desc.clone();
    let pre_n = r.below(20);
    let pre = r.bytes(pre_n);
    let mut buf = BinaryMut::new();
    buf.put_slice(&pre);
    let Some(res) = c.call("Request::encode_header", &shown, || q.encode_header(&mut buf)) else { return };
    let size = match res {
        Ok(n) => n,
        Err(e) => {
            c.violation("encode-refused", format!("{:?} for {}", e, desc));
            return;
        }
    };
    let all = buf.chunk().to_vec();
    c.check(all.starts_with(&pre), "buffer-front", || desc.clone());
    let head = &all[pre.len()..];
    c.eq(&size, &head.len(), "size", || format!("{} wrote {}", desc, show(head)));
    let Some(data) = c.call("Request::http1_data", &shown, || q.http1_data()) else { return };
    let Ok(data) = data else {
        c.violation("encode-refused", format!("http1_data {:?} for {}", data, desc));
        return;
    };
    c.check(data == [head, body].concat(), "http1_data", || format!("{} gave {}", desc, show(&data)));
    c.seen_bytes(&data);
    c.max("bytes written", data.len() as u64);
    c.sample(|| show(&data));
    if let Some(Ok(again)) = c.call("Request::http1_data", &shown, || q.http1_data()) {
        c.check(again == data, "encode-twice", || format!("{} gave {} then {}", desc, show(&data), show(&again)));
    }
    // an independent reader
    let rd = match R::read_request(&data) {
        Ok(h) => h,
        Err(e) => {
            c.violation("unreadable", format!("{}: {} from {}", e, show(&data), desc));
            return;
        }
    };
    let d = || format!("{} from {}", show(&data), desc);
    c.eq(&rd.len, &head.len(), "head-end", d);
    c.check(rd.start[0] == built.method.as_str().as_bytes(), "method", d);
    c.check(rd.start[2] == built.version.as_str().as_bytes(), "version", d);
    match &built.target {
        Some(t) => {
            c.eq(&String::from_utf8_lossy(&rd.start[1]).to_string(), t, "target", d);
        }
        None => match R::split_target(&rd.start[1]) {
            Ok((p, qy)) => {
                c.check(p == built.path.as_bytes(), "path", d);
                c.check(qy.as_deref() == built.query.as_ref().map(|q| q.as_bytes()), "query", d);
            }
            Err(e) => c.violation("target", format!("{}: {}", e, d())),
        },
    }
    c.check(lower(&rd.headers) == lower(&built.headers), "headers", d);
    // and this library
    if !matches!(built.method, Method::Extension(_)) {
        let mut q2 = Request::new();
        let Some(res) = c.call("Request::parse", &|| show(&data), || q2.parse(&data)) else { return };
        if c.check(matches!(res, Ok(n) if n == head.len()), "reparse", || format!("{:?} for {}", res, d())) {
            c.eq(q2.method(), &built.method, "reparse-method", d);
            c.eq(&q2.version(), &built.version, "reparse-version", d);
            c.check(lower(&fields_of(q2.headers())) == lower(&built.headers), "reparse-headers", d);
            if built.method == Method::Connect {
                c.eq(&q2.url().domain, &built.domain, "reparse-host", d);
                c.eq(&q2.url().port, &built.port, "reparse-port", d);
            } else {
                c.eq(q2.path(), &built.path, "reparse-path", d);
                c.eq(&q2.url().query, &built.query, "reparse-query", d);
                if let Some(h) = &built.domain {
                    c.eq(&q2.url().domain.as_ref(), &Some(h), "reparse-host", d);
                    c.eq(&q2.url().port, &built.port, "reparse-port", d);
                }
            }
            // writing what was read gives the same bytes again
            if built.method != Method::Connect || built.domain.is_some() {
                if let Some(Ok(again)) = c.call("Request::http1_data", &shown, || q2.http1_data()) {
                    c.check(again == head, "rewrite", || format!("{} then {}", show(head), show(&again)));
                }
            }
        }
    }
    if let Some(f) = display {
        if built.headers.iter().all(|(_, v)| std::str::from_utf8(v).is_ok()) {
            if let Some(s) = c.call("Request Display", &shown, || f(&q)) {
                c.check(s.as_bytes() == &data[..], "display", || format!("{} shown as {}", show(&data), show(s.as_bytes())));
                c.count("displayed");
            }
        }
    }
}

fn c06_requests(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (body, bytes) = gen_body(r);
    macro_rules! go {
        ($b:expr, $d:expr) => {{
            if let Some((q, built)) = build_request(r, c, $b) {
                finish_request(r, c, q, built, &bytes, $d);
            }
        }};
    }
    match body {
        Body::Unit => go!((), None),
        Body::Static(s) => go!(s, Some(Box::new(|q: &Request<&'static str>| q.to_string()))),
        Body::Text(s) => go!(s, Some(Box::new(|q: &Request<String>| q.to_string()))),
        Body::Vec(v) => go!(v, None),
        Body::Bin(v) => go!(Binary::from(v), None),
        Body::BinMut(v) => go!(BinaryMut::from(&v[..]), None),
    }
}

fn inject(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let at = r.below(v.len() + 1);
    let x: &[u8] = *r.pick(&[&b"\r\n"[..], b"\n", b"\r", b"\0", b"\r\nX-Evil: 1", b"\n\nbody", b"\r\n\r\nGET /evil HTTP/1.1\r\n"]);
    v.splice(at..at, x.iter().cloned());
    v
}

/// nothing a caller supplies may end a line
fn c06_injection(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (_, method) = r.pick(&METHODS).clone();
    let mut q = Request::builder().method(method.clone()).body("body").unwrap();
    let fields = gen_fields(r);
    let bad_at = r.below(fields.len() + 1);
    let place = r.below(5);
    let mut evil = vec![];
    for (k, (n, v)) in fields.iter().enumerate() {
        if k == bad_at && place < 2 {
            evil = inject(r, if place == 0 { n } else { v });
            if place == 0 {
                let Ok(s) = String::from_utf8(evil.clone()) else { return };
                q.headers_mut().insert(s, HeaderValue::from_bytes(v));
            } else {
                q.headers_mut().insert(String::from_utf8(n.clone()).unwrap(), HeaderValue::from_bytes(&evil));
            }
            continue;
        }
        q.headers_mut().insert(String::from_utf8(n.clone()).unwrap(), HeaderValue::from_bytes(v));
    }
    let shown = |q: &Request<&'static str>, e: &[u8]| format!("{:?} with {}", q.url(), show(e));
    match place {
        0 | 1 => {
            if evil.is_empty() {
                return;
            }
            c.count(if place == 0 { "injected into a name" } else { "injected into a value" });
            c.seen_bytes(&evil);
            let mut buf = BinaryMut::new();
            let Some(res) = c.call("Request::encode_header", &|| show(&evil), || q.encode_header(&mut buf)) else { return };
            c.check(res.is_err(), "header-injection", || format!("{} was written as {}", show(&evil), show(buf.chunk())));
            let Some(res) = c.call("Request::http1_data", &|| show(&evil), || q.http1_data()) else { return };
            c.check(res.is_err(), "header-injection", || format!("http1_data wrote {}", show(&evil)));
        }
        2 => {
            evil = inject(r, method.as_str().as_bytes());
            c.count("injected into the method");
            c.seen_bytes(&evil);
            let m = if r.chance(1, 4) { "GET / HTTP/1.1 X".to_string() } else { String::from_utf8(evil.clone()).unwrap() };
            q.set_method(Method::Extension(m.clone()));
            let Some(res) = c.call("Request::http1_data", &|| m.clone(), || q.http1_data()) else { return };
            c.check(res.is_err(), "method-injection", || format!("{:?} wrote {}", m, show(&res.as_ref().ok().cloned().unwrap_or_default())));
        }
        _ => {
            // the target: path, query, or host of a CONNECT
            c.count("injected into the target");
            let t = |r: &mut Rng| {
                let n = r.size(20);
                let s = text(r, n);
                String::from_utf8_lossy(&inject(r, s.as_bytes())).replace('\u{fffd}', " ")
            };
            let p = format!("/{}", t(r));
            q.set_path(p);
            if r.bool() {
                let s = t(r);
                q.url_mut().query = Some(s);
            }
            if place == 4 {
                q.set_method(Method::Connect);
                let s = t(r);
                q.url_mut().domain = Some(s);
                q.url_mut().port = Some(r.u32() as u16);
            }
            c.seen_bytes(format!("{:?}", q.url()).as_bytes());
            let Some(res) = c.call("Request::http1_data", &|| "target".to_string(), || q.http1_data()) else { return };
            let Ok(data) = res else {
                // refusing is as good
                c.count("target refused");
                return;
            };
            match R::read_request(&data) {
                Ok(h) => {
                    let want = fields_of(q.headers());
                    c.check(h.headers == want, "target-injection", || format!("{} gave {}", shown(&q, b""), show(&data)));
                    if place == 3 {
                        match R::split_target(&h.start[1]) {
                            Ok((p, qy)) => {
                                c.check(p == q.url().path.as_bytes() && qy.as_deref() == q.url().query.as_ref().map(|s| s.as_bytes()), "target-split", || format!("{} gave {}", shown(&q, b""), show(&data)));
                            }
                            Err(e) => c.violation("target", format!("{}: {}", e, show(&data))),
                        }
                    }
                }
                Err(e) => c.violation("target-injection", format!("{}: {} gave {}", e, shown(&q, b""), show(&data))),
            }
        }
    }
}

/// every single character in a path and in a query
fn c06_every_char(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let Some(ch) = char::from_u32(if i < 0x300 { i as u32 } else { (mix(i) % 0x11_0000) as u32 }) else { return };
    let mut q = Request::builder().header("Host", "h").body(()).unwrap();
    let p = format!("/a{}b", ch);
    let qy = format!("c{}d", ch);
    q.set_path(p.clone());
    q.url_mut().query = Some(qy.clone());
    c.seen(ch as u64);
    let shown = || format!("{:?}", ch);
    let Some(Ok(data)) = c.call("Request::http1_data", &shown, || q.http1_data()) else { return };
    let d = || format!("{:?} wrote {}", ch, show(&data));
    match R::read_request(&data).and_then(|h| R::split_target(&h.start[1])) {
        Ok((a, b)) => {
            c.check(a == p.as_bytes(), "path", d);
            c.check(b.as_deref() == Some(qy.as_bytes()), "query", d);
        }
        Err(e) => c.violation("unreadable", format!("{}: {}", e, d())),
    }
    let mut q2 = Request::new();
    if let Some(res) = c.call("Request::parse", &shown, || q2.parse(&data)) {
        c.check(res.is_ok() && *q2.path() == p && q2.url().query.as_deref() == Some(&qy), "reparse", || format!("{:?}; {}", res, d()));
    }
}

// ------------------------------------------------------------------- C07
fn build_response<T: Serialize>(r: &mut Rng, c: &mut Ctx, body: T) -> Option<(Response<T>, u16, Version, Fields)> {
    let status = if r.bool() { r.range(100, 999) as u16 } else { *r.pick(&[100, 101, 200, 204, 304, 404, 500, 511, 299, 600, 999]) };
    let (_, version) = *r.pick(&VERSIONS);
    let mut headers: Fields = vec![];
    let fields = gen_fields(r);
    let how = r.below(3);
    let mut q = if how == 2 {
        let mut q = Response::new(body);
        *q.status_mut() = StatusCode::from_u16(status).ok()?;
        *q.version_mut() = version;
        for (n, v) in &fields {
            q.headers_mut().insert(HeaderName::from_bytes(n).unwrap(), HeaderValue::from_bytes(v));
        }
        headers.extend(fields);
        q
    } else {
        let mut b = Response::builder();
        if r.chance(1, 5) {
            b = Response::json();
            headers.push((b"content-type".to_vec(), b"application/json; charset=utf-8".to_vec()));
        }
        b = b.version(version);
        b = match r.below(3) {
            0 => b.status(&*status.to_string()),
            1 => b.status(&status.to_string().as_bytes()[..]),
            _ => b.status(status),
        };
        for (n, v) in &early_fields(r, &fields) {
            b = b.header(String::from_utf8(n.clone()).unwrap(), HeaderValue::from_bytes(v));
            set_field(&mut headers, n, v);
            c.count("fields given twice");
        }
        for (n, v) in &fields {
            set_field(&mut headers, n, v);
        }
        if how == 0 {
            for (n, v) in &fields {
                b = b.header(String::from_utf8(n.clone()).unwrap(), HeaderValue::from_bytes(v));
            }
        } else {
            let mut m = HeaderMap::new();
            for (n, v) in &fields {
                m.insert(HeaderName::from_bytes(n).unwrap(), HeaderValue::from_bytes(v));
            }
            b = b.headers(m);
        }
        if !headers.iter().any(|(n, _)| n.eq_ignore_ascii_case(b"server")) {
            headers.push((b"Server".to_vec(), b"wenmeng".to_vec()));
        }
        match b.body(body) {
            Ok(q) => q,
            Err(e) => {
                c.violation("builder-refused", format!("{:?} for status {}", e, status));
                return None;
            }
        }
    };
    if r.chance(1, 6) {
        let (p, b) = q.into_parts();
        q = Response::from_parts(p, b);
    }
    Some((q, status, version, headers))
}

fn finish_response<T: Serialize>(r: &mut Rng, c: &mut Ctx, mut q: Response<T>, status: u16, version: Version, headers: Fields, body: &[u8], display: Option<Box<dyn Fn(&Response<T>) -> String>>) {
    let desc = format!("{:?} {} fields {:?}", version, status, headers.iter().map(|(n, v)| (show(n), show(v))).collect::<Vec<_>>());
    let shown = || desc.clone();
    let pre_n = r.below(20);
    let pre = r.bytes(pre_n);
    let mut buf = BinaryMut::new();
    buf.put_slice(&pre);
    let Some(res) = c.call("Response::encode_header", &shown, || q.encode_header(&mut buf)) else { return };
    let Ok(size) = res else {
        c.violation("encode-refused", format!("{:?} for {}", res, desc));
        return;
    };
    let all = buf.chunk().to_vec();
    c.check(all.starts_with(&pre), "buffer-front", || desc.clone());
    let head = &all[pre.len()..];
    c.eq(&size, &head.len(), "size", || format!("{} wrote {}", desc, show(head)));
    let mut buf = BinaryMut::new();
    let Some(Ok(size)) = c.call("Response::serialize", &shown, || q.serialize(&mut buf)) else { return };
    let data = buf.chunk().to_vec();
    c.eq(&size, &data.len(), "serialize-size", || format!("{} wrote {}", desc, show(&data)));
    c.check(data == [head, body].concat(), "serialize", || format!("{} gave {}", desc, show(&data)));
    if let Some(Ok(d2)) = c.call("Response::httpdata", &shown, || q.httpdata()) {
        c.check(d2 == data, "httpdata", || format!("{} gave {} and {}", desc, show(&data), show(&d2)));
    }
    c.seen_bytes(&data);
    c.sample(|| show(&data));
    let d = || format!("{} from {}", show(&data), desc);
    match R::read_response(&data) {
        Ok(h) => {
            c.eq(&h.len, &head.len(), "head-end", d);
            c.check(h.start[0] == version.as_str().as_bytes(), "version", d);
            c.check(h.start[1] == status.to_string().as_bytes(), "status", d);
            c.check(lower(&h.headers) == lower(&headers), "headers", d);
            if let Some(want) = crate::refm::status::accepted(status) {
                c.check(want.iter().any(|w| h.start[2] == w.as_bytes()), "reason", d);
            }
        }
        Err(e) => {
            c.violation("unreadable", format!("{}: {}", e, d()));
            return;
        }
    }
    let mut q2: Response<()> = Response::default();
    if let Some(res) = c.call("Response::parse", &|| show(&data), || q2.parse(&data)) {
        if c.check(matches!(res, Ok(n) if n == head.len()), "reparse", || format!("{:?} for {}", res, d())) {
            c.eq(&q2.status().as_u16(), &status, "reparse-status", d);
            c.eq(&q2.version(), &version, "reparse-version", d);
            c.check(lower(&fields_of(q2.headers())) == lower(&headers), "reparse-headers", d);
        }
    }
    if let Some(f) = display {
        if headers.iter().all(|(_, v)| std::str::from_utf8(v).is_ok()) {
            if let Some(s) = c.call("Response Display", &shown, || f(&q)) {
                // the status line of the text form has no reason, or has it
                let i = s.find("\r\n").unwrap_or(0);
                let j = data.windows(2).position(|w| w == b"\r\n").unwrap_or(0);
                let first_ok = s.starts_with(&format!("{} {}", version, status));
                c.check(first_ok && s.as_bytes()[i..] == data[j..], "display", || format!("{} shown as {}", show(&data), show(s.as_bytes())));
                c.count("displayed");
            }
        }
    }
    // conversions keep the message
    let conv = r.below(4);
    let check = |c: &mut Ctx, what: &str, got: WebResult<Vec<u8>>, want: Vec<u8>| {
        c.check(matches!(&got, Ok(g) if *g == want), "conversion", || format!("{}: {:?} instead of {}", what, got.map(|g| show(&g)), show(&want)));
        c.count(&format!("converted by {}", what));
    };
    match conv {
        0 => {
            if let Some(mut b) = c.call("into_binary", &shown, || q.into_binary()) {
                let got = b.httpdata();
                check(c, "into_binary", got, data.clone());
            }
        }
        1 => {
            if let Some(mut b) = c.call("map", &shown, || q.map(|_| "mapped")) {
                let got = b.httpdata();
                check(c, "map", got, [head, b"mapped"].concat());
            }
        }
        2 => {
            if let Some((mut b, mut old)) = c.call("into", &shown, || q.into("other")) {
                let got = b.httpdata();
                check(c, "into", got, [head, b"other"].concat());
                let mut x = BinaryMut::new();
                let _ = old.serialize(&mut x);
                c.check(x.chunk() == body, "conversion", || "into gave back another body".to_string());
            }
        }
        _ => {
            if let Some((p, mut old)) = c.call("into_parts", &shown, || q.into_parts()) {
                let mut b = Response::from_parts(p.clone(), "parts");
                let got = b.httpdata();
                check(c, "parts", got, [head, b"parts"].concat());
                let mut x = BinaryMut::new();
                let _ = old.serialize(&mut x);
                c.check(x.chunk() == body, "conversion", || "into_parts gave another body".to_string());
            }
        }
    }
}

fn c07_responses(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let (body, bytes) = gen_body(r);
    macro_rules! go {
        ($b:expr, $d:expr) => {{
            if let Some((q, s, v, h)) = build_response(r, c, $b) {
                c.seen(mix(s as u64));
                finish_response(r, c, q, s, v, h, &bytes, $d);
            }
        }};
    }
    match body {
        Body::Unit => go!((), None),
        Body::Static(s) => go!(s, Some(Box::new(|q: &Response<&'static str>| q.to_string()))),
        Body::Text(s) => go!(s, Some(Box::new(|q: &Response<String>| q.to_string()))),
        Body::Vec(v) => go!(v, None),
        Body::Bin(v) => go!(Binary::from(v), None),
        Body::BinMut(v) => go!(BinaryMut::from(&v[..]), None),
    }
}

/// every status with every version
fn c07_status(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let status = 100 + (i % 900) as u16;
    let (vtext, version) = VERSIONS[(i / 900 % 4) as usize];
    let Ok(mut q) = Response::builder().status(status).version(version).body("x") else {
        c.violation("builder-refused", format!("status {}", status));
        return;
    };
    c.seen(i);
    let shown = || status.to_string();
    let Some(res) = c.call("Response::httpdata", &shown, || q.httpdata()) else { return };
    let Ok(data) = res else {
        c.violation("encode-refused", format!("status {}", status));
        return;
    };
    match R::read_response(&data) {
        Ok(h) => {
            c.check(h.start[1] == status.to_string().as_bytes() && h.start[0] == vtext.as_bytes(), "status", || show(&data));
            c.check(data.ends_with(b"\r\n\r\nx"), "body", || show(&data));
        }
        Err(e) => c.violation("unreadable", format!("{}: {}", e, show(&data))),
    }
    let mut q2: Response<()> = Response::default();
    if let Some(res) = c.call("Response::parse", &|| show(&data), || q2.parse(&data)) {
        c.check(res.is_ok() && q2.status().as_u16() == status && q2.version() == version, "reparse-status", || format!("{:?} for {}", res, show(&data)));
    }
}

fn c07_injection(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut q = Response::builder().status(200).body("body").unwrap();
    let fields = gen_fields(r);
    if fields.is_empty() {
        return;
    }
    let bad_at = r.below(fields.len());
    let in_name = r.chance(1, 3);
    let mut evil = vec![];
    for (k, (n, v)) in fields.iter().enumerate() {
        let name = |n: &[u8]| String::from_utf8(n.to_vec()).unwrap();
        if k == bad_at {
            evil = inject(r, if in_name { n } else { v });
            if in_name {
                q.headers_mut().insert(name(&evil), HeaderValue::from_bytes(v));
            } else {
                q.headers_mut().insert(name(n), HeaderValue::from_bytes(&evil));
            }
        } else {
            q.headers_mut().insert(name(n), HeaderValue::from_bytes(v));
        }
    }
    c.count(if in_name { "injected into a name" } else { "injected into a value" });
    c.seen_bytes(&evil);
    let mut buf = BinaryMut::new();
    let shown = || show(&evil);
    let Some(res) = c.call("Response::encode_header", &shown, || q.encode_header(&mut buf)) else { return };
    c.check(res.is_err(), "header-injection", || format!("{} was written as {}", show(&evil), show(buf.chunk())));
    let Some(res) = c.call("Response::httpdata", &shown, || q.httpdata()) else { return };
    c.check(res.is_err(), "header-injection", || format!("httpdata wrote {}", show(&evil)));
    let mut buf = BinaryMut::new();
    let Some(res) = c.call("Response::serialize", &shown, || q.serialize(&mut buf)) else { return };
    c.check(res.is_err(), "header-injection", || format!("serialize wrote {}", show(&evil)));
}

pub fn props() -> Vec<Prop> {
    let _ = utf8_value;
    let a = vec![
        "request methods are the nine the library knows; escapes in a target spell UTF-8, because the library keeps paths as text",
        "tolerances of the parser (bare LF, several spaces, blanks before a colon, visible characters outside the URI set) are neither required nor forbidden",
    ];
    vec![
        Prop {
            id: "C01",
            rule: "every well-formed request head is parsed to the method, target, version and fields the generator wrote, whatever the object parsed before",
            parts: vec![
                part("requests", 800_000, 40_000_000, c01_requests),
                part("small-targets", 11_111, 1_111_111, c01_small_targets),
                part("repeated", 400, 4_000, c01_repeated),
            ],
            assumptions: a.clone(),
        },
        Prop {
            id: "C02",
            rule: "every well-formed response head is parsed to the version, status and fields the generator wrote, whatever the object parsed before",
            parts: vec![
                part("responses", 800_000, 40_000_000, c02_responses),
                part("status", 3_600, 3_600, c02_status),
                part("repeated", 400, 4_000, c02_repeated),
            ],
            assumptions: a.clone(),
        },
        Prop {
            id: "C03",
            rule: "every strict prefix of an accepted head is partial, the completed head parses as if it had come at once, and neither buffer kind nor following bytes change the result",
            parts: vec![
                part("request-prefixes", 20_000, 800_000, c03_request_prefixes),
                part("response-prefixes", 20_000, 800_000, c03_response_prefixes),
                part("pipelines", 200_000, 8_000_000, c03_pipelines),
                part("any-bytes", 60_000, 2_500_000, c03_any_bytes),
            ],
            assumptions: a.clone(),
        },
        Prop {
            id: "C04",
            rule: "a head with one grammar error is refused with an error that is not the partial one, whatever follows it, and the object does not report a complete message",
            parts: vec![
                part("requests", 1_000_000, 40_000_000, c04_requests),
                part("responses", 800_000, 30_000_000, c04_responses),
                part("every-byte", 2_048, 2_048, c04_every_byte),
            ],
            assumptions: a.clone(),
        },
        Prop {
            id: "C06",
            rule: "what is written is read back by an independent reader and by the library as the request that was built; nothing in it can end a line",
            parts: vec![
                part("requests", 600_000, 25_000_000, c06_requests),
                part("injection", 400_000, 15_000_000, c06_injection),
                part("every-char", 20_000, 1_000_000, c06_every_char),
            ],
            assumptions: a.clone(),
        },
        Prop {
            id: "C07",
            rule: "what is written is read back by an independent reader and by the library as the response that was built; nothing in it can end a line",
            parts: vec![
                part("responses", 600_000, 25_000_000, c07_responses),
                part("status", 3_600, 3_600, c07_status),
                part("injection", 300_000, 10_000_000, c07_injection),
            ],
            assumptions: a,
        },
    ]
}
