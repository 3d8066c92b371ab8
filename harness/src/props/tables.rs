//! C24: the code tables, over their whole domains.
use crate::core::*;
use crate::refm::h2 as F;
use crate::refm::status;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::str::FromStr;
use webparse::http2::frame::{ErrorCode, Flag, FrameHeader, Kind, Reason, Settings, StreamIdentifier};
use webparse::ws::{CloseCode, DataFrame, Opcode};
use webparse::{HeaderName, Method, Scheme, Serialize, StatusCode, Url, Version};

// --------------------------------------------------------------- status
const STATUS: &[(u16, StatusCode)] = &[
    (100, StatusCode::CONTINUE),
    (101, StatusCode::SWITCHING_PROTOCOLS),
    (102, StatusCode::PROCESSING),
    (200, StatusCode::OK),
    (201, StatusCode::CREATED),
    (202, StatusCode::ACCEPTED),
    (203, StatusCode::NON_AUTHORITATIVE_INFORMATION),
    (204, StatusCode::NO_CONTENT),
    (205, StatusCode::RESET_CONTENT),
    (206, StatusCode::PARTIAL_CONTENT),
    (207, StatusCode::MULTI_STATUS),
    (208, StatusCode::ALREADY_REPORTED),
    (226, StatusCode::IM_USED),
    (300, StatusCode::MULTIPLE_CHOICES),
    (301, StatusCode::MOVED_PERMANENTLY),
    (302, StatusCode::FOUND),
    (303, StatusCode::SEE_OTHER),
    (304, StatusCode::NOT_MODIFIED),
    (305, StatusCode::USE_PROXY),
    (307, StatusCode::TEMPORARY_REDIRECT),
    (308, StatusCode::PERMANENT_REDIRECT),
    (400, StatusCode::BAD_REQUEST),
    (401, StatusCode::UNAUTHORIZED),
    (402, StatusCode::PAYMENT_REQUIRED),
    (403, StatusCode::FORBIDDEN),
    (404, StatusCode::NOT_FOUND),
    (405, StatusCode::METHOD_NOT_ALLOWED),
    (406, StatusCode::NOT_ACCEPTABLE),
    (407, StatusCode::PROXY_AUTHENTICATION_REQUIRED),
    (408, StatusCode::REQUEST_TIMEOUT),
    (409, StatusCode::CONFLICT),
    (410, StatusCode::GONE),
    (411, StatusCode::LENGTH_REQUIRED),
    (412, StatusCode::PRECONDITION_FAILED),
    (413, StatusCode::PAYLOAD_TOO_LARGE),
    (414, StatusCode::URI_TOO_LONG),
    (415, StatusCode::UNSUPPORTED_MEDIA_TYPE),
    (416, StatusCode::RANGE_NOT_SATISFIABLE),
    (417, StatusCode::EXPECTATION_FAILED),
    (418, StatusCode::IM_A_TEAPOT),
    (421, StatusCode::MISDIRECTED_REQUEST),
    (422, StatusCode::UNPROCESSABLE_ENTITY),
    (423, StatusCode::LOCKED),
    (424, StatusCode::FAILED_DEPENDENCY),
    (426, StatusCode::UPGRADE_REQUIRED),
    (428, StatusCode::PRECONDITION_REQUIRED),
    (429, StatusCode::TOO_MANY_REQUESTS),
    (431, StatusCode::REQUEST_HEADER_FIELDS_TOO_LARGE),
    (451, StatusCode::UNAVAILABLE_FOR_LEGAL_REASONS),
    (500, StatusCode::INTERNAL_SERVER_ERROR),
    (501, StatusCode::NOT_IMPLEMENTED),
    (502, StatusCode::BAD_GATEWAY),
    (503, StatusCode::SERVICE_UNAVAILABLE),
    (504, StatusCode::GATEWAY_TIMEOUT),
    (505, StatusCode::HTTP_VERSION_NOT_SUPPORTED),
    (506, StatusCode::VARIANT_ALSO_NEGOTIATES),
    (507, StatusCode::INSUFFICIENT_STORAGE),
    (508, StatusCode::LOOP_DETECTED),
    (510, StatusCode::NOT_EXTENDED),
    (511, StatusCode::NETWORK_AUTHENTICATION_REQUIRED),
];

fn digits(n: u16) -> String {
    [n / 100 % 10, n / 10 % 10, n % 10].iter().map(|d| (b'0' + *d as u8) as char).collect()
}

fn c24_status(_r: &mut Rng, c: &mut Ctx, i: u64) {
    let n = i as u16;
    let d = || n.to_string();
    let Some(s) = c.call("StatusCode::from_u16", &d, || StatusCode::from_u16(n)) else { return };
    let t = StatusCode::try_from(n);
    let text = n.to_string();
    let byt = StatusCode::from_bytes(text.as_bytes());
    let ok = (100..1000).contains(&n);
    c.check(
        s.is_ok() == ok && t.is_ok() == ok && byt.is_ok() == ok && StatusCode::from_str(&text).is_ok() == ok,
        if ok { "status-refused" } else { "status-accepted" },
        d,
    );
    c.seen(i);
    c.count(if ok { "valid status" } else { "invalid status" });
    let (Ok(s), Ok(t), Ok(byt)) = (s, t, byt) else { return };
    c.check(s == t && s == byt && StatusCode::try_from(text.as_bytes()).ok() == Some(s) && StatusCode::try_from(&text[..]).ok() == Some(s), "status-forms", d);
    c.check(s.as_u16() == n && u16::from(s) == n && s == n && n == s, "status-number", || format!("{} for {}", s.as_u16(), n));
    let Some(digs) = c.call("StatusCode::as_str", &d, || s.as_str()) else { return };
    c.check(digs == digits(n), "status-digits", || format!("{} for {}", digs, n));
    let class = [s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()];
    let want: Vec<bool> = (1..=5).map(|k| n / 100 == k).collect();
    c.check(class[..] == want[..], "status-class", || format!("{:?} for {}", class, n));
    let reason = s.canonical_reason();
    match status::accepted(n) {
        Some(r) => {
            c.check(reason.map_or(false, |x| r.contains(&x)), "status-reason", || format!("{:?} for {}", reason, n));
            let k = STATUS.iter().find(|k| k.0 == n);
            c.check(k.map_or(true, |k| k.1 == s && k.1.as_u16() == n), "status-constant", d);
        }
        None => {
            // a code that is not in the table may have a phrase, as long as it is one line
            c.check(reason.map_or(true, |x| x.bytes().all(|b| b == b' ' || b.is_ascii_graphic())), "status-reason", || format!("{:?} for {}", reason, n));
        }
    }
    c.check(format!("{}", s).starts_with(&digits(n)), "status-display", || format!("{}", s));
    c.check(format!("{:?}", s).contains(&digits(n)), "status-debug", || format!("{:?}", s));
    let (hn, hv) = s.build_header();
    c.check(hn == ":status" && hv.as_bytes() == digits(n).as_bytes(), "status-header", || format!("{:?} {:?}", hn, hv));
    let mut out = BinaryMut::new();
    let mut m = s;
    let Some(res) = c.call("StatusCode::encode", &d, || m.encode(&mut out)) else { return };
    let want = format!("{} {}\r\n", digits(n), reason.unwrap_or(""));
    c.check(matches!(res, Ok(k) if k == want.len()) && out.chunk() == want.as_bytes(), "status-encode", || format!("{:?} {}", res, show(out.chunk())));
    if n > 100 {
        let before = StatusCode::from_u16(n - 1).unwrap();
        c.check(before < s && before != s, "status-order", d);
    } else {
        c.check(StatusCode::default().as_u16() == 200, "status-default", d);
        for (k, v) in STATUS {
            c.check(v.as_u16() == *k, "status-constant", || format!("{} is {}", k, v.as_u16()));
        }
    }
}

/// three octets and their neighbours
fn c24_status_text(r: &mut Rng, c: &mut Ctx, i: u64) {
    let b: Vec<u8> = match i % 8 {
        0 => {
            let n = r.below(6);
            r.from_set(b"0123456789", n)
        }
        1 => {
            let mut v = r.from_set(b"0123456789", 3);
            let k = r.below(3);
            v[k] = r.u8();
            v
        }
        2 => {
            let n = r.below(5);
            r.bytes(n)
        }
        3 => r.from_set(b"/0123456789:+- ", 3),
        _ => {
            // all triples over the octets around the digits
            let j = i / 8;
            let set: Vec<u8> = (b'-'..=b'<').collect();
            let m = set.len() as u64;
            vec![set[(j % m) as usize], set[(j / m % m) as usize], set[(j / m / m % m) as usize]]
        }
    };
    let good = b.len() == 3 && b.iter().all(u8::is_ascii_digit) && b[0] != b'0';
    let Some(s) = c.call("StatusCode::from_bytes", &|| hex(&b), || StatusCode::from_bytes(&b)) else { return };
    c.check(s.is_ok() == good, "status-text", || format!("{:?} for {}", s, show(&b)));
    if let Ok(s) = s {
        c.check(s.as_str().as_bytes() == &b[..], "status-text-value", || format!("{:?} for {}", s, show(&b)));
    }
    if let Ok(t) = std::str::from_utf8(&b) {
        c.check(t.parse::<StatusCode>().is_ok() == good && StatusCode::try_from(t).is_ok() == good, "status-text", || show(&b));
    }
    c.seen_bytes(&b);
}

// --------------------------------------------------------------- method, version, scheme
const FOLDS: &[(char, &str)] = &[('S', "\u{17f}"), ('I', "\u{131}"), ('K', "\u{212a}"), ('S', "\u{df}"), ('F', "\u{fb00}"), ('E', "\u{e9}"), ('T', "\u{fb05}")];

fn near(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(9) {
        0 => {
            let k = r.below(v.len());
            v.remove(k);
        }
        1 => {
            let k = r.below(v.len() + 1);
            v.insert(k, *r.pick(&['A', ' ', 'T', '/', '1', '\0', '.', 'S']));
        }
        2 => {
            let k = r.below(v.len());
            v[k] = (r.range(0, 127) as u8) as char;
        }
        3 => {
            let k = r.below(v.len());
            v[k] = if v[k].is_ascii_uppercase() { v[k].to_ascii_lowercase() } else { v[k].to_ascii_uppercase() };
        }
        4 => {
            // text that only folds to this one by Unicode rules
            let mut t: String = v.iter().collect();
            for (a, b) in FOLDS {
                if r.bool() {
                    t = t.replace(*a, b).replace(a.to_ascii_lowercase(), b);
                }
            }
            return t;
        }
        5 => {
            for x in v.iter_mut() {
                if r.bool() {
                    *x = x.to_ascii_lowercase();
                }
            }
        }
        6 => v.truncate(r.below(s.len())),
        7 => {
            let (a, b) = (r.below(v.len()), r.below(v.len()));
            v.swap(a, b);
        }
        _ => {}
    }
    v.into_iter().collect()
}

const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];

fn method_of(s: &str) -> Option<Method> {
    Some(match s {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "PUT" => Method::Put,
        "DELETE" => Method::Delete,
        "HEAD" => Method::Head,
        "OPTIONS" => Method::Options,
        "CONNECT" => Method::Connect,
        "PATCH" => Method::Patch,
        "TRACE" => Method::Trace,
        _ => return None,
    })
}

fn c24_method(r: &mut Rng, c: &mut Ctx, i: u64) {
    if i == 0 {
        let all = [
            (Method::GET, Method::SGET, "GET"),
            (Method::POST, Method::SPOST, "POST"),
            (Method::PUT, Method::SPUT, "PUT"),
            (Method::DELETE, Method::SDELETE, "DELETE"),
            (Method::HEAD, Method::SHEAD, "HEAD"),
            (Method::OPTIONS, Method::SOPTIONS, "OPTIONS"),
            (Method::CONNECT, Method::SCONNECT, "CONNECT"),
            (Method::PATCH, Method::SPATCH, "PATCH"),
            (Method::TRACE, Method::STRACE, "TRACE"),
        ];
        for (m, s, t) in all {
            c.check(s == t && m.as_str() == t && Some(&m) == method_of(t).as_ref(), "method-constant", || t.into());
        }
        let mut out = BinaryMut::new();
        c.check(Method::None.encode(&mut out).is_err() && out.remaining() == 0, "method-none", String::new);
    }
    let m = *r.pick(&METHODS);
    let t = near(r, m);
    let d = || format!("{:?}", t);
    c.seen(hash_bytes(t.as_bytes()));
    let Some(x) = c.call("Method::try_from", &d, || Method::try_from(&t[..])) else { return };
    let want = method_of(&t);
    c.check(x.as_ref().ok() == want.as_ref(), "method-text", || format!("{:?} for {}", x, d()));
    let Some(y) = c.call("Method::from_str", &d, || Method::from_str(&t)) else { return };
    let want = method_of(&t.to_ascii_uppercase());
    c.check(y.as_ref().ok() == want.as_ref(), "method-from-str", || format!("{:?} for {}", y, d()));
    if let Ok(mut x) = x {
        let mut out = BinaryMut::new();
        let n = x.encode(&mut out);
        c.check(
            x.as_str() == t && format!("{}", x) == t && matches!(n, Ok(n) if n == t.len()) && out.chunk() == t.as_bytes(),
            "method-back",
            d,
        );
        c.check(METHODS.iter().all(|o| (method_of(o).as_ref() == Some(&x)) == (*o == t)), "method-collision", d);
    }
}

fn c24_version(r: &mut Rng, c: &mut Ctx, i: u64) {
    const ALL: [(Version, &str); 4] = [(Version::HTTP10, "HTTP/1.0"), (Version::HTTP11, "HTTP/1.1"), (Version::HTTP2, "HTTP/2"), (Version::HTTP3, "HTTP/3")];
    if i == 0 {
        c.check([Version::SHTTP10, Version::SHTTP11, Version::SHTTP2, Version::SHTTP3] == [ALL[0].1, ALL[1].1, ALL[2].1, ALL[3].1], "version-constant", String::new);
        let mut out = BinaryMut::new();
        let mut n = Version::None;
        c.check(n.encode(&mut out).is_err() && out.remaining() == 0 && !n.is_http1() && !n.is_http2(), "version-none", String::new);
    }
    let base = r.pick(&ALL).1;
    let t = near(r, base);
    let d = || format!("{:?}", t);
    c.seen(hash_bytes(t.as_bytes()));
    let Some(mut v) = c.call("Version::from", &d, || Version::from(&t[..])) else { return };
    match ALL.iter().find(|a| a.1 == t) {
        None => {
            c.check(v == Version::None, "version-text", || format!("{:?} for {}", v, d()));
        }
        Some(a) => {
            let mut out = BinaryMut::new();
            let n = v.encode(&mut out);
            c.check(v == a.0 && v.as_str() == t && format!("{}", v) == t && matches!(n, Ok(n) if n == t.len()) && out.chunk() == t.as_bytes(), "version-back", d);
            c.check(v.is_http1() == t.starts_with("HTTP/1.") && v.is_http2() == (t == "HTTP/2"), "version-class", d);
        }
    }
}

fn c24_scheme(r: &mut Rng, c: &mut Ctx, _i: u64) {
    const ALL: [(&str, Scheme, u16); 5] = [("http", Scheme::Http, 80), ("https", Scheme::Https, 443), ("ws", Scheme::Ws, 80), ("wss", Scheme::Wss, 443), ("ftp", Scheme::Ftp, 21)];
    let t = match r.below(8) {
        0 => {
            let n = r.range(1, 70);
            String::from_utf8(r.from_set(b"abcdefHTPS0123456789+-.", n)).unwrap()
        }
        1 => "x".repeat(r.range(60, 68)),
        _ => {
            let base = r.pick(&ALL).0;
            near(r, base)
        }
    };
    let d = || format!("{:?}", t);
    c.seen(hash_bytes(t.as_bytes()));
    let Some(s) = c.call("Scheme::try_from", &d, || Scheme::try_from(&t[..])) else { return };
    let f = Scheme::from_str(&t);
    c.check(s.as_ref().ok() == f.as_ref().ok(), "scheme-forms", d);
    if t.len() > 64 {
        c.check(s.is_err(), "scheme-long", d);
        return;
    }
    let Ok(mut s) = s else {
        c.check(t.is_empty() || !t.bytes().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b)), "scheme-refused", d);
        return;
    };
    let low = t.to_ascii_lowercase();
    let known = ALL.iter().find(|a| a.0 == low);
    match known {
        Some(a) => {
            c.check(s == a.1 && s.as_str() == a.0 && format!("{}", s) == a.0, "scheme-known", || format!("{:?} for {}", s, d()));
            let u = Url::parse(format!("{}://h/", t).into_bytes());
            c.check(matches!(&u, Ok(u) if u.port == Some(a.2) && u.scheme == a.1), "scheme-port", || format!("{:?}; {}", u, d()));
        }
        None => {
            c.check(ALL.iter().all(|a| a.1 != s) && s.as_str().eq_ignore_ascii_case(&t), "scheme-unknown", || format!("{:?} for {}", s, d()));
        }
    }
    c.check(
        s.is_http() == (low == "http") && s.is_https() == (low == "https") && s.is_ws() == (low == "ws") && s.is_wss() == (low == "wss") && (!s.is_none() || t.is_empty()),
        "scheme-class",
        d,
    );
    let mut out = BinaryMut::new();
    let n = s.serialize(&mut out);
    c.check(s.is_none() || (matches!(n, Ok(n) if n == s.as_str().len()) && out.chunk() == s.as_str().as_bytes()), "scheme-serialize", d);
}

// --------------------------------------------------------------- HTTP/2 numbers
fn c24_frames(r: &mut Rng, c: &mut Ctx, i: u64) {
    let b = i as u8;
    let kinds = [
        Kind::Data,
        Kind::Headers,
        Kind::Priority,
        Kind::Reset,
        Kind::Settings,
        Kind::PushPromise,
        Kind::Ping,
        Kind::GoAway,
        Kind::WindowUpdate,
        Kind::Continuation,
    ];
    let k = Kind::new(b);
    match kinds.get(b as usize) {
        Some(w) => {
            c.check(k == *w && k.encode() == b && k as u8 == b, "kind", || format!("{:?} for {}", k, b));
        }
        None => {
            c.check(k == Kind::Unregistered && !kinds.contains(&k), "kind-unknown", || format!("{:?} for {}", k, b));
        }
    }
    c.check(Kind::new(k.encode()) == k, "kind-back", || format!("{:?}", k));
    // flags
    let f = Flag::new(b).unwrap();
    let w = b & 0x2d;
    c.check(f.bits() == w, "flag-bits", || format!("{:02x} for {:02x}", f.bits(), b));
    c.check(
        f.is_ack() == (w & 1 != 0) && f.is_end_stream() == (w & 1 != 0) && f.is_end_headers() == (w & 4 != 0) && f.is_padded() == (w & 8 != 0) && f.is_priority() == (w & 32 != 0),
        "flag-answers",
        || format!("{:02x}", b),
    );
    let set = |g: fn(&mut Flag)| {
        let mut x = f;
        g(&mut x);
        x.bits()
    };
    c.check(
        set(Flag::set_end_stream) == w | 1
            && set(Flag::unset_end_stream) == w & !1
            && set(Flag::set_end_headers) == w | 4
            && set(Flag::unset_end_headers) == w & !4
            && set(Flag::set_padded) == w | 8
            && set(Flag::unset_padded) == w & !8
            && Flag::load(f).bits() == w | 1,
        "flag-setters",
        || format!("{:02x}", b),
    );
    if i == 0 {
        c.check(
            [Flag::zero(), Flag::ack(), Flag::end_stream(), Flag::end_headers(), Flag::padded(), Flag::priority(), Flag::default()].map(|f| f.bits()) == [0, 1, 1, 4, 8, 32, 0],
            "flag-constants",
            String::new,
        );
        let (mut cl, mut sv) = (StreamIdentifier::client_first(), StreamIdentifier::server_first());
        for k in 0..1000u32 {
            let (a, b) = (cl.next_id(), sv.next_id());
            c.check(a.0 == 1 + 2 * k && b.0 == 2 + 2 * k, "next-id", || format!("{:?} {:?}", a, b));
        }
        c.check(StreamIdentifier::zero().is_zero() && !cl.is_zero(), "id-zero", String::new);
    }
    let (a, b) = (r.u32() >> r.below(32), r.u32() >> r.below(32));
    let (x, y) = (StreamIdentifier::from(a), StreamIdentifier::from(b));
    c.check(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && (x == y) == (a == b) && format!("{}", x) == a.to_string(), "id-order", || format!("{} {}", a, b));
    c.seen(i);
    c.count("frame types and flags");
}

fn c24_reason(r: &mut Rng, c: &mut Ctx, i: u64) {
    const ALL: [(&str, Reason); 14] = [
        ("NO_ERROR", Reason::NO_ERROR),
        ("PROTOCOL_ERROR", Reason::PROTOCOL_ERROR),
        ("INTERNAL_ERROR", Reason::INTERNAL_ERROR),
        ("FLOW_CONTROL_ERROR", Reason::FLOW_CONTROL_ERROR),
        ("SETTINGS_TIMEOUT", Reason::SETTINGS_TIMEOUT),
        ("STREAM_CLOSED", Reason::STREAM_CLOSED),
        ("FRAME_SIZE_ERROR", Reason::FRAME_SIZE_ERROR),
        ("REFUSED_STREAM", Reason::REFUSED_STREAM),
        ("CANCEL", Reason::CANCEL),
        ("COMPRESSION_ERROR", Reason::COMPRESSION_ERROR),
        ("CONNECT_ERROR", Reason::CONNECT_ERROR),
        ("ENHANCE_YOUR_CALM", Reason::ENHANCE_YOUR_CALM),
        ("INADEQUATE_SECURITY", Reason::INADEQUATE_SECURITY),
        ("HTTP_1_1_REQUIRED", Reason::HTTP_1_1_REQUIRED),
    ];
    let n = if i < 256 { i as u32 } else { r.u32() >> r.below(32) };
    let x = Reason::from(n);
    let d = || n.to_string();
    c.seen(n as u64);
    c.check(u32::from(x) == n, "reason-number", || format!("{:?} for {}", x, n));
    for (k, (name, cst)) in ALL.iter().enumerate() {
        c.check((*cst == x) == (k as u32 == n), "reason-constant", || format!("{} for {}", name, n));
    }
    let dbg = format!("{:?}", x);
    let text = x.description().to_string();
    c.check(format!("{}", x) == text && !text.is_empty(), "reason-display", d);
    match ALL.get(n as usize) {
        Some(a) => {
            c.check(dbg == a.0, "reason-name", || format!("{} for {}", dbg, n));
            c.check((0..14).all(|k| (Reason::from(k).description() == text) == (k == n)), "reason-text-collision", d);
        }
        None => {
            c.check(dbg.contains(&format!("{:x}", n)) && !ALL.iter().any(|a| a.0 == dbg), "reason-unknown", || format!("{} for {}", dbg, n));
        }
    }
    let mut e = ErrorCode(n);
    let mut out = BinaryMut::new();
    let _ = e.serialize(&mut out);
    c.check(out.chunk() == n.to_be_bytes(), "error-code", d);
}

/// every settings identifier alone, with values around its bounds
fn c24_settings(r: &mut Rng, c: &mut Ctx, i: u64) {
    let id = i as u16;
    let val = match r.below(5) {
        0 => r.below(3) as u32,
        1 => *r.pick(&[16_384u32, 16_383, 16_777_215, 16_777_216, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
        2 => r.range(16_384, 16_777_215) as u32,
        _ => r.u32() >> r.below(32),
    };
    let p = F::pair(id, val);
    let want = F::Settings::read(&p);
    let h = FrameHeader::new(Kind::Settings, Flag::zero(), StreamIdentifier::zero());
    let d = || format!("setting {} = {}", id, val);
    c.seen(id as u64 | (val as u64) << 16);
    let Some(got) = c.call("Settings::parse", &d, || Settings::parse(h, &mut Binary::from(p.to_vec()))) else { return };
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            let g = super::h2::settings_of(g);
            c.check(g.v == w.v, "setting", || format!("{:?} instead of {:?}; {}", g, w, d()));
            c.count(if w.v.iter().any(|x| x.is_some()) { "registered setting" } else { "unknown setting ignored" });
        }
        (Err(_), Err(_)) => c.count("setting refused"),
        (w, g) => {
            c.check(false, "setting-judged", || format!("{:?} instead of {:?}; {}", g, w, d()));
        }
    }
}

// --------------------------------------------------------------- WebSocket
fn c24_close(_r: &mut Rng, c: &mut Ctx, i: u64) {
    use CloseCode::*;
    const ALL: [(u16, CloseCode); 14] = [
        (1000, Normal),
        (1001, Away),
        (1002, Protocol),
        (1003, Unsupported),
        (1005, Status),
        (1006, Abnormal),
        (1007, Invalid),
        (1008, Policy),
        (1009, Size),
        (1010, Extension),
        (1011, Error),
        (1012, Restart),
        (1013, Again),
        (1015, Tls),
    ];
    let n = i as u16;
    let x = CloseCode::from(n);
    let back: u16 = x.into();
    c.seen(i);
    c.check(back == n, "close-number", || format!("{:?} gives {} for {}", x, back, n));
    match ALL.iter().find(|a| a.0 == n) {
        Some(a) => {
            c.check(x == a.1, "close-name", || format!("{:?} for {}", x, n));
        }
        None => {
            c.check(ALL.iter().all(|a| a.1 != x), "close-collision", || format!("{:?} for {}", x, n));
        }
    }
    let ops = [
        Opcode::Continuation,
        Opcode::Text,
        Opcode::Binary,
        Opcode::NonControl1,
        Opcode::NonControl2,
        Opcode::NonControl3,
        Opcode::NonControl4,
        Opcode::NonControl5,
        Opcode::Close,
        Opcode::Ping,
        Opcode::Pong,
        Opcode::Control1,
        Opcode::Control2,
        Opcode::Control3,
        Opcode::Control4,
        Opcode::Control5,
    ];
    if n < 256 {
        let o = Opcode::new(n as u8);
        c.check(o == ops.get(n as usize).copied(), "opcode", || format!("{:?} for {}", o, n));
        if let Some(o) = o {
            use webparse::ws::DataFrameable;
            c.check(o as u16 == n && DataFrame::new(true, o, vec![]).opcode() as u16 == n, "opcode-back", || format!("{:?} for {}", o, n));
        }
    }
}

// --------------------------------------------------------------- header names
macro_rules! names {
    ($($k:ident)*) => { &[$((stringify!($k), HeaderName::$k)),*] };
}
const NAMES: &[(&str, HeaderName)] = names!(
    ACCEPT ACCEPT_CHARSET ACCEPT_ENCODING ACCEPT_LANGUAGE ACCEPT_RANGES ACCESS_CONTROL_ALLOW_CREDENTIALS
    ACCESS_CONTROL_ALLOW_HEADERS ACCESS_CONTROL_ALLOW_METHODS ACCESS_CONTROL_ALLOW_ORIGIN ACCESS_CONTROL_EXPOSE_HEADERS
    ACCESS_CONTROL_MAX_AGE ACCESS_CONTROL_REQUEST_HEADERS ACCESS_CONTROL_REQUEST_METHOD AGE ALLOW ALT_SVC AUTHORIZATION
    CACHE_CONTROL CACHE_STATUS CDN_CACHE_CONTROL CONNECTION CONTENT_DISPOSITION CONTENT_ENCODING CONTENT_LANGUAGE
    CONTENT_LENGTH CONTENT_LOCATION CONTENT_RANGE CONTENT_SECURITY_POLICY CONTENT_SECURITY_POLICY_REPORT_ONLY CONTENT_TYPE
    COOKIE DNT DATE ETAG EXPECT EXPIRES FORWARDED FROM HOST IF_MATCH IF_MODIFIED_SINCE IF_NONE_MATCH IF_RANGE
    IF_UNMODIFIED_SINCE LAST_MODIFIED LINK LOCATION MAX_FORWARDS ORIGIN PRAGMA PROXY_AUTHENTICATE PROXY_AUTHORIZATION
    PUBLIC_KEY_PINS PUBLIC_KEY_PINS_REPORT_ONLY RANGE REFERER REFERRER_POLICY REFRESH RETRY_AFTER SEC_WEBSOCKET_ACCEPT
    SEC_WEBSOCKET_EXTENSIONS SEC_WEBSOCKET_KEY SEC_WEBSOCKET_PROTOCOL SEC_WEBSOCKET_VERSION SERVER SET_COOKIE
    STRICT_TRANSPORT_SECURITY TE TRAILER TRANSFER_ENCODING USER_AGENT UPGRADE UPGRADE_INSECURE_REQUESTS VARY VIA WARNING
    WWW_AUTHENTICATE X_CONTENT_TYPE_OPTIONS X_DNS_PREFETCH_CONTROL X_FRAME_OPTIONS X_XSS_PROTECTION
);

fn c24_names(r: &mut Rng, c: &mut Ctx, i: u64) {
    let (k, n) = &NAMES[i as usize % NAMES.len()];
    let want = k.to_ascii_lowercase().replace('_', "-");
    let low = n.name().to_ascii_lowercase();
    let d = || format!("{} is {:?}", k, n);
    c.check(low == want, "header-name", d);
    let Some(x) = c.call("HeaderName::from_bytes", &d, || HeaderName::from_bytes(want.as_bytes())) else { return };
    c.check(x.as_ref() == Some(n), "header-name-from-bytes", || format!("{:?}; {}", x, d()));
    let t = near(r, &want);
    c.seen(hash_bytes(t.as_bytes()));
    let Some(x) = c.call("HeaderName::from_bytes", &d, || HeaderName::from_bytes(t.as_bytes())) else { return };
    let Some(x) = x else { return };
    c.check(x.name().eq_ignore_ascii_case(&t), "header-name-text", || format!("{:?} for {:?}", x, t));
    for (k2, n2) in NAMES {
        let same = k2.to_ascii_lowercase().replace('_', "-") == t.to_ascii_lowercase();
        c.check((*n2 == x) == same, "header-name-collision", || format!("{:?} and {:?}", n2, x));
    }
}

// --------------------------------------------------------------- octets
/// the character classes, over all octets, and what each method carries
fn c24_octets(r: &mut Rng, c: &mut Ctx, i: u64) {
    use webparse::Helper as H;
    let b = i as u8;
    let d = || format!("octet {:#04x}", b);
    c.seen(b as u64);
    c.check(H::is_alpha(b) == b.is_ascii_alphabetic(), "is-alpha", d);
    c.check(H::is_digit(b) == b.is_ascii_digit(), "is-digit", d);
    c.check(H::is_hex(b) == b.is_ascii_hexdigit(), "is-hex", d);
    c.check(H::convert_hex(b) == (b as char).to_digit(16).map(|x| x as u8), "convert-hex", d);
    if b < 16 {
        c.check(H::to_hex(b) == b"0123456789ABCDEF"[b as usize], "to-hex", d);
    }
    // method and request target: visible characters only
    c.check(!H::is_token(b) || b.is_ascii_graphic(), "is-token", d);
    c.check(H::is_token(b) || !(b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)), "is-token", d);
    c.check(!H::is_uri_token(b) || b.is_ascii_graphic(), "is-uri-token", d);
    c.check(H::is_uri_token(b) || !(b.is_ascii_alphanumeric() || b"-._~:/?@!$&'()*+,;=%".contains(&b)), "is-uri-token", d);
    c.check(H::is_status_token(b) == (b == 9 || b == 32 || b.is_ascii_graphic() || b >= 0x80), "is-status-token", d);
    let n = r.len(12);
    let x = r.bytes(n);
    let mut y = x.clone();
    match r.below(4) {
        0 => y.iter_mut().for_each(|b| *b = if b.is_ascii_alphabetic() { *b ^ 32 } else { *b }),
        1 if n > 0 => {
            let k = r.below(n);
            y[k] ^= *r.pick(&[1, 32, 128])
        }
        2 => {
            y.pop();
        }
        _ => (),
    }
    let d = || format!("{} and {}", show(&x), show(&y));
    c.check(H::eq_bytes(&x, &y) == (x == y), "eq-bytes", d);
    c.check(H::eq_bytes_ignore_ascii_case(&x, &y) == x.eq_ignore_ascii_case(&y), "eq-ignore-case", d);
    // the body rules of each method
    for (m, no, res) in [
        (Method::GET, Some(true), Some(false)),
        (Method::HEAD, Some(true), Some(true)),
        (Method::CONNECT, None, None),
        (Method::POST, Some(false), Some(false)),
        (Method::PUT, Some(false), Some(false)),
        (Method::PATCH, Some(false), Some(false)),
    ] {
        let d = || format!("{}", m);
        if let Some(x) = no {
            c.check(m.is_nobody() == x, "request-body", d);
        }
        if let Some(x) = res {
            c.check(m.res_nobody() == x, "response-body", d);
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "Every value of every numeric domain (65536 statuses, close codes and settings identifiers, 256 frame types, flag octets and opcodes), and texts near each method, version, scheme and header name, also ones that only match under Unicode case folding, against tables typed from the registries. Non-trivial: a distinct value or text.",
        parts: vec![
            part("status", 65_536, 65_536, c24_status),
            part("status-text", 8 * 4096, 8 * 400_000, c24_status_text),
            part("method", 60_000, 3_000_000, c24_method),
            part("version", 40_000, 2_000_000, c24_version),
            part("scheme", 60_000, 3_000_000, c24_scheme),
            part("frame-types-and-flags", 256, 256 * 50, c24_frames),
            part("error-codes", 60_000, 4_000_000, c24_reason),
            part("settings-identifiers", 65_536 * 2, 65_536 * 40, c24_settings),
            part("close-codes", 65_536, 65_536, c24_close),
            part("header-names", 79 * 300, 79 * 10_000, c24_names),
            part("octets", 256 * 40, 256 * 4000, c24_octets),
        ],
        assumptions: vec!["the phrase of a status that is not in the registry is not judged", "frame types above 9 have no number of their own in the library"],
    }]
}
