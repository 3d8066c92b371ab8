//! C30: requests and responses keep their head and body through every
//! transformation.
use super::http1::{fields_of, gen_path, gen_query, gen_request, gen_response, observe, text, Fields, Want, METHODS, VERSIONS};
use crate::core::*;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::{Arc, RwLock};
use webparse::http::http2::HeaderIndex;
use webparse::http::{request, response};
use webparse::{HeaderMap, HeaderName, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version};

/// a body that can say what it holds
trait Body: Serialize + Clone + 'static {
    fn bytes(&self) -> Vec<u8>;
    fn make(b: &str) -> Self;
}
impl Body for String {
    fn bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn make(b: &str) -> Self {
        b.to_string()
    }
}
impl Body for Vec<u8> {
    fn bytes(&self) -> Vec<u8> {
        self.clone()
    }
    fn make(b: &str) -> Self {
        b.as_bytes().to_vec()
    }
}
impl Body for Binary {
    fn bytes(&self) -> Vec<u8> {
        self.chunk().to_vec()
    }
    fn make(b: &str) -> Self {
        Binary::from(b.as_bytes().to_vec())
    }
}
impl Body for BinaryMut {
    fn bytes(&self) -> Vec<u8> {
        self.chunk().to_vec()
    }
    fn make(b: &str) -> Self {
        BinaryMut::from(b.as_bytes().to_vec())
    }
}
impl Body for () {
    fn bytes(&self) -> Vec<u8> {
        vec![]
    }
    fn make(_: &str) -> Self {}
}
impl Body for &'static str {
    fn bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn make(b: &str) -> Self {
        const S: [&str; 4] = ["", "static", "a longer static body\r\n\r\n", "\u{4e2d}"];
        S[b.len() % 4]
    }
}
impl Body for &'static [u8] {
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn make(b: &str) -> Self {
        const S: [&[u8]; 4] = [b"", b"\0\xff", b"bytes", b"\r\n"];
        S[b.len() % 4]
    }
}

fn lower(v: Fields) -> Fields {
    v.into_iter().map(|(n, v)| (n.to_ascii_lowercase(), v)).collect()
}

fn put(m: &mut Fields, n: &str, v: &str) {
    let n = n.to_ascii_lowercase().into_bytes();
    match m.iter_mut().find(|f| f.0 == n) {
        Some(f) => f.1 = v.as_bytes().to_vec(),
        None => m.push((n, v.as_bytes().to_vec())),
    }
}

#[derive(Clone)]
struct Tag(u64);

type Idx = Arc<RwLock<HeaderIndex>>;

// ------------------------------------------------------------ requests
#[derive(Clone)]
struct RqModel {
    w: Want,
    body: Vec<u8>,
    partial: bool,
    tag: Option<u64>,
    index: Option<Idx>,
    hist: String,
}

macro_rules! any_body {
    ($any:ident, $msg:ident) => {
        enum $any {
            S($msg<String>),
            V($msg<Vec<u8>>),
            B($msg<Binary>),
            M($msg<BinaryMut>),
            U($msg<()>),
            T($msg<&'static str>),
            K($msg<&'static [u8]>),
        }
        impl From<$msg<String>> for $any {
            fn from(m: $msg<String>) -> Self {
                $any::S(m)
            }
        }
        impl From<$msg<Vec<u8>>> for $any {
            fn from(m: $msg<Vec<u8>>) -> Self {
                $any::V(m)
            }
        }
        impl From<$msg<Binary>> for $any {
            fn from(m: $msg<Binary>) -> Self {
                $any::B(m)
            }
        }
        impl From<$msg<BinaryMut>> for $any {
            fn from(m: $msg<BinaryMut>) -> Self {
                $any::M(m)
            }
        }
        impl From<$msg<()>> for $any {
            fn from(m: $msg<()>) -> Self {
                $any::U(m)
            }
        }
        impl From<$msg<&'static str>> for $any {
            fn from(m: $msg<&'static str>) -> Self {
                $any::T(m)
            }
        }
        impl From<$msg<&'static [u8]>> for $any {
            fn from(m: $msg<&'static [u8]>) -> Self {
                $any::K(m)
            }
        }
    };
}
any_body!(AnyRq, Request);
any_body!(AnyRs, Response);

macro_rules! with {
    ($any:ident, $v:expr, $q:ident => $e:expr) => {
        match $v {
            $any::S($q) => $e,
            $any::V($q) => $e,
            $any::B($q) => $e,
            $any::M($q) => $e,
            $any::U($q) => $e,
            $any::T($q) => $e,
            $any::K($q) => $e,
        }
    };
}

fn rq_look<T: Body>(c: &mut Ctx, q: &Request<T>, m: &RqModel) -> bool {
    let d = || m.hist.clone();
    let mut ok = true;
    let got = observe(q);
    ok &= c.check(got == m.w, "request-head", || format!("got {:?}, want {:?}; {}", got, m.w, m.hist));
    ok &= c.check(q.body().bytes() == m.body, "request-body", || format!("got {:?} want {:?}; {}", show(&q.body().bytes()), show(&m.body), m.hist));
    ok &= c.check(q.is_partial() == m.partial && q.is_complete() != m.partial, "request-partial", d);
    ok &= c.eq(&q.extensions().get::<Tag>().map(|t| t.0), &m.tag, "request-extensions", d);
    ok &= c.check(
        match (q.extensions().get::<Idx>(), &m.index) {
            (None, None) => true,
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            _ => false,
        },
        "request-index",
        d,
    );
    ok &= c.check(
        q.is_http2() == (m.w.version == Version::Http2)
            && q.parts().method == m.w.method
            && &q.parts().url.path == q.path()
            && q.path() == &m.w.path
            && q.scheme() == &m.w.scheme
            && q.parts().version == m.w.version,
        "request-accessors",
        d,
    );
    ok
}

fn rq_write<T: Body>(c: &mut Ctx, q: &mut Request<T>, m: &RqModel) {
    let a = q.http1_data();
    let mut b = BinaryMut::new();
    let n = q.encode_header(&mut b);
    let head = b.chunk().to_vec();
    match (a, n) {
        (Ok(a), Ok(n)) => {
            c.check(n == head.len() && a.len() == n + m.body.len() && a.starts_with(&head) && a.ends_with(&m.body), "request-write", || {
                format!("data {:?} head {:?} n {} body {:?}; {}", show(&a), show(&head), n, show(&m.body), m.hist)
            });
            let again = q.http1_data().ok();
            c.check(again.as_ref() == Some(&a), "request-write-again", || format!("{:?} then {:?}; {}", show(&a), again.map(|x| show(&x)), m.hist));
        }
        (a, n) => {
            c.check(a.is_err() && n.is_err(), "request-write", || format!("{:?} {:?}; {}", a.map(|x| show(&x)), n, m.hist));
        }
    }
}

fn rq_into<T: Body, U: Body>(c: &mut Ctx, q: Request<T>, m: &mut RqModel, s: &str) -> AnyRq
where
    AnyRq: From<Request<U>>,
{
    let nb = U::make(s);
    let want = nb.bytes();
    let (q, old) = q.into(nb);
    c.check(old.bytes() == m.body, "request-into-old-body", || m.hist.clone());
    m.body = want;
    q.into_any()
}

trait IntoAny {
    type A;
    fn into_any(self) -> Self::A;
}
impl<T: Body> IntoAny for Request<T>
where
    AnyRq: From<Request<T>>,
{
    type A = AnyRq;
    fn into_any(self) -> AnyRq {
        AnyRq::from(self)
    }
}
impl<T: Body> IntoAny for Response<T>
where
    AnyRs: From<Response<T>>,
{
    type A = AnyRs;
    fn into_any(self) -> AnyRs {
        AnyRs::from(self)
    }
}

fn rq_set<T: Body>(r: &mut Rng, c: &mut Ctx, q: &mut Request<T>, m: &mut RqModel, s: &str) {
    let k = r.below(14);
    m.hist.push_str(&format!(" set{}", k));
    match k {
        0 => {
            let x = r.pick(&METHODS).1.clone();
            q.set_method(x.clone());
            m.w.method = x;
        }
        1 => {
            let x = r.pick(&VERSIONS).1;
            q.set_version(x);
            m.w.version = x;
        }
        2 => {
            let x = gen_path(r);
            q.set_path(x.clone());
            m.w.path = x;
        }
        3 => {
            let x = r.pick(&[Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Wss, Scheme::None]).clone();
            q.set_scheme(x.clone());
            m.w.scheme = x;
        }
        4 => {
            let mut u = Url::new();
            u.path = gen_path(r);
            u.query = gen_query(r).filter(|q| q.is_ascii());
            if r.bool() {
                u.scheme = r.pick(&[Scheme::Http, Scheme::Https]).clone();
                u.domain = Some(r.pick(&["h.example", "10.0.0.1", "[::1]"]).to_string());
                u.port = Some(r.range(1, 65535) as u16);
                let host = format!("{}:{}", u.domain.as_ref().unwrap(), u.port.unwrap());
                if !m.w.headers.iter().any(|f| f.0 == b"host") {
                    put(&mut m.w.headers, "host", &host);
                }
            }
            q.set_url(u.clone());
            m.w.scheme = u.scheme;
            m.w.username = None;
            m.w.password = None;
            m.w.domain = u.domain;
            m.w.port = u.port;
            m.w.path = u.path;
            m.w.query = u.query;
        }
        5 => {
            let n = format!("x-{}", r.below(5));
            q.headers_mut().insert(n.clone(), s.to_string());
            put(&mut m.w.headers, &n, s);
        }
        6 => {
            let n = format!("X-{}", r.below(5));
            q.headers_body_mut().0.insert(n.clone(), "via-pair");
            put(&mut m.w.headers, &n, "via-pair");
        }
        7 => {
            let b = T::make(s);
            m.body = b.bytes();
            *q.headers_body_mut().1 = b;
        }
        8 => {
            let b = T::make(s);
            m.body = b.bytes();
            *q.body_mut() = b;
        }
        9 => {
            let t = r.u64();
            let old = q.extensions_mut().insert(Tag(t)).map(|t| t.0);
            c.check(old == m.tag, "request-extensions", || m.hist.clone());
            m.tag = Some(t);
        }
        10 => {
            let i: Idx = Arc::new(RwLock::new(HeaderIndex::new()));
            q.extensions_mut().insert(i.clone());
            m.index = Some(i);
        }
        11 => {
            let x = r.pick(&VERSIONS).1;
            q.parts_mut().version = x;
            m.w.version = x;
        }
        12 => {
            let x = gen_path(r);
            q.url_mut().path = x.clone();
            m.w.path = x;
        }
        _ => {
            let (h, b) = q.headers_body();
            let ok = lower(fields_of(h)) == m.w.headers && b.bytes() == m.body;
            c.check(ok, "request-headers-body", || m.hist.clone());
            let ok = lower(fields_of(q.headers())) == m.w.headers;
            c.check(ok, "request-headers-body", || m.hist.clone());
        }
    }
}

fn c30_request(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let s0 = text_of(r);
    let mut q: AnyRq;
    let mut hist;
    match r.below(4) {
        0 => {
            let k = gen_request(r);
            let mut x = Request::new();
            let bytes = k.bytes.clone();
            let ok = match c.call("parse", &|| show(&bytes), || x.parse(&k.bytes).is_ok()) {
                Some(ok) => ok,
                None => return,
            };
            if !ok {
                return;
            }
            hist = format!("parsed {:?}", show(&k.bytes));
            q = AnyRq::U(x);
        }
        1 => {
            hist = "new".to_string();
            q = AnyRq::U(Request::new());
        }
        2 => {
            let cut = b"GET /x HTTP/1.1\r\nHost: a\r\n";
            let mut x = Request::new();
            let n = r.range(0, cut.len());
            let _ = x.parse(&cut[..n]);
            c.check(x.is_partial(), "request-partial", || format!("parsed {} octets", n));
            hist = "partial".to_string();
            q = AnyRq::U(x);
        }
        _ => {
            let b = Request::builder().method(r.pick(&METHODS).0).url("http://h.example:81/p?q=1").header("X-0", "0");
            q = match r.below(4) {
                0 => AnyRq::S(b.body(s0.clone()).unwrap()),
                1 => AnyRq::V(b.body(s0.clone().into_bytes()).unwrap()),
                2 => AnyRq::T(b.body("static").unwrap()),
                _ => AnyRq::M(b.body(BinaryMut::from(s0.as_bytes())).unwrap()),
            };
            hist = "built".to_string();
        }
    }
    let (w, body, partial) = with!(AnyRq, &q, q => (observe(q), q.body().bytes(), q.is_partial()));
    let mut m = RqModel { w, body, partial, tag: None, index: None, hist: String::new() };
    std::mem::swap(&mut m.hist, &mut hist);
    let mut h = hash_bytes(m.hist.as_bytes());
    let n = r.range(1, 14);
    for _ in 0..n {
        let s = text_of(r);
        let op = r.below(10);
        h = mix(h ^ op as u64 ^ hash_bytes(s.as_bytes()));
        match op {
            0 | 1 => {
                let k = r.below(7);
                m.hist.push_str(&format!(" into{}", k));
                q = match k {
                    0 => with!(AnyRq, q, q => rq_into::<_, String>(c, q, &mut m, &s)),
                    1 => with!(AnyRq, q, q => rq_into::<_, Vec<u8>>(c, q, &mut m, &s)),
                    2 => with!(AnyRq, q, q => rq_into::<_, Binary>(c, q, &mut m, &s)),
                    3 => with!(AnyRq, q, q => rq_into::<_, BinaryMut>(c, q, &mut m, &s)),
                    4 => with!(AnyRq, q, q => rq_into::<_, ()>(c, q, &mut m, &s)),
                    5 => with!(AnyRq, q, q => rq_into::<_, &'static str>(c, q, &mut m, &s)),
                    _ => with!(AnyRq, q, q => rq_into::<_, &'static [u8]>(c, q, &mut m, &s)),
                };
            }
            2 => {
                m.hist.push_str(" into_type");
                q = match q {
                    AnyRq::S(q) => AnyRq::V(q.into_type()),
                    AnyRq::V(q) if r.bool() => AnyRq::B(q.into_type()),
                    AnyRq::V(q) => AnyRq::M(q.into_type()),
                    AnyRq::T(q) if r.bool() => AnyRq::S(q.into_type()),
                    AnyRq::T(q) => AnyRq::B(q.into_type()),
                    AnyRq::K(q) => AnyRq::B(q.into_type()),
                    AnyRq::U(q) => AnyRq::U(q.into_type()),
                    o => o,
                };
            }
            3 => {
                m.hist.push_str(" replace_clone");
                let keep = r.bool();
                fn go<T: Body>(c: &mut Ctx, mut q: Request<T>, m: &mut RqModel, s: &str, keep: bool) -> Request<T> {
                    let nb = T::make(s);
                    let new_body = nb.bytes();
                    let out = q.replace_clone(nb);
                    // the copy has the old body; what a codec needs is shared,
                    // everything else an owner put in stays with the original
                    let mut copy = m.clone();
                    copy.tag = None;
                    rq_look(c, &out, &copy);
                    m.body = new_body;
                    rq_look(c, &q, m);
                    if keep {
                        q
                    } else {
                        *m = copy;
                        out
                    }
                }
                q = with!(AnyRq, q, q => go(c, q, &mut m, &s, keep).into_any());
            }
            4 => {
                m.hist.push_str(" write");
                let mm = m.clone();
                with!(AnyRq, &mut q, q => rq_write(c, q, &mm));
            }
            5 => {
                m.hist.push_str(" parts");
                // a head taken over by another request
                fn go<T: Body>(q: &Request<T>) -> Request<()> {
                    Request::new_by_parts(q.parts().clone())
                }
                let x = with!(AnyRq, &q, q => go(q));
                let mut mm = m.clone();
                mm.tag = None;
                mm.body = vec![];
                mm.partial = false;
                rq_look(c, &x, &mm);
            }
            6 => {
                // a builder started from this request
                fn go<T: Body>(q: &Request<T>) -> request::Builder {
                    request::Builder::from_req(q)
                }
                let b = with!(AnyRq, &q, q => go(q));
                m.hist.push_str(" from_req");
                let want_m = if m.w.method == Method::None { Method::Get } else { m.w.method.clone() };
                let want_v = if m.w.version == Version::None { Version::Http11 } else { m.w.version };
                c.check(b.method_ref() == Some(&want_m) && b.version_ref() == Some(&want_v), "from_req", || m.hist.clone());
                c.check(b.url_ref() == Some(with!(AnyRq, &q, q => q.url())), "from_req", || m.hist.clone());
                let nq = b.body(()).unwrap();
                let got = observe(&nq);
                let mut want = m.w.clone();
                want.method = want_m;
                want.version = want_v;
                want.headers = got.headers.clone();
                c.check(got == want, "from_req", || format!("got {:?} want {:?}; {}", got, want, m.hist));
            }
            _ => with!(AnyRq, &mut q, q => rq_set(r, c, q, &mut m, &s)),
        }
        if !with!(AnyRq, &q, q => rq_look(c, q, &m)) {
            return;
        }
    }
    // what is shown is what is written
    let shown = match &q {
        AnyRq::S(q) => Some(q.to_string()),
        AnyRq::T(q) => Some(q.to_string()),
        _ => None,
    };
    if let (Some(s), Some(d)) = (shown, with!(AnyRq, &mut q, q => q.http1_data().ok())) {
        if std::str::from_utf8(&d).is_ok() {
            c.check(s.as_bytes() == &d[..], "request-display", || format!("{:?} written {:?}; {}", s, show(&d), m.hist));
            c.count("requests displayed and written");
        }
    }
    c.seen(h);
    c.max("operations", n as u64);
    c.sample(|| m.hist.clone());
}

fn text_of(r: &mut Rng) -> String {
    let n = r.len(40);
    text(r, n).replace(['\r', '\n', '\0'], " ").trim().to_string()
}

// ------------------------------------------------------------ responses
#[derive(Clone, PartialEq, Debug)]
struct RsHead {
    version: Version,
    status: StatusCode,
    headers: Fields,
}
#[derive(Clone)]
struct RsModel {
    w: RsHead,
    body: Vec<u8>,
    partial: bool,
    tag: Option<u64>,
    index: Option<Idx>,
    hist: String,
}

fn rs_head<T: Body>(q: &Response<T>) -> RsHead {
    RsHead { version: q.version(), status: q.status(), headers: lower(fields_of(q.headers())) }
}

fn rs_look<T: Body>(c: &mut Ctx, q: &Response<T>, m: &RsModel) -> bool {
    let d = || m.hist.clone();
    let mut ok = true;
    let got = rs_head(q);
    ok &= c.check(got == m.w, "response-head", || format!("got {:?}, want {:?}; {}", got, m.w, m.hist));
    ok &= c.check(q.body().bytes() == m.body, "response-body", || format!("got {:?} want {:?}; {}", show(&q.body().bytes()), show(&m.body), m.hist));
    ok &= c.check(q.is_partial() == m.partial, "response-partial", d);
    ok &= c.eq(&q.extensions().get::<Tag>().map(|t| t.0), &m.tag, "response-extensions", d);
    ok &= c.check(
        match (q.extensions().get::<Idx>(), &m.index) {
            (None, None) => true,
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            _ => false,
        },
        "response-index",
        d,
    );
    ok
}

fn rs_write<T: Body>(c: &mut Ctx, q: &mut Response<T>, m: &RsModel) {
    let a = q.httpdata();
    let mut b = BinaryMut::new();
    let n = q.encode_header(&mut b);
    let head = b.chunk().to_vec();
    let mut b = BinaryMut::new();
    let sn = q.serialize(&mut b);
    let ser = b.chunk().to_vec();
    match (a, n, sn) {
        (Ok(a), Ok(n), Ok(sn)) => {
            c.check(n == head.len() && a.len() == n + m.body.len() && a.starts_with(&head) && a.ends_with(&m.body), "response-write", || {
                format!("data {:?} head {:?} n {} body {:?}; {}", show(&a), show(&head), n, show(&m.body), m.hist)
            });
            c.check(ser == a && sn == ser.len(), "response-serialize", || format!("{:?} and {:?} n {}; {}", show(&a), show(&ser), sn, m.hist));
            let again = q.httpdata().ok();
            c.check(again.as_ref() == Some(&a), "response-write-again", || format!("{:?} then {:?}; {}", show(&a), again.map(|x| show(&x)), m.hist));
        }
        (a, n, sn) => {
            c.check(a.is_err() && n.is_err() && sn.is_err(), "response-write", || format!("{:?} {:?} {:?}; {}", a.map(|x| show(&x)), n, sn, m.hist));
        }
    }
}

fn rs_into<T: Body, U: Body>(c: &mut Ctx, q: Response<T>, m: &mut RsModel, s: &str, map: bool) -> AnyRs
where
    AnyRs: From<Response<U>>,
{
    let nb = U::make(s);
    let want = nb.bytes();
    let out = if map {
        let mut old = None;
        let out = q.map(|b| {
            old = Some(b.bytes());
            nb
        });
        c.check(old.as_ref() == Some(&m.body), "response-map", || m.hist.clone());
        out
    } else {
        let (q, old) = q.into(nb);
        c.check(old.bytes() == m.body, "response-into-old-body", || m.hist.clone());
        q
    };
    m.body = want;
    out.into_any()
}

fn rs_set<T: Body>(r: &mut Rng, c: &mut Ctx, q: &mut Response<T>, m: &mut RsModel, s: &str) {
    let k = r.below(9);
    m.hist.push_str(&format!(" set{}", k));
    match k {
        0 => {
            let x = StatusCode::from_u16(r.range(100, 599) as u16).unwrap();
            *q.status_mut() = x;
            m.w.status = x;
        }
        1 => {
            let x = r.pick(&VERSIONS).1;
            *q.version_mut() = x;
            m.w.version = x;
        }
        2 => {
            let n = format!("x-{}", r.below(5));
            q.headers_mut().insert(n.clone(), s.to_string());
            put(&mut m.w.headers, &n, s);
        }
        3 => {
            let n = format!("X-{}", r.below(5));
            q.headers_body_mut().0.insert(n.clone(), "via-pair");
            put(&mut m.w.headers, &n, "via-pair");
        }
        4 => {
            let b = T::make(s);
            m.body = b.bytes();
            match r.below(3) {
                0 => *q.headers_body_mut().1 = b,
                1 => *q.body_mut() = b,
                _ => q.replace_body(b),
            }
        }
        5 => {
            let t = r.u64();
            let old = q.extensions_mut().insert(Tag(t)).map(|t| t.0);
            c.check(old == m.tag, "response-extensions", || m.hist.clone());
            m.tag = Some(t);
        }
        6 => {
            let i: Idx = Arc::new(RwLock::new(HeaderIndex::new()));
            q.extensions_mut().insert(i.clone());
            m.index = Some(i);
        }
        _ => {
            let (h, b) = q.headers_body();
            let ok = lower(fields_of(h)) == m.w.headers && b.bytes() == m.body;
            c.check(ok, "response-headers-body", || m.hist.clone());
        }
    }
}

fn c30_response(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let s0 = text_of(r);
    let mut q: AnyRs;
    let hist;
    let mut tag = None;
    match r.below(5) {
        0 => {
            let k = gen_response(r);
            let mut x = Response::new(());
            if x.parse(&k.bytes).is_err() {
                return;
            }
            hist = format!("parsed {:?}", show(&k.bytes));
            q = AnyRs::U(x);
        }
        1 => {
            hist = "new".to_string();
            q = match r.below(3) {
                0 => AnyRs::S(Response::new(s0.clone())),
                1 => AnyRs::S(Response::default()),
                _ => AnyRs::T(Response::new("fresh")),
            };
        }
        2 => {
            let cut = b"HTTP/1.1 200 OK\r\nA: b\r\n";
            let mut x = Response::new(());
            let n = r.range(0, cut.len());
            let _ = x.parse(&cut[..n]);
            c.check(x.is_partial(), "response-partial", || format!("parsed {} octets", n));
            hist = "partial".to_string();
            q = AnyRs::U(x);
        }
        3 => {
            let (b, st, ty) = match r.below(6) {
                0 => (Response::text(), 200, "text/plain; charset=utf-8"),
                1 => (Response::json(), 200, "application/json; charset=utf-8"),
                2 => (Response::status404(), 404, "text/html; charset=utf-8"),
                3 => (Response::status500(), 500, "text/html; charset=utf-8"),
                4 => (Response::status502(), 502, "text/html; charset=utf-8"),
                _ => (Response::status503(), 503, "text/html; charset=utf-8"),
            };
            let x = b.body(s0.clone()).unwrap();
            c.check(x.status() == st && x.headers().get_option_value(&"content-type").map(|v| v.to_string()) == Some(ty.to_string()), "canned-response", || format!("{:?}", x));
            hist = "canned".to_string();
            q = AnyRs::S(x);
        }
        _ => {
            let t = r.u64();
            let b = Response::builder().status(r.range(100, 599) as u16).header("X-0", "0").extension(Tag(t));
            c.check(b.extensions_ref().and_then(|e| e.get::<Tag>()).map(|t| t.0) == Some(t), "builder-extension", String::new);
            tag = Some(t);
            q = match r.below(4) {
                0 => AnyRs::S(b.body(s0.clone()).unwrap()),
                1 => AnyRs::V(b.body(s0.clone().into_bytes()).unwrap()),
                2 => AnyRs::T(b.body("static").unwrap()),
                _ => AnyRs::M(b.body(BinaryMut::from(s0.as_bytes())).unwrap()),
            };
            hist = "built".to_string();
        }
    }
    let (w, body, partial) = with!(AnyRs, &q, q => (rs_head(q), q.body().bytes(), q.is_partial()));
    let mut m = RsModel { w, body, partial, tag, index: None, hist };
    let mut h = hash_bytes(m.hist.as_bytes());
    let n = r.range(1, 14);
    for _ in 0..n {
        let s = text_of(r);
        let op = r.below(10);
        h = mix(h ^ op as u64 ^ hash_bytes(s.as_bytes()));
        match op {
            0 | 1 => {
                let k = r.below(7);
                let map = r.bool();
                m.hist.push_str(&format!(" {}{}", if map { "map" } else { "into" }, k));
                q = match k {
                    0 => with!(AnyRs, q, q => rs_into::<_, String>(c, q, &mut m, &s, map)),
                    1 => with!(AnyRs, q, q => rs_into::<_, Vec<u8>>(c, q, &mut m, &s, map)),
                    2 => with!(AnyRs, q, q => rs_into::<_, Binary>(c, q, &mut m, &s, map)),
                    3 => with!(AnyRs, q, q => rs_into::<_, BinaryMut>(c, q, &mut m, &s, map)),
                    4 => with!(AnyRs, q, q => rs_into::<_, ()>(c, q, &mut m, &s, map)),
                    5 => with!(AnyRs, q, q => rs_into::<_, &'static str>(c, q, &mut m, &s, map)),
                    _ => with!(AnyRs, q, q => rs_into::<_, &'static [u8]>(c, q, &mut m, &s, map)),
                };
            }
            2 => {
                m.hist.push_str(" into_type");
                q = match q {
                    AnyRs::S(q) => AnyRs::V(q.into_type()),
                    AnyRs::V(q) if r.bool() => AnyRs::B(q.into_type()),
                    AnyRs::V(q) => AnyRs::M(q.into_type()),
                    AnyRs::T(q) if r.bool() => AnyRs::S(q.into_type()),
                    AnyRs::T(q) => AnyRs::B(q.into_type()),
                    AnyRs::K(q) => AnyRs::B(q.into_type()),
                    AnyRs::U(q) => AnyRs::U(q.into_type()),
                    o => o,
                };
            }
            3 => {
                m.hist.push_str(" replace_clone");
                let keep = r.bool();
                fn go<T: Body>(c: &mut Ctx, mut q: Response<T>, m: &mut RsModel, s: &str, keep: bool) -> Response<T> {
                    let nb = T::make(s);
                    let new_body = nb.bytes();
                    let out = q.replace_clone(nb);
                    let mut copy = m.clone();
                    copy.tag = None;
                    rs_look(c, &out, &copy);
                    m.body = new_body;
                    rs_look(c, &q, m);
                    if keep {
                        q
                    } else {
                        *m = copy;
                        out
                    }
                }
                q = with!(AnyRs, q, q => go(c, q, &mut m, &s, keep).into_any());
            }
            4 => {
                m.hist.push_str(" write");
                let mm = m.clone();
                with!(AnyRs, &mut q, q => rs_write(c, q, &mm));
            }
            5 => {
                m.hist.push_str(" into_binary");
                q = AnyRs::B(with!(AnyRs, q, q => q.into_binary()));
            }
            6 => {
                m.hist.push_str(" into_parts");
                fn go<T: Body>(c: &mut Ctx, q: Response<T>, m: &mut RsModel) -> Response<T> {
                    let (p, b): (response::Parts, T) = q.into_parts();
                    c.check(p.status == m.w.status && p.version == m.w.version && lower(fields_of(&p.header)) == m.w.headers, "into_parts", || m.hist.clone());
                    let q2 = Response::from_parts(p.clone(), b.clone());
                    let mut mm = m.clone();
                    mm.partial = false;
                    mm.tag = None;
                    rs_look(c, &q2, &mm);
                    c.check(q2.into_body().bytes() == m.body, "into_body", || m.hist.clone());
                    m.partial = false;
                    Response::from_parts(p, b)
                }
                q = with!(AnyRs, q, q => go(c, q, &mut m).into_any());
            }
            _ => with!(AnyRs, &mut q, q => rs_set(r, c, q, &mut m, &s)),
        }
        if !with!(AnyRs, &q, q => rs_look(c, q, &m)) {
            return;
        }
    }
    let shown = match &q {
        AnyRs::S(q) => Some(q.to_string()),
        AnyRs::T(q) => Some(q.to_string()),
        _ => None,
    };
    if let (Some(s), Some(d)) = (shown, with!(AnyRs, &mut q, q => q.httpdata().ok())) {
        if std::str::from_utf8(&d).is_ok() && m.w.status.canonical_reason().is_some() {
            c.check(s.as_bytes() == &d[..], "response-display", || format!("{:?} written {:?}; {}", s, show(&d), m.hist));
            c.count("responses displayed and written");
        }
    }
    c.seen(h);
    c.max("operations", n as u64);
    c.sample(|| m.hist.clone());
}

// ------------------------------------------------------------ builders
/// a builder shows what it was given, keeps its first error, and hands over
/// exactly what it shows
fn c30_builders(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut hist = String::new();
    let mut h = 0u64;
    if r.bool() {
        let mut b = request::Builder::new();
        let mut w = Want {
            method: Method::Get,
            version: Version::Http11,
            scheme: Scheme::None,
            username: None,
            password: None,
            domain: None,
            port: None,
            path: "/".into(),
            query: None,
            headers: vec![],
        };
        let mut failed = false;
        let mut length = 0isize;
        for _ in 0..r.range(0, 8) {
            let k = r.below(10);
            h = mix(h ^ k as u64);
            hist.push_str(&format!(" {}", k));
            match k {
                0 => {
                    let m = r.pick(&METHODS);
                    b = if r.bool() { b.method(m.0) } else { b.method(m.1.clone()) };
                    w.method = m.1.clone();
                }
                1 => {
                    let x = r.pick(&VERSIONS).1;
                    b = b.version(x);
                    w.version = x;
                }
                2 => {
                    let port = r.range(1, 65535) as u16;
                    let path = format!("/p{}", r.below(100));
                    b = b.url(format!("http://u.example:{}{}?k=v", port, path));
                    w.scheme = Scheme::Http;
                    w.domain = Some("u.example".into());
                    w.port = Some(port);
                    w.path = path;
                    w.query = Some("k=v".into());
                    w.username = None;
                    put(&mut w.headers, "host", &format!("u.example:{}", port));
                }
                3 => {
                    let n = format!("X-{}", r.below(6));
                    let v = text_of(r);
                    b = b.header(n.clone(), v.clone());
                    put(&mut w.headers, &n, &v);
                }
                4 => {
                    let mut m = HeaderMap::new();
                    for _ in 0..r.below(4) {
                        let n = format!("x-{}", r.below(6));
                        let v = format!("m{}", r.below(50));
                        m.insert(n.clone(), v.clone());
                        put(&mut w.headers, &n, &v);
                    }
                    // the model above wrote them in insertion order; so does the map
                    b = b.headers(m);
                }
                5 if !failed => {
                    let v = format!("d{}", r.below(50));
                    b.headers_mut().unwrap().insert("X-Direct", v.clone());
                    put(&mut w.headers, "x-direct", &v);
                }
                9 => {
                    let n = r.below(1 << 20);
                    b = b.header(HeaderName::CONTENT_LENGTH, n);
                    put(&mut w.headers, "content-length", &n.to_string());
                    length = n as isize;
                }
                7 => {
                    let n = *r.pick(&["Host", "Referer", "cookie", "User-Agent"]);
                    let v = format!("t{}.example:{}", r.below(50), r.below(99));
                    b = b.header(n, v.clone());
                    put(&mut w.headers, n, &v);
                }
                6 if r.chance(1, 4) => {
                    b = match r.below(3) {
                        0 => b.method("G E T"),
                        1 => b.method("NOSUCH"),
                        _ => b.url("http://h:99999/"),
                    };
                    failed = true;
                    hist.push('!');
                }
                _ => {}
            }
            let ok = c.check(
                b.method_ref().is_none() == failed && b.url_ref().is_none() == failed && b.version_ref().is_none() == failed && b.headers_ref().is_none() == failed && b.headers_mut().is_none() == failed,
                "builder-error-kept",
                || hist.clone(),
            );
            if !ok {
                return;
            }
            if !failed {
                c.check(b.method_ref() == Some(&w.method) && b.version_ref() == Some(&w.version), "request-builder", || format!("{:?} {:?}", b, hist));
                c.check(b.url_ref().map(|u| u.path.clone()) == Some(w.path.clone()), "request-builder", || format!("{:?} {:?}", b, hist));
                c.check(b.headers_ref().map(|h| lower(fields_of(h))) == Some(w.headers.clone()), "request-builder", || format!("{:?} {:?} {:?}", b, w.headers, hist));
            }
        }
        let n = b.get_body_len();
        c.check(n == if failed { 0 } else { length }, "builder-body-len", || hist.clone());
        let s = text_of(r);
        match b.body(s.clone()) {
            Ok(q) => {
                if !w.headers.iter().any(|f| f.0 == b"user-agent") {
                    put(&mut w.headers, "user-agent", "wenmeng");
                }
                c.check(!failed, "builder-error-kept", || hist.clone());
                let got = observe(&q);
                c.check(got == w && q.body() == &s, "request-builder", || format!("got {:?} want {:?} {}", got, w, hist));
                let field = |n: &str| w.headers.iter().find(|f| f.0 == n.as_bytes()).map(|f| String::from_utf8(f.1.clone()).unwrap());
                c.eq(&q.get_host(), &w.domain.clone().or(field("host")), "get-host", || format!("{:?} {}", w, hist));
                c.check(q.get_referer() == field("referer") && q.get_user_agent() == field("user-agent") && q.get_cookie() == field("cookie"), "get-field", || format!("{:?} {}", w, hist));
            }
            Err(_) => {
                c.check(failed, "request-builder", || hist.clone());
            }
        }
    } else {
        let mut b = response::Builder::new();
        let mut w = RsHead { version: Version::Http11, status: StatusCode::OK, headers: vec![] };
        let mut failed = false;
        let mut tag = None;
        let mut length = 0isize;
        for _ in 0..r.range(0, 8) {
            let k = r.below(10);
            h = mix(h ^ (k as u64 + 100));
            hist.push_str(&format!(" {}", k));
            match k {
                0 => {
                    let m = r.range(100, 999) as u16;
                    b = if r.bool() { b.status(m) } else { b.status(StatusCode::from_u16(m).unwrap()) };
                    w.status = StatusCode::from_u16(m).unwrap();
                }
                1 => {
                    let x = r.pick(&VERSIONS).1;
                    b = b.version(x);
                    w.version = x;
                }
                2 => {
                    let n = format!("X-{}", r.below(6));
                    let v = text_of(r);
                    b = b.header(n.clone(), v.clone());
                    put(&mut w.headers, &n, &v);
                }
                3 => {
                    let mut m = HeaderMap::new();
                    for _ in 0..r.below(4) {
                        let n = format!("x-{}", r.below(6));
                        let v = format!("m{}", r.below(50));
                        m.insert(n.clone(), v.clone());
                        put(&mut w.headers, &n, &v);
                    }
                    b = b.headers(m);
                }
                4 if !failed => {
                    let v = format!("d{}", r.below(50));
                    b.headers_mut().unwrap().insert("X-Direct", v.clone());
                    put(&mut w.headers, "x-direct", &v);
                }
                5 => {
                    let t = r.u64();
                    b = b.extension(Tag(t));
                    tag = Some(t);
                }
                8 => {
                    // the method of the request a promised response answers
                    let m = r.pick(&METHODS).0;
                    b = b.method(m.to_string());
                    put(&mut w.headers, ":method", m);
                }
                9 => {
                    let n = r.below(1 << 20);
                    b = b.header(HeaderName::CONTENT_LENGTH, n);
                    put(&mut w.headers, "content-length", &n.to_string());
                    length = n as isize;
                }
                6 if r.chance(1, 4) => {
                    b = b.status(*r.pick(&[0u16, 99, 1000, 65535]));
                    failed = true;
                    hist.push('!');
                }
                _ => {}
            }
            let ok = c.check(
                b.headers_ref().is_none() == failed && b.headers_mut().is_none() == failed && b.extensions_ref().is_none() == failed,
                "builder-error-kept",
                || hist.clone(),
            );
            if !ok {
                return;
            }
            if !failed {
                c.check(b.headers_ref().map(|h| lower(fields_of(h))) == Some(w.headers.clone()), "response-builder", || format!("{:?} {:?} {:?}", b, w.headers, hist));
                c.check(b.extensions_ref().and_then(|e| e.get::<Tag>().map(|t| t.0)) == tag, "response-builder", || hist.clone());
            }
        }
        let n = b.get_body_len();
        c.check(n == if failed { 0 } else { length }, "builder-body-len", || hist.clone());
        let s = text_of(r);
        match b.body(s.clone()) {
            Ok(q) => {
                if !w.headers.iter().any(|f| f.0 == b"server") {
                    put(&mut w.headers, "server", "wenmeng");
                }
                c.check(!failed, "builder-error-kept", || hist.clone());
                let got = rs_head(&q);
                c.check(got == w && q.body() == &s && !q.is_partial(), "response-builder", || format!("got {:?} want {:?} {}", got, w, hist));
                c.check(q.extensions().get::<Tag>().map(|t| t.0) == tag, "response-builder", || hist.clone());
            }
            Err(_) => {
                c.check(failed, "response-builder", || hist.clone());
            }
        }
    }
    c.seen(mix(h ^ r.u64()));
    c.sample(|| hist.clone());
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "Random histories of transformations and setters over requests and responses with seven body types, started from parsed, built, fresh and partial messages, compared with a model after every step; builder histories with and without errors. Non-trivial: a distinct history.",
        parts: vec![
            part("requests", 120_000, 4_000_000, c30_request),
            part("responses", 120_000, 4_000_000, c30_response),
            part("builders", 80_000, 2_000_000, c30_builders),
        ],
        assumptions: vec!["a copy of a head shares its HPACK table and takes none of the other extensions, as Parts::clone documents by construction"],
    }]
}
