//! Every decoder of the library on arbitrary octets, and everything that can
//! be asked of what it returned. Used by C05, C26, C27 and C29.
use crate::core::*;
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use std::str::FromStr;
use webparse::http2::frame::{
    read_u24, read_u31, read_u64, ErrorCode, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Ping, Priority, PushPromise, Reset,
    Settings, SizeIncrement, StreamDependency, StreamIdentifier, WindowUpdate,
};
use webparse::http2::{encoder::Encoder, Decoder, HuffmanDecoder, HuffmanEncoder};
use webparse::ws::frame_header::read_header;
use webparse::ws::{CloseCode, DataFrame, DataFrameable, Message, Opcode, OwnedMessage};
use webparse::{
    HeaderMap, HeaderName, HeaderValue, Helper, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version, WebError,
    WebResult,
};

/// what was seen, in order, folded into one number, and what was wrong
pub struct Eye {
    pub h: u64,
    pub bad: Vec<String>,
    pub ok: u64,
    pub err: u64,
}

impl Eye {
    pub fn new() -> Eye {
        Eye { h: 1, bad: vec![], ok: 0, err: 0 }
    }
    pub fn n(&mut self, v: u64) {
        self.h = mix(self.h ^ v);
    }
    pub fn b(&mut self, v: &[u8]) {
        self.h = mix(self.h ^ hash_bytes(v));
    }
    /// text the library handed out must be text
    pub fn s(&mut self, v: &str) {
        if std::str::from_utf8(v.as_bytes()).is_err() {
            self.bad.push(format!("a string that is not UTF-8: {}", show(v.as_bytes())));
            return;
        }
        self.b(v.as_bytes());
    }
    /// debug text, which may hold addresses: it has to be text, no more
    pub fn dbg(&mut self, v: String) {
        if std::str::from_utf8(v.as_bytes()).is_err() {
            self.bad.push("debug text that is not UTF-8".to_string());
        }
    }
    pub fn os(&mut self, v: &Option<String>) {
        match v {
            Some(v) => self.s(v),
            None => self.n(3),
        }
    }
    pub fn ose(&mut self, v: Option<&String>) {
        match v {
            Some(v) => self.s(v),
            None => self.n(3),
        }
    }
    pub fn res<T>(&mut self, r: &WebResult<T>) -> bool {
        match r {
            Ok(_) => {
                self.ok += 1;
                self.n(5)
            }
            Err(e) => {
                self.err += 1;
                self.error(e)
            }
        }
        r.is_ok()
    }
    pub fn error(&mut self, e: &WebError) {
        self.n(e.is_partial() as u64);
        let s = format!("{} {:?}", e, e);
        self.s(&s);
    }
    fn req(&mut self, cond: bool, what: &str) {
        if !cond {
            self.bad.push(what.to_string());
        }
    }
}

pub fn headers(e: &mut Eye, m: &HeaderMap) {
    e.n(m.len() as u64);
    e.req(m.is_empty() == (m.len() == 0), "is_empty and len disagree");
    for (n, v) in m.iter() {
        e.s(n.name());
        e.b(n.as_bytes());
        e.n(n.bytes_len() as u64);
        e.n(n.is_spec() as u64);
        e.b(v.as_bytes());
        e.n(v.bytes_len() as u64);
        e.os(&v.as_string());
        let a: Result<usize, _> = v.try_into();
        e.n(a.map(|x| x as u64).unwrap_or(7));
        let a: Result<isize, _> = v.try_into();
        e.n(a.map(|x| x as u64).unwrap_or(7));
        let a: Result<String, _> = v.try_into();
        e.os(&a.ok());
        e.n(v.contains(b"a") as u64);
        e.n(v.contains(b"") as u64);
        e.n(m.contains(n) as u64);
        e.b(m.get_option_value(n).map(|v| v.as_bytes()).unwrap_or(b"?"));
        e.b(m.get_value(n).as_bytes());
        e.os(&m.get_str_value(n));
        e.n(m.is_contains(n, v.as_bytes()) as u64);
        e.n(m.is_equal(n, v.as_bytes()) as u64);
        e.s(&format!("{} {} {:?} {:?}", n, v, n, v));
    }
    e.os(&m.get_host());
    e.os(&m.get_referer());
    e.os(&m.get_user_agent());
    e.os(&m.get_cookie());
    e.n(m.get_body_len() as u64);
    e.n(m.is_keep_alive() as u64);
    e.n(m.is_chunked() as u64);
    e.os(&m.get_upgrade_protocol());
    e.s(&m.to_string());
    let mut b = BinaryMut::new();
    let r = m.encode(&mut b);
    if e.res(&r) {
        e.req(r.unwrap() == b.remaining(), "encoded size of a header map");
        e.b(b.chunk());
    }
}

pub fn url(e: &mut Eye, u: &Url) {
    e.s(u.scheme.as_str());
    e.os(&u.username);
    e.os(&u.password);
    e.os(&u.domain);
    e.n(u.port.map(|p| p as u64).unwrap_or(1 << 40));
    e.s(&u.path);
    e.os(&u.query);
    e.s(&u.get_authority());
    e.s(&u.get_scheme());
    e.os(&u.get_connect_url());
    e.s(&u.to_string());
    e.s(&format!("{:?}", u));
    let mut v = Url::new();
    v.merge(u.clone());
    e.s(&v.to_string());
    let mut v = u.clone();
    v.merge(Url::new());
    e.n((&v == u) as u64);
}

fn request<T: Serialize + std::fmt::Debug>(e: &mut Eye, q: &mut Request<T>) {
    e.s(q.method().as_str());
    e.n(q.method().is_nobody() as u64);
    e.n(q.method().res_nobody() as u64);
    e.s(q.version().as_str());
    e.n(q.is_partial() as u64);
    e.n(q.is_http2() as u64);
    url(e, q.url());
    e.s(q.path());
    e.s(q.scheme().as_str());
    headers(e, q.headers());
    e.os(&q.get_host());
    e.os(&q.get_referer());
    e.os(&q.get_user_agent());
    e.os(&q.get_cookie());
    e.os(&q.get_connect_url());
    e.n(q.get_body_len() as u64);
    e.s(&q.get_authority());
    e.s(&q.get_scheme());
    e.n(q.is_keep_alive() as u64);
    e.s(&format!("{:?}", q.parts()));
    let r = q.http1_data();
    if e.res(&r) {
        e.b(&r.unwrap());
    }
}

fn response(e: &mut Eye, q: &mut Response<()>) {
    let s = q.status();
    status(e, s);
    e.s(q.version().as_str());
    e.n(q.is_partial() as u64);
    headers(e, q.headers());
    e.n(q.get_body_len() as u64);
    let r = q.httpdata();
    if e.res(&r) {
        e.b(&r.unwrap());
    }
}

fn status(e: &mut Eye, s: StatusCode) {
    e.n(s.as_u16() as u64);
    e.s(s.as_str());
    e.s(s.canonical_reason().unwrap_or("none"));
    e.n(s.is_informational() as u64 + 2 * s.is_success() as u64 + 4 * s.is_redirection() as u64 + 8 * s.is_client_error() as u64 + 16 * s.is_server_error() as u64);
    e.s(&s.to_string());
    let (n, v) = s.build_header();
    e.s(n.name());
    e.b(v.as_bytes());
}

/// octets to each HTTP/1 entry point
pub fn http1(e: &mut Eye, b: &[u8]) {
    let mut q = Request::new();
    let r = q.parse(b);
    if e.res(&r) {
        let n = r.unwrap();
        e.req(n <= b.len(), "consumed more than there is");
        e.n(n as u64);
    }
    request(e, &mut q);
    let mut q = Request::new();
    let mut x = CountBt::new(b.to_vec());
    let r = q.parse_buffer(&mut x);
    if e.res(&r) {
        e.req(r.unwrap() == x.pos(), "reported size and buffer position differ");
    }
    request(e, &mut q);
    // the same request object again, with other octets
    let mut x = Binary::from(b[b.len() / 2..].to_vec());
    let r = q.parse_buffer(&mut x);
    e.res(&r);
    request(e, &mut q);

    let mut q = Response::new(());
    let r = q.parse(b);
    if e.res(&r) {
        let n = r.unwrap();
        e.req(n <= b.len(), "consumed more than there is");
        e.n(n as u64);
    }
    response(e, &mut q);
    let mut q = Response::new(());
    let mut x = CountBt::new(b.to_vec());
    let r = q.parse_buffer(&mut x);
    if e.res(&r) {
        e.req(r.unwrap() == x.pos(), "reported size and buffer position differ");
    }
    response(e, &mut q);
    let mut x = BinaryRef::from(&b[b.len() / 3..]);
    let r = q.parse_buffer(&mut x);
    e.res(&r);
    response(e, &mut q);
    chunks(e, b);
}

pub fn chunks(e: &mut Eye, b: &[u8]) {
    let mut x = CountBt::new(b.to_vec());
    let r = Helper::parse_chunk_data(&mut x);
    if e.res(&r) {
        let (at, n) = r.unwrap();
        e.req(at <= b.len() && n <= b.len() - at, "a chunk that is not there");
        e.n(at as u64);
        e.n(n as u64);
    }
    let mut x: &[u8] = b;
    e.n(Helper::skip_new_line(&mut x).is_ok() as u64);
    e.n(x.len() as u64);
    let mut out = BinaryMut::new();
    let r = Helper::encode_chunk_data(&mut out, b);
    e.req(r.ok() == Some(out.remaining()), "encoded size of a chunk");
}

/// octets, read as text where they are text, to each small reader
pub fn texts(e: &mut Eye, b: &[u8]) {
    for x in b.iter().take(8) {
        e.n(Helper::is_token(*x) as u64 + 2 * Helper::is_status_token(*x) as u64 + 4 * Helper::is_alpha(*x) as u64 + 8 * Helper::is_digit(*x) as u64);
        e.n(Helper::is_hex(*x) as u64 + 2 * Helper::is_uri_token(*x) as u64);
        e.n(Helper::convert_hex(*x).map(|x| x as u64).unwrap_or(99));
        e.n(Helper::to_hex(*x & 15) as u64);
    }
    let (l, r) = b.split_at(b.len() / 2);
    e.n(Helper::contains_bytes(b, r) as u64 + 2 * Helper::eq_bytes(l, r) as u64 + 4 * Helper::eq_bytes_ignore_ascii_case(l, r) as u64);
    let u = Url::parse(b.to_vec());
    if e.res(&u) {
        url(e, &u.unwrap());
    }
    let u = Url::try_from(b);
    e.res(&u);
    let s = StatusCode::from_bytes(b);
    if e.res(&s) {
        status(e, s.unwrap());
    }
    let s = StatusCode::try_from(b);
    e.n(s.is_ok() as u64);
    let v = HeaderValue::from_bytes(b);
    e.b(v.as_bytes());
    e.s(&v.to_string());
    e.os(&v.as_string());
    let x: Result<usize, _> = (&v).try_into();
    e.n(x.map(|x| x as u64).unwrap_or(7));
    let x: Result<isize, _> = (&v).try_into();
    e.n(x.map(|x| x as u64).unwrap_or(7));
    let mut v2 = v.clone();
    v2.push(HeaderValue::from_bytes(r));
    e.b(v2.as_bytes());
    if let Some(n) = HeaderName::from_bytes(b) {
        e.s(n.name());
        e.s(&n.to_string());
        e.b(n.as_bytes());
    }
    let mut x = CountBt::new(b.to_vec());
    let s = Scheme::parse_scheme(&mut x);
    if e.res(&s) {
        e.s(s.unwrap().as_str());
    }
    let Ok(t) = std::str::from_utf8(b) else { return };
    let u = Url::from_str(t);
    if e.res(&u) {
        url(e, &u.unwrap());
    }
    let u = Url::try_from(t.to_string());
    e.res(&u);
    e.s(&Url::url_encode(t));
    let d = Url::url_decode(t);
    if e.res(&d) {
        e.s(&d.unwrap());
    }
    let m = Method::try_from(t);
    if e.res(&m) {
        let mut m = m.unwrap();
        e.s(m.as_str());
        let mut b = BinaryMut::new();
        e.res(&m.encode(&mut b));
        e.b(b.chunk());
    }
    e.n(Method::from_str(t).is_ok() as u64);
    let s = Scheme::try_from(t);
    if e.res(&s) {
        e.s(s.unwrap().as_str());
    }
    e.n(Scheme::from_str(t).is_ok() as u64);
    e.n(StatusCode::from_str(t).is_ok() as u64);
    e.n(StatusCode::try_from(t).is_ok() as u64);
    let n = HeaderName::try_from(t.to_string());
    if let Ok(n) = n {
        e.s(n.name());
    }
    let s = Settings::default().parse_http_settings(t);
    if e.res(&s) {
        let s = s.unwrap();
        e.s(&s.encode_http_settings());
    }
    let mut q = Request::new();
    q.headers_mut().insert("Host", t.to_string());
    q.headers_mut().insert("Content-Length", t.to_string());
    q.headers_mut().insert("Connection", t.to_string());
    q.headers_mut().insert("Transfer-Encoding", t.to_string());
    q.headers_mut().insert("Upgrade", t.to_string());
    headers(e, q.headers());
    let b = Request::builder().method(t).body(());
    e.n(b.is_ok() as u64);
    let b = Request::builder().url(t).body(());
    if e.res(&b) {
        let mut q = b.unwrap();
        request(e, &mut q);
    }
    let b = Request::builder().header(t.to_string(), t.to_string()).body(());
    if e.res(&b) {
        let mut q = b.unwrap();
        request(e, &mut q);
    }
    let b = Response::builder().status(t).header("A", t.to_string()).body(());
    e.n(b.is_ok() as u64);
    let u = Url::builder().domain(t.to_string()).path(t.to_string()).query(t.to_string()).scheme("http").port(1).build();
    if e.res(&u) {
        url(e, &u.unwrap());
    }
    e.n(Version::None.is_http1() as u64);
}

fn dep(e: &mut Eye, d: &StreamDependency) {
    e.s(&format!("{:?}", d));
}

fn settings(e: &mut Eye, s: &Settings) {
    for v in [s.initial_window_size(), s.max_concurrent_streams(), s.max_frame_size(), s.max_header_list_size(), s.header_table_size()] {
        e.n(v.map(|v| v as u64).unwrap_or(1 << 40));
    }
    e.n(s.is_push_enabled().map(|v| v as u64).unwrap_or(9));
    e.n(s.is_extended_connect_protocol_enabled().map(|v| v as u64).unwrap_or(9));
    e.n(s.is_ack() as u64);
    e.n(s.payload_len() as u64);
    e.s(&format!("{:?}", s));
    let t = s.encode_http_settings();
    e.s(&t);
    let back = Settings::default().parse_http_settings(&t);
    e.res(&back);
    let mut b = BinaryMut::new();
    e.res(&s.encode(&mut b));
    e.b(b.chunk());
}

/// everything that can be asked of a frame, then it is written out again
fn frame(e: &mut Eye, f: Frame<Binary>, enc: &mut Encoder) {
    e.dbg(format!("{:?}", f));
    e.s(&f.display_name());
    e.n(f.stream_id().0 as u64);
    e.n(f.flags().bits() as u64);
    e.n(f.is_header() as u64 + 2 * f.is_data() as u64 + 4 * f.is_end_headers() as u64 + 8 * f.is_end_stream() as u64 + 16 * f.no_serialize_header() as u64);
    // the announced length of a header frame is only known once it is encoded
    match &f {
        Frame::Headers(h) => {
            headers(e, h.fields());
        }
        Frame::PushPromise(h) => {
            headers(e, h.fields());
        }
        Frame::Settings(s) => {
            settings(e, s);
        }
        Frame::Data(d) => {
            e.b(d.payload().chunk());
        }
        _ => {}
    }
    let keep = match f {
        Frame::Headers(h) => {
            let mut hh = h;
            e.ose(hh.path().as_ref());
            e.ose(hh.authority().as_ref());
            let m = hh.method().clone();
            e.n(m.is_some() as u64);
            if let Some(s) = *hh.status() {
                status(e, s);
            }
            e.n(hh.is_informational() as u64 + 2 * hh.is_over_size() as u64);
            let u = hh.parts_mut().build_url();
            if e.res(&u) {
                url(e, &u.unwrap());
            }
            // converted either way by way of copies
            fn copy(hh: &mut Headers) -> Headers {
                let mut fl = HeaderMap::new();
                for (k, v) in hh.fields().iter() {
                    fl.insert(k.clone(), v.clone());
                }
                let mut n = Headers::new(FrameHeader::new(Kind::Headers, hh.flags(), hh.stream_id()), fl);
                if let Some(m) = hh.method().clone() {
                    n.set_method(m);
                }
                if let Some(m) = hh.scheme().clone() {
                    n.set_scheme(m);
                }
                if let Some(m) = hh.authority().clone() {
                    n.set_authority(m);
                }
                if let Some(m) = hh.path().clone() {
                    n.set_path(m);
                }
                if let Some(m) = *hh.status() {
                    n.set_status(m);
                }
                n
            }
            let r = copy(&mut hh).into_request(Request::builder()).and_then(|b| b.body(()));
            if e.res(&r) {
                let mut q = r.unwrap();
                e.n(PushPromise::validate_request(&q).is_ok() as u64);
                request(e, &mut q);
            }
            let r = copy(&mut hh).into_response(Response::builder()).and_then(|b| b.body(()));
            if e.res(&r) {
                response(e, &mut r.unwrap());
            }
            let (mut p2, mut f2) = copy(&mut hh).into_parts();
            p2.encode_header(&mut f2);
            headers(e, &f2);
            let mut out = BinaryMut::new();
            let r = hh.encode(enc, &mut out);
            if e.res(&r) {
                e.req(r.unwrap() == out.remaining(), "encoded size of a header frame");
            }
            e.b(out.chunk());
            None
        }
        f => Some(f),
    };
    if let Some(f) = keep {
        let l = f.encoded_len();
        e.n(l as u64);
        let mut out = BinaryMut::new();
        let r = f.encode(&mut out, enc);
        if e.res(&r) {
            e.req(r.unwrap() == out.remaining(), "encoded size of a frame");
        }
        e.b(out.chunk());
    }
}

/// frames one after the other until the octets run out
pub fn h2(e: &mut Eye, b: &[u8], d: &mut Decoder, limit: usize) {
    let mut enc = Encoder::new();
    let mut x: &[u8] = b;
    let mut k = 0;
    while !x.is_empty() && k < 40 {
        k += 1;
        let h = FrameHeader::parse(&mut x);
        if !e.res(&h) {
            break;
        }
        let h = h.unwrap();
        e.n(h.length as u64);
        e.n(h.kind().encode() as u64);
        e.n(h.flag().bits() as u64);
        e.n(h.stream_id().0 as u64);
        e.s(&format!("{:?}", h));
        let mut o = BinaryMut::new();
        e.res(&h.encode(&mut o));
        let n = (h.length as usize).min(x.len());
        let (p, rest) = x.split_at(n);
        let short = n < h.length as usize;
        x = rest;
        if short {
            break;
        }
        match k % 3 {
            0 => {
                let r = Frame::<Binary>::parse(h, Binary::from(p.to_vec()), d, limit);
                if e.res(&r) {
                    frame(e, r.unwrap(), &mut enc);
                }
            }
            1 => {
                let r = Frame::<BinaryMut>::parse(h, BinaryMut::from(p.to_vec()), d, limit);
                if e.res(&r) {
                    let f = r.unwrap();
                    e.dbg(format!("{:?}", f));
                    e.n(f.encoded_len() as u64);
                }
            }
            _ => {
                let r = Frame::<CountBt>::parse(h, CountBt::new(p.to_vec()), d, limit);
                if e.res(&r) {
                    let f = r.unwrap();
                    e.dbg(format!("{:?}", f));
                    e.n(f.no_serialize_header() as u64);
                }
            }
        }
    }
}

/// payload readers of single frame kinds, whatever the header says
pub fn h2_payloads(e: &mut Eye, b: &[u8], d: &mut Decoder, limit: usize) {
    let hdr = |k: u8| {
        let f = Flag::new(b.first().copied().unwrap_or(0)).unwrap_or(Flag::zero());
        let mut h = FrameHeader::new(Kind::new(k), f, StreamIdentifier(b.len() as u32 % 3));
        h.length = b.len() as u32;
        h
    };
    e.n(Kind::new(b.first().copied().unwrap_or(0)).encode() as u64);
    let r = GoAway::parse(&mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        let g = r.unwrap();
        e.b(g.debug_data().chunk());
        e.s(g.reason().description());
        e.dbg(format!("{:?}", g));
    }
    let r = Ping::parse(hdr(6), &mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        let g = r.unwrap();
        e.b(g.payload());
        e.b(g.ret_pong().payload());
    }
    let r = Priority::parse(hdr(2), &mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        let g = r.unwrap();
        e.n(g.weight() as u64);
        e.n(g.dependency_id().0 as u64);
    }
    let r = Reset::parse(hdr(3), &mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        e.s(r.unwrap().reason().description());
    }
    let r = Settings::parse(hdr(4), &mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        settings(e, &r.unwrap());
    }
    let r = WindowUpdate::parse(hdr(8), &mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        e.n(r.unwrap().size_increment() as u64);
    }
    let r = StreamDependency::load(&mut CountBt::new(b.to_vec()));
    if e.res(&r) {
        dep(e, &r.unwrap());
    }
    let r = PushPromise::parse(hdr(5), CountBt::new(b.to_vec()), d, limit);
    if e.res(&r) {
        let g = r.unwrap();
        e.n(g.promised_id().0 as u64);
        headers(e, g.fields());
    }
    let mut h = Headers::new(hdr(1), HeaderMap::new());
    let r = h.parse(CountBt::new(b.to_vec()), d, limit);
    e.res(&r);
    headers(e, h.fields());
    if b.len() >= 8 {
        // these take what is announced to be there
        e.n(read_u64(&mut CountBt::new(b.to_vec())));
        e.n(read_u31(&mut CountBt::new(b.to_vec())) as u64);
        e.n(read_u24(&mut CountBt::new(b.to_vec())) as u64);
        e.n(StreamIdentifier::parse(&mut CountBt::new(b.to_vec())).0 as u64);
        e.n(SizeIncrement::parse(&mut CountBt::new(b.to_vec())).0 as u64);
        e.n(ErrorCode::parse(&mut CountBt::new(b.to_vec())).0 as u64);
    }
}

/// a header block, with whatever state the decoder has by now
pub fn hpack(e: &mut Eye, b: &[u8], d: &mut Decoder) {
    let mut x = CountBt::new(b.to_vec());
    let r = d.decode(&mut x);
    if e.res(&r) {
        for (n, v) in r.unwrap() {
            e.s(n.name());
            e.b(v.as_bytes());
            e.s(&v.to_string());
        }
    }
    {
        let i = d.index.read().unwrap();
        e.n(i.get_size() as u64);
        e.n(i.len() as u64);
        e.req(i.get_size() <= i.get_max_table_size(), "the table is larger than its limit");
        for k in [0, 1, 61, 62, 63, 61 + i.to_vec().len(), 62 + i.to_vec().len(), usize::MAX] {
            if let Some((n, v)) = i.get_from_index(k) {
                e.s(n.name());
                e.b(v.as_bytes());
            } else {
                e.n(9);
            }
        }
    }
    let mut hd = HuffmanDecoder::new();
    let r = hd.decode(b);
    if e.res(&r) {
        let v = r.unwrap();
        e.b(&v);
        let back = HuffmanEncoder::encode(&v);
        e.req(back == b, "a Huffman string that is not its own encoding");
    }
    e.b(&HuffmanEncoder::encode(b));
    e.b(&HuffmanEncoder::encode_lower(b));
}

pub fn ws(e: &mut Eye, b: &[u8]) {
    let mut x = CountBt::new(b.to_vec());
    let r = read_header(&mut x);
    if e.res(&r) {
        let h = r.unwrap();
        e.n(h.len);
        e.n(h.opcode as u64);
    }
    let mut x = CountBt::new(b.to_vec());
    let mut frames = vec![];
    for k in 0..50 {
        let r = match k % 3 {
            0 => DataFrame::read_dataframe(&mut x, true),
            1 => DataFrame::read_dataframe(&mut x, false),
            _ => DataFrame::read_dataframe_with_limit(&mut x, false, 1000),
        };
        if !e.res(&r) {
            break;
        }
        let f = r.unwrap();
        e.n(f.opcode as u64);
        e.b(&f.data);
        e.n(f.frame_size(true) as u64);
        e.n(f.is_last() as u64);
        let mut out = BinaryMut::new();
        let r = f.write_to(&mut out, if b.len() % 2 == 0 { None } else { Some([1, 2, 3, 4]) });
        if e.res(&r) {
            e.n(out.remaining() as u64);
        }
        frames.push(f);
    }
    for f in &frames {
        message(e, vec![f.clone()]);
    }
    message(e, frames);
    for x in b.iter().take(4) {
        if let Some(o) = Opcode::new(*x) {
            e.n(o as u64);
        }
    }
    if b.len() >= 2 {
        let c = CloseCode::from(u16::from_be_bytes([b[0], b[1]]));
        let n: u16 = c.into();
        e.n(n as u64);
    }
}

fn message(e: &mut Eye, frames: Vec<DataFrame>) {
    let r = OwnedMessage::from_dataframes(frames);
    if e.res(&r) {
        let m = r.unwrap();
        match &m {
            OwnedMessage::Text(t) => e.s(t),
            OwnedMessage::Close(Some(d)) => {
                e.s(&d.reason);
                e.n(d.status_code as u64);
            }
            _ => {}
        }
        e.n(m.is_close() as u64 + 2 * m.is_control() as u64 + 4 * m.is_data() as u64 + 8 * m.is_ping() as u64 + 16 * m.is_pong() as u64);
        e.n(m.message_size(true) as u64);
        let mut m: Message = m.into();
        e.s(&format!("{:?}", m));
        e.n(m.size() as u64);
        let mut out = BinaryMut::new();
        e.res(&m.write_to(&mut out, None));
        e.b(out.chunk());
        e.n(m.into_pong().is_ok() as u64);
        e.b(&m.take_payload());
    }
}
