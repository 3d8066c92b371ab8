//! C08 header collection, C09 body framing.
use crate::core::*;
use crate::props::http1::fields_of;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use webparse::{HeaderMap, HeaderName, HeaderValue, Helper, Request, Response, WebError, WebResult};

/// names that collide under a sloppy comparison but are different, and names
/// that are equal but for the case of ASCII letters
const NAMES: &[&str] = &[
    "host", "Host", "HOST", "accept", "ACCEPT", "Accept", "x-a", "X-A", "x_a", "x-b", "content-length", "Content-Length",
    "x[", "x{", "X[", "x@", "x`", "x^", "x~", "x]", "x}", "x\\", "x|", "x\u{b}", "x+", "é", "É", "\u{212a}", "k", "K", "ſ", "s", "S",
    "accept-encoding", "accept-language", "a", "", "x", "x ", "x-ab", "set-cookie", "Set-Cookie", "ı", "i", "I",
    "\u{0}x", " x", "x-1", "x-\u{11}", "cookie", "Cookie", ":path", ":PATH", "te", "TE", "e", "t",
];
const VALUES: &[&str] = &["", "a", "b", "value", "a;b", "é", "12", "  padded ", "VALUE", "Value", "0", "x\u{0}y"];

fn key(n: &[u8]) -> Vec<u8> {
    n.to_ascii_lowercase()
}

#[derive(Default, Clone)]
struct Model(Vec<(Vec<u8>, Vec<u8>)>);

impl Model {
    fn pos(&self, n: &[u8]) -> Option<usize> {
        self.0.iter().position(|(k, _)| *k == key(n))
    }
    fn insert(&mut self, n: &[u8], v: &[u8]) {
        match self.pos(n) {
            Some(i) => self.0[i].1 = v.to_vec(),
            None => self.0.push((key(n), v.to_vec())),
        }
    }
    fn push(&mut self, n: &[u8], v: &[u8]) {
        match self.pos(n) {
            Some(i) => {
                self.0[i].1.push(b';');
                self.0[i].1.extend(v);
            }
            None => self.0.push((key(n), v.to_vec())),
        }
    }
    fn remove(&mut self, n: &[u8]) -> Option<Vec<u8>> {
        self.pos(n).map(|i| self.0.remove(i).1)
    }
    fn get(&self, n: &[u8]) -> Option<&Vec<u8>> {
        self.pos(n).map(|i| &self.0[i].1)
    }
}

fn gen_name(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        // few names, so that operations meet
        *r.pick(&NAMES[..10])
    } else {
        *r.pick(NAMES)
    }
}

fn dyn_name(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        // every letter, in either case
        let n = r.len(20).max(1);
        String::from_utf8(r.from_set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0189-_[]{}@`^~", n)).unwrap()
    } else if r.chance(1, 5) {
        let n = r.range(1, 3);
        (0..n).map(|_| *r.pick(&['a', 'A', 'b', 'B', '-', '[', '{', 'z', 'Z', '@', '`'])).collect()
    } else {
        let s = gen_name(r).to_string();
        s.chars().map(|c| if r.chance(1, 3) { if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
    }
}

/// a name that differs from this one at one place only
fn near(r: &mut Rng, n: &[u8]) -> String {
    let mut b = n.to_vec();
    if b.is_empty() {
        b.push(b'x');
    }
    let at = if r.chance(1, 3) { b.len() - 1 } else { r.below(b.len()) };
    match r.below(6) {
        0 => b.push(b'x'),
        1 if b.len() > 1 => {
            b.pop();
        }
        _ => b[at] = *r.pick(b"axAX09-_[`"),
    }
    String::from_utf8_lossy(&b).to_string()
}

fn gen_value_bytes(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) {
        let n = r.len(30);
        r.bytes(n)
    } else {
        r.pick(VALUES).as_bytes().to_vec()
    }
}

fn show_map(m: &HeaderMap) -> String {
    format!("{:?}", fields_of(m).iter().map(|(n, v)| (show(n), show(v))).collect::<Vec<_>>())
}

fn check_all(r: &mut Rng, c: &mut Ctx, m: &HeaderMap, model: &Model, log: &[String]) -> bool {
    let d = || format!("map {}; after {}", show_map(m), log.join(", "));
    let got: Vec<(Vec<u8>, Vec<u8>)> = fields_of(m).into_iter().map(|(n, v)| (key(&n), v)).collect();
    let mut ok = c.check(got == model.0, "content", || format!("model {:?}; {}", model.0.iter().map(|(n, v)| (show(n), show(v))).collect::<Vec<_>>(), d()));
    ok &= c.eq(&m.len(), &model.0.len(), "len", d);
    ok &= c.eq(&m.is_empty(), &model.0.is_empty(), "is_empty", d);
    // lookups, present or not, in any form
    for _ in 0..2 {
        let n = if model.0.len() > 10 && r.bool() {
            let i = r.below(model.0.len());
            String::from_utf8_lossy(&model.0[i].0).to_string()
        } else if !model.0.is_empty() && r.chance(1, 6) {
            let i = r.below(model.0.len());
            near(r, &model.0[i].0)
        } else {
            dyn_name(r)
        };
        let want = model.get(n.as_bytes());
        ok &= c.eq(&m.contains(&n), &want.is_some(), "contains", || format!("{:?}; {}", n, d()));
        ok &= c.eq(&m.contains(&HeaderName::Value(n.clone())), &want.is_some(), "contains", || format!("{:?}; {}", n, d()));
        ok &= c.eq(&m.get_option_value(&n).map(|v| v.as_bytes().to_vec()).as_ref(), &want, "get", || format!("{:?}; {}", n, d()));
        ok &= c.eq(&m.get_str_value(&n), &want.and_then(|v| String::from_utf8(v.clone()).ok()), "get_str", || format!("{:?}; {}", n, d()));
        if let Some(w) = want {
            ok &= c.check(m.get_value(&n).as_bytes() == &w[..], "get_value", || format!("{:?}; {}", n, d()));
            ok &= c.check(m.is_equal(&n, w), "is_equal", || format!("{:?}; {}", n, d()));
            let a = r.below(w.len() + 1);
            let b = a + r.below(w.len() - a + 1);
            ok &= c.check(m.is_contains(&n, &w[a..b]), "is_contains", || format!("{:?} {}; {}", n, show(&w[a..b]), d()));
        }
        let other = gen_value_bytes(r);
        ok &= c.eq(&m.is_equal(&n, &other), &(want == Some(&other)), "is_equal", || format!("{:?} {}; {}", n, show(&other), d()));
        let inside = want.map_or(false, |w| other.is_empty() || w.windows(other.len()).any(|x| x == &other[..]));
        ok &= c.eq(&m.is_contains(&n, &other), &inside, "is_contains", || format!("{:?} {}; {}", n, show(&other), d()));
    }
    ok
}

fn c08_history(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut m = HeaderMap::new();
    let mut model = Model::default();
    let mut log: Vec<String> = vec![];
    let steps = r.range(3, 24);
    let mut h = 0u64;
    // now and then a map of many fields, and operations on those
    let many = if r.chance(1, 100) { *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 256, 300]) } else { 0 };
    for i in 0..many {
        let n = format!("{}-{}", dyn_name(r), i);
        let v = gen_value_bytes(r);
        m.push(n.clone(), HeaderValue::from_bytes(&v));
        model.push(n.as_bytes(), &v);
    }
    if r.chance(1, 40) {
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&[60, 127, 128, 129, 255, 256, 257, 600]);
            let n = String::from_utf8(r.from_set(b"abcdefghijklmnopqrstuvwxyzABCDEF-0", k)).unwrap();
            let v = gen_value_bytes(r);
            m.push(n.clone(), HeaderValue::from_bytes(&v));
            model.push(n.as_bytes(), &v);
            log.push(format!("{} pushed", n));
        }
        c.count("map with long names");
    }
    if many > 0 {
        c.count("map of many fields");
        log.push(format!("{} fields pushed", many));
    }
    for _ in 0..steps {
        let op = r.below(16);
        let n = if many > 0 && r.chance(2, 3) && !model.0.is_empty() {
            let i = r.below(model.0.len());
            let n = String::from_utf8_lossy(&model.0[i].0).to_string();
            if r.bool() { n.to_ascii_uppercase() } else { n }
        } else if !model.0.is_empty() && r.chance(1, 12) {
            let i = r.below(model.0.len());
            near(r, &model.0[i].0)
        } else {
            dyn_name(r)
        };
        let v = gen_value_bytes(r);
        let d = |log: &Vec<String>| log.join(", ");
        let (what, dlog) = (format!("op {} {:?} {}", op, n, show(&v)), log.clone());
        log.push(what);
        h = mix(h ^ hash_bytes(log.last().unwrap().as_bytes()));
        {
            match op {
                0 => {
                    m.insert(n.clone(), HeaderValue::Value(v.clone()));
                    model.insert(n.as_bytes(), &v);
                }
                1 => {
                    let (n, v) = (gen_name(r), *r.pick(VALUES));
                    log.push(format!("static {:?} {:?}", n, v));
                    m.insert(n, v);
                    model.insert(n.as_bytes(), v.as_bytes());
                }
                2 => {
                    let x = r.u64() as usize;
                    m.insert(HeaderName::from_bytes(n.as_bytes()).unwrap(), x);
                    model.insert(n.as_bytes(), x.to_string().as_bytes());
                }
                3 => {
                    let x = r.u64() as isize;
                    m.insert(HeaderName::Value(n.clone()), x);
                    model.insert(n.as_bytes(), x.to_string().as_bytes());
                }
                4 => {
                    let s = String::from_utf8_lossy(&v).to_string();
                    m.insert(n.clone(), s.clone());
                    model.insert(n.as_bytes(), s.as_bytes());
                }
                5 | 6 => {
                    m.push(n.clone(), HeaderValue::from_bytes(&v));
                    model.push(n.as_bytes(), &v);
                }
                7 => {
                    let (n, v) = (gen_name(r), *r.pick(VALUES));
                    log.push(format!("static {:?} {:?}", n, v));
                    m.push(n, v);
                    model.push(n.as_bytes(), v.as_bytes());
                }
                8 | 9 => {
                    let got = if r.bool() { m.remove(&n) } else { m.remove(&HeaderName::Value(n.clone())) };
                    let want = model.remove(n.as_bytes());
                    let got = got.map(|v| v.as_bytes().to_vec());
                    c.eq(&got, &want, "remove", || format!("{:?} after {}", n, d(&dlog)));
                }
                10 if r.chance(1, 3) => {
                    m.clear();
                    model.0.clear();
                }
                11 => {
                    let n = gen_name(r);
                    log.push(format!("index_mut {:?}", n));
                    let had = model.get(n.as_bytes()).cloned().unwrap_or_default();
                    let place: &mut HeaderValue = &mut m[n];
                    c.check(place.as_bytes() == &had[..], "index_mut", || format!("{:?} instead of {:?} after {}", place, show(&had), d(&dlog)));
                    *place = HeaderValue::from_bytes(&v);
                    model.insert(n.as_bytes(), &v);
                    c.check(m[n].as_bytes() == &v[..], "index", || format!("{:?} after {}", n, d(&dlog)));
                }
                12 => {
                    // through iter_mut and get_mut_value
                    if let Some(i) = model.pos(n.as_bytes()) {
                        model.0[i].1 = v.clone();
                        *m.get_mut_value(&n) = HeaderValue::from_bytes(&v);
                    } else if !model.0.is_empty() {
                        let i = r.below(model.0.len());
                        model.0[i].1 = v.clone();
                        if let Some(x) = m.iter_mut().nth(i) {
                            x.1 = HeaderValue::from_bytes(&v);
                        }
                    }
                }
                13 => {
                    // a clone is equal and independent
                    let mut k = m.clone();
                    c.check(k == m, "clone-eq", || d(&dlog));
                    k.insert("only-in-the-clone", "1");
                    c.check(k != m, "eq", || d(&dlog));
                    k.remove(&"only-in-the-clone");
                    c.check(k == m, "clone-eq", || d(&dlog));
                    if !model.0.is_empty() {
                        let i = r.below(model.0.len());
                        let name = String::from_utf8(model.0[i].0.clone()).unwrap();
                        let mut w = model.0[i].1.clone();
                        w.push(b'!');
                        k.insert(name, HeaderValue::Value(w));
                        c.check(k != m, "eq", || d(&dlog));
                    }
                }
                14 => {
                    // rebuilt from its own fields, names in another case and form
                    let mut k = HeaderMap::new();
                    for (n, v) in m.clone() {
                        let s: String = n.name().chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                        k.insert(s, HeaderValue::from_bytes(v.as_bytes()));
                    }
                    c.check(k == m && m == k, "eq-other-form", || format!("{} and {} after {}", show_map(&k), show_map(&m), d(&dlog)));
                    c.count("rebuilt and compared");
                }
                _ => {
                    let before = m.len();
                    let taken = std::mem::replace(&mut m, HeaderMap::new());
                    let list: Vec<_> = taken.into_iter().collect();
                    c.eq(&list.len(), &before, "into_iter", || d(&dlog));
                    for (n, v) in list {
                        m.insert(n, v);
                    }
                }
            }
        }
        if !check_all(r, c, &m, &model, &log) {
            return;
        }
        c.count("operations");
    }
    c.seen(h);
    c.max("fields held", model.0.len() as u64);
    // text forms
    let mut want = vec![];
    for (n, v) in m.iter() {
        want.extend(n.as_bytes());
        want.extend(b": ");
        want.extend(v.as_bytes());
        want.extend(b"\r\n");
    }
    want.extend(b"\r\n");
    let bad = model.0.iter().any(|(n, v)| n.iter().chain(v).any(|b| [0, b'\r', b'\n'].contains(b)));
    let mut b = BinaryMut::new();
    match m.encode(&mut b) {
        Ok(n) => {
            c.check(!bad, "encode-accepted", || show(&want));
            c.check(b.chunk() == &want[..] && n == want.len(), "encode", || format!("{} returned {}, want {}", show(b.chunk()), n, show(&want)));
        }
        Err(_) => {
            c.check(bad, "encode-refused", || show(&want));
        }
    }
    if std::str::from_utf8(&want).is_ok() {
        c.check(m.to_string().as_bytes() == &want[..], "display", || format!("{:?}", m.to_string()));
    }
}

/// names and values compare by content, whatever form they are given in
fn c08_forms(r: &mut Rng, c: &mut Ctx, i: u64) {
    let (a, b) = if i % 4 == 0 {
        // any letters, against a spelling of the same or nearly the same name
        let n = if i % 200 == 0 { *r.pick(&[15, 16, 17, 31, 32, 33, 64, 128, 129, 255, 256, 257, 300]) } else { r.range(1, 3) };
        let s = r.from_set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0189-_[]{}@`^~", n);
        let mut t: Vec<u8> = s.iter().map(|b| if b.is_ascii_alphabetic() && r.bool() { b ^ 32 } else { *b }).collect();
        if r.chance(1, 3) {
            let at = r.below(n);
            t[at] ^= *r.pick(&[1, 32, 2, 4]);
            if t[at] >= 127 || t[at] < 32 {
                t[at] = b'_';
            }
        }
        (leak_pool(String::from_utf8(s).unwrap()), leak_pool(String::from_utf8(t).unwrap()))
    } else {
        (gen_name(r), if r.bool() { gen_name(r) } else { *r.pick(&["x-a", "X-a", "x-A", "x[", "x{", "K"]) })
    };
    let (a, b) = (a, if r.bool() { other_copy(b) } else { b });
    let mk = |s: &'static str, k: usize| match k {
        0 => HeaderName::from_static(s),
        1 => HeaderName::Value(s.to_string()),
        2 => HeaderName::from_bytes(s.as_bytes()).unwrap(),
        _ => HeaderName::try_from(s.to_string()).unwrap(),
    };
    let (x, y) = (mk(a, r.below(4)), mk(b, r.below(4)));
    let same = key(a.as_bytes()) == key(b.as_bytes());
    let d = || format!("{:?} and {:?}", a, b);
    c.seen_bytes(format!("{:?}{:?}", a, b).as_bytes());
    c.eq(&(x == y), &same, "name-eq", d);
    c.eq(&(y == x), &same, "name-eq", d);
    c.eq(&(x == b), &same, "name-eq-str", d);
    c.eq(&(x == b.as_bytes()), &same, "name-eq-bytes", d);
    c.eq(&(b.as_bytes() == x), &same, "name-eq-bytes", d);
    if same {
        let hash = |n: &HeaderName| {
            let mut h = DefaultHasher::new();
            n.hash(&mut h);
            h.finish()
        };
        c.eq(&hash(&x), &hash(&y), "name-hash", d);
        c.count("equal names");
    } else {
        c.count("different names");
    }
    c.check(x.as_bytes() == a.as_bytes() && x.name() == a && x.bytes_len() == a.len() && x.to_string() == a, "name-text", d);
    c.eq(&x.is_spec(), &a.starts_with(':'), "is_spec", d);
    let mut buf = BinaryMut::new();
    let n = x.encode(&mut buf).unwrap_or(usize::MAX);
    c.check(n == a.len() && buf.chunk() == a.as_bytes(), "name-encode", d);
    let s = *r.pick(VALUES);
    let t = if r.chance(1, 4) { s } else { *r.pick(VALUES) };
    let t = if r.bool() { other_copy(t) } else { t };
    let mv = |s: &'static str, k: usize| match k {
        0 => HeaderValue::from_static(s),
        1 => HeaderValue::from_bytes(s.as_bytes()),
        2 => HeaderValue::from_cow(s.as_bytes().into()),
        3 => HeaderValue::try_from(s.to_string()).unwrap(),
        _ => HeaderValue::try_from(s).unwrap(),
    };
    let (v, w) = (mv(s, r.below(5)), mv(t, r.below(5)));
    let d = || format!("{:?} and {:?}", s, t);
    c.eq(&(v == w), &(s == t), "value-eq", d);
    c.eq(&(v == t), &(s == t), "value-eq-str", d);
    c.eq(&(v == *t.as_bytes()), &(s == t), "value-eq-bytes", d);
    c.check(v.as_bytes() == s.as_bytes() && v.bytes_len() == s.len() && v.as_string().as_deref() == Some(s) && v.to_string() == s, "value-text", d);
    let text: Result<String, WebError> = (&v).try_into();
    c.check(text.as_deref().ok() == Some(s), "value-string", d);
    c.eq(&(t == v), &(s == t), "value-eq-str", d);
    c.eq(&(*t.as_bytes() == v), &(s == t), "value-eq-bytes", d);
    c.eq(&v.contains(t.as_bytes()), &s.contains(t), "value-contains", d);
    let mut joined = v.clone();
    joined.push(w);
    c.check(joined.as_bytes() == format!("{};{}", s, t).as_bytes(), "value-push", d);
    if s == t {
        let hash = |n: &HeaderValue| {
            let mut h = DefaultHasher::new();
            n.hash(&mut h);
            h.finish()
        };
        c.eq(&hash(&mv(s, r.below(5))), &hash(&mv(s, r.below(5))), "value-hash", d);
    }
}

/// the well-known fields have accessors
fn c08_accessors(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut m = HeaderMap::new();
    let val = |r: &mut Rng| r.pick(VALUES).to_string();
    let mut want = vec![None, None, None];
    for (k, n) in ["referer", "user-agent", "cookie"].iter().enumerate() {
        if r.bool() {
            let v = val(r);
            let name: String = n.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect();
            m.insert(name, v.clone());
            want[k] = Some(v);
        }
        // near misses
        m.insert(format!("x-{}", n), "wrong".to_string());
        m.insert(format!("{}s", n), "wrong".to_string());
    }
    c.seen_bytes(show_map(&m).as_bytes());
    let d = || show_map(&m);
    c.eq(&m.get_referer(), &want[0], "get_referer", d);
    c.eq(&m.get_user_agent(), &want[1], "get_user_agent", d);
    c.eq(&m.get_cookie(), &want[2], "get_cookie", d);
    let q = Request::builder().headers(m.clone()).body(()).unwrap();
    c.eq(&q.get_referer(), &want[0], "get_referer", d);
    c.eq(&q.get_cookie(), &want[2], "get_cookie", d);
    let ua = want[1].clone().or(Some("wenmeng".to_string()));
    c.eq(&q.get_user_agent(), &ua, "get_user_agent", d);
    // host: Host as it is, otherwise :authority without its port
    let host = if r.bool() { Some(val(r)) } else { None };
    let (auth, authhost) = *r.pick(&[("h.example:80", "h.example"), ("h", "h"), ("[::1]:80", "[::1]"), ("[::1]", "[::1]"), ("a:1", "a"), ("1.2.3.4:65535", "1.2.3.4")]);
    let has_auth = r.bool();
    if let Some(h) = &host {
        m.insert("HOST", h.clone());
    }
    if has_auth {
        m.insert(":authority", auth);
    }
    let w = host.or(if has_auth { Some(authhost.to_string()) } else { None });
    c.eq(&m.get_host(), &w, "get_host", || show_map(&m));
    // the side table is separate
    m.system_insert("k".into(), "v".into());
    c.check(m.system_get("k") == Some(&"v".to_string()) && m.system_get("K").is_none() && !m.contains(&"k"), "system", || show_map(&m));
    let k = m.clone();
    c.check(k.system_get("k") == Some(&"v".to_string()) && k == m, "system-clone", || show_map(&m));
}

// ------------------------------------------------------------------- C09
/// the same text at another address, as static strings of different crates are
fn other_copy(s: &'static str) -> &'static str {
    use std::sync::Mutex;
    static P: Mutex<Option<std::collections::HashMap<String, &'static str>>> = Mutex::new(None);
    let mut p = P.lock().unwrap();
    let p = p.get_or_insert_with(Default::default);
    if let Some(x) = p.get(s) {
        return x;
    }
    if p.len() > 4000 {
        return s;
    }
    *p.entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
}

fn leak_pool(s: String) -> &'static str {
    // a bounded pool of texts that live for the whole run
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    static POOL: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    if p.len() > 100_000 {
        return "";
    }
    *p.entry(s.clone()).or_insert_with(|| Box::leak(s.into_boxed_str()))
}

fn gen_number(r: &mut Rng) -> String {
    match r.below(14) {
        0 => r.below(1000).to_string(),
        1 => (r.u64() >> r.below(64)).to_string(),
        2 => format!("{:0w$}", r.u64() >> r.below(64), w = r.range(1, 40)),
        3 => (i64::MAX as u64).wrapping_add(r.below(20) as u64).wrapping_sub(10).to_string(),
        4 => (u64::MAX as u128 + r.below(20) as u128 - 10).to_string(),
        5 => {
            let n = r.range(18, 40);
            String::from_utf8(r.from_set(b"0123456789", n)).unwrap()
        }
        6 => {
            let mut s = r.below(100000).to_string();
            let at = r.below(s.len() + 1);
            s.insert(at, *r.pick(&['a', ' ', '.', ',', '+', ';', 'x', '٣', '\t', '/', ':', 'e', '\u{0}']));
            s
        }
        7 => r.pick(&["", "+5", "0x10", "1e3", "5.", "５", "1 2", "12,12", " 5", "5 ", "NaN", "١٢"]).to_string(),
        8 => format!("{}{}", i64::MAX, r.below(10)),
        9 => format!("{}0", i64::MAX / 10 + r.below(2) as i64),
        10 => (922337203685477580u64 + r.below(3) as u64).to_string() + &r.below(10).to_string(),
        11 => (1844674407370955161u64 + r.below(3) as u64).to_string() + &r.below(10).to_string(),
        12 => "0".repeat(r.range(1, 50)),
        _ => {
            let mut s = r.below(100000).to_string();
            let at = r.range(1, s.len());
            s.insert(at, '-');
            s
        }
    }
}

fn ref_number(s: &str, max: u128) -> Option<u128> {
    if !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u128 = 0;
    for b in s.bytes() {
        v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?;
        if v > max {
            return None;
        }
    }
    Some(v)
}

fn c09_length(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let s = gen_number(r);
    let d = || format!("{:?}", s);
    c.seen_bytes(s.as_bytes());
    let want = ref_number(&s, isize::MAX as u128).unwrap_or(0) as isize;
    let name = if r.bool() { "Content-Length" } else { "content-length" };
    let value = if r.chance(1, 3) { HeaderValue::Stand(leak_pool(s.clone())) } else { HeaderValue::from_bytes(s.as_bytes()) };
    let value = if value.as_bytes() != s.as_bytes() { HeaderValue::from_bytes(s.as_bytes()) } else { value };
    let shown = || s.clone();
    let u: Option<WebResult<usize>> = c.call("usize from HeaderValue", &shown, || (&value).try_into());
    if let Some(u) = u {
        // nothing at all is taken for zero or refused
        if !s.is_empty() {
            c.eq(&u.ok().map(|v| v as u128), &ref_number(&s, usize::MAX as u128), "usize", d);
        }
    }
    let u: Option<WebResult<isize>> = c.call("isize from HeaderValue", &shown, || (&value).try_into());
    if let Some(u) = u {
        if !s.is_empty() {
            c.eq(&u.ok().map(|v| v as u128), &ref_number(&s, isize::MAX as u128), "isize", d);
        }
    }
    let mut m = HeaderMap::new();
    m.insert("x-content-length", "77");
    m.insert(name, value.clone());
    m.insert("content-lengths", "78");
    let got = c.call("get_body_len", &shown, || m.get_body_len());
    c.eq(&got, &Some(want), "body-length", d);
    if want != 0 {
        c.count("a length");
    } else {
        c.count("no length");
    }
    match r.below(4) {
        0 => {
            let b = Request::builder().header(name, value);
            c.eq(&b.get_body_len(), &want, "body-length", d);
            c.eq(&b.body(()).unwrap().get_body_len(), &want, "body-length", d);
        }
        1 => {
            let b = Response::builder().header(name, value);
            c.eq(&b.get_body_len(), &want, "body-length", d);
            c.eq(&b.body(()).unwrap().get_body_len(), &want, "body-length", d);
        }
        2 if !s.contains('\0') => {
            let mut q = Request::new();
            // the parser takes blanks off both ends
            let t = s.trim_matches(|c| c == ' ' || c == '\t');
            let want = ref_number(t, isize::MAX as u128).unwrap_or(0) as isize;
            let h = format!("POST / HTTP/1.1\r\nHost: a\r\n{}: {}\r\n\r\n", name, s);
            if q.parse(h.as_bytes()).is_ok() {
                c.eq(&q.get_body_len(), &want, "parsed-body-length", d);
                c.count("parsed");
            }
        }
        _ => {
            // a number that was set is the number that is read
            let n = (r.u64() >> r.range(1, 63)) as usize;
            m.insert(name, n);
            c.eq(&m.get_body_len(), &(n as isize), "set-body-length", || n.to_string());
            m.insert(name, n as isize);
            c.eq(&m.get_body_len(), &(n as isize), "set-body-length", || n.to_string());
            // any whole number, negative ones too
            let k = match r.below(4) {
                0 => isize::MIN,
                1 => isize::MAX,
                _ => (r.u64() as isize) >> r.range(0, 63),
            };
            m.insert("x-number", k);
            let v = m.get_option_value(&"x-number").cloned();
            let back: Option<WebResult<isize>> = v.and_then(|v| c.call("isize from HeaderValue", &|| k.to_string(), || (&v).try_into()));
            c.eq(&back.and_then(|x| x.ok()), &Some(k), "number-back", || k.to_string());
        }
    }
    let empty = HeaderMap::new();
    c.eq(&empty.get_body_len(), &0, "body-length", || "no field".into());
}

fn gen_token_list(r: &mut Rng, token: &str) -> (Vec<u8>, bool) {
    let k = r.range(0, 4);
    let mut out = vec![];
    let mut has = false;
    for i in 0..k {
        if i > 0 {
            out.push(b',');
        }
        let n = r.below(3);
        out.extend(r.from_set(b" \t", n));
        let item: Vec<u8> = match r.below(12) {
            0..=2 => {
                has = true;
                token.bytes().map(|b| if r.bool() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect()
            }
            3 => format!("x{}", token).into_bytes(),
            4 => format!("{}x", token).into_bytes(),
            5 => token[..token.len() - 1].as_bytes().to_vec(),
            6 => token[1..].as_bytes().to_vec(),
            7 => {
                // one byte is 0x20 away: folding too much
                let mut v = token.to_ascii_lowercase().into_bytes();
                let at = r.below(v.len());
                v[at] ^= *r.pick(&[0x40, 0x80, 0x01, 0x10]);
                if v.iter().any(|b| b",; \t\r\n\0".contains(b)) {
                    b"near".to_vec()
                } else {
                    v
                }
            }
            8 => format!("{} {}", &token[..2], &token[2..]).into_bytes(),
            9 => vec![],
            10 => format!("{}-{}", token, token).into_bytes(),
            _ => r.pick(&["gzip", "close", "te", "HTTP2-Settings", "\u{e9}", "identity", "trailers", "deflate"]).as_bytes().to_vec(),
        };
        out.extend(item);
        let n = r.below(3);
        out.extend(r.from_set(b" \t", n));
    }
    (out, has)
}

fn put(r: &mut Rng, m: &mut HeaderMap, name: &str, v: &[u8]) {
    let n: String = name.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    match (r.below(3), std::str::from_utf8(v)) {
        (0, Ok(s)) if s.len() < 8 => {
            let l = leak_pool(s.to_string());
            m.insert(n, HeaderValue::Stand(if l == s { l } else { return put_bytes(m, name, v) }));
        }
        (1, Ok(s)) => {
            m.insert(n, s.to_string());
        }
        _ => {
            m.insert(n, HeaderValue::from_bytes(v));
        }
    }
}
fn put_bytes(m: &mut HeaderMap, name: &str, v: &[u8]) {
    m.insert(name.to_string(), HeaderValue::from_bytes(v));
}

fn c09_options(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let mut m = HeaderMap::new();
    let d = |m: &HeaderMap| show_map(m);
    // Transfer-Encoding
    let mut chunked = false;
    if r.chance(4, 5) {
        let (v, has) = gen_token_list(r, "chunked");
        put(r, &mut m, "Transfer-Encoding", &v);
        chunked = has;
        if r.chance(1, 5) {
            // pushed values join the list
            let (v, has) = gen_token_list(r, "chunked");
            m.push("transfer-encoding", HeaderValue::from_bytes(&v));
            chunked |= has;
        }
    } else {
        m.insert("x-transfer-encoding", "chunked");
        m.insert("te", "chunked");
    }
    let (mut keep, mut up) = (false, false);
    if r.chance(4, 5) {
        let (a, ka) = gen_token_list(r, "Keep-Alive");
        let (b, ub) = gen_token_list(r, "Upgrade");
        // items of both kinds; the words never contain each other's token
        let v = match r.below(3) {
            0 => {
                keep = ka;
                a
            }
            1 => {
                up = ub;
                b
            }
            _ => {
                keep = ka;
                up = ub;
                [&a[..], b",", &b].concat()
            }
        };
        put(r, &mut m, "Connection", &v);
    } else {
        m.insert("keep-alive", "timeout=5");
        m.insert("x-connection", "Keep-Alive, Upgrade");
    }
    let proto = if r.chance(3, 4) {
        let v = *r.pick(&["websocket", "h2c", "", "h2c, websocket", "WebSocket"]);
        put(r, &mut m, "upgrade", v.as_bytes());
        Some(v.to_string())
    } else {
        None
    };
    c.seen_bytes(show_map(&m).as_bytes());
    c.count(if chunked { "chunked" } else { "not chunked" });
    c.count(if keep { "keep-alive" } else { "not keep-alive" });
    c.eq(&m.is_chunked(), &chunked, "chunked", || d(&m));
    c.eq(&m.is_keep_alive(), &keep, "keep-alive", || d(&m));
    let want = if up { proto } else { None };
    c.count(if want.is_some() { "upgrade" } else { "no upgrade" });
    c.eq(&m.get_upgrade_protocol(), &want, "upgrade", || d(&m));
    if r.chance(1, 4) {
        let q = Request::builder().headers(m.clone()).body(()).unwrap();
        c.eq(&q.is_keep_alive(), &keep, "keep-alive", || d(&m));
        // and through the wire
        let mut q = q;
        if let Ok(data) = q.http1_data() {
            let mut q2 = Request::new();
            if q2.parse(&data).is_ok() {
                let h = q2.headers();
                c.eq(&h.is_chunked(), &chunked, "wire-chunked", || d(&m));
                c.eq(&h.is_keep_alive(), &keep, "wire-keep-alive", || d(&m));
                c.eq(&h.get_upgrade_protocol(), &want, "wire-upgrade", || d(&m));
            }
        }
    }
}

fn read_chunk<B: Bt>(b: &mut B) -> (WebResult<(usize, usize)>, usize, usize) {
    let before = b.remaining();
    let r = Helper::parse_chunk_data(b);
    (r, before, b.remaining())
}

fn c09_chunks(r: &mut Rng, c: &mut Ctx, i: u64) {
    let large = i % 200 == 7;
    let k = if large { 2 } else { r.range(1, 6) };
    let k = if large { k } else { r.count(k) };
    let mut all = BinaryMut::new();
    let mut want = vec![];
    let mut sizes = vec![];
    let mut ends = vec![];
    for _ in 0..k {
        let n = match r.below(6) {
            _ if large => match r.below(4) {
                0 => 0x10000 + r.range(0, 32) - 16,
                1 => r.range(60_000, 300_000),
                2 => 0x100000 + r.range(0, 4) - 2,
                _ => r.range(1, 70_000),
            },
            0 => *r.pick(&[1, 9, 10, 15, 16, 17, 255, 256, 4095, 4096]),
            1 => r.range(1, 3000),
            _ => r.size(60),
        };
        // data that looks like framing
        let data = match r.below(3) {
            0 => r.from_set(b"\r\n0a5;", n),
            _ => r.bytes(n),
        };
        let before = all.remaining();
        let size = Helper::encode_chunk_data(&mut all, &data);
        c.check(matches!(size, Ok(s) if s == all.remaining() - before), "chunk-size", || format!("{:?} for {} bytes", size, data.len()));
        want.extend(&data);
        sizes.push(data.len());
        ends.push(all.remaining());
    }
    let _ = Helper::encode_chunk_data(&mut all, b"");
    ends.push(all.remaining());
    sizes.push(0);
    let wire = all.chunk().to_vec();
    c.seen_bytes(&wire);
    c.max("chunk bytes", wire.len() as u64);
    let shown = || show(&wire);
    macro_rules! read_all {
        ($b:expr) => {{
            let mut b = $b;
            let mut got: Vec<u8> = vec![];
            let mut lens = vec![];
            while b.remaining() > 0 {
                let Some((res, before, after)) = c.call("parse_chunk_data", &shown, || read_chunk(&mut b)) else { return };
                c.eq(&before, &after, "chunk-consumed", shown);
                match res {
                    Ok((h, n)) => {
                        let rest = b.chunk();
                        if !c.check(rest.len() >= h && n.checked_add(2).map_or(false, |n| n <= rest.len() - h), "chunk-beyond", || format!("header {} data {} of {}: {}", h, n, rest.len(), shown())) {
                            return;
                        }
                        got.extend(&rest[h..h + n]);
                        c.check(&rest[h + n..h + n + 2] == b"\r\n", "chunk-end", shown);
                        lens.push(n);
                        b.advance(h + n + 2);
                    }
                    Err(e) => {
                        c.violation("chunk-refused", format!("{:?} at {} of {}", e, wire.len() - b.remaining(), shown()));
                        return;
                    }
                }
            }
            c.eq(&lens, &sizes, "chunk-lengths", shown);
            c.check(got == want, "chunk-data", || format!("{} instead of {}", show(&got), show(&want)));
            c.add("chunks read", lens.len() as u64);
        }};
    }
    match r.below(4) {
        0 => read_all!(BinaryMut::from(&wire[..])),
        1 => read_all!(Binary::from(wire.clone())),
        2 => read_all!(&wire[..]),
        _ => read_all!(CountBt::new(wire.clone())),
    }
    // every cut of the first chunk is partial
    let first = ends[0];
    let cuts: Vec<usize> = if first < 80 { (0..first).collect() } else { (0..40).map(|_| r.below(first)).chain([first - 1, first - 2]).collect() };
    for n in cuts {
        let mut b = Binary::from(wire[..n].to_vec());
        let Some((res, before, after)) = c.call("parse_chunk_data", &shown, || read_chunk(&mut b)) else { return };
        c.check(matches!(&res, Err(e) if e.is_partial()), "chunk-partial", || format!("{:?} for {} of {}", res, n, shown()));
        c.eq(&before, &after, "chunk-partial-consumed", shown);
        c.count("truncated chunks");
    }
}

fn c09_chunk_lines(r: &mut Rng, c: &mut Ctx, _i: u64) {
    // a size line that may be right or wrong
    let n = r.size(40);
    let data = r.bytes(n);
    let (line, want): (Vec<u8>, Option<u128>) = match r.below(16) {
        0 => (format!("{:X}\r\n", n).into_bytes(), Some(n as u128)),
        1 => (format!("{:x}\n", n).into_bytes(), Some(n as u128)),
        2 => (format!("{:0w$x}\r\n", n, w = r.range(1, 16)).into_bytes(), Some(n as u128)),
        3 => (format!("{:x}\r\n", r.u64() >> r.below(64)).into_bytes(), Some(0)),
        4 => (format!("{:x}{}\r\n", u64::MAX, r.below(10)).into_bytes(), None),
        5 => {
            let k = r.range(17, 60);
            let mut v = r.from_set(b"0123456789abcdefABCDEF", k);
            v[0] = *r.pick(b"123456789abcdef");
            v.extend(b"\r\n");
            (v, None)
        }
        6 => (b"\r\n".to_vec(), None),
        7 => (format!("-{:x}\r\n", n).into_bytes(), None),
        8 => (format!("+{:x}\r\n", n).into_bytes(), None),
        9 => (format!("0x{:x}\r\n", n).into_bytes(), None),
        10 => {
            let mut v = format!("{:x}", n).into_bytes();
            v.push(loop {
                let b = r.u8();
                if !b.is_ascii_hexdigit() && !b" \t;\r\n".contains(&b) {
                    break b;
                }
            });
            v.extend(b"\r\n");
            (v, None)
        }
        11 => {
            let mut v = format!("{:x}\r", n).into_bytes();
            v.push(loop {
                let b = r.u8();
                if b != b'\n' {
                    break b;
                }
            });
            (v, None)
        }
        12 => (b"g\r\n".to_vec(), None),
        13 => (format!(" {:x}\r\n", n).into_bytes(), None),
        14 => ([&b"\0"[..], format!("{:x}\r\n", n).as_bytes()].concat(), None),
        _ => (b"ffffffffffffffff\r\n".to_vec(), Some(0)),
    };
    let mut wire = line.clone();
    wire.extend(&data);
    wire.extend(b"\r\n");
    let extra_n = r.below(10);
    wire.extend(r.bytes(extra_n));
    c.seen_bytes(&wire);
    let shown = || show(&wire);
    let mut b = Binary::from(wire.clone());
    let Some((res, before, after)) = c.call("parse_chunk_data", &shown, || read_chunk(&mut b)) else { return };
    c.eq(&before, &after, "chunk-consumed", shown);
    match want {
        None => {
            c.count("broken size lines");
            c.check(matches!(&res, Err(e) if !e.is_partial()), "chunk-line-accepted", || format!("{:?} for {}", res, shown()));
        }
        Some(_) => {
            // the number decides
            let digits: String = line.iter().take_while(|b| b.is_ascii_hexdigit()).map(|b| *b as char).collect();
            let v = u128::from_str_radix(&digits, 16).unwrap();
            let left = (wire.len() - line.len()) as u128;
            if v + 2 <= left {
                c.count("whole chunks");
                c.check(matches!(&res, Ok((h, k)) if *h == line.len() && *k as u128 == v), "chunk-read", || format!("{:?} for {}", res, shown()));
            } else {
                c.count("announced more than there is");
                c.check(matches!(&res, Err(e) if e.is_partial()), "chunk-partial", || format!("{:?} for {}", res, shown()));
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "after every operation the collection holds what an ordered list keyed by the ASCII-lowercased name holds, and every query agrees with that list",
            parts: vec![
                part("history", 150_000, 8_000_000, c08_history),
                part("forms", 200_000, 10_000_000, c08_forms),
                part("accessors", 100_000, 5_000_000, c08_accessors),
            ],
            assumptions: vec!["the value insert() and push() return is not judged: the library documents none"],
        },
        Prop {
            id: "C09",
            rule: "body length, chunked, keep-alive and upgrade are what the field values say under an independent reading; chunks are recovered exactly",
            parts: vec![
                part("length", 300_000, 20_000_000, c09_length),
                part("options", 300_000, 20_000_000, c09_options),
                part("chunks", 60_000, 3_000_000, c09_chunks),
                part("chunk-lines", 200_000, 10_000_000, c09_chunk_lines),
            ],
            assumptions: vec![
                "a negative Content-Length, an empty number and chunk extensions are neither required nor forbidden",
                "the two octets after chunk data are counted, not compared, by the library; its callers skip them",
            ],
        },
    ]
}
