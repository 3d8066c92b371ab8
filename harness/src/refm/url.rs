//! A reading of URLs by the grammar of RFC 3986, restricted to the form the
//! library documents. Three-valued: what must be refused, what must be accepted
//! with which components, and what may go either way (but if it is accepted,
//! then with these components).
use super::http1::percent_decode;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Parts {
    pub scheme: Option<String>,
    pub username: Option<String>,
    pub password: Option<String>,
    pub domain: Option<String>,
    pub port: Option<u16>,
    pub path: String,
    pub query: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    Refuse(&'static str),
    Accept(Parts),
    /// either way; if accepted, these components
    Either(Parts),
    /// either way, components not judged
    Open,
}

pub fn default_port(scheme: Option<&str>) -> u16 {
    match scheme {
        Some("http") | Some("ws") => 80,
        Some("https") | Some("wss") => 443,
        Some("ftp") => 21,
        _ => 0,
    }
}

fn unreserved_or_sub(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=".contains(&b)
}

enum Text {
    Good(String),
    Odd(String),
    NotUtf8,
    Bad,
}

fn text(b: &[u8], extra: &[u8]) -> Text {
    let Ok(d) = percent_decode(b) else { return Text::Bad };
    let Ok(s) = String::from_utf8(d) else { return Text::NotUtf8 };
    if b.iter().all(|c| unreserved_or_sub(*c) || *c == b'%' || extra.contains(c)) {
        Text::Good(s)
    } else {
        Text::Odd(s)
    }
}

pub fn judge(u: &[u8]) -> Verdict {
    if u.is_empty() {
        return Verdict::Refuse("empty");
    }
    if u.iter().any(|b| *b < 0x21 || *b > 0x7e) {
        return Verdict::Refuse("illegal byte");
    }
    let mut odd = false;
    let mut open = false;
    macro_rules! get {
        ($b:expr, $extra:expr) => {
            match text($b, $extra) {
                Text::Good(s) => s,
                Text::Odd(s) => {
                    odd = true;
                    s
                }
                Text::NotUtf8 => {
                    open = true;
                    String::new()
                }
                Text::Bad => return Verdict::Refuse("bad escape"),
            }
        };
    }
    let mut p = Parts { scheme: None, username: None, password: None, domain: None, port: None, path: "/".into(), query: None };
    let rest: &[u8];
    if u[0] == b'/' {
        rest = u;
        p.port = Some(0);
    } else if u[0].is_ascii_alphabetic() {
        let n = u.iter().take_while(|b| b.is_ascii_alphanumeric() || b"+-.".contains(b)).count();
        if !u[n..].starts_with(b"://") {
            return Verdict::Refuse("no ://");
        }
        if n > 64 {
            return Verdict::Refuse("scheme too long");
        }
        let scheme = String::from_utf8(u[..n].to_ascii_lowercase()).unwrap();
        let after = &u[n + 3..];
        let end = after.iter().position(|b| *b == b'/' || *b == b'?').unwrap_or(after.len());
        let auth = &after[..end];
        rest = &after[end..];
        if auth.contains(&b'#') {
            open = true;
        }
        let host = match auth.iter().rposition(|b| *b == b'@') {
            None => auth,
            Some(i) => {
                let info = &auth[..i];
                let colons = info.iter().filter(|b| **b == b':').count();
                if info.contains(&b'@') {
                    return Verdict::Refuse("second user name");
                }
                if colons != 1 {
                    // which parts are looked at is not settled
                    open = true;
                } else {
                    let k = info.iter().position(|b| *b == b':').unwrap();
                    p.username = Some(get!(&info[..k], b""));
                    p.password = Some(get!(&info[k + 1..], b""));
                }
                &auth[i + 1..]
            }
        };
        let (name, port): (&[u8], Option<&[u8]>) = if host.first() == Some(&b'[') {
            match host.iter().position(|b| *b == b']') {
                None => {
                    open = true;
                    (host, None)
                }
                Some(i) => {
                    let name = &host[..=i];
                    let inner = &host[1..i];
                    if inner.is_empty() {
                        odd = true;
                    } else if !inner.iter().all(|b| b.is_ascii_hexdigit() || *b == b':' || *b == b'.') {
                        open = true;
                    }
                    match host.get(i + 1) {
                        None => (name, None),
                        Some(b':') => (name, Some(&host[i + 2..])),
                        Some(_) => {
                            open = true;
                            (name, None)
                        }
                    }
                }
            }
        } else {
            match host.iter().position(|b| *b == b':') {
                None => (host, None),
                Some(i) => (&host[..i], Some(&host[i + 1..])),
            }
        };
        if let Some(port) = port {
            if port.is_empty() {
                open = true;
            } else if !port.iter().all(|b| b.is_ascii_digit()) {
                return if open { Verdict::Open } else { Verdict::Refuse("bad port") };
            } else {
                let mut v: u64 = 0;
                for b in port {
                    v = (v * 10 + (b - b'0') as u64).min(1 << 40);
                }
                if v > 65535 {
                    return if open { Verdict::Open } else { Verdict::Refuse("bad port") };
                }
                p.port = Some(v as u16);
            }
        }
        if name.is_empty() {
            odd = true;
        }
        p.domain = Some(if name.first() == Some(&b'[') { String::from_utf8(name.to_vec()).unwrap() } else { get!(name, b"") });
        if p.port.is_none() {
            p.port = Some(default_port(Some(&scheme)));
        }
        p.scheme = Some(scheme);
    } else {
        return Verdict::Refuse("no known form");
    }
    if !rest.is_empty() {
        let q = rest.iter().position(|b| *b == b'?');
        let path = &rest[..q.unwrap_or(rest.len())];
        if !path.is_empty() {
            p.path = get!(path, b":@/");
        }
        if let Some(q) = q {
            p.query = Some(get!(&rest[q + 1..], b":@/?"));
        }
    }
    if open {
        Verdict::Open
    } else if odd {
        Verdict::Either(p)
    } else {
        Verdict::Accept(p)
    }
}
