//! A strict, independent reader of HTTP/1 heads (RFC 9112), used on what the
//! library writes, and small helpers shared by the generators.

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Head {
    pub start: [Vec<u8>; 3],
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub len: usize,
}

pub fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

fn line<'a>(b: &'a [u8], pos: &mut usize) -> Result<&'a [u8], String> {
    let start = *pos;
    let mut i = start;
    loop {
        match b.get(i) {
            None => return Err(format!("line at {} has no end", start)),
            Some(b'\r') => {
                if b.get(i + 1) != Some(&b'\n') {
                    return Err(format!("bare CR at {}", i));
                }
                *pos = i + 2;
                return Ok(&b[start..i]);
            }
            Some(b'\n') => return Err(format!("bare LF at {}", i)),
            Some(0) => return Err(format!("NUL at {}", i)),
            _ => i += 1,
        }
    }
}

fn fields(b: &[u8], pos: &mut usize) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let mut out = vec![];
    loop {
        let l = line(b, pos)?;
        if l.is_empty() {
            return Ok(out);
        }
        let colon = l.iter().position(|c| *c == b':').ok_or("no colon")?;
        let (n, v) = (&l[..colon], &l[colon + 1..]);
        if n.is_empty() || !n.iter().all(|c| is_tchar(*c)) {
            return Err("bad field name".into());
        }
        out.push((n.to_vec(), trim_ows(v).to_vec()));
    }
}

pub fn trim_ows(mut v: &[u8]) -> &[u8] {
    while let [b' ' | b'\t', rest @ ..] = v {
        v = rest;
    }
    while let [rest @ .., b' ' | b'\t'] = v {
        v = rest;
    }
    v
}

/// method SP target SP version CRLF fields CRLF
pub fn read_request(b: &[u8]) -> Result<Head, String> {
    let mut pos = 0;
    let l = line(b, &mut pos)?;
    let parts: Vec<&[u8]> = l.split(|c| *c == b' ').collect();
    if parts.len() != 3 {
        return Err(format!("request line has {} parts", parts.len()));
    }
    if parts[0].is_empty() || !parts[0].iter().all(|c| is_tchar(*c)) {
        return Err("bad method".into());
    }
    if parts[1].is_empty() || !parts[1].iter().all(|c| (0x21..0x7f).contains(c) && *c != b'#') {
        return Err("bad target".into());
    }
    let headers = fields(b, &mut pos)?;
    Ok(Head {
        start: [parts[0].to_vec(), parts[1].to_vec(), parts[2].to_vec()],
        headers,
        len: pos,
    })
}

/// version SP 3DIGIT SP reason CRLF fields CRLF
pub fn read_response(b: &[u8]) -> Result<Head, String> {
    let mut pos = 0;
    let l = line(b, &mut pos)?;
    let sp = l.iter().position(|c| *c == b' ').ok_or("no space")?;
    let (version, rest) = (&l[..sp], &l[sp + 1..]);
    if rest.len() < 4 || rest[3] != b' ' || !rest[..3].iter().all(|c| c.is_ascii_digit()) {
        return Err("bad status".into());
    }
    let reason = &rest[4..];
    if !reason.iter().all(|c| *c == b'\t' || (*c >= 0x20 && *c != 0x7f)) {
        return Err("bad reason".into());
    }
    let headers = fields(b, &mut pos)?;
    Ok(Head {
        start: [version.to_vec(), rest[..3].to_vec(), reason.to_vec()],
        headers,
        len: pos,
    })
}

pub fn percent_decode(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16));
            match (h(b.get(i + 1)), h(b.get(i + 2))) {
                (Some(a), Some(c)) => out.push((a * 16 + c) as u8),
                _ => return Err(format!("bad escape at {}", i)),
            }
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}

/// Splits a target at its first question mark and decodes both halves.
pub fn split_target(t: &[u8]) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    match t.iter().position(|c| *c == b'?') {
        None => Ok((percent_decode(t)?, None)),
        Some(i) => Ok((percent_decode(&t[..i])?, Some(percent_decode(&t[i + 1..])?))),
    }
}
