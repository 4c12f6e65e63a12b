//! S02 / S15: the chunked transfer coding against an independent reader (RFC 9112 section 7.1).
use crate::{srv::*, sup::*, sx};

#[derive(Debug, PartialEq, Clone)]
pub enum Rc { Done { used: usize, trailers: Vec<(Vec<u8>, Vec<u8>)> }, More, Bad }
pub struct Ref { pub data: Vec<u8>, pub out: Rc, /// the text is unusual: refusing it is fine too
    pub grey: bool, pub big_trailers: bool }

pub fn refchunk(b: &[u8]) -> Ref {
    let mut r = Ref { data: vec![], out: Rc::More, grey: false, big_trailers: false };
    let mut p = 0;
    macro_rules! at { ($i:expr) => { match b.get($i) { Some(&c) => c, None => return r } } }
    macro_rules! bad { () => {{ r.out = Rc::Bad; return r; }} }
    loop {
        let mut n: u128 = 0;
        let mut digits = 0;
        loop {
            let c = at!(p);
            let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => break };
            n = n * 16 + d as u128;
            if n > u64::MAX as u128 { bad!() }
            digits += 1;
            p += 1;
        }
        if digits == 0 { bad!() }
        let mut c = at!(p);
        while c == b' ' || c == b'\t' { r.grey = true; p += 1; c = at!(p); }
        if c == b';' {
            p += 1;
            loop { let c = at!(p); if c == b'\r' { break; } if c == b'\n' { bad!() } if c < 32 && c != b'\t' || c == 127 { r.grey = true; } p += 1; }
            c = b'\r';
        }
        if c != b'\r' { bad!() }
        if at!(p + 1) != b'\n' { bad!() }
        p += 2;
        if n == 0 { break; }
        let have = b.len() - p;
        if (have as u128) < n { r.data.extend_from_slice(&b[p..]); return r; }
        r.data.extend_from_slice(&b[p..p + n as usize]);
        p += n as usize;
        if at!(p) != b'\r' { bad!() }
        if at!(p + 1) != b'\n' { bad!() }
        p += 2;
    }
    let mut trailers = vec![];
    let t0 = p;
    let mut wrong = false;
    loop {
        let s = p;
        loop {
            let c = at!(p);
            if c == b'\r' { if at!(p + 1) != b'\n' { bad!() } break; }
            if c == b'\n' { r.grey = true; }
            p += 1;
        }
        let l = &b[s..p];
        p += 2;
        if l.is_empty() { break; }
        match l.iter().position(|&c| c == b':') {
            Some(k) if k > 0 && l[..k].iter().all(|&c| is_tchar(c)) => {
                let v = trim(&l[k + 1..]);
                if v.iter().any(|&c| c < 32 && c != b'\t' || c == 127) { r.grey = true; if v.iter().any(|&c| c == 0 || c == b'\n') { wrong = true; } }
                trailers.push((l[..k].to_ascii_lowercase(), v.to_vec()));
            }
            _ => wrong = true,
        }
    }
    r.big_trailers = p - t0 > 16000 || trailers.len() > 99;
    let bare = b[t0..p].iter().enumerate().any(|(i, &c)| c == b'\n' && (i == 0 || b[t0 + i - 1] != b'\r'));
    r.out = if wrong && !bare { Rc::Bad } else { Rc::Done { used: p, trailers } };
    r
}

/// run `body` as the content of a chunked POST, followed by `next`, and compare with the reference
pub fn against_reference(body: &[u8], next: &[u8], cut: Option<usize>) {
    let head = b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n";
    let all = cat(&[head, body, next]);
    let (io, dev) = io(all);
    if let Some(c) = cut { dev.with(|s| { s.cuts = vec![head.len() + c]; s.block_cuts = true; }); }
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    let r = refchunk(&cat(&[body, next]));
    let stuck = s.reqs().first().map_or(false, |q| q.end == End::Open);
    if let Rc::More = r.out { sx::check(stuck || r.grey, "an unfinished chunked body ended before the peer closed"); }
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    let q = s.reqs();
    sx::check(!q.is_empty(), "request not served");
    sx::check(starts(&r.data, &q[0].body), "decoded data differs from the chunk data");
    if r.grey && q[0].end != End::Eof { sx::cover("unusual, refused"); return; }
    match r.out {
        Rc::Done { used, trailers } => {
            sx::check(q[0].end == End::Eof, "a complete chunked body was refused or never ends");
            sx::check(q[0].body == r.data, "chunk data lost");
            let got = q[0].trailers.clone().unwrap_or_default();
            if r.grey { sx::cover("unusual, accepted"); return; }
            if trailers.is_empty() { sx::check(got.is_empty(), "trailers out of nothing"); sx::cover("complete"); }
            else {
                sx::check(got.len() == trailers.len(), "number of trailer fields differs");
                for (n, v) in &trailers {
                    let want: Vec<&[u8]> = trailers.iter().filter(|(k, _)| k == n).map(|(_, v)| &v[..]).collect();
                    let have: Vec<&[u8]> = got.iter().filter(|(k, _)| k.as_bytes() == &n[..]).map(|(_, v)| &v[..]).collect();
                    sx::check(want == have, "trailer field value differs");
                }
                sx::cover("complete with trailers");
            }
            // the next request starts exactly after the coded body
            let rest = &cat(&[body, next])[used..];
            if rest == b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n" { sx::check(q.len() == 2 && q[1].uri == "/b" && q[1].method == "GET", "request after a chunked body lost"); sx::cover("next request"); }
            else if rest.is_empty() { sx::check(q.len() == 1, "a request out of nothing"); }
        }
        Rc::More => { sx::check(q[0].end != End::Eof, "a truncated chunked body ends as if complete"); sx::check(q.len() == 1, "body bytes parsed as a request"); sx::cover("truncated"); }
        Rc::Bad => {
            sx::check(q[0].end != End::Eof, "a malformed chunked body ends as if complete");
            sx::check(q.len() == 1, "connection reused after a malformed chunked body");
            sx::check(s.dev.is_shutdown() || s.dev.with(|s| s.dropped), "connection not closed after a malformed chunked body");
            sx::cover("malformed");
        }
    }
}
const NEXT: &[u8] = b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n";
/// everything after the head is arbitrary
#[no_mangle] pub extern "C" fn s02_free() { against_reference(&syms(6, "body"), b"", None) }
#[no_mangle] pub extern "C" fn s02_free8() { against_reference(&syms(8, "body"), b"", None) }
/// arbitrary bytes in the middle of an otherwise regular body, at every position
#[no_mangle] pub extern "C" fn s02_hole() {
    let base = b"4\r\nwiki\r\n5;x=y\r\nhello\r\n0\r\n\r\n";
    let n = 2;
    let at = sx::pick(base.len() - n + 1, "hole");
    let mut b = base.to_vec();
    for i in 0..n { b[at + i] = sx::byte("hole byte"); }
    against_reference(&b, NEXT, None)
}
#[no_mangle] pub extern "C" fn s02_hole3() {
    let base = b"4\r\nwiki\r\n5;x=y\r\nhello\r\n0\r\n\r\n";
    let n = 3;
    let at = sx::pick(base.len() - n + 1, "hole");
    let mut b = base.to_vec();
    for i in 0..n { b[at + i] = sx::byte("hole byte"); }
    against_reference(&b, NEXT, None)
}
/// three chunks with arbitrary sizes and data, read with a pause at every position
#[no_mangle] pub extern "C" fn s02_cut() {
    let k = sx::pick(2, "chunks") + 1;
    let mut b = vec![];
    for _ in 0..k {
        let n = sx::pick(3, "size") + 1;
        b.push(b'0' + n as u8);
        if sx::flag("ext") { b.extend_from_slice(b";a"); }
        b.extend_from_slice(b"\r\n"); b.extend_from_slice(&syms(n, "data")); b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"0\r\n");
    if sx::flag("trailers") { b.extend_from_slice(b"t: v\r\nx-y:\r\n"); }
    b.extend_from_slice(b"\r\n");
    let c = sx::pick(b.len() + 1, "cut");
    against_reference(&b, NEXT, Some(c))
}
/// chunk sizes at the edge of 64 bits
#[no_mangle] pub extern "C" fn s02_wide() {
    let pre: &[u8] = [&b"0000000000000000"[..], b"00000000000000000000000000000", b"FFFFFFFFFFFFFF", b"fffffffffffffff", b"10000000000000", b"8000000000000"][sx::pick(6, "prefix")];
    let b = cat(&[pre, &syms(3, "digit"), b"\r\nabcd\r\n0\r\n\r\n"]);
    against_reference(&b, NEXT, None)
}
// ---- S15 trailers
#[no_mangle] pub extern "C" fn s15_free() { against_reference(&cat(&[b"1\r\na\r\n0\r\n", &syms(5, "trailer")]), b"\r\n\r\n", None) }
#[no_mangle] pub extern "C" fn s15_hole() {
    let base = b"Expires: now\r\nX-1:  v w \t\r\nexpires: b\r\n\r\n";
    let at = sx::pick(base.len() - 1, "hole");
    let mut b = cat(&[b"1\r\na\r\n0\r\n", base]);
    b[9 + at] = sx::byte("hole byte");
    b[10 + at] = sx::byte("hole byte");
    against_reference(&b, NEXT, None)
}
