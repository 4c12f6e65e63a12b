//! Reference decisions shared by harnesses (RFC 9112 section 6).
use crate::{sup::*, sx};

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Fr { Len(u64), Chunked, Reject, Any }

pub fn list(vals: &[&[u8]]) -> Vec<Vec<u8>> { vals.iter().flat_map(|v| v.split(|&c| c == b',').map(|t| trim(t).to_vec())).collect() }
/// reference decision over the field values of one head
pub fn reference(v11: bool, te: &[&[u8]], cl: &[&[u8]]) -> Fr {
    if !te.is_empty() {
        if !v11 { return Fr::Reject; }
        let l = list(te);
        let names: Vec<Vec<u8>> = l.iter().map(|t| t.to_ascii_lowercase()).collect();
        // empty list elements and repeated chunked are malformed but harmless either way
        let last = names.last().unwrap();
        if last != b"chunked" {
            if last.is_empty() && names.iter().any(|n| n == b"chunked") { return Fr::Any; }
            return Fr::Reject;
        }
        if names.iter().filter(|n| *n == b"chunked").count() > 1 || names.iter().any(|n| n.is_empty()) { return Fr::Any; }
        // with a broken content-length next to it, refusing is fine too
        if !cl.is_empty() && matches!(reference(v11, &[], cl), Fr::Reject | Fr::Any) { return Fr::Any; }
        return Fr::Chunked;
    }
    if !cl.is_empty() {
        let mut len: Option<u64> = None;
        for v in cl {
            let v = trim(v);
            if v.is_empty() { return Fr::Reject; }
            // a list of identical numbers may be refused or folded into one
            if v.contains(&b',') { return if list(&[v]).iter().all(|t| !t.is_empty() && t == &list(&[v])[0] && t.iter().all(|c| c.is_ascii_digit())) { Fr::Any } else { Fr::Reject }; }
            if !v.iter().all(|c| c.is_ascii_digit()) { return Fr::Reject; }
            let mut n: u64 = 0;
            for &c in v { n = match n.checked_mul(10).and_then(|n| n.checked_add((c - b'0') as u64)) { Some(n) => n, None => return Fr::Reject }; }
            if len.map_or(false, |l| l != n) { return Fr::Reject; }
            len = Some(n);
        }
        return Fr::Len(len.unwrap());
    }
    Fr::Len(0)
}


// ---------------------------------------------------------------- requests as a server reads them

#[derive(Debug, Clone)]
pub struct WireReq { pub method: Vec<u8>, pub target: Vec<u8>, pub minor: u8, pub headers: Vec<(Vec<u8>, Vec<u8>)>, pub body: Vec<u8>, pub trailers: Vec<(Vec<u8>, Vec<u8>)>, pub chunked: bool, pub length: Option<usize>, pub complete: bool, pub used: usize }
impl WireReq {
    pub fn get(&self, n: &str) -> Vec<&[u8]> { self.headers.iter().filter(|(k, _)| eqi(k, n)).map(|(_, v)| &v[..]).collect() }
}
pub fn wire_request(b: &[u8]) -> Result<WireReq, &'static str> {
    let e = find(b, b"\r\n").ok_or("incomplete request line")?;
    let l = &b[..e];
    let p: Vec<&[u8]> = l.split(|&c| c == b' ').collect();
    if p.len() != 3 || p[0].is_empty() || p[1].is_empty() || !p[0].iter().all(|&c| is_tchar(c)) || p[1].iter().any(|&c| c < 33 || c == 127) { return Err("bad request line"); }
    let minor = match p[2] { b"HTTP/1.1" => 1, b"HTTP/1.0" => 0, _ => return Err("bad version") };
    let (headers, hu) = wire_headers(&b[e + 2..])?;
    let mut q = WireReq { method: p[0].to_vec(), target: p[1].to_vec(), minor, headers, body: vec![], trailers: vec![], chunked: false, length: None, complete: true, used: e + 2 + hu };
    let te: Vec<Vec<u8>> = q.get("transfer-encoding").iter().flat_map(|v| v.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())).collect();
    let cl: Vec<Vec<u8>> = q.get("content-length").iter().map(|v| v.to_vec()).collect();
    if !te.is_empty() {
        if !cl.is_empty() { return Err("request with both content-length and transfer-encoding"); }
        if minor == 0 { return Err("transfer-encoding in an HTTP/1.0 request"); }
        if te.last().map(|t| &t[..]) != Some(b"chunked") || te.iter().filter(|t| &t[..] == b"chunked").count() != 1 { return Err("request transfer-encoding does not end in chunked"); }
        q.chunked = true;
        match wire_chunked(&b[q.used..]) {
            Ok((c, t, u)) => { q.body = c.concat(); q.trailers = t; q.used += u; }
            Err(e) if e.starts_with("incomplete") => { q.complete = false; q.used = b.len(); }
            Err(e) => return Err(e),
        }
        return Ok(q);
    }
    if cl.len() > 1 { return Err("more than one content-length"); }
    if let Some(v) = cl.first() {
        if v.is_empty() || v.len() > 18 || !v.iter().all(|c| c.is_ascii_digit()) { return Err("bad content-length"); }
        let n = v.iter().fold(0usize, |a, c| a * 10 + (c - b'0') as usize);
        q.length = Some(n);
        let have = b.len() - q.used;
        q.complete = have >= n;
        q.body = b[q.used..q.used + n.min(have)].to_vec();
        q.used += n.min(have);
    }
    Ok(q)
}
pub fn request_on_wire(b: &[u8]) -> WireReq { match wire_request(b) { Ok(q) => q, Err(e) => sx::fail(&cat_str("malformed request: ", e)) } }

// ---------------------------------------------------------------- how a client reads a response

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Cf { Zero, Tunnel, Skip, Close, F(Fr) }
pub fn client_reference(status: u16, method: &str, v11: bool, te: &[&[u8]], cl: &[&[u8]]) -> Cf {
    if status == 101 { return Cf::Tunnel; }
    if status / 100 == 1 { return Cf::Skip; }
    if method == "HEAD" || status == 204 || status == 304 { return Cf::Zero; }
    if method == "CONNECT" && status / 100 == 2 { return Cf::Tunnel; }
    if !te.is_empty() && v11 {
        let l: Vec<Vec<u8>> = list(te).iter().map(|t| t.to_ascii_lowercase()).collect();
        // empty list elements are to be ignored
        if l.iter().rfind(|t| !t.is_empty()).map_or(true, |t| t != b"chunked") { return Cf::Close; }
        if l.iter().any(|t| t.is_empty()) { return Cf::F(Fr::Any); }
    }
    if te.is_empty() && cl.is_empty() { return Cf::Close; }
    Cf::F(reference(v11, te, cl))
}
