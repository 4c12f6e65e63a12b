//! Upgrades and tunnels, arbitrary input.
use crate::{cli, srv::*, sup::*, sx, tun::*};
use hyper::upgrade::{OnUpgrade, Upgraded};
use hyper::{Request, Response};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

struct UpSvc { log: Log, tasks: Rc<RefCell<Vec<LocalFut<()>>>>, t: TunRef, answer: usize, n: usize, out: Vec<u8>, vectored: bool, first: bool, g: Gate, read: usize }
impl hyper::service::Service<Request<hyper::body::Incoming>> for UpSvc {
    type Response = Response<HBody>;
    type Error = BoxErr;
    type Future = LocalFut<Resp>;
    fn call(&self, mut r: Request<hyper::body::Incoming>) -> Self::Future {
        let on = hyper::upgrade::on(&mut r);
        let (p, b) = r.into_parts();
        let i = log_req(&self.log, &p, &b);
        let target = p.uri.path() != "/n";
        if target { self.tasks.borrow_mut().push(Box::pin(tunnel(on, self.t.clone(), self.out.clone(), self.n, self.vectored, self.first))); }
        let (a, g, log, read) = (self.answer, self.g.clone(), self.log.clone(), self.read);
        let tasks = self.tasks.clone();
        let connect = p.method == "CONNECT";
        Box::pin(async move {
            match if target { read } else { 1 } { 0 => drop(b), 1 => drain(b, log, i, usize::MAX).await, _ => { let _q = sx::Quiet::new(); tasks.borrow_mut().push(Box::pin(drain(b, log, i, usize::MAX))) } }
            if !target { return Ok(numbered(i)); }
            g.wait().await;
            Ok(match a {
                // accept
                0 if connect => ok(HBody::empty()),
                0 => { let mut r = status(101, HBody::empty()); r.headers_mut().insert("connection", hv(b"upgrade")); r.headers_mut().insert("upgrade", hv(b"x")); r }
                // refuse
                _ => status(400, HBody::full(b"no")),
            })
        })
    }
}
/// a server connection that can be upgraded
#[no_mangle] pub extern "C" fn s11_server() {
    let connect = sx::flag("connect");
    let answer = sx::pick(2, "accept, refuse");
    let extra = if answer == 0 { syms(3, "tunnel byte") } else { b"GET".to_vec() };
    let n = sx::pick(4, "bytes per read (0: take apart)");
    let bodied = !connect && sx::flag("request body");
    let pre = sx::flag("a request before");
    let head = cat(&[if pre { b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n" } else { b"" as &[u8] }, if connect { b"CONNECT a.b:1 HTTP/1.1\r\nHost: h\r\n" } else if bodied { b"POST /u HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: x\r\nContent-Length: 2\r\n" } else { b"GET /u HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: x\r\n" }, b"\r\n", if bodied { b"bb" } else { b"" }]);
    let with = sx::pick(if bodied { 6 } else { 4 }, "tunnel bytes with the head (4, 5: a part of the body is missing)");
    let (have, rest) = if with < 4 { (cat(&[&head, &extra[..with]]), extra[with..].to_vec()) } else { let k = head.len() - (with - 3); (head[..k].to_vec(), cat(&[&head[k..], &extra])) };
    let (io, dev) = io(have);
    let cut = sx::pick(3, "cut: none, after the head, within");
    dev.with(|s| match cut { 1 => { s.cuts.push(head.len()); } 2 => { s.cuts.push(head.len() + 1); s.cuts.push(head.len() - 3); } _ => {} });
    let stop = sx::pick(4, "transport accepts: all, little, slow flush, nothing until the rest arrived");
    dev.with(|s| match stop { 1 => s.wcuts = vec![5, 30], 2 => s.fpend = 2, 3 => s.wstop = if pre { 40 } else { 0 }, _ => {} });
    let vectored = sx::flag("vectored");
    dev.with(|s| s.vectored = vectored);
    let mut b = builder();
    b.pipeline_flush(sx::flag("pipeline flush"));
    if with == 3 && sx::flag("the peer half-closes at once") { b.half_close(true); dev.with(|s| s.eof = true); }
    let log = log();
    let t: TunRef = Default::default();
    let out = syms(2, "answer byte");
    let mut ex = Ex::new(&[&dev]);
    let g = Gate::new();
    let svc = UpSvc { log: log.clone(), tasks: ex.inject.clone(), t: t.clone(), answer, n, out: out.clone(), vectored, first: n % 2 == 1, g: g.clone(), read: sx::pick(if bodied { 3 } else { 2 }, "body is dropped, read first, read beside the answer") };
    let read = svc.read > 0;
    let res: Rc<RefCell<Option<bool>>> = Default::default();
    let r2 = res.clone();
    let conn = b.serve_connection(io, svc).with_upgrades();
    ex.spawn(async move { let r = conn.await; *r2.borrow_mut() = Some(r.is_ok()); });
    ex.run();
    sx::check(!t.borrow().up && (!t.borrow().failed || bodied && !read), "the upgrade is decided before the service answers");
    g.open();
    ex.run();
    dev.feed(&rest);
    ex.run();
    if stop == 3 && !t.borrow().failed { sx::check(!t.borrow().up, "the upgrade is handed over before the response is sent"); }
    dev.raise_wstop(usize::MAX);
    ex.run();
    let m = |ms: &[&str]| match wire_responses(&dev.tx(), ms, dev.is_shutdown()) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    let meth: Vec<&str> = if pre { vec!["GET", if connect { "CONNECT" } else { "GET" }] } else { vec![if connect { "CONNECT" } else { "GET" }] };
    let k = pre as usize;
    if answer == 1 {
        let v = m(&meth[..]);
        dev.set_eof();
        ex.run();
        sx::check(!t.borrow().up, "a refused upgrade is handed over");
        sx::check(t.borrow().failed, "a refused upgrade does not resolve to an error");
        sx::check(v.len() > k && v[k].status == 400 && v[k].body == b"no", "refusal not sent");
        sx::cover("refused");
        return;
    }
    dev.set_eof();
    ex.run();
    let w = dev.tx();
    let v = m(&meth);
    sx::check(v.len() == k + 1 && v[k].status == if connect { 200 } else { 101 } && !v[k].has("content-length") && !v[k].has("transfer-encoding"), "the switching response is not sent");
    sx::check(*res.borrow() == Some(true), "connection future does not end well after an upgrade");
    let t = t.borrow();
    if bodied && !read {
        // hyper has to skip the body of the request or give up the upgrade
        sx::check(!t.up || t.got == extra || t.parts.as_ref().map_or(false, |p| starts(&extra, p)), "bytes of the request body are handed over as tunnel data");
        sx::cover("body not read");
        return;
    }
    sx::check(t.up, "an accepted upgrade is not handed over");
    let e = find(&w, b"\r\n\r\n").unwrap() + 4;
    match &t.parts {
        Some(p) => { sx::check(starts(&extra, p) && p.len() >= 0, "bytes handed over are not the ones after the head"); sx::check(dev.with(|s| s.rpos) == head.len() + p.len(), "bytes were read but not handed over"); sx::cover("taken apart"); }
        None => {
            sx::check(t.got == extra && t.eof, "the application does not see exactly the bytes after the head");
            sx::check(t.wrote && t.shut && w.len() >= 2 && w[w.len() - 2..] == out[..], "bytes of the application are not written through");
            let (last, pos) = { let mut p = 0; for i in 0..=k { p += wire_response(&w[p..], meth[i], true).map(|x| x.1).unwrap_or(0); } (w.len(), p) };
            sx::check(last == pos + 2, "something else is written to the tunnel");
            sx::cover("tunnel");
        }
    }
    sx::check(log.borrow().len() == k + 1, "tunnel bytes were taken for a request");
}

/// a server connection whose upgrade is left to the caller
#[no_mangle] pub extern "C" fn s11_alone() {
    let connect = sx::flag("connect");
    let mode = sx::pick(3, "polled alone, poll_without_shutdown, without_shutdown");
    let answer = sx::pick(2, "accept, refuse");
    let extra = syms(3, "tunnel byte");
    let with = sx::pick(4, "tunnel bytes with the head");
    let head: &[u8] = if connect { b"CONNECT a.b:1 HTTP/1.1\r\nHost: h\r\n\r\n" } else { b"GET /u HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: x\r\n\r\n" };
    let (io, dev) = io(if answer == 0 { cat(&[head, &extra[..with]]) } else { head.to_vec() });
    dev.with(|s| s.vectored = true);
    let cut = sx::flag("the head arrives in two parts");
    dev.with(|s| if cut { s.cuts = vec![20]; s.block_cuts = true; });
    let stop = sx::flag("the transport is not ready at first");
    if stop { dev.with(|s| s.wstop = 7); }
    let log = log();
    let t: TunRef = Default::default();
    let g = Gate::new();
    g.open();
    let mut ex = Ex::new(&[&dev]);
    let svc = UpSvc { log: log.clone(), tasks: ex.inject.clone(), t: t.clone(), answer, n: 1, out: vec![], vectored: false, first: true, g, read: 1 };
    let mut c = builder().serve_connection(io, svc);
    let left: Rc<RefCell<Option<(bool, Option<Vec<u8>>)>>> = Default::default();
    let l2 = left.clone();
    ex.spawn(async move {
        let r = match mode {
            0 => { let r = std::future::poll_fn(|cx| Pin::new(&mut c).poll(cx)).await; (r.is_ok(), Some(c.into_parts().read_buf.to_vec())) }
            1 => { let r = std::future::poll_fn(|cx| c.poll_without_shutdown(cx)).await; (r.is_ok(), Some(c.into_parts().read_buf.to_vec())) }
            _ => match c.without_shutdown().await { Ok(p) => (true, Some(p.read_buf.to_vec())), Err(_) => (false, None) },
        };
        *l2.borrow_mut() = Some(r);
    });
    ex.run();
    if stop { sx::check(left.borrow().is_none(), "the connection is given up before the response is sent"); dev.raise_wstop(usize::MAX); ex.run(); }
    let m = if connect { "CONNECT" } else { "GET" };
    if answer == 0 {
        sx::check(matches!(&*left.borrow(), Some((true, Some(_)))), "connection future does not end well after an upgrade");
        let p = left.borrow().as_ref().unwrap().1.clone().unwrap();
        sx::check(starts(&extra[..with], &p) && dev.rpos() == head.len() + p.len(), "bytes handed over are not the ones after the head");
        match wire_response(&dev.tx(), m, false) { Ok((v, used)) => sx::check(v.status == if connect { 200 } else { 101 } && used == dev.tx().len(), "the switching response is not sent"), Err(e) => sx::fail(e) }
        sx::check(!dev.is_shutdown(), "the transport is shut down although it was upgraded");
        sx::check(!t.borrow().up && t.borrow().failed && t.borrow().user, "an upgrade left to the caller is not reported to be");
        sx::cover("left to the caller");
        return;
    }
    sx::check(left.borrow().is_none(), "the connection ends after a refused upgrade");
    dev.set_eof();
    ex.run();
    sx::check(matches!(&*left.borrow(), Some((true, _))) && t.borrow().failed && !t.borrow().user, "a refused upgrade does not resolve to an error");
    sx::check(dev.is_shutdown() == (mode == 0), "the transport is shut down exactly when asked for");
    sx::cover("refused");
}

// ---------------------------------------------------------------- S13/S22: arbitrary input, fidelity of heads

#[derive(Clone, Copy, Default)]
struct Lenient { ignore: bool, spaces: bool }
/// independent reading of a request head: Some(None) malformed, Some(Some((method, target, minor, headers, used))) well-formed; None: incomplete
fn ref_head(b: &[u8], o: Lenient) -> Option<Option<(Vec<u8>, Vec<u8>, u8, Vec<(Vec<u8>, Vec<u8>)>, usize)>> {
    let mut p = 0;
    while p < b.len() && (b[p] == b'\n' || b[p] == b'\r' && (p + 1 == b.len() || b[p + 1] == b'\n')) { p += 1; }
    let line = |p: usize| -> Option<(Vec<u8>, usize)> {
        let e = b[p..].iter().position(|&c| c == b'\n')? + p;
        let l = if e > p && b[e - 1] == b'\r' { &b[p..e - 1] } else { &b[p..e] };
        Some((l.to_vec(), e + 1))
    };
    let (l, n) = line(p)?;
    p = n;
    let mut parts: Vec<&[u8]> = l.split(|&c| c == b' ').collect();
    // several spaces count as one between the parts, not before or after them
    if o.spaces && l.first() != Some(&b' ') && l.last() != Some(&b' ') { parts.retain(|p| !p.is_empty()); }
    if parts.len() != 3 || parts[0].is_empty() || parts[1].is_empty() || !parts[0].iter().all(|&c| is_tchar(c)) { return Some(None); }
    let minor = match parts[2] { b"HTTP/1.1" => 1, b"HTTP/1.0" => 0, _ => return Some(None) };
    let mut hs = vec![];
    loop {
        let (h, n) = line(p)?;
        p = n;
        if h.is_empty() { return Some(Some((parts[0].to_vec(), parts[1].to_vec(), minor, hs, p))); }
        let field = (|| {
            let c = h.iter().position(|&c| c == b':')?;
            if c == 0 || !h[..c].iter().all(|&c| is_tchar(c)) { return None; }
            let v = trim(&h[c + 1..]);
            if v.iter().any(|&c| c != b'\t' && (c < 32 || c == 127)) { return None; }
            Some((h[..c].to_ascii_lowercase(), v.to_vec()))
        })();
        match field {
            Some(f) => hs.push(f),
            // the line that is no header line is skipped, unless it holds a CR or NUL
            None if o.ignore && !h.iter().any(|&c| c == b'\r' || c == 0) => {}
            None => return Some(None),
        }
    }
}
/// target bytes every URI parser must take as they are
fn plain_target(t: &[u8]) -> bool { t[0] == b'/' && t.iter().all(|&c| c.is_ascii_alphanumeric() || b"/-._~=&".contains(&c)) }

fn compare(input: &[u8], complete_input: bool) { compare_with(input, complete_input, Lenient::default()) }
fn compare_with(input: &[u8], complete_input: bool, o: Lenient) {
    let (io, dev) = io(input.to_vec());
    let mut b = builder();
    if o.ignore { b.ignore_invalid_headers(true); }
    if o.spaces { b.allow_multiple_spaces_in_request_line_delimiters(true); }
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.run();
    let early = s.nreq();
    if complete_input { s.dev.set_eof(); s.run(); sx::check(s.done(), "connection does not finish although the peer closed"); }
    let r = s.reqs();
    let ms: Vec<&str> = r.iter().map(|q| match &q.method[..] { "HEAD" => "HEAD", "CONNECT" => "CONNECT", _ => "GET" }).collect();
    let m = s.responses(&ms);
    let h = ref_head(input, o);
    match h {
        None => { sx::check(r.is_empty(), "an incomplete head reached the service"); sx::cover("incomplete"); }
        Some(None) => {
            sx::check(r.is_empty(), "a malformed head reached the service");
            sx::check(m.len() == 1 && m[0].status == 400 && m[0].close(), "a malformed head is not answered with 400 and connection: close");
            sx::cover("malformed");
        }
        Some(Some((method, target, minor, hs, used))) => {
            let framing = hs.iter().any(|h| h.0 == b"transfer-encoding" || h.0 == b"content-length");
            if r.is_empty() {
                // hyper may refuse unusual targets, and whatever has a questionable framing (decided by S01)
                sx::check(!plain_target(&target) || framing || method == b"CONNECT", "a well-formed head is refused");
                sx::check(m.len() == 1 && (m[0].status == 400 || m[0].status == 414), "a refused head is not answered with an error");
                sx::cover("refused");
            } else {
                let q = &r[0];
                sx::check(q.method.as_bytes() == &method[..], "method differs from the one sent");
                sx::check(q.version == if minor == 1 { http::Version::HTTP_11 } else { http::Version::HTTP_10 }, "version differs from the one sent");
                if plain_target(&target) { sx::check(q.uri.as_bytes() == &target[..], "target differs from the one sent"); }
                let te = hs.iter().any(|h| h.0 == b"transfer-encoding");
                let mut want: Vec<&(Vec<u8>, Vec<u8>)> = hs.iter().filter(|h| !(te && h.0 == b"content-length")).collect();
                sx::check(q.headers.len() == want.len(), "number of header lines differs from what was sent");
                // lines of one name in order
                for (k, v) in &q.headers {
                    match want.iter().position(|w| w.0 == k.as_bytes()) { Some(i) => { let w = want.remove(i); sx::check(w.1 == *v, "header value differs from the one sent"); } None => sx::fail("a header that was not sent reached the service") }
                }
                sx::cover("served");
            }
        }
    }
}
const HEADS: [&[u8]; 2] = [
    b"GET /a?b HTTP/1.1\r\nHost: h\r\nA:\tb c \r\nAc: \r\n\r\n",
    b"\r\nOPTIONS * HTTP/1.0\r\nX-Y:1\r\nx-y: 2\n\r\n",
];
fn hole(n: usize, step: usize) {
    let mut h = HEADS[sx::pick(2, "head")].to_vec();
    let at = step * sx::pick((h.len() - n) / step + 1, "position");
    for i in 0..n { h[at + i] = sx::byte("byte"); }
    compare(&h, true);
}
/// arbitrary bytes at every position of a request head
#[no_mangle] pub extern "C" fn s22_hole() { hole(1, 1) }
#[no_mangle] pub extern "C" fn s22_hole2() { hole(2, 1) }
#[no_mangle] pub extern "C" fn s22_hole3() { hole(3, 2) }
/// a byte inserted or removed
#[no_mangle] pub extern "C" fn s22_edit() {
    let mut h = HEADS[sx::pick(2, "head")].to_vec();
    let at = sx::pick(h.len(), "position");
    match sx::pick(3, "insert, remove, repeat") { 0 => h.insert(at, sx::byte("byte")), 1 => { h.remove(at); } _ => { let c = h[at]; h.insert(at, c); } }
    compare(&h, true);
}
fn line(n: usize) {
    let mut h = b"GET /a HTTP/1.1\r\nk: v\r\n".to_vec();
    for b in syms(n, "byte") { h.push(b); }
    h.extend_from_slice(b"\r\n\r\n");
    compare(&h, true);
}
/// one header line of arbitrary bytes
#[no_mangle] pub extern "C" fn s22_line() { line(4) }
#[no_mangle] pub extern "C" fn s22_line5() { line(5) }
/// the lenient settings of the server accept what they name and nothing else
fn lenient_ignore(n: usize) {
    let mut h = b"GET /a HTTP/1.1\r\nk: v\r\n".to_vec();
    for b in syms(n, "byte") { h.push(b); }
    h.extend_from_slice(b"\r\nz: y\r\n\r\n");
    compare_with(&h, true, Lenient { ignore: true, spaces: sx::flag("several spaces too") });
}
#[no_mangle] pub extern "C" fn s22_ignore() { lenient_ignore(3) }
#[no_mangle] pub extern "C" fn s22_ignore4() { lenient_ignore(4) }
#[no_mangle] pub extern "C" fn s22_spaces() {
    let mut h = b"GET".to_vec();
    let (a, b) = [(3, 1), (1, 3), (2, 2), (4, 0), (0, 4)][sx::pick(5, "where")];
    if a == 0 { h.push(b' '); }
    h.extend(syms(a, "byte"));
    h.extend_from_slice(b"/a");
    h.extend(syms(b, "byte"));
    if b == 0 { h.push(b' '); }
    h.extend_from_slice(b"HTTP/1.1\r\nk: v\r\n\r\n");
    compare_with(&h, true, Lenient { ignore: sx::flag("invalid lines ignored"), spaces: true });
}
#[no_mangle] pub extern "C" fn s22_lenient() {
    let mut h = HEADS[sx::pick(2, "head")].to_vec();
    let at = sx::pick(h.len(), "position");
    h[at] = sx::byte("byte");
    let ignore = sx::flag("invalid lines ignored");
    compare_with(&h, true, Lenient { ignore, spaces: !ignore || sx::flag("several spaces") });
}
fn free(alone: usize, before: usize) {
    let follow = sx::flag("a request follows");
    let n = 1 + sx::pick(if follow { before } else { alone }, "bytes");
    let mut b = syms(n, "byte");
    if follow { b.extend_from_slice(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n"); }
    compare(&b, true);
    sx::cover("free");
}
/// arbitrary bytes alone, or followed by the rest of a request
#[no_mangle] pub extern "C" fn s13_free() { free(6, 2) }
#[no_mangle] pub extern "C" fn s13_free3() { free(8, 3) }
/// header lines that mean something to hyper, repeated and in any order, are all passed on
fn combo(n: usize) {
    const L: [(&str, &[u8]); 15] = [("host", b"h"), ("content-length", b"1"), ("connection", b"keep-alive"), ("connection", b"close"), ("connection", b"Upgrade, x"), ("upgrade", b"y"), ("expect", b"100-continue"), ("transfer-encoding", b"chunked"), ("te", b"trailers"), ("cookie", b"a"), ("cookie", b"b"), ("trailer", b"t"), ("keep-alive", b"5"), ("date", b"d"), ("x", b"")];
    let old = sx::flag("HTTP/1.0");
    let mut sent: Vec<(&str, &[u8])> = (0..n).map(|_| L[sx::pick(15, "line")]).collect();
    sent.push(("last", b"z"));
    let te = sent.iter().filter(|h| h.0 == "transfer-encoding").count();
    let cl = sent.iter().any(|h| h.0 == "content-length");
    let mut h = cat(&[b"POST /a HTTP/1.", if old { b"0" } else { b"1" }, b"\r\n"]);
    for (k, v) in &sent { h.extend_from_slice(k.as_bytes()); h.extend_from_slice(b": "); h.extend_from_slice(v); h.extend_from_slice(b"\r\n"); }
    h.extend_from_slice(b"\r\n");
    h.extend_from_slice(if te > 0 { b"1\r\nb\r\n0\r\n\r\n" } else if cl { b"b" } else { b"" });
    let (io, dev) = io(h);
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    let r = s.reqs();
    if r.is_empty() && te > 0 && (old || te > 1) {
        // refused or not is decided by S01
        sx::cover("doubtful");
        return;
    }
    sx::check(r.len() == 1 && r[0].method == "POST" && r[0].uri == "/a" && r[0].end == End::Eof && r[0].body == if te > 0 || cl { &b"b"[..] } else { b"" }, "a request is not served");
    for (k, _) in &sent {
        let mut want: Vec<&[u8]> = sent.iter().filter(|h| h.0 == *k).map(|h| h.1).collect();
        // equal lengths are one; with a transfer-encoding the length does not count
        if *k == "content-length" { want.truncate(1); if te > 0 { want.clear(); } }
        sx::check(r[0].get(k) == want, "a header line is lost, changed or reordered");
    }
    sx::check(r[0].headers.iter().all(|(k, _)| sent.iter().any(|h| h.0 == k)), "a header line nobody sent");
    sx::cover("served");
}
#[no_mangle] pub extern "C" fn s22_combo3() { combo(3) }
#[no_mangle] pub extern "C" fn s22_combo4() { combo(4) }
