//! HTTP/1 client: response heads, arbitrary input, cut connections, ways of arriving, upgrades, request heads.
use crate::{cli, cli::Cli, cli::Out, refs::*, sup::*, sx};
use http::Version;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- C05: response heads as sent

#[derive(Clone, Copy, PartialEq)]
enum Opt { Strict, Spaces, Fold, Ignore }
struct Head { status: u16, reason: Vec<u8>, minor: u8, hs: Vec<(Vec<u8>, Vec<u8>)>, used: usize }
/// independent reading of a response head: None incomplete, Some(None) malformed
fn ref_resp(b: &[u8], o: Opt) -> Option<Option<Head>> {
    let mut p = 0;
    while p < b.len() && (b[p] == b'\n' || b[p] == b'\r' && (p + 1 == b.len() || b[p + 1] == b'\n')) { p += 1; }
    let line = |p: usize| -> Option<(Vec<u8>, usize)> {
        let e = b[p..].iter().position(|&c| c == b'\n')? + p;
        let l = if e > p && b[e - 1] == b'\r' { &b[p..e - 1] } else { &b[p..e] };
        Some((l.to_vec(), e + 1))
    };
    let (l, n) = line(p)?;
    p = n;
    if l.len() < 12 || &l[..7] != b"HTTP/1." || l[8] != b' ' || !l[9..12].iter().all(|c| c.is_ascii_digit()) || l[9] == b'0' { return Some(None); }
    let minor = match l[7] { b'1' => 1, b'0' => 0, _ => return Some(None) };
    let status = l[9..12].iter().fold(0, |a, c| a * 10 + (c - b'0') as u16);
    if l.len() > 12 && l[12] != b' ' || l.iter().any(|&c| c != b'\t' && (c < 32 || c == 127)) { return Some(None); }
    let reason = if l.len() > 13 { l[13..].to_vec() } else { vec![] };
    let mut hs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    loop {
        let (h, n) = line(p)?;
        p = n;
        if h.is_empty() { return Some(Some(Head { status, reason, minor, hs, used: p })); }
        let fields = (|| {
            let c = h.iter().position(|&c| c == b':')?;
            let name = if o == Opt::Spaces { let e = h[..c].iter().rposition(|&x| x != b' ' && x != b'\t')?; &h[..e + 1] } else { &h[..c] };
            if name.is_empty() || !name.iter().all(|&c| is_tchar(c)) { return None; }
            let mut v = trim(&h[c + 1..]).to_vec();
            if v.iter().any(|&c| c != b'\t' && (c < 32 || c == 127)) { return None; }
            Some((name.to_ascii_lowercase(), v))
        })();
        let mut f = match fields {
            Some(f) => f,
            // the line that is no header line is skipped, unless it holds a CR or NUL
            None if o == Opt::Ignore && !h.iter().any(|&c| c == b'\r' || c == 0) => continue,
            None => return Some(None),
        };
        if o == Opt::Fold {
            loop {
                // whether a line goes on is known only with its next byte
                if p >= b.len() { return None; }
                if b[p] != b' ' && b[p] != b'\t' { break; }
                let (h, n) = line(p)?;
                p = n;
                if h.iter().any(|&c| c != b'\t' && (c < 32 || c == 127)) { return Some(None); }
                f.1.push(b' ');
                f.1.extend_from_slice(trim(&h));
            }
            f.1 = trim(&f.1).to_vec();
        }
        hs.push(f);
    }
}
fn opts(o: Opt) -> hyper::client::conn::http1::Builder {
    let mut b = cli::builder();
    match o { Opt::Strict => {} Opt::Spaces => { b.allow_spaces_after_header_name_in_responses(true); } Opt::Fold => { b.allow_obsolete_multiline_headers_in_responses(true); } Opt::Ignore => { b.ignore_invalid_headers_in_responses(true); } }
    b
}
fn compare(input: &[u8], o: Opt) {
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&opts(o), (io, dev));
    let i = s.send(cli::get("/a"));
    s.run();
    s.dev.feed(input);
    s.run();
    let before = s.out(i);
    let delivered = matches!(before, Out::Resp(_));
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    sx::check(s.out(i) != Out::Pending, "the request gets no outcome although the peer closed");
    let mut at = 0;
    let h = loop {
        match ref_resp(&input[at..], o) {
            None => { sx::check(!matches!(s.out(i), Out::Resp(_)), "an incomplete response is delivered"); sx::cover("incomplete"); return; }
            Some(None) => {
                sx::check(matches!(before, Out::Err { parse: true, returned: false, .. }), "a malformed response is not reported as a parse error");
                sx::cover("malformed");
                return;
            }
            Some(Some(h)) if h.status / 100 == 1 && h.status != 101 => { at += h.used; sx::cover("informational"); }
            Some(Some(h)) => break h,
        }
    };
    let vals = |n: &[u8]| -> Vec<Vec<u8>> { h.hs.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect() };
    let (te, cl) = (vals(b"transfer-encoding"), vals(b"content-length"));
    let te_: Vec<&[u8]> = te.iter().map(|v| &v[..]).collect();
    let cl_: Vec<&[u8]> = cl.iter().map(|v| &v[..]).collect();
    let f = client_reference(h.status, "GET", h.minor == 1, &te_, &cl_);
    if f == Cf::F(Fr::Reject) { sx::check(matches!(before, Out::Err { parse: true, .. }), "a response with invalid framing is accepted"); sx::cover("rejected"); return; }
    if f == Cf::F(Fr::Any) && !delivered { return; }
    sx::check(delivered, "a well-formed response is not delivered");
    let r = s.resp(i).unwrap();
    sx::check(r.status == h.status, "status differs from the one sent");
    sx::check(r.version == if h.minor == 1 { Version::HTTP_11 } else { Version::HTTP_10 }, "version differs from the one sent");
    if h.reason.iter().all(|&c| c < 128) { sx::check(s.reason(i) == h.reason, "reason phrase differs from the one sent"); }
    sx::check(r.headers.len() == h.hs.len(), "number of header lines differs from what was sent");
    let mut want: Vec<&(Vec<u8>, Vec<u8>)> = h.hs.iter().collect();
    for (k, v) in &r.headers {
        match want.iter().position(|w| w.0 == k.as_bytes()) { Some(i) => { let w = want.remove(i); let v = if o == Opt::Fold { trim(v) } else { v }; sx::check(w.1 == v, "header value differs from the one sent"); } None => sx::fail("a header that was not sent is delivered") }
    }
    let rest = &input[at + h.used..];
    match f {
        Cf::Zero | Cf::Tunnel => sx::check(r.end == End::Eof && r.body.is_empty(), "a body where there is none"),
        Cf::Close => sx::check(r.end == End::Eof && r.body == rest, "a body until close is not everything sent"),
        Cf::F(Fr::Len(n)) if n as usize <= rest.len() => sx::check(r.end == End::Eof && r.body == &rest[..n as usize], "a body differs from the one sent"),
        Cf::F(Fr::Len(_)) => sx::check(r.end == End::Err && r.body == rest, "a truncated body ends as if complete"),
        Cf::F(Fr::Chunked) => match wire_chunked(rest) {
            Ok((c, _, _)) => sx::check(r.end == End::Eof && r.body == c.concat(), "a chunked body differs from the one sent"),
            Err(e) if e.starts_with("incomplete") => sx::check(r.end == End::Err, "a truncated body ends as if complete"),
            Err(_) => {}
        },
        _ => {}
    }
    sx::cover("delivered");
}
const HEADS: [&[u8]; 4] = [
    b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nA:\tb c \r\nAc: \r\n\r\nxy",
    b"\r\nHTTP/1.0 404 Not it\nX-Y:1\r\nx-y: 2\n\r\nab",
    b"HTTP/1.1 103 E\r\nL: 1\r\n\r\nHTTP/1.1 204 \r\nK: v\r\n\r\n",
    b"HTTP/1.1 201\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n\r\n",
];
fn hole(n: usize, step: usize) {
    let mut h = HEADS[sx::pick(4, "head")].to_vec();
    let at = step * sx::pick((h.len() - n) / step + 1, "position");
    for i in 0..n { h[at + i] = sx::byte("byte"); }
    compare(&h, Opt::Strict);
}
#[no_mangle] pub extern "C" fn c05_hole() { hole(1, 1) }
#[no_mangle] pub extern "C" fn c05_hole2() { hole(2, 1) }
#[no_mangle] pub extern "C" fn c05_hole3() { hole(3, 2) }
#[no_mangle] pub extern "C" fn c05_edit() {
    let mut h = HEADS[sx::pick(4, "head")].to_vec();
    let at = sx::pick(h.len(), "position");
    match sx::pick(3, "insert, remove, repeat") { 0 => h.insert(at, sx::byte("byte")), 1 => { h.remove(at); } _ => { let c = h[at]; h.insert(at, c); } }
    compare(&h, Opt::Strict);
}
/// one header line of arbitrary bytes under one of the lenient settings
fn line(n: usize, o: Opt) {
    let mut h = b"HTTP/1.1 204 No Content\r\nk: v\r\n".to_vec();
    if o == Opt::Fold { h.extend_from_slice(b"f:"); }
    for b in syms(n, "byte") { h.push(b); }
    h.extend_from_slice(b"\r\nx: y\r\n\r\n");
    compare(&h, o);
}
#[no_mangle] pub extern "C" fn c05_line() { line(4, Opt::Strict) }
#[no_mangle] pub extern "C" fn c05_spaces() { line(4, Opt::Spaces) }
#[no_mangle] pub extern "C" fn c05_fold() { line(5, Opt::Fold) }
#[no_mangle] pub extern "C" fn c05_ignore() { line(4, Opt::Ignore) }
#[no_mangle] pub extern "C" fn c05_fold6() { line(6, Opt::Fold) }
#[no_mangle] pub extern "C" fn c05_spaces5() { line(5, Opt::Spaces) }
#[no_mangle] pub extern "C" fn c05_ignore5() { line(5, Opt::Ignore) }

// ---------------------------------------------------------------- C09: arbitrary input

fn free(alone: usize, before: usize) {
    let follow = sx::flag("a response follows");
    let n = 1 + sx::pick(if follow { before } else { alone }, "bytes");
    let mut b = syms(n, "byte");
    if follow { b.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); }
    compare(&b, Opt::Strict);
    sx::cover("free");
}
#[no_mangle] pub extern "C" fn c09_free() { free(6, 2) }
#[no_mangle] pub extern "C" fn c09_free3() { free(8, 3) }

// ---------------------------------------------------------------- C06: upgrades

use crate::tun::*;
struct Up { ex: Ex, dev: Dev, log: Log, tx: hyper::client::conn::http1::SendRequest<HBody>, res: Rc<RefCell<Option<Result<(), hyper::Error>>>>, left: Rc<RefCell<Option<Vec<u8>>>>, iodrop: bool }
/// mode 0: with_upgrades, 1: the connection polled by itself, 2: without_shutdown
fn connect(mode: usize, iodev: (Io, Dev)) -> Up {
    let (io, dev) = iodev;
    let (tx, conn) = match cli::now(cli::builder().handshake::<_, HBody>(io)) { Ok(x) => x, Err(_) => sx::fail("handshake fails") };
    let res: Rc<RefCell<Option<Result<(), hyper::Error>>>> = Default::default();
    let left: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
    let mut ex = Ex::new(&[&dev]);
    let (r2, l2) = (res.clone(), left.clone());
    match mode {
        0 => { ex.spawn(async move { let r = conn.with_upgrades().await; *r2.borrow_mut() = Some(r); }); }
        1 => {
            let mut conn = Some(conn);
            ex.spawn(async move {
                let r = std::future::poll_fn(|cx| std::future::Future::poll(std::pin::Pin::new(conn.as_mut().unwrap()), cx)).await;
                *r2.borrow_mut() = Some(r);
                *l2.borrow_mut() = Some(conn.take().unwrap().into_parts().read_buf.to_vec());
            });
        }
        _ => { ex.spawn(async move { match conn.without_shutdown().await { Ok(p) => { *l2.borrow_mut() = Some(p.read_buf.to_vec()); *r2.borrow_mut() = Some(Ok(())); } Err(e) => *r2.borrow_mut() = Some(Err(e)) } }); }
    }
    Up { ex, dev, log: log(), tx, res, left, iodrop: false }
}
#[no_mangle] pub extern "C" fn c06_client() {
    let connect_ = sx::flag("connect");
    let mode = sx::pick(3, "with_upgrades, alone, without_shutdown");
    let answer = sx::pick(3, "accept, refuse, refuse and close");
    let n = sx::pick(4, "bytes per read (0: take apart)");
    let extra = if answer == 0 { syms(3, "tunnel byte") } else { vec![] };
    let k = if answer == 0 { sx::pick(4, "tunnel bytes with the head") } else { 0 };
    let (io, dev) = io(vec![]);
    let pre = sx::pick(3, "before it: nothing, an exchange, an informational response");
    let mut u = connect(mode, (io, dev));
    let body = sx::flag("a request body") && !connect_;
    let mut base = 0;
    if pre == 1 {
        let f = u.tx.try_send_request(cli::get("/n"));
        u.ex.spawn(async move { if f.await.is_err() { sx::fail("first exchange fails"); } });
        u.ex.run();
        base = u.dev.tx().len();
        u.dev.feed(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
        u.ex.run();
        sx::check(u.tx.is_ready(), "not ready after the first exchange");
    }
    let mut r = if connect_ { cli::req("CONNECT", "a.b:1", HBody::empty()) } else { cli::req(if body { "POST" } else { "GET" }, "/u", if body { HBody::full(b"bb") } else { HBody::empty() }) };
    if !connect_ { r.headers_mut().insert("connection", hv(b"upgrade")); r.headers_mut().insert("upgrade", hv(b"x")); }
    let out = syms(2, "answer byte");
    let t: TunRef = Default::default();
    let f = u.tx.try_send_request(r);
    let vectored = sx::flag("vectored");
    u.dev.with(|s| s.vectored = vectored);
    let (t2, log, out2) = (t.clone(), u.log.clone(), out.clone());
    let first = n % 2 == 1;
    let inject = u.ex.inject.clone();
    u.ex.spawn(async move {
        match f.await {
            Ok(mut r) => {
                let on = hyper::upgrade::on(&mut r);
                let (p, b) = r.into_parts();
                let i = log_resp(&log, &p, &b);
                inject.borrow_mut().push(Box::pin(tunnel(on, t2, out2, n, vectored, first)));
                drain(b, log, i, usize::MAX).await;
            }
            Err(_) => sx::fail("the request fails"),
        }
    });
    u.ex.run();
    let w = u.dev.tx()[base..].to_vec();
    let q = request_on_wire(&w);
    sx::check(q.complete && q.used == w.len(), "the request is not written");
    let end = base + w.len();
    sx::check(!t.borrow().up && !t.borrow().failed, "the upgrade is decided before the server answers");
    if pre == 2 { u.dev.feed(b"HTTP/1.1 103 E\r\nUpgrade: y\r\n\r\n"); u.ex.run(); sx::check(!t.borrow().up && !t.borrow().failed, "an informational response decides the upgrade"); }
    // another request behind it
    let behind = sx::flag("a request is queued");
    let back: Rc<Cell<usize>> = Default::default();
    if behind { let f = u.tx.try_send_request(cli::get("/behind")); let b = back.clone(); u.ex.spawn(async move { match f.await { Ok(_) => b.set(1), Err(mut e) => b.set(if e.take_message().is_some() { 2 } else { 3 }) } }); u.ex.run(); }
    let queued = behind && back.get() == 0;
    if queued { sx::cover("queued"); }
    let head: &[u8] = match answer { 0 => if connect_ { b"HTTP/1.1 200 OK\r\nContent-Length: 7\r\n\r\n" } else { b"HTTP/1.1 101 S\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n" }, 1 => b"HTTP/1.1 404 N\r\nContent-Length: 2\r\n\r\nno", _ => b"HTTP/1.1 404 N\r\nConnection: close\r\nContent-Length: 2\r\n\r\nno" };
    let all = cat(&[head, &extra[..k]]);
    let cut = sx::pick(3, "cut: none, before the end of the head, after it");
    match cut { 0 => u.dev.feed(&all), c => { let at = if c == 1 { head.len() - 3 } else { head.len() }; u.dev.feed(&all[..at]); u.ex.run(); u.dev.feed(&all[at..]); } }
    u.ex.run();
    if answer == 0 { u.dev.feed(&extra[k..]); }
    u.ex.run();
    if answer > 0 {
        sx::check(!t.borrow().up, "a refused upgrade is handed over");
        sx::check(u.log.borrow()[0].status == 404 && u.log.borrow()[0].body == b"no" && u.log.borrow()[0].end == End::Eof, "the refusing response is not delivered");
        if behind { sx::check(if answer == 1 && queued { find(&u.dev.tx()[end..], b"/behind ").is_some() } else { back.get() == 2 }, "a request queued behind a refused upgrade is neither written nor given back"); }
        if answer == 1 && !queued { sx::check(u.tx.is_ready(), "the connection is not reusable after a refused upgrade"); }
        u.dev.set_eof();
        u.ex.run();
        sx::check(t.borrow().failed && u.res.borrow().is_some(), "a refused upgrade does not resolve to an error");
        sx::cover("refused");
        return;
    }
    sx::check(u.log.borrow()[0].status == if connect_ { 200 } else { 101 } && u.log.borrow()[0].body.is_empty(), "the switching response is not delivered");
    sx::check(!u.tx.is_ready() && u.tx.is_closed(), "the sender still takes requests after an upgrade");
    if behind { sx::check(back.get() == 2, "a queued request is not given back"); }
    sx::check(u.dev.tx()[end..].len() == if first && mode == 0 && n > 0 { 2 } else { 0 }, "something is written to the tunnel");
    sx::check(matches!(*u.res.borrow(), Some(Ok(()))), "connection future does not end well after an upgrade");
    u.dev.set_eof();
    u.ex.run();
    let t = t.borrow();
    if mode > 0 {
        sx::check(!t.up && t.failed && t.user, "an upgrade left to the caller is not reported to be");
        let p = u.left.borrow();
        let p = p.as_ref().unwrap();
        sx::check(starts(&extra, p) && u.dev.with(|s| s.rpos) >= head.len() && u.dev.with(|s| s.rx.len() - s.rpos) + p.len() == extra.len(), "bytes handed over are not the ones after the head");
        sx::check(!u.dev.is_shutdown(), "the transport is shut down although it was upgraded");
        sx::cover("left to the caller");
        return;
    }
    sx::check(t.up, "an accepted upgrade is not handed over");
    match &t.parts {
        Some(p) => { sx::check(starts(&extra, p) && u.dev.with(|s| s.rx.len() - s.rpos) + p.len() == extra.len(), "bytes were read but not handed over"); sx::cover("taken apart"); }
        None => {
            sx::check(t.got == extra && t.eof, "the application does not see exactly the bytes after the head");
            sx::check(t.wrote && t.shut && u.dev.tx()[end..] == out[..], "bytes of the application are not written through");
            sx::cover("tunnel");
        }
    }
}

/// the server switches protocols before the whole request reached it
#[no_mangle] pub extern "C" fn c06_early() {
    let n = sx::pick(3, "bytes per read (0: take apart)");
    let mode = sx::pick(3, "with_upgrades, alone, without_shutdown");
    let extra = syms(2, "tunnel byte");
    let (io, dev) = io(vec![]);
    let vectored = sx::flag("vectored");
    dev.with(|s| s.vectored = vectored);
    let g = Gate::new();
    let d = syms(2, "body byte");
    let kind = sx::pick(3, "body: known, chunked, in two parts");
    let body = match kind { 0 => HBody::full(&d), 1 => HBody::new(vec![Op::Data(bytes::Bytes::copy_from_slice(&d[..1])), Op::Data(bytes::Bytes::copy_from_slice(&d[1..]))]), _ => HBody::new(vec![Op::Data(bytes::Bytes::copy_from_slice(&d[..1])), Op::Wait(g.clone()), Op::Data(bytes::Bytes::copy_from_slice(&d[1..]))]).hinted(2, Some(2)) };
    let mut r = cli::req("POST", "/u", body);
    r.headers_mut().insert("connection", hv(b"upgrade")); r.headers_mut().insert("upgrade", hv(b"x"));
    let stop = [0, 10, 80, usize::MAX][sx::pick(4, "the transport accepts this much at first")];
    dev.with(|s| s.wstop = stop);
    let mut u = connect(mode, (io, dev));
    let t: TunRef = Default::default();
    let out = syms(2, "answer byte");
    let f = u.tx.try_send_request(r);
    let (t2, log, out2, inject) = (t.clone(), u.log.clone(), out.clone(), u.ex.inject.clone());
    let failed: Rc<Cell<bool>> = Default::default();
    let f2 = failed.clone();
    u.ex.spawn(async move {
        match f.await {
            Ok(mut r) => {
                let on = hyper::upgrade::on(&mut r);
                let (p, b) = r.into_parts();
                let i = log_resp(&log, &p, &b);
                inject.borrow_mut().push(Box::pin(tunnel(on, t2, out2, n, vectored, true)));
                drain(b, log, i, usize::MAX).await;
            }
            Err(_) => f2.set(true),
        }
    });
    u.ex.run();
    let whole = |w: &[u8]| wire_request(w).ok().and_then(|q| q.complete.then_some(q.used));
    u.dev.feed(&cat(&[b"HTTP/1.1 101 S\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n", &extra]));
    u.ex.run();
    if whole(&u.dev.tx()).is_none() { sx::check(!t.borrow().up && u.left.borrow().is_none(), "the connection is handed over before the request is sent"); sx::cover("early"); }
    if sx::flag("the body goes on first") { g.open(); u.ex.run(); u.dev.raise_wstop(usize::MAX); } else { u.dev.raise_wstop(usize::MAX); u.ex.run(); g.open(); }
    u.ex.run();
    let w = u.dev.tx();
    u.dev.set_eof();
    u.ex.run();
    let given = t.borrow().up || u.left.borrow().is_some();
    if given && !failed.get() {
        let q = match whole(&w) { Some(q) => q, None => sx::fail("the connection is handed over with a part of the request missing") };
        let q = request_on_wire(&w[..q]);
        sx::check(q.body == d, "the request body differs");
        let t = t.borrow();
        if let Some(p) = &*u.left.borrow() { if matches!(*u.res.borrow(), Some(Ok(()))) { sx::check(starts(&extra, p) && u.dev.with(|s| s.rx.len() - s.rpos) + p.len() == 2, "bytes handed over are not the ones after the head"); } }
        else if t.parts.is_none() { sx::check(t.got == extra && t.eof && w[q.used..] == out[..], "the tunnel is not exact"); }
        sx::cover("given");
    }
    sx::check(u.res.borrow().is_some() && (t.borrow().up || t.borrow().failed || failed.get()), "the upgrade is never decided");
}
// ---------------------------------------------------------------- C07: ways of arriving; C10: informational responses

const STREAMS: [(&[u8], u16, &[u8], &[u8]); 6] = [
    (b"HTTP/1.1 200 OK\r\nX-A: one\r\nContent-Length: 4\r\n\r\nabcd", 200, b"abcd", b""),
    (b"HTTP/1.1 201 Created\r\nX-A: one\r\nTransfer-Encoding: chunked\r\n\r\n3;e=1\r\nabc\r\n1\r\nd\r\n0\r\nT: v\r\n\r\n", 201, b"abcd", b"v"),
    (b"HTTP/1.1 103 E\r\nL: 1\r\n\r\nHTTP/1.1 100 C\r\n\r\nHTTP/1.1 304 N\r\nX-A: one\r\nContent-Length: 9\r\n\r\n", 304, b"", b""),
    (b"HTTP/1.1 200 OK\r\nX-A: one\r\nConnection: close\r\n\r\nabcd", 200, b"abcd", b""),
    (b"HTTP/1.0 404 Not\r\nX-A: one\r\ncontent-length: 1\r\nConnection: keep-alive\r\n\r\nx", 404, b"x", b""),
    (b"HTTP/1.1 200 OK\r\nX-A: one\r\nContent-Length: 0\r\n\r\n", 200, b"", b""),
];
fn arrives(cuts: Vec<usize>, pause: bool, k: usize, frames: usize) {
    let (st, status, body, tr) = STREAMS[k];
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let i = s.send_n(cli::get("/a"), frames);
    s.run();
    s.dev.feed(st);
    s.dev.with(|s| { s.cuts = cuts; s.block_cuts = pause; });
    s.run();
    let close = k == 3;
    if close { sx::check(s.resp(i).map_or(false, |r| r.end == End::Open), "a body until close ends before"); s.dev.set_eof(); s.run(); }
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("the response depends on how it arrives") };
    sx::check(r.status == status && r.get("x-a") == [b"one"] && r.body == body && r.end == End::Eof, "the response depends on how it arrives");
    sx::check(r.trailers.clone().unwrap_or_default() == if tr.is_empty() { vec![] } else { vec![("t".to_string(), tr.to_vec())] }, "the trailers depend on how they arrive");
    if close { sx::check(s.done(), "connection does not finish"); sx::cover("close"); return; }
    sx::check(s.is_ready(), "reuse depends on how the response arrives");
    let j = s.send(cli::get("/b"));
    s.run();
    s.dev.feed(STREAMS[0].0);
    s.run();
    sx::check(s.resp(j).map_or(false, |r| r.body == b"abcd" && r.end == End::Eof), "the next response depends on how this one arrives");
    sx::cover(["length", "chunked", "informational", "", "old", "empty"][k]);
}
fn split(n: usize) {
    let k = sx::pick(6, "stream");
    let len = STREAMS[k].0.len();
    let mut cuts = vec![];
    for _ in 0..n { let lo = cuts.last().copied().unwrap_or(0) + 1; if lo >= len { sx::end(); } cuts.push(lo + sx::pick(len - lo, "cut")); }
    arrives(cuts, sx::flag("pause at the cuts"), k, usize::MAX);
}
#[no_mangle] pub extern "C" fn c07_one() { split(1) }
#[no_mangle] pub extern "C" fn c07_two() { split(2) }
#[no_mangle] pub extern "C" fn c07_three() { split(3) }
#[no_mangle] pub extern "C" fn c07_drip() {
    let k = sx::pick(6, "stream");
    let n = 1 + sx::pick(9, "group");
    let p = sx::flag("pause at the cuts");
    arrives((1..STREAMS[k].0.len()).filter(|i| i % n == 0).collect(), p, k, usize::MAX);
}
type Seen = std::sync::Arc<std::sync::Mutex<Vec<(u16, Vec<(String, Vec<u8>)>)>>>;
fn on_info(r: &mut http::Request<HBody>, s: &Seen) {
    let s = s.clone();
    hyper::ext::on_informational(r, move |i| { s.lock().unwrap().push((i.status().as_u16(), hdrs(i.headers()))); });
}
fn informational(most: usize, cuts: usize) {
    let n = sx::pick(most + 1, "informational responses");
    let mut st = vec![];
    let mut want = vec![];
    for i in 0..n {
        let c = [100u16, 102, 103, 199][sx::pick(4, "status")];
        let v = b'0' + i as u8;
        let named = sx::flag("with a header");
        st.extend_from_slice(&cat(&[b"HTTP/1.1 ", c.to_string().as_bytes(), b" R\r\n", &if named { cat(&[b"L: ", &[v], b"\r\n"]) } else { vec![] }, b"\r\n"]));
        want.push((c, if named { vec![("l".to_string(), vec![v])] } else { vec![] }));
    }
    let fin = sx::pick(4, "final: with length, until close, never, malformed");
    let last: &[u8] = [&b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"[..], b"HTTP/1.1 200 OK\r\n\r\nok", b"", b"HTTP/1.1 x\r\n\r\n"][fin];
    let info = st.len();
    st.extend_from_slice(last);
    let cb = sx::flag("a callback");
    let g = Gate::new();
    let slow = sx::flag("the request body waits");
    let seen: Seen = Default::default();
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let mut r = if slow { cli::req("PUT", "/a", HBody::new(vec![Op::Data(b"b".to_vec().into()), Op::Wait(g.clone()), Op::Data(b"c".to_vec().into())])) } else { cli::get("/a") };
    if slow { r.headers_mut().insert("expect", hv(b"100-continue")); }
    if cb { on_info(&mut r, &seen); }
    let i = s.send(r);
    s.run();
    let mut at = 0;
    for _ in 0..cuts { let c = at + sx::pick(st.len() + 1 - at, "cut"); s.dev.feed(&st[at..c]); s.run(); at = c; }
    sx::check(at < info || fin != 2 || s.out(i) == Out::Pending, "an informational response ends the exchange");
    s.dev.feed(&st[at..]);
    s.run();
    sx::check(!cb || *seen.lock().unwrap() == want, "informational responses are not reported as they were sent");
    if slow && fin == 2 { g.open(); s.run(); let q = request_on_wire(&s.wire()); sx::check(q.complete && q.body == b"bc", "the request body is not sent after an informational response"); }
    match fin {
        0 => {
            let r = s.resp(i);
            sx::check(r.map_or(false, |r| r.status == 200 && r.body == b"ok" && r.end == End::Eof && !r.has("l")), "the final response is not delivered");
            if slow { sx::check(!s.is_ready(), "ready while a request body is being written"); g.open(); s.run(); }
            sx::check(s.is_ready(), "connection is not reusable after informational responses");
            let other: Seen = Default::default();
            let base = s.wire().len();
            let mut r = cli::get("/b");
            let second = sx::flag("a second callback");
            if second { on_info(&mut r, &other); }
            let j = s.send(r);
            s.run();
            s.dev.feed(b"HTTP/1.1 104 X\r\nM: 1\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
            s.run();
            sx::check(s.resp(j).map_or(false, |r| r.status == 200), "the second response is not delivered");
            sx::check(seen.lock().unwrap().len() == if cb { n } else { 0 }, "a callback is called for another request");
            sx::check(*other.lock().unwrap() == if second { vec![(104, vec![("m".to_string(), b"1".to_vec())])] } else { vec![] }, "informational responses of the second request are not reported to its callback");
            sx::cover("reused");
        }
        1 => { sx::check(s.resp(i).map_or(false, |r| r.body == b"ok" && r.end == End::Open), "the final response is not delivered"); sx::cover("until close"); }
        2 => {
            sx::check(s.out(i) == Out::Pending, "an informational response ends the exchange");
            s.dev.set_eof();
            s.run();
            sx::check(matches!(s.out(i), Out::Err { incomplete: true, returned: false, .. }), "an exchange without a final response is not reported as incomplete");
            sx::cover("cut off");
        }
        _ => { sx::check(matches!(s.out(i), Out::Err { parse: true, .. }), "a malformed response after informational ones is accepted"); sx::cover("malformed"); }
    }
}
#[no_mangle] pub extern "C" fn c10_info() { informational(2, 1) }
#[no_mangle] pub extern "C" fn c10_info2() { informational(1, 2) }
#[no_mangle] pub extern "C" fn c10_info3() { informational(3, 1) }

// ---------------------------------------------------------------- C08: cut off anywhere

#[no_mangle] pub extern "C" fn c08_cut() {
    let k = sx::pick(6, "stream");
    let (st, status, body, tr) = STREAMS[k];
    let at = sx::pick(st.len() + 1, "bytes before the end");
    let reset = sx::flag("reset");
    let later = sx::flag("the end comes later");
    let g = Gate::new();
    let slow = sx::flag("the request body waits");
    let queued = sx::flag("another request is queued");
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let i = s.send(if slow { cli::req("POST", "/a", HBody::new(vec![Op::Data(b"b".to_vec().into()), Op::Wait(g.clone()), Op::Data(b"c".to_vec().into())])) } else { cli::get("/a") });
    s.run();
    if queued { s.send(cli::get("/b")); s.run(); }
    s.dev.feed(&st[..at]);
    if later { s.run(); }
    if reset { s.dev.set_rerr() } else { s.dev.set_eof() }
    s.run();
    let h = st.len() - st.iter().rev().take(if k == 1 { 0 } else { body.len() }).count();
    let h = if k == 1 { find(st, b"\r\n\r\n").unwrap() + 4 } else { h };
    let whole = at == st.len() && !(k == 3 && reset);
    match s.out(i) {
        Out::Resp(_) => {
            let r = s.resp(i).unwrap();
            sx::check(at >= h && r.status == status && r.get("x-a") == [b"one"], "a response whose head is cut off is delivered");
            sx::check(starts(body, &r.body), "body bytes that were not sent");
            if whole { sx::check(r.end == End::Eof && r.body == body, "a complete response is not delivered completely"); sx::cover("complete"); }
            else if k == 3 && !reset { sx::check(r.end == End::Eof && r.body.len() == at - h, "a body until close is not delivered"); sx::cover("until close"); }
            else { sx::check(r.end == End::Err || !slow_done(&r) && slow, "a body that is cut off ends as if complete"); sx::cover("body cut off"); }
        }
        Out::Err { incomplete, returned, canceled, .. } => {
            sx::check(!returned, "a request is given back although it was written");
            sx::check(at < h || reset && !later, "a response whose head is complete is lost");
            if !reset { sx::check(incomplete, "a response cut off by the end is not reported as incomplete"); }
            sx::cover("head cut off");
        }
        Out::Pending => sx::check(slow, "no outcome although the peer is gone"),
        Out::Gone => {}
    }
    if slow { g.open(); s.run(); sx::check(s.out(i) != Out::Pending, "no outcome although the peer is gone"); if let Some(r) = s.resp(i) { sx::check(r.end != End::Open && (r.end == End::Err || whole || k == 3), "no end of the body although the peer is gone"); } sx::cover("body in flight"); }
    sx::check(s.done(), "connection does not finish although the peer is gone");
    if queued { match s.out(1) { Out::Err { returned, canceled, .. } => { sx::check(find(&s.wire(), b" /b ").is_some() != returned, "a queued request that was not written is not given back"); sx::cover("given back"); } Out::Pending => sx::fail("no outcome for a queued request"), _ => {} } }
}
/// the application drops the connection with a response anywhere on its way
#[no_mangle] pub extern "C" fn c08_dropped() {
    let k = sx::pick(6, "stream");
    let (st, status, body, _) = STREAMS[k];
    let at = sx::pick(st.len() + 1, "bytes before the end");
    let g = Gate::new();
    let early = sx::flag("read before the drop");
    if early { g.open(); }
    let waits = sx::flag("the request body waits");
    let queued = sx::flag("another request is queued");
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let i = s.send_gated(if waits { cli::req("POST", "/a", HBody::new(vec![Op::Data(b"b".to_vec().into()), Op::Wait(Gate::new()), Op::Data(b"c".to_vec().into())])) } else { cli::get("/a") }, usize::MAX, g.clone());
    let polled = sx::flag("the connection ran");
    if polled { s.run(); }
    if queued { s.send(cli::get("/b")); if polled { s.run(); } }
    if polled { s.dev.feed(&st[..at]); s.run(); }
    let t = s.task;
    s.ex.kill(t);
    s.run();
    g.open();
    s.run();
    let n = sx::flag("a request after the drop");
    if n { s.send(cli::get("/c")); s.run(); }
    let h = if k == 1 { find(st, b"\r\n\r\n").unwrap() + 4 } else { st.len() - body.len() };
    match s.out(i) {
        Out::Resp(_) => {
            let r = s.resp(i).unwrap();
            sx::check(polled && at >= h && r.status == status && r.get("x-a") == [b"one"], "a response whose head is cut off is delivered");
            sx::check(starts(body, &r.body) && r.end != End::Open, "body bytes that were not sent, or no end");
            if r.end == End::Eof { sx::check(at == st.len() && r.body == body && (k != 3), "a body that is cut off ends as if complete"); sx::cover("complete"); } else { sx::cover("body cut off"); }
            if early && at == st.len() && k != 3 { sx::check(r.end == End::Eof, "a complete response is not delivered completely"); }
        }
        Out::Err { returned, canceled, .. } => {
            sx::check(returned == s.wire().is_empty(), "a request is given back although it was written, or lost although it was not");
            sx::check(!polled || at < h, "a response whose head is complete is lost");
            sx::check(canceled || s.wire().len() > 0, "the outcome of a dropped connection is not a cancellation");
            sx::cover("head cut off");
        }
        _ => sx::fail("no outcome although the connection is gone"),
    }
    if queued || n { for j in 1..s.outs.len() { match s.out(j) { Out::Err { returned, canceled, .. } => { sx::check(find(&s.wire(), b" /b ").is_some() != returned && canceled, "a request that was not written is not given back"); sx::cover("given back"); } Out::Pending => sx::fail("no outcome for a queued request"), _ => {} } } }
    sx::check(s.tx.as_ref().unwrap().is_closed(), "a dropped connection still looks open");
}
fn slow_done(r: &Msg) -> bool { r.end != End::Open }

// ---------------------------------------------------------------- C11: request heads as given

fn title(n: &[u8]) -> Vec<u8> { let mut up = true; n.iter().map(|&c| { let r = if up { c.to_ascii_uppercase() } else { c }; up = c == b'-'; r }).collect() }
/// the request head on the wire must be exactly these lines, in any order of names
fn exact(w: &[u8], first: &[u8], lines: &[(Vec<u8>, Vec<u8>)]) {
    let e = match find(w, b"\r\n") { Some(e) => e, None => sx::fail("no request line") };
    sx::check(&w[..e] == first, "request line differs from the request");
    let (hs, used) = match wire_headers(&w[e + 2..]) { Ok(x) => x, Err(e) => sx::fail(&cat_str("malformed request: ", e)) };
    sx::check(hs.len() == lines.len(), "a header line too many or too few");
    for (n, _) in lines {
        let a: Vec<&(Vec<u8>, Vec<u8>)> = hs.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).collect();
        let b: Vec<&(Vec<u8>, Vec<u8>)> = lines.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).collect();
        sx::check(a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0), "header name is not written as configured");
        sx::check(a.iter().zip(b.iter()).all(|(x, y)| x.1 == trim(&y.1)), "header value differs from the one given");
    }
}
/// arbitrary bytes in method, target, header name and value
#[no_mangle] pub extern "C" fn c11_bytes() {
    let (io, dev) = io(vec![]);
    let tc = sx::flag("title case");
    let mut b = cli::builder();
    b.title_case_headers(tc);
    let mut s = Cli::new(&b, (io, dev));
    let mut r = cli::get("/");
    let (mut m, mut t, mut n, mut v) = (b"GET".to_vec(), b"/".to_vec(), b"x-n".to_vec(), b"v".to_vec());
    let at = sx::pick(5, "where");
    match at {
        0 => { m = syms(3, "method byte"); match http::Method::from_bytes(&m) { Ok(x) => *r.method_mut() = x, Err(_) => sx::end() } sx::assume(m != b"CON" && m != b"HEA"); }
        1 => { t = cat(&[b"/", &syms(3, "path byte")]); match http::Uri::try_from(&t[..]) { Ok(u) => { *r.uri_mut() = u; } Err(_) => sx::end() } }
        2 => { t = cat(&[b"http://h/", &syms(2, "path byte")]); match http::Uri::try_from(&t[..]) { Ok(u) => { *r.uri_mut() = u; } Err(_) => sx::end() } }
        3 => { n = cat(&[b"x-", &syms(3, "name byte")]); }
        _ => { v = syms(4, "value byte"); }
    }
    r.headers_mut().append(hn(&n), hv(&v));
    // fragments are not part of a request
    if let Some(p) = t.iter().position(|&c| c == b'#') { t.truncate(p); }
    let i = s.send(r);
    s.run();
    let w = s.wire();
    let sp = |n: &[u8]| if tc { title(&n.to_ascii_lowercase()) } else { n.to_ascii_lowercase() };
    exact(&w, &cat(&[&m, b" ", &t, b" HTTP/1.1"]), &[(sp(b"host"), b"h".to_vec()), (sp(&n), v.clone())]);
    sx::check(w.ends_with(b"\r\n\r\n") && find(&w, b"\r\n\r\n") == Some(w.len() - 4), "something follows the request head");
    s.dev.feed(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    s.run();
    sx::check(s.resp(i).is_some() && s.is_ready(), "the exchange does not complete");
    sx::cover(["method", "target", "absolute target", "name", "value"][at]);
}
/// many header lines: order of repeated names, spelling, version, forwarding of spelling from a server
#[no_mangle] pub extern "C" fn c11_many() {
    let tc = sx::flag("title case");
    let preserve = sx::flag("preserve");
    let ver = sx::pick(2, "version");
    let k = 1 + sx::pick(3, "lines");
    // the lines as a client sent them to the proxy
    let mut lines = vec![];
    let mut sent: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..k {
        let c = sx::byte("name byte");
        sx::assume(c == b'q' || c == b'Q' || c == b'-' || c == b'r');
        let name = vec![b'X', c, b'z'];
        lines.extend_from_slice(&cat(&[&name, b": ", &[b'0' + i as u8], b"\r\n"]));
        sent.push((name, vec![b'0' + i as u8]));
    }
    let got: Rc<RefCell<Option<http::request::Parts>>> = Default::default();
    {
        let (io, _dev) = io(cat(&[b"GET /a HTTP/1.1\r\nhOst: h\r\n", &lines, b"\r\n"]));
        let mut b = crate::srv::builder();
        b.preserve_header_case(true);
        let g2 = got.clone();
        let mut sv = crate::srv::Srv::new(&b, (io, _dev), Box::new(move |i, p, bd, log| { *g2.borrow_mut() = Some(p); Box::pin(async move { drain(bd, log, i, usize::MAX).await; Ok(crate::srv::numbered(i)) }) }));
        sv.run();
    }
    let p = match got.borrow_mut().take() { Some(p) => p, None => sx::fail("the proxy sees no request") };
    let mut r = http::Request::from_parts(p, HBody::empty());
    if !preserve { *r.extensions_mut() = http::Extensions::new(); }
    if ver == 1 { *r.version_mut() = Version::HTTP_10; }
    let extra = sx::pick(3, "own lines");
    if extra > 0 { r.headers_mut().insert("y-own", hv(b"1")); }
    if extra > 1 { r.headers_mut().append("x-z", hv(b"9")); }
    let (io, dev) = io(vec![]);
    let mut b = cli::builder();
    b.title_case_headers(tc).preserve_header_case(preserve);
    let mut s = Cli::new(&b, (io, dev));
    s.send(r);
    s.run();
    let sp = |n: &[u8]| if tc { title(&n.to_ascii_lowercase()) } else { n.to_ascii_lowercase() };
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = sent.iter().map(|(n, v)| (if preserve { n.clone() } else { sp(n) }, v.clone())).collect();
    want.push((if preserve { b"hOst".to_vec() } else { sp(b"host") }, b"h".to_vec()));
    if extra > 0 { want.push((sp(b"y-own"), b"1".to_vec())); }
    if extra > 1 { want.push((sp(b"x-z"), b"9".to_vec())); }
    let w = s.wire();
    exact(&w, if ver == 1 { b"GET /a HTTP/1.0" } else { b"GET /a HTTP/1.1" }, &want);
    sx::cover(match (preserve, tc) { (true, true) => "preserve, title", (true, false) => "preserve", (false, true) => "title", _ => "lower" });
}

// ---------------------------------------------------------------- C12: reuse of a client connection

const CONN: [&[u8]; 8] = [b"", b"close", b"keep-alive", b"Close", b"x, close", b"keep-alive, close", b"closed", b"Keep-Alive"];
fn says(vs: &[&[u8]], what: &[u8]) -> bool { list(vs).iter().any(|t| t.to_ascii_lowercase() == what) }
fn reuse(req: usize, lines: usize) {
    let qc = CONN[sx::pick(req, "Connection of the request")];
    let q10 = sx::flag("HTTP/1.0 request");
    let r10 = sx::flag("HTTP/1.0 response");
    let mut rc: Vec<&[u8]> = vec![];
    let mut head = cat(&[b"HTTP/1.", if r10 { b"0" } else { b"1" }, b" 200 OK\r\n"]);
    for _ in 0..lines { let v = CONN[sx::pick(8, "Connection of the response")]; if !v.is_empty() { rc.push(v); head.extend_from_slice(&cat(&[b"Connection: ", v, b"\r\n"])); } }
    let k = sx::pick(3, "body: none, length, chunked");
    if k == 2 && r10 { sx::end(); }
    head.extend_from_slice([&b"Content-Length: 0\r\n\r\n"[..], b"Content-Length: 6\r\n\r\n", b"Transfer-Encoding: chunked\r\n\r\n"][k]);
    let body: &[u8] = [&b""[..], b"abcdef", b"3\r\nabc\r\n3\r\ndef\r\n0\r\n\r\n"][k];
    let have = if k == 0 { 0 } else { [0, 3, body.len()][sx::pick(3, "body bytes with the head")] };
    let frames = if k == 0 { usize::MAX } else { [usize::MAX, 0, 1][sx::pick(3, "reader: all, dropped at once, dropped after a frame")] };
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let mut r = cli::get("/a");
    if q10 { *r.version_mut() = Version::HTTP_10; }
    if lines == 1 && !qc.is_empty() && sx::flag("on a second line") { r.headers_mut().append("connection", hv(b"x-a")); }
    if !qc.is_empty() { r.headers_mut().append("connection", hv(qc)); }
    let i = s.send_n(r, frames);
    s.run();
    let q = request_on_wire(&s.wire());
    let qcl: Vec<&[u8]> = q.get("connection");
    if says(&[qc], b"close") { sx::check(says(&qcl, b"close"), "'connection: close' of the caller is not sent"); }
    s.dev.feed(&head);
    if have < body.len() || sx::flag("head first") { s.run(); }
    s.dev.feed(&body[..have]);
    s.run();
    s.dev.feed(&body[have..]);
    s.run();
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("the response is not delivered") };
    if frames == usize::MAX { sx::check(r.end == End::Eof && r.body == [&b""[..], b"abcdef", b"abcdef"][k], "the response is not delivered completely"); }
    // (whether an HTTP/1.0 request may be followed by another is for the server to say)
    let req_ok = !says(&qcl, b"close");
    let res_ok = !says(&rc, b"close") && (!r10 || says(&rc, b"keep-alive"));
    let may = req_ok && res_ok;
    if !may {
        sx::check(s.done() && s.tx.as_ref().unwrap().is_closed(), "a connection is kept that one side wants closed");
        sx::cover(if req_ok { "closed by the server" } else if res_ok { "closed by the client" } else { "closed by both" });
        return;
    }
    if s.done() { sx::check(frames != usize::MAX, "a connection is closed that both sides keep"); sx::cover("closed with an unread body"); return; }
    sx::check(s.is_ready(), "connection neither ready nor finished");
    let base = s.wire().len();
    let j = s.send(cli::get("/b"));
    s.run();
    sx::check(request_on_wire(&s.wire()[base..]).target == b"/b", "the next request is not written");
    s.dev.feed(b"HTTP/1.1 207 M\r\nContent-Length: 6\r\n\r\nsecond");
    s.run();
    sx::check(s.resp(j).map_or(false, |r| r.status == 207 && r.body == b"second" && r.end == End::Eof), "the next response is not intact");
    sx::cover(if frames == usize::MAX { "reused" } else { "reused with an unread body" });
}
#[no_mangle] pub extern "C" fn c12_reuse() { reuse(8, 1) }
#[no_mangle] pub extern "C" fn c12_lines() { reuse(3, 2) }
#[no_mangle] pub extern "C" fn c12_three() { reuse(2, 3) }

/// a response without a head, taken as HTTP/0.9 only where that was asked for and only as the first one
#[no_mangle] pub extern "C" fn c05_09() {
    let allow = sx::flag("http09_responses");
    let second = sx::flag("after another response");
    let b = syms(8, "byte");
    sx::assume(b[0] != b'\r' && b[0] != b'\n');
    sx::assume(&b[..7] != b"HTTP/1.");
    let all = cat(&[&b, b"tail\r\n\r\n"]);
    let (io, dev) = io(vec![]);
    let mut bd = cli::builder();
    bd.http09_responses(allow);
    let mut s = Cli::new(&bd, (io, dev));
    let mut i = s.send(cli::get("/a"));
    s.run();
    if second { s.dev.feed(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); s.run(); i = s.send(cli::get("/b")); s.run(); }
    let cut = sx::pick(3, "cut") * 9;
    if cut > 0 { s.dev.feed(&all[..cut.min(all.len())]); s.run(); s.dev.feed(&all[cut.min(all.len())..]); } else { s.dev.feed(&all); }
    s.run();
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    if allow && !second {
        let r = match s.resp(i) { Some(r) => r, None => sx::fail("an HTTP/0.9 response is not delivered although it is allowed") };
        sx::check(r.status == 200 && r.version == Version::HTTP_09 && r.headers.is_empty() && r.body == all && r.end == End::Eof, "an HTTP/0.9 response is not everything the server sent");
        sx::cover("0.9");
    } else { sx::check(matches!(s.out(i), Out::Err { parse: true, .. }), "bytes that are no HTTP/1 response are delivered"); sx::cover("refused"); }
}
