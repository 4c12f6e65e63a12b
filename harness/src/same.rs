//! What a connection makes of arbitrary bytes does not depend on how they arrive.
use crate::{cli, srv::*, sup::*, sx};

/// what a connection makes of the parts of a stream that arrive one after another, and of its end
fn outcome(parts: &[&[u8]]) -> (Vec<Msg>, Vec<u8>, Option<bool>, Vec<u8>) {
    let (io, dev) = io(vec![]);
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    for p in parts { s.dev.feed(p); s.run(); }
    s.dev.set_eof();
    s.run();
    let res = s.res.borrow().as_ref().map(|r| r.is_ok());
    let left = s.left.borrow().clone().unwrap_or_default();
    (s.reqs(), s.out(), res, left)
}
fn same(b: &[u8], cuts: &[usize]) {
    let (r0, o0, e0, l0) = outcome(&[b]);
    let mut parts = vec![];
    let mut p = 0;
    for &c in cuts { parts.push(&b[p..c]); p = c; }
    parts.push(&b[p..]);
    let (r1, o1, e1, l1) = outcome(&parts);
    sx::check(e0.is_some() && e1.is_some(), "connection does not finish although the peer closed");
    if o0 != o1 {
        // a head that has no end yet may be refused as soon as it is malformed, or when it ends
        let (s, l, left) = if o0.len() < o1.len() { (&o0, &o1, &l0) } else { (&o1, &o0, &l1) };
        sx::check(find(left, b"\n\n").is_none() && find(left, b"\n\r\n").is_none() && starts(l, s) && starts(&l[s.len()..], b"HTTP/1.1 400 "), "the answers depend on how the bytes arrive");
        sx::cover("refused early");
    } else { sx::check(e0 == e1, "the result of the connection depends on how the bytes arrive"); }
    sx::check(r0.len() == r1.len() && r0.iter().zip(&r1).all(|(a, b)| a.method == b.method && a.uri == b.uri && a.version == b.version && a.headers == b.headers && a.body == b.body && a.end == b.end), "the requests depend on how the bytes arrive");
    sx::cover(if r0.is_empty() { if o0.is_empty() { "nothing" } else { "refused" } } else { "served" });
}
/// an arbitrary byte anywhere in a head or in a body and its follower, and a cut close to it
fn same_hole(n: usize, near: usize) {
    const B: [&[u8]; 4] = [b"GET /a?b HTTP/1.1\r\nHost: h\r\nA:\tb c \r\nAc: \r\n\r\n", b"\r\nOPTIONS * HTTP/1.0\r\nX-Y:1\r\nx-y: 2\n\r\n", b"PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2;x=y\r\nab\r\n0\r\nt: v\r\n\r\nGET /b HTTP/1.1\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nab\r\nGET /b HTTP/1.1\r\n\r\n"];
    let mut b = B[sx::pick(4, "stream")].to_vec();
    let at = sx::pick(b.len() - n + 1, "position");
    for i in 0..n { b[at + i] = sx::byte("byte"); }
    let lo = (at + 1).saturating_sub(near);
    let hi = (at + n + near - 1).min(b.len());
    let c = lo + sx::pick(hi - lo + 1, "cut");
    same(&b, &[c]);
}
#[cfg(feature = "conn")] #[no_mangle] pub extern "C" fn s03_any() { same_hole(1, 2) }
#[cfg(feature = "conn")] #[no_mangle] pub extern "C" fn s03_any_far() { same_hole(1, 200) }
#[cfg(feature = "conn")] #[no_mangle] pub extern "C" fn s03_any2() { same_hole(2, 1) }
/// arbitrary bytes, each arriving alone or with the next one
fn same_free(alone: usize, before: usize) {
    let follow = sx::flag("a request follows");
    let n = 1 + sx::pick(if follow { before } else { alone }, "bytes");
    let mut b = syms(n, "byte");
    let mut cuts = vec![];
    for i in 1..n { if sx::flag("cut") { cuts.push(i); } }
    if follow { cuts.push(n); b.extend_from_slice(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n"); }
    same(&b, &cuts);
}
#[cfg(feature = "conn")] #[no_mangle] pub extern "C" fn s03_bits() { same_free(5, 3) }
#[cfg(feature = "conn")] #[no_mangle] pub extern "C" fn s03_bits7() { same_free(7, 4) }

// ---------------------------------------------------------------- the same for a client

type ROut = (cli::Out, Option<Msg>, cli::Out, Option<Msg>, Vec<u8>, Option<bool>, Vec<u8>);
fn client_outcome(parts: &[&[u8]], method: &str) -> ROut {
    let (io, dev) = io(vec![]);
    let mut s = cli::Cli::new(&cli::builder(), (io, dev));
    let i = s.send(cli::req(method, "/a", HBody::empty()));
    s.run();
    for p in parts { s.dev.feed(p); s.run(); }
    let j = s.send(cli::get("/b"));
    s.run();
    let o = (s.out(i), s.out(j));
    s.dev.feed(b"HTTP/1.1 204 N\r\n\r\n");
    s.run();
    s.dev.set_eof();
    s.run();
    let res = s.res.borrow().as_ref().map(|r| r.is_ok());
    let left = s.left.borrow().clone().unwrap_or_default();
    (s.out(i), s.resp(i), s.out(j), s.resp(j), s.wire(), res, left)
}
fn same_resp(b: &[u8], cuts: &[usize]) {
    let method = ["GET", "HEAD"][sx::pick(2, "method")];
    let a = client_outcome(&[b], method);
    let mut parts = vec![];
    let mut p = 0;
    for &c in cuts { parts.push(&b[p..c]); p = c; }
    parts.push(&b[p..]);
    let z = client_outcome(&parts, method);
    sx::check(a.5.is_some() && z.5.is_some() && a.0 != cli::Out::Pending && z.0 != cli::Out::Pending, "no end although the peer closed");
    let eq = |a: &Option<Msg>, b: &Option<Msg>| match (a, b) { (Some(a), Some(b)) => a.status == b.status && a.version == b.version && a.headers == b.headers && a.body == b.body && a.end == b.end && a.trailers == b.trailers, (None, None) => true, _ => false };
    let kind = |o: &cli::Out| match o { cli::Out::Resp(_) => 1, cli::Out::Err { parse: true, .. } => 2, cli::Out::Err { incomplete: true, .. } => 3, cli::Out::Err { canceled: true, .. } => 4, cli::Out::Err { .. } => 5, _ => 6 };
    sx::check(eq(&a.1, &z.1), "the response depends on how the bytes arrive");
    // a head that has no end yet may be refused as soon as it is malformed, or when it ends or is followed by the end
    let early = kind(&a.0) == 2 && kind(&z.0) == 3 || kind(&a.0) == 3 && kind(&z.0) == 2;
    sx::check(kind(&a.0) == kind(&z.0) || early, "the outcome depends on how the bytes arrive");
    // bytes nobody asked for may end the connection before the next request is sent, or after
    if kind(&a.0) == 1 && kind(&z.0) == 1 && kind(&a.2) == kind(&z.2) { sx::check(eq(&a.3, &z.3) && a.4 == z.4, "the next exchange depends on how the bytes arrive"); }
    sx::cover(match kind(&a.0) { 1 => "delivered", 2 => "malformed", 3 => "incomplete", _ => "other" });
}
fn same_resp_hole(n: usize, near: usize) {
    const B: [&[u8]; 5] = [
        b"HTTP/1.1 200 OK\r\nA:\tb c \r\nContent-Length: 3\r\n\r\nabc",
        b"HTTP/1.1 201 C d\r\nTransfer-Encoding: chunked\r\n\r\n2;x=y\r\nab\r\n0\r\nt: v\r\n\r\n",
        b"HTTP/1.1 103 E\r\nL: 1\r\n\r\nHTTP/1.1 304 N\r\nContent-Length: 9\r\n\r\n",
        b"HTTP/1.0 404 \r\nconnection: keep-alive\ncontent-length: 1\n\nx",
        b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\nabcd",
    ];
    let mut b = B[sx::pick(5, "stream")].to_vec();
    let at = sx::pick(b.len() - n + 1, "position");
    for i in 0..n { b[at + i] = sx::byte("byte"); }
    let lo = (at + 1).saturating_sub(near);
    let hi = (at + n + near - 1).min(b.len());
    let c = lo + sx::pick(hi - lo + 1, "cut");
    same_resp(&b, &[c]);
}
/// an arbitrary byte anywhere in a response, and a cut close to it
#[cfg(feature = "cli2")] #[no_mangle] pub extern "C" fn c07_any() { same_resp_hole(1, 2) }
#[cfg(feature = "cli2")] #[no_mangle] pub extern "C" fn c07_any_far() { same_resp_hole(1, 200) }
#[cfg(feature = "cli2")] #[no_mangle] pub extern "C" fn c07_any2() { same_resp_hole(2, 1) }
fn same_resp_free(alone: usize, before: usize) {
    let follow = sx::flag("a response follows");
    let n = 1 + sx::pick(if follow { before } else { alone }, "bytes");
    let mut b = syms(n, "byte");
    let mut cuts = vec![];
    for i in 1..n { if sx::flag("cut") { cuts.push(i); } }
    if follow { cuts.push(n); b.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"); }
    same_resp(&b, &cuts);
}
#[cfg(feature = "cli2")] #[no_mangle] pub extern "C" fn c07_bits() { same_resp_free(5, 3) }
