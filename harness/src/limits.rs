//! Limits on what a peer can make the connection hold: header count and size, URI, trailers, chunk extensions.
use crate::{cli, cli::Cli, srv::*, sup::*, sx};

fn refused(s: &Srv, code: u16, n: usize) {
    let mut ms = vec!["GET"; n];
    ms.push("GET");
    let m = s.responses(&ms);
    sx::check(s.nreq() == n, "a head over the limit reached the service");
    sx::check(m.len() == n + 1 && m[n].status == code && m[n].complete && m[n].close(), "a head over the limit is not answered with the proper status and connection: close");
    sx::check(s.done() && s.is_err() && s.dev.is_shutdown(), "connection stays open after a head over the limit");
}
/// header count, on the first or second request of a connection
#[no_mangle] pub extern "C" fn s09_count() {
    let conf = [None, Some(0usize), Some(1), Some(3), Some(100), Some(101), Some(150)][sx::pick(7, "max_headers")];
    let limit = conf.unwrap_or(100);
    let n = match sx::pick(5, "headers") { 0 => limit.saturating_sub(1), 1 => limit, 2 => limit + 1, 3 => limit + 2, _ => limit * 2 + 1 };
    let second = sx::flag("on the second request") && limit > 0;
    let v = sx::byte("value byte");
    sx::assume(v > 32 && v < 127);
    let mut bytes = if second { b"GET /0 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec() } else { vec![] };
    let l0 = bytes.len();
    bytes.extend_from_slice(b"GET / HTTP/1.1\r\n");
    for i in 0..n { bytes.extend_from_slice(if i % 2 == 0 { b"a: " } else { b"bc:" }); bytes.push(v); bytes.extend_from_slice(b"\r\n"); }
    bytes.extend_from_slice(b"\r\n");
    let (io, dev) = io(bytes.clone());
    let cut = sx::pick(4, "cut: nowhere, early, late, everywhere");
    dev.with(|s| { let l = bytes.len(); s.cuts = match cut { 0 => vec![], 1 => vec![l0 + 17.min(l - l0 - 1)], 2 => vec![l - 1], _ => (1..l).filter(|i| i % 40 == 0).collect() }; s.block_cuts = true; });
    let mut b = builder();
    if let Some(c) = conf { b.max_headers(c); }
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.run();
    let k = second as usize;
    if n <= limit {
        let r = s.reqs();
        sx::check(r.len() == k + 1 && r[k].headers.len() == n, "a head within the limit is not served with all its headers");
        sx::check(r[k].get("a").len() == (n + 1) / 2 && r[k].headers.iter().all(|h| h.1.len() == 1 && h.1[0] == v), "header values not intact");
        let m = s.responses(&["GET", "GET"]);
        sx::check(m.len() == k + 1 && m[k].status == 200, "a head within the limit is not answered");
        sx::cover(if conf.is_none() { "within the default" } else { "within" });
    } else {
        refused(&s, 431, k);
        sx::cover(if conf.is_none() { "over the default" } else { "over" });
    }
}
/// size of the head against the buffer limit
#[no_mangle] pub extern "C" fn s09_size() {
    let max = [8192usize, 10_000][sx::pick(2, "max_buf_size")];
    let size = [max / 2, max - 1, max, 3 * max, usize::MAX][sx::pick(5, "head size")];
    let part = sx::pick(3, "long header value, many headers, long target");
    let step = [usize::MAX, 1000, 4096, 8192, 37][sx::pick(5, "arriving in pieces of")];
    let second = sx::flag("on the second request");
    let endless = size == usize::MAX;
    let total = if endless { 6 * max } else { size };
    let mut h = b"GET /".to_vec();
    if part == 2 { h.resize(total - 17.min(total), b'u'); }
    h.extend_from_slice(b" HTTP/1.1\r\n");
    if part == 0 { h.extend_from_slice(b"a: "); h.resize(total - 4, b'v'); h.extend_from_slice(b"\r\n"); }
    if part == 1 { while h.len() + 200 < total { h.extend_from_slice(b"a: "); h.resize(h.len() + 150, b'v'); h.extend_from_slice(b"\r\n"); } h.extend_from_slice(b"b: "); h.resize(total - 4, b'v'); h.extend_from_slice(b"\r\n"); }
    if endless { h.truncate(h.len() - 2); } else { h.extend_from_slice(b"\r\n"); if part == 2 { let k = total - h.len().min(total); let _ = k; } }
    let pre: &[u8] = if second { b"GET /0 HTTP/1.1\r\nHost: h\r\n\r\n" } else { b"" };
    let (io, dev) = io(cat(&[pre, &h]));
    if step != usize::MAX { let l = pre.len() + h.len(); dev.with(|s| { s.cuts = (1..l / step + 1).map(|i| i * step).collect(); s.block_cuts = step == 1000; }); }
    let mut b = builder();
    b.max_buf_size(max).max_headers(1000);
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.ex.max_polls = 20_000;
    s.run();
    let k = second as usize;
    sx::check(s.dev.rpos() <= pre.len() + 3 * max + 8192, "input is buffered without limit while the head is incomplete");
    if !endless && h.len() <= max {
        sx::check(s.nreq() == k + 1, "a head within the limit is not served");
        let m = s.responses(&["GET", "GET"]);
        sx::check(m.len() == k + 1 && m[k].status == 200, "a head within the limit is not answered");
        sx::cover("within");
    } else if endless {
        refused(&s, 431, k);
        sx::cover("endless");
    } else {
        // between once and a few times the limit it depends on how much arrives at once
        if s.nreq() == k { refused(&s, 431, k); sx::cover("over"); }
    }
}
/// an incomplete head that stops exactly at, or just short of, the buffer limit
#[no_mangle] pub extern "C" fn s09_edge() {
    let max = [8192usize, 10_000, 16_384][sx::pick(3, "max_buf_size")];
    let len = [max - 1, max][sx::pick(2, "length")];
    let step = [usize::MAX, 1000, 4096, 8192][sx::pick(4, "arriving in pieces of")];
    let part = sx::pick(3, "header value, header name, target");
    let second = sx::flag("on the second request");
    let mut h: Vec<u8> = [&b"GET / HTTP/1.1\r\na: "[..], b"GET / HTTP/1.1\r\na", b"GET /"][part].to_vec();
    h.resize(len, b'v');
    let pre: &[u8] = if second { b"GET /0 HTTP/1.1\r\nHost: h\r\n\r\n" } else { b"" };
    let (io, dev) = io(cat(&[pre, &h]));
    let pause = sx::flag("pause at the cuts");
    if step != usize::MAX { let l = pre.len() + h.len(); dev.with(|s| { s.cuts = (1..l / step + 1).map(|i| i * step).collect(); s.block_cuts = pause; }); }
    let mut b = builder();
    b.max_buf_size(max);
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.ex.max_polls = 20_000;
    s.run();
    let k = second as usize;
    sx::check(s.nreq() == k, "an incomplete head was served");
    if len >= max { refused(&s, 431, k); sx::cover("at the limit"); }
    else { sx::check(!s.done() && s.responses(&["GET"]).len() == k, "a head below the limit is refused"); sx::cover("below"); }
}
/// length of the request target
#[no_mangle] pub extern "C" fn s09_target() {
    let n = [1usize, 1000, 65_533, 65_534, 65_535, 65_536, 70_000][sx::pick(7, "target length")];
    let absolute = sx::flag("absolute form");
    let mut t = if absolute && n > 20 { b"http://h.example/".to_vec() } else { b"/".to_vec() };
    t.resize(n, b'u');
    let bytes = cat(&[b"GET ", &t, b" HTTP/1.1\r\nHost: h\r\n\r\n"]);
    let (io, dev) = io(bytes.clone());
    if sx::flag("in pieces") { dev.with(|s| s.cuts = (1..20).map(|i| i * 4000).collect()); }
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    if n <= 65_534 { sx::check(s.nreq() == 1 && s.reqs()[0].uri.len() == n && s.responses(&["GET"])[0].status == 200, "a target within the limit is not served"); sx::cover("within"); }
    else { refused(&s, 414, 0); sx::cover("over"); }
}
/// trailers and chunk extensions of a request body
#[no_mangle] pub extern "C" fn s09_chunked() {
    let kind = sx::pick(5, "trailer count, trailer size, one trailer line, extension, extensions of several chunks");
    let conf = [None, Some(3usize)][sx::pick(2, "max_headers")];
    let limit = conf.unwrap_or(100);
    let big = [1_000usize, 16_000, 17_000, 40_000];
    let mut body = vec![];
    let mut over = false;
    let mut ntr = 0;
    match kind {
        0 => {
            ntr = [1, limit - 1, limit, limit + 1, limit + 5][sx::pick(5, "trailers")];
            over = ntr > limit;
            body.extend_from_slice(b"1\r\nx\r\n0\r\n");
            for _ in 0..ntr { body.extend_from_slice(b"t: v\r\n"); }
            body.extend_from_slice(b"\r\n");
        }
        1 | 2 => {
            let n = big[sx::pick(4, "size")];
            over = n > 16_384;
            ntr = if kind == 1 { 3 } else { 1 };
            body.extend_from_slice(b"1\r\nx\r\n0\r\n");
            for _ in 0..ntr { body.extend_from_slice(b"t: "); body.resize(body.len() + n / ntr - 10, b'v'); body.extend_from_slice(b"\r\n"); }
            body.extend_from_slice(b"\r\n");
        }
        3 => { let n = big[sx::pick(4, "size")]; over = n > 16_384; body.extend_from_slice(b"1;"); body.resize(body.len() + n, b'e'); body.extend_from_slice(b"\r\nx\r\n0\r\n\r\n"); }
        _ => {
            let each = [100usize, 4000, 8000][sx::pick(3, "size of each")];
            let cnt = [1usize, 3, 5][sx::pick(3, "chunks")];
            over = each * cnt > 16_384;
            for _ in 0..cnt { body.extend_from_slice(b"1;"); body.resize(body.len() + each, b'e'); body.extend_from_slice(b"\r\nx\r\n"); }
            body.extend_from_slice(b"0\r\n\r\n");
        }
    }
    let next = b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
    let (io, dev) = io(cat(&[b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n", &body, next]));
    let step = [usize::MAX, 1000, 7][sx::pick(3, "pieces of")];
    if step != usize::MAX { let l = dev.with(|s| s.rx.len()); if l < 3000 || step > 7 { dev.with(|s| s.cuts = (1..l / step + 1).map(|i| i * step).collect()); } }
    let mut b = builder();
    if let Some(c) = conf { b.max_headers(c); }
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.ex.max_polls = 20_000;
    s.run();
    let r = s.reqs();
    if over {
        sx::check(r.len() == 1 && r[0].end == End::Err, "a body over the limits is accepted");
        sx::check(s.done() || s.dev.is_shutdown(), "connection stays open after a body over the limits");
        sx::cover("over");
    } else {
        sx::check(r[0].end == End::Eof && r[0].trailers.as_ref().map_or(0, |t| t.len()) == ntr, "a body within the limits is not delivered");
        sx::check(r.len() == 2 && r[1].uri == "/n", "connection is not reused after a body within the limits");
        sx::cover(["trailer count", "trailer size", "trailer line", "extension", "extensions"][kind]);
    }
}
/// the client's limits on a response
#[no_mangle] pub extern "C" fn s09_client() {
    let kind = sx::pick(3, "header count, head size, endless informational");
    let mut b = cli::builder();
    let mut bytes = b"HTTP/1.1 200 OK\r\n".to_vec();
    let mut within = None;
    match kind {
        0 => {
            let conf = [None, Some(1usize), Some(3), Some(120)][sx::pick(4, "max_headers")];
            let limit = conf.unwrap_or(100);
            if let Some(c) = conf { b.max_headers(c); }
            let n = [limit - 1, limit, limit + 1, 2 * limit][sx::pick(4, "headers")];
            for _ in 0..n.saturating_sub(1) { bytes.extend_from_slice(b"a: v\r\n"); }
            if n > 0 { bytes.extend_from_slice(b"Content-Length: 0\r\n"); }
            bytes.extend_from_slice(b"\r\n");
            within = Some(n <= limit);
            if n == 0 { return; }
        }
        _ => {
            let max = [8192usize, 10_000][sx::pick(2, "max_buf_size")];
            b.max_buf_size(max);
            let n = [max / 2, max, 6 * max][sx::pick(3, "head size")];
            let line = b"Content-Length: 0\r\n";
            if kind == 2 { bytes = b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early\r\n".to_vec(); }
            bytes.extend_from_slice(line);
            bytes.extend_from_slice(b"a: ");
            bytes.resize(n - 4, b'v');
            bytes.extend_from_slice(b"\r\n\r\n");
            within = Some(n <= max);
            if kind == 2 { if n <= max { bytes.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); } }
        }
    }
    let (io, dev) = io(vec![]);
    let step = [usize::MAX, 1000, 61][sx::pick(3, "pieces of")];
    if step != usize::MAX { let l = bytes.len(); dev.with(|s| s.cuts = (1..l / step + 1).map(|i| i * step).collect()); }
    let mut s = Cli::new(&b, (io, dev));
    s.ex.max_polls = 20_000;
    s.send(cli::get("/"));
    s.run();
    s.dev.feed(&bytes);
    s.run();
    match (within, s.out(0)) {
        (Some(true), cli::Out::Resp(i)) => { sx::check(s.resp(0).unwrap().status == 200, "harness"); sx::cover("within"); }
        (Some(false), cli::Out::Err { .. }) => { sx::check(s.done(), "connection stays open after a head over the limit"); sx::cover("over"); }
        (Some(false), cli::Out::Resp(i)) => sx::check(kind > 0 && step == usize::MAX, "a response over the limits is accepted"),
        (Some(true), _) => sx::fail("a response within the limits is not delivered"),
        _ => sx::fail("a response over the limits leaves the request without outcome"),
    }
}
