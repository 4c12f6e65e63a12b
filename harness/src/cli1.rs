//! HTTP/1 client: request encoding, response framing, pairing.
use crate::{cli, cli::Cli, cli::Out, refs::*, sup::*, sx};
use http::{Method, Request, Version};
use std::cell::Cell;
use std::rc::Rc;

// ---------------------------------------------------------------- C01: requests are framed properly

const OK0: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";

/// bodies: (body, its bytes, its trailers)
fn body(k: usize, b: &[u8], g: &Gate) -> (HBody, Vec<u8>, bool) {
    let d = |a: &[u8]| Op::Data(a.to_vec().into());
    let mut t = http::HeaderMap::new();
    t.insert("x-t", hv(b"v"));
    match k {
        0 => (HBody::empty(), vec![], false),
        // no data, but the body does not say so beforehand
        1 => (HBody::new(vec![]), vec![], false),
        2 => (HBody::full(&b[..2]), b[..2].to_vec(), false),
        3 => (HBody::new(vec![d(&b[..2])]), b[..2].to_vec(), false),
        4 => (HBody::new(vec![d(&b[..1]), Op::Pend, d(b""), d(&b[1..3])]).eos(), b[..3].to_vec(), false),
        5 => (HBody::new(vec![d(&b[..1]), Op::Wait(g.clone()), d(&b[1..3])]).hinted(3, Some(3)), b[..3].to_vec(), false),
        6 => (HBody::new(vec![d(&b[..2]), Op::Trailers(t)]), b[..2].to_vec(), true),
        7 => (HBody::new(vec![Op::Trailers(t)]), vec![], true),
        // announces more than it has
        8 => (HBody::new(vec![d(&b[..2])]).hinted(3, Some(3)), b[..2].to_vec(), false),
        9 => (HBody::new(vec![d(&b[..2])]).hinted(3, Some(3)).eos(), b[..2].to_vec(), false),
        // announces less than it has
        _ => (HBody::new(vec![d(&b[..2]), d(&b[2..3])]).hinted(1, Some(1)), b[..3].to_vec(), false),
    }
}
const HDRS: [(&str, &[u8]); 11] = [("", b""), ("content-length", b"2"), ("content-length", b"0"), ("content-length", b"x"), ("content-length", b"2, 2"), ("transfer-encoding", b"chunked"), ("transfer-encoding", b"gzip"), ("transfer-encoding", b"gzip, chunked"), ("trailer", b"x-t"), ("te", b"trailers"), ("connection", b"close")];
const METHODS: [&str; 5] = ["GET", "POST", "HEAD", "CONNECT", "M-X"];

fn encode(nh: usize, bodies: usize, server10: bool) {
    let b = syms(3, "body");
    let g = Gate::new();
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let mut base = 0;
    let old = server10 && sx::flag("the server spoke HTTP/1.0 before");
    if old {
        let mut r = cli::get("/0");
        r.headers_mut().insert("connection", hv(b"keep-alive"));
        s.send(r);
        s.run();
        base = s.wire().len();
        s.dev.feed(b"HTTP/1.0 200 OK\r\nConnection: keep-alive\r\nContent-Length: 0\r\n\r\n");
        s.run();
        sx::check(!s.done(), "connection is not kept after an HTTP/1.0 keep-alive response");
    }
    let m = METHODS[sx::pick(5, "method")];
    let ver = sx::pick(3, "version");
    let k = sx::pick(bodies, "body");
    let (h, data, trailers) = body(k, &b, &g);
    let target = if m == "CONNECT" { "a.b:1" } else { "/p?q" };
    let mut r = cli::req(m, target, h);
    *r.version_mut() = [Version::HTTP_11, Version::HTTP_10, Version::HTTP_2][ver];
    let mut hs: Vec<(&str, &[u8])> = vec![];
    for _ in 0..nh {
        let h = HDRS[sx::pick(HDRS.len(), "header")];
        if h.0.is_empty() { continue; }
        hs.push(h);
        r.headers_mut().append(h.0, hv(h.1));
    }
    let i = s.send(r);
    s.run();
    g.open();
    s.run();
    let w = s.wire()[base..].to_vec();
    let count = |n: &str| hs.iter().filter(|h| h.0 == n).count();
    // chunked twice, or before another coding, is the application's mistake
    let te = hs.iter().filter(|h| h.0 == "transfer-encoding").collect::<Vec<_>>();
    if te.len() > 1 && te[..te.len() - 1].iter().any(|h| h.1.ends_with(b"chunked")) { return; }
    let cl = hs.iter().filter(|h| h.0 == "content-length").map(|h| h.1).collect::<Vec<_>>();
    if cl.len() > 1 || cl.iter().any(|c| *c == b"x" || *c == b"2, 2") {
        // the application's own length is no valid one; it must not be sent next to a transfer-encoding all the same
        let (hs, _) = match find(&w, b"\r\n") { Some(e) => match wire_headers(&w[e + 2..]) { Ok(x) => x, Err(e) => sx::fail(&cat_str("malformed request: ", e)) }, None => return };
        let has = |n: &str| hs.iter().any(|h| eqi(&h.0, n));
        sx::check(!(has("transfer-encoding") && has("content-length")), "request with both content-length and transfer-encoding");
        sx::cover("bad length");
        return;
    }
    if matches!(s.out(i), Out::Err { .. }) {
        // refused or aborted: only when the body does not have the announced length
        let announced = match k { 8 | 9 => Some(3), 10 => Some(1), _ => None }.or_else(|| cl.first().and_then(|c| match *c { b"2" => Some(2), b"0" => Some(0), _ => None }));
        sx::check(announced.map_or(false, |n| n > data.len()), "a request that can be sent fails");
        sx::check(s.done(), "the connection stays open after an aborted request");
        if !w.is_empty() { let q = request_on_wire(&w); sx::check(!q.complete, "an aborted request looks complete"); }
        sx::cover("aborted");
        return;
    }
    let q = request_on_wire(&w);
    sx::check(q.complete && q.used == w.len(), "the request on the wire is not exactly one complete request");
    sx::check(q.method == m.as_bytes() && q.target == target.as_bytes(), "request line differs from the request");
    sx::check(q.minor == if ver == 1 || old { 0 } else { 1 }, "request version");
    sx::check(q.get("host") == [b"h"], "host header");
    let silent = q.minor == 0 || ["GET", "HEAD", "CONNECT"].contains(&m);
    if q.body != data {
        // a body longer than its announced length is cut
        if q.length.is_some() && q.length.unwrap() < data.len() { sx::check(starts(&data, &q.body), "body bytes"); sx::cover("cut"); }
        // documented: without explicit framing these have no body
        else { sx::check(silent && q.body.is_empty() && !q.chunked && q.length.unwrap_or(0) == 0, "the server does not read the body of the request"); sx::cover("no body"); }
    } else if q.chunked { sx::cover("chunked"); } else if q.length.is_some() { sx::cover("length"); } else { sx::cover("none"); }
    if q.chunked && trailers && count("trailer") > 0 { sx::check(q.trailers.len() == 1 && eqi(&q.trailers[0].0, "x-t") && q.trailers[0].1 == b"v", "declared trailers are not sent"); sx::cover("trailers"); } else { sx::check(q.trailers.is_empty(), "undeclared trailers are sent"); }
    // the next request starts right after it
    if m == "CONNECT" { return; }
    s.dev.feed(if old { b"HTTP/1.0 200 OK\r\nConnection: keep-alive\r\nContent-Length: 0\r\n\r\n" } else { OK0 });
    s.run();
    sx::check(s.resp(i).map_or(false, |r| r.status == 200 && r.end == End::Eof), "the response is not delivered");
    if count("connection") > 0 || !s.is_ready() {
        sx::check(s.done(), "connection neither ready nor finished after the exchange");
        if count("connection") == 0 && ver != 1 && !old { sx::fail("a connection that may persist is closed"); }
        sx::cover("closed");
        return;
    }
    let j = s.send(cli::get("/n"));
    s.run();
    let w = s.wire()[base + q.used..].to_vec();
    let n = request_on_wire(&w);
    sx::check(n.target == b"/n" && n.used == w.len(), "the next request does not follow the previous one");
    sx::cover("reused");
}
#[no_mangle] pub extern "C" fn c01_one() { encode(1, 11, false) }
#[no_mangle] pub extern "C" fn c01_two() { encode(2, 8, false) }
#[no_mangle] pub extern "C" fn c01_three() { encode(3, 11, false) }
#[no_mangle] pub extern "C" fn c01_old() { encode(1, 11, true) }

// ---------------------------------------------------------------- C02: where a response ends

const TES: [&[u8]; 8] = [b"chunked", b"Chunked", b"gzip, chunked", b"chunked, gzip", b"identity", b"xchunked", b" \tchunked ", b"chunked;q=1"];
const CLS: [&[u8]; 8] = [b"5", b"3", b"05", b"5, 5", b"+5", b"18446744073709551616", b"5 5", b""];
fn fline(out: &mut Vec<u8>, te: &mut Vec<Vec<u8>>, cl: &mut Vec<Vec<u8>>, wide: usize) {
    let k = match wide { 2 => sx::pick(5, "line kind"), 1 => sx::pick(4, "line kind"), _ => [0, 2, 3][sx::pick(3, "line kind")] };
    match k {
        0 => {}
        1 => {
            let v = syms(if wide == 2 { 3 } else { 1 }, "content-length digit");
            out.extend_from_slice(b"Content-Length: "); out.extend_from_slice(&v); out.extend_from_slice(b"\r\n");
            cl.push(v);
        }
        2 => { let v = TES[sx::pick(8, "transfer-encoding")]; out.extend_from_slice(b"Transfer-Encoding: "); out.extend_from_slice(v); out.extend_from_slice(b"\r\n"); te.push(v.to_vec()); }
        3 => { let v = CLS[sx::pick(8, "content-length")]; out.extend_from_slice(b"content-length:"); out.extend_from_slice(v); out.extend_from_slice(b"\r\n"); cl.push(v.to_vec()); }
        _ => {
            let b = sx::byte("after chunked");
            let v = cat(&[b"chunked", &[b]]);
            out.extend_from_slice(b"transfer-encoding:"); out.extend_from_slice(&v); out.extend_from_slice(b"\r\n");
            te.push(v);
        }
    }
}
const SECOND: &[u8] = b"HTTP/1.1 207 S\r\nContent-Length: 6\r\n\r\nsecond";
fn response(n: usize, wide: usize, statuses: &[u16]) {
    let method = ["GET", "POST", "HEAD", "CONNECT"][sx::pick(if wide == 2 { 4 } else { 3 }, "method")];
    let status = statuses[sx::pick(statuses.len(), "status")];
    let v11 = sx::pick(2, "version") == 0;
    let mut head = cat(&[b"HTTP/1.", if v11 { b"1 " } else { b"0 " }, status.to_string().as_bytes(), b" R\r\n"]);
    let (mut te, mut cl) = (vec![], vec![]);
    for _ in 0..n { fline(&mut head, &mut te, &mut cl, wide); }
    let closes = sx::pick(3, "connection: default, explicit keep-alive, close");
    head.extend_from_slice([&b""[..], b"Connection: keep-alive\r\n", b"Connection: close\r\n"][closes]);
    head.extend_from_slice(b"\r\n");
    for v in te.iter().chain(cl.iter()) { for &c in v { sx::assume(c != b'\r' && c != b'\n'); } }
    let rest: &[u8] = [&b""[..], b"abc", b"abcde", b"3\r\nabc\r\n0\r\n\r\n", b"3\r\nabc\r\n0\r\n\r\nX"][sx::pick(5, "bytes after the head")];
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let i = s.send(cli::req(method, if method == "CONNECT" { "a.b:1" } else { "/a" }, HBody::empty()));
    s.run();
    s.dev.feed(&head);
    if wide == 2 && sx::flag("a pause after the head") { s.run(); }
    s.dev.feed(rest);
    s.run();
    let te_: Vec<&[u8]> = te.iter().map(|v| trim(v)).collect();
    let cl_: Vec<&[u8]> = cl.iter().map(|v| trim(v)).collect();
    let f = client_reference(status, method, v11, &te_, &cl_);
    let bad = te.iter().chain(cl.iter()).any(|v| v.iter().any(|&c| (c < 32 && c != b'\t') || c == 127));
    if bad { sx::check(matches!(s.out(i), Out::Err { .. }) || matches!(f, Cf::Skip | Cf::F(Fr::Any)), "a response with control characters in a framing header is accepted"); sx::cover("malformed value"); return; }
    let used = match f {
        Cf::F(Fr::Any) => { sx::cover("either"); return; }
        Cf::Tunnel => {
            let r = s.resp(i);
            sx::check(r.map_or(false, |r| r.status == status && r.end == End::Eof && r.body.is_empty()), "a switching response is not delivered, or has a body");
            sx::check(!s.is_ready(), "connection is reused after an upgrade");
            sx::cover("tunnel");
            return;
        }
        Cf::Skip => {
            if rest.is_empty() { sx::check(s.out(i) == Out::Pending, "an informational response is taken for the final one"); s.dev.feed(SECOND); s.run(); sx::check(s.resp(i).map_or(false, |r| r.status == 207 && !r.has("content-type") && r.body == if method == "HEAD" || method == "CONNECT" { &b""[..] } else { b"second" }), "the final response after an informational one is not delivered"); sx::cover("informational"); }
            return;
        }
        Cf::F(Fr::Reject) => {
            sx::check(matches!(s.out(i), Out::Err { parse: true, returned: false, .. }), "a response with invalid framing is accepted");
            sx::check(s.done() && !s.is_ready(), "connection stays open after a response with invalid framing");
            sx::cover("rejected");
            return;
        }
        Cf::Zero => Some(0),
        Cf::Close => None,
        Cf::F(Fr::Chunked) => if rest.starts_with(b"3\r\n") { Some(13) } else { sx::check(s.resp(i).map_or(false, |r| r.end != End::Eof), "a broken chunked response ends well"); s.dev.set_eof(); s.run(); sx::check(s.resp(i).map_or(false, |r| r.end == End::Err), "a broken chunked response ends well"); return; },
        Cf::F(Fr::Len(k)) => { if k >= u64::MAX - 1 { return; } Some(k as usize) }
    };
    let r = match s.resp(i) { Some(r) => r, None => { sx::check(bad, "a valid response is not delivered"); return; } };
    sx::check(r.status == status && r.version == if v11 { Version::HTTP_11 } else { Version::HTTP_10 }, "status or version");
    let persist = if closes == 2 { false } else if closes == 1 { true } else { v11 };
    match used {
        None => {
            sx::check(r.end == End::Open && r.body == rest && r.exact.is_none() && !r.eos, "a response delimited by the end of the connection is not delivered as it arrives");
            sx::check(!s.is_ready() , "connection is ready in the middle of a response");
            s.dev.feed(SECOND);
            s.dev.set_eof();
            s.run();
            let r = s.resp(i).unwrap();
            sx::check(r.end == End::Eof && r.body == cat(&[rest, SECOND]), "a response delimited by the end of the connection is cut");
            sx::check(s.done(), "connection does not finish");
            sx::cover("until close");
        }
        Some(n) if n > rest.len() => {
            sx::check(r.exact == Some(n as u64) && r.end == End::Open && r.body == rest && !s.is_ready(), "an incomplete body ends, or bytes are withheld");
            s.dev.set_eof();
            s.run();
            sx::check(s.resp(i).unwrap().end == End::Err && s.done(), "a truncated response ends as if complete");
            sx::cover("truncated");
        }
        Some(n) => {
            let want: &[u8] = if matches!(f, Cf::F(Fr::Chunked)) { b"abc" } else { &rest[..n] };
            sx::check(r.end == End::Eof && r.body == want, "body is not the announced one");
            let extra = rest.len() > n;
            let either = !te.is_empty() && !cl.is_empty();
            if !persist { sx::check(s.done() && !s.is_ready(), "connection is reused although it may not"); sx::cover("closed"); return; }
            if !extra && !either { sx::check(s.is_ready() && !s.done(), "connection is not reused although it may"); }
            if extra { sx::check(!s.is_ready() || s.done(), "connection is ready although stray bytes arrived"); }
            if s.tx.as_ref().unwrap().is_closed() { sx::cover("stray bytes"); return; }
            let j = s.send(cli::get("/b"));
            s.run();
            s.dev.feed(SECOND);
            s.run();
            match s.resp(j) {
                Some(r) => { sx::check(!extra, "a request is answered on a connection with stray bytes"); sx::check(r.status == 207 && r.body == b"second" && r.end == End::Eof, "the second response is not intact"); sx::cover(if te.is_empty() { "reused" } else { "reused after chunked" }); }
                None => sx::check(extra, "second response lost"),
            }
        }
    }
}
#[no_mangle] pub extern "C" fn c02_one() { response(1, 2, &[200, 204, 304, 404, 100, 101, 103, 299]) }
#[no_mangle] pub extern "C" fn c02_two() { response(2, 1, &[200, 304, 404]) }
#[no_mangle] pub extern "C" fn c02_three() { response(3, 0, &[200, 404]) }

// ---------------------------------------------------------------- C03/C04/C07: histories of one client connection

/// One history of `n` events against a model: which request a response belongs to, what every caller must learn.
fn history(n: usize, upto: usize, pairing: bool) {
    // one history decides two properties: C03 (pairing) and C04 (outcomes)
    let pair = |c: bool, m: &str| if pairing { sx::check(c, m) };
    let outcome = |c: bool, m: &str| if !pairing { sx::check(c, m) };
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    // event after which nothing is polled before the next one
    let lazy = sx::pick(upto, "events that happen together with the next");
    let g = Gate::new();
    let (mut posted, mut eof, mut killed, mut notx, mut stray) = (false, false, false, false, false);
    // response bytes fed for a request: 0 none, 1 head, 2 all; whether the connection ran since
    let mut fed: Vec<(usize, bool)> = vec![];
    let mut canceled: Vec<bool> = vec![];
    let mut readies: Vec<bool> = vec![];
    let name = |i: usize| cat(&[b" /r", &[b'0' + i as u8], b" "]);
    let on_wire = |s: &Cli, i: usize| find(&s.wire(), &name(i)).is_some();
    for step in 0..n {
        let cnt = fed.len();
        let open: Option<usize> = (0..cnt).find(|&i| on_wire(&s, i) && fed[i].0 < 2);
        match sx::pick(10, "event") {
            k @ 0..=1 => {
                if notx || cnt == 3 || (k == 1 && posted) { sx::end(); }
                readies.push(s.is_ready());
                let uri = ["/r0", "/r1", "/r2"][cnt];
                let r = if k == 0 { cli::get(uri) } else { posted = true; cli::req("POST", uri, HBody::new(vec![Op::Data(b"b".to_vec().into()), Op::Wait(g.clone()), Op::Data(b"c".to_vec().into())])) };
                s.send(r);
                fed.push((0, false));
                canceled.push(false);
            }
            2 => {
                if eof || killed || open.map_or(false, |i| fed[i].0 > 0) || (open.is_none() && stray) { sx::end(); }
                let t = match open { Some(i) => { fed[i] = (2, false); b'0' + i as u8 } None => { stray = true; b'9' } };
                s.dev.feed(&cat(&[b"HTTP/1.1 200 OK\r\nTag: ", &[t], b"\r\nContent-Length: 2\r\n\r\n", &[t, t]]));
            }
            3 => {
                if eof || killed { sx::end(); }
                let i = match open { Some(i) if fed[i].0 == 0 => i, _ => sx::end() };
                fed[i] = (1, false);
                let t = b'0' + i as u8;
                s.dev.feed(&cat(&[b"HTTP/1.1 200 OK\r\nTag: ", &[t], b"\r\nContent-Length: 2\r\n\r\n", &[t]]));
            }
            4 => {
                if eof || killed { sx::end(); }
                let i = match open { Some(i) if fed[i].0 == 1 => i, _ => sx::end() };
                fed[i] = (2, false);
                s.dev.feed(&[b'0' + i as u8]);
            }
            5 => { if eof || killed { sx::end(); } eof = true; s.dev.set_eof(); }
            6 => {
                // the caller drops its future, or the response body
                let i = match (0..cnt).rev().find(|&i| !canceled[i] && !s.ex.done(s.tasks[i])) { Some(i) => i, None => sx::end() };
                canceled[i] = true;
                let t = s.tasks[i];
                s.ex.kill(t);
            }
            7 => { if !posted || g.is_open() { sx::end(); } g.open(); }
            8 => { if notx { sx::end(); } notx = true; s.tx = None; }
            _ => { if killed { sx::end(); } killed = true; let t = s.task; s.ex.kill(t); }
        }
        if step + 1 == lazy { continue; }
        let was: Vec<bool> = (0..fed.len()).map(|i| on_wire(&s, i)).collect();
        s.run();
        if !killed { for f in fed.iter_mut() { f.1 = true; } }
        for i in 0..fed.len() {
            if was[i] || !on_wire(&s, i) { continue; }
            pair((0..i).all(|j| !on_wire(&s, j) || fed[j].0 == 2), "a request is written before the previous response is complete");
            pair((0..i).all(|j| on_wire(&s, j) || canceled[j] || matches!(s.out(j), Out::Err { .. })), "requests are written out of order");
            pair(!stray, "a request is written to a connection that received stray bytes");
        }
        if !killed && !notx { outcome(s.done() || !s.tx.as_ref().unwrap().is_closed() || eof || stray || canceled.iter().any(|c| *c), "the sender is closed on a live connection"); }
    }
    s.run();
    g.open();
    s.run();
    for f in fed.iter_mut() { if !killed { f.1 = true; } }
    if !killed { if !eof { s.dev.set_eof(); } s.run(); outcome(s.done(), "connection does not finish although the peer closed"); }
    for i in 0..fed.len() {
        let wired = on_wire(&s, i);
        match s.out(i) {
            Out::Pending => { outcome(canceled[i], "a request never gets an outcome"); }
            Out::Resp(k) => {
                let r = s.resp(i).unwrap();
                pair(fed[i].0 > 0 && r.get("tag") == [&[b'0' + i as u8][..]], "a response is delivered to the wrong request");
                pair(r.body.iter().all(|&b| b == b'0' + i as u8), "body bytes of another response");
                if fed[i].0 == 2 && fed[i].1 && !canceled[i] { outcome(r.end == End::Eof && r.body.len() == 2, "a complete response is not delivered in full"); sx::cover("answered"); }
                if r.end == End::Eof { outcome(r.body.len() == 2, "a truncated response ends as if complete"); }
                if fed[i].0 == 1 && !canceled[i] { outcome(r.end == End::Err, "a truncated response body does not fail"); sx::cover("cut off"); }
            }
            Out::Err { returned, canceled: c, .. } => {
                outcome(!(fed[i].0 == 2 && fed[i].1), "a complete response is lost");
                if returned { outcome(!wired, "a request is given back although it was written"); outcome(c, "a request given back is not reported as canceled"); sx::cover("given back"); }
                else { outcome(wired, "a request that was never written is not given back"); sx::cover("failed"); }
                if readies[i] && !stray && !eof && !killed && canceled.iter().all(|c| !c) { outcome(wired, "a request fails although the connection was ready"); }
            }
            Out::Gone => {}
        }
        // a request on a quiet connection is written
        if !wired && !killed && !stray && i == 0 && !canceled[0] && !eof { outcome(false, "the first request is not written"); }
    }
    if stray { sx::cover("stray"); }
    if canceled.iter().any(|c| *c) { sx::cover("dropped"); }
    if killed { sx::cover("connection dropped"); }
    if notx { sx::cover("sender dropped"); }
    outcome(!s.dev.with(|s| s.write_after_shutdown), "written after shutdown");
}
#[no_mangle] pub extern "C" fn c03_hist9() { history(9, 10, true) }
#[no_mangle] pub extern "C" fn c03_hist7() { history(7, 8, true) }
#[no_mangle] pub extern "C" fn c03_hist8() { history(8, 9, true) }
#[no_mangle] pub extern "C" fn c04_hist9() { history(9, 10, false) }
#[no_mangle] pub extern "C" fn c04_hist7() { history(7, 8, false) }
#[no_mangle] pub extern "C" fn c04_hist8() { history(8, 9, false) }
/// bytes nobody asked for: `sym` arbitrary ones, then nothing, the rest of a head, or a whole response; with the last response, before the next request is made, or with it
fn stray(sym: usize) {
    let done = sx::pick(3, "exchanges before");
    let (io, dev) = io(vec![]);
    let mut s = Cli::new(&cli::builder(), (io, dev));
    s.run();
    let k = 1 + sx::pick(sym, "stray bytes");
    let junk = cat(&[&syms(k, "stray byte"), [&b""[..], b"TTP/1.1 ", SECOND][sx::pick(3, "then: nothing, part of a head, a response")]]);
    let at = sx::pick(3, "stray bytes: with the last response, on the idle connection, together with the request");
    let cut = if sx::flag("in two reads") { k } else { junk.len() };
    for i in 0..done {
        let r = s.send(cli::get("/a"));
        s.run();
        s.dev.feed(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n");
        let last = i + 1 == done && at == 0;
        if sx::flag("pause") { s.run(); }
        s.dev.feed(b"ab");
        if last { s.dev.feed(&junk[..cut]); }
        s.run();
        sx::check(s.resp(r).is_some_and(|r| r.body == b"ab" && r.end == End::Eof), "a response before the stray bytes is not intact");
    }
    if done == 0 && at == 0 { s.dev.feed(&junk[..cut]); s.run(); }
    if at == 1 { s.dev.feed(&junk[..cut]); s.run(); }
    if at == 2 { s.dev.feed(&junk[..cut]); }
    if at < 2 { sx::check(!s.is_ready(), "a connection that received stray bytes is ready"); }
    if cut < junk.len() { s.dev.feed(&junk[cut..]); if at < 2 { s.run(); } }
    let n = s.wire().len();
    let r = s.send(cli::get("/b"));
    s.run();
    sx::check(s.wire().len() == n, "a request is written to a connection that received stray bytes");
    s.dev.feed(SECOND);
    s.run();
    s.dev.set_eof();
    s.run();
    match s.out(r) {
        Out::Err { returned, .. } => { sx::check(returned, "a request that was never written is not given back"); sx::cover("given back"); }
        _ => sx::fail("a request gets a response that was sent before it"),
    }
    sx::check(s.done(), "the connection goes on");
}
#[no_mangle] pub extern "C" fn c03_stray3() { stray(4) }
/// the response comes while the request body is still being produced or sent; its body is read at once, later, or dropped
fn apart(pairing: bool) {
    let pair = |c: bool, m: &str| if pairing { sx::check(c, m) };
    let outcome = |c: bool, m: &str| if !pairing { sx::check(c, m) };
    let kind = sx::pick(4, "request body: none, chunked with a pause, with length and a pause, chunked with a pause at the end");
    let resp = sx::pick(6, "response: length, chunked, until close, 204, says close, empty");
    let (want, text): (&[u8], &[u8]) = [
        (&b"rs"[..], &b"HTTP/1.1 200 OK\r\nTag: 0\r\nContent-Length: 2\r\n\r\nrs"[..]),
        (b"rs", b"HTTP/1.1 200 OK\r\nTag: 0\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nr\r\n1\r\ns\r\n0\r\n\r\n"),
        (b"rs", b"HTTP/1.1 200 OK\r\nTag: 0\r\n\r\nrs"),
        (b"", b"HTTP/1.1 204 No Content\r\nTag: 0\r\n\r\n"),
        (b"rs", b"HTTP/1.1 200 OK\r\nTag: 0\r\nConnection: close\r\nContent-Length: 2\r\n\r\nrs"),
        (b"", b"HTTP/1.1 200 OK\r\nTag: 0\r\nContent-Length: 0\r\n\r\n"),
    ][resp];
    let closes = resp == 2 || resp == 4;
    let head = find(text, b"\r\n\r\n").unwrap() + 4;
    let at = [head, text.len() - (want.len() > 0) as usize, text.len()][sx::pick(3, "arrives before the request body is complete: the head, all but the last byte, all")];
    let (io, dev) = io(vec![]);
    let vectored = sx::flag("vectored");
    let stop = [30, 58, 60, 100, usize::MAX][sx::pick(5, "bytes the transport takes at first")];
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; });
    let mut s = Cli::new(&cli::builder(), (io, dev));
    let g = Gate::new();
    let d = |b: &[u8]| Op::Data(b.to_vec().into());
    let (r, body): (hyper::Request<HBody>, Vec<u8>) = match kind {
        0 => (cli::get("/a"), b"GET /a HTTP/1.1\r\nhost: h\r\n\r\n".to_vec()),
        1 => (cli::req("POST", "/a", HBody::new(vec![d(b"b"), Op::Wait(g.clone()), d(b"c")])), b"POST /a HTTP/1.1\r\nhost: h\r\ntransfer-encoding: chunked\r\n\r\n1\r\nb\r\n1\r\nc\r\n0\r\n\r\n".to_vec()),
        2 => (cli::req("POST", "/a", HBody::new(vec![d(b"b"), Op::Wait(g.clone()), d(b"c")]).hinted(2, Some(2))), b"POST /a HTTP/1.1\r\nhost: h\r\ncontent-length: 2\r\n\r\nbc".to_vec()),
        _ => (cli::req("POST", "/a", HBody::new(vec![d(b"bc"), Op::Wait(g.clone())])), b"POST /a HTTP/1.1\r\nhost: h\r\ntransfer-encoding: chunked\r\n\r\n2\r\nbc\r\n0\r\n\r\n".to_vec()),
    };
    let alive = r.body().alive.clone();
    let rg = Gate::new();
    let read = sx::pick(4, "response body: read at once, read in the end, dropped at once, dropped in the end");
    if read % 2 == 0 { rg.open(); }
    let i = s.send_gated(r, if read >= 2 { 0 } else { usize::MAX }, rg.clone());
    s.run();
    s.dev.feed(&text[..at]);
    s.run();
    // more of the request goes out before or after the rest of the response has come
    let order = sx::flag("the rest of the response comes first");
    let more = |s: &mut Cli| { g.open(); s.run(); s.dev.raise_wstop(usize::MAX); s.run(); };
    if !order { more(&mut s); }
    s.dev.feed(&text[at..]);
    if resp == 2 { s.dev.set_eof(); }
    s.run();
    if order { more(&mut s); }
    let early = sx::flag("the second request is made before the body is read");
    let mut j = 0;
    if early { j = s.send(cli::get("/b")); s.run(); }
    rg.open();
    s.run();
    // a request made while the connection was not ready may have come back
    if !early || matches!(s.out(j), Out::Err { returned: true, .. }) { j = s.send(cli::get("/b")); s.run(); }
    // the first exchange
    let w = s.wire();
    let n = w.len().min(body.len());
    pair(w[..n] == body[..n], "the request is not written as given");
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("a complete response is lost") };
    pair(r.get("tag") == [&b"0"[..]], "another response");
    if read < 2 { outcome(r.end == End::Eof && r.body == want, "a complete response is not delivered in full"); }
    let live = !s.done();
    outcome(!live || n == body.len(), "the request is not written to its end");
    let wired = find(&w, b"GET /b ").is_some();
    if wired { pair(w[body.len()..] == b"GET /b HTTP/1.1\r\nhost: h\r\n\r\n"[..], "the second request does not follow the first"); }
    if closes { pair(!wired, "a request is written after a response that closes the connection"); outcome(matches!(s.out(j), Out::Err { returned: true, .. }), "a request that was never written is not given back"); outcome(s.done(), "the connection goes on after a response that closes it"); sx::cover("closed"); }
    else if read < 2 || want.is_empty() {
        // both sides have said all they had to say
        outcome(wired, "the connection is not used again");
        s.dev.feed(b"HTTP/1.1 200 OK\r\nTag: 1\r\nContent-Length: 1\r\n\r\nz");
        s.run();
        let q = match s.resp(j) { Some(r) => r, None => sx::fail("the second response is lost") };
        pair(q.get("tag") == [&b"1"[..]] && q.body == b"z" && q.end == End::Eof, "the second response is not delivered");
        sx::cover("reused");
    } else {
        if wired { s.dev.feed(b"HTTP/1.1 200 OK\r\nTag: 1\r\nContent-Length: 1\r\n\r\nz"); s.run(); pair(s.resp(j).is_some_and(|q| q.get("tag") == [&b"1"[..]] && q.body == b"z"), "the second response is not delivered"); }
        else { outcome(matches!(s.out(j), Out::Err { returned: true, .. }), "a request that was never written is not given back"); }
        sx::cover("body dropped");
    }
    s.dev.set_eof();
    s.run();
    outcome(s.done() && !alive.get(), "the connection does not finish although the peer closed");
}
#[no_mangle] pub extern "C" fn c03_apart() { apart(true) }
#[no_mangle] pub extern "C" fn c04_apart() { apart(false) }
