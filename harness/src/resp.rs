//! S06 / S07 / S04: what a server writes for one response, and what happens to the connection after it.
use crate::{srv::*, sup::*, sx};
use http::{HeaderMap, Response};

pub const NEXT: &[u8] = b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n";
pub const METHODS: [&str; 5] = ["GET", "HEAD", "CONNECT", "POST", "OPTIONS"];

/// the outgoing body: (body, its data, honest about its length)
pub struct Bd { pub body: HBody, pub data: Vec<u8>, pub exact: Option<u64>, pub none: bool, pub trailers: Option<HeaderMap> }
pub fn body_kind(k: usize) -> Bd {
    let d = |v: &[&[u8]]| v.iter().map(|x| Op::Data(bytes::Bytes::copy_from_slice(x))).collect::<Vec<_>>();
    let mut t = HeaderMap::new();
    t.insert("x-t", hv(b"1"));
    match k {
        // announces that it is empty
        0 => Bd { body: HBody::empty(), data: vec![], exact: Some(0), none: true, trailers: None },
        // exact length, one frame
        1 => Bd { body: HBody::full(b"abc"), data: b"abc".to_vec(), exact: Some(3), none: false, trailers: None },
        // exact length, two frames, end not announced
        2 => Bd { body: HBody::new(d(&[b"ab", b"c"])).hinted(3, Some(3)), data: b"abc".to_vec(), exact: Some(3), none: false, trailers: None },
        // unknown length, two frames
        3 => Bd { body: HBody::new(d(&[b"ab", b"c"])), data: b"abc".to_vec(), exact: None, none: false, trailers: None },
        // unknown length, no data at all
        4 => Bd { body: HBody::new(vec![]), data: vec![], exact: None, none: false, trailers: None },
        // unknown length, empty frames and a pause in between, end announced with the last frame
        5 => Bd { body: HBody::new(vec![Op::Data(bytes::Bytes::new()), Op::Data(bytes::Bytes::from_static(b"ab")), Op::Pend, Op::Data(bytes::Bytes::new()), Op::Data(bytes::Bytes::from_static(b"c"))]).eos(), data: b"abc".to_vec(), exact: None, none: false, trailers: None },
        // exact zero, but the end is not announced
        6 => Bd { body: HBody::new(vec![]).hinted(0, Some(0)), data: vec![], exact: Some(0), none: false, trailers: None },
        // a range, data and trailers
        7 => { let mut o = d(&[b"ab", b"c"]); o.push(Op::Trailers(t.clone())); Bd { body: HBody::new(o).hinted(1, Some(9)), data: b"abc".to_vec(), exact: None, none: false, trailers: Some(t) } }
        // unknown length, two frames, the last announces the end
        _ => Bd { body: HBody::new(d(&[b"ab", b"c"])).eos(), data: b"abc".to_vec(), exact: None, none: false, trailers: None },
    }
}
pub fn bodyless(method: &str, status: u16) -> bool { method == "HEAD" || status / 100 == 1 || status == 204 || status == 304 || (method == "CONNECT" && status / 100 == 2) }

pub struct Case { pub method: &'static str, pub v10: bool, pub reqconn: Option<&'static [u8]>, pub status: u16, pub hdrs: Vec<(&'static str, Vec<u8>)>, pub bd: Bd }
pub struct Got { pub srv: Srv, pub msgs: Vec<WireMsg>, pub second: bool }

/// serve `c` followed by a second request, and check everything that can be checked for any response
pub fn serve(c: Case, b: &hyper::server::conn::http1::Builder, ka_config: bool) -> Got {
    let req = cat(&[c.method.as_bytes(), b" /a HTTP/1.", if c.v10 { b"0" } else { b"1" }, b"\r\nHost: h\r\n", &c.reqconn.map_or(vec![], |v| cat(&[b"Connection: ", v, b"\r\n"])), b"\r\n"]);
    let (io, dev) = io(cat(&[&req, NEXT]));
    let mut first = Some(());
    let mut r = Response::new(c.bd.body);
    *r.status_mut() = http::StatusCode::from_u16(c.status).unwrap();
    for (n, v) in &c.hdrs { r.headers_mut().append(hn(n.as_bytes()), hv(v)); }
    let mut r = Some(r);
    let mut s = Srv::new(b, (io, dev), reading(move |i| { if first.take().is_some() { r.take().unwrap() } else { numbered(i) } }));
    s.run();
    let closed_by_server = s.dev.is_shutdown() || s.dev.with(|s| s.dropped);
    let eof = closed_by_server;
    let msgs = match wire_responses(&s.out(), &[c.method, "GET"], eof) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    sx::check(!s.dev.with(|s| s.write_after_shutdown), "written after shutdown");
    let reqs = s.reqs();
    sx::check(!reqs.is_empty(), "request not served");
    // how the request asks
    let toks: Vec<Vec<u8>> = c.reqconn.map_or(vec![], |v| v.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase()).collect());
    let req_keep = if c.v10 { toks.iter().any(|t| t == b"keep-alive") && !toks.iter().any(|t| t == b"close") } else { !toks.iter().any(|t| t == b"close") };
    let get = |n: &str| c.hdrs.iter().filter(|h| h.0 == n).map(|h| &h.1[..]).collect::<Vec<_>>();
    let resp_close = get("connection").iter().any(|v| v.split(|&c| c == b',').any(|t| trim(t).eq_ignore_ascii_case(b"close")));
    let cl: Option<Option<u64>> = get("content-length").first().map(|v| if v.iter().all(|c| c.is_ascii_digit()) && !v.is_empty() { Some(v.iter().fold(0, |a, c| a * 10 + (c - b'0') as u64)) } else { None });
    let te = !get("transfer-encoding").is_empty();
    let tunnel = c.status == 101 || (c.method == "CONNECT" && c.status / 100 == 2);
    // responses hyper may refuse to send
    let refusable = (c.status / 100 == 1 && c.status != 101) || (c.method == "CONNECT" && c.status / 100 == 2 && (cl.is_some() || te)) || (cl.is_some() && te) || cl == Some(None) || get("content-length").len() > 1;
    if c.status / 100 == 1 && c.status != 101 {
        // a final response cannot be 1xx: the client must still get a final answer or a closed connection, never a bare 1xx
        sx::check(msgs.iter().all(|m| m.status / 100 != 1), "an informational status was sent as the final response");
        sx::check(reqs.len() == 1 && closed_by_server, "connection reused after an unsupported response");
        sx::cover("informational refused");
        return Got { second: false, msgs, srv: s };
    }
    if msgs.is_empty() {
        let short = cl.map_or(false, |n| n.map_or(true, |n| n > c.bd.data.len() as u64)) || c.bd.exact.map_or(false, |n| n > c.bd.data.len() as u64);
        sx::check(refusable || short, "no response written");
        sx::check(reqs.len() == 1 && closed_by_server, "connection goes on without a response");
        sx::cover("refused");
        return Got { second: false, msgs, srv: s };
    }
    let m = &msgs[0];
    if refusable && m.status == 500 && c.status != 500 { sx::check(reqs.len() == 1, "connection reused after an unsupported response"); return Got { second: false, msgs, srv: s }; }
    sx::check(m.status == c.status, "status differs from the service's");
    sx::check(m.version == if c.v10 { 0 } else { 1 }, "response version does not suit the request");
    sx::check(!(c.v10 && m.has("transfer-encoding")), "transfer-encoding sent to an HTTP/1.0 client");
    if (c.status == 204 || c.status / 100 == 1 || (c.method == "CONNECT" && c.status / 100 == 2)) && !te { sx::check(!m.has("transfer-encoding"), "transfer-encoding on a response that cannot have a body"); }
    if (c.status == 204 || c.status / 100 == 1 || (c.method == "CONNECT" && c.status / 100 == 2)) && cl.is_none() { sx::check(!m.has("content-length"), "content-length on a response that cannot have a body"); }
    // every ordinary header of the service is there, in order
    for (n, _) in &c.hdrs {
        if ["content-length", "transfer-encoding", "connection", "trailer", "date"].contains(n) { continue; }
        let want: Vec<Vec<u8>> = get(n).iter().map(|v| trim(v).to_vec()).collect();
        let have: Vec<Vec<u8>> = m.get(n).iter().map(|v| v.to_vec()).collect();
        sx::check(want == have, "a header of the service is lost or changed");
    }
    for (n, _) in &m.headers { sx::check(["content-length", "transfer-encoding", "connection", "trailer"].iter().any(|k| eqi(n, k)) || c.hdrs.iter().any(|h| eqi(n, h.0)), "a header out of nothing"); }
    for n in ["connection", "trailer"] {
        let own: Vec<Vec<u8>> = get(n).iter().flat_map(|v| v.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())).collect();
        sx::check(m.tokens(n).iter().all(|t| own.contains(t) || n == "connection" && (t == b"close" || t == b"keep-alive")), "a connection or trailer token out of nothing");
    }
    if te && !m.tokens("transfer-encoding").is_empty() {
        let own: Vec<Vec<u8>> = get("transfer-encoding").iter().flat_map(|v| v.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())).collect();
        let mut w = own.clone();
        if w.last().map_or(true, |t| t != b"chunked") { w.push(b"chunked".to_vec()); }
        sx::check(m.tokens("transfer-encoding") == w, "transfer-encoding is not the service's, ended by chunked");
    }
    if !te { sx::check(m.tokens("transfer-encoding").iter().all(|t| t == b"chunked"), "transfer coding out of nothing"); }
    // the body
    let nobody = bodyless(c.method, c.status);
    let full = match (cl, te && m.has("transfer-encoding")) { (Some(Some(n)), false) if !nobody && !c.bd.none => n as usize, _ => c.bd.data.len() };
    let limit = c.bd.exact.map_or(full, |e| if c.bd.none { c.bd.data.len() } else { full.min(e as usize) });
    if nobody {
        sx::check(m.body.is_empty(), "a body was written where none is allowed");
        if tunnel { sx::check(s.out().len() == m.raw_head.len(), "bytes after the head of a tunnel response"); sx::cover("tunnel"); }
        else { sx::cover("bodyless"); }
    } else if limit <= c.bd.data.len() && full <= c.bd.data.len() {
        sx::check(m.complete, "response body is not complete on the wire");
        sx::check(m.body[..] == c.bd.data[..limit], "body differs from what the service produced");
        if full < c.bd.data.len() { sx::cover("truncated to content-length"); }
        if m.chunked { sx::check(m.chunks.iter().all(|c| !c.is_empty()), "empty chunk"); sx::cover("chunked"); }
        else if m.by_close { sx::check(c.v10, "close-delimited response to an HTTP/1.1 client"); sx::cover("close-delimited"); }
        else { sx::cover("length"); }
    } else {
        // fewer bytes than announced: must not look complete
        sx::check(!m.complete, "a response shorter than its content-length looks complete");
        sx::check(starts(&c.bd.data, &m.body), "body bytes differ");
        sx::check(closed_by_server && reqs.len() == 1, "connection reused after a response shorter than announced");
        sx::cover("short");
        return Got { second: false, msgs, srv: s };
    }
    // the connection afterwards
    if tunnel { sx::check(reqs.len() == 1 && msgs.len() == 1, "bytes after a tunnel response taken as a request"); return Got { second: false, msgs, srv: s }; }
    let must_close = !req_keep || resp_close || m.by_close || !ka_config;
    let second = reqs.len() > 1;
    if must_close {
        sx::check(!second && closed_by_server && msgs.len() == 1, "connection not closed although a side asked for it");
        // the peer must be able to see it
        if !c.v10 && !ka_config { sx::check(m.close(), "no connection: close although the server will close"); }
        if !c.v10 && !req_keep { sx::check(m.close(), "no connection: close in the answer to connection: close"); }
        if resp_close { sx::check(m.close(), "the service's connection: close is lost"); }
        if !c.v10 || !req_keep { sx::check(!m.keep_alive() || resp_close || get("connection").iter().any(|v| v.to_ascii_lowercase().windows(10).any(|w| w == b"keep-alive")), "keep-alive announced before closing"); }
        sx::cover("closed");
    } else {
        sx::check(second && reqs[1].uri == "/b" && reqs[1].method == "GET", "connection not reused although both sides allow it");
        sx::check(msgs.len() == 2 && msgs[1].status == 200 && msgs[1].body == b"#1" && msgs[1].complete, "second response is not intact");
        if c.v10 { sx::check(m.keep_alive(), "connection kept alive without telling the HTTP/1.0 client"); }
        sx::check(!m.close(), "connection: close sent but the connection goes on");
        sx::cover("reused");
    }
    Got { second, msgs, srv: s }
}
const CONNS: [(bool, Option<&[u8]>); 5] = [(false, None), (false, Some(b"close")), (true, None), (true, Some(b"keep-alive")), (false, Some(b"keep-alive"))];
fn statuses() -> u16 { [200, 204, 304, 404, 101, 100, 500, 205][sx::pick(8, "status")] }
/// no headers of the service's own
#[no_mangle] pub extern "C" fn s06_plain() {
    let method = METHODS[sx::pick(5, "method")];
    let status = statuses();
    let (v10, reqconn) = CONNS[sx::pick(5, "version and connection")];
    let bd = body_kind(sx::pick(9, "body"));
    serve(Case { method, v10, reqconn, status, hdrs: vec![], bd }, &builder(), true);
}
/// any three-digit status
fn any_status(status: u16) {
    let method = METHODS[sx::pick(3, "method")];
    let bd = body_kind([0, 1, 3][sx::pick(3, "body")]);
    serve(Case { method, v10: false, reqconn: None, status, hdrs: vec![], bd }, &builder(), true);
}
#[no_mangle] pub extern "C" fn s06_status() { any_status(100 + sx::pick(900, "status") as u16) }
#[no_mangle] pub extern "C" fn s06_status_sym() { let s = sx::u16v("status"); sx::assume(s >= 100 && s <= 999); any_status(s) }
const HD: [(&str, &[u8]); 12] = [("x-a", b"1"), ("content-length", b"3"), ("content-length", b"0"), ("transfer-encoding", b"chunked"), ("transfer-encoding", b"gzip"), ("connection", b"close"), ("connection", b"keep-alive"), ("connection", b"x-b, Close"),
    ("trailer", b"x-t"), ("x-a", b" two "), ("date", b"now"), ("connection", b"upgrade")];
fn good(hdrs: &[(&'static str, Vec<u8>)], bd: &Bd, method: &str, status: u16) -> bool {
    // a length header next to a body that knows a different length is the service's own contradiction
    let cl: Vec<&[u8]> = hdrs.iter().filter(|h| h.0 == "content-length").map(|h| &h.1[..]).collect();
    if cl.is_empty() { return true; }
    if bd.none || bodyless(method, status) { return true; }
    match bd.exact { Some(n) => cl.iter().all(|v| *v == n.to_string().as_bytes()), None => true }
}
fn headers(n: usize, m: &[&'static str], st: &[u16], bds: &[usize], conns: usize) {
    let method = m[sx::pick(m.len(), "method")];
    let status = st[sx::pick(st.len(), "status")];
    let (v10, reqconn) = CONNS[sx::pick(conns, "version and connection")];
    let bd = body_kind(bds[sx::pick(bds.len(), "body")]);
    let mut hdrs: Vec<(&'static str, Vec<u8>)> = vec![];
    for _ in 0..n { let (k, v) = HD[sx::pick(12, "header")]; hdrs.push((k, v.to_vec())); }
    if !good(&hdrs, &bd, method, status) { return; }
    serve(Case { method, v10, reqconn, status, hdrs, bd }, &builder(), true);
}
#[no_mangle] pub extern "C" fn s06_header() { headers(1, &METHODS[..4], &[200, 204, 304, 404], &[0, 1, 3, 4, 8], 5) }
#[no_mangle] pub extern "C" fn s06_headers() { headers(2, &["GET", "HEAD"], &[200, 304], &[0, 1, 3], 4) }
#[no_mangle] pub extern "C" fn s06_three() { headers(3, &["GET", "HEAD"], &[200], &[0, 1, 3], 4) }
/// S07: a content-length of the service against a body of unknown length
#[no_mangle] pub extern "C" fn s07_cl() {
    let v = syms(sx::pick(2, "digits") + 1, "content-length");
    let n = sx::pick(3, "frames");
    let mut data = vec![];
    let mut ops = vec![];
    for _ in 0..n { let k = sx::pick(3, "frame length"); let f = b"abcdefgh"[data.len()..data.len() + k].to_vec(); data.extend_from_slice(&f); ops.push(Op::Data(f.into())); if sx::flag("pause") { ops.push(Op::Pend); } }
    let mut body = HBody::new(ops);
    if sx::flag("end announced") { body = body.eos(); }
    let none = hyper::body::Body::is_end_stream(&body);
    let (v10, reqconn) = CONNS[[0, 3][sx::pick(2, "version and connection")]];
    serve(Case { method: "GET", v10, reqconn, status: 200, hdrs: vec![("content-length", v)], bd: Bd { body, data, exact: None, none, trailers: None } }, &builder(), true);
}
/// S07: a body whose exact size hint is not what it produces
#[no_mangle] pub extern "C" fn s07_hint() {
    let e = sx::pick(5, "exact hint");
    let n = sx::pick(3, "frames");
    let mut data = vec![];
    let mut ops = vec![];
    for _ in 0..n { let k = sx::pick(3, "frame length"); let f = b"abcdefgh"[data.len()..data.len() + k].to_vec(); data.extend_from_slice(&f); ops.push(Op::Data(f.into())); if sx::flag("pause") { ops.push(Op::Pend); } }
    let mut body = HBody::new(ops).hinted(e as u64, Some(e as u64));
    if sx::flag("end announced") { body = body.eos(); }
    let none = hyper::body::Body::is_end_stream(&body);
    let (v10, reqconn) = CONNS[[0, 3][sx::pick(2, "version and connection")]];
    let mut hdrs: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut bd = Bd { body, data, exact: None, none, trailers: None };
    // behaves as if the service had announced the hint itself
    if !none { hdrs.push(("content-length", e.to_string().into_bytes())); if sx::flag("implicit") { hdrs.clear(); return implicit(v10, reqconn, e, bd); } }
    bd.exact = None;
    serve(Case { method: "GET", v10, reqconn, status: 200, hdrs, bd }, &builder(), true);
}
fn implicit(v10: bool, reqconn: Option<&'static [u8]>, e: usize, bd: Bd) {
    let req = cat(&[b"GET /a HTTP/1.", if v10 { b"0" } else { b"1" }, b"\r\nHost: h\r\n", &reqconn.map_or(vec![], |v| cat(&[b"Connection: ", v, b"\r\n"])), b"\r\n"]);
    let (io, dev) = io(cat(&[&req, NEXT]));
    let mut r = Some(ok(bd.body));
    let mut s = Srv::new(&builder(), (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let closed = s.dev.is_shutdown() || s.dev.with(|s| s.dropped);
    let m = match wire_responses(&s.out(), &["GET", "GET"], closed) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    if m.is_empty() { sx::check(bd.data.len() < e && closed && s.nreq() == 1, "no response written"); sx::cover("implicit nothing"); return; }
    sx::check(m.len() >= 1 && m[0].get("content-length") == vec![e.to_string().as_bytes()], "exact size hint not announced as content-length");
    if bd.data.len() >= e {
        sx::check(m[0].complete && m[0].body[..] == bd.data[..e], "body is not cut to the announced length");
        sx::check(m.len() == 2 && m[1].body == b"#1", "connection not reused after a cut body");
        sx::cover("implicit cut");
    } else {
        sx::check(!m[0].complete && starts(&bd.data, &m[0].body) && closed && s.nreq() == 1, "a body shorter than announced is not aborted");
        sx::cover("implicit short");
    }
}

// ---------------------------------------------------------------- S04: both sides' connection headers

const TOK: [&[u8]; 6] = [b"close", b"keep-alive", b"x-b, Close", b"Keep-Alive, x-b", b"x-b", b"upgrade"];
/// two Connection lines in the request; keep-alive configuration; one Connection line in the response
#[no_mangle] pub extern "C" fn s04_lines() {
    let v10 = sx::flag("http/1.0");
    let n = sx::pick(3, "connection lines");
    let mut lines = vec![];
    let mut toks: Vec<Vec<u8>> = vec![];
    for _ in 0..n { let l = TOK[sx::pick(6, "connection")]; lines.extend_from_slice(&cat(&[b"Connection: ", l, b"\r\n"])); toks.extend(l.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())); }
    let ka = !sx::flag("keep-alive disabled");
    let rc = [None, Some("close"), Some("keep-alive"), Some("x-c")][sx::pick(4, "response connection")];
    let post = sx::flag("request body");
    let req = cat(&[if post { b"POST" } else { b"GET" }, b" /a HTTP/1.", if v10 { b"0" } else { b"1" }, b"\r\nHost: h\r\n", &lines, if post { b"Content-Length: 2\r\n\r\nzz" } else { b"\r\n" }]);
    let (io, dev) = io(cat(&[&req, NEXT]));
    let mut r = ok(HBody::full(b"abc"));
    if let Some(v) = rc { r.headers_mut().insert("connection", hv(v.as_bytes())); }
    let mut r = Some(r);
    let mut b = builder();
    b.keep_alive(ka);
    let mut s = Srv::new(&b, (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let closed = s.dev.is_shutdown();
    let m = s.responses(&["GET", "GET"]);
    sx::check(!m.is_empty() && m[0].status == 200 && m[0].body == b"abc", "first response is not intact");
    let asks_close = toks.iter().any(|t| t == b"close");
    let keep = if v10 { toks.iter().any(|t| t == b"keep-alive") && !asks_close } else { !asks_close };
    if asks_close { sx::check(closed && s.nreq() == 1, "connection reused although the client asked to close it"); sx::cover("client closes"); }
    if !ka { sx::check(closed && s.nreq() == 1, "connection reused although keep-alive is off"); sx::cover("keep-alive off"); }
    if rc == Some("close") { sx::check(closed && s.nreq() == 1 && m[0].close(), "connection reused although the service closes it"); sx::cover("service closes"); }
    if v10 && !keep { sx::check(closed && s.nreq() == 1, "HTTP/1.0 connection reused although the client does not keep it"); }
    if keep && ka && rc != Some("close") {
        sx::check(s.nreq() == 2 && m.len() == 2 && m[1].body == b"#1" && !closed, "connection not reused although both sides allow it");
        if v10 { sx::check(m[0].keep_alive(), "HTTP/1.0 client is not told that the connection stays"); sx::cover("kept 1.0"); } else { sx::cover("kept 1.1"); }
        sx::check(!m[0].close(), "connection: close sent but the connection goes on");
    } else {
        sx::check(!m[0].keep_alive() || rc == Some("keep-alive"), "keep-alive announced before closing");
        if !v10 { sx::check(m[0].close(), "connection closed without connection: close"); }
    }
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
}
/// which statuses and bodies (and a request body left unread) keep the connection usable
#[no_mangle] pub extern "C" fn s04_unread() {
    let chunked = sx::flag("chunked");
    let n = sx::pick(4, "bytes of the body that arrive");
    let rest = sx::pick(3, "rest arrives: never, with the head, later");
    let read = sx::pick(3, "service reads: nothing, one frame, all");
    let body: &[u8] = if chunked { b"3\r\nabc\r\n0\r\n\r\n" } else { b"abc" };
    let n = if chunked { [0, 4, 8, 10][n] } else { n };
    let head = if chunked { &b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n"[..] } else { &b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n"[..] };
    let tail = cat(&[&body[n..], NEXT]);
    let (io, dev) = io(cat(&[head, &body[..n], if rest == 1 { &tail } else { b"" }]));
    if rest == 1 { dev.with(|s| { s.cuts.push(head.len() + n); s.block_cuts = sx::flag("rest after a pause"); }); }
    // the first response may still be on its way when the rest arrives, or the client stops sending
    let slow = sx::pick(4, "first response: at once, goes on before the rest, after it, after the client half-closed");
    if rest != 2 && slow == 2 { sx::end(); }
    let g = Gate::new();
    let g2 = g.clone();
    let mut b = builder();
    b.half_close(slow == 3);
    let mut s = Srv::new(&b, (io, dev), Box::new(move |i, p, b, log| {
        let first = p.uri.path() == "/a";
        let k = if first { [0, 1, usize::MAX][read] } else { usize::MAX };
        let g = g2.clone();
        Box::pin(async move {
            if first && k == 1 && n == 0 && rest == 0 { drop(b); } else { drain(b, log, i, k).await; }
            if first && slow > 0 { return Ok(ok(HBody::new(vec![Op::Data(bytes::Bytes::from_static(b"#")), Op::Wait(g), Op::Data(bytes::Bytes::from_static(b"0"))]))); }
            Ok(numbered(i))
        })
    }));
    s.run();
    if slow == 1 { g.open(); s.run(); }
    if rest == 2 { s.dev.feed(&tail); s.run(); }
    if slow == 2 { g.open(); s.run(); }
    if slow == 3 { s.dev.set_eof(); s.run(); g.open(); s.run(); }
    let out_before = s.out();
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    let r = s.reqs();
    for m in r.iter().skip(1) { sx::check(m.method == "GET" && m.uri == "/b", "bytes of a request body were taken as a request"); }
    sx::check(r.len() <= 2, "too many requests");
    if read == 2 && rest != 0 { sx::check(r.len() == 2 && r[0].body == b"abc" && r[0].end == End::Eof, "request body not delivered"); }
    let w = match wire_responses(&out_before, &["POST", "GET"], true) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    if read != 2 || rest != 0 { sx::check(!w.is_empty() && w[0].status == 200 && w[0].body == b"#0", "response to a partly read request is not intact"); }
    if r.len() == 2 { sx::check(w.len() == 2 && w[1].body == b"#1", "second response is not intact"); sx::cover("reused"); } else { sx::cover("not reused"); }
    if r.len() == 2 && read < 2 { sx::cover("reused after an unread body"); }
}

// ---------------------------------------------------------------- S17: nothing of the service's values can break out of its place

#[no_mangle] pub extern "C" fn s17_reason() {
    let n = sx::pick(4, "length");
    let v = syms(n, "reason");
    let legal = v.iter().all(|&c| c == b'\t' || (c >= 32 && c != 127));
    let rp = match sx::pick(4, "constructor") {
        0 => hyper::ext::ReasonPhrase::try_from(&v[..]).ok(),
        1 => hyper::ext::ReasonPhrase::try_from(v.clone()).ok(),
        2 => hyper::ext::ReasonPhrase::try_from(bytes::Bytes::copy_from_slice(&v)).ok(),
        _ => match String::from_utf8(v.clone()) { Ok(s) => hyper::ext::ReasonPhrase::try_from(s).ok(), Err(_) => return },
    };
    sx::check(rp.is_some() == legal, "a reason phrase is accepted exactly if its bytes are legal");
    let rp = match rp { Some(r) => r, None => { sx::cover("refused"); return; } };
    sx::check(rp.as_bytes() == &v[..], "reason phrase changed");
    let st = [200, 404, 299][sx::pick(3, "status")];
    let (io, dev) = io(cat(&[b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", NEXT]));
    let mut r = status(st, HBody::full(b"abc"));
    r.extensions_mut().insert(rp);
    let mut r = Some(r);
    let mut s = Srv::new(&builder(), (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m[0].body == b"abc" && m[1].body == b"#1", "responses are not intact");
    sx::check(m[0].line[13..] == v[..], "status line does not carry the reason phrase");
    sx::check(m[1].line == b"HTTP/1.1 200 OK", "reason phrase leaks into the next response");
    sx::cover("written");
}
#[no_mangle] pub extern "C" fn s17_value() {
    let v = syms(3, "value");
    let n = sx::byte("name byte");
    let name = cat(&[b"x-", &[n]]);
    let cfg = sx::pick(2, "title case");
    let val = http::HeaderValue::from_bytes(&v);
    let nm = http::HeaderName::from_bytes(&name);
    let (val, nm) = match (val, nm) { (Ok(a), Ok(b)) => (a, b), _ => return };
    let (io, dev) = io(cat(&[b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", NEXT]));
    let mut r = ok(HBody::full(b"abc"));
    r.headers_mut().insert(nm.clone(), val.clone());
    r.headers_mut().append(nm, val);
    let mut r = Some(r);
    let mut b = builder();
    b.title_case_headers(cfg == 1);
    let mut s = Srv::new(&b, (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m[0].body == b"abc" && m[1].body == b"#1", "responses are not intact");
    sx::check(m[0].headers.len() == 3, "a header line too many or too few");
    let own: Vec<_> = m[0].headers.iter().filter(|h| h.0.eq_ignore_ascii_case(&name)).collect();
    sx::check(own.len() == 2 && own.iter().all(|h| h.1 == trim(&v)), "header value changed on the way out");
    sx::cover("written");
}

// ---------------------------------------------------------------- S18: spelling of header names

fn title(n: &[u8]) -> Vec<u8> { let mut up = true; n.iter().map(|&c| { let r = if up { c.to_ascii_uppercase() } else { c }; up = c == b'-'; r }).collect() }
/// the service copies headers and extensions of the request to its response
#[no_mangle] pub extern "C" fn s18_case() {
    let preserve = sx::flag("preserve");
    let tc = sx::flag("title case");
    let k = sx::pick(3, "lines") + 1;
    let mut lines = vec![];
    let mut sent: Vec<(Vec<u8>, u8)> = vec![];
    for i in 0..k {
        let c = sx::byte("name byte");
        // a letter in either case or a dash
        sx::assume(c == b'q' || c == b'Q' || c == b'-' || c == b'r');
        let d = sx::byte("second byte");
        sx::assume(d == b'z' || d == b'Z');
        let name = vec![b'X', c, d];
        let val = b'0' + i as u8;
        lines.extend_from_slice(&cat(&[&name, b": ", &[val], b"\r\n"]));
        sent.push((name, val));
    }
    let (io, dev) = io(cat(&[b"GET /a HTTP/1.1\r\nhOst: h\r\n", &lines, b"\r\n"]));
    let mut b = builder();
    b.preserve_header_case(preserve).title_case_headers(tc);
    let extra = sx::pick(3, "own headers");
    let s = Srv::new(&b, (io, dev), Box::new(move |i, p, bd, log| {
        let mut r = ok(HBody::full(b"abc"));
        for (n, v) in p.headers.iter() { if n != "host" { r.headers_mut().append(n.clone(), v.clone()); } }
        *r.extensions_mut() = p.extensions;
        if extra > 0 { r.headers_mut().insert("y-own", hv(b"1")); }
        if extra > 1 { r.headers_mut().append("xqz", hv(b"9")); }
        Box::pin(async move { drain(bd, log, i, usize::MAX).await; Ok(r) })
    }));
    let mut s = s;
    s.run();
    let m = s.responses(&["GET"]);
    sx::check(m.len() == 1 && m[0].body == b"abc", "response is not intact");
    // the request as the service saw it is independent of spelling
    let q = &s.reqs()[0];
    for (n, v) in &sent { sx::check(q.headers.iter().any(|(a, b)| a.as_bytes() == &n.to_ascii_lowercase()[..] && b[..] == [*v]), "request header lost"); }
    let fallback = |n: &[u8]| if tc { title(&n.to_ascii_lowercase()) } else { n.to_ascii_lowercase() };
    for (n, v) in &sent {
        let have = m[0].headers.iter().find(|h| h.1[..] == [*v] && h.0.eq_ignore_ascii_case(n));
        let want = if preserve { n.clone() } else { fallback(n) };
        sx::check(have.map_or(false, |h| h.0 == want), "header name is not spelled as configured");
    }
    if extra > 0 { sx::check(m[0].headers.iter().any(|h| h.0 == fallback(b"y-own")), "own header name is not spelled as configured"); }
    if extra > 1 { sx::check(m[0].headers.iter().any(|h| h.1[..] == *b"9" && h.0 == fallback(b"xqz")), "an extra value has a spelling of its own"); }
    sx::check(m[0].headers.iter().any(|h| h.0 == fallback(b"content-length")), "content-length is not spelled as configured");
    sx::check(m[0].headers.len() == k + 1 + extra, "a header line too many or too few");
    sx::cover(match (preserve, tc) { (true, true) => "preserve, title", (true, false) => "preserve", (false, true) => "title", _ => "lower" });
}

// ---------------------------------------------------------------- S19: the date header

fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = (if mp < 10 { mp + 3 } else { mp - 9 }) as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn imf(secs: u64) -> Vec<u8> {
    let days = (secs / 86400) as i64;
    let (y, m, d) = civil(days);
    let t = secs % 86400;
    let w = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][(days % 7) as usize];
    let mo = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    let two = |v: &mut Vec<u8>, n: u64| { v.push(b'0' + (n / 10) as u8); v.push(b'0' + (n % 10) as u8); };
    let mut v = w.as_bytes().to_vec();
    v.extend_from_slice(b", ");
    two(&mut v, d as u64);
    v.push(b' ');
    v.extend_from_slice(mo.as_bytes());
    v.push(b' ');
    two(&mut v, y as u64 / 100);
    two(&mut v, y as u64 % 100);
    v.push(b' ');
    two(&mut v, t / 3600);
    v.push(b':');
    two(&mut v, t / 60 % 60);
    v.push(b':');
    two(&mut v, t % 60);
    v.extend_from_slice(b" GMT");
    v
}
/// three requests with time passing in between
#[no_mangle] pub extern "C" fn s19_date() {
    const START: [u64; 6] = [784111777, 1_709_251_198, 951_782_399, 4_102_444_799, 0, 1_700_000_000];
    let start = START[sx::pick(6, "start")];
    let sub = [0u64, 1, 400_000_000, 999_999_999][sx::pick(4, "fraction")];
    crate::clock::set_ns(start * 1_000_000_000 + sub);
    let auto = sx::flag("date header on");
    let own = sx::flag("own date");
    let gaps = [0u64, 600_000_000, 1_000_000_000, 1_000_000_001, 2_500_000_000, 86_400_000_000_000];
    let (io, dev) = io(vec![]);
    let mut b = hyper::server::conn::http1::Builder::new();
    b.auto_date_header(auto);
    let mut s = Srv::new(&b, (io, dev), reading(move |i| { let mut r = numbered(i); if own && i == 1 { r.headers_mut().insert("date", hv(b"mine")); } r }));
    let mut now = vec![];
    for i in 0..3 {
        if i > 0 { let g = gaps[sx::pick(6, "gap")]; crate::clock::set_ns(crate::clock::now_ns() + g); }
        now.push(crate::clock::now_ns());
        s.dev.feed(NEXT);
        s.run();
    }
    let m = s.responses(&["GET", "GET", "GET"]);
    sx::check(m.len() == 3, "not every request is answered");
    for i in 0..3 {
        let d = m[i].get("date");
        if own && i == 1 { sx::check(d == vec![b"mine"], "the service's date header is replaced or repeated"); sx::cover("own"); continue; }
        if !auto { sx::check(d.is_empty(), "date header although it is off"); sx::cover("off"); continue; }
        sx::check(d.len() == 1, "not exactly one date header");
        let n = now[i];
        let s = n / 1_000_000_000;
        sx::check(d[0] == &imf(s)[..] || (n % 1_000_000_000 == 0 && s > 0 && d[0] == &imf(s - 1)[..]), "date header is not the current time");
        sx::cover("automatic");
    }
}

// ---------------------------------------------------------------- S20: response trailers

#[no_mangle] pub extern "C" fn s20_trailers() {
    let tes: [&[&[u8]]; 10] = [&[], &[b"trailers"], &[b"gzip, Trailers"], &[b"gzip"], &[b"xtrailers"], &[b"trailers-x"], &[b"gzip;q=0.5 , trailers"], &[b"trailers", b"gzip"], &[b"gzip", b"trailers"], &[b"gzip", b"trailer"]];
    let ti = sx::pick(10, "te");
    let te = tes[ti];
    let v10 = sx::flag("http/1.0");
    let decl: [&[&[u8]]; 6] = [&[], &[b"x-t"], &[b"x-t, X-u"], &[b"x-t", b"content-length,x-u"], &[b"x-v"], &[b"content-length"]];
    let decl = decl[sx::pick(6, "declared")];
    let trl: [&[(&str, &[u8])]; 6] = [&[("x-t", b"1")], &[("x-t", b"1"), ("x-u", b"2")], &[("x-u", b"1"), ("x-u", b"2"), ("x-t", b"3")], &[("content-length", b"9"), ("x-t", b"1")], &[], &[("content-length", b"3")]];
    let trl = trl[sx::pick(6, "trailers")];
    let data = sx::flag("data before");
    let len = sx::pick(3, "framing: default, content-length, own chunked");
    let req = cat(&[b"GET /a HTTP/1.", if v10 { b"0\r\nConnection: keep-alive" } else { b"1" }, b"\r\nHost: h\r\n", &te.iter().flat_map(|v| cat(&[b"TE: ", v, b"\r\n"])).collect::<Vec<u8>>(), b"\r\n"]);
    let (io, dev) = io(cat(&[&req, NEXT]));
    let mut t = HeaderMap::new();
    for (n, v) in trl { t.append(hn(n.as_bytes()), hv(v)); }
    let mut ops = vec![];
    if data { ops.push(Op::Data(bytes::Bytes::from_static(b"abc"))); }
    ops.push(Op::Trailers(t));
    let mut r = ok(HBody::new(ops));
    for d in decl { r.headers_mut().append("trailer", hv(d)); }
    if len == 1 { r.headers_mut().insert("content-length", hv(if data { b"3" } else { b"0" })); }
    if len == 2 { r.headers_mut().insert("transfer-encoding", hv(b"chunked")); }
    let mut r = Some(r);
    let mut s = Srv::new(&builder(), (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() >= 1 && m[0].complete && m[0].body == if data { &b"abc"[..] } else { b"" }, "response body is not intact");
    let asked = !v10 && [1, 2, 6, 7, 8].contains(&ti);
    let declared: Vec<Vec<u8>> = decl.iter().flat_map(|d| d.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())).collect();
    if !asked || declared.is_empty() || !m[0].chunked { sx::check(m[0].trailers.is_empty(), "trailers sent although not requested, not declared or not possible"); sx::cover("withheld"); }
    else {
        let mut want: Vec<(Vec<u8>, Vec<u8>)> = trl.iter().filter(|(n, _)| declared.iter().any(|d| d == n.as_bytes()) && *n != "content-length").map(|(n, v)| (n.as_bytes().to_vec(), v.to_vec())).collect();
        let mut have = m[0].trailers.clone();
        // the order of different names is free, the order of the values of one name is not
        want.sort_by(|a, b| a.0.cmp(&b.0));
        have.sort_by(|a, b| a.0.cmp(&b.0));
        sx::check(want == have, "trailers differ from the declared ones the service sent");
        sx::cover(if want.is_empty() { "none left" } else { "sent" });
    }
    if !m[0].by_close { sx::check(m.len() == 2 && m[1].body == b"#1", "connection not reused after trailers"); sx::cover("reused"); }
}

/// every kind of field as a trailer, an arbitrary value, and an arbitrary byte somewhere in what asks for or declares it
#[no_mangle] pub extern "C" fn s20_fields() {
    const NO: [&str; 12] = ["authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type", "host", "max-forwards", "set-cookie", "trailer", "transfer-encoding", "te"];
    const YES: [&str; 5] = ["etag", "server-timing", "digest", "x-checksum", "grpc-status"];
    let k = sx::pick(17, "field");
    let (name, fine) = if k < 12 { (NO[k], false) } else { (YES[k - 12], true) };
    let way = sx::pick(5, "how it is declared");
    let up: Vec<u8> = name.bytes().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    let decl: Vec<Vec<u8>> = match way {
        0 => vec![name.as_bytes().to_vec()],
        1 => vec![up],
        2 => vec![cat(&[b"x-z \t,\t ", name.as_bytes(), b" "])],
        3 => vec![b"x-z".to_vec(), name.as_bytes().to_vec()],
        _ => vec![cat(&[name.as_bytes(), b"-x, x-", name.as_bytes()])],
    };
    let v = syms(2, "value byte");
    let Ok(value) = hyper::header::HeaderValue::from_bytes(&v) else { return };
    let mut t = HeaderMap::new();
    t.append(hn(name.as_bytes()), value);
    let mut r = ok(HBody::new(vec![Op::Data(bytes::Bytes::from_static(b"abc")), Op::Trailers(t)]));
    for d in &decl { r.headers_mut().append("trailer", hv(d)); }
    let mut r = Some(r);
    let (io, dev) = io(cat(&[b"GET /a HTTP/1.1\r\nHost: h\r\nTE: trailers\r\n\r\n", NEXT]));
    let mut s = Srv::new(&builder(), (io, dev), reading(move |i| r.take().unwrap_or_else(|| numbered(i))));
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m[0].complete && m[0].body == b"abc" && m[1].body == b"#1", "response or connection is not intact after trailers");
    if !fine || way == 4 { sx::check(m[0].trailers.is_empty(), "a field that is not allowed in trailers, or not declared, was sent as one"); sx::cover("kept out"); return }
    sx::check(m[0].trailers.len() == 1 && m[0].trailers[0].0 == name.as_bytes() && trim(&m[0].trailers[0].1) == trim(&v), "a declared trailer field was lost or changed");
    sx::cover("sent");
}
