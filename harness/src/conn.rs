//! One server connection over its life: pipelining, segmentation, 100-continue, graceful shutdown, premature ends, header timeout.
use crate::{srv::*, sup::*, sx};
use std::cell::Cell;
use std::rc::Rc;
use std::time::Duration;

/// (bytes, method, body)
fn shape(k: usize, i: usize) -> (Vec<u8>, &'static str, Vec<u8>) { let b = [sx::byte("body"), sx::byte("body"), sx::byte("body")]; shape_with(k, i, b) }
fn shape_with(k: usize, i: usize, b: [u8; 3]) -> (Vec<u8>, &'static str, Vec<u8>) {
    let t = [b'/', b'a' + i as u8];
    match k {
        0 => (cat(&[b"GET ", &t, b" HTTP/1.1\r\nHost: h\r\n\r\n"]), "GET", vec![]),
        1 => (cat(&[b"POST ", &t, b" HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\n", &b[..2]]), "POST", b[..2].to_vec()),
        2 => (cat(&[b"PUT ", &t, b" HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n", &b[..1], b"\r\n2;x\r\n", &b[1..], b"\r\n0\r\n\r\n"]), "PUT", b.to_vec()),
        3 => (cat(&[b"HEAD ", &t, b" HTTP/1.1\r\nHost: h\r\n\r\n"]), "HEAD", vec![]),
        _ => (cat(&[b"GET ", &t, b" HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\n\r\n"]), "GET", vec![]),
    }
}
/// mode of the service: 0 read then answer, 1 answer at once (body dropped), 2 read, wait, answer, 3 wait, read, answer, 4 read, answer with a body that waits
fn modal(modes: Vec<usize>, gates: Vec<Gate>) -> Handler {
    Box::new(move |i, _p, b, log| {
        let (m, g) = (modes[i.min(modes.len() - 1)], gates[i.min(gates.len() - 1)].clone());
        Box::pin(async move {
            match m {
                1 => { drop(b); log.borrow_mut()[i].end = End::Dropped; }
                2 => { drain(b, log, i, usize::MAX).await; g.wait().await; }
                3 => { g.wait().await; drain(b, log, i, usize::MAX).await; }
                _ => drain(b, log, i, usize::MAX).await,
            }
            let n = b'0' + i as u8;
            Ok(ok(if m == 4 { HBody::new(vec![Op::Data(vec![b'#'].into()), Op::Wait(g), Op::Data(vec![n].into())]) } else { HBody::full(&[b'#', n]) }))
        })
    })
}
fn pipeline(n: usize, shapes: usize, modes: &[usize], cuts: usize) {
    let mut bytes = vec![];
    let mut sh = vec![];
    let mut md = vec![];
    for i in 0..n { let s = shape(sx::pick(shapes, "request"), i); bytes.extend_from_slice(&s.0); md.push(modes[sx::pick(modes.len(), "service")]); sh.push((s.1, s.2)); }
    let half = sx::flag("half close");
    let mut b = builder();
    b.half_close(half).pipeline_flush(sx::flag("pipeline flush"));
    let gates: Vec<Gate> = (0..n).map(|_| Gate::new()).collect();
    let (io, dev) = io(bytes);
    let len = dev.with(|s| s.rx.len());
    for _ in 0..cuts { let c = sx::pick(len, "cut"); dev.with(|s| { s.cuts.push(c); }); }
    if cuts > 0 { let b = sx::flag("pause at the cut"); dev.with(|s| s.block_cuts = b); }
    // with half close the peer closes its side right after the last byte
    dev.with(|s| s.eof = half);
    let mut s = Srv::new(&b, (io, dev), modal(md.clone(), gates.clone()));
    s.run();
    // the gates open one after the other, from the last to the first or from the first to the last
    let rev = n > 1 && sx::flag("last gate first");
    for i in 0..n { gates[if rev { n - 1 - i } else { i }].open(); s.run(); }
    let eof = s.dev.is_shutdown();
    let methods: Vec<&str> = sh.iter().map(|s| s.0).collect();
    let m = match wire_responses(&s.out(), &methods, eof) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    let r = s.reqs();
    sx::check(r.len() <= n, "more requests than were sent");
    for i in 0..r.len() {
        sx::check(r[i].method == sh[i].0 && r[i].uri.as_bytes() == [b'/', b'a' + i as u8], "requests out of order or mixed up");
        if md[i] != 1 { sx::check(r[i].body == sh[i].1 && r[i].end == End::Eof, "request body is not intact"); }
    }
    sx::check(m.len() == r.len(), "not exactly one response per request");
    for i in 0..m.len() { sx::check(m[i].complete && m[i].status == 200 && (m[i].body == [b'#', b'0' + i as u8] || sh[i].0 == "HEAD" && m[i].body.is_empty()), "response not intact or out of order"); }
    // only an unread request body may end the series early
    let early = (0..r.len()).any(|i| md[i] == 1 && !sh[i].1.is_empty());
    sx::check(r.len() == n || early, "a pipelined request is not served");
    if r.len() == n { sx::cover("all served"); }
    if early { sx::cover("unread body"); }
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    if !early { sx::check(s.is_ok(), "connection ends with an error although everything was answered"); }
    sx::check(s.dev.is_shutdown() && !s.dev.with(|s| s.write_after_shutdown), "transport not shut down properly");
}
#[no_mangle] pub extern "C" fn s05_two() { pipeline(2, 5, &[0, 1, 2, 3, 4], 0) }
#[no_mangle] pub extern "C" fn s05_cut() { pipeline(2, 3, &[0, 1, 4], 1) }
#[no_mangle] pub extern "C" fn s05_three() { pipeline(3, 4, &[0, 1, 2, 4], 0) }
/// more requests in one buffer than the dispatch loop handles in one go
#[no_mangle] pub extern "C" fn s05_many() {
    let n = 15 + sx::pick(20, "requests");
    let k = sx::pick(3, "request");
    let mut bytes = vec![];
    for i in 0..n { bytes.extend_from_slice(&shape(k, i % 20).0); }
    let fl = sx::flag("pipeline flush");
    let cut = sx::pick(4, "cut every");
    let (io, dev) = io(bytes);
    let len = dev.with(|s| s.rx.len());
    if cut > 0 { let c = (1..len / 10).map(|j| j * 10 * cut).collect(); dev.with(|s| { s.cuts = c; s.block_cuts = cut == 2; }); }
    let mut b = builder();
    b.pipeline_flush(fl);
    let mut s = Srv::new(&b, (io, dev), reading(|_| ok(HBody::full(b"x"))));
    s.run();
    let m = s.responses(&vec!["GET"; n]);
    sx::check(m.len() == n && s.nreq() == n && m.iter().all(|m| m.body == b"x"), "not exactly one response per pipelined request");
    sx::cover("many");
}

/// a long pipeline: more than one buffer full of requests
#[no_mangle] pub extern "C" fn s05_long() {
    let n = [130, 300, 450][sx::pick(3, "requests")];
    let k = [0, 1][sx::pick(2, "request")];
    let b = [b'b'; 3];
    let mut bytes = vec![];
    for i in 0..n { bytes.extend_from_slice(&shape_with(k, i % 20, b).0); }
    let (io, dev) = io(bytes);
    let cut = [0usize, 5_000, 8_200][sx::pick(3, "cut every")];
    if cut > 0 { let len = dev.with(|s| s.rx.len()); dev.with(|s| { s.cuts = (1..len / cut + 1).map(|j| j * cut).collect(); }); }
    let mut b = builder();
    b.pipeline_flush(sx::flag("pipeline flush"));
    let t = Tm::new();
    match sx::pick(3, "timer: none, none and no header timeout, with one") { 1 => { b.header_read_timeout(None); } 2 => { b.timer(t.clone()); } _ => {} }
    let mut s = Srv::new(&b, (io, dev), reading(|_| ok(HBody::full(b"x"))));
    s.ex.timers.push(t);
    s.ex.max_polls = 20_000;
    s.run();
    sx::check(s.nreq() == n, "a pipelined request is not served");
    let m = s.responses(&vec!["GET"; n]);
    sx::check(m.len() == n && m.iter().all(|m| m.body == b"x"), "not exactly one response per pipelined request");
    sx::cover("long");
}
/// a response is not held back because a part of the next request has arrived, whatever that part looks like so far
#[no_mangle] pub extern "C" fn s05_partial() {
    let (b0, m0, _) = shape(sx::pick(4, "first request"), 0);
    let (b1, m1, body1) = shape(sx::pick(4, "second request"), 1);
    let n = sx::pick(b1.len(), "bytes of the second request");
    let mut b = builder();
    b.pipeline_flush(sx::flag("pipeline flush"));
    let (io, dev) = io(cat(&[&b0, &b1[..n]]));
    let two = sx::flag("the parts arrive separately");
    let l = b0.len();
    if two { dev.with(|s| { s.cuts.push(l); s.block_cuts = true; }); }
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.run();
    let head = find(&b1, b"\r\n\r\n").unwrap() + 4;
    let m = s.responses(&[m0, m1]);
    sx::check(m.len() >= 1 && m[0].complete && (m0 == "HEAD" || m[0].body == b"#0"), "a response is held back although the next request is incomplete");
    sx::check(s.nreq() == if n >= head { 2 } else { 1 } && m.len() == 1, "harness: an incomplete request was answered");
    s.dev.feed(&b1[n..]);
    s.run();
    let r = s.reqs();
    let m = s.responses(&[m0, m1]);
    sx::check(r.len() == 2 && r[1].body == body1 && m.len() == 2 && m[1].complete && (m1 == "HEAD" || m[1].body == b"#1"), "the second request is not answered");
    sx::cover(if n >= head { "in the body" } else { "in the head" });
}

/// Answers at once while a task of its own reads the body (after the first gate); answer: full, with a pause (second gate) in it, or after a pause.
fn apart(tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>>, kind: usize, rg: Gate, wg: Gate) -> Handler {
    Box::new(move |i, _p, b, log| {
        let (rg, wg) = (rg.clone(), wg.clone());
        let first = i == 0;
        tasks.borrow_mut().push(Box::pin(async move { if first { rg.wait().await; } drain(b, log, i, usize::MAX).await }));
        let n = b'0' + i as u8;
        let early = wg.clone();
        let r = ok(if kind == 1 { HBody::new(vec![Op::Data(vec![b'#'].into()), Op::Wait(wg), Op::Data(vec![n].into())]) } else { HBody::full(&[b'#', n]) });
        Box::pin(async move { if kind == 2 { early.wait().await; } Ok(r) })
    })
}
/// the handler's tasks run beside the connection
fn beside(tasks: &Rc<std::cell::RefCell<Vec<LocalFut<()>>>>) -> impl Fn(&mut Srv) {
    let t2 = tasks.clone();
    move |s: &mut Srv| { for _ in 0..3 { s.run(); let v: Vec<_> = t2.borrow_mut().drain(..).collect(); s.ex.inject.borrow_mut().extend(v); s.run(); } }
}
/// the response is under way before the request body has been read, on a transport that may not take it
#[no_mangle] pub extern "C" fn s05_apart() {
    let first = 1 + sx::pick(3, "first request");
    let (b0, m0, body0) = if first < 3 { shape(first, 0) } else { (b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\nx-t: v\r\n\r\n".to_vec(), "POST", b"xy".to_vec()) };
    let head0 = find(&b0, b"\r\n\r\n").unwrap() + 4;
    let second = sx::pick(5, "then: a request, one with a body, one expecting 100-continue, malformed, end of stream");
    let (b1, m1, body1): (Vec<u8>, &str, Vec<u8>) = match second {
        0 => shape(0, 1),
        1 => shape(1, 1),
        2 => { let b = [sx::byte("body"), sx::byte("body")]; (cat(&[b"POST /b HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\n", &b]), "POST", b.to_vec()) }
        3 => (b"GET /b HTTP/1.1\r\nHo st: h\r\n\r\n".to_vec(), "GET", vec![]),
        _ => (vec![], "", vec![]),
    };
    let have = sx::pick(3, "arrived first: head only, the whole request, both");
    let (io, dev) = io(match have { 0 => b0[..head0].to_vec(), 1 => b0.clone(), _ => cat(&[&b0, &b1]) });
    let stop = [0, 10, 20, 39, 40, 41, usize::MAX][sx::pick(7, "bytes the transport takes at first")];
    let (vectored, fl) = (sx::flag("vectored"), sx::flag("pipeline flush"));
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; });
    let kind = sx::pick(3, "response: full, with a pause, after a pause");
    let tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (rg, wg) = (Gate::new(), Gate::new());
    let late = sx::flag("the body is read later");
    if !late { rg.open(); }
    let mut b = builder();
    b.pipeline_flush(fl);
    // without it, a client that closes its side has given up
    if second == 4 { b.half_close(true); }
    let mut s = Srv::new(&b, (io, dev), apart(tasks.clone(), kind, rg.clone(), wg.clone()));
    let go = beside(&tasks);
    go(&mut s);
    let open_first = sx::flag("the response goes on first");
    if open_first { wg.open(); go(&mut s); }
    rg.open();
    go(&mut s);
    if have == 0 { s.dev.feed(&b0[head0..]); go(&mut s); }
    if !open_first { wg.open(); go(&mut s); }
    if have < 2 { s.dev.feed(&b1); }
    if second == 4 { s.dev.set_eof(); }
    go(&mut s);
    s.dev.raise_wstop(usize::MAX);
    go(&mut s);
    let methods = [m0, if second == 3 { "GET" } else { m1 }];
    let all = match wire_responses(&s.out(), &methods, s.dev.is_shutdown()) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    let interim = all.iter().filter(|m| m.status == 100).count();
    let m: Vec<_> = all.into_iter().filter(|m| m.status != 100).collect();
    let r = s.reqs();
    sx::check(r.len() >= 1 && r[0].body == body0 && r[0].end == End::Eof, "the body of the first request is not intact");
    if first == 3 { sx::check(r[0].trailers == Some(vec![("x-t".to_string(), b"v".to_vec())]), "the trailers of the first request are not intact"); }
    sx::check(m.len() >= 1 && m[0].complete && m[0].status == 200 && m[0].body == b"#0", "the first response is not intact");
    match second {
        3 => { sx::check(r.len() == 1 && m.len() == 2 && m[1].status == 400 && s.is_err(), "a malformed second request is not refused"); sx::cover("malformed"); }
        4 => { sx::check(r.len() == 1 && m.len() == 1 && s.is_ok(), "the connection does not end after its last response"); sx::cover("end"); }
        _ => {
            sx::check(r.len() == 2 && r[1].body == body1 && r[1].end == End::Eof, "the body of the second request is not intact");
            sx::check(m.len() == 2 && m[1].complete && m[1].body == b"#1", "the second response is not intact");
            sx::check(interim <= (second == 2) as usize, "a 100 response nobody asked for");
            sx::cover("served");
        }
    }
}

// ---------------------------------------------------------------- S03: how the bytes are cut does not matter

const STREAMS: [&[u8]; 7] = [
    b"POST /a?b=1 HTTP/1.1\r\nHost: h\r\nX-A: one\r\nTransfer-Encoding: chunked\r\n\r\n3;e=1\r\nabc\r\n1\r\nd\r\n0\r\nx-t: v\r\n\r\nGET /n HTTP/1.1\r\nHost: h\r\n\r\n",
    b"POST /a?b=1 HTTP/1.1\r\nHost: h\r\nX-A: one\r\nContent-Length: 4\r\n\r\nabcdGET /n HTTP/1.1\r\nHost: h\r\n\r\n",
    b"\r\n\r\nGET /a?b=1 HTTP/1.1\r\nX-A: one\r\nHost: h\r\n\r\n\r\nGET /n HTTP/1.1\r\nHost: h\r\n\r\n",
    b"GET /a?b=1 HTTP/1.0\r\nConnection: keep-alive\r\nX-A: one\r\n\r\nGET /n HTTP/1.1\r\nHost: h\r\n\r\n",
    b"GET /a?b=1 HTTP/1.1\nHost: h\nX-A: one\n\nGET /n HTTP/1.1\nHost: h\n\n",
    b"GET /a?b=1 HTTP/1.1\r\nHost: h\r\nX-A: one\n\r\nGET /n HTTP/1.1\r\nHost: h\n\r\n",
    b"\n\r\nGET /a?b=1 HTTP/1.1\nHost: h\r\nX-A: one\r\n\nGET /n HTTP/1.1\nHost: h\r\n\n",
];
fn segmented(cuts: usize, st: usize, tie: bool) {
    let k = sx::pick(st, "stream");
    let st = STREAMS[k];
    let (io, dev) = io(st.to_vec());
    let mut lo = 0;
    for _ in 0..cuts { if lo + 1 >= st.len() { break; } let c = lo + 1 + sx::pick(st.len() - lo - 1, "cut"); dev.with(|s| s.cuts.push(c)); lo = c; }
    let p = sx::flag("pause at the cuts");
    dev.with(|s| s.block_cuts = p);
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    let r = s.reqs();
    sx::check(r.len() == 2, "the two requests are not both served");
    let body: &[u8] = [&b"abcd"[..], b"abcd", b"", b"", b"", b"", b""][k];
    sx::check(r[0].uri == "/a?b=1" && r[0].get("x-a") == vec![b"one"] && r[0].body == body && r[0].end == End::Eof, "first request depends on how it was cut");
    sx::check(r[0].trailers.is_some() == (k == 0), "trailers depend on how the bytes were cut");
    sx::check(r[1].uri == "/n" && r[1].body.is_empty() && r[1].headers.len() == 1, "second request depends on how it was cut");
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m[0].body == b"#0" && m[1].body == b"#1", "responses depend on how the requests were cut");
    sx::cover(["chunked", "length", "leading empty lines", "1.0", "bare line feeds", "mixed line ends", "mixed line ends"][k]);
    let _ = tie;
}
#[no_mangle] pub extern "C" fn s03_one() { segmented(1, 7, false) }
#[no_mangle] pub extern "C" fn s03_two() { segmented(2, 7, false) }
#[no_mangle] pub extern "C" fn s03_three() { segmented(3, 3, false) }
/// every byte alone, or groups of n bytes
#[no_mangle] pub extern "C" fn s03_drip() {
    let k = sx::pick(7, "stream");
    let n = 1 + sx::pick(9, "group");
    let st = STREAMS[k];
    let (io, dev) = io(st.to_vec());
    let p = sx::flag("pause at the cuts");
    dev.with(|s| { s.cuts = (1..st.len()).filter(|i| i % n == 0).collect(); s.block_cuts = p; });
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    let r = s.reqs();
    let body: &[u8] = [&b"abcd"[..], b"abcd", b"", b"", b"", b"", b""][k];
    sx::check(r.len() == 2 && r[0].uri == "/a?b=1" && r[0].get("x-a") == vec![b"one"] && r[0].body == body && r[0].end == End::Eof && r[1].uri == "/n", "requests depend on how they were cut");
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m[0].body == b"#0" && m[1].body == b"#1", "responses depend on how the requests were cut");
    sx::cover("drip");
}
/// an erroneous head is refused the same way wherever it is cut
#[no_mangle] pub extern "C" fn s03_bad() {
    let bad: [&[u8]; 6] = [b"GET /a HTTP/1.1\r\nHo st: h\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nContent-Length: 1x\r\n\r\n", b"GET /a HTTP/2.1\r\nHost: h\r\n\r\n", b"GET  /a HTTP/1.1\r\n\r\n", b"GET /a HTTP/1.1\r\n: v\r\n\r\n", b"GET /a HTTP/1.1\r\nA: v\x01\r\n\r\n"];
    let st = bad[sx::pick(6, "head")];
    let c = 1 + sx::pick(st.len() - 1, "cut");
    let (io, dev) = io(cat(&[st, b"GET /n HTTP/1.1\r\n\r\n"]));
    let p = sx::flag("pause at the cut");
    dev.with(|s| { s.cuts = vec![c]; s.block_cuts = p; });
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    sx::check(s.nreq() == 0, "a malformed head reached the service");
    let m = s.responses(&[]);
    sx::check(m.len() == 1 && m[0].status == 400 && m[0].complete && m[0].close(), "a malformed head is not answered with one 400 and connection: close");
    sx::check(s.done() && s.err(|e| e.is_parse()) == Some(true) && s.dev.is_shutdown(), "connection not ended with a parse error");
    sx::cover("refused");
}

// ---------------------------------------------------------------- S10: expect: 100-continue

#[no_mangle] pub extern "C" fn s10_expect() {
    let ex: [(&[u8], bool); 5] = [(b"", false), (b"Expect: 100-continue\r\n", true), (b"eXPECT: 100-Continue\r\n", true), (b"Expect: something\r\n", false), (b"Expect: 100-continue\r\nX: y\r\n", true)];
    let (ex, want) = ex[sx::pick(5, "expect")];
    let v10 = sx::flag("http/1.0");
    let fr = sx::pick(4, "framing: length, chunked, empty, none");
    let head = cat(&[b"POST /a HTTP/1.", if v10 { b"0\r\nConnection: keep-alive" } else { b"1" }, b"\r\nHost: h\r\n", ex, [&b"Content-Length: 3\r\n"[..], b"Transfer-Encoding: chunked\r\n", b"Content-Length: 0\r\n", b""][fr], b"\r\n"]);
    if v10 && fr == 1 { return; }
    let body: &[u8] = [&b"abc"[..], b"3\r\nabc\r\n0\r\n\r\n", b"", b""][fr];
    // the client: 0 waits for 100, 1 sends at once, 2 sends after a while whatever happens, 3 sends only a part at once
    let client = sx::pick(4, "client");
    // the service: 0 reads then answers, 1 answers without reading, 2 waits then reads, 3 keeps the body unread until after its answer is produced, 4 waits then answers without reading, 5 gives the body up at once but answers later
    let svc = sx::pick(6, "service");
    let next = b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n";
    let part = body.len().min(2);
    let first = match client { 1 => cat(&[&head, body, next]), 3 => cat(&[&head, &body[..part]]), _ => head.clone() };
    let (io, dev) = io(first);
    if client == 1 && sx::flag("pause after the head") { let n = head.len(); dev.with(|s| { s.cuts.push(n); s.block_cuts = true; }); }
    let g = Gate::new();
    let g2 = g.clone();
    let mut s = Srv::new(&builder(), (io, dev), Box::new(move |i, p, b, log| {
        let g = g2.clone();
        let k = if p.uri.path() == "/a" { svc } else { 0 };
        Box::pin(async move {
            match k {
                0 => drain(b, log, i, usize::MAX).await,
                1 => drop(b),
                2 => { g.wait().await; drain(b, log, i, usize::MAX).await; }
                4 => { g.wait().await; drop(b); }
                5 => { drop(b); g.wait().await; }
                _ => { let _keep = b; g.wait().await; return Ok(numbered(i)); }
            }
            Ok(numbered(i))
        })
    }));
    s.run();
    let cont = b"HTTP/1.1 100 Continue\r\n\r\n";
    let early = s.out();
    // before the service asks for the body, nothing is written
    if svc >= 2 { sx::check(early.is_empty(), "something was written before the service read the body"); }
    let expects = want && !v10 && fr < 2;
    if svc == 0 && expects && client != 1 { sx::check(early == cont, "100 Continue not sent although the service waits for the body"); sx::cover("sent"); }
    if !expects { sx::check(find(&early, cont).is_none(), "100 Continue without being asked for"); sx::cover("not asked"); }
    let rest = match client { 1 => vec![], 3 => cat(&[&body[part..], next]), _ => cat(&[body, next]) };
    match client {
        0 => if starts(&s.out(), cont) || !expects { s.dev.feed(&rest); s.run(); },
        2 => { if svc < 2 || sx::flag("before the service asks") { s.dev.feed(&rest); s.run(); } else { g.open(); s.run(); s.dev.feed(&rest); s.run(); } }
        3 => { s.dev.feed(&rest); s.run(); }
        _ => {}
    }
    g.open();
    s.run();
    if client == 0 && svc >= 2 && expects && starts(&s.out(), cont) { s.dev.feed(&rest); s.run(); }
    if client == 0 && svc == 2 && expects { sx::check(starts(&s.out(), cont), "100 Continue not sent although the service waits for the body"); sx::cover("sent later"); }
    let out = s.out();
    let m = match wire_responses(&out, &["POST", "GET"], s.dev.is_shutdown()) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    let conts = m.iter().filter(|m| m.status == 100).count();
    sx::check(conts <= 1 && (conts == 0 || expects && m[0].status == 100), "100 Continue repeated, unasked or after the final response");
    if svc == 1 || svc >= 3 { sx::check(conts == 0, "100 Continue although the service never reads the body"); }
    let fin: Vec<&WireMsg> = m.iter().filter(|m| m.status != 100).collect();
    sx::check(!fin.is_empty() && fin[0].status == 200 && fin[0].body == b"#0", "no final response");
    let r = s.reqs();
    if svc == 0 || svc == 2 { sx::check(r[0].body == if fr < 2 { &b"abc"[..] } else { b"" } && r[0].end == End::Eof, "request body is not intact"); }
    for q in r.iter().skip(1) { sx::check(q.uri == "/b", "body bytes taken as a request"); }
    sx::check(fin.len() == r.len(), "not one final response per request");
    if svc == 0 || svc == 2 || fr >= 2 { sx::check(r.len() == 2, "connection not reused"); sx::cover("reused"); }
    if expects && (svc == 1 || svc >= 3) && client == 0 { sx::check(s.dev.is_shutdown(), "connection stays open although the body may or may not follow"); sx::cover("closed without continue"); }
}

// ---------------------------------------------------------------- S12: graceful shutdown

/// the shutdown is asked for at every point of an exchange
fn graceful(n: usize) {
    let k = sx::pick(3, "request");
    let (bytes, method, body) = shape(k, 0);
    let len = bytes.len();
    // events of the exchange: up to where the request arrives, whether the gate of the service is open, whether writing is blocked
    let point = sx::pick(8, "when");
    let second = sx::pick(4, "second request: none, with the first, later, a part with the first");
    let slow = sx::flag("response body waits");
    let (io, dev) = io(vec![]);
    let g = Gate::new();
    let mut s = Srv::new(&builder(), (io, dev), modal(vec![if slow { 4 } else { 2 }, 0, 0], vec![g.clone(), Gate::new(), Gate::new()]));
    let nx = shape(0, 1).0;
    let np = if second == 3 { [1, 8, nx.len() - 1][sx::pick(3, "part")] } else if second == 1 { nx.len() } else { 0 };
    let mut told = false;
    let partial = if point == 1 || point == 2 { 1 + sx::pick(len - 1, "bytes so far") } else { 0 };
    s.run();
    // 0: before any byte. 1: part of the request has arrived. 2: part has arrived, the wake-up coincides with the rest
    if point == 0 { s.graceful(); told = true; s.run(); }
    if point == 0 {
        sx::check(s.done() && s.is_ok() && s.out().is_empty() && s.dev.is_shutdown(), "an unused connection is not closed by graceful shutdown");
        sx::cover("unused");
        return;
    }
    if partial > 0 {
        s.dev.feed(&bytes[..partial]);
        s.run();
        s.graceful();
        told = true;
        if point == 1 { s.run(); }
        if !s.done() { s.dev.feed(&bytes[partial..]); s.dev.feed(&nx[..np]); s.run(); }
    } else {
        s.dev.feed(&bytes);
        s.dev.feed(&nx[..np]);
        if point == 3 { s.graceful(); told = true; }
        if point == 7 { s.dev.with(|d| d.wstop = 10); }
        s.run();
    }
    if point == 4 { s.graceful(); told = true; s.run(); }
    g.open();
    if point == 5 { s.graceful(); told = true; }
    s.run();
    if point == 7 { s.graceful(); told = true; s.run(); sx::check(s.out().len() <= 10, "written past the transport's limit"); s.dev.raise_wstop(usize::MAX); s.run(); }
    let before = s.nreq();
    if point == 6 { s.graceful(); told = true; s.run(); }
    let done_at = s.done();
    if second >= 2 && !s.done() { s.dev.feed(&nx[np..]); s.run(); }
    let r = s.reqs();
    let m = s.responses(&[method, "GET", "GET"]);
    sx::check(told, "harness: not told");
    sx::check(s.done() && s.dev.is_shutdown(), "graceful shutdown does not finish although every exchange is over");
    if s.out().is_empty() {
        // the request had not been completely received
        sx::check((partial > 0 || point == 3) && r.is_empty(), "an exchange in progress was cut off");
        sx::cover("nothing in progress");
        return;
    }
    sx::check(s.is_ok(), "graceful shutdown ends with an error");
    sx::check(m.len() == r.len() && r.len() >= 1, "a request taken on is not answered");
    for i in 0..m.len() { sx::check(m[i].complete && m[i].body == [b'#', b'0' + i as u8], "an exchange in progress was cut off"); }
    sx::check(r[0].body == body && r[0].end == End::Eof, "request body cut off");
    if point == 6 { sx::check(r.len() == before, "a request was taken on after the shutdown"); sx::cover("idle"); }
    else {
        sx::check(r.len() == 1 || point == 5 || point == 7, "a request was taken on after the shutdown");
        // the head of the response is written after the request to shut down
        if point < 5 && !(slow && point == 4) { sx::check(m[0].close(), "the client is not told that the connection closes"); sx::cover("told"); }
    }
    sx::cover(["", "partial", "partial, together", "with the request", "service busy", "response starts", "after the response", "write blocked"][point]);
    let _ = (done_at, n);
}
#[no_mangle] pub extern "C" fn s12_graceful() { graceful(1) }

// ---------------------------------------------------------------- S14: premature ends

/// the peer ends (closes or resets) after any byte of two requests
#[no_mangle] pub extern "C" fn s14_cut() {
    let k = sx::pick(5, "request");
    let (b0, method, body) = shape(k, 0);
    let (b1, _, _) = shape(0, 1);
    let all = cat(&[&b0, &b1]);
    let at = sx::pick(all.len() + 1, "bytes before the end");
    let reset = sx::flag("reset");
    let half = sx::flag("half close");
    let later = sx::flag("the end comes later");
    let pf = later && sx::flag("pipeline flush");
    let (io, dev) = io(all[..at].to_vec());
    if !later { dev.with(|s| { if reset { s.rerr = true } else { s.eof = true } }); }
    let mut b = builder();
    b.half_close(half).pipeline_flush(pf);
    let mut s = Srv::new(&b, (io, dev), reading(numbered));
    s.run();
    if later { if reset { s.dev.set_rerr() } else { s.dev.set_eof() } s.run(); }
    sx::check(s.done(), "connection does not finish although the peer is gone");
    let r = s.reqs();
    let h = find(&b0, b"\r\n\r\n").unwrap() + 4;
    // what of the requests is complete
    let whole = if at >= all.len() { 2 } else if at >= b0.len() { 1 } else { 0 };
    let heads = if at >= all.len() { 2 } else if at >= h { 1 } else { 0 };
    sx::check(r.len() <= heads, "a request was served whose head is incomplete");
    for (i, q) in r.iter().enumerate() {
        if i < whole { if later { sx::check(q.end == End::Eof && q.body == if i == 0 { &body[..] } else { b"" }, "a complete request was not delivered completely"); } else { sx::check(q.end != End::Eof || q.body == if i == 0 { &body[..] } else { b"" }, "a body was delivered incompletely as if complete"); } }
        else { sx::check(q.end == End::Err && starts(&body, &q.body), "a request body that is cut off ends as if complete"); sx::cover("body cut off"); }
    }
    if later { sx::check(r.len() == heads, "a complete request head was not served"); }
    let m = match wire_responses(&s.out(), &[method, "GET"], true) { Ok(v) => v, Err(_) => { sx::check(!later, "malformed response stream"); return; } };
    if later { sx::check(m.iter().filter(|m| m.status == 200).count() >= whole, "a complete request was not answered"); }
    if !later && half && !reset { sx::check(r.len() == heads && m.iter().filter(|m| m.status == 200).count() >= whole, "half-close: a complete request was not answered"); sx::cover("half-closed"); }
    // the outcome of the connection
    if reset && later && at > 0 && at < h { sx::check(s.is_err(), "a head cut off by a reset is not reported"); sx::cover("head reset"); }
    else if !reset && later && at > 0 && at < h { sx::check(s.err(|e| e.is_incomplete_message()) == Some(true), "a head cut off is not reported as an incomplete message"); sx::cover("head cut off"); }
    else if later && (at == 0 || at == all.len() || at == b0.len()) { sx::check(s.is_ok(), "a clean end between requests is reported as an error"); sx::cover("clean end"); }
}

/// the application drops the connection while a body is read elsewhere
#[no_mangle] pub extern "C" fn s14_dropped() {
    let k = 1 + sx::pick(2, "request");
    let (b0, method, body) = shape(k, 0);
    let at = 1 + sx::pick(b0.len(), "bytes before the end");
    let first = sx::flag("answers first");
    let fail = sx::flag("the service fails");
    let g = Gate::new();
    let early = sx::flag("read before the drop");
    if early { g.open(); }
    let slot: Rc<std::cell::RefCell<Option<(hyper::body::Incoming, Log, usize)>>> = Default::default();
    let s2 = slot.clone();
    let (io, dev) = io(vec![]);
    let mut s = Srv::new(&builder(), (io, dev), Box::new(move |i, _p, b, log| {
        *s2.borrow_mut() = Some((b, log, i));
        Box::pin(async move { if !first { std::future::pending::<()>().await } if fail { Err(berr()) } else { Ok(numbered(i)) } })
    }));
    let two = sx::flag("in two parts");
    if two { let c = sx::pick(at, "cut"); s.dev.feed(&b0[..c]); s.run(); s.dev.feed(&b0[c..at]); } else { s.dev.feed(&b0[..at]); }
    s.run();
    let got = slot.borrow_mut().take();
    let h = find(&b0, b"\r\n\r\n").unwrap() + 4;
    sx::check(got.is_some() == (at >= h), "a complete request head is not served, or an incomplete one is");
    let Some((b, log, i)) = got else { let t = s.task; s.ex.kill(t); s.run(); sx::check(s.dev.with(|d| d.dropped), "a dropped connection keeps its transport"); return };
    let g2 = g.clone();
    s.ex.spawn(async move { g2.wait().await; drain(b, log, i, usize::MAX).await });
    s.run();
    let t = s.task;
    s.ex.kill(t);
    s.run();
    g.open();
    s.run();
    let q = &s.reqs()[0];
    sx::check(q.end != End::Open, "a reader waits although its connection is gone");
    sx::check(starts(&body, &q.body), "body bytes that were not sent");
    if q.end == End::Eof { sx::check(at == b0.len() && q.body == body, "a request body that is cut off ends as if complete"); sx::cover("complete"); }
    else { sx::cover("body cut off"); }
    if early && at == b0.len() && !(first && fail) { sx::check(q.end == End::Eof, "a complete request was not delivered completely"); }
    if !(first && fail) { sx::check(s.out().is_empty() != first || !first, "no answer"); }
    let _ = method;
}

// ---------------------------------------------------------------- S16: header read timeout

/// time passes in steps; the head of each request arrives in two parts
#[no_mangle] pub extern "C" fn s16_timeout() {
    let mode = sx::pick(3, "configuration: default, 5 s, off");
    let limit_ms: Option<u64> = [Some(30_000), Some(5_000), None][mode];
    let t = Tm::new();
    let mut b = builder();
    b.timer(t.clone());
    match mode { 1 => { b.header_read_timeout(Duration::from_secs(5)); } 2 => { b.header_read_timeout(None); } _ => {} }
    let (io, dev) = io(vec![]);
    let g = Gate::new();
    let mut s = Srv::new(&b, (io, dev), modal(vec![2, 0], vec![g.clone(), Gate::new()]));
    s.ex.timers.push(t.clone());
    let lim = limit_ms.unwrap_or(30_000);
    let steps: [u64; 5] = [0, lim / 2, lim - 1, lim, lim * 2];
    let k = sx::pick(2, "request");
    let (req, _, body) = shape(k, 0);
    let head = find(&req, b"\r\n\r\n").unwrap() + 4;
    s.run();
    let mut spent = 0;
    let mut dead = false;
    let pass = |s: &mut Srv, ms: u64| { t.advance_ms(ms); s.run(); };
    // first head: d1 before anything, d2 between its parts
    let d1 = steps[sx::pick(5, "before the first byte")];
    pass(&mut s, d1);
    spent += d1;
    if limit_ms.map_or(false, |l| spent >= l) { dead = true; }
    if !dead {
        let at = [1, head - 1][sx::pick(2, "first part")];
        s.dev.feed(&req[..at]);
        s.run();
        let d2 = steps[sx::pick(5, "within the head")];
        pass(&mut s, d2);
        spent += d2;
        if limit_ms.map_or(false, |l| spent >= l) { dead = true; }
        if !dead { s.dev.feed(&req[at..]); s.run(); }
    }
    let finish_dead = |s: &mut Srv, n: usize| {
        sx::check(s.done() && s.err(|e| e.is_timeout()) == Some(true), "header read timeout does not end the connection");
        sx::check(s.nreq() == n, "a request was served after the header read timeout");
        sx::cover("timed out");
    };
    if dead { finish_dead(&mut s, 0); sx::check(s.out().is_empty(), "something was written after the header read timeout"); return; }
    sx::check(s.nreq() == 1 && !s.done(), "a request in time is not served");
    // the service takes its time: no header timeout applies
    let d3 = steps[sx::pick(5, "service")];
    pass(&mut s, d3);
    sx::check(!s.done() && s.nreq() == 1, "the header timeout hits a request being served");
    g.open();
    s.run();
    let m = s.responses(&["GET"]);
    sx::check(m.len() == 1 && m[0].body == b"#0" && !s.done() && s.reqs()[0].body == body, "a request in time is not answered");
    // the next head: the time counts from when hyper begins to wait for it
    let d4 = steps[sx::pick(5, "idle")];
    pass(&mut s, d4);
    let mut spent = d4;
    if limit_ms.map_or(false, |l| spent >= l) { finish_dead(&mut s, 1); sx::cover("timed out idle"); return; }
    let (req2, _, _) = shape(0, 1);
    s.dev.feed(&req2[..5]);
    s.run();
    let d5 = steps[sx::pick(5, "within the second head")];
    pass(&mut s, d5);
    spent += d5;
    if limit_ms.map_or(false, |l| spent >= l) { finish_dead(&mut s, 1); sx::cover("timed out in the second head"); return; }
    s.dev.feed(&req2[5..]);
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(s.nreq() == 2 && m.len() == 2 && m[1].body == b"#1" && !s.done(), "a second request in time is not served");
    sx::cover("two in time");
    if mode == 2 { sx::cover("off"); }
}

// ---------------------------------------------------------------- the request body is read beside the response

/// a service that answers before it has the body never asks for it any more with 100, but still gets it when it comes
#[no_mangle] pub extern "C" fn s10_apart() {
    let chunked = sx::flag("chunked");
    let b = [sx::byte("body"), sx::byte("body")];
    let head: &[u8] = if chunked { b"POST /a HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"POST /a HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\n" };
    let body = if chunked { cat(&[b"2\r\n", &b, b"\r\n0\r\n\r\n"]) } else { b.to_vec() };
    let kind = sx::pick(3, "response: full, with a pause, after a pause");
    let when = sx::pick(3, "the body is asked for: at once, while the response is sent, after it");
    let at = sx::pick(3, "the client sends the body: at once, when told, in the end");
    let stop = [0, 10, usize::MAX][sx::pick(3, "bytes the transport takes at first")];
    let (io, dev) = io(if at == 0 { cat(&[head, &body]) } else { head.to_vec() });
    let vectored = sx::flag("vectored");
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; });
    let tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (rg, wg) = (Gate::new(), Gate::new());
    let mut s = Srv::new(&builder(), (io, dev), apart(tasks.clone(), kind, rg.clone(), wg.clone()));
    let go = beside(&tasks);
    if when == 0 { rg.open(); }
    go(&mut s);
    if when == 1 { rg.open(); go(&mut s); }
    wg.open();
    go(&mut s);
    s.dev.raise_wstop(usize::MAX);
    go(&mut s);
    if when == 2 { rg.open(); go(&mut s); }
    let told = starts(&s.out(), b"HTTP/1.1 100 Continue\r\n\r\n");
    if at == 2 || at == 1 && told { s.dev.feed(&body); go(&mut s); }
    let m = s.responses(&["POST"]);
    let k = m.iter().position(|m| m.status == 200);
    sx::check(k.is_some() && m.len() == k.unwrap() + 1 && k.unwrap() <= 1 && m[..k.unwrap()].iter().all(|m| m.status == 100), "a 100 response after the final one, or more than one");
    let f = &m[k.unwrap()];
    sx::check(f.complete && f.body == b"#0", "the response is not intact");
    sx::check(s.nreq() == 1, "harness: another request");
    if at == 0 || at == 2 || told { let r = s.reqs(); sx::check(r[0].body == b && r[0].end == End::Eof, "the body is not delivered"); sx::cover("delivered"); }
    else { sx::check(s.reqs()[0].end == End::Open && s.reqs()[0].body.is_empty(), "a body was made up"); sx::cover("never asked"); }
}
/// the client goes away while the request body is read beside a response that may be complete already
#[no_mangle] pub extern "C" fn s14_apart() {
    let first = 1 + sx::pick(2, "request");
    let (b0, m0, body0) = shape(first, 0);
    let head0 = find(&b0, b"\r\n\r\n").unwrap() + 4;
    let at = head0 + sx::pick(b0.len() - head0 + 1, "bytes before the end");
    let kind = sx::pick(3, "response: full, with a pause, after a pause");
    let stop = [10, usize::MAX][sx::pick(2, "bytes the transport takes at first")];
    let (io, dev) = io(b0[..at].to_vec());
    let vectored = sx::flag("vectored");
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; });
    let tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (rg, wg) = (Gate::new(), Gate::new());
    let mut b = builder();
    b.half_close(sx::flag("half close"));
    let mut s = Srv::new(&b, (io, dev), apart(tasks.clone(), kind, rg.clone(), wg.clone()));
    let go = beside(&tasks);
    let late = sx::flag("the body is read after the end");
    if !late { rg.open(); }
    go(&mut s);
    let done = sx::flag("the response is complete");
    if done { wg.open(); go(&mut s); }
    if sx::flag("reset") { s.dev.set_rerr(); } else { s.dev.set_eof(); }
    go(&mut s);
    rg.open();
    go(&mut s);
    s.dev.raise_wstop(usize::MAX);
    wg.open();
    go(&mut s);
    sx::check(s.done(), "the connection does not finish although the client is gone");
    let r = s.reqs();
    if at < b0.len() { sx::check(r[0].end == End::Err && starts(&body0, &r[0].body), "a body cut off while the response was sent ends as if complete"); sx::cover("cut off"); }
    else { if !late { sx::check(r[0].end == End::Eof && r[0].body == body0, "a complete body is not delivered"); } else { sx::check(r[0].end == End::Err || r[0].body == body0 && r[0].end == End::Eof, "a body is delivered incompletely as if complete"); } sx::cover("complete"); }
    // whatever was sent reads as a response or a part of one
    let w = s.out();
    if done && stop == usize::MAX { let m = s.responses(&[m0]); sx::check(m.len() == 1 && m[0].complete && m[0].body == b"#0", "a response that was complete is not intact"); }
    else { sx::check(starts(&w, b"HTTP/1.1 200 OK\r\n") || starts(b"HTTP/1.1 200 OK\r\n", &w), "something else is written"); }
}
/// graceful shutdown while the request body is read beside the response
#[no_mangle] pub extern "C" fn s12_apart() {
    let first = 1 + sx::pick(2, "request");
    let (b0, m0, body0) = shape(first, 0);
    let head0 = find(&b0, b"\r\n\r\n").unwrap() + 4;
    let at = head0 + sx::pick(b0.len() - head0 + 1, "bytes before the shutdown");
    let kind = sx::pick(3, "response: full, with a pause, after a pause");
    let stop = [10, usize::MAX][sx::pick(2, "bytes the transport takes at first")];
    let (io, dev) = io(b0[..at].to_vec());
    let vectored = sx::flag("vectored");
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; });
    let tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (rg, wg) = (Gate::new(), Gate::new());
    let mut s = Srv::new(&builder(), (io, dev), apart(tasks.clone(), kind, rg.clone(), wg.clone()));
    let go = beside(&tasks);
    let late = sx::flag("the body is read later");
    if !late { rg.open(); }
    go(&mut s);
    let done = sx::flag("the response is complete");
    if done { wg.open(); go(&mut s); }
    s.graceful();
    go(&mut s);
    rg.open();
    go(&mut s);
    s.dev.feed(&b0[at..]);
    if sx::flag("another request follows") { s.dev.feed(&shape(0, 1).0); }
    go(&mut s);
    wg.open();
    s.dev.raise_wstop(usize::MAX);
    go(&mut s);
    sx::check(s.done() && s.is_ok() && s.dev.is_shutdown(), "graceful shutdown does not end the connection in order");
    let r = s.reqs();
    sx::check(r.len() == 1, "a request was taken on after the shutdown");
    let m = s.responses(&[m0]);
    sx::check(m.len() == 1 && m[0].complete && m[0].body == b"#0", "the response in progress is not intact");
    sx::check(r[0].end == End::Eof && r[0].body == body0, "the request body in progress was cut off");
    if kind == 2 && !done { sx::check(m[0].close(), "the client is not told that the connection closes"); sx::cover("told"); }
    sx::cover(if at < b0.len() { "body in progress" } else { "body complete" });
}
/// no time limit applies while the body of a request already answered is still to come; it does from then on
#[no_mangle] pub extern "C" fn s16_apart() {
    let t = Tm::new();
    let mut b = builder();
    b.timer(t.clone()).header_read_timeout(Duration::from_secs(5));
    let first = 1 + sx::pick(2, "request");
    let (b0, _, body0) = shape(first, 0);
    let head0 = find(&b0, b"\r\n\r\n").unwrap() + 4;
    let (io, dev) = io(b0[..head0].to_vec());
    let (vectored, slow) = (sx::flag("vectored"), sx::flag("the transport takes nothing at first"));
    dev.with(|s| { s.vectored = vectored; if slow { s.wstop = 0; } });
    let tasks: Rc<std::cell::RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (rg, wg) = (Gate::new(), Gate::new());
    rg.open();
    wg.open();
    let mut s = Srv::new(&b, (io, dev), apart(tasks.clone(), 0, rg, wg));
    s.ex.timers.push(t.clone());
    let go = beside(&tasks);
    let pass = |s: &mut Srv, ms: u64| { t.advance_ms(ms); go(s); };
    go(&mut s);
    pass(&mut s, 20_000);
    sx::check(!s.done(), "the header timeout hits a body that is slow to come");
    s.dev.feed(&b0[head0..]);
    go(&mut s);
    sx::check(s.reqs()[0].end == End::Eof && s.reqs()[0].body == body0, "the request body is not intact");
    if slow { s.dev.raise_wstop(usize::MAX); go(&mut s); }
    let m = s.responses(&["POST"]);
    sx::check(m.len() == 1 && m[0].complete, "the response is not sent");
    let d = [0, 4_999, 5_000][sx::pick(3, "idle")];
    pass(&mut s, d);
    let nx = shape(0, 1).0;
    if d >= 5_000 { sx::check(s.done() && s.err(|e| e.is_timeout()) == Some(true), "an idle connection is not closed by the header timeout"); sx::cover("timed out"); return; }
    sx::check(!s.done(), "the header timeout comes too early");
    let part = sx::flag("a part of the next head is late");
    s.dev.feed(&nx[..if part { 9 } else { nx.len() }]);
    go(&mut s);
    if part {
        pass(&mut s, 5_000 - d);
        sx::check(s.done() && s.err(|e| e.is_timeout()) == Some(true), "a slow second head is not hit by the timeout");
        sx::cover("timed out in the head");
    } else { sx::check(s.nreq() == 2 && !s.done(), "a second request in time is not served"); sx::cover("in time"); }
}

// ---------------------------------------------------------------- the response body is the request body

/// (bytes, method, body, length known); the last asks for trailers
fn echo_shape(k: usize, b: &[u8]) -> (Vec<u8>, &'static str, Vec<u8>) {
    match k {
        0 => (cat(&[b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n", b]), "POST", b.to_vec()),
        1 => (cat(&[b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n", &b[..1], b"\r\n2\r\n", &b[1..], b"\r\n0\r\n\r\n"]), "POST", b.to_vec()),
        2 => (cat(&[b"POST /a HTTP/1.1\r\nHost: h\r\nTE: trailers\r\nTransfer-Encoding: chunked\r\n\r\n3\r\n", b, b"\r\n0\r\nx-t: v\r\n\r\n"]), "POST", b.to_vec()),
        3 => (cat(&[b"HEAD /a HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n", b]), "HEAD", vec![]),
        _ => (b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(), "GET", vec![]),
    }
}
fn echoing() -> Handler {
    Box::new(|_, p, b, _| { let te = p.headers.contains_key("te"); Box::pin(async move { let mut r = ok(HBody::new(vec![Op::Echo(b)])); if te { r.headers_mut().insert("trailer", hv(b"x-t")); } Ok(r) }) })
}
fn echo_io(have: Vec<u8>, stops: &[usize]) -> (Io, Dev) {
    let (io, dev) = io(have);
    let stop = stops[sx::pick(stops.len(), "bytes the transport takes at first")];
    let (vectored, slow) = (sx::flag("vectored"), sx::flag("flush pending"));
    dev.with(|s| { s.vectored = vectored; s.wstop = stop; if slow { s.fpend = 1; } });
    (io, dev)
}
/// the response streams what the request brings
fn echo(second: &[usize], stops: &[usize]) {
    let k = sx::pick(5, "request");
    let b = syms(3, "body");
    let (b0, m0, want) = echo_shape(k, &b);
    let (b1, m1, want1) = echo_shape(second[sx::pick(second.len(), "second request")], &b);
    let at = 1 + sx::pick(b0.len(), "bytes that arrive at first");
    let together = sx::flag("the second comes with the rest");
    let (io, dev) = echo_io(b0[..at].to_vec(), stops);
    let mut bl = builder();
    bl.pipeline_flush(sx::flag("pipeline flush"));
    let mut s = Srv::new(&bl, (io, dev), echoing());
    s.run();
    let release = sx::flag("the transport goes on before the rest comes");
    if release { s.dev.raise_wstop(usize::MAX); s.run(); }
    s.dev.feed(&b0[at..]);
    if together { s.dev.feed(&b1); }
    s.run();
    if !release { s.dev.raise_wstop(usize::MAX); s.run(); }
    if !together { s.dev.feed(&b1); s.run(); }
    let m = s.responses(&[m0, m1]);
    sx::check(m.len() >= 1 && m[0].complete && m[0].status == 200 && m[0].body == want, "the first response is not what the request brought");
    sx::check(k != 2 || m[0].trailers.iter().any(|t| t.0 == b"x-t" && t.1 == b"v"), "the trailers are not what the request brought");
    if k == 3 && m.len() == 1 { sx::check(s.done() && s.dev.is_shutdown(), "a request is never answered"); sx::cover("body not read"); return; }
    sx::check(m.len() == 2 && m[1].complete && m[1].body == want1, "the second response is not what the request brought");
    sx::check(!s.done() && s.dev.with(|s| s.flushed_to == s.tx.len()), "the connection does not go on");
    sx::cover(["length", "chunked", "trailers", "HEAD", "empty"][k]);
}
#[no_mangle] pub extern "C" fn s05_echo() { echo(&[1], &[0, 30, 70, usize::MAX]) }
#[no_mangle] pub extern "C" fn s05_echo3() { echo(&[0, 1, 4], &[0, 10, 30, 55, 70, 80, usize::MAX]) }
/// the client goes away while its body is being sent back: the response must not look complete
#[no_mangle] pub extern "C" fn s14_echo() {
    let k = sx::pick(3, "request");
    let b = syms(3, "body");
    let (b0, m0, want) = echo_shape(k, &b);
    let at = 1 + sx::pick(b0.len(), "bytes before the end");
    let (io, dev) = echo_io(b0[..at].to_vec(), &[0, 10, 30, 55, 70, 80, usize::MAX]);
    let mut bl = builder();
    bl.half_close(sx::flag("half close"));
    let mut s = Srv::new(&bl, (io, dev), echoing());
    s.run();
    let release = sx::flag("the transport goes on before the end");
    if release { s.dev.raise_wstop(usize::MAX); s.run(); }
    let reset = sx::flag("reset");
    if reset { s.dev.set_rerr(); } else { s.dev.set_eof(); }
    s.run();
    if !release { s.dev.raise_wstop(usize::MAX); s.run(); }
    sx::check(s.done(), "the connection does not finish although the client is gone");
    let head = find(&b0, b"\r\n\r\n").unwrap() + 4;
    let w = s.out();
    if at < head { sx::check(s.nreq() == 0 && (w.is_empty() || starts(&w, b"HTTP/1.1 400")), "a request is made up"); sx::cover("head"); return; }
    let whole = match wire_response(&w, m0, false) { Ok((m, _)) => m.complete, Err(_) => false };
    if at < b0.len() {
        sx::check(!whole, "a response whose body was cut off looks complete");
        sx::check(s.is_err() , "a cut-off body is not reported");
        sx::cover("cut off");
    } else if release { let m = s.responses(&[m0]); sx::check(m.len() == 1 && m[0].complete && m[0].body == want, "a complete exchange is not finished"); sx::cover("complete"); }
}
