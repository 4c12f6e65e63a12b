//! HTTP/2 server.
use crate::{h2p::*, h2x::*, srv::*, srv2::*, sup::*, sx};
use bytes::Bytes;
use http::{HeaderMap, Response};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- H01: response bodies

/// what the peer got of a response whose body follows `p`; `granted`: every byte of the body was allowed
fn judge(st: &Strm, p: &Plan, done: bool) {
    let all = p.all();
    let n = st.data.len();
    sx::check(n <= all.len() && st.data == all[..n], "h01: the data sent is not what the body produced");
    sx::check(st.blocks.is_empty() || st.status() == 200, "h01: status");
    let tr = st.blocks.get(1);
    if p.err { sx::check(!st.end, "h01: a failed body looks complete"); }
    if st.end { sx::check(n == all.len() && tr.is_some() == p.trailers.is_some(), "h01: the response ends before its body does"); }
    if let Some(t) = tr { sx::check(t.len() == 1 && t[0].0 == "x-t" && t[0].1 == b"1", "h01: trailers"); }
    let cl = st.get("content-length");
    let announce = p.exact && !(p.eos && p.data.is_empty() && p.trailers.is_none());
    if !st.blocks.is_empty() { sx::check(if announce { cl.len() == 1 && cl[0] == all.len().to_string().as_bytes() } else { cl.is_empty() }, "h01: content-length"); }
    if done {
        if p.err { sx::check(st.rst == Some(2), "h01: a failed body does not reset the stream"); sx::cover("failed body"); }
        else { sx::check(st.end && st.rst.is_none() && n == all.len(), "h01: the response never completes"); sx::cover(if tr.is_some() { "trailers" } else if announce { "length" } else { "complete" }); }
    }
}
fn h01(n: usize, sizes: &'static [usize], wnds: &[u32], grants: usize, rest: bool) {
    let p = plan(n, sizes);
    let w = wnds[sx::pick(wnds.len(), "initial window")];
    let (b, q) = (RefCell::new(Some(p.body())), Rc::new(Cell::new(0)));
    let polls = b.borrow().as_ref().unwrap().polls.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |_, _, _, _| { let r = b.borrow_mut().take().unwrap(); Box::pin(async move { Ok(ok(r)) }) }));
    s.peer.start(&[(4, w)]);
    s.run();
    s.peer.request(1, "GET", "/", true, &[]);
    if rest { let k = sx::pick(4, "transport blocks"); if k > 0 { s.dev.with(|d| { d.wcuts = vec![d.tx.len() + [0, 9, 14, 20][k]]; d.wmax = 7; }); } }
    s.run();
    let total = p.all().len();
    let mut g = w as usize;
    for i in 0..=grants {
        let st = s.peer.s(1).clone();
        judge(&st, &p, g >= total);
        if !p.err { sx::check(st.data.len() == total.min(g), "h01: data is held back although the window allows it"); }
        let taken: usize = { let mut t = 0; for d in p.data.iter().take(polls.get()) { t += d.len(); } t };
        if g < total { sx::check(polls.get() <= p.data.len() + 3, "h01: the body is read far ahead of the window"); sx::cover("window closed"); let mut k = 0; let mut sum = 0; while k < p.data.len() && sum + p.data[k].len() <= st.data.len() { sum += p.data[k].len(); k += 1; } sx::check(polls.get() <= k + 4, "h01: more than two frames wait for the window"); }
        if g >= total || i == grants { break; }
        let inc = 1 + sx::pick(3, "window update");
        s.peer.grant(1, inc as u32);
        g += inc;
        s.run();
    }
    sx::check(!s.done(), "h01: the connection ends with a response");
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "h01: the connection outlives its transport");
    q.set(1);
}
#[no_mangle] pub extern "C" fn h01_one() { h01(2, &[0, 1, 3], &[0, 1, 2, 4, 65535], 3, false) }
#[no_mangle] pub extern "C" fn h01_io() { h01(2, &[0, 2], &[65535], 0, true) }
/// Two responses compete for the connection window; a third body may never produce anything.
fn h01_conn(stall: bool, grants: usize) {
    let fill = 65535 - sx::pick(3, "left of the connection window");
    let ps: Vec<Plan> = (0..2).map(|i| { let k = 1 + sx::pick(2, "data frames"); Plan { data: (0..k).map(|_| syms([1, 3][sx::pick(2, "frame size")], "body byte")).collect(), trailers: None, err: false, exact: false, eos: sx::flag("end of stream indicated"), wait: None } }).collect();
    let gate = Gate::new();
    let (p2, g2) = (ps.clone(), gate.clone());
    let mut s = Srv2::new(|_| {}, Box::new(move |_, p, _, _| {
        let b = match p.uri.path() { "/fill" => HBody::full(&vec![b'f'; fill]), "/stall" => HBody::new(vec![Op::Wait(g2.clone()), Op::Data(Bytes::from_static(b"s"))]), "/0" => p2[0].body(), _ => p2[1].body() };
        Box::pin(async move { Ok(ok(b)) })
    }));
    s.peer.start(&[(4, 70000)]);
    s.peer.request(1, "GET", "/fill", true, &[]);
    s.run();
    sx::check(s.peer.s(1).end && s.peer.s(1).data.len() == fill, "h01: a body that fits the window does not arrive");
    let mut left = 65535 - fill;
    let order = sx::flag("other order");
    let mut sid = 3;
    if stall { s.peer.request(sid, "GET", "/stall", true, &[]); sid += 2; if sx::flag("run in between") { s.run(); } }
    let (a, b) = (sid, sid + 2);
    let small = sx::flag("small stream window");
    if small { s.peer.set(&[(4, 2)]); s.run(); }
    s.peer.request(a, "GET", if order { "/1" } else { "/0" }, true, &[]);
    if sx::flag("run in between") { s.run(); }
    s.peer.request(b, "GET", if order { "/0" } else { "/1" }, true, &[]);
    s.run();
    let (pa, pb) = if order { (&ps[1], &ps[0]) } else { (&ps[0], &ps[1]) };
    let (na, nb) = (pa.all().len(), pb.all().len());
    for i in 0..=grants {
        let (x, y) = (s.peer.s(a).clone(), s.peer.s(b).clone());
        judge(&x, pa, false);
        judge(&y, pb, false);
        let (wa, wb) = if small { (na.min(2), nb.min(2)) } else { (na, nb) };
        sx::check(x.data.len() + y.data.len() == left.min(wa + wb), "h01: streams hold back data although the connection window allows it");
        if left < wa + wb { sx::cover("connection window closed"); }
        if i == grants { break; }
        let inc = [1, 3, 20][sx::pick(3, "connection window update")];
        s.peer.grant(0, inc as u32);
        left += inc;
        s.run();
    }
    if small { s.peer.grant(a, 100); s.peer.grant(b, 100); }
    s.peer.grant(0, 100);
    s.run();
    let (x, y) = (s.peer.s(a).clone(), s.peer.s(b).clone());
    judge(&x, pa, true);
    judge(&y, pb, true);
    if stall { sx::check(!s.peer.s(3).end, "h01: a body that did not end looks complete"); gate.open(); s.run(); sx::check(s.peer.s(3).end && s.peer.s(3).data == b"s", "h01: a late body does not arrive"); sx::cover("stalled body"); }
}
#[no_mangle] pub extern "C" fn h01_share() { h01_conn(false, 1) }
#[no_mangle] pub extern "C" fn h01_share3() { h01_conn(false, 3) }
#[no_mangle] pub extern "C" fn h01_stall() { h01_conn(true, 1) }

// ---------------------------------------------------------------- H02: heads

/// responses that never have a body
#[no_mangle] pub extern "C" fn h02_nobody() {
    let m = ["GET", "HEAD", "POST"][sx::pick(3, "method")];
    let st = [200u16, 204, 304, 205, 404][sx::pick(5, "status")];
    let p = plan(1, &[0, 3]);
    let own = sx::pick(3, "own content-length: none, 3, 0");
    let b = RefCell::new(Some(p.body()));
    let alive = b.borrow().as_ref().unwrap().alive.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |_, _, _, _| {
        let mut r = status(st, b.borrow_mut().take().unwrap());
        if own > 0 { r.headers_mut().insert("content-length", hv([&b"3"[..], b"0"][own - 1])); }
        Box::pin(async move { Ok(r) })
    }));
    s.peer.start(&[]);
    s.peer.request(1, m, "/", true, &[]);
    s.run();
    let x = s.peer.s(1).clone();
    if p.err && x.blocks.is_empty() { sx::check(x.rst.is_some(), "h02: a failed response is not reset"); return; }
    sx::check(x.status() == st, "h02: status");
    let bodyless = m == "HEAD" || st == 204 || st == 304;
    if bodyless { sx::check(x.data.is_empty(), "h02: a response that cannot have a body has one"); sx::check(x.end, "h02: a response without a body does not end"); sx::check(!alive.get(), "h02: the unsendable body is kept"); sx::cover("no body"); } else { sx::cover("body"); }
}
fn h02_fields(len: usize, lines: usize, trailers: bool) {
    let m = mix(len, lines);
    let te = if trailers { 0 } else { sx::pick(3, "te: none, trailers, gzip") };
    let mut map = m.map.clone();
    if te > 0 { map.insert("te", hv([&b"trailers"[..], b"gzip"][te - 1])); }
    let m2 = RefCell::new(Some(map));
    let mut s = Srv2::new(|_| {}, Box::new(move |_, _, _, _| {
        let m = m2.borrow_mut().take().unwrap();
        let mut r;
        if trailers { r = ok(HBody::new(vec![Op::Data(Bytes::from_static(b"x")), Op::Trailers(m)])); } else { r = ok(HBody::empty()); *r.headers_mut() = m; }
        Box::pin(async move { Ok(r) })
    }));
    s.peer.start(&[]);
    s.peer.request(1, "GET", "/", true, &[]);
    s.run();
    let x = s.peer.s(1).clone();
    if trailers && m.bad {
        // such trailers are the service's mistake: they are never sent
        sx::check(x.blocks.len() == 1, "h02: connection-specific trailers are sent");
        sx::check(!x.end || x.data == b"x", "h02: a response whose trailers cannot be sent looks complete");
        sx::cover("bad trailers");
        return;
    }
    sx::check(x.end && x.rst.is_none() && x.status() == 200, "h02: the response does not arrive");
    let i = trailers as usize;
    sx::check(x.blocks.len() == 1 + i, "h02: no trailers");
    left(&m, &x.blocks[i]);
    sx::check(!x.blocks[i].iter().any(|(k, _)| k == "te"), "h02: te in a response");
    sx::cover("sent");
}
#[no_mangle] pub extern "C" fn h02_fields1() { h02_fields(3, 1, false) }
#[no_mangle] pub extern "C" fn h02_fields2() { h02_fields(2, 2, false) }
#[no_mangle] pub extern "C" fn h02_trailers() { h02_fields(2, 1, true) }

// ---------------------------------------------------------------- H03: request bodies

/// what the service does with a request: reads at most `n` frames, then answers
fn taking(n: usize) -> Handler { Box::new(move |i, _p, b, log| Box::pin(async move { drain(b, log, i, n).await; Ok(numbered(0)) })) }
fn h03_body(nmax: usize, pad: bool) {
    let k = sx::pick(nmax + 1, "data frames");
    let data: Vec<Vec<u8>> = (0..k).map(|_| syms([0, 1, 3][sx::pick(3, "frame size")], "request byte")).collect();
    let all = data.concat();
    let end = sx::pick(7, "end: with the last frame, empty frame, trailers, none, reset, reset without error, transport closed");
    let cl = sx::pick(4, "content-length: none, right, one more, one less");
    if cl == 3 && all.is_empty() { return; }
    let n = match cl { 1 => all.len(), 2 => all.len() + 1, _ => all.len().wrapping_sub(1) };
    let clv = n.to_string();
    let mut s = Srv2::new(|_| {}, taking(usize::MAX));
    s.peer.start(&[]);
    s.run();
    let more: &[(&str, &[u8])] = &[("x-a", b"1"), ("content-length", clv.as_bytes())];
    let head_end = end == 0 && k == 0;
    s.peer.request(1, "POST", "/p", head_end, &more[..1 + (cl > 0) as usize]);
    let paused = sx::flag("run after the head");
    if paused { s.run(); }
    for (i, d) in data.iter().enumerate() {
        let e = end == 0 && i + 1 == k;
        if pad && i == 0 {
            let q = [0usize, 2][sx::pick(2, "padding")];
            let mut p = vec![q as u8]; p.extend_from_slice(d); p.extend_from_slice(&vec![0; q]);
            let len = p.len() as i64;
            s.peer.conn_recv -= len; s.peer.s(1).recv_wnd -= len; s.peer.s(1).peer_end |= e;
            s.peer.raw(&fr(DATA, 8 | e as u8, 1, &p));
        } else { s.peer.data(1, e, d); }
        if sx::flag("run after a frame") { s.run(); }
    }
    match end {
        1 => s.peer.data(1, true, b""),
        2 => s.peer.headers(1, true, &[("x-t", b"9")]),
        4 => { let c = sx::u32v("reset code"); sx::assume(c != 0); s.peer.rst(1, c) }
        5 => s.peer.rst(1, 0),
        6 => s.dev.set_eof(),
        _ => {}
    }
    s.run();
    let complete = end <= 2;
    let agrees = cl < 2;
    let x = s.peer.s(1).clone();
    if s.nreq() == 0 {
        // refused, or gone before it was looked at
        sx::check(if complete { !agrees } else { end >= 4 || !agrees }, "h03: a request is not served");
        sx::cover("refused");
        return;
    }
    sx::check(s.nreq() == 1, "h03: one request becomes two");
    let r = s.reqs()[0].clone();
    sx::check(r.method == "POST" && r.uri == "http://h/p" && r.version == http::Version::HTTP_2, "h03: request line");
    sx::check(r.get("x-a") == [b"1"] && r.headers.len() == 1 + (cl > 0) as usize, "h03: request fields");
    sx::check(r.body.len() <= all.len() && r.body == all[..r.body.len()], "h03: the body is not what the client sent");
    match r.exact { Some(e) => sx::check(e == n as u64 && cl > 0 || e == 0 && r.eos, "h03: size hint is not the announced length"), None => sx::check(cl == 0, "h03: announced length is not in the size hint") }
    if r.eos { sx::check(complete && all.is_empty() || !agrees, "h03: a body is missing"); }
    if r.end == End::Eof && end != 5 {
        sx::check(complete && agrees, "h03: a request cut off or of the wrong length looks complete");
        sx::check(r.body == all, "h03: the end of the body is missing");
        sx::check(r.trailers.is_some() == (end == 2), "h03: trailers");
        if let Some(t) = &r.trailers { sx::check(t.len() == 1 && t[0].0 == "x-t" && t[0].1 == b"9", "h03: trailers"); }
        sx::cover(if end == 2 { "trailers" } else { "complete" });
    }
    match end {
        0..=2 if agrees => { sx::check(r.end == End::Eof, "h03: a complete request fails"); sx::check(x.status() == 200 && x.end && x.data == b"#0", "h03: no response"); }
        0..=2 => sx::check(r.end == End::Err && x.rst.is_some(), "h03: a wrong length is not an error"),
        3 => { if agrees || cl == 2 { sx::check(r.end == End::Open && r.body == all, "h03: an open body does not deliver what is there"); } sx::cover("open"); }
        4 | 6 => { sx::check(r.end == End::Err || r.end == End::Open, "h03: a request cut off looks complete"); if end == 6 { sx::check(s.done(), "h03: the connection outlives its transport"); } sx::cover("cut off"); }
        _ => {}
    }
    if end != 6 { sx::check(!s.done(), "h03: the connection ends with a stream"); }
}
#[no_mangle] pub extern "C" fn h03_body1() { h03_body(1, true) }
#[no_mangle] pub extern "C" fn h03_body2() { h03_body(2, false) }

/// a stream window of any small size never starves a body that is read
#[no_mangle] pub extern "C" fn h03_window() {
    let w = 1 + sx::pick(8, "stream window") as u32;
    let total = 12;
    let mut s = Srv2::new(|b| { b.initial_stream_window_size(w); }, taking(usize::MAX));
    s.peer.start(&[]);
    s.run();
    s.peer.request(1, "POST", "/", false, &[]);
    let mut sent = 0;
    let mut n = 0;
    while sent < total {
        s.run();
        let room = s.peer.s(1).recv_wnd.min((total - sent) as i64);
        sx::check(room > 0 && s.peer.s(1).recv_wnd * 2 >= w as i64, "h03: the window of a body that is read is not reopened");
        sx::check(s.peer.s(1).recv_wnd <= w as i64, "h03: the stream window grows beyond what was configured");
        let k = if n < 3 { 1 + sx::pick(room as usize, "frame size") } else { room as usize };
        let d: Vec<u8> = (0..k).map(|i| (sent + i) as u8).collect();
        s.peer.data(1, false, &d);
        sent += k;
        n += 1;
    }
    s.run();
    s.peer.data(1, true, b"");
    s.run();
    let r = &s.reqs()[0];
    sx::check(r.end == End::Eof && r.body.len() == total && r.body.iter().enumerate().all(|(i, b)| *b == i as u8), "h03: body");
    sx::cover("window reopened");
}
/// whatever becomes of a body, the connection window is given back
#[no_mangle] pub extern "C" fn h03_connwindow() {
    let mut s = Srv2::new(|b| { b.initial_connection_window_size(65535); }, Box::new(move |i, p, b, log| match p.uri.path() {
        "/read" => { Box::pin(async move { drain(b, log, i, usize::MAX).await; Ok(numbered(0)) }) }
        "/part" => { Box::pin(async move { drain(b, log, i, 1).await; Ok(numbered(0)) }) }
        "/fail" => { Box::pin(async move { drain(b, log, i, 1).await; Err(berr()) }) }
        "/keep" => { Box::pin(async move { let b = b; std::future::pending::<()>().await; drop(b); Err(berr()) }) }
        _ => { drop(b); Box::pin(async move { Ok(numbered(0)) }) }
    }));
    s.peer.start(&[]);
    s.run();
    let d = vec![7u8; 16000];
    let last = sx::flag("bodies end with their last data frame");
    for i in 0..5u32 {
        let sid = 2 * i + 1;
        let k = sx::pick(6, "fate of the body: read, dropped, read in part, service fails, unread then reset, reset while read");
        s.peer.request(sid, "POST", ["/read", "/drop", "/part", "/fail", "/keep", "/read"][k], false, &[]);
        s.run();
        let fin = last && k < 4;
        for j in 0..2 { if s.peer.s(sid).rst.is_none() && s.peer.s(sid).peer_rst == false { sx::check(s.peer.conn_recv >= 16000, "h03: the connection window is never given back"); s.peer.data(sid, fin && j == 1, &d); s.run(); } }
        if k >= 4 { s.peer.rst(sid, 8); } else if s.peer.s(sid).rst.is_none() && !fin { s.peer.data(sid, true, b""); }
        s.run();
        if k == 0 { sx::check(s.peer.s(sid).end && s.reqs()[i as usize].body.len() == 32000, "h03: a body that is read"); }
        sx::check(!s.done(), "h03: the connection ends with a stream");
    }
    sx::cover("all given back");
}
/// the configuration is what the client is told
#[no_mangle] pub extern "C" fn h03_settings() {
    let (sw, cw, mf, mc, hl) = (sx::u32v("stream window"), sx::u32v("connection window"), sx::u32v("frame size"), sx::u32v("streams"), sx::u32v("header list"));
    sx::assume(sw <= 0x7fff_ffff && cw > 65535 && cw <= 0x7fff_ffff && mf >= 16384 && mf <= 0xff_ffff && hl < 1 << 30);
    let ec = sx::flag("extended connect");
    let mut s = Srv2::new(|b| { b.initial_stream_window_size(sw).initial_connection_window_size(cw).max_frame_size(mf).max_concurrent_streams(mc).max_header_list_size(hl); if ec { b.enable_connect_protocol(); } }, taking(0));
    s.peer.auto_ack = false;
    s.peer.start(&[]);
    s.run();
    let tx = s.dev.tx();
    let p = &s.peer;
    sx::check(p.setting(4).unwrap_or(65535) == sw && p.setting(5).unwrap_or(16384) == mf && p.setting(3) == Some(mc) && p.setting(6) == Some(hl), "h03: announced settings differ from the configuration");
    sx::check(p.setting(8).unwrap_or(0) == ec as u32, "h03: extended CONNECT is announced exactly when enabled");
    // a small rest may be announced later
    sx::check(p.conn_recv <= cw as i64 && p.conn_recv > cw as i64 - 32768, "h03: connection window differs from the configuration");
    sx::check(p.setting(2).unwrap_or(0) == 0, "h03: push");
    sx::cover("settings");
}

/// the response is the request's own body, streamed back, under windows in both directions
fn h03_echo(steps: usize) {
    let (rw, sw) = ([3u32, 65535][sx::pick(2, "server's stream window")], [0u32, 2, 65535][sx::pick(3, "client's stream window")]);
    let mut s = Srv2::new(|b| { b.initial_stream_window_size(rw); }, Box::new(|_, _, b, _| Box::pin(async move { Ok(ok(HBody::new(vec![Op::Echo(b)]))) })));
    s.peer.start(&[(4, sw)]);
    s.run();
    let cl = sx::flag("content-length");
    let total = 6usize;
    let d = syms(total, "body byte");
    s.peer.request(1, "POST", "/", false, if cl { &[("content-length", b"6")] } else { &[] });
    let (mut sent, mut granted, mut ended, mut tr) = (0, sw as usize, false, false);
    for _ in 0..steps {
        let room = (s.peer.s(1).recv_wnd.max(0) as usize).min(total - sent);
        match sx::pick(6, "next: 1 byte, 3 bytes, window, end, trailers, reset") {
            e @ 0..=1 => { let n = [1, 3][e]; if ended || room < n { sx::end(); } s.peer.data(1, false, &d[sent..sent + n]); sent += n; }
            2 => { if granted > total { sx::end(); } s.peer.grant(1, 2); granted += 2; }
            3 => { if ended || cl && sent < total { sx::end(); } ended = true; s.peer.data(1, true, b""); }
            4 => { if ended || cl && sent < total { sx::end(); } ended = true; tr = true; s.peer.headers(1, true, &[("x-t", b"9")]); }
            _ => {
                let w = s.peer.s(1).end;
                s.peer.rst(1, 8);
                s.run();
                sx::check(s.peer.s(1).end == w, "h03: a response looks complete although its request was reset");
                sx::check(!s.done(), "h03: the connection ends with a stream");
                sx::cover("reset");
                return;
            }
        }
        if sx::flag("together with the next") { continue; }
        s.run();
        let x = s.peer.s(1).clone();
        sx::check(x.status() == 200 && x.rst.is_none(), "h03: no response");
        sx::check(x.data.len() == sent.min(granted) && x.data == d[..x.data.len()], "h03: what the request brings is not sent although the window allows it");
        sx::check(ended || granted < sent || sent == total || x.recv_wnd * 2 >= rw as i64, "h03: the window of a body that is read is not reopened");
        if granted < sent { sx::check(x.recv_wnd <= rw as i64, "h03: more is accepted than the window allows"); sx::cover("waiting for the client"); }
        sx::check(!x.end || ended && granted >= sent, "h03: a response ends before its request");
    }
    if !ended {
        while sent < total { s.run(); s.peer.grant(1, 6); granted += 6; s.run(); let n = (s.peer.s(1).recv_wnd as usize).min(total - sent); sx::check(n > 0, "h03: the window of a body that is read is not reopened"); s.peer.data(1, false, &d[sent..sent + n]); sent += n; }
        s.peer.data(1, true, b"");
    }
    s.run();
    s.peer.grant(1, 12);
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.end && x.rst.is_none() && x.data == d[..sent], "h03: the response is not what the request brought");
    sx::check(x.blocks.len() == 1 + tr as usize && (!tr || x.blocks[1].iter().any(|f| f.0 == "x-t" && f.1 == b"9")), "h03: the trailers are not what the request brought");
    let cls = x.get("content-length");
    sx::check(if cl { cls == [b"6".to_vec()] } else { cls.is_empty() }, "h03: content-length of the response");
    sx::check(!s.done(), "h03: the connection ends with a stream");
    sx::cover("complete");
}
#[no_mangle] pub extern "C" fn h03_echo5() { h03_echo(5) }
#[no_mangle] pub extern "C" fn h03_echo7() { h03_echo(7) }

// ---------------------------------------------------------------- H04: streams do not affect each other

pub struct Guard(pub Rc<Cell<bool>>);
impl Drop for Guard { fn drop(&mut self) { self.0.set(true) } }
#[derive(Clone, Default)]
struct One { kind: usize, act: usize, gate: Gate, gone: Rc<Cell<bool>>, called: Rc<Cell<bool>>, body: Rc<RefCell<Option<Rc<Cell<bool>>>>> }
fn fate(o: One, i: usize, b: hyper::body::Incoming, log: Log) -> LocalFut<Resp> {
    o.called.set(true);
    let g = Guard(o.gone.clone());
    Box::pin(async move {
        let _g = g;
        let keep = |h: HBody| { *o.body.borrow_mut() = Some(h.alive.clone()); h };
        match o.kind {
            0 => Ok(ok(HBody::full(b"xy"))),
            1 => { o.gate.wait().await; Ok(ok(HBody::full(b"xy"))) }
            2 => Err(berr()),
            3 => Ok(ok(keep(HBody::new(vec![Op::Data(Bytes::from_static(b"x")), Op::Wait(o.gate.clone()), Op::Data(Bytes::from_static(b"y"))])))),
            4 => Ok(ok(keep(HBody::new(vec![Op::Data(Bytes::from_static(b"x")), Op::Wait(o.gate.clone()), Op::Err])))),
            5 => { drain(b, log, i, usize::MAX).await; Ok(ok(HBody::full(b"xy"))) }
            _ => { o.gate.wait().await; Err(berr()) }
        }
    })
}
fn h04_streams(n: usize) {
    let os: Vec<One> = (0..n).map(|_| One { kind: sx::pick(7, "service: answers, later, fails, streams, streams then fails, reads first, fails later"), act: sx::pick(4, "client: waits, resets at once, resets later, resets at the end"), ..One::default() }).collect();
    let code = [8u32, 0, 2][sx::pick(3, "reset code")];
    let o2 = os.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |i, p, b, log| { let k = (p.uri.path().as_bytes()[1] - b'0') as usize; if k < o2.len() { fate(o2[k].clone(), i, b, log) } else { Box::pin(async move { Ok(numbered(7)) }) } }));
    s.peer.start(&[]);
    s.run();
    for (i, o) in os.iter().enumerate() {
        let sid = 2 * i as u32 + 1;
        s.peer.request(sid, "POST", ["/0", "/1", "/2"][i], o.kind != 5, &[]);
        if o.act == 1 { s.peer.rst(sid, code); }
    }
    s.run();
    for (i, o) in os.iter().enumerate() { if o.act == 2 { let sid = 2 * i as u32 + 1; s.peer.rst(sid, code); s.run(); } }
    for o in &os {
        if o.act == 1 || o.act == 2 {
            sx::check(!o.called.get() || o.gone.get(), "h04: the service goes on working for a request the client cancelled");
            if let Some(a) = &*o.body.borrow() { sx::check(!a.get(), "h04: the response body of a cancelled request is kept"); }
            if o.called.get() { sx::cover("cancelled"); }
        }
    }
    for (i, o) in os.iter().enumerate() { if o.kind == 5 && (o.act == 0 || o.act == 3) { s.peer.data(2 * i as u32 + 1, true, b"q"); } }
    for o in &os { o.gate.open(); }
    s.run();
    for (i, o) in os.iter().enumerate() {
        let x = s.peer.s(2 * i as u32 + 1).clone();
        if o.act == 0 || o.act == 3 {
            sx::check(o.called.get() && o.gone.get(), "h04: a request is not served because of another one");
            match o.kind {
                2 | 6 => { sx::check(x.rst == Some(2) && !x.end && x.blocks.is_empty(), "h04: a service error does not reset its stream"); sx::cover("service error"); }
                4 => { sx::check(x.rst == Some(2) && !x.end, "h04: a body error does not reset its stream"); sx::cover("body error"); }
                _ => { sx::check(x.end && x.rst.is_none() && x.status() == 200 && x.data == b"xy", "h04: a response suffers from what happens to another stream"); sx::cover("complete"); }
            }
        }
    }
    for (i, o) in os.iter().enumerate() { if o.act == 3 { s.peer.rst(2 * i as u32 + 1, code); s.run(); } }
    sx::check(!s.done() && s.peer.goaways.is_empty(), "h04: the connection suffers from what happens to a stream");
    s.peer.request(9, "GET", "/9", true, &[]);
    s.run();
    let x = s.peer.s(9);
    sx::check(x.end && x.data == b"#7", "h04: a later request is not served");
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "h04: the connection outlives its transport");
    sx::check(s.ex.all_done(), "h04: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h04_two() { h04_streams(2) }
#[no_mangle] pub extern "C" fn h04_three() { h04_streams(3) }

/// a client resets a request (CONNECT or not) at any moment around its answer
fn race(code: u32) {
    let connect = sx::flag("CONNECT");
    let o = One { kind: [1, 3, 4, 6][sx::pick(4, "service: later, streams, streams then fails, fails later")], ..One::default() };
    if connect && o.kind != 1 && o.kind != 6 { sx::end(); }
    let o2 = o.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |i, p, b, log| if p.uri.path() == "/9" { Box::pin(async move { Ok(numbered(7)) }) } else { fate(o2.clone(), i, b, log) }));
    s.peer.start(&[]);
    s.run();
    if connect { s.peer.headers(1, false, &[(":method", b"CONNECT"), (":authority", b"h:1")]); } else { s.peer.request(1, "GET", "/", true, &[]); }
    let early = sx::flag("answered before it is seen");
    if !early { s.run(); }
    let both = sx::flag("reset as it is answered");
    s.peer.rst(1, code);
    s.ex.symbolic_order = true;
    if both { o.gate.open(); }
    s.run();
    s.ex.symbolic_order = false;
    if o.called.get() {
        sx::check(o.gone.get(), "h04: the service goes on working for a request the client cancelled");
        if let Some(a) = &*o.body.borrow() { sx::check(!a.get(), "h04: the response body of a cancelled request is kept"); }
        sx::cover(if connect { "tunnel" } else { "request" });
    }
    o.gate.open();
    s.run();
    sx::check(!s.done() && s.peer.goaways.is_empty(), "h04: the connection suffers from what happens to a stream");
    s.peer.request(9, "GET", "/9", true, &[]);
    s.run();
    let x = s.peer.s(9);
    sx::check(x.end && x.data == b"#7", "h04: a later request is not served");
    s.dev.set_eof();
    s.run();
    sx::check(s.done() && s.ex.all_done(), "h04: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h04_race() { race(sx::u32v("reset code")) }
#[no_mangle] pub extern "C" fn h13_race() { race(8) }

/// the transport fails at any point: everything in progress is dropped
#[no_mangle] pub extern "C" fn h04_dead() {
    let os: Vec<One> = (0..2).map(|_| One { kind: sx::pick(7, "service: answers, later, fails, streams, streams then fails, reads first, fails later"), ..One::default() }).collect();
    let o2 = os.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |i, p, b, log| { let k = (p.uri.path().as_bytes()[1] - b'0') as usize; fate(o2[k].clone(), i, b, log) }));
    let how = sx::pick(4, "transport: closed, read error, write error, connection dropped");
    let before = sx::pick(3, "when: before the preface, after it, after the requests");
    if before > 0 { s.peer.start(&[]); s.run(); }
    if before > 1 { for (i, o) in os.iter().enumerate() { s.peer.request(2 * i as u32 + 1, "POST", ["/0", "/1"][i], o.kind != 5, &[]); } s.run(); }
    match how { 0 => s.dev.set_eof(), 1 => s.dev.set_rerr(), 2 => { s.dev.with(|d| d.werr = Some(d.tx.len())); if before > 0 { s.peer.raw(&ping(false, b"12345678")); } else { s.peer.start(&[]); } } _ => s.ex.kill(s.task) }
    s.run();
    if how < 3 { sx::check(s.done(), "h04: the connection outlives its transport"); }
    if how == 1 || how == 2 { sx::check(s.is_err(), "h04: a transport error is not reported"); }
    for o in &os { if o.called.get() { sx::check(o.gone.get(), "h04: the service goes on working on a dead connection"); if let Some(a) = &*o.body.borrow() { sx::check(!a.get(), "h04: a response body is kept on a dead connection"); } sx::cover("dropped"); } }
    sx::check(s.ex.tasks.iter().enumerate().all(|(i, _)| s.ex.done(i)), "h04: work goes on after the connection ended");
    for r in s.reqs() { sx::check(r.end != End::Eof || r.eos, "h04: a request cut off looks complete"); }
    sx::cover("dead");
}

// ---------------------------------------------------------------- H05: graceful shutdown

fn h05_grace(steps: usize) {
    let gates: Vec<Gate> = (0..4).map(|_| Gate::new()).collect();
    let g2 = gates.clone();
    let mut s = Srv2::new(|_| {}, Box::new(move |i, _, _, _| { let g = g2[i].clone(); Box::pin(async move { g.wait().await; Ok(numbered(i)) }) }));
    s.peer.auto_pong = false;
    let early = sx::flag("shutdown before the preface");
    let mut asked = early;
    if early { s.graceful(); s.run(); }
    s.peer.start(&[]);
    if sx::flag("run") { s.run(); }
    let (mut opened, mut finished, mut ponged) = (0usize, 0usize, 0usize);
    // streams the client opened before the shutdown was asked for and after the client was told to stop
    let (mut sure, mut late) = (0usize, 0usize);
    for _ in 0..steps {
        match sx::pick(4, "step: new request, response finishes, shutdown, pong") {
            0 if opened < 4 => { s.peer.request(2 * opened as u32 + 1, "GET", "/", true, &[]); opened += 1; s.run(); if !asked { sure = opened; } }
            1 if finished < opened => { gates[finished].open(); finished += 1; s.run(); }
            2 if !asked => { asked = true; s.graceful(); s.run(); }
            3 if ponged < s.peer.pings.len() => { let p = s.peer.pings[ponged].clone(); ponged += 1; s.peer.raw(&ping(true, &p)); s.run(); }
            _ => sx::end(),
        }
    }
    if asked { sx::check(!s.peer.goaways.is_empty() || s.done(), "h05: the client is not told about the shutdown"); }
    s.run();
    while ponged < s.peer.pings.len() { let p = s.peer.pings[ponged].clone(); ponged += 1; s.peer.raw(&ping(true, &p)); s.run(); }
    for g in &gates { g.open(); }
    s.run();
    let lim = s.peer.goaways.last().map(|g| g.0).unwrap_or(u32::MAX);
    for i in 0..opened {
        let sid = 2 * i as u32 + 1;
        let x = s.peer.s(sid).clone();
        if sid <= lim { sx::check(x.end && x.rst.is_none() && x.status() == 200 && x.data == [b'#', b'0' + i as u8], "h05: a request in progress is not finished"); sx::cover("finished"); }
        else { sx::check(x.blocks.is_empty() && i >= sure && s.nreq() <= i, "h05: a request is served although the client was told it is not"); sx::cover("not served"); }
        if i < sure { sx::check(sid <= lim, "h05: a request from before the shutdown is refused"); }
    }
    for g in &s.peer.goaways { sx::check(g.1 == 0, "h05: an orderly shutdown is announced as an error"); }
    if asked { sx::check(s.done() && s.is_ok(), "h05: the connection does not end"); sx::check(s.dev.is_shutdown(), "h05: the transport is not shut down"); sx::check(s.ex.all_done(), "h05: work goes on after the connection ended"); sx::cover("shut down"); }
    else { sx::check(!s.done() && s.peer.goaways.is_empty(), "h05: the connection ends without being asked"); }
}
#[no_mangle] pub extern "C" fn h05_steps() { h05_grace(7) }
#[no_mangle] pub extern "C" fn h05_long() { h05_grace(9) }

// ---------------------------------------------------------------- H06: keep-alive

const KI: u64 = 5;
const KT: u64 = 3;
/// time runs in steps of one millisecond; at up to `n` of them the client does something
fn h06_alive(n: usize, span: usize, connect: bool) {
    let tm = Tm::new();
    let t2 = tm.clone();
    let inj: Rc<RefCell<Option<Rc<RefCell<Vec<LocalFut<()>>>>>>> = Default::default();
    let i2 = inj.clone();
    let h: Handler = if !connect { taking(usize::MAX) } else { Box::new(move |_, p, b, _| {
        let on = hyper::upgrade::on(http::Request::from_parts(p, b));
        i2.borrow().as_ref().unwrap().borrow_mut().push(Box::pin(tunnel(on, Default::default(), vec![], 16, false, false)));
        Box::pin(async move { Ok(ok(HBody::empty())) })
    }) };
    let mut s = Srv2::new(move |b| { b.timer(t2).keep_alive_interval(std::time::Duration::from_millis(KI)).keep_alive_timeout(std::time::Duration::from_millis(KT)); }, h);
    *inj.borrow_mut() = Some(s.ex.inject.clone());
    s.peer.auto_pong = false;
    s.peer.start(&[]);
    s.run();
    let mut at = vec![];
    let mut t = 0;
    for _ in 0..n { let room = span - t; if room < 2 { break; } t += 1 + sx::pick(room - 1, "pause (ms)"); at.push(t); }
    let (mut last, mut sent, mut pings, mut sid, mut open) = (0u64, None::<u64>, 0usize, 1u32, false);
    let mut stale = 0usize;
    for now in 1..=span as u64 {
        crate::clock::advance_ms(1);
        let mut either = false;
        if at.contains(&(now as usize)) {
            let tie = sent.is_none() && now >= last + KI;
            match sx::pick(4, "client: answers the ping, new request, body data, unrelated frames") {
                0 => {
                    if s.peer.pings.len() <= stale { sx::end(); }
                    let p = s.peer.pings.last().unwrap().clone();
                    stale = s.peer.pings.len();
                    s.peer.raw(&ping(true, &p));
                    let due = sent.unwrap() + KT;
                    if now >= due { either = true; }
                    sent = None;
                    last = now;
                    sx::cover("answered");
                }
                1 => { if open { sx::end(); } if connect { s.peer.headers(sid, false, &[(":method", b"CONNECT"), (":authority", b"h:1")]); } else { s.peer.request(sid, "POST", "/", false, &[]); } open = true; last = now; }
                2 => { if !open { sx::end(); } s.peer.data(sid, false, b"d"); last = now; sx::cover("data"); }
                _ => { s.peer.raw(&cat(&[&ping(false, b"abcdefgh"), &wupd(0, 1)])); }
            }
            if tie && last == now { return; }
            s.run();
            tm.fire();
            s.run();
        } else { tm.fire(); s.run(); }
        if either { return; }
        if let Some(t0) = sent {
            if now >= t0 + KT { sx::check(s.done(), "h06: a connection whose ping is not answered stays open"); sx::check(s.res.borrow().as_ref().unwrap().as_ref().is_err_and(|e| e.is_timeout()), "h06: the timeout is not reported"); sx::check(s.ex.all_done(), "h06: work goes on after the connection timed out"); for r in s.reqs() { sx::check(connect || r.end == End::Err, "h06: a request cut off by the timeout looks complete"); } sx::cover("timed out"); return; }
        } else if now >= last + KI { sent = Some(now); pings += 1; sx::cover("pinged"); }
        sx::check(!s.done(), "h06: a connection that answers is closed");
        sx::check(s.peer.pings.len() == pings, "h06: pings are not sent exactly when nothing was heard for the interval");
    }
    if pings == 0 { sx::cover("never idle"); }
}
#[no_mangle] pub extern "C" fn h06_three() { h06_alive(3, 14, false) }
#[no_mangle] pub extern "C" fn h06_connect() { h06_alive(2, 13, true) }
#[no_mangle] pub extern "C" fn h06_four() { h06_alive(4, 17, false) }

// ---------------------------------------------------------------- H07: CONNECT tunnels

use crate::tun::*;
fn h07_tunnel(wr: usize, rd: usize) {
    let st = [200u16, 404, 204][sx::pick(3, "status")];
    let ext = sx::flag("extended CONNECT");
    let cl = sx::pick(3, "content-length of the request: none, 0, 5");
    let (out, w) = (syms(sx::pick(wr + 1, "bytes written"), "written byte"), [0u32, 1, 65535][sx::pick(3, "window")]);
    let piece = [1, 2, 16][sx::pick(3, "read size")];
    let first = sx::flag("writes first");
    let t: TunRef = Default::default();
    let inj: Rc<RefCell<Option<Rc<RefCell<Vec<LocalFut<()>>>>>>> = Default::default();
    let (t2, o2, i2) = (t.clone(), out.clone(), inj.clone());
    let mut s = Srv2::new(move |b| { if ext { b.enable_connect_protocol(); } }, Box::new(move |i, p, b, log| {
        if p.method != http::Method::CONNECT { return Box::pin(async move { Ok(numbered(0)) }); }
        let proto = p.extensions.get::<hyper::ext::Protocol>().map(|p| p.as_str().to_string());
        sx::check(proto.as_deref() == if ext { Some("pp") } else { None }, "h07: protocol of an extended CONNECT");
        let on = hyper::upgrade::on(http::Request::from_parts(p, b));
        i2.borrow().as_ref().unwrap().borrow_mut().push(Box::pin(tunnel(on, t2.clone(), o2.clone(), piece, false, first)));
        Box::pin(async move { let mut r = status(st, if st == 404 { HBody::full(b"no") } else { HBody::empty() }); if st != 404 && first { r.headers_mut().insert("content-length", hv(b"0")); } Ok(r) })
    }));
    *inj.borrow_mut() = Some(s.ex.inject.clone());
    s.peer.start(&[(4, w)]);
    s.run();
    s.peer.request(1, "GET", "/", true, &[]);
    let mut f: Vec<(&str, &[u8])> = vec![(":method", b"CONNECT"), (":authority", b"h:1")];
    if ext { f.extend_from_slice(&[(":scheme", b"http"), (":path", b"/"), (":protocol", b"pp")]); }
    if cl > 0 { f.push(("content-length", [&b"0"[..], b"5"][cl - 1])); }
    s.peer.headers(3, false, &f);
    if w < 2 { s.peer.grant(1, 2); }
    s.run();
    let x = s.peer.s(3).clone();
    let y = s.peer.s(1).clone();
    sx::check(!s.done() && y.end && y.data == b"#0", "h07: another request suffers from a tunnel");
    if cl == 2 { sx::check(x.rst.is_some(), "h07: a CONNECT request with a body is not refused"); sx::check(s.nreq() == 1, "h07: a CONNECT request with a body is served"); sx::cover("refused"); return; }
    sx::check(s.nreq() == 2 && s.reqs()[1].method == "CONNECT" && s.reqs()[1].uri == if ext { "http://h:1/" } else { "h:1" }, "h07: request line");
    sx::check(x.status() == st, "h07: status");
    if st == 404 {
        s.peer.grant(3, 10);
        s.peer.data(3, true, b"");
        s.run();
        let x = s.peer.s(3);
        sx::check(x.end && x.data == b"no" && !t.borrow().up && t.borrow().failed, "h07: a refused CONNECT is not a response");
        sx::cover("declined");
        return;
    }
    sx::check(!x.end && x.rst.is_none() && t.borrow().up, "h07: no tunnel");
    sx::check(x.get("content-length").is_empty(), "h07: content-length in the answer to CONNECT");
    // the client's side of the tunnel
    let k = if cl == 1 { 0 } else { sx::pick(rd + 1, "bytes sent") };
    let sent = syms(k, "sent byte");
    let cut = if k > 1 { 1 } else { k };
    let mut g = w as usize;
    for p in [&sent[..cut], &sent[cut..]] { if !p.is_empty() || sx::flag("empty frame") { s.peer.data(3, false, p); if sx::flag("run") { s.run(); } } }
    s.run();
    let early = s.peer.s(3).data.clone();
    if first { sx::check(early == out[..out.len().min(g)], "h07: written bytes do not arrive"); }
    sx::check(t.borrow().got == sent || first && g < out.len(), "h07: sent bytes do not arrive");
    let end = sx::pick(4, "client: ends its side, resets, cancels, transport closed");
    match end {
        0 => s.peer.data(3, true, b""),
        1 => { let c = sx::u32v("reset code"); sx::assume(c != 0 && c != 8); s.peer.rst(3, c) }
        2 => s.peer.rst(3, 8),
        _ => s.dev.set_eof(),
    }
    s.run();
    if end == 0 {
        while g < out.len() {
            sx::check(s.peer.s(3).data.len() == g, "h07: window"); s.peer.grant(3, 1); g += 1; s.run();
            sx::check(s.peer.s(3).data.len() == g, "h07: written bytes wait although the window allows them");
            sx::cover("window");
        }
        s.run();
        let x = s.peer.s(3).clone();
        let t = t.borrow();
        sx::check(t.got == sent && t.eof && !t.rerr, "h07: the tunnel does not deliver what was sent");
        sx::check(x.data == out && x.end && x.rst.is_none() && t.wrote && t.shut, "h07: the tunnel does not send what was written");
        sx::cover("tunnel");
    } else {
        sx::check(starts(&sent, &t.borrow().got), "h07: bytes nobody sent");
        sx::check(starts(&out, &s.peer.s(3).data) && !s.peer.s(3).end || s.peer.s(3).data == out, "h07: a tunnel cut off looks complete to the client");
        if end == 1 || end == 3 { sx::check(!t.borrow().eof, "h07: a tunnel cut off looks complete"); }
        sx::cover("cut off");
    }
    if end < 3 { sx::check(!s.done(), "h07: the connection ends with a tunnel"); }
    s.dev.set_eof();
    s.run();
    sx::check(s.done() && s.ex.all_done(), "h07: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h07_small() { h07_tunnel(2, 2) }
#[no_mangle] pub extern "C" fn h07_more() { h07_tunnel(4, 3) }

/// a stream window of any small size never starves a tunnel that is read, in pieces of any size
#[no_mangle] pub extern "C" fn h07_window() {
    let w = 1 + sx::pick(8, "stream window") as u32;
    let piece = 1 + sx::pick(5, "read size");
    let total = 12;
    let t: TunRef = Default::default();
    let t2 = t.clone();
    let inj: Rc<RefCell<Option<Rc<RefCell<Vec<LocalFut<()>>>>>>> = Default::default();
    let i2 = inj.clone();
    let mut s = Srv2::new(|b| { b.initial_stream_window_size(w); }, Box::new(move |_, p, b, _| {
        let on = hyper::upgrade::on(http::Request::from_parts(p, b));
        i2.borrow().as_ref().unwrap().borrow_mut().push(Box::pin(tunnel(on, t2.clone(), vec![], piece, false, false)));
        Box::pin(async move { Ok(ok(HBody::empty())) })
    }));
    *inj.borrow_mut() = Some(s.ex.inject.clone());
    s.peer.start(&[]);
    s.run();
    s.peer.headers(1, false, &[(":method", b"CONNECT"), (":authority", b"h:1")]);
    s.run();
    feed_tunnel(w, total, &mut s.peer, &mut s.ex, &t);
    sx::check(!s.done(), "the connection ends with a tunnel");
    sx::cover("window reopened");
}

// ---------------------------------------------------------------- H13: whatever the client sends

/// an arbitrary frame: any flags, `k` arbitrary bytes of payload, wrong length or not
fn h13_frames(k: usize, n: usize) {
    let mut s = Srv2::new(|_| {}, taking(usize::MAX));
    s.peer.auto_pong = false;
    let start = sx::flag("after the preface");
    if start { s.peer.start(&[]); s.run(); s.peer.request(1, "POST", "/", false, &[]); s.run(); } else { s.peer.raw(PREFACE); }
    s.peer.lax = Some(vec![]);
    let mut away = false;
    for _ in 0..n { let f = odd(k, n > 1); away |= f[3] == GOAWAY; s.peer.raw(&f); s.run(); if s.done() { break; } }
    let was = s.done();
    if !was { s.peer.raw(&headers(5, true, &[(":method", b"GET"), (":scheme", b"http"), (":authority", b"h"), (":path", b"/5")])); s.run(); }
    let l = s.peer.lax.take().unwrap();
    if s.done() {
        let told = l.iter().any(|f| f.0 == GOAWAY);
        sx::check(s.is_err() || away, "h13: the connection ends without a reason");
        if told { sx::cover("told"); }
        sx::cover("refused");
    } else { sx::cover("goes on"); }
    for r in s.reqs() {
        if r.uri == "http://h/5" { sx::check(r.method == "GET" && r.end == End::Eof, "h13: an orderly request is not served"); if !s.done() { sx::check(l.iter().any(|f| f.0 == HEADERS && f.2 == 5), "h13: no response to an orderly request"); sx::cover("served"); } }
        if r.uri == "http://h/" && r.method == "POST" { sx::check(start, "h13: a request nobody sent"); if s.done() { sx::check(r.end != End::Open || s.is_ok(), "h13: a request on a failed connection goes on"); } }
    }
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "h13: the connection outlives its transport");
    sx::check(s.ex.all_done(), "h13: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h13_one() { h13_frames(1, 1) }
#[no_mangle] pub extern "C" fn h13_more() { h13_frames(2, 1) }
#[no_mangle] pub extern "C" fn h13_two() { h13_frames(1, 2) }
