//! HTTP/2 server: limits on what a client can make it hold, and windows that adapt.
use crate::{clock, h2p::*, h2x::*, srv::*, srv2::*, sup::*, sx};
use bytes::Bytes;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// services that wait for their own gate
fn gated(gates: &[Gate]) -> Handler { let g: Vec<Gate> = gates.to_vec(); Box::new(move |i, _p, b, log| { let g = g[i].clone(); Box::pin(async move { drain(b, log, i, usize::MAX).await; g.wait().await; Ok(numbered(i)) }) }) }

/// every sequence of opening, finishing and resetting streams under a limit
fn h15_streams(steps: usize) {
    let n = 1 + sx::pick(2, "streams allowed");
    let gates: Vec<Gate> = (0..steps).map(|_| Gate::new()).collect();
    let mut s = Srv2::new(|b| { b.max_concurrent_streams(n as u32); }, gated(&gates));
    s.peer.start(&[]);
    s.run();
    // streams that count: (stream id, number of the request, its body is still to come)
    let mut live: Vec<(u32, usize, bool)> = vec![];
    let mut refused: Vec<u32> = vec![];
    let (mut next, mut served) = (1u32, 0);
    for _ in 0..steps {
        match sx::pick(4, "event: request, request with a body, answer, reset") {
            k @ 0..=1 => {
                let path = format!("/{}", next);
                s.peer.request(next, "POST", &path, k == 0, &[]);
                if live.len() == n { refused.push(next); } else { live.push((next, served, k == 1)); served += 1; }
                next += 2;
            }
            2 => {
                if live.is_empty() { sx::end(); }
                let (sid, i, body) = live.remove(sx::pick(live.len(), "which"));
                if body { s.peer.data(sid, true, b""); }
                gates[i].open();
                s.run();
                sx::check(s.peer.s(sid).end && s.peer.s(sid).status() == 200, "h15: a request within the limit is not answered");
                sx::cover("answered");
            }
            _ => {
                if live.is_empty() { sx::end(); }
                let (sid, _, _) = live.remove(sx::pick(live.len(), "which"));
                s.peer.rst(sid, 8);
                sx::cover("reset");
            }
        }
        s.run();
        sx::check(s.nreq() == served, "h15: the number of requests that reach the service is not what the limit allows");
        for sid in &refused { sx::check(s.peer.s(*sid).rst == Some(7) && s.peer.s(*sid).blocks.is_empty(), "h15: a stream beyond the limit is not refused"); sx::cover("refused"); }
        for (sid, _, _) in &live { sx::check(s.peer.s(*sid).rst.is_none(), "h15: a stream within the limit is reset"); }
        sx::check(!s.done() && s.peer.goaways.is_empty(), "h15: the connection ends with a stream beyond the limit");
    }
}
#[no_mangle] pub extern "C" fn h15_concurrent() { h15_streams(5) }
#[no_mangle] pub extern "C" fn h15_concurrent7() { h15_streams(7) }

/// header lists around the limit, in one frame or two
#[no_mangle] pub extern "C" fn h15_list() {
    let limit = 300usize;
    let mut s = Srv2::new(|b| { b.max_header_list_size(limit as u32); }, reading_all());
    s.peer.start(&[]);
    s.run();
    let before = sx::flag("a request before");
    let mut sid = 1;
    if before { s.peer.request(1, "GET", "/", true, &[]); s.run(); sid = 3; }
    // method, scheme, authority and path take 42 + 43 + 43 + 38 bytes, a field "x-a" 35 and its value
    let base = (7 + 3 + 32) + (7 + 4 + 32) + (10 + 1 + 32) + (5 + 1 + 32) + 35;
    let d = [-1i64, 0, 1, 2, 60][sx::pick(5, "bytes over the limit")];
    let v = vec![b'v'; (limit as i64 - base as i64 + d) as usize];
    let f: Vec<(&str, &[u8])> = vec![(":method", b"GET"), (":scheme", b"http"), (":authority", b"h"), (":path", b"/"), ("x-a", &v)];
    let bl = block(&f);
    s.peer.s(sid).peer_end = true;
    match sx::pick(3, "one frame, two, two with a pause") {
        0 => s.peer.raw(&fr(HEADERS, END_HEADERS | 1, sid, &bl)),
        p => { let c = [1, bl.len() / 2, bl.len() - 1][sx::pick(3, "cut")]; s.peer.raw(&fr(HEADERS, 1, sid, &bl[..c])); if p == 2 { s.run(); } s.peer.raw(&fr(CONT, END_HEADERS, sid, &bl[c..])); }
    }
    s.run();
    let k = before as usize;
    let x = s.peer.s(sid).clone();
    if d > 0 {
        sx::check(s.nreq() == k, "h15: a head above the limit reached the service");
        sx::check(x.rst.is_some() || x.status() == 431, "h15: a head above the limit is not refused");
        sx::cover("refused");
    } else if s.nreq() == k + 1 {
        sx::check(s.reqs()[k].get("x-a") == [&v[..]] && x.status() == 200 && x.end, "h15: a head within the limit is not served as sent");
        sx::cover("served");
    } else { sx::check(d == 0, "h15: a head within the limit is refused"); }
    sx::check(!s.done(), "h15: the connection ends with a head above the limit");
    let c = s.nreq();
    s.peer.request(sid + 2, "GET", "/", true, &[]);
    s.run();
    sx::check(s.nreq() == c + 1 && s.peer.s(sid + 2).end, "h15: the next request is not served");
}
fn reading_all() -> Handler { Box::new(|i, _p, b, log| Box::pin(async move { drain(b, log, i, usize::MAX).await; Ok(numbered(i % 10)) })) }

/// streams opened and reset before anyone takes them, at once
#[no_mangle] pub extern "C" fn h15_resets() {
    let conf = sx::pick(5, "limit: default, 0, 1, 2, 3");
    let n = [20, 0, 1, 2, 3][conf];
    let mut s = Srv2::new(|b| { if conf > 0 { b.max_pending_accept_reset_streams(n); } else if sx::flag("set to none") { b.max_pending_accept_reset_streams(None); } }, reading_all());
    s.peer.start(&[]);
    s.run();
    let k = if conf > 0 { sx::pick(n + 2, "streams") } else { n + sx::pick(2, "streams") };
    let body = sx::flag("with a body to come");
    for i in 0..k as u32 { let sid = 2 * i + 1; s.peer.request(sid, "POST", "/", !body, &[]); s.peer.rst(sid, 8); }
    s.run();
    if k > n {
        sx::check(s.peer.goaways.iter().any(|g| g.1 == 11), "h15: a client that resets too many streams is not told to calm down");
        s.dev.set_eof();
        s.run();
        sx::check(s.done() && s.is_err(), "h15: the connection goes on");
        sx::cover("ended");
    } else {
        sx::check(s.peer.goaways.is_empty() && !s.done(), "h15: resets within the limit end the connection");
        let c = s.nreq();
        s.peer.request(101, "GET", "/", true, &[]);
        s.run();
        sx::check(s.nreq() == c + 1 && s.peer.s(101).end && s.peer.s(101).status() == 200, "h15: the next request is not served");
        sx::cover("goes on");
    }
}
/// streams the client makes the server reset
#[no_mangle] pub extern "C" fn h15_errors() {
    let conf = sx::pick(5, "limit: none, 0, 1, 2, 3");
    let n = [6, 0, 1, 2, 3][conf];
    let mut s = Srv2::new(|b| { b.max_local_error_reset_streams(if conf > 0 { Some(n) } else { None }); }, reading_all());
    s.peer.start(&[]);
    s.run();
    let k = sx::pick(n + 2 - (conf == 0) as usize, "streams");
    let together = sx::flag("at once");
    for i in 0..k as u32 {
        let sid = 2 * i + 1;
        match sx::pick(3, "fault: content-length, forbidden field, data beyond content-length") {
            0 => s.peer.request(sid, "POST", "/", true, &[("content-length", b"1")]),
            1 => s.peer.request(sid, "POST", "/", true, &[("connection", b"close")]),
            _ => { s.peer.request(sid, "POST", "/", false, &[("content-length", b"1")]); s.peer.data(sid, false, b"ab"); }
        }
        if !together { s.run(); }
    }
    s.run();
    if k > n {
        sx::check(s.peer.goaways.iter().any(|g| g.1 == 11), "h15: a client that causes too many stream errors is not told to calm down");
        s.dev.set_eof();
        s.run();
        sx::check(s.done() && s.is_err(), "h15: the connection goes on");
        sx::cover("ended");
    } else {
        sx::check(s.peer.goaways.is_empty() && !s.done(), "h15: stream errors within the limit end the connection");
        for i in 0..k as u32 { sx::check(s.peer.s(2 * i + 1).rst.is_some(), "h15: a malformed stream is not reset"); }
        s.peer.request(101, "GET", "/", true, &[]);
        s.run();
        sx::check(s.peer.s(101).end && s.peer.s(101).status() == 200, "h15: the next request is not served");
        sx::cover("goes on");
    }
}
/// how much of a response is taken from the service while the transport is stuck
#[no_mangle] pub extern "C" fn h15_sendbuf() {
    let m = [1usize, 100, 5000, 40000][sx::pick(4, "send buffer")];
    let f = [1000usize, 3000][sx::pick(2, "frame size")];
    let frames = 120000 / f;
    let b = HBody::new((0..frames).map(|i| Op::Data(Bytes::from(vec![i as u8; f]))).collect());
    let polls = b.polls.clone();
    let b = RefCell::new(Some(b));
    let mut s = Srv2::new(|c| { c.max_send_buf_size(m); }, Box::new(move |_, _, _, _| { let r = b.borrow_mut().take().unwrap(); Box::pin(async move { Ok(ok(r)) }) }));
    s.peer.start(&[(4, 1 << 20)]);
    s.peer.grant(0, 1 << 20);
    s.run();
    let free = sx::pick(2, "bytes the transport takes first") * 30000;
    s.dev.with(|d| d.wstop = d.tx.len() + free);
    s.peer.request(1, "GET", "/", true, &[]);
    s.run();
    let pulled = polls.get() * f;
    // the buffer, what the transport took, a frame being written and one that did not fit any more
    sx::check(pulled <= m + free + 16384 + 2 * f + 2000, "h15: more of the response is taken in than the send buffer allows");
    sx::check(pulled > 0, "h15: nothing is taken in");
    s.dev.raise_wstop(usize::MAX);
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.end && x.data.len() == f * frames && x.data.iter().enumerate().all(|(i, b)| *b == (i / f) as u8), "h15: the response is not intact");
    sx::cover(if free > 0 { "stuck later" } else { "stuck" });
}
/// what the client is told, for settings beyond those of h03_settings
#[no_mangle] pub extern "C" fn h15_announce() {
    let t = sx::u32v("table size");
    let set = sx::flag("table size is set");
    let ad = sx::pick(4, "adaptive: no, yes, yes then sizes, sizes then yes");
    let none = sx::flag("streams unlimited");
    let mut s = Srv2::new(|b| {
        if set { b.header_table_size(t); } else { b.header_table_size(None); }
        if none { b.max_concurrent_streams(None); }
        if ad == 3 { b.initial_stream_window_size(70000).initial_connection_window_size(80000); }
        if ad > 0 { b.adaptive_window(true); }
        if ad == 2 { b.initial_stream_window_size(70000).initial_connection_window_size(80000); }
        if sx::flag("unset values") { b.initial_stream_window_size(None).initial_connection_window_size(None).max_frame_size(None); }
    }, reading_all());
    s.peer.start(&[]);
    s.run();
    let p = &s.peer;
    sx::check(if set { p.setting(1) == Some(t) } else { p.setting(1).is_none() }, "h15: the announced table size differs from the configuration");
    sx::check(p.setting(3) == if none { None } else { Some(200) }, "h15: the announced number of streams differs from the configuration");
    let (w, c) = match ad { 0 => (1 << 20, 1 << 20), 2 => (70000, 80000), _ => (65535, 65535) };
    sx::check(p.setting(4).unwrap_or(65535) == w, "h15: the announced stream window differs from the configuration");
    sx::check(p.conn_recv <= c && p.conn_recv > c - 32768, "h15: the connection window differs from the configuration");
    s.peer.request(1, "GET", "/", true, &[]);
    s.run();
    sx::check(s.peer.s(1).end && s.peer.s(1).status() == 200, "h15: the request is not served");
    sx::cover("announced");
}
/// an upload under adaptive windows: they grow as the samples tell, never shrink, and nothing is lost
fn h15_adapt(rounds: usize) {
    let mut s = Srv2::new(|b| { b.adaptive_window(true); }, reading_all());
    s.peer.auto_pong = false;
    s.peer.start(&[]);
    s.run();
    s.peer.request(1, "POST", "/", false, &[]);
    s.run();
    let (mut wnd, mut bw, mut avg) = (65535usize, 0f64, 0f64);
    let (mut total, mut conn_sent) = (0usize, 0i64);
    for _ in 0..rounds {
        // a sample: data until the ping is answered
        let n = [1usize, 1000, 30000, 43690, 60000][sx::pick(5, "bytes of the sample")];
        let rtt = [0u64, 1, 20, 1000][sx::pick(4, "round trip")];
        let pings = s.peer.pings.len();
        let mut left = n;
        while left > 0 {
            let room = s.peer.s(1).recv_wnd.min(s.peer.conn_recv).min(16000);
            sx::check(room > 0, "h15: an upload that is read is not allowed to go on");
            let k = left.min(room as usize);
            s.peer.data(1, false, &vec![7u8; k]);
            s.run();
            left -= k;
            total += k;
        }
        sx::check(s.peer.pings.len() <= pings + 1, "h15: more than one ping for a sample");
        if s.peer.pings.len() == pings { sx::cover("not measured"); clock::advance_ms(11000); continue; }
        clock::advance_ms(rtt);
        let p = s.peer.pings[pings].clone();
        s.peer.raw(&ping(true, &p));
        s.run();
        let new = s.peer.their_init as usize;
        sx::check(new >= wnd && new <= 16 << 20, "h15: an adaptive window shrinks or grows without limit");
        let r = rtt as f64 / 1000.0;
        if avg == 0.0 { avg = r } else { avg += (r - avg) * 0.125 }
        let b = n as f64 / (avg * 1.5);
        // a sample fills the window, and the connection is not slower than before
        let grows = b >= bw && n >= wnd * 2 / 3;
        if b >= bw { bw = b }
        sx::check(new == if grows { 2 * n } else { wnd }, "h15: the window does not follow the samples");
        if grows { sx::cover("grown"); sx::check(s.peer.conn_recv > new as i64 / 2, "h15: the connection window does not follow"); } else { sx::cover("kept"); }
        wnd = new;
        clock::advance_ms(11000);
    }
    s.peer.data(1, true, b"");
    s.run();
    sx::check(s.reqs()[0].body.len() == total && s.reqs()[0].end == End::Eof && s.peer.s(1).end, "h15: the upload is not intact");
}
#[no_mangle] pub extern "C" fn h15_adaptive() { h15_adapt(2) }
#[no_mangle] pub extern "C" fn h15_adaptive3() { h15_adapt(3) }
