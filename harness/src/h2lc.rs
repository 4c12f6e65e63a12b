//! HTTP/2 client: limits in both directions, and what it tells about the connection.
use crate::{cli::*, cli2h::*, clock, h2p::*, h2x::*, sup::*, sx};
use bytes::Bytes;
use hyper::client::conn::http2::Builder;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

/// streams opened before and after the server tells its limit
#[no_mangle] pub extern "C" fn h16_initial() {
    let conf = sx::pick(4, "streams before the settings: default, 1, 2, 0");
    let n = [100usize, 1, 2, 0][conf];
    let told = sx::pick(4, "limit of the server: none, 1, 2, 3");
    let mut s = Cli2::new(|b| { if conf > 0 { b.initial_max_send_streams(n); } else if sx::flag("set to none") { b.initial_max_send_streams(None); } });
    s.run();
    let total = 4;
    for i in 0..total { s.send(get2(["http://h/0", "http://h/1", "http://h/2", "http://h/3"][i])); s.run(); }
    sx::check(s.peer.strms.iter().filter(|x| !x.blocks.is_empty()).count() == total.min(n), "h16: streams opened before the server's settings differ from the configuration");
    let early = total.min(n);
    s.peer.start(if told > 0 { &[(3, 1)][..] } else { &[][..] });
    if told > 1 { s.peer.set(&[(3, told as u32)]); }
    s.run();
    // answer one by one: never more streams at once than the server allows, all in the end
    let lim = [usize::MAX, 1, 2, 3][told];
    let mut answered = 0;
    while answered < total {
        let open: Vec<u32> = s.peer.strms.iter().filter(|x| !x.blocks.is_empty() && !x.peer_end).map(|x| x.sid).collect();
        let want = (total - answered).min(lim);
        sx::check(open.len() == want || open.len() > want && answered + open.len() <= early, "h16: open streams differ from what the server allows");
        let sid = open[sx::pick(open.len(), "which is answered")];
        let path = s.peer.s(sid).get(":path")[0].clone();
        s.peer.respond(sid, "200", true, &[("x-p", &path)]);
        s.run();
        answered += 1;
        let i = (path[1] - b'0') as usize;
        sx::check(s.resp(i).is_some_and(|r| r.get("x-p") == [&path[..]] && r.end == End::Eof), "h16: the answer does not reach its request");
    }
    sx::check(!s.done(), "h16: the connection ends");
    sx::cover(if early < total { "held back" } else { "at once" });
}
/// response heads around the limit
#[no_mangle] pub extern "C" fn h16_list() {
    let limit = 200usize;
    let mut s = Cli2::new(|b| { b.max_header_list_size(limit as u32); });
    s.peer.start(&[]);
    s.run();
    let i = s.send(get2("http://h/a"));
    let j = s.send(get2("http://h/b"));
    s.run();
    let base = (7 + 3 + 32) + 35;
    let d = [-1i64, 0, 1, 2, 60][sx::pick(5, "bytes over the limit")];
    let v = vec![b'v'; (limit as i64 - base as i64 + d) as usize];
    let bl = block(&[(":status", b"200"), ("x-a", &v)]);
    let end = sx::flag("without a body");
    s.peer.s(1).peer_end = end;
    match sx::pick(2, "one frame, two") {
        0 => s.peer.raw(&fr(HEADERS, END_HEADERS | end as u8, 1, &bl)),
        _ => { let c = [1, bl.len() / 2, bl.len() - 1][sx::pick(3, "cut")]; s.peer.raw(&fr(HEADERS, end as u8, 1, &bl[..c])); if sx::flag("with a pause") { s.run(); } s.peer.raw(&fr(CONT, END_HEADERS, 1, &bl[c..])); }
    }
    s.run();
    match s.out(i) {
        Out::Resp(_) => {
            sx::check(d <= 0, "h16: a head above the limit is delivered");
            if !end { s.peer.data(1, true, b"abc"); s.run(); }
            let r = s.resp(i).unwrap();
            sx::check(r.get("x-a") == [&v[..]] && r.end == End::Eof && r.body == if end { &b""[..] } else { b"abc" }, "h16: a head within the limit is not delivered as sent");
            sx::cover("delivered");
        }
        Out::Err { .. } => { sx::check(d >= 0, "h16: a head within the limit is refused"); sx::cover("refused"); }
        _ => sx::fail("h16: no outcome"),
    }
    sx::check(!s.done(), "h16: the connection ends with a head above the limit");
    s.peer.respond(3, "200", true, &[]);
    s.run();
    sx::check(s.resp(j).is_some_and(|r| r.end == End::Eof), "h16: the other request is not answered");
}
/// streams the server makes the client reset
#[no_mangle] pub extern "C" fn h16_errors() {
    let conf = sx::pick(5, "limit: none, 0, 1, 2, 3");
    let n = [5, 0, 1, 2, 3][conf];
    let mut s = Cli2::new(|b| { b.max_local_error_reset_streams(if conf > 0 { Some(n) } else { None }); });
    s.peer.start(&[]);
    s.run();
    let k = sx::pick(n + 2 - (conf == 0) as usize, "streams");
    let ids: Vec<usize> = (0..k + 1).map(|_| s.send(get2("http://h/"))).collect();
    s.run();
    let together = sx::flag("at once");
    for i in 0..k as u32 {
        let sid = 2 * i + 1;
        match sx::pick(3, "fault: content-length, forbidden field, data beyond content-length") {
            0 => s.peer.respond(sid, "200", true, &[("content-length", b"1")]),
            1 => s.peer.respond(sid, "200", true, &[("connection", b"close")]),
            _ => { s.peer.respond(sid, "200", false, &[("content-length", b"1")]); s.peer.data(sid, false, b"ab"); }
        }
        if !together { s.run(); }
    }
    s.run();
    if k > n { sx::check(s.peer.goaways.iter().any(|g| g.1 == 11), "h16: a server that causes too many stream errors is not told to calm down"); s.dev.set_eof(); s.run(); }
    for i in 0..k { match s.out(ids[i]) { Out::Err { .. } => {} Out::Resp(_) => sx::check(s.resp(ids[i]).unwrap().end == End::Err, "h16: a malformed response ends as if complete"), Out::Pending if i == n => sx::check(false, "h16: no outcome for the response that is one too many"), _ => sx::fail("h16: no outcome for a malformed response") } }
    if k > n {
        sx::check(s.done() && s.is_err() && matches!(s.out(ids[k]), Out::Err { .. }), "h16: the connection goes on");
        sx::cover("ended");
    } else {
        sx::check(s.peer.goaways.is_empty() && !s.done(), "h16: stream errors within the limit end the connection");
        s.peer.respond(2 * k as u32 + 1, "200", true, &[]);
        s.run();
        sx::check(s.resp(ids[k]).is_some_and(|r| r.end == End::Eof), "h16: the next request is not answered");
        sx::cover("goes on");
    }
}
/// how much of a request body is taken while the transport is stuck
#[no_mangle] pub extern "C" fn h16_sendbuf() {
    let m = [1usize, 100, 5000, 40000][sx::pick(4, "send buffer")];
    let f = [1000usize, 3000][sx::pick(2, "frame size")];
    let frames = 120000 / f;
    let b = HBody::new((0..frames).map(|i| Op::Data(Bytes::from(vec![i as u8; f]))).collect());
    let polls = b.polls.clone();
    let mut s = Cli2::new(|c| { c.max_send_buf_size(m); });
    s.peer.start(&[(4, 1 << 20)]);
    s.peer.grant(0, 1 << 20);
    s.run();
    let free = sx::pick(2, "bytes the transport takes first") * 30000;
    s.dev.with(|d| d.wstop = d.tx.len() + free);
    let i = s.send(req2("POST", "http://h/", b));
    s.run();
    let pulled = polls.get() * f;
    sx::check(pulled <= m + free + 16384 + 2 * f + 2000, "h16: more of the body is taken in than the send buffer allows");
    sx::check(pulled > 0, "h16: nothing is taken in");
    s.dev.raise_wstop(usize::MAX);
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.end && x.data.len() == f * frames && x.data.iter().enumerate().all(|(i, b)| *b == (i / f) as u8), "h16: the request body is not intact");
    s.peer.respond(1, "200", true, &[]);
    s.run();
    sx::check(s.resp(i).is_some_and(|r| r.end == End::Eof), "h16: no answer");
    sx::cover(if free > 0 { "stuck later" } else { "stuck" });
}
/// what the server is told, for settings beyond those of h09_settings, and what the application is told of the server's
#[no_mangle] pub extern "C" fn h16_announce() {
    let t = sx::u32v("table size");
    let set = sx::flag("table size is set");
    let ad = sx::pick(4, "adaptive: no, yes, yes then sizes, sizes then yes");
    let mc = sx::pick(3, "streams of the server: default, none, 7");
    let (io, dev) = io(vec![]);
    let mut ex = Ex::new(&[&dev]);
    let mut b = Builder::new(Exec(ex.inject.clone()));
    if set { b.header_table_size(t); } else { b.header_table_size(None); }
    if ad == 3 { b.initial_stream_window_size(70000).initial_connection_window_size(80000); }
    if ad > 0 { b.adaptive_window(true); }
    if ad == 2 { b.initial_stream_window_size(70000).initial_connection_window_size(80000); }
    if mc > 0 { b.max_concurrent_streams(if mc == 2 { Some(7) } else { None }); }
    let (mut tx, conn) = match now(b.handshake::<_, HBody>(io)) { Ok(x) => x, Err(_) => sx::fail("handshake fails") };
    let conn = Rc::new(RefCell::new(conn));
    let c2 = conn.clone();
    ex.spawn(std::future::poll_fn(move |cx| { let r = Pin::new(&mut *c2.borrow_mut()).poll(cx); r.map(|_| ()) }));
    let mut p = Peer::new(&dev, false);
    let mut go = |ex: &mut Ex, p: &mut Peer| loop { ex.run(); if !p.pump() { break; } };
    go(&mut ex, &mut p);
    sx::check(!conn.borrow().is_extended_connect_protocol_enabled(), "h16: extended CONNECT before the server's settings");
    let ec = sx::pick(3, "extended CONNECT: not said, 0, 1");
    let lim = sx::u32v("limit of the server");
    let with = sx::flag("limit is said");
    let mut v: Vec<(u16, u32)> = vec![];
    if ec > 0 { v.push((8, ec as u32 - 1)); }
    if with { v.push((3, lim)); }
    p.start(&v);
    go(&mut ex, &mut p);
    sx::check(conn.borrow().is_extended_connect_protocol_enabled() == (ec == 2), "h16: whether extended CONNECT is possible");
    if with { sx::check(conn.borrow().current_max_send_streams() == lim as usize, "h16: the server's limit on streams"); }
    sx::check(if set { p.setting(1) == Some(t) } else { p.setting(1).is_none() }, "h16: the announced table size differs from the configuration");
    sx::check(p.setting(3) == if mc == 2 { Some(7) } else { None }, "h16: the announced number of streams differs from the configuration");
    let (w, c) = match ad { 0 => (2 << 20, 5 << 20), 2 => (70000, 80000), _ => (65535, 65535) };
    sx::check(p.setting(4).unwrap_or(65535) == w, "h16: the announced stream window differs from the configuration");
    sx::check(p.conn_recv <= c && p.conn_recv > c - 32768 - c / 2 * (ad == 0) as i64, "h16: the connection window differs from the configuration");
    sx::check(p.setting(2) == Some(0), "h16: push is not disabled");
    sx::cover("announced");
}
/// a download under adaptive windows
fn h16_adapt(rounds: usize) {
    let mut s = Cli2::new(|b| { b.adaptive_window(true); });
    s.peer.auto_pong = false;
    s.peer.start(&[]);
    s.run();
    let i = s.send(get2("http://h/"));
    s.run();
    s.peer.respond(1, "200", false, &[]);
    s.run();
    let (mut wnd, mut bw, mut avg) = (65535usize, 0f64, 0f64);
    let mut total = 0usize;
    for _ in 0..rounds {
        let n = [1usize, 1000, 30000, 43690, 60000][sx::pick(5, "bytes of the sample")];
        let rtt = [0u64, 1, 20, 1000][sx::pick(4, "round trip")];
        let pings = s.peer.pings.len();
        let mut left = n;
        while left > 0 {
            let room = s.peer.s(1).recv_wnd.min(s.peer.conn_recv).min(16000);
            sx::check(room > 0, "h16: a download that is read is not allowed to go on");
            let k = left.min(room as usize);
            s.peer.data(1, false, &vec![7u8; k]);
            s.run();
            left -= k;
            total += k;
        }
        sx::check(s.peer.pings.len() <= pings + 1, "h16: more than one ping for a sample");
        if s.peer.pings.len() == pings { sx::cover("not measured"); clock::advance_ms(11000); continue; }
        clock::advance_ms(rtt);
        let p = s.peer.pings[pings].clone();
        s.peer.raw(&ping(true, &p));
        s.run();
        let new = s.peer.their_init as usize;
        sx::check(new >= wnd && new <= 16 << 20, "h16: an adaptive window shrinks or grows without limit");
        let r = rtt as f64 / 1000.0;
        if avg == 0.0 { avg = r } else { avg += (r - avg) * 0.125 }
        let b = n as f64 / (avg * 1.5);
        let grows = b >= bw && n >= wnd * 2 / 3;
        if b >= bw { bw = b }
        sx::check(new == if grows { 2 * n } else { wnd }, "h16: the window does not follow the samples");
        if grows { sx::cover("grown"); sx::check(s.peer.conn_recv > new as i64 / 2, "h16: the connection window does not follow"); } else { sx::cover("kept"); }
        wnd = new;
        clock::advance_ms(11000);
    }
    s.peer.data(1, true, b"");
    s.run();
    sx::check(s.resp(i).is_some_and(|r| r.body.len() == total && r.end == End::Eof), "h16: the download is not intact");
}
#[no_mangle] pub extern "C" fn h16_adaptive() { h16_adapt(2) }
#[no_mangle] pub extern "C" fn h16_adaptive3() { h16_adapt(3) }
