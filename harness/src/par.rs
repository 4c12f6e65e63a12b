//! Two threads run the tasks of an executor at the same time. The checker puts a call of `sx_point` before every atomic
//! operation of the compiled code; where the running thread is preempted is a symbolic value, so the solver decides
//! over every interleaving of atomic operations (sequentially consistent) with a bounded number of preemptions.
use crate::{cli, cli2h::*, h2p::*, srv, srv2::*, sup::*, sx, tun};
use hyper::body::{Body, Incoming};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

extern "C" {
    fn sx_spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u64;
    fn sx_switch(t: u64);
}
static mut ON: bool = false;
static mut EX: *mut Ex = std::ptr::null_mut();
static mut ME: usize = 0;
/// thread 1 exists
static mut TWO: bool = false;
/// the thread is in the middle of polling a task
static mut MID: [bool; 2] = [false; 2];
static mut BUDGET: u32 = 0;
static mut ORDER: u32 = 0;
static mut GAP: u8 = 0;
static mut COUNT: u8 = 0;
/// atomic operations since the last switch
static mut SPIN: u32 = 0;

unsafe fn switch() {
    let o = 1 - ME;
    ME = o;
    SPIN = 0;
    sx_switch(o as u64);
}
fn first_ready() -> Option<usize> {
    let _q = sx::Quiet::new();
    unsafe {
        let e = &mut *EX;
        e.adopt();
        (0..e.tasks.len()).find(|&i| e.is_ready(i))
    }
}
/// Which of several woken tasks a thread takes next is arbitrary (the first few times).
fn next_ready() -> Option<usize> {
    let _q = sx::Quiet::new();
    unsafe {
        let e = &mut *EX;
        e.adopt();
        let v: Vec<usize> = (0..e.tasks.len()).filter(|&i| e.is_ready(i)).collect();
        if v.len() > 1 && ORDER > 0 { ORDER -= 1; return Some(v[sx::pick(v.len(), "next task")]); }
        v.first().copied()
    }
}
/// before every atomic operation
#[no_mangle]
pub extern "C" fn sx_point() {
    unsafe {
        if !ON || sx::QUIET > 0 { return; }
        // no task takes that many steps: it spins on something that the other thread holds
        if MID[1 - ME] { SPIN += 1; if SPIN > 2000 { switch(); return; } }
        if BUDGET == 0 { return; }
        if !MID[1 - ME] && first_ready().is_none() { return; }
        if GAP == COUNT {
            BUDGET -= 1;
            COUNT = 0;
            if BUDGET > 0 { GAP = sx::byte("gap"); }
            switch();
        } else if COUNT == 254 {
            COUNT = 0;
            GAP = sx::byte("gap");
        } else { COUNT += 1; }
    }
}
/// a thread that spins lets the other one go on
#[no_mangle]
pub extern "C" fn sx_yield() -> i32 { unsafe { if ON && MID[1 - ME] { switch(); } } 0 }
#[no_mangle]
pub extern "C" fn sx_pause() { sx_yield(); }
/// futex: a thread that waits lets the other one go on; if that one is not running either, nobody ever wakes it
#[no_mangle]
pub extern "C" fn sx_syscall(n: i64, _a: *const u32, op: i32, _v: u32) -> i64 {
    if n != 202 { sx::fail("unexpected system call"); }
    if matches!(op & 0x7f, 0 | 9) {
        unsafe { if ON && MID[1 - ME] { switch(); } else { sx::fail("deadlock: a lock is never released"); } }
    }
    0
}
unsafe fn work(me: usize) {
    let mut again = 0;
    let mut last = usize::MAX;
    loop {
        if let Some(i) = next_ready() {
            // a task that waits for the other thread by waking itself does not keep that thread from running for ever
            again = if i == last { again + 1 } else { 0 };
            last = i;
            if again >= 3 && MID[1 - me] { again = 0; switch(); continue; }
            MID[me] = true;
            Ex::poll_raw(EX, i);
            MID[me] = false;
        } else if me == 0 {
            if !MID[1] { return; }
            switch();
        } else { switch(); }
    }
}
extern "C" fn second(_: *mut u8) { unsafe { work(1); } }
pub fn run(ex: &mut Ex) {
    unsafe {
        EX = ex;
        if !TWO { TWO = true; sx_spawn(second, std::ptr::null_mut()); }
        ON = true;
        work(0);
        ON = false;
    }
}
/// how often a thread may be preempted from now on
pub fn preemptions(n: u32) { unsafe { BUDGET = n; ORDER = 2; COUNT = 0; GAP = sx::byte("gap"); } }

// ---------------------------------------------------------------- HTTP/1 server

/// A request body is read by a task of its own while the connection receives it; the response waits for that task.
fn srv_body(n: u32, kinds: usize, act: usize) {
    let kind = sx::pick(kinds, "body: length, expected, trailers, chunked");
    let expect = kind == 1;
    let body: &[u8] = match kind { 0 => b"Content-Length: 4\r\n\r\nabcd", 1 => b"Expect: 100-continue\r\nContent-Length: 4\r\n\r\nabcd", 2 => b"Transfer-Encoding: chunked\r\n\r\n4\r\nabcd\r\n0\r\nt: 1\r\n\r\n", _ => b"Transfer-Encoding: chunked\r\n\r\n2\r\nab\r\n2\r\ncd\r\n0\r\n\r\n" };
    let head = b"POST / HTTP/1.1\r\nHost: h\r\n";
    let all = cat(&[head, body]);
    let cut = head.len() + find(body, b"\r\n\r\n").unwrap() + 4;
    let next = b"GET /2 HTTP/1.1\r\nHost: h\r\n\r\n";
    // 0: everything is read; 1: at most a frame is read; 2: the client closes inside the body
    let frames = if act == 1 { sx::pick(2, "frames read") } else { usize::MAX };
    let waits = act == 0 && sx::flag("the response body waits for the reader");
    let (io, dev) = io(match act { 2 => all[..cut + 2].to_vec(), _ => cat(&[&all, next]) });
    dev.with(|s| { s.cuts = if kind < 2 { vec![cut, cut + 2, cut + 4] } else { vec![cut, cut + 5] }; s.eof = act == 2; });
    let inject: Rc<RefCell<Vec<LocalFut<()>>>> = Default::default();
    let i2 = inject.clone();
    let g = Gate::new();
    let g2 = g.clone();
    let mut b = srv::builder();
    let mut s = srv::Srv::new(&b, (io, dev), Box::new(move |i, _p, b, log| {
        if i > 0 { return Box::pin(async move { Ok(srv::numbered(i)) }); }
        let (g, g3) = (g2.clone(), g2.clone());
        i2.borrow_mut().push(Box::pin(async move { drain(b, log, i, frames).await; g.open(); }));
        Box::pin(async move { Ok(srv::ok(HBody::new(if waits { vec![Op::Wait(g3), Op::Data(bytes::Bytes::from_static(b"#0"))] } else { vec![Op::Data(bytes::Bytes::from_static(b"#0"))] }))) })
    }));
    s.ex.inject = inject;
    preemptions(n);
    s.ex.run_par();
    s.ex.run();
    let r = s.reqs();
    sx::check(!r.is_empty() && g.is_open(), "the task that reads the body never ends");
    match act {
        0 => {
            sx::check(r[0].end == End::Eof && r[0].body == b"abcd", "the request body does not arrive");
            sx::check(r[0].trailers.is_some() == (kind == 2), "the trailers do not arrive");
            sx::check(r.len() == 2, "the next request is not served");
            sx::check(!s.done(), "the connection ends");
            sx::cover("read");
        }
        1 => {
            sx::check(r.len() == 2 || s.done(), "the connection stalls");
            sx::cover("dropped");
        }
        _ => {
            sx::check(r[0].end == End::Err && b"abcd".starts_with(&r[0].body), "a body cut off looks complete");
            sx::check(s.done() && r.len() == 1, "the connection does not end");
            sx::cover("cut off");
            return;
        }
    }
    let out = s.out();
    let out: &[u8] = if starts(&out, b"HTTP/1.1 100 Continue\r\n\r\n") { sx::check(expect, "100 Continue unasked"); &out[25..] } else { &out };
    let m: Vec<&str> = r.iter().map(|m| m.method.as_str()).collect();
    let w = match wire_responses(out, &m, s.dev.is_shutdown()) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) };
    sx::check(w.len() == r.len(), "a response is missing");
    for (i, m) in w.iter().enumerate() { sx::check(m.complete && m.body == [b'#', b'0' + i as u8], "a response is damaged"); }
}
#[no_mangle] pub extern "C" fn x01_body() { srv_body(2, 4, 0) }
#[no_mangle] pub extern "C" fn x01_drop() { srv_body(2, 4, 1) }
#[no_mangle] pub extern "C" fn x01_cut() { srv_body(2, 4, 2) }
#[no_mangle] pub extern "C" fn x01_body3() { srv_body(3, 2, 0) }
#[no_mangle] pub extern "C" fn x01_drop3() { srv_body(3, 2, 1) }

// ---------------------------------------------------------------- HTTP/1 client

/// Callers submit requests, read responses and drop things on one thread while the connection runs on another.
fn cli(n: u32) {
    let (io, dev) = io(vec![]);
    let (tx, conn) = match cli::now(cli::builder().handshake::<_, HBody>(io)) { Ok(x) => x, Err(_) => sx::fail("handshake fails") };
    let mut ex = Ex::new(&[&dev]);
    let ended: Rc<Cell<u8>> = Default::default();
    let kill: Rc<Cell<bool>> = Default::default();
    let (e2, k2) = (ended.clone(), kill.clone());
    let mut conn = Some(conn);
    let ct = ex.spawn(std::future::poll_fn(move |cx| {
        if k2.get() { conn = None; e2.set(3); return std::task::Poll::Ready(()); }
        match Pin::new(conn.as_mut().unwrap()).poll(cx) {
            std::task::Poll::Ready(r) => { conn = None; e2.set(if r.is_ok() { 1 } else { 2 }); std::task::Poll::Ready(()) }
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    }));
    // what happens beside the first request: answered; answered and closed; closed; connection dropped; response future dropped
    let fate = sx::pick(5, "fate");
    let log = log();
    let outs: Rc<RefCell<Vec<cli::Out>>> = Rc::new(RefCell::new(vec![cli::Out::Pending; 2]));
    let finished: Rc<Cell<u8>> = Default::default();
    let body = sx::flag("the response body is long");
    let resp: &[u8] = if body { b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n2\r\ncd\r\n0\r\n\r\n" } else { b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nabcd" };
    dev.with(|s| {
        if fate < 2 || fate == 4 { s.auto.push_back((b"/1 HTTP/1.1\r\nhost: h\r\n\r\n".to_vec(), resp.to_vec(), fate == 1)); }
        if fate == 0 || fate == 4 { s.auto.push_back((b"/2 HTTP/1.1\r\nhost: h\r\n\r\n".to_vec(), b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nefgh".to_vec(), false)); }
    });
    // wait: the caller waits for readiness between the requests, or sends the second one at once
    let wait = sx::flag("wait until ready");
    // how much of the first response is read before its body is dropped
    let frames = if fate == 0 { [usize::MAX, 1, 0][sx::pick(3, "frames read")] } else { usize::MAX };
    let (l2, o2, f2) = (log.clone(), outs.clone(), finished.clone());
    ex.spawn(async move {
        let mut tx = tx;
        for k in 0..2usize {
            if k == 1 && wait { if tx.ready().await.is_err() { f2.set(2); break; } }
            let f = tx.try_send_request(cli::get(["/1", "/2"][k]));
            if fate == 4 && k == 0 { drop(f); continue; }
            match f.await {
                Ok(r) => {
                    let (p, b) = r.into_parts();
                    let i = log_resp(&l2, &p, &b);
                    o2.borrow_mut()[k] = cli::Out::Resp(i);
                    drain(b, l2.clone(), i, if k == 0 { frames } else { usize::MAX }).await;
                }
                Err(mut e) => { let m = e.take_message().is_some(); o2.borrow_mut()[k] = cli::errout(e.error(), m); }
            }
        }
        drop(tx);
        f2.set(f2.get() + 1);
    });
    if fate == 2 || fate == 3 {
        let (d, k) = (dev.clone(), kill.clone());
        let wk = ex.waker(ct);
        ex.spawn(async move { if fate == 2 { d.set_eof(); } else { k.set(true); wk.wake(); } });
    }
    preemptions(n);
    ex.run_par();
    ex.run();
    sx::check(finished.get() > 0, "a request never gets an outcome");
    let w = dev.tx();
    let o = outs.borrow().clone();
    for k in 0..2 {
        let sent = find(&w, [b"GET /1 ", b"GET /2 "][k]).is_some();
        match o[k] {
            cli::Out::Pending => sx::check(finished.get() > 1 || fate == 4 && k == 0, "a request has no outcome"),
            cli::Out::Resp(i) => {
                let m = &log.borrow()[i];
                let all: &[u8] = [b"abcd", b"efgh"][k];
                sx::check(sent && if k == 0 && frames < 9 { starts(all, &m.body) && matches!(m.end, End::Dropped | End::Eof) } else { m.body == all && m.end == End::Eof }, "a response is damaged or goes to another request");
                sx::cover("answered");
            }
            cli::Out::Err { returned, canceled, .. } => {
                sx::check(fate != 0 && fate != 4 || k == 1, "a request fails for no reason");
                // a request sent without waiting may find the connection busy or closed
                if fate == 0 { sx::check((!wait || frames < 9) && canceled, "a request fails for no reason"); }
                sx::check(returned == !sent, "a request is given back although it was written, or lost although it was not");
                sx::cover(if sent { "failed" } else { "given back" });
            }
            _ => {}
        }
    }
    if fate == 0 { sx::check(matches!(o[0], cli::Out::Resp(_)), "the first request is not answered"); }
    if wait && fate == 0 && frames > 9 { sx::check(matches!(o[1], cli::Out::Resp(_)), "the second request is not answered"); }
    sx::check(ended.get() > 0, "the connection goes on although nobody can use it");
}
#[no_mangle] pub extern "C" fn x01_client() { cli(1) }
#[no_mangle] pub extern "C" fn x01_client2() { cli(2) }

// ---------------------------------------------------------------- upgrades

/// The upgrade is awaited on one thread while the connection agrees (or not) on another.
fn upgrade(n: u32) {
    let accept = sx::flag("accept");
    let head: &[u8] = b"GET /u HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: x\r\n\r\n";
    let (io, dev) = io(cat(&[head, if accept { b"xyz" } else { b"" as &[u8] }]));
    dev.with(|s| s.eof = true);
    let t: tun::TunRef = Default::default();
    let inject: Rc<RefCell<Vec<LocalFut<()>>>> = Default::default();
    let (t2, i2) = (t.clone(), inject.clone());
    let size = 1 + sx::pick(2, "bytes per read");
    let log = log();
    let svc = srv::Svc { h: RefCell::new(Box::new(move |_, p, b, _| {
        let on = hyper::upgrade::on(http::Request::from_parts(p, b));
        i2.borrow_mut().push(Box::pin(tun::tunnel(on, t2.clone(), b"tt".to_vec(), size, false, true)));
        Box::pin(async move {
            if !accept { return Ok(srv::status(400, HBody::full(b"no"))); }
            let mut r = srv::status(101, HBody::empty());
            r.headers_mut().insert("connection", hv(b"upgrade"));
            r.headers_mut().insert("upgrade", hv(b"x"));
            Ok(r)
        })
    })), log: log.clone() };
    let mut ex = Ex::new(&[&dev]);
    ex.inject = inject;
    let mut b = srv::builder();
    b.half_close(true);
    let ended: Rc<Cell<bool>> = Default::default();
    let e2 = ended.clone();
    let c = b.serve_connection(io, svc).with_upgrades();
    ex.spawn(async move { let r = c.await; e2.set(r.is_ok()); });
    preemptions(n);
    ex.run_par();
    ex.run();
    let t = t.borrow();
    let out = dev.tx();
    if accept {
        sx::check(t.up && t.got == b"xyz" && t.eof, "the application does not see the bytes of the upgraded protocol");
        sx::check(starts(&out, b"HTTP/1.1 101 ") && out.ends_with(b"\r\n\r\ntt"), "the response head or the tunnel bytes are missing");
        sx::cover("upgraded");
    } else {
        sx::check(t.failed && !t.up, "a refused upgrade has no outcome");
        sx::check(out.ends_with(b"no"), "the response is missing");
        sx::cover("refused");
    }
    sx::check(ended.get(), "the connection does not end");
}
#[no_mangle] pub extern "C" fn x01_upgrade() { upgrade(2) }
#[no_mangle] pub extern "C" fn x01_upgrade3() { upgrade(3) }

// ---------------------------------------------------------------- HTTP/2

/// Two callers submit a request each on one thread, wait for the outcome and read the response while the connection runs on another.
fn cli2(n: u32, phase: usize) {
    // both answered; GOAWAY; transport ends; connection dropped; a response future dropped; a stream reset
    let fate = sx::pick(6, "fate");
    let mut c = Cli2::new(|_| {});
    c.peer.start(&[]);
    c.run();
    let outs: Rc<RefCell<Vec<cli::Out>>> = Rc::new(RefCell::new(vec![cli::Out::Pending; 2]));
    let post = sx::flag("the first request has a body");
    let mut tx = c.tx.take();
    for k in 0..2usize {
        let mut tx = if k == 0 { tx.clone().unwrap() } else { tx.take().unwrap() };
        let (o, log) = (outs.clone(), c.log.clone());
        c.ex.spawn(async move {
            let r = if k == 0 && post { req2("POST", "http://h/1", HBody::new(vec![Op::Data(bytes::Bytes::from_static(b"ab")), Op::Pend, Op::Data(bytes::Bytes::from_static(b"cd"))])) } else { get2(["http://h/1", "http://h/2"][k]) };
            let f = tx.try_send_request(r);
            if fate == 4 && k == 0 { drop(f); o.borrow_mut()[k] = cli::Out::Gone; return; }
            match f.await {
                Ok(r) => {
                    let (p, b) = r.into_parts();
                    let i = log_resp(&log, &p, &b);
                    o.borrow_mut()[k] = cli::Out::Resp(i);
                    drain(b, log, i, usize::MAX).await;
                }
                Err(mut e) => { let m = e.take_message().is_some(); o.borrow_mut()[k] = cli::errout(e.error(), m); }
            }
            drop(tx);
        });
    }
    let event = |c: &mut Cli2| {
        let (d, kill, w) = (c.dev.clone(), c.kill.clone(), c.ex.waker(c.task));
        c.ex.spawn(async move {
            match fate { 1 => d.feed(&goaway(1, 0)), 2 => d.set_eof(), 3 => { kill.set(true); w.wake(); } 5 => d.feed(&rst(1, 8)), _ => {} }
        });
    };
    if phase == 0 { if fate != 5 { event(&mut c); } preemptions(n); }
    loop { c.ex.run_par(); if !c.peer.pump() { break; } }
    let mut told = vec![];
    for s in c.peer.strms.clone() {
        if !s.open() || fate == 1 && phase == 0 && s.sid > 1 { continue; }
        let p = s.get(":path").remove(0);
        let k = (p[1] - b'1') as usize;
        c.peer.respond(s.sid, "200", false, &[]);
        c.peer.data(s.sid, false, &[b'a' + k as u8]);
        c.peer.data(s.sid, true, b"z");
        told.push(k);
    }
    if phase == 1 { event(&mut c); preemptions(n); }
    loop { c.ex.run_par(); if !c.peer.pump() { break; } }
    for k in 0..2 {
        let sent = c.peer.strms.iter().any(|s| s.get(":path").first().map_or(false, |p| p == [&b"/1"[..], b"/2"][k]));
        match outs.borrow()[k] {
            cli::Out::Pending => sx::fail("a request has no outcome"),
            cli::Out::Resp(i) => {
                let m = &c.log.borrow()[i];
                sx::check(m.end != End::Open, "a response body never ends");
                let all = m.body == [b'a' + k as u8, b'z'];
                sx::check(sent && if m.end == End::Eof { all } else { [b'a' + k as u8, b'z'].starts_with(&m.body) && matches!(fate, 2 | 5) && phase == 1 }, "a response is damaged or goes to another request");
                sx::cover("answered");
            }
            cli::Out::Err { returned, .. } => {
                // sent in order: the first request is on stream 1
                sx::check(!matches!(fate, 0 | 4) && !(fate == 5 && (k == 1 && c.peer.strms.len() == 2 && c.peer.s(1).get(":path")[0] == b"/1")), "a request fails for no reason");
                sx::check(!(returned && sent), "a request is given back although it was sent");
                sx::cover(if returned { "given back" } else { "failed" });
            }
            _ => {}
        }
    }
    sx::check(c.done(), "the connection goes on although nobody can use it");
}
#[no_mangle] pub extern "C" fn x02_submit() { cli2(1, 0) }
#[no_mangle] pub extern "C" fn x02_answer() { cli2(1, 1) }

/// Request bodies are read by tasks of their own while the HTTP/2 connection receives them; the response waits for the reader or not.
fn srv_h2(n: u32) {
    // all read; dropped after a frame; stream reset; graceful shutdown; transport ends
    let fate = sx::pick(5, "fate");
    let waits = sx::flag("the response body waits for the reader");
    let pings = sx::flag("keep-alive and adaptive window");
    let inject: Rc<RefCell<Vec<LocalFut<()>>>> = Default::default();
    let i2 = inject.clone();
    let g = Gate::new();
    let g2 = g.clone();
    let mut s = Srv2::new(|b| { b.initial_stream_window_size(4); if pings { b.adaptive_window(true).timer(Tm::new()).keep_alive_interval(std::time::Duration::from_secs(5)); } }, Box::new(move |i, _p, b, log| {
        let (g, g3) = (g2.clone(), g2.clone());
        i2.borrow_mut().push(Box::pin(async move { drain(b, log, i, if fate == 1 { 1 } else { usize::MAX }).await; g.open(); }));
        Box::pin(async move { Ok(srv::ok(HBody::new(if waits { vec![Op::Wait(g3), Op::Data(bytes::Bytes::from_static(b"#0"))] } else { vec![Op::Data(bytes::Bytes::from_static(b"#0"))] }))) })
    }));
    s.peer.start(&[]);
    s.run();
    s.peer.request(1, "POST", "/", false, &[]);
    s.peer.data(1, false, b"abc");
    s.run();
    // from here on the reader runs on the other thread
    for f in inject.borrow_mut().drain(..) { s.ex.spawn_box(f); }
    let (d, shut, w) = (s.dev.clone(), s.shut.clone(), s.ex.waker(s.task));
    s.peer.s(1).recv_wnd -= 1;
    s.peer.conn_recv -= 1;
    s.ex.spawn(async move {
        match fate { 2 => d.feed(&rst(1, 8)), 4 => d.set_eof(), _ => d.feed(&data(1, true, b"d")) }
        if fate == 3 { shut.set(true); w.wake(); }
    });
    preemptions(n);
    loop { s.ex.run_par(); if !s.peer.pump() { break; } }
    let r = s.reqs();
    sx::check(r.len() == 1 && g.is_open(), "the task that reads the body never ends");
    let st = s.peer.s(1).clone();
    match fate {
        0 | 3 => {
            sx::check(r[0].end == End::Eof && r[0].body == b"abcd", "the request body does not arrive");
            sx::check(st.end && st.status() == 200 && st.data == b"#0", "the response does not arrive");
            sx::cover("served");
        }
        1 => { sx::check(st.end && st.status() == 200 && st.data == b"#0", "the response does not arrive"); sx::cover("dropped"); }
        _ => { sx::check(r[0].end == End::Err && b"abc".starts_with(&r[0].body[..]), "a body cut off looks complete"); sx::cover("cut off"); }
    }
    sx::check(s.done() == (fate >= 3), "the connection ends without need, or does not end");
    if fate == 3 { sx::check(s.is_ok(), "graceful shutdown fails"); }
}
#[no_mangle] pub extern "C" fn x02_body() { srv_h2(1) }
#[no_mangle] pub extern "C" fn x02_body2() { srv_h2(2) }

/// A tunnel is used on one thread while the connection that carries it runs on another.
fn tunnel2(n: u32, client: bool) {
    let t: tun::TunRef = Default::default();
    // the peer ends its side; resets; the transport ends; the application drops its end at once; or after writing
    let fate = sx::pick(5, "fate");
    let first = fate < 3 && sx::flag("writes first");
    let tight = sx::flag("the peer's window is one byte");
    let set: &[(u16, u32)] = if tight { &[(4, 1)] } else { &[] };
    let (out, sent) = (b"tt".to_vec(), &b"xyz"[..]);
    let event = move |d: &Dev| match fate { 4 if tight => d.feed(&wupd(1, 1)), 4 => {}  1 => d.feed(&rst(1, 7)), 2 => d.set_eof(), _ => { d.feed(&data(1, false, &sent[..2])); d.feed(&data(1, true, &sent[2..])); if tight { d.feed(&wupd(1, 1)); } } };
    let user = move |on: hyper::upgrade::OnUpgrade, t: tun::TunRef, out: Vec<u8>| -> LocalFut<()> { if fate == 4 { Box::pin(tun::write_drop(on, t, out)) } else if fate == 3 { Box::pin(async move { if let Ok(u) = on.await { t.borrow_mut().up = true; drop(u); } else { t.borrow_mut().failed = true; } }) } else { Box::pin(tun::tunnel(on, t, out, 2, false, first)) } };
    let (x, done, t, asked) = if client {
        let mut c = Cli2::new(|_| {});
        c.peer.start(set);
        c.run();
        let i = c.send(req2("CONNECT", "h:1", HBody::empty()));
        c.run();
        c.peer.respond(1, "200", false, &[]);
        c.run();
        let on = match c.ups.borrow_mut()[i].take() { Some(o) => o, None => sx::fail("no tunnel") };
        c.ex.spawn_box(user(on, t.clone(), out.clone()));
        let d = c.dev.clone();
        if tight { c.peer.s(1).send_wnd += 1; }
        c.ex.spawn(async move { event(&d) });
        preemptions(n);
        loop { c.ex.run_par(); if !c.peer.pump() { break; } }
        c.tx = None;
        loop { c.ex.run_par(); if !c.peer.pump() { break; } }
        sx::check(c.done(), "the connection goes on although nobody can use it");
        sx::check(c.ex.all_done(), "work goes on after the connection ended");
        (c.peer.s(1).clone(), true, t, true)
    } else {
        let t2 = t.clone();
        let slot: Rc<RefCell<Rc<RefCell<Vec<LocalFut<()>>>>>> = Default::default();
        let i2 = slot.clone();
        let o2 = out.clone();
        let mut s = Srv2::new(|_| {}, Box::new(move |_, p, b, _| {
            let on = hyper::upgrade::on(http::Request::from_parts(p, b));
            i2.borrow().borrow_mut().push(user(on, t2.clone(), o2.clone()));
            Box::pin(async move { Ok(srv::status(200, HBody::empty())) })
        }));
        let waiting = slot.borrow().clone();
        s.peer.start(set);
        s.run();
        s.peer.headers(1, false, &[(":method", b"CONNECT"), (":authority", b"h:1")]);
        // the upgrade itself may happen on both threads, too
        let early = sx::flag("both threads from the start");
        if !early { s.run(); }
        *slot.borrow_mut() = s.ex.inject.clone();
        for f in waiting.borrow_mut().drain(..) { s.ex.spawn_box(f); }
        let d = s.dev.clone();
        if tight { s.peer.s(1).send_wnd += 1; }
        s.ex.spawn(async move { event(&d) });
        preemptions(n);
        loop { s.ex.run_par(); if !s.peer.pump() { break; } }
        let done = s.done();
        (s.peer.s(1).clone(), done, t, s.nreq() > 0)
    };
    let t = t.borrow();
    sx::check(t.up || t.failed && matches!(fate, 1 | 2) || !asked && matches!(fate, 1 | 2), "the upgrade has no outcome");
    match fate {
        0 => { sx::check(t.got == sent && t.eof && !t.rerr && t.wrote && t.shut, "the tunnel does not deliver what was sent"); sx::check(x.data == out && x.end && x.rst.is_none(), "the tunnel does not send what was written"); sx::cover("tunnel"); }
        3 => { sx::check(x.data.is_empty() && (x.end || x.rst.is_some()), "a dropped tunnel stays open"); sx::cover("dropped"); }
        4 => { sx::check(t.wrote && starts(&out, &x.data), "the tunnel does not send what was written"); sx::check(if x.end { x.data == out } else { x.rst.is_some() }, "bytes that a tunnel accepted are lost and it looks complete"); sx::cover(if x.data == out { "written" } else { "cancelled" }); }
        _ => { sx::check(!t.up || t.rerr || t.got.is_empty() && !t.eof, "a tunnel cut off looks complete"); sx::cover("cut off"); }
    }
    if !client { sx::check(done == (fate == 2), "the connection ends without need, or does not end"); }
}
#[no_mangle] pub extern "C" fn x02_tunnel() { tunnel2(1, false) }
#[no_mangle] pub extern "C" fn x02_tunnel_client() { tunnel2(1, true) }
#[no_mangle] pub extern "C" fn x02_submit2() { cli2(2, 0) }
#[no_mangle] pub extern "C" fn x02_answer2() { cli2(2, 1) }
#[no_mangle] pub extern "C" fn x02_tunnel2() { tunnel2(2, false) }
#[no_mangle] pub extern "C" fn x02_tunnel_client2() { tunnel2(2, true) }
#[no_mangle] pub extern "C" fn x01_client3() { cli(3) }
