//! Writing to and reading from the transport: integrity under partial writes and faults, flushing, bounded buffering.
use crate::{cli, cli::Cli, srv::*, sup::*, sx};
use std::cell::Cell;
use std::rc::Rc;

/// an outgoing body; the bytes are the same in every run of a path
fn ops(k: usize, b: &[u8], g: &Gate) -> (Vec<Op>, Option<u64>, bool) {
    let d = |a: &[u8]| Op::Data(a.to_vec().into());
    match k {
        0 => (vec![d(&b[..5])], Some(5), true),
        1 => (vec![d(&b[..2]), Op::Pend, d(b""), d(&b[2..5])], None, false),
        2 => (vec![d(&b[..1]), Op::Wait(g.clone()), d(&b[1..5])], None, true),
        3 => (vec![d(&b[..2]), d(&b[2..5])], Some(5), false),
        _ => (vec![], Some(0), true),
    }
}
fn hbody(k: usize, b: &[u8], g: &Gate) -> HBody {
    let (o, h, e) = ops(k, b, g);
    let mut r = HBody::new(o);
    if let Some(h) = h { r = r.hinted(h, Some(h)); }
    if e { r = r.eos(); }
    r
}
/// what of the body comes before the gate
fn before_gate(k: usize) -> usize { match k { 2 => 1, 4 => 0, _ => 5 } }
const NAMES: [&str; 5] = ["full", "chunked", "waiting", "frames with length", "empty"];

#[derive(Clone, Copy)]
struct Cfg { vectored: bool, writev: Option<bool>, wmax: usize, wcut: Option<usize>, fpend: usize, spend: usize }
const PLAIN: Cfg = Cfg { vectored: false, writev: None, wmax: usize::MAX, wcut: None, fpend: 0, spend: 0 };
fn apply(dev: &Dev, c: Cfg) { dev.with(|s| { s.vectored = c.vectored; s.wmax = c.wmax; s.fpend = c.fpend; s.spend = c.spend; if let Some(w) = c.wcut { s.wcuts.push(w); } }) }

struct Run { s: Srv, g: Gate, alive: Vec<Rc<Cell<bool>>> }
fn serve(kinds: &[usize], b: &[u8], c: Cfg, setup: impl FnOnce(&mut IoSt)) -> Run {
    let mut req = vec![];
    for _ in kinds { req.extend_from_slice(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n"); }
    let (io, dev) = io(req);
    apply(&dev, c);
    dev.with(setup);
    let mut bl = builder();
    if let Some(w) = c.writev { bl.writev(w); }
    let g = Gate::new();
    let mut bodies: Vec<Option<HBody>> = kinds.iter().map(|&k| Some(hbody(k, b, &g))).collect();
    let alive = bodies.iter().map(|b| b.as_ref().unwrap().alive.clone()).collect();
    let s = Srv::new(&bl, (io, dev), reading(move |i| ok(bodies[i].take().unwrap())));
    Run { s, g, alive }
}
/// everything a run without faults writes
fn plain(kinds: &[usize], b: &[u8]) -> Vec<u8> {
    let mut r = serve(kinds, b, PLAIN, |_| {});
    r.s.run();
    // what was produced before a pause is on the wire and flushed
    let first = kinds.iter().position(|&k| k == 2);
    let m = r.s.responses(&vec!["GET"; kinds.len()]);
    sx::check(m.len() == first.map_or(kinds.len(), |i| i + 1), "a finished response is held back");
    if let Some(i) = first {
        let w = r.s.out();
        sx::check(find(&w, &[b"\r\n\r\n1\r\n", &b[..1]].concat()).is_some(), "body data produced before a pause is held back");
    }
    sx::check(r.s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed before waiting");
    r.g.open();
    r.s.run();
    r.s.dev.set_eof();
    r.s.run();
    sx::check(r.s.is_ok() && r.s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed");
    r.s.out()
}
fn config(n: usize) -> Cfg { config_w(n, &[usize::MAX, 1, 3, 50]) }
fn config_w(n: usize, w: &[usize]) -> Cfg {
    let (vectored, writev) = [(false, None), (true, None), (true, Some(false)), (false, Some(true))][sx::pick(n, "transport and writev")];
    Cfg { vectored, writev, wmax: w[sx::pick(w.len(), "bytes per write")], ..PLAIN }
}
/// partial writes, a pause at any position, pending flush and shutdown: the bytes are the same
fn partial(n: usize, shapes: usize, w: &[usize]) {
    let kinds: Vec<usize> = (0..n).map(|_| sx::pick(shapes, "response")).collect();
    let b = syms(5, "body");
    let want = plain(&kinds, &b);
    let mut c = config_w(4, w);
    let w = sx::pick(want.len() + 1, "pause at");
    if w > 0 { c.wcut = Some(w - 1); }
    c.fpend = sx::pick(2, "flush pending");
    c.spend = c.fpend;
    let early = sx::flag("gate opens at once");
    let mut r = serve(&kinds, &b, c, |_| {});
    if early { r.g.open(); }
    r.s.run();
    r.g.open();
    r.s.run();
    sx::check(r.s.out() == want, "the bytes written depend on the transport");
    sx::check(r.s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed");
    r.s.dev.set_eof();
    r.s.run();
    sx::check(r.s.is_ok() && r.s.dev.is_shutdown() && r.s.out() == want && r.alive.iter().all(|a| !a.get()), "connection does not finish properly");
    if c.vectored && c.writev != Some(false) || c.writev == Some(true) { sx::check(r.s.dev.with(|s| s.vec_calls > 0), "harness: no vectored write"); sx::cover("vectored"); } else { sx::cover("flattened"); }
    for &k in &kinds { sx::cover(NAMES[k]); }
}
#[no_mangle] pub extern "C" fn s08_partial() { partial(2, 4, &[usize::MAX, 3]) }
#[no_mangle] pub extern "C" fn s08_partial3() { partial(3, 4, &[usize::MAX, 3]) }
#[no_mangle] pub extern "C" fn s08_partial5() { partial(2, 5, &[usize::MAX, 1, 3, 50]) }
/// with pipeline_flush every response is sent before the connection waits, closes or fails, on a slow transport too
#[no_mangle] pub extern "C" fn s08_pipeline() {
    let kinds: Vec<usize> = (0..2).map(|_| [0, 1, 3][sx::pick(3, "response")]).collect();
    let b = syms(5, "body");
    let tail = sx::pick(5, "after the requests: nothing, part of a head, a malformed head, leading empty lines, the last says close");
    let end = sx::pick(3, "the peer: stays, half-closes at once, half-closes later");
    let mut req = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec();
    req.extend_from_slice(if tail == 4 { b"GET / HTTP/1.1\r\nConnection: close\r\n\r\nGET /x HTTP/1.1\r\n\r\n" } else { b"GET / HTTP/1.1\r\nHost: h\r\n\r\n" });
    req.extend_from_slice([&b""[..], b"GET / HT", b"G\0\r\n\r\n", b"\r\n", b""][tail]);
    let mut bl = builder();
    bl.pipeline_flush(true).half_close(end == 1 || sx::flag("half close allowed"));
    let g = Gate::new();
    let mut bodies: Vec<Option<HBody>> = kinds.iter().map(|&k| Some(hbody(k, &b, &g))).collect();
    let (io, dev) = io(req);
    let at = sx::pick(200, "pause at");
    dev.with(|s| { s.wcuts.push(at); s.eof = end == 1; s.vectored = true; s.wmax = 70; });
    let mut s = Srv::new(&bl, (io, dev), reading(move |i| ok(bodies[i].take().unwrap())));
    s.run();
    if end == 2 { s.dev.set_eof(); s.run(); }
    let m = s.responses(&["GET", "GET"]);
    let n = m.iter().filter(|m| m.status == 200).count();
    // without half_close the end of input counts as the peer giving up
    sx::check(n == 2 && m.iter().all(|m| m.complete), "a response is lost with pipeline_flush");
    sx::check(m.len() == if tail == 2 { 3 } else { 2 }, "unexpected number of responses");
    for i in 0..2 { sx::check(m[i].body == b, "response not intact"); }
    sx::check(s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed");
    sx::check(s.done() == (end > 0 || tail == 2 || tail == 4), "connection neither waits nor finishes as it should");
    sx::cover(["nothing", "partial head", "malformed head", "empty lines", "close"][tail]);
}
/// writing fails, or accepts nothing, at any position
#[no_mangle] pub extern "C" fn s08_fault() {
    let kinds: Vec<usize> = (0..2).map(|_| sx::pick(5, "response")).collect();
    let b = syms(5, "body");
    let want = plain(&kinds, &b);
    let c = config(2);
    let at = sx::pick(want.len(), "fault at");
    let zero = sx::flag("accepts nothing");
    let mut r = serve(&kinds, &b, c, |s| { if zero { s.wstop = at } else { s.werr = Some(at) } });
    r.s.run();
    r.g.open();
    r.s.run();
    if zero {
        sx::check(!r.s.done(), "connection ended although the transport is only slow");
        r.s.dev.with(|s| s.wzero = true);
        r.s.dev.raise_wstop(usize::MAX);
        r.s.run();
        sx::cover("nothing accepted");
    } else { sx::cover("error"); }
    let w = r.s.out();
    sx::check(w.len() == at && want[..at] == w[..], "other bytes were written before the fault");
    sx::check(r.s.is_err(), "a failed write is not reported");
    sx::check(r.alive.iter().enumerate().all(|(i, a)| !a.get() || i >= r.s.nreq()), "a body outlives its connection");
    for &k in &kinds { sx::cover(NAMES[k]); }
}
/// large pieces: the write buffer has to grow while a part of it has been written
#[no_mangle] pub extern "C" fn s08_large() {
    let sizes = [1usize, 100, 3_000, 9_000, 20_000];
    let n = [sizes[sx::pick(5, "first piece")], sizes[sx::pick(5, "second piece")]];
    let shape = sx::pick(3, "chunked, with length, with a large head");
    let c = Cfg { wmax: [usize::MAX, 1500][sx::pick(2, "bytes per write")], ..config_w(4, &[usize::MAX]) };
    let (io, dev) = io(b"GET / HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec());
    apply(&dev, c);
    let at = [0, 10, 40, 75, 120, 1000, 3_050, 3_100, 8_192][sx::pick(9, "stuck at")];
    dev.with(|s| s.wstop = at);
    let mut bl = builder();
    if let Some(w) = c.writev { bl.writev(w); }
    let g = Gate::new();
    let (g2, d) = (g.clone(), n.map(|n| (0..n).map(|i| b'A' + (i % 53) as u8).collect::<Vec<u8>>()));
    let d2 = d.clone();
    let mut s = Srv::new(&bl, (io, dev), reading(move |_| {
        let h = HBody::new(vec![Op::Data(d2[0].clone().into()), Op::Wait(g2.clone()), Op::Data(d2[1].clone().into())]);
        let l = (n[0] + n[1]) as u64;
        let mut r = ok(if shape == 1 { h.hinted(l, Some(l)) } else { h });
        if shape == 2 { r.headers_mut().insert("x", hv(&[b'x'; 5_000])); }
        r
    }));
    s.run();
    let early = sx::flag("the rest comes while the transport is stuck");
    if early { g.open(); s.run(); }
    s.dev.raise_wstop(usize::MAX);
    s.run();
    g.open();
    s.run();
    let m = s.responses(&["GET", "GET"]);
    sx::check(m.len() == 2 && m.iter().all(|m| m.complete && m.body.len() == n[0] + n[1] && m.body[..n[0]] == d[0][..] && m.body[n[0]..] == d[1][..]), "a large body is not intact");
    sx::check(shape < 2 || m.iter().all(|m| m.get("x").iter().map(|v| v.len()).collect::<Vec<_>>() == [5_000]), "a large head is not intact");
    sx::check(s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed");
    sx::cover(["chunked", "length", "large head"][shape]);
}
/// more frames than fit one vectored write, with the transport stuck on the way
#[no_mangle] pub extern "C" fn s08_many() {
    let n = [15, 16, 17, 64, 70][sx::pick(5, "frames")];
    let chunked = sx::flag("chunked");
    let (io, dev) = io(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec());
    let mut c = config(2);
    let stop = sx::pick(130, "stuck at");
    apply(&dev, c);
    dev.with(|s| s.wstop = stop);
    let data: Vec<u8> = (0..n).map(|i| b'A' + (i % 26) as u8).collect();
    let mut h = HBody::new(data.iter().map(|&d| Op::Data(vec![d].into())).collect());
    if !chunked { h = h.hinted(n as u64, Some(n as u64)); }
    let mut h = Some(h);
    let mut s = Srv::new(&builder(), (io, dev), reading(move |_| ok(h.take().unwrap())));
    s.run();
    sx::check(s.out().len() <= stop, "harness");
    s.dev.raise_wstop(usize::MAX);
    s.run();
    let m = s.responses(&["GET"]);
    sx::check(m.len() == 1 && m[0].complete && m[0].body == data && m[0].chunked == chunked, "response not intact");
    sx::cover(if c.vectored { "vectored" } else { "flattened" });
}
/// the client's request under partial writes and faults
#[no_mangle] pub extern "C" fn s08_client() {
    let k = sx::pick(5, "request body");
    let b = syms(5, "body");
    let run = |c: Cfg, setup: &mut dyn FnMut(&mut IoSt)| {
        let (io, dev) = io(vec![]);
        apply(&dev, c);
        dev.with(|s| setup(s));
        let mut bl = cli::builder();
        if let Some(w) = c.writev { bl.writev(w); }
        let g = Gate::new();
        let mut s = Cli::new(&bl, (io, dev));
        let h = hbody(k, &b, &g);
        let alive = h.alive.clone();
        s.send(cli::req("POST", "/", h));
        (s, g, alive)
    };
    let (mut s, g, _) = run(PLAIN, &mut |_| {});
    s.run();
    sx::check(s.dev.with(|s| s.flushed_to == s.tx.len() && s.tx.len() > 0), "written bytes are not flushed before waiting");
    g.open();
    s.run();
    let want = s.wire();
    sx::check(s.dev.with(|s| s.flushed_to == s.tx.len()), "written bytes are not flushed");
    let mut c = config(4);
    let at = sx::pick(want.len(), "position");
    let fault = sx::pick(3, "pause, error, accepts nothing");
    if fault == 0 { c.wcut = Some(at); c.fpend = sx::pick(2, "flush pending"); }
    let (mut s, g, alive) = run(c, &mut |s| match fault { 1 => s.werr = Some(at), 2 => s.wstop = at, _ => {} });
    if sx::flag("gate opens at once") { g.open(); }
    s.run();
    g.open();
    s.run();
    if fault == 2 { s.dev.with(|s| s.wzero = true); s.dev.raise_wstop(usize::MAX); s.run(); }
    if fault > 0 {
        let w = s.wire();
        sx::check(w.len() == at && want[..at] == w[..], "other bytes were written before the fault");
        sx::check(s.is_err() || matches!(s.out(0), cli::Out::Err { .. }), "a failed write is not reported");
        sx::check(matches!(s.out(0), cli::Out::Err { .. }), "the request stays without outcome after a failed write");
        sx::check(!alive.get(), "a body outlives its connection");
        sx::cover("fault");
    } else {
        sx::check(s.wire() == want, "the bytes written depend on the transport");
        s.dev.feed(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok");
        s.run();
        sx::check(s.resp(0).map_or(false, |m| m.body == b"ok" && m.end == End::Eof), "response not delivered");
        sx::cover(NAMES[k]);
    }
}

// ---------------------------------------------------------------- S21: bounded buffering

/// the client reads nothing for a while: the service's body is not pulled without limit
#[no_mangle] pub extern "C" fn s21_write() {
    let max = [8192usize, 12000][sx::pick(2, "max_buf_size")];
    let size = [1usize, 300, 1000, 5000][sx::pick(4, "frame size")];
    let stop = [0usize, 50, 700, 9000][sx::pick(4, "accepted bytes")];
    let chunked = sx::flag("chunked");
    let vectored = sx::flag("vectored");
    let total = if size == 1 { 9000usize } else { 50_000 };
    let frames = total / size;
    let (io, dev) = io(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec());
    dev.with(|s| { s.wstop = stop; s.vectored = vectored; });
    let data = bytes::Bytes::from(vec![b'x'; size]);
    let mut h = HBody::new((0..frames).map(|_| Op::Data(data.clone())).collect());
    if !chunked { h = h.hinted((frames * size) as u64, Some((frames * size) as u64)); }
    let polls = h.polls.clone();
    let mut h = Some(h);
    let mut b = builder();
    b.max_buf_size(max);
    let mut s = Srv::new(&b, (io, dev), reading(move |_| ok(h.take().unwrap())));
    s.ex.max_polls = 100_000;
    s.run();
    let held = |s: &Srv| polls.get() * size - s.out().len().min(polls.get() * size);
    let limit = max + 2 * size;
    sx::check(held(&s) <= limit, "the body is buffered without limit while the client does not read");
    if stop < 9000 && polls.get() < frames { sx::cover("held back"); }
    let at = stop + 1500;
    s.dev.raise_wstop(at);
    s.run();
    sx::check(s.out().len() == at.min(s.out().len()) && (s.out().len() == at || polls.get() >= frames), "no progress although the client reads");
    sx::check(held(&s) <= limit, "the body is buffered without limit while the client reads slowly");
    s.dev.raise_wstop(usize::MAX);
    s.run();
    let m = s.responses(&["GET"]);
    sx::check(m.len() == 1 && m[0].complete && m[0].body.len() == frames * size, "response not intact");
}
/// the service does not read: the connection stops reading
#[no_mangle] pub extern "C" fn s21_read() {
    let max = [8192usize, 12000][sx::pick(2, "max_buf_size")];
    let n = [9000usize, 40_000, 100_000][sx::pick(3, "bytes sent")];
    let kind = sx::pick(3, "length body, chunked body, pipelined requests");
    let step = [usize::MAX, 3000, 500][sx::pick(3, "arriving")];
    let (bytes, total) = match kind {
        0 => (cat(&[b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: ", n.to_string().as_bytes(), b"\r\n\r\n", &vec![b'x'; n]]), n),
        1 => { let c = cat(&[b"64\r\n", &[b'x'; 100], b"\r\n"]); let k = n / c.len(); (cat(&[b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n", &c.repeat(k), b"0\r\n\r\n"]), 100 * k) }
        _ => (b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".repeat(n / 28), 0),
    };
    let (io, dev) = io(bytes.clone());
    if step != usize::MAX { let l = bytes.len(); dev.with(|s| s.cuts = (1..l / step + 1).map(|i| i * step).collect()); }
    let mut b = builder();
    b.max_buf_size(max);
    let g = Gate::new();
    let g2 = Gate::new();
    let (h, h2) = (g.clone(), g2.clone());
    let mut s = Srv::new(&b, (io, dev), Box::new(move |i, _p, mut b, log| {
        let (g, g2) = (h.clone(), h2.clone());
        Box::pin(async move {
            g.wait().await;
            // one frame, then a pause
            if let Some(Ok(f)) = next_frame(&mut b).await { if let Ok(d) = f.into_data() { log.borrow_mut()[i].body.extend_from_slice(&d); } }
            g2.wait().await;
            drain(b, log, i, usize::MAX).await;
            Ok(ok(HBody::full(b"x")))
        })
    }));
    s.ex.max_polls = 100_000;
    s.run();
    let head = find(&bytes, b"\r\n\r\n").unwrap() + 4;
    sx::check(s.nreq() == 1 && s.dev.rpos() <= head + 2 * max, "input is buffered without limit while the service does not read");
    if s.dev.rpos() < bytes.len() { sx::cover("held back"); }
    let before = s.dev.rpos();
    g.open();
    s.run();
    let got = s.reqs()[0].body.len();
    sx::check(s.dev.rpos() <= before + 2 * max + 2 * got, "input is buffered without limit while the service reads slowly");
    g2.open();
    s.run();
    let r = s.reqs();
    if kind < 2 { sx::check(r.len() == 1 && r[0].body.len() == total && r[0].end == End::Eof, "request body not intact"); } else { sx::check(r.len() == n / 28, "a pipelined request is lost"); }
    sx::cover(["length", "chunked", "requests"][kind]);
}
