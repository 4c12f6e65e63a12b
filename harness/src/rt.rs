//! R01: the transport traits, read buffers and timers that hyper offers to runtimes.
use crate::{h2p::*, srv::*, srv2::*, sup::*, sx};
use hyper::rt::{Read, ReadBuf, ReadBufCursor, Write};
use std::cell::{Cell, RefCell};
use std::io::IoSlice;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const CAP: usize = 6;
/// every sequence of operations on a read buffer against a model of it
fn r01_ops(steps: usize) {
    let cap = sx::pick(CAP + 1, "capacity");
    // guard bytes around the buffer
    let mut mem = [MaybeUninit::new(0xA5u8); CAP + 4];
    let mut plain = [0xA5u8; CAP + 4];
    let known = sx::flag("made from initialized bytes");
    let (p, b): (*const u8, ReadBuf<'_>) = if known { let r = &mut plain[2..2 + cap]; (r.as_ptr().wrapping_sub(2), ReadBuf::new(r)) } else { let r = &mut mem[2..2 + cap]; (r.as_ptr().cast::<u8>().wrapping_sub(2), ReadBuf::uninit(r)) };
    let mut b = b;
    let mut filled: Vec<u8> = vec![];
    let mut init = if known { cap } else { 0 };
    for _ in 0..steps {
        let rest = cap - filled.len();
        let mut c = b.unfilled();
        sx::check(c.remaining() == rest, "r01: remaining");
        let op = sx::pick(5, "operation");
        match op {
            0 | 1 => {
                let n = sx::pick(rest + 1, "how much is put");
                let d = syms(n, "byte");
                c.put_slice(&d);
                filled.extend_from_slice(&d);
                if op == 1 { let m = sx::pick(cap - filled.len() + 1, "how much more is put"); let d = syms(m, "byte"); c.put_slice(&d); filled.extend_from_slice(&d); }
                init = init.max(filled.len());
            }
            2 | 3 => {
                let n = if op == 2 { rest } else { sx::pick(rest + 1, "how much is initialized") };
                let s = if op == 2 { c.initialize_unfilled() } else { c.initialize_unfilled_to(n) };
                sx::check(s.len() == n, "r01: the initialized part has another length");
                let from = filled.len();
                let mut ok = true;
                for (k, x) in s.iter().enumerate() { let x = *x; ok &= if from + k < init { true } else { x == 0 }; }
                sx::check(ok, "r01: memory that was never written is shown");
                let j = sx::pick(n + 1, "how much of it is used");
                let d = syms(j, "byte");
                s[..j].copy_from_slice(&d);
                unsafe { c.advance(j) };
                init = init.max(from + n);
                filled.extend_from_slice(&d);
            }
            _ => {
                let u = unsafe { c.as_mut() };
                sx::check(u.len() == rest, "r01: the unfilled part has another length");
                let j = sx::pick(rest + 1, "how much is written in place");
                let d = syms(j, "byte");
                for (k, x) in d.iter().enumerate() { u[k].write(*x); }
                unsafe { c.advance(j) };
                filled.extend_from_slice(&d);
                init = init.max(filled.len());
            }
        }
        sx::check(c.remaining() == cap - filled.len(), "r01: remaining");
        drop(c);
        sx::check(b.filled() == &filled[..], "r01: filled bytes differ");
    }
    let guard = unsafe { [*p, *p.add(1), *p.add(2 + cap), *p.add(3 + cap)] };
    sx::check(guard == [0xA5; 4], "r01: a byte outside of the buffer was written");
    sx::cover(if filled.len() == cap { "full" } else { "room" });
}
#[no_mangle] pub extern "C" fn r01_buf() { r01_ops(3) }
#[no_mangle] pub extern "C" fn r01_buf4() { r01_ops(4) }

/// a transport that fills read buffers in one of the ways hyper offers
pub struct Ways { io: Io, way: usize, flushes: Rc<Cell<usize>> }
impl Read for Ways {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let mut t = [0u8; 64];
        let me = self.get_mut();
        let n = buf.remaining().min(64);
        let mut tb = ReadBuf::new(&mut t[..n]);
        match Pin::new(&mut me.io).poll_read(cx, tb.unfilled()) { Poll::Ready(Ok(())) => (), o => return o }
        let d = tb.filled();
        let k = d.len();
        match me.way {
            0 => buf.put_slice(d),
            1 => { buf.initialize_unfilled()[..k].copy_from_slice(d); unsafe { buf.advance(k) } }
            2 => { let m = (k + 3).min(buf.remaining()); buf.initialize_unfilled_to(m)[..k].copy_from_slice(d); unsafe { buf.advance(k) } }
            3 => { let u = unsafe { buf.as_mut() }; for (i, x) in d.iter().enumerate() { u[i].write(*x); } unsafe { buf.advance(k) } }
            4 => for x in d { buf.put_slice(&[*x]) },
            _ => { let h = k / 2; buf.initialize_unfilled(); buf.put_slice(&d[..h]); buf.initialize_unfilled_to(k - h).copy_from_slice(&d[h..]); unsafe { buf.advance(k - h) } }
        }
        Poll::Ready(Ok(()))
    }
}
impl Write for Ways {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.get_mut().io).poll_write(cx, b) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { let m = self.get_mut(); m.flushes.set(m.flushes.get() + 1); Pin::new(&mut m.io).poll_flush(cx) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.get_mut().io).poll_shutdown(cx) }
    fn is_write_vectored(&self) -> bool { self.io.is_write_vectored() }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.get_mut().io).poll_write_vectored(cx, b) }
}
/// a transport without any vectored writes of its own
struct Plain(Ways);
impl Read for Plain { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_read(cx, buf) } }
impl Write for Plain {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
}
/// the transport as it is, boxed, pinned, borrowed or without vectored writes
trait Any2: Read + Write + Unpin {}
impl<T: Read + Write + Unpin> Any2 for T {}
fn wrapped(w: Ways, k: usize) -> Box<dyn Any2> {
    match k {
        0 => Box::new(w),
        1 => Box::new(Box::new(w)),
        2 => Box::new(Pin::new(Box::new(w))),
        3 => Box::new(Box::leak(Box::new(w))),
        _ => Box::new(Plain(w)),
    }
}
fn ways(n: usize) -> (Box<dyn Any2>, Dev, Rc<Cell<usize>>, bool) {
    let way = sx::pick(6, "how the read buffer is filled");
    let wrap = sx::pick(5, "how the transport is wrapped");
    let vec = sx::flag("vectored");
    let (i, dev) = io(vec![]);
    dev.with(|s| { s.vectored = vec; if n > 0 { s.wmax = n } });
    let flushes: Rc<Cell<usize>> = Default::default();
    (wrapped(Ways { io: i, way, flushes: flushes.clone() }, wrap), dev, flushes, vec && wrap < 4)
}
/// an HTTP/1 server over any of them
#[no_mangle] pub extern "C" fn r01_h1() {
    let (io, dev, flushes, vec) = ways(0);
    let cut = sx::pick(3, "how it is cut");
    let log = log();
    let svc = Svc { h: RefCell::new(reading(|_| ok(HBody::full(b"abc")))), log: log.clone() };
    let mut b = builder();
    let force = sx::flag("writev asked for");
    if force { b.writev(true); }
    let conn = b.serve_connection(io, svc);
    let mut ex = Ex::new(&[&dev]);
    let ok: Rc<Cell<bool>> = Default::default();
    let o2 = ok.clone();
    ex.spawn(async move { o2.set(conn.await.is_ok()) });
    let d = syms(4, "body byte");
    let msg = cat(&[b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\n", &d]);
    let at = [0, 20, msg.len() - 2][cut];
    if at > 0 { dev.feed(&msg[..at]); ex.run(); }
    dev.feed(&msg[at..]);
    ex.run();
    sx::check(log.borrow().len() == 1 && log.borrow()[0].body == d && log.borrow()[0].end == End::Eof, "r01: the request differs");
    let want: &[u8] = b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\nabc";
    sx::check(dev.tx() == want, "r01: the response differs");
    sx::check(dev.with(|s| s.flushed_to) == want.len() && flushes.get() > 0, "r01: the response is not flushed");
    sx::check(dev.with(|s| s.vec_calls > 0) == vec || force, "r01: vectored writes are used exactly when the transport offers them");
    dev.set_eof();
    ex.run();
    sx::check(ok.get() && dev.with(|s| s.shutdown) == 1, "r01: the transport is shut down once");
    sx::cover(if vec { "vectored" } else { "plain" });
}
/// an HTTP/2 server over any of them
#[no_mangle] pub extern "C" fn r01_h2() {
    let small = sx::flag("small writes");
    let (io, dev, flushes, _vec) = ways(if small { 7 } else { 0 });
    let log = log();
    let svc = Svc { h: RefCell::new(reading(|_| ok(HBody::full(b"abc")))), log: log.clone() };
    let mut ex = Ex::new(&[&dev]);
    let conn = builder2(&ex).serve_connection(io, svc);
    let fin: Rc<Cell<bool>> = Default::default();
    let f2 = fin.clone();
    ex.spawn(async move { f2.set(conn.await.is_ok()) });
    let mut peer = Peer::new(&dev, true);
    peer.start(&[]);
    loop { ex.run(); if !peer.pump() { break; } }
    let d = syms(4, "body byte");
    peer.request(1, "POST", "/", false, &[]);
    peer.data(1, false, &d[..2]);
    loop { ex.run(); if !peer.pump() { break; } }
    peer.data(1, true, &d[2..]);
    loop { ex.run(); if !peer.pump() { break; } }
    sx::check(log.borrow().len() == 1 && log.borrow()[0].body == d && log.borrow()[0].end == End::Eof, "r01: the request differs");
    sx::check(peer.s(1).status() == 200 && peer.s(1).data == b"abc" && peer.s(1).end, "r01: the response differs");
    sx::check(dev.with(|s| s.flushed_to == s.tx.len()) && flushes.get() > 0, "r01: the response is not flushed");
    dev.set_eof();
    ex.run();
    sx::check(fin.get() && dev.with(|s| s.shutdown) == 1, "r01: the transport is shut down once");
    sx::cover(if small { "small writes" } else { "whole writes" });
}

/// a sleep handed out as a trait object is only ever taken for what it is
struct Other(u8);
impl std::future::Future for Other { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
impl hyper::rt::Sleep for Other {}
#[no_mangle] pub extern "C" fn r01_sleep() {
    use hyper::rt::{Sleep, Timer};
    let v = sx::byte("value");
    let t = Tm::new();
    let mine = sx::flag("own type");
    let mut s: Pin<Box<dyn Sleep>> = if mine { Box::pin(Other(v)) } else { t.sleep(std::time::Duration::from_secs(1)) };
    sx::check(s.is::<Other>() == mine && s.is::<Slp>() == !mine, "r01: the type of a sleep");
    match s.as_mut().downcast_mut_pin::<Other>() {
        Some(o) => { sx::check(mine && o.0 == v, "r01: another sleep"); o.get_mut().0 = v.wrapping_add(1); }
        None => sx::check(!mine, "r01: a sleep is not taken for what it is"),
    }
    if mine { sx::check(s.as_mut().downcast_mut_pin::<Other>().map(|o| o.0) == Some(v.wrapping_add(1)), "r01: another sleep"); }
    // a reset without more help from the timer
    let ms = sx::pick(3, "new deadline");
    t.reset(&mut s, t.now() + std::time::Duration::from_millis(ms as u64));
    let w = std::task::Waker::noop();
    let mut cx = Context::from_waker(&w);
    for now in 0..3u64 {
        sx::check(s.as_mut().poll(&mut cx).is_ready() == (now >= ms as u64), "r01: a sleep ends exactly at its new deadline");
        t.advance_ms(1);
    }
    sx::cover("sleep");
}
