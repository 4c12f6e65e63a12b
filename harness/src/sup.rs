//! Environment shared by the harnesses: scripted transport, bodies, timer, executor and request log.
use crate::sx;
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue};
use hyper::body::{Body, Frame, Incoming, SizeHint};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type BoxErr = Box<dyn std::error::Error + Send + Sync>;
pub type LocalFut<T> = Pin<Box<dyn Future<Output = T>>>;

#[derive(Debug)]
pub struct HErr;
impl std::fmt::Display for HErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("harness error") } }
impl std::error::Error for HErr {}
pub fn berr() -> BoxErr { Box::new(HErr) }

// ---------------------------------------------------------------- transport

pub struct IoSt {
    /// bytes the peer sends, and how far they were read
    pub rx: Vec<u8>,
    pub rpos: usize,
    /// after `rx`: end of stream / an error, otherwise nothing more for now
    pub eof: bool,
    pub rerr: bool,
    /// a read never crosses a cut; with `block_cuts` the transport is not ready at a cut until later
    pub cuts: Vec<usize>,
    pub block_cuts: bool,
    pub released: usize,
    pub reads: usize,
    pub reads_after_end: usize,
    /// bytes the connection wrote
    pub tx: Vec<u8>,
    pub wmax: usize,
    /// positions of `tx` at which writing is not ready until later
    pub wcuts: Vec<usize>,
    pub wreleased: usize,
    pub werr: Option<usize>,
    /// writing stops (not ready) at this position until the harness raises it
    pub wstop: usize,
    pub wzero: bool,
    pub writes: usize,
    pub vectored: bool,
    pub vec_calls: usize,
    pub fpend: usize,
    pub flushes: usize,
    pub flushed_to: usize,
    pub shutdown: usize,
    pub spend: usize,
    pub serr: bool,
    pub write_after_shutdown: bool,
    pub dropped: bool,
    pub rw: Option<Waker>,
    pub ww: Option<Waker>,
    pub rblocked: bool,
    pub wblocked: bool,
    pub fblocked: bool,
    /// once the first text was written the peer answers with the second one (and closes)
    pub auto: VecDeque<(Vec<u8>, Vec<u8>, bool)>,
}
#[derive(Clone)]
pub struct Dev(pub Rc<RefCell<IoSt>>);
pub struct Io(pub Rc<RefCell<IoSt>>);
// the harness has one thread
unsafe impl Send for Io {}
unsafe impl Sync for Io {}

pub fn io(rx: Vec<u8>) -> (Io, Dev) {
    let s = Rc::new(RefCell::new(IoSt {
        rx, rpos: 0, eof: false, rerr: false, cuts: vec![], block_cuts: false, released: 0, reads: 0, reads_after_end: 0, tx: vec![], wmax: usize::MAX, wcuts: vec![], wreleased: 0, werr: None, wstop: usize::MAX, wzero: false, writes: 0,
        vectored: false, vec_calls: 0, fpend: 0, flushes: 0, flushed_to: 0, shutdown: 0, spend: 0, serr: false, write_after_shutdown: false, dropped: false, rw: None, ww: None, rblocked: false, wblocked: false, fblocked: false, auto: VecDeque::new(),
    }));
    (Io(s.clone()), Dev(s))
}
impl Dev {
    pub fn with<R>(&self, f: impl FnOnce(&mut IoSt) -> R) -> R { let _q = sx::Quiet::new(); f(&mut self.0.borrow_mut()) }
    pub fn tx(&self) -> Vec<u8> { self.0.borrow().tx.clone() }
    pub fn rpos(&self) -> usize { self.0.borrow().rpos }
    pub fn is_shutdown(&self) -> bool { self.0.borrow().shutdown > 0 }
    fn wake_r(&self) { let _q = sx::Quiet::new(); let w = self.0.borrow_mut().rw.take(); if let Some(w) = w { w.wake() } }
    fn wake_w(&self) { let _q = sx::Quiet::new(); let w = self.0.borrow_mut().ww.take(); if let Some(w) = w { w.wake() } }
    /// more bytes arrive
    pub fn feed(&self, b: &[u8]) { self.0.borrow_mut().rx.extend_from_slice(b); self.wake_r(); }
    pub fn set_eof(&self) { self.0.borrow_mut().eof = true; self.wake_r(); }
    pub fn set_rerr(&self) { self.0.borrow_mut().rerr = true; self.wake_r(); }
    pub fn raise_wstop(&self, n: usize) { self.0.borrow_mut().wstop = n; self.wake_w(); }
    /// the device makes progress on whatever was not ready; false if there is nothing to do
    pub fn deliver(&self) -> bool {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        let mut any = false;
        if s.rblocked { s.rblocked = false; s.released = s.rpos + 1; any = true; drop(s); self.wake_r(); s = self.0.borrow_mut(); }
        if s.wblocked { s.wblocked = false; s.wreleased = s.tx.len() + 1; any = true; drop(s); self.wake_w(); s = self.0.borrow_mut(); }
        if s.fblocked { s.fblocked = false; any = true; drop(s); self.wake_w(); }
        any
    }
}
impl Drop for Io { fn drop(&mut self) { if let Ok(mut s) = self.0.try_borrow_mut() { s.dropped = true; } } }
impl hyper::rt::Read for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        s.reads += 1;
        let p = s.rpos;
        if p == s.rx.len() {
            if s.rerr { s.reads_after_end += 1; return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())); }
            if s.eof { s.reads_after_end += 1; return Poll::Ready(Ok(())); }
            s.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if s.block_cuts && s.released <= p && s.cuts.contains(&p) {
            s.rblocked = true;
            s.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut end = s.rx.len();
        for &c in &s.cuts { if c > p && c < end { end = c; } }
        let n = (end - p).min(buf.remaining());
        buf.put_slice(&s.rx[p..p + n]);
        s.rpos += n;
        Poll::Ready(Ok(()))
    }
}
impl Io {
    fn answer(&self) {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        while let Some((k, _, _)) = s.auto.front() {
            if find(&s.tx, k).is_none() { return; }
            let (_, a, e) = s.auto.pop_front().unwrap();
            s.rx.extend_from_slice(&a);
            s.eof |= e;
            if let Some(w) = s.rw.take() { w.wake(); }
        }
    }
    fn room(&self, cx: &mut Context<'_>, want: usize) -> Poll<io::Result<usize>> {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        let p = s.tx.len();
        if s.shutdown > 0 { s.write_after_shutdown = true; return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
        if let Some(e) = s.werr { if p >= e { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); } }
        if want == 0 { return Poll::Ready(Ok(0)); }
        if s.wzero { return Poll::Ready(Ok(0)); }
        if p >= s.wstop { s.ww = Some(cx.waker().clone()); return Poll::Pending; }
        if s.wreleased <= p && s.wcuts.contains(&p) { s.wblocked = true; s.ww = Some(cx.waker().clone()); return Poll::Pending; }
        let mut n = want.min(s.wmax).min(s.wstop - p);
        for &c in &s.wcuts { if c > p && c - p < n { n = c - p; } }
        if let Some(e) = s.werr { n = n.min(e - p); }
        Poll::Ready(Ok(n))
    }
}
impl hyper::rt::Write for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        match self.room(cx, b.len()) {
            Poll::Ready(Ok(n)) => { self.0.borrow_mut().tx.extend_from_slice(&b[..n]); self.answer(); Poll::Ready(Ok(n)) }
            p => p,
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        if s.fpend > 0 { s.fpend -= 1; s.fblocked = true; s.ww = Some(cx.waker().clone()); return Poll::Pending; }
        s.flushes += 1;
        s.flushed_to = s.tx.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _q = sx::Quiet::new();
        let mut s = self.0.borrow_mut();
        if s.spend > 0 { s.spend -= 1; s.fblocked = true; s.ww = Some(cx.waker().clone()); return Poll::Pending; }
        s.shutdown += 1;
        if s.serr { return Poll::Ready(Err(io::ErrorKind::NotConnected.into())); }
        Poll::Ready(Ok(()))
    }
    fn is_write_vectored(&self) -> bool { self.0.borrow().vectored }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        self.0.borrow_mut().vec_calls += 1;
        match self.room(cx, want) {
            Poll::Ready(Ok(n)) => {
                let mut s = self.0.borrow_mut();
                let mut left = n;
                for b in bufs { let k = left.min(b.len()); s.tx.extend_from_slice(&b[..k]); left -= k; }
                drop(s);
                self.answer();
                Poll::Ready(Ok(n))
            }
            p => p,
        }
    }
}

// ---------------------------------------------------------------- executor

pub struct Flag(pub AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::Relaxed) } fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::Relaxed) } }

pub struct Task { fut: Option<LocalFut<()>>, flag: Arc<Flag>, pub polls: usize, busy: bool }
/// A task is polled only after its waker was used, so a lost wake-up shows as a task that never finishes.
pub struct Ex { pub tasks: Vec<Task>, pub devs: Vec<Dev>, pub timers: Vec<Tm>, pub inject: Rc<RefCell<Vec<LocalFut<()>>>>, pub max_polls: usize, pub symbolic_order: bool }
impl Ex {
    pub fn new(devs: &[&Dev]) -> Ex { Ex { tasks: vec![], devs: devs.iter().map(|d| (*d).clone()).collect(), timers: vec![], inject: Default::default(), max_polls: 400, symbolic_order: false } }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize { self.spawn_box(Box::pin(f)) }
    pub fn spawn_box(&mut self, f: LocalFut<()>) -> usize {
        self.tasks.push(Task { fut: Some(f), flag: Arc::new(Flag(AtomicBool::new(true))), polls: 0, busy: false });
        self.tasks.len() - 1
    }
    pub fn done(&self, i: usize) -> bool { self.tasks[i].fut.is_none() && !self.tasks[i].busy }
    pub fn all_done(&self) -> bool { (0..self.tasks.len()).all(|i| self.done(i)) }
    pub fn kill(&mut self, i: usize) { self.tasks[i].fut = None }
    pub fn wake(&self, i: usize) { self.tasks[i].flag.0.store(true, Ordering::Relaxed) }
    pub fn waker(&self, i: usize) -> Waker { Waker::from(self.tasks[i].flag.clone()) }
    pub fn adopt(&mut self) { let _q = sx::Quiet::new(); let v: Vec<_> = match self.inject.try_borrow_mut() { Ok(mut i) => i.drain(..).collect(), Err(_) => return }; for f in v { self.spawn_box(f); } }
    pub fn poll_one(&mut self, i: usize) { unsafe { Ex::poll_raw(self, i) } }
    /// The executor may be used by another thread while the task is polled: nothing is kept across the poll.
    #[inline(never)]
    pub unsafe fn poll_raw(ex: *mut Ex, i: usize) {
        let (f, flag) = {
            let _q = sx::Quiet::new();
            let t = &mut (&mut (*ex).tasks)[i];
            t.busy = t.fut.is_some();
            (t.fut.take(), t.flag.clone())
        };
        if let Some(mut f) = f {
            flag.0.store(false, Ordering::Relaxed);
            {
                let e = &mut *ex;
                e.tasks[i].polls += 1;
                if e.tasks[i].polls > e.max_polls { sx::fail("spin: a task keeps waking itself without making progress"); }
            }
            let w = Waker::from(flag);
            let mut cx = Context::from_waker(&w);
            let r = f.as_mut().poll(&mut cx).is_ready();
            let f = if r { drop(f); None } else { Some(f) };
            let t = &mut (&mut (*ex).tasks)[i];
            t.busy = false;
            t.fut = f;
        }
        (*ex).adopt();
    }
    /// The woken tasks run on two threads at once, in every interleaving of atomic operations with at most `n` preemptions in all.
    #[cfg(feature = "par")]
    pub fn run_par(&mut self) {
        let mut n = 0;
        loop {
            self.adopt();
            crate::par::run(self);
            let mut any = false;
            for d in self.devs.clone() { any |= d.deliver(); }
            if !any { return; }
            n += 1;
            if n > 2000 { sx::fail("spin: the transport is polled forever"); }
        }
    }
    pub fn is_ready(&self, i: usize) -> bool { self.tasks[i].fut.is_some() && self.tasks[i].flag.0.load(Ordering::Relaxed) }
    pub fn ready(&self) -> Vec<usize> { (0..self.tasks.len()).filter(|&i| self.is_ready(i)).collect() }
    /// poll woken tasks until none is woken (the devices do not move)
    pub fn settle(&mut self) {
        self.adopt();
        loop {
            let r = self.ready();
            if r.is_empty() { return; }
            let k = if self.symbolic_order && r.len() > 1 { sx::pick(r.len(), "next task") } else { 0 };
            self.poll_one(r[k]);
        }
    }
    /// run until nothing can happen any more
    pub fn run(&mut self) {
        let mut n = 0;
        loop {
            self.settle();
            let mut any = false;
            for d in self.devs.clone() { any |= d.deliver(); }
            if !any { return; }
            n += 1;
            if n > 2000 { sx::fail("spin: the transport is polled forever"); }
        }
    }
}
#[derive(Clone)]
pub struct Exec(pub Rc<RefCell<Vec<LocalFut<()>>>>);
impl<F: Future + 'static> hyper::rt::Executor<F> for Exec { fn execute(&self, f: F) { self.0.borrow_mut().push(Box::pin(async move { f.await; })) } }

pub async fn yield_now() { let mut y = false; std::future::poll_fn(move |cx| { if y { Poll::Ready(()) } else { y = true; cx.waker().wake_by_ref(); Poll::Pending } }).await }
/// A gate the harness opens.
#[derive(Clone, Default)]
pub struct Gate(Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);
impl Gate {
    pub fn new() -> Gate { Gate::default() }
    pub fn open(&self) { let _q = sx::Quiet::new(); self.0 .0.set(true); for w in self.0 .1.borrow_mut().drain(..) { w.wake() } }
    pub fn is_open(&self) -> bool { self.0 .0.get() }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<()> { let _q = sx::Quiet::new(); if self.0 .0.get() { Poll::Ready(()) } else { self.0 .1.borrow_mut().push(cx.waker().clone()); Poll::Pending } }
    pub async fn wait(&self) { let g = self.clone(); std::future::poll_fn(move |cx| g.poll(cx)).await }
}

// ---------------------------------------------------------------- timer

pub struct TmSt { pub sleeps: Vec<(u64, Option<Waker>, bool)> }
#[derive(Clone)]
pub struct Tm(pub Rc<RefCell<TmSt>>);
unsafe impl Send for Tm {}
unsafe impl Sync for Tm {}
pub struct Slp { t: Tm, i: usize }
unsafe impl Send for Slp {}
unsafe impl Sync for Slp {}
pub fn ns_of(i: std::time::Instant) -> u64 {
    // Instants of this process are produced by the harness clock
    let now = std::time::Instant::now();
    let n = crate::clock::now_ns();
    if i >= now { n + (i - now).as_nanos() as u64 } else { n - (now - i).as_nanos() as u64 }
}
impl Tm {
    pub fn new() -> Tm { Tm(Rc::new(RefCell::new(TmSt { sleeps: vec![] }))) }
    pub fn live(&self) -> usize { self.0.borrow().sleeps.iter().filter(|s| !s.2).count() }
    /// earliest live deadline
    pub fn next(&self) -> Option<u64> { self.0.borrow().sleeps.iter().filter(|s| !s.2 && s.1.is_some()).map(|s| s.0).min() }
    /// time passes; sleeps that are due wake their task
    pub fn advance_ms(&self, ms: u64) {
        crate::clock::advance_ms(ms);
        self.fire();
    }
    pub fn fire(&self) {
        let now = crate::clock::now_ns();
        let ws: Vec<Waker> = self.0.borrow_mut().sleeps.iter_mut().filter(|s| !s.2 && s.0 <= now).filter_map(|s| s.1.take()).collect();
        for w in ws { w.wake() }
    }
}
impl Future for Slp {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _q = sx::Quiet::new();
        let mut s = self.t.0.borrow_mut();
        let e = &mut s.sleeps[self.i];
        if crate::clock::now_ns() >= e.0 { Poll::Ready(()) } else { e.1 = Some(cx.waker().clone()); Poll::Pending }
    }
}
impl Drop for Slp { fn drop(&mut self) { self.t.0.borrow_mut().sleeps[self.i].2 = true; } }
impl hyper::rt::Sleep for Slp {}
impl hyper::rt::Timer for Tm {
    fn sleep(&self, d: std::time::Duration) -> Pin<Box<dyn hyper::rt::Sleep>> {
        let at = crate::clock::now_ns().saturating_add(d.as_nanos() as u64);
        let mut s = self.0.borrow_mut();
        s.sleeps.push((at, None, false));
        Box::pin(Slp { t: self.clone(), i: s.sleeps.len() - 1 })
    }
    fn sleep_until(&self, t: std::time::Instant) -> Pin<Box<dyn hyper::rt::Sleep>> {
        let at = ns_of(t);
        let mut s = self.0.borrow_mut();
        s.sleeps.push((at, None, false));
        Box::pin(Slp { t: self.clone(), i: s.sleeps.len() - 1 })
    }
}

// ---------------------------------------------------------------- outgoing bodies

/// Echo: the frames of a body that is being received
pub enum Op { Data(Bytes), Trailers(HeaderMap), Pend, Wait(Gate), Err, Echo(Incoming) }
pub struct HBody { pub ops: VecDeque<Op>, pub hint: Option<(u64, Option<u64>)>, pub eos: bool, pub polls: Rc<Cell<usize>>, pub alive: Rc<Cell<bool>>, ended: bool }
impl HBody {
    pub fn new(ops: Vec<Op>) -> HBody { HBody { ops: ops.into(), hint: None, eos: false, polls: Default::default(), alive: Rc::new(Cell::new(true)), ended: false } }
    pub fn empty() -> HBody { let mut b = HBody::new(vec![]); b.hint = Some((0, Some(0))); b.eos = true; b }
    /// full(b): a body that knows its exact length
    pub fn full(b: &[u8]) -> HBody { let mut r = HBody::new(vec![Op::Data(Bytes::copy_from_slice(b))]); r.hint = Some((b.len() as u64, Some(b.len() as u64))); r.eos = true; r }
    pub fn hinted(mut self, lo: u64, hi: Option<u64>) -> HBody { self.hint = Some((lo, hi)); self }
    pub fn eos(mut self) -> HBody { self.eos = true; self }
}
impl Drop for HBody { fn drop(&mut self) { self.alive.set(false) } }
impl Body for HBody {
    type Data = Bytes;
    type Error = BoxErr;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, BoxErr>>> {
        self.polls.set(self.polls.get() + 1);
        if self.ended { sx::fail("the outgoing body is polled after its end"); }
        match self.ops.pop_front() {
            None => { self.ended = true; Poll::Ready(None) }
            Some(Op::Data(b)) => {
                if let Some((lo, hi)) = self.hint.as_mut() { *lo = lo.saturating_sub(b.len() as u64); if let Some(h) = hi { *h = h.saturating_sub(b.len() as u64); } }
                Poll::Ready(Some(Ok(Frame::data(b))))
            }
            Some(Op::Trailers(t)) => Poll::Ready(Some(Ok(Frame::trailers(t)))),
            Some(Op::Pend) => { cx.waker().wake_by_ref(); Poll::Pending }
            Some(Op::Wait(g)) => match g.poll(cx) { Poll::Ready(()) => self.poll_frame(cx), Poll::Pending => { self.ops.push_front(Op::Wait(g)); Poll::Pending } },
            Some(Op::Echo(mut b)) => match Pin::new(&mut b).poll_frame(cx) {
                Poll::Ready(Some(Ok(f))) => { self.ops.push_front(Op::Echo(b)); Poll::Ready(Some(Ok(f))) }
                Poll::Ready(Some(Err(e))) => { self.ended = true; Poll::Ready(Some(Err(e.into()))) }
                Poll::Ready(None) => self.poll_frame(cx),
                Poll::Pending => { self.ops.push_front(Op::Echo(b)); Poll::Pending }
            },
            Some(Op::Err) => { self.ended = true; Poll::Ready(Some(Err(berr()))) }
        }
    }
    fn is_end_stream(&self) -> bool { if let (1, Some(Op::Echo(b))) = (self.ops.len(), self.ops.front()) { return b.is_end_stream(); } self.eos && self.ops.is_empty() }
    fn size_hint(&self) -> SizeHint {
        if let (1, Some(Op::Echo(b))) = (self.ops.len(), self.ops.front()) { return b.size_hint(); }
        let mut h = SizeHint::new();
        if let Some((lo, hi)) = self.hint { h.set_lower(lo); if let Some(x) = hi { h.set_upper(x); } }
        h
    }
}

// ---------------------------------------------------------------- incoming side

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Open, Eof, Err, Dropped }
#[derive(Clone, Debug)]
pub struct Msg {
    pub method: String,
    pub uri: String,
    pub version: http::Version,
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub trailers: Option<Vec<(String, Vec<u8>)>>,
    pub end: End,
    pub frames: usize,
    /// size hint and end-of-stream indication before anything was read
    pub exact: Option<u64>,
    pub eos: bool,
    pub incomplete: bool,
}
impl Msg {
    pub fn get(&self, n: &str) -> Vec<&[u8]> { self.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| &v[..]).collect() }
    pub fn has(&self, n: &str) -> bool { self.headers.iter().any(|(k, _)| k == n) }
}
pub fn hdrs(h: &HeaderMap) -> Vec<(String, Vec<u8>)> { h.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect() }
pub type Log = Rc<RefCell<Vec<Msg>>>;
pub fn log() -> Log { Default::default() }

pub async fn next_frame(b: &mut Incoming) -> Option<Result<Frame<Bytes>, hyper::Error>> { std::future::poll_fn(|cx| Pin::new(&mut *b).poll_frame(cx)).await }
/// read a message body into entry `i` of the log; at most `max` frames (then the body is dropped)
pub async fn drain(mut b: Incoming, log: Log, i: usize, max: usize) {
    let mut n = 0;
    let mut short = b.size_hint().lower();
    loop {
        if n >= max { drop(b); log.borrow_mut()[i].end = End::Dropped; return; }
        let hint = b.size_hint();
        let eos = b.is_end_stream();
        match next_frame(&mut b).await {
            None => { if short > 0 && log.borrow()[i].version != http::Version::HTTP_2 { sx::fail("a body ends short of its size hint"); } log.borrow_mut()[i].end = End::Eof; return; }
            Some(Err(e)) => { let _q = sx::Quiet::new(); let mut l = log.borrow_mut(); l[i].incomplete = e.is_incomplete_message(); l[i].end = End::Err; return; }
            Some(Ok(f)) => {
                let _q = sx::Quiet::new();
                if eos { sx::fail("a body that reported its end still produced a frame"); }
                n += 1;
                let mut l = log.borrow_mut();
                l[i].frames += 1;
                match f.into_data() {
                    Ok(d) => {
                        if let Some(u) = hint.upper() { if d.len() as u64 > u { sx::fail("a body produced more data than its size hint allows"); } }
                        short = short.saturating_sub(d.len() as u64);
                        l[i].body.extend_from_slice(&d)
                    }
                    Err(f) => if let Ok(t) = f.into_trailers() { l[i].trailers = Some(hdrs(&t)); },
                }
            }
        }
    }
}
pub fn log_req(log: &Log, p: &http::request::Parts, b: &Incoming) -> usize {
    let (exact, eos) = (b.size_hint().exact(), b.is_end_stream());
    let _q = sx::Quiet::new();
    let mut l = log.borrow_mut();
    l.push(Msg { method: p.method.as_str().to_string(), uri: p.uri.to_string(), version: p.version, status: 0, headers: hdrs(&p.headers), body: vec![], trailers: None, end: End::Open, frames: 0, exact, eos, incomplete: false });
    l.len() - 1
}
pub fn log_resp(log: &Log, p: &http::response::Parts, b: &Incoming) -> usize {
    let (exact, eos) = (b.size_hint().exact(), b.is_end_stream());
    let _q = sx::Quiet::new();
    let mut l = log.borrow_mut();
    l.push(Msg { method: String::new(), uri: String::new(), version: p.version, status: p.status.as_u16(), headers: hdrs(&p.headers), body: vec![], trailers: None, end: End::Open, frames: 0, exact, eos, incomplete: false });
    l.len() - 1
}

pub fn eqi(a: &[u8], b: &str) -> bool { a.eq_ignore_ascii_case(b.as_bytes()) }
pub fn starts(a: &[u8], b: &[u8]) -> bool { a.len() >= b.len() && &a[..b.len()] == b }
pub fn find(a: &[u8], b: &[u8]) -> Option<usize> { if b.len() > a.len() { return None; } (0..=a.len() - b.len()).find(|&i| &a[i..i + b.len()] == b) }
pub fn trim(mut v: &[u8]) -> &[u8] {
    while let [b' ' | b'\t', r @ ..] = v { v = r }
    while let [r @ .., b' ' | b'\t'] = v { v = r }
    v
}
pub fn hv(b: &[u8]) -> HeaderValue { match HeaderValue::from_bytes(b) { Ok(v) => v, Err(_) => sx::end() } }
pub fn hn(b: &[u8]) -> HeaderName { match HeaderName::from_bytes(b) { Ok(v) => v, Err(_) => sx::end() } }
pub fn cat_str(a: &str, b: &str) -> String { let mut s = String::from(a); s.push_str(b); s }
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { let mut v = vec![]; for p in parts { v.extend_from_slice(p) } v }
pub fn syms(n: usize, name: &str) -> Vec<u8> { (0..n).map(|_| sx::byte(name)).collect() }

// ---------------------------------------------------------------- reference reader of a message stream (RFC 9112)

#[derive(Debug, Clone)]
pub struct WireMsg {
    pub line: Vec<u8>,
    pub version: u8,
    pub status: u16,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
    pub chunks: Vec<Vec<u8>>,
    pub chunked: bool,
    pub by_close: bool,
    pub complete: bool,
    pub trailers: Vec<(Vec<u8>, Vec<u8>)>,
    pub raw_head: Vec<u8>,
}
impl WireMsg {
    pub fn get(&self, n: &str) -> Vec<&[u8]> { self.headers.iter().filter(|(k, _)| eqi(k, n)).map(|(_, v)| &v[..]).collect() }
    pub fn has(&self, n: &str) -> bool { self.headers.iter().any(|(k, _)| eqi(k, n)) }
    pub fn tokens(&self, n: &str) -> Vec<Vec<u8>> { self.get(n).iter().flat_map(|v| v.split(|&c| c == b',').map(|t| trim(t).to_ascii_lowercase())).filter(|t| !t.is_empty()).collect() }
    pub fn close(&self) -> bool { self.tokens("connection").iter().any(|t| t == b"close") }
    pub fn keep_alive(&self) -> bool { self.tokens("connection").iter().any(|t| t == b"keep-alive") }
}
pub fn is_tchar(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c) }
/// header lines up to the empty line: (headers, bytes used); None: malformed or incomplete
pub fn wire_headers(b: &[u8]) -> Result<(Vec<(Vec<u8>, Vec<u8>)>, usize), &'static str> {
    let mut hs = vec![];
    let mut p = 0;
    loop {
        let rest = &b[p..];
        let e = find(rest, b"\r\n").ok_or("incomplete header block")?;
        if e == 0 { return Ok((hs, p + 2)); }
        let l = &rest[..e];
        let c = l.iter().position(|&c| c == b':').ok_or("header line without a colon")?;
        if c == 0 || !l[..c].iter().all(|&c| is_tchar(c)) { return Err("header name is not a token"); }
        if l[c + 1..].iter().any(|&c| c == b'\r' || c == b'\n' || c == 0) { return Err("control character in a header value"); }
        hs.push((l[..c].to_vec(), trim(&l[c + 1..]).to_vec()));
        p += e + 2;
    }
}
/// chunked body: (data, trailers, used)
pub fn wire_chunked(b: &[u8]) -> Result<(Vec<Vec<u8>>, Vec<(Vec<u8>, Vec<u8>)>, usize), &'static str> {
    let mut chunks = vec![];
    let mut p = 0;
    loop {
        let rest = &b[p..];
        let e = find(rest, b"\r\n").ok_or("incomplete chunk size")?;
        let l = &rest[..e];
        if l.is_empty() || l.len() > 16 || !l.iter().all(|c| c.is_ascii_hexdigit()) { return Err("bad chunk size"); }
        let mut n = 0usize;
        for &c in l { n = n * 16 + (c as char).to_digit(16).unwrap() as usize; }
        p += e + 2;
        if n == 0 {
            let (t, u) = wire_headers(&b[p..])?;
            return Ok((chunks, t, p + u));
        }
        if b.len() < p + n + 2 { return Err("incomplete chunk"); }
        chunks.push(b[p..p + n].to_vec());
        if &b[p + n..p + n + 2] != b"\r\n" { return Err("chunk not terminated"); }
        p += n + 2;
    }
}
/// Read one response of the stream (`req_method` decides whether it has a body). Err: the stream is malformed.
pub fn wire_response(b: &[u8], req_method: &str, eof: bool) -> Result<(WireMsg, usize), &'static str> {
    let e = find(b, b"\r\n").ok_or("incomplete status line")?;
    let l = &b[..e];
    if l.len() < 13 || !starts(l, b"HTTP/1.") || l[8] != b' ' || l[12] != b' ' { return Err("bad status line"); }
    if !l[9..12].iter().all(|c| c.is_ascii_digit()) || l[13..].iter().any(|&c| c != b'\t' && (c < 32 || c == 127)) { return Err("bad status line"); }
    let status = l[9..12].iter().fold(0u16, |a, c| a * 10 + (c - b'0') as u16);
    let version = l[7] - b'0';
    if version > 1 { return Err("bad version"); }
    let (headers, hu) = wire_headers(&b[e + 2..])?;
    let mut p = e + 2 + hu;
    let mut m = WireMsg { line: l.to_vec(), version, status, headers, body: vec![], chunks: vec![], chunked: false, by_close: false, complete: true, trailers: vec![], raw_head: b[..p].to_vec() };
    let te = m.tokens("transfer-encoding");
    let cl = m.get("content-length").iter().map(|v| v.to_vec()).collect::<Vec<_>>();
    if !te.is_empty() && !cl.is_empty() { return Err("response with both content-length and transfer-encoding"); }
    if cl.len() > 1 { return Err("more than one content-length"); }
    let mut len = None;
    if let Some(v) = cl.first() {
        if v.is_empty() || v.len() > 18 || !v.iter().all(|c| c.is_ascii_digit()) { return Err("bad content-length"); }
        len = Some(v.iter().fold(0u64, |a, c| a * 10 + (c - b'0') as u64));
    }
    if req_method == "HEAD" || status / 100 == 1 || status == 204 || status == 304 || (req_method == "CONNECT" && status / 100 == 2) { return Ok((m, p)); }
    if !te.is_empty() {
        if te.last().map(|t| &t[..]) == Some(b"chunked") {
            m.chunked = true;
            match wire_chunked(&b[p..]) {
                Ok((c, t, u)) => { m.body = c.concat(); m.chunks = c; m.trailers = t; p += u; }
                Err(e) if e.starts_with("incomplete") => { m.complete = false; p = b.len(); }
                Err(e) => return Err(e),
            }
            return Ok((m, p));
        }
        if !te.is_empty() { m.by_close = true; m.body = b[p..].to_vec(); m.complete = eof; return Ok((m, b.len())); }
    }
    if let Some(n) = len {
        let have = (b.len() - p) as u64;
        if have < n { m.complete = false; m.body = b[p..].to_vec(); return Ok((m, b.len())); }
        m.body = b[p..p + n as usize].to_vec();
        return Ok((m, p + n as usize));
    }
    m.by_close = true;
    m.body = b[p..].to_vec();
    m.complete = eof;
    Ok((m, b.len()))
}
/// All responses on the wire; 1xx are separate entries and do not use up a method.
pub fn wire_responses(mut b: &[u8], methods: &[&str], eof: bool) -> Result<Vec<WireMsg>, &'static str> {
    let mut v = vec![];
    let mut i = 0;
    while !b.is_empty() {
        let m = methods.get(i).copied().unwrap_or("GET");
        let (r, u) = wire_response(b, m, eof)?;
        if r.status / 100 != 1 || r.status == 101 { i += 1; }
        let tunnel = r.status == 101 || (m == "CONNECT" && r.status / 100 == 2);
        v.push(r);
        b = &b[u..];
        if tunnel { break; }
    }
    Ok(v)
}
