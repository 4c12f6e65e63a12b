//! HTTP/1 client connection under test.
use crate::{sup::*, sx};
use hyper::client::conn::http1::{Builder, Connection, SendRequest};
use hyper::{Request, Response};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out { Pending, Resp(usize), Err { canceled: bool, returned: bool, incomplete: bool, parse: bool, closed: bool, user: bool, shutdown: bool }, Gone }
pub struct Cli { pub ex: Ex, pub dev: Dev, pub log: Log, pub tx: Option<SendRequest<HBody>>, pub res: Rc<RefCell<Option<Result<(), hyper::Error>>>>, pub task: usize, pub left: Rc<RefCell<Option<Vec<u8>>>>, pub outs: Vec<Rc<Cell<Out>>>, pub tasks: Vec<usize>, pub reasons: Rc<RefCell<Vec<Option<Vec<u8>>>>> }

pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(v) => v, Poll::Pending => sx::fail("handshake does not complete at once") }
}
pub fn errout(e: &hyper::Error, returned: bool) -> Out { Out::Err { canceled: e.is_canceled(), returned, incomplete: e.is_incomplete_message(), parse: e.is_parse(), closed: e.is_closed(), user: e.is_user(), shutdown: e.is_shutdown() } }
impl Cli {
    pub fn new(b: &Builder, iodev: (Io, Dev)) -> Cli {
        let (io, dev) = iodev;
        let (tx, conn) = match now(b.handshake::<_, HBody>(io)) { Ok(x) => x, Err(_) => sx::fail("handshake fails") };
        let log = log();
        let res: Rc<RefCell<Option<Result<(), hyper::Error>>>> = Default::default();
        let left: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
        let mut ex = Ex::new(&[&dev]);
        let (r2, l2) = (res.clone(), left.clone());
        let mut conn: Option<Connection<Io, HBody>> = Some(conn);
        let task = ex.spawn(std::future::poll_fn(move |cx| match Pin::new(conn.as_mut().unwrap()).poll(cx) {
            Poll::Ready(r) => {
                *r2.borrow_mut() = Some(r);
                let p = conn.take().unwrap().into_parts();
                *l2.borrow_mut() = Some(p.read_buf.to_vec());
                Poll::Ready(())
            }
            Poll::Pending => Poll::Pending,
        }));
        Cli { ex, dev, log, tx: Some(tx), res, task, left, outs: vec![], tasks: vec![], reasons: Default::default() }
    }
    /// submit a request; the response head is logged and its body read (at most `frames` frames)
    pub fn send_n(&mut self, r: Request<HBody>, frames: usize) -> usize { let g = Gate::new(); g.open(); self.send_gated(r, frames, g) }
    /// the body is read only once the gate is open
    pub fn send_gated(&mut self, r: Request<HBody>, frames: usize, g: Gate) -> usize {
        let f = self.tx.as_mut().unwrap().try_send_request(r);
        let o = Rc::new(Cell::new(Out::Pending));
        self.outs.push(o.clone());
        let (log, rs) = (self.log.clone(), self.reasons.clone());
        let t = self.ex.spawn(async move {
            match f.await {
                Ok(r) => {
                    let (p, b) = r.into_parts();
                    let i = log_resp(&log, &p, &b);
                    rs.borrow_mut().push(p.extensions.get::<hyper::ext::ReasonPhrase>().map(|r| r.as_bytes().to_vec()));
                    o.set(Out::Resp(i));
                    g.wait().await;
                    drain(b, log, i, frames).await;
                }
                Err(mut e) => { let m = e.take_message().is_some(); o.set(errout(e.error(), m)); }
            }
        });
        self.tasks.push(t);
        self.outs.len() - 1
    }
    pub fn send(&mut self, r: Request<HBody>) -> usize { self.send_n(r, usize::MAX) }
    pub fn run(&mut self) -> &mut Self { self.ex.run(); self }
    pub fn out(&self, i: usize) -> Out { self.outs[i].get() }
    pub fn resp(&self, i: usize) -> Option<Msg> { match self.out(i) { Out::Resp(k) => Some(self.log.borrow()[k].clone()), _ => None } }
    /// reason phrase of a response as the caller sees it
    pub fn reason(&self, i: usize) -> Vec<u8> { match self.out(i) { Out::Resp(k) => match self.reasons.borrow()[k].clone() { Some(r) => r, None => http::StatusCode::from_u16(self.log.borrow()[k].status).unwrap().canonical_reason().unwrap_or("").as_bytes().to_vec() }, _ => vec![] } }
    pub fn done(&self) -> bool { self.res.borrow().is_some() }
    pub fn is_ok(&self) -> bool { matches!(*self.res.borrow(), Some(Ok(()))) }
    pub fn is_err(&self) -> bool { matches!(*self.res.borrow(), Some(Err(_))) }
    pub fn wire(&self) -> Vec<u8> { self.dev.tx() }
    pub fn is_ready(&self) -> bool { self.tx.as_ref().unwrap().is_ready() }
}
pub fn req(m: &str, uri: &str, b: HBody) -> Request<HBody> { Request::builder().method(m).uri(uri).header("host", "h").body(b).unwrap() }
pub fn get(uri: &str) -> Request<HBody> { req("GET", uri, HBody::empty()) }
pub fn builder() -> Builder { Builder::new() }
