//! HTTP/2 client connection under test.
use crate::{cli::*, h2p::*, sup::*, sx};
use hyper::client::conn::http2::{Builder, SendRequest};
use hyper::Request;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub struct Cli2 { pub ex: Ex, pub dev: Dev, pub peer: Peer, pub log: Log, pub tx: Option<SendRequest<HBody>>, pub res: Rc<RefCell<Option<Result<(), hyper::Error>>>>, pub task: usize, pub outs: Vec<Rc<Cell<Out>>>, pub timeouts: Rc<Cell<usize>>, pub tasks: Vec<usize>, pub ups: Rc<RefCell<Vec<Option<hyper::upgrade::OnUpgrade>>>>, pub kill: Rc<Cell<bool>> }
impl Cli2 {
    pub fn new(conf: impl FnOnce(&mut Builder<Exec>)) -> Cli2 {
        let (io, dev) = io(vec![]);
        let log = log();
        let res: Rc<RefCell<Option<Result<(), hyper::Error>>>> = Default::default();
        let mut ex = Ex::new(&[&dev]);
        let mut b = Builder::new(Exec(ex.inject.clone()));
        conf(&mut b);
        let (tx, conn) = match now(b.handshake::<_, HBody>(io)) { Ok(x) => x, Err(_) => sx::fail("handshake fails") };
        let r2 = res.clone();
        let mut conn = Some(conn);
        let kill: Rc<Cell<bool>> = Default::default();
        let k2 = kill.clone();
        let task = ex.spawn(std::future::poll_fn(move |cx| {
            if k2.get() { drop(conn.take()); *r2.borrow_mut() = Some(Ok(())); return Poll::Ready(()); }
            match Pin::new(conn.as_mut().unwrap()).poll(cx) {
                Poll::Ready(r) => { *r2.borrow_mut() = Some(r); drop(conn.take()); Poll::Ready(()) }
                Poll::Pending => Poll::Pending,
            }
        }));
        let peer = Peer::new(&dev, false);
        Cli2 { ex, dev, peer, log, tx: Some(tx), res, task, outs: vec![], timeouts: Default::default(), tasks: vec![], ups: Default::default(), kill }
    }
    pub fn send_n(&mut self, r: Request<HBody>, frames: usize) -> usize {
        let f = self.tx.as_mut().unwrap().try_send_request(r);
        let o = Rc::new(Cell::new(Out::Pending));
        self.outs.push(o.clone());
        let (log, ups, to) = (self.log.clone(), self.ups.clone(), self.timeouts.clone());
        let k = self.outs.len() - 1;
        let t = self.ex.spawn(async move {
            match f.await {
                Ok(mut r) => {
                    let on = hyper::upgrade::on(&mut r);
                    { let mut u = ups.borrow_mut(); while u.len() <= k { u.push(None); } u[k] = Some(on); }
                    let (p, b) = r.into_parts();
                    let i = log_resp(&log, &p, &b);
                    o.set(Out::Resp(i));
                    drain(b, log, i, frames).await;
                }
                Err(mut e) => { let m = e.take_message().is_some(); if timed_out(e.error()) { to.set(to.get() + 1); } o.set(errout(e.error(), m)); }
            }
        });
        self.tasks.push(t);
        k
    }
    pub fn send(&mut self, r: Request<HBody>) -> usize { self.send_n(r, usize::MAX) }
    pub fn run(&mut self) -> &mut Self { loop { self.ex.run(); if !self.peer.pump() { return self; } } }
    pub fn out(&self, i: usize) -> Out { self.outs[i].get() }
    pub fn resp(&self, i: usize) -> Option<Msg> { match self.out(i) { Out::Resp(k) => Some(self.log.borrow()[k].clone()), _ => None } }
    /// the application drops request i (the response future or the response body)
    pub fn drop_req(&mut self, i: usize) { let t = self.tasks[i]; self.ex.kill(t); if self.outs[i].get() == Out::Pending { self.outs[i].set(Out::Gone); } }
    pub fn done(&self) -> bool { self.res.borrow().is_some() }
    pub fn is_ok(&self) -> bool { matches!(*self.res.borrow(), Some(Ok(()))) }
    pub fn is_err(&self) -> bool { matches!(*self.res.borrow(), Some(Err(_))) }
}
pub fn timed_out(e: &hyper::Error) -> bool { e.is_timeout() }
pub fn req2(m: &str, uri: &str, b: HBody) -> Request<HBody> { Request::builder().method(m).uri(uri).body(b).unwrap() }
pub fn get2(uri: &str) -> Request<HBody> { req2("GET", uri, HBody::empty()) }
