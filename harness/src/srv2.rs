//! HTTP/2 server connection under test.
use crate::{h2p::*, srv::{Handler, Resp, Svc}, sup::*, sx};
use hyper::server::conn::http2::{Builder, Connection};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub struct Srv2 { pub ex: Ex, pub dev: Dev, pub peer: Peer, pub log: Log, pub res: Rc<RefCell<Option<Result<(), hyper::Error>>>>, pub task: usize, pub shut: Rc<Cell<bool>> }
pub fn builder2(ex: &Ex) -> Builder<Exec> { let mut b = Builder::new(Exec(ex.inject.clone())); b.auto_date_header(false); b }
impl Srv2 {
    pub fn new(conf: impl FnOnce(&mut Builder<Exec>), h: Handler) -> Srv2 {
        let (io, dev) = io(vec![]);
        let log = log();
        let svc = Svc { h: RefCell::new(h), log: log.clone() };
        let res: Rc<RefCell<Option<Result<(), hyper::Error>>>> = Default::default();
        let shut: Rc<Cell<bool>> = Default::default();
        let mut ex = Ex::new(&[&dev]);
        let mut b = builder2(&ex);
        conf(&mut b);
        let mut conn = Some(b.serve_connection(io, svc));
        let (r2, s2) = (res.clone(), shut.clone());
        let mut told = false;
        let task = ex.spawn(std::future::poll_fn(move |cx| {
            let c = conn.as_mut().unwrap();
            if s2.get() && !told { told = true; Pin::new(&mut *c).graceful_shutdown(); }
            match Pin::new(c).poll(cx) {
                Poll::Ready(r) => { *r2.borrow_mut() = Some(r); drop(conn.take()); Poll::Ready(()) }
                Poll::Pending => Poll::Pending,
            }
        }));
        let peer = Peer::new(&dev, true);
        Srv2 { ex, dev, peer, log, res, task, shut }
    }
    /// run until neither hyper nor the peer's automatic answers change anything
    pub fn run(&mut self) -> &mut Self { loop { self.ex.run(); if !self.peer.pump() { return self; } } }
    pub fn graceful(&mut self) { self.shut.set(true); self.ex.wake(self.task); }
    pub fn done(&self) -> bool { self.res.borrow().is_some() }
    pub fn is_ok(&self) -> bool { matches!(*self.res.borrow(), Some(Ok(()))) }
    pub fn is_err(&self) -> bool { matches!(*self.res.borrow(), Some(Err(_))) }
    pub fn nreq(&self) -> usize { self.log.borrow().len() }
    pub fn reqs(&self) -> Vec<Msg> { self.log.borrow().clone() }
}
