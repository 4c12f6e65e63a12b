//! HTTP/1 server connection under test.
use crate::{sup::*, sx};
use hyper::body::Incoming;
use hyper::server::conn::http1::{Builder, Connection};
use hyper::{Request, Response};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub type Resp = Result<Response<HBody>, BoxErr>;
pub type Handler = Box<dyn FnMut(usize, http::request::Parts, Incoming, Log) -> LocalFut<Resp>>;
pub struct Svc { pub h: RefCell<Handler>, pub log: Log }
impl hyper::service::Service<Request<Incoming>> for Svc {
    type Response = Response<HBody>;
    type Error = BoxErr;
    type Future = LocalFut<Resp>;
    fn call(&self, r: Request<Incoming>) -> Self::Future {
        let (p, b) = r.into_parts();
        let i = log_req(&self.log, &p, &b);
        (self.h.borrow_mut())(i, p, b, self.log.clone())
    }
}
pub type SrvConn = Connection<Io, Svc>;
pub struct Srv { pub ex: Ex, pub dev: Dev, pub log: Log, pub res: Rc<RefCell<Option<Result<(), hyper::Error>>>>, pub task: usize, pub shut: Rc<Cell<bool>>, pub left: Rc<RefCell<Option<Vec<u8>>>> }

pub fn builder() -> Builder { let mut b = Builder::new(); b.auto_date_header(false); b }
/// reads the whole request body, then answers with `resp(index)`
pub fn reading(mut resp: impl FnMut(usize) -> Response<HBody> + 'static) -> Handler {
    Box::new(move |i, _p, b, log| {
        let r = resp(i);
        Box::pin(async move { drain(b, log, i, usize::MAX).await; Ok(r) })
    })
}
pub fn ok(b: HBody) -> Response<HBody> { Response::new(b) }
pub fn status(s: u16, b: HBody) -> Response<HBody> { let mut r = Response::new(b); *r.status_mut() = http::StatusCode::from_u16(s).unwrap(); r }
pub fn numbered(i: usize) -> Response<HBody> { ok(HBody::full(&[b'#', b'0' + i as u8])) }

fn finish(c: SrvConn, left: &Rc<RefCell<Option<Vec<u8>>>>) -> Io { let p = c.into_parts(); *left.borrow_mut() = Some(p.read_buf.to_vec()); p.io }
impl Srv {
    pub fn new(b: &Builder, iodev: (Io, Dev), h: Handler) -> Srv {
        let (io, dev) = iodev;
        let log = log();
        let svc = Svc { h: RefCell::new(h), log: log.clone() };
        let res: Rc<RefCell<Option<Result<(), hyper::Error>>>> = Default::default();
        let left: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
        let shut: Rc<Cell<bool>> = Default::default();
        let mut ex = Ex::new(&[&dev]);
        let mut conn = Some(b.serve_connection(io, svc));
        let (r2, s2, l2) = (res.clone(), shut.clone(), left.clone());
        let mut told = false;
        let task = ex.spawn(std::future::poll_fn(move |cx| {
            let c = conn.as_mut().unwrap();
            if s2.get() && !told { told = true; Pin::new(&mut *c).graceful_shutdown(); }
            match Pin::new(c).poll(cx) {
                Poll::Ready(r) => {
                    *r2.borrow_mut() = Some(r);
                    finish(conn.take().unwrap(), &l2);
                    Poll::Ready(())
                }
                Poll::Pending => Poll::Pending,
            }
        }));
        Srv { ex, dev, log, res, task, shut, left }
    }
    pub fn run(&mut self) -> &mut Self { self.ex.run(); self }
    /// the application asks for a graceful shutdown and polls the connection
    pub fn graceful(&mut self) { self.shut.set(true); self.ex.wake(self.task); }
    pub fn done(&self) -> bool { self.res.borrow().is_some() }
    pub fn is_ok(&self) -> bool { matches!(*self.res.borrow(), Some(Ok(()))) }
    pub fn is_err(&self) -> bool { matches!(*self.res.borrow(), Some(Err(_))) }
    pub fn err<R>(&self, f: impl FnOnce(&hyper::Error) -> R) -> Option<R> { match &*self.res.borrow() { Some(Err(e)) => Some(f(e)), _ => None } }
    pub fn reqs(&self) -> Vec<Msg> { self.log.borrow().clone() }
    pub fn nreq(&self) -> usize { self.log.borrow().len() }
    pub fn out(&self) -> Vec<u8> { self.dev.tx() }
    /// parse what was written; any malformation is a violation
    pub fn responses(&self, methods: &[&str]) -> Vec<WireMsg> {
        match wire_responses(&self.out(), methods, self.dev.is_shutdown()) { Ok(v) => v, Err(e) => sx::fail(&cat_str("malformed response stream: ", e)) }
    }
}
