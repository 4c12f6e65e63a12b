//! What an application does with an upgraded connection.
use crate::{sup::*, sx};
use hyper::upgrade::{OnUpgrade, Upgraded};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

#[derive(Default)]
pub struct Tun { pub up: bool, pub failed: bool, pub user: bool, pub got: Vec<u8>, pub eof: bool, pub rerr: bool, pub wrote: bool, pub shut: bool, pub parts: Option<Vec<u8>> }
pub type TunRef = Rc<RefCell<Tun>>;

async fn read_some(u: &mut Upgraded, n: usize) -> Result<Vec<u8>, ()> {
    let mut a = [0u8; 16];
    let r = std::future::poll_fn(|cx| {
        let mut rb = hyper::rt::ReadBuf::new(&mut a[..n]);
        match hyper::rt::Read::poll_read(Pin::new(&mut *u), cx, rb.unfilled()) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(rb.filled().to_vec())),
            Poll::Ready(Err(_)) => Poll::Ready(Err(())),
            Poll::Pending => Poll::Pending,
        }
    }).await;
    r
}
async fn write_all(u: &mut Upgraded, mut b: &[u8], vectored: bool) -> bool {
    while !b.is_empty() {
        let r = std::future::poll_fn(|cx| if vectored {
            let k = b.len() / 2;
            hyper::rt::Write::poll_write_vectored(Pin::new(&mut *u), cx, &[std::io::IoSlice::new(&b[..k]), std::io::IoSlice::new(&b[k..])])
        } else { hyper::rt::Write::poll_write(Pin::new(&mut *u), cx, b) }).await;
        match r { Ok(n) if n > 0 => b = &b[n..], _ => return false }
    }
    std::future::poll_fn(|cx| hyper::rt::Write::poll_flush(Pin::new(&mut *u), cx)).await.is_ok()
}
struct NotIo;
impl hyper::rt::Read for NotIo { fn poll_read(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> { Poll::Pending } }
impl hyper::rt::Write for NotIo {
    fn poll_write(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Pending }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
}
/// write the bytes one by one and drop the connection
pub async fn write_drop(on: OnUpgrade, t: TunRef, out: Vec<u8>) {
    let mut u = match on.await { Ok(u) => u, Err(_) => { t.borrow_mut().failed = true; return; } };
    t.borrow_mut().up = true;
    let mut ok = true;
    for (i, b) in out.iter().enumerate() { if i > 0 { yield_now().await; } ok &= write_all(&mut u, &[*b], false).await; }
    t.borrow_mut().wrote = ok;
}
/// what the application does with an upgrade: write `out`, read everything in pieces of `n`, shut down
pub async fn tunnel(on: OnUpgrade, t: TunRef, out: Vec<u8>, n: usize, vectored: bool, first: bool) {
    let mut u = match on.await { Ok(u) => u, Err(e) => { let mut t = t.borrow_mut(); t.failed = true; t.user = e.is_user(); return; } };
    t.borrow_mut().up = true;
    // a downcast to another type gives the connection back as it was
    if n != 1 { u = match u.downcast::<NotIo>() { Err(u) => u, Ok(_) => sx::fail("an upgraded connection is taken for a type that it is not") }; }
    if n == 0 {
        match u.downcast::<Io>() { Ok(p) => { t.borrow_mut().parts = Some(p.read_buf.to_vec()); drop(p.io); } Err(_) => sx::fail("the upgraded connection cannot be downcast to the transport type") }
        return;
    }
    if first { t.borrow_mut().wrote = write_all(&mut u, &out, vectored).await; }
    loop {
        match read_some(&mut u, n).await {
            Ok(v) if v.is_empty() => { t.borrow_mut().eof = true; break; }
            Ok(v) => t.borrow_mut().got.extend_from_slice(&v),
            Err(()) => { t.borrow_mut().rerr = true; break; }
        }
    }
    if !first { t.borrow_mut().wrote = write_all(&mut u, &out, vectored).await; }
    if std::future::poll_fn(|cx| hyper::rt::Write::poll_shutdown(Pin::new(&mut u), cx)).await.is_ok() { t.borrow_mut().shut = true; }
}
