//! Message bodies and fields used by both HTTP/2 groups.
use crate::{h2p::*, sup::*, sx, tun::TunRef};
use bytes::Bytes;
use http::HeaderMap;

#[derive(Clone)]
pub struct Plan { pub data: Vec<Vec<u8>>, pub trailers: Option<HeaderMap>, pub err: bool, pub exact: bool, pub eos: bool, pub wait: Option<Gate> }
impl Plan {
    pub fn all(&self) -> Vec<u8> { self.data.concat() }
    pub fn body(&self) -> HBody {
        let mut ops = vec![];
        if let Some(g) = &self.wait { ops.push(Op::Wait(g.clone())); }
        for (i, d) in self.data.iter().enumerate() { if i == 1 { ops.push(Op::Pend); } ops.push(Op::Data(Bytes::copy_from_slice(d))); }
        if let Some(t) = &self.trailers { ops.push(Op::Trailers(t.clone())); }
        if self.err { ops.push(Op::Err); }
        let mut b = HBody::new(ops);
        b.eos = self.eos;
        if self.exact { let n = self.data.iter().map(|d| d.len() as u64).sum(); b.hint = Some((n, Some(n))); }
        b
    }
}
/// any plan of up to `n` data frames with the sizes of `sizes`, any bytes
pub fn plan(n: usize, sizes: &[usize]) -> Plan {
    let k = sx::pick(n + 1, "data frames");
    let data: Vec<Vec<u8>> = (0..k).map(|_| syms(sizes[sx::pick(sizes.len(), "frame size")], "body byte")).collect();
    let end = sx::pick(6, "end: plain, end of stream indicated, exact length, trailers, error, exact length and trailers");
    let mut t = HeaderMap::new();
    t.insert("x-t", hv(b"1"));
    Plan { data, trailers: if end == 3 || end == 5 { Some(t) } else { None }, err: end == 4, exact: end == 2 || end == 5, eos: end == 1 || end == 2 || end == 5, wait: None }
}
/// names a connection field of this value nominates
pub fn nominated(v: &[u8], n: &str) -> bool { v.split(|&c| c == b',').any(|t| eqi(trim(t), n)) }
/// a message's fields with connection-specific ones among them: what may be left
pub struct Mix { pub map: HeaderMap, pub conn: Vec<Vec<u8>>, pub bad: bool }
pub fn mix(len: usize, lines: usize) -> Mix {
    let mut map = HeaderMap::new();
    let mut bad = false;
    let mut conn = vec![];
    map.insert("a", hv(b"1"));
    map.append("b", hv(b"2"));
    map.append("b", hv(b"3"));
    for k in 0..sx::pick(lines + 1, "connection fields") {
        let v = syms(len, "connection value");
        for &c in &v { sx::assume(c > 32 && c < 127 || c == 32); }
        map.append("connection", hv(&v));
        conn.push(v);
    }
    let names = ["keep-alive", "proxy-connection", "transfer-encoding", "upgrade"];
    let which = sx::pick(6, "connection-specific fields: none, one of four, all");
    for (i, n) in names.into_iter().enumerate() { if which == i + 1 || which == 5 { bad = true; map.append(n, hv(b"x")); map.append(n, hv(b"y")); } }
    bad |= !conn.is_empty();
    Mix { map, conn, bad }
}
pub fn left(m: &Mix, got: &Fields) {
    let n = |x: &str| m.conn.iter().any(|v| nominated(v, x));
    for (name, vals) in [("a", &[&b"1"[..]][..]), ("b", &[b"2", b"3"])] {
        let v: Vec<Vec<u8>> = got.iter().filter(|(k, _)| k == name).map(|(_, v)| v.clone()).collect();
        if n(name) { sx::check(v.is_empty(), "h02: a field the connection field names is forwarded"); sx::cover("nominated"); } else { sx::check(v.len() == vals.len() && v.iter().zip(vals).all(|(a, b)| a == b), "h02: a field is lost or changed"); }
    }
    if m.conn.len() > 1 { sx::cover("two connection fields"); }
}
/// any frame: type, flags, stream and payload arbitrary; payload sizes around what the type allows, header blocks of up to k bytes
pub fn odd(k: usize, few: bool) -> Vec<u8> {
    let ty = sx::pick(11, "frame type") as u8;
    let fl = if few { [0, 1, 4, 5][sx::pick(4, "flags")] } else { sx::byte("flags") };
    let sid = [0u32, 1, 3, 2, 0x8000_0001][sx::pick(if few { 3 } else { 5 }, "stream")];
    let n = match ty {
        PRIORITY => 4 + sx::pick(2, "payload size"),
        RST | WUPD => 3 + sx::pick(2, "payload size"),
        SETTINGS => [0, 5, 6][sx::pick(3, "payload size")],
        PING | GOAWAY => 7 + sx::pick(2, "payload size"),
        DATA | HEADERS | PUSH | CONT => sx::pick(k + 1, "payload size"),
        _ => sx::pick(2, "payload size"),
    };
    fr(ty, fl, sid, &syms(n, "payload byte"))
}
/// send `total` bytes through the tunnel on stream 1, never beyond its window
pub fn feed_tunnel(w: u32, total: usize, peer: &mut Peer, ex: &mut Ex, t: &TunRef) {
    let (mut sent, mut n) = (0, 0);
    while sent < total {
        loop { ex.run(); if !peer.pump() { break; } }
        let room = peer.s(1).recv_wnd.min((total - sent) as i64);
        sx::check(room > 0 && peer.s(1).recv_wnd * 2 >= w as i64, "the window of a tunnel that is read is not reopened");
        sx::check(peer.s(1).recv_wnd <= w as i64, "the tunnel's window grows beyond what was configured");
        let k = if n < 2 { 1 + sx::pick(room as usize, "frame size") } else { room as usize };
        let d: Vec<u8> = (0..k).map(|i| (sent + i) as u8).collect();
        peer.data(1, false, &d);
        sent += k;
        n += 1;
    }
    peer.data(1, true, b"");
    loop { ex.run(); if !peer.pump() { break; } }
    let t = t.borrow();
    sx::check(t.eof && t.got.len() == total && t.got.iter().enumerate().all(|(i, b)| *b == i as u8), "tunnel bytes are lost or changed");
}
