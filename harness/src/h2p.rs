//! HTTP/2 peer: frames and header compression as RFC 9113 / RFC 7541 define them, independent of the h2 crate.
use crate::{sup::*, sx};

static HFIRST: [u32; 31] = [0, 0, 0, 0, 0, 0, 20, 92, 248, 0, 1016, 2042, 4090, 8184, 16380, 32764, 0, 0, 0, 524272, 1048550, 2097116, 4194258, 8388568, 16777194, 33554412, 67108832, 134217694, 268435426, 0, 1073741820];
static HOFF: [u8; 31] = [0, 0, 0, 0, 0, 0, 10, 36, 68, 0, 74, 79, 82, 84, 90, 92, 0, 0, 0, 95, 98, 106, 119, 145, 174, 186, 190, 205, 224, 0, 253];
static HCNT: [u8; 31] = [0, 0, 0, 0, 0, 10, 26, 32, 6, 0, 5, 3, 2, 6, 2, 3, 0, 0, 0, 3, 8, 13, 26, 29, 12, 4, 15, 19, 29, 0, 3];
static HSYM: [u8; 256] = [48, 49, 50, 97, 99, 101, 105, 111, 115, 116, 32, 37, 45, 46, 47, 51, 52, 53, 54, 55, 56, 57, 61, 65, 95, 98, 100, 102, 103, 104, 108, 109, 110, 112, 114, 117, 58, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 89, 106, 107, 113, 118, 119, 120, 121, 122, 38, 42, 44, 59, 88, 90, 33, 34, 40, 41, 63, 39, 43, 124, 35, 62, 0, 36, 64, 91, 93, 126, 94, 125, 60, 96, 123, 92, 195, 208, 128, 130, 131, 162, 184, 194, 224, 226, 153, 161, 167, 172, 176, 177, 179, 209, 216, 217, 227, 229, 230, 129, 132, 133, 134, 136, 146, 154, 156, 160, 163, 164, 169, 170, 173, 178, 181, 185, 186, 187, 189, 190, 196, 198, 228, 232, 233, 1, 135, 137, 138, 139, 140, 141, 143, 147, 149, 150, 151, 152, 155, 157, 158, 165, 166, 168, 174, 175, 180, 182, 183, 188, 191, 197, 231, 239, 9, 142, 144, 145, 148, 159, 171, 206, 215, 225, 236, 237, 199, 207, 234, 235, 192, 193, 200, 201, 202, 205, 210, 213, 218, 219, 238, 240, 242, 243, 255, 203, 204, 211, 212, 214, 221, 222, 223, 241, 244, 245, 246, 247, 248, 250, 251, 252, 253, 254, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 127, 220, 249, 10, 13, 22];
static HSTATIC: [(&str, &str); 61] = [(":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"), (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"), (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""), ("accept-encoding", "gzip, deflate"), ("accept-language", ""), ("accept-ranges", ""), ("accept", ""), ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""), ("cache-control", ""), ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""), ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""), ("expect", ""), ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""), ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""), ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""), ("proxy-authorization", ""), ("range", ""), ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""), ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""), ("www-authenticate", "")];

pub type Fields = Vec<(String, Vec<u8>)>;
pub const DATA: u8 = 0; pub const HEADERS: u8 = 1; pub const PRIORITY: u8 = 2; pub const RST: u8 = 3; pub const PUSH: u8 = 5; pub const SETTINGS: u8 = 4; pub const PING: u8 = 6; pub const GOAWAY: u8 = 7; pub const WUPD: u8 = 8; pub const CONT: u8 = 9;
pub const END_STREAM: u8 = 1; pub const ACK: u8 = 1; pub const END_HEADERS: u8 = 4;
pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";

// ---------------------------------------------------------------- header compression

fn int(out: &mut Vec<u8>, first: u8, bits: u32, v: usize) {
    let m = (1usize << bits) - 1;
    if v < m { out.push(first | v as u8); return; }
    out.push(first | m as u8);
    let mut r = v - m;
    while r >= 128 { out.push((r % 128) as u8 | 128); r /= 128; }
    out.push(r as u8);
}
/// every field as a literal without indexing
pub fn block(f: &[(&str, &[u8])]) -> Vec<u8> {
    let mut o = vec![];
    for (n, v) in f { o.push(0); int(&mut o, 0, 7, n.len()); o.extend_from_slice(n.as_bytes()); int(&mut o, 0, 7, v.len()); o.extend_from_slice(v); }
    o
}
fn rint(b: &[u8], p: &mut usize, bits: u32) -> usize {
    let m = (1usize << bits) - 1;
    let mut v = b[*p] as usize & m;
    *p += 1;
    if v < m { return v; }
    let mut s = 0;
    loop { let c = b[*p] as usize; *p += 1; v += (c & 127) << s; s += 7; if c & 128 == 0 { return v; } }
}
fn rstr(b: &[u8], p: &mut usize) -> Vec<u8> {
    let h = b[*p] & 128 != 0;
    let n = rint(b, p, 7);
    let s = &b[*p..*p + n];
    *p += n;
    if !h { return s.to_vec(); }
    let mut o = vec![];
    let (mut code, mut len) = (0u32, 0usize);
    for &c in s {
        for k in (0..8).rev() {
            code = code << 1 | (c >> k & 1) as u32;
            len += 1;
            if len > 30 { sx::fail("h2: bad Huffman code"); }
            if HCNT[len] != 0 && code >= HFIRST[len] && code - HFIRST[len] < HCNT[len] as u32 { o.push(HSYM[HOFF[len] as usize + (code - HFIRST[len]) as usize]); code = 0; len = 0; }
        }
    }
    if len > 7 || code != (1 << len) - 1 { sx::fail("h2: bad Huffman padding"); }
    o
}
#[derive(Default)]
pub struct Dyn(Vec<(String, Vec<u8>)>);
impl Dyn {
    fn get(&self, i: usize) -> (String, Vec<u8>) {
        if i == 0 { sx::fail("h2: header index 0"); }
        if i <= 61 { return (HSTATIC[i - 1].0.to_string(), HSTATIC[i - 1].1.as_bytes().to_vec()); }
        match self.0.get(i - 62) { Some(e) => e.clone(), None => sx::fail("h2: header index out of range") }
    }
    pub fn decode(&mut self, b: &[u8]) -> Fields {
        let mut o = vec![];
        let mut p = 0;
        while p < b.len() {
            let c = b[p];
            if c & 0x80 != 0 { let i = rint(b, &mut p, 7); o.push(self.get(i)); continue; }
            if c & 0xe0 == 0x20 { if rint(b, &mut p, 5) == 0 { self.0.clear(); } continue; }
            let add = c & 0xc0 == 0x40;
            let i = rint(b, &mut p, if add { 6 } else { 4 });
            let n = if i == 0 { match String::from_utf8(rstr(b, &mut p)) { Ok(s) => s, Err(_) => sx::fail("h2: header name is not text") } } else { self.get(i).0 };
            let v = rstr(b, &mut p);
            if add { self.0.insert(0, (n.clone(), v.clone())); }
            o.push((n, v));
        }
        o
    }
}

// ---------------------------------------------------------------- frames

pub fn fr(ty: u8, fl: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let n = p.len();
    let mut o = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, ty, fl, (sid >> 24) as u8, (sid >> 16) as u8, (sid >> 8) as u8, sid as u8];
    o.extend_from_slice(p);
    o
}
pub fn be32(v: u32) -> [u8; 4] { v.to_be_bytes() }
pub fn headers(sid: u32, end: bool, f: &[(&str, &[u8])]) -> Vec<u8> { fr(HEADERS, END_HEADERS | end as u8, sid, &block(f)) }
pub fn data(sid: u32, end: bool, b: &[u8]) -> Vec<u8> { fr(DATA, end as u8, sid, b) }
pub fn rst(sid: u32, code: u32) -> Vec<u8> { fr(RST, 0, sid, &be32(code)) }
pub fn wupd(sid: u32, n: u32) -> Vec<u8> { fr(WUPD, 0, sid, &be32(n)) }
pub fn settings(s: &[(u16, u32)]) -> Vec<u8> {
    let mut p = vec![];
    for (k, v) in s { p.extend_from_slice(&k.to_be_bytes()); p.extend_from_slice(&be32(*v)); }
    fr(SETTINGS, 0, 0, &p)
}
pub fn goaway(last: u32, code: u32) -> Vec<u8> { fr(GOAWAY, 0, 0, &cat(&[&be32(last), &be32(code)])) }
pub fn ping(ack: bool, d: &[u8]) -> Vec<u8> { fr(PING, ack as u8, 0, d) }
fn u32at(b: &[u8], p: usize) -> u32 { u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) }

// ---------------------------------------------------------------- peer

#[derive(Default, Clone, Debug)]
pub struct Strm {
    pub sid: u32,
    /// header blocks hyper sent: head(s), then trailers
    pub blocks: Vec<Fields>,
    pub data: Vec<u8>,
    pub frames: usize,
    pub end: bool,
    pub rst: Option<u32>,
    /// what hyper may still send (granted by the peer) / what the peer may still send
    pub send_wnd: i64,
    pub recv_wnd: i64,
    /// the peer ended or reset the stream
    pub peer_end: bool,
    pub peer_rst: bool,
}
impl Strm {
    pub fn get(&self, n: &str) -> Vec<Vec<u8>> { self.blocks.first().map(|b| b.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect()).unwrap_or_default() }
    pub fn status(&self) -> u16 { match self.get(":status").first() { Some(v) => v.iter().fold(0, |a, c| a * 10 + (c - b'0') as u16), None => 0 } }
    pub fn open(&self) -> bool { self.rst.is_none() && !self.peer_rst }
}
pub struct Peer {
    pub dev: Dev,
    pub client: bool,
    pos: usize,
    dy: Dyn,
    pub strms: Vec<Strm>,
    pub settings: Option<Vec<(u16, u32)>>,
    /// settings the peer sent that are not acknowledged yet: initial windows
    sent: Vec<Option<u32>>,
    pub acked: usize,
    pub init_wnd: i64,
    pub their_init: i64,
    pub conn_wnd: i64,
    pub conn_recv: i64,
    pub goaways: Vec<(u32, u32)>,
    pub pings: Vec<Vec<u8>>,
    pub pongs: Vec<Vec<u8>>,
    pub auto_ack: bool,
    pub auto_pong: bool,
    /// the peer itself breaks the rules: only note the frames it gets
    pub lax: Option<Vec<(u8, u8, u32, Vec<u8>)>>,
    part: Option<(u32, bool, Vec<u8>)>,
    pub max_sid: u32,
    started: bool,
    owe: usize,
}
impl Peer {
    /// `client`: the peer is the client (hyper is the server)
    pub fn new(dev: &Dev, client: bool) -> Peer {
        Peer { dev: dev.clone(), client, pos: if client { 0 } else { PREFACE.len() }, dy: Dyn::default(), strms: vec![], settings: None, sent: vec![], acked: 0, init_wnd: 65535, their_init: 65535, conn_wnd: 65535, conn_recv: 65535, goaways: vec![], pings: vec![], pongs: vec![], auto_ack: true, auto_pong: true, lax: None, part: None, max_sid: 0, started: false, owe: 0 }
    }
    pub fn start(&mut self, s: &[(u16, u32)]) {
        if self.client { self.dev.feed(PREFACE); }
        self.set(s);
        self.started = true;
        while self.owe > 0 { self.owe -= 1; self.dev.feed(&fr(SETTINGS, ACK, 0, &[])); }
    }
    pub fn set(&mut self, s: &[(u16, u32)]) { self.sent.push(s.iter().find(|(k, _)| *k == 4).map(|(_, v)| *v)); self.dev.feed(&settings(s)); }
    pub fn raw(&self, b: &[u8]) { self.dev.feed(b) }
    fn at(&mut self, sid: u32) -> usize {
        match self.strms.iter().position(|s| s.sid == sid) {
            Some(i) => i,
            None => { self.strms.push(Strm { sid, send_wnd: self.init_wnd, recv_wnd: self.their_init, ..Strm::default() }); self.strms.len() - 1 }
        }
    }
    pub fn s(&mut self, sid: u32) -> &mut Strm { let i = self.at(sid); &mut self.strms[i] }
    pub fn seen(&self, sid: u32) -> Option<&Strm> { self.strms.iter().find(|s| s.sid == sid) }
    pub fn headers(&mut self, sid: u32, end: bool, f: &[(&str, &[u8])]) { let s = self.s(sid); s.peer_end |= end; self.dev.feed(&headers(sid, end, f)); }
    pub fn data(&mut self, sid: u32, end: bool, b: &[u8]) { let n = b.len() as i64; self.conn_recv -= n; let s = self.s(sid); s.recv_wnd -= n; s.peer_end |= end; self.dev.feed(&data(sid, end, b)); }
    pub fn rst(&mut self, sid: u32, code: u32) { self.s(sid).peer_rst = true; self.dev.feed(&rst(sid, code)); }
    pub fn grant(&mut self, sid: u32, n: u32) { if sid == 0 { self.conn_wnd += n as i64; } else { self.s(sid).send_wnd += n as i64; } self.dev.feed(&wupd(sid, n)); }
    /// a request of the peer (it is the client)
    pub fn request(&mut self, sid: u32, m: &str, path: &str, end: bool, more: &[(&str, &[u8])]) {
        let mut f: Vec<(&str, &[u8])> = vec![(":method", m.as_bytes()), (":scheme", b"http"), (":authority", b"h"), (":path", path.as_bytes())];
        f.extend_from_slice(more);
        self.headers(sid, end, &f);
    }
    pub fn respond(&mut self, sid: u32, st: &str, end: bool, more: &[(&str, &[u8])]) {
        let mut f: Vec<(&str, &[u8])> = vec![(":status", st.as_bytes())];
        f.extend_from_slice(more);
        self.headers(sid, end, &f);
    }
    fn block_done(&mut self, sid: u32, end: bool, b: &[u8]) {
        let f = self.dy.decode(b);
        let mut regular = false;
        for (k, _) in &f {
            if k.starts_with(':') { if regular { sx::fail("h2: pseudo header after a regular field"); } } else { regular = true; }
            if k.is_empty() || k.bytes().any(|c| c.is_ascii_uppercase()) { sx::fail("h2: header name is not lower case"); }
            if ["connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade"].contains(&&k[..]) { sx::fail("h2: connection-specific field sent"); }
        }
        let client = self.client;
        if !client && sid > self.max_sid { self.max_sid = sid; }
        let s = self.s(sid);
        if s.end || s.rst.is_some() { sx::fail("h2: header block after the end of the stream"); }
        if !s.blocks.is_empty() && s.blocks.last().unwrap().iter().all(|(k, _)| !k.starts_with(':')) { sx::fail("h2: two trailer blocks"); }
        if s.blocks.is_empty() && !f.iter().any(|(k, _)| k == if client { ":status" } else { ":method" }) { sx::fail("h2: head without its pseudo header"); }
        if f.iter().all(|(k, _)| !k.starts_with(':')) && !end { sx::fail("h2: trailer block does not end the stream"); }
        s.blocks.push(f);
        s.end |= end;
    }
    /// take in what hyper wrote since the last call; false if there was nothing new
    pub fn pump(&mut self) -> bool {
        let tx = self.dev.tx();
        if !self.client && tx.len() < PREFACE.len() { return false; }
        if !self.client && self.pos == PREFACE.len() && &tx[..self.pos] != PREFACE { sx::fail("h2: client preface is wrong"); }
        let mut any = false;
        while tx.len() >= self.pos + 9 {
            let h = &tx[self.pos..self.pos + 9];
            let n = (h[0] as usize) << 16 | (h[1] as usize) << 8 | h[2] as usize;
            if tx.len() < self.pos + 9 + n { break; }
            let (ty, fl, sid) = (h[3], h[4], u32at(h, 5) & 0x7fff_ffff);
            let p = &tx[self.pos + 9..self.pos + 9 + n];
            if n > 16384 && self.lax.is_none() { sx::fail("h2: frame larger than allowed"); }
            self.pos += 9 + n;
            any = true;
            if let Some(l) = &mut self.lax { l.push((ty, fl, sid, p.to_vec())); continue; }
            if self.settings.is_none() && ty != SETTINGS { sx::fail("h2: the first frame is not SETTINGS"); }
            if let Some((s, _, _)) = self.part { if ty != CONT || s != sid { sx::fail("h2: header block interrupted"); } }
            match ty {
                DATA => {
                    self.conn_wnd -= n as i64;
                    if n > 0 && self.conn_wnd < 0 { sx::fail("h2: connection flow-control window exceeded"); }
                    let end = fl & END_STREAM != 0;
                    let s = self.s(sid);
                    if s.end || s.rst.is_some() { sx::fail("h2: data after the end of the stream"); }
                    if s.blocks.is_empty() { sx::fail("h2: data before the head"); }
                    s.send_wnd -= n as i64;
                    if n > 0 && s.send_wnd < 0 { sx::fail("h2: stream flow-control window exceeded"); }
                    s.data.extend_from_slice(p);
                    s.frames += 1;
                    s.end |= end;
                }
                HEADERS => {
                    if fl & END_HEADERS != 0 { self.block_done(sid, fl & END_STREAM != 0, p); } else { self.part = Some((sid, fl & END_STREAM != 0, p.to_vec())); }
                }
                CONT => {
                    let Some((_, end, mut b)) = self.part.take() else { sx::fail("h2: stray continuation") };
                    b.extend_from_slice(p);
                    if fl & END_HEADERS != 0 { self.block_done(sid, end, &b); } else { self.part = Some((sid, end, b)); }
                }
                RST => { let c = u32at(p, 0); let s = self.s(sid); if s.rst.is_none() { s.rst = Some(c); } }
                SETTINGS => {
                    if fl & ACK != 0 {
                        if self.acked >= self.sent.len() { sx::fail("h2: unasked SETTINGS acknowledgement"); }
                        if let Some(w) = self.sent[self.acked] { let d = w as i64 - self.init_wnd; self.init_wnd = w as i64; for s in self.strms.iter_mut() { s.send_wnd += d; } }
                        self.acked += 1;
                    } else {
                        let v: Vec<(u16, u32)> = p.chunks(6).map(|c| ((c[0] as u16) << 8 | c[1] as u16, u32at(c, 2))).collect();
                        for (k, x) in &v { if *k == 4 { let d = *x as i64 - self.their_init; self.their_init = *x as i64; for s in self.strms.iter_mut() { s.recv_wnd += d; } } }
                        self.settings = Some(v);
                        if self.auto_ack { if self.started { self.dev.feed(&fr(SETTINGS, ACK, 0, &[])); } else { self.owe += 1; } }
                    }
                }
                PING => if fl & ACK != 0 { self.pongs.push(p.to_vec()) } else { self.pings.push(p.to_vec()); if self.auto_pong { self.dev.feed(&ping(true, p)); } },
                GOAWAY => {
                    let last = u32at(p, 0);
                    if let Some((l, _)) = self.goaways.last() { if last > *l { sx::fail("h2: GOAWAY raises the last stream"); } }
                    self.goaways.push((last, u32at(p, 4)));
                }
                WUPD => {
                    let k = u32at(p, 0) as i64;
                    if k == 0 { sx::fail("h2: window update of zero"); }
                    let v = if sid == 0 { self.conn_recv += k; self.conn_recv } else { let s = self.s(sid); s.recv_wnd += k; s.recv_wnd };
                    if v > 0x7fff_ffff { sx::fail("h2: window raised above the maximum"); }
                }
                _ => sx::fail("h2: frame of unknown type"),
            }
        }
        any
    }
    pub fn setting(&self, k: u16) -> Option<u32> { self.settings.as_ref().and_then(|s| s.iter().find(|(a, _)| *a == k).map(|(_, v)| *v)) }
}
