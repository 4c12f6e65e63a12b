//! HTTP/2 client.
use crate::{cli::Out, cli2h::*, h2p::*, h2x::*, sup::*, sx};
use bytes::Bytes;
use http::HeaderMap;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- H08: requests

fn is_err(o: Out) -> bool { matches!(o, Out::Err { .. }) }
/// what the peer got of a request whose body follows `p`
fn judge(st: &Strm, p: &Plan, method: &str, done: bool) {
    let all = p.all();
    let n = st.data.len();
    sx::check(n <= all.len() && st.data == all[..n], "h08: the data sent is not what the body produced");
    let tr = st.blocks.get(1);
    if p.err { sx::check(!st.end, "h08: a failed body looks complete"); }
    if st.end { sx::check(n == all.len() && tr.is_some() == p.trailers.is_some(), "h08: the request ends before its body does"); }
    if let Some(t) = tr { sx::check(t.len() == 1 && t[0].0 == "x-t" && t[0].1 == b"1", "h08: trailers"); }
    let cl = st.get("content-length");
    let announce = p.exact && (!all.is_empty() || method == "POST");
    if !st.blocks.is_empty() { sx::check(if announce { cl.len() == 1 && cl[0] == all.len().to_string().as_bytes() } else { cl.is_empty() }, "h08: content-length"); }
    if done {
        if p.err { sx::check(st.rst == Some(2), "h08: a failed body does not reset the stream"); sx::cover("failed body"); }
        else { sx::check(st.end && st.rst.is_none() && n == all.len(), "h08: the request never completes"); sx::cover(if tr.is_some() { "trailers" } else if announce { "length" } else { "complete" }); }
    }
}
fn h08(n: usize, sizes: &'static [usize], wnds: &[u32], grants: usize, rest: bool) {
    let p = plan(n, sizes);
    let m = ["GET", "POST"][sx::pick(2, "method")];
    let w = wnds[sx::pick(wnds.len(), "initial window")];
    let b = p.body();
    let polls = b.polls.clone();
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[(4, w)]);
    s.run();
    if rest { let k = sx::pick(4, "transport blocks"); if k > 0 { s.dev.with(|d| { d.wcuts = vec![d.tx.len() + [0, 9, 14, 20][k]]; d.wmax = 7; }); } }
    let i = s.send(req2(m, "http://h/p", b));
    s.run();
    let total = p.all().len();
    let mut g = w as usize;
    for k in 0..=grants {
        let st = s.peer.s(1).clone();
        sx::check(st.blocks.len() > 0, "h08: the request is not sent");
        judge(&st, &p, m, g >= total);
        if !p.err { sx::check(st.data.len() == total.min(g), "h08: data is held back although the window allows it"); }
        if g < total { let mut k = 0; let mut sum = 0; while k < p.data.len() && sum + p.data[k].len() <= st.data.len() { sum += p.data[k].len(); k += 1; } sx::check(polls.get() <= k + 4, "h08: more than two frames wait for the window"); sx::cover("window closed"); }
        if g >= total || k == grants { break; }
        let inc = 1 + sx::pick(3, "window update");
        s.peer.grant(1, inc as u32);
        g += inc;
        s.run();
    }
    if p.err && g >= total { sx::check(is_err(s.out(i)), "h08: a request whose body failed gets a response"); return; }
    if p.err && is_err(s.out(i)) { return; }
    sx::check(s.out(i) == Out::Pending, "h08: outcome without a response");
    let early = g < total;
    s.peer.respond(1, "200", false, &[]);
    s.peer.data(1, true, b"ok");
    s.run();
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("h08: no response") };
    sx::check(r.status == 200 && r.body == b"ok" && r.end == End::Eof, "h08: the response to a request");
    if early { s.peer.grant(1, 100); s.run(); let st = s.peer.s(1).clone(); judge(&st, &p, m, true); sx::cover("response first"); }
    sx::check(!s.done(), "h08: the connection ends with an exchange");
    drop(s.tx.take());
    s.run();
    sx::check(s.done() && s.is_ok(), "h08: an unused connection does not end");
    sx::check(s.dev.is_shutdown() && s.ex.all_done(), "h08: work goes on on an unused connection");
}
#[no_mangle] pub extern "C" fn h08_one() { h08(2, &[0, 1, 3], &[0, 1, 2, 4, 65535], 2, false) }
#[no_mangle] pub extern "C" fn h08_io() { h08(2, &[0, 2], &[65535], 0, true) }

/// heads: request line and fields
fn h08_head(len: usize, lines: usize, te_lines: usize) {
    let m = mix(len, lines);
    let mut map = m.map.clone();
    let tes = [&b"trailers"[..], b"gzip", b"trailers, gzip"];
    let mut te = vec![];
    for _ in 0..sx::pick(te_lines + 1, "te lines") { let v = tes[sx::pick(3, "te")]; te.push(v); map.append("te", hv(v)); }
    if !te.is_empty() && te_lines == 1 && lines == 1 && m.conn.is_empty() && sx::flag("trailer field") { map.append("trailer", hv(b"x-t")); }
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[]);
    let mut r = get2("http://h/p?q");
    *r.headers_mut() = map;
    let i = s.send(r);
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.blocks.len() == 1 && x.end && x.rst.is_none() && s.out(i) == Out::Pending, "h08: a request with connection-specific fields is not sent");
    left(&m, &x.blocks[0]);
    let got = x.get("te");
    let nom = m.conn.iter().any(|v| nominated(v, "te"));
    if !nom && !te.is_empty() && te.iter().all(|v| *v == b"trailers") { sx::check(got.len() == te.len() && got.iter().all(|v| v == b"trailers"), "h08: te: trailers is lost"); sx::cover("te"); }
    else { sx::check(got.iter().all(|v| v == b"trailers"), "h08: te other than trailers is sent"); }
    sx::cover("sent");
}
#[no_mangle] pub extern "C" fn h08_fields1() { h08_head(3, 1, 1) }
#[no_mangle] pub extern "C" fn h08_fields2() { h08_head(1, 2, 2) }
fn h08_line(target: bool) {
    let m = ["GET", "HEAD", "POST", "XY"][sx::pick(4, "method")];
    let sc = if target { ["http", "https"][sx::pick(2, "scheme")] } else { "http" };
    let au = if target { ["h", "h:81", "u@h"][sx::pick(3, "authority")] } else { "h" };
    let form = if target { sx::pick(4, "target: none, path, query, both") } else { 0 };
    let p = if form > 0 { cat(&[&syms(1, "target byte"), b"x"]) } else { vec![] };
    for &c in &p { sx::assume(c > 32 && c < 127 && !b"#<>\"{}|\\^`%".contains(&c)); }
    let tail = match form { 0 => vec![], 1 => cat(&[b"/", &p]), 2 => cat(&[b"/?", &p]), _ => cat(&[b"/", &p[..1], b"?", &p[1..]]) };
    if form == 1 { sx::assume(p[0] != b'?' && p[1] != b'?'); }
    if form == 3 { sx::assume(p[0] != b'?'); }
    let uri = match http::Uri::try_from(&cat(&[sc.as_bytes(), b"://", au.as_bytes(), &tail])[..]) { Ok(u) => u, Err(_) => sx::end() };
    let v = if target { b"v".to_vec() } else { let k = sx::pick(2, "symbolic: value, name"); if k == 0 { cat(&[&syms(1, "value byte"), b"v"]) } else { b"w".to_vec() } };
    let nm = if target || v.len() > 1 { hn(b"nn") } else { hn(&[b'n', sx::byte("name byte")]) };
    let val = hv(&v);
    let vers = if target { http::Version::HTTP_2 } else { [http::Version::HTTP_2, http::Version::HTTP_11][sx::pick(2, "version")] };
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[]);
    let mut r = http::Request::new(HBody::empty());
    *r.method_mut() = http::Method::from_bytes(m.as_bytes()).unwrap();
    *r.uri_mut() = uri;
    *r.version_mut() = vers;
    r.headers_mut().insert(nm.clone(), val);
    r.headers_mut().append("z", hv(b"1"));
    r.headers_mut().append("z", hv(b"2"));
    let i = s.send(r);
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.blocks.len() == 1 && x.end && x.rst.is_none() && s.out(i) == Out::Pending, "h08: a request is not sent");
    let path = if form == 0 { b"/".to_vec() } else { tail.clone() };
    sx::check(x.get(":method") == [m.as_bytes()] && x.get(":scheme") == [sc.as_bytes()] && x.get(":path") == [&path[..]], "h08: request line");
    sx::check(x.get(":authority") == [au.as_bytes()], "h08: authority");
    sx::check(x.get(nm.as_str()) == [&v[..]] && x.get("z") == [b"1", b"2"], "h08: a field is lost or changed");
    let len = m == "POST" || m == "XY";
    sx::check(x.blocks[0].len() == 7 + len as usize && (!len || x.get("content-length") == [b"0"]), "h08: fields nobody set");
    sx::cover("sent");
}
#[no_mangle] pub extern "C" fn h08_target() { h08_line(true) }
#[no_mangle] pub extern "C" fn h08_field() { h08_line(false) }

// ---------------------------------------------------------------- H09: responses

/// the peer's answer to one request
#[derive(Clone)]
struct Ans { info: bool, st: u16, data: Vec<Vec<u8>>, end: usize, cl: usize }
impl Ans {
    fn few(i: usize) -> Ans { Ans { info: false, st: [200, 404, 503][i], data: vec![syms(1, "response byte")], end: [0, 2, 4][sx::pick(3, "end: with the last frame, trailers, reset")], cl: 0 } }
    fn any(i: usize, frames: usize, wide: bool) -> Ans {
        let k = sx::pick(frames + 1, "data frames");
        Ans { info: wide && sx::flag("informational response first"), st: [200, 404, 503][i], data: (0..k).map(|_| syms(if wide { [1, 3, 0][sx::pick(3, "frame size")] } else { 1 }, "response byte")).collect(), end: sx::pick(if wide { 7 } else { 5 }, "end: with the last frame, empty frame, trailers, none, reset, reset without error, connection closed"), cl: if wide { sx::pick(4, "content-length: none, right, one more, one less") } else { sx::pick(2, "content-length: none, right") } }
    }
    fn all(&self) -> Vec<u8> { self.data.concat() }
    fn n(&self) -> usize { let l = self.all().len(); match self.cl { 2 => l + 1, 3 => l.wrapping_sub(1), _ => l } }
    /// number of things the peer does
    fn len(&self) -> usize { 1 + self.data.len() + (self.end > 0 && self.end != 3) as usize }
    fn step(&self, s: &mut Cli2, sid: u32, j: usize) {
        if j == 0 {
            if self.info { s.peer.respond(sid, "103", false, &[("link", b"l")]); }
            let (a, b) = (self.st.to_string(), self.n().to_string());
            let h: &[(&str, &[u8])] = &[("x-a", b"1"), ("content-length", b.as_bytes())];
            s.peer.respond(sid, &a, self.end == 0 && self.data.is_empty(), &h[..1 + (self.cl > 0) as usize]);
        } else if j <= self.data.len() { s.peer.data(sid, self.end == 0 && j == self.data.len(), &self.data[j - 1]); }
        else { match self.end { 1 => s.peer.data(sid, true, b""), 2 => s.peer.headers(sid, true, &[("x-t", b"9")]), 4 => { let c = sx::u32v("reset code"); sx::assume(c != 0); s.peer.rst(sid, c) } 5 => s.peer.rst(sid, 0), 6 => s.dev.set_eof(), _ => {} } }
    }
    /// what the caller must have seen after the first `j` of those
    fn judge(&self, s: &Cli2, i: usize, j: usize) {
        let all = self.all();
        let complete = j == self.len() && self.end < 3;
        let agrees = self.cl < 2;
        let r = match s.resp(i) {
            Some(r) => r,
            None => {
                if j == 0 { sx::check(s.out(i) == Out::Pending, "h09: outcome without an answer"); }
                else { sx::check(is_err(s.out(i)) && (!agrees || self.end >= 4 && j == self.len()), "h09: a response is not delivered"); sx::cover("refused"); }
                return;
            }
        };
        sx::check(j > 0 && r.status == self.st && r.version == http::Version::HTTP_2, "h09: the response of another request");
        sx::check(r.get("x-a") == [b"1"] && r.headers.len() == 1 + (self.cl > 0) as usize, "h09: response fields");
        let there: Vec<u8> = self.data[..self.data.len().min(j - 1)].concat();
        sx::check(starts(&there, &r.body), "h09: the body is not what the peer sent");
        match r.exact { Some(e) => sx::check(e == self.n() as u64 && self.cl > 0 || e == 0 && r.eos, "h09: size hint is not the announced length"), None => sx::check(self.cl == 0, "h09: announced length is not in the size hint") }
        if r.end == End::Eof && self.end != 5 {
            sx::check(complete && agrees && r.body == all, "h09: a response cut off or of the wrong length looks complete");
            sx::check(r.trailers.is_some() == (self.end == 2), "h09: trailers");
            if let Some(t) = &r.trailers { sx::check(t.len() == 1 && t[0].0 == "x-t" && t[0].1 == b"9", "h09: trailers"); }
            sx::cover(if self.end == 2 { "trailers" } else { "complete" });
        }
        if complete { if agrees { sx::check(r.end == End::Eof, "h09: a complete response fails"); } else { sx::check(r.end == End::Err, "h09: a wrong length is not an error"); sx::cover("wrong length"); } }
        else if j < self.len() || self.end == 3 { if agrees { sx::check(r.end == End::Open && r.body == there, "h09: an open response does not deliver what is there"); sx::cover("open"); } }
        else if self.end != 5 { sx::check(r.end == End::Err, "h09: a response cut off looks complete"); sx::cover("cut off"); }
    }
}
fn h09_body(frames: usize) {
    let a = Ans::any(0, frames, true);
    if a.cl == 3 && a.all().is_empty() { return; }
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[]);
    let i = s.send(get2("http://h/"));
    s.run();
    for j in 0..a.len() {
        a.step(&mut s, 1, j);
        if sx::flag("run") { s.run(); a.judge(&s, i, j + 1); }
    }
    s.run();
    a.judge(&s, i, a.len());
    if a.end == 6 { sx::check(s.done(), "h09: the connection outlives its transport"); } else { sx::check(!s.done(), "h09: the connection ends with a response"); }
}
#[no_mangle] pub extern "C" fn h09_body1() { h09_body(1) }
#[no_mangle] pub extern "C" fn h09_body2() { h09_body(2) }
/// answers interleave in any way
fn h09_pairs(n: usize, frames: usize) {
    let an: Vec<Ans> = (0..n).map(|i| if n > 2 { Ans::few(i) } else { Ans::any(i, frames, false) }).collect();
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[]);
    let ids: Vec<usize> = (0..n).map(|i| s.send(get2(["http://h/0", "http://h/1", "http://h/2"][i]))).collect();
    s.run();
    for i in 0..n { sx::check(s.peer.s(2 * i as u32 + 1).get(":path") == [[b'/', b'0' + i as u8]], "h09: requests are sent out of order"); }
    let mut at = vec![0; n];
    loop {
        let left: Vec<usize> = (0..n).filter(|&i| at[i] < an[i].len()).collect();
        if left.is_empty() { break; }
        let i = left[sx::pick(left.len(), "who is answered next")];
        an[i].step(&mut s, 2 * i as u32 + 1, at[i]);
        at[i] += 1;
        s.run();
        for k in 0..n { an[k].judge(&s, ids[k], at[k]); }
    }
    sx::check(!s.done(), "h09: the connection ends with a response");
    sx::cover("all");
}
#[no_mangle] pub extern "C" fn h09_two() { h09_pairs(2, 1) }
#[no_mangle] pub extern "C" fn h09_three() { h09_pairs(3, 1) }
/// responses that never have a body
#[no_mangle] pub extern "C" fn h09_nobody() {
    let m = ["GET", "HEAD"][sx::pick(2, "method")];
    let st = ["200", "204", "304"][sx::pick(3, "status")];
    let cl = [None, Some("0"), Some("7")][sx::pick(3, "content-length")];
    let form = sx::pick(2, "end: with the head, empty frame");
    let mut s = Cli2::new(|_| {});
    s.peer.start(&[]);
    let i = s.send(req2(m, "http://h/", HBody::empty()));
    s.run();
    let h: Vec<(&str, &[u8])> = cl.iter().map(|c| ("content-length", c.as_bytes())).collect();
    s.peer.respond(1, st, form == 0, &h);
    if form == 1 { s.peer.data(1, true, b""); }
    s.run();
    if cl == Some("7") && m == "GET" && st == "200" { sx::check(s.resp(i).map_or(true, |r| r.end == End::Err), "h09: a missing body looks complete"); sx::cover("missing body"); return; }
    if cl == Some("7") && m == "GET" && form == 1 { return; }
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("h09: a response without a body is not delivered") };
    sx::check(r.end == End::Eof && r.body.is_empty() && r.status.to_string() == st, "h09: a response without a body does not end");
    sx::cover("no body");
}
/// windows
#[no_mangle] pub extern "C" fn h09_window() {
    let w = 1 + sx::pick(8, "stream window") as u32;
    let total = 12;
    let mut s = Cli2::new(|b| { b.initial_stream_window_size(w); });
    s.peer.start(&[]);
    let i = s.send(get2("http://h/"));
    s.run();
    s.peer.respond(1, "200", false, &[]);
    let (mut sent, mut n) = (0, 0);
    while sent < total {
        s.run();
        let room = s.peer.s(1).recv_wnd.min((total - sent) as i64);
        sx::check(room > 0 && s.peer.s(1).recv_wnd * 2 >= w as i64, "h09: the window of a body that is read is not reopened");
        sx::check(s.peer.s(1).recv_wnd <= w as i64, "h09: the stream window grows beyond what was configured");
        let k = if n < 3 { 1 + sx::pick(room as usize, "frame size") } else { room as usize };
        let d: Vec<u8> = (0..k).map(|i| (sent + i) as u8).collect();
        s.peer.data(1, false, &d);
        sent += k;
        n += 1;
    }
    s.run();
    s.peer.data(1, true, b"");
    s.run();
    let r = s.resp(i).unwrap();
    sx::check(r.end == End::Eof && r.body.len() == total && r.body.iter().enumerate().all(|(i, b)| *b == i as u8), "h09: body");
    sx::cover("window reopened");
}
#[no_mangle] pub extern "C" fn h09_connwindow() {
    let mut s = Cli2::new(|b| { b.initial_connection_window_size(65535); });
    s.peer.start(&[]);
    s.run();
    let d = vec![7u8; 16000];
    for i in 0..5u32 {
        let sid = 2 * i + 1;
        let k = sx::pick(6, "fate of the body: read, dropped, read in part, request dropped before the answer, unread then reset, reset while read");
        let j = s.send_n(get2("http://h/"), match k { 0 | 5 => usize::MAX, 1 => 0, 2 => 1, _ => usize::MAX });
        s.run();
        if k == 3 { s.drop_req(j); s.run(); sx::check(s.peer.s(sid).rst == Some(8), "h09: a dropped request is not cancelled"); }
        s.peer.respond(sid, "200", false, &[]);
        if k != 4 { s.run(); }
        for _ in 0..2 { if !s.peer.s(sid).peer_rst { if s.peer.s(sid).rst.is_some() && k != 3 { break; } sx::check(s.peer.conn_recv >= 16000, "h09: the connection window is never given back"); s.peer.data(sid, false, &d); if k != 4 { s.run(); } } if k == 3 { break; } }
        if k >= 4 { s.peer.rst(sid, 8); } else if s.peer.s(sid).rst.is_none() { s.peer.data(sid, true, b""); }
        s.run();
        if k == 0 { sx::check(s.resp(j).is_some_and(|r| r.end == End::Eof && r.body.len() == 32000), "h09: a body that is read"); }
        sx::check(!s.done(), "h09: the connection ends with a stream");
    }
    sx::cover("all given back");
}
#[no_mangle] pub extern "C" fn h09_settings() {
    let (sw, cw, mf, hl) = (sx::u32v("stream window"), sx::u32v("connection window"), sx::u32v("frame size"), sx::u32v("header list"));
    sx::assume(sw <= 0x7fff_ffff && cw > 65535 && cw <= 0x7fff_ffff && mf >= 16384 && mf <= 0xff_ffff && hl < 1 << 30);
    let mut s = Cli2::new(|b| { b.initial_stream_window_size(sw).initial_connection_window_size(cw).max_frame_size(mf).max_header_list_size(hl); });
    s.peer.auto_ack = false;
    s.peer.start(&[]);
    s.run();
    let p = &s.peer;
    sx::check(p.setting(4).unwrap_or(65535) == sw && p.setting(5).unwrap_or(16384) == mf && p.setting(6) == Some(hl), "h09: announced settings differ from the configuration");
    sx::check(p.setting(2) == Some(0), "h09: push is not disabled");
    sx::check(p.conn_recv <= cw as i64 && p.conn_recv > cw as i64 - 32768, "h09: connection window differs from the configuration");
    sx::cover("settings");
}

// ---------------------------------------------------------------- H10: outcomes

/// every sequence of `steps` events: requests, answers, resets, cancellations, shutdowns, the end of the transport
fn h10(steps: usize, nmax: usize) {
    let max = sx::pick(3, "concurrent streams the peer allows: any, 1, 2");
    let upload = sx::pick(3, "request bodies: none, waits for the window, stalls");
    let gates: Vec<Gate> = (0..nmax).map(|_| Gate::new()).collect();
    let mut s = Cli2::new(|_| {});
    let lim = [1000usize, 1, 2][max];
    let set: &[(u16, u32)] = &[(4, 0), (3, lim as u32)];
    s.peer.start(&set[..1 + (max > 0) as usize]);
    s.run();
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St { Live, Head, Full, Reset, Dropped }
    let mut st: Vec<St> = vec![];
    let mut alive: Vec<Rc<Cell<bool>>> = vec![];
    // which stream carries request i
    let sid_of = |s: &Cli2, i: usize| -> Option<u32> { s.peer.strms.iter().find(|x| x.get(":path").first().is_some_and(|p| p[1] == b'0' + i as u8)).map(|x| x.sid) };
    let mut last: Option<u32> = None;
    // requests that were waiting when the peer went away: they may fail or be sent
    let mut late: Vec<usize> = vec![];
    let mut dead = false;
    let mut handle = true;
    for _ in 0..steps {
        match sx::pick(9, "event: request, head, rest of the response, reset, drop, go away (all), go away (first only), transport closed, handle dropped") {
            0 => {
                if !handle || st.len() >= nmax { sx::end(); }
                let i = st.len();
                let b = match upload { 0 => HBody::empty(), 1 => HBody::full(b"up"), _ => HBody::new(vec![Op::Data(Bytes::from_static(b"")), Op::Wait(gates[i].clone())]) };
                alive.push(b.alive.clone());
                let uri = ["http://h/0", "http://h/1", "http://h/2", "http://h/3"][i];
                let closed = s.done();
                s.send(req2("POST", uri, b));
                st.push(St::Live);
                s.run();
                if closed { sx::check(matches!(s.out(i), Out::Err { returned: true, .. }), "h10: a request on a closed connection is not given back"); sx::cover("given back"); }
            }
            1 => { if dead { sx::end(); } let Some(i) = (0..st.len()).find(|&i| st[i] == St::Live && sid_of(&s, i).is_some_and(|x| last.map_or(true, |l| x <= l))) else { sx::end() }; let sid = sid_of(&s, i).unwrap(); s.peer.respond(sid, "200", false, &[]); st[i] = St::Head; s.run(); }
            2 => { if dead { sx::end(); } let Some(i) = (0..st.len()).rev().find(|&i| st[i] == St::Head && last.map_or(true, |l| sid_of(&s, i).unwrap() <= l)) else { sx::end() }; let sid = sid_of(&s, i).unwrap(); s.peer.data(sid, true, &[b'r', b'0' + i as u8]); st[i] = St::Full; s.run(); }
            3 => { if dead { sx::end(); } let Some(i) = (0..st.len()).find(|&i| (st[i] == St::Live || st[i] == St::Head) && sid_of(&s, i).is_some_and(|x| last.map_or(true, |l| x <= l))) else { sx::end() }; let sid = sid_of(&s, i).unwrap(); s.peer.rst(sid, 7); st[i] = St::Reset; s.run(); sx::cover("reset"); }
            4 => {
                let Some(i) = (0..st.len()).rev().find(|&i| st[i] == St::Live || st[i] == St::Head) else { sx::end() };
                if is_err(s.out(i)) { sx::end(); }
                let was = sid_of(&s, i);
                // (a request whose response already arrived may go on uploading)
                let sure = st[i] == St::Live || upload == 0;
                s.drop_req(i); st[i] = St::Dropped; s.run();
                if let (Some(x), false, true) = (was, dead, sure) { sx::check(s.peer.s(x).rst == Some(8) || last.is_some_and(|l| x > l), "h10: a dropped request is not cancelled"); sx::check(!alive[i].get(), "h10: the body of a dropped request is kept"); sx::cover("cancelled"); }
            }
            5 => { if dead || last.is_some() { sx::end(); } late = (0..st.len()).filter(|&i| sid_of(&s, i).is_none()).collect(); last = Some(1000); s.peer.raw(&goaway(1000, 0)); s.run(); }
            6 => { if dead || last.is_some() || st.is_empty() { sx::end(); } last = Some(1); s.peer.raw(&goaway(1, 0)); s.run(); sx::cover("go away"); }
            7 => { if dead { sx::end(); } dead = true; s.dev.set_eof(); s.run(); }
            _ => { if !handle { sx::end(); } handle = false; drop(s.tx.take()); s.run(); }
        }
        // streams
        let open = s.peer.strms.iter().filter(|x| x.sid > 0 && !x.blocks.is_empty() && x.rst.is_none() && !x.peer_rst && !(x.end && x.peer_end)).count();
        sx::check(open <= lim, "h10: more streams are open than the peer allows");
        for i in 0..st.len() {
            let o = s.out(i);
            let opened = sid_of(&s, i);
            let refused = last.is_some_and(|l| opened.map_or(l == 1, |x| x > l));
            let either = last.is_some() && opened.is_none();
            match st[i] {
                St::Dropped => {}
                _ if late.contains(&i) => {}
                St::Full => match s.resp(i) { Some(r) => sx::check(r.end == End::Eof && r.body == [b'r', b'0' + i as u8], "h10: a complete response is lost"), None => sx::fail("h10: a complete response is lost") },
                St::Reset => match s.resp(i) { Some(r) => sx::check(r.end == End::Err, "h10: a reset response looks complete"), None => sx::check(is_err(o), "h10: a reset request gets no outcome") },
                St::Head => match s.resp(i) { Some(r) => sx::check(r.end == if dead || refused { End::Err } else { End::Open }, "h10: state of a response in progress"), None => sx::fail("h10: a response head is lost") },
                St::Live => {
                    sx::check(s.resp(i).is_none(), "h10: a response nobody sent");
                    if !dead && !refused && either { }
                    else if dead || refused { sx::check(is_err(o), "h10: a request gets no outcome although it can get no response"); sx::cover("failed"); }
                    else { sx::check(o == Out::Pending, "h10: a request fails although the peer may still answer it"); }
                    if opened.is_none() && is_err(o) { sx::cover("never sent"); }
                }
            }
        }
        if dead { sx::check(s.done(), "h10: the connection outlives its transport"); }
        // queued requests are sent as soon as a slot is free
        if !dead && last.is_none() {
            let waiting = (0..st.len()).any(|i| st[i] == St::Live && sid_of(&s, i).is_none());
            if waiting { sx::check(open >= lim, "h10: a request waits although the peer allows more streams"); sx::cover("waiting"); }
        }
    }
    let busy = (0..st.len()).any(|i| st[i] == St::Live || st[i] == St::Head);
    // let every exchange finish
    for g in &gates { g.open(); }
    if !dead {
        for x in s.peer.strms.iter().map(|x| x.sid).collect::<Vec<_>>() { if x > 0 { s.peer.grant(x, 10); } }
        s.run();
        let mut fin = vec![false; st.len()];
        for _ in 0..nmax {
            for i in 0..st.len() { if let (Some(x), St::Live | St::Head, false) = (sid_of(&s, i), st[i], fin[i]) { if last.map_or(true, |l| x <= l) { fin[i] = true; if st[i] == St::Live { s.peer.respond(x, "200", false, &[]); } s.peer.data(x, true, b""); s.peer.grant(x, 10); s.run(); } } }
        }
        for x in s.peer.strms.iter().map(|x| x.sid).collect::<Vec<_>>() { if x > 0 { s.peer.grant(x, 10); } }
        s.run();
        for i in 0..st.len() { if st[i] == St::Live || st[i] == St::Head { if fin[i] && late.contains(&i) { sx::check(s.out(i) != Out::Pending, "h10: a request never gets an outcome"); } else if fin[i] { sx::check(s.resp(i).is_some_and(|r| r.end == End::Eof), "h10: a response is lost"); } else { sx::check(is_err(s.out(i)) || s.resp(i).is_some_and(|r| r.end == End::Err), "h10: a request never gets an outcome"); } } }
        if !handle || last.is_some() { sx::check(s.done() && s.is_ok(), "h10: an unused connection does not end"); sx::cover("unused"); }
        if handle && last.is_none() { sx::check(!s.done(), "h10: a usable connection ends"); }
    }
    if s.done() && handle { sx::check(!s.tx.as_ref().unwrap().is_ready() && s.tx.as_ref().unwrap().is_closed(), "h10: a closed connection looks usable"); }
    if !busy { sx::cover("idle"); }
}
#[no_mangle] pub extern "C" fn h10_steps() { h10(4, 3) }
#[no_mangle] pub extern "C" fn h10_long() { h10(6, 3) }
#[no_mangle] pub extern "C" fn h10_longer() { h10(7, 3) }

// ---------------------------------------------------------------- H11: CONNECT tunnels

use crate::tun::*;
fn h11_tunnel(wr: usize, rd: usize) {
    let st = ["200", "404", "204"][sx::pick(3, "status")];
    let ext = sx::flag("extended CONNECT");
    let cl = sx::pick(3, "content-length of the response: none, 0, 5");
    let (out, w) = (syms(sx::pick(wr + 1, "bytes written"), "written byte"), [0u32, 1, 65535][sx::pick(3, "window")]);
    let piece = [1, 2, 16][sx::pick(3, "read size")];
    let first = sx::flag("writes first");
    let mut s = Cli2::new(|_| {});
    let set: &[(u16, u32)] = &[(4, w), (8, 1)];
    s.peer.start(&set[..1 + ext as usize]);
    s.run();
    let mut r = req2("CONNECT", if ext { "http://h:1/p" } else { "h:1" }, HBody::empty());
    if ext { r.extensions_mut().insert(hyper::ext::Protocol::from_static("pp")); }
    let i = s.send(r);
    let j = s.send(get2("http://h/g"));
    s.run();
    let x = s.peer.s(1).clone();
    sx::check(x.get(":method") == [b"CONNECT"] && x.get(":authority") == [b"h:1"] && !x.end && x.data.is_empty(), "h11: a CONNECT request");
    sx::check(if ext { x.get(":protocol") == [b"pp"] && x.get(":path") == [b"/p"] && x.get(":scheme") == [b"http"] } else { x.get(":protocol").is_empty() && x.get(":path").is_empty() && x.get(":scheme").is_empty() }, "h11: pseudo fields of a CONNECT request");
    sx::check(x.get("content-length").is_empty(), "h11: content-length in a CONNECT request");
    let h: Vec<(&str, &[u8])> = if cl > 0 { vec![("content-length", [&b"0"[..], b"5"][cl - 1])] } else { vec![] };
    s.peer.respond(1, st, false, &h);
    s.run();
    s.peer.respond(3, "200", true, &[]);
    s.run();
    sx::check(!s.done() && s.resp(j).is_some_and(|r| r.end == End::Eof), "h11: another request suffers from a tunnel");
    if st != "404" && cl == 2 { sx::check(is_err(s.out(i)) && s.peer.s(1).rst.is_some(), "h11: a tunnel with a content-length is accepted"); sx::cover("refused"); return; }
    let r = match s.resp(i) { Some(r) => r, None => sx::fail("h11: no response") };
    sx::check(r.status.to_string() == st, "h11: status");
    let t: TunRef = Default::default();
    let on = s.ups.borrow_mut()[i].take().unwrap();
    s.ex.spawn(tunnel(on, t.clone(), out.clone(), piece, false, first));
    s.run();
    if st == "404" {
        sx::check(t.borrow().failed, "h11: a declined CONNECT is a tunnel");
        if cl != 1 { s.peer.data(1, false, b"nonon"); }
        s.peer.data(1, true, b"");
        s.run();
        let r = s.resp(i).unwrap();
        sx::check(r.end == End::Eof && r.body == if cl == 1 { &b""[..] } else { b"nonon" }, "h11: a declined CONNECT is not a response");
        sx::cover("declined");
        return;
    }
    sx::check(t.borrow().up && r.end == End::Eof && r.body.is_empty(), "h11: no tunnel");
    let k = if cl == 1 { 0 } else { sx::pick(rd + 1, "bytes sent") };
    let sent = syms(k, "sent byte");
    let cut = if k > 1 { 1 } else { k };
    let mut g = w as usize;
    for p in [&sent[..cut], &sent[cut..]] { if !p.is_empty() || sx::flag("empty frame") { s.peer.data(1, false, p); if sx::flag("run") { s.run(); } } }
    s.run();
    if first { sx::check(s.peer.s(1).data == out[..out.len().min(g)], "h11: written bytes do not arrive"); }
    sx::check(t.borrow().got == sent || first && g < out.len(), "h11: sent bytes do not arrive");
    let end = sx::pick(3, "server: ends its side, resets, transport closed");
    match end { 0 => s.peer.data(1, true, b""), 1 => { let c = sx::u32v("reset code"); sx::assume(c != 0 && c != 8); s.peer.rst(1, c) } _ => s.dev.set_eof() }
    s.run();
    if end == 0 {
        while g < out.len() {
            sx::check(s.peer.s(1).data.len() == g, "h11: window"); s.peer.grant(1, 1); g += 1; s.run();
            sx::check(s.peer.s(1).data.len() == g, "h11: written bytes wait although the window allows them");
            sx::cover("window");
        }
        let x = s.peer.s(1).clone();
        let t = t.borrow();
        sx::check(t.got == sent && t.eof && !t.rerr, "h11: the tunnel does not deliver what was sent");
        sx::check(x.data == out && x.end && x.rst.is_none() && t.wrote && t.shut, "h11: the tunnel does not send what was written");
        sx::cover("tunnel");
    } else {
        sx::check(starts(&sent, &t.borrow().got) && !t.borrow().eof, "h11: a tunnel cut off looks complete");
        sx::check(starts(&out, &s.peer.s(1).data) && !s.peer.s(1).end || s.peer.s(1).data == out, "h11: a tunnel cut off looks complete to the server");
        sx::cover("cut off");
    }
    if end < 2 { sx::check(!s.done(), "h11: the connection ends with a tunnel"); drop(s.tx.take()); s.run(); sx::check(s.done() && s.is_ok(), "h11: an unused connection does not end"); }
    else { s.run(); sx::check(s.done(), "h11: the connection outlives its transport"); }
    sx::check(s.ex.all_done(), "h11: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h11_small() { h11_tunnel(2, 2) }
#[no_mangle] pub extern "C" fn h11_more() { h11_tunnel(4, 3) }

// ---------------------------------------------------------------- H12: keep-alive

const KI: u64 = 5;
const KT: u64 = 3;
fn h12_alive(n: usize, span: usize) {
    let idle = sx::flag("pings while idle");
    let tm = Tm::new();
    let t2 = tm.clone();
    let mut s = Cli2::new(move |b| { b.timer(t2).keep_alive_interval(std::time::Duration::from_millis(KI)).keep_alive_timeout(std::time::Duration::from_millis(KT)).keep_alive_while_idle(idle); });
    s.peer.auto_pong = false;
    s.peer.start(&[]);
    s.run();
    let mut at = vec![];
    let mut t = 0;
    for _ in 0..n { let room = span - t; if room < 2 { break; } t += 1 + sx::pick(room - 1, "pause (ms)"); at.push(t); }
    let (mut last, mut sent, mut pings, mut stale) = (0u64, None::<u64>, 0usize, 0usize);
    // 0 none, 1 sent, 2 head arrived
    let (mut state, mut sid, mut cur) = (0, 1u32, 0usize);
    for now in 1..=span as u64 {
        crate::clock::advance_ms(1);
        let mut either = false;
        let was = state > 0;
        if at.contains(&(now as usize)) {
            let tie = sent.is_none() && now >= last + KI && (idle || state > 0);
            match sx::pick(5, "server: answers the ping, head, data, end; client: new request") {
                0 => {
                    if s.peer.pings.len() <= stale { sx::end(); }
                    let p = s.peer.pings.last().unwrap().clone();
                    stale = s.peer.pings.len();
                    s.peer.raw(&ping(true, &p));
                    if now >= sent.unwrap() + KT { either = true; }
                    sent = None;
                    last = now;
                    sx::cover("answered");
                }
                1 => { if state != 1 { sx::end(); } s.peer.respond(sid, "200", false, &[]); state = 2; last = now; }
                2 => { if state != 2 { sx::end(); } s.peer.data(sid, false, b"d"); last = now; sx::cover("data"); }
                3 => { if state != 2 { sx::end(); } s.peer.data(sid, true, b""); state = 0; sid += 2; last = now; }
                _ => { if state != 0 { sx::end(); } cur = s.send(get2("http://h/")); state = 1; }
            }
            if tie && last == now { return; }
            s.run();
            tm.fire();
            s.run();
            // what is heard at the moment a timer fires may count for either
            if was && state == 0 && sent.is_some() { either = now >= sent.unwrap() + KT; }
        } else { tm.fire(); s.run(); }
        if either { return; }
        if let Some(t0) = sent {
            if now >= t0 + KT {
                sx::check(s.done(), "h12: a connection whose ping is not answered stays open");
                sx::check(s.ex.all_done(), "h12: work goes on after the connection timed out");
                if state == 1 { sx::check(is_err(s.out(cur)) && s.timeouts.get() == 1, "h12: a request does not fail with the timeout"); sx::cover("request timed out"); }
                if state == 2 { if at.contains(&(now as usize)) && is_err(s.out(cur)) { return; } sx::check(s.resp(cur).is_some_and(|r| r.end == End::Err), "h12: a response cut off by the timeout looks complete"); sx::cover("response timed out"); }
                sx::cover("timed out");
                return;
            }
        } else if now >= last + KI && (idle || state > 0) { sent = Some(now); pings += 1; sx::cover("pinged"); }
        sx::check(!s.done(), "h12: a connection that answers is closed");
        sx::check(s.peer.pings.len() == pings, "h12: pings are not sent exactly when nothing was heard for the interval");
    }
    if pings == 0 { sx::cover("no ping"); }
}
#[no_mangle] pub extern "C" fn h12_three() { h12_alive(3, 14) }
#[no_mangle] pub extern "C" fn h12_four() { h12_alive(4, 17) }

// ---------------------------------------------------------------- H14: a server that breaks the rules

fn h14_frames(k: usize, n: usize) {
    let mut s = Cli2::new(|_| {});
    s.peer.auto_pong = false;
    let start = sx::pick(3, "before the settings, with a request waiting, with a response in progress");
    if start > 0 { s.peer.start(&[]); s.run(); }
    let a = s.send(get2("http://h/"));
    s.run();
    if start == 2 { s.peer.respond(1, "200", false, &[]); s.run(); }
    s.peer.lax = Some(vec![]);
    let (mut ends, mut away) = (false, false);
    for _ in 0..n {
        let f = odd(k, n > 1);
        away |= f[3] == GOAWAY;
        ends |= (f[3] == DATA || f[3] == HEADERS) && f[4] & END_STREAM != 0 || f[3] == RST;
        s.peer.raw(&f);
        s.run();
        if s.done() { break; }
    }
    if !s.done() {
        let b = s.send(req2("GET", "http://h/3", HBody::empty()));
        s.run();
        let sid = s.peer.lax.as_ref().unwrap().iter().filter(|f| f.0 == HEADERS).map(|f| f.2).last();
        if let Some(sid) = sid {
            if start > 0 { sx::check(sid > 1 && sid % 2 == 1, "h14: stream of the second request"); }
            s.peer.raw(&headers(sid, false, &[(":status", b"201")]));
            s.peer.raw(&data(sid, true, b"ok"));
            s.run();
            if sid == 3 && !s.done() {
                let r = s.resp(b);
                sx::check(r.is_some_and(|r| r.status == 201 && r.body == b"ok" && r.end == End::Eof), "h14: an orderly response is not delivered");
                sx::cover("served");
            }
        }
        if s.done() { sx::cover("fails later"); } else { sx::cover("goes on"); }
    } else { sx::cover("refused"); }
    if s.done() {
        let told = s.peer.lax.as_ref().unwrap().iter().any(|f| f.0 == GOAWAY);
        let _ = told; sx::check(s.is_err() || away, "h14: the connection ends without a reason");
    }
    if let Some(r) = s.resp(a) { if r.end == End::Eof { sx::check(ends, "h14: a response nobody ended looks complete"); } }
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "h14: the connection outlives its transport");
    for i in 0..s.outs.len() {
        match s.out(i) {
            Out::Pending => sx::fail("h14: a request without an outcome after the connection ended"),
            Out::Resp(_) => sx::check(s.resp(i).unwrap().end != End::Open, "h14: a response goes on after the connection ended"),
            Out::Err { .. } => sx::cover("failed"),
            Out::Gone => {}
        }
    }
    sx::check(s.ex.all_done(), "h14: work goes on after the connection ended");
}
#[no_mangle] pub extern "C" fn h14_one() { h14_frames(1, 1) }
#[no_mangle] pub extern "C" fn h14_more() { h14_frames(2, 1) }
#[no_mangle] pub extern "C" fn h14_two() { h14_frames(1, 2) }
/// as h07_window, the other way round
#[no_mangle] pub extern "C" fn h11_window() {
    let w = 1 + sx::pick(8, "stream window") as u32;
    let piece = 1 + sx::pick(5, "read size");
    let mut s = Cli2::new(|b| { b.initial_stream_window_size(w); });
    s.peer.start(&[]);
    s.run();
    let i = s.send(req2("CONNECT", "h:1", HBody::empty()));
    s.run();
    s.peer.respond(1, "200", false, &[]);
    s.run();
    let t: TunRef = Default::default();
    let on = s.ups.borrow_mut()[i].take().unwrap();
    s.ex.spawn(tunnel(on, t.clone(), vec![], piece, false, false));
    s.run();
    crate::h2x::feed_tunnel(w, 12, &mut s.peer, &mut s.ex, &t);
    sx::check(!s.done(), "the connection ends with a tunnel");
    sx::cover("window reopened");
}
