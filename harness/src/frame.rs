//! S01: how the extent of a request is decided (RFC 9112 section 6), both ways.
use crate::{refs::*, srv::*, sup::*, sx};

const TES: [&[u8]; 8] = [b"chunked", b"Chunked", b"gzip, chunked", b"chunked, gzip", b"identity", b"xchunked", b" \tchunked ", b"chunked;q=1"];

fn line(out: &mut Vec<u8>, te: &mut Vec<Vec<u8>>, cl: &mut Vec<Vec<u8>>, syms_: usize) {
    let wide = syms_ == 2;
    let k = match syms_ { 2 => sx::pick(6, "line kind"), 1 => sx::pick(5, "line kind"), _ => [0, 2, 4][sx::pick(3, "line kind")] };
    match k {
        0 => {}
        1 => {
            let v = syms(if wide { 3 } else { 1 }, "content-length digit");
            out.extend_from_slice(b"Content-Length: "); out.extend_from_slice(&v); out.extend_from_slice(b"\r\n");
            cl.push(v);
        }
        2 => { let v = TES[sx::pick(8, "transfer-encoding")]; out.extend_from_slice(b"Transfer-Encoding: "); out.extend_from_slice(v); out.extend_from_slice(b"\r\n"); te.push(v.to_vec()); }
        3 => {
            let b = sx::byte("after chunked");
            let v = cat(&[b"chunked", &[b]]);
            out.extend_from_slice(b"transfer-encoding:"); out.extend_from_slice(&v); out.extend_from_slice(b"\r\n");
            te.push(v);
        }
        4 => { let v: &[u8] = [&b"5"[..], b"3", b"05", b"5, 5", b"+5", b"18446744073709551616", b"5 5", b""][sx::pick(8, "content-length")]; out.extend_from_slice(b"content-length:"); out.extend_from_slice(v); out.extend_from_slice(b"\r\n"); cl.push(v.to_vec()); }
        _ => {
            // one byte of the field name is arbitrary
            let b = sx::byte("name byte");
            let name = cat(&[b"Content-Lengt", &[b]]);
            out.extend_from_slice(&name); out.extend_from_slice(b": 3\r\n");
            if b == b'h' || b == b'H' { cl.push(b"3".to_vec()); }
            // a colon or a line end here changes the line structure: outside this template
            sx::assume(is_tchar(b));
        }
    }
}
fn framing(n: usize, wide: usize) {
    let v11 = sx::pick(2, "version") == 0;
    let mut head = cat(&[b"POST /a HTTP/1.", if v11 { b"1" } else { b"0" }, b"\r\nHost: h\r\n"]);
    let (mut te, mut cl) = (vec![], vec![]);
    for _ in 0..n { line(&mut head, &mut te, &mut cl, wide); }
    if !v11 { head.extend_from_slice(b"Connection: keep-alive\r\n"); }
    head.extend_from_slice(b"\r\n");
    // bytes that change the line structure of the head belong to the parser harnesses
    for v in te.iter().chain(cl.iter()) { for &c in v { sx::assume(c != b'\r' && c != b'\n'); } }
    let rest = if sx::flag("chunked rest") { b"3\r\nabc\r\n0\r\n\r\nGET /b HTTP/1.1\r\nHost: h\r\n\r\n".to_vec() } else { b"abcdeGET /b HTTP/1.1\r\nHost: h\r\n\r\n".to_vec() };
    let is_chunked_rest = rest[0] == b'3';
    let (io, dev) = io(cat(&[&head, &rest]));
    let mut s = Srv::new(&builder(), (io, dev), reading(numbered));
    s.run();
    s.dev.set_eof();
    s.run();
    sx::check(s.done(), "connection does not finish although the peer closed");
    let reqs = s.reqs();
    let te_: Vec<&[u8]> = te.iter().map(|v| trim(v)).collect();
    let cl_: Vec<&[u8]> = cl.iter().map(|v| trim(v)).collect();
    // a control character in the value makes the head malformed: it may not be served
    let bad = te.iter().chain(cl.iter()).any(|v| v.iter().any(|&c| (c < 32 && c != b'\t') || c == 127));
    let f = reference(v11, &te_, &cl_);
    let served = !reqs.is_empty();
    match f {
        _ if bad => { sx::check(!served || f != Fr::Reject, "malformed framing header served"); sx::cover("malformed value"); return; }
        Fr::Any => { sx::cover("either"); return; }
        Fr::Reject => {
            sx::check(!served, "a request with ambiguous or invalid framing reached the service");
            let r = s.responses(&["POST"]);
            sx::check(r.len() == 1 && r[0].status == 400, "invalid framing is not answered by exactly one 400");
            sx::check(s.dev.is_shutdown(), "connection not closed after a framing error");
            sx::cover("rejected");
        }
        Fr::Chunked => {
            sx::check(served, "a valid chunked request was refused");
            sx::check(!reqs[0].has("content-length") , "content-length kept next to transfer-encoding");
            if is_chunked_rest {
                sx::check(reqs[0].body == b"abc" && reqs[0].end == End::Eof, "chunked body decoded wrongly");
                if cl.is_empty() { sx::check(reqs.len() == 2 && reqs[1].uri == "/b" && reqs[1].method == "GET", "request after a chunked body lost"); sx::cover("chunked"); }
                else {
                    // RFC 9112 6.1: both headers: the connection must be closed after the response
                    sx::check(reqs.len() == 1, "connection reused after a request with transfer-encoding and content-length");
                    let r = s.responses(&["POST"]);
                    sx::check(r.len() == 1 && r[0].close() && s.dev.is_shutdown(), "no close after a request with transfer-encoding and content-length");
                    sx::cover("te and cl");
                }
            } else {
                // "abcdeG.." : chunk size line is not hex digits + CRLF
                sx::check(reqs[0].end != End::Eof && reqs.len() == 1, "broken chunked body accepted");
                sx::cover("chunked but not");
            }
        }
        Fr::Len(n) => {
            if n == u64::MAX || n == u64::MAX - 1 { return; }
            sx::check(served, "a valid request was refused");
            if te.is_empty() && cl.is_empty() { sx::check(reqs[0].eos && reqs[0].exact == Some(0), "a request without framing has a body"); sx::cover("no framing"); }
            sx::check(reqs[0].exact == Some(n), "size hint differs from content-length");
            let k = (n as usize).min(rest.len());
            if rest.len() as u64 >= n {
                sx::check(reqs[0].body[..] == rest[..k], "body is not the announced number of bytes");
                sx::check(reqs[0].end == End::Eof, "a complete length-delimited body does not end");
            } else {
                sx::check(starts(&rest, &reqs[0].body), "body bytes differ from what was sent");
                sx::check(reqs[0].end != End::Eof, "a truncated length-delimited body ends as if complete");
            }
            if !is_chunked_rest && n <= 5 {
                sx::check(reqs.len() == 2 && reqs[1].uri == "/b", "following request lost");
                sx::check(reqs[1].method.as_bytes() == &cat(&[&rest[n as usize..5], b"GET"])[..], "following request starts at the wrong byte");
                sx::cover("length");
            }
            if rest.len() as u64 <= n { sx::check(reqs.len() == 1, "body bytes parsed as a request"); sx::cover("short"); }
        }
    }
}
#[no_mangle] pub extern "C" fn s01_one() { framing(1, 2) }
#[no_mangle] pub extern "C" fn s01_two() { framing(2, 1) }
#[no_mangle] pub extern "C" fn s01_three() { framing(3, 0) }
