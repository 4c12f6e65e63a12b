"""Every property: its text, the harness entries that decide it, their bounds, and what each must reach."""
PROPS = {}
NA = []          # (id, property text fields, reason)


def P(id, group, title, statement, over, qtext, why, files, mech, entries, assumptions=(), note=""):
    PROPS[id] = dict(group=group, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, entries=entries, assumptions=list(assumptions), note=note)


def E(entry, bound, cover, **kw):
    return dict(entry=entry, bound=bound, cover=cover.split("|"), **kw)


P("S01", "frame", "Request framing is decided safely and unambiguously",
  "Where a request ends is decided from its framing headers exactly as RFC 9112 section 6 says: a valid head is served with exactly the announced body, and a head whose framing is ambiguous or invalid never reaches the service but is answered with one 400 and a closed connection. Bytes of a body are never interpreted as the next request, and the next request starts exactly after the body.",
  ["inputs", "histories"], "all combinations of framing header lines of the templates, with arbitrary bytes in values and names, in HTTP/1.0 and 1.1, followed by two layouts of body bytes",
  "Unit tests sample a few header combinations; the guarantee is about every combination of duplicate, malformed and conflicting lines (request smuggling).",
  ["src/proto/h1/role.rs", "src/headers.rs", "src/proto/h1/decode.rs"],
  [("server request head parsing", "src/proto/h1/role.rs Server::parse"), ("content-length parsing", "src/headers.rs content_length_parse_all / from_digits"), ("length decoder", "src/proto/h1/decode.rs")],
  [E("s01_one", "one framing header line, of 6 kinds with up to 3 arbitrary value bytes / 1 arbitrary name byte, x HTTP/1.0|1.1 x 2 body layouts", "length|no framing|rejected|chunked|short|malformed value"),
   E("s01_two", "two framing header lines, each of 5 kinds (1 arbitrary digit byte, 1 arbitrary byte after 'chunked', 8 TE and 8 CL spellings)", "length|rejected|chunked|te and cl|either"),
   E("s01_three", "three framing header lines from the TE and CL spellings", "length|rejected|chunked|te and cl|either")])

P("S02", "chunk", "Chunked bodies decode to exactly their chunk data",
  "For every byte sequence after a chunked request head, the service sees exactly the chunk data the coding defines: a complete body ends cleanly and the next request starts right after it, a truncated or malformed one never ends as if complete, and after a malformed one the connection is not reused.",
  ["inputs", "schedules"], "arbitrary bytes after the head (6 quick, 8 thorough), 2 or 3 arbitrary bytes at every position of a regular coded body followed by another request, sizes at the 64-bit edge, and a pause in reading at every position",
  "The decoder is a byte-level state machine with some 256^n inputs; tests cover a list of well-known bodies.",
  ["src/proto/h1/decode.rs", "src/proto/h1/conn.rs"], [("chunked decoder state machine", "src/proto/h1/decode.rs ChunkedState::step"), ("body reading", "src/proto/h1/conn.rs poll_read_body")],
  [E("s02_free", "6 arbitrary bytes after the head, then end of input", "complete|malformed|truncated|unusual, refused"),
   E("s02_hole", "2 arbitrary bytes at any of 27 positions of a two-chunk body with extension, followed by a second request", "complete|malformed|truncated|next request|complete with trailers"),
   E("s02_cut", "1-2 chunks of 1-3 arbitrary bytes, with/without extension and trailers, reading pauses at every position", "complete|complete with trailers|next request"),
   E("s02_wide", "chunk size of up to 33 digits: 6 prefixes around 2^64 and 3 arbitrary bytes", "complete|malformed|truncated|next request"),
   E("s02_free8", "8 arbitrary bytes after the head", "complete|malformed|truncated|unusual, refused", thorough=True),
   E("s02_hole3", "3 arbitrary bytes at any position", "complete|malformed|truncated|next request", thorough=True)],
  ["whitespace after a chunk size, bare LF in the trailer section and control bytes in chunk extensions may be refused or accepted; if accepted only the data is compared"])

P("S15", "chunk", "Trailer fields are delivered exactly, or the body fails",
  "The trailer section of a chunked request body is delivered field for field, in order, after the data; a malformed trailer section makes the body fail rather than end cleanly, and never leaks into the next request.",
  ["inputs"], "5 arbitrary bytes as the whole trailer section, and 2 arbitrary bytes at every position of a three-line trailer section followed by another request",
  "Tests send two or three fixed trailer blocks.",
  ["src/proto/h1/decode.rs"], [("trailer collection and parsing", "src/proto/h1/decode.rs ChunkedState::Trailer, decode_trailers")],
  [E("s15_free", "5 arbitrary bytes after the last chunk", "complete|complete with trailers|malformed"),
   E("s15_hole", "2 arbitrary bytes at any of 41 positions of a three-line trailer section", "complete with trailers|malformed|next request")],
  ["bare LF inside a trailer section may be refused or accepted"])

P("S04", "resp", "A server connection is reused exactly when both sides allow it",
  "After a complete exchange the server reads the next request if and only if the request, the response and the configuration all allow the connection to persist (RFC 9112 section 9.3); otherwise it closes it. What it announces agrees with what it does: an HTTP/1.1 client is told connection: close before a close, an HTTP/1.0 client is told keep-alive when the connection stays, and a request body the service did not read is never taken for the next request.",
  ["inputs", "histories"], "up to two Connection lines of 6 kinds x HTTP/1.0 and 1.1 x keep-alive on/off x response Connection x request body; length and chunked request bodies of which a prefix is read and the rest never, at once or later arrives",
  "The decision combines version, request lines, response headers, body framing, configuration and what was left unread; tests sample a few combinations.",
  ["src/proto/h1/conn.rs", "src/proto/h1/role.rs", "src/headers.rs", "src/proto/h1/dispatch.rs"],
  [("keep-alive state", "src/proto/h1/conn.rs State::try_keep_alive, fix_keep_alive, enforce_version"), ("Connection parsing", "src/proto/h1/role.rs Server::parse"), ("unread bodies", "src/proto/h1/conn.rs poll_drain_or_close_read")],
  [E("s04_lines", "0-2 Connection lines of 6 kinds x version x keep_alive(on/off) x 4 response Connection headers x request with/without body, followed by a second request", "client closes|keep-alive off|kept 1.0|kept 1.1|service closes"),
   E("s04_unread", "request body of 3 bytes, length or chunked, 4 split points, rest never/at once/after a pause/after the response, service reads nothing/one frame/all, response at once or in parts before and after the rest and a half-close", "not reused|reused|reused after an unread body"),
   E("s06_header", "one service header of 12 kinds x 4 methods x 4 statuses x 5 bodies x 5 version/Connection combinations, followed by a second request", "closed|reused")])

P("S06", "resp", "Every response is framed so that the client reads exactly the body",
  "For every request method and version, status, service headers and body, the bytes the server writes are one well-formed response with consistent framing from which a conforming client recovers exactly the service's status, headers and body: no body after HEAD, 1xx, 204, 304 or a 2xx to CONNECT, never both content-length and transfer-encoding, never chunked to HTTP/1.0. A response it cannot frame is refused with an error and a closed connection.",
  ["inputs"], "5 methods x 8 statuses x 9 body shapes x 5 version/Connection combinations; every status 100-999; every single header and every ordered pair (thorough: triple) of 12 service header lines",
  "The framing decision is a product of method, version, status, headers and body hints; unit tests cover single points of it.",
  ["src/proto/h1/role.rs", "src/proto/h1/encode.rs", "src/proto/h1/conn.rs"],
  [("response head encoding", "src/proto/h1/role.rs Server::encode, encode_headers"), ("body encoder", "src/proto/h1/encode.rs Encoder"), ("write side state", "src/proto/h1/conn.rs write_head, write_body, end_body")],
  [E("s06_plain", "5 methods x 8 statuses x 5 version/Connection x 9 bodies, no service headers", "bodyless|chunked|close-delimited|closed|length|reused|tunnel|informational refused"),
   E("s06_status", "every status 100-999 x GET/HEAD/CONNECT x empty/known/unknown length", "bodyless|chunked|length|reused|tunnel|informational refused"),
   E("s06_header", "one of 12 service headers", "bodyless|chunked|close-delimited|closed|length|reused|refused"),
   E("s06_headers", "two of 12 service headers", "bodyless|chunked|close-delimited|closed|length|reused|refused"),
   E("s06_three", "three of 12 service headers", "bodyless|chunked|close-delimited|closed|length|reused|refused", thorough=True),
   E("s06_status_sym", "every status 100-999 as one 16-bit symbol", "bodyless|chunked|length|reused|tunnel|informational refused", thorough=True, fan=1000)],
  ["a 1xx status other than 101 from a service is expected to be refused (hyper has no final informational response)"])

P("S07", "resp", "A body never exceeds nor silently falls short of its announced length",
  "When a response announces a content-length, by header or by the body's exact size hint, at most that many body bytes are written; if the body ends early the connection is aborted so that the client cannot take the response for complete, and it is not reused.",
  ["inputs"], "content-length values of 1-2 arbitrary bytes, and exact size hints 0-4, against bodies of 0-2 frames of 0-2 bytes with pauses and early end announcements",
  "Tests send bodies that agree with their length, plus a handful of short ones.",
  ["src/proto/h1/encode.rs", "src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs"],
  [("length enforcement", "src/proto/h1/encode.rs Encoder::encode, end"), ("body end", "src/proto/h1/conn.rs end_body, write_body_and_end")],
  [E("s07_cl", "content-length header of 1-2 arbitrary bytes against 0-2 frames of 0-2 bytes, pauses, early end announcement, HTTP/1.0 and 1.1", "length|short|truncated to content-length"),
   E("s07_hint", "exact size hint 0-4 against 0-2 frames of 0-2 bytes with pauses", "implicit cut|implicit short|implicit nothing|short")])

P("S17", "resp", "Service-supplied values cannot break out of their line",
  "A reason phrase is accepted exactly when every byte is legal, and is then written verbatim on its own status line only. A header value the http crate accepts is written so that the client reads exactly one header line with that value; no byte of either can add a line or start a body.",
  ["inputs"], "reason phrases of 0-3 arbitrary bytes through all four constructors, header values of 3 arbitrary bytes under a name with an arbitrary byte, lower and title case",
  "Response splitting depends on single byte values in the validation tables; tests try a few.",
  ["src/ext/h1_reason_phrase.rs", "src/proto/h1/role.rs"], [("reason phrase validation", "src/ext/h1_reason_phrase.rs find_invalid_byte"), ("status line and header writing", "src/proto/h1/role.rs encode_headers")],
  [E("s17_reason", "0-3 arbitrary bytes, 4 constructors, 3 statuses", "refused|written"),
   E("s17_value", "3 arbitrary value bytes, 1 arbitrary name byte, title case on/off, value repeated", "written")])

P("S18", "resp", "Header name spelling follows the configuration and loses nothing",
  "With preserve_header_case the response writes each value of a forwarded header under the spelling the request used for that value, in order; names without a recorded spelling are title-cased if title_case_headers is on and lower case otherwise. No header is lost, duplicated or paired with another value.",
  ["inputs"], "1-3 request header lines whose names are symbolic in case and letters (so repeated and distinct names both occur), 0-2 headers added by the service, all four settings",
  "The pairing of spellings with repeated values depends on the combination of repetitions and cases.",
  ["src/proto/h1/role.rs", "src/ext/mod.rs"], [("original case writer", "src/proto/h1/role.rs encode_headers_with_original_case, title_case"), ("case map", "src/ext/mod.rs HeaderCaseMap")],
  [E("s18_case", "1-3 lines named X<q|Q|r|-><z|Z>, 0-2 own headers, preserve x title case", "lower|preserve|preserve, title|title")])

P("S19", "resp", "Responses carry exactly one correct Date header",
  "With auto_date_header on, every response has exactly one Date header: the service's own if it set one, otherwise the current time in IMF-fixdate, to the second, however much time passes between responses on the same connection. With it off none is added.",
  ["inputs", "schedules"], "6 start times (leap days, year and century ends, epoch) x 4 sub-second fractions x two gaps of 6 kinds x own date on/off",
  "The date is cached per thread and refreshed by time; tests do not move the clock.",
  ["src/common/date.rs", "src/proto/h1/role.rs"], [("cached date", "src/common/date.rs CachedDate::check, update"), ("date line", "src/proto/h1/role.rs encode_headers")],
  [E("s19_date", "three responses on one connection, 6 starts x 4 fractions x 6 x 6 gaps", "automatic|off|own")],
  ["the value may be one second old at the very instant a second begins"])

P("S20", "resp", "Response trailers are sent only when asked for and declared",
  "A trailer field of the service is written after the last chunk if and only if the request said TE: trailers, the response is chunked, a Trailer header names the field and the field is allowed in trailers; fields that qualify arrive with all their values. Otherwise the body still ends properly and the connection stays usable.",
  ["inputs"], "10 TE header combinations x 2 versions x 6 Trailer declarations x 6 trailer sections x data/no data x 3 framings",
  "Tests have one case per condition, not their product.",
  ["src/proto/h1/encode.rs", "src/proto/h1/conn.rs", "src/headers.rs", "src/proto/h1/role.rs"], [("trailer encoding", "src/proto/h1/encode.rs encode_trailers"), ("permission", "src/proto/h1/conn.rs write_trailers"), ("TE parsing", "src/headers.rs te_is_trailers")],
  [E("s20_trailers", "product of 10 TE header combinations, 2 versions, 6 Trailer declarations, 6 trailer sections, data/no data, 3 framings", "none left|reused|sent|withheld"),
   E("s20_fields", "12 field names that trailers may not carry and 5 others, 5 ways to declare, 2 arbitrary value bytes", "kept out|sent")])

P("S03", "conn", "How request bytes are cut into reads never matters",
  "The requests, bodies and trailers the service sees and the responses the client gets depend only on the bytes received, not on how the transport splits or delays them; a malformed head is refused with the same single 400 wherever it is cut.",
  ["inputs", "schedules"], "every way to cut five request streams (chunked with trailers, length, leading empty lines, HTTP/1.0, bare line feeds) in one or two places (thorough: three), in groups of 1-9 bytes, with and without delays at the cuts; six malformed heads cut anywhere; 4 streams with an arbitrary byte at every position and 1-5 arbitrary bytes, compared with the same bytes in one piece",
  "Reads can end anywhere; the partial-parse and buffering code has a case for each, tests try a handful.",
  ["src/proto/h1/io.rs", "src/proto/h1/conn.rs", "src/proto/h1/decode.rs", "src/proto/h1/role.rs"],
  [("buffered parsing", "src/proto/h1/io.rs Buffered::parse"), ("head reading", "src/proto/h1/conn.rs poll_read_head"), ("body decoding", "src/proto/h1/decode.rs Decoder::decode")],
  [E("s03_one", "7 streams, one cut anywhere, with/without delay", "chunked|length|leading empty lines|1.0|bare line feeds|mixed line ends"),
   E("s03_two", "7 streams, two cuts anywhere, with/without delay", "chunked|length|leading empty lines|1.0|bare line feeds|mixed line ends"),
   E("s03_drip", "7 streams in groups of 1-9 bytes", "drip"),
   E("s03_bad", "6 malformed heads, one cut anywhere", "refused"),
   E("s03_any", "an arbitrary byte anywhere in 4 streams, a cut up to 2 bytes away", "nothing|refused|refused early|served"),
   E("s03_bits", "up to 5 arbitrary bytes alone, or 3 before a request, cut in every way", "nothing|refused|refused early|served"),
   E("s03_any2", "2 arbitrary bytes anywhere in 4 streams, a cut inside or beside them", "nothing|refused|refused early|served", thorough=True),
   E("s03_any_far", "an arbitrary byte anywhere in 4 streams, a cut anywhere", "nothing|refused|refused early|served", thorough=True, time=400),
   E("s03_three", "3 streams, three cuts anywhere", "chunked|length|leading empty lines", thorough=True)])

P("S05", "conn", "Pipelined requests get exactly one intact response each, in order",
  "Requests that arrive on one connection, however far ahead, are served one by one in order and answered by exactly one intact response each in the same order, whatever the service does and when. No response is lost, withheld while hyper waits for more input, duplicated or interleaved, with pipeline_flush as without.",
  ["inputs", "schedules", "histories"], "two or three pipelined requests of 5 kinds (symbolic body bytes) x 5 service behaviours x 2 orders of completion x half_close x pipeline_flush, cut anywhere; 15-34 requests in one buffer; a first request followed by every prefix of a second",
  "The interplay of buffered input, keep-alive and flushing depends on timing and shape combinations no test lists.",
  ["src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/proto/h1/io.rs"],
  [("dispatch loop", "src/proto/h1/dispatch.rs poll_loop, poll_read, poll_write, poll_flush"), ("connection state", "src/proto/h1/conn.rs"), ("flush strategy", "src/proto/h1/io.rs poll_flush")],
  [E("s05_two", "two requests of 5 kinds x 5 service behaviours each, half_close, pipeline_flush, either gate first", "all served|unread body"),
   E("s05_cut", "two requests of 3 kinds x 3 behaviours, cut anywhere with/without delay", "all served|unread body"),
   E("s05_many", "15-34 requests of 3 kinds in one buffer or cut regularly", "many"),
   E("s05_long", "130-450 pipelined requests of 2 kinds, in 8 KB reads or cut at 5000/8200, pipeline_flush, 3 timer settings", "long"),
   E("s05_partial", "a request of 4 kinds and every prefix of a second of 4 kinds", "in the head|in the body"),
   E("s05_apart", "3 request kinds whose body a task of its own reads, at once or later, beside a response of 3 kinds; 7 places where the transport stops; then 5 kinds of what follows, arriving in 3 ways; vectored, pipeline_flush", "served|malformed|end"),
   E("s05_echo", "5 request kinds whose body is the response body, cut anywhere, 4 places where the transport stops, vectored, slow flush, pipeline_flush, second request with or after the rest", "HEAD|body not read|chunked|empty|length|trailers"),
   E("s05_echo3", "3 kinds of second request, 7 places where the transport stops", "HEAD|body not read|chunked|empty|length|trailers", thorough=True),
   E("s05_three", "three requests of 4 kinds x 4 behaviours", "all served|unread body", thorough=True)],
  ["a response body still being produced is not claimed to be flushed early while another request is buffered with the experimental pipeline_flush"])

P("S10", "conn", "100 Continue is sent exactly when the service asks for the body",
  "An HTTP/1.1 request with Expect: 100-continue and a body gets at most one 100 response: before the final response, only once the service reads the body, never unasked, and always if the client is waiting for it. If the service answers without reading, no 100 is sent and bytes of a body are never taken for a request.",
  ["inputs", "schedules"], "5 Expect spellings x 2 versions x 4 framings x 4 client behaviours x 6 service behaviours, followed by another request",
  "Who acts first decides the outcome; tests fix one order.",
  ["src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs", "src/body/incoming.rs"],
  [("continue state", "src/proto/h1/conn.rs Reading::Continue"), ("want signal", "src/body/incoming.rs Sender::poll_want"), ("head parsing", "src/proto/h1/role.rs expect_continue")],
  [E("s10_expect", "product of 5 Expect headers, 2 versions, 4 framings, 4 client and 6 service behaviours (reads, answers, waits, keeps or gives up the body)", "closed without continue|not asked|reused|sent|sent later"),
   E("s10_apart", "a service that answers first (3 kinds of response) and asks for the body at once, meanwhile or afterwards; the client sends it at once, when told or in the end; 3 places where the transport stops", "delivered|never asked")])

P("S12", "conn", "Graceful shutdown finishes what is in progress and then closes",
  "After graceful_shutdown an exchange in progress is completed intact, no request is taken on afterwards, the client is told connection: close if the response head was not written yet, and the connection then ends without error; an idle or unused connection is closed at once.",
  ["schedules", "histories"], "shutdown asked for at 8 points of an exchange (at every byte of the request head and body) x 3 request kinds x second request none/with the first/later x streaming or plain response",
  "The request can come at any instant; tests pick two or three.",
  ["src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/server/conn/http1.rs"],
  [("shutdown request", "src/server/conn/http1.rs graceful_shutdown"), ("keep-alive off", "src/proto/h1/conn.rs disable_keep_alive"), ("dispatcher", "src/proto/h1/dispatch.rs disable_keep_alive")],
  [E("s12_graceful", "8 points x every byte x 3 request kinds x 4 second requests (none, with, later, in part) x streaming or not", "idle|nothing in progress|partial|partial, together|response starts|service busy|told|unused|write blocked"),
   E("s12_apart", "shutdown at every byte of a body that a task of its own reads beside the response (3 kinds, complete or not), at once or later; transport that stops, vectored or not; with and without another request", "body complete|body in progress|told")])

P("S14", "conn", "A connection cut off anywhere never looks complete",
  "If the client closes or resets the connection after any byte, a head that is cut off never reaches the service, a body that is cut off fails instead of ending, complete requests received before are served and answered, and the connection finishes: cleanly between requests, with an error inside a head.",
  ["crash_points", "schedules"], "close or reset after every byte of two requests (first of 5 kinds) x at once or later x half_close",
  "Tests close at a few chosen points only.",
  ["src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/decode.rs", "src/proto/h1/io.rs"],
  [("end of input", "src/proto/h1/conn.rs on_read_head_error, mid_message_detect_eof, force_io_read"), ("dispatch end", "src/proto/h1/dispatch.rs"), ("body end", "src/proto/h1/decode.rs")],
  [E("s14_cut", "end or reset after every byte of two requests x 5 kinds x half_close x at once/later", "body cut off|clean end|half-closed|head cut off|head reset"),
   E("s14_dropped", "the application drops the connection after any prefix of two body forms, in up to two parts, the body read elsewhere before or after", "body cut off|complete"),
   E("s14_apart", "end or reset after every byte of a body that a task of its own reads beside the response (3 kinds, complete or not), before or after the end; transport that stops, vectored or not; half_close", "cut off|complete"),
   E("s14_echo", "3 request kinds whose body is the response body; end or reset after every byte, 7 places where the transport stops, half_close", "complete|cut off|head")])

P("S16", "conn", "The header read timeout hits slow heads and nothing else",
  "With a timer configured, a connection whose next request head is not complete within the configured time (30 s by default) from when hyper begins to wait for it ends with a timeout error and serves nothing more; requests in time, services that take long and a disabled timeout are never hit.",
  ["inputs", "schedules"], "3 configurations x 5 waits before, within and between two heads and during the service, x where the head is cut",
  "Time is simulated here; tests sleep through one or two cases.",
  ["src/proto/h1/conn.rs", "src/proto/h1/role.rs", "src/server/conn/http1.rs"],
  [("timeout start and check", "src/proto/h1/conn.rs poll_read_head"), ("timeout configuration", "src/server/conn/http1.rs header_read_timeout")],
  [E("s16_timeout", "3 configurations, 5 waits at 5 places, 2 cuts of the first head", "off|timed out|timed out idle|timed out in the second head|two in time"),
   E("s16_apart", "a body that comes 20 s after its request was answered; 3 waits before the next head, complete or in parts; transport that takes nothing at first, vectored or not", "timed out|timed out in the head|in time")])

P("S08", "io", "What is written never depends on how the transport accepts it",
  "The bytes hyper writes are the same whatever the transport does: partial and vectored writes, pauses at any byte, slow flush and shutdown neither lose, repeat nor reorder a byte, and everything produced is flushed before hyper waits or finishes. If a write fails or accepts nothing, exactly the prefix accepted so far was written, and both the connection and the waiting application get an error.",
  ["schedules", "fault_sequences", "inputs"], "two responses (thorough: three) of 4-5 body shapes, 4 transport/writev settings, writes of 1, 3, 50 or any number of bytes, a pause or fault at every byte, slow flush and shutdown; the same for a client request; up to 70 queued frames stuck at every byte",
  "The write path keeps a queue of partly written buffers; tests use a transport that takes everything at once.",
  ["src/proto/h1/io.rs", "src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs", "src/common/buf.rs"],
  [("write buffer", "src/proto/h1/io.rs WriteBuf, poll_flush, poll_flush_flattened"), ("buffer queue", "src/common/buf.rs BufList"), ("encoded chunks", "src/proto/h1/encode.rs EncodedBuf")],
  [E("s08_partial", "two responses of 4 shapes, pause at every byte, writes of 3 or any bytes, 4 transport settings, slow flush", "chunked|flattened|frames with length|full|vectored|waiting"),
   E("s08_fault", "two responses of 5 shapes, write error or zero-length write at every byte", "chunked|empty|error|frames with length|full|nothing accepted|waiting"),
   E("s08_many", "15-70 one-byte frames, stuck at each of 130 positions", "flattened|vectored"),
   E("s08_large", "two responses of two pieces of 1 B to 20 KB each, with a large head too, stuck at 9 positions, 4 transport settings, 2 write sizes", "chunked|large head|length"),
   E("s08_client", "a client request of 5 body shapes, pause, error or zero-length write at every byte", "chunked|empty|fault|frames with length|full|waiting"),
   E("s08_pipeline", "two pipelined requests with pipeline_flush, 3 response shapes, 5 tails, pause at each of 200 positions, 3 peer behaviours", "close|empty lines|malformed head|nothing|partial head"),
   E("s08_partial3", "three responses", "chunked|flattened|frames with length|full|vectored|waiting", thorough=True),
   E("s08_partial5", "5 shapes, writes of 1, 3, 50 or any bytes", "chunked|empty|flattened|frames with length|full|vectored|waiting", thorough=True)])

P("S09", "limits", "Limits on what a peer can make a connection hold are exact",
  "Header count, head size, request target length, trailer count and size, and chunk extension size are limited as configured or documented: a message within the limits is delivered in full, one over them is never delivered but refused with the proper status (431 or 414) or an error, and the connection ends. This holds however the bytes arrive, on the first and on later messages, and memory for an incomplete head stays bounded.",
  ["inputs", "configurations", "histories"], "max_headers unset/0/1/3/100/101/150 x one below to far above; heads of half to three times max_buf_size and endless ones; targets around 65534; trailers and chunk extensions around 16 KB; all in several ways of arriving",
  "Off-by-one errors and limits that reset between reads only show at the exact edge.",
  ["src/proto/h1/role.rs", "src/proto/h1/io.rs", "src/proto/h1/decode.rs", "src/proto/h1/conn.rs"],
  [("header limits", "src/proto/h1/role.rs Server::parse, Client::parse"), ("buffer limit", "src/proto/h1/io.rs Buffered::parse"), ("chunked limits", "src/proto/h1/decode.rs")],
  [E("s09_count", "7 max_headers settings x 5 counts around the limit x first/second request x 4 cuts", "over|over the default|within|within the default"),
   E("s09_size", "2 max_buf_size x 5 sizes x 3 places x 5 ways of arriving x first/second request", "endless|over|within"),
   E("s09_edge", "an incomplete head of exactly max_buf_size or one byte less, 3 limits x 4 ways of arriving x 3 places x first/second request", "at the limit|below"),
   E("s09_target", "7 target lengths around 65534 x 2 forms x 2 ways of arriving", "over|within"),
   E("s09_chunked", "trailers and chunk extensions below and above their limits x 2 max_headers x 3 ways of arriving", "extension|extensions|over|trailer count|trailer line|trailer size"),
   E("s09_client", "client: header count, head size and informational responses around the limits", "over|within")],
  ["a head of up to three times max_buf_size may be served if it arrives at once (the limit is checked when hyper has to wait)"])

P("S11", "misc", "An accepted upgrade hands over the connection with every byte",
  "When a service accepts an upgrade (101, or 2xx to CONNECT), the application's upgrade future resolves only after that response and gives exactly the bytes the peer sent after the request, and what it writes goes to the peer unchanged right after the response head. A refused upgrade resolves to an error, and tunnel bytes are never taken for a request.",
  ["inputs", "schedules"], "CONNECT or Upgrade x accept/refuse x 0-3 arbitrary tunnel bytes already buffered x cuts x body read or not x slow transport x read sizes x taking the connection apart",
  "Which bytes are buffered where at the moment of the switch depends on timing.",
  ["src/upgrade.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/server/conn/http1.rs", "src/common/io/rewind.rs"],
  [("pending upgrade", "src/upgrade.rs Pending, OnUpgrade"), ("hand over", "src/server/conn/http1.rs UpgradeableConnection"), ("buffered bytes", "src/common/io/rewind.rs")],
  [E("s11_server", "CONNECT/Upgrade x 2 answers x 0-3 symbolic bytes with the head x 3 cuts x 4 transports (one stops accepting until the rest has arrived) x 4 read sizes x request body (read before, beside or never) x a request before", "body not read|refused|taken apart|tunnel"),
   E("s11_alone", "a connection driven without upgrades: polled, without_shutdown or poll_without_shutdown; what it had read but not used is in its parts", "left to the caller|refused")])

P("S13", "misc", "No input makes a server connection panic, hang or go unanswered",
  "Whatever bytes arrive, the connection neither panics nor spins nor waits after the peer has closed; an incomplete head reaches no service, and a malformed one gets exactly one 400 with connection: close and ends the connection.",
  ["inputs"], "1-6 arbitrary bytes (thorough 8), alone or with up to 2 (3) of them in front of a request; two arbitrary bytes at every position of two request heads",
  "Tests feed known-bad inputs; the property is about all of them.",
  ["src/proto/h1/role.rs", "src/proto/h1/io.rs", "src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs"],
  [("head parsing", "src/proto/h1/role.rs Server::parse"), ("error answer", "src/proto/h1/role.rs Server::on_error"), ("error handling", "src/proto/h1/conn.rs on_parse_error")],
  [E("s13_free", "1-6 arbitrary bytes, or 1-2 before a request", "free|incomplete|malformed|served"),
   E("s22_hole2", "2 arbitrary bytes at every position of two request heads", "incomplete|malformed|refused|served"),
   E("s13_free3", "1-8 arbitrary bytes, or 1-3 before a request", "free|incomplete|malformed|served", thorough=True)])

P("S21", "io", "Buffering is bounded and respects backpressure in both directions",
  "While the peer does not read, hyper stops pulling the service's body after about max_buf_size bytes; while the service does not read, hyper stops reading from the transport. In both directions everything resumes and arrives complete once the other side moves again.",
  ["schedules", "configurations"], "2 buffer limits x 4 frame sizes x 4 stuck positions x chunked/length x vectored; 9-100 KB of body or pipelined requests in 3 ways of arriving",
  "Unbounded buffering passes every functional test.",
  ["src/proto/h1/io.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/body/incoming.rs"],
  [("write limit", "src/proto/h1/io.rs can_buffer"), ("dispatch", "src/proto/h1/dispatch.rs poll_write, poll_read"), ("body channel", "src/body/incoming.rs")],
  [E("s21_write", "2 limits x 4 frame sizes x 4 stuck positions x chunked/length x vectored", "held back"),
   E("s21_read", "2 limits x 3 amounts x 3 kinds x 3 ways of arriving", "chunked|held back|length|requests")])

P("S22", "misc", "Request heads reach the service exactly as sent",
  "A well-formed request head is served, with exactly the method, target, version and header lines the client sent, values trimmed of surrounding whitespace only and repeated names in order. A head that is not well-formed is never served. The lenient settings (ignored invalid lines, several spaces in the request line) accept just what they name.",
  ["inputs", "configurations"], "one and two (thorough: three) arbitrary bytes at every position of two request heads, a byte inserted, removed or repeated at every position, one header line of 4 (thorough: 5) arbitrary bytes; header and request lines of 3-4 arbitrary bytes under each lenient setting",
  "Every byte value at every position is out of reach of examples.",
  ["src/proto/h1/role.rs"], [("head parsing", "src/proto/h1/role.rs Server::parse"), ("header indices", "src/proto/h1/role.rs record_header_indices")],
  [E("s22_hole", "1 arbitrary byte at every position of two heads", "incomplete|malformed|refused|served"),
   E("s22_edit", "a byte inserted, removed or repeated at every position", "incomplete|malformed|refused|served"),
   E("s22_line", "one header line of 4 arbitrary bytes", "malformed|served"),
   E("s22_combo3", "3 of 15 header lines that mean something to hyper (lengths, connection, expect, ...) in any order and repeated, both versions", "doubtful|served"),
   E("s22_ignore", "3 arbitrary bytes as a header line, invalid lines ignored, with and without several spaces allowed", "malformed|served"),
   E("s22_spaces", "4 arbitrary bytes around the target, several spaces allowed", "malformed|refused|served"),
   E("s22_lenient", "1 arbitrary byte at every position of two heads under each lenient setting", "incomplete|malformed|refused|served"),
   E("s22_ignore4", "4 arbitrary bytes", "malformed|served", thorough=True),
   E("s22_combo4", "4 of the 15 header lines", "doubtful|served", thorough=True),
   E("s22_hole3", "3 arbitrary bytes at every second position", "incomplete|malformed|refused|served", thorough=True),
   E("s22_line5", "one header line of 5 arbitrary bytes", "malformed|served", thorough=True)],
  ["unusual request targets and header combinations decided by S01 may be refused"])

P("C01", "cli1", "A client request is framed so the server reads exactly its body",
  "Every request the client sends is one well-formed message with the method, target and body the caller gave; length and transfer-encoding never contradict each other, a body that falls short of its announced length is aborted and never looks complete, declared trailers are sent, and the next request follows right behind. GET, HEAD, CONNECT and HTTP/1.0 requests without explicit framing send no body, as documented.",
  ["inputs", "configurations"], "5 methods x 3 versions x 11 body shapes x up to two (thorough: three) of 10 framing headers, also after an HTTP/1.0 response",
  "Body shape, method, version and the caller's own headers interact; tests cover a few of thousands of combinations.",
  ["src/proto/h1/role.rs", "src/proto/h1/encode.rs", "src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs", "src/headers.rs"],
  [("request framing", "src/proto/h1/role.rs Client::set_length, Client::encode"), ("body encoding", "src/proto/h1/encode.rs"), ("short bodies", "src/proto/h1/conn.rs write_body_and_end, end_body")],
  [E("c01_one", "one extra header x 11 bodies x 5 methods x 3 versions", "aborted|bad length|chunked|closed|cut|length|no body|none|reused|trailers"),
   E("c01_two", "two extra headers x 8 bodies", "bad length|chunked|closed|length|no body|none|reused|trailers"),
   E("c01_old", "the same after an HTTP/1.0 keep-alive response", "aborted|bad length|chunked|closed|cut|length|no body|none|reused|trailers"),
   E("c01_three", "three extra headers x 11 bodies", "aborted|bad length|chunked|closed|cut|length|no body|none|reused|trailers", thorough=True)],
  ["the caller's headers name chunked at most once and last"])

P("C02", "cli1", "A response ends exactly where its framing says",
  "The client takes a response's body from status, method, version, transfer-encoding and content-length as RFC 9112 section 6.3 says: no body after HEAD, 204, 304; chunked, length or until close otherwise; contradictory or malformed framing is an error. A body cut short fails, informational heads are skipped, stray bytes are never taken for a response, and the connection is reused exactly when it may.",
  ["inputs", "configurations"], "4 methods x 8 statuses x 2 versions x one framing line (symbolic values included) x 3 Connection choices x 5 bodies; two lines (thorough: three) for 3 statuses",
  "A client that disagrees with the server about where a response ends delivers one response's bytes as another's.",
  ["src/proto/h1/role.rs", "src/proto/h1/decode.rs", "src/proto/h1/conn.rs", "src/headers.rs"],
  [("framing decision", "src/proto/h1/role.rs Client::decoder"), ("body decoding", "src/proto/h1/decode.rs"), ("reuse", "src/proto/h1/conn.rs State::try_keep_alive")],
  [E("c02_one", "4 methods x 8 statuses x one framing line of 5 kinds, 3-digit symbolic lengths, symbolic byte after chunked", "closed|either|informational|malformed value|rejected|reused|reused after chunked|stray bytes|truncated|tunnel|until close"),
   E("c02_two", "two framing lines x 3 statuses x 3 methods", "closed|either|malformed value|rejected|reused|reused after chunked|stray bytes|truncated|until close"),
   E("c02_three", "three framing lines x 2 statuses", "closed|either|rejected|reused|reused after chunked|stray bytes|truncated|until close", thorough=True, time=600)],
  ["transfer-encoding values that RFC 9112 lets a client treat either way are not judged"])

P("C03", "cli1", "Every response is delivered to the request it answers",
  "On a client connection each response and each of its body bytes goes to the request it answers: requests are written in order, never before the previous response is complete, and bytes that arrive while nothing is outstanding are never delivered as a response nor followed by another request.",
  ["histories", "schedules"], "histories of 7 (thorough: 9) events: up to 3 requests with or without a slow body, responses whole or in two parts, stray responses, end of input, dropped futures, sender or connection, each event alone or together with the next",
  "A wrong pairing needs several events in a particular order, usually a cancellation and an early or stray response.",
  ["src/client/dispatch.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/client/conn/http1.rs"],
  [("request queue", "src/client/dispatch.rs"), ("pairing", "src/proto/h1/dispatch.rs Client"), ("idle reads", "src/proto/h1/conn.rs require_empty_read, mid_message_detect_eof")],
  [E("c03_stray3", "0-2 exchanges, then 1-4 arbitrary stray bytes, alone or followed by part of a head or a whole response, in one or two reads, with the last response, on the idle connection or together with the request", "given back"),
   E("c03_hist7", "7 events of 10 kinds, 3 requests, 8 timings", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray"),
   E("c03_apart", "4 request bodies x 6 responses, of which the head, all but the last byte or all comes before the request body is complete; 5 places where the transport stops; the response body read at once, later or dropped; then a second request", "body dropped|closed|reused"),
   E("c03_hist8", "8 events", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray", thorough=True),
   E("c03_hist9", "9 events", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray", thorough=True, time=700)])

P("C04", "cli1", "Every request handed to a client connection gets an outcome",
  "Whatever happens to the connection, the future of every submitted request resolves: with the complete response if it arrived, with an error otherwise; a cut-off body fails. A request that was never written is given back to the caller as canceled, one that was written never is. A connection whose peer has closed finishes.",
  ["histories", "schedules"], "histories of 7 (thorough: 9) events, as for C03",
  "A lost outcome is a caller waiting for ever; a wrong give-back makes callers send a request twice.",
  ["src/client/dispatch.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/client/conn/http1.rs"],
  [("outcome", "src/client/dispatch.rs Callback, Envelope"), ("errors", "src/proto/h1/dispatch.rs Client::recv_msg"), ("end of connection", "src/proto/h1/conn.rs on_read_head_error")],
  [E("c04_hist7", "7 events of 10 kinds, 3 requests, 8 timings", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray"),
   E("c04_apart", "as c03_apart", "body dropped|closed|reused"),
   E("c04_hist8", "8 events", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray", thorough=True),
   E("c04_hist9", "9 events", "answered|connection dropped|cut off|dropped|failed|given back|sender dropped|stray", thorough=True, time=700)])

P("C05", "cli2", "Response heads reach the caller exactly as sent",
  "A well-formed response is delivered with exactly the status, version, reason phrase and header lines the server sent, values trimmed of surrounding whitespace only and repeated names in order; one that is not well-formed or incomplete is never delivered. The lenient settings (spaces before the colon, folded lines, ignored invalid lines, HTTP/0.9) accept just what they name.",
  ["inputs", "configurations"], "one and two (thorough: three) arbitrary bytes at every position of four responses, a byte inserted, removed or repeated; header lines of 4-5 (thorough: 5-6) arbitrary bytes under each of 4 settings; 8 arbitrary bytes without a head",
  "Every byte value at every position, under every setting, is out of reach of examples.",
  ["src/proto/h1/role.rs", "src/proto/h1/conn.rs", "src/ext/h1_reason_phrase.rs", "src/client/conn/http1.rs"],
  [("head parsing", "src/proto/h1/role.rs Client::parse, obs_fold_line"), ("reason phrase", "src/ext/h1_reason_phrase.rs"), ("HTTP/0.9", "src/proto/h1/conn.rs h09_responses")],
  [E("c05_hole", "1 arbitrary byte at every position of four responses", "delivered|incomplete|informational|malformed|rejected"),
   E("c05_hole2", "2 arbitrary bytes", "delivered|incomplete|informational|malformed|rejected"),
   E("c05_edit", "a byte inserted, removed or repeated at every position", "delivered|incomplete|informational|malformed|rejected"),
   E("c05_line", "one header line of 4 arbitrary bytes", "delivered|malformed"),
   E("c05_spaces", "the same, spaces before the colon allowed", "delivered|malformed"),
   E("c05_fold", "5 arbitrary bytes in a value, folded lines allowed", "delivered|malformed"),
   E("c05_ignore", "4 arbitrary bytes, invalid lines ignored", "delivered|malformed"),
   E("c05_09", "8 arbitrary bytes that are no HTTP/1 version, allowed or not, first or second response", "0.9|refused"),
   E("c05_hole3", "3 arbitrary bytes at every second position", "delivered|incomplete|informational|malformed|rejected", thorough=True),
   E("c05_spaces5", "5 arbitrary bytes", "delivered|malformed", thorough=True),
   E("c05_fold6", "6 arbitrary bytes", "delivered|malformed", thorough=True),
   E("c05_ignore5", "5 arbitrary bytes", "delivered|malformed", thorough=True)],
  ["a reason phrase with bytes above 127 is not judged (the parser documents an empty one)"])

P("C06", "cli2", "A client upgrade hands over the connection with every byte",
  "When the server accepts an upgrade (101, or 2xx to CONNECT), the response's upgrade future gives exactly the bytes the server sent after the head, and what the application writes follows the request unchanged; further requests are given back. If the upgrade is refused the future is an error and the connection goes on; if the connection is driven without upgrades, it is left open and its parts hold every unread byte.",
  ["inputs", "schedules"], "CONNECT or Upgrade x 3 ways to drive the connection x accept, refuse, refuse and close x 0-3 arbitrary tunnel bytes with the head x cuts x 4 read sizes x request body x an exchange or an informational response before x another request queued",
  "Which bytes are already buffered at the moment of the switch depends on timing.",
  ["src/upgrade.rs", "src/client/conn/http1.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/conn.rs", "src/common/io/rewind.rs"],
  [("upgrade", "src/client/conn/http1.rs UpgradeableConnection, without_shutdown, into_parts"), ("pending upgrade", "src/upgrade.rs"), ("buffered bytes", "src/common/io/rewind.rs")],
  [E("c06_client", "all of the above", "left to the caller|refused|taken apart|tunnel"),
   E("c06_early", "the server switches before the request is fully sent: 3 request bodies x 4 places where the transport stops x 3 ways to drive the connection", "early|given")])

P("C07", "cli2", "What a response is never depends on how it arrives",
  "However the bytes of a response are split over reads, with or without pauses in between, the caller gets the same status, headers, body and trailers, and the connection is reusable for the next exchange or not all the same.",
  ["schedules", "inputs"], "six responses (length, chunked with extension and trailers, informational, until close, HTTP/1.0, empty) x every one and two (thorough: three) cut positions, or every n bytes, x pause or not; 5 responses with an arbitrary byte at every position and 1-5 arbitrary bytes, compared with the same bytes in one piece",
  "Each cut position is a different path through the parsers.",
  ["src/proto/h1/conn.rs", "src/proto/h1/io.rs", "src/proto/h1/decode.rs", "src/proto/h1/role.rs"],
  [("head reading", "src/proto/h1/io.rs Buffered::parse"), ("body decoding", "src/proto/h1/decode.rs"), ("informational loop", "src/proto/h1/role.rs Client::parse")],
  [E("c07_one", "one cut", "chunked|close|empty|informational|length|old"),
   E("c07_two", "two cuts", "chunked|close|empty|informational|length|old"),
   E("c07_drip", "every 1-9 bytes", "chunked|close|empty|informational|length|old"),
   E("c07_any", "an arbitrary byte anywhere in 5 responses, a cut up to 2 bytes away, GET and HEAD", "delivered|malformed"),
   E("c07_bits", "up to 5 arbitrary bytes alone, or 3 before a response, cut in every way", "delivered|malformed"),
   E("c07_any2", "2 arbitrary bytes anywhere in 5 responses, a cut inside or beside them", "delivered|malformed", thorough=True, time=400),
   E("c07_any_far", "an arbitrary byte anywhere in 5 responses, a cut anywhere", "delivered|malformed", thorough=True, time=400),
   E("c07_three", "three cuts", "chunked|close|empty|informational|length|old", thorough=True, time=600)])

P("C08", "cli2", "A response cut off anywhere never looks complete",
  "If the server closes or resets the connection after any byte of a response, a head that is cut off fails the request as incomplete, a body that is cut off fails instead of ending (unless it is delimited by the close), a complete response is delivered completely, and the connection finishes, giving back what was never written.",
  ["crash_points", "schedules"], "close or reset after every byte of six responses x at once or later x request body still being sent or not x another request waiting or not",
  "Tests close at a few chosen points only.",
  ["src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs", "src/proto/h1/decode.rs", "src/client/dispatch.rs"],
  [("end of input", "src/proto/h1/conn.rs on_read_head_error, mid_message_detect_eof"), ("body end", "src/proto/h1/decode.rs"), ("waiting requests", "src/client/dispatch.rs")],
  [E("c08_cut", "every byte of six responses x 2 x 2 x 2 x 2", "body cut off|body in flight|complete|given back|head cut off|until close"),
   E("c08_dropped", "the application drops the connection after any prefix of six responses, the body read before or after", "body cut off|complete|given back|head cut off")])

P("C09", "cli2", "No input makes a client connection panic, hang or deliver nonsense",
  "Whatever bytes a server sends in answer to a request, the connection neither panics nor spins nor waits after the peer has closed, and the request gets an outcome: a response only if a well-formed one was received, a parse error at once if it is malformed.",
  ["inputs"], "1-6 arbitrary bytes (thorough 8), alone or with up to 2 (3) of them in front of a response; two arbitrary bytes at every position of four responses",
  "Tests feed known-bad inputs; the property is about all of them.",
  ["src/proto/h1/role.rs", "src/proto/h1/io.rs", "src/proto/h1/conn.rs", "src/proto/h1/dispatch.rs"],
  [("head parsing", "src/proto/h1/role.rs Client::parse"), ("error handling", "src/proto/h1/conn.rs on_read_head_error"), ("outcome", "src/proto/h1/dispatch.rs Client::recv_msg")],
  [E("c09_free", "1-6 arbitrary bytes, or 1-2 before a response", "free|incomplete|malformed|delivered"),
   E("c05_hole2", "2 arbitrary bytes at every position of four responses", "delivered|incomplete|informational|malformed|rejected"),
   E("c09_free3", "1-8 arbitrary bytes, or 1-3 before a response", "free|incomplete|malformed|delivered", thorough=True)])

P("C10", "cli2", "Informational responses are reported once and never end an exchange",
  "Every 1xx response other than 101 is given once, in order and with its headers, to the callback of the request it belongs to, and to no other; the exchange goes on until its final response, which is delivered untouched, and the connection stays reusable.",
  ["inputs", "schedules"], "0-2 (thorough: 3) informational responses of 4 statuses with or without a header x 4 kinds of final response x every cut x callback or not x request body waiting or not x a second exchange",
  "They arrive in any number and at any place in the buffer, often together with the final response.",
  ["src/proto/h1/role.rs", "src/proto/h1/conn.rs", "src/ext/informational.rs"],
  [("loop over heads", "src/proto/h1/role.rs Client::parse"), ("callback", "src/ext/informational.rs"), ("callback of the request", "src/proto/h1/conn.rs on_informational")],
  [E("c10_info", "0-2 informational responses, one cut", "cut off|malformed|reused|until close"),
   E("c10_info2", "0-1 informational responses, two cuts", "cut off|malformed|reused|until close"),
   E("c10_info3", "0-3 informational responses, one cut", "cut off|malformed|reused|until close", thorough=True, time=600)])

P("C11", "cli2", "Request heads are written exactly as given",
  "The client writes the method, target and version and one line for every header value it was given, in order within a name and byte for byte, spelled as configured (lower case, title case, or as originally received when forwarded), and nothing else; no byte of any of them can add a line or end the head.",
  ["inputs", "configurations"], "2-4 arbitrary bytes in method, target (origin and absolute form), header name or value; 1-3 forwarded lines with arbitrary spelling, 0-2 own lines, 4 spelling settings, 2 versions",
  "Header injection needs one unusual byte in the right place.",
  ["src/proto/h1/role.rs", "src/ext/mod.rs", "src/client/conn/http1.rs"],
  [("head writing", "src/proto/h1/role.rs Client::encode, write_headers, write_headers_title_case, write_headers_original_case"), ("original spelling", "src/ext/mod.rs HeaderCaseMap")],
  [E("c11_bytes", "2-4 arbitrary bytes in method, target, name or value", "absolute target|method|name|target|value"),
   E("c11_many", "1-3 forwarded lines, 0-2 own lines, 4 settings", "lower|preserve|preserve, title|title")])

P("C12", "cli2", "A client connection is reused exactly when both sides allow it",
  "After an exchange the connection takes another request if neither the request nor the response said close and the response's version allows it, however the Connection lines are written; otherwise it is closed. A response body the caller did not read is skipped or the connection closed, never taken for the next response.",
  ["inputs", "histories"], "8 Connection values of the request x one line (3 of them: two lines; thorough: three lines) of 8 values in the response x HTTP versions x 3 bodies, partly arrived, read, dropped or partly read, x a second exchange",
  "A wrong decision only shows on the next exchange.",
  ["src/proto/h1/conn.rs", "src/proto/h1/role.rs", "src/headers.rs", "src/proto/h1/dispatch.rs"],
  [("keep-alive state", "src/proto/h1/conn.rs KA, try_keep_alive, enforce_version"), ("Connection tokens", "src/headers.rs connection_close"), ("unread bodies", "src/proto/h1/conn.rs poll_drain_or_close_read")],
  [E("c12_reuse", "8 request values (alone or after another line) x one response line x versions x bodies x readers", "closed by both|closed by the client|closed by the server|closed with an unread body|reused|reused with an unread body"),
   E("c12_lines", "3 request values x two response lines", "closed by both|closed by the client|closed by the server|closed with an unread body|reused|reused with an unread body"),
   E("c12_three", "2 request values x three response lines", "closed by both|closed by the client|closed by the server|closed with an unread body|reused|reused with an unread body", thorough=True)])

# ------------------------------------------------------------------ HTTP/2 server
P("H01", "h2s", "HTTP/2 response bodies arrive exactly, within flow control",
  "Over HTTP/2 the client receives exactly the frames a response body produces: all data in order, then the trailers, then the end of the stream, with content-length announced exactly when the body knows its length; a body that fails resets the stream instead of ending it. Data is sent only within the stream and connection windows, is not withheld (or lost) when the windows allow it, is not read far ahead of them, and a response that waits or stalls does not hold up another one.",
  ["programs", "schedules", "inputs"], "bodies of up to 2 data frames of sizes 0, 1, 3 with every kind of ending, initial windows 0-65535, every sequence of up to 3 small window updates; two responses competing for 0-2 bytes of connection window beside a stalled third; transports that block anywhere in a frame",
  "Flow-control accounting is a history property: each test uses windows that never close, or one fixed pattern of updates.",
  ["src/proto/h2/mod.rs", "src/proto/h2/server.rs"], [("body to stream pump", "src/proto/h2/mod.rs PipeToSendStream::poll"), ("response stream", "src/proto/h2/server.rs H2Stream::poll2")],
  [E("h01_one", "one response: up to 2 data frames of 0, 1 or 3 arbitrary bytes, 5 endings (plain, end of stream indicated, exact length, trailers, error), initial window 0, 1, 2, 4 or 65535, up to 3 window updates of 1-3", "failed body|trailers|length|complete|window closed"),
   E("h01_io", "one response, transport blocking at 4 points of its output and taking 7 bytes at a time", "failed body|trailers|length|complete"),
   E("h01_share", "two responses of up to 2 frames of 1 or 3 bytes, 0-2 bytes of connection window left, stream windows large or 2, 2 orders, 1 window update of 1, 3 or 20", "complete|connection window closed"),
   E("h01_stall", "the same with a third response whose body stalls in between", "complete|connection window closed|stalled body"),
   E("h01_share3", "two responses, 3 window updates", "complete|connection window closed", thorough=True)])

P("H02", "h2s", "HTTP/2 response heads carry only fields HTTP/2 allows",
  "Whatever fields a service sets, an HTTP/2 response head contains no connection-specific field (connection, keep-alive, proxy-connection, transfer-encoding, upgrade, te) nor any field a connection field names, on whichever of several lines, and keeps all others unchanged; trailers with such fields are not sent. Responses to HEAD and 204 and 304 responses end with their head, without data, and drop the body.",
  ["inputs", "programs"], "up to 3 arbitrary bytes of connection field value, or 2 lines of up to 2, beside other connection-specific fields; every method, status and body kind",
  "Tests send one fixed list of connection headers.",
  ["src/proto/h2/mod.rs", "src/proto/h2/server.rs"], [("removal of connection-specific fields", "src/proto/h2/mod.rs strip_connection_headers"), ("responses without a body", "src/proto/h2/server.rs H2Stream::poll2")],
  [E("h02_nobody", "3 methods x 5 statuses x bodies of up to 1 frame with 5 endings x 3 own content-lengths", "no body|body"),
   E("h02_fields1", "up to one connection field of 3 arbitrary printable bytes, none, one or all of 4 other connection-specific fields twice, 3 te values", "nominated|sent"),
   E("h02_fields2", "up to two connection fields of 2 arbitrary printable bytes", "nominated|sent|two connection fields"),
   E("h02_trailers", "the same fields in trailers (one connection field of 2 bytes)", "bad trailers|sent")],
  ["content-length chosen by the service itself on a response without a body is not judged"])

P("H03", "h2s", "HTTP/2 request bodies are exact, complete and flow-controlled",
  "A service sees exactly the data and trailers the client sent on the stream; a body ends cleanly only when the client ended the stream and any announced length matches, so a request that is reset, cut off by the transport or of the wrong length fails instead of looking complete. Windows given to the client are the configured ones, are reopened as a body is read, and the connection window is given back whatever becomes of a body (read, dropped, unread, reset).",
  ["programs", "histories", "inputs"], "bodies of up to 2 frames of sizes 0, 1, 3, with padding, 7 endings, 4 announced lengths, reading pauses anywhere; every stream window 1-8 with any frame sizes; every history of 5 bodies with 6 fates; arbitrary settings values",
  "Tests cover a handful of bodies with windows that never fill.",
  ["src/body/incoming.rs", "src/proto/h2/server.rs", "src/proto/h2/ping.rs"], [("HTTP/2 body reading", "src/body/incoming.rs poll_frame / is_end_stream / size_hint"), ("request intake", "src/proto/h2/server.rs poll_server"), ("settings", "src/proto/h2/server.rs Server::new")],
  [E("h03_body1", "up to 1 data frame of 0, 1 or 3 arbitrary bytes, padding, 7 endings (with the last frame, empty frame, trailers, none, 3 reset codes, reset without error, transport closed), 4 announced lengths, pauses", "complete|cut off|open|refused|trailers"),
   E("h03_body2", "up to 2 data frames", "complete|cut off|open|refused|trailers"),
   E("h03_echo5", "a body streamed back as it comes: 5 steps of 6 kinds (data, window, end, trailers, reset), each alone or together with the next, windows 3 or 65535 / 0, 2 or 65535, with and without content-length", "complete|reset|waiting for the client"),
   E("h03_echo7", "7 steps", "complete|reset|waiting for the client", thorough=True, time=600),
   E("h03_window", "stream windows 1-8, 12 bytes, the first 3 frames of any size the window allows", "window reopened"),
   E("h03_connwindow", "every history of 5 requests with 32000-byte bodies: read, dropped, read in part, service fails, unread then reset, reset while read", "all given back", time=600),
   E("h03_settings", "arbitrary stream window, connection window, frame size, stream limit, header list size", "settings")],
  ["a client that ends its request body with RST_STREAM(NO_ERROR) ends it cleanly (documented in the code), and is not judged"])

P("H04", "h2s", "HTTP/2 streams are isolated, and die with their client",
  "What happens to one HTTP/2 request - a client reset, a service error, a failing body, a slow service - changes neither the other requests in progress nor later ones nor the connection. When the client resets a stream, its service call and response body are dropped without waiting; when the transport ends or fails, or the connection is dropped, everything on it is dropped, nothing keeps running, and failures are reported.",
  ["histories", "fault_sequences", "schedules"], "every combination of 7 service behaviours and 4 client behaviours on 2 (thorough 3) concurrent streams with 3 reset codes, and 4 ways for the transport to die at 3 points",
  "Tests reset a single stream at a single point.",
  ["src/proto/h2/server.rs", "src/proto/h2/mod.rs"], [("stream task", "src/proto/h2/server.rs H2Stream"), ("cancellation of a body", "src/proto/h2/mod.rs PipeToSendStream::poll")],
  [E("h04_two", "2 streams: 7 services (answers, later, fails, streams, streams then fails, reads first, fails later) x 4 clients (waits, resets at once, later, at the end) each, 3 reset codes", "cancelled|service error|body error|complete"),
   E("h04_race", "a request or CONNECT to one of 4 services, reset with any code before or as it is answered, before or after it was seen, tasks polled in any order", "request|tunnel"),
   E("h04_dead", "2 streams of 7 services; transport closed, read error, write error or connection dropped; before the preface, after it, after the requests", "dropped|dead"),
   E("h04_three", "3 streams", "cancelled|service error|body error|complete", thorough=True)])

P("H05", "h2s", "HTTP/2 graceful shutdown finishes what was accepted",
  "After graceful_shutdown an HTTP/2 server connection tells the client with GOAWAY(NO_ERROR), finishes every request the client sent before being told a last stream, serves none above that stream, then shuts the transport down and completes without an error; without being asked, it stays open.",
  ["histories", "schedules"], "every interleaving of up to 7 (thorough 9) steps: new request, response finishes, shutdown, the client answers the shutdown ping; shutdown also before the preface",
  "The guarantee is about every interleaving of requests, answers and the shutdown handshake.",
  ["src/proto/h2/server.rs", "src/server/conn/http2.rs"], [("graceful shutdown", "src/proto/h2/server.rs Server::graceful_shutdown / poll"), ("connection future", "src/server/conn/http2.rs Connection")],
  [E("h05_steps", "every sequence of 7 steps of 4 kinds, shutdown before the preface or not", "finished|not served|shut down"),
   E("h05_long", "every sequence of 9 steps", "finished|not served|shut down", thorough=True)])

P("H06", "h2s", "HTTP/2 keep-alive pings idle peers and ends only dead ones",
  "With keep-alive configured, a server connection sends a ping exactly when nothing was heard for the interval, ends with a timeout error exactly when the ping stays unanswered for the timeout, and a connection whose client answers or is active is never closed; requests cut off by the timeout fail instead of looking complete.",
  ["schedules", "histories"], "interval 5 ms, timeout 3 ms, every schedule of up to 3 (thorough 4) client actions (pong, new request, body data, unrelated frames) within 14 (17) ms, time in steps of 1 ms",
  "Timers and pings race; tests check one idle connection and one that answers.",
  ["src/proto/h2/ping.rs", "src/proto/h2/server.rs"], [("keep-alive", "src/proto/h2/ping.rs KeepAlive / Ponger::poll"), ("use in the server", "src/proto/h2/server.rs poll_ping / poll_server")],
  [E("h06_three", "3 client actions at any of 14 ms", "answered|data|never idle|pinged|timed out"),
   E("h06_connect", "2 client actions at any of 13 ms, the request opens a tunnel", "answered|data|pinged|timed out"),
   E("h06_four", "4 client actions at any of 17 ms", "answered|data|never idle|pinged|timed out", thorough=True)],
  ["a client action at the very instant a timer fires may fall on either side of it", "frames that carry no request (a ping of the client, a window update) need not count as activity"])

P("H07", "h2s", "HTTP/2 CONNECT tunnels carry bytes exactly, both ways",
  "A CONNECT request (also extended, with its protocol) answered with success becomes a tunnel: the service reads exactly what the client sends, then a clean end only if the client ended its side; the client gets exactly what the service writes, within the windows, then the end when the service shuts it down. A refused CONNECT is an ordinary response; other requests on the connection are never affected.",
  ["programs", "inputs", "schedules"], "up to 2 (thorough 4) bytes written and 2 (3) sent, windows 0, 1 and 65535, read sizes 1, 2, 16, 4 ways for the client to end, 3 statuses, extended or not",
  "Tests send one fixed exchange over a tunnel with an open window.",
  ["src/proto/h2/upgrade.rs", "src/proto/h2/server.rs"], [("tunnel", "src/proto/h2/upgrade.rs UpgradedSendStreamTask / H2Upgraded"), ("CONNECT in the server", "src/proto/h2/server.rs poll_server / poll2")],
  [E("h07_small", "2 bytes written, 2 bytes sent in up to 2 frames, empty frames, 3 windows, 3 read sizes, client ends, resets, cancels or goes away", "tunnel|cut off|declined|refused|window"),
   E("h07_window", "stream windows of 1-8 bytes, reads of 1-5 bytes, 12 bytes in frames of any size", "window reopened"),
   E("h07_more", "4 bytes written, 3 sent", "tunnel|cut off|declined|refused|window", thorough=True)],
  ["a tunnel the client cancels (RST_STREAM CANCEL) reads as ended (deliberate in the code) and is not judged"])


P("H08", "h2c", "HTTP/2 requests are sent exactly, and in a form HTTP/2 allows",
  "An HTTP/2 client sends exactly the request it was given: method, target, fields (without connection-specific fields, fields a connection field names, or te other than trailers, on whichever of several lines), then the data its body produces, trailers and the end of the stream, with content-length exactly when the body knows its length; a body that fails resets the stream instead of ending it. Data stays within the windows, is not withheld when they allow it, is not read far ahead, and a response may arrive first.",
  ["inputs", "programs", "schedules"], "bodies of up to 2 frames with every kind of ending, initial windows 0-65535, 2 window updates of 1-3; arbitrary bytes in target, field name, field value; up to 2 connection fields and 2 te fields; transports that block anywhere in a frame",
  "Tests send one fixed request, with windows that never close.",
  ["src/proto/h2/client.rs", "src/proto/h2/mod.rs"], [("request intake", "src/proto/h2/client.rs ClientTask::poll / poll_pipe"), ("body to stream pump", "src/proto/h2/mod.rs PipeToSendStream::poll"), ("removal of connection-specific fields", "src/proto/h2/mod.rs strip_connection_headers")],
  [E("h08_one", "one request: 2 methods, up to 2 data frames of 0, 1 or 3 arbitrary bytes, 5 endings, initial window 0, 1, 2, 4 or 65535, up to 2 window updates of 1-3, response before or after the body", "failed body|trailers|length|complete|window closed|response first"),
   E("h08_io", "the same, transport blocking at 4 points of its output and taking 7 bytes at a time", "failed body|trailers|length|complete"),
   E("h08_fields1", "up to one connection field of 3 arbitrary printable bytes, other connection-specific fields, up to 1 te field of 3 values", "nominated|sent|te"),
   E("h08_fields2", "up to two connection fields of 1 arbitrary byte and two te fields", "nominated|sent|te|two connection fields"),
   E("h08_target", "4 methods, 2 schemes, 3 authorities, 4 forms of target with an arbitrary byte", "sent"),
   E("h08_field", "one field with an arbitrary name or value byte, 2 versions", "sent")],
  ["connection field values with bytes outside visible ASCII are not judged", "a target with a query but no path (http://h?q) is not judged: the h2 crate composes it"])

P("H09", "h2c", "HTTP/2 responses reach the right caller, exact and complete",
  "Each HTTP/2 response reaches the caller whose stream it came on, with exactly the status, fields, data and trailers the server sent; a body ends cleanly only when the server ended the stream and an announced length matches, so a response reset, cut off or of the wrong length fails instead of looking complete. Announced settings and windows are the configured ones, windows are reopened as a body is read, and the connection window is given back whatever becomes of a body.",
  ["histories", "inputs", "schedules"], "bodies of up to 2 frames with 7 endings and 4 announced lengths; every interleaving of the answers of 2 requests (6 answers each way) and of 3; every window 1-8; every history of 5 bodies with 6 fates; arbitrary settings values",
  "Tests answer one request at a time, in order, with small bodies.",
  ["src/proto/h2/client.rs", "src/body/incoming.rs"], [("response delivery", "src/proto/h2/client.rs ResponseFutMap::poll"), ("HTTP/2 body reading", "src/body/incoming.rs poll_frame")],
  [E("h09_body1", "one response: informational one first or not, up to 1 frame of 0, 1 or 3 arbitrary bytes, 7 endings, 4 announced lengths, reading pauses", "complete|cut off|open|refused|trailers|wrong length"),
   E("h09_body2", "up to 2 frames", "complete|cut off|open|refused|trailers|wrong length"),
   E("h09_two", "2 requests, up to 1 frame each, 5 endings, every interleaving", "all|complete|cut off|open|trailers"),
   E("h09_three", "3 requests, 3 endings, every interleaving", "all|complete|cut off|open|trailers"),
   E("h09_nobody", "GET and HEAD x 200, 204, 304 x 3 content-lengths x 2 ways to end", "no body|missing body"),
   E("h09_window", "stream windows 1-8, 12 bytes, the first 3 frames of any size the window allows", "window reopened"),
   E("h09_connwindow", "every history of 5 responses of 32000 bytes: read, dropped, read in part, request dropped before, unread then reset, reset while read", "all given back"),
   E("h09_settings", "arbitrary stream window, connection window, frame size, header list size", "settings")],
  ["a response ended by RST_STREAM(NO_ERROR) is not judged", "204 and 304 responses that announce a length and end with an empty DATA frame are not judged (h2 crate strictness)"])

P("H10", "h2c", "Every HTTP/2 request gets exactly one outcome",
  "Each request given to an HTTP/2 client ends in exactly one outcome: its response, or an error as soon as no response can come (reset, GOAWAY, transport lost, connection closed) - and never before; a request on a closed connection is given back. No more streams are open than the server allows and waiting requests are sent when there is room; a dropped request is cancelled on its stream alone; a connection nobody can use any more finishes the exchanges in progress and ends without an error.",
  ["histories", "fault_sequences"], "every sequence of 6 (thorough 7) events of 9 kinds: request, response head, rest, reset, drop, GOAWAY of all or after the first stream, transport closed, handle dropped; with 3 stream limits and 3 kinds of request body",
  "Tests try these events one at a time; races between them are left to chance.",
  ["src/proto/h2/client.rs", "src/client/dispatch.rs", "src/client/conn/http2.rs"], [("request intake and connection end", "src/proto/h2/client.rs ClientTask / ConnTask"), ("outcome delivery", "src/client/dispatch.rs Callback / SendWhen")],
  [E("h10_steps", "4 events, up to 3 requests", "cancelled|failed|given back|go away|idle|never sent|reset|unused|waiting"),
   E("h10_long", "6 events, up to 3 requests", "cancelled|failed|given back|go away|idle|never sent|reset|unused|waiting"),
   E("h10_longer", "7 events, up to 3 requests", "cancelled|failed|given back|go away|idle|never sent|reset|unused|waiting", thorough=True)],
  ["requests still waiting for a stream when GOAWAY arrives may be sent or fail, but get an outcome", "dropping a response body while the request body is still being sent need not cancel the upload"])

P("H11", "h2c", "HTTP/2 client tunnels carry bytes exactly, both ways",
  "A CONNECT request (also extended, with its protocol) carries only the pseudo fields HTTP/2 asks for; a successful answer makes it a tunnel over which the caller reads exactly what the server sends and a clean end only if the server ended its side, and the server gets exactly what is written, within its window, then the end. A declined CONNECT is an ordinary response, and other requests on the connection never suffer.",
  ["programs", "inputs", "schedules"], "up to 2 (thorough 4) bytes written and 2 (3) sent, windows 0, 1 and 65535, read sizes 1, 2, 16, 3 statuses, 3 content-lengths, 3 ways for the server to end, extended or not",
  "Tests send one fixed exchange over a tunnel with an open window.",
  ["src/proto/h2/client.rs", "src/proto/h2/upgrade.rs"], [("CONNECT answers", "src/proto/h2/client.rs ResponseFutMap::poll"), ("tunnel", "src/proto/h2/upgrade.rs")],
  [E("h11_small", "2 bytes written, 2 bytes sent in up to 2 frames, empty frames, 3 windows, 3 read sizes", "cut off|declined|refused|tunnel|window"),
   E("h11_window", "stream windows of 1-8 bytes, reads of 1-5 bytes, 12 bytes in frames of any size", "window reopened"),
   E("h11_more", "4 bytes written, 3 sent", "cut off|declined|refused|tunnel|window")],
  ["a tunnel cancelled with RST_STREAM(CANCEL) reads as ended (deliberate in the code) and is not judged"])

P("H12", "h2c", "HTTP/2 client keep-alive ends only dead connections",
  "With keep-alive configured, an HTTP/2 client pings exactly when nothing was heard for the interval (only with requests in progress, unless told to ping while idle), fails the connection and every request and response body on it with a timeout exactly when the ping stays unanswered for the timeout, and never closes a connection whose server answers or is active.",
  ["schedules", "histories"], "interval 5 ms, timeout 3 ms, every schedule of up to 3 (thorough 4) actions (pong, response head, data, end, new request) within 14 (17) ms in steps of 1 ms, pinging while idle or not",
  "Timers, pings and answers race; tests check one silent and one answering server.",
  ["src/proto/h2/ping.rs", "src/proto/h2/client.rs"], [("keep-alive", "src/proto/h2/ping.rs KeepAlive / Ponger::poll"), ("use in the client", "src/proto/h2/client.rs ConnMapErr / ResponseFutMap")],
  [E("h12_three", "3 actions at any of 14 ms", "answered|data|no ping|pinged|request timed out|response timed out|timed out"),
   E("h12_four", "4 actions at any of 17 ms", "answered|data|no ping|pinged|request timed out|response timed out|timed out")],
  ["an action at the very instant a timer fires may fall on either side of it"])

P("H13", "h2s", "A broken HTTP/2 client never takes the server down",
  "Whatever frames a client sends - any type, flags, stream and payload - the HTTP/2 server never panics or hangs: it either goes on, and then serves orderly requests on the connection, or ends the connection and tells why (GOAWAY or an error). Nothing is served that was not requested and nothing keeps running after the connection ended.",
  ["inputs", "histories"], "one frame of any of 11 types, arbitrary flags, 5 streams and arbitrary payload (header blocks of up to 1, thorough 2 bytes, other types at and just below their size), after the preface or instead of settings; thorough: two frames",
  "Frame parsing state depends on every bit of type, flags, stream and payload; tests send a few chosen bad frames.",
  ["src/proto/h2/server.rs", "src/proto/h2/mod.rs"], [("connection driver", "src/proto/h2/server.rs Serving::poll_server"), ("error mapping", "src/error.rs")],
  [E("h13_one", "one arbitrary frame, header block payloads of up to 1 byte", "goes on|refused|served|told"),
   E("h13_race", "a request or CONNECT reset before or as it is answered, tasks polled in any order", "request|tunnel"),
   E("h13_more", "header block payloads of up to 2 bytes", "goes on|refused|served|told", thorough=True, time=300),
   E("h13_two", "two frames, 4 flag combinations, 3 streams, header block payloads of up to 1 byte", "goes on|refused|served|told", thorough=True, time=900)])

P("H14", "h2c", "A broken HTTP/2 server never hangs or fools a client",
  "Whatever frames a server sends - any type, flags, stream and payload, before or after its settings, with a request waiting or a response in progress - the HTTP/2 client never panics or hangs: it either goes on, and then delivers orderly responses, or ends the connection with a reason. Every request gets an outcome, no response looks complete that the server did not end, and nothing keeps running after the connection ended.",
  ["inputs", "histories"], "one frame of any of 11 types, arbitrary flags, 5 streams and arbitrary payload (header blocks of up to 1, thorough 2 bytes), at 3 points of an exchange",
  "Tests send a few chosen bad frames.",
  ["src/proto/h2/client.rs", "src/client/dispatch.rs"], [("connection driver", "src/proto/h2/client.rs ConnTask / ClientTask"), ("outcome delivery", "src/client/dispatch.rs")],
  [E("h14_one", "one arbitrary frame at 3 points, header block payloads of up to 1 byte", "goes on|refused|served|failed|fails later"),
   E("h14_more", "header block payloads of up to 2 bytes", "goes on|refused|served|failed|fails later", thorough=True, time=600)])

P("X01", "par", "Threads sharing an HTTP/1 connection never lose or damage anything",
  "Whatever the interleaving of an HTTP/1 connection's task with tasks on another thread that read or drop its bodies, submit requests, drop response futures or handles, or await upgrades, nothing is lost, damaged, delivered twice or left waiting: every request gets its outcome, every body its bytes and its end, every upgrade its answer, and no wake-up is missed. Nothing deadlocks or panics.",
  ["schedules", "fault_sequences"], "two threads, every interleaving of atomic operations with up to 2 (thorough 3) preemptions; 4 request body forms read, dropped or cut off; 2 client requests with 5 fates; upgrades accepted and refused",
  "A lost wake-up needs another thread to run between two particular instructions; tests hit that by chance if ever.",
  ["src/common/watch.rs", "src/body/incoming.rs", "src/client/dispatch.rs", "src/upgrade.rs", "src/proto/h1/dispatch.rs"], [("request body hand-over", "src/body/incoming.rs / src/common/watch.rs"), ("request intake", "src/client/dispatch.rs Sender / Receiver"), ("upgrade hand-over", "src/upgrade.rs")],
  [E("x01_body", "4 body forms read on the other thread, the response waits or not, 2 preemptions", "read"),
   E("x01_drop", "body dropped at once or after a frame, 2 preemptions", "dropped"),
   E("x01_cut", "client goes away inside the body, 2 preemptions", "cut off"),
   E("x01_client", "2 requests, 5 fates, with and without waiting for readiness, 1 preemption", "answered|failed|given back"),
   E("x01_client2", "as x01_client, 2 preemptions", "answered|failed|given back", thorough=True, time=500),
   E("x01_upgrade", "accepted and refused upgrade, 2 preemptions", "upgraded|refused"),
   E("x01_body3", "2 body forms, 3 preemptions", "read", thorough=True, time=400),
   E("x01_drop3", "2 body forms, 3 preemptions", "dropped", thorough=True, time=400),
   E("x01_upgrade3", "3 preemptions", "upgraded|refused", thorough=True)],
  ["sequentially consistent memory: effects of weaker orderings are not explored", "two threads; a thread takes any woken task the first two times there is a choice, the first one after that"])

P("X02", "par", "Threads sharing an HTTP/2 connection never lose or damage anything",
  "Whatever the interleaving of an HTTP/2 connection's tasks with tasks on another thread that submit or drop requests, read or drop bodies, or use tunnels, nothing is lost, damaged or left waiting: every request gets exactly one outcome, every body and tunnel its bytes and its end, resets, GOAWAY, shutdown and a lost transport reach everyone concerned, and the connection ends when nobody can use it. Nothing deadlocks or panics.",
  ["schedules", "fault_sequences"], "two threads, every interleaving of atomic operations with 1 (thorough 2) preemptions; 2 client requests with 6 fates, before or while they are answered; server request bodies with 5 fates; tunnels on both sides with 5 fates",
  "A lost wake-up needs another thread to run between two particular instructions; tests hit that by chance if ever.",
  ["src/client/dispatch.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/proto/h2/upgrade.rs", "src/proto/h2/ping.rs", "src/upgrade.rs"], [("request intake", "src/client/dispatch.rs UnboundedSender / Receiver"), ("tunnels", "src/proto/h2/upgrade.rs"), ("body accounting", "src/proto/h2/ping.rs Recorder")],
  [E("x02_submit", "2 requests submitted, 6 fates, 1 preemption", "answered|failed|given back"),
   E("x02_answer", "2 responses arriving, 6 fates, 1 preemption", "answered"),
   E("x02_body", "a request body read on the other thread, 5 fates, with and without pings, 1 preemption", "served|dropped|cut off"),
   E("x02_tunnel", "server tunnel, 5 fates, 1 preemption", "tunnel|dropped|cut off|written"),
   E("x02_tunnel_client", "client tunnel, 5 fates, 1 preemption", "tunnel|dropped|cut off|written|cancelled"),
   E("x02_body2", "as x02_body, 2 preemptions", "served|dropped|cut off", thorough=True, time=300),
   E("x02_answer2", "as x02_answer, 2 preemptions", "answered", thorough=True, time=900)],
  ["sequentially consistent memory: effects of weaker orderings are not explored", "two threads; a thread takes any woken task the first two times there is a choice, the first one after that", "the h2 crate's own locking is executed as compiled"])


P("R01", "h2s", "Read buffers and transport traits lose and expose nothing",
  "A read buffer handed to a transport shows exactly the bytes that were put into it, in order, whatever sequence of its operations put them there: never memory that was not written, and never a byte outside it. A connection behaves the same whichever way its transport fills those buffers, accepts writes, or is boxed, pinned or borrowed; flush and shutdown always reach it, and a Sleep is only ever taken for its own type.",
  ["programs", "inputs"], "every sequence of 3 (thorough 4) ReadBuf/ReadBufCursor operations with arbitrary bytes; 5 ways to fill a buffer x vectored or not x boxed, pinned or borrowed, under HTTP/1 and HTTP/2 connections; downcasts of 2 Sleep types",
  "The buffers are unsafe code with several ways to mark bytes filled or initialised; hyper's tests use only tokio's adapter.",
  ["src/rt/io.rs", "src/rt/timer.rs", "src/common/io/compat.rs"],
  [("read buffer", "src/rt/io.rs ReadBuf, ReadBufCursor"), ("forwarding implementations", "src/rt/io.rs deref_async_read, deref_async_write"), ("adapter for HTTP/2", "src/common/io/compat.rs"), ("Sleep downcast", "src/rt/timer.rs")],
  [E("r01_buf", "3 operations of all kinds on a buffer of symbolic initial state", "full|room"),
   E("r01_h1", "an HTTP/1 exchange over transports of every shape", "plain|vectored"),
   E("r01_h2", "an HTTP/2 exchange over transports of every shape", "small writes|whole writes"),
   E("r01_sleep", "downcasts and reset of Sleep objects", "sleep"),
   E("r01_buf4", "4 operations", "full|room", thorough=True)],
  ["the engine marks memory never written as undefined and reports any branch or output that depends on it"])

P("H15", "h2s", "An HTTP/2 client cannot make a server hold more than allowed",
  "The HTTP/2 server's limits are exact: no more requests run at once than max_concurrent_streams and the next one is refused alone, a head above max_header_list_size never reaches the service, a client that resets or breaks more streams than allowed is told to calm down and disconnected while one within the limit is not, and no more of a response is taken in than the send buffer holds. Adaptive windows follow what is measured, never shrink, never stop an upload that is read, and what is announced is what is configured.",
  ["histories", "configurations", "inputs"], "every history of 5 (thorough 7) openings, answers and resets under limits of 1 and 2; heads from 1 below to 60 above the limit in 1 or 2 frames; up to limit+1 resets and 3 kinds of stream errors under limits 0-3 and the defaults; 4 send buffers on a stuck transport; 2 (thorough 3) samples of 5 sizes and 4 round trips; any table size",
  "Tests send one flood each with the default limit; an off-by-one or an option not passed on goes unnoticed.",
  ["src/server/conn/http2.rs", "src/proto/h2/server.rs", "src/proto/h2/ping.rs", "src/proto/h2/mod.rs"],
  [("configuration", "src/server/conn/http2.rs Builder; src/proto/h2/server.rs Config, Server::new"), ("adaptive windows", "src/proto/h2/ping.rs Bdp::calculate, Recorder::record_data"), ("response bodies", "src/proto/h2/mod.rs PipeToSendStream")],
  [E("h15_concurrent", "histories of 5 openings (with and without a body), answers and resets, limit 1 or 2", "answered|refused|reset"),
   E("h15_list", "heads of -1, 0, 1, 2, 60 bytes above the limit, in one frame or two, with a pause, first or second request", "refused|served"),
   E("h15_resets", "0 to limit+1 streams opened and reset at once, limits 0-3 and default", "ended|goes on"),
   E("h15_errors", "0 to limit+1 streams with 3 kinds of error, limits 0-3 and none", "ended|goes on"),
   E("h15_sendbuf", "4 send buffer sizes x 2 frame sizes, 120 kB response, transport stuck at once or after 30 kB", "stuck|stuck later"),
   E("h15_announce", "every header table size, adaptive windows set before or after sizes, unset values", "announced"),
   E("h15_adaptive", "2 samples", "grown|kept"),
   E("h15_concurrent7", "histories of 7 events", "answered|refused|reset", thorough=True),
   E("h15_adaptive3", "3 samples", "grown|kept", thorough=True)],
  ["a head of exactly the limit may be served or refused", "what counts as pending or broken is what the h2 crate counts"])

P("H16", "h2c", "An HTTP/2 client stays within the limits of both sides",
  "An HTTP/2 client opens no more streams than initial_max_send_streams before the server's settings and than the server allows after them, and sends the rest as soon as it may. A response head above max_header_list_size fails only its own request, a server that breaks more streams than allowed is disconnected with an outcome for every request, and no more of a request body is taken in than the send buffer holds. Adaptive windows follow what is measured, and what the client announces and reports of the server is true.",
  ["histories", "configurations", "inputs"], "4 requests under initial limits 0, 1, 2 and default and server limits 1-3 and none, answered in every order; heads from 1 below to 60 above the limit; up to limit+1 stream errors of 3 kinds under limits 0-3; 4 send buffers; 2 (thorough 3) samples of 5 sizes and 4 round trips; any table size and server limit",
  "Tests use the default configuration; an option not passed on goes unnoticed.",
  ["src/client/conn/http2.rs", "src/proto/h2/client.rs", "src/proto/h2/ping.rs"],
  [("configuration", "src/client/conn/http2.rs Builder; src/proto/h2/client.rs Config, new_builder"), ("pending requests", "src/proto/h2/client.rs ClientTask"), ("adaptive windows", "src/proto/h2/ping.rs Bdp::calculate")],
  [E("h16_initial", "4 requests before the settings, 4 initial limits x 4 server limits, every order of answers", "at once|held back"),
   E("h16_list", "heads of -1, 0, 1, 2, 60 bytes above the limit, in one frame or two", "delivered|refused"),
   E("h16_errors", "0 to limit+1 responses with 3 kinds of error, limits 0-3 and none", "ended|goes on"),
   E("h16_sendbuf", "4 send buffer sizes x 2 frame sizes, 120 kB body, transport stuck at once or after 30 kB", "stuck|stuck later"),
   E("h16_announce", "every header table size and server limit, adaptive windows set before or after sizes, extended CONNECT said or not", "announced"),
   E("h16_adaptive", "2 samples", "grown|kept"),
   E("h16_adaptive3", "3 samples", "grown|kept", thorough=True)],
  ["a head of exactly the limit may be delivered or refused"])

for _p in PROPS.values():
    pass
from itertools import chain as _c
GROUPS = list(dict.fromkeys(p["group"] for p in PROPS.values()))
