//! Subscription streams: what a subgraph sends, cut into chunks anywhere, and what the router sends to its client.
use crate::sym;
use bytes::Bytes;
use futures::{Stream, StreamExt};
use hive_router::executor::{executors::{multipart_subscribe, sse}, response::{subgraph_response::SubgraphResponse, value::Value}};
use http_body::{Body, Frame};
use std::{collections::VecDeque, pin::Pin, task::{Context, Poll}};

fn opt(name: &str, alts: &[&str]) -> String { alts[sym::choice(name, alts.len() as u64) as usize].to_string() }

/// a choice about the envelope (group 0) or the content (group 1) of a stream; `vary` tells which of them is made, 2 for both
fn vary(group: u64, name: &str, n: u64) -> u64 { let v = sym::param("vary", 2); if v == 2 || v == group { sym::choice(name, n) } else { 0 } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tail { Open, Close, Fail }
/// the body of a response: chunks, then silence, the end or a failure of the connection
struct Chunks { q: VecDeque<Bytes>, tail: Tail }
impl Body for Chunks {
    type Data = Bytes; type Error = String;
    fn poll_frame(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, String>>> {
        match self.q.pop_front() { Some(b) => Poll::Ready(Some(Ok(Frame::data(b)))), None => match self.tail { Tail::Open => Poll::Pending, Tail::Close => Poll::Ready(None), Tail::Fail => { self.tail = Tail::Close; Poll::Ready(Some(Err("reset".into()))) } } }
    }
}
/// cuts the first `upto` bytes into chunks
fn chunks(text: &[u8], upto: usize, tail: Tail) -> Chunks {
    let cuts: Vec<usize> = match sym::param("cuts", 1) {
        0 => (1..upto).collect(),
        n => { let mut v = vec![]; let mut lo = 0; for i in 0..n { if lo + 1 >= upto { break } let c = lo + 1 + sym::choice(&format!("cut {i}"), (upto - lo) as u64) as usize; if c >= upto { break } v.push(c); lo = c; } v }
    };
    let mut q = VecDeque::new(); let mut at = 0;
    for c in cuts { q.push_back(Bytes::copy_from_slice(&text[at..c])); at = c }
    if at < upto { q.push_back(Bytes::copy_from_slice(&text[at..upto])) }
    Chunks { q, tail }
}
enum End { Done, Waits, Failed(String) }
fn drain<T, E: std::fmt::Display>(mut s: Pin<Box<dyn Stream<Item = Result<T, E>> + Send>>) -> (Vec<T>, End) {
    let mut cx = Context::from_waker(futures::task::noop_waker_ref()); let mut v = vec![];
    loop { match s.as_mut().poll_next(&mut cx) {
        Poll::Ready(Some(Ok(x))) => v.push(x),
        Poll::Ready(Some(Err(e))) => { if !matches!(s.as_mut().poll_next(&mut cx), Poll::Ready(None)) { sym::fail("a stream goes on after it failed") } return (v, End::Failed(e.to_string())) }
        Poll::Ready(None) => return (v, End::Done), Poll::Pending => return (v, End::Waits),
    } if v.len() > 50 { sym::fail("more events than were sent") } }
}
/// `data` is `{"s": <text>}`, or the response has an error with the message
#[derive(Clone)]
enum Want { Text(Vec<u8>), Error(&'static str) }
fn is(r: &SubgraphResponse<'_>, w: &Want) -> bool { match w {
    Want::Text(t) => match &r.data { Value::Object(o) if o.len() == 1 && o[0].0 == "s" => match &o[0].1 { Value::String(s) => s.as_bytes() == &t[..] && r.errors.as_ref().map_or(true, |e| e.is_empty()), _ => false }, _ => false },
    Want::Error(m) => r.data.is_null() && r.errors.as_ref().map_or(false, |e| e.len() == 1 && e[0].message == *m),
} }
/// the text of a string in an event, written as JSON, and its value
fn text(i: usize, two: bool) -> (Vec<u8>, Vec<u8>) {
    let menu: &[(&str, &str)] = &[("?", "?"), ("a: b", "a: b"), ("\\n\\n", "\n\n"), ("é", "é"), ("--graphql", "--graphql"), ("---", "---"), ("\\r\\n\\r\\n--graphql--\\r\\n", "\r\n\r\n--graphql--\r\n"), ("--graphql--", "--graphql--"), ("", "")];
    let (j, v) = menu[vary(1, &format!("text {i}"), if two { menu.len() as u64 } else { 3 }) as usize];
    if j == "?" { let c = sym::ascii(&format!("c{i}"), 2).into_bytes(); for b in &c { sym::assume(*b != b'"' && *b != b'\\') } return (c.clone(), c) }
    (j.into(), v.into())
}
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
fn verdict(name: &str, got: &[SubgraphResponse<'static>], want: &[Want], lo: usize, hi: usize, end: End, tail: Tail, ended: bool, must_end: bool) {
    if got.len() < lo { sym::fail(&format!("{name}: an event is lost or held back")) }
    if got.len() > hi { sym::fail(&format!("{name}: an event too many")) }
    for (g, w) in got.iter().zip(want) { sym::check(is(g, w), "an event is delivered as it was sent, in order") }
    match end {
        End::Failed(_) if tail == Tail::Fail && !must_end => sym::reach("failed"),
        End::Failed(e) => sym::fail(&format!("{name}: a well-formed stream fails: {e}")),
        End::Waits => { if must_end { sym::fail(&format!("{name}: the stream does not end when it is complete")) } if tail != Tail::Open { sym::fail(&format!("{name}: the stream waits after the connection ended")) } sym::reach("waits") }
        End::Done => { if !ended && tail != Tail::Close { sym::fail(&format!("{name}: the stream ends before it is complete")) } sym::reach("ends") }
    }
    if !got.is_empty() { sym::reach("event") }
}
fn plan(len: usize) -> (usize, Tail) {
    match sym::param("mode", 0) {
        0 => (len, match sym::choice("tail", 2) { 0 => Tail::Open, _ => Tail::Close }),
        _ => (1 + sym::choice("length", len as u64) as usize, match sym::choice("tail", 3) { 0 => Tail::Open, 1 => Tail::Close, _ => Tail::Fail }),
    }
}

/// Server-sent events of a subgraph
#[no_mangle]
pub extern "C" fn h_sse_in() {
    let n = sym::param("events", 2) as usize;
    let eol = if sym::choice("eol", 2) == 1 { "\r\n" } else { "\n" };
    let blank = if vary(0, "blank", 2) == 1 { "\r\n" } else { "\n" };
    let mut t: Vec<u8> = vec![]; let mut want = vec![]; let mut ends = vec![];
    for i in 0..n {
        let (j, v) = text(i, i == 0);
        let form = vary(1, &format!("form {i}"), if i == 0 { 8 } else { 3 });
        let e = eol.as_bytes(); let b = blank.as_bytes();
        let ev: Vec<u8> = match form {
            0 => cat(&[b"event: next", e, b"data: {\"data\":{\"s\":\"", &j, b"\"}}", e, b]),
            1 => cat(&[b"event:next", e, b"id: 1", e, b"data:{\"data\":{\"s\":\"", &j, b"\"}}", e, b]),
            2 => cat(&[b":", e, b, b"event: next", e, b"data: {\"data\":{\"s\":\"", &j, b"\"}}", e, b]),
            3 => cat(&[b"data: {\"data\":{\"s\":\"", &j, b"\"}}", e, b"event: next", e, b]),
            4 => cat(&[b"event: next", e, b"data: {\"data\":{", e, b"data: \"s\":\"", &j, b"\"}}", e, b]),
            5 => cat(&[b":data: x", e, b"event: next", e, b": event: complete", e, b"data: {\"data\":{\"s\":\"", &j, b"\"}}", e, b]),
            6 => cat(&[b"event: ping", e, b"data: {\"data\":null}", e, b, b"event: next", e, b"data: {\"data\":{\"s\":\"", &j, b"\"}}", e, b]),
            _ => cat(&[b"event: next", e, b"data: {\"errors\":[{\"message\":\"no\"}]}", e, b]),
        };
        t.extend(ev); want.push(if form == 7 { Want::Error("no") } else { Want::Text(v) }); ends.push(t.len());
    }
    let complete = sym::choice("complete", 2) == 1;
    if complete { t.extend(cat(&[b"event: complete", eol.as_bytes()])); if vary(0, "with data", 2) == 1 { t.extend(cat(&[b"data: ", eol.as_bytes()])) } t.extend(blank.as_bytes()); }
    let done = t.len();
    if complete { t.extend(b"event: next\ndata: {\"data\":{\"s\":\"late\"}}\n\n") }
    let (upto, tail) = plan(t.len());
    let (got, end) = drain(sse::parse_to_stream(chunks(&t, upto, tail), None));
    // a line that ends with \r\n has ended at the \r
    let slack = blank.len() - 1;
    let (lo, hi) = (ends.iter().filter(|e| **e <= upto).count(), ends.iter().filter(|e| **e - slack <= upto).count());
    verdict("SSE", &got, &want, lo, hi, end, tail, complete && upto + slack >= done, complete && upto >= done);
}

/// A multipart subscription of a subgraph
#[no_mangle]
pub extern "C" fn h_multipart_in() {
    let n = sym::param("events", 2) as usize;
    let (head, boundary) = match vary(0, "type", 6) {
        0 => ("multipart/mixed; boundary=graphql", "graphql"), 1 => ("multipart/mixed;boundary=\"graphql\";subscriptionSpec=1.0", "graphql"), 2 => ("multipart/mixed;boundary=\"-\"", "-"),
        3 => ("multipart/mixed; subscriptionSpec=\"1.0\"; Boundary=graphql ; charset=utf-8", "graphql"), 4 => ("multipart/mixed;boundary=gRaph--", "gRaph--"), _ => ("multipart/mixed; boundary=\"a b;c\"", "a b;c"),
    };
    let b = match multipart_subscribe::parse_boundary_from_header(head) { Ok(b) => b, Err(_) => sym::fail("the boundary of the content type is not found") };
    sym::check(b == boundary, "the boundary of the content type");
    let nl = if sym::choice("eol", 2) == 1 { "\n" } else { "\r\n" };
    let e = nl.as_bytes(); let d = cat(&[b"--", boundary.as_bytes()]);
    let mut t: Vec<u8> = vec![]; let mut want = vec![]; let mut ends = vec![];
    match vary(0, "preamble", 3) { 0 => {} 1 => t.extend(e), _ => t.extend(cat(&[b"ignored", e])) }
    t.extend(&d); t.extend(e);
    for i in 0..n {
        let (j, v) = text(i, i == 0);
        let form = vary(1, &format!("form {i}"), if i == 0 { 9 } else { 3 });
        let head = match vary(1, &format!("headers {i}"), if i == 0 { 3 } else { 1 }) { 0 => cat(&[b"content-type: application/json", e, e]), 1 => cat(&[b"Content-Type: application/json; charset=utf-8", e, b"Content-Length: 12", e, e]), _ => e.to_vec() };
        let data = cat(&[b"{\"data\":{\"s\":\"", &j, b"\"}}"]);
        let (parts, w): (Vec<Vec<u8>>, Option<Want>) = match form {
            0 => (vec![data], Some(Want::Text(v))),
            1 => (vec![cat(&[b"{\"payload\":", &data, b"}"])], Some(Want::Text(v))),
            2 => (vec![b"{}".to_vec(), data], Some(Want::Text(v))),
            3 => (vec![cat(&[b"{", e, b"  \"payload\": {", e, b"    \"data\": {", e, e, b"\"s\":\"", &j, b"\"}}", e, b"}"])], Some(Want::Text(v))),
            4 => (vec![b"{\"payload\":null,\"errors\":[{\"message\":\"no\"}]}".to_vec()], Some(Want::Error("no"))),
            5 => (vec![b"{\"payload\":null}".to_vec()], None),
            6 => (vec![b"".to_vec(), data], Some(Want::Text(v))),
            7 => (vec![cat(&[b"{\"extensions\":{\"payload\":1},\"data\":{\"s\":\"", &j, b"\"}}"])], Some(Want::Text(v))),
            _ => (vec![cat(&[b"{\"data\":null,\"errors\":[{\"message\":\"no\"}],\"extensions\":{\"x\":1}}"])], Some(Want::Error("no"))),
        };
        let k = parts.len();
        for (x, p) in parts.into_iter().enumerate() { t.extend(cat(&[&head, &p, e, &d])); if x + 1 == k { if let Some(w) = &w { want.push(w.clone()); ends.push((t.len(), 0)) } } if !(i + 1 == n && x + 1 == k) { t.extend(e) } if x + 1 == k && w.is_some() { ends.last_mut().unwrap().1 = t.len() } }
    }
    let complete = sym::choice("complete", 2) == 1;
    let at = t.len();
    if complete { t.extend(b"--") } else { t.extend(e) }
    if let Some(l) = ends.last_mut() { if l.1 == at && l.0 == at { l.1 = t.len() } }
    let done = t.len();
    if complete { if vary(0, "epilogue", 2) == 1 { t.extend(e) } } else { t.extend(b"content-type: appl") }
    let (upto, tail) = plan(t.len());
    let (got, end) = drain(multipart_subscribe::parse_to_stream(b, chunks(&t, upto, tail), None));
    // a part has ended when the line of the next delimiter has, and not before the delimiter
    let (lo, hi) = (ends.iter().filter(|e| e.1 <= upto).count(), ends.iter().filter(|e| e.0 <= upto).count());
    verdict("multipart", &got, &want, lo, hi, end, tail, complete && upto >= done, complete && upto >= done);
}

// ---------------------------------------------------------------- to the client
/// responses that are ready, moments without one, and the end
struct Source { q: VecDeque<Option<Vec<u8>>>, open: bool }
impl Stream for Source {
    type Item = Vec<u8>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Vec<u8>>> { match self.q.pop_front() { Some(Some(x)) => Poll::Ready(Some(x)), Some(None) => Poll::Pending, None => if self.open { Poll::Pending } else { Poll::Ready(None) } } }
}
/// events and whether the stream is complete, as a client reads them
fn read_sse(t: &[u8]) -> (Vec<Vec<u8>>, bool) {
    let (mut out, mut done) = (vec![], false); let (mut event, mut data, mut any): (Vec<u8>, Vec<u8>, bool) = (vec![], vec![], false);
    let (mut i, mut line) = (0, vec![]);
    while i < t.len() {
        let c = t[i]; i += 1;
        if c != b'\n' && c != b'\r' { line.push(c); continue }
        if c == b'\r' && t.get(i) == Some(&b'\n') { i += 1 }
        let l: Vec<u8> = std::mem::take(&mut line);
        if l.is_empty() {
            // an event without data is not dispatched, except that GraphQL over SSE has a `complete` without
            if done && any { sym::fail("an event after the end") }
            if event == b"next" && any { out.push(data.clone()) } else if event == b"complete" { done = true }
            event.clear(); data.clear(); any = false; continue
        }
        if l[0] == b':' { continue }
        let k = l.iter().position(|c| *c == b':').unwrap_or(l.len()); let mut v = &l[(k + 1).min(l.len())..]; if v.first() == Some(&b' ') { v = &v[1..] }
        match &l[..k] { b"event" => event = v.to_vec(), b"data" => { if any { data.push(b'\n') } data.extend(v); any = true } f => sym::fail(&format!("a line of an event that is no field: {}", String::from_utf8_lossy(f))) }
    }
    if !line.is_empty() || any { sym::fail("an event is sent in part") }
    (out, done)
}
fn read_multipart(t: &[u8], boundary: &str, apollo: bool) -> (Vec<Vec<u8>>, bool) {
    let d = format!("--{boundary}"); let d = d.as_bytes();
    let at = |from: usize| (from..t.len()).find(|i| t[*i..].starts_with(d) && (*i == 0 || t[..*i].ends_with(b"\r\n")));
    let (mut out, mut done, mut pos) = (vec![], false, at(0));
    if pos.is_none() && !t.is_empty() { sym::fail("bytes before the first part") }
    while let Some(p) = pos {
        let rest = &t[p + d.len()..];
        if rest.starts_with(b"--") { done = true; if rest.len() > 2 && rest[2..] != *b"\r\n" { sym::fail("bytes after the last part") } break }
        let next = at(p + 1); let part = &t[p + d.len()..next.unwrap_or(t.len())];
        let h = match part.windows(4).position(|w| w == b"\r\n\r\n") { Some(h) => h, None => sym::fail("a part without the end of its headers") };
        sym::check(part[..h].eq_ignore_ascii_case(b"\r\ncontent-type: application/json"), "the headers of a part");
        let body = &part[h + 4..]; sym::check(body.ends_with(b"\r\n"), "a part ends with a line break");
        let body = &body[..body.len() - 2];
        if apollo { if body != b"{}" { if !body.starts_with(b"{\"payload\":") || !body.ends_with(b"}") { sym::fail("no payload in a part") } out.push(body[11..body.len() - 1].to_vec()) } } else { out.push(body.to_vec()) }
        pos = next;
    }
    (out, done)
}
/// the tokens of a JSON text
fn tight(t: &[u8]) -> Vec<u8> { let (mut o, mut s, mut e) = (vec![], false, false); for c in t { if s { o.push(*c); if e { e = false } else if *c == b'\\' { e = true } else if *c == b'"' { s = false } } else if !b" \t\r\n".contains(c) { o.push(*c); if *c == b'"' { s = true } } } o }

/// The stream of a client of a subscription
#[no_mangle]
pub extern "C" fn h_stream_out() {
    use hive_router::pipeline::{multipart_subscribe as m, sse as s};
    let kind = sym::choice("kind", 3); let n = sym::param("events", 2) as usize;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap(); let _g = rt.enter();
    let beat = std::time::Duration::from_secs(if sym::choice("beat", 2) == 1 { 0 } else { 1 << 20 });
    let mut q = VecDeque::new(); let mut sent = vec![];
    for i in 0..n {
        if sym::choice(&format!("pause {i}"), 2) == 1 { q.push_back(None) }
        let t: Vec<u8> = match sym::choice(&format!("json {i}"), 8) {
            0 => { let c = sym::ascii(&format!("c{i}"), 2).into_bytes(); for b in &c { sym::assume(*b != b'"' && *b != b'\\') } cat(&[b"{\"data\":{\"s\":\"", &c, b"\"}}"]) }
            k => ["{\"data\":{\"s\":\"é\"}}", "{\"data\":{\"s\":{\n  \"x\": 1\n}}}", "{\"data\":{\"s\":[\r\n1,\r\n\r\n--2]}}", "{\"data\":{\"s\":[1,\r2]}}", "{\"data\":{\"s\":\"--graphql--\\r\\n\"}}", "{\"data\":null,\"errors\":[{\"message\":\"a\\nb\"}]}", "{}"][k as usize - 1].as_bytes().to_vec(),
        };
        sent.push(t.clone()); q.push_back(Some(t));
    }
    let open = sym::choice("open", 2) == 1; let count = |q: &VecDeque<Option<Vec<u8>>>| q.iter().filter(|x| x.is_some()).count();
    let _ = count;
    let src = Source { q, open };
    let mut st: Pin<Box<dyn Stream<Item = Result<ntex::util::Bytes, std::io::Error>>>> = match kind { 0 => Box::pin(m::create_incremental_delivery_stream(src)), 1 => Box::pin(s::create_stream(src, beat)), _ => Box::pin(m::create_apollo_multipart_http_stream(src, beat)) };
    let mut cx = Context::from_waker(futures::task::noop_waker_ref()); let mut t: Vec<u8> = vec![]; let mut ended = false; let mut beats = 0;
    for k in 0..60 {
        // a heartbeat that has begun is sent to its end
        if k >= 40 && t.ends_with(b"\n") && !t.ends_with(b"\r\n\r\n") { break }
        match st.as_mut().poll_next(&mut cx) { Poll::Ready(Some(Ok(b))) => t.extend(&b[..]), Poll::Ready(Some(Err(_))) => sym::fail("the stream of a client fails"), Poll::Ready(None) => { ended = true; break }, Poll::Pending => { beats += 1; if beats > n + 1 { break } } }
    }
    let (got, done) = match kind { 1 => read_sse(&t), 0 => read_multipart(&t, "-", false), _ => read_multipart(&t, "graphql", true) };
    sym::check(ended != open, "the stream ends when the subscription does");
    sym::check(done == ended, "the stream says that it is complete at its end");
    if got.len() != sent.len() { sym::fail("a client gets another number of events") }
    for (g, w) in got.iter().zip(&sent) { sym::check(tight(g) == tight(w), "a client reads the response that was sent") }
    sym::reach(if done { "ends" } else { "open" });
}
