//! C13, C14, C15: requests and responses on the wire, blocking and async.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::InterpreterResponse;
use server::error::ServerError;
use server::io::stream::StreamHandler;
use server::io::{tcp, tcp_async};

use super::exec::{resp, Resp};
use super::text::soup;
use crate::engine::short;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use crate::sys::{self, IoPlan};
use crate::ensure;

const NOTE: &str = "segments are produced by bounding what each read of the blocking reader returns, and by separate writes for the async reader";
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", level: "exploration", assumptions: &[NOTE, "at most 32 headers, with names that differ in more than letter case, and UTF-8 values"], legs: vec![
            Box::new(Leg { name: "c13-decode", rule: "random well-formed POST requests (headers, JSON bodies, sizes at the edges of the read buffer, trailing bytes) in random segmentations, read by both readers; non-trivial: at least one segment boundary within the headers or the body",
                quick: 60_000, thorough: 2_500_000, threads: 8, shrink_secs: 25, strat: c13_strat, check: c13 }),
            Box::new(Leg { name: "c13-every-split", rule: "one small request split at every single position, read by both readers", quick: 1_500, thorough: 60_000, threads: 8, shrink_secs: 25, strat: || (small_wire(), 0u8..3).boxed(), check: c13_splits }),
            Box::new(Leg { name: "c13-same", rule: "requests of doubtful form (repeated headers and members, repeated or signed lengths, more headers than supported, transfer codings), for which the property prescribes no result: both readers must still agree; non-trivial: both decode it",
                quick: 30_000, thorough: 1_500_000, threads: 8, shrink_secs: 25, strat: c13_odd, check: c13_same }),
            Box::new(Leg { name: "c13-sequence", rule: "several requests, some broken, some with bytes after their bodies, on connections after each other to one handler; answered at once, later in another order, after the client has gone, or not at all; both readers and senders; non-trivial: one has trailing bytes",
                quick: 5000, thorough: 400000, threads: 8, shrink_secs: 25, strat: sequence, check: |s, o| seq(s, o, 13) }),
            Box::new(Leg { name: "c13-large", rule: "requests with bodies of 1 to 24 MiB or heads of 50 to 500 KiB, read by both readers; every case is non-trivial",
                quick: 64, thorough: 2_500, threads: 8, shrink_secs: 25, strat: c13_large_strat, check: c13_large }),
            Box::new(Leg { name: "c13-slow", rule: "well-formed requests whose client pauses for up to several seconds between segments, read by either reader; non-trivial: a pause of half a second within the request",
                quick: 128, thorough: 1_500, threads: 32, shrink_secs: 25, strat: c13_slow_strat, check: c13_slow }),
        ]},
        Prop { id: "C14", level: "fault_enumeration", assumptions: &[NOTE, "a reader that does not decide although the client sent everything it ever will is wedged"], legs: vec![
            Box::new(Leg { name: "c14-rejects", rule: "requests broken in one way each (method, length header, HTTP syntax, body, cut off), in random segmentations, followed by a well-formed request on the same listener, both readers; every case is non-trivial",
                quick: 50_000, thorough: 2_500_000, threads: 8, shrink_secs: 25, strat: c14_strat, check: c14 }),
            Box::new(Leg { name: "c14-every-cut", rule: "one request cut off at every byte by the client closing its side, and with the connection failing at every read, both readers; every case is non-trivial", quick: 1_200, thorough: 50_000, threads: 8, shrink_secs: 25, strat: || (small_wire(), segs()).boxed(), check: c14_cuts }),
            Box::new(Leg { name: "c14-sequence", rule: "several requests, some broken, some with bytes after their bodies, on connections after each other to one handler; answered at once, later in another order, after the client has gone, or not at all; both readers and senders; non-trivial: one is broken",
                quick: 5000, thorough: 400000, threads: 8, shrink_secs: 25, strat: sequence, check: |s, o| seq(s, o, 14) }),
            Box::new(Leg { name: "c14-bytes", rule: "byte-level mutations of requests against a reference decoder of the whole input; non-trivial: not valid", quick: 80_000, thorough: 4_000_000, threads: 8, shrink_secs: 25, strat: c14_bytes_strat, check: c14_bytes }),
        ]},
        Prop { id: "C15", level: "exploration", assumptions: &["one line break may follow the body", "lines of the head may end in a bare line feed"], legs: vec![
            Box::new(Leg { name: "c15-respond", rule: "random outcomes of random size sent through both senders with short writes and slow readers, after well-formed and broken requests; non-trivial: an error, or a response longer than one write takes",
                quick: 20_000, thorough: 1_200_000, threads: 8, shrink_secs: 25, strat: c15_strat, check: c15 }),
            Box::new(Leg { name: "c15-sequence", rule: "several requests, some broken, some with bytes after their bodies, on connections after each other to one handler; answered at once, later in another order, after the client has gone, or not at all; both readers and senders; non-trivial: a client has gone, or two answers are given later",
                quick: 5000, thorough: 400000, threads: 8, shrink_secs: 25, strat: sequence, check: |s, o| seq(s, o, 15) }),
            Box::new(Leg { name: "c15-patient", rule: "responses of megabytes to clients that pause for up to several seconds before and while reading, sent by either sender; non-trivial: the sender is still at it after half a second",
                quick: 80, thorough: 1_000, threads: 20, shrink_secs: 25, strat: c15_patient_strat, check: c15_patient }),
        ]},
    ]
}

// --- Requests

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wire {
    pub path: String, pub heads: Vec<(String, String, u8)>,
    /// Where the length header stands and how it is spelt.
    pub cl: (u8, String, u8),
    pub query: String, pub json: Json, pub tail: Vec<u8>,
    /// Pad a header so that the head (or the whole request) ends this far past a multiple of the read buffer.
    pub align: Option<(bool, i8, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Json { pub before: Vec<(String, serde_json::Value)>, pub after: Vec<(String, serde_json::Value)>, pub ws: u8, pub esc: u8 }

fn cased(mode: u8) -> String {
    "content-length".chars().enumerate().map(|(i, c)| match mode % 5 {
        0 => if i == 0 || i == 8 { c.to_ascii_uppercase() } else { c }, 1 => c, 2 => c.to_ascii_uppercase(), 3 => if i % 2 == 0 { c.to_ascii_uppercase() } else { c }, _ => if i == 0 { c.to_ascii_uppercase() } else { c } }).collect()
}
fn json_string(s: &str, esc: u8) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        let force = match esc % 4 { 0 => false, 1 => !c.is_ascii(), 2 => true, _ => i % 3 == 0 };
        match c {
            '"' if !force => o.push_str("\\\""), '\\' if !force => o.push_str("\\\\"),
            '\n' if !force => o.push_str("\\n"), '\t' if !force => o.push_str("\\t"), '\r' if !force => o.push_str("\\r"),
            '/' if esc % 8 > 4 => o.push_str("\\/"),
            c if force || (c as u32) < 0x20 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&if esc & 64 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") }); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Json {
    fn body(&self, query: &str) -> Vec<u8> {
        let w = match self.ws % 4 { 0 => "", 1 => " ", 2 => "\n  ", _ => "\r\n\t" };
        let mut o = String::from(if self.ws & 8 != 0 { w } else { "" });
        o.push('{');
        let mut first = true;
        let mut add = |k: &str, v: String, o: &mut String| { if !first { o.push(','); } first = false; o.push_str(w); o.push_str(k); o.push_str(w); o.push(':'); o.push_str(w); o.push_str(&v); o.push_str(w); };
        for (k, v) in &self.before { if k != "query" { add(&json_string(k, 0), v.to_string(), &mut o); } }
        add(if self.esc & 32 != 0 { "\"qu\\u0065ry\"" } else { "\"query\"" }, json_string(query, self.esc), &mut o);
        for (k, v) in &self.after { if k != "query" && !self.before.iter().any(|b| b.0 == *k) { add(&json_string(k, 0), v.to_string(), &mut o); } }
        o.push('}');
        if self.ws & 16 != 0 { o.push_str(w); }
        o.into_bytes()
    }
}
pub struct Built { pub bytes: Vec<u8>, pub head: usize, pub body: usize, pub headers: Vec<(String, String)> }
impl Wire {
    pub fn build(&self) -> Built { self.build_with("POST", None, None) }
    /// `len`: the text of the length header (none: left out); `body`: another body.
    pub fn build_with(&self, method: &str, len: Option<Option<&[u8]>>, body: Option<Vec<u8>>) -> Built {
        let body = body.unwrap_or_else(|| self.json.body(&self.query));
        let pads = match &self.align { None => vec![0], Some(_) => vec![0, 1] };
        let mut out = None;
        let mut pad = 0usize;
        for step in pads {
            let mut headers: Vec<(String, Vec<u8>, u8)> = self.heads.iter().map(|(a, b, c)| (a.clone(), b.clone().into_bytes(), *c)).collect();
            if self.align.is_some() { headers.push(("X-Pad".into(), vec![b'p'; 1 + pad], 1)); }
            let cl: Option<Vec<u8>> = match len { None => Some(format!("{}{}", "0".repeat((self.cl.2 / 64) as usize), body.len()).into_bytes()), Some(None) => None, Some(Some(t)) => Some(t.to_vec()) };
            if let Some(v) = cl { headers.insert(self.cl.0 as usize % (headers.len() + 1), (self.cl.1.clone(), v, self.cl.2 % 64)); }
            let mut b = format!("{method} {} HTTP/1.1\r\n", self.path).into_bytes();
            for (n, v, ws) in &headers {
                b.extend(n.as_bytes());
                b.push(b':');
                b.extend(match ws % 4 { 0 => "", 1 => " ", 2 => "  ", _ => "\t" }.bytes());
                b.extend(v);
                if *ws >= 32 { b.extend(b" "); }
                b.extend(b"\r\n");
            }
            b.extend(b"\r\n");
            let head = b.len();
            let n = body.len();
            if step == 0 && self.align.is_some() {
                let (whole, off, extra) = self.align.unwrap();
                let at = if whole { head + n } else { head } as i64;
                let want = off as i64;
                pad = ((want - at).rem_euclid(1024) + 1024 * (extra % 3) as i64) as usize;
            }
            b.extend(&body);
            b.extend(&self.tail);
            let hs = headers.into_iter().map(|(a, v, _)| (a, String::from_utf8_lossy(&v).into_owned())).collect();
            out = Some(Built { bytes: b, head, body: n, headers: hs });
        }
        out.unwrap()
    }
}
fn token_name() -> BoxedStrategy<String> {
    let d: Vec<String> = dict().strs.iter().filter(|s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')).cloned().collect();
    let known = select(vec!["Host", "User-Agent", "Accept", "Content-Type", "Connection", "Username", "username", "Authorization", "X-A", "Cookie", "Content-Encoding", "Content-Len", "Length", "X-Content-Length", "Content-Length-X", "ContentLength", "Content_Length", "a", "!#$%&'*+-.^_`|~9"]);
    wt(vec![(5, known.prop_map(|s| s.to_string()).boxed()), (1, if d.is_empty() { Just("x".to_string()).boxed() } else { select(d).boxed() }),
        (2, vec(select("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.".chars().collect::<Vec<_>>()), 1..20).prop_map(|v| v.into_iter().collect()).boxed()),
        (1, size(1100).prop_map(|n| "N".repeat(n.max(1))).boxed())])
}
fn header_value() -> BoxedStrategy<String> {
    let ch = wt(vec![(8, (0x21u8..0x7f).prop_map(|b| b as char).boxed()), (2, select(vec![' ', '\t', ':', ',', ';', '"', '=']).boxed()), (1, select("éß日本😀".chars().collect::<Vec<_>>()).boxed())]);
    let trim = |s: String| s.trim_matches(|c| c == ' ' || c == '\t').to_string();
    wt(vec![(5, vec(ch.clone(), 0..20).prop_map(move |v| trim(v.into_iter().collect())).boxed()),
        (2, select(vec!["", "admin", "application/json", "5", "0", "POST / HTTP/1.1", "Content-Length: 3", "{\"query\": \"x\"}", "keep-alive", "gzip, deflate", "chunked"]).prop_map(|s| s.to_string()).boxed()),
        (1, (size(5000), vec(ch, 1..5)).prop_map(move |(n, p)| trim((0..n).map(|i| p[i % p.len()]).collect())).boxed())])
}
fn json_value() -> BoxedStrategy<serde_json::Value> {
    use serde_json::{json, Value};
    let leaf = wt(vec![(1, Just(Value::Null).boxed()), (1, any::<bool>().prop_map(|b| json!(b)).boxed()), (1, int().prop_map(|i| json!(i)).boxed()), (1, (-1000i32..1000).prop_map(|i| json!(i as f64 / 8.0)).boxed()),
        (3, text(2000).prop_map(|s| json!(s)).boxed())]);
    leaf.prop_recursive(4, 24, 5, |inner| wt(vec![(1, vec(inner.clone(), 0..5).prop_map(|v| json!(v)).boxed()),
        (1, vec((wt(vec![(1, Just("query".to_string()).boxed()), (3, text(30))]), inner), 0..5).prop_map(|v| Value::Object(v.into_iter().collect())).boxed())])).boxed()
}
fn query_text() -> BoxedStrategy<String> {
    wt(vec![(3, text(20_000)), (2, soup()), (2, select(vec!["", "get a", "set a 1; get a", "\"", "\\", "{\"query\":1}", "\r\n\r\n", "\u{0}"]).prop_map(|s| s.to_string()).boxed()),
        (2, (wt(vec![(1, size(70_000)), (3, (500usize..6000).boxed()), (1, (6000usize..150_000).boxed())]), text(10)).prop_map(|(n, p)| if p.is_empty() { "q".repeat(n) } else { p.chars().cycle().take(n).collect() }).boxed())])
}
pub fn json() -> BoxedStrategy<Json> {
    let members = || wt(vec![(3, Just(vec![]).boxed()), (2, vec((wt(vec![(1, select(vec!["Query", "query ", "quer", "queries", "", "q\"uery", "id"]).prop_map(|s| s.to_string()).boxed()), (1, text(20))]), json_value()), 0..4)
        .prop_map(|v| { let mut o: Vec<(String, serde_json::Value)> = vec![]; for (k, x) in v { if !o.iter().any(|p| p.0 == k) { o.push((k, x)) } } o }).boxed())]);
    (members(), members(), any::<u8>(), any::<u8>()).prop_map(|(before, after, ws, esc)| Json { before, after, ws, esc }).boxed()
}
pub fn wire_with(q: BoxedStrategy<String>, n: std::ops::Range<usize>) -> BoxedStrategy<Wire> {
    let path = select(vec!["/", "/", "/store", "*", "/a?b=c&d=%20", "http://localhost:7878/x", "/very/long/path/segment/that/goes/on"]).prop_map(|s| s.to_string());
    let heads = wt(vec![(4, vec((token_name(), header_value(), any::<u8>()), n.start..n.end.min(6)).boxed()), (1, vec((token_name(), header_value(), any::<u8>()), n).boxed())])
        .prop_map(|v| { let mut o: Vec<(String, String, u8)> = vec![]; for (a, b, c) in v { if !a.eq_ignore_ascii_case("content-length") && !a.eq_ignore_ascii_case("x-pad") && !o.iter().any(|x| x.0.eq_ignore_ascii_case(&a)) { o.push((a, b, c)) } } o });
    let tail = wt(vec![(4, Just(vec![]).boxed()), (1, select(vec!["\r\n", "\n", "\0", "{\"query\":\"del a\"}", "POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n{}"]).prop_map(|s| s.as_bytes().to_vec()).boxed()), (1, vec(any::<u8>(), 0..50).boxed()), (1, (size(3000), any::<u8>()).prop_map(|(n, b)| vec![b; n]).boxed())]);
    let align = wt(vec![(2, Just(None).boxed()), (1, (any::<bool>(), -3i8..4, 0u8..3).prop_map(Some).boxed())]);
    (path, heads, (any::<u8>(), any::<u8>(), any::<u8>()), q, json(), tail, align)
        .prop_map(|(path, heads, cl, query, json, tail, align)| Wire { path, heads, cl: (cl.0, cased(cl.1), cl.2), query, json, tail, align }).boxed()
}
pub fn wire() -> BoxedStrategy<Wire> { wire_with(query_text(), 0..31) }
fn small_wire() -> BoxedStrategy<Wire> {
    let short_json = (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(ws, esc, m)| Json { before: vec![], after: if m { vec![("id".into(), serde_json::json!([1, "é"]))] } else { vec![] }, ws, esc });
    let val = select(vec!["", "a", "admin", "é", "x y"]).prop_map(|s| s.to_string());
    let name = select(vec!["Host", "Username", "A"]).prop_map(|s| s.to_string());
    (vec((name, val, any::<u8>()), 0..3), (any::<u8>(), any::<u8>(), any::<u8>()), vec(chr(), 0..8), short_json, wt(vec![(3, Just(vec![]).boxed()), (1, vec(any::<u8>(), 0..4).boxed())]))
        .prop_map(|(heads, cl, q, json, tail)| { let mut o: Vec<(String, String, u8)> = vec![]; for h in heads { if !o.iter().any(|x| x.0 == h.0) { o.push(h) } }
            Wire { path: "/".into(), heads: o, cl: (cl.0, cased(cl.1), cl.2), query: q.into_iter().collect(), json, tail, align: None } }).boxed()
}
/// Sizes of successive segments; the last one repeats. Empty: all at once.
pub fn segs() -> BoxedStrategy<Vec<usize>> {
    let d: Vec<usize> = dict().ints.iter().filter(|&&i| i > 1 && i < 5000).flat_map(|&i| [i as usize - 1, i as usize, i as usize + 1]).collect();
    let d = if d.is_empty() { vec![1024] } else { d };
    let one = wt(vec![(2, (1usize..8).boxed()), (3, (1usize..200).boxed()), (2, (1usize..3000).boxed()), (1, select(d).boxed()), (2, select(vec![512, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4096]).boxed())]);
    wt(vec![(1, Just(vec![]).boxed()), (6, vec(one, 1..8).boxed())])
}

// --- Connections

static THREADS: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MY_IP: Ipv4Addr = { let n = THREADS.fetch_add(1, Ordering::SeqCst); let p = std::process::id(); Ipv4Addr::new(127, 10 + (p / 250 % 200) as u8, (p % 250) as u8, 1 + (n % 250) as u8) }; }
pub fn my_ip() -> Ipv4Addr { MY_IP.with(|i| *i) }
const PORT: u16 = 17878;

/// A client connection that leaves nothing behind when dropped.
pub fn connect(to: SocketAddr, rcvbuf: Option<i32>) -> Result<TcpStream, Fail> {
    let env = |s: &str| Fail::Env(format!("{s}: {}", std::io::Error::last_os_error()));
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 { return Err(env("socket")); }
        let s = TcpStream::from_raw_fd(fd);
        let opt = |o: i32, v: i32| { libc::setsockopt(fd, libc::SOL_SOCKET, o, &v as *const _ as *const libc::c_void, 4); };
        if let Some(n) = rcvbuf { opt(libc::SO_RCVBUF, n); }
        opt(libc::SO_SNDBUF, 1 << 20);
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
        let SocketAddr::V4(a) = to else { return Err(Fail::Env("v4 only".into())) };
        let sa = libc::sockaddr_in { sin_family: libc::AF_INET as u16, sin_port: a.port().to_be(), sin_addr: libc::in_addr { s_addr: u32::from(*a.ip()).to_be() }, sin_zero: [0; 8] };
        if libc::connect(fd, &sa as *const _ as *const libc::sockaddr, 16) != 0 { return Err(env("connect")); }
        let _ = s.set_nodelay(true);
        Ok(s)
    }
}

/// How the client delivers its bytes.
#[derive(Clone, Debug)]
struct How { segs: Vec<usize>, close: bool, fail_at: Option<usize> }
#[derive(Debug)]
struct Got { request: Result<String, ServerError>, headers: HashMap<String, String>, answered: Option<Vec<u8>> }
/// An answer to send over the connection, and how the client reads it.
struct Answer<'a> { out: &'a Outcome, sends: &'a [usize], slow: bool }

fn listen_sync() -> Result<tcp::TcpStreamHandler, Fail> {
    let ip = IpAddr::V4(my_ip());
    for i in 0..20 {
        if let Ok(h) = guarded(|| tcp::TcpStreamHandler::new(ip, PORT as usize)) { return Ok(h); }
        std::thread::sleep(Duration::from_millis(20 * i));
    }
    Err(Fail::Env("cannot listen".into()))
}
fn at() -> SocketAddr { SocketAddr::new(IpAddr::V4(my_ip()), PORT) }

fn recv_sync(h: &mut tcp::TcpStreamHandler, bytes: &[u8], how: &How, ans: Option<&Answer>) -> Result<Got, Fail> {
    let mut c = connect(at(), if ans.is_some_and(|a| a.slow) { Some(4096) } else { None })?;
    let big = bytes.len() > 60_000;
    let mut plan = IoPlan::new();
    plan.recv_sizes = how.segs.clone();
    plan.recv_fail_at = how.fail_at;
    plan.no_block = true;
    plan.block_ms = if big { 5000 } else { 0 };
    plan.small_sndbuf = ans.is_some_and(|a| a.slow);
    let writer = if big {
        let (b, mut w, close) = (bytes.to_vec(), c.try_clone().map_err(|e| Fail::Env(e.to_string()))?, how.close);
        Some(std::thread::spawn(move || { let _ = w.write_all(&b); if close { let _ = w.shutdown(std::net::Shutdown::Write); } }))
    } else {
        c.write_all(bytes).map_err(|e| Fail::Env(format!("client write: {e}")))?;
        if how.close { c.shutdown(std::net::Shutdown::Write).map_err(|e| Fail::Env(format!("client shutdown: {e}")))?; }
        None
    };
    sys::io_start(plan);
    let r = guarded(|| h.receive_request());
    let plan = sys::io_stop();
    let r = r.map_err(|m| format!("the blocking reader {m}"))?;
    ensure!(!plan.blocked, "the blocking reader waits for more bytes although the client has sent everything ({} bytes read)", plan.recv_bytes);
    ensure!(!plan.spun, "the blocking reader goes on reading after the end of the stream");
    let Some(mut r) = r else { return Err("the blocking reader gave no request".into()) };
    let mut answered = None;
    if let Some(a) = ans {
        let mut rd = c.try_clone().map_err(|e| Fail::Env(e.to_string()))?;
        let slow = a.slow;
        let reader = std::thread::spawn(move || read_all(&mut rd, slow));
        let real = a.out.real()?;
        let mut plan = IoPlan::new();
        plan.send_sizes = a.sends.to_vec();
        sys::io_start(plan);
        let s = guarded(|| r.sender.take().map(|mut s| s.send(real)));
        sys::io_stop();
        let err = match s {
            Err(m) => Some(format!("the blocking sender {m}")), Ok(None) => Some("a request came without a sender from the blocking reader".into()),
            Ok(Some(Err(e))) => Some(format!("the blocking sender failed: {e}")), Ok(Some(Ok(()))) => None };
        if err.is_some() { let _ = c.shutdown(std::net::Shutdown::Both); }
        let got = reader.join().map_err(|_| Fail::Env("reader".into()))?;
        if let Some(e) = err { return Err(e.into()); }
        answered = Some(got?);
    }
    if let Some(w) = writer { let _ = c.shutdown(std::net::Shutdown::Both); let _ = w.join(); }
    Ok(Got { request: r.request, headers: r.headers, answered })
}
fn read_all(c: &mut TcpStream, slow: bool) -> Result<Vec<u8>, Fail> {
    let _ = c.set_read_timeout(Some(Duration::from_secs(10)));
    let mut out = vec![];
    let mut buf = vec![0; if slow { 1500 } else { 65536 }];
    let mut naps = 0;
    loop {
        match c.read(&mut buf) {
            Ok(0) => return Ok(out),
            Ok(n) => { out.extend(&buf[..n]); if slow && naps < 5 { naps += 1; std::thread::sleep(Duration::from_micros(300)); } }
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(out),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(Fail::Broken(format!("the response never ends: {} bytes, then {e}", out.len()))),
        }
    }
}

/// Several connections after each other to one async handler.
fn recv_async(conns: &[(&[u8], How, Option<&Answer>)]) -> Result<Vec<Got>, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::Env(e.to_string()))?;
    let _g = IoOff;
    rt.block_on(async {
        let ip = IpAddr::V4(my_ip());
        let mut h = None;
        for i in 0..20u64 {
            // The constructor panics if the address is in use.
            let probe = std::net::TcpListener::bind(at());
            if probe.is_ok() { drop(probe); h = Some(tcp_async::TcpStreamHandler::new(ip, PORT as usize).await); break; }
            tokio::time::sleep(Duration::from_millis(20 * i)).await;
        }
        let Some(mut h) = h else { return Err(Fail::Env("cannot listen".into())) };
        let mut out = vec![];
        for (bytes, how, ans) in conns {
            let c = connect(at(), if ans.is_some_and(|a| a.slow) { Some(4096) } else { None })?;
            c.set_nonblocking(true).map_err(|e| Fail::Env(e.to_string()))?;
            let mut plan = IoPlan::new();
            plan.exclude = vec![c.as_raw_fd()];
            plan.recv_fail_at = how.fail_at;
            plan.small_sndbuf = ans.is_some_and(|a| a.slow);
            sys::io_start(plan);
            let mut c = tokio::net::TcpStream::from_std(c).map_err(|e| Fail::Env(e.to_string()))?;
            let client = async {
                use tokio::io::AsyncWriteExt;
                let (mut sent, mut i) = (0, 0);
                while sent < bytes.len() {
                    let n = if how.segs.is_empty() { bytes.len() } else { how.segs[i.min(how.segs.len() - 1)] }.clamp(1, bytes.len() - sent);
                    i += 1;
                    if c.write_all(&bytes[sent..sent + n]).await.is_err() { break; }
                    sent += n;
                    // The next segment follows once this one has been read.
                    if !how.segs.is_empty() { while sys::io_stat(|p| p.recv_bytes) < sent { tokio::task::yield_now().await; } }
                }
                if how.close { let _ = c.shutdown().await; }
                std::future::pending::<()>().await
            };
            let served = tokio::time::timeout(Duration::from_secs(6 + bytes.len() as u64 / 2_000_000), async { tokio::select! { biased; r = h.receive_request() => r, _ = client => unreachable!() } }).await;
            let (spun, n) = sys::io_stat(|p| (p.spun, p.recv_bytes));
            ensure!(!spun, "the async reader goes on reading after the end of the stream");
            let Ok(mut r) = served else { return Err(format!("the async reader waits for more bytes although the client has sent everything ({n} bytes read)").into()) };
            let mut answered = None;
            if let Some(a) = ans {
                let Some(mut s) = r.sender.take() else { return Err("a request came without a sender from the async reader".into()) };
                let real = a.out.real()?;
                let reader = async {
                    use tokio::io::AsyncReadExt;
                    let mut out = vec![];
                    let mut buf = vec![0; if a.slow { 1500 } else { 65536 }];
                    loop {
                        match c.read(&mut buf).await {
                            Ok(0) => return out,
                            Ok(n) => { out.extend(&buf[..n]); if a.slow { tokio::task::yield_now().await; } }
                            Err(_) => return out,
                        }
                    }
                };
                let sent = async { let r = s.send(real).await; drop(s); r };
                let Ok((r, got)) = tokio::time::timeout(Duration::from_secs(10), async { tokio::join!(sent, reader) }).await else { return Err("the response of the async sender never ends".into()) };
                if let Err(e) = r { return Err(format!("the async sender failed: {e}").into()); }
                answered = Some(got);
            }
            sys::io_stop();
            out.push(Got { request: r.request, headers: r.headers, answered });
        }
        Ok(out)
    })
}
struct IoOff;
impl Drop for IoOff { fn drop(&mut self) { sys::io_stop(); } }
fn recv_async_one(bytes: &[u8], how: &How) -> Result<Got, Fail> {
    guarded(|| recv_async(&[(bytes, how.clone(), None)])).map_err(|m| format!("the async reader {m}"))?.map(|mut v| v.remove(0))
}

// --- C13

fn c13_strat() -> BoxedStrategy<(Wire, Vec<usize>, Vec<usize>, bool)> { (wire(), segs(), segs(), prop::bool::weighted(0.2)).boxed() }
/// Very short segments of a very long request would only cost time.
fn bound(s: &[usize], total: usize) -> Vec<usize> {
    let mut v = s.to_vec();
    if let Some(l) = v.last_mut() { *l = (*l).max(total / 150 + 1); }
    v
}
fn decoded(g: &Got, w: &Wire, b: &Built, who: &str) -> Res {
    match &g.request {
        Ok(q) => ensure!(*q == w.query, "the {who} reader decoded the query as {}, sent was {}", short(q), short(&w.query)),
        Err(e) => return Err(format!("the {who} reader rejects a well-formed request of {} + {} bytes: {e}", b.head, b.body).into()),
    }
    let mut want: Vec<(String, String)> = b.headers.clone();
    let mut got: Vec<(String, String)> = g.headers.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    want.sort();
    got.sort();
    ensure!(want == got, "the {who} reader decoded the headers {}, sent were {}", short(&got), short(&want));
    Ok(())
}
fn c13(c: &(Wire, Vec<usize>, Vec<usize>, bool), obs: &mut Obs) -> Res {
    let (w, s1, s2, close) = c;
    let b = w.build();
    let total = b.head + b.body;
    // The blocking reader's segments are cycled.
    let s1: Vec<usize> = s1.iter().map(|&n| n.max(total / 300 + 1)).collect();
    let s2 = bound(s2, total);
    obs.nontrivial_if(s1.first().is_some_and(|&n| n < total) || s2.first().is_some_and(|&n| n < total));
    obs.label_if(b.head > 1024, "long head");
    obs.label_if(b.body > 1024, "long body");
    obs.label_if(!w.tail.is_empty(), "trailing bytes");
    obs.label_if(b.headers.len() > 16, "many headers");
    let mut h = listen_sync()?;
    let g = recv_sync(&mut h, &b.bytes, &How { segs: s1.clone(), close: *close, fail_at: None }, None).map_err(|e| ctx(e, &b, &s1))?;
    decoded(&g, w, &b, "blocking").map_err(|e| ctx(e, &b, &s1))?;
    drop(h);
    let g = recv_async_one(&b.bytes, &How { segs: s2.clone(), close: *close, fail_at: None }).map_err(|e| ctx(e, &b, &s2))?;
    decoded(&g, w, &b, "async").map_err(|e| ctx(e, &b, &s2))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd { Again(u8, String, bool), Length(Vec<u8>), More(u8), Coding(String), Query(String, bool), Case(u8) }
fn c13_odd() -> BoxedStrategy<(Wire, Vec<(Odd, u8)>, Vec<usize>, Vec<usize>)> {
    let lens: Vec<&[u8]> = vec![b"0", b"1", b"5", b"12", b"+5", b"+0", b"3000", b"", b"x", b"=", b"=+"];
    let odd = wt(vec![(4, (any::<u8>(), header_value(), any::<bool>()).prop_map(|(a, v, c)| Odd::Again(a, v, c)).boxed()), (3, select(lens).prop_map(|b| Odd::Length(b.to_vec())).boxed()),
        (1, (1u8..70).prop_map(Odd::More).boxed()), (1, select(vec!["chunked", "identity", "gzip"]).prop_map(|s| Odd::Coding(s.into())).boxed()),
        (2, (text(20), any::<bool>()).prop_map(|(s, b)| Odd::Query(s, b)).boxed()), (2, any::<u8>().prop_map(Odd::Case).boxed())]);
    let w = wt(vec![(5, small_wire()), (2, wire_with(text(300), 0..8))]);
    (w, vec((odd, any::<u8>()), 1..4), segs(), segs()).boxed()
}
/// Rebuilds the bytes with the oddities worked in.
fn odd_bytes(w: &Wire, odds: &[(Odd, u8)]) -> Vec<u8> {
    let b = w.build();
    let mut body = b.bytes[b.head..b.head + b.body].to_vec();
    for (o, _) in odds {
        if let Odd::Query(q, first) = o {
            let m = format!("\"query\":{}", json_string(q, 0)).into_bytes();
            let at = if *first { body.iter().position(|&c| c == b'{').unwrap() + 1 } else { body.iter().rposition(|&c| c == b'}').unwrap() };
            let m = if *first { [m, b",".to_vec()].concat() } else { [b",".to_vec(), m].concat() };
            body.splice(at..at, m);
        }
    }
    let mut heads: Vec<(String, Vec<u8>)> = b.headers.iter().map(|(n, v)| (n.clone(), if n.eq_ignore_ascii_case("content-length") { body.len().to_string().into_bytes() } else { v.clone().into_bytes() })).collect();
    for (o, at) in odds {
        let at = *at as usize % (heads.len() + 1);
        let respell = |n: &str| -> String { n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect() };
        match o {
            Odd::Again(a, v, c) => { let n = heads[*a as usize % heads.len()].0.clone(); if n.eq_ignore_ascii_case("content-length") { continue; } heads.insert(at, (if *c { respell(&n) } else { n }, v.clone().into_bytes())); }
            Odd::Length(v) => { let v = if v.starts_with(b"=") { [&v[1..], body.len().to_string().as_bytes()].concat() } else { v.clone() }; heads.insert(at, ("Content-Length".into(), v)); }
            Odd::More(n) => for i in 0..*n { heads.push((format!("More-{i}"), vec![b'm'; i as usize % 40])); },
            Odd::Coding(s) => heads.insert(at, ("Transfer-Encoding".into(), s.clone().into_bytes())),
            Odd::Case(a) => { let i = *a as usize % heads.len(); heads[i].0 = respell(&heads[i].0); }
            Odd::Query(..) => {}
        }
    }
    let mut out = format!("POST {} HTTP/1.1\r\n", w.path).into_bytes();
    for (n, v) in heads { out.extend(n.as_bytes()); out.extend(b": "); out.extend(v); out.extend(b"\r\n"); }
    out.extend(b"\r\n");
    out.extend(&body);
    out.extend(&w.tail);
    out
}
fn c13_same(c: &(Wire, Vec<(Odd, u8)>, Vec<usize>, Vec<usize>), obs: &mut Obs) -> Res {
    let b = odd_bytes(&c.0, &c.1);
    let text = short(&String::from_utf8_lossy(&b[..b.len().min(600)]));
    let s1: Vec<usize> = c.2.iter().map(|&n| n.max(b.len() / 300 + 1)).collect();
    let fail = |e: Fail| match e { Fail::Broken(m) => Fail::Broken(format!("{m}: {text}")), e => e };
    let mut h = listen_sync()?;
    let x = recv_sync(&mut h, &b, &How { segs: s1, close: true, fail_at: None }, None).map_err(fail)?;
    drop(h);
    let y = recv_async_one(&b, &How { segs: bound(&c.3, b.len()), close: true, fail_at: None }).map_err(fail)?;
    match (&x.request, &y.request) {
        (Ok(p), Ok(q)) => {
            obs.nontrivial_if(true);
            ensure!(p == q, "the blocking reader decodes the query {}, the async reader {}: {text}", short(p), short(q));
            ensure!(x.headers == y.headers, "the blocking reader decodes the headers {}, the async reader {}: {text}", short(&x.headers), short(&y.headers));
        }
        (Err(_), Err(_)) => obs.label("both reject"),
        (p, q) => return Err(format!("the blocking reader gives {}, the async reader {}: {text}", short(p), short(q)).into()),
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge { w: Wire, unit: String, kb: u16, head: bool, seg: Option<usize> }
fn c13_large_strat() -> BoxedStrategy<Huge> {
    let sizes = |head: bool| if head { wt(vec![(2, (50u16..500).boxed()), (1, select(vec![63u16, 64, 65, 127, 128, 129, 255, 256, 257]).boxed())]) } else { wt(vec![(3, (1_000u16..6_000).boxed()), (2, (6_000u16..24_000).boxed()), (1, select(vec![1024u16, 2048, 4096, 8192, 10_240, 16_384]).boxed())]) };
    let head = prop::bool::weighted(0.25);
    head.prop_flat_map(move |head| (small_wire(), vec(chr(), 1..10), sizes(head), Just(head), prop::option::of(select(vec![1000usize, 1024, 1500, 4096, 65_536, 100_000]))))
        .prop_map(|(w, unit, kb, head, seg)| Huge { w, unit: unit.into_iter().collect(), kb, head, seg }).boxed()
}
fn c13_large(c: &Huge, obs: &mut Obs) -> Res {
    obs.nontrivial_if(true);
    obs.label_if(c.head, "large head");
    let n = c.kb as usize * 1024;
    let mut w = c.w.clone();
    if c.head {
        // As one header, or spread over several.
        let parts = 1 + c.kb as usize % 20;
        for i in 0..parts { w.heads.push((format!("Large-{i}"), format!("{i}{}", "v".repeat(n / parts)), 1)); }
    } else {
        w.query.push_str(&c.unit.chars().cycle().scan(0, |l, ch| { *l += ch.len_utf8(); if *l > n { None } else { Some(ch) } }).collect::<String>());
    }
    let b = w.build();
    let segs: Vec<usize> = c.seg.map(|s| s.max(b.bytes.len() / 3000)).into_iter().collect();
    let how = How { segs: segs.clone(), close: false, fail_at: None };
    let mut h = listen_sync()?;
    let g = recv_sync(&mut h, &b.bytes, &how, None).map_err(|e| ctx(e, &b, &segs))?;
    decoded(&g, &w, &b, "blocking")?;
    drop(h);
    let g = recv_async_one(&b.bytes, &how).map_err(|e| ctx(e, &b, &segs))?;
    decoded(&g, &w, &b, "async")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slow { w: Wire, pauses: Vec<(u16, u16)>, asynch: bool }
/// Milliseconds, in all a few seconds.
fn pause() -> BoxedStrategy<u16> { wt(vec![(2, (1u16..400).boxed()), (6, (400u16..2600).boxed()), (1, (4000u16..6500).boxed())]) }
fn c13_slow_strat() -> BoxedStrategy<Slow> {
    let at = wt(vec![(6, any::<u16>().boxed()), (1, Just(0).boxed()), (2, (60_000u16..=u16::MAX).boxed())]);
    (wt(vec![(3, small_wire()), (2, wire_with(text(3000), 0..12))]), vec((at, pause()), 1..4), any::<bool>()).prop_map(|(w, pauses, asynch)| Slow { w, pauses, asynch }).boxed()
}
/// One request read by the blocking or the async reader, without any interposition; `client` runs on its own thread.
fn served<T: Send + 'static>(asynch: bool, client: impl FnOnce() -> T + Send + 'static, then: impl FnOnce() -> Option<Result<InterpreterResponse, ServerError>>) -> Result<(Result<String, ServerError>, HashMap<String, String>, Option<Result<(), ServerError>>, Duration, T), Fail> {
    let gone = || Fail::Env("the client thread failed".into());
    if !asynch {
        let mut h = listen_sync()?;
        let t = std::thread::spawn(client);
        let r = guarded(|| h.receive_request()).map_err(|m| format!("the blocking reader {m}"))?;
        let Some(mut r) = r else { return Err("the blocking reader gave no request".into()) };
        let start = std::time::Instant::now();
        let sent = match then() { None => None, Some(x) => guarded(|| r.sender.take().map(|mut s| s.send(x))).map_err(|m| format!("the blocking sender {m}"))? };
        let took = start.elapsed();
        r.sender = None;
        return Ok((r.request, r.headers, sent, took, t.join().map_err(|_| gone())?));
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::Env(e.to_string()))?;
    guarded(|| rt.block_on(async {
        let mut h = None;
        for i in 0..20u64 {
            let probe = std::net::TcpListener::bind(at());
            if probe.is_ok() { drop(probe); h = Some(tcp_async::TcpStreamHandler::new(IpAddr::V4(my_ip()), PORT as usize).await); break; }
            tokio::time::sleep(Duration::from_millis(20 * i)).await;
        }
        let Some(mut h) = h else { return Err(Fail::Env("cannot listen".into())) };
        let t = std::thread::spawn(client);
        let mut r = h.receive_request().await;
        let start = std::time::Instant::now();
        let sent = match (then(), r.sender.take()) { (Some(x), Some(mut s)) => Some(s.send(x).await), _ => None };
        let took = start.elapsed();
        Ok((r.request, r.headers, sent, took, t.join().map_err(|_| gone())?))
    })).map_err(|m| format!("the async reader or sender {m}"))?
}
fn c13_slow(c: &Slow, obs: &mut Obs) -> Res {
    let b = c.w.build();
    let n = b.head + b.body;
    let mut cuts: Vec<(usize, u16)> = c.pauses.iter().map(|&(p, ms)| (p as usize * n / 65536, ms)).collect();
    cuts.sort();
    obs.nontrivial_if(cuts.iter().any(|c| c.1 >= 500 && c.0 > 0));
    obs.label_if(cuts.iter().any(|c| c.1 >= 500 && c.0 > b.head), "pause in the body");
    obs.label_if(cuts.iter().any(|c| c.1 >= 500 && c.0 > 0 && c.0 < b.head), "pause in the head");
    let (to, bytes, at) = (at(), b.bytes.clone(), cuts.clone());
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let over = done.clone();
    let client = move || -> Result<(), Fail> {
        let mut s = connect(to, None)?;
        let mut from = 0;
        for (to, ms) in at { let _ = s.write_all(&bytes[from..to]); from = to; std::thread::sleep(Duration::from_millis(ms as u64)); }
        let _ = s.write_all(&bytes[from..]);
        // A reader that still waits gets the end of the stream.
        for _ in 0..1000 { if over.load(Ordering::SeqCst) { return Ok(()); } std::thread::sleep(Duration::from_millis(10)); }
        let _ = s.shutdown(std::net::Shutdown::Write);
        std::thread::sleep(Duration::from_millis(200));
        Ok(())
    };
    let fail = |e: Fail| match e { Fail::Broken(m) => Fail::Broken(format!("{m}; the client pauses at these bytes of {} + {} for these milliseconds: {cuts:?}", b.head, b.body)), e => e };
    let (request, headers, _, _, sent) = served(c.asynch, client, || { done.store(true, Ordering::SeqCst); None }).map_err(fail)?;
    sent?;
    decoded(&Got { request, headers, answered: None }, &c.w, &b, if c.asynch { "async" } else { "blocking" }).map_err(fail)
}
fn ctx(e: Fail, b: &Built, segs: &[usize]) -> Fail {
    match e { Fail::Broken(m) => Fail::Broken(format!("{m} (head {} bytes, body {} bytes, segments {:?}): {}", b.head, b.body, segs, short(&String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(400)])))), e => e }
}
fn c13_splits(c: &(Wire, u8), obs: &mut Obs) -> Res {
    let (w, mode) = c;
    let b = w.build();
    obs.nontrivial_if(true);
    let total = b.head + b.body;
    let mut h = listen_sync()?;
    for i in 1..total {
        // One split, or single bytes from some point on, or alternating with single bytes.
        let segs = match mode { 0 => vec![i, b.bytes.len()], 1 => { let mut v = vec![i]; v.extend(vec![1; 10]); v.push(4000); v } _ => vec![i, 1, b.bytes.len()] };
        let how = How { segs: segs.clone(), close: false, fail_at: None };
        let g = recv_sync(&mut h, &b.bytes, &how, None).map_err(|e| ctx(e, &b, &segs))?;
        decoded(&g, w, &b, "blocking").map_err(|e| ctx(e, &b, &segs))?;
    }
    drop(h);
    let hows: Vec<(&[u8], How, Option<&Answer>)> = (1..total).map(|i| (&b.bytes[..], How { segs: vec![i, b.bytes.len()], close: false, fail_at: None }, None)).collect();
    let gs = guarded(|| recv_async(&hows)).map_err(|m| format!("the async reader {m}"))?.map_err(|e| ctx(e, &b, &[]))?;
    for (i, g) in gs.iter().enumerate() { decoded(g, w, &b, "async").map_err(|e| ctx(e, &b, &[i + 1]))?; }
    Ok(())
}

// --- Several exchanges with one handler

/// One exchange: what comes, what is answered, and when: at once, or after all have come; and whether the client waits for the answer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step { w: Wire, flaw: Option<Flaw>, segs: Vec<usize>, close: bool, out: Outcome, late: Option<u8>, gone: bool, unanswered: bool }
fn sequence() -> BoxedStrategy<Vec<Step>> {
    let tail = wt(vec![(2, Just(vec![]).boxed()), (1, select(vec!["\r\n", "\n", "}", "x", "POST / HTTP/1.1\r\nContent-Length: 20\r\n\r\n{\"query\": \"get zz\"}", "POST / HT", "\0"]).prop_map(|s| s.as_bytes().to_vec()).boxed()), (1, vec(any::<u8>(), 1..60).boxed())]);
    let w = (wt(vec![(4, small_wire()), (1, wire_with(text(300), 0..8))]), tail).prop_map(|(mut w, t)| { w.tail = t; w });
    let step = (w, prop::option::weighted(0.2, flaw()), segs(), prop::bool::weighted(0.2), outcome(), prop::option::weighted(0.4, 0u8..8), prop::bool::weighted(0.25), prop::bool::weighted(0.1))
        .prop_map(|(w, flaw, segs, close, out, late, gone, unanswered)| Step { w, flaw, segs, close, out, late, gone, unanswered });
    vec(step, 2..7).boxed()
}
struct Took { request: Result<String, ServerError>, headers: HashMap<String, String>, answered: Option<Vec<u8>> }
impl Step {
    fn bytes(&self) -> (Vec<u8>, bool) { match &self.flaw { None => (self.w.build().bytes, self.close), Some(f) => { let (b, c) = flawed(&self.w, f); (b, c || self.close) } } }
}
/// What of this belongs to the property that is asked for: 13 decoding, 14 rejecting, 15 answering.
fn judge_step(s: &Step, g: &Took, who: &str, what: u8) -> Res {
    match what {
        13 if s.flaw.is_none() => decoded(&Got { request: g.request.clone(), headers: g.headers.clone(), answered: None }, &s.w, &s.w.build(), who),
        14 if s.flaw.is_some() => { ensure!(g.request.is_err(), "the {who} reader decoded a request that must be rejected, as {}", short(&g.request)); Ok(()) }
        14 => decoded(&Got { request: g.request.clone(), headers: g.headers.clone(), answered: None }, &s.w, &s.w.build(), who),
        15 => match &g.answered { Some(a) => judge_reply(&s.out, a, who).map(|_| ()), None => Ok(()) },
        _ => Ok(()),
    }
}
/// The order of the answers: positions in the sequence.
fn order(steps: &[Step]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..steps.len()).filter(|&i| steps[i].late.is_some()).collect();
    v.sort_by_key(|&i| (steps[i].late, i));
    v
}
fn seq_sync(steps: &[Step]) -> Result<Vec<Took>, Fail> {
    let mut h = listen_sync()?;
    type Sender = Box<dyn server::io::stream::StreamSender + Send>;
    fn answer(c: TcpStream, sender: Option<Sender>, s: &Step) -> Result<Option<Vec<u8>>, Fail> {
        if s.unanswered { return Ok(None); }
        let real = s.out.real()?;
        let Some(mut sender) = sender else { return Err("a request came without a sender from the blocking reader".into()) };
        if s.gone {
            drop(c);
            guarded(|| sender.send(real)).map_err(|m| format!("the blocking sender, its client gone, {m}"))?.ok();
            return Ok(None);
        }
        let mut c = c;
        let reader = std::thread::spawn(move || read_all(&mut c, false));
        let r = guarded(move || sender.send(real)).map_err(|m| format!("the blocking sender {m}"));
        let got = reader.join().map_err(|_| Fail::Env("reader".into()))?;
        match r { Err(m) => return Err(m.into()), Ok(Err(e)) => return Err(format!("the blocking sender failed: {e}").into()), Ok(Ok(())) => {} }
        got.map(Some)
    }
    let mut out = vec![];
    let mut held: HashMap<usize, (TcpStream, Option<Sender>)> = HashMap::new();
    for (i, s) in steps.iter().enumerate() {
        let (bytes, close) = s.bytes();
        let mut c = connect(at(), None)?;
        c.write_all(&bytes).map_err(|e| Fail::Env(format!("client write: {e}")))?;
        if close { c.shutdown(std::net::Shutdown::Write).map_err(|e| Fail::Env(format!("client shutdown: {e}")))?; }
        let mut plan = IoPlan::new();
        plan.recv_sizes = s.segs.iter().map(|&n| n.max(bytes.len() / 300 + 1)).collect();
        plan.no_block = true;
        sys::io_start(plan);
        let r = guarded(|| h.receive_request());
        let plan = sys::io_stop();
        let r = r.map_err(|m| format!("the blocking reader {m}, at request {i}"))?;
        ensure!(!plan.blocked, "the blocking reader waits for more bytes although the client has sent everything, at request {i} ({} bytes read)", plan.recv_bytes);
        ensure!(!plan.spun, "the blocking reader goes on reading after the end of the stream, at request {i}");
        let Some(mut r) = r else { return Err(format!("the blocking reader gave no request, at request {i}").into()) };
        let sender = r.sender.take();
        let answered = if s.late.is_none() { answer(c, sender, s)? } else { held.insert(i, (c, sender)); None };
        out.push(Took { request: r.request, headers: r.headers, answered });
    }
    for i in order(steps) { let (c, sender) = held.remove(&i).unwrap(); out[i].answered = answer(c, sender, &steps[i])?; }
    Ok(out)
}
fn seq_async(steps: &[Step]) -> Result<Vec<Took>, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::Env(e.to_string()))?;
    async fn answer(c: TcpStream, sender: Option<tcp_async::TcpStreamSender>, s: &Step) -> Result<Option<Vec<u8>>, Fail> {
        if s.unanswered { return Ok(None); }
        let real = s.out.real()?;
        let Some(mut sender) = sender else { return Err("a request came without a sender from the async reader".into()) };
        let late = || Fail::from("the response of the async sender never ends".to_string());
        if s.gone {
            drop(c);
            let _ = tokio::time::timeout(Duration::from_secs(10), sender.send(real)).await.map_err(|_| late())?;
            return Ok(None);
        }
        let mut c = c;
        let reader = std::thread::spawn(move || read_all(&mut c, false));
        let r = tokio::time::timeout(Duration::from_secs(10), sender.send(real)).await;
        drop(sender);
        let got = reader.join().map_err(|_| Fail::Env("reader".into()))?;
        match r { Err(_) => return Err(late()), Ok(Err(e)) => return Err(format!("the async sender failed: {e}").into()), Ok(Ok(())) => {} }
        got.map(Some)
    }
    rt.block_on(async {
        let mut h = None;
        for i in 0..20u64 {
            let probe = std::net::TcpListener::bind(at());
            if probe.is_ok() { drop(probe); h = Some(tcp_async::TcpStreamHandler::new(IpAddr::V4(my_ip()), PORT as usize).await); break; }
            tokio::time::sleep(Duration::from_millis(20 * i)).await;
        }
        let Some(mut h) = h else { return Err(Fail::Env("cannot listen".into())) };
        let mut out = vec![];
        let mut held = HashMap::new();
        for (i, s) in steps.iter().enumerate() {
            let (bytes, close) = s.bytes();
            let mut c = connect(at(), None)?;
            c.write_all(&bytes).map_err(|e| Fail::Env(format!("client write: {e}")))?;
            if close { c.shutdown(std::net::Shutdown::Write).map_err(|e| Fail::Env(format!("client shutdown: {e}")))?; }
            let Ok(mut r) = tokio::time::timeout(Duration::from_secs(6), h.receive_request()).await else { return Err(format!("the async reader waits for more bytes although the client has sent everything, at request {i}").into()) };
            let sender = r.sender.take();
            let answered = if s.late.is_none() { answer(c, sender, s).await? } else { held.insert(i, (c, sender)); None };
            out.push(Took { request: r.request, headers: r.headers, answered });
        }
        for i in order(steps) { let (c, sender) = held.remove(&i).unwrap(); out[i].answered = answer(c, sender, &steps[i]).await?; }
        Ok(out)
    })
}
fn seq(steps: &[Step], obs: &mut Obs, what: u8) -> Res {
    let (flaws, tails, gone) = (steps.iter().filter(|s| s.flaw.is_some()).count(), steps.iter().filter(|s| !s.w.tail.is_empty()).count(), steps.iter().filter(|s| s.gone && !s.unanswered).count());
    obs.nontrivial_if(match what { 13 => tails > 0, 14 => flaws > 0, _ => gone > 0 || order(steps).len() > 1 });
    obs.label_if(tails > 0, "trailing bytes");
    obs.label_if(flaws > 0, "a broken request among them");
    obs.label_if(gone > 0, "a client gone before its answer");
    obs.label_if(order(steps).len() > 1, "answered in another order");
    let judge = |t: &[Took], who: &str| -> Res {
        for (i, (s, g)) in steps.iter().zip(t).enumerate() { judge_step(s, g, who, what).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("{m}, at request {i} of {}", steps.len())), e => e })?; }
        Ok(())
    };
    judge(&seq_sync(steps)?, "blocking")?;
    judge(&guarded(|| seq_async(steps)).map_err(|m| format!("the async reader or sender {m}"))??, "async")
}

// --- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw { Method(String), NoLength, Length(Vec<u8>), Long(u64), Body(Vec<u8>), Cut(u16), Line(String), Header(Vec<u8>), Short(u16) }
fn flaw() -> BoxedStrategy<Flaw> {
    let bodies: Vec<&str> = vec!["", "[]", "null", "1", "\"get a\"", "{}", "{\"query\":1}", "{\"query\":null}", "{\"query\":true}", "{\"query\":[\"get a\"]}", "{\"query\":{\"query\":\"get a\"}}", "{\"Query\":\"get a\"}", "{\"query \":\"get a\"}",
        "[{\"query\":\"get a\"}]", "{\"query\":\"get a\"", "{\"query\":\"get a}", "{query:\"get a\"}", "{'query':'get a'}", "{\"query\":\"get a\"}}", "{\"query\":\"get a\"},", "{\"query\":\"get a\",}", "{\"query\":\"get \\x\"}", "query=get a", "get a", "{\"query\":\"get a\"} {\"query\":\"get a\"}",
        "{\"query\" \"get a\"}", "{\"a\":{\"query\":\"get a\"}}", "\u{feff}{\"query\":\"get a\"}", "{\"query\":\"a\nb\"}", "{\"query\":\"\\ud800\"}", "// c\n{\"query\":\"get a\"}", "true", "{\"query\":get a}"];
    let body = wt(vec![(5, select(bodies).prop_map(|s| s.as_bytes().to_vec()).boxed()), (1, text(100).prop_filter("no query", |t| !is_query(t.as_bytes())).prop_map(|s| s.into_bytes()).boxed()), (1, vec(any::<u8>(), 0..60).prop_filter("no query", |t| !is_query(t)).boxed()),
        (1, json_value().prop_filter("no query", |v| !v.get("query").is_some_and(|q| q.is_string())).prop_map(|v| v.to_string().into_bytes()).boxed()),
        (1, (vec(chr(), 0..5), select(vec![vec![0xffu8], vec![0xc3, 0x28], vec![0x80], vec![0xed, 0xa0, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xc0, 0xaf], vec![0xe2, 0x82]])).prop_map(|(a, bad)| {
            let a: String = a.into_iter().filter(|c| c.is_alphanumeric()).collect();
            [b"{\"query\":\"set a \\\"".as_slice(), a.as_bytes(), &bad, b"\\\"\"}"].concat() }).boxed())]);
    let lens: Vec<&[u8]> = vec![b"", b"abc", b"-1", b"1.5", b"0x10", b"5 5", b"5,5", b"1e3", b"5a", b"a5", b"\xff", b"\xd9\xa1", b"99999999999999999999999", b"18446744073709551616", b"340282366920938463463374607431768211456", b"-0", b"NaN", b"five", b"5;", b"\"5\"", b"10_0", b"--5", b"- 5"];
    let methods = select(vec!["GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "post", "Post", "POSTS", "POS", "XPOST", "P", "QUERY"]).prop_map(|s| Flaw::Method(s.to_string()));
    let lines = select(vec!["", "POST", "POST /", "POST / HTTP/1.1 x", "POST / HTTP/2.0", "POST / HTTP/1.", "POST / HTTQ/1.1", "POST / http/1.1", "HTTP/1.1 200 OK", "POST\t/ HTTP/1.1", "PO\u{1}ST / HTTP/1.1", "POST / HTTP/9.9", "{\"query\":\"get a\"}", "POST / / HTTP/1.1", "get a", "\u{0}", "POST /\u{1} HTTP/1.1", "P\"ST / HTTP/1.1"]).prop_map(|s| Flaw::Line(s.to_string()));
    let hdrs: Vec<&[u8]> = vec![b"NoColon", b": novalue", b"Bad Name: x", b"Bad\x01: x", b"A: b\x00c", b"A: b\x01c", b"A\xc3\xa9: x", b"A: \x7f", b" Leading: x", b"(A): x", b"A B", b"A:\x0bb"];
    wt(vec![(2, methods.boxed()), (1, Just(Flaw::NoLength).boxed()), (3, select(lens).prop_map(|b| Flaw::Length(b.to_vec())).boxed()),
        (3, wt(vec![(2, (1u64..5).boxed()), (1, (1u64..3000).boxed()), (3, select(vec![1 << 20, u32::MAX as u64, 1 << 32, i64::MAX as u64 - 500, i64::MAX as u64, 1 << 63, u64::MAX - 2000, u64::MAX - 1000, u64::MAX - 500, u64::MAX - 200, u64::MAX - 100, u64::MAX - 60, u64::MAX - 30, u64::MAX - 1, u64::MAX]).boxed()), (1, any::<u64>().prop_map(|n| n >> 1 | 1 << 40).boxed()), (1, (0u64..3000).prop_map(|n| u64::MAX - n).boxed())]).prop_map(Flaw::Long).boxed()),
        (4, body.prop_map(Flaw::Body).boxed()), (4, any::<u16>().prop_map(Flaw::Cut).boxed()), (2, lines.boxed()), (2, select(hdrs).prop_map(|b| Flaw::Header(b.to_vec())).boxed()), (1, any::<u16>().prop_map(Flaw::Short).boxed())])
}
fn is_query(b: &[u8]) -> bool { matches!(serde_json::from_slice::<serde_json::Value>(b), Ok(serde_json::Value::Object(m)) if m.get("query").is_some_and(|q| q.is_string())) }

/// The bytes, and whether the client must close its side for the request to be complete.
fn flawed(w: &Wire, f: &Flaw) -> (Vec<u8>, bool) {
    let b = w.build();
    match f {
        Flaw::Method(m) => (w.build_with(m, None, None).bytes, false),
        Flaw::NoLength => (w.build_with("POST", Some(None), None).bytes, false),
        Flaw::Length(t) => (w.build_with("POST", Some(Some(t)), None).bytes, false),
        Flaw::Long(n) => {
            // Claims more than ever comes, the trailing bytes included.
            let n = (*n as u128 + (b.body + w.tail.len()) as u128).min(u64::MAX as u128);
            (w.build_with("POST", Some(Some(n.to_string().as_bytes())), None).bytes, true)
        }
        Flaw::Body(x) => (w.build_with("POST", None, Some(x.clone())).bytes, false),
        Flaw::Cut(at) => { let n = b.head + b.body; (b.bytes[..*at as usize % n].to_vec(), true) }
        Flaw::Short(n) => {
            // The length stops before the closing brace.
            let end = w.json.body(&w.query).iter().rposition(|&c| c == b'}').unwrap_or(0);
            let n = *n as usize % (end + 1);
            (w.build_with("POST", Some(Some(n.to_string().as_bytes())), None).bytes, false)
        }
        Flaw::Line(l) => {
            let e = b.bytes.windows(2).position(|p| p == b"\r\n").unwrap();
            let mut v = l.as_bytes().to_vec();
            v.extend(&b.bytes[e..]);
            (v, true)
        }
        Flaw::Header(h) => {
            let e = b.bytes.windows(2).position(|p| p == b"\r\n").unwrap() + 2;
            let mut v = b.bytes[..e].to_vec();
            v.extend(h);
            v.extend(b"\r\n");
            v.extend(&b.bytes[e..]);
            (v, true)
        }
    }
}
type Bad = (Wire, Flaw, Vec<usize>, Vec<usize>, bool, Wire);
fn c14_strat() -> BoxedStrategy<Bad> { (wire_with(query_text(), 0..12), flaw(), segs(), segs(), any::<bool>(), small_wire()).boxed() }
fn c14(c: &Bad, obs: &mut Obs) -> Res {
    let (w, f, s1, s2, close, next) = c;
    let (bytes, must_close) = flawed(w, f);
    obs.nontrivial_if(true);
    obs.label(match f { Flaw::Method(_) => "method", Flaw::NoLength => "no length", Flaw::Length(_) => "bad length", Flaw::Long(_) => "too long", Flaw::Body(_) => "body", Flaw::Cut(_) => "cut", Flaw::Line(_) => "request line", Flaw::Header(_) => "header", Flaw::Short(_) => "short" });
    // The empty request line is skipped by lenient parsers, which leaves a header as request line: still not valid.
    let close = must_close || *close;
    let cap = |s: &[usize]| -> Vec<usize> { s.iter().map(|&n| n.max(bytes.len() / 300 + 1)).collect() };
    reject(&bytes, &cap(s1), &cap(s2), close, None, next).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("{m}: {} {}", short(f), short(&String::from_utf8_lossy(&bytes[..bytes.len().min(400)])))), e => e })
}
fn reject(bytes: &[u8], s1: &[usize], s2: &[usize], close: bool, fail_at: Option<usize>, next: &Wire) -> Res {
    let nb = next.build();
    let bad = |g: &Got, who: &str| -> Res { ensure!(g.request.is_err(), "the {who} reader decoded a request that must be rejected, as {}", short(&g.request)); Ok(()) };
    let mut h = listen_sync()?;
    let g = recv_sync(&mut h, bytes, &How { segs: s1.to_vec(), close, fail_at }, None)?;
    bad(&g, "blocking")?;
    let g = recv_sync(&mut h, &nb.bytes, &How { segs: vec![], close: false, fail_at: None }, None)?;
    decoded(&g, next, &nb, "blocking (afterwards)")?;
    drop(h);
    let plain = How { segs: vec![], close: false, fail_at: None };
    let gs = guarded(|| recv_async(&[(bytes, How { segs: bound(s2, bytes.len()), close, fail_at }, None), (&nb.bytes, plain, None)])).map_err(|m| format!("the async reader {m}"))??;
    bad(&gs[0], "async")?;
    decoded(&gs[1], next, &nb, "async (afterwards)")
}
fn c14_cuts(c: &(Wire, Vec<usize>), obs: &mut Obs) -> Res {
    let (w, segs) = c;
    obs.nontrivial_if(true);
    let b = w.build();
    let total = b.head + b.body;
    let mut h = listen_sync()?;
    let mut hows = vec![];
    for i in 0..total {
        let g = recv_sync(&mut h, &b.bytes[..i], &How { segs: segs.clone(), close: true, fail_at: None }, None).map_err(|e| ctx(e, &b, &[i]))?;
        ensure!(g.request.is_err(), "the blocking reader decoded a request cut off after {i} of {total} bytes: {}", short(&g.request));
        hows.push((&b.bytes[..i], How { segs: vec![], close: true, fail_at: None }, None));
    }
    // The connection fails at some read.
    let mut at = 0;
    loop {
        let step = segs.first().copied().unwrap_or(total).max(1);
        let how = How { segs: vec![step], close: true, fail_at: Some(at) };
        if at * step.min(1024) >= total || at > 200 { break; }
        let g = recv_sync(&mut h, &b.bytes, &how, None).map_err(|e| ctx(e, &b, &[at]))?;
        ensure!(g.request.is_err(), "the blocking reader decoded a request although read {at} failed: {}", short(&g.request));
        at += 1;
    }
    hows.push((&b.bytes[..], How { segs: vec![], close: true, fail_at: Some(0) }, None));
    let g = recv_sync(&mut h, &b.bytes, &How { segs: vec![], close: false, fail_at: None }, None)?;
    decoded(&g, w, &b, "blocking (afterwards)")?;
    drop(h);
    hows.push((&b.bytes[..], How { segs: vec![], close: false, fail_at: None }, None));
    let gs = guarded(|| recv_async(&hows)).map_err(|m| format!("the async reader {m}"))?.map_err(|e| ctx(e, &b, &[]))?;
    for (i, g) in gs[..gs.len() - 1].iter().enumerate() { ensure!(g.request.is_err(), "the async reader decoded a request cut off after {i} of {total} bytes, or whose read failed: {}", short(&g.request)); }
    decoded(gs.last().unwrap(), w, &b, "async (afterwards)")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit { Cut(u16), Del(u16, u8), Ins(u16, Vec<u8>), Set(u16, u8), Dup(u16, u8) }
fn c14_bytes_strat() -> BoxedStrategy<(Wire, Vec<Edit>, Vec<usize>)> {
    let piece = wt(vec![(2, vec(any::<u8>(), 1..4).boxed()), (3, select(vec!["\r\n", "\n", "\r", "\r\n\r\n", ":", " ", "Content-Length: 1\r\n", "content-length:", "\"", "}", "{", "query", "POST ", "HTTP/1.1", "0", "9", "\\", ",", "Transfer-Encoding: chunked\r\n"]).prop_map(|s| s.as_bytes().to_vec()).boxed())]);
    let e = wt(vec![(1, any::<u16>().prop_map(Edit::Cut).boxed()), (3, (any::<u16>(), 1u8..20).prop_map(|(a, b)| Edit::Del(a, b)).boxed()), (4, (any::<u16>(), piece).prop_map(|(a, b)| Edit::Ins(a, b)).boxed()), (4, (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)).boxed()), (1, (any::<u16>(), 1u8..40).prop_map(|(a, b)| Edit::Dup(a, b)).boxed())]);
    let w = wt(vec![(5, small_wire()), (1, wire_with(text(300), 0..8))]);
    (w, vec(e, 1..4), segs()).boxed()
}
/// The query the bytes stand for, if they are a request at all; None where the property does not say.
fn reference(b: &[u8]) -> Option<Result<String, ()>> {
    let mut hs = [httparse::EMPTY_HEADER; 64];
    let mut r = httparse::Request::new(&mut hs);
    let head = match r.parse(b) { Ok(httparse::Status::Complete(n)) => n, _ => return Some(Err(())) };
    if r.headers.len() > 32 { return None; }
    let cls: Vec<&[u8]> = r.headers.iter().filter(|h| h.name.eq_ignore_ascii_case("content-length")).map(|h| h.value).collect();
    if cls.len() > 1 { return None; }
    if r.headers.iter().any(|h| h.name.eq_ignore_ascii_case("transfer-encoding")) { return None; }
    if r.method != Some("POST") { return Some(Err(())); }
    let Some(cl) = cls.first() else { return Some(Err(())) };
    let Ok(t) = std::str::from_utf8(cl) else { return Some(Err(())) };
    if t.starts_with('+') { return None; }
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) { return Some(Err(())); }
    let Ok(n) = t.parse::<u64>() else { return Some(Err(())) };
    if n > (b.len() - head) as u64 { return Some(Err(())); }
    let body = &b[head..head + n as usize];
    match serde_json::from_slice::<serde_json::Value>(body) {
        Ok(serde_json::Value::Object(m)) => match m.get("query") { Some(serde_json::Value::String(q)) => Some(Ok(q.clone())), _ => Some(Err(())) },
        _ => Some(Err(())),
    }
}
fn c14_bytes(c: &(Wire, Vec<Edit>, Vec<usize>), obs: &mut Obs) -> Res {
    let mut b = c.0.build().bytes;
    for e in &c.1 {
        let n = b.len();
        match e {
            Edit::Cut(a) => b.truncate(*a as usize % (n + 1)),
            Edit::Del(a, l) => if n > 0 { let i = *a as usize % n; let j = (i + *l as usize).min(n); b.drain(i..j); },
            Edit::Ins(a, x) => { let i = *a as usize % (n + 1); b.splice(i..i, x.iter().cloned()); }
            Edit::Set(a, x) => if n > 0 { b[*a as usize % n] = *x },
            Edit::Dup(a, l) => if n > 0 { let i = *a as usize % n; let j = (i + *l as usize).min(n); let s = b[i..j].to_vec(); b.splice(j..j, s); },
        }
    }
    let want = reference(&b);
    obs.nontrivial_if(want == Some(Err(())));
    obs.label_if(matches!(want, Some(Ok(_))), "still valid");
    let seg: Vec<usize> = c.2.iter().map(|&n| n.max(b.len() / 300 + 1)).collect();
    let how = How { segs: seg.clone(), close: true, fail_at: None };
    let text = short(&String::from_utf8_lossy(&b[..b.len().min(500)]));
    let judge = |g: &Got, who: &str| -> Res {
        match (&want, &g.request) {
            (None, _) | (Some(Err(())), Err(_)) => Ok(()),
            (Some(Ok(q)), Ok(x)) if q == x => Ok(()),
            (w, x) => Err(format!("the {who} reader decodes {text} in segments {seg:?} as {}, should be {}", short(x), short(w)).into()),
        }
    };
    let mut h = listen_sync()?;
    let g = recv_sync(&mut h, &b, &how, None).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("{m}: {text}")), e => e })?;
    judge(&g, "blocking")?;
    drop(h);
    let g = recv_async_one(&b, &How { segs: bound(&c.2, b.len()), ..how }).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("{m}: {text}")), e => e })?;
    judge(&g, "async")
}

// --- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Outcome { Ok(Resp), Err(u8, String) }
const KINDS: [(EK, &str, u16); 11] = [(EK::Key, "KeyError", 422), (EK::Network, "NetworkError", 500), (EK::Write, "WriteError", 500), (EK::Token, "TokenizationError", 422), (EK::Parse, "ParseError", 422), (EK::Index, "IndexError", 422), (EK::Type, "TypeError", 422),
    (EK::Internal, "InternalError", 500), (EK::Authorization, "AuthorizationError", 401), (EK::Authentication, "AuthenticationError", 403), (EK::Request, "RequestError", 400)];
pub fn status_of(k: EK) -> u16 { KINDS.iter().find(|x| x.0 == k).unwrap().2 }
pub fn kind_of_body(b: &str) -> Option<EK> { KINDS.iter().find(|x| b.starts_with(x.1)).map(|x| x.0) }
impl Outcome {
    fn real(&self) -> Result<Result<InterpreterResponse, ServerError>, String> {
        Ok(match self {
            Outcome::Ok(r) => Ok(r.real()?),
            Outcome::Err(k, m) => { let m = m.clone(); Err(match KINDS[*k as usize % 11].0 { EK::Key => ServerError::KeyError(m), EK::Network => ServerError::NetworkError(m), EK::Write => ServerError::WriteError(m), EK::Token => ServerError::TokenizationError(m), EK::Parse => ServerError::ParseError(m),
                EK::Index => ServerError::IndexError(m), EK::Type => ServerError::TypeError(m), EK::Internal => ServerError::InternalError(m), EK::Authorization => ServerError::AuthorizationError(m), EK::Authentication => ServerError::AuthenticationError(m), EK::Request => ServerError::RequestError(m) }) }
        })
    }
}
/// A parsed response: status and body; fails unless it is exactly one complete message.
#[derive(Debug, Clone, PartialEq)]
pub struct Reply { pub status: u16, pub body: String, pub heads: Vec<(String, String)> }
pub fn parse_reply(b: &[u8]) -> Result<Reply, String> {
    let show = || short(&String::from_utf8_lossy(&b[..b.len().min(500)]));
    let mut hs = [httparse::EMPTY_HEADER; 32];
    let mut r = httparse::Response::new(&mut hs);
    let head = match r.parse(b) { Ok(httparse::Status::Complete(n)) => n, e => return Err(format!("the response is not a complete HTTP message ({e:?}): {}", show())) };
    let lens: Vec<String> = r.headers.iter().filter(|h| h.name.eq_ignore_ascii_case("content-length")).map(|h| String::from_utf8_lossy(h.value).into_owned()).collect();
    if lens.len() != 1 { return Err(format!("the response has {} length headers: {}", lens.len(), show())); }
    let n: usize = lens[0].parse().map_err(|_| format!("the response has a bad length: {}", show()))?;
    let rest = &b[head..];
    if rest.len() < n { return Err(format!("the response declares {n} bytes of body but has {}: {}", rest.len(), show())); }
    let body = std::str::from_utf8(&rest[..n]).map_err(|_| format!("the declared body of {n} bytes is not text: {}", show()))?;
    if !matches!(&rest[n..], b"" | b"\n" | b"\r\n") { return Err(format!("the response declares {n} bytes of body but {} more follow: {}", rest.len() - n, show())); }
    let heads = r.headers.iter().map(|h| (h.name.to_lowercase(), String::from_utf8_lossy(h.value).into_owned())).collect();
    Ok(Reply { status: r.code.unwrap_or(0), body: body.trim_end_matches(['\r', '\n']).to_string(), heads })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Respond { out: Outcome, sends: Vec<usize>, slow: bool, req: Wire, flaw: Option<Flaw> }
fn outcome() -> BoxedStrategy<Outcome> {
    let big = (wt(vec![(1, size(300_000)), (2, (1000usize..20_000).boxed()), (2, (20_000usize..400_000).boxed())]), text(8)).prop_map(|(n, p)| { let mut s = String::new(); let p = if p.is_empty() { "z".to_string() } else { p }; while s.len() < n { s.push_str(&p) } s });
    let bigs = wt(vec![(2, big.clone().prop_map(|s| Outcome::Ok(Resp::Val(V::S(Sc::S(s))))).boxed()), (1, (1usize..20_000, int()).prop_map(|(n, a)| V::Vec(CT::Int, (0..n).map(|i| Sc::I(a.wrapping_add(i as i64))).collect())).prop_map(|v| Outcome::Ok(Resp::Val(v))).boxed()), (1, vecv(CT::Int, 20_000).prop_map(|v| Outcome::Ok(Resp::Val(v))).boxed()), (1, vecv(CT::Str, 3000).prop_map(|v| Outcome::Ok(Resp::Val(v))).boxed()),
        (1, mapv(KT::Int, CT::Float, 3000).prop_map(|v| Outcome::Ok(Resp::Val(v))).boxed()), (1, (any::<u8>(), big).prop_map(|(k, s)| Outcome::Err(k, s)).boxed())]);
    wt(vec![(6, resp(300).prop_map(Outcome::Ok).boxed()), (5, (0u8..11, text(300)).prop_map(|(k, m)| Outcome::Err(k, m)).boxed()), (2, bigs)])
}
fn c15_strat() -> BoxedStrategy<Respond> {
    let one = wt(vec![(2, (1usize..10).boxed()), (3, (1usize..2000).boxed()), (1, Just(1 << 20).boxed())]);
    (outcome(), wt(vec![(1, Just(vec![]).boxed()), (3, vec(one, 1..5).boxed())]), prop::bool::weighted(0.3), small_wire(), prop::option::weighted(0.3, flaw()))
        .prop_map(|(out, sends, slow, req, flaw)| Respond { out, sends, slow, req, flaw }).boxed()
}
fn judge_reply(out: &Outcome, raw: &[u8], who: &str) -> Result<Reply, Fail> {
    let r = parse_reply(raw).map_err(|m| format!("{who} sender, {}: {m}", short(out)))?;
    match out {
        Outcome::Ok(x) => {
            ensure!(r.status == 200, "{who} sender, {}: status {}", short(out), r.status);
            let back: InterpreterResponse = serde_json::from_str(&r.body).map_err(|e| format!("{who} sender, {}: the body {} does not decode: {e}", short(out), short(&r.body)))?;
            ensure!(x.is(&back), "{who} sender, {}: the body says {}", short(out), short(&r.body));
        }
        Outcome::Err(k, m) => {
            let (_, name, code) = KINDS[*k as usize % 11];
            ensure!(r.status == code, "{who} sender, {}: status {} instead of {code}", short(out), r.status);
            let trimmed = m.trim_end_matches(['\r', '\n']);
            ensure!(r.body.contains(name) && (r.body.contains(trimmed) || r.body.contains(trimmed.trim())), "{who} sender, {}: the body is {}", short(out), short(&r.body));
        }
    }
    Ok(r)
}
fn c15(c: &Respond, obs: &mut Obs) -> Res {
    let (bytes, must_close) = match &c.flaw { None => (c.req.build().bytes, false), Some(f) => flawed(&c.req, f) };
    let how = How { segs: vec![], close: must_close, fail_at: None };
    // A plan of tiny writes for a huge response would only cost time.
    let est = serde_json::to_string(&c.out).map(|s| s.len()).unwrap_or(0);
    let sends: Vec<usize> = c.sends.iter().map(|&n| n.max(est / 300)).collect();
    obs.nontrivial_if(matches!(c.out, Outcome::Err(..)) || sends.first().is_some_and(|&n| n < est) || c.slow && est > 5000);
    obs.label_if(c.slow, "slow reader");
    obs.label_if(est > 50_000, "large");
    obs.label_if(c.flaw.is_some(), "after a broken request");
    let ans = Answer { out: &c.out, sends: &sends, slow: c.slow };
    let mut h = listen_sync()?;
    let a = recv_sync(&mut h, &bytes, &how, Some(&ans))?;
    let ra = judge_reply(&c.out, a.answered.as_ref().unwrap(), "blocking")?;
    drop(h);
    let b = guarded(|| recv_async(&[(&bytes, how, Some(&ans))])).map_err(|m| format!("the async sender {m}"))??.remove(0);
    let rb = judge_reply(&c.out, b.answered.as_ref().unwrap(), "async")?;
    ensure!(ra.status == rb.status && ra.heads == rb.heads, "the senders give different heads for {}: {} {} and {} {}", short(&c.out), ra.status, short(&ra.heads), rb.status, short(&rb.heads));
    if let Outcome::Err(..) = c.out { ensure!(ra.body == rb.body, "the senders give different bodies for {}: {} and {}", short(&c.out), short(&ra.body), short(&rb.body)); }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Patient { unit: String, kb: u16, error: Option<u8>, pauses: Vec<(u16, u16)>, asynch: bool }
fn c15_patient_strat() -> BoxedStrategy<Patient> {
    let at = wt(vec![(2, Just(0).boxed()), (3, any::<u16>().boxed())]);
    (vec(chr(), 1..10), 4_000u16..14_000, prop::option::weighted(0.2, 0u8..11), vec((at, pause()), 1..4), any::<bool>())
        .prop_map(|(unit, kb, error, pauses, asynch)| Patient { unit: unit.into_iter().collect(), kb, error, pauses, asynch }).boxed()
}
fn c15_patient(c: &Patient, obs: &mut Obs) -> Res {
    let n = c.kb as usize * 1024;
    let text: String = c.unit.chars().cycle().scan(0, |l, ch| { *l += ch.len_utf8(); if *l > n { None } else { Some(ch) } }).collect();
    let out = match c.error { None => Outcome::Ok(Resp::Val(V::S(Sc::S(text)))), Some(k) => Outcome::Err(k, text) };
    let real = out.real()?;
    let to = at();
    let mut pauses: Vec<(usize, u16)> = c.pauses.iter().map(|&(p, ms)| (p as usize * n / 65536, ms)).collect();
    pauses.sort();
    let who = if c.asynch { "async" } else { "blocking" };
    let fail = |e: Fail| match e { Fail::Broken(m) => Fail::Broken(format!("{m}; the client pauses after these bytes of the response for these milliseconds: {:?}", c.pauses.iter().map(|&(p, ms)| (p as usize * n / 65536, ms)).collect::<Vec<_>>())), e => e };
    let client = move || -> Result<Vec<u8>, Fail> {
        let mut s = connect(to, Some(4096))?;
        s.write_all(b"POST / HTTP/1.1\r\nContent-Length: 13\r\n\r\n{\"query\":\"a\"}").map_err(|e| Fail::Env(e.to_string()))?;
        let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
        let (mut out, mut buf, mut i) = (vec![], vec![0; 1 << 16], 0);
        loop {
            while i < pauses.len() && pauses[i].0 <= out.len() { std::thread::sleep(Duration::from_millis(pauses[i].1 as u64)); i += 1; }
            match s.read(&mut buf) {
                Ok(0) => return Ok(out),
                Ok(n) => out.extend(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(out),
                Err(e) => return Err(Fail::Broken(format!("the response never ends: {} bytes, then {e}", out.len()))),
            }
        }
    };
    let (request, _, sent, took, got) = served(c.asynch, client, || Some(real)).map_err(fail)?;
    if request.is_err() { return Err(Fail::Env(format!("the request was not read: {}", short(&request)))); }
    obs.nontrivial_if(took >= Duration::from_millis(500));
    obs.label_if(took >= Duration::from_secs(2), "two seconds");
    match sent { None => return Err(format!("a request came without a sender from the {who} reader").into()), Some(Err(e)) => return Err(fail(Fail::Broken(format!("the {who} sender failed: {e}")))), Some(Ok(())) => {} }
    judge_reply(&out, &got.map_err(fail)?, who).map_err(fail)?;
    Ok(())
}
