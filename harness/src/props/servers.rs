//! C16, C17, C18, C21 (and the running servers of C19, C20): the three server programs as they
//! are, each case in a fresh process of its own, spoken to over TCP.
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::InterpreterResponse;
use server::error::ServerError;

use super::exec::*;
use super::io::{connect, kind_of_body, parse_reply, status_of, Reply};
use crate::engine::short;
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::runner::*;
use crate::{ensure, sys};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind { Simple, Multi, Async }
pub const KINDS: [Kind; 3] = [Kind::Simple, Kind::Multi, Kind::Async];

/// Why a conversation with a server did not go as planned.
pub enum E {
    Bad(String),
    /// May be a matter of timing (an overloaded machine, or a race at the end of the process): worth another run.
    Timing(String),
    Env(String),
}
impl From<Fail> for E { fn from(f: Fail) -> E { match f { Fail::Broken(m) => E::Bad(m), Fail::Env(m) => E::Env(m) } } }
impl From<String> for E { fn from(s: String) -> E { E::Bad(s) } }
/// Runs something that must end.
pub fn ends(what: &str, f: impl FnOnce() + Send + 'static) -> Result<(), E> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let r = guarded(f); let _ = tx.send(r); });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(E::Bad(format!("{what} {m}"))),
        Err(_) => Err(E::Timing(format!("{what} does not end within 20 s"))),
    }
}
/// Repeats what failed by timing alone; a failure that persists is one.
pub fn steady(mut f: impl FnMut() -> Result<(), E>) -> Res {
    let mut n = 0;
    loop {
        match f() {
            Ok(()) => return Ok(()),
            Err(E::Bad(m)) => return Err(Fail::Broken(m)),
            Err(E::Env(m)) => return Err(Fail::Env(m)),
            Err(E::Timing(m)) => { n += 1; if n >= 3 { return Err(Fail::Broken(format!("{m} (three times in a row)"))); } std::thread::sleep(Duration::from_millis(300)); }
        }
    }
}

// --- Server processes

/// How a server is run.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Way {
    /// How long the server takes to get to each write.
    pub send_ms: u32,
    /// Listeners and analyzers of a multithreaded server.
    pub workers: Option<(u8, u8)>,
    /// Not 0: hold up the server's threads now and then, in a way of this number.
    pub jitter: u16,
    /// Without the allocator's caches, so that the memory in use is known exactly.
    #[serde(default)]
    pub exact: bool,
    /// Not 0: taking a connection fails at first, every so often.
    #[serde(default)]
    pub aborts: u8,
}
pub fn way() -> BoxedStrategy<Way> {
    (wt(vec![(2, Just(None).boxed()), (1, (1u8..6, 1u8..4).prop_map(Some).boxed())]), wt(vec![(1, Just(0u16).boxed()), (2, any::<u16>().boxed())])).prop_map(|(workers, jitter)| Way { send_ms: 0, workers, jitter, exact: false, aborts: 0 }).boxed()
}
pub struct Server { child: std::sync::Mutex<Child>, clock: *mut u64, fd: i32, pub at: SocketAddr, pub kind: Kind, up: AtomicBool, slot: usize }
unsafe impl Send for Server {}
unsafe impl Sync for Server {}
/// The addresses in use; a case may take longer than hundreds of others.
static SLOTS: std::sync::Mutex<(usize, [bool; 250])> = std::sync::Mutex::new((0, [false; 250]));
fn take_slot() -> Result<usize, E> {
    let mut s = SLOTS.lock().unwrap();
    for _ in 0..250 {
        s.0 = (s.0 + 1) % 250;
        let n = s.0;
        if !s.1[n] { s.1[n] = true; return Ok(n); }
    }
    Err(E::Env("no address is free".into()))
}
const NOFILE: &str = "128";
const PATIENCE: Duration = Duration::from_secs(8);

impl Server {
    /// Starts a server; the calling thread must outlive it.
    pub fn start(kind: Kind) -> Result<Server, E> { Server::start_with(kind, Way::default()) }
    pub fn start_with(kind: Kind, Way { send_ms, workers, jitter, exact, aborts }: Way) -> Result<Server, E> {
        let slot = take_slot()?;
        let p = std::process::id();
        let ip = Ipv4Addr::new(127, 10 + (p / 250 % 200) as u8, (p % 250) as u8, 1 + slot as u8);
        let dir = std::env::current_exe().map_err(|e| E::Env(e.to_string()))?.parent().unwrap().to_path_buf();
        let (fd, clock) = unsafe {
            let fd = libc::memfd_create(c"clock".as_ptr(), 0);
            if fd < 0 || libc::ftruncate(fd, 4096) != 0 { return Err(E::Env("memfd".into())); }
            let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            if m == libc::MAP_FAILED { return Err(E::Env("mmap".into())); }
            (fd, m as *mut u64)
        };
        unsafe { clock.write_volatile(sys::T0) }
        let mut c = Command::new(dir.join(match (kind, workers.filter(|_| kind == Kind::Multi && cfg!(feature = "coord"))) { (Kind::Simple, _) => "v_simple", (Kind::Multi, None) => "v_multi", (Kind::Multi, _) => "v_coord", (Kind::Async, _) => "v_async" }));
        if let Some((l, a)) = workers { c.arg(l.to_string()).arg(a.to_string()); }
        c.env("LD_PRELOAD", dir.join("shim.so")).env("VH_BIND_IP", ip.to_string()).env("VH_CLOCK_FD", fd.to_string()).env("VH_NAP_MS", "100").env("VH_NOFILE", NOFILE)
            .env_remove("RUST_BACKTRACE").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        if exact { c.env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0"); }
        if jitter > 0 { c.env("VH_JITTER", jitter.to_string()); }
        if aborts > 0 { c.env("VH_ABORTS", aborts.to_string()); }
        if send_ms > 0 { c.env("VH_SEND_MS", send_ms.to_string()); }
        let child = c.spawn().map_err(|e| E::Env(format!("cannot start the server: {e}")))?;
        Ok(Server { child: std::sync::Mutex::new(child), clock, fd, at: SocketAddr::new(ip.into(), 7878), kind, up: AtomicBool::new(false), slot })
    }
    pub fn set_time(&self, ns: u64) { unsafe { self.clock.write_volatile(ns) } }
    /// Bytes of memory the server has in use; `key` names an entry that is present and has a lifetime.
    pub fn memory(&self, key: &str) -> Result<u64, E> {
        let n = unsafe { let n = self.clock.add(1).read_volatile() + 1; self.clock.add(1).write_volatile(n); n };
        for _ in 0..200 {
            self.ask(&Some("read".into()), &format!("get {key}"))?;
            if unsafe { self.clock.add(2).read_volatile() } == n { return Ok(unsafe { self.clock.add(3).read_volatile() }); }
        }
        Err(E::Timing("the server does not look at the time".into()))
    }
    pub fn ended(&self) -> bool { !matches!(self.child.lock().unwrap().try_wait(), Ok(None)) }
    pub fn wait_end(&self, t: Duration) -> bool {
        let end = Instant::now() + t;
        loop {
            if self.ended() { return true; }
            if Instant::now() > end { return false; }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    pub fn dial(&self) -> Result<std::net::TcpStream, E> {
        let t0 = Instant::now();
        loop {
            match connect(self.at, None) {
                Ok(c) => { self.up.store(true, Ordering::SeqCst); return Ok(c); }
                Err(e) => {
                    if self.ended() { return Err(E::Bad(if self.up.load(Ordering::SeqCst) { "the server process has ended".into() } else { "the server process ends at its start".into() })); }
                    let up = self.up.load(Ordering::SeqCst);
                    if t0.elapsed() > Duration::from_secs(if up { 1 } else { 10 }) {
                        return Err(E::Timing(format!("{:?} no longer takes connections ({})", self.kind, match e { Fail::Env(m) | Fail::Broken(m) => m })));
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }
    }
    /// Sends the bytes, and reads all the server answers.
    pub fn exchange(&self, bytes: &[u8], segs: &[usize], half_close: bool) -> Result<Vec<u8>, E> {
        let mut c = self.dial()?;
        let _ = c.set_read_timeout(Some(PATIENCE));
        let _ = c.set_write_timeout(Some(PATIENCE));
        let (mut sent, mut i) = (0, 0);
        while sent < bytes.len() {
            let n = if segs.is_empty() { bytes.len() } else { segs[i.min(segs.len() - 1)].max(bytes.len() / 20) }.clamp(1, bytes.len() - sent);
            if c.write_all(&bytes[sent..sent + n]).is_err() { break; }
            sent += n;
            i += 1;
        }
        if half_close { let _ = c.shutdown(std::net::Shutdown::Write); }
        let mut out = vec![];
        let mut buf = vec![0; 16384];
        loop {
            match c.read(&mut buf) {
                Ok(0) => return Ok(out),
                Ok(n) => out.extend(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(out),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return Err(E::Timing(format!("the {:?} server does not answer within {} s", self.kind, PATIENCE.as_secs()))),
            }
        }
    }
    /// A well-formed request and its answer.
    pub fn ask(&self, user: &Option<String>, query: &str) -> Result<Reply, E> { self.reply(&post(user, query, 0), &[], false) }
    pub fn reply(&self, bytes: &[u8], segs: &[usize], half_close: bool) -> Result<Reply, E> {
        let raw = self.exchange(bytes, segs, half_close)?;
        if raw.is_empty() {
            let m = format!("the {:?} server closes the connection without an answer", self.kind);
            return Err(if self.ended() || self.kind == Kind::Async { E::Timing(m) } else { E::Bad(m) });
        }
        parse_reply(&raw).map_err(|m| E::Bad(format!("{:?} server: {m}", self.kind)))
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let c = self.child.get_mut().unwrap();
        let _ = c.kill();
        let _ = c.wait();
        SLOTS.lock().unwrap().1[self.slot] = false;
        unsafe { libc::munmap(self.clock as *mut libc::c_void, 4096); libc::close(self.fd); }
    }
}

/// A request as bytes, in one of several equivalent spellings.
pub fn post(user: &Option<String>, query: &str, look: u8) -> Vec<u8> {
    let body = serde_json::json!({ "query": query }).to_string();
    let u = user.as_ref().map(|u| format!("Username: {u}\r\n")).unwrap_or_default();
    let l = format!("{}: {}\r\n", if look & 1 == 0 { "Content-Length" } else { "content-length" }, body.len());
    let extra = if look & 2 == 0 { "" } else { "Host: localhost\r\nX-Other: admin\r\n" };
    if look & 4 == 0 { format!("POST / HTTP/1.1\r\n{extra}{u}{l}\r\n{body}") } else { format!("POST / HTTP/1.1\r\n{l}{u}{extra}\r\n{body}") }.into_bytes()
}
/// A request that is no valid query request, and whether the client must end its side for the server to know.
pub fn malformed(user: &Option<String>, k: usize) -> (Vec<u8>, bool) {
    let u = user.as_ref().map(|u| format!("Username: {u}\r\n")).unwrap_or_default();
    let q = r#"{"query": "del a; shutdown"}"#;
    let with = |method: &str, len: &str, body: &str| format!("{method} / HTTP/1.1\r\n{u}{len}\r\n{body}").into_bytes();
    let n = |b: &str| format!("Content-Length: {}\r\n", b.len());
    match k % 12 {
        0 => (with("GET", &n(q), q), false),
        1 => (with("POST", "", q), true),
        2 => (with("POST", &n("{\"query\": "), "{\"query\": "), false),
        3 => (with("POST", &n("{\"quer\": \"del a\"}"), "{\"quer\": \"del a\"}"), false),
        4 => (with("POST", &n("{\"query\": 5}"), "{\"query\": 5}"), false),
        5 => (with("POST", "Content-Length: abc\r\n", q), false),
        6 => (with("POST", "Content-Length: -1\r\n", q), false),
        7 => (with("POST", "Content-Length: 18446744073709551615\r\n", q), true),
        8 => (with("POST", "Content-Length: 4000\r\n", q), true),
        9 => (b"\x16\x03\x01 nonsense\r\n\r\n".to_vec(), false),
        10 => { let mut b = with("POST", "Content-Length: 14\r\n", "{\"query\": \""); b.extend(b"\xff\"}"); (b, true) }
        _ => (format!("POST / HTTP/1.1\r\n{u}Content-Len").into_bytes(), true),
    }
}
/// What a reply says, in the terms of the interpreter; checks that status and body agree.
pub fn said(r: &Reply) -> Result<Result<InterpreterResponse, ServerError>, String> {
    if r.status == 200 {
        return serde_json::from_str(&r.body).map(Ok).map_err(|e| format!("the body {} of a successful response does not decode: {e}", short(&r.body)));
    }
    let Some(k) = kind_of_body(&r.body) else { return Err(format!("a response of status {} with body {}", r.status, short(&r.body))) };
    if status_of(k) != r.status { return Err(format!("status {} with body {}", r.status, short(&r.body))); }
    let m = r.body.clone();
    Ok(Err(match k { EK::Key => ServerError::KeyError(m), EK::Network => ServerError::NetworkError(m), EK::Write => ServerError::WriteError(m), EK::Token => ServerError::TokenizationError(m), EK::Parse => ServerError::ParseError(m), EK::Index => ServerError::IndexError(m),
        EK::Type => ServerError::TypeError(m), EK::Internal => ServerError::InternalError(m), EK::Authorization => ServerError::AuthorizationError(m), EK::Authentication => ServerError::AuthenticationError(m), EK::Request => ServerError::RequestError(m) }))
}
pub fn timed_out(r: &Reply) -> bool { r.status == 500 && r.body.contains("timed out") }

// --- One client

/// Header values that arrive as they were sent.
fn header_safe(s: &str) -> bool { s.trim() == s && s.len() < 900 && s.chars().all(|c| !c.is_control()) && s.bytes().all(|b| b >= 0x20 && b != 0x7f) }
pub fn safe_users(mut t: Talk, broken: bool) -> Talk {
    if !broken { t.said.retain(|s| !matches!(s.ask, Ask::Broken(_))); }
    for s in &mut t.said { if s.user.as_ref().is_some_and(|u| !header_safe(u)) { s.user = Some("other".into()); } }
    t
}

/// What else happens around the requests of a conversation; none of it may change anything.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// A request broken off before its end, by closing the connection normally or abruptly.
    Cut { user: Option<String>, query: String, at: u16, abrupt: bool, held: bool },
    /// A complete reading request whose client does not wait for the answer.
    Gone(Vec<Op>),
    /// The same, and the client resets the connection after so many milliseconds.
    Reset(Vec<Op>, u8),
    /// Connections without a request.
    Empty(u8),
    Bytes(Vec<u8>),
    /// Let the background work run.
    Nap,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv { pub talk: Talk, pub faults: Vec<(u8, Fault)>, pub looks: Vec<u8>, pub probes: bool, pub reps: u8, pub linger: bool,
    /// Not 0: the faults come again after this many requests.
    #[serde(default)]
    pub cycle: usize,
    /// How many milliseconds the server takes to get to each write.
    #[serde(default)]
    pub slow: u8,
    /// Not 0: every so often the server is told of a connection that it is gone, before it gets it.
    #[serde(default)]
    pub aborts: u8 }

pub fn check_reply(p: &Plan, r: &Reply, what: &dyn Fn() -> String) -> Result<(), E> {
    let got = said(r).map_err(|m| format!("{}: {m}", what()))?;
    if p.text.is_err() {
        if got.is_ok() { return Err(E::Bad(format!("{} is answered {}", what(), short(&got)))); }
        return Ok(());
    }
    if !exp_is(&p.want, &got) {
        let m = format!("{} answered {} {}, should be {}", what(), r.status, short(&r.body), short(&p.want));
        return Err(if timed_out(r) { E::Timing(m) } else { E::Bad(m) });
    }
    Ok(())
}
fn do_fault(s: &Server, f: &Fault, pool: &[String]) -> Result<(), E> {
    match f {
        Fault::Cut { user, query, at, abrupt, held } => {
            let b = post(user, query, 0);
            let n = *at as usize % b.len();
            if *abrupt {
                let mut c = s.dial()?;
                let _ = c.write_all(&b[..n]);
                if *held { std::thread::sleep(Duration::from_micros(500)); }
                drop(c);
            } else {
                let raw = s.exchange(&b[..n], &[], true)?;
                if !raw.is_empty() {
                    let r = parse_reply(&raw).map_err(|m| E::Bad(format!("{:?} server: {m}", s.kind)))?;
                    if r.status < 400 { return Err(E::Bad(format!("the {:?} server answers a request cut off after {n} of {} bytes with {} {}", s.kind, b.len(), r.status, short(&r.body)))); }
                }
            }
        }
        Fault::Gone(ops) | Fault::Reset(ops, _) => {
            let ops: Vec<Op> = ops.iter().filter(|o| o.need() == Need::Read && lang::expressible(o)).cloned().collect();
            let mut c = s.dial()?;
            let _ = c.write_all(&post(&Some("read".into()), &lang::print(&super::text::stms(pool, &ops), &[]), 0));
            if let Fault::Reset(_, ms) = f { std::thread::sleep(Duration::from_millis(*ms as u64)); }
            drop(c);
        }
        Fault::Empty(n) => for _ in 0..1 + n % 4 { drop(s.dial()?); },
        Fault::Bytes(b) => { let raw = s.exchange(b, &[], true)?; if let Ok(r) = parse_reply(&raw) { if r.status < 400 { return Err(E::Bad(format!("the {:?} server answers the bytes {} with {} {}", s.kind, short(&String::from_utf8_lossy(b)), r.status, short(&r.body)))); } } }
        Fault::Nap => std::thread::sleep(Duration::from_millis(if s.kind == Kind::Simple { 1 } else { 130 })),
    }
    Ok(())
}

pub struct Course { pub replies: Vec<Option<Reply>>, pub ended: bool }
/// Runs the planned conversation with a fresh server. `judge`: compare with the plan.
pub fn converse(kind: Kind, c: &Conv, ps: &[Plan], judge: bool) -> Result<Course, E> {
    let s = Server::start_with(kind, Way { send_ms: c.slow as u32, aborts: c.aborts, ..Way::default() })?;
    let mut out = vec![];
    let what = |i: usize, p: &Plan| format!("{kind:?} server, request {i} {} by {:?}{}", short(&p.text), p.user, if p.probe { " (reading back)" } else { "" });
    let mut last = sys::T0;
    let main = ps.iter().filter(|p| !p.probe).count().max(1);
    let mut at = 0;
    for (i, p) in ps.iter().enumerate() {
        if !p.probe {
            for (_, f) in c.faults.iter().filter(|(n, _)| if c.cycle > 0 { *n as usize % c.cycle == at % c.cycle } else { *n as usize % main == at }) { do_fault(&s, f, &c.talk.pool)?; }
            at += 1;
        }
        s.set_time(p.now);
        last = p.now;
        let look = if c.looks.is_empty() { 0 } else { c.looks[i % c.looks.len()] };
        let (mut bytes, half) = match &p.text { Ok(t) => (post(&p.user, t, look), false), Err(_) => malformed(&p.user, i + look as usize) };
        // More than the request arrives with it.
        if p.text.is_ok() && look & 24 == 16 && bytes.len() < 16_000 { bytes.extend([&b"\r\n"[..], b"}", &[b'x'; 1500], b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 20\r\n\r\n{\"query\":\"shutdown\"}"][look as usize / 64]); }
        // What does not run can be repeated at will.
        let idle = p.text.is_err() || !p.parses || p.done == 0 && p.want.is_err();
        let shut = p.want.is_shut();
        for _ in 0..if idle && !p.probe { 1 + c.reps } else { 1 } {
            // A malformed request may be answered before all of it has come, and what still comes then resets the connection.
            let segs: &[usize] = if look & 8 != 0 && p.text.is_ok() { &[40, 7, 300] } else { &[] };
            let r = s.reply(&bytes, segs, half).map_err(|e| match e { E::Bad(m) => E::Bad(format!("{}: {m}", what(i, p))), E::Timing(m) => E::Timing(format!("{}: {m}", what(i, p))), e => e });
            let r = match r {
                // The async server's process may end before its last answer is written.
                Err(E::Timing(m)) if shut && s.wait_end(Duration::from_secs(3)) => return Err(E::Timing(m)),
                r => r?,
            };
            if judge { check_reply(p, &r, &|| what(i, p))?; }
            out.push(Some(r));
        }
    }
    let stops = ps.last().is_some_and(|p| p.want.is_shut());
    if stops {
        let t0 = Instant::now();
        if !s.wait_end(Duration::from_secs(20)) { return Err(E::Bad(format!("the {kind:?} server has not stopped {} s after an executed shutdown {}", t0.elapsed().as_secs(), short(&ps.last().unwrap().text)))); }
    } else {
        let ended = |s: &Server| -> Result<(), E> { if s.ended() { Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed; last requests: {}", short(&ps.iter().rev().filter(|p| !p.probe).take(3).map(|p| (&p.text, &p.user)).collect::<Vec<_>>())))) } else { Ok(()) } };
        if c.linger {
            // Long enough for a shutdown to be noticed.
            std::thread::sleep(Duration::from_millis(match kind { Kind::Simple => 5, Kind::Multi => 160, Kind::Async => 1120 }));
            ended(&s)?;
        }
        s.set_time(last + 1000);
        for i in 0..4 {
            let r = s.ask(&Some("read".into()), "try_get zzz_unused").map_err(|e| match e { E::Bad(m) => E::Bad(format!("after the conversation: {m}")), e => e });
            ended(&s)?;
            let r = r?;
            let g = said(&r)?;
            if !exp_is(&Exp::Ok(R::Val(V::N)), &g) {
                let m = format!("{kind:?} server: request {i} after the conversation is answered {} {}", r.status, short(&r.body));
                return Err(if timed_out(&r) { E::Timing(m) } else { E::Bad(m) });
            }
        }
    }
    Ok(Course { replies: out, ended: stops })
}

/// A few requests and faults over and over, so that nothing may be used up.
fn long(n: std::ops::Range<usize>) -> BoxedStrategy<Conv> {
    let p = Profile { shutdown: 0, big: 6, ..TALK };
    (conv(p, true, 4, true, 1..5, true, false, 0), n).prop_map(|(mut c, n)| {
        c.probes = false;
        c.slow = 0;
        c.cycle = c.talk.said.len().max(1);
        c.faults.truncate(3);
        c.faults.retain(|f| !matches!(f.1, Fault::Nap));
        let once = c.talk.said.clone();
        let size = serde_json::to_string(&once).map_or(1, |t| t.len()).max(200) / once.len().max(1);
        let n = n.min(3_000_000 / size);
        for s in once.iter().cycle().take(n.saturating_sub(once.len()).min(n)) { c.talk.said.push(s.clone()); }
        c
    }).boxed()
}
fn looks() -> BoxedStrategy<Vec<u8>> { vec(any::<u8>(), 1..6).boxed() }
fn fault() -> BoxedStrategy<Fault> {
    let q = select(vec!["del a", "set a 1", "shutdown", "set k \"x\"; shutdown", "get a", ""]).prop_map(|s| s.to_string());
    let p = Profile { shutdown: 0, null: 0, sweep: 0, getlt: 0, ..BATCH };
    wt(vec![(5, (user(true), q, any::<u16>(), any::<bool>(), any::<bool>()).prop_map(|(u, query, at, abrupt, held)| Fault::Cut { user: u.filter(|u| header_safe(u)), query, at, abrupt, held }).boxed()),
        (2, vec(op(p), 0..6).prop_map(Fault::Gone).boxed()), (2, (vec(op(p), 0..6), 1u8..9).prop_map(|(o, ms)| Fault::Reset(o, ms)).boxed()), (1, any::<u8>().prop_map(Fault::Empty).boxed()),
        (2, vec(any::<u8>(), 0..60).prop_map(Fault::Bytes).boxed()), (3, Just(Fault::Nap).boxed())])
}
fn conv(p: Profile, bad_users: bool, junk: u32, broken: bool, n: std::ops::Range<usize>, faults: bool, linger: bool, reps: u8) -> BoxedStrategy<Conv> {
    let fs = if faults { vec((any::<u8>(), fault()), 0..6).boxed() } else { Just(vec![]).boxed() };
    let slow = if faults { wt(vec![(3, Just(0u8).boxed()), (1, (4u8..14).boxed())]) } else { Just(0u8).boxed() };
    let aborts = if faults { wt(vec![(3, Just(0u8).boxed()), (1, (1u8..8).boxed())]) } else { wt(vec![(9, Just(0u8).boxed()), (1, (2u8..8).boxed())]) };
    (talk_with(p, bad_users, junk, n), fs, looks(), prop::bool::weighted(0.7), slow, aborts)
        .prop_map(move |(t, faults, looks, probes, slow, aborts)| Conv { aborts, talk: safe_users(t, broken), faults, looks, probes: probes && slow == 0, reps, linger, cycle: 0, slow }).boxed()
}
const SHUTS: Profile = Profile { shutdown: 8, ..TALK };

// --- Several clients that do not meet

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lanes { pub way: Way, pub lanes: Vec<Talk> }
pub fn lanes(bad_users: bool, n: std::ops::Range<usize>) -> BoxedStrategy<Lanes> {
    (way(), vec(talk_with(TALK, bad_users, 0, n), 2..6)).prop_map(|(way, v)| Lanes { way, lanes: v.into_iter().enumerate().map(|(i, t)| {
        let mut t = safe_users(t, false);
        for k in &mut t.pool { *k = format!("lane{i}_{k}"); }
        t.said.retain(|s| matches!(s.ask, Ask::Ops(..)));
        for s in &mut t.said {
            let admin = s.user.as_deref() == Some("admin");
            if let Ask::Ops(ops, _, _) = &mut s.ask { ops.retain(|o| !(admin && *o == Op::Shutdown)); for o in ops { no_short_life(o); } }
        }
        t
    }).collect() }).boxed()
}
pub fn no_short_life(o: &mut Op) {
    if let Op::Set(_, _, Some(l)) | Op::TrySet(_, _, Some(l)) | Op::Upd(_, _, Some(l)) | Op::SetLt(_, Some(l)) = o { *l = (*l).max(1); }
}
pub fn run_lanes(kind: Kind, way: Way, c: &Lanes) -> Res {
    let plans: Vec<Vec<Plan>> = c.lanes.iter().map(|t| plan(t, true, false)).collect();
    steady(|| {
        let s = Server::start_with(kind, way)?;
        let first: std::sync::Mutex<Option<E>> = std::sync::Mutex::new(None);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for (l, ps) in plans.iter().enumerate() {
                let (s, first, stop, plans) = (&s, &first, &stop, &plans);
                sc.spawn(move || {
                    for (i, p) in ps.iter().enumerate() {
                        if stop.load(Ordering::Relaxed) { return; }
                        let Ok(t) = &p.text else { continue };
                        let what = || format!("{kind:?} server, client {l} of {}, request {i} {} by {:?}{}", plans.len(), short(&p.text), p.user, if p.probe { " (reading back)" } else { "" });
                        let r = s.ask(&p.user, t).and_then(|r| check_reply(p, &r, &what));
                        if let Err(e) = r { stop.store(true, Ordering::Relaxed); first.lock().unwrap().get_or_insert(e); return; }
                    }
                });
            }
        });
        match first.into_inner().unwrap() { Some(e) => Err(e), None if s.ended() => Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed"))), None => Ok(()) }
    })
}

// --- The properties

const NOTE: &str = "the programs run unmodified, with a preloaded shim giving them another loopback address, the time, and 100 ms instead of sleeps of a second or more";
const NOTE2: &str = "an answer that is late or lost counts only if it is three times in a row";
pub fn props() -> Vec<Prop> {
    fn users() -> BoxedStrategy<Conv> { conv(Profile { shutdown: 3, ..TALK }, true, 2, true, 1..14, false, false, 0) }
    fn shuts() -> BoxedStrategy<Conv> { conv(SHUTS, false, 2, true, 1..20, false, true, 0) }
    fn rough() -> BoxedStrategy<Conv> { conv(TALK, true, 4, true, 1..14, true, false, 2) }
    vec![
        Prop { id: "C16", level: "exploration", assumptions: &[NOTE, NOTE2], legs: vec![
            Box::new(Leg { name: "c16-simple", rule: "conversations of users of all kinds with the single-threaded server, every request followed by reads of all its keys; non-trivial: a request without valid credentials asks for a change or a shutdown", quick: 8000, thorough: 100_000, threads: 8, shrink_secs: 40, strat: users, check: |c, o| c16(Kind::Simple, c, o) }),
            Box::new(Leg { name: "c16-multi", rule: "the same with the multithreaded server", quick: 300, thorough: 12_000, threads: 4, shrink_secs: 40, strat: users, check: |c, o| c16(Kind::Multi, c, o) }),
            Box::new(Leg { name: "c16-async", rule: "the same with the async server", quick: 1200, thorough: 50_000, threads: 8, shrink_secs: 40, strat: users, check: |c, o| c16(Kind::Async, c, o) }),
            Box::new(Leg { name: "c16-multi-clients", rule: "several clients at once, each with keys of its own and users of all kinds, multithreaded server; non-trivial: as above", quick: 100, thorough: 5_000, threads: 3, shrink_secs: 40, strat: || lanes(true, 1..10), check: |c, o| c16_lanes(Kind::Multi, c, o) }),
            Box::new(Leg { name: "c16-async-clients", rule: "the same with the async server", quick: 400, thorough: 20_000, threads: 6, shrink_secs: 40, strat: || lanes(true, 1..10), check: |c, o| c16_lanes(Kind::Async, c, o) }),
        ]},
        Prop { id: "C17", level: "exploration", assumptions: &[NOTE, NOTE2, "a server that stops does so within 20 s, one that stops wrongly within the time its main loop polls"], legs: vec![
            Box::new(Leg { name: "c17-simple", rule: "conversations full of shutdown statements in every position by users of every level, single-threaded server; non-trivial: a shutdown that is refused, not reached or in a query that does not parse, or one executed after other requests", quick: 6000, thorough: 100_000, threads: 8, shrink_secs: 40, strat: shuts, check: |c, o| c17(Kind::Simple, c, o) }),
            Box::new(Leg { name: "c17-multi", rule: "the same with the multithreaded server", quick: 80, thorough: 3_000, threads: 6, shrink_secs: 40, strat: shuts, check: |c, o| c17(Kind::Multi, c, o) }),
            Box::new(Leg { name: "c17-slow-write", rule: "a shutdown in some query of an admin after a few requests, to each server, which is slow to write its responses; every case is non-trivial", quick: 96, thorough: 3_000, threads: 24, shrink_secs: 40,
                strat: || (select(KINDS.to_vec()), 0u32..1400, vec(op(Profile { shutdown: 0, ..TALK }), 0..3)).boxed(), check: c17_slow }),
            Box::new(Leg { name: "c17-gone", rule: "queries of users of every level with a shutdown in them, to each server, whose client resets the connection after the request was read and before the response is written; non-trivial: the shutdown is executed", quick: 240, thorough: 8_000, threads: 24, shrink_secs: 40,
                strat: gone, check: |c, o| c17_gone(c, o) }),
            #[cfg(feature = "pools")]
            super::pools::executor_leg("c17-executor", 3_000),
            Box::new(Leg { name: "c17-tick", rule: "a shutdown that is executed about when the server looks whether to stop, threads held up at random; every case is non-trivial", quick: 160, thorough: 10_000, threads: 32, shrink_secs: 40, strat: tick, check: c17_tick }),
            Box::new(Leg { name: "c17-busy", rule: "a shutdown executed while one to six other clients send requests without pause, some of them shutdowns that are refused or not reached, to each server; non-trivial: dozens of requests were answered before it", quick: 120, thorough: 4_000, threads: 6, shrink_secs: 60, strat: busy, check: |c, o| c17_busy(c, o) }),
            Box::new(Leg { name: "c17-async", rule: "the same with the async server", quick: 250, thorough: 12_000, threads: 24, shrink_secs: 40, strat: shuts, check: |c, o| c17(Kind::Async, c, o) }),
        ]},
        Prop { id: "C18", level: "exploration", assumptions: &[NOTE, NOTE2, "clients that keep a connection open without finishing their request are out of scope"], legs: vec![
            #[cfg(feature = "pools")]
            super::pools::executor_leg("c18-executor", 2_000),
            Box::new(Leg { name: "c18-simple", rule: "conversations with junk, extreme values, malformed and broken-off requests, abrupt disconnects and moving time, single-threaded server, ending in well-formed requests; non-trivial: at least one such request, and one that is executed after it", quick: 8000, thorough: 100_000, threads: 8, shrink_secs: 60, strat: rough, check: |c, o| c18(Kind::Simple, c, o) }),
            Box::new(Leg { name: "c18-multi", rule: "the same with the multithreaded server and its background sweeps", quick: 200, thorough: 8_000, threads: 4, shrink_secs: 60, strat: rough, check: |c, o| c18(Kind::Multi, c, o) }),
            Box::new(Leg { name: "c18-async", rule: "the same with the async server and its background sweeps", quick: 800, thorough: 40_000, threads: 12, shrink_secs: 60, strat: rough, check: |c, o| c18(Kind::Async, c, o) }),
            Box::new(Leg { name: "c18-long", rule: "a few requests and faults repeated hundreds of times, to each server, which may have 128 files open; non-trivial: as above", quick: 300, thorough: 10_000, threads: 8, shrink_secs: 90,
                strat: || (select(KINDS.to_vec()), long(100..500)).boxed(), check: |(k, c), o| c18(*k, c, o) }),
            Box::new(Leg { name: "c18-marathon", rule: "the same, repeated thousands of times", quick: 16, thorough: 600, threads: 8, shrink_secs: 60,
                strat: || (select(KINDS.to_vec()), long(1200..4500)).boxed(), check: |(k, c), o| c18(*k, c, o) }),
            Box::new(Leg { name: "c18-memory", rule: "large requests of all kinds, executed, refused, malformed, broken off or not waited for, repeated in rounds to each server: the memory in use does not grow with the rounds; non-trivial: more than 1 MB is sent", quick: 160, thorough: 6_000, threads: 8, shrink_secs: 60,
                strat: burden, check: burden_check }),
        ]},
        Prop { id: "C21", level: "exploration", assumptions: &[NOTE, NOTE2], legs: vec![
            Box::new(Leg { name: "c21-variants", rule: "one conversation of well-formed requests with each of the three servers, with moving time; replies compared with each other and with a reference model; non-trivial: an effective request followed by a successful read, and an error", quick: 300, thorough: 12_000, threads: 4, shrink_secs: 60,
                strat: || conv(TALK, true, 2, false, 1..14, false, false, 0), check: c21 }),
            Box::new(Leg { name: "c21-large", rule: "the same with values of up to 60000 characters or elements and requests of up to 3000 statements; non-trivial: a request or an answer of more than 10000 bytes", quick: 240, thorough: 6_000, threads: 4, shrink_secs: 60,
                strat: large_conv, check: c21_large }),
        ]},
    ]
}
fn effective(p: &Plan) -> bool { p.ops[..p.done.min(p.ops.len())].iter().any(|o| o.need() == Need::Write) }
fn c16(kind: Kind, c: &Conv, obs: &mut Obs) -> Res {
    let ps = plan(&c.talk, c.probes, true);
    let bad = |p: &&Plan| p.lvl.is_none();
    obs.nontrivial_if(ps.iter().any(|p| p.lvl.is_none() && p.ops.iter().any(|o| o.need() != Need::Read)));
    obs.label_if(ps.iter().any(|p| p.lvl.is_none() && p.ops.contains(&Op::Shutdown)), "shutdown without credentials");
    obs.label_if(ps.iter().filter(bad).any(|p| !p.parses), "malformed without credentials");
    obs.label_if(ps.windows(2).any(|w| w[0].lvl == Some(Need::Admin) && w[1].lvl.is_none()), "after an admin");
    steady(|| converse(kind, c, &ps, true).map(|_| ()))
}
fn c16_lanes(kind: Kind, c: &Lanes, obs: &mut Obs) -> Res {
    obs.nontrivial_if(c.lanes.iter().any(|t| t.said.iter().any(|s| user_level(&s.user).is_err() && matches!(&s.ask, Ask::Ops(o, _, _) if o.iter().any(|o| o.need() != Need::Read)))));
    run_lanes(kind, c.way, c)
}
fn c17(kind: Kind, c: &Conv, obs: &mut Obs) -> Res {
    let ps = plan(&c.talk, c.probes, true);
    for (i, p) in ps.iter().enumerate() {
        let has = p.ops.contains(&Op::Shutdown) || p.text.as_ref().is_ok_and(|t| t.to_lowercase().contains("shutdown"));
        if !has { continue; }
        obs.label_if(!p.parses, "shutdown in a query that does not parse");
        obs.label_if(p.lvl.is_none(), "without credentials");
        obs.label_if(p.lvl.is_some_and(|l| l != Need::Admin) && p.parses, "without the privilege");
        obs.label_if(p.lvl == Some(Need::Admin) && p.parses && !p.want.is_shut(), "not reached");
        obs.label_if(p.want.is_shut(), "executed");
        obs.nontrivial_if(!p.want.is_shut() || i > 0);
    }
    steady(|| converse(kind, c, &ps, true).map(|_| ()))
}
fn c17_slow(c: &(Kind, u32, Vec<Op>), obs: &mut Obs) -> Res {
    obs.nontrivial_if(true);
    let (kind, ms, ops) = c;
    obs.label(match kind { Kind::Simple => "simple", Kind::Multi => "multi", Kind::Async => "async" });
    let pool = ["k".to_string()];
    let ops: Vec<Op> = ops.iter().filter(|o| lang::expressible(o)).cloned().collect();
    let mut ops = tame(&Model::new(sys::T0), &ops, &pool, 200);
    ops.push(Op::Shutdown);
    steady(|| {
        let s = Server::start_with(*kind, Way { send_ms: *ms, ..Way::default() })?;
        let r = s.ask(&Some("admin".into()), &lang::print(&super::text::stms(&pool, &ops), &[]))?;
        if !exp_is(&Exp::Ok(R::Shut), &said(&r)?) { let m = format!("{kind:?} server: {} is answered {} {}", short(&ops), r.status, short(&r.body)); return Err(if timed_out(&r) { E::Timing(m) } else { E::Bad(m) }); }
        if !s.wait_end(Duration::from_secs(20)) { return Err(E::Bad(format!("the {kind:?} server has not stopped 20 s after an executed shutdown"))); }
        Ok(())
    })
}
/// A shutdown that is executed just before the server looks whether to stop, which it does every second.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tick { kind: Kind, way: Way, seconds: u8, us: i32, before: bool }
fn tick() -> BoxedStrategy<Tick> {
    let us = wt(vec![(3, (-4_000i32..1_500).boxed()), (1, (-1_000_000i32..0).boxed())]);
    (wt(vec![(5, Just(Kind::Async).boxed()), (1, Just(Kind::Multi).boxed())]), way(), any::<u16>(), 1u8..3, us, any::<bool>()).prop_map(|(kind, way, j, seconds, us, before)| Tick { kind, way: Way { jitter: j.max(1), ..way }, seconds, us, before }).boxed()
}
fn c17_tick(c: &Tick, obs: &mut Obs) -> Res {
    obs.nontrivial_if(true);
    obs.label_if(c.us > -4000, "just before the tick");
    steady(|| {
        let s = Server::start_with(c.kind, c.way)?;
        drop(s.dial()?);
        let up = Instant::now();
        let r = s.ask(&Some("write".into()), "set k 1; get k")?;
        if r.status != 200 { return Err(E::Timing(format!("the {:?} server answers {} {}", c.kind, r.status, short(&r.body)))); }
        let at = up + Duration::from_micros((c.seconds as i64 * 1_000_000 + c.us as i64).max(0) as u64);
        std::thread::sleep(at.saturating_duration_since(Instant::now()));
        let raw = s.exchange(&post(&Some("admin".into()), if c.before { "set k 2; shutdown" } else { "shutdown" }, 0), &[], false)?;
        if raw.is_empty() { return Err(E::Timing(format!("the {:?} server closes the connection without an answer to a shutdown", c.kind))); }
        let r = parse_reply(&raw).map_err(|m| E::Bad(format!("{:?} server: {m}", c.kind)))?;
        if !exp_is(&Exp::Ok(R::Shut), &said(&r)?) { let m = format!("{:?} server: a shutdown is answered {} {}", c.kind, r.status, short(&r.body)); return Err(if timed_out(&r) { E::Timing(m) } else { E::Bad(m) }); }
        if !s.wait_end(Duration::from_secs(20)) { return Err(E::Bad(format!("the {:?} server has not stopped 20 s after an executed shutdown", c.kind))); }
        Ok(())
    })
}
/// A request with a shutdown whose client goes away.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leaving { kind: Kind, user: String, before: Vec<Op>, fails: bool, after: Vec<Op>, send_ms: u32, wait_ms: u32, reset: bool, earlier: Vec<bool> }
fn gone() -> BoxedStrategy<Leaving> {
    let p = Profile { shutdown: 0, ..TALK };
    (select(KINDS.to_vec()), wt(vec![(4, Just("admin").boxed()), (2, select(vec!["write", "read", "other"]).boxed())]), vec(op(p), 0..3), prop::bool::weighted(0.25), vec(op(p), 0..2), 25u32..60, prop::bool::weighted(0.8), vec(any::<bool>(), 0..3))
        .prop_map(|(kind, user, before, fails, after, send_ms, reset, earlier)| Leaving { kind, user: user.into(), before, fails, after, send_ms, wait_ms: send_ms / 2, reset, earlier }).boxed()
}
fn c17_gone(c: &Leaving, obs: &mut Obs) -> Res {
    let kind = c.kind;
    obs.label(match kind { Kind::Simple => "simple", Kind::Multi => "multi", Kind::Async => "async" });
    let executed = c.user == "admin" && !c.fails;
    obs.nontrivial_if(executed);
    obs.label_if(!executed, "the shutdown is refused or not reached");
    let pool = ["k".to_string()];
    let keep = |o: &[Op]| o.iter().filter(|o| lang::expressible(o)).cloned().collect::<Vec<Op>>();
    let mut ops = tame(&Model::new(sys::T0), &keep(&c.before), &pool, 200);
    let mut text = "set zz_mark 1; ".to_string();
    not_instant(&mut ops);
    text += &lang::print(&super::text::stms(&pool, &ops), &[]);
    text += if c.fails { "; get zz_missing; shutdown; " } else { "; shutdown; " };
    text += &lang::print(&super::text::stms(&pool, &keep(&c.after)), &[]);
    if lang::parse(&text).is_none() { return Ok(()); }
    let missed = AtomicBool::new(false);
    let r = steady(|| {
        let s = Server::start_with(kind, Way { send_ms: c.send_ms, ..Way::default() })?;
        s.ask(&Some("read".into()), "")?;
        for &done in &c.earlier {
            // Others that went away without asking for a shutdown.
            let mut o = s.dial()?;
            let _ = o.write_all(&post(&Some("admin".into()), if done { "try_get k" } else { "get zz_missing; shutdown" }, 0));
            std::thread::sleep(Duration::from_millis(c.wait_ms as u64));
        }
        let mut o = s.dial()?;
        let bytes = post(&Some(c.user.clone()), &text, 0);
        let _ = o.write_all(&bytes);
        std::thread::sleep(Duration::from_millis((c.wait_ms + c.earlier.len() as u32 * c.send_ms) as u64));
        if !c.reset { let _ = o.shutdown(std::net::Shutdown::Write); let mut b = vec![]; let _ = o.set_read_timeout(Some(Duration::from_millis(1))); let _ = o.read_to_end(&mut b); }
        drop(o);
        if executed {
            if s.wait_end(Duration::from_secs(4)) { return Ok(()); }
            let r = s.ask(&Some("read".into()), "try_get zz_mark");
            if s.wait_end(Duration::from_millis(100)) { return Ok(()); }
            // When the reset came before the request was read, nothing is executed.
            if !matches!(said(&r?)?, Ok(InterpreterResponse::Value(server::storage::StorageValue::Int(1)))) { missed.store(true, Ordering::Relaxed); return Ok(()); }
            if !s.wait_end(Duration::from_secs(16)) { return Err(E::Bad(format!("the {kind:?} server has not stopped 20 s after it executed a shutdown whose client was gone"))); }
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(match kind { Kind::Simple => 5, Kind::Multi => 160, Kind::Async => 1120 }));
        let r = s.ask(&Some("read".into()), "try_get zz_unused");
        if s.ended() { return Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed, after {} by {:?}, whose client was gone", short(&text), c.user))); }
        let r = r?;
        if !exp_is(&Exp::Ok(R::Val(V::N)), &said(&r)?) { return Err(E::Timing(format!("the {kind:?} server answers {} {}", r.status, short(&r.body)))); }
        Ok(())
    });
    obs.label_if(missed.load(Ordering::Relaxed), "not executed after all");
    r
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Busy { kind: Kind, way: Way, clients: Vec<Vec<u8>>, ms: u16, last: u8, twice: bool }
fn busy() -> BoxedStrategy<Busy> {
    (select(KINDS.to_vec()), way(), vec(vec(0u8..10, 1..6), 1..7), 30u16..250, any::<u8>(), any::<bool>()).prop_map(|(kind, way, clients, ms, last, twice)| Busy { kind, way, clients, ms, last, twice }).boxed()
}
fn c17_busy(c: &Busy, obs: &mut Obs) -> Res {
    use std::sync::atomic::AtomicU32;
    let kind = c.kind;
    obs.label(match kind { Kind::Simple => "simple", Kind::Multi => "multi", Kind::Async => "async" });
    let answered = AtomicU32::new(0);
    let r = steady(|| {
        let s = Server::start_with(kind, c.way)?;
        s.set_time(sys::T0);
        s.ask(&Some("read".into()), "")?;
        let (over, asked) = (AtomicBool::new(false), AtomicBool::new(false));
        let bad: std::sync::Mutex<Option<E>> = std::sync::Mutex::new(None);
        answered.store(0, Ordering::Relaxed);
        let res = std::thread::scope(|sc| {
            for (n, kinds) in c.clients.iter().enumerate() {
                let (s, over, asked, bad, answered) = (&s, &over, &asked, &bad, &answered);
                sc.spawn(move || {
                    for i in 0.. {
                        if over.load(Ordering::Relaxed) { return; }
                        // (user, query, kind of error)
                        let (u, q, e) = match kinds[i % kinds.len()] {
                            0 => ("read", format!("try_get k{n}"), None), 1 => ("write", format!("set k{n} {i}; get k{n}"), None), 2 => ("write", format!("set k{n} {i}; shutdown"), Some(EK::Authorization)),
                            3 => ("admin", format!("get missing{n}; shutdown"), Some(EK::Key)), 4 => ("nobody", "shutdown".to_string(), Some(EK::Authentication)), 5 => ("read", "shutdown".to_string(), Some(EK::Authorization)),
                            6 => ("admin", format!("set k{n} \"{}\"", "v".repeat(3000)), None), 7 => ("admin", format!("try_get k{n} shutdown 5"), Some(EK::Parse)), 8 => ("admin", "try_get shutdown".to_string(), Some(EK::Parse)), _ => ("write", format!("set s{n} \"shutdown\"; get s{n}"), None) };
                        let mark = asked.load(Ordering::SeqCst);
                        let x = s.ask(&Some(u.into()), &q);
                        // Once the shutdown is on its way, anything may happen to others.
                        if mark || asked.load(Ordering::SeqCst) { if x.is_err() { return; } continue; }
                        let x = x.and_then(|r| {
                            let got = said(&r)?;
                            let fine = match e { None => got.is_ok(), Some(k) => exp_is(&Exp::Err(vec![k]), &got) || got.is_err() && (k == EK::Parse || k == EK::Authentication) };
                            if fine && !exp_is(&Exp::Ok(R::Shut), &got) { return Ok(()); }
                            let m = format!("{kind:?} server, {} clients without pause: {} by {u:?} is answered {} {}", c.clients.len(), short(&q), r.status, short(&r.body));
                            Err(if timed_out(&r) { E::Timing(m) } else { E::Bad(m) })
                        });
                        match x {
                            Ok(()) => { answered.fetch_add(1, Ordering::Relaxed); }
                            Err(e) => {
                                if asked.load(Ordering::SeqCst) { return; }
                                bad.lock().unwrap().get_or_insert(e);
                                return;
                            }
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_millis(c.ms as u64));
            let r = (|| {
                if s.ended() && bad.lock().unwrap().is_none() { return Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed, with {} clients without pause", c.clients.len()))); }
                if bad.lock().unwrap().is_some() { return Ok(()); }
                asked.store(true, Ordering::SeqCst);
                let q = match c.last % 4 { 0 => "shutdown", 1 => "set last 1; shutdown", 2 => "shutdown; get last", _ => "shutdown; shutdown" };
                let other = if c.twice { let s = &s; Some(sc.spawn(move || { let _ = s.ask(&Some("admin".into()), "shutdown"); })) } else { None };
                let x = s.ask(&Some("admin".into()), q);
                if let Some(o) = other { let _ = o.join(); }
                match x {
                    Ok(r) => if !exp_is(&Exp::Ok(R::Shut), &said(&r)?) {
                        let m = format!("{kind:?} server, {} clients without pause: {q:?} is answered {} {}", c.clients.len(), r.status, short(&r.body));
                        // A second shutdown may find the server stopping.
                        if !c.twice { return Err(if timed_out(&r) { E::Timing(m) } else { E::Bad(m) }); }
                    },
                    Err(E::Bad(m)) | Err(E::Timing(m)) => if !c.twice { return Err(E::Timing(format!("{kind:?} server, {} clients without pause, {q:?}: {m}", c.clients.len()))); },
                    Err(e) => return Err(e),
                }
                if !s.wait_end(Duration::from_secs(20)) { return Err(E::Bad(format!("the {kind:?} server has not stopped 20 s after an executed shutdown, with {} clients that send requests without pause", c.clients.len()))); }
                Ok(())
            })();
            over.store(true, Ordering::Relaxed);
            r
        });
        match (bad.into_inner().unwrap(), res) { (Some(e), _) => Err(e), (None, r) => r }
    });
    obs.nontrivial_if(answered.load(Ordering::Relaxed) >= 24);
    r
}
fn c18(kind: Kind, c: &Conv, obs: &mut Obs) -> Res {
    let ps = plan(&c.talk, c.probes, true);
    let rough = c.faults.iter().any(|f| !matches!(f.1, Fault::Nap)) || ps.iter().any(|p| !p.parses);
    obs.nontrivial_if(rough && ps.iter().any(|p| p.done > 0));
    obs.label_if(c.faults.iter().any(|f| matches!(f.1, Fault::Cut { abrupt: true, .. })), "abrupt disconnect");
    obs.label_if(c.aborts > 0, "connections that fail to be taken");
    obs.label_if(c.faults.iter().any(|f| matches!(f.1, Fault::Nap)) && c.talk.said.iter().any(|s| s.dt != Dt::Tick), "time moves and background work runs");
    obs.label_if(ps.iter().any(|p| p.text.is_err()), "malformed");
    obs.label_if(ps.iter().any(|p| !p.parses && p.text.is_ok()), "does not parse");
    steady(|| converse(kind, c, &ps, true).map(|_| ()))
}
/// What is sent in each round; none of it leaves anything behind that was not there after the first rounds.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burden { kind: Kind, way: Way, kb: u8, round: Vec<u8>, rounds: u8, fresh: bool }
fn burden() -> BoxedStrategy<Burden> {
    (select(KINDS.to_vec()), way(), 15u8..70, vec(0u8..16, 1..4), 30u8..60, any::<bool>()).prop_map(|(kind, way, kb, round, rounds, fresh)| Burden { kind, way, kb, round, rounds, fresh }).boxed()
}
fn burden_once(c: &Burden, obs: &mut Obs) -> Result<(), E> {
    let s = Server::start_with(c.kind, Way { exact: true, ..c.way })?;
    s.set_time(sys::T0);
    let ok = |r: &Reply, what: &str| -> Result<(), E> { if r.status == 200 { Ok(()) } else { let e = format!("the {:?} server answers {what} with {} {}", c.kind, r.status, short(&r.body)); Err(if timed_out(r) { E::Timing(e) } else { E::Bad(e) }) } };
    let w = Some("write".to_string());
    let rd = Some("read".to_string());
    ok(&s.ask(&w, "set stays 1 60000000; set v str []; set m int str {}; set big \"x\"")?, "the first request")?;
    let size = c.kb as usize * 1000;
    let big = "b".repeat(size);
    let mut base = 0;
    let rounds = c.rounds.max(30) as usize;
    for n in 0..rounds + 8 {
        for (i, &what) in c.round.iter().enumerate() {
            // The same key every time, or another one, which is deleted again.
            let k = if c.fresh { format!("k{n}") } else { "k".to_string() };
            let run = |user: &Option<String>, q: String, good: bool| -> Result<(), E> {
                let r = s.ask(user, &q)?;
                if good { ok(&r, &short(&q)) } else if r.status == 200 { Err(E::Bad(format!("the {:?} server answers {} by {user:?} with {}", c.kind, short(&q), short(&r.body)))) } else { Ok(()) }
            };
            match what {
                0 => run(&w, format!("set {k} \"{big}\"; del {k}"), true)?,
                1 => run(&w, format!("set {k} \"{big}{n}\" 4000; set {k} 1; del {k}"), true)?,
                2 => run(&rd, format!("try_get {k}_{big}"), true)?,
                3 => run(&rd, format!("set {k} \"{big}\""), false)?,
                4 => run(&Some("nobody".into()), format!("get {k}_{big}{n}"), false)?,
                5 => run(&w, format!("set {k} [\"{big}{n}\""), false)?,
                6 => run(&w, format!("set {k} \"{big}"), false)?,
                7 => run(&w, format!("get {k}_{big}"), false)?,
                8 => run(&w, format!("vpush v \"{big}\"; vpop v"), true)?,
                9 => run(&w, format!("mset m {n} \"{big}\"; mdel m {n}"), true)?,
                10 => run(&w, format!("set big \"{big}{n}\"; get big"), true)?,
                11 => { s.exchange(format!("POST / HTTP/1.1\r\nUsername: write\r\nContent-Length: {}\r\n\r\n{{\"query\": \"{big}", size * 2).as_bytes(), &[], true)?; }
                12 => { s.exchange(format!("POST / HTTP/1.1\r\nUsername: write\r\nContent-Length: {}\r\n\r\n[\"{big}\"]", size + 4).as_bytes(), &[], false)?; }
                13 => { let mut t = s.dial()?; let _ = t.write_all(&post(&w, &format!("set big \"{big}\"; get big"), 0)); drop(t); }
                14 => { let mut t = s.dial()?; let b = post(&w, &format!("del {k}; {big}"), 0); let _ = t.write_all(&b[..b.len() * (1 + i) / 5]); drop(t); }
                _ => run(&None, format!("get {big}"), false)?,
            }
        }
        if n == 7 { base = s.memory("stays")?; }
    }
    let sent = (rounds * size * c.round.len()) as u64;
    obs.nontrivial_if(sent > 1_000_000);
    obs.label_if(c.round.contains(&13) || c.round.contains(&14), "clients that leave");
    let limit = base + 150_000 + 3 * size as u64 + (rounds * size) as u64 / 6;
    let end = Instant::now() + Duration::from_secs(8);
    loop {
        let now = s.memory("stays")?;
        if now <= limit { return Ok(()); }
        if Instant::now() > end { return Err(E::Timing(format!("the {:?} server holds {} kB more after {rounds} rounds of requests of {} kB which leave nothing behind", c.kind, (now - base) / 1000, c.kb))); }
        std::thread::sleep(Duration::from_millis(30));
    }
}
fn burden_check(c: &Burden, obs: &mut Obs) -> Res { steady(|| burden_once(c, obs)) }
fn large_conv() -> BoxedStrategy<Conv> {
    let p = Profile { big: 30, lifetimes: false, shutdown: 0, lt: 0, ..TALK };
    let who = || wt(vec![(4, Just("write").boxed()), (2, Just("admin").boxed()), (1, Just("read").boxed())]);
    let one = wt(vec![(2, large_v(60_000).prop_map(|v| vec![Op::Set(0, v, None)]).boxed()), (1, large_v(60_000).prop_map(|v| vec![Op::Upd(0, v, None), Op::Get(0)]).boxed()), (3, Just(vec![Op::Get(0)]).boxed()), (1, Just(vec![Op::TryGet(0), Op::Type(0), Op::VLen(0)]).boxed()),
        (3, ops(p, 1..4)), (2, (vec(op(p), 1..4), wt(vec![(2, (50usize..600).boxed()), (1, (600usize..3000).boxed())])).prop_map(|(o, n)| o.into_iter().cycle().take(n).collect()).boxed())]);
    let said = (who(), one, super::text::style(), tameness()).prop_map(|(u, o, st, t)| Said { dt: Dt::Tick, user: Some(u.into()), ask: Ask::Ops(o, st, t), sender: 1 });
    (large_v(60_000), vec(said, 1..6), any::<bool>()).prop_map(|(v, mut said, probes)| {
        said.insert(0, Said { dt: Dt::Tick, user: Some("write".into()), ask: Ask::Ops(vec![Op::Set(0, v, None)], vec![], 0), sender: 1 });
        Conv { talk: Talk { pool: vec!["big".into(), "b".into(), "c".into()], said }, faults: vec![], looks: vec![], probes, reps: 0, linger: false, cycle: 0, slow: 0, aborts: 0 }
    }).boxed()
}
fn c21_large(c: &Conv, obs: &mut Obs) -> Res {
    let ps = plan(&c.talk, c.probes, true);
    obs.nontrivial_if(ps.iter().any(|p| p.text.as_ref().is_ok_and(|t| t.len() > 10_000)));
    obs.label_if(ps.iter().any(|p| p.ops.len() > 100), "more than 100 statements");
    c21(c, &mut Obs::default())
}
fn c21(c: &Conv, obs: &mut Obs) -> Res {
    let ps = plan(&c.talk, c.probes, true);
    let read = ps.iter().position(effective).is_some_and(|i| ps[i + 1..].iter().any(|p| matches!(&p.want, Exp::Ok(R::Val(v)) if *v != V::N)));
    obs.nontrivial_if(read && ps.iter().any(|p| p.want.is_err()));
    obs.label_if(ps.last().is_some_and(|p| p.want.is_shut()), "ends in a shutdown");
    let mut all: Vec<Vec<Reply>> = vec![];
    for k in KINDS {
        let mut got = vec![];
        steady(|| converse(k, c, &ps, true).map(|x| { got = x.replies; }))?;
        all.push(got.into_iter().flatten().collect());
    }
    for k in 1..3 {
        ensure!(all[0].len() == all[k].len(), "{} replies by the single-threaded server, {} by the {:?} one", all[0].len(), all[k].len(), KINDS[k]);
        for (i, (a, b)) in all[0].iter().zip(&all[k]).enumerate() {
            // Maps have no order of their own.
            let sorted = |s: &str| { let mut v = s.as_bytes().to_vec(); v.sort(); v };
            let same = a.body == b.body || sorted(&a.body) == sorted(&b.body) && match (serde_json::from_str::<serde_json::Value>(&a.body), serde_json::from_str::<serde_json::Value>(&b.body)) { (Ok(x), Ok(y)) => x == y, _ => false };
            ensure!(a.status == b.status && same, "request {i} {} by {:?}: the single-threaded server answers {} {}, the {:?} one {} {}", ps.get(i).map(|p| short(&p.text)).unwrap_or_default(), ps.get(i).map(|p| &p.user), a.status, short(&a.body), KINDS[k], b.status, short(&b.body));
        }
    }
    Ok(())
}
