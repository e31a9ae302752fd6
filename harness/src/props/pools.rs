//! C22 (and the executor of C19): the worker pools inside this process, between a scripted
//! stream handler and senders that record what they are given.
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use server::analysis::{InterpreterRequest, InterpreterResponse};
use server::auth::MockAuthenticator;
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::multithreaded::analysis::{AnalysisPool, AnalysisRequest};
use server::multithreaded::executor::{Executor, ExecutorRequest, ExecutorResponse};
use server::multithreaded::listener::ListenerPool;

use super::exec::*;
use super::servers::{ends, steady, E};
use crate::engine::{analyse, level, short};
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::runner::*;
use crate::sys;

type Answer = Result<InterpreterResponse, ServerError>;
/// What the senders were given, by request.
#[derive(Default)]
struct Book { got: Mutex<HashMap<usize, Vec<Answer>>> }
impl Book {
    fn count(&self) -> usize { self.got.lock().unwrap().len() }
    fn of(&self, i: usize) -> Vec<Answer> { self.got.lock().unwrap().get(&i).map(|v| v.iter().map(copy).collect()).unwrap_or_default() }
}
fn copy(a: &Answer) -> Answer { a.clone() }
struct Pen { id: usize, book: Arc<Book>, fail: bool, slow_us: u32 }
impl StreamSender for Pen {
    fn send(&mut self, r: Answer) -> Result<(), ServerError> {
        if self.slow_us > 0 { std::thread::sleep(Duration::from_micros(self.slow_us as u64)); }
        self.book.got.lock().unwrap().entry(self.id).or_default().push(r);
        if self.fail { Err(ServerError::WriteError("gone".into())) } else { Ok(()) }
    }
}
struct Inlet { queue: Arc<Mutex<VecDeque<(u32, StreamRequest)>>>, blocking: bool, closed: Arc<AtomicBool> }
impl StreamHandler for Inlet {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        loop {
            let next = self.queue.lock().unwrap().pop_front();
            if let Some((gap, r)) = next { if gap > 0 { std::thread::sleep(Duration::from_micros(gap as u64)); } return Some(r); }
            if !self.blocking || self.closed.load(Ordering::SeqCst) { return None; }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}
fn request(id: usize, p: &Plan, book: &Arc<Book>, slow_us: u32) -> StreamRequest {
    StreamRequest {
        request: match &p.text { Ok(t) => Ok(t.clone()), Err(EK::Request) => Err(ServerError::RequestError(format!("bad {id}"))), Err(EK::Network) => Err(ServerError::NetworkError(format!("bad {id}"))), Err(_) => Err(ServerError::InternalError(format!("bad {id}"))) },
        headers: headers(&p.user),
        sender: match p.sender { 0 => None, n => Some(Box::new(Pen { id, book: book.clone(), fail: n == 2, slow_us })) },
    }
}
pub fn wait_for(t: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + t;
    loop { if f() { return true; } if Instant::now() > end { return false; } std::thread::sleep(Duration::from_micros(500)); }
}
fn timeout_answer(a: &Answer) -> bool { matches!(a, Err(ServerError::InternalError(m)) if m.contains("timed out")) }

// --- Listeners, analyzers and executor together

const POOLS: Profile = Profile { shutdown: 1, null: 0, sweep: 0, getlt: 0, lt: 0, lifetimes: false, reps: false, big: 20, off_type: 3, ..ALL };
#[derive(Clone, Debug, Serialize, Deserialize)]
struct In { said: Said, gap_us: u32, slow_us: u32 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pools { jitter: bool, listeners: u8, analyzers: u8, blocking: bool, in_order: bool, pool: Vec<String>, ins: Vec<In> }
fn pools() -> BoxedStrategy<Pools> {
    let us = || wt(vec![(6, Just(0u32).boxed()), (2, (0u32..2000).boxed()), (1, (0u32..6_000).boxed())]);
    let ins = (talk_with(POOLS, true, 2, 1..25), vec((us(), us()), 30)).prop_map(|(t, us)| {
        let pool = t.pool.clone();
        (pool, t.said.into_iter().zip(us.into_iter().cycle()).filter(|(s, _)| !matches!(&s.ask, Ask::Text(t) if lang::parse(t).is_some())).map(|(said, (gap_us, slow_us))| In { said, gap_us, slow_us: slow_us.min(3000) }).collect::<Vec<_>>())
    });
    (any::<bool>(), 1u8..7, 1u8..5, any::<bool>(), prop::bool::weighted(0.02), ins).prop_map(|(jitter, listeners, analyzers, blocking, in_order, (pool, ins))| Pools { jitter, listeners, analyzers, blocking, in_order, pool, ins }).boxed()
}
fn pools_check(c: &Pools, obs: &mut Obs) -> Res {
    // Each request has keys of its own.
    let plans: Vec<Plan> = c.ins.iter().enumerate().map(|(i, x)| {
        let t = Talk { pool: c.pool.iter().map(|k| format!("r{i}_{k}")).collect(), said: vec![x.said.clone()] };
        plan(&t, false, false).remove(0)
    }).collect();
    let ran = plans.iter().filter(|p| p.done > 0).count();
    obs.nontrivial_if(ran > 1 && plans.iter().any(|p| p.want.is_err()) && c.listeners > 1);
    obs.label_if(plans.iter().any(|p| p.text.is_err()), "malformed on arrival");
    obs.label_if(plans.iter().any(|p| !p.parses && p.text.is_ok()), "does not parse");
    obs.label_if(plans.iter().any(|p| p.lvl.is_none()), "no valid credentials");
    obs.label_if(plans.iter().any(|p| p.want == Exp::Err(vec![EK::Authorization]) && p.lvl.is_some()), "above its level");
    obs.label_if(plans.iter().any(|p| p.sender == 0), "without a sender");
    obs.label_if(plans.iter().any(|p| p.sender == 2), "failing sender");
    obs.label_if(c.blocking, "blocking handler");
    steady(|| pools_once(c, &plans))
}
fn pools_once(c: &Pools, plans: &[Plan]) -> Result<(), E> {
    sys::JITTER.store(c.jitter as i32, Ordering::Relaxed);
    let book = Arc::new(Book::default());
    let queue: VecDeque<_> = plans.iter().enumerate().map(|(i, p)| (c.ins[i].gap_us, request(i, p, &book, c.ins[i].slow_us))).collect();
    let queue = Arc::new(Mutex::new(queue));
    let closed = Arc::new(AtomicBool::new(false));
    let handler = Arc::new(Mutex::new(Inlet { queue: queue.clone(), blocking: c.blocking, closed: closed.clone() }));
    let auth = Arc::new(Mutex::new(MockAuthenticator));
    let flag = Arc::new(AtomicBool::new(false));
    let (atx, arx) = channel::<AnalysisRequest>();
    let (etx, erx) = channel::<ExecutorRequest>();
    let mut listeners = ListenerPool::new(c.listeners as usize, atx, handler.clone(), auth.clone());
    let arx = Arc::new(Mutex::new(arx));
    let mut analyzers = AnalysisPool::new(c.analyzers as usize, etx, arx.clone());
    let mut exec = Executor::new(erx, flag.clone());
    exec.start();
    analyzers.start();
    listeners.start();
    let want = plans.iter().filter(|p| p.sender != 0).count();
    let all = wait_for(Duration::from_secs(15), || book.count() >= want && queue.lock().unwrap().is_empty());
    if all && plans.iter().any(|p| p.sender == 0) {
        // A request without a sender is done when later ones are; wait a little longer for it.
        std::thread::sleep(Duration::from_millis(20));
    }
    std::thread::sleep(Duration::from_millis(2));
    let judge = |last: bool| -> Result<(), E> {
        for (i, p) in plans.iter().enumerate() {
            let a = book.of(i);
            let what = || format!("with {} listeners and {} analyzers, request {i} {} by {:?}", c.listeners, c.analyzers, short(&p.text), p.user);
            if p.sender == 0 { continue; }
            if a.is_empty() { return Err(E::Timing(format!("{} got no answer", what()))); }
            if a.len() > 1 { return Err(E::Bad(format!("{} got {} answers{}: {}", what(), a.len(), if last { " once the pools had stopped" } else { "" }, short(&a)))); }
            let passed = match &p.text { Err(_) => matches!(&a[0], Err(e) if emsg(e) == format!("bad {i}")), Ok(_) => false };
            if !exp_is(&p.want, &a[0]) && !passed {
                let m = format!("{} answered {}, should be {}", what(), short(&a[0]), short(&p.want));
                return Err(if timeout_answer(&a[0]) { E::Timing(m) } else { E::Bad(m) });
            }
            if p.text.is_err() && p.lvl.is_some() && !passed { return Err(E::Bad(format!("{} answered {}, not the error it arrived with", what(), short(&a[0])))); }
        }
        Ok(())
    };
    let first = judge(false);
    let shut = plans.iter().any(|p| p.want.is_shut() && p.sender != 0);
    let flagged = wait_for(Duration::from_secs(if shut { 2 } else { 0 }), || flag.load(Ordering::SeqCst));
    let in_order = c.in_order;
    let stopped = if in_order {
        ends("stopping the pools", move || { listeners.stop(); analyzers.stop(); exec.stop(); drop((listeners, analyzers, exec)); })
    } else {
        // Without their senders, the later stages notice at once.
        ends("stopping the pools", move || { listeners.stop(); drop(listeners); analyzers.stop(); drop(analyzers); exec.stop(); drop(exec); })
    };
    closed.store(true, Ordering::SeqCst);
    first?;
    stopped?;
    if !plans.iter().any(|p| p.want.is_shut()) && flagged { return Err(E::Bad("the executor asks for a shutdown although none was executed".into())); }
    if shut && !flagged { return Err(E::Timing("an executed shutdown is not passed on".into())); }
    // Nothing is left of the workers, and nothing was when the pools said they had stopped.
    for (who, n) in [("a listener", Arc::strong_count(&auth)), ("an analyzer", Arc::strong_count(&arx)), ("the executor", Arc::strong_count(&flag))] {
        if n > 1 { return Err(E::Timing(format!("{who} still runs when stopping the pools has returned"))); }
    }
    if !wait_for(Duration::from_secs(5), || Arc::strong_count(&handler) == 1 && Arc::strong_count(&auth) == 1) { return Err(E::Timing("a listener is still there after the pool has stopped".into())); }
    judge(true)
}

// --- Listeners alone: this harness plays the other workers

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Way { Now, Later(u16), Dropped, TooLate, Twice }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lone { jitter: bool, listeners: u8, blocking: bool, reqs: Vec<(Option<String>, Way, u8)>, hold: u8, newest_first: bool }
fn lone() -> BoxedStrategy<Lone> {
    let way = wt(vec![(8, Just(Way::Now).boxed()), (4, (0u16..150).prop_map(Way::Later).boxed()), (2, Just(Way::Dropped).boxed()), (1, Just(Way::Twice).boxed())]);
    let late = wt(vec![(10, way.clone()), (1, Just(Way::TooLate).boxed())]);
    let one = |w: BoxedStrategy<Way>| vec((user(true), w, wt(vec![(12, Just(1u8).boxed()), (1, Just(0u8).boxed()), (1, Just(2u8).boxed())])), 1..16);
    (any::<bool>(), 1u8..6, any::<bool>(), wt(vec![(12, one(way).boxed()), (1, one(late).boxed())]), 1u8..5, any::<bool>()).prop_map(|(jitter, listeners, blocking, reqs, hold, newest_first)| Lone { jitter, listeners, blocking, reqs, hold, newest_first }).boxed()
}
fn lone_check(c: &Lone, obs: &mut Obs) -> Res {
    obs.nontrivial_if(c.reqs.len() > 1 && c.listeners > 1 && c.reqs.iter().any(|r| r.1 != Way::Now));
    obs.label_if(c.reqs.iter().any(|r| r.1 == Way::TooLate), "reply after the time is up");
    obs.label_if(c.reqs.iter().any(|r| r.1 == Way::Dropped), "no reply will come");
    obs.label_if(c.hold.min(c.listeners) > 1 && c.newest_first, "replies out of order");
    steady(|| lone_once(c))
}
fn lone_once(c: &Lone) -> Result<(), E> {
    sys::JITTER.store(c.jitter as i32, Ordering::Relaxed);
    let book = Arc::new(Book::default());
    let plans: Vec<Plan> = c.reqs.iter().enumerate().map(|(i, (u, _, s))| Plan { now: 0, text: Ok(format!("no query {i}; ☃")), user: u.clone(), want: Exp::Err(vec![]), sender: *s, probe: false, ops: vec![], done: 0, parses: true, lvl: user_level(u).ok() }).collect();
    let queue: VecDeque<_> = plans.iter().enumerate().map(|(i, p)| (0, request(i, p, &book, 0))).collect();
    let queue = Arc::new(Mutex::new(queue));
    let closed = Arc::new(AtomicBool::new(false));
    let handler = Arc::new(Mutex::new(Inlet { queue: queue.clone(), blocking: c.blocking, closed: closed.clone() }));
    let auth = Arc::new(Mutex::new(MockAuthenticator));
    let (atx, arx) = channel::<AnalysisRequest>();
    let mut listeners = ListenerPool::new(c.listeners as usize, atx, handler.clone(), auth.clone());
    listeners.start();
    let good: Vec<usize> = plans.iter().enumerate().filter(|(_, p)| p.lvl.is_some()).map(|(i, _)| i).collect();
    let hold = c.hold.min(c.listeners) as usize;
    let r = (|| -> Result<(), E> {
        let mut seen: Vec<usize> = vec![];
        let mut held: Vec<(usize, Option<Sender<ExecutorResponse>>, Instant)> = vec![];
        let mut late: Vec<(usize, Option<Sender<ExecutorResponse>>, Instant)> = vec![];
        let reply = |i: usize, s: &Option<Sender<ExecutorResponse>>, n: usize| { if let Some(s) = s { let _ = s.send(ExecutorResponse { response: Ok(InterpreterResponse::Message(format!("reply {i} {n}"))) }); } };
        while seen.len() < good.len() || !held.is_empty() || !late.is_empty() {
            let rest = good.len() - seen.len();
            if rest > 0 {
                match arx.recv_timeout(Duration::from_millis(if held.is_empty() { 8000 } else { 4 })) {
                    Ok(a) => {
                        let Some(i) = plans.iter().position(|p| p.text.as_deref() == Ok(&a.request)) else { return Err(E::Bad(format!("the analyzers are handed {}, which no client sent", short(&a.request)))) };
                        if seen.contains(&i) { return Err(E::Bad(format!("request {i} is handed on twice"))); }
                        let Some(l) = plans[i].lvl else { return Err(E::Bad(format!("request {i} by {:?} without credentials is handed on", plans[i].user))) };
                        if a.authorization != level(l) { return Err(E::Bad(format!("request {i} by {:?} is handed on with level {:?}", plans[i].user, a.authorization))); }
                        if a.sender.is_none() { return Err(E::Bad(format!("request {i} is handed on without a way to answer it"))); }
                        seen.push(i);
                        let now = Instant::now();
                        match c.reqs[i].1 { Way::TooLate => late.push((i, a.sender, now)), _ => held.push((i, a.sender, now)) }
                    }
                    Err(RecvTimeoutError::Timeout) if held.is_empty() && late.is_empty() => return Err(E::Timing(format!("{rest} of {} requests with valid credentials are not handed on", good.len()))),
                    Err(RecvTimeoutError::Disconnected) => return Err(E::Bad("the listeners have ended".into())),
                    _ => {}
                }
            } else { std::thread::sleep(Duration::from_millis(1)); }
            if held.len() >= hold || rest <= 1 || held.iter().any(|h| h.2.elapsed() > Duration::from_millis(20)) {
                if c.newest_first { held.reverse(); }
                for (i, s, _) in held.drain(..) {
                    match c.reqs[i].1 {
                        Way::Later(us) => { std::thread::sleep(Duration::from_micros(us as u64 * 50)); reply(i, &s, 0); }
                        Way::Dropped => drop(s),
                        Way::Twice => { reply(i, &s, 0); reply(i, &s, 1); }
                        _ => reply(i, &s, 0),
                    }
                }
            }
            let mut n = 0;
            while n < late.len() { if late[n].2.elapsed() > Duration::from_millis(1600) { let (i, s, _) = late.remove(n); reply(i, &s, 0); } else { n += 1; } }
        }
        let want = plans.iter().filter(|p| p.sender != 0).count();
        wait_for(Duration::from_secs(15), || book.count() >= want);
        std::thread::sleep(Duration::from_millis(2));
        Ok(())
    })();
    let judge = || -> Result<(), E> {
        for (i, p) in plans.iter().enumerate() {
            if p.sender == 0 { continue; }
            let a = book.of(i);
            if a.is_empty() { return Err(E::Timing(format!("request {i} by {:?} got no answer ({:?})", p.user, c.reqs[i].1))); }
            if a.len() > 1 { return Err(E::Bad(format!("request {i} by {:?} got {} answers: {}", p.user, a.len(), short(&a)))); }
            let own = matches!(&a[0], Ok(InterpreterResponse::Message(m)) if *m == format!("reply {i} 0"));
            let fine = match (&p.lvl, c.reqs[i].1) {
                (None, _) => exp_is(&Exp::Err(user_level(&p.user).unwrap_err()), &a[0]),
                (_, Way::Dropped) => matches!(a[0], Err(ServerError::InternalError(_))),
                (_, Way::TooLate) => own || matches!(a[0], Err(ServerError::InternalError(_))),
                _ => own,
            };
            if !fine { let m = format!("request {i} by {:?} ({:?}) answered {}", p.user, c.reqs[i].1, short(&a[0])); return Err(if timeout_answer(&a[0]) { E::Timing(m) } else { E::Bad(m) }); }
        }
        Ok(())
    };
    let first = r.and_then(|()| judge());
    let stopped = ends("stopping the listeners", move || { listeners.stop(); drop(listeners); });
    closed.store(true, Ordering::SeqCst);
    first?;
    stopped?;
    if Arc::strong_count(&auth) > 1 { return Err(E::Timing("a listener still runs when stopping the pool has returned".into())); }
    if !wait_for(Duration::from_secs(5), || Arc::strong_count(&handler) == 1) { return Err(E::Timing("a listener is still there after the pool has stopped".into())); }
    if arx.try_recv().is_ok() { return Err(E::Bad("a request is handed on twice".into())); }
    judge()
}

// --- Analyzers alone

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Texts { analyzers: u8, reqs: Vec<(String, Need, u8)>, burst: bool, quiet: bool }
/// A request comes without a sender, with one, or with one whose receiver has gone.
const NONE: u8 = 0;
const KEPT: u8 = 1;
const GONE: u8 = 2;
fn texts() -> BoxedStrategy<Texts> {
    let good = (pool(false), ops(POOLS, 0..6), super::text::style()).prop_map(|(p, o, s)| { let o: Vec<Op> = o.into_iter().filter(lang::expressible).collect(); lang::print(&super::text::stms(&p, &o), &s) });
    let t = wt(vec![(5, good.boxed()), (1, super::text::soup()), (2, super::text::mutated())]);
    // Some queries are an earlier one in other letters, or with other blanks.
    let again = prop_oneof![6 => Just(0u8), 1 => 1u8..6];
    (1u8..5, vec((t, again, any::<u8>(), need(), prop_oneof![1 => Just(NONE), 8 => Just(KEPT), 2 => Just(GONE)]), 1..30), any::<bool>(), prop::bool::weighted(0.012)).prop_map(|(analyzers, ins, burst, quiet)| {
        let mut reqs: Vec<(String, Need, u8)> = vec![];
        for (t, again, of, n, m) in ins {
            let before = if reqs.is_empty() { String::new() } else { reqs[of as usize % reqs.len()].0.clone() };
            let t = match again { 0 => t, 1 => before, 2 => before.to_lowercase(), 3 => before.to_uppercase(), 4 => before.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect(), _ => before.replace(' ', "  ") };
            reqs.push((t, n, m));
        }
        Texts { analyzers, reqs, burst, quiet }
    }).boxed()
}
fn texts_check(c: &Texts, obs: &mut Obs) -> Res {
    let want: Vec<Result<Vec<lang::Stm>, ServerError>> = c.reqs.iter().map(|r| guarded(|| analyse(&r.0).map(|_| lang::parse(&r.0).unwrap_or_default()))).collect::<Result<_, _>>()?;
    obs.nontrivial_if(c.analyzers > 1 && want.iter().any(|w| w.is_ok()) && want.iter().any(|w| w.is_err()));
    steady(|| texts_once(c, &want))
}
fn same(w: &[lang::Stm], g: &[server::analysis::Statement]) -> bool { w.len() == g.len() && w.iter().zip(g).all(|(a, b)| lang::stmt_is(a, b)) }
fn texts_once(c: &Texts, want: &[Result<Vec<lang::Stm>, ServerError>]) -> Result<(), E> {
    let (atx, arx) = channel::<AnalysisRequest>();
    let (etx, erx) = channel::<ExecutorRequest>();
    let arx = Arc::new(Mutex::new(arx));
    let mut analyzers = AnalysisPool::new(c.analyzers as usize, etx, arx.clone());
    let mut back: Vec<Receiver<ExecutorResponse>> = vec![];
    if !c.burst { analyzers.start(); }
    for (t, l, s) in &c.reqs {
        let (tx, rx) = channel();
        let _ = atx.send(AnalysisRequest { request: t.clone(), authorization: level(*l), sender: if *s == NONE { None } else { Some(tx) } });
        back.push(if *s == KEPT { rx } else { channel().1 });
    }
    if c.burst { analyzers.start(); }
    let n = want.iter().filter(|w| w.is_ok()).count();
    let mut got: Vec<ExecutorRequest> = vec![];
    let r = (|| -> Result<(), E> {
        while got.len() < n { match erx.recv_timeout(Duration::from_secs(8)) { Ok(e) => got.push(e), Err(_) => return Err(E::Timing(format!("only {} of {n} parsed requests reach the executor", got.len()))) } }
        // Mark the way back of each.
        let mut left: Vec<usize> = (0..want.len()).filter(|&i| want[i].is_ok()).collect();
        let (mut bare, mut lost): (Vec<(Vec<server::analysis::Statement>, server::auth::AuthorizationLevel)>, Vec<_>) = Default::default();
        for (j, e) in got.into_iter().enumerate() {
            let Some(s) = e.sender else { bare.push((e.request.statements, e.request.authorization)); continue };
            if s.send(ExecutorResponse { response: Ok(InterpreterResponse::Size(j)) }).is_err() { lost.push((e.request.statements, e.request.authorization)); continue; }
            let Some(i) = left.iter().copied().find(|&i| c.reqs[i].2 == KEPT && back[i].try_recv().is_ok()) else { return Err(E::Bad(format!("the statements {} are handed on with the sender of another request", short(&e.request.statements)))) };
            left.retain(|&x| x != i);
            let w = want[i].as_ref().unwrap();
            if !same(w, &e.request.statements) { return Err(E::Bad(format!("the query {} reaches the executor as {}", short(&c.reqs[i].0), short(&e.request.statements)))); }
            if e.request.authorization != level(c.reqs[i].1) { return Err(E::Bad(format!("the query {} at level {:?} reaches the executor at level {:?}", short(&c.reqs[i].0), c.reqs[i].1, e.request.authorization))); }
        }
        for (mode, st, a) in bare.into_iter().map(|(s, a)| (NONE, s, a)).chain(lost.into_iter().map(|(s, a)| (GONE, s, a))) {
            let Some(p) = left.iter().position(|&i| c.reqs[i].2 == mode && want[i].as_ref().is_ok_and(|w| same(w, &st)) && level(c.reqs[i].1) == a) else { return Err(E::Bad(format!("the executor is handed {} at level {a:?} {}", short(&st), if mode == NONE { "without a sender" } else { "with a sender nobody listens to" }))) };
            left.remove(p);
        }
        for (i, w) in want.iter().enumerate() {
            let Err(e) = w else { continue };
            if c.reqs[i].2 != KEPT { continue; }
            match back[i].recv_timeout(Duration::from_secs(8)) {
                Ok(ExecutorResponse { response: Err(g) }) if ekind(&g) == ekind(e) => {}
                Ok(r) => return Err(E::Bad(format!("the query {} is answered {}, should be {}", short(&c.reqs[i].0), short(&r.response), short(e)))),
                Err(RecvTimeoutError::Timeout) => return Err(E::Timing(format!("the query {}, which does not parse, is not answered", short(&c.reqs[i].0)))),
                Err(_) => return Err(E::Bad(format!("the query {}, which does not parse, is dropped without an answer", short(&c.reqs[i].0)))),
            }
        }
        Ok(())
    })();
    if !c.quiet { drop(atx); }
    let stopped = ends("stopping the analyzers", move || { analyzers.stop(); drop(analyzers); });
    r?;
    stopped?;
    if Arc::strong_count(&arx) > 1 { return Err(E::Timing("an analyzer still runs when stopping the pool has returned".into())); }
    if erx.try_recv().is_ok() { return Err(E::Bad("a query reaches the executor twice".into())); }
    for (i, b) in back.iter().enumerate() { if let Ok(r) = b.try_recv() { return Err(E::Bad(format!("the query {} is answered a second time: {}", short(&c.reqs[i].0), short(&r.response)))); } }
    Ok(())
}

// --- The executor alone: the order of its channel is the order of execution

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line { pool: Vec<String>, reqs: Vec<(Need, Vec<Op>, u8, u8)>, burst: bool }
fn line() -> BoxedStrategy<Line> {
    let p = Profile { shutdown: 1, null: 1, ..POOLS };
    let ops_ = wt(vec![(3, ops(p, 0..6)), (1, vec(op(p), 0..12).boxed())]);
    (pool(true), vec((need(), ops_, tameness(), wt(vec![(6, Just(1u8).boxed()), (1, Just(0u8).boxed()), (1, Just(2u8).boxed())])), 1..40), any::<bool>()).prop_map(|(pool, reqs, burst)| Line { pool, reqs, burst }).boxed()
}
fn line_check(c: &Line, obs: &mut Obs) -> Res {
    let mut m = Model::new(sys::T0);
    let mut sent = vec![];
    let mut shut = false;
    for (l, ops, t, _) in &c.reqs {
        let ops = tame(&m, ops, &c.pool, *t);
        let (w, done) = m.batch(&ops, &c.pool, *l);
        shut |= w.is_shut();
        sent.push((ops, w, done));
    }
    obs.nontrivial_if(sent.iter().filter(|s| s.2 > 0 && s.0.iter().any(|o| o.need() == Need::Write)).count() > 1 && c.reqs.len() > 3);
    obs.label_if(shut, "executed shutdown");
    obs.label_if(c.reqs.iter().any(|r| r.3 != 1), "nobody waits for an answer");
    steady(|| {
        let flag = Arc::new(AtomicBool::new(false));
        let (tx, rx) = channel::<ExecutorRequest>();
        let mut ex = Executor::new(rx, flag.clone());
        if !c.burst { ex.start(); }
        let mut back = vec![];
        for (i, (l, _, _, s)) in c.reqs.iter().enumerate() {
            let (atx, arx) = channel();
            let statements = sent[i].0.iter().map(|o| o.stmt(&c.pool)).collect::<Result<Vec<_>, _>>()?;
            let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements, authorization: level(*l) }, sender: if *s == 0 { None } else { Some(atx) } });
            back.push(if *s == 1 { Some(arx) } else { None });
        }
        // The last one to be answered is a read.
        let (atx, arx) = channel();
        let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![], authorization: level(Need::Read) }, sender: Some(atx) });
        if c.burst { ex.start(); }
        let r = (|| -> Result<(), E> {
            arx.recv_timeout(Duration::from_secs(10)).map_err(|_| E::Timing("the executor does not answer within 10 s".into()))?;
            for (i, b) in back.iter().enumerate() {
                let Some(b) = b else { continue };
                let (ops, w, _) = &sent[i];
                let got: Vec<Answer> = b.try_iter().map(|x| x.response).collect();
                if got.len() != 1 { return Err(E::Bad(format!("request {i} {} got {} answers although later ones are answered", short(ops), got.len()))); }
                if !exp_is(w, &got[0]) { return Err(E::Bad(format!("request {i} {} at level {:?} answered {}, should be {}", short(ops), c.reqs[i].0, short(&got[0]), short(w)))); }
            }
            Ok(())
        })();
        let f = wait_for(Duration::from_millis(if shut { 3000 } else { 0 }), || flag.load(Ordering::SeqCst));
        drop(tx);
        let stopped = ends("stopping the executor", move || ex.stop());
        r?;
        stopped?;
        if Arc::strong_count(&flag) > 1 { return Err(E::Timing("the executor still runs when stopping it has returned".into())); }
        if f != shut { return Err(if f { E::Bad("the executor asks for a shutdown although none was executed".into()) } else { E::Timing("an executed shutdown is not passed on".into()) }); }
        Ok(())
    })
}

pub fn executor_leg(name: &'static str, quick: u64) -> Box<dyn LegDyn> {
    Box::new(Leg { name, rule: "requests put into the channel of an executor, with and without somebody waiting for the answer: the answers are those of executing them in the order of the channel; non-trivial: at least two effective requests of more than three", quick, thorough: quick * 50, threads: 4, shrink_secs: 40, strat: line, check: line_check })
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C22", level: "exploration", assumptions: &["the operating system chooses the interleaving; in half of the cases threads are held up at random moments where they lock or signal", "an answer that is late or missing counts only if it is three times in a row", "requests still under way when the pools are told to stop are out of scope"], legs: vec![
        Box::new(Leg { name: "c22-pools", rule: "requests of users of all kinds, with queries that succeed, fail, are refused, do not parse or were malformed on arrival, through 1-6 listeners, 1-4 analyzers and the executor, from a polling or blocking handler to normal, slow, failing or missing senders; then the pools are stopped; non-trivial: several listeners, two requests that run and one that fails", quick: 1_400, thorough: 60_000, threads: 4, shrink_secs: 60, strat: pools, check: pools_check }),
        Box::new(Leg { name: "c22-listeners", rule: "1-5 listeners with analyzers played by the harness, which answers out of order, late, twice, too late or never; non-trivial: several listeners and requests, not all answered at once", quick: 2_500, thorough: 100_000, threads: 8, shrink_secs: 60, strat: lone, check: lone_check }),
        Box::new(Leg { name: "c22-analyzers", rule: "1-4 analyzers given queries that do and do not parse (some an earlier one in other letters), at all levels, between harness ends that wait for the answer, do not, or have gone; non-trivial: several analyzers, and both kinds of query", quick: 8_000, thorough: 300_000, threads: 3, shrink_secs: 60, strat: texts, check: texts_check }),
    ]}]
}
