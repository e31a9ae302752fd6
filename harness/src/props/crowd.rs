//! C19, C20: several clients at once on shared keys; the answers must fit some serial order.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::InterpreterResponse;
use server::error::ServerError;

use super::servers::*;
use crate::engine::short;
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::runner::*;
use crate::sys;


#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rq { level: Need, ops: Vec<Op>, look: u8, gap_us: u16 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Phase { secs: u8, sub: u16, clients: Vec<Vec<Rq>> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd { way: Way, first: Vec<Op>, phases: Vec<Phase> }
const KEYS: [&str; 3] = ["a", "b", "c"];
fn keys() -> Vec<String> { KEYS.iter().map(|s| s.to_string()).collect() }

/// One request in outline; the values are filled in so that every write of a case is different.
fn outline() -> BoxedStrategy<(Vec<Op>, u8)> {
    let u = || V::S(Sc::I(0));
    let k = 0u32..3;
    let p = Profile { shutdown: 0, null: 0, sweep: 0, getlt: 0, lt: 0, reps: false, big: 6, lifetimes: false, ..ALL };
    let kinds = (0u8..30, k.clone(), k.clone(), 0i64..3, 1u64..4).prop_map(move |(n, k, k2, i, l)| {
        let k3 = (k + k2 + 1) % 3;
        let i = V::S(Sc::I(i));
        let vecs = |es: Vec<Sc>| V::Vec(CT::Int, es);
        match n {
            0 => vec![Op::Set(k, u(), None)],
            1 => vec![Op::Set(k, u(), None), Op::Get(k)],
            2 => vec![Op::TrySet(k, u(), None)],
            3 => vec![Op::TrySet(k, u(), None), Op::Get(k)],
            4 => vec![Op::Del(k)],
            5 | 6 => vec![Op::TryGet(k)],
            7 => vec![Op::Set(k, vecs(vec![Sc::I(0)]), None)],
            8 => vec![Op::VPush(k, u())],
            9 => vec![Op::VPush(k, u()), Op::VLen(k)],
            10 => vec![Op::VPop(k)],
            11 | 12 => vec![Op::VPush(k, u()), Op::VPush(k2, u())],
            13 => vec![Op::MSet(k, i, u()), Op::MLen(k)],
            14 => vec![Op::MGet(k, i)],
            15 => vec![Op::MDel(k, i)],
            16 => vec![Op::Upd(k, u(), None)],
            17 => vec![Op::Set(k, u(), Some(l))],
            18 => vec![Op::VPop(k), Op::VPush(k2, u()), Op::VLen(k)],
            19 => vec![Op::Del(k), Op::TrySet(k, u(), None), Op::Get(k)],
            20 => vec![Op::TrySet(k, vecs(vec![]), None), Op::VPush(k, u()), Op::TryGet(k)],
            21 => vec![Op::Set(k, u(), None), Op::Set(k2, u(), None), Op::Get(k)],
            22 => vec![Op::Get(k), Op::Set(k2, u(), Some(l)), Op::TryGet(k)],
            23 => vec![Op::Del(k), Op::Get(k), Op::Set(k2, u(), None)],
            24 | 25 => vec![Op::Set(k, u(), None), Op::Set(k2, u(), None)],
            26 => vec![Op::Set(k, u(), None), Op::Set(k2, u(), None), Op::Set(k3, u(), None)],
            27 => vec![Op::TrySet(k, u(), None), Op::TrySet(k2, u(), None)],
            28 => vec![Op::Del(k), Op::Del(k2)],
            _ => vec![Op::Upd(k, u(), None), Op::Upd(k2, u(), None)],
        }
    });
    let any = vec(op(p), 1..4).prop_map(|v| v.into_iter().map(|o| match o.key() { Some(k) => o.with_key(k % 3), None => o }).filter(lang::expressible).collect::<Vec<_>>());
    (wt(vec![(7, kinds.boxed()), (2, any.boxed())]), wt(vec![(5, Just(0u8).boxed()), (1, (1u8..20).boxed()), (1, select(vec![249u8, 250]).boxed())])).boxed()
}
fn fill(ops: &mut Vec<Op>, pad: u8, n: &mut i64) {
    let plain = |o: &Op| matches!(o, Op::Set(..) | Op::TrySet(..) | Op::Upd(..) | Op::Del(_));
    if pad % 2 == 1 && ops.len() > 1 && ops.iter().all(plain) {
        // The same again and again, of statements that only write.
        let k = ops.len();
        while ops.len() < k * (1 + pad as usize / 4) { ops.push(ops[ops.len() - k].clone()); }
    }
    for o in ops.iter_mut() {
        match o {
            Op::Set(_, V::S(Sc::I(x)), _) | Op::TrySet(_, V::S(Sc::I(x)), _) | Op::Upd(_, V::S(Sc::I(x)), _) | Op::VPush(_, V::S(Sc::I(x))) | Op::MSet(_, _, V::S(Sc::I(x))) => { *n += 1; *x = *n; }
            Op::Set(_, V::Vec(CT::Int, es), _) if es.len() == 1 => { *n += 1; es[0] = Sc::I(*n); }
            _ => {}
        }
    }
    if pad > 0 && ops.len() > 1 && !(pad % 2 == 1 && ops.iter().all(plain)) {
        // Something to do between the statements.
        let mut out = vec![];
        for (i, o) in ops.drain(..).enumerate() { if i > 0 { out.extend((0..pad).map(|j| Op::Ex(j as K % 3))); } out.push(o); }
        *ops = out;
    }
}
fn crowd() -> BoxedStrategy<Crowd> {
    let rq = (select(vec![Need::Admin, Need::Write, Need::Write, Need::Write, Need::Read]), outline(), any::<u8>(), wt(vec![(3, Just(0u16).boxed()), (1, (0u16..600).boxed())]));
    let phase = (0u8..4, any::<u16>(), vec(vec(rq, 1..4), 2..6));
    let first = vec((0u32..3, 0u8..4), 0..4).prop_map(|v| v.into_iter().map(|(k, n)| Op::Set(k, match n { 0 | 1 => V::Vec(CT::Int, vec![]), 2 => V::Map(KT::Int, CT::Int, Default::default()), _ => V::S(Sc::I(-1)) }, None)).collect::<Vec<_>>());
    (way(), first, vec(phase, 1..4)).prop_map(|(way, first, phases)| {
        let mut n = 0;
        let phases = phases.into_iter().map(|(secs, sub, cl)| Phase { secs, sub, clients: cl.into_iter().map(|rs| rs.into_iter().map(|(level, (mut ops, pad), look, gap_us)| { fill(&mut ops, pad, &mut n); Rq { level, ops, look, gap_us } }).collect()).collect() }).collect();
        Crowd { way, first, phases }
    }).boxed()
}

struct Done { client: usize, ops: Vec<Op>, level: Need, now: u64, inv: u64, ret: u64, got: Result<InterpreterResponse, ServerError>, raw: String }
fn user_of(n: Need) -> Option<String> { Some(match n { Need::Admin => "admin", Need::Write => "write", Need::Read => "read" }.into()) }

fn ask(s: &Server, rq: &Rq, client: usize, now: u64, t0: Instant) -> Result<Done, E> {
    let bytes = post(&user_of(rq.level), &lang::print(&super::text::stms(&keys(), &rq.ops), &[]), rq.look);
    let inv = t0.elapsed().as_nanos() as u64;
    let r = s.reply(&bytes, &[], false)?;
    let ret = t0.elapsed().as_nanos() as u64;
    if timed_out(&r) { return Err(E::Timing(format!("the {:?} server answers {} with {} {}", s.kind, short(&rq.ops), r.status, short(&r.body)))); }
    Ok(Done { client, ops: rq.ops.clone(), level: rq.level, now, inv, ret, got: said(&r)?, raw: format!("{} {}", r.status, r.body) })
}

/// Is there an order of the requests, keeping those apart that did not overlap, which explains all answers?
/// None: not found out.
fn serial(h: &[Done]) -> Option<bool> {
    let n = h.len();
    let before: Vec<u128> = h.iter().map(|x| h.iter().enumerate().filter(|(_, y)| y.ret < x.inv).fold(0u128, |m, (j, _)| m | 1 << j)).collect();
    let all = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let mut seen: HashSet<(u128, Model)> = HashSet::new();
    let mut stack = vec![(0u128, Model::new(sys::T0))];
    let ks = keys();
    while let Some((mask, m)) = stack.pop() {
        if mask == all { return Some(true); }
        if seen.len() > 400_000 { return None; }
        for i in (0..n).rev() {
            if mask >> i & 1 == 1 || before[i] & !mask != 0 { continue; }
            let mut m2 = m.clone();
            let d = (h[i].now as u128).saturating_sub(m2.now);
            if d > 0 { m2.advance(d as u64); }
            let (want, _) = m2.batch(&h[i].ops, &ks, h[i].level);
            if !exp_is(&want, &h[i].got) { continue; }
            m2.ghosts.clear();
            let k = (mask | 1 << i, m2);
            if seen.insert(k.clone()) { stack.push(k); }
        }
    }
    Some(false)
}
fn one(c: &Crowd, kind: Kind, obs: &mut Obs) -> Result<(), E> {
    let s = Server::start_with(kind, c.way)?;
    let t0 = Instant::now();
    let mut now = sys::T0;
    let mut all: Vec<Done> = vec![];
    s.set_time(now);
    let alone = |ops: Vec<Op>| Rq { level: Need::Admin, ops, look: 0, gap_us: 0 };
    for o in &c.first { all.push(ask(&s, &alone(vec![o.clone()]), 99, now, t0)?); }
    for (i, p) in c.phases.iter().enumerate() {
        // Sub-second parts of their own, so that no expiry falls on the time of a later phase.
        now += p.secs as u64 * 1_000_000_000 + 1_000_000 + p.sub as u64 * 100 + i as u64;
        s.set_time(now);
        let gate = Barrier::new(p.clients.len());
        let out: Mutex<Vec<Done>> = Mutex::new(vec![]);
        let bad: Mutex<Option<E>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for (n, rs) in p.clients.iter().enumerate() {
                let (s, gate, out, bad, stop) = (&s, &gate, &out, &bad, &stop);
                sc.spawn(move || {
                    gate.wait();
                    for r in rs {
                        if stop.load(Ordering::Relaxed) { return; }
                        if r.gap_us > 0 { std::thread::sleep(Duration::from_micros(r.gap_us as u64)); }
                        match ask(s, r, n, now, t0) {
                            Ok(d) => out.lock().unwrap().push(d),
                            Err(e) => { stop.store(true, Ordering::Relaxed); bad.lock().unwrap().get_or_insert(e); return; }
                        }
                    }
                });
            }
        });
        if let Some(e) = bad.into_inner().unwrap() { return Err(e); }
        all.extend(out.into_inner().unwrap());
        for k in 0..3 { all.push(ask(&s, &alone(vec![Op::TryGet(k)]), 99, now, t0)?); }
    }
    if s.ended() { return Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed"))); }
    verdict(all, &format!("the {kind:?} server"), obs)?;
    obs.label_if(c.phases.iter().any(|p| p.secs > 0), "time moves");
    Ok(())
}
fn verdict(mut all: Vec<Done>, who: &str, obs: &mut Obs) -> Result<(), E> {
    let writes = |d: &Done, k: K| d.ops.iter().any(|o| o.key() == Some(k) && o.need() == Need::Write) && d.level != Need::Read;
    let met = |a: &Done, b: &Done| a.client != b.client && a.inv < b.ret && b.inv < a.ret && (0..3).any(|k| writes(a, k) && b.ops.iter().any(|o| o.key() == Some(k)));
    let n = all.iter().enumerate().map(|(i, a)| all[..i].iter().filter(|b| met(a, b) || met(b, a)).count()).sum::<usize>();
    obs.nontrivial_if(n > 0);
    obs.label_if(n > 0, "requests of two clients meet on a key");
    obs.label_if(n > 9, "at least ten such pairs");
    if all.len() > 128 { return Ok(()); }
    match serial(&all) {
        Some(true) => Ok(()),
        None => { obs.label("order not found out"); Ok(()) }
        Some(false) => {
            all.sort_by_key(|d| d.inv);
            let us = |n: u64| n / 1000;
            let list: Vec<String> = all.iter().map(|d| format!("client {} {:?} {} -> {} [{}..{} us]", d.client, d.level, short(&d.ops.iter().filter(|o| !matches!(o, Op::Ex(_)) || d.ops.len() < 5).collect::<Vec<_>>()), d.raw, us(d.inv), us(d.ret))).collect();
            Err(E::Bad(format!("no serial order of these requests to {who} explains the answers:\n{}", list.join("\n"))))
        }
    }
}
fn check(c: &Crowd, kind: Kind, obs: &mut Obs) -> Res { steady(|| one(c, kind, obs)) }


// --- The analyzers and the executor in this process, without the network

#[cfg(feature = "pools")]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Engine { analyzers: u8, jitter: bool, crowd: Crowd }
#[cfg(feature = "pools")]
fn engine() -> BoxedStrategy<Engine> {
    (1u8..5, any::<bool>(), crowd()).prop_map(|(analyzers, jitter, mut crowd)| {
        // The executor's thread has the real time.
        let timeless = |o: &mut Op| if let Op::Set(_, _, l) | Op::TrySet(_, _, l) | Op::Upd(_, _, l) = o { *l = None };
        for p in &mut crowd.phases { p.secs = 0; for c in &mut p.clients { for r in c { r.ops.iter_mut().for_each(timeless); } } }
        Engine { analyzers, jitter, crowd }
    }).boxed()
}
#[cfg(feature = "pools")]
fn engine_once(c: &Engine, obs: &mut Obs) -> Result<(), E> {
    use server::multithreaded::{analysis::{AnalysisPool, AnalysisRequest}, executor::{Executor, ExecutorRequest, ExecutorResponse}};
    use std::sync::{mpsc::channel, Arc};
    sys::JITTER.store(c.jitter as i32, Ordering::Relaxed);
    let (atx, arx) = channel::<AnalysisRequest>();
    let (etx, erx) = channel::<ExecutorRequest>();
    let mut analyzers = AnalysisPool::new(c.analyzers as usize, etx, Arc::new(Mutex::new(arx)));
    let mut exec = Executor::new(erx, Arc::new(AtomicBool::new(false)));
    exec.start();
    analyzers.start();
    let t0 = Instant::now();
    let ask = |rq: &Rq, client: usize, tx: &std::sync::mpsc::Sender<AnalysisRequest>| -> Result<Done, E> {
        let (rtx, rrx) = channel::<ExecutorResponse>();
        let a = AnalysisRequest { request: lang::print(&super::text::stms(&keys(), &rq.ops), &[]), authorization: crate::engine::level(rq.level), sender: Some(rtx) };
        let inv = t0.elapsed().as_nanos() as u64;
        if tx.send(a).is_err() { return Err(E::Bad("the analyzers have ended".into())); }
        let r = rrx.recv_timeout(Duration::from_secs(8)).map_err(|_| E::Timing(format!("{} gets no answer", short(&rq.ops))))?;
        let ret = t0.elapsed().as_nanos() as u64;
        if rrx.try_recv().is_ok() { return Err(E::Bad(format!("{} gets more than one answer", short(&rq.ops)))); }
        Ok(Done { client, ops: rq.ops.clone(), level: rq.level, now: sys::T0, inv, ret, raw: short(&r.response), got: r.response })
    };
    let alone = |ops: Vec<Op>| Rq { level: Need::Admin, ops, look: 0, gap_us: 0 };
    let r = (|| -> Result<Vec<Done>, E> {
        let mut all = vec![];
        for o in &c.crowd.first { all.push(ask(&alone(vec![o.clone()]), 99, &atx)?); }
        for p in &c.crowd.phases {
            let gate = Barrier::new(p.clients.len());
            let out: Mutex<Vec<Result<Done, E>>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for (n, rs) in p.clients.iter().enumerate() {
                    let (gate, out, ask) = (&gate, &out, &ask);
                    let tx = atx.clone();
                    sc.spawn(move || {
                        gate.wait();
                        for r in rs {
                            if r.gap_us > 0 { std::thread::sleep(Duration::from_micros(r.gap_us as u64 / 8)); }
                            let d = ask(r, n, &tx);
                            let bad = d.is_err();
                            out.lock().unwrap().push(d);
                            if bad { return; }
                        }
                    });
                }
            });
            for d in out.into_inner().unwrap() { all.push(d?); }
            for k in 0..3 { all.push(ask(&alone(vec![Op::TryGet(k)]), 99, &atx)?); }
        }
        Ok(all)
    })();
    drop(atx);
    ends("stopping the workers", move || { analyzers.stop(); drop(analyzers); exec.stop(); drop(exec); })?;
    verdict(r?, &format!("{} analyzers and an executor", c.analyzers), obs)
}

/// Many clients at once: every connection is made, then every request sent, before the first answer is read.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burst { way: Way, rounds: Vec<(u8, u8, u8)>, kinds: Vec<(u8, u8)> }
fn burst() -> BoxedStrategy<Burst> {
    let n = wt(vec![(2, (2u8..12).boxed()), (3, (12u8..40).boxed()), (3, (40u8..96).boxed())]);
    (way(), vec((n, any::<u8>(), any::<u8>()), 1..4), vec((0u8..12, any::<u8>()), 1..30)).prop_map(|(way, rounds, kinds)| Burst { way, rounds, kinds }).boxed()
}
fn burst_once(c: &Burst, kind: Kind, obs: &mut Obs) -> Result<(), E> {
    use server::storage::StorageValue;
    use std::io::{Read, Write};
    let s = Server::start_with(kind, c.way)?;
    s.set_time(sys::T0);
    let w = Some("write".to_string());
    let first = s.ask(&w, "set log int []")?;
    if first.status != 200 { return Err(E::Timing(format!("the first request is answered {} {}", first.status, short(&first.body)))); }
    let mut log: Vec<Option<i64>> = vec![];
    let mut mark = 0i64;
    for (round, &(n, order, lap)) in c.rounds.iter().enumerate() {
        let n = n as usize;
        let mut open: Vec<(usize, std::net::TcpStream)> = vec![];
        let mut want: Vec<(u8, i64, u8)> = vec![];
        let send = |t: &mut std::net::TcpStream, k: (u8, i64, u8)| {
            let (what, m, look) = k;
            let (user, q) = match what {
                0..=2 => ("write", format!("vpush log {m}; vlen log")),
                3 | 4 => ("write", format!("vpush log {m}; vpush log -{m}; vlen log")),
                5 => ("admin", format!("vpush log {m}; vlen log")),
                6 => ("read", format!("vpush log {m}; vlen log")),
                7 => ("nobody", format!("vpush log {m}; vlen log")),
                8 => ("write", format!("vpush log {m} {m}; vlen log; del log")),
                9 => ("write", format!("set own{m} {m}; get own{m}")),
                10 => ("write", format!("vpush log {m}; vlen log; get missing{m}")),
                _ => ("read", format!("try_get own{m}")),
            };
            let _ = t.write_all(&post(&Some(user.into()), &q, look));
        };
        for i in 0..n {
            mark += 1;
            let (what, look) = c.kinds[(i + round) % c.kinds.len()];
            want.push((what, mark, look & 7));
            let mut t = s.dial()?;
            let _ = t.set_read_timeout(Some(Duration::from_secs(15)));
            // Some send while others still connect.
            if i % 8 < (lap % 9) as usize { send(&mut t, want[i]); }
            open.push((i, t));
        }
        for (i, t) in open.iter_mut() { if *i % 8 >= (lap % 9) as usize { send(t, want[*i]); } }
        // Answers are read in another order.
        let step = order as usize;
        open.sort_by_key(|(i, _)| (i * (2 * step + 1)) % 97);
        let before = log.len();
        let mut silent: Vec<Vec<i64>> = vec![];
        for (i, mut t) in open {
            let (what, m, _) = want[i];
            let mut raw = vec![];
            let ask = || format!("{kind:?} server, {n} clients at once, request {what} of client {i}");
            if let Err(e) = t.read_to_end(&mut raw) { if e.kind() != std::io::ErrorKind::ConnectionReset { return Err(E::Timing(format!("{}: no answer within 15 s", ask()))); } }
            if raw.is_empty() { return Err(E::Timing(format!("{}: the connection is closed without an answer", ask()))); }
            let r = super::io::parse_reply(&raw).map_err(|m| E::Bad(format!("{}: {m}", ask())))?;
            if timed_out(&r) { return Err(E::Timing(format!("{}: answered {}", ask(), short(&r.body)))); }
            let got = said(&r)?;
            let bad = |m: &str| Err(E::Bad(format!("{}: answered {} {}{m}", ask(), r.status, short(&r.body))));
            let is = |k: EK| exp_is(&Exp::Err(vec![k]), &got);
            match what {
                0..=5 => {
                    let Ok(InterpreterResponse::Size(len)) = got else { return bad("") };
                    let mine: Vec<i64> = if what == 3 || what == 4 { vec![m, -m] } else { vec![m] };
                    let len = len as usize;
                    if len > 4 * 300 + 10 || len < before + mine.len() { return bad(&format!(", but the log had {before} elements before the round")); }
                    if log.len() < len { log.resize(len, None); }
                    for (j, x) in mine.iter().enumerate() {
                        let at = len - mine.len() + j;
                        if log[at].is_some() { return bad(", as was another"); }
                        log[at] = Some(*x);
                    }
                }
                6 => if !is(EK::Authorization) { return bad("") },
                7 => if !is(EK::Authentication) && !is(EK::Authorization) { return bad("") },
                8 => if got.is_ok() { return bad("") },
                9 => if !exp_is(&Exp::Ok(R::Val(V::S(Sc::I(m)))), &got) { return bad("") },
                10 => { if !is(EK::Key) { return bad("") } silent.push(vec![m]); }
                _ => if !exp_is(&Exp::Ok(R::Val(V::N)), &got) { return bad("") },
            }
        }
        let r = s.ask(&Some("read".into()), "get log")?;
        if timed_out(&r) { return Err(E::Timing("the log is not read".into())); }
        let Ok(InterpreterResponse::Value(StorageValue::Vector(all))) = said(&r)? else { return Err(E::Bad(format!("the log is answered {} {}", r.status, short(&r.body)))) };
        let all: Vec<i64> = (0..all.len()).filter_map(|i| match all.get(i) { Ok(StorageValue::Int(x)) => Some(*x), _ => None }).collect();
        // The pushes of requests whose answer does not tell fill the gaps.
        let total = want.iter().map(|w| match w.0 { 3 | 4 => 2, 0..=2 | 5 | 10 => 1, _ => 0 }).sum::<usize>();
        if all.len() != before + total { return Err(E::Bad(format!("{kind:?} server, {n} clients at once: the log has {} elements after {before} and {total} more", all.len()))); }
        log.resize(all.len(), None);
        let mut left: HashSet<i64> = silent.into_iter().flatten().collect();
        for (i, x) in all.iter().enumerate() {
            let ok = match log[i] { Some(y) => *x == y, None => left.remove(x) };
            if !ok { return Err(E::Bad(format!("{kind:?} server, {n} clients at once: element {i} of the log is {x}, by the answers it is {:?}", log[i]))); }
            log[i] = Some(*x);
        }
        for (w, m, _) in &want {
            if *w != 9 { continue; }
            let r = s.ask(&Some("read".into()), &format!("get own{m}"))?;
            if timed_out(&r) { return Err(E::Timing("an entry is not read".into())); }
            if !exp_is(&Exp::Ok(R::Val(V::S(Sc::I(*m)))), &said(&r)?) { return Err(E::Bad(format!("{kind:?} server: an entry written by one of {n} clients at once reads {} {}", r.status, short(&r.body)))); }
        }
    }
    if s.ended() { return Err(E::Bad(format!("the {kind:?} server stopped although no shutdown was executed"))); }
    let most = c.rounds.iter().map(|r| r.0).max().unwrap_or(0);
    obs.nontrivial_if(most >= 12 && log.len() > 3);
    obs.label_if(most >= 40, "forty clients and more");
    Ok(())
}
fn burst_check(c: &Burst, kind: Kind, obs: &mut Obs) -> Res { steady(|| burst_once(c, kind, obs)) }

fn many_check(c: &Lanes, kind: Kind, obs: &mut Obs) -> Res {
    obs.nontrivial_if(c.lanes.iter().filter(|t| t.said.len() > 3).count() > 1);
    run_lanes(kind, c.way, c)
}

const NOTE: &str = "the server programs run unmodified, with a preloaded shim giving them another loopback address, the time, and 100 ms instead of sleeps of a second or more";
const NOTE2: &str = "the operating system chooses the interleaving, and in two cases of three the shim holds up server threads at random moments where they lock, signal, read or write; an answer that is late or lost counts only if it is three times in a row";
const BURST: &str = "up to 95 clients at once, each with one request, most of which append to one list and are answered its length; the answers and the list at the end give the order, which must be one of whole requests; non-trivial: at least twelve at once, and several that append";
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", level: "exploration", assumptions: &[NOTE, NOTE2], legs: vec![
            Box::new(Leg { name: "c19-crowd", rule: "two to five clients at once with a few requests each on three shared keys, in one to three phases between which time moves; multithreaded server with 1-5 listeners and 1-3 analyzers; the answers, with reads of all keys after each phase, must fit a serial order that keeps requests in sequence which did not overlap; non-trivial: requests of two clients overlap in time on a key that one writes", quick: 1_500, thorough: 60_000, threads: 3, shrink_secs: 60, strat: crowd, check: |c, o| check(c, Kind::Multi, o) }),
            #[cfg(feature = "pools")]
            Box::new(Leg { name: "c19-engine", rule: "the same requests given by several threads to 1-4 analyzers before an executor inside this process, without lifetimes; non-trivial: as above", quick: 2_500, thorough: 300_000, threads: 4, shrink_secs: 60, strat: engine, check: |c, o| steady(|| engine_once(c, o)) }),
            #[cfg(feature = "pools")]
            super::pools::executor_leg("c19-executor", 6_000),
            Box::new(Leg { name: "c19-lanes", rule: "two to five clients at once with many requests, each with keys of its own and so fully predictable answers; non-trivial: two clients with several requests", quick: 120, thorough: 5_000, threads: 3, shrink_secs: 60, strat: || lanes(false, 5..30), check: |c, o| many_check(c, Kind::Multi, o) }),
            Box::new(Leg { name: "c19-burst", rule: BURST, quick: 600, thorough: 5_000, threads: 4, shrink_secs: 60, strat: burst, check: |c, o| burst_check(c, Kind::Multi, o) }),
        ]},
        Prop { id: "C20", level: "exploration", assumptions: &[NOTE, NOTE2], legs: vec![
            Box::new(Leg { name: "c20-crowd", rule: "two to five clients at once with a few requests each on three shared keys, in one to three phases between which time moves; async server; the answers, with reads of all keys after each phase, must fit a serial order that keeps requests in sequence which did not overlap; non-trivial: requests of two clients overlap in time on a key that one writes", quick: 8_000, thorough: 200_000, threads: 8, shrink_secs: 60, strat: crowd, check: |c, o| check(c, Kind::Async, o) }),
            Box::new(Leg { name: "c20-lanes", rule: "two to five clients at once with many requests, each with keys of its own and so fully predictable answers; non-trivial: two clients with several requests", quick: 1_200, thorough: 30_000, threads: 8, shrink_secs: 60, strat: || lanes(false, 5..30), check: |c, o| many_check(c, Kind::Async, o) }),
            Box::new(Leg { name: "c20-burst", rule: BURST, quick: 3_000, thorough: 20_000, threads: 8, shrink_secs: 60, strat: burst, check: |c, o| burst_check(c, Kind::Async, o) }),
        ]},
    ]
}
