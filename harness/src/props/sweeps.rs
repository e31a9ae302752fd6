//! The background half of C03: the expiration worker, and the sweeps of running servers.
use std::sync::mpsc::{channel, RecvTimeoutError, TryRecvError};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::InterpreterRequest;
use server::multithreaded::executor::ExecutorRequest;
use server::multithreaded::expiration::ExpirationWorker;
use server::storage::Storage;


use super::servers::*;
use crate::engine::{short, Pair};
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::runner::*;
use crate::sys;

// --- The worker, with this harness as the executor

const WORKER: Profile = Profile { sweep: 0, lt: 3, vec: 1, map: 1, getlt: 1, read: 3, store: 8, reps: false, big: 10, ..ALL };
fn worker_once(h: &Hist, obs: &mut Obs) -> Result<(), E> {
    sys::NAP_MS.store(1, Ordering::Relaxed);
    let mut p = Pair::new(&h.pool);
    let (tx, rx) = channel::<ExecutorRequest>();
    let mut w = ExpirationWorker::new(tx);
    w.start();
    fn execute(p: &mut Pair, r: ExecutorRequest) -> Result<usize, E> {
        let before = p.ghosts()?;
        let ExecutorRequest { request: InterpreterRequest { statements, authorization }, sender } = r;
        let what = short(&statements);
        let got = p.it.interpret(InterpreterRequest { statements, authorization });
        if let Err(e) = &got { return Err(E::Bad(format!("the expiration worker's request {what} fails: {e}"))); }
        if let Some(s) = sender { let _ = s.send(server::multithreaded::executor::ExecutorResponse { response: got }); }
        let after = p.ghosts()?;
        if after > before { return Err(E::Bad(format!("the worker's request {what} adds entries"))); }
        p.counts()?;
        p.compare_all()?;
        Ok(before - after)
    }
    let r = (|| -> Result<(), E> {
        for (i, (d, op)) in h.expand().iter().enumerate() {
            p.pass(d);
            p.exec(op)?;
            for r in rx.try_iter().take(3) { p.tick(1_000); if execute(&mut p, r)? > 0 { obs.label("removed meanwhile"); } }
            if i % 8 == 7 { std::thread::sleep(Duration::from_micros(500)); }
        }
        let horizon = p.m.now + 100 * 31_536_000 * SEC;
        if let Some(x) = p.m.ents.values().filter_map(|e| e.exp).filter(|&x| x < horizon).max() { let d = (x - p.m.now) as u64 + 1_000; p.tick(d); }
        let m = p.it.storage.expiring_keys_count().map_err(|e| e.to_string())?;
        let mut left = p.ghosts()?;
        obs.nontrivial_if(left > 0);
        obs.label_if(left > 10, "more than ten entries to remove");
        let bound = m * ((m as f64 + 1.0).ln() as usize + 40) + 60;
        // Also when there is nothing to remove, requests keep coming, and at intervals that do not grow beyond bounds.
        for n in 0.. {
            let nap = sys::LONGEST_NAP.load(Ordering::Relaxed);
            if nap > 3_600 { return Err(E::Bad(format!("after {n} requests the expiration worker lets {nap} s pass before the next ones"))); }
            if left == 0 && n >= 100 { break; }
            if n > bound.max(100) { return Err(E::Bad(format!("{left} expired entries are still held after executing {bound} requests of the expiration worker over {m} expiring entries"))); }
            match rx.recv_timeout(Duration::from_secs(12)) {
                Ok(r) => { p.tick(1_000); left -= execute(&mut p, r)?; }
                Err(RecvTimeoutError::Timeout) => return Err(E::Timing(format!("the expiration worker has sent nothing for 12 s, with {left} expired entries held"))),
                Err(_) => return Err(E::Bad(format!("the expiration worker has ended, with {left} expired entries held"))),
            }
        }
        Ok(())
    })();
    ends("stopping the expiration worker", move || w.stop())?;
    r?;
    let _ = rx.try_iter().count();
    if !matches!(rx.try_recv(), Err(TryRecvError::Disconnected)) { return Err(E::Timing("the expiration worker still runs when stopping it has returned".into())); }
    Ok(())
}
fn worker(h: &Hist, obs: &mut Obs) -> Res { steady(|| worker_once(h, obs)) }

// --- Servers: expired entries do not stay in memory

/// What is done with one key in one cycle.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Put { how: u8, kb: u8, life: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Waste { kind: Kind, way: Way, cycles: Vec<Vec<Put>>, lasting: u8 }
fn waste() -> BoxedStrategy<Waste> {
    let put = (0u8..12, 20u8..60, 1u8..9).prop_map(|(how, kb, life)| Put { how, kb, life });
    (select(vec![Kind::Multi, Kind::Async]), way(), vec(vec(put, 8..26), 1..4), 0u8..4).prop_map(|(kind, way, cycles, lasting)| Waste { kind, way, cycles, lasting }).boxed()
}
fn waste_once(c: &Waste, obs: &mut Obs) -> Result<(), E> {
    let s = Server::start_with(c.kind, super::servers::Way { exact: true, ..c.way })?;
    s.set_time(sys::T0);
    let pool: Vec<String> = std::iter::once("stays".to_string()).chain((0..c.lasting).map(|i| format!("long{i}"))).chain((0..26).map(|i| format!("k{i}"))).collect();
    let first = 1 + c.lasting as K;
    let mut m = Model::new(sys::T0);
    let did = |m: &mut Model, o: Op| -> Result<(), E> {
        let want = m.apply(&o, &pool);
        let r = s.ask(&Some("write".into()), &lang::print(&super::text::stms(&pool, std::slice::from_ref(&o)), &[]))?;
        if !exp_is(&want, &said(&r)?) { let e = format!("the {:?} server answers {} with {} {}, should be {}", c.kind, short(&o), r.status, short(&r.body), short(&want)); return Err(if timed_out(&r) { E::Timing(e) } else { E::Bad(e) }); }
        Ok(())
    };
    did(&mut m, Op::Set(0, V::S(Sc::I(1)), Some(60_000_000)))?;
    for i in 0..c.lasting { did(&mut m, Op::Set(1 + i as K, V::S(Sc::S("x".into())), Some(50_000_000)))?; }
    let base = s.memory("stays")?;
    for (n, puts) in c.cycles.iter().enumerate() {
        let mut gone = 0u64;
        for (i, p) in puts.iter().enumerate() {
            let k = first + i as K;
            let big = |d: usize| V::S(Sc::S("v".repeat(p.kb as usize * 1000 + d)));
            let many = || V::Vec(CT::Str, (0..8).map(|j| Sc::S("w".repeat(p.kb as usize * 125 + j))).collect());
            let small = || V::S(Sc::I(n as i64));
            let life = Some(p.life as u64);
            let mut dies = true;
            let ops = match p.how {
                0..=3 => vec![Op::Set(k, big(0), life)],
                4 => vec![Op::TrySet(k, big(1), life), Op::Set(k, many(), life)],
                5 => vec![Op::Set(k, small(), None), Op::Upd(k, big(2), life)],
                6 => { dies = false; vec![Op::Set(k, big(3), life), Op::Set(k, small(), None)] }
                7 => { dies = false; vec![Op::Set(k, big(4), life), Op::Del(k)] }
                8 => vec![Op::Set(k, big(5), Some(40_000_000)), Op::Upd(k, many(), life)],
                9 => vec![Op::Set(k, V::Vec(CT::Str, vec![]), life), Op::VPush(k, big(6)), Op::VPush(k, V::S(Sc::S("y".into())))],
                10 => { dies = false; vec![Op::Set(k, small(), life), Op::Set(k, small(), Some(30_000_000)), Op::TrySet(k, big(7), life)] }
                _ => vec![Op::Del(k), Op::Set(k, many(), life), Op::VPop(k)],
            };
            for o in ops { did(&mut m, o)?; }
            if dies { gone += p.kb as u64 * 1000; }
        }
        for i in 0..puts.len() { if i % 5 == 0 { did(&mut m, Op::Ex(first + i as K))?; } }
        let full = s.memory("stays")?;
        obs.label_if(full > base + gone / 2, "held before they expire");
        obs.nontrivial_if(gone > 200_000);
        m.advance(20 * SEC as u64);
        s.set_time(m.now as u64);
        let limit = base + gone / 8 + 60_000;
        let end = Instant::now() + Duration::from_secs(15);
        loop {
            let now = s.memory("stays")?;
            if now <= limit { break; }
            if Instant::now() > end { return Err(E::Timing(format!("the {:?} server still holds {} kB of {} kB in entries whose lifetime ended 15 s ago (cycle {n})", c.kind, (now - base) / 1000, gone / 1000))); }
            std::thread::sleep(Duration::from_millis(30));
        }
        for i in 0..puts.len() { did(&mut m, Op::TryGet(first + i as K))?; }
    }
    for i in 0..c.lasting { did(&mut m, Op::Get(1 + i as K))?; }
    Ok(())
}
fn waste_check(c: &Waste, obs: &mut Obs) -> Res { steady(|| waste_once(c, obs)) }

pub fn legs() -> Vec<Box<dyn LegDyn>> {
    vec![
        Box::new(Leg { name: "c03-worker", rule: "random histories during which the requests of a running expiration worker are executed; afterwards they keep coming and remove all that has expired; non-trivial: there was something to remove at the end",
            quick: 2_000, thorough: 100_000, threads: 8, shrink_secs: 40, strat: || hist(WORKER, true), check: worker }),
        Box::new(Leg { name: "c03-servers", rule: "multithreaded and async servers filled with large entries in many ways, the time moved past their lifetimes: the memory in use returns to what it was before; up to three times over; non-trivial: more than 200 kB expire",
            quick: 120, thorough: 4_000, threads: 24, shrink_secs: 60, strat: waste, check: waste_check }),
    ]
}
