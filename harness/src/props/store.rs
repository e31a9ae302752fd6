//! C01 - C06: the store and its values.
use std::collections::{BTreeMap, BTreeSet};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Statement};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{Storage, StorageMap, StorageValue, StorageVector};

use crate::{ensure, lang, sys};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;

pub fn props() -> Vec<Prop> {
    const CLOCK: &str = "time is the virtual clock the harness gives to the code under test (CLOCK_REALTIME interposed)";
    const STORE: Profile = Profile { vec: 0, map: 0, ..PLAIN };
    fn c01_obs(op: &Op, want: &Exp, _: &Pair, obs: &mut Obs) {
        obs.label_if(want.is_err(), "failed");
        obs.label_if(matches!((op, want), (Op::TrySet(..), Exp::Ok(R::Bool(false)))), "conditional set refused");
        obs.label_if(matches!((op, want), (Op::Upd(..), Exp::Ok(_))), "updated");
        obs.label_if(matches!((op, want), (Op::Del(..), Exp::Ok(R::Bool(true)))), "deleted");
        obs.nontrivial_if(matches!((op, want), (Op::Get(..) | Op::TryGet(..), Exp::Ok(R::Val(v))) if *v != V::N));
    }
    fn c01(h: &Hist, way: Way, obs: &mut Obs) -> Res {
        let p = run(h, Opts { way, counts: true, unchanged: false }, obs, c01_obs)?;
        obs.label_if(p.m.ents.len() > 20, "more than 20 entries");
        Ok(())
    }
    fn c02_obs(op: &Op, want: &Exp, p: &Pair, obs: &mut Obs) {
        let gone = op.key().is_some_and(|k| p.m.ghosts.contains(&kname(&p.pool, k)));
        obs.label_if(gone, "statement on an expired key");
        obs.nontrivial_if(gone);
        obs.label_if(matches!((op, want), (Op::GetLt(..), Exp::Ok(R::Exp(Some(_))))), "lifetime read");
        obs.label_if(matches!((op, want), (Op::Set(_, _, Some(_)) | Op::SetLt(_, Some(_)), Exp::Err(k)) if k.is_empty()), "lifetime too large");
        obs.label_if(matches!((op, want), (Op::SetLt(_, None), Exp::Ok(_))), "lifetime removed");
    }
    vec![
        Prop { id: "C01", level: "exploration", assumptions: &[CLOCK], legs: vec![
            Box::new(Leg { name: "c01-statements", rule: "random histories of set/try_set/upd/del/reads over up to 40 keys through the interpreter, each answer, the whole store and the entry counts compared with a map; non-trivial: some read returned a written value",
                quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20, strat: || hist(STORE, true), check: |h, o| c01(h, Way::Statement, o) }),
            Box::new(Leg { name: "c01-storage", rule: "the same histories through the Storage trait",
                quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || hist(STORE, true), check: |h, o| c01(h, Way::Storage, o) }),
            Box::new(Leg { name: "c01-text", rule: "the same histories written as query text, tokenized, parsed and interpreted",
                quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || hist(STORE, false), check: |h, o| c01(h, Way::Text, o) }),
            Box::new(Leg { name: "c01-large", rule: "a few statements, each repeated up to 66000 times with varied keys or operands, everything compared after each; non-trivial: more than 1000 entries or elements",
                quick: 400, thorough: 20_000, threads: 8, shrink_secs: 40, strat: || large(Profile { vec: 1, map: 1, store: 9, reps: false, ..ALL }), check: large_check }),
            Box::new(Leg { name: "c01-lifetimes", rule: "histories of all statements, with lifetimes and moving time, through the interpreter; lifetimes and counts compared too",
                quick: 30_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { vec: 1, map: 1, store: 9, ..ALL }, true), check: |h, o| c01(h, Way::Statement, o) }),
        ]},
        Prop { id: "C02", level: "exploration", assumptions: &[CLOCK, "the instant at which a lifetime ends is never sampled"], legs: vec![
            Box::new(Leg { name: "c02-statements", rule: "random histories of all statements with lifetimes on a virtual clock that is moved to just before and after expiries; answers and the whole store compared with a model in which expired entries are absent; non-trivial: a statement addressed an expired key",
                quick: 80_000, thorough: 4_000_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { sweep: 1, lt: 3, getlt: 9, ..ALL }, true),
                check: |h, o| run(h, Opts { way: Way::Statement, counts: false, unchanged: false }, o, c02_obs).map(|_| ()) }),
            Box::new(Leg { name: "c02-storage", rule: "the same through the Storage trait with absolute expiry times",
                quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { vec: 2, map: 0, sweep: 1, lt: 3, getlt: 2, ..ALL }, true),
                check: |h, o| run(h, Opts { way: Way::Storage, counts: false, unchanged: false }, o, c02_obs).map(|_| ()) }),
            Box::new(Leg { name: "c02-text", rule: "the same as query text with literal lifetimes",
                quick: 30_000, thorough: 1_500_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { sweep: 0, lt: 0, getlt: 0, ..ALL }, false),
                check: |h, o| run(h, Opts { way: Way::Text, counts: false, unchanged: false }, o, c02_obs).map(|_| ()) }),
        ]},
        Prop { id: "C03", level: "exploration", assumptions: &[CLOCK, "the sweep's random choices are seeded per case by interposing getrandom"], legs: vec![
            Box::new(Leg { name: "c03-statements", rule: "random histories with many sweeps on the virtual clock, followed by repeated sweeping after everything expired; every answer, each sweep's count against the drop in held entries, the tracked-as-expiring count after each statement, and complete removal at the end; non-trivial: a sweep removed an entry",
                quick: 50_000, thorough: 2_500_000, threads: 8, shrink_secs: 20, strat: || (hist(SWEEPY, true), any::<u64>()).boxed(), check: |(h, e), o| c03(h, *e, Way::Statement, o) }),
            Box::new(Leg { name: "c03-large", rule: "a few statements and sweeps, each repeated up to 66000 times with varied keys; the number of removed and of tracked entries checked throughout; non-trivial: more than 1000 entries or elements",
                quick: 400, thorough: 20_000, threads: 8, shrink_secs: 40, strat: || large(Profile { reps: false, big: 10, ..SWEEPY }), check: large_check }),
            Box::new(Leg { name: "c03-many", rule: "up to 150000 entries in groups written in turn or one after another, with lifetimes that end at three instants, far away or never, some deleted or rewritten; as each instant passes, sweeping must remove exactly the entries it ends, within the bound; non-trivial: more than 100 entries with a lifetime stay while others expire",
                quick: 600, thorough: 30_000, threads: 8, shrink_secs: 60, strat: many, check: many_check }),
            Box::new(Leg { name: "c03-answers", rule: "random histories of all statements run on two stores, of which one is swept of all that has expired before each statement and the other never: every answer, with its message, must be the same; non-trivial: a statement addressed a key that one store still held after its end and the other did not",
                quick: 30_000, thorough: 2_500_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { sweep: 0, lt: 3, getlt: 3, ..ALL }, true), check: c03_answers }),
            Box::new(Leg { name: "c03-storage", rule: "the same through the Storage trait, including check_and_expire of chosen keys",
                quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || (hist(Profile { vec: 1, map: 0, getlt: 3, ..SWEEPY }, true), any::<u64>()).boxed(), check: |(h, e), o| c03(h, *e, Way::Storage, o) }),
        ]},
        Prop { id: "C04", level: "exploration", assumptions: &[CLOCK], legs: vec![
            Box::new(Leg { name: "c04-statements", rule: "random histories of vector statements (also on absent keys and other values, with wrong types and indices) compared with a typed sequence; non-trivial: a vector reached three elements",
                quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20, strat: || hist(VECS, true), check: |h, o| run(h, Opts { way: Way::Statement, counts: false, unchanged: false }, o, c04_obs).map(|_| ()) }),
            Box::new(Leg { name: "c04-text", rule: "the same as query text", quick: 30_000, thorough: 1_500_000, threads: 8, shrink_secs: 20, strat: || hist(VECS, false),
                check: |h, o| run(h, Opts { way: Way::Text, counts: false, unchanged: false }, o, c04_obs).map(|_| ()) }),
            Box::new(Leg { name: "c04-large", rule: "the same with each statement repeated up to 66000 times with varied keys or operands; non-trivial: more than 1000 entries or elements",
                quick: 300, thorough: 20_000, threads: 8, shrink_secs: 40, strat: || large(Profile { reps: false, ..VECS }), check: large_check }),
            Box::new(Leg { name: "c04-vector", rule: "histories of push/pop/get/set/len on a StorageVector, compared with a Vec after every step", quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20,
                strat: vec_api_strat, check: vec_api }),
        ]},
        Prop { id: "C05", level: "exploration", assumptions: &[CLOCK], legs: vec![
            Box::new(Leg { name: "c05-statements", rule: "random histories of map statements (also on absent keys and other values, with wrong key and element types) compared with a dictionary; non-trivial: a map reached three elements",
                quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20, strat: || hist(MAPS, true), check: |h, o| run(h, Opts { way: Way::Statement, counts: false, unchanged: false }, o, c05_obs).map(|_| ()) }),
            Box::new(Leg { name: "c05-text", rule: "the same as query text", quick: 30_000, thorough: 1_500_000, threads: 8, shrink_secs: 20, strat: || hist(MAPS, false),
                check: |h, o| run(h, Opts { way: Way::Text, counts: false, unchanged: false }, o, c05_obs).map(|_| ()) }),
            Box::new(Leg { name: "c05-large", rule: "the same with each statement repeated up to 66000 times with varied keys or operands; non-trivial: more than 1000 entries or elements",
                quick: 300, thorough: 20_000, threads: 8, shrink_secs: 40, strat: || large(Profile { reps: false, ..MAPS }), check: large_check }),
            Box::new(Leg { name: "c05-map", rule: "histories of set/get/delete/contains_key/len on a StorageMap, compared with a BTreeMap after every step", quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20,
                strat: map_api_strat, check: map_api }),
        ]},
        Prop { id: "C06", level: "exploration", assumptions: &[CLOCK], legs: vec![
            Box::new(Leg { name: "c06-statements", rule: "random histories of all statements, many of them failing; every entry with its lifetime is read before and after each statement that fails or only reads, and every stored collection is checked to hold its declared element type; non-trivial: a statement on a present key failed",
                quick: 30_000, thorough: 3_000_000, threads: 8, shrink_secs: 20, strat: || hist(Profile { off_type: 6, sweep: 1, lt: 2, ..ALL }, true), check: c06 }),
            Box::new(Leg { name: "c06-text", rule: "the same for whole queries of one to three statements as text: those that fail to parse or to run at their first statement, or only read", quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20,
                strat: c06_text_strat, check: c06_text }),
        ]},
    ]
}

/// An answer in a form that can be compared.
fn told(r: &Result<InterpreterResponse, ServerError>) -> String {
    match r { Ok(InterpreterResponse::Value(v)) => format!("value {}", view(v)), Ok(x) => format!("{x:?}"), Err(e) => format!("{e}") }
}
fn c03_answers(h: &Hist, obs: &mut Obs) -> Res {
    let mut p = Pair::new(&h.pool);
    let mut swept = Interpreter::new(HashMapStorage::new());
    let sweep = |it: &mut Interpreter<HashMapStorage>| -> Result<usize, Fail> {
        let mut all = 0;
        // A sweep looks at some of the entries only.
        for _ in 0..60 {
            match it.interpret(InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin }) {
                Ok(InterpreterResponse::Size(n)) => all += n,
                r => return Err(format!("a sweep answers {}", short(&r)).into()),
            }
        }
        Ok(all)
    };
    for (i, (d, op)) in h.expand().iter().enumerate() {
        p.pass(d);
        p.touch(op);
        if !p.m.ghosts.is_empty() { sweep(&mut swept)?; }
        let ghost = op.key().is_some_and(|k| p.m.ghosts.contains(&kname(&h.pool, k)));
        p.m.apply(op, &h.pool);
        let ask = |it: &mut Interpreter<HashMapStorage>| -> Result<String, Fail> { Ok(told(&it.interpret(InterpreterRequest { statements: vec![op.stmt(&h.pool)?], authorization: AuthorizationLevel::Admin }))) };
        let (a, b) = (ask(&mut p.it)?, ask(&mut swept)?);
        obs.nontrivial_if(ghost);
        ensure!(a == b, "statement {i} {} on key {:?} is answered {} by a store that was never swept and {} by one that was", short(op), op.key().map(|k| kname(&h.pool, k)), short(&a), short(&b));
    }
    Ok(())
}

fn large_check(h: &Large, obs: &mut Obs) -> Res {
    let mut most = 0;
    let mut size = 0;
    run_large(h, |o, _, p| { most = most.max(p.m.ents.len()); if let Some(e) = o.key().and_then(|k| p.m.ents.get(&kname(&h.pool, k))) { size = size.max(e.v.size()); } })?;
    obs.nontrivial_if(most > 1000 || size > 1000);
    obs.label_if(most > 1000, "more than 1000 entries");
    obs.label_if(most > 65_536, "more than 65536 entries");
    obs.label_if(size > 1000, "more than 1000 elements");
    obs.label_if(size > 65_536, "more than 65536 elements");
    Ok(())
}
// --- C03: many entries, of which only a part expires

/// `life`: 0 none, 1-3 ends at that instant, 4 far away; `then`: every how-manieth entry is afterwards deleted (odd) or made permanent (even).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group { n: u32, life: u8, then: u8, back: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many { groups: Vec<Group>, mixed: bool, entropy: u64 }
fn many() -> BoxedStrategy<Many> {
    let n = wt(vec![(6, (0u32..400).boxed()), (3, (0u32..5_000).boxed()), (1, select(vec![255u32, 256, 257, 300, 1023, 1025, 4097]).boxed()), (1, (60_000u32..75_000).boxed())]);
    let g = (n, wt(vec![(1, Just(0u8).boxed()), (3, (1u8..4).boxed()), (3, Just(4u8).boxed())]), wt(vec![(3, Just(0u8).boxed()), (1, (1u8..9).boxed())]), any::<bool>()).prop_map(|(n, life, then, back)| Group { n, life, then, back });
    (vec(g, 1..6), any::<bool>(), any::<u64>()).prop_map(|(mut groups, mixed, entropy)| {
        // Not more than two large groups.
        let mut big = 0;
        for g in &mut groups { if g.n > 10_000 { big += 1; if big > 2 { g.n %= 1000; } } }
        Many { groups, mixed, entropy }
    }).boxed()
}
fn many_check(c: &Many, obs: &mut Obs) -> Res {
    use server::storage::StorageElement;
    let (r, o) = std::thread::scope(|s| s.spawn(|| {
        let mut o = Obs::default();
        let r = guarded(|| -> Res {
            sys::set_entropy(c.entropy);
            sys::set_fake_time(sys::T0);
            let t0 = sys::T0 as u128;
            let mut st = server::storage::hashmap_storage::HashMapStorage::new();
            let end = |life: u8| match life { 0 => None, 4 => Some(t0 + 1_000_000 * SEC), l => Some(t0 + l as u128 * 100 * SEC) };
            let put = |st: &mut server::storage::hashmap_storage::HashMapStorage, g: usize, i: u32, life: u8| {
                let key = format!("g{g}_{i}");
                st.set(&key, StorageElement { key: key.clone(), value: StorageValue::Int(i as i64), expiration: end(life).map(systime) }).map_err(|e| Fail::Broken(format!("set {key:?} fails: {e}")))
            };
            let at = |g: &Group, i: u32| if g.back { g.n - 1 - i } else { i };
            if c.mixed {
                for i in 0..c.groups.iter().map(|g| g.n).max().unwrap_or(0) { for (k, g) in c.groups.iter().enumerate() { if i < g.n { put(&mut st, k, at(g, i), g.life)?; } } }
            } else { for (k, g) in c.groups.iter().enumerate() { for i in 0..g.n { put(&mut st, k, at(g, i), g.life)?; } } }
            let mut count = [0usize; 5];
            for (k, g) in c.groups.iter().enumerate() {
                count[g.life as usize] += g.n as usize;
                if g.then == 0 { continue; }
                for i in (0..g.n).step_by(g.then as usize + 1) {
                    let key = format!("g{k}_{i}");
                    count[g.life as usize] -= 1;
                    if g.then % 2 == 1 { ensure!(st.delete(&key).map_err(|e| format!("delete {key:?} fails: {e}"))?, "delete of the present {key:?} says there was none"); }
                    else { st.update_expiration(&key, None).map_err(|e| format!("the lifetime of {key:?} cannot be removed: {e}"))?; count[0] += 1; }
                }
            }
            for phase in 1..=3u8 {
                let due = count[phase as usize];
                sys::set_fake_time((t0 + phase as u128 * 100 * SEC + SEC) as u64);
                let tracked: usize = count[1..].iter().sum();
                let k = st.expiring_keys_count().map_err(|e| e.to_string())?;
                ensure!(k == tracked, "{k} entries are tracked as expiring, {tracked} entries with a lifetime are stored");
                let kept = tracked - due;
                o.nontrivial_if(due > 0 && kept > 100);
                o.label_if(due > 0 && kept > 256, "more than 256 stay while others expire");
                o.label_if(due > 0 && kept > 65_536, "more than 65536 stay while others expire");
                o.label_if(due > 1000, "more than 1000 expire");
                let bound = tracked * ((tracked as f64 + 1.0).ln() as usize + 40) + 60;
                let mut gone = 0;
                for i in 0..bound {
                    if gone >= due { break; }
                    let n = st.invalidate_expired_keys().map_err(|e| format!("a sweep fails: {e}"))?;
                    gone += n;
                    if i % 1024 == 0 {
                        let (len, want) = (st.len().map_err(|e| e.to_string())?, count.iter().sum::<usize>() - gone.min(due));
                        ensure!(len == want, "sweeps report {gone} removed entries, but {len} are left, not {want}");
                    }
                }
                ensure!(gone == due, "{due} entries expired, sweeps removed {gone} within {bound} sweeps over {tracked} entries with a lifetime");
                count[phase as usize] = 0;
                for _ in 0..50 { let n = st.invalidate_expired_keys().map_err(|e| format!("a sweep fails: {e}"))?; ensure!(n == 0, "a sweep with nothing expired reports {n} removed entries"); }
                let (len, want) = (st.len().map_err(|e| e.to_string())?, count.iter().sum::<usize>());
                ensure!(len == want, "after sweeping {len} entries are held, {want} should be");
                let (k, want) = (st.expiring_keys_count().map_err(|e| e.to_string())?, kept);
                ensure!(k == want, "after sweeping {k} entries are tracked as expiring, {want} should be");
            }
            Ok(())
        });
        sys::set_entropy(0);
        (match r { Ok(r) => r, Err(m) => Err(Fail::Broken(m)) }, o)
    }).join().unwrap());
    *obs = o;
    r
}

const SWEEPY: Profile = Profile { sweep: 8, lt: 3, vec: 1, map: 1, getlt: 1, read: 3, store: 8, ..ALL };
const VECS: Profile = Profile { vec: 10, map: 0, store: 3, read: 2, getlt: 0, lt: 0, sweep: 0, lifetimes: true, off_type: 2, big: 400, ..ALL };
const MAPS: Profile = Profile { vec: 0, map: 10, store: 3, read: 2, getlt: 0, lt: 0, sweep: 0, lifetimes: true, off_type: 2, big: 400, ..ALL };

fn c03(h: &Hist, entropy: u64, way: Way, obs: &mut Obs) -> Res {
    // The sweep picks entries with a per-thread generator; a fresh thread makes it a function of the case.
    let (r, o) = std::thread::scope(|s| {
        s.spawn(|| {
            let mut o = Obs::default();
            let r = guarded(|| {
                sys::set_entropy(entropy);
                let before = std::cell::Cell::new(0usize);
                let mut p = run(h, Opts { way, counts: true, unchanged: false }, &mut o, |op, _, p, o| {
                    let g = p.ghosts().unwrap_or(0);
                    if *op == Op::Sweep && g < before.get() { o.nontrivial_if(true); o.label("sweep removed an entry"); }
                    if *op == Op::Sweep { o.label("sweep"); }
                    o.label_if(g > 3, "more than three expired entries held");
                    before.set(g);
                })?;
                // Let every near lifetime end, then sweep: all expired entries go, no others.
                let horizon = p.m.now + 100 * 31_536_000 * SEC;
                if let Some(x) = p.m.ents.values().filter_map(|e| e.exp).filter(|&x| x < horizon).max() {
                    let d = (x - p.m.now) as u64 + 1_000;
                    p.tick(d);
                }
                let m = p.it.storage.expiring_keys_count().map_err(|e| e.to_string())?;
                let mut left = p.ghosts()?;
                let bound = m * ((m as f64 + 1.0).ln() as usize + 40) + 60;
                for _ in 0..bound {
                    if left == 0 { break; }
                    p.tick(1_000);
                    let n = p.it.storage.invalidate_expired_keys().map_err(|e| format!("a sweep fails: {e}"))?;
                    let now = p.ghosts()?;
                    ensure!(now + n == left, "a sweep reports {n} removed entries, but held expired entries went from {left} to {now}");
                    left = now;
                }
                ensure!(left == 0, "{left} expired entries are still held after {bound} sweeps over {m} expiring entries");
                p.counts()?;
                p.compare_all()?;
                p.tick(1_000);
                let n = p.it.storage.invalidate_expired_keys().map_err(|e| format!("a sweep fails: {e}"))?;
                ensure!(n == 0, "a sweep with nothing expired reports {n} removed entries");
                p.compare_all()
            });
            sys::set_entropy(0);
            let r: Res = match r { Ok(r) => r, Err(m) => Err(Fail::Broken(m)) };
            (r, o)
        }).join().unwrap()
    });
    *obs = o;
    r
}

fn c04_obs(op: &Op, want: &Exp, p: &Pair, obs: &mut Obs) {
    let n = p.m.ents.values().filter(|e| matches!(e.v, V::Vec(..))).map(|e| e.v.size()).max().unwrap_or(0);
    obs.nontrivial_if(n >= 3);
    obs.label_if(n > 32, "more than 32 elements");
    if matches!(op, Op::VGet(..) | Op::VSet(..) | Op::VPush(..) | Op::VPop(..) | Op::VLen(..)) {
        obs.label_if(*want == Exp::Err(vec![EK::Type]), "type error");
        obs.label_if(*want == Exp::Err(vec![EK::Index]), "index error");
        obs.label_if(*want == Exp::Err(vec![EK::Key]), "key error");
        obs.label_if(matches!(op, Op::VPop(_)) && *want == Exp::Ok(R::Val(V::N)), "pop of an empty vector");
    }
}
fn c05_obs(op: &Op, want: &Exp, p: &Pair, obs: &mut Obs) {
    let n = p.m.ents.values().filter(|e| matches!(e.v, V::Map(..))).map(|e| e.v.size()).max().unwrap_or(0);
    obs.nontrivial_if(n >= 3);
    obs.label_if(n > 32, "more than 32 elements");
    if matches!(op, Op::MGet(..) | Op::MSet(..) | Op::MDel(..) | Op::MEx(..) | Op::MLen(..)) {
        obs.label_if(*want == Exp::Err(vec![EK::Type]), "type error");
        obs.label_if(*want == Exp::Err(vec![EK::Index]), "index error");
        obs.label_if(*want == Exp::Err(vec![EK::Key]), "key error");
        obs.label_if(matches!(op, Op::MDel(..)) && *want == Exp::Ok(R::Bool(true)), "element deleted");
    }
}

/// One API call on a collection; repeated with varied operands.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum VA { Push(V), Pop, Get(usize), Set(usize, V), Len, Clone }
type VecCase = (CT, Vec<(VA, u16)>);
fn reps() -> BoxedStrategy<u16> { wt(vec![(20, Just(1u16).boxed()), (2, (1u16..8).boxed()), (1, size(400).prop_map(|n| n as u16).boxed())]) }
fn vec_api_strat() -> BoxedStrategy<VecCase> {
    Union::new(CTS.map(|t| {
        let el = || wt(vec![(8, sc(t).prop_map(V::S).boxed()), (1, any_v(3))]);
        let ix = || wt(vec![(6, (0usize..8).boxed()), (2, size(500)), (1, select(vec![usize::MAX, 1 << 63, u32::MAX as usize + 1]).boxed())]);
        let a = wt(vec![(5, el().prop_map(VA::Push).boxed()), (3, Just(VA::Pop).boxed()), (3, ix().prop_map(VA::Get).boxed()), (3, (ix(), el()).prop_map(|(i, v)| VA::Set(i, v)).boxed()),
            (1, Just(VA::Len).boxed()), (1, Just(VA::Clone).boxed())]);
        (Just(t), vec((a, reps()), 1..40)).boxed()
    })).boxed()
}
fn vec_api(c: &VecCase, obs: &mut Obs) -> Res {
    let (t, steps) = c;
    let mut real = StorageVector::new(t.real());
    let mut model: Vec<Sc> = vec![];
    let typed = |v: &V| v.sc().filter(|s| s.ct() == *t).cloned();
    for (i, (a, rep)) in steps.iter().enumerate() {
        for r in 0..(*rep).max(1) as usize {
            let vary = |v: &V| match v { V::S(s) => V::S(nudge(s, r)), o => o.clone() };
            match a {
                VA::Push(v) => {
                    let v = vary(v);
                    let got = real.push(v.real()?);
                    match typed(&v) {
                        Some(s) => { ensure!(got.is_ok(), "step {i}: push of {v:?} fails: {got:?}"); model.push(s) }
                        None => { obs.label("type error"); ensure!(matches!(&got, Err(e) if ekind(e) == EK::Type), "step {i}: push of {v:?} onto a {t:?} vector gives {got:?}") }
                    }
                }
                VA::Pop => {
                    let got = real.pop();
                    let want = model.pop();
                    ensure!(match (&got, &want) { (None, None) => true, (Some(g), Some(w)) => w.is(g), _ => false }, "step {i}: pop gives {got:?}, should be {want:?}");
                }
                VA::Get(ix) => {
                    let ix = ix.saturating_add(r);
                    let got = real.get(ix);
                    ensure!(match (&got, model.get(ix)) { (Ok(g), Some(w)) => w.is(g), (Err(e), None) => ekind(e) == EK::Index, _ => false }, "step {i}: get({ix}) of {} elements gives {got:?}, should be {:?}", model.len(), model.get(ix));
                }
                VA::Set(ix, v) => {
                    let ix = ix.saturating_add(r);
                    let v = vary(v);
                    let got = real.set(ix, v.real()?);
                    match (typed(&v), ix < model.len()) {
                        (Some(s), true) => { ensure!(got.is_ok(), "step {i}: set({ix}, {v:?}) of {} elements fails: {got:?}", model.len()); model[ix] = s }
                        (ty, ir) => ensure!(matches!(&got, Err(e) if ekind(e) == EK::Type && ty.is_none() || ekind(e) == EK::Index && !ir), "step {i}: set({ix}, {v:?}) on a {t:?} vector of {} gives {got:?}", model.len()),
                    }
                }
                VA::Len => {}
                VA::Clone => real = real.clone(),
            }
            ensure!(real.len() == model.len(), "step {i}: length is {}, should be {}", real.len(), model.len());
        }
        obs.nontrivial_if(model.len() >= 3);
        obs.label_if(model.len() > 64, "more than 64 elements");
        let n = model.len();
        for (j, w) in model.iter().enumerate() {
            if n > 60 && j % 7 != i % 7 { continue; }
            ensure!(real.get(j).is_ok_and(|g| w.is(g)), "step {i} ({a:?}): element {j} is {:?}, should be {w:?}", real.get(j));
        }
    }
    ensure!(V::Vec(*t, model.clone()).is(&StorageValue::Vector(real)), "the vector differs from the sequence {}", short(&model));
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MA { Set(V, V), Get(V), Del(V), Has(V), Clone }
type MapCase = (KT, CT, Vec<(MA, u16)>);
fn map_api_strat() -> BoxedStrategy<MapCase> {
    Union::new(CTS.iter().flat_map(|&t| KTS.map(|k| {
        let el = || wt(vec![(8, sc(t).prop_map(V::S).boxed()), (1, any_v(3))]);
        let key = || {
            wt(vec![(8, mk_few(k).prop_map(mkv).boxed()), (4, mk(k).prop_map(mkv).boxed()), (1, any_v(3))])
        };
        let a = wt(vec![(6, (key(), el()).prop_map(|(a, b)| MA::Set(a, b)).boxed()), (3, key().prop_map(MA::Get).boxed()), (3, key().prop_map(MA::Del).boxed()), (2, key().prop_map(MA::Has).boxed()), (1, Just(MA::Clone).boxed())]);
        (Just(k), Just(t), vec((a, reps()), 1..40)).boxed()
    })).collect::<Vec<_>>()).boxed()
}
fn map_api(c: &MapCase, obs: &mut Obs) -> Res {
    let (k, t, steps) = c;
    let mut real = StorageMap::new(k.real(), t.real());
    let mut model: BTreeMap<MK, Sc> = BTreeMap::new();
    let typed = |v: &V| v.sc().filter(|s| s.ct() == *t).cloned();
    let keyed = |v: &V| v.mk().filter(|m| m.kt() == *k);
    let ty = |e: &server::error::ServerError| ekind(e) == EK::Type;
    for (i, (a, rep)) in steps.iter().enumerate() {
        for r in 0..(*rep).max(1) as usize {
            let vary = |v: &V| match v { V::S(s) => V::S(nudge(s, r)), o => o.clone() };
            match a {
                MA::Set(e, v) => {
                    let (e, v) = (vary(e), vary(v));
                    let got = real.set(e.real()?, v.real()?);
                    match (keyed(&e), typed(&v)) {
                        (Some(m), Some(s)) => { ensure!(got.is_ok(), "step {i}: set({e:?}, {v:?}) fails: {got:?}"); model.insert(m, s); }
                        _ => { obs.label("type error"); ensure!(matches!(&got, Err(x) if ty(x)), "step {i}: set({e:?}, {v:?}) on a {k:?}-{t:?} map gives {got:?}") }
                    }
                }
                MA::Get(e) => {
                    let e = vary(e);
                    let rk = e.real()?;
                    let got = real.get(&rk);
                    ensure!(match (keyed(&e), &got) {
                        (None, Err(x)) => ty(x),
                        (Some(m), g) => match (model.get(&m), g) { (Some(w), Ok(g)) => w.is(g), (None, Err(x)) => ekind(x) == EK::Index, _ => false },
                        _ => false }, "step {i}: get({e:?}) gives {got:?}");
                }
                MA::Del(e) => {
                    let e = vary(e);
                    let got = real.delete(&e.real()?);
                    ensure!(match (keyed(&e), &got) { (None, Err(x)) => ty(x), (Some(m), Ok(b)) => model.remove(&m).is_some() == *b, _ => false }, "step {i}: delete({e:?}) gives {got:?}");
                }
                MA::Has(e) => {
                    let e = vary(e);
                    let got = real.contains_key(&e.real()?);
                    ensure!(match (keyed(&e), &got) { (None, Err(x)) => ty(x), (Some(m), Ok(b)) => model.contains_key(&m) == *b, _ => false }, "step {i}: contains_key({e:?}) gives {got:?}");
                }
                MA::Clone => real = real.clone(),
            }
            ensure!(real.len() == model.len(), "step {i} ({a:?}): length is {}, should be {}", real.len(), model.len());
        }
        obs.nontrivial_if(model.len() >= 3);
        obs.label_if(model.len() > 64, "more than 64 elements");
        let n = model.len();
        for (j, (e, w)) in model.iter().enumerate() {
            if n > 60 && j % 7 != i % 7 { continue; }
            ensure!(real.get(&e.real()).is_ok_and(|g| w.is(g)), "step {i} ({a:?}): element {e:?} is {:?}, should be {w:?}", real.get(&e.real()));
        }
    }
    ensure!(V::Map(*k, *t, model.clone()).is(&StorageValue::Map(real)), "the map differs from the dictionary {}", short(&model));
    Ok(())
}

fn typedness(p: &Pair) -> Res {
    for k in &p.touched {
        if let Ok(Some(e)) = p.it.storage.get_if_exists(k) {
            ensure!(well_typed(&e.value), "entry {k:?} holds an element of the wrong type: {}", short(&e.value));
        }
    }
    Ok(())
}
fn c06(h: &Hist, obs: &mut Obs) -> Res {
    let mut p = Pair::new(&h.pool);
    let steps = h.expand();
    for (i, (d, op)) in steps.iter().take(400).enumerate() {
        p.pass(d);
        p.touch(op);
        let st = op.stmt(&h.pool)?;
        p.m.apply(op, &h.pool); // only so that the clock can aim at expiries
        let before = snapshot(&p.it.storage, &p.touched)?;
        let got = p.it.interpret(InterpreterRequest { statements: vec![st], authorization: AuthorizationLevel::Admin });
        let after = snapshot(&p.it.storage, &p.touched)?;
        if got.is_err() || op.need() == Need::Read {
            let present = op.key().is_some_and(|k| before.get(&kname(&h.pool, k)).is_some_and(|x| x.is_some()));
            obs.nontrivial_if(got.is_err() && present);
            obs.label_if(got.is_err() && present, "failure on a present entry");
            for (k, v) in &before {
                let now = after.get(k).unwrap_or(&None);
                ensure!(now == v, "statement {i} ({}) {} but changed entry {k:?} from {} to {}", short(op), if got.is_err() { "failed" } else { "only reads" }, short(v), short(now));
            }
        }
        typedness(&p).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("after statement {i} ({}): {m}", short(op))), e => e })?;
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase { pool: Vec<String>, queries: Vec<(Vec<Op>, Vec<u8>, Option<(u16, char)>)> }
fn c06_text_strat() -> BoxedStrategy<TextCase> {
    let p = Profile { off_type: 5, sweep: 0, lt: 0, getlt: 0, lifetimes: true, time: false, ..ALL };
    let q = (ops(p, 1..4), vec(any::<u8>(), 0..8), prop::option::weighted(0.3, (any::<u16>(), chr())));
    (pool(false), vec(q, 1..16)).prop_map(|(pool, queries)| TextCase { pool, queries }).boxed()
}
fn c06_text(c: &TextCase, obs: &mut Obs) -> Res {
    let mut p = Pair::new(&c.pool);
    for k in 0..c.pool.len() as K * 40 { p.touched.insert(kname(&c.pool, k)); }
    let keys: BTreeSet<String> = c.queries.iter().flat_map(|q| q.0.iter().filter_map(|o| o.key().map(|k| kname(&c.pool, k)))).collect();
    p.touched = keys;
    for (i, (ops, style, mutate)) in c.queries.iter().enumerate() {
        p.tick(1_000_000);
        let stms: Vec<lang::Stm> = ops.iter().filter(|o| lang::expressible(o)).map(|o| (o.key().map(|k| kname(&c.pool, k)).unwrap_or_default(), o.clone())).collect();
        let mut text = lang::print(&stms, style);
        if let Some((at, ch)) = mutate {
            let mut cs: Vec<char> = text.chars().collect();
            let n = cs.len().max(1);
            let at = *at as usize % n;
            if at < cs.len() { cs[at] = *ch } else { cs.push(*ch) }
            text = cs.into_iter().collect();
        }
        let before = snapshot(&p.it.storage, &p.touched)?;
        let got = match analyse(&text) {
            Err(e) => { obs.label("does not parse"); Err(e) }
            Ok(s) => {
                let n = s.len();
                let read = s.iter().all(|s| !writes(s));
                let r = p.it.interpret(InterpreterRequest { statements: s, authorization: AuthorizationLevel::Admin });
                if n > 1 && !read { typedness(&p)?; continue; }
                match r { Ok(r) => { if !read { typedness(&p)?; continue; } Ok(r) } Err(e) => Err(e) }
            }
        };
        let after = snapshot(&p.it.storage, &p.touched)?;
        obs.nontrivial_if(got.is_err() && before.values().any(|v| v.is_some()));
        for (k, v) in &before {
            ensure!(after.get(k) == Some(v), "query {i} {} answered {} but changed entry {k:?} from {} to {}", short(&text), short(&got), short(v), short(&after.get(k)));
        }
        typedness(&p)?;
    }
    Ok(())
}
pub fn writes(s: &Statement) -> bool {
    matches!(s, Statement::Set(..) | Statement::SetIfNotExists(..) | Statement::Update(..) | Statement::Delete(..) | Statement::UpdateLifetime(..) | Statement::VectorSet(..)
        | Statement::VectorAppend(..) | Statement::VectorPop(..) | Statement::MapSet(..) | Statement::MapDelete(..))
}
