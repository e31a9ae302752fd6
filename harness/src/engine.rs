//! Runs histories against the code under test and the model side by side.
use std::collections::BTreeSet;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{Storage, StorageElement, StorageValue};

use crate::ensure;
use crate::gen::{Dt, Hist};
use crate::lang;
use crate::model::*;
use crate::runner::{Fail, Obs, Res};
use crate::sys;

pub fn level(n: Need) -> AuthorizationLevel {
    match n { Need::Read => AuthorizationLevel::Read, Need::Write => AuthorizationLevel::Write, Need::Admin => AuthorizationLevel::Admin }
}
pub fn systime(ns: u128) -> SystemTime { UNIX_EPOCH + Duration::new((ns / SEC) as u64, (ns % SEC) as u32) }

pub fn analyse(text: &str) -> Result<Vec<Statement>, ServerError> {
    let mut t = Tokenizer::new(text);
    let toks = t.tokenize()?;
    Parser::new(toks).parse()
}

pub fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.chars().count() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
}

/// How far a clock move goes.
pub fn step_ns(m: &Model, d: &Dt) -> u64 {
    let year = 31_536_000u128 * SEC;
    let ns = match d {
        Dt::Tick => 1_000,
        Dt::Ns(n) => *n,
        Dt::ToExp(n, off) => {
            let mut es: Vec<u128> = m.ents.values().filter_map(|e| e.exp).collect();
            es.sort();
            match es.get(*n as usize).or(es.last()) {
                Some(&x) if x < m.now + 20 * year => {
                    let t = x as i128 + *off as i128;
                    if t > m.now as i128 { (t - m.now as i128) as u64 } else { 1_000 }
                }
                _ => 1_000,
            }
        }
    };
    // Stay far away from the end of the 64-bit nanosecond clock.
    if m.now + (ns as u128) < (sys::T0 as u128) + 200 * year { ns } else { 1_000 }
}

/// The store under test with its model.
pub struct Pair { pub it: Interpreter<HashMapStorage>, pub m: Model, pub pool: Vec<String>, pub touched: BTreeSet<String> }

impl Pair {
    pub fn new(pool: &[String]) -> Pair {
        sys::set_fake_time(sys::T0);
        Pair { it: Interpreter::new(HashMapStorage::new()), m: Model::new(sys::T0), pool: pool.to_vec(), touched: BTreeSet::new() }
    }
    pub fn tick(&mut self, ns: u64) {
        self.m.advance(ns.max(1));
        sys::set_fake_time(self.m.now as u64);
    }
    pub fn pass(&mut self, d: &Dt) { let ns = step_ns(&self.m, d); self.tick(ns); }
    pub fn ghosts(&self) -> Result<usize, Fail> {
        let len = self.it.storage.len().map_err(|e| format!("len fails: {e}"))?;
        let live = self.m.ents.len();
        ensure!(len >= live, "the store reports {len} entries but {live} are visible");
        ensure!(len <= live + self.m.ghosts.len(), "the store reports {len} entries; {live} are live and at most {} expired ones are left", self.m.ghosts.len());
        Ok(len - live)
    }
    /// Bookkeeping of counts: the entries and the entries with a lifetime.
    pub fn counts(&mut self) -> Res {
        let g = self.ghosts()?;
        if g == 0 { self.m.ghosts.clear(); }
        let e = self.it.storage.expiring_keys_count().map_err(|e| format!("expiring_keys_count fails: {e}"))?;
        let want = self.m.live_expiring() + g;
        ensure!(e == want, "{e} entries are tracked as expiring, but {want} stored entries carry a lifetime ({} live, {g} expired)", self.m.live_expiring());
        Ok(())
    }
    /// Every entry is what the model says, through the read functions of the storage.
    pub fn compare_all(&self) -> Res {
        let st = &self.it.storage;
        for k in self.touched.iter() {
            let got = st.get_if_exists(k).map_err(|e| format!("get_if_exists({k:?}) fails: {e}"))?;
            let has = st.contains_key(k).map_err(|e| format!("contains_key({k:?}) fails: {e}"))?;
            match (self.m.ents.get(k), &got) {
                (None, None) => ensure!(!has, "contains_key({k:?}) is true for an absent entry"),
                (Some(e), Some(g)) => {
                    ensure!(has, "contains_key({k:?}) is false for a present entry");
                    ensure!(e.v.is(&g.value), "entry {k:?} holds {}, should hold {}", short(&g.value), short(&e.v));
                    let x = e.exp.map(systime);
                    ensure!(g.expiration == x, "entry {k:?} expires at {:?}, should be {:?}", g.expiration, x);
                }
                (None, Some(g)) => return Err(format!("entry {k:?} should be absent but holds {}", short(&g.value)).into()),
                (Some(e), None) => return Err(format!("entry {k:?} should hold {} but is absent", short(&e.v)).into()),
            }
        }
        Ok(())
    }
    pub fn touch(&mut self, op: &Op) { if let Some(k) = op.key() { self.touched.insert(kname(&self.pool, k)); } }

    /// One statement through the interpreter.
    pub fn exec(&mut self, op: &Op) -> Result<Exp, Fail> {
        self.touch(op);
        let st = op.stmt(&self.pool)?;
        let before = if *op == Op::Sweep { Some(self.ghosts()?) } else { None };
        let want = self.m.apply(op, &self.pool);
        let got = self.it.interpret(InterpreterRequest { statements: vec![st], authorization: AuthorizationLevel::Admin });
        ensure!(exp_is(&want, &got), "{} answered {}, should be {}", short(op), short(&got), short(&want));
        if let (Some(b), Ok(InterpreterResponse::Size(n))) = (before, &got) {
            let a = self.ghosts()?;
            ensure!(b - a.min(b) == *n && a <= b, "a sweep reports {n} removed entries, but the number of expired entries held went from {b} to {a}");
        }
        Ok(want)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Way { Statement, Text, Storage }
#[derive(Clone, Copy)]
pub struct Opts { pub way: Way, pub counts: bool, pub unchanged: bool }

/// Runs the history; the observer sees each statement, what it should answer and the state.
pub fn run(h: &Hist, o: Opts, obs: &mut Obs, mut see: impl FnMut(&Op, &Exp, &Pair, &mut Obs)) -> Result<Pair, Fail> {
    let mut p = Pair::new(&h.pool);
    let steps = h.expand();
    let big = steps.len() > 120;
    for (i, (d, op)) in steps.iter().enumerate() {
        p.pass(d);
        let ctx = |e: Fail| match e { Fail::Broken(m) => Fail::Broken(format!("statement {i} ({}) on key {:?}: {m}", op.name(), op.key().map(|k| kname(&h.pool, k)))), e => e };
        let want = match o.way {
            Way::Statement => {
                let snap = if o.unchanged && !big { Some(snapshot(&p.it.storage, &p.touched)?) } else { None };
                let want = p.exec(op).map_err(ctx)?;
                if let Some(s) = snap {
                    if want.is_err() || op.need() == Need::Read && *op != Op::Sweep {
                        let now = snapshot(&p.it.storage, &p.touched)?;
                        for (k, v) in &s {
                            ensure!(now.get(k) == Some(v), "statement {i} ({}) {} but changed entry {k:?} from {} to {}", short(op), if want.is_err() { "failed" } else { "only reads" }, short(v), short(&now.get(k)));
                        }
                    }
                }
                want
            }
            Way::Text => {
                if !lang::expressible(op) { continue; }
                p.touch(op);
                let stm = (op.key().map(|k| kname(&h.pool, k)).unwrap_or_default(), op.clone());
                let text = lang::print(&[stm], &[]);
                let want = p.m.apply(op, &h.pool);
                let got = analyse(&text).and_then(|s| p.it.interpret(InterpreterRequest { statements: s, authorization: AuthorizationLevel::Admin }));
                ensure!(exp_is(&want, &got), "query {i} {} answered {}, should be {}", short(&text), short(&got), short(&want));
                want
            }
            Way::Storage => storage_op(&mut p, op).map_err(ctx)?,
        };
        see(op, &want, &p, obs);
        if o.counts { p.counts().map_err(ctx)?; }
        if !big || i % 29 == 0 { p.compare_all().map_err(ctx)?; }
    }
    p.tick(1_000);
    p.compare_all()?;
    if o.counts { p.counts()?; }
    Ok(p)
}

/// Runs a history of long steps; compares everything after each step.
pub fn run_large(h: &crate::gen::Large, mut see: impl FnMut(&Op, &Exp, &Pair)) -> Result<Pair, Fail> {
    let mut p = Pair::new(&h.pool);
    let mut left = 4_000_000usize;
    for (i, (d, op, rep, spread)) in h.steps.iter().enumerate() {
        p.pass(d);
        for r in 0..*rep as usize {
            let o = crate::gen::vary(op, r, if *spread { (r * h.pool.len()) as K } else { 0 });
            // Reading from a collection may cost as much as its size.
            let cost = match (o.need(), o.key()) { (Need::Read, Some(k)) => p.m.ents.get(&kname(&h.pool, k)).map(|e| e.v.size()).unwrap_or(0), _ => 0 } + 10;
            if cost > left { return Ok(p); }
            left -= cost;
            let want = p.exec(&o).map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("step {i}, repetition {r}: {m}")), e => e })?;
            see(&o, &want, &p);
        }
        p.counts()?;
        p.compare_all()?;
    }
    Ok(p)
}

/// The store operations called directly.
fn storage_op(p: &mut Pair, op: &Op) -> Result<Exp, Fail> {
    p.touch(op);
    let name = op.key().map(|k| kname(&p.pool, k)).unwrap_or_default();
    let lt = match op { Op::Set(_, _, l) | Op::TrySet(_, _, l) | Op::Upd(_, _, l) | Op::SetLt(_, l) => *l, _ => None };
    // The store takes an absolute time; lifetimes without one are the interpreter's business.
    let Ok(exp) = p.m.expiry(lt) else { return Ok(Exp::Err(vec![])) };
    let exp = exp.map(systime);
    let el = |v: &V| -> Result<StorageElement, Fail> { Ok(StorageElement { key: name.clone(), expiration: exp, value: v.real()? }) };
    let before = p.ghosts()?;
    let want = p.m.apply(op, &p.pool);
    let st = &mut p.it.storage;
    let got: Result<InterpreterResponse, ServerError> = match op {
        Op::Get(_) => st.get(&name).map(|e| InterpreterResponse::Value(e.value)),
        Op::TryGet(_) => st.get_if_exists(&name).map(|e| InterpreterResponse::Value(e.map(|e| e.value).unwrap_or(StorageValue::Null))),
        Op::Ex(_) => st.contains_key(&name).map(InterpreterResponse::Bool),
        Op::Set(_, v, _) => st.set(&name, el(v)?).map(|_| InterpreterResponse::Message(String::new())),
        Op::TrySet(_, v, _) => st.set_if_not_exists(&name, el(v)?).map(InterpreterResponse::Bool),
        Op::Upd(_, v, _) => st.update(&name, el(v)?).map(|_| InterpreterResponse::Message(String::new())),
        Op::Del(_) => st.delete(&name).map(InterpreterResponse::Bool),
        Op::SetLt(..) => st.update_expiration(&name, exp).map(|_| InterpreterResponse::Message(String::new())),
        Op::Sweep => st.invalidate_expired_keys().map(InterpreterResponse::Size),
        Op::VPush(_, v) => {
            let v = v.real()?;
            st.get_mut(&name).and_then(|e| match &mut e.value {
                StorageValue::Vector(x) => x.push(v).map(|_| InterpreterResponse::Message(String::new())),
                _ => Err(ServerError::TypeError(String::new())),
            })
        }
        Op::VPop(_) => st.get_mut(&name).and_then(|e| match &mut e.value {
            StorageValue::Vector(x) => Ok(InterpreterResponse::Value(x.pop().unwrap_or(StorageValue::Null))),
            _ => Err(ServerError::TypeError(String::new())),
        }),
        Op::GetLt(_) => {
            // Also reached by the sweeper for a chosen key: it removes the entry exactly if it is expired.
            let held = p.m.ents.contains_key(&name);
            let ghost = p.m.ghosts.contains(&name);
            let r = st.check_and_expire(&name);
            match r {
                Ok(true) => ensure!(ghost && !held, "check_and_expire({name:?}) removed an entry that is not expired"),
                Ok(false) => ensure!(held, "check_and_expire({name:?}) says false for an entry that is expired or absent"),
                Err(ref e) => ensure!(!held && ekind(e) == EK::Key, "check_and_expire({name:?}) fails on a present entry: {e}"),
            }
            p.m.ghosts.remove(&name);
            ensure!(p.ghosts()? + matches!(r, Ok(true)) as usize == before, "check_and_expire({name:?}) answered {r:?} but the number of held expired entries changed differently");
            return Ok(Exp::Ok(R::Null));
        }
        _ => {
            let stm = op.stmt(&p.pool)?;
            p.it.interpret(InterpreterRequest { statements: vec![stm], authorization: AuthorizationLevel::Admin })
        }
    };
    ensure!(exp_is(&want, &got), "{} answered {}, should be {}", short(op), short(&got), short(&want));
    if let (Op::Sweep, Ok(InterpreterResponse::Size(n))) = (op, &got) {
        let a = p.ghosts()?;
        ensure!(a + n == before, "a sweep reports {n} removed entries, but the number of expired entries held went from {before} to {a}");
    }
    Ok(want)
}

/// What the store holds, in a form that can be compared without the code's own equality.
pub type Snap = std::collections::BTreeMap<String, Option<(serde_json::Value, Option<SystemTime>)>>;
pub fn snapshot(st: &HashMapStorage, keys: &BTreeSet<String>) -> Result<Snap, Fail> {
    let mut out = Snap::new();
    for k in keys {
        let g = st.get_if_exists(k).map_err(|e| format!("get_if_exists({k:?}) fails: {e}"))?;
        out.insert(k.clone(), g.map(|g| (view(&g.value), g.expiration)));
    }
    Ok(out)
}
/// A faithful view of a stored value (floats by bits), without relying on its JSON encoding.
pub fn view(v: &StorageValue) -> serde_json::Value {
    use serde_json::json;
    match v {
        StorageValue::Null => json!(null),
        StorageValue::Bool(b) => json!(b),
        StorageValue::Int(i) => json!(i),
        StorageValue::Float(f) => json!({"f": f.to_bits()}),
        StorageValue::String(s) => json!({"s": s}),
        StorageValue::Vector(x) => {
            let es: Vec<_> = (0..x.len()).map(|i| x.get(i).map(view).unwrap_or(json!("unreadable"))).collect();
            json!({"t": format!("{:?}", x.collection_type), "v": es})
        }
        // A map cannot be iterated from outside; its debug form lists it in no particular order.
        StorageValue::Map(m) => {
            let d = format!("{m:?}");
            let mut cs: Vec<char> = d.chars().collect();
            cs.sort();
            json!({"m": cs.into_iter().collect::<String>(), "n": m.len()})
        }
    }
}
/// Elements of the declared type only.
pub fn well_typed(v: &StorageValue) -> bool {
    match v {
        StorageValue::Vector(x) => (0..x.len()).all(|i| x.get(i).is_ok_and(|e| elem_ok(CT::of(x.collection_type), e))),
        // Maps can only be listed through their encoding.
        StorageValue::Map(m) => match serde_json::to_value(m) {
            Ok(serde_json::Value::Object(o)) => match o.get("map") {
                Some(serde_json::Value::Object(es)) => es.values().all(|e| match serde_json::from_value::<StorageValue>(e.clone()) { Ok(e) => elem_ok(CT::of(m.collection_type), &e), Err(_) => true }),
                _ => true,
            },
            _ => true,
        },
        _ => true,
    }
}
fn elem_ok(t: CT, e: &StorageValue) -> bool {
    matches!((t, e), (CT::Bool, StorageValue::Bool(_)) | (CT::Int, StorageValue::Int(_)) | (CT::Float, StorageValue::Float(_)) | (CT::Str, StorageValue::String(_)))
}
