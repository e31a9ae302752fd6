//! The reference model: what each statement means, independent of the code under test.
use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use server::analysis::{InterpreterResponse, Statement, ValueType};
use server::error::ServerError;
use server::storage::{CollectionType, KeyType, StorageMap, StorageValue, StorageVector};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum CT { Bool, Str, Int, Float }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum KT { Str, Int }
pub const CTS: [CT; 4] = [CT::Bool, CT::Str, CT::Int, CT::Float];

/// A scalar. Floats are kept as bits so that comparison is exact.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum Sc { B(bool), I(i64), F(u32), S(String) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum MK { I(i64), S(String) }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum V { N, S(Sc), Vec(CT, Vec<Sc>), Map(KT, CT, #[serde(with = "pairs")] BTreeMap<MK, Sc>) }

mod pairs {
    use super::*;
    pub fn serialize<S: serde::Serializer>(m: &BTreeMap<MK, Sc>, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(m.iter()) }
    pub fn deserialize<'a, D: serde::Deserializer<'a>>(d: D) -> Result<BTreeMap<MK, Sc>, D::Error> {
        Ok(Vec::<(MK, Sc)>::deserialize(d)?.into_iter().collect())
    }
}

impl CT {
    pub fn real(self) -> CollectionType {
        match self { CT::Bool => CollectionType::Bool, CT::Str => CollectionType::String, CT::Int => CollectionType::Int, CT::Float => CollectionType::Float }
    }
    pub fn of(c: CollectionType) -> CT {
        match c { CollectionType::Bool => CT::Bool, CollectionType::String => CT::Str, CollectionType::Int => CT::Int, CollectionType::Float => CT::Float }
    }
    pub fn word(self) -> &'static str { match self { CT::Bool => "bool", CT::Str => "str", CT::Int => "int", CT::Float => "float" } }
}
impl KT {
    pub fn real(self) -> KeyType { match self { KT::Str => KeyType::String, KT::Int => KeyType::Int } }
    pub fn of(k: KeyType) -> KT { match k { KeyType::String => KT::Str, KeyType::Int => KT::Int } }
    pub fn word(self) -> &'static str { match self { KT::Str => "str", KT::Int => "int" } }
}
impl Sc {
    pub fn real(&self) -> StorageValue {
        match self {
            Sc::B(b) => StorageValue::Bool(*b), Sc::I(i) => StorageValue::Int(*i),
            Sc::F(f) => StorageValue::Float(f32::from_bits(*f)), Sc::S(s) => StorageValue::String(s.clone()),
        }
    }
    pub fn ct(&self) -> CT { match self { Sc::B(_) => CT::Bool, Sc::I(_) => CT::Int, Sc::F(_) => CT::Float, Sc::S(_) => CT::Str } }
    pub fn is(&self, v: &StorageValue) -> bool {
        match (self, v) {
            (Sc::B(a), StorageValue::Bool(b)) => a == b,
            (Sc::I(a), StorageValue::Int(b)) => a == b,
            (Sc::F(a), StorageValue::Float(b)) => *a == b.to_bits(),
            (Sc::S(a), StorageValue::String(b)) => a == b,
            _ => false,
        }
    }
    pub fn mk(&self) -> Option<MK> { match self { Sc::I(i) => Some(MK::I(*i)), Sc::S(s) => Some(MK::S(s.clone())), _ => None } }
}
impl MK {
    pub fn real(&self) -> StorageValue { match self { MK::I(i) => StorageValue::Int(*i), MK::S(s) => StorageValue::String(s.clone()) } }
    pub fn kt(&self) -> KT { match self { MK::I(_) => KT::Int, MK::S(_) => KT::Str } }
}
impl V {
    pub fn real(&self) -> Result<StorageValue, String> {
        Ok(match self {
            V::N => StorageValue::Null,
            V::S(s) => s.real(),
            V::Vec(t, es) => {
                let mut v = StorageVector::new(t.real());
                for e in es { v.push(e.real()).map_err(|x| format!("pushing {e:?} onto a {t:?} vector fails: {x}"))?; }
                StorageValue::Vector(v)
            }
            V::Map(k, t, es) => {
                let mut m = StorageMap::new(k.real(), t.real());
                for (a, b) in es { m.set(a.real(), b.real()).map_err(|x| format!("setting {a:?} to {b:?} in a {k:?}-{t:?} map fails: {x}"))?; }
                StorageValue::Map(m)
            }
        })
    }
    /// Is the stored value exactly this value?
    pub fn is(&self, v: &StorageValue) -> bool {
        match (self, v) {
            (V::N, StorageValue::Null) => true,
            (V::S(s), v) => s.is(v),
            (V::Vec(t, es), StorageValue::Vector(v)) => {
                *t == CT::of(v.collection_type) && es.len() == v.len()
                    && es.iter().enumerate().all(|(i, e)| v.get(i).map(|x| e.is(x)).unwrap_or(false))
                    && v.get(es.len()).is_err()
            }
            (V::Map(k, t, es), StorageValue::Map(m)) => {
                *k == KT::of(m.key_type) && *t == CT::of(m.collection_type) && es.len() == m.len()
                    && es.iter().all(|(a, e)| m.get(&a.real()).map(|x| e.is(x)).unwrap_or(false))
            }
            _ => false,
        }
    }
    pub fn vt(&self) -> VT {
        match self {
            V::N => VT::Null, V::S(Sc::B(_)) => VT::Bool, V::S(Sc::I(_)) => VT::Int, V::S(Sc::F(_)) => VT::Float, V::S(Sc::S(_)) => VT::Str,
            V::Vec(t, _) => VT::Vec(*t), V::Map(k, t, _) => VT::Map(*k, *t),
        }
    }
    pub fn mk(&self) -> Option<MK> { match self { V::S(s) => s.mk(), _ => None } }
    pub fn sc(&self) -> Option<&Sc> { match self { V::S(s) => Some(s), _ => None } }
    pub fn size(&self) -> usize { match self { V::Vec(_, v) => v.len(), V::Map(_, _, m) => m.len(), _ => 0 } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum VT { Null, Bool, Int, Float, Str, Vec(CT), Map(KT, CT) }
impl VT {
    pub fn of(v: &ValueType) -> VT {
        match v {
            ValueType::Null => VT::Null, ValueType::Bool => VT::Bool, ValueType::Int => VT::Int, ValueType::Float => VT::Float,
            ValueType::String => VT::Str, ValueType::Vector(c) => VT::Vec(CT::of(*c)), ValueType::Map(k, c) => VT::Map(KT::of(*k), CT::of(*c)),
        }
    }
}

/// One statement. `K` is an index into the case's key pool.
pub type K = u32;
/// The name a key index stands for: indices past the pool give further names derived from it.
pub fn kname(pool: &[String], k: K) -> String {
    let n = pool.len().max(1);
    let (q, r) = (k as usize / n, k as usize % n);
    if q == 0 { pool[r].clone() } else { format!("{}_x{q}", pool[r]) }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Op {
    Get(K), TryGet(K), Ex(K), Type(K), GetLt(K),
    Set(K, V, Option<u64>), TrySet(K, V, Option<u64>), Upd(K, V, Option<u64>), Del(K), SetLt(K, Option<u64>),
    VGet(K, usize), VSet(K, usize, V), VPush(K, V), VPop(K), VLen(K),
    MGet(K, V), MSet(K, V, V), MDel(K, V), MLen(K), MEx(K, V),
    Sweep, Shutdown, Null,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Need { Read, Write, Admin }

impl Op {
    pub fn need(&self) -> Need {
        match self {
            Op::Shutdown => Need::Admin,
            Op::Set(..) | Op::TrySet(..) | Op::Upd(..) | Op::Del(..) | Op::SetLt(..) | Op::VSet(..) | Op::VPush(..) | Op::VPop(..)
            | Op::MSet(..) | Op::MDel(..) => Need::Write,
            _ => Need::Read,
        }
    }
    pub fn key(&self) -> Option<K> {
        Some(match self {
            Op::Get(k) | Op::TryGet(k) | Op::Ex(k) | Op::Type(k) | Op::GetLt(k) | Op::Set(k, ..) | Op::TrySet(k, ..) | Op::Upd(k, ..) | Op::Del(k)
            | Op::SetLt(k, _) | Op::VGet(k, _) | Op::VSet(k, ..) | Op::VPush(k, _) | Op::VPop(k) | Op::VLen(k) | Op::MGet(k, _) | Op::MSet(k, ..)
            | Op::MDel(k, _) | Op::MLen(k) | Op::MEx(k, _) => *k,
            Op::Sweep | Op::Shutdown | Op::Null => return None,
        })
    }
    /// The same statement with another key index.
    pub fn with_key(&self, n: K) -> Op {
        let mut o = self.clone();
        match &mut o {
            Op::Get(k) | Op::TryGet(k) | Op::Ex(k) | Op::Type(k) | Op::GetLt(k) | Op::Set(k, ..) | Op::TrySet(k, ..) | Op::Upd(k, ..) | Op::Del(k)
            | Op::SetLt(k, _) | Op::VGet(k, _) | Op::VSet(k, ..) | Op::VPush(k, _) | Op::VPop(k) | Op::VLen(k) | Op::MGet(k, _) | Op::MSet(k, ..)
            | Op::MDel(k, _) | Op::MLen(k) | Op::MEx(k, _) => *k = n,
            Op::Sweep | Op::Shutdown | Op::Null => {}
        }
        o
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Get(..) => "get", Op::TryGet(..) => "try_get", Op::Ex(..) => "ex", Op::Type(..) => "type", Op::GetLt(..) => "get_lifetime",
            Op::Set(..) => "set", Op::TrySet(..) => "try_set", Op::Upd(..) => "upd", Op::Del(..) => "del", Op::SetLt(..) => "set_lifetime",
            Op::VGet(..) => "vget", Op::VSet(..) => "vset", Op::VPush(..) => "vpush", Op::VPop(..) => "vpop", Op::VLen(..) => "vlen",
            Op::MGet(..) => "mget", Op::MSet(..) => "mset", Op::MDel(..) => "mdel", Op::MLen(..) => "mlen", Op::MEx(..) => "mex",
            Op::Sweep => "sweep", Op::Shutdown => "shutdown", Op::Null => "null",
        }
    }
    pub fn stmt(&self, pool: &[String]) -> Result<Statement, String> {
        let kn = |k: &K| kname(pool, *k);
        Ok(match self {
            Op::Get(k) => Statement::Get(kn(k)),
            Op::TryGet(k) => Statement::GetIfExists(kn(k)),
            Op::Ex(k) => Statement::Exists(kn(k)),
            Op::Type(k) => Statement::ValueType(kn(k)),
            Op::GetLt(k) => Statement::GetLifetime(kn(k)),
            Op::Set(k, v, l) => Statement::Set(kn(k), v.real()?, *l),
            Op::TrySet(k, v, l) => Statement::SetIfNotExists(kn(k), v.real()?, *l),
            Op::Upd(k, v, l) => Statement::Update(kn(k), v.real()?, *l),
            Op::Del(k) => Statement::Delete(kn(k)),
            Op::SetLt(k, l) => Statement::UpdateLifetime(kn(k), *l),
            Op::VGet(k, i) => Statement::VectorGet(kn(k), *i),
            Op::VSet(k, i, v) => Statement::VectorSet(kn(k), *i, v.real()?),
            Op::VPush(k, v) => Statement::VectorAppend(kn(k), v.real()?),
            Op::VPop(k) => Statement::VectorPop(kn(k)),
            Op::VLen(k) => Statement::VectorLength(kn(k)),
            Op::MGet(k, e) => Statement::MapGet(kn(k), e.real()?),
            Op::MSet(k, e, v) => Statement::MapSet(kn(k), e.real()?, v.real()?),
            Op::MDel(k, e) => Statement::MapDelete(kn(k), e.real()?),
            Op::MLen(k) => Statement::MapLength(kn(k)),
            Op::MEx(k, e) => Statement::MapExists(kn(k), e.real()?),
            Op::Sweep => Statement::ExpireKeys,
            Op::Shutdown => Statement::Shutdown,
            Op::Null => Statement::Null,
        })
    }
}

/// Kinds of error, by meaning.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum EK { Key, Network, Write, Token, Parse, Index, Type, Internal, Authorization, Authentication, Request }
pub fn ekind(e: &ServerError) -> EK {
    match e {
        ServerError::KeyError(_) => EK::Key, ServerError::NetworkError(_) => EK::Network, ServerError::WriteError(_) => EK::Write,
        ServerError::TokenizationError(_) => EK::Token, ServerError::ParseError(_) => EK::Parse, ServerError::IndexError(_) => EK::Index,
        ServerError::TypeError(_) => EK::Type, ServerError::InternalError(_) => EK::Internal,
        ServerError::AuthorizationError(_) => EK::Authorization, ServerError::AuthenticationError(_) => EK::Authentication,
        ServerError::RequestError(_) => EK::Request,
    }
}
pub fn emsg(e: &ServerError) -> &str {
    match e {
        ServerError::KeyError(m) | ServerError::NetworkError(m) | ServerError::WriteError(m) | ServerError::TokenizationError(m)
        | ServerError::ParseError(m) | ServerError::IndexError(m) | ServerError::TypeError(m) | ServerError::InternalError(m)
        | ServerError::AuthorizationError(m) | ServerError::AuthenticationError(m) | ServerError::RequestError(m) => m,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum R { Val(V), Msg, Size(usize), Exp(Option<u64>), Bool(bool), Type(VT), Shut, Null }
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(R),
    /// An error of one of these kinds (empty: of any kind).
    Err(Vec<EK>),
    /// A size in this range.
    SizeIn(usize, usize),
}
impl Exp {
    pub fn is_err(&self) -> bool { matches!(self, Exp::Err(_)) }
    pub fn is_shut(&self) -> bool { *self == Exp::Ok(R::Shut) }
}
fn ok(r: R) -> Exp { Exp::Ok(r) }
fn err(k: EK) -> Exp { Exp::Err(vec![k]) }

pub fn resp_is(r: &R, got: &InterpreterResponse) -> bool {
    match (r, got) {
        (R::Val(v), InterpreterResponse::Value(s)) => v.is(s),
        (R::Msg, InterpreterResponse::Message(_)) => true,
        (R::Size(n), InterpreterResponse::Size(m)) => n == m,
        (R::Exp(a), InterpreterResponse::Expiration(b)) => a == b,
        (R::Bool(a), InterpreterResponse::Bool(b)) => a == b,
        (R::Type(a), InterpreterResponse::ValueType(b)) => *a == VT::of(b),
        (R::Shut, InterpreterResponse::ShuttingDown) => true,
        (R::Null, InterpreterResponse::Null) => true,
        _ => false,
    }
}
pub fn exp_is(e: &Exp, got: &Result<InterpreterResponse, ServerError>) -> bool {
    match (e, got) {
        (Exp::Ok(r), Ok(g)) => resp_is(r, g),
        (Exp::Err(ks), Err(g)) => ks.is_empty() || ks.contains(&ekind(g)),
        (Exp::SizeIn(a, b), Ok(InterpreterResponse::Size(n))) => a <= n && n <= b,
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ent { pub v: V, /// absolute expiry, ns
    pub exp: Option<u128> }

pub const SEC: u128 = 1_000_000_000;

/// The store as the properties describe it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub ents: BTreeMap<String, Ent>,
    /// Keys whose entry expired and may still be held physically.
    pub ghosts: BTreeSet<String>,
    pub now: u128,
}

impl Model {
    pub fn new(now: u64) -> Model { Model { ents: BTreeMap::new(), ghosts: BTreeSet::new(), now: now as u128 } }
    pub fn advance(&mut self, ns: u64) {
        self.now += ns as u128;
        // The instant of expiry itself is never used: the property does not say on which side it lies.
        while self.ents.values().any(|e| e.exp == Some(self.now)) { self.now += 1; }
        let now = self.now;
        let dead: Vec<String> = self.ents.iter().filter(|(_, e)| e.exp.is_some_and(|x| now > x)).map(|(k, _)| k.clone()).collect();
        for k in dead { self.ents.remove(&k); self.ghosts.insert(k); }
    }
    /// None if the lifetime is too large for a 64-bit time in seconds.
    pub fn expiry(&self, l: Option<u64>) -> Result<Option<u128>, ()> {
        match l {
            None => Ok(None),
            Some(s) => {
                let e = self.now + s as u128 * SEC;
                if e / SEC > i64::MAX as u128 { Err(()) } else { Ok(Some(e)) }
            }
        }
    }
    pub fn put(&mut self, k: &str, v: V, exp: Option<u128>) {
        self.ghosts.remove(k);
        self.ents.insert(k.to_string(), Ent { v, exp });
    }
    pub fn live_expiring(&self) -> usize { self.ents.values().filter(|e| e.exp.is_some()).count() }

    pub fn apply(&mut self, op: &Op, pool: &[String]) -> Exp {
        let name: String = op.key().map(|k| kname(pool, k)).unwrap_or_default();
        let k = name.as_str();
        let missing = || err(EK::Key);
        match op {
            Op::Null => ok(R::Null),
            Op::Shutdown => ok(R::Shut),
            Op::Sweep => Exp::SizeIn(0, self.ghosts.len()),
            Op::Get(_) => self.ents.get(k).map(|e| ok(R::Val(e.v.clone()))).unwrap_or_else(missing),
            Op::TryGet(_) => ok(R::Val(self.ents.get(k).map(|e| e.v.clone()).unwrap_or(V::N))),
            Op::Ex(_) => ok(R::Bool(self.ents.contains_key(k))),
            Op::Type(_) => self.ents.get(k).map(|e| ok(R::Type(e.v.vt()))).unwrap_or_else(missing),
            Op::GetLt(_) => self.ents.get(k).map(|e| ok(R::Exp(e.exp.map(|x| ((x - self.now) / SEC) as u64)))).unwrap_or_else(missing),
            Op::Set(_, v, l) => match self.expiry(*l) {
                Err(()) => Exp::Err(vec![]),
                Ok(x) => { self.put(k, v.clone(), x); ok(R::Msg) }
            },
            Op::TrySet(_, v, l) => match (self.expiry(*l), self.ents.contains_key(k)) {
                (Err(()), true) => Exp::Err(vec![]),
                (Err(()), false) => Exp::Err(vec![]),
                (Ok(_), true) => ok(R::Bool(false)),
                (Ok(x), false) => { self.put(k, v.clone(), x); ok(R::Bool(true)) }
            },
            Op::Upd(_, v, l) => match (self.expiry(*l), self.ents.contains_key(k)) {
                (Err(()), _) => Exp::Err(vec![]),
                (Ok(_), false) => missing(),
                (Ok(x), true) => { self.put(k, v.clone(), x); ok(R::Msg) }
            },
            Op::Del(_) => { self.ghosts.remove(k); ok(R::Bool(self.ents.remove(k).is_some())) }
            Op::SetLt(_, l) => match (self.expiry(*l), self.ents.get_mut(k)) {
                (Err(()), _) => Exp::Err(vec![]),
                (Ok(_), None) => missing(),
                (Ok(x), Some(e)) => { e.exp = x; ok(R::Msg) }
            },
            Op::VGet(..) | Op::VSet(..) | Op::VPush(..) | Op::VPop(..) | Op::VLen(..) => {
                let Some(e) = self.ents.get_mut(k) else { return missing() };
                let V::Vec(t, es) = &mut e.v else { return err(EK::Type) };
                match op {
                    Op::VGet(_, i) => es.get(*i).map(|s| ok(R::Val(V::S(s.clone())))).unwrap_or_else(|| err(EK::Index)),
                    Op::VLen(_) => ok(R::Size(es.len())),
                    Op::VPop(_) => ok(R::Val(es.pop().map(V::S).unwrap_or(V::N))),
                    Op::VPush(_, v) => match v.sc() {
                        Some(s) if s.ct() == *t => { es.push(s.clone()); ok(R::Msg) }
                        _ => err(EK::Type),
                    },
                    Op::VSet(_, i, v) => {
                        let typed = v.sc().filter(|s| s.ct() == *t);
                        match (typed, *i < es.len()) {
                            (Some(s), true) => { es[*i] = s.clone(); ok(R::Msg) }
                            (Some(_), false) => err(EK::Index),
                            (None, true) => err(EK::Type),
                            (None, false) => Exp::Err(vec![EK::Type, EK::Index]),
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Op::MGet(..) | Op::MSet(..) | Op::MDel(..) | Op::MLen(..) | Op::MEx(..) => {
                let Some(e) = self.ents.get_mut(k) else { return missing() };
                let V::Map(kt, t, es) = &mut e.v else { return err(EK::Type) };
                let key = |v: &V| v.mk().filter(|m| m.kt() == *kt);
                match op {
                    Op::MLen(_) => ok(R::Size(es.len())),
                    Op::MGet(_, m) => match key(m) {
                        None => err(EK::Type),
                        Some(m) => es.get(&m).map(|s| ok(R::Val(V::S(s.clone())))).unwrap_or_else(|| err(EK::Index)),
                    },
                    Op::MEx(_, m) => match key(m) { None => err(EK::Type), Some(m) => ok(R::Bool(es.contains_key(&m))) },
                    Op::MDel(_, m) => match key(m) { None => err(EK::Type), Some(m) => ok(R::Bool(es.remove(&m).is_some())) },
                    Op::MSet(_, m, v) => match (key(m), v.sc().filter(|s| s.ct() == *t)) {
                        (Some(m), Some(s)) => { es.insert(m, s.clone()); ok(R::Msg) }
                        _ => err(EK::Type),
                    },
                    _ => unreachable!(),
                }
            }
        }
    }

    /// A whole request: statements in order, stopping at a failure or a shutdown. The response is the last one's.
    pub fn batch(&mut self, ops: &[Op], pool: &[String], level: Need) -> (Exp, usize) {
        let allowed = |o: &Op| match o.need() { Need::Read => true, Need::Write => level != Need::Read, Need::Admin => level == Need::Admin };
        if !ops.iter().all(allowed) { return (err(EK::Authorization), 0); }
        let mut last = ok(R::Null);
        for (i, op) in ops.iter().enumerate() {
            last = self.apply(op, pool);
            if last.is_err() || last.is_shut() { return (last, i + 1); }
        }
        (last, ops.len())
    }
}
