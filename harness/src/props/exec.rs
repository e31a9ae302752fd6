//! C11, C12, C23: requests of several statements, privilege levels, and the form of responses.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::{InterpreterRequest, InterpreterResponse, ValueType};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::single_threaded::SingleThreadedServer;

use super::text::{soup, stms, style};
use crate::engine::*;
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::runner::*;
use crate::{ensure, sys};

pub const BATCH: Profile = Profile { shutdown: 1, null: 1, sweep: 1, reps: false, big: 20, off_type: 3, ..ALL };

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", level: "exploration", assumptions: &["time does not pass during one request"], legs: vec![
            Box::new(Leg { name: "c11-batches", rule: "sequences of requests of 0-30 statements at random levels, given to the interpreter as statements or as text, against a reference model, with every entry compared after each request; non-trivial: a request stopped at a failing statement or a shutdown after an effective one",
                quick: 50_000, thorough: 2_000_000, threads: 8, shrink_secs: 25, strat: || batches(BATCH), check: c11 }),
            Box::new(Leg { name: "c11-large", rule: "the same with requests of up to 9000 statements; non-trivial: as above, in a request of more than 50",
                quick: 5_000, thorough: 200_000, threads: 8, shrink_secs: 40, strat: || large_batches(BATCH), check: |c, o| many(c, o, c11) }),
            Box::new(Leg { name: "c11-server", rule: "sequences of query texts, some of which do not parse, through the single-threaded server, each followed by reads of all keys; non-trivial: a text that does not parse, or that fails midway, follows an effective one",
                quick: 25_000, thorough: 1_000_000, threads: 8, shrink_secs: 25, strat: || talk(TALK, false), check: talk_check }),
        ]},
        Prop { id: "C12", level: "exploration", assumptions: &["removing expired entries is not a change of the store"], legs: vec![
            Box::new(Leg { name: "c12-levels", rule: "random statement lists at each level given to the interpreter; every entry compared after; non-trivial: refused although it starts with a statement within the level, or allowed below admin with a statement of that level",
                quick: 60_000, thorough: 2_500_000, threads: 8, shrink_secs: 25, strat: || batches(LEVELS), check: c12 }),
            Box::new(Leg { name: "c12-large", rule: "the same with requests of up to 9000 statements; non-trivial: as above, in a request of more than 50",
                quick: 5_000, thorough: 200_000, threads: 8, shrink_secs: 40, strat: || large_batches(LEVELS), check: |c, o| many(c, o, c12) }),
            Box::new(Leg { name: "c12-server", rule: "query texts by users of each level through the single-threaded server, with reads of all keys after each; non-trivial: as above",
                quick: 25_000, thorough: 1_000_000, threads: 8, shrink_secs: 25, strat: || talk(TALK, true), check: talk_check }),
        ]},
        Prop { id: "C23", level: "exploration", assumptions: &["floats are finite"], legs: vec![
            Box::new(Leg { name: "c23-roundtrip", rule: "random responses of every kind encoded and decoded, and compared with a near variant; non-trivial: a non-empty collection, a string or a float",
                quick: 600_000, thorough: 20_000_000, threads: 8, shrink_secs: 20, strat: || (resp(300), near()).boxed(), check: c23 }),
            Box::new(Leg { name: "c23-large", rule: "the same with strings and collections of up to 70000 characters or elements; non-trivial: more than 1000",
                quick: 6_000, thorough: 200_000, threads: 8, shrink_secs: 30, strat: || (wt(vec![(3, large_v(70_000).prop_map(Resp::Val).boxed()), (1, resp(70_000)), (1, (much(), chr()).prop_map(|(n, c)| Resp::Msg(c.to_string().repeat(n))).boxed())]), near()).boxed(), check: |c, o| { let r = c23(c, &mut Obs::default()); o.nontrivial_if(match &c.0 { Resp::Val(V::S(Sc::S(s))) => s.len() > 1000, Resp::Val(v) => v.size() > 1000, _ => false }); r } }),
            Box::new(Leg { name: "c23-interpreted", rule: "every response of random histories run by the interpreter, encoded and decoded; non-trivial: at least three kinds of response in the history",
                quick: 40_000, thorough: 2_000_000, threads: 8, shrink_secs: 20, strat: || hist(ALL, true), check: c23_hist }),
        ]},
    ]
}

// --- C11, C12 on the interpreter

const LEVELS: Profile = Profile { sweep: 0, shutdown: 2, null: 2, ..BATCH };

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Req { dt: Dt, ops: Vec<Op>, level: Need, style: Option<Vec<u8>>, tame: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batches { pool: Vec<String>, first: Vec<Op>, reqs: Vec<Req> }

pub fn need() -> BoxedStrategy<Need> { select(vec![Need::Read, Need::Write, Need::Admin, Need::Admin]).boxed() }
/// Statements up to a level, with now and then one above it somewhere.
pub fn level_ops(p: Profile) -> BoxedStrategy<(Need, Vec<Op>)> {
    let one = op(p);
    let ops = wt(vec![(6, vec(one.clone(), 0..8).boxed()), (1, vec(one.clone(), 0..40).boxed())]);
    (need(), ops, prop::option::weighted(0.4, (any::<u16>(), one)), 0u8..3).prop_map(move |(l, mut v, extra, how)| {
        if how > 0 { v.retain(|o| o.need() <= l); }
        if let Some((at, o)) = extra { let i = at as usize % (v.len() + 1); v.insert(i, o); }
        (l, v)
    }).boxed()
}
fn firsts() -> BoxedStrategy<Vec<Op>> {
    vec(any_v(10), 0..4).prop_map(|v| v.into_iter().enumerate().map(|(i, v)| Op::Set(i as K, v, None)).collect()).boxed()
}
fn batches(p: Profile) -> BoxedStrategy<Batches> {
    let ws = Union3::of(p);
    let req = (dt(), ws, prop::option::weighted(0.4, style()), tameness()).prop_map(|(dt, (level, ops), style, tame)| Req { dt, ops, level, style, tame });
    (pool(false), firsts(), vec(req, 1..12)).prop_map(|(pool, first, reqs)| Batches { pool, first, reqs }).boxed()
}
/// Requests of many statements.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyReq { dt: Dt, level: Need, parts: Vec<(Op, u16, bool)>, only_within: bool, extra: Vec<(u16, Op)>, style: Option<Vec<u8>>, tame: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many { pool: Vec<String>, first: Vec<Op>, reqs: Vec<ManyReq> }
fn large_batches(p: Profile) -> BoxedStrategy<Many> {
    let p = Profile { big: 4, ..p };
    let near = |v: Vec<u16>| select(v.into_iter().flat_map(|n| [n - 1, n, n + 1]).collect::<Vec<_>>()).boxed();
    let n = wt(vec![(3, (1u16..10).boxed()), (3, near(vec![16, 32, 50, 64, 100, 128, 200, 255])), (3, near(vec![256, 300, 500, 512, 1000, 1024])), (1, near(vec![2000, 2048, 4096]))]);
    let one = move |k, t| {
        let extra = vec((wt(vec![(2, any::<u16>().boxed()), (1, (u16::MAX - 300..=u16::MAX).boxed()), (1, Just(u16::MAX).boxed())]), op_for(p, k, t)), 0..3);
        let st = wt(vec![(3, Just(None).boxed()), (1, style().prop_map(Some).boxed())]);
        (dt(), need(), vec((op_for(p, k, t), n.clone(), any::<bool>()), 1..6), prop::bool::weighted(0.8), extra, st, tameness())
            .prop_map(|(dt, level, parts, only_within, extra, style, tame)| ManyReq { dt, level, parts, only_within, extra, style, tame }).boxed()
    };
    let reqs = proptest::strategy::Union::new(CTS.iter().flat_map(|&t| KTS.map(|k| vec(one.clone()(k, t), 1..4))).collect::<Vec<_>>());
    (pool(false), firsts(), reqs).prop_map(|(pool, first, reqs)| Many { pool, first, reqs }).boxed()
}
impl Many {
    fn expand(&self) -> Batches {
        let reqs = self.reqs.iter().map(|r| {
            let mut ops: Vec<Op> = vec![];
            for (o, n, spread) in r.parts.iter().filter(|x| !r.only_within || x.0.need() <= r.level) {
                // A repeated shutdown would end the request at once.
                let n = if matches!(o, Op::Shutdown) { 1 } else { *n as usize };
                ops.extend((0..n).take(9000usize.saturating_sub(ops.len())).map(|i| vary(o, i, if *spread { (i * self.pool.len()) as K } else { 0 })));
            }
            for (at, o) in &r.extra { let i = *at as usize * ops.len() / u16::MAX as usize; ops.insert(i, o.clone()); }
            Req { dt: r.dt.clone(), ops, level: r.level, style: r.style.clone(), tame: r.tame }
        }).collect();
        Batches { pool: self.pool.clone(), first: self.first.clone(), reqs }
    }
}
/// Most statements of a random request fail, so few get past the first ones. 0 keeps all; n leaves out
/// all statements that would fail where they stand, except the n-th such.
pub fn tameness() -> BoxedStrategy<u8> { wt(vec![(1, Just(0u8).boxed()), (2, (1u8..6).boxed()), (2, Just(200u8).boxed())]) }
pub fn tame(m: &Model, ops: &[Op], pool: &[String], n: u8) -> Vec<Op> {
    if n == 0 { return ops.to_vec(); }
    let mut m = m.clone();
    let mut left = n;
    ops.iter().filter(|o| {
        let r = m.apply(o, pool);
        if r.is_err() { left -= (left > 0) as u8; left == 0 && { left = 200; true } } else { true }
    }).cloned().collect()
}
/// Whether an entry is visible at the very instant of its expiry is not specified, and time does not
/// pass within a request: an entry that expires at once must not be used again in it.
pub fn not_instant(ops: &mut [Op]) {
    if ops.len() < 2 { return; }
    for o in ops { if let Op::Set(_, _, Some(l)) | Op::TrySet(_, _, Some(l)) | Op::Upd(_, _, Some(l)) | Op::SetLt(_, Some(l)) = o { *l = (*l).max(1); } }
}
fn instant(ops: &[(String, Op)]) -> bool {
    ops.len() > 1 && ops.iter().any(|(_, o)| matches!(o, Op::Set(_, _, Some(0)) | Op::TrySet(_, _, Some(0)) | Op::Upd(_, _, Some(0)) | Op::SetLt(_, Some(0))))
}
struct Union3;
impl Union3 {
    fn of(p: Profile) -> BoxedStrategy<(Need, Vec<Op>)> {
        // A third of the requests keep to one pair of element types.
        let homo = (need(), ops(p, 0..12)).boxed();
        wt(vec![(1, homo), (2, level_ops(p))])
    }
}
fn run_batches(c: &Batches, obs: &mut Obs, mut see: impl FnMut(&Req, &[Op], &Exp, usize, &mut Obs)) -> Res {
    let mut p = Pair::new(&c.pool);
    for o in &c.first { p.tick(1_000); p.exec(o)?; }
    for (i, r) in c.reqs.iter().enumerate() {
        p.pass(&r.dt);
        let ops: Vec<Op> = if r.style.is_some() { r.ops.iter().filter(|o| lang::expressible(o)).cloned().collect() } else { r.ops.clone() };
        let mut ops = tame(&p.m, &ops, &c.pool, r.tame);
        not_instant(&mut ops);
        for o in &ops { p.touch(o); }
        let statements = match &r.style {
            Some(s) => { let t = lang::print(&stms(&c.pool, &ops), s); analyse(&t).map_err(|e| format!("request {i} {} is rejected: {e}", short(&t)))? }
            None => ops.iter().map(|o| o.stmt(&c.pool)).collect::<Result<Vec<_>, _>>()?,
        };
        let before = if r.level != Need::Admin { Some(snapshot(&p.it.storage, &p.touched)?) } else { None };
        let (want, done) = p.m.batch(&ops, &c.pool, r.level);
        let got = p.it.interpret(InterpreterRequest { statements, authorization: level(r.level) });
        ensure!(exp_is(&want, &got), "request {i} {} at level {:?} answered {}, should be {}", short(&ops), r.level, short(&got), short(&want));
        if let Some(b) = before {
            if r.level == Need::Read {
                let now = snapshot(&p.it.storage, &p.touched)?;
                ensure!(b == now, "request {i} {} at read level changed the store from {} to {}", short(&ops), short(&b), short(&now));
                ensure!(!matches!(got, Ok(InterpreterResponse::ShuttingDown)), "request {i} at read level shuts down");
            }
        }
        see(r, &ops, &want, done, obs);
        p.compare_all().map_err(|e| match e { Fail::Broken(m) => Fail::Broken(format!("after request {i} {} at level {:?}: {m}", short(&ops), r.level)), e => e })?;
    }
    Ok(())
}
fn c11(c: &Batches, obs: &mut Obs) -> Res {
    run_batches(c, obs, |_, ops, want, done, obs| {
        let eff = ops[..done.saturating_sub(1).min(ops.len())].iter().any(|o| o.need() == Need::Write);
        obs.nontrivial_if(eff && done < ops.len() && (want.is_err() || want.is_shut()));
        obs.label_if(want.is_err() && done > 0, "stopped by a failure");
        obs.label_if(want.is_shut() && done < ops.len(), "stopped by a shutdown");
        obs.label_if(ops.is_empty(), "empty");
        obs.label_if(!want.is_err() && ops.len() > 2, "ran through");
    })
}
fn many(c: &Many, obs: &mut Obs, f: fn(&Batches, &mut Obs) -> Res) -> Res {
    let b = c.expand();
    let mut o = Obs::default();
    f(&b, &mut o)?;
    let n = b.reqs.iter().map(|r| r.ops.len()).max().unwrap_or(0);
    obs.nontrivial_if(o.nontrivial && n > 50);
    obs.label_if(n > 1000, "more than a thousand statements");
    Ok(())
}
fn c12(c: &Batches, obs: &mut Obs) -> Res {
    run_batches(c, obs, |r, ops, _, done, obs| {
        let refused = done == 0 && !ops.is_empty();
        obs.label_if(refused, "refused");
        obs.label_if(refused && ops.last().unwrap().need() <= r.level, "refused for a statement before the last");
        obs.label_if(refused && ops[0].need() <= r.level, "refused for a later statement");
        obs.nontrivial_if(refused && ops[0].need() <= r.level || !refused && r.level != Need::Admin && ops.iter().any(|o| o.need() == r.level));
    })
}

// --- The single-threaded server, driven without a network

pub struct Answers(pub Mutex<Vec<(usize, Result<InterpreterResponse, ServerError>)>>);
pub struct Rec { pub id: usize, pub to: Arc<Answers>, pub fail: bool }
impl StreamSender for Rec {
    fn send(&mut self, r: Result<InterpreterResponse, ServerError>) -> Result<(), ServerError> {
        self.to.0.lock().unwrap().push((self.id, r));
        if self.fail { Err(ServerError::WriteError("gone".into())) } else { Ok(()) }
    }
}
pub struct Script { pub reqs: std::vec::IntoIter<Line>, pub at: usize, pub to: Arc<Answers> }
pub struct Line { pub now: u64, pub request: Result<String, ServerError>, pub user: Option<String>, pub sender: u8 }
impl StreamHandler for Script {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        let l = self.reqs.next()?;
        let id = self.at;
        self.at += 1;
        sys::set_fake_time(l.now);
        Some(StreamRequest { request: l.request, headers: headers(&l.user), sender: match l.sender { 0 => None, n => Some(Box::new(Rec { id, to: self.to.clone(), fail: n == 2 })) } })
    }
}
pub fn headers(user: &Option<String>) -> HashMap<String, String> {
    let mut h = HashMap::new();
    h.insert("Content-Length".to_string(), "10".to_string());
    if let Some(u) = user { h.insert("Username".to_string(), u.clone()); }
    h
}

/// What one request of a conversation asks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask { Ops(Vec<Op>, Vec<u8>, u8), Text(String), Broken(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Said { pub dt: Dt, pub user: Option<String>, pub ask: Ask, pub sender: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Talk { pub pool: Vec<String>, pub said: Vec<Said> }
pub const TALK: Profile = Profile { shutdown: 1, null: 0, sweep: 0, getlt: 0, lt: 0, reps: false, big: 20, off_type: 3, ..ALL };

pub fn user_level(u: &Option<String>) -> Result<Need, Vec<EK>> {
    match u.as_deref() {
        None => Err(vec![EK::Internal, EK::Authentication, EK::Authorization]),
        Some("unauthenticated") => Err(vec![EK::Authentication]),
        Some("admin") => Ok(Need::Admin),
        Some("write") => Ok(Need::Write),
        Some("read") => Ok(Need::Read),
        Some(_) => Err(vec![EK::Authorization]),
    }
}
pub fn user(bad: bool) -> BoxedStrategy<Option<String>> {
    let s = |v: &[&str]| select(v.iter().map(|s| Some(s.to_string())).collect::<Vec<_>>()).boxed();
    let good = s(&["admin", "admin", "write", "read"]);
    if !bad { return good; }
    wt(vec![(5, good), (1, Just(None).boxed()), (2, s(&["unauthenticated", "", "other", "Admin", "ADMIN", "adminn", "admi", " admin", "admin ", "root", "Write", "Read", "unauthorized", "write,admin", "none"])),
        (1, text(30).prop_map(Some).boxed()), (1, near_name().prop_map(Some).boxed())])
}
/// Names that contain, extend, cut, repeat or respell one the system knows.
fn near_name() -> BoxedStrategy<String> {
    (select(vec!["admin", "write", "read", "unauthenticated"]), any::<u16>(), wt(vec![(3, text(12)), (2, select(vec!["istrator", "istrator-of-nothing", "r", "s", "er", "1", "0", "-", "_", "/", ".", "@host", ":", "\0", "\t", "\n", "\u{a0}", "\u{200b}", "é", "x-padding-of-more-than-a-few-characters"]).prop_map(String::from).boxed())])).prop_map(|(n, how, t)| {
        let at = (how / 8) as usize % n.len();
        let s = match how % 8 {
            0 | 1 => format!("{n}{t}"),
            2 => format!("{t}{n}"),
            3 => format!("{t}{n}{t}"),
            4 => n.chars().enumerate().map(|(i, c)| if i == at { c.to_ascii_uppercase() } else { c }).collect(),
            5 => n.chars().enumerate().filter(|(i, _)| *i != at).map(|(_, c)| c).collect(),
            6 => format!("{}{t}{}", &n[..at], &n[at..]),
            _ => format!("{n}{n}"),
        };
        // An addition may be empty or give back a known name.
        if ["admin", "write", "read", "unauthenticated"].contains(&s.as_str()) { format!("{s}?") } else { s }
    }).boxed()
}
fn ask(p: Profile, junk: u32) -> BoxedStrategy<Ask> {
    let ops_ = wt(vec![(2, vec(op(p), 0..6).boxed()), (2, ops(p, 0..6)), (1, vec(op(p), 0..30).boxed())]);
    let odd = select("\u{feff}\0\u{a0}\u{2028}\u{3000}\u{200b}\u{85}\u{c}\u{b}\u{1}\u{7f};,:\\'`/#-.+=\u{fffd}\u{1f600}٣é".chars().collect::<Vec<_>>());
    let broken_text = (ops(p, 1..6), style(), soup(), any::<u16>(), odd).prop_map(|(o, st, junk, at, odd)| {
        // A text whose parts are sensible but which does not parse as a whole.
        let a = lang::print(&stms(&["a".into(), "b".into(), "k".into()], &o), &st);
        match at % 8 {
            0 => format!("{a};{junk}"), 1 => format!("{junk};{a}"), 2 => format!("{a} get"), 3 => format!("{a};set"),
            // With an odd character in front, behind, within, or for the blanks; it may parse all the same.
            4 => format!("{odd}{a}"), 5 => format!("{a}{odd}"),
            6 => { let n = a.chars().count() + 1; let i = at as usize / 8 % n; a.chars().take(i).chain([odd]).chain(a.chars().skip(i)).collect() }
            _ => a.replace(' ', &odd.to_string()),
        }
    });
    // Now and then something large.
    let large = (0 as K..8, large_v(20_000), any::<bool>()).prop_map(|(k, v, get)| Ask::Ops(if get { vec![Op::Set(k, v, None), Op::Get(k)] } else { vec![Op::Set(k, v, None)] }, vec![], 0));
    let junk = junk * 8;
    wt(vec![(64, (ops_, style(), tameness()).prop_map(|(o, s, t)| Ask::Ops(o, s, t)).boxed()), (1, large.boxed()), (junk, broken_text.prop_map(Ask::Text).boxed()), (junk, soup().prop_map(Ask::Text).boxed()), (junk, (0u8..4).prop_map(Ask::Broken).boxed())])
}
pub fn talk_with(p: Profile, bad_users: bool, junk: u32, n: std::ops::Range<usize>) -> BoxedStrategy<Talk> {
    let said = (dt(), user(bad_users), ask(p, junk), wt(vec![(20, Just(1u8).boxed()), (1, Just(0u8).boxed()), (1, Just(2u8).boxed())]));
    (pool(false), firsts(), vec(said, n)).prop_map(|(pool, first, said)| {
        let mut all: Vec<Said> = first.into_iter().map(|o| Said { dt: Dt::Tick, user: Some("admin".into()), ask: Ask::Ops(vec![o], vec![], 0), sender: 1 }).collect();
        all.extend(said.into_iter().map(|(dt, user, ask, sender)| Said { dt, user, ask, sender }));
        Talk { pool, said: all }
    }).boxed()
}
pub fn talk(p: Profile, levels: bool) -> BoxedStrategy<Talk> {
    if levels { talk_with(p, false, 1, 1..12) } else { talk_with(p, false, 4, 1..12) }
}

/// A step of the expected course of a conversation.
pub struct Plan { pub now: u64, pub text: Result<String, EK>, pub user: Option<String>, pub want: Exp, pub sender: u8, pub probe: bool,
    pub ops: Vec<Op>, pub done: usize, pub parses: bool, pub lvl: Option<Need> }

pub fn advance(m: &mut Model, d: &Dt) {
    let mut p = Clock { m };
    p.pass(d);
}
struct Clock<'a> { m: &'a mut Model }
impl Clock<'_> { fn pass(&mut self, d: &Dt) { let ns = step_ns(self.m, d); self.m.advance(ns.max(1)); } }

/// Computes what a conversation should come to. With `probes`, every request is followed by reads of all keys.
pub fn plan(c: &Talk, probes: bool, move_time: bool) -> Vec<Plan> {
    let mut m = Model::new(sys::T0);
    let mut out: Vec<Plan> = vec![];
    let mut keys: std::collections::BTreeSet<String> = Default::default();
    for s in &c.said {
        advance(&mut m, if move_time { &s.dt } else { &Dt::Tick });
        let (text, parsed): (Result<String, EK>, Option<Vec<lang::Stm>>) = match &s.ask {
            Ask::Ops(ops, st, t) => { let ops: Vec<Op> = ops.iter().filter(|o| lang::expressible(o)).cloned().collect(); let mut ops = tame(&m, &ops, &c.pool, *t); not_instant(&mut ops); let l = stms(&c.pool, &ops); let t = lang::print(&l, st); (Ok(t), Some(l)) }
            Ask::Text(t) => match lang::parse(t) { Some(l) if instant(&l) => (Ok("get".into()), None), l => (Ok(t.clone()), l) },
            Ask::Broken(k) => (Err([EK::Request, EK::Network, EK::Internal, EK::Request][*k as usize % 4]), None),
        };
        let lvl = user_level(&s.user);
        // Each distinct key name gets an index of its own.
        let mut names: Vec<String> = vec![];
        let ops: Vec<Op> = parsed.iter().flatten().map(|(n, o)| {
            if o.key().is_none() { return o.clone(); }
            keys.insert(n.clone());
            let i = names.iter().position(|x| x == n).unwrap_or_else(|| { names.push(n.clone()); names.len() - 1 });
            o.with_key(i as K)
        }).collect();
        if names.is_empty() { names.push("a".into()); }
        let mut done = 0;
        let want = match (&lvl, &text, &parsed) {
            (Err(k), Ok(_), Some(_)) => Exp::Err(k.clone()),
            // Which of several reasons is reported is not specified.
            (Err(k), Ok(_), None) => Exp::Err([&k[..], &[EK::Token, EK::Parse, EK::Type]].concat()),
            (Err(k), Err(e), _) => Exp::Err([&k[..], &[*e]].concat()),
            (Ok(_), Err(e), _) => Exp::Err(vec![*e]),
            (Ok(_), Ok(_), None) => Exp::Err(vec![EK::Token, EK::Parse, EK::Type]),
            (Ok(l), Ok(_), Some(_)) => { let (w, d) = m.batch(&ops, &names, *l); done = d; w }
        };
        let shut = want.is_shut();
        out.push(Plan { now: m.now as u64, text, user: s.user.clone(), want, sender: s.sender, probe: false, parses: parsed.is_some(), ops, done, lvl: lvl.ok() });
        if shut { break; }
        if probes {
            for k in &keys {
                // A few letters have a lower case that cannot be written in a name.
                if !lang::is_plain_ident(k) { continue; }
                advance(&mut m, &Dt::Tick);
                let want = m.apply(&Op::TryGet(0), &[k.clone()]);
                out.push(Plan { now: m.now as u64, text: Ok(lang::print(&[(k.clone(), Op::TryGet(0))], &[])), user: Some("read".into()), want, sender: 1, probe: true, ops: vec![], done: 1, parses: true, lvl: Some(Need::Read) });
            }
        }
    }
    out
}

pub fn single_server(ps: &[Plan]) -> Result<(Vec<(usize, Result<InterpreterResponse, ServerError>)>, usize), Fail> {
    let to = Arc::new(Answers(Mutex::new(vec![])));
    let mut lines: Vec<Line> = ps.iter().map(|p| Line { now: p.now, user: p.user.clone(), sender: p.sender, request: match &p.text {
        Ok(t) => Ok(t.clone()), Err(EK::Request) => Err(ServerError::RequestError("bad".into())), Err(EK::Network) => Err(ServerError::NetworkError("bad".into())), Err(_) => Err(ServerError::InternalError("bad".into())) } }).collect();
    // Further requests that must or must not be reached.
    let end = ps.last().map(|p| p.now).unwrap_or(sys::T0);
    for i in 0..2 { lines.push(Line { now: end + 1000 + i, request: Ok("try_get zzz_unused".into()), user: Some("read".into()), sender: 1 }); }
    let n = lines.len();
    let script = Script { reqs: lines.into_iter(), at: 0, to: to.clone() };
    guarded(|| SingleThreadedServer::new().serve(script)).map_err(|m| format!("the server {m}"))?;
    let a = std::mem::take(&mut *to.0.lock().unwrap());
    Ok((a, n))
}
fn talk_check(c: &Talk, obs: &mut Obs) -> Res {
    let ps = plan(c, true, true);
    let (got, _) = single_server(&ps)?;
    judge(&ps, got)?;
    let mut effective = false;
    for p in ps.iter().filter(|p| !p.probe) {
        obs.label_if(!p.parses && p.text.is_ok(), "does not parse");
        obs.label_if(p.want == Exp::Err(vec![EK::Authorization]), "refused");
        obs.label_if(p.want.is_shut(), "shutdown");
        let mid = p.done > 1 && p.want.is_err();
        obs.label_if(mid, "fails midway");
        obs.nontrivial_if(effective && (!p.parses || mid || p.done == 0 && !p.ops.is_empty() && p.lvl.is_some_and(|l| p.ops[0].need() <= l)));
        if p.ops[..p.done.min(p.ops.len())].iter().any(|o| o.need() == Need::Write) { effective = true; }
    }
    Ok(())
}
/// The answers are the planned ones, and the server goes on until the planned end.
pub fn judge(ps: &[Plan], got: Vec<(usize, Result<InterpreterResponse, ServerError>)>) -> Res {
    let stops = ps.last().is_some_and(|p| p.want.is_shut());
    let mut by: HashMap<usize, Vec<Result<InterpreterResponse, ServerError>>> = HashMap::new();
    for (i, r) in got { by.entry(i).or_default().push(r); }
    for (i, p) in ps.iter().enumerate() {
        let what = || format!("request {i} {} by {:?}{}", short(&p.text), p.user, if p.probe { " (reading back)" } else { "" });
        let a = by.remove(&i).unwrap_or_default();
        if p.sender == 0 { continue; }
        ensure!(a.len() == 1, "{} got {} answers", what(), a.len());
        ensure!(exp_is(&p.want, &a[0]), "{} answered {}, should be {}", what(), short(&a[0]), short(&p.want));
    }
    let after = by.len();
    if stops { ensure!(after == 0, "the server went on after an executed shutdown {}", short(&ps.last().unwrap().text)); }
    else { ensure!(after == 2, "the server stopped although no shutdown was executed; last requests: {}", short(&ps.iter().rev().filter(|p| !p.probe).take(2).map(|p| (&p.text, &p.user)).collect::<Vec<_>>())); }
    Ok(())
}

// --- C23

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Resp { Val(V), Msg(String), Size(u64), Exp(Option<u64>), Key(String), Bool(bool), Type(VT), Shut, Null }
fn vt_real(t: VT) -> ValueType {
    match t { VT::Null => ValueType::Null, VT::Bool => ValueType::Bool, VT::Int => ValueType::Int, VT::Float => ValueType::Float, VT::Str => ValueType::String, VT::Vec(c) => ValueType::Vector(c.real()), VT::Map(k, c) => ValueType::Map(k.real(), c.real()) }
}
impl Resp {
    pub fn real(&self) -> Result<InterpreterResponse, String> {
        Ok(match self {
            Resp::Val(v) => InterpreterResponse::Value(v.real()?),
            Resp::Msg(s) => InterpreterResponse::Message(s.clone()),
            Resp::Size(n) => InterpreterResponse::Size(*n as usize),
            Resp::Exp(e) => InterpreterResponse::Expiration(*e),
            Resp::Key(k) => InterpreterResponse::Key(k.clone()),
            Resp::Bool(b) => InterpreterResponse::Bool(*b),
            Resp::Type(t) => InterpreterResponse::ValueType(vt_real(*t)),
            Resp::Shut => InterpreterResponse::ShuttingDown,
            Resp::Null => InterpreterResponse::Null,
        })
    }
    pub fn is(&self, g: &InterpreterResponse) -> bool {
        match (self, g) {
            (Resp::Val(v), InterpreterResponse::Value(x)) => v.is(x),
            (Resp::Msg(s), InterpreterResponse::Message(x)) => s == x,
            (Resp::Size(n), InterpreterResponse::Size(x)) => *n as usize == *x,
            (Resp::Exp(e), InterpreterResponse::Expiration(x)) => e == x,
            (Resp::Key(k), InterpreterResponse::Key(x)) => k == x,
            (Resp::Bool(b), InterpreterResponse::Bool(x)) => b == x,
            (Resp::Type(t), InterpreterResponse::ValueType(x)) => *t == VT::of(x),
            (Resp::Shut, InterpreterResponse::ShuttingDown) | (Resp::Null, InterpreterResponse::Null) => true,
            _ => false,
        }
    }
}
fn vt() -> BoxedStrategy<VT> {
    let mut v = vec![VT::Null, VT::Bool, VT::Int, VT::Float, VT::Str];
    for t in CTS { v.push(VT::Vec(t)); for k in KTS { v.push(VT::Map(k, t)); } }
    select(v).boxed()
}
pub fn resp(big: usize) -> BoxedStrategy<Resp> {
    wt(vec![(12, any_v(big).prop_map(Resp::Val).boxed()), (2, text(200).prop_map(Resp::Msg).boxed()), (1, text(200).prop_map(Resp::Key).boxed()),
        (1, lifetime().prop_map(Resp::Size).boxed()), (1, prop::option::of(lifetime()).prop_map(Resp::Exp).boxed()), (1, any::<bool>().prop_map(Resp::Bool).boxed()),
        (2, vt().prop_map(Resp::Type).boxed()), (1, select(vec![Resp::Shut, Resp::Null]).boxed())])
}
/// A response that is easily confused with another.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Near { Same, Other(Resp), Twist(u8, u16, Sc) }
fn near() -> BoxedStrategy<Near> { wt(vec![(1, Just(Near::Same).boxed()), (2, resp(5).prop_map(Near::Other).boxed()), (5, (any::<u8>(), any::<u16>(), any_sc()).prop_map(|(a, b, c)| Near::Twist(a, b, c)).boxed())]) }
fn twist_sc(s: &Sc, k: u8) -> Sc {
    match (s, k % 6) {
        (Sc::I(i), 0) => Sc::S(i.to_string()), (Sc::I(i), 1) => Sc::F((*i as f32).to_bits()), (Sc::I(i), 2) => Sc::I(i.wrapping_neg()), (Sc::I(i), _) => Sc::I(i.wrapping_add(1)),
        (Sc::F(f), 0) => Sc::F(f ^ 0x8000_0000), (Sc::F(f), 1) => Sc::S(format!("{:?}", f32::from_bits(*f))), (Sc::F(f), 2) => Sc::I(f32::from_bits(*f) as i64),
        (Sc::F(f), _) => { let g = f ^ 1; if f32::from_bits(g).is_finite() { Sc::F(g) } else { Sc::F(0) } }
        (Sc::B(b), 0) => Sc::S(b.to_string()), (Sc::B(b), 1) => Sc::I(*b as i64), (Sc::B(b), _) => Sc::B(!b),
        (Sc::S(s), 0) => Sc::S(s.to_uppercase()), (Sc::S(s), 1) => Sc::S(format!("{s} ")), (Sc::S(s), 2) => Sc::S(s.trim().to_string()), (Sc::S(s), 3) => Sc::S(s.chars().rev().collect()),
        (Sc::S(s), 4) => s.parse().map(Sc::I).unwrap_or(Sc::S(String::new())), (Sc::S(s), _) => Sc::S(s.replace('\\', "\\\\")),
    }
}
fn twist(r: &Resp, k: u8, at: u16, other: &Sc) -> Resp {
    let d = k / 6;
    match r {
        Resp::Val(V::N) => [Resp::Null, Resp::Exp(None), Resp::Type(VT::Null), Resp::Msg("Null".into()), Resp::Val(V::S(Sc::S("null".into())))][k as usize % 5].clone(),
        Resp::Val(V::S(s)) if d % 4 == 0 => match s { Sc::B(b) => Resp::Bool(*b), Sc::I(i) => Resp::Size(*i as u64), Sc::S(s) => if d % 8 == 0 { Resp::Msg(s.clone()) } else { Resp::Key(s.clone()) }, s => Resp::Val(V::Vec(s.ct(), vec![s.clone()])) },
        Resp::Val(V::S(s)) if d % 4 == 1 => Resp::Val(V::Vec(s.ct(), vec![s.clone()])),
        Resp::Val(V::S(s)) => Resp::Val(V::S(twist_sc(s, k))),
        Resp::Val(V::Vec(t, es)) => {
            let mut e = es.clone();
            match d % 4 {
                0 if e.is_empty() => return Resp::Val(V::Vec(CTS[at as usize % 4], e)),
                0 => { e.pop(); }
                1 => { let n = e.len(); if n > 1 { let i = at as usize % (n - 1); e.swap(i, i + 1); } }
                2 => if other.ct() == *t { e.push(other.clone()) },
                _ => { let n = e.len(); if n > 0 { let i = at as usize % n; let x = twist_sc(&e[i], k); if x.ct() == *t { e[i] = x } } }
            }
            Resp::Val(V::Vec(*t, e))
        }
        Resp::Val(V::Map(kt, t, es)) => {
            let mut e = es.clone();
            if e.is_empty() { return Resp::Val(V::Map(KTS[k as usize % 2], CTS[at as usize % 4], e)); }
            let i = at as usize % e.len();
            let (a, b) = e.iter().nth(i).map(|(a, b)| (a.clone(), b.clone())).unwrap();
            match d % 4 {
                0 => { e.remove(&a); }
                1 => { let x = twist_sc(&b, k); if x.ct() == *t { e.insert(a, x); } }
                2 => { e.remove(&a); e.insert(nudge_key(&a, 1), b); }
                _ => {
                    // The same digits as keys of the other kind.
                    let conv: Option<std::collections::BTreeMap<MK, Sc>> = e.iter().map(|(a, b)| match a { MK::I(i) => Some((MK::S(i.to_string()), b.clone())), MK::S(s) => s.parse().ok().filter(|i: &i64| i.to_string() == *s).map(|i| (MK::I(i), b.clone())) }).collect();
                    return match conv { Some(c) => Resp::Val(V::Map(if *kt == KT::Int { KT::Str } else { KT::Int }, *t, c)), None => Resp::Null };
                }
            }
            Resp::Val(V::Map(*kt, *t, e))
        }
        Resp::Msg(s) => if k % 2 == 0 { Resp::Key(s.clone()) } else { Resp::Val(V::S(Sc::S(s.clone()))) },
        Resp::Key(s) => Resp::Msg(s.clone()),
        Resp::Size(n) => if k % 2 == 0 { Resp::Exp(Some(*n)) } else { Resp::Size(n ^ 1) },
        Resp::Exp(e) => match (e, k % 3) { (Some(n), 0) => Resp::Size(*n), (Some(_), 1) => Resp::Exp(None), (Some(n), _) => Resp::Exp(Some(n ^ 1)), (None, 0) => Resp::Null, (None, 1) => Resp::Exp(Some(0)), (None, _) => Resp::Val(V::N) },
        Resp::Bool(b) => if k % 2 == 0 { Resp::Val(V::S(Sc::B(*b))) } else { Resp::Bool(!b) },
        Resp::Type(t) => match t { VT::Vec(c) => Resp::Type(VT::Map(KTS[k as usize % 2], *c)), VT::Map(q, c) => if k % 2 == 0 { Resp::Type(VT::Map(if *q == KT::Int { KT::Str } else { KT::Int }, *c)) } else { Resp::Type(VT::Vec(*c)) }, VT::Null => Resp::Null, VT::Str => Resp::Type(VT::Vec(CT::Str)), _ => Resp::Type(VT::Null) },
        Resp::Shut => Resp::Msg("ShuttingDown".into()),
        Resp::Null => Resp::Val(V::N),
    }
}
fn encode(r: &InterpreterResponse) -> Result<String, Fail> {
    let s = serde_json::to_string(r).map_err(|e| format!("{} does not encode: {e}", short(r)))?;
    let b = serde_json::to_vec(r).map_err(|e| format!("{} does not encode as bytes: {e}", short(r)))?;
    let v: Result<serde_json::Value, _> = serde_json::from_str(&s);
    ensure!(v.is_ok(), "{} encodes as {}, which is not JSON", short(r), short(&s));
    // Maps have no order of their own.
    ensure!(serde_json::from_slice::<serde_json::Value>(&b).ok() == v.ok(), "{} encodes differently the second time", short(r));
    Ok(s)
}
fn c23(c: &(Resp, Near), obs: &mut Obs) -> Res {
    let (a, n) = c;
    let ra = a.real()?;
    let ea = encode(&ra)?;
    let back: InterpreterResponse = serde_json::from_str(&ea).map_err(|e| format!("{} encodes as {}, which does not decode: {e}", short(a), short(&ea)))?;
    ensure!(a.is(&back), "{} encodes as {} and decodes as {}", short(a), short(&ea), short(&back));
    let val: Result<InterpreterResponse, _> = serde_json::to_value(&ra).and_then(serde_json::from_value);
    ensure!(val.as_ref().is_ok_and(|v| a.is(v)), "{} becomes {} through a JSON value", short(a), short(&val));
    let again = encode(&back)?;
    let back2: InterpreterResponse = serde_json::from_str(&again).map_err(|e| format!("the second encoding {} does not decode: {e}", short(&again)))?;
    ensure!(a.is(&back2), "{} becomes {} after two rounds", short(a), short(&back2));
    obs.nontrivial_if(match a { Resp::Val(V::S(Sc::S(_) | Sc::F(_))) | Resp::Msg(_) | Resp::Key(_) => true, Resp::Val(v) => v.size() > 0, _ => false });
    obs.label_if(matches!(a, Resp::Val(V::Map(_, _, m)) if m.len() > 1), "map");
    obs.label_if(matches!(a, Resp::Val(V::Map(_, _, m)) if m.is_empty()), "empty map");
    let b = match n { Near::Same => a.clone(), Near::Other(b) => b.clone(), Near::Twist(k, at, s) => twist(a, *k, *at, s) };
    let eb = encode(&b.real()?)?;
    let (ja, jb): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&ea).unwrap(), serde_json::from_str(&eb).unwrap());
    if *a == b { ensure!(ja == jb, "equal responses {} encode as {} and {}", short(a), short(&ea), short(&eb)); }
    else { obs.label("distinct pair"); ensure!(ea != eb && (ja != jb || has_float(a)), "{} and {} both encode as {}", short(a), short(&b), short(&ea)); }
    Ok(())
}
/// JSON values compare 0.0 and -0.0 as equal.
fn has_float(r: &Resp) -> bool { match r { Resp::Val(V::S(Sc::F(_))) | Resp::Val(V::Vec(CT::Float, _)) | Resp::Val(V::Map(_, CT::Float, _)) => true, _ => false } }

fn c23_hist(h: &Hist, obs: &mut Obs) -> Res {
    let mut p = Pair::new(&h.pool);
    let mut kinds: Vec<u8> = vec![];
    for (d, op) in h.expand().iter().take(400) {
        p.pass(d);
        p.touch(op);
        let want = p.m.apply(op, &h.pool);
        let st = op.stmt(&h.pool)?;
        let got = p.it.interpret(InterpreterRequest { statements: vec![st], authorization: level(Need::Admin) });
        let (Exp::Ok(w), Ok(g)) = (&want, &got) else { continue };
        let s = encode(g)?;
        let back: InterpreterResponse = serde_json::from_str(&s).map_err(|e| format!("the response {} to {} encodes as {}, which does not decode: {e}", short(g), short(op), short(&s)))?;
        ensure!(resp_is(w, &back), "the response {} to {} encodes as {} and decodes as {}", short(g), short(op), short(&s), short(&back));
        let k = match w { R::Val(v) => 10 + v.vt_code(), R::Msg => 1, R::Size(_) => 2, R::Exp(_) => 3, R::Bool(_) => 4, R::Type(_) => 5, R::Shut => 6, R::Null => 7 };
        if !kinds.contains(&k) { kinds.push(k); }
    }
    obs.nontrivial_if(kinds.len() >= 3);
    Ok(())
}
impl V { fn vt_code(&self) -> u8 { match self { V::N => 0, V::S(s) => 1 + s.ct() as u8, V::Vec(..) => 6, V::Map(..) => 7 } } }
