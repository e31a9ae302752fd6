//! C07 - C10: the query language.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use server::analysis::{AnnotatedToken, InterpreterRequest, InterpreterResponse, Parser, Statement, Token, Tokenizer};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::StorageValue;

use crate::engine::*;
use crate::gen::*;
use crate::lang::{self, Stm, T};
use crate::model::*;
use crate::runner::*;
use crate::{ensure, sys};

const WORDS: Profile = Profile { shutdown: 1, lifetimes: true, getlt: 0, lt: 0, sweep: 0, time: false, off_type: 2, big: 60, ..ALL };

pub fn style() -> BoxedStrategy<Vec<u8>> { wt(vec![(1, Just(vec![]).boxed()), (6, vec(any::<u8>(), 1..40).boxed())]) }
pub fn stms(pool: &[String], ops: &[Op]) -> Vec<Stm> {
    ops.iter().filter(|o| lang::expressible(o)).map(|o| (o.key().map(|k| kname(pool, k)).unwrap_or_default(), o.with_key(0))).collect()
}
fn lt_text() -> BoxedStrategy<Option<u64>> { prop::option::weighted(0.3, lifetime().prop_map(|l| l & i64::MAX as u64)).boxed() }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", level: "exploration", assumptions: &[], legs: vec![
            Box::new(Leg { name: "c07-literals", rule: "random values written as literals in random spellings, stored by set/try_set/upd/vpush/vset/mset and read back by get/try_get/vget/mget/vpop and through the JSON form of the response; non-trivial: a string, float or non-empty collection was read back",
                quick: 80_000, thorough: 4_000_000, threads: 8, shrink_secs: 20, strat: c07_strat, check: c07 }),
            Box::new(Leg { name: "c07-large", rule: "the same with strings and collections of up to 70000 characters or elements; non-trivial: more than 1000",
                quick: 6_000, thorough: 80_000, threads: 8, shrink_secs: 30, strat: c07_large, check: |c, o| { let r = c07(c, &mut Obs::default()); o.nontrivial_if(match &c.v { V::S(Sc::S(s)) => s.len() > 1000, v => v.size() > 1000 }); r } }),
            Box::new(Leg { name: "c07-non-finite", rule: "float literals whose value is not finite, in every spelling, as scalar, element and key: rejected without effect; every case is non-trivial",
                quick: 10_000, thorough: 300_000, threads: 8, shrink_secs: 20, strat: c07_inf_strat, check: c07_inf }),
        ]},
        Prop { id: "C08", level: "exploration", assumptions: &["letter case is compared by Unicode lower-casing"], legs: vec![
            Box::new(Leg { name: "c08-printed", rule: "statement lists printed in random layouts: token positions, texts, kinds and the gaps between them; non-trivial: at least five tokens",
                quick: 60_000, thorough: 3_000_000, threads: 8, shrink_secs: 20, strat: c09_strat, check: |c, o| tokens_ok(&lang::print(&stms(&c.0, &c.1), &c.2), o) }),
            Box::new(Leg { name: "c08-large", rule: "texts with one thing in them up to 70000 long or many, some cut or changed near the end; non-trivial: more than 5000 characters",
                quick: 3_000, thorough: 150_000, threads: 8, shrink_secs: 30, strat: big_text, check: |c, o| { let mut x = Obs::default(); let r = tokens_ok(c, &mut x); o.labels = x.labels; o.nontrivial_if(c.len() > 5000); r } }),
            Box::new(Leg { name: "c08-soup", rule: "sequences of token spellings and fragments, mutated texts and arbitrary strings: as above, and streaming against whole-query tokenization including after errors",
                quick: 120_000, thorough: 6_000_000, threads: 8, shrink_secs: 20, strat: soup, check: |c, o| tokens_ok(c, o) }),
        ]},
        Prop { id: "C09", level: "exploration", assumptions: &[], legs: vec![
            Box::new(Leg { name: "c09-print-parse", rule: "random statement lists printed with random whitespace, case, separators and number spellings, parsed through every parser constructor; non-trivial: at least two statements in a layout other than the plainest",
                quick: 100_000, thorough: 5_000_000, threads: 8, shrink_secs: 20, strat: c09_strat, check: c09 }),
            Box::new(Leg { name: "c09-large", rule: "the same with literals of up to 40000 characters or elements, or up to 8000 statements; non-trivial: as above",
                quick: 1_500, thorough: 80_000, threads: 8, shrink_secs: 30, strat: c09_large, check: c09 }),
        ]},
        Prop { id: "C10", level: "exploration", assumptions: &[], legs: vec![
            Box::new(Leg { name: "c10-mutated", rule: "printed statement lists cut at any character or with characters or token spellings inserted, removed, replaced or swapped, against a reference parser; non-trivial: the text is rejected after at least one complete statement, or accepted although mutated",
                quick: 150_000, thorough: 8_000_000, threads: 8, shrink_secs: 20, strat: mutated, check: |c, o| grammar_ok(c, o) }),
            Box::new(Leg { name: "c10-soup", rule: "sequences of token spellings and fragments, and arbitrary strings, against a reference parser; non-trivial: the text tokenizes",
                quick: 150_000, thorough: 8_000_000, threads: 8, shrink_secs: 20, strat: soup, check: |c, o| grammar_ok(c, o) }),
            Box::new(Leg { name: "c10-large", rule: "texts with one thing in them up to 70000 long or many, some cut or changed near the end, against a reference parser; non-trivial: more than 5000 characters",
                quick: 3_000, thorough: 150_000, threads: 8, shrink_secs: 30, strat: big_text, check: |c, o| { let mut x = Obs::default(); let r = grammar_ok(c, &mut x); o.labels = x.labels; o.nontrivial_if(c.len() > 5000); r } }),
            Box::new(Leg { name: "c10-truncated", rule: "every prefix (by character) of a printed statement list", quick: 2_000, thorough: 300_000, threads: 8, shrink_secs: 20, strat: c09_strat,
                check: |c, o| {
                    let t: Vec<char> = lang::print(&stms(&c.0, &c.1), &c.2).chars().collect();
                    for n in 0..=t.len().min(500) { grammar_ok(&t[..n].iter().collect::<String>(), o)?; }
                    Ok(())
                } }),
        ]},
    ]
}

/// Numbers up to 70000, among them many near powers of two and ten.
/// Texts in which one thing is large.
fn big_text() -> BoxedStrategy<String> {
    let near_end = |n: usize, at: u16| n.saturating_sub(at as usize % 20);
    (much(), 0u8..16, vec(chr(), 1..5), (ident(), any::<u16>()), soup(), prop::option::weighted(0.3, (any::<u16>(), wt(vec![(1, Just(String::new()).boxed()), (2, fragment())])))).prop_map(move |(n, how, cs, (id, at), tail, cut)| {
        let word: String = cs.iter().collect();
        let sub = |s: &str| s.repeat(n);
        let s = match how {
            0 => sub("get a;"),
            1 => sub("set a 1 "),
            2 => format!("set a {:?}", (0..n).map(|i| cs[i % cs.len()]).collect::<String>()).replace("\\u", "u").replace("\\0", "0").replace("\\'", "'"),
            3 => format!("set {} 1; get {}", id.repeat(1 + n / id.len().max(1)), id.repeat(1 + n / id.len().max(1))),
            4 => format!("set a int [{}7]", sub("7,")),
            5 => format!("set a str [{}\"\"] 5", sub("\"x\" , ")),
            6 => format!("set a int int {{{}}}", (0..n.min(20_000)).map(|i| format!("{i}:{}", n - i)).collect::<Vec<_>>().join(",")),
            7 => format!("set a str bool {{{}}}; get a", (0..n.min(20_000)).map(|i| format!("\"k{i}\" : true")).collect::<Vec<_>>().join(" ,\n")),
            8 => format!("get a{}get b{}", sub(" "), sub("\n")),
            9 => format!("{}get a{}get b", sub(";"), sub(" ;")),
            10 => format!("set a {}1", sub("0")),
            11 => format!("set a 1.{}5; set b 0.{}", sub("0"), sub("3")),
            12 => format!("set a int float {{1:{}1.5}}", sub("0")),
            13 => format!("set a str [{}", sub("\"[\",")),
            14 => sub("["),
            _ => sub(&word),
        };
        let mut t: Vec<char> = format!("{s}{}", if at % 3 == 0 { tail } else { String::new() }).chars().collect();
        if let Some((at, ins)) = cut {
            let k = near_end(t.len(), at);
            if ins.is_empty() { t.truncate(k); } else { t.splice(k..k, ins.chars()); }
        }
        t.into_iter().collect()
    }).boxed()
}
fn c09_large() -> BoxedStrategy<Prog> {
    (pool(false), wt(vec![(1, ops(Profile { big: 40_000, ..WORDS }, 1..4)), (1, (ops(Profile { big: 3, ..WORDS }, 1..8), much()).prop_map(|(o, n)| { let k = (n / 8).max(1); o.iter().cycle().take(k.max(o.len())).cloned().collect() }).boxed())]), style()).boxed()
}

// --- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lit { pool: Vec<String>, how: u8, v: V, old: V, lt: Option<u64>, at: u8, mk: MK, style: Vec<u8>, style2: Vec<u8> }
fn c07_strat() -> BoxedStrategy<Lit> {
    let v = any_v(300).prop_map(|v| if v == V::N { V::Vec(CT::Int, vec![]) } else { v });
    (pool(false), 0u8..8, v, any_v(5), lt_text(), any::<u8>(), Union2::mk(), style(), style())
        .prop_map(|(pool, how, v, old, lt, at, mk, style, style2)| Lit { pool, how, v, old, lt: lt.map(|l| l.clamp(1000, 1 << 40)), at, mk, style, style2 }).boxed()
}
fn c07_large() -> BoxedStrategy<Lit> {
    let v = large_v(70_000);
    (c07_strat(), v).prop_map(|(c, v)| Lit { v, ..c }).boxed()
}
struct Union2;
impl Union2 { fn mk() -> BoxedStrategy<MK> { wt(vec![(1, mk(KT::Int)), (1, mk(KT::Str))]) } }

fn c07(c: &Lit, obs: &mut Obs) -> Res {
    let mut p = Pair::new(&c.pool);
    let go = |p: &mut Pair, ops: &[Op], style: &[u8]| -> Result<Result<InterpreterResponse, ServerError>, Fail> {
        p.tick(1_000);
        let text = lang::print(&stms(&c.pool, ops), style);
        let st = analyse(&text).map_err(|e| format!("query {} is rejected: {e}", short(&text)))?;
        Ok(p.it.interpret(InterpreterRequest { statements: st, authorization: AuthorizationLevel::Admin }))
    };
    let expect = |got: Result<InterpreterResponse, ServerError>, want: &V, what: &str| -> Res {
        let Ok(InterpreterResponse::Value(g)) = &got else { return Err(format!("{what} answered {}, should be {}", short(&got), short(want)).into()) };
        ensure!(want.is(g), "{what} returned {}, but {} was written", short(g), short(want));
        let j = serde_json::to_string(got.as_ref().unwrap()).map_err(|e| format!("the response has no JSON form: {e}"))?;
        let back: InterpreterResponse = serde_json::from_str(&j).map_err(|e| format!("the JSON form {} does not decode: {e}", short(&j)))?;
        ensure!(resp_is(&R::Val(want.clone()), &back), "the JSON form of the response is {}, but {} was written", short(&j), short(want));
        Ok(())
    };
    let done = |r: Result<InterpreterResponse, ServerError>, what: &str| -> Res { ensure!(r.is_ok(), "{what} failed: {}", short(&r)); Ok(()) };
    obs.nontrivial_if(match &c.v { V::S(Sc::S(_) | Sc::F(_)) => true, v => v.size() > 0 });
    let k: K = 0;
    let (s, s2) = (&c.style[..], &c.style2[..]);
    match (c.how, &c.v) {
        (0, v) => { done(go(&mut p, &[Op::Set(k, v.clone(), c.lt)], s)?, "set")?; }
        (1, v) => { done(go(&mut p, &[Op::TrySet(k, v.clone(), c.lt)], s)?, "try_set")?; }
        (2, v) => { done(go(&mut p, &[Op::Set(k, c.old.clone(), None), Op::Upd(k, v.clone(), c.lt)], s)?, "upd")?; }
        // as an element of a vector or map
        (h, V::S(x)) => {
            obs.label("element");
            let t = x.ct();
            let fill = match t { CT::Bool => Sc::B(true), CT::Int => Sc::I(7), CT::Float => Sc::F(1.5f32.to_bits()), CT::Str => Sc::S("Fill".into()) };
            let n = (c.at % 5) as usize;
            if h < 6 {
                let mut es = vec![fill.clone(); n + 1];
                done(go(&mut p, &[Op::Set(k, V::Vec(t, es.clone()), None)], &[])?, "set")?;
                let i = if h == 3 { done(go(&mut p, &[Op::VPush(k, c.v.clone())], s)?, "vpush")?; es.push(x.clone()); n + 1 }
                    else { done(go(&mut p, &[Op::VSet(k, n, c.v.clone())], s)?, "vset")?; es[n] = x.clone(); n };
                expect(go(&mut p, &[Op::VGet(k, i)], s2)?, &c.v, "vget")?;
                expect(go(&mut p, &[Op::Get(k)], s2)?, &V::Vec(t, es.clone()), "get")?;
                if i + 1 == es.len() { expect(go(&mut p, &[Op::VPop(k)], s2)?, &c.v, "vpop")?; }
            } else {
                let kt = c.mk.kt();
                let mut m: std::collections::BTreeMap<MK, Sc> = (0..n as i64).map(|i| (match kt { KT::Int => MK::I(i), KT::Str => MK::S(i.to_string()) }, fill.clone())).collect();
                done(go(&mut p, &[Op::Set(k, V::Map(kt, t, m.clone()), None)], &[])?, "set")?;
                let e = mkv(c.mk.clone());
                done(go(&mut p, &[Op::MSet(k, e.clone(), c.v.clone())], s)?, "mset")?;
                m.insert(c.mk.clone(), x.clone());
                expect(go(&mut p, &[Op::MGet(k, e.clone())], s2)?, &c.v, "mget")?;
                expect(go(&mut p, &[Op::Get(k)], s2)?, &V::Map(kt, t, m), "get")?;
                let r = go(&mut p, &[Op::MEx(k, e.clone())], s2)?;
                ensure!(matches!(r, Ok(InterpreterResponse::Bool(true))), "mex after mset answered {}", short(&r));
            }
            return Ok(());
        }
        (_, v) => { done(go(&mut p, &[Op::Set(k, c.old.clone(), Some(1000)), Op::Set(k, v.clone(), None)], s)?, "set")?; }
    }
    expect(go(&mut p, &[Op::Get(k)], s2)?, &c.v, "get")?;
    expect(go(&mut p, &[Op::TryGet(k)], s)?, &c.v, "try_get")?;
    // Reading does not disturb it.
    p.tick(500_000_000);
    expect(go(&mut p, &[Op::Get(k)], s2)?, &c.v, "a second get")?;
    let r = go(&mut p, &[Op::Type(k)], s2)?;
    ensure!(matches!(&r, Ok(InterpreterResponse::ValueType(t)) if VT::of(t) == c.v.vt()), "type answered {}, but {} was written", short(&r), short(&c.v));
    Ok(())
}

fn c07_inf_strat() -> BoxedStrategy<(String, u8)> {
    let lit = wt(vec![
        (2, (vec(0u8..10, 39..80), any::<bool>(), 0usize..4).prop_map(|(d, neg, z)| { let mut s: String = d.iter().map(|x| (b'0' + x) as char).collect(); s.replace_range(0..1, "9"); format!("{}{s}.{}", if neg { "-" } else { "" }, "0".repeat(z)) }).boxed()),
        (2, (1u8..10, 0u32..1000, 39u32..400, any::<bool>(), any::<bool>()).prop_map(|(a, b, e, neg, up)| format!("{}{a}.{b}{}{e}", if neg { "-" } else { "" }, if up { 'E' } else { 'e' })).boxed()),
        (1, select(vec!["3.4028236e38", "-3.4028236e38", "3.5e38", "1.0e39", "340282360000000000000000000000000000000.0", "1.0e99999999999", "9.9e+38"]).prop_map(|s| s.to_string()).boxed())]);
    (lit, 0u8..7).boxed()
}
fn c07_inf(c: &(String, u8), obs: &mut Obs) -> Res {
    obs.nontrivial_if(true);
    let (l, how) = c;
    if l.parse::<f32>().is_ok_and(|f| f.is_finite()) { return Ok(()); }
    let q = match how { 0 => format!("set a {l}"), 1 => format!("set a {l} 5"), 2 => format!("set a float [1.0, {l}]"), 3 => format!("set a int float {{1: {l}}}"), 4 => format!("vpush a {l}"), 5 => format!("get b; upd a {l};"), _ => format!("mset a 1 {l}") };
    let r = analyse(&q);
    ensure!(matches!(&r, Err(ServerError::TokenizationError(_) | ServerError::ParseError(_) | ServerError::TypeError(_))), "the query {q:?} is accepted as {}", short(&r));
    Ok(())
}

// --- C08

fn word_token(w: &str) -> Token {
    match w {
        "get" => Token::Get, "set" => Token::Set, "del" => Token::Delete, "ex" => Token::Exists, "upd" => Token::Update, "lt" => Token::Lifetime,
        "try_get" => Token::GetOrNone, "try_set" => Token::SetIfNotExists, "none" => Token::None, "type" => Token::ValueType,
        "vset" => Token::VectorSet, "vget" => Token::VectorGet, "vpop" => Token::VectorPop, "vpush" => Token::VectorAppend, "vlen" => Token::VectorLength,
        "mex" => Token::MapExists, "mget" => Token::MapGet, "mset" => Token::MapSet, "mdel" => Token::MapDelete, "mlen" => Token::MapLength,
        "int" => Token::IntType, "float" => Token::FloatType, "str" => Token::StringType, "bool" => Token::BoolType, "vec" => Token::VectorType, "map" => Token::MapType,
        "shutdown" => Token::Shutdown, w => panic!("unknown word {w}"),
    }
}
fn token_is(t: &T, g: &Token) -> bool {
    match (t, g) {
        (T::Word(w), g) => word_token(w) == *g,
        (T::Id(s), Token::Identifier(x)) => **x == *s,
        (T::Bool(b), Token::Bool(x)) => b == x,
        (T::Int(i), Token::Integer(x)) => i == x,
        (T::Float(f), Token::Float(x)) => *f == x.to_bits(),
        (T::Str(s), Token::StringValue(x)) => **x == *s,
        (T::P(c), g) => *g == match c { ';' => Token::Semicolon, '[' => Token::LeftBracket, ']' => Token::RightBracket, ',' => Token::Comma, ':' => Token::Colon, '{' => Token::LeftCurlyBracket, _ => Token::RightCurlyBracket },
        _ => false,
    }
}
fn tok_eq(a: &AnnotatedToken, b: &AnnotatedToken) -> bool {
    a.position == b.position && a.lexeme == b.lexeme && match (&a.token, &b.token) { (Token::Float(x), Token::Float(y)) => x.to_bits() == y.to_bits(), (x, y) => x == y }
}
fn tokens_ok(text: &str, obs: &mut Obs) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let (want, ok) = lang::lex(&cs);
    obs.nontrivial_if(want.len() >= 5);
    obs.label_if(!ok, "does not tokenize");
    obs.label_if(ok, "tokenizes");
    // Streaming.
    let mut s = Tokenizer::new(text);
    let mut got: Vec<AnnotatedToken> = vec![];
    let mut failed = None;
    for _ in 0..cs.len() + 2 {
        match s.next() { None => break, Some(Ok(t)) => got.push(t), Some(Err(e)) => { failed = Some(e); break } }
    }
    for _ in 0..3 { if let Some(x) = s.next() { return Err(format!("the token stream of {text:?} goes on after its {}: {x:?}", if failed.is_some() { "first error" } else { "end" }).into()); } }
    // Accounting, independent of the reference.
    let mut at = 0;
    for t in &got {
        ensure!(t.position >= at, "token {t:?} of {text:?} overlaps the token before it, which ends at {at}");
        ensure!(cs[at..t.position].iter().all(|c| c.is_whitespace()), "the text {:?} of {text:?} before token {t:?} belongs to no token", cs[at..t.position].iter().collect::<String>());
        let n = t.lexeme.chars().count();
        ensure!(n > 0 && t.position + n <= cs.len(), "token {t:?} of {text:?} has an impossible extent");
        let slice: String = cs[t.position..t.position + n].iter().collect();
        ensure!(slice == t.lexeme || slice.to_lowercase() == t.lexeme.to_lowercase(), "token {t:?} of {text:?} claims the text {slice:?}");
        at = t.position + n;
    }
    if failed.is_none() { ensure!(cs[at..].iter().all(|c| c.is_whitespace()), "the end {:?} of {text:?} belongs to no token", cs[at..].iter().collect::<String>()); }
    // Kinds and values.
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("token {i} of {text:?} should be {w:?}, but the stream ends ({failed:?})").into()) };
        ensure!(token_is(&w.t, &g.token) && g.position == w.start && g.lexeme.chars().count() == w.end - w.start, "token {i} of {text:?} is {g:?}, should be {w:?}");
    }
    ensure!(got.len() == want.len(), "{text:?} has a token too many: {:?}", got[want.len()]);
    ensure!(failed.is_none() == ok, "{text:?} should {} but the stream ends with {failed:?}", if ok { "tokenize" } else { "not tokenize" });
    if let Some(e) = &failed { ensure!(ekind(e) == EK::Token, "{text:?} fails to tokenize with {e}"); }
    // All at once.
    match (Tokenizer::new(text).tokenize(), &failed) {
        (Ok(all), None) => ensure!(all.len() == got.len() && all.iter().zip(&got).all(|(a, b)| tok_eq(a, b)), "{text:?}: tokenizing at once and streaming give different tokens"),
        (Err(a), Some(b)) => ensure!(ekind(&a) == ekind(b) && emsg(&a) == emsg(b), "{text:?}: tokenizing at once fails with {a}, streaming with {b}"),
        (a, b) => return Err(format!("{text:?}: tokenizing at once gives {a:?}, streaming ends with {b:?}").into()),
    }
    Ok(())
}

// --- C09

type Prog = (Vec<String>, Vec<Op>, Vec<u8>);
pub fn c09_strat() -> BoxedStrategy<Prog> { (pool(false), wt(vec![(6, ops(WORDS, 0..6)), (1, ops(Profile { big: 5, ..WORDS }, 0..60))]), style()).boxed() }
fn same(want: &[Stm], got: &Result<Vec<Statement>, ServerError>, text: &str, how: &str) -> Res {
    match got {
        Err(e) => Err(format!("{text:?} is rejected by {how}: {e}").into()),
        Ok(g) => {
            for (i, w) in want.iter().enumerate() {
                let Some(x) = g.get(i) else { return Err(format!("{text:?}: statement {i} ({}) is lost by {how}", short(w)).into()) };
                ensure!(lang::stmt_is(w, x), "{text:?}: statement {i} should be {}, {how} gives {}", short(w), short(x));
            }
            ensure!(g.len() == want.len(), "{text:?}: {how} gives an extra statement {}", short(&g[want.len()]));
            Ok(())
        }
    }
}
fn c09(c: &Prog, obs: &mut Obs) -> Res {
    let want = stms(&c.0, &c.1);
    let text = lang::print(&want, &c.2);
    obs.nontrivial_if(want.len() >= 2 && text != lang::print(&want, &[]));
    obs.label_if(want.len() > 1 && !text.contains(';'), "no separators");
    ensure!(lang::parse(&text).as_deref() == Some(&want[..]), "harness: the printed text {text:?} does not parse by the reference");
    let toks = Tokenizer::new(&text).tokenize();
    let toks = match toks { Ok(t) => t, Err(e) => return Err(format!("{text:?} does not tokenize: {e}").into()) };
    same(&want, &Parser::new(toks.clone()).parse(), &text, "Parser::new")?;
    same(&want, &Parser::from(Tokenizer::new(&text)).and_then(|mut p| p.parse()), &text, "Parser::from")?;
    same(&want, &Parser::from_iter(Box::new(toks.clone().into_iter())).and_then(|mut p| p.parse()), &text, "Parser::from_iter")?;
    same(&want, &Parser::new(toks).collect::<Result<Vec<_>, _>>(), &text, "the statement iterator")
}

// --- C10

fn fragment() -> BoxedStrategy<String> {
    let words: Vec<String> = lang::KEYWORDS.iter().filter(|w| !w.is_empty()).flat_map(|w| [w.to_string(), w.to_uppercase()]).collect();
    let odd: Vec<String> = ["-", "--1", "+5", "1.", ".5", "-.5", "1..2", "1.5.2", "1e5", "1.0e5", "1.0e", "0x10", "5a", "a-b", "a.b", "\"", "\"a", "\"a\\\"", "\"\\", "\"\\x\"", "\"a\"b", "\"\"\"\"", "\"a\"\"b\"", "''", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "-1", "-0", "00", "1_000", "٣", "²", "1٣", "inf", "nan", "-inf", "-nan.", "-inf.", "1.0f", "[]", "{}", "[", "]", "{", "}", "[1", "1]", "1,2", "1:2", ",", ":", ";", ";;", "; ;", "=", "#", "//", "\\", "\u{feff}", "\0", "set a", "get a", "vget a -1", "vget a 1",
        "set a int [", "set a int [1,]", "set a int [1 2]", "set a int [,]", "set a int [1,\"a\"]", "set a str int {", "set a str int {\"a\"}", "set a str int {\"a\":}", "set a str int {\"a\":1,}", "set a str int {1:1}", "set a str int {\"a\":1 \"b\":2}", "set a bool int {}", "set a float int", "set a str bool", "set a int int", "set a int int 5", "set a int 5", "set a int [] 5", "set a int int {} 5", "set a 1 2", "set a 1 -2", "set a 1 2.0", "set a 1 2 3", "set a none", "set none 1", "set a vec", "set a map", "lt a", "lt a 5", "shutdown", "shutdown a", "mget a true", "mset a 1", "mset a 1 [1]", "vpush a int [1]", "vset a 0", "vset a 1.0 1"]
        .iter().map(|s| s.to_string()).collect();
    // Words made of what numbers are made of.
    let numeric = vec(select("0123456789...--+eE_xfinaInN٣²".chars().collect::<Vec<_>>()), 1..7).prop_map(|v| v.into_iter().collect::<String>());
    let like = (select(words.clone()), any::<u8>(), any::<u8>()).prop_map(|(w, a, h)| alike_word(&w, a, h));
    wt(vec![(5, select(words).boxed()), (1, like.boxed()), (5, select(odd).boxed()), (2, numeric.boxed()), (4, ident()), (2, int().prop_map(|i| i.to_string()).boxed()), (2, float().prop_map(|f| format!("{:?}", f32::from_bits(f))).boxed()),
        (2, text(40).prop_map(|s| format!("{s:?}")).boxed()), (2, select(vec![";", ",", ":", "[", "]", "{", "}"]).prop_map(|s| s.to_string()).boxed()), (1, text(40))])
}
pub fn soup() -> BoxedStrategy<String> {
    let gap = select(vec![" ", " ", " ", " ", "", "", "\n", "\t ", " ; ", ";", "\u{a0}"]);
    wt(vec![(8, vec((fragment(), gap), 0..14).prop_map(|v| v.into_iter().flat_map(|(a, b)| [a, b.to_string()]).collect::<String>()).boxed()),
        (1, vec(any::<char>(), 0..30).prop_map(|v| v.into_iter().collect()).boxed()), (1, vec(chr(), 0..60).prop_map(|v| v.into_iter().collect()).boxed()), (2, mutated())])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut { Alike(u16, u8), Word(u16, String), Cut(u16), Del(u16), Ins(u16, String), Rep(u16, char), Swap(u16), Dup(u16, u8) }
pub fn mutated() -> BoxedStrategy<String> {
    let m = wt(vec![(4, (any::<u16>(), fragment()).prop_map(|(a, b)| Mut::Word(a, b)).boxed()), (3, any::<u16>().prop_map(Mut::Cut).boxed()), (3, any::<u16>().prop_map(Mut::Del).boxed()), (4, (any::<u16>(), fragment()).prop_map(|(a, b)| Mut::Ins(a, b)).boxed()),
        (3, (any::<u16>(), chr()).prop_map(|(a, b)| Mut::Rep(a, b)).boxed()), (1, any::<u16>().prop_map(Mut::Swap).boxed()), (1, (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Alike(a, b)).boxed()), (1, (any::<u16>(), 1u8..12).prop_map(|(a, b)| Mut::Dup(a, b)).boxed())]);
    (c09_strat(), vec(m, 1..4)).prop_map(|(c, ms)| {
        let mut t: Vec<char> = lang::print(&stms(&c.0, &c.1), &c.2).chars().collect();
        for m in ms {
            let n = t.len();
            match m {
                // In place of one of the words.
                Mut::Word(a, s) => {
                    let word = |c: char| !c.is_whitespace() && !";:,[]{}".contains(c);
                    let starts: Vec<usize> = (0..n).filter(|&i| word(t[i]) && (i == 0 || !word(t[i - 1]))).collect();
                    if !starts.is_empty() {
                        let i = starts[a as usize % starts.len()];
                        let j = (i..n).find(|&j| !word(t[j])).unwrap_or(n);
                        t.splice(i..j, s.chars());
                    }
                }
                Mut::Alike(a, h) => {
                    let at: Vec<usize> = (0..n).filter(|&i| t[i].is_ascii_alphabetic()).collect();
                    if !at.is_empty() { let i = at[a as usize % at.len()]; t[i] = alike(t[i], h); }
                }
                Mut::Cut(a) => t.truncate(a as usize % (n + 1)),
                Mut::Del(a) => if n > 0 { t.remove(a as usize % n); },
                Mut::Ins(a, s) => { let at = a as usize % (n + 1); t.splice(at..at, s.chars()); }
                Mut::Rep(a, c) => if n > 0 { t[a as usize % n] = c; },
                Mut::Swap(a) => if n > 1 { let i = a as usize % (n - 1); t.swap(i, i + 1); },
                Mut::Dup(a, l) => if n > 0 { let i = a as usize % n; let j = (i + l as usize).min(n); let s: Vec<char> = t[i..j].to_vec(); t.splice(j..j, s); },
            }
        }
        t.into_iter().collect()
    }).boxed()
}
fn grammar_ok(text: &str, obs: &mut Obs) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let (toks, lexes) = lang::lex(&cs);
    let (prefix, parses) = lang::parse_toks(&toks);
    let want = if lexes && parses { Some(&prefix) } else { None };
    obs.label_if(want.is_some(), "accepted");
    obs.label_if(want.is_none() && lexes, "rejected by the parser");
    obs.label_if(!lexes, "rejected by the tokenizer");
    obs.nontrivial_if(lexes && !prefix.is_empty());
    let got = guarded(|| analyse(text)).map_err(|m| format!("analysing {text:?} {m}"))?;
    let judge = |got: &Result<Vec<Statement>, ServerError>, how: &str| -> Res {
        match (want, got) {
            (Some(w), g) => same(w, g, text, how),
            (None, Err(ServerError::TokenizationError(_) | ServerError::ParseError(_) | ServerError::TypeError(_))) => Ok(()),
            (None, Err(e)) => Err(format!("{text:?} is not in the grammar; {how} rejects it with {e}").into()),
            (None, Ok(s)) => Err(format!("{text:?} is not in the grammar; {how} accepts it as {}", short(s)).into()),
        }
    };
    judge(&got, "the parser")?;
    let from = guarded(|| Parser::from(Tokenizer::new(text)).and_then(|mut p| p.parse())).map_err(|m| format!("analysing {text:?} with Parser::from {m}"))?;
    judge(&from, "Parser::from")?;
    // The statement stream: the statements before the error, one error, then nothing.
    if lexes {
        let r = guarded(|| -> Res {
            let ts = Tokenizer::new(text).tokenize().map_err(|e| format!("{text:?} does not tokenize: {e}"))?;
            let mut p = Parser::new(ts);
            let mut n = 0;
            let mut err = false;
            for _ in 0..cs.len() + 2 {
                match p.next() {
                    None => break,
                    Some(Err(_)) => { err = true; break }
                    Some(Ok(s)) => { ensure!(prefix.get(n).is_some_and(|w| lang::stmt_is(w, &s)), "{text:?}: statement {n} of the stream is {}, should be {:?}", short(&s), prefix.get(n)); n += 1; }
                }
            }
            ensure!(n == prefix.len() && err != parses, "{text:?}: the statement stream gives {n} statements and {}, should give {} and {}", if err { "an error" } else { "the end" }, prefix.len(), if parses { "the end" } else { "an error" });
            for _ in 0..3 { if let Some(x) = p.next() { return Err(format!("{text:?}: the statement stream goes on after its {}: {}", if err { "first error" } else { "end" }, short(&x)).into()); } }
            Ok(())
        }).map_err(|m| format!("streaming the statements of {text:?} {m}"))?;
        r?;
    }
    Ok(())
}
#[allow(unused)]
fn unused(_: &StorageValue) { sys::clear_fake_time() }
