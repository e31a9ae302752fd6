//! Generators. Everything is drawn from proptest strategies, so every case is a function of
//! the seed and shrinks. A dictionary of the integer, string and character constants that
//! occur in the code under test biases sizes and values towards its special cases.
use std::sync::OnceLock;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

use crate::model::*;

pub struct Dict { pub ints: Vec<i64>, pub strs: Vec<String>, pub chars: Vec<char> }

fn repo_src() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VH_REPO_SRC").unwrap_or("/repo/server/src".into()))
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es { if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|e| e == "rs") { out.push(p) } }
}
/// Constants of the sources (outside their test modules).
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(&repo_src(), &mut files);
        let (mut ints, mut strs, mut chars) = (vec![], vec![], vec![]);
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let t = t.split("#[cfg(test)]").next().unwrap_or("").to_string();
            let cs: Vec<char> = t.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                let c = cs[i];
                if c == '/' && cs.get(i + 1) == Some(&'/') { while i < cs.len() && cs[i] != '\n' { i += 1; } continue; }
                if c == '"' {
                    let mut s = String::new();
                    i += 1;
                    while i < cs.len() && cs[i] != '"' {
                        if cs[i] == '\\' && i + 1 < cs.len() {
                            i += 1;
                            match cs[i] { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'), o => s.push(o) }
                        } else { s.push(cs[i]); }
                        i += 1;
                    }
                    i += 1;
                    if !s.is_empty() && s.len() <= 60 { strs.push(s); }
                    continue;
                }
                if c == '\'' {
                    if cs.get(i + 1) == Some(&'\\') {
                        if let Some(e) = cs.get(i + 2) {
                            let v = match e { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', o => *o };
                            chars.push(v);
                            if cs.get(i + 3) == Some(&'\'') { i += 4; continue; }
                        }
                    } else if cs.get(i + 2) == Some(&'\'') { chars.push(cs[i + 1]); i += 3; continue; }
                    i += 1;
                    continue;
                }
                if c.is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
                    let mut s = String::new();
                    while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') { s.push(cs[i]); i += 1; }
                    let s = s.replace('_', "");
                    let body: String = s.trim_end_matches(|c: char| "uisze".contains(c)).to_string();
                    let v = if let Some(h) = s.strip_prefix("0x") { i64::from_str_radix(h.trim_end_matches(|c: char| "uis".contains(c)), 16).ok() }
                        else if let Some(b) = s.strip_prefix("0b") { i64::from_str_radix(b, 2).ok() }
                        else { body.parse().ok().or_else(|| s.split(|c: char| c.is_ascii_alphabetic()).next().and_then(|x| x.parse().ok())) };
                    if let Some(v) = v { ints.push(v); }
                    continue;
                }
                i += 1;
            }
        }
        ints.push(0);
        strs.push("query".into());
        chars.push(';');
        ints.sort(); ints.dedup();
        strs.sort(); strs.dedup();
        chars.sort(); chars.dedup();
        Dict { ints, strs, chars }
    })
}

/// Weighted choice of boxed strategies.
pub fn wt<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> { Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed() }

/// Sizes up to `max`: mostly small, with powers of two and constants of the code, each also one off.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    let mut edges: Vec<usize> = vec![];
    for p in 0..=20 { let b = 1usize << p; edges.extend([b.saturating_sub(1), b, b + 1]); }
    edges.extend([5, 6, 10, 11, 12, 20, 25, 50, 99, 100, 101, 200, 500, 999, 1000, 1001, 5000, 10000]);
    edges.retain(|&e| e <= max);
    edges.sort(); edges.dedup();
    let mut d: Vec<usize> = dict().ints.iter().filter(|&&i| i >= 0 && i as usize <= max + 1)
        .flat_map(|&i| [(i as usize).saturating_sub(1), i as usize, i as usize + 1]).filter(|&i| i <= max).collect();
    if d.is_empty() { d.push(0); }
    d.sort(); d.dedup();
    wt(vec![(6, (0usize..=max.min(4)).boxed()), (3, (0usize..=max.min(40)).boxed()), (1, select(edges).boxed()), (1, select(d).boxed())])
}

pub fn int() -> BoxedStrategy<i64> {
    let edges = vec![i64::MIN, i64::MIN + 1, -(1 << 53) - 1, i32::MIN as i64 - 1, i32::MIN as i64, -129, -128, -1, 0, 1, 127, 128, 255, 256, 65535, 65536,
        i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, (1 << 53) - 1, (1 << 53) + 1, i64::MAX - 1, i64::MAX,
        10, 100, 1000, 999_999_999_999_999_999, -1_000_000_000_000_000_000];
    let d: Vec<i64> = dict().ints.iter().flat_map(|&i| [i.wrapping_sub(1), i, i.wrapping_add(1), i.wrapping_neg()]).collect();
    wt(vec![(5, (-3i64..12).boxed()), (2, (-200i64..1200).boxed()), (2, select(edges).boxed()), (1, select(d).boxed()), (2, any::<i64>().boxed())])
}

pub fn float() -> BoxedStrategy<u32> {
    let edges: Vec<u32> = [0.0f32, -0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 1.5, 3.25, 1e10, 1.0e-10, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 16777216.0, 16777217.0, 1.0 / 3.0,
        123456.79, 1e38, 1e-38, 9.999999e20, 100.0].iter().map(|f| f.to_bits()).chain([1u32, 0x8000_0001, 0x007f_ffff]).collect();
    wt(vec![(3, select(edges).boxed()),
        (3, (-100_000i32..100_000).prop_map(|i| (i as f32 / 8.0).to_bits()).boxed()),
        (3, any::<u32>().prop_map(|b| if f32::from_bits(b).is_finite() { b } else { b & !0x4000_0000 }).boxed())])
}

/// Any character that may stand in a string.
pub fn chr() -> BoxedStrategy<char> {
    wt(vec![(5, prop::char::range('a', 'z').boxed()), (3, prop::char::range('A', 'Z').boxed()), (2, prop::char::range('0', '9').boxed()),
        (3, select("\"\\\n\r\t ;:,[]{}-_.'`/#%$@!?<>=+*&^|~()".chars().collect::<Vec<_>>()).boxed()),
        (1, select(dict().chars.clone()).boxed()),
        (1, select(vec!['\0', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}']).boxed()),
        (1, select("éßñüÀÉŁøΣσςİıЖд日本語한글αΩ٣²½ǅﬁ😀🚀𝔘".chars().collect::<Vec<_>>()).boxed()),
        (1, any::<char>().boxed())])
}
pub fn text(max: usize) -> BoxedStrategy<String> {
    let words: Vec<String> = ["", "a", "true", "false", "none", "1", "-1", "0", "007", "1.5", "get", "set a 1", "null", "str", "[]", "{}", "\"", "\\", "\\n", "\\\"", ";", "A", "Ab", " a ", "a\"b", "query", "Ok", "\u{0}"]
        .iter().map(|s| s.to_string()).collect();
    let d: Vec<String> = dict().strs.clone();
    wt(vec![(3, select(words).boxed()), (6, vec(chr(), 0..8).prop_map(|v| v.into_iter().collect()).boxed()),
        (1, select(d).boxed()),
        (1, (size(max), vec(chr(), 1..6), text_tail()).prop_map(|(n, cs, t)| {
            // n characters in all, with a generated tail
            let mut v: Vec<char> = (0..n).map(|i| cs[i % cs.len()]).collect();
            let tail: Vec<char> = t.chars().collect();
            for (i, c) in tail.iter().rev().enumerate() { if i < n { v[n - 1 - i] = *c; } }
            v.into_iter().collect()
        }).boxed())])
}
fn text_tail() -> BoxedStrategy<String> { vec(chr(), 0..4).prop_map(|v| v.into_iter().collect::<String>()).boxed() }

/// Another letter that looks like `c`, or becomes it under some way of folding letters.
pub fn alike(c: char, how: u8) -> char {
    let l = c.to_ascii_lowercase();
    if !l.is_ascii_lowercase() { return c; }
    let twins = match l { 'i' => "ıíіï", 's' => "ſśѕš", 'k' => "\u{212a}ķκк", 'a' => "аàâª", 'e' => "еéèê", 'o' => "оοöº", 'l' => "ⅼłľļ", 'v' => "ⅴνᵛᴠ", 'x' => "ⅹхχ×", 'm' => "ⅿмµɱ",
        'd' => "ⅾđďԁ", 'n' => "ñņňո", 't' => "ťţтт", 'p' => "рρþᵖ", 'r' => "гŕřʳ", 'g' => "ɡğģᵍ", 'u' => "υüùц", 'h' => "һħнʰ", 'b' => "ƀЬßᵇ", 'w' => "ѡŵωʷ", 'y' => "уýÿγ", 'f' => "ƒﬁϝ𝐟", _ => "" };
    let full = char::from_u32(0xff41 + (l as u32 - 'a' as u32)).unwrap();
    let bold = char::from_u32(0x1d41a + (l as u32 - 'a' as u32)).unwrap();
    match how % 8 { 0..=2 => twins.chars().next().unwrap_or(full), 3..=5 => twins.chars().nth(how as usize % 3 + 1).unwrap_or(bold), 6 => full, _ => bold }
}
/// The word with one letter replaced by one like it.
pub fn alike_word(s: &str, at: u8, how: u8) -> String {
    let n = s.chars().count().max(1);
    s.chars().enumerate().map(|(i, c)| if i == at as usize % n { alike(c, how) } else { c }).collect()
}

/// Lower-case key names the query language can spell.
pub fn ident() -> BoxedStrategy<String> {
    let words: Vec<String> = ["a", "b", "c", "k", "key", "a1", "a_", "aa", "ab", "_", "__", "_a", "gets", "get_", "set1", "nonex", "truee", "int_", "lt1", "vecs", "mapp", "shutdown_", "x9", "é", "ñandú", "日本", "ключ", "ß", "k²",
        "abcdefghijklmnopqrstuvwxyz"]
        .iter().map(|s| s.to_string()).collect();
    let start = select("abcdefghijklmnopqrstuvwxyz_éд日".chars().collect::<Vec<_>>());
    let rest = || select("abcdefghijklmnopqrstuvwxyz_0123456789éд日".chars().collect::<Vec<_>>());
    let d: Vec<String> = dict().strs.iter().map(|s| s.to_lowercase()).filter(|s| crate::lang::is_plain_ident(s)).collect();
    let d = if d.is_empty() { vec!["query".to_string()] } else { d };
    wt(vec![(6, select(words).boxed()), (1, select(d).boxed()),
        (3, (start.clone(), vec(rest(), 0..6)).prop_map(|(a, b)| std::iter::once(a).chain(b).collect::<String>()).boxed()),
        (1, (start, size(260), vec(rest(), 1..4)).prop_map(|(a, n, b)| std::iter::once(a).chain((0..n).map(|i| b[i % b.len()])).collect::<String>()).boxed())])
        .prop_map(|s| if crate::lang::is_keyword(&s) { format!("{s}_") } else { s }).boxed()
}
/// A key name that differs from another, or from a keyword, in one letter that is like it.
fn twin(of: &str, at: u8, how: u8) -> Option<String> { Some(alike_word(of, at, how)).filter(|s| s != of && crate::lang::is_plain_ident(s)) }
/// Distinct key names; `wild` allows names the query language cannot spell.
pub fn pool(wild: bool) -> BoxedStrategy<Vec<String>> {
    let el = if wild { wt(vec![(4, ident()), (1, text(300))]) } else { ident() };
    let words: Vec<&str> = crate::lang::KEYWORDS.iter().copied().filter(|w| !w.is_empty()).collect();
    let twins = wt(vec![(4, Just(None).boxed()), (1, (any::<u8>(), any::<u8>(), proptest::option::weighted(0.5, select(words))).prop_map(Some).boxed())]);
    (vec(el, 1..6), twins).prop_map(|(v, t)| {
        let mut o: Vec<String> = vec![];
        for s in v { if !o.contains(&s) { o.push(s) } }
        if let Some((at, how, of)) = t {
            if let Some(s) = twin(of.unwrap_or(&o[0]), at, how) { if !o.contains(&s) { o.insert(o.len().min(1), s); } }
        }
        o
    }).boxed()
}

pub fn sc(t: CT) -> BoxedStrategy<Sc> {
    match t {
        CT::Bool => any::<bool>().prop_map(Sc::B).boxed(),
        CT::Int => int().prop_map(Sc::I).boxed(),
        CT::Float => float().prop_map(Sc::F).boxed(),
        CT::Str => text(300).prop_map(Sc::S).boxed(),
    }
}
pub fn any_sc() -> BoxedStrategy<Sc> { Union::new(CTS.map(sc)).boxed() }
pub fn mk(t: KT) -> BoxedStrategy<MK> {
    wt(vec![(3, mk_few(t)), (2, match t { KT::Int => int().prop_map(MK::I).boxed(), KT::Str => text(300).prop_map(MK::S).boxed() })])
}
/// A few keys, so that operations meet.
pub fn mk_few(t: KT) -> BoxedStrategy<MK> {
    match t {
        KT::Int => (0i64..5).prop_map(MK::I).boxed(),
        KT::Str => select(vec!["", "a", "A", "b", "0", "1", "aa", "é"]).prop_map(|s| MK::S(s.to_string())).boxed(),
    }
}
pub fn mkv(m: MK) -> V { match m { MK::I(i) => V::S(Sc::I(i)), MK::S(s) => V::S(Sc::S(s)) }
}
pub fn nudge(s: &Sc, r: usize) -> Sc {
    if r == 0 { return s.clone(); }
    match s {
        Sc::I(i) => Sc::I(i.wrapping_add(r as i64)),
        Sc::S(s) => Sc::S(format!("{s}{r}")),
        Sc::F(f) => { let b = f.wrapping_add(r as u32); if f32::from_bits(b).is_finite() { Sc::F(b) } else { Sc::F(r as u32) } }
        Sc::B(b) => Sc::B(*b ^ (r % 3 == 1)),
    }
}
pub fn nudge_key(k: &MK, r: usize) -> MK {
    match k { _ if r == 0 => k.clone(), MK::I(i) => MK::I(i.wrapping_add(r as i64)), MK::S(s) => MK::S(format!("{s}{r}")) }
}
pub fn vecv(t: CT, max: usize) -> BoxedStrategy<V> {
    wt(vec![(5, vec(sc(t), 0..6).prop_map(move |v| V::Vec(t, v)).boxed()),
        (1, (size(max), vec(sc(t), 1..4)).prop_map(move |(n, p)| V::Vec(t, (0..n).map(|i| nudge(&p[i % p.len()], i / p.len())).collect())).boxed())])
}
pub fn mapv(k: KT, t: CT, max: usize) -> BoxedStrategy<V> {
    wt(vec![(5, vec((mk(k), sc(t)), 0..6).prop_map(move |v| V::Map(k, t, v.into_iter().collect())).boxed()),
        (1, (size(max), vec((mk(k), sc(t)), 1..4)).prop_map(move |(n, p)| {
            V::Map(k, t, (0..n).map(|i| { let (a, b) = &p[i % p.len()]; (nudge_key(a, i / p.len()), nudge(b, i / p.len())) }).collect())
        }).boxed())])
}
pub const KTS: [KT; 2] = [KT::Int, KT::Str];
pub fn any_v(max: usize) -> BoxedStrategy<V> {
    let vs = Union::new(CTS.map(|t| vecv(t, max))).boxed();
    let ms = Union::new(CTS.iter().flat_map(|&t| KTS.map(|k| mapv(k, t, max))).collect::<Vec<_>>()).boxed();
    wt(vec![(1, Just(V::N).boxed()), (4, any_sc().prop_map(V::S).boxed()), (2, vs), (2, ms)])
}

pub fn much() -> BoxedStrategy<usize> {
    let near = |v: Vec<usize>| select(v.into_iter().flat_map(|n| [n - 1, n, n + 1]).collect::<Vec<_>>()).boxed();
    wt(vec![(3, (1usize..600).boxed()), (2, near(vec![64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096])), (1, near(vec![8192, 10_000, 16_384, 32_768])), (1, near(vec![50_000, 65_536, 70_000]))])
}
/// A string or collection of many characters or elements.
pub fn large_v(max: usize) -> BoxedStrategy<V> {
    let s = (much(), vec(chr(), 1..6)).prop_map(move |(n, c)| V::S(Sc::S((0..n.min(max)).map(|i| c[i % c.len()]).collect())));
    let vs = Union::new(CTS.map(|t| (much(), vec(sc(t), 1..4)).prop_map(move |(n, p)| V::Vec(t, (0..n.min(max)).map(|i| nudge(&p[i % p.len()], i / p.len())).collect())).boxed())).boxed();
    let ms = Union::new(CTS.iter().flat_map(|&t| KTS.map(|k| (much(), vec((mk(k), sc(t)), 1..4)).prop_map(move |(n, p)|
        V::Map(k, t, (0..n.min(max)).map(|i| { let (a, b) = &p[i % p.len()]; (nudge_key(a, i / p.len()), nudge(b, i / p.len())) }).collect())).boxed())).collect::<Vec<_>>()).boxed();
    wt(vec![(2, s.boxed()), (1, vs), (1, ms)])
}

pub fn lifetime() -> BoxedStrategy<u64> {
    let edges = vec![0u64, 1, 2, 59, 60, 61, 3600, 86400, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX as u64, u32::MAX as u64 + 1,
        31_536_000_000, 1 << 53, i64::MAX as u64 - 3_000_000_000, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX];
    let d: Vec<u64> = dict().ints.iter().filter(|&&i| i >= 0).map(|&i| i as u64).collect();
    wt(vec![(8, (0u64..8).boxed()), (3, (0u64..200).boxed()), (1, select(edges).boxed()), (1, select(d).boxed()), (1, any::<u64>().boxed())])
}

/// How a step moves the clock before its statement.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dt { Tick, Ns(u64),
    /// To just before (negative) or just after the n-th next expiry, by this many ns.
    ToExp(u8, i64) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step { pub dt: Dt, pub op: Op,
    /// Repetitions, each with slightly different operands; `spread` also moves to another key each time.
    pub rep: u16, pub spread: bool }

pub fn dt() -> BoxedStrategy<Dt> {
    let s = SEC as u64;
    wt(vec![(6, Just(Dt::Tick).boxed()), (1, (1u64..s).prop_map(Dt::Ns).boxed()),
        (2, (0u64..5, 0u64..s).prop_map(move |(a, b)| Dt::Ns(a * s + b)).boxed()),
        (1, select(vec![s - 1, s, s + 1, 2 * s, 60 * s, 61 * s, 3600 * s, 86_400 * s, 4_000_000 * s]).prop_map(Dt::Ns).boxed()),
        (3, (0u8..3, select(vec![-(s as i64) - 1, -(s as i64), -(s as i64) + 1, -500_000_000, -1_000_000, -1_000, -1, 1, 1_000, 1_000_000, 500_000_000, s as i64 - 1, s as i64])).prop_map(|(a, b)| Dt::ToExp(a, b)).boxed())])
}

/// Which statements a history is made of.
#[derive(Clone, Copy)]
pub struct Profile { pub store: u32, pub read: u32, pub vec: u32, pub map: u32, pub lt: u32, pub sweep: u32, pub getlt: u32, pub lifetimes: bool, pub time: bool, pub off_type: u32, pub shutdown: u32, pub null: u32, pub big: usize, pub reps: bool }
pub const PLAIN: Profile = Profile { store: 6, read: 5, vec: 0, map: 0, lt: 0, sweep: 0, getlt: 0, lifetimes: false, time: false, off_type: 1, shutdown: 0, null: 0, big: 300, reps: true };
pub const ALL: Profile = Profile { store: 6, read: 4, vec: 5, map: 5, lt: 2, sweep: 1, getlt: 2, lifetimes: true, time: true, off_type: 1, shutdown: 0, null: 0, big: 40, reps: true };

pub fn key() -> BoxedStrategy<K> { wt(vec![(12, (0u32..3).boxed()), (3, (0u32..6).boxed()), (1, (0u32..40).boxed())]) }
fn index() -> BoxedStrategy<usize> {
    wt(vec![(8, (0usize..6).boxed()), (2, size(2000)), (1, select(vec![usize::MAX, usize::MAX - 1, i64::MAX as usize, 1 << 32, (1 << 32) - 1, 1 << 31]).boxed())])
}

pub fn op_for(p: Profile, kt: KT, ct: CT) -> BoxedStrategy<Op> {
    let val = |vecs: bool| {
        let mut v: Vec<(u32, BoxedStrategy<V>)> = vec![(2, any_v(p.big))];
        if p.vec > 0 && vecs { v.push((3, vecv(ct, p.big))); }
        if p.map > 0 && vecs { v.push((3, mapv(kt, ct, p.big))); }
        wt(v)
    };
    let elem = || wt(vec![(12, sc(ct).prop_map(V::S).boxed()), (p.off_type.max(1), any_v(3))]);
    // Element keys come from a small set most of the time, so that they meet.
    let mkey = || {
        let small: BoxedStrategy<V> = mk_few(kt).prop_map(mkv).boxed();
        let full: BoxedStrategy<V> = mk(kt).prop_map(mkv).boxed();
        wt(vec![(10, small), (4, full), (p.off_type.max(1), any_v(3))])
    };
    let lt = move || if p.lifetimes { wt(vec![(2, Just(None).boxed()), (3, lifetime().prop_map(Some).boxed())]) } else { Just(None).boxed() };
    let mut o: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let mut add = |w: u32, s: BoxedStrategy<Op>| if w > 0 { o.push((w, s)) };
    add(p.store * 3, (key(), val(true), lt()).prop_map(|(k, v, l)| Op::Set(k, v, l)).boxed());
    add(p.store * 2, (key(), val(true), lt()).prop_map(|(k, v, l)| Op::TrySet(k, v, l)).boxed());
    add(p.store * 2, (key(), val(true), lt()).prop_map(|(k, v, l)| Op::Upd(k, v, l)).boxed());
    add(p.store * 2, key().prop_map(Op::Del).boxed());
    add(p.read * 2, key().prop_map(Op::Get).boxed());
    add(p.read, key().prop_map(Op::TryGet).boxed());
    add(p.read, key().prop_map(Op::Ex).boxed());
    add(p.read, key().prop_map(Op::Type).boxed());
    add(p.getlt * 2, key().prop_map(Op::GetLt).boxed());
    add(p.lt * 2, (key(), lt()).prop_map(|(k, l)| Op::SetLt(k, l)).boxed());
    add(p.vec * 4, (key(), elem()).prop_map(|(k, v)| Op::VPush(k, v)).boxed());
    add(p.vec * 2, key().prop_map(Op::VPop).boxed());
    add(p.vec * 2, (key(), index(), elem()).prop_map(|(k, i, v)| Op::VSet(k, i, v)).boxed());
    add(p.vec * 2, (key(), index()).prop_map(|(k, i)| Op::VGet(k, i)).boxed());
    add(p.vec, key().prop_map(Op::VLen).boxed());
    add(p.map * 4, (key(), mkey(), elem()).prop_map(|(k, e, v)| Op::MSet(k, e, v)).boxed());
    add(p.map * 2, (key(), mkey()).prop_map(|(k, e)| Op::MGet(k, e)).boxed());
    add(p.map * 2, (key(), mkey()).prop_map(|(k, e)| Op::MDel(k, e)).boxed());
    add(p.map, (key(), mkey()).prop_map(|(k, e)| Op::MEx(k, e)).boxed());
    add(p.map, key().prop_map(Op::MLen).boxed());
    add(p.sweep * 4, Just(Op::Sweep).boxed());
    add(p.shutdown * 2, Just(Op::Shutdown).boxed());
    add(p.null, Just(Op::Null).boxed());
    wt(o)
}
fn combos<T: std::fmt::Debug + 'static>(f: impl Fn(KT, CT) -> BoxedStrategy<T>) -> BoxedStrategy<T> {
    Union::new(CTS.iter().flat_map(|&t| KTS.map(|k| f(k, t))).collect::<Vec<_>>()).boxed()
}
pub fn op(p: Profile) -> BoxedStrategy<Op> { combos(|k, t| op_for(p, k, t)) }
pub fn ops(p: Profile, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Op>> { let r = n; combos(move |k, t| vec(op_for(p, k, t), r.clone()).boxed()) }

fn step_for(p: Profile, kt: KT, ct: CT) -> BoxedStrategy<Step> {
    let d = if p.time { dt() } else { Just(Dt::Tick).boxed() };
    let rep = if p.reps { wt(vec![(40, Just(1u16).boxed()), (3, (2u16..9).boxed()), (1, size(300).prop_map(|n| n.max(1) as u16).boxed())]) } else { Just(1u16).boxed() };
    (d, op_for(p, kt, ct), rep, prop::bool::weighted(0.4)).prop_map(|(dt, op, rep, spread)| Step { dt, op, rep, spread: spread && rep > 1 }).boxed()
}
/// A history and the keys it uses.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist { pub pool: Vec<String>, pub steps: Vec<Step> }
pub fn hist(p: Profile, wild: bool) -> BoxedStrategy<Hist> {
    let steps = combos(move |k, t| {
        // Often begin with some entries in place.
        let mut v0: Vec<(u32, BoxedStrategy<V>)> = vec![(1, any_v(p.big))];
        if p.vec > 0 { v0.push((4, vecv(t, p.big))); }
        if p.map > 0 { v0.push((4, mapv(k, t, p.big))); }
        let lt = if p.lifetimes { wt(vec![(3, Just(None).boxed()), (1, lifetime().prop_map(Some).boxed())]) } else { Just(None).boxed() };
        let first = vec((wt(v0), lt), 0..4).prop_map(|v| v.into_iter().enumerate().map(|(i, (v, l))| Step { dt: Dt::Tick, op: Op::Set(i as K, v, l), rep: 1, spread: false }).collect::<Vec<_>>());
        let s = step_for(p, k, t);
        let rest = wt(vec![(4, vec(s.clone(), 1..10).boxed()), (8, vec(s.clone(), 1..50).boxed()), (1, vec(s, 1..240).boxed())]);
        (first, rest).prop_map(|(mut a, b)| { a.extend(b); a }).boxed()
    });
    (pool(wild), steps).prop_map(|(pool, steps)| Hist { pool, steps }).boxed()
}
impl Hist {
    /// The statements in full, with the clock moves before each, bounded in number.
    pub fn expand(&self) -> Vec<(Dt, Op)> {
        let mut out = vec![];
        for s in &self.steps {
            for r in 0..s.rep.max(1) as usize {
                if out.len() > 2500 { return out; }
                out.push((if r == 0 { s.dt.clone() } else { Dt::Tick }, vary(&s.op, r, if s.spread { (r * self.pool.len()) as K } else { 0 })));
            }
        }
        out
    }
}
/// Histories of few but long steps.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large { pub pool: Vec<String>, pub steps: Vec<(Dt, Op, u32, bool)> }
pub fn large(p: Profile) -> BoxedStrategy<Large> {
    let near = |v: Vec<u32>| select(v.into_iter().flat_map(|n| [n - 1, n, n + 1]).collect::<Vec<_>>()).boxed();
    let few = wt(vec![(3, (1u32..10).boxed()), (3, (1u32..600).boxed()), (2, near(vec![64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096]))]);
    let rep = wt(vec![(8, few), (1, near(vec![5000, 8192, 10_000, 16_384, 20_000, 32_768])), (1, near(vec![50_000, 65_536, 66_000]))]);
    let step = move |k, t| (wt(vec![(3, Just(Dt::Tick).boxed()), (1, dt())]), op_for(p, k, t), rep.clone(), prop::bool::weighted(0.7));
    (pool(false), combos(move |k, t| {
        // Begin with something large of one kind or another.
        let l = wt(vec![(1, Just(None).boxed()), (1, (1u64..30).prop_map(Some).boxed()), (1, Just(Some(10_000_000)).boxed())]);
        let first = (step(k, t), l, sc(t), mk_few(k), 0u8..3).prop_map(move |((_, _, n, _), l, s, e, how)| match how {
            0 => vec![(Dt::Tick, Op::Set(0, V::S(s), l), n, true)],
            1 => vec![(Dt::Tick, Op::Set(0, V::Vec(t, vec![]), l), 1, false), (Dt::Tick, Op::VPush(0, V::S(s)), n, false)],
            _ => vec![(Dt::Tick, Op::Set(0, V::Map(k, t, Default::default()), l), 1, false), (Dt::Tick, Op::MSet(0, mkv(e), V::S(s)), n, false)],
        });
        (first, vec(step(k, t), 1..10)).prop_map(|(mut a, b)| { a.extend(b); a }).boxed()
    })).prop_map(|(pool, steps)| Large { pool, steps }).boxed()
}
fn vary_v(v: &V, r: usize) -> V { match v { V::S(s) => V::S(nudge(s, r)), o => o.clone() } }
pub fn vary(op: &Op, r: usize, dk: K) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Get(k) | Op::TryGet(k) | Op::Ex(k) | Op::Type(k) | Op::GetLt(k) | Op::Del(k) | Op::SetLt(k, _) | Op::VPop(k) | Op::VLen(k) | Op::MLen(k) => *k += dk,
        Op::Set(k, v, _) | Op::TrySet(k, v, _) | Op::Upd(k, v, _) => { *k += dk; if r > 0 { *v = vary_v(v, r) } }
        Op::VGet(k, i) => { *k += dk; *i = i.saturating_add(r) }
        Op::VSet(k, i, v) => { *k += dk; *i = i.saturating_add(r); if r > 0 { *v = vary_v(v, r) } }
        Op::VPush(k, v) => { *k += dk; if r > 0 { *v = vary_v(v, r) } }
        Op::MGet(k, e) | Op::MDel(k, e) | Op::MEx(k, e) => { *k += dk; if r > 0 { *e = vary_v(e, r) } }
        Op::MSet(k, e, v) => { *k += dk; if r > 0 { *e = vary_v(e, r); *v = vary_v(v, r) } }
        Op::Sweep | Op::Shutdown | Op::Null => {}
    }
    o
}
