//! The query language: a reference lexer and parser written from the grammar, and a printer
//! that writes statements in every layout the grammar allows.
use crate::model::*;

pub const KEYWORDS: [&str; 31] = ["get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset", "vget", "vpop", "vpush",
    "vlen", "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown", "", ""];
pub fn is_keyword(s: &str) -> bool { !s.is_empty() && KEYWORDS.contains(&s) }

fn id_start(c: char) -> bool { c.is_alphabetic() || c == '_' }
fn id_char(c: char) -> bool { c.is_alphanumeric() || c == '_' }
fn lit_end(c: char) -> bool { c.is_whitespace() || ";:,]}".contains(c) }

/// A lower-case name that can be written as a key in a query.
pub fn is_plain_ident(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next().is_some_and(|c| id_start(c) && !c.is_numeric()) && cs.all(id_char) && s.to_lowercase() == s && !is_keyword(s)
}

#[derive(Clone, Debug, PartialEq)]
pub enum T { Word(String), Id(String), Bool(bool), Int(i64), Float(u32), Str(String), P(char) }
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub t: T, pub start: usize, pub end: usize }

/// Tokens up to the end or the first error.
pub fn lex(src: &[char]) -> (Vec<Tok>, bool) {
    let mut out = vec![];
    let mut i = 0;
    loop {
        while i < src.len() && src[i].is_whitespace() { i += 1; }
        if i >= src.len() { return (out, true); }
        let start = i;
        let c = src[i];
        let t = if ";[],:{}".contains(c) { i += 1; T::P(c) }
        else if c.is_numeric() || c == '-' {
            i += 1;
            while i < src.len() && !lit_end(src[i]) { i += 1; }
            let s: String = src[start..i].iter().collect();
            if s.contains('.') {
                match s.parse::<f32>() { Ok(f) if f.is_finite() => T::Float(f.to_bits()), _ => return (out, false) }
            } else {
                match s.parse::<i64>() { Ok(n) => T::Int(n), Err(_) => return (out, false) }
            }
        } else if c == '"' {
            i += 1;
            let mut s = String::new();
            loop {
                if i >= src.len() { return (out, false); }
                let c = src[i];
                i += 1;
                if c == '"' { break; }
                if c == '\\' {
                    if i >= src.len() { return (out, false); }
                    match src[i] { '\\' => s.push('\\'), '"' => s.push('"'), 'n' => s.push('\n'), 'r' => s.push('\r'), 't' => s.push('\t'), _ => return (out, false) }
                    i += 1;
                } else { s.push(c); }
            }
            if i < src.len() && !lit_end(src[i]) { return (out, false); }
            T::Str(s)
        } else if id_start(c) {
            i += 1;
            while i < src.len() && id_char(src[i]) { i += 1; }
            if i < src.len() && !lit_end(src[i]) { return (out, false); }
            let s: String = src[start..i].iter().collect::<String>().to_lowercase();
            match s.as_str() {
                "true" => T::Bool(true), "false" => T::Bool(false),
                w if is_keyword(w) => T::Word(s),
                _ => T::Id(s),
            }
        } else { return (out, false) };
        out.push(Tok { t, start, end: i });
    }
}

/// A long spelling of `f` that lies just within its half of the gap to the next number towards zero.
fn beyond_half(f: f32) -> String {
    let a = f.abs();
    if a == 0.0 || !a.is_finite() { return format!("{f:.1}"); }
    let below = f32::from_bits(a.to_bits() - 1);
    // Exact in an f64, and in its decimal digits.
    let half = (a as f64 + below as f64) / 2.0;
    let digits = format!("{half:.180}");
    format!("{}{}{}", if f < 0.0 { "-" } else { "" }, digits.trim_end_matches('0'), "000000000000001")
}

/// A statement with its key spelled out (the key index inside the Op is unused).
pub type Stm = (String, Op);

struct P<'a> { t: &'a [Tok], i: usize }
type PR<X> = Result<X, ()>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i).map(|t| &t.t) }
    fn next(&mut self) -> Option<&'a T> { let r = self.peek(); self.i += r.is_some() as usize; r }
    fn end(&self) -> bool { matches!(self.peek(), None | Some(T::P(';'))) }
    fn punct(&mut self, c: char) -> bool { if self.peek() == Some(&T::P(c)) { self.i += 1; true } else { false } }
    fn name(&mut self) -> PR<String> { match self.next() { Some(T::Id(s)) => Ok(s.clone()), _ => Err(()) } }
    fn scalar(&mut self) -> PR<Sc> {
        Ok(match self.next() { Some(T::Bool(b)) => Sc::B(*b), Some(T::Int(i)) => Sc::I(*i), Some(T::Float(f)) => Sc::F(*f), Some(T::Str(s)) => Sc::S(s.clone()), _ => return Err(()) })
    }
    fn mapkey(&mut self) -> PR<V> { match self.next() { Some(T::Int(i)) => Ok(V::S(Sc::I(*i))), Some(T::Str(s)) => Ok(V::S(Sc::S(s.clone()))), _ => Err(()) } }
    fn index(&mut self) -> PR<usize> { match self.next() { Some(T::Int(i)) if *i >= 0 => Ok(*i as usize), _ => Err(()) } }
    fn ct(t: &T) -> Option<CT> {
        match t { T::Word(w) => match w.as_str() { "bool" => Some(CT::Bool), "int" => Some(CT::Int), "float" => Some(CT::Float), "str" => Some(CT::Str), _ => None }, _ => None }
    }
    fn lifetime(&mut self) -> PR<Option<u64>> {
        if self.end() { return Ok(None); }
        match self.next() { Some(T::Int(i)) if *i >= 0 => Ok(Some(*i as u64)), _ => Err(()) }
    }
    fn value(&mut self) -> PR<V> {
        if self.end() { return Ok(V::N); }
        let Some(t1) = Self::ct(self.peek().unwrap()) else { return Ok(V::S(self.scalar()?)) };
        self.i += 1;
        if self.end() { return Ok(V::Vec(t1, vec![])); }
        if self.punct('[') {
            let mut es = vec![];
            if self.punct(']') { return Ok(V::Vec(t1, es)); }
            loop {
                let s = self.scalar()?;
                if s.ct() != t1 { return Err(()); }
                es.push(s);
                if self.punct(']') { return Ok(V::Vec(t1, es)); }
                if !self.punct(',') { return Err(()); }
            }
        }
        let Some(t2) = Self::ct(self.peek().unwrap()) else { return Err(()) };
        self.i += 1;
        let kt = match t1 { CT::Int => KT::Int, CT::Str => KT::Str, _ => return Err(()) };
        let mut m = std::collections::BTreeMap::new();
        if !self.punct('{') || self.punct('}') { return Ok(V::Map(kt, t2, m)); }
        loop {
            let k = self.scalar()?.mk().ok_or(())?;
            if !self.punct(':') { return Err(()); }
            let v = self.scalar()?;
            if k.kt() != kt || v.ct() != t2 { return Err(()); }
            m.insert(k, v);
            if self.punct('}') { return Ok(V::Map(kt, t2, m)); }
            if !self.punct(',') { return Err(()); }
        }
    }
    fn stmt(&mut self) -> PR<Stm> {
        let Some(T::Word(w)) = self.next() else { return Err(()) };
        if w == "shutdown" { return Ok((String::new(), Op::Shutdown)); }
        if !["get", "set", "del", "ex", "upd", "try_get", "try_set", "type", "vset", "vget", "vpop", "vpush", "vlen", "mex", "mget", "mset", "mdel", "mlen"].contains(&w.as_str()) { return Err(()); }
        let k = self.name()?;
        let op = match w.as_str() {
            "get" => Op::Get(0), "del" => Op::Del(0), "ex" => Op::Ex(0), "try_get" => Op::TryGet(0), "type" => Op::Type(0),
            "vpop" => Op::VPop(0), "vlen" => Op::VLen(0), "mlen" => Op::MLen(0),
            "set" => { let v = self.value()?; Op::Set(0, v, self.lifetime()?) }
            "try_set" => { let v = self.value()?; Op::TrySet(0, v, self.lifetime()?) }
            "upd" => { let v = self.value()?; Op::Upd(0, v, self.lifetime()?) }
            "vget" => Op::VGet(0, self.index()?),
            "vset" => { let i = self.index()?; Op::VSet(0, i, V::S(self.scalar()?)) }
            "vpush" => Op::VPush(0, V::S(self.scalar()?)),
            "mget" => Op::MGet(0, self.mapkey()?), "mdel" => Op::MDel(0, self.mapkey()?), "mex" => Op::MEx(0, self.mapkey()?),
            "mset" => { let e = self.mapkey()?; Op::MSet(0, e, V::S(self.scalar()?)) }
            _ => return Err(()),
        };
        Ok((k, op))
    }
}
/// Statements up to the end or the first error.
pub fn parse_toks(t: &[Tok]) -> (Vec<Stm>, bool) {
    let mut p = P { t, i: 0 };
    let mut out = vec![];
    loop {
        while p.punct(';') {}
        if p.peek().is_none() { return (out, true); }
        match p.stmt() { Ok(s) => out.push(s), Err(()) => return (out, false) }
    }
}
pub fn parse(text: &str) -> Option<Vec<Stm>> {
    let cs: Vec<char> = text.chars().collect();
    let (t, ok) = lex(&cs);
    if !ok { return None; }
    let (s, ok) = parse_toks(&t);
    if ok { Some(s) } else { None }
}

/// Is the parsed statement exactly this one?
pub fn stmt_is(s: &Stm, got: &server::analysis::Statement) -> bool {
    use server::analysis::Statement as G;
    let k = &s.0;
    match (&s.1, got) {
        (Op::Get(_), G::Get(n)) | (Op::TryGet(_), G::GetIfExists(n)) | (Op::Ex(_), G::Exists(n)) | (Op::Type(_), G::ValueType(n)) | (Op::GetLt(_), G::GetLifetime(n))
        | (Op::Del(_), G::Delete(n)) | (Op::VPop(_), G::VectorPop(n)) | (Op::VLen(_), G::VectorLength(n)) | (Op::MLen(_), G::MapLength(n)) => n == k,
        (Op::Set(_, v, l), G::Set(n, w, m)) | (Op::TrySet(_, v, l), G::SetIfNotExists(n, w, m)) | (Op::Upd(_, v, l), G::Update(n, w, m)) => n == k && l == m && v.is(w),
        (Op::SetLt(_, l), G::UpdateLifetime(n, m)) => n == k && l == m,
        (Op::VGet(_, i), G::VectorGet(n, j)) => n == k && i == j,
        (Op::VSet(_, i, v), G::VectorSet(n, j, w)) => n == k && i == j && v.is(w),
        (Op::VPush(_, v), G::VectorAppend(n, w)) => n == k && v.is(w),
        (Op::MGet(_, e), G::MapGet(n, f)) | (Op::MDel(_, e), G::MapDelete(n, f)) | (Op::MEx(_, e), G::MapExists(n, f)) => n == k && e.is(f),
        (Op::MSet(_, e, v), G::MapSet(n, f, w)) => n == k && e.is(f) && v.is(w),
        (Op::Sweep, G::ExpireKeys) | (Op::Shutdown, G::Shutdown) | (Op::Null, G::Null) => true,
        _ => false,
    }
}

/// Can the query language write this statement?
pub fn expressible(op: &Op) -> bool {
    let scal = |v: &V| v.sc().is_some();
    let mkey = |v: &V| v.mk().is_some();
    let lt = |l: &Option<u64>| l.is_none_or(|l| l <= i64::MAX as u64);
    match op {
        Op::GetLt(_) | Op::SetLt(..) | Op::Sweep | Op::Null => false,
        Op::Set(_, v, l) | Op::TrySet(_, v, l) | Op::Upd(_, v, l) => lt(l) && (*v != V::N || l.is_none()),
        Op::VGet(_, i) => *i <= i64::MAX as usize,
        Op::VSet(_, i, v) => *i <= i64::MAX as usize && scal(v),
        Op::VPush(_, v) => scal(v),
        Op::MGet(_, e) | Op::MDel(_, e) | Op::MEx(_, e) => mkey(e),
        Op::MSet(_, e, v) => mkey(e) && scal(v),
        _ => true,
    }
}

/// A source of layout decisions; all zeroes gives the plainest layout.
pub struct Style<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> Style<'a> {
    pub fn new(b: &'a [u8]) -> Style<'a> { Style { b, i: 0 } }
    pub fn pick(&mut self, n: usize) -> usize {
        if self.b.is_empty() { return 0; }
        // Cycle with a stride so that short style strings do not lock onto one kind of decision.
        let v = self.b[self.i % self.b.len()] as usize;
        self.i += 1;
        let v = if v == 0 { 0 } else { v + self.i / self.b.len() };
        v % n
    }
}
const WS: [&str; 12] = [" ", " ", "  ", "\n", "\t", "\r\n", "\u{a0}", "\u{2003}", "\u{85}", "\u{b}", " \n\t ", "\u{3000}"];

pub struct Out<'a> { pub s: String, st: Style<'a>, /// a separator must come before the next word-like token
    glue: bool }
impl<'a> Out<'a> {
    pub fn new(b: &'a [u8]) -> Out<'a> { Out { s: String::new(), st: Style::new(b), glue: false } }
    /// A word-like token: needs whitespace after another word-like token.
    fn word(&mut self, w: &str) {
        if self.glue { let i = self.st.pick(WS.len()); self.s.push_str(WS[i]); } else { self.opt(); }
        self.s.push_str(w);
        self.glue = true;
    }
    fn opt(&mut self) { let i = self.st.pick(5); if i >= 3 { let j = self.st.pick(WS.len()); self.s.push_str(WS[j]); } }
    fn opening(&mut self, c: char) {
        // '[' and '{' do not end a literal or a name, so they need whitespace before them.
        if self.glue { let i = self.st.pick(WS.len()); self.s.push_str(WS[i]); } else { self.opt(); }
        self.s.push(c);
        self.glue = false;
    }
    fn punct(&mut self, c: char) { self.opt(); self.s.push(c); self.glue = false; }
    fn cased(&mut self, w: &str) {
        let mode = self.st.pick(4);
        let t: String = match mode { 0 | 1 => w.to_string(), 2 => w.to_uppercase(), _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_uppercase().to_string() } else { c.to_string() }).collect() };
        let t = if t.to_lowercase() == w { t } else { w.to_string() };
        self.word(&t);
    }
    fn sc(&mut self, s: &Sc) {
        match s {
            Sc::B(b) => self.cased(if *b { "true" } else { "false" }),
            Sc::I(i) => {
                let m = self.st.pick(6);
                let t = match (m, *i) { (5, 0) => "-0".to_string(), (4, n) if n >= 0 => format!("00{n}"), (4, n) => format!("-0{}", (n as i128).abs()), _ => i.to_string() };
                self.word(&t);
            }
            Sc::F(b) => {
                let f = f32::from_bits(*b);
                let dot = |s: String| if s.contains('.') { s } else if let Some(p) = s.find(['e', 'E']) { format!("{}.0{}", &s[..p], &s[p..]) } else { format!("{s}.0") };
                let m = self.st.pick(7);
                let t = match m {
                    6 => beyond_half(f),
                    3 => dot(format!("{f:e}")),
                    4 => dot(format!("{f:E}")),
                    5 => format!("{}00", dot(format!("{f}"))),
                    2 => { let s = format!("{f}"); if s.contains('.') { s } else { format!("{s}.") } }
                    _ => dot(format!("{f}")),
                };
                let t = if t.parse::<f32>().map(|g| g.to_bits()) == Ok(*b) { t } else { dot(format!("{f}")) };
                self.word(&t);
            }
            Sc::S(s) => {
                let mut t = String::from("\"");
                for c in s.chars() {
                    match c {
                        '\\' => t.push_str("\\\\"),
                        '"' => t.push_str("\\\""),
                        '\n' | '\r' | '\t' => {
                            if self.st.pick(2) == 0 { t.push(c); } else { t.push_str(match c { '\n' => "\\n", '\r' => "\\r", _ => "\\t" }); }
                        }
                        c => t.push(c),
                    }
                }
                t.push('"');
                self.word(&t);
            }
        }
    }
    fn value(&mut self, v: &V, lifetime: bool, last: bool) {
        match v {
            V::N => {}
            V::S(s) => self.sc(s),
            V::Vec(t, es) => {
                self.cased(t.word());
                // An empty vector may be written without brackets only at the end of its statement.
                if es.is_empty() && !lifetime && last && self.st.pick(2) == 0 { return; }
                self.opening('[');
                for (i, e) in es.iter().enumerate() { if i > 0 { self.punct(','); } self.sc(e); }
                self.punct(']');
            }
            V::Map(k, t, es) => {
                self.cased(k.word());
                self.cased(t.word());
                if es.is_empty() && self.st.pick(2) == 0 { return; }
                self.opening('{');
                for (i, (a, b)) in es.iter().enumerate() {
                    if i > 0 { self.punct(','); }
                    // A repeated key takes its last value.
                    self.sc(&match a { MK::I(i) => Sc::I(*i), MK::S(s) => Sc::S(s.clone()) });
                    self.punct(':');
                    self.sc(b);
                }
                self.punct('}');
            }
        }
    }
    /// Does the statement reach to its end without needing a separator after it?
    fn closed(op: &Op) -> bool { !matches!(op, Op::Set(..) | Op::TrySet(..) | Op::Upd(..)) || matches!(op, Op::Set(_, _, Some(_)) | Op::TrySet(_, _, Some(_)) | Op::Upd(_, _, Some(_))) }
    pub fn stmt(&mut self, name: &str, op: &Op) {
        self.cased(match op { Op::Type(_) => "type", o => o.name() });
        if *op == Op::Shutdown { return; }
        self.cased(name);
        match op {
            Op::Set(_, v, l) | Op::TrySet(_, v, l) | Op::Upd(_, v, l) => {
                self.value(v, l.is_some(), true);
                if let Some(l) = l { let t = if self.st.pick(5) == 4 { format!("0{l}") } else { l.to_string() }; self.word(&t); }
            }
            Op::VGet(_, i) => { let t = if self.st.pick(5) == 4 { format!("0{i}") } else { i.to_string() }; self.word(&t); }
            Op::VSet(_, i, v) => { self.word(&i.to_string()); self.sc(v.sc().unwrap()); }
            Op::VPush(_, v) => self.sc(v.sc().unwrap()),
            Op::MGet(_, e) | Op::MDel(_, e) | Op::MEx(_, e) => self.sc(e.sc().unwrap()),
            Op::MSet(_, e, v) => { self.sc(e.sc().unwrap()); self.sc(v.sc().unwrap()); }
            _ => {}
        }
    }
    fn sep(&mut self, needed: bool) {
        let n = self.st.pick(6);
        let k = match n { 0 | 1 => 1, 2 | 3 => usize::from(needed), 4 => 2, _ => 4 };
        for _ in 0..k { self.punct(';'); }
    }
    pub fn list(mut self, stmts: &[Stm]) -> String {
        let lead = self.st.pick(6);
        if lead == 5 { self.punct(';'); }
        for (i, (k, o)) in stmts.iter().enumerate() {
            self.stmt(k, o);
            if i + 1 < stmts.len() { self.sep(!Self::closed(o)); }
        }
        match self.st.pick(6) { 3 => self.punct(';'), 4 => { self.punct(';'); self.punct(';'); } _ => {} }
        self.opt();
        self.s
    }
}
pub fn print(stmts: &[Stm], style: &[u8]) -> String { Out::new(style).list(stmts) }
