//! The explorer's own notion of a journal: a model, a renderer for inputs, and a lenient parser for
//! outputs. Independent of the parser and serializer that the program uses.

use crate::dec::Dec;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Comment {
    pub flags: BTreeSet<String>,
    pub kv: BTreeMap<String, String>,
    pub lines: Vec<String>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Amt {
    pub q: Dec,
    pub c: String,
    pub left: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub enum Price {
    #[default]
    None,
    Unit(Amt),
    Total(Amt),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct PAmt {
    pub a: Amt,
    pub lot: Price,
    pub price: Price,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Bal {
    Zero,
    Amt(Amt),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default, PartialOrd, Ord)]
pub enum St {
    #[default]
    None,
    Pend,
    Clr,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub enum Kind {
    #[default]
    Real,
    Bal,
    Unbal,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Post {
    pub st: St,
    pub kind: Kind,
    pub acct: String,
    pub amt: Option<PAmt>,
    pub bal: Option<Bal>,
    pub c: Comment,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Trn {
    pub date: String,
    pub edate: Option<String>,
    pub st: St,
    pub code: Option<String>,
    pub desc: String,
    pub c: Comment,
    pub posts: Vec<Post>,
}

pub const UNKNOWN: &str = "unknown-account";
pub const SRC: &str = "source-file";

impl Post {
    pub fn fps(&self) -> BTreeSet<String> {
        self.c.flags.iter().filter(|f| f.starts_with("fp-")).cloned().collect()
    }
    pub fn unknown(&self) -> bool {
        self.c.flags.contains(UNKNOWN)
    }
}

impl Comment {
    pub fn is_empty(&self) -> bool {
        self.flags.is_empty() && self.kv.is_empty() && self.lines.is_empty()
    }
    pub fn flag(mut self, f: &str) -> Self {
        self.flags.insert(f.into());
        self
    }
    pub fn val(mut self, k: &str, v: &str) -> Self {
        self.kv.insert(k.into(), v.into());
        self
    }
    pub fn line(mut self, l: &str) -> Self {
        self.lines.push(l.into());
        self
    }

    /// Reads one raw comment line. A line "key: value" (or "key:") is a value tag; otherwise groups
    /// ":flag:flag:" anywhere in the line are flags, and what is around them is text.
    pub fn read_line(&mut self, line: &str) {
        let t = line.trim_start_matches(' ');
        if let Some(p) = t.find(':') {
            let (k, rest) = (&t[..p], &t[p + 1..]);
            if !k.is_empty() && !k.contains(' ') {
                let v = rest.trim_start_matches(' ');
                if rest.is_empty() {
                    self.kv.insert(k.into(), String::new());
                    return;
                }
                if rest.starts_with(' ') && !v.is_empty() {
                    self.kv.insert(k.into(), v.into());
                    return;
                }
                if rest.starts_with(' ') {
                    // Only spaces: the last one is the value, as far as the syntax goes.
                    self.kv.insert(k.into(), v.into());
                    return;
                }
            }
        }
        let cs: Vec<char> = line.chars().collect();
        let mut text = String::new();
        let mut i = 0;
        let push = |text: &mut String, lines: &mut Vec<String>| {
            let t = text.trim().to_string();
            if !t.is_empty() {
                lines.push(t);
            }
            text.clear();
        };
        while i < cs.len() {
            if cs[i] == ':' {
                // Longest run of "flag:" that follows.
                let mut flags = Vec::new();
                let mut j = i + 1;
                loop {
                    let mut k = j;
                    while k < cs.len() && cs[k] != ':' && cs[k] != ' ' {
                        k += 1;
                    }
                    if k > j && k < cs.len() && cs[k] == ':' {
                        flags.push(cs[j..k].iter().collect::<String>());
                        j = k + 1;
                    } else {
                        break;
                    }
                }
                if !flags.is_empty() {
                    push(&mut text, &mut self.lines);
                    self.flags.extend(flags);
                    i = j;
                    continue;
                }
            }
            text.push(cs[i]);
            i += 1;
        }
        push(&mut text, &mut self.lines);
    }

    pub fn of_raw(raw: &[String]) -> Self {
        let mut c = Comment::default();
        for l in raw {
            c.read_line(l);
        }
        c
    }

    fn raw_lines(&self) -> Vec<String> {
        let mut out = Vec::new();
        for f in &self.flags {
            out.push(format!(":{}:", f));
        }
        for l in &self.lines {
            out.push(l.clone());
        }
        for (k, v) in &self.kv {
            out.push(format!("{}: {}", k, v));
        }
        out
    }
}

pub fn amt(s: &str) -> Amt {
    parse_amt(s).unwrap_or_else(|| panic!("bad amount {:?}", s))
}

/// "GBP10.00", "GBP -1", "-GBP10", "10.00 GBP".
pub fn parse_amt(s: &str) -> Option<Amt> {
    let s = s.trim();
    let (neg, t) = match s.strip_prefix('-') {
        Some(r) if r.trim_start().starts_with(|c: char| !c.is_ascii_digit() && c != '.') => (true, r.trim_start()),
        _ => (false, s),
    };
    if t.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.') {
        let e = t.find(|c: char| !(c.is_ascii_digit() || "-.,".contains(c)))?;
        let q = Dec::parse(&t[..e])?;
        let c = t[e..].trim();
        (!c.is_empty()).then(|| Amt { q, c: c.trim_matches('"').into(), left: false })
    } else {
        let e = if let Some(r) = t.strip_prefix('"') { r.find('"')? + 2 } else { t.find(|c: char| c.is_ascii_digit() || "-. ".contains(c))? };
        let mut q = Dec::parse(t[e..].trim())?;
        if neg {
            q = q.negate();
        }
        let c = t[..e].trim().trim_matches('"');
        Some(Amt { q, c: c.into(), left: true })
    }
}

impl std::fmt::Display for Amt {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.left {
            write!(f, "{}{}", self.c, self.q)
        } else {
            write!(f, "{} {}", self.q, self.c)
        }
    }
}

pub fn pamt(s: &str) -> PAmt {
    parse_pamt(s).unwrap_or_else(|| panic!("bad posting amount {:?}", s))
}

pub fn parse_pamt(s: &str) -> Option<PAmt> {
    let mut rest = s.trim().to_string();
    let mut lot = Price::None;
    let mut price = Price::None;
    if let Some(p) = rest.find('@') {
        let t = rest[p..].to_string();
        price = match t.strip_prefix("@@") {
            Some(a) => Price::Total(parse_amt(a)?),
            None => Price::Unit(parse_amt(&t[1..])?),
        };
        rest.truncate(p);
    }
    if let Some(p) = rest.find('{') {
        let t = rest[p..].trim().to_string();
        lot = if let Some(a) = t.strip_prefix("{{") {
            Price::Total(parse_amt(a.strip_suffix("}}")?)?)
        } else {
            Price::Unit(parse_amt(t[1..].strip_suffix('}')?)?)
        };
        rest.truncate(p);
    }
    Some(PAmt { a: parse_amt(&rest)?, lot, price })
}

fn w_pamt(o: &mut String, p: &PAmt) {
    let _ = write!(o, "{}", p.a);
    match &p.lot {
        Price::None => {}
        Price::Unit(a) => {
            let _ = write!(o, " {{{}}}", a);
        }
        Price::Total(a) => {
            let _ = write!(o, " {{{{{}}}}}", a);
        }
    }
    match &p.price {
        Price::None => {}
        Price::Unit(a) => {
            let _ = write!(o, " @ {}", a);
        }
        Price::Total(a) => {
            let _ = write!(o, " @@ {}", a);
        }
    }
}

fn st_text(st: St) -> &'static str {
    match st {
        St::None => "",
        St::Pend => "! ",
        St::Clr => "* ",
    }
}

pub fn render(trns: &[Trn]) -> String {
    let mut o = String::new();
    for (i, t) in trns.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        let _ = write!(o, "{}", t.date);
        if let Some(e) = &t.edate {
            let _ = write!(o, "={}", e);
        }
        let _ = write!(o, " {}", st_text(t.st));
        if let Some(c) = &t.code {
            let _ = write!(o, "({}) ", c);
        }
        let _ = writeln!(o, "{}", t.desc);
        for l in t.c.raw_lines() {
            let _ = writeln!(o, "    ; {}", l);
        }
        for p in &t.posts {
            let _ = write!(o, "    {}", st_text(p.st));
            let _ = match p.kind {
                Kind::Real => write!(o, "{}", p.acct),
                Kind::Bal => write!(o, "[{}]", p.acct),
                Kind::Unbal => write!(o, "({})", p.acct),
            };
            if p.amt.is_some() || p.bal.is_some() {
                o.push_str("  ");
            }
            if let Some(a) = &p.amt {
                w_pamt(&mut o, a);
            }
            match &p.bal {
                None => {}
                Some(Bal::Zero) => o.push_str(" = 0"),
                Some(Bal::Amt(a)) => {
                    let _ = write!(o, " = {}", a);
                }
            }
            o.push('\n');
            for l in p.c.raw_lines() {
                let _ = writeln!(o, "    ; {}", l);
            }
        }
    }
    o
}

fn is_date(s: &str) -> bool {
    let b: Vec<&str> = s.split(['-', '/']).collect();
    b.len() == 3 && b.iter().all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_digit()))
}

fn norm_date(s: &str) -> String {
    s.replace('/', "-")
}

fn take_st(s: &str) -> (St, &str) {
    for (c, st) in [('*', St::Clr), ('!', St::Pend)] {
        if let Some(r) = s.strip_prefix(c) {
            return (st, r.trim_start());
        }
    }
    (St::None, s)
}

/// An item of a journal, as read back.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Item {
    Blank,
    Comment(String),
    Price(String),
    Include(String),
    Trn(Trn),
}

/// Reads a journal of transactions.
pub fn parse(text: &str) -> Result<Vec<Trn>, String> {
    let mut out = Vec::new();
    for it in parse_items(text)? {
        match it {
            Item::Trn(t) => out.push(t),
            Item::Blank => {}
            other => return Err(format!("unexpected item {:?}", other)),
        }
    }
    Ok(out)
}

pub fn parse_items(text: &str) -> Result<Vec<Item>, String> {
    let mut out: Vec<Item> = Vec::new();
    let mut raw: Vec<String> = Vec::new();
    let mut in_trn = false;
    fn flush(out: &mut [Item], raw: &mut Vec<String>) {
        if let Some(Item::Trn(t)) = out.last_mut() {
            let c = match t.posts.last_mut() {
                Some(p) => &mut p.c,
                None => &mut t.c,
            };
            for l in raw.drain(..) {
                c.read_line(&l);
            }
        }
    }
    for (n, line) in text.split('\n').enumerate() {
        let line = line.strip_suffix('\r').unwrap_or(line);
        let err = |m: &str| Err(format!("line {}: {}: {:?}", n + 1, m, line));
        if line.trim().is_empty() {
            flush(&mut out, &mut raw);
            if n + 1 < text.split('\n').count() {
                if in_trn {
                    in_trn = false;
                }
                out.push(Item::Blank);
            }
            continue;
        }
        if line.starts_with([' ', '\t']) {
            if !in_trn {
                return err("indented line outside of a transaction");
            }
            let t = line.trim_start();
            if let Some(c) = t.strip_prefix(';') {
                raw.push(c.trim().to_string());
                continue;
            }
            flush(&mut out, &mut raw);
            let (st, t) = take_st(t);
            let mut p = Post { st, ..Post::default() };
            let sep = t.find("  ").into_iter().chain(t.find('\t')).min().unwrap_or(t.len());
            let (mut acct, mut rest) = (t[..sep].to_string(), t[sep..].to_string());
            if let Some(p0) = rest.find(';') {
                raw.push(rest[p0 + 1..].trim().to_string());
                rest.truncate(p0);
            }
            if let Some(a) = acct.strip_prefix('[').and_then(|a| a.strip_suffix(']')) {
                p.kind = Kind::Bal;
                acct = a.to_string();
            } else if let Some(a) = acct.strip_prefix('(').and_then(|a| a.strip_suffix(')')) {
                p.kind = Kind::Unbal;
                acct = a.to_string();
            }
            p.acct = acct;
            let (a, b) = match rest.split_once('=') {
                Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
                None => (rest.trim().to_string(), None),
            };
            if !a.is_empty() {
                p.amt = match parse_pamt(&a) {
                    Some(x) => Some(x),
                    None => return err("bad amount"),
                };
            }
            if let Some(b) = b {
                p.bal = Some(if b == "0" {
                    Bal::Zero
                } else {
                    match parse_amt(&b) {
                        Some(x) => Bal::Amt(x),
                        None => return err("bad balance"),
                    }
                });
            }
            match out.last_mut() {
                Some(Item::Trn(t)) => t.posts.push(p),
                _ => return err("posting outside of a transaction"),
            }
            continue;
        }
        flush(&mut out, &mut raw);
        in_trn = false;
        if let Some(c) = line.strip_prefix([';', '#', '%', '|', '*']) {
            out.push(Item::Comment(c.trim().to_string()));
            continue;
        }
        if let Some(c) = line.strip_prefix("include ") {
            out.push(Item::Include(c.trim().to_string()));
            continue;
        }
        if let Some(c) = line.strip_prefix("P ") {
            out.push(Item::Price(c.split_whitespace().collect::<Vec<_>>().join(" ")));
            continue;
        }
        let (head, rest) = line.split_once(' ').unwrap_or((line, ""));
        let (d, e) = match head.split_once('=') {
            Some((d, e)) => (d, Some(e)),
            None => (head, None),
        };
        if !is_date(d) || e.map(|e| !is_date(e)).unwrap_or(false) {
            return err("not a transaction");
        }
        let mut t = Trn { date: norm_date(d), edate: e.map(norm_date), ..Trn::default() };
        let (st, rest) = take_st(rest.trim_start());
        t.st = st;
        let mut rest = rest.to_string();
        if rest.starts_with('(') {
            if let Some(p) = rest.find(')') {
                t.code = Some(rest[1..p].to_string());
                rest = rest[p + 1..].trim_start().to_string();
            }
        }
        if let Some(p) = rest.find("  ;") {
            raw.push(rest[p + 3..].trim().to_string());
            rest.truncate(p);
        }
        t.desc = rest.trim_end().to_string();
        out.push(Item::Trn(t));
        in_trn = true;
    }
    flush(&mut out, &mut raw);
    Ok(out)
}
