//! Reference interpreter for rule tables, written from the documentation of the rule language.

use crate::ctx::Env;
use crate::journal::*;
use std::collections::BTreeMap;
use std::fmt::Write;

/// Regular expressions with known meaning: the pattern, and what it finds first (whole match, group 1).
#[derive(Clone, Copy)]
pub struct Re {
    pub pat: &'static str,
    pub find: fn(&str) -> Option<(usize, usize, Option<(usize, usize)>)>,
}

fn sub(s: &str, t: &str) -> Option<(usize, usize, Option<(usize, usize)>)> {
    s.find(t).map(|p| (p, p + t.len(), None))
}

pub const RES: &[Re] = &[
    Re { pat: "shop", find: |s| sub(s, "shop") },
    Re { pat: "^Shop", find: |s| s.starts_with("Shop").then_some((0, 4, None)) },
    Re { pat: "two$", find: |s| s.ends_with("two").then(|| (s.len() - 3, s.len(), None)) },
    Re { pat: "(?i)SHOP", find: |s| sub(&s.to_ascii_lowercase(), "shop") },
    Re {
        pat: "[0-9]+",
        find: |s| {
            let a = s.find(|c: char| c.is_ascii_digit())?;
            let b = s[a..].find(|c: char| !c.is_ascii_digit()).map(|p| a + p).unwrap_or(s.len());
            Some((a, b, None))
        },
    },
    Re {
        pat: "o(.)",
        find: |s| {
            let cs: Vec<(usize, char)> = s.char_indices().collect();
            (0..cs.len().saturating_sub(1)).find(|i| cs[*i].1 == 'o').map(|i| {
                let a = cs[i + 1].0;
                let b = a + cs[i + 1].1.len_utf8();
                (cs[i].0, b, Some((a, b)))
            })
        },
    },
    Re {
        pat: "^(.+?) .*$",
        find: |s| s.char_indices().skip(1).find(|c| c.1 == ' ').map(|(p, _)| (0, s.len(), Some((0, p)))),
    },
    Re { pat: ".*", find: |s| Some((0, s.len(), None)) },
    Re {
        pat: "é|ü",
        find: |s| s.char_indices().find(|(_, c)| "éü".contains(*c)).map(|(p, c)| (p, p + c.len_utf8(), None)),
    },
    Re { pat: "\\.", find: |s| sub(s, ".") },
];

pub fn re(pat: &str) -> Re {
    *RES.iter().find(|r| r.pat == pat).unwrap()
}

#[derive(Clone)]
pub enum Sm {
    Lower(Box<Sm>),
    Contains(String),
    Eq(String),
    Matches(Re),
}

#[derive(Clone)]
pub enum Pred {
    True,
    All(Vec<Pred>),
    Any(Vec<Pred>),
    Not(Box<Pred>),
    Account(Sm),
    FlagTag(Sm),
    HasFlag(String),
    HasValue(String),
    ValueTag(String, Sm),
    Desc(Sm),
}

#[derive(Clone)]
pub enum Act {
    AddFlag(String),
    AddValue(String, String),
    AddTFlag(String),
    AddTValue(String, String),
    All(Vec<Act>),
    Error(String),
    Noop,
    Jump(String),
    SetAccount(String),
    DelFlag(String),
    DelValue(String),
    DelTFlag(String),
    DelTValue(String),
    ReplaceDesc(Re, String),
}

#[derive(Clone)]
pub struct Rule {
    pub pred: Pred,
    pub act: Act,
    pub ret: bool,
}

pub type Chains = Vec<(String, Vec<Rule>)>;

pub fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

impl Sm {
    pub fn ron(&self) -> String {
        match self {
            Sm::Lower(m) => format!("AsLower({})", m.ron()),
            Sm::Contains(s) => format!("Contains({})", q(s)),
            Sm::Eq(s) => format!("Eq({})", q(s)),
            Sm::Matches(r) => format!("Matches({})", q(r.pat)),
        }
    }
    pub fn test(&self, s: &str) -> bool {
        match self {
            Sm::Lower(m) => m.test(&s.to_lowercase()),
            Sm::Contains(t) => s.contains(t.as_str()),
            Sm::Eq(t) => s == t,
            Sm::Matches(r) => (r.find)(s).is_some(),
        }
    }
}

fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(", ")
}

impl Pred {
    pub fn ron(&self) -> String {
        match self {
            Pred::True => "True".into(),
            Pred::All(v) => format!("All([{}])", list(v, Pred::ron)),
            Pred::Any(v) => format!("Any([{}])", list(v, Pred::ron)),
            Pred::Not(p) => format!("Not({})", p.ron()),
            Pred::Account(m) => format!("Account({})", m.ron()),
            Pred::FlagTag(m) => format!("PostingFlagTag({})", m.ron()),
            Pred::HasFlag(s) => format!("PostingHasFlagTag({})", q(s)),
            Pred::HasValue(s) => format!("PostingHasValueTag({})", q(s)),
            Pred::ValueTag(k, m) => format!("PostingValueTag({}, {})", q(k), m.ron()),
            Pred::Desc(m) => format!("TransactionDescription({})", m.ron()),
        }
    }
    pub fn test(&self, t: &Trn, p: &Post) -> bool {
        match self {
            Pred::True => true,
            Pred::All(v) => v.iter().all(|x| x.test(t, p)),
            Pred::Any(v) => v.iter().any(|x| x.test(t, p)),
            Pred::Not(x) => !x.test(t, p),
            Pred::Account(m) => m.test(&p.acct),
            Pred::FlagTag(m) => p.c.flags.iter().any(|f| m.test(f)),
            Pred::HasFlag(s) => p.c.flags.contains(s),
            Pred::HasValue(s) => p.c.kv.contains_key(s),
            Pred::ValueTag(k, m) => p.c.kv.get(k).map(|v| m.test(v)).unwrap_or(false),
            Pred::Desc(m) => m.test(&t.desc),
        }
    }
}

impl Act {
    pub fn ron(&self) -> String {
        match self {
            Act::AddFlag(s) => format!("AddPostingFlagTag({})", q(s)),
            Act::AddValue(k, v) => format!("AddPostingValueTag({}, {})", q(k), q(v)),
            Act::AddTFlag(s) => format!("AddTransactionFlagTag({})", q(s)),
            Act::AddTValue(k, v) => format!("AddTransactionValueTag({}, {})", q(k), q(v)),
            Act::All(v) => format!("All([{}])", list(v, Act::ron)),
            Act::Error(s) => format!("Error({})", q(s)),
            Act::Noop => "Noop".into(),
            Act::Jump(s) => format!("JumpChain({})", q(s)),
            Act::SetAccount(s) => format!("SetAccount({})", q(s)),
            Act::DelFlag(s) => format!("RemovePostingFlagTag({})", q(s)),
            Act::DelValue(s) => format!("RemovePostingValueTag({})", q(s)),
            Act::DelTFlag(s) => format!("RemoveTransactionFlagTag({})", q(s)),
            Act::DelTValue(s) => format!("RemoveTransactionValueTag({})", q(s)),
            Act::ReplaceDesc(r, s) => {
                format!("ReplaceTransactionDescription(RegexReplace(regex: {}, replacement: {}))", q(r.pat), q(s))
            }
        }
    }
}

impl Rule {
    pub fn ron(&self) -> String {
        format!(
            "Rule(action: {}, predicate: {}, result: {})",
            self.act.ron(),
            self.pred.ron(),
            if self.ret { "Return" } else { "Continue" }
        )
    }
}

pub fn chain_ron(name: &str, rules: &[Rule]) -> String {
    let mut o = format!("Chain({}, [\n", q(name));
    for r in rules {
        let _ = writeln!(o, "    {},", r.ron());
    }
    o.push_str("]),\n");
    o
}

pub fn ron(c: &Chains) -> String {
    let mut o = String::from("[\n");
    for (n, r) in c {
        o.push_str(&chain_ron(n, r));
    }
    o.push_str("]\n");
    o
}

/// Replaces the first match; "$0", "$1", "${1}" stand for the match and group 1, "$$" for "$".
pub fn replace(r: &Re, template: &str, s: &str) -> String {
    let Some((a, b, g)) = (r.find)(s) else { return s.to_string() };
    let mut o = s[..a].to_string();
    let mut t = template;
    while let Some(p) = t.find('$') {
        o.push_str(&t[..p]);
        t = &t[p + 1..];
        let group = |n: &str| match n {
            "0" => &s[a..b],
            "1" => g.map(|(x, y)| &s[x..y]).unwrap_or(""),
            _ => "",
        };
        if let Some(r) = t.strip_prefix('$') {
            o.push('$');
            t = r;
        } else if let Some(r) = t.strip_prefix('{') {
            let e = r.find('}').unwrap();
            o.push_str(group(&r[..e]));
            t = &r[e + 1..];
        } else {
            o.push_str(group(&t[..1]));
            t = &t[1..];
        }
    }
    o.push_str(t);
    o.push_str(&s[b..]);
    o
}

pub struct Interp<'a> {
    pub chains: BTreeMap<&'a str, &'a [Rule]>,
    /// Which rules had their actions applied at least once: (chain, index).
    pub fired: std::collections::BTreeSet<(String, usize)>,
    pub steps: u64,
    pub max_depth: usize,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Stop {
    Error,
    Endless,
}

impl<'a> Interp<'a> {
    pub fn new(c: &'a Chains) -> Self {
        Interp {
            chains: c.iter().map(|(n, r)| (n.as_str(), r.as_slice())).collect(),
            fired: Default::default(),
            steps: 0,
            max_depth: 0,
        }
    }

    pub fn run(&mut self, e: Option<&mut Env>, trns: &[Trn]) -> Result<Vec<Trn>, Stop> {
        let mut out = trns.to_vec();
        let mut states = Vec::new();
        for t in &mut out {
            for i in 0..t.posts.len() {
                self.chain("start", t, i, 0, &mut states)?;
            }
        }
        if let Some(e) = e {
            for s in states {
                e.transition();
                e.state(&s);
            }
        }
        Ok(out)
    }

    fn chain(&mut self, name: &str, t: &mut Trn, i: usize, depth: usize, st: &mut Vec<u64>) -> Result<(), Stop> {
        self.max_depth = self.max_depth.max(depth);
        if depth > 600 {
            return Err(Stop::Endless);
        }
        let rules = self.chains[name];
        for (n, r) in rules.iter().enumerate() {
            self.steps += 1;
            if self.steps > 2_000_000 {
                return Err(Stop::Endless);
            }
            if st.len() < 64 {
                st.push(crate::ctx::hash_of(&(name, n, i, &*t)));
            }
            if r.pred.test(t, &t.posts[i]) {
                self.fired.insert((name.to_string(), n));
                self.act(&r.act, t, i, depth, st)?;
                if r.ret {
                    break;
                }
            }
        }
        Ok(())
    }

    fn act(&mut self, a: &Act, t: &mut Trn, i: usize, depth: usize, st: &mut Vec<u64>) -> Result<(), Stop> {
        let c = &mut t.posts[i].c;
        match a {
            Act::AddFlag(s) => {
                c.flags.insert(s.clone());
            }
            Act::AddValue(k, v) => {
                c.kv.insert(k.clone(), v.clone());
            }
            Act::AddTFlag(s) => {
                t.c.flags.insert(s.clone());
            }
            Act::AddTValue(k, v) => {
                t.c.kv.insert(k.clone(), v.clone());
            }
            Act::All(v) => {
                for x in v {
                    self.act(x, t, i, depth, st)?;
                }
            }
            Act::Error(_) => return Err(Stop::Error),
            Act::Noop => {}
            Act::Jump(s) => self.chain(s, t, i, depth + 1, st)?,
            Act::SetAccount(s) => t.posts[i].acct = s.clone(),
            Act::DelFlag(s) => {
                c.flags.remove(s);
            }
            Act::DelValue(s) => {
                c.kv.remove(s);
            }
            Act::DelTFlag(s) => {
                t.c.flags.remove(s);
            }
            Act::DelTValue(s) => {
                t.c.kv.remove(s);
            }
            Act::ReplaceDesc(r, s) => t.desc = replace(r, s, &t.desc),
        }
        Ok(())
    }
}
