//! Reference model of merging (README "Matching algorithm"), running the real merge, and comparing
//! one aspect of the result per property.

use crate::ctx::{fail, Env, Fail, R};
use crate::ensure;
use crate::journal::*;
use crate::sut::Out;
use std::collections::{BTreeMap, BTreeSet};

pub type Files = Vec<(String, Vec<Trn>)>;

pub fn name(i: usize) -> String {
    format!("in{:02}.journal", i)
}

pub fn files(js: Vec<Vec<Trn>>) -> Files {
    js.into_iter().enumerate().map(|(i, j)| (name(i), j)).collect()
}

// ---------------------------------------------------------------------------------------------
// Reference model.

#[derive(Clone, Debug)]
pub struct MPost {
    pub trn: usize,
    pub post: Post,
}

#[derive(Clone, Debug)]
pub struct MTrn {
    pub head: Trn,
    pub posts: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Un {
    pub trn: Trn,
    /// Per posting: the fingerprints of each candidate.
    pub cands: Vec<Vec<BTreeSet<String>>>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub trns: Vec<MTrn>,
    pub posts: Vec<MPost>,
    pub unmerged: Vec<Un>,
}

enum Act {
    New,
    Into(usize),
    Ambiguous(Vec<usize>),
}

pub fn soft_match(a: &Post, b: &Post) -> bool {
    (a.unknown() || b.unknown() || a.acct == b.acct)
        && a.amt == b.amt
        && match (&a.bal, &b.bal) {
            (Some(x), Some(y)) => x == y,
            _ => true,
        }
}

/// Merges `src` into `dest`, field by field.
pub fn fold_post(dest: &mut Post, src: &Post) {
    dest.st = match (dest.st, src.st) {
        (St::None, s) => s,
        (St::Pend, St::Clr) => St::Clr,
        (d, _) => d,
    };
    if dest.bal.is_none() {
        dest.bal = src.bal.clone();
    }
    if dest.unknown() && !src.unknown() {
        dest.acct = src.acct.clone();
        dest.c.flags.remove(UNKNOWN);
    }
    for f in &src.c.flags {
        if f != UNKNOWN {
            dest.c.flags.insert(f.clone());
        }
    }
    for (k, v) in &src.c.kv {
        dest.c.kv.insert(k.clone(), v.clone());
    }
    for l in &src.c.lines {
        if !dest.c.lines.contains(l) {
            dest.c.lines.push(l.clone());
        }
    }
}

impl Model {
    fn find(&self, date: &str, p: &Post) -> Result<Act, &'static str> {
        let fps = p.fps();
        let by_fp: Vec<usize> =
            (0..self.posts.len()).filter(|i| !self.posts[*i].post.fps().is_disjoint(&fps)).collect();
        match by_fp.len() {
            0 => {}
            1 => return Ok(Act::Into(by_fp[0])),
            _ => return Err("fingerprints match several existing postings"),
        }
        let soft: Vec<usize> = (0..self.posts.len())
            .filter(|i| self.trns[self.posts[*i].trn].head.date == date && soft_match(&self.posts[*i].post, p))
            .collect();
        Ok(match soft.len() {
            0 => Act::New,
            1 => Act::Into(soft[0]),
            _ => Act::Ambiguous(soft),
        })
    }

    pub fn group(&mut self, src: &[Trn]) -> Result<(), &'static str> {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut plan = Vec::new();
        for t in src {
            let mut acts = Vec::new();
            for p in &t.posts {
                if p.c.flags.iter().any(|f| f.starts_with("candidate-")) {
                    return Err("candidate tag");
                }
                let fps = p.fps();
                if fps.is_empty() {
                    return Err("no fingerprint tag");
                }
                for f in fps {
                    if !seen.insert(f) {
                        return Err("fingerprint twice in a source");
                    }
                }
                acts.push(self.find(&t.date, p)?);
            }
            if !acts.iter().any(|a| matches!(a, Act::Ambiguous(_))) {
                let dests: BTreeSet<usize> = acts
                    .iter()
                    .filter_map(|a| match a {
                        Act::Into(i) => Some(self.posts[*i].trn),
                        _ => None,
                    })
                    .collect();
                if dests.len() > 1 {
                    return Err("transaction matches several existing transactions");
                }
            }
            plan.push((t, acts));
        }
        let mut targets = BTreeSet::new();
        for (_, acts) in &plan {
            if acts.iter().any(|a| matches!(a, Act::Ambiguous(_))) {
                continue;
            }
            for a in acts {
                if let Act::Into(i) = a {
                    if !targets.insert(*i) {
                        return Err("several input postings match the same posting");
                    }
                }
            }
        }
        for (t, acts) in plan {
            if t.posts.is_empty() || acts.iter().any(|a| matches!(a, Act::Ambiguous(_))) {
                let cands = acts
                    .iter()
                    .map(|a| match a {
                        Act::Ambiguous(v) => v.iter().map(|i| self.posts[*i].post.fps()).collect(),
                        _ => Vec::new(),
                    })
                    .collect();
                self.unmerged.push(Un { trn: t.clone(), cands });
                continue;
            }
            let dest = acts.iter().find_map(|a| match a {
                Act::Into(i) => Some(self.posts[*i].trn),
                _ => None,
            });
            let dest = dest.unwrap_or_else(|| {
                let mut head = t.clone();
                head.posts.clear();
                head.c.kv.remove(SRC);
                self.trns.push(MTrn { head, posts: Vec::new() });
                self.trns.len() - 1
            });
            for (p, a) in t.posts.iter().zip(acts) {
                match a {
                    Act::Into(i) => fold_post(&mut self.posts[i].post, p),
                    _ => {
                        self.posts.push(MPost { trn: dest, post: p.clone() });
                        let n = self.posts.len() - 1;
                        self.trns[dest].posts.push(n);
                    }
                }
            }
        }
        Ok(())
    }

    pub fn file(&mut self, name: &str, trns: &[Trn]) -> Result<(), &'static str> {
        for g in groups(name, trns) {
            self.group(&g)?;
        }
        Ok(())
    }

    /// Identifies the state: the journal so far, and what is unmerged.
    pub fn digest(&self) -> u64 {
        let un: Vec<(&Trn, &Vec<Vec<BTreeSet<String>>>)> = self.unmerged.iter().map(|u| (&u.trn, &u.cands)).collect();
        crate::ctx::hash_of(&(self.merged(), un))
    }

    pub fn merged(&self) -> Vec<Trn> {
        let mut v: Vec<Trn> = self
            .trns
            .iter()
            .map(|t| {
                let mut x = t.head.clone();
                x.posts = t.posts.iter().map(|i| self.posts[*i].post.clone()).collect();
                x
            })
            .collect();
        v.sort_by(|a, b| a.date.cmp(&b.date));
        v
    }
}

/// The transactions of a file by source, in order of the source names, with their source tags.
pub fn groups(name: &str, trns: &[Trn]) -> Vec<Vec<Trn>> {
    let mut m: BTreeMap<String, Vec<Trn>> = BTreeMap::new();
    for t in trns {
        let mut t = t.clone();
        let s = t.c.kv.entry(SRC.into()).or_insert_with(|| format!("{:?}", name)).clone();
        m.entry(s).or_default().push(t);
    }
    m.into_values().collect()
}

pub fn model(fs: &Files) -> Result<Model, &'static str> {
    let mut m = Model::default();
    for (n, j) in fs {
        m.file(n, j)?;
    }
    Ok(m)
}

/// As `model`, recording the states and steps of the model.
pub fn model_steps(e: &mut Env, fs: &Files) -> Result<Model, &'static str> {
    let mut m = Model::default();
    for (n, j) in fs {
        for g in groups(n, j) {
            e.transition();
            m.group(&g)?;
            e.state(&m.digest());
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------------------
// Running the real merge.

pub struct Res {
    pub out: Out,
    pub merged_text: Option<String>,
    pub unmerged_text: Option<String>,
}

pub fn put_files(e: &mut Env, fs: &Files) {
    for (n, j) in fs {
        e.sut.put(n, render(j));
    }
}

pub fn run_merge(e: &mut Env, names: &[&str], out: &str, un: Option<&str>) -> Res {
    e.sut.rm(out);
    if let Some(u) = un {
        e.sut.rm(u);
    }
    let mut args = vec!["merge", "-o", out];
    if let Some(u) = un {
        args.extend(["-u", u]);
    }
    args.extend(names);
    let o = e.sut.run(&args);
    Res {
        out: o,
        merged_text: e.sut.get_str(out),
        unmerged_text: un.and_then(|u| e.sut.get_str(u)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Conserve,
    Struct,
    Fields,
    Accept,
    Order,
    Source,
}

pub fn text_of(fs: &Files) -> String {
    fs.iter().map(|(n, j)| format!("--- {}\n{}", n, render(j))).collect::<Vec<_>>().join("\n")
}

pub fn show(ts: &[Trn]) -> String {
    render(ts)
}

/// Merges `fs` with the model and the real program and compares the given aspects.
pub fn check(e: &mut Env, fs: &Files, aspects: &[Aspect]) -> Result<Option<(String, Option<String>)>, Fail> {
    put_files(e, fs);
    check_put(e, fs, aspects)
}

pub fn check_put(e: &mut Env, fs: &Files, aspects: &[Aspect]) -> Result<Option<(String, Option<String>)>, Fail> {
    let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
    let r = run_merge(e, &names, "out.journal", Some("un.journal"));
    let m = model_steps(e, fs);
    e.validated();
    let ctx = |what: &str| {
        format!(
            "{}\nresult: {}\ninputs:\n{}\nmerged:\n{}\nunmerged:\n{}",
            what,
            r.out.short(),
            text_of(fs),
            r.merged_text.as_deref().unwrap_or("(none)"),
            r.unmerged_text.as_deref().unwrap_or("(none)")
        )
    };
    let has = |a: Aspect| aspects.contains(&a);
    e.case(
        fs.iter().map(|f| f.1.len()).sum::<usize>() > 1,
        &fs.iter().map(|f| &f.1).collect::<Vec<_>>(),
    );
    e.sample(|| format!("{}=> {:?}", text_of(fs), m.as_ref().map(|m| m.unmerged.len())));
    if !r.out.orderly() {
        return fail("disorderly", ctx("merge did not end in an orderly way"));
    }
    match &m {
        Err(why) => {
            e.outcome(why);
            if has(Aspect::Accept) {
                ensure!(r.out.failed(), "conflict accepted", "{}", ctx(&format!("conflict not refused: {}", why)));
                ensure!(
                    r.merged_text.is_none() && r.unmerged_text.is_none(),
                    "output of failed merge",
                    "{}",
                    ctx("a refused merge wrote output")
                );
            }
        }
        Ok(m) => {
            e.outcome(if m.unmerged.is_empty() { "all merged" } else { "some unmerged" });
            if has(Aspect::Accept) || has(Aspect::Struct) {
                ensure!(r.out.ok(), "well-formed input refused", "{}", ctx("merge of well-formed input failed"));
            }
        }
    }
    if !r.out.ok() {
        return Ok(None);
    }
    let Some(mt) = r.merged_text.clone() else {
        return fail("no output", ctx("merge succeeded without writing its output"));
    };
    let merged = match parse(&mt) {
        Ok(x) => x,
        Err(x) => return fail("unreadable output", ctx(&format!("merged output cannot be read: {}", x))),
    };
    let unmerged = match parse(r.unmerged_text.as_deref().unwrap_or("")) {
        Ok(x) => x,
        Err(x) => return fail("unreadable output", ctx(&format!("unmerged output cannot be read: {}", x))),
    };
    if has(Aspect::Conserve) {
        conserve(fs, &merged, &unmerged).map_err(|f| Fail { msg: ctx(&f.msg), ..f })?;
    }
    if has(Aspect::Source) {
        sources(fs, &merged, &unmerged).map_err(|f| Fail { msg: ctx(&f.msg), ..f })?;
    }
    if let Ok(m) = &m {
        if has(Aspect::Struct) {
            structure(m, &merged, &unmerged).map_err(|f| Fail { msg: ctx(&f.msg), ..f })?;
        }
        if has(Aspect::Fields) {
            fields(fs, &merged, &unmerged).map_err(|f| Fail { msg: ctx(&f.msg), ..f })?;
        }
        if has(Aspect::Order) {
            order(fs, &merged, &unmerged).map_err(|f| Fail { msg: ctx(&f.msg), ..f })?;
        }
    }
    Ok(Some((mt, r.unmerged_text)))
}

/// The input transactions in the order in which merging introduces them.
pub fn processing_order(fs: &Files) -> Vec<Trn> {
    fs.iter().flat_map(|(n, j)| groups(n, j).into_iter().flatten()).collect()
}

fn sig(t: &Trn) -> Vec<BTreeSet<String>> {
    t.posts.iter().map(|p| p.fps()).collect()
}

/// Which input transactions went unmerged; None where identical ones did both.
fn split_unmerged(inputs: &[Trn], unmerged: &[Trn]) -> Result<Vec<Option<bool>>, Fail> {
    let mut n_in: BTreeMap<Vec<BTreeSet<String>>, usize> = BTreeMap::new();
    let mut n_un: BTreeMap<Vec<BTreeSet<String>>, usize> = BTreeMap::new();
    for t in inputs {
        *n_in.entry(sig(t)).or_default() += 1;
    }
    for t in unmerged {
        *n_un.entry(sig(t)).or_default() += 1;
    }
    for (s, k) in &n_un {
        let n = n_in.get(s).copied().unwrap_or(0);
        ensure!(
            *k <= n,
            "unmerged transaction is not an input transaction",
            "unmerged output has {} transactions with postings {:?}, the input {}",
            k,
            s,
            n
        );
    }
    Ok(inputs
        .iter()
        .map(|t| {
            let k = n_un.get(&sig(t)).copied().unwrap_or(0);
            if k == 0 {
                Some(false)
            } else if k == n_in[&sig(t)] {
                Some(true)
            } else {
                None
            }
        })
        .collect())
}

fn conserve(fs: &Files, merged: &[Trn], unmerged: &[Trn]) -> R {
    let inputs = processing_order(fs);
    let un = split_unmerged(&inputs, unmerged)?;
    let outs: Vec<&Post> = merged.iter().flat_map(|t| &t.posts).collect();
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    for (i, p) in outs.iter().enumerate() {
        ensure!(!p.fps().is_empty(), "output posting without fingerprint", "a merged posting has no fingerprint: {:?}", p);
        for f in p.fps() {
            ensure!(
                owner.insert(f.clone(), i).is_none(),
                "fingerprint on two postings",
                "fingerprint {} is on two merged postings",
                f
            );
        }
    }
    let mut first: Vec<Option<&Post>> = vec![None; outs.len()];
    let mut unsure = vec![false; outs.len()];
    let mut got: Vec<BTreeSet<String>> = vec![BTreeSet::new(); outs.len()];
    for (t, un) in inputs.iter().zip(&un) {
        for p in &t.posts {
            let owners: BTreeSet<Option<usize>> = p.fps().iter().map(|f| owner.get(f).copied()).collect();
            if *un == Some(true) {
                continue;
            }
            ensure!(
                owners.len() == 1 && owners.iter().all(|o| o.is_some()),
                "posting lost",
                "input posting {} is not represented by exactly one merged posting",
                p.fps().iter().cloned().collect::<Vec<_>>().join(" ")
            );
            let o = owners.into_iter().next().unwrap().unwrap();
            got[o].extend(p.fps());
            if un.is_none() {
                unsure[o] = true;
            }
            if first[o].is_none() {
                first[o] = Some(p);
            }
        }
    }
    for (i, p) in outs.iter().enumerate() {
        ensure!(
            got[i] == p.fps(),
            "posting out of nowhere",
            "merged posting {:?} does not come from input postings with these fingerprints ({:?})",
            p.fps(),
            got[i]
        );
        if unsure[i] {
            continue;
        }
        let f = first[i].unwrap();
        ensure!(
            f.amt == p.amt,
            "amount altered",
            "posting {:?} has amount {:?}, the first input posting merged into it has {:?}",
            p.fps(),
            p.amt,
            f.amt
        );
        ensure!(f.kind == p.kind, "kind altered", "posting {:?} is {:?}, was {:?}", p.fps(), p.kind, f.kind);
    }
    // Unmerged transactions keep all of their postings, with their amounts.
    let mut pool: Vec<&Trn> = inputs.iter().collect();
    for t in unmerged {
        let pos = pool.iter().position(|x| {
            sig(x) == sig(t) && x.posts.iter().zip(&t.posts).all(|(a, b)| a.amt == b.amt && a.kind == b.kind)
        });
        match pos {
            Some(i) => {
                pool.remove(i);
            }
            None => return fail("unmerged altered", format!("unmerged transaction has other postings or amounts than its input: {:?}", sig(t))),
        }
    }
    Ok(())
}

fn sources(fs: &Files, merged: &[Trn], unmerged: &[Trn]) -> R {
    // A tag that the user gave a posting is kept as any other.
    let own: BTreeSet<&String> = fs.iter().flat_map(|f| &f.1).flat_map(|t| &t.posts).filter_map(|p| p.c.kv.get(SRC)).collect();
    for t in merged {
        ensure!(
            !t.c.kv.contains_key(SRC) && t.posts.iter().all(|p| p.c.kv.get(SRC).is_none_or(|v| own.contains(v))),
            "source tag in merged output",
            "merged transaction {:?} has a source-file tag",
            t.desc
        );
    }
    let inputs: Vec<(String, &Trn)> = fs
        .iter()
        .flat_map(|(n, j)| j.iter().map(move |t| (n.clone(), t)))
        .collect();
    let mut pool = inputs;
    for t in unmerged {
        let Some(s) = t.c.kv.get(SRC) else {
            return fail("no source tag", format!("unmerged transaction {:?} has no source-file tag", t.desc));
        };
        let pos = pool.iter().position(|(n, x)| {
            sig(x) == sig(t)
                && match x.c.kv.get(SRC) {
                    Some(v) => v == s,
                    None => s.contains(n.as_str()),
                }
        });
        match pos {
            Some(i) => {
                pool.remove(i);
            }
            None => {
                return fail(
                    "wrong source tag",
                    format!("unmerged transaction {:?} has source-file tag {:?}, which is not where it came from", t.desc, s),
                )
            }
        }
    }
    Ok(())
}

fn strip_cands(p: &Post) -> (Post, BTreeSet<String>) {
    let mut q = p.clone();
    let c: BTreeSet<String> = q.c.flags.iter().filter(|f| f.starts_with("candidate-")).cloned().collect();
    q.c.flags.retain(|f| !f.starts_with("candidate-"));
    (q, c.iter().map(|f| f["candidate-".len()..].to_string()).collect())
}

fn structure(m: &Model, merged: &[Trn], unmerged: &[Trn]) -> R {
    let key = |t: &Trn| {
        let mut v: Vec<Vec<String>> = t.posts.iter().map(|p| p.fps().into_iter().collect()).collect();
        v.sort();
        v
    };
    let mut want: Vec<_> = m.merged().iter().map(|t| (t.date.clone(), key(t))).collect();
    let mut got: Vec<_> = merged.iter().map(|t| (t.date.clone(), key(t))).collect();
    want.sort();
    got.sort();
    ensure!(
        want == got,
        "matching",
        "postings are not matched as documented; expected transactions (postings by fingerprints):\n{:?}\ngot:\n{:?}",
        want,
        got
    );
    ensure!(
        m.unmerged.len() == unmerged.len(),
        "unmerged",
        "expected {} unmerged transactions, got {}",
        m.unmerged.len(),
        unmerged.len()
    );
    let mut pool: Vec<&Trn> = unmerged.iter().collect();
    for u in &m.unmerged {
        let mut why = String::from("missing");
        let pos = pool.iter().position(|t| {
            let r = same_unmerged(u, t);
            if sig(t) == sig(&u.trn) {
                if let Err(x) = &r {
                    why = x.clone();
                }
            }
            r.is_ok()
        });
        match pos {
            Some(i) => {
                pool.remove(i);
            }
            None => {
                return fail(
                    "unmerged",
                    format!("transaction that should go unmerged unmodified apart from candidate tags: {}\n{}", why, render(&[u.trn.clone()])),
                )
            }
        }
    }
    Ok(())
}

fn same_unmerged(u: &Un, t: &Trn) -> Result<(), String> {
    let mut a = u.trn.clone();
    let mut b = t.clone();
    a.c.kv.remove(SRC);
    b.c.kv.remove(SRC);
    let mut got = Vec::new();
    for p in &mut b.posts {
        let (q, c) = strip_cands(p);
        *p = q;
        got.push(c);
    }
    if a != b {
        return Err("modified".into());
    }
    for (want, got) in u.cands.iter().zip(&got) {
        // One tag per candidate, each with a fingerprint of that candidate.
        if want.len() != got.len() {
            return Err(format!("{} candidate tags for {} candidates", got.len(), want.len()));
        }
        for c in want {
            if got.iter().filter(|g| c.contains(*g)).count() != 1 {
                return Err(format!("no candidate tag for {:?} in {:?}", c, got));
            }
        }
    }
    Ok(())
}

/// Input postings by the merged posting that represents them, in processing order.
struct Part<'a> {
    /// (merged transaction, posting) -> (input transaction number, transaction, posting)
    by_out: BTreeMap<(usize, usize), Vec<(usize, &'a Trn, &'a Post)>>,
    sure: bool,
}

fn partition<'a>(inputs: &'a [Trn], merged: &[Trn], unmerged: &[Trn]) -> Result<Part<'a>, Fail> {
    let un = split_unmerged(inputs, unmerged)?;
    let mut owner: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, t) in merged.iter().enumerate() {
        for (j, p) in t.posts.iter().enumerate() {
            for f in p.fps() {
                owner.insert(f, (i, j));
            }
        }
    }
    let mut part = Part { by_out: BTreeMap::new(), sure: un.iter().all(|u| u.is_some()) };
    for (n, (t, un)) in inputs.iter().zip(&un).enumerate() {
        if *un == Some(true) {
            continue;
        }
        for p in &t.posts {
            if let Some(o) = p.fps().iter().find_map(|f| owner.get(f)) {
                part.by_out.entry(*o).or_default().push((n, t, p));
            }
        }
    }
    Ok(part)
}

fn fields(fs: &Files, merged: &[Trn], unmerged: &[Trn]) -> R {
    let inputs = processing_order(fs);
    let part = partition(&inputs, merged, unmerged)?;
    if !part.sure {
        return Ok(());
    }
    for (i, t) in merged.iter().enumerate() {
        let mut intro: Option<(usize, &Trn)> = None;
        for (j, p) in t.posts.iter().enumerate() {
            let Some(srcs) = part.by_out.get(&(i, j)) else { continue };
            if intro.map(|x| srcs[0].0 < x.0).unwrap_or(true) {
                intro = Some((srcs[0].0, srcs[0].1));
            }
            let mut want = srcs[0].2.clone();
            for s in &srcs[1..] {
                fold_post(&mut want, s.2);
            }
            ensure!(
                want == *p,
                "field merge",
                "posting with fingerprints {:?} should be\n{:?}\nbut is\n{:?}",
                p.fps(),
                want,
                p
            );
        }
        if let Some((_, h)) = intro {
            let mut want = h.clone();
            want.c.kv.remove(SRC);
            want.posts.clear();
            let mut got = t.clone();
            got.posts.clear();
            ensure!(want == got, "transaction header", "transaction should be\n{:?}\nbut is\n{:?}", want, got);
        }
    }
    Ok(())
}

fn order(fs: &Files, merged: &[Trn], unmerged: &[Trn]) -> R {
    let inputs = processing_order(fs);
    for w in merged.windows(2) {
        ensure!(w[0].date <= w[1].date, "date order", "{} comes before {}", w[0].date, w[1].date);
    }
    let part = partition(&inputs, merged, unmerged)?;
    if part.sure {
        // Position of the first input posting of each merged posting.
        let mut flat: Vec<Vec<(usize, usize)>> = Vec::new();
        for (i, t) in merged.iter().enumerate() {
            let mut v = Vec::new();
            for j in 0..t.posts.len() {
                if let Some(s) = part.by_out.get(&(i, j)) {
                    let (n, tr, p) = s[0];
                    let k = tr.posts.iter().position(|x| std::ptr::eq(x, p)).unwrap();
                    v.push((n, k));
                }
            }
            ensure!(
                v.windows(2).all(|w| w[0] < w[1]),
                "posting order",
                "postings of {:?} are not in the order in which they were added: {:?}",
                t.desc,
                v
            );
            flat.push(v);
        }
        for i in 1..merged.len() {
            if merged[i - 1].date == merged[i].date {
                let (a, b) = (flat[i - 1].first(), flat[i].first());
                ensure!(
                    a < b || a.is_none() || b.is_none(),
                    "order of introduction",
                    "{:?} comes before {:?}, which was introduced earlier",
                    merged[i - 1].desc,
                    merged[i].desc
                );
            }
        }
    }
    // Unmerged transactions in processing order.
    let mut at = 0;
    for t in unmerged {
        match inputs[at..].iter().position(|x| sig(x) == sig(t) && x.desc == t.desc) {
            Some(p) => at += p + 1,
            None => return fail("unmerged order", format!("unmerged transaction {:?} is out of order", t.desc)),
        }
    }
    Ok(())
}
