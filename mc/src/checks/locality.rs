//! C31: unrelated transactions, files and statement parts do not influence each other. What a command makes of
//! several parts is compared with what the real command makes of each part alone.

use super::imports::{part_import, Kind3, PART_SHAPES};
use super::merging::{bal, features, fp, ops, post, trn, unk, Dig, D1, SIZES};
use super::rules::{acts, full_journal, wide};
use crate::ctx::{fail, Ctx, Env, R};
use crate::ensure;
use crate::journal::*;
use crate::rules::{Act, Chains, Pred, Rule, Sm};
use crate::sut::Mode;
use std::collections::HashMap;
use std::sync::Mutex;

fn s(x: &str) -> String {
    x.to_string()
}

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| s(x)).collect()
}

/// What a command made of its input: whether it succeeded, and the transactions in each output.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Made {
    ok: bool,
    outs: Vec<Vec<String>>,
}

/// Transactions are separated by blank lines.
fn blocks(text: &str) -> Vec<String> {
    text.split("\n\n").map(|b| b.trim_matches('\n').to_string()).filter(|b| !b.is_empty()).collect()
}

fn make(e: &mut Env, args: &[String], outs: &[&str], what: &dyn Fn() -> String) -> Result<Made, crate::ctx::Fail> {
    let in_place = outs.iter().all(|o| args.iter().any(|a| a == o)) && !args.iter().any(|a| a == "-o");
    if !in_place {
        outs.iter().for_each(|o| e.sut.rm(o));
    }
    let out = e.sut.run(&args.iter().map(String::as_str).collect::<Vec<_>>());
    ensure!(out.orderly(), "disorderly", "{}: {}", what(), out.short());
    let outs = if out.ok() { outs.iter().map(|o| blocks(&e.sut.get_str(o).unwrap_or_default())).collect() } else { vec![] };
    Ok(Made { ok: out.ok(), outs })
}

/// Runs the command on each part and on all of them; `sorted` if the order of the transactions may be another.
fn law(e: &mut Env, n: usize, sorted: bool, outs: &[&str], prep: &dyn Fn(&mut Env, &[usize]) -> Vec<String>, what: &dyn Fn() -> String) -> R {
    law_of(e, n, sorted, outs, prep, what, &|_| None)
}

/// What was made of parts alone, by a name of the part.
type Alone = Mutex<HashMap<(usize, usize, usize), Made>>;

/// Three transactions; the first two are the same in the things of a set, the last one is the first's other half.
pub fn agreeing(mask: usize, fps: bool) -> (Trn, Trn, Trn) {
    let mk = |k: usize| {
        // What is not in the set differs.
        let n = |bit: usize| if mask >> bit & 1 == 1 { 0 } else { k };
        let mut t = trn(["2020-01-01", "2020-01-02"][n(0)], ["same", "other"][n(1)], vec![]);
        t.code = Some(s(["7", "8"][n(2)]));
        t.st = [St::Clr, St::Pend][n(3)];
        t.edate = Some(s(["2020-02-01", "2020-02-02"][n(4)]));
        t.c = t.c.line(["text", "words"][n(5)]).val("k", ["1", "2"][n(5)]).flag(["x", "y"][n(5)]);
        let mut p = post(["assets:a", "assets:b"][n(6)], ["GBP1", "GBP2"][n(7)], &[]);
        p.c = p.c.line(["note", "other note"][n(8)]).val("seq", ["n-1", "n-2"][n(8)]).flag(["f", "g"][n(8)]);
        let q = post(["assets:c", "assets:d"][n(9)], ["GBP-1", "GBP-2"][n(9)], &[]);
        t.posts = vec![p, q];
        if fps {
            t.posts.iter_mut().enumerate().for_each(|(j, p)| p.c = p.c.clone().flag(&format!("fp-{}-{}", k, j)));
        }
        t
    };
    let (a, b) = (mk(0), mk(1));
    let mut last = a.clone();
    last.posts.pop();
    last.desc = s("third");
    if fps {
        last.posts[0].c.flags.remove("fp-0-0");
        last.posts[0].c = last.posts[0].c.clone().flag("fp-2-0");
    }
    (a, b, last)
}

/// As `law`; what is made of a part is asked for only once if the part has a name.
fn law_of(e: &mut Env, n: usize, sorted: bool, outs: &[&str], prep: &dyn Fn(&mut Env, &[usize]) -> Vec<String>, what: &dyn Fn() -> String, known: &dyn Fn(usize) -> Option<(&'static Alone, (usize, usize, usize))>) -> R {
    let mut want = Made { ok: true, outs: vec![vec![]; outs.len()] };
    for k in 0..n {
        let name = known(k).filter(|_| matches!(e.sut.mode, Mode::Serve));
        let before = name.and_then(|(all, name)| all.lock().unwrap().get(&name).cloned());
        let m = match before {
            Some(m) => m,
            None => {
                let args = prep(e, &[k]);
                let m = make(e, &args, outs, what)?;
                if let Some((all, name)) = name {
                    all.lock().unwrap().insert(name, m.clone());
                }
                m
            }
        };
        want.ok &= m.ok;
        for (w, o) in want.outs.iter_mut().zip(m.outs) {
            w.extend(o);
        }
    }
    let all: Vec<usize> = (0..n).collect();
    let args = prep(e, &all);
    let mut got = make(e, &args, outs, what)?;
    e.validated();
    e.transition();
    e.outcome(if want.ok { "succeeds" } else { "fails" });
    e.sample(what);
    ensure!(got.ok == want.ok, "fails together only", "each part {}, all together {}: {:?}\n{}", if want.ok { "succeeds" } else { "does not succeed" }, if got.ok { "succeed" } else { "fail" }, args, what());
    if !want.ok {
        return Ok(());
    }
    // What is not merged is in the order of its sources.
    let from = if sorted { 0 } else { 1 };
    got.outs.iter_mut().skip(from).chain(want.outs.iter_mut().skip(from)).for_each(|o| o.sort());
    if got.outs != want.outs {
        let show = |m: &Made| m.outs.iter().map(|o| o.join("\n\n")).collect::<Vec<_>>().join("\n----\n");
        return fail("another result together", format!("{:?}\n{}\ntogether:\n{}\n\neach alone:\n{}", args, what(), show(&got), show(&want)));
    }
    Ok(())
}

fn rule(pred: Pred, act: Act) -> Rule {
    Rule { pred, act, ret: false }
}

/// Rule tables: each action under three conditions, and some that jump, return and build on each other.
fn tables() -> Vec<String> {
    let mut v: Vec<Chains> = Vec::new();
    let some = Pred::Account(Sm::Contains(s("a")));
    let none = Pred::Not(Box::new(Pred::HasFlag(s("a"))));
    for a in acts() {
        for p in [Pred::True, some.clone(), none.clone()] {
            v.push(vec![(s("start"), vec![rule(p, a.clone())])]);
        }
    }
    let flag = |x: &str| Act::AddFlag(s(x));
    let has = |x: &str| Pred::HasFlag(s(x));
    v.push(vec![(s("start"), vec![rule(Pred::True, flag("n")), rule(has("n"), flag("m")), rule(has("m"), Act::DelFlag(s("n")))])]);
    v.push(vec![
        (s("start"), vec![rule(has("a"), Act::Jump(s("x"))), rule(Pred::True, flag("after"))]),
        (s("x"), vec![Rule { pred: Pred::Desc(Sm::Contains(s("shop"))), act: flag("x"), ret: true }, rule(Pred::True, flag("y"))]),
    ]);
    v.push(vec![
        (s("start"), vec![Rule { pred: has("a"), act: Act::Jump(s("x")), ret: true }, rule(Pred::True, Act::AddTFlag(s("seen")))]),
        (s("x"), vec![rule(Pred::True, Act::AddTValue(s("tk"), s("x"))), rule(has("a"), Act::DelFlag(s("a"))), rule(has("a"), Act::Error(s("no")))]),
    ]);
    v.push(vec![
        (s("start"), vec![rule(Pred::True, Act::Jump(s("x"))), rule(Pred::True, Act::Jump(s("x")))]),
        (s("x"), vec![Rule { pred: has("once"), act: flag("twice"), ret: true }, rule(Pred::True, flag("once"))]),
    ]);
    // Runs out of jumps for one of the postings.
    v.push(vec![
        (s("start"), vec![rule(has("a"), Act::Jump(s("start"))), rule(Pred::True, flag("end"))]),
    ]);
    v.push(vec![
        (s("start"), vec![rule(has("a"), Act::Jump(s("x"))), rule(Pred::True, flag("end"))]),
        (s("x"), vec![rule(Pred::True, Act::DelFlag(s("a"))), rule(Pred::True, Act::Jump(s("start")))]),
    ]);
    v.iter().map(crate::rules::ron).collect()
}

/// Rule tables that change and depend on nothing of a transaction but the posting.
fn posting_tables() -> Vec<String> {
    let mut v: Vec<Chains> = Vec::new();
    for a in acts().into_iter().filter(|a| !matches!(a, Act::AddTFlag(_) | Act::AddTValue(..) | Act::DelTFlag(_) | Act::DelTValue(_) | Act::ReplaceDesc(..))) {
        for p in [Pred::True, Pred::Account(Sm::Contains(s("a"))), Pred::Not(Box::new(Pred::HasFlag(s("a"))))] {
            v.push(vec![(s("start"), vec![rule(p, a.clone())])]);
        }
    }
    let flag = |x: &str| Act::AddFlag(s(x));
    let has = |x: &str| Pred::HasFlag(s(x));
    v.push(vec![(s("start"), vec![rule(Pred::True, flag("n")), rule(has("n"), flag("m")), rule(has("m"), Act::DelFlag(s("n")))])]);
    v.push(vec![
        (s("start"), vec![rule(has("a"), Act::Jump(s("x"))), rule(Pred::True, flag("after"))]),
        (s("x"), vec![Rule { pred: Pred::Account(Sm::Contains(s("a"))), act: flag("x"), ret: true }, rule(Pred::True, flag("y"))]),
    ]);
    v.push(vec![
        (s("start"), vec![Rule { pred: has("a"), act: Act::Jump(s("x")), ret: true }, rule(Pred::True, Act::SetAccount(s("b")))]),
        (s("x"), vec![rule(Pred::True, Act::DelFlag(s("a"))), rule(Pred::Account(Sm::Eq(s("b"))), flag("b"))]),
    ]);
    v.push(vec![(s("start"), vec![rule(has("a"), Act::Jump(s("start"))), rule(Pred::True, flag("end"))])]);
    v.iter().map(crate::rules::ron).collect()
}

fn rules_alphabet(thorough: bool) -> Vec<Trn> {
    let mut v = wide();
    v.push(trn("2020-01-01", "Shop 12 two", vec![post("assets:a", "GBP1", &[]), post("b", "GBP-1", &["x"])]));
    if thorough {
        v.extend(full_journal());
    }
    v
}

/// A transaction with a feature, and fingerprints of its own.
fn featured(k: usize, at: usize) -> Trn {
    let mut t = trn(["2020-01-10", "2020-02-10", "2021-01-10"][at % 3], "t", vec![post("assets:a", "GBP10", &[&format!("a{}", at)]), post("assets:b", "GBP-10", &[&format!("b{}", at)])]);
    let f = features();
    if k < f.len() {
        f[k].1(&mut t, 0);
    }
    t
}

/// Small merges of up to two files: the sequences of colliding journals, ambiguous ones, and conflicts.
fn merges(depth: usize) -> Vec<Vec<Vec<Trn>>> {
    let o = ops();
    let mut v: Vec<Vec<Vec<Trn>>> = Vec::new();
    if depth == 2 {
        for a in &o {
            for b in &o {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
    } else {
        v.extend(o.iter().map(|a| vec![vec![], a.clone()]));
    }
    let a = |f: &[&str]| post("assets:a", "GBP10", f);
    let one = |p: Post| vec![trn(D1, "one", vec![p])];
    // Ambiguous, in several ways.
    v.push(vec![vec![trn(D1, "t", vec![a(&["k1"]), a(&["k2"])])], one(a(&["k3"]))]);
    v.push(vec![[one(a(&["k1"])), one(unk(post("assets:u", "GBP10", &["k2"])))].concat(), vec![trn(D1, "s", vec![a(&["k3"]), post("assets:new", "GBP3", &["k4"])])]]);
    v.push(vec![vec![trn(D1, "t", vec![a(&["k1"]), a(&["k2"])])], [one(a(&["k3"])), one(a(&["k4"]))].concat()]);
    // Conflicts.
    v.push(vec![one(a(&["k1"])), one(a(&[]))]);
    v.push(vec![[one(a(&["k1"])), one(a(&["k2"]))].concat(), one(a(&["k1", "k2"]))]);
    v.push(vec![vec![], vec![trn(D1, "t", vec![a(&["k1"]), a(&["k1"])])]]);
    v.push(vec![one(bal(a(&["k1"]), "GBP5")), one(bal(a(&["k1"]), "GBP6"))]);
    v.push(vec![one(a(&["k1"])), vec![trn(D1, "t", vec![a(&["k1", "k2"]), a(&["k3"])])]]);
    v
}

/// The same merge with nothing in common with the original: other fingerprints and other dates, or other commodities.
fn apart(mut js: Vec<Vec<Trn>>, by_date: Option<(&str, &str)>) -> Vec<Vec<Trn>> {
    for t in js.iter_mut().flatten() {
        if let Some((d1, d2)) = by_date {
            t.date = s(if t.date == D1 { d1 } else { d2 });
        }
        for p in &mut t.posts {
            let f: Vec<String> = p.fps().into_iter().collect();
            for f in f {
                p.c.flags.remove(&f);
                p.c.flags.insert(fp(&format!("other-{}", &f[3..])));
            }
            if by_date.is_none() {
                p.acct = format!("z{}", p.acct);
                match &mut p.amt {
                    Some(a) => a.a.c = s("XTS"),
                    // Without an amount, postings of unknown accounts agree in everything.
                    None => p.c.flags.retain(|f| f != UNKNOWN),
                }
                if let Some(Bal::Amt(b)) = &mut p.bal {
                    b.c = s("XTS");
                }
            }
        }
    }
    js
}

fn masked(text: &str) -> String {
    // Generated fingerprints are different each time.
    let mut o = String::new();
    let mut rest = text;
    while let Some(p) = rest.find(":fp-") {
        let q = rest[p + 1..].find(':').map(|q| p + 1 + q).unwrap_or(rest.len());
        o.push_str(&rest[..p]);
        o.push_str(":fp-");
        rest = &rest[q..];
    }
    o + rest
}

pub fn c31(c: &Ctx) -> (&'static str, &'static str) {
    // Rules.
    let ts = tables();
    let al = rules_alphabet(c.thorough);
    let n = al.len();
    let deep = if c.thorough { ts.len() } else { 12 };
    for (name, len, nt) in [("rules, two transactions", 2, ts.len()), ("rules, three transactions", 3, deep)] {
        c.par(name, n.pow(len as u32) * nt, |e, i| {
            let mut g = Dig(i);
            // The last tables are those with more than one rule.
            let t = &ts[ts.len() - 1 - g.take(nt)];
            let parts: Vec<Trn> = (0..len).map(|_| g.of(&al).clone()).collect();
            e.case(true, &(len, i));
            e.state(&(t, parts.last()));
            e.sut.put("r.ron", t);
            let p = |e: &mut Env, ks: &[usize]| {
                e.sut.put("a.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
                sv(&["apply-rules", "-o", "o.journal", "a.journal", "table", "r.ron"])
            };
            law(e, len, false, &["o.journal"], &p, &|| format!("rules:\n{}\n{}", t, render(&parts)))
        });
    }
    // Texts that refer to what stands before, for people.
    let texts: Vec<String> = ["...", "..", ".", "\u{2026}", "-", "--", "\"", "''", "ditto", "Ditto", "same", "as above", "see above", "idem", "id.", "^", "~", "*", "?", "0", "x", "s", "none", "(none)", "continued", "cont.", "cont'd", "also", "and", "more", "total", "Shop"]
        .iter()
        .map(|x| s(x))
        .chain(super::merging::WORDS.iter().map(|x| s(x)))
        .collect();
    let nw = texts.len();
    c.par("rules, words", nw * 7 * 4 * 2 * 3, |e, i| {
        let mut g = Dig(i);
        let (w, place, tab, two, how) = (g.of(&texts).clone(), g.take(7), g.take(4), g.take(2) == 1, g.take(3));
        let date = ["2020-01-01", "2020-01-01", "2020-01-02"][how];
        let put = |t: &mut Trn| match place {
            0 => t.desc = w.clone(),
            1 => t.code = Some(w.clone()),
            2 => t.posts[0].acct = w.clone(),
            3 => t.posts[0].c = t.posts[0].c.clone().line(&w),
            4 => t.c = t.c.clone().line(&w),
            5 => t.c = t.c.clone().val("k", &w),
            _ => t.posts[1].c = t.posts[1].c.clone().val("k", &w),
        };
        let mut parts = vec![
            trn("2020-01-01", "Shop one", vec![post("assets:a", "GBP1", &[]), post("b", "GBP-1", &["x"])]),
            trn(date, "Two", vec![post("assets:c", "GBP3", &[]), post("d", "GBP-3", &["y"])]),
            trn(date, "Three", vec![post("assets:c", "GBP3", &[]), post("d", "GBP-3", &["z"])]),
        ];
        parts[0].code = Some(s("c1"));
        parts[0].posts[0].c = parts[0].posts[0].c.clone().val("k", "first").line("first");
        put(&mut parts[1]);
        if two {
            put(&mut parts[2]);
        }
        if how == 1 {
            parts.swap(0, 1);
        }
        // These texts in accounts and codes may be something else to the parser.
        if (place == 1 || place == 2) && parse(&render(&parts)).ok().as_ref() != Some(&parts) {
            return Ok(());
        }
        let t = &ts[[ts.len() - 1, ts.len() - 2, 0, 1][tab]];
        e.case(true, &(7, i));
        e.state(&(t, parts.last()));
        e.sut.put("r.ron", t);
        let p = |e: &mut Env, ks: &[usize]| {
            e.sut.put("a.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
            sv(&["apply-rules", "-o", "o.journal", "a.journal", "table", "r.ron"])
        };
        law(e, parts.len(), false, &["o.journal"], &p, &|| format!("rules:\n{}\n{}", t, render(&parts)))
    });
    // The same for merges.
    c.par("merges, words", nw * 6 * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (w, place, how, soft) = (g.of(&texts).clone(), g.take(6), g.take(3), g.take(2) == 1);
        let dates = [["2020-01-10"; 3], ["2020-01-10", "2020-01-11", "2020-01-12"], ["2020-01-12", "2020-01-11", "2020-01-10"]][how];
        let part = |k: usize| {
            let amt = format!("GBP{}", k + 1);
            let mut t = trn(dates[k], &format!("t{}", k), vec![post("assets:a", &amt, &[&format!("a{}", k)]), post("assets:b", &format!("GBP-{}", k + 1), &[&format!("b{}", k)])]);
            let mut o = trn(dates[k], &format!("o{}", k), vec![post("assets:a", &amt, &[&format!("{}{}", if soft { "n" } else { "a" }, k)])]);
            if k > 0 {
                for t in [&mut t, &mut o] {
                    match place {
                        0 => t.desc = w.clone(),
                        1 => t.c = t.c.clone().line(&w),
                        2 => t.c = t.c.clone().val("k", &w),
                        3 => t.posts[0].c = t.posts[0].c.clone().line(&w),
                        4 => t.posts[0].c = t.posts[0].c.clone().val(&w, "1"),
                        _ => t.posts[0].c = t.posts[0].c.clone().flag(&w.replace(['(', ')', ' '], "")),
                    }
                }
            }
            [t, o]
        };
        let parts = [part(0), part(1), part(2)];
        if parse(&render(&parts.concat())).ok() != Some(parts.concat()) {
            return Ok(());
        }
        e.case(true, &(8, i));
        e.state(&(place, how, soft));
        let p = |e: &mut Env, ks: &[usize]| {
            for f in 0..2 {
                e.sut.put(["a.journal", "b.journal"][f], render(&ks.iter().map(|k| parts[*k][f].clone()).collect::<Vec<_>>()));
            }
            sv(&["merge", "-o", "o.journal", "-u", "u.journal", "a.journal", "b.journal"])
        };
        law(e, 3, true, &["o.journal", "u.journal"], &p, &|| render(&parts.concat()))
    });
    // Within a transaction: rules that change nothing of it treat each posting as if it were the only one.
    let pt = posting_tables();
    let mut palpha = vec![post("assets:a", "GBP1", &[]), post("b", "GBP-1", &["x"]), post("assets:b", "", &[])];
    palpha[1].c.flags.insert("a".into());
    palpha[2].c.kv.insert("k".into(), "v".into());
    palpha[2].c.lines.push("text".into());
    let mut lists: Vec<(usize, usize)> = Vec::new();
    for len in 2..=if c.thorough { 6 } else { 4 } {
        lists.extend((0..palpha.len().pow(len as u32)).map(|k| (k, len)));
    }
    // Many alike, with another one among them.
    let longs: Vec<(usize, usize, usize)> = [9usize, 17, 33, 65, 129].iter().flat_map(|n| (0..9).flat_map(move |k| [0, n / 2, n - 1].map(|p| (*n, k, p)))).collect();
    c.par("rules, postings of a transaction", pt.len() * (lists.len() + longs.len()), |e, i| {
        let mut g = Dig(i);
        let t = g.of(&pt);
        let ks: Vec<usize> = if g.0 < lists.len() {
            let (k, len) = lists[g.0];
            let mut h = Dig(k);
            (0..len).map(|_| h.take(palpha.len())).collect()
        } else {
            let (n, k, p) = longs[g.0 - lists.len()];
            (0..n).map(|q| if q == p { k / 3 } else { k % 3 }).collect()
        };
        e.case(true, &i);
        e.state(&(t, &ks));
        e.sut.put("r.ron", t);
        let once = |e: &mut Env, ks: &[usize]| -> Result<Option<Vec<Post>>, crate::ctx::Fail> {
            e.sut.put("a.journal", render(&[trn("2020-01-01", "Shop", ks.iter().map(|k| palpha[*k].clone()).collect())]));
            e.sut.rm("o.journal");
            let out = e.sut.run(&["apply-rules", "-o", "o.journal", "a.journal", "table", "r.ron"]);
            ensure!(out.orderly(), "disorderly", "{}\n{}", out.short(), t);
            if !out.ok() {
                return Ok(None);
            }
            let o = e.sut.get_str("o.journal").unwrap_or_default();
            match parse(&o) {
                Ok(v) if v.len() == 1 => Ok(Some(v.into_iter().next().unwrap().posts)),
                _ => fail("another result together", format!("not one transaction:\n{}\nrules:\n{}", o, t)),
            }
        };
        let each: Vec<Option<Vec<Post>>> = (0..palpha.len()).map(|k| once(e, &[k])).collect::<Result<_, _>>()?;
        let all = once(e, &ks)?;
        e.validated();
        e.transition();
        let want: Option<Vec<Post>> = ks.iter().map(|k| each[*k].clone()).collect::<Option<Vec<_>>>().map(|v| v.concat());
        e.outcome(if want.is_some() { "succeeds" } else { "fails" });
        ensure!(want == all, "another result together", "rules:\n{}\npostings {:?} of {:#?}:\ntogether: {:#?}\neach alone: {:#?}", t, ks, palpha, all, want);
        Ok(())
    });
    // Formatting: two transactions in one file, and in files of their own.
    let nf = features().len() + 1;
    c.par("fmt, two transactions", nf * nf * 2, |e, i| {
        let mut g = Dig(i);
        let (a, b, two) = (g.take(nf), g.take(nf), g.take(2) == 1);
        let parts = [featured(a, 0), featured(b, 1)];
        e.case(true, &i);
        e.state(&(b, two));
        let p = |e: &mut Env, ks: &[usize]| {
            let mut args = sv(&["fmt"]);
            for f in ["x.journal", "y.journal"] {
                e.sut.put(f, "");
            }
            if two {
                for k in ks {
                    e.sut.put(["x.journal", "y.journal"][*k], render(&[parts[*k].clone()]));
                }
                args.extend(sv(&["x.journal", "y.journal"]));
            } else {
                e.sut.put("x.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
                args.push(s("x.journal"));
            }
            args
        };
        law(e, 2, false, if two { &["x.journal", "y.journal"] } else { &["x.journal"] }, &p, &|| render(&parts))
    });
    // A transaction with two features, on all of its postings, before or after a plain one.
    let fs = features();
    c.par("two features in one of two transactions", nf * nf * 3, |e, i| {
        let mut g = Dig(i);
        let (a, b, how) = (g.take(nf), g.take(nf), g.take(3));
        if a > b {
            return Ok(());
        }
        let mut t = featured(nf, 0);
        for k in [a, b] {
            if k < fs.len() {
                (0..t.posts.len()).for_each(|p| fs[k].1(&mut t, p));
            }
        }
        let parts = if how == 1 { [featured(nf, 1), t] } else { [t, featured(nf, 1)] };
        e.case(true, &(31, i));
        e.state(&(a, b, how));
        e.sut.put("r2.ron", "[Chain(\"start\", [Rule(predicate: True, action: All([AddPostingFlagTag(\"seen\"), AddTransactionFlagTag(\"seen\")]), result: Continue)])]");
        let p = |e: &mut Env, ks: &[usize]| {
            e.sut.put("x.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
            if how < 2 {
                sv(&["apply-rules", "-o", "o.journal", "x.journal", "table", "r2.ron"])
            } else {
                sv(&["fmt", "x.journal"])
            }
        };
        law(e, 2, false, if how < 2 { &["o.journal"] } else { &["x.journal"] }, &p, &|| render(&parts))
    });
    // Generated fingerprints.
    c.par("generate-fingerprints, two transactions", nf * nf * 2, |e, i| {
        let mut g = Dig(i);
        let (a, b, some) = (g.take(nf), g.take(nf), g.take(2) == 1);
        let mut parts = [featured(a, 0), featured(b, 1)];
        for p in parts.iter_mut().flat_map(|t| &mut t.posts).step_by(if some { 2 } else { 1 }) {
            p.c.flags.retain(|f| !f.starts_with("fp-"));
        }
        e.case(true, &i);
        e.state(&(b, some));
        let mut texts = Vec::new();
        for ks in [&[0usize][..], &[1], &[0, 1]] {
            e.sut.put("x.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
            let o = e.sut.run(&["generate-fingerprints", "x.journal"]);
            ensure!(o.ok(), "fails", "{}\n{}", render(&parts), o.short());
            texts.push(masked(&e.sut.get_str("x.journal").unwrap_or_default()));
        }
        e.validated();
        e.transition();
        let want = [blocks(&texts[0]), blocks(&texts[1])].concat();
        ensure!(blocks(&texts[2]) == want, "another result together", "together:\n{}\neach alone:\n{}\n{}", texts[2], texts[0], texts[1]);
        Ok(())
    });
    // Transactions that are the same in some things.
    let rules = "[Chain(\"start\", [Rule(predicate: PostingHasFlagTag(\"f\"), action: All([SetAccount(\"assets:f\"), AddPostingFlagTag(\"g\")]), result: Continue), Rule(predicate: TransactionDescription(Matches(\"same\")), action: ReplaceTransactionDescription(RegexReplace(regex: \"sa\", replacement: \"la\")), result: Return)])]";
    c.par("same in some things", (1 << 10) * 3, |e, i| {
        let mut g = Dig(i);
        let (cmd, mask) = (g.take(3), g.0);
        let (a, b, t) = agreeing(mask, cmd != 1);
        let parts = [a, b, t];
        e.case(true, &("same", i));
        e.state(&(cmd, mask));
        if cmd == 1 {
            let mut texts = Vec::new();
            for ks in [&[0usize][..], &[1], &[2], &[0, 1, 2]] {
                e.sut.put("x.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
                let o = e.sut.run(&["generate-fingerprints", "x.journal"]);
                ensure!(o.ok(), "fails", "{}\n{}", render(&parts), o.short());
                texts.push(masked(&e.sut.get_str("x.journal").unwrap_or_default()));
            }
            e.validated();
            e.transition();
            let want = [blocks(&texts[0]), blocks(&texts[1]), blocks(&texts[2])].concat();
            ensure!(blocks(&texts[3]) == want, "another result together", "together:\n{}\neach alone:\n{}\n{}\n{}", texts[3], texts[0], texts[1], texts[2]);
            return Ok(());
        }
        let p = |e: &mut Env, ks: &[usize]| {
            e.sut.put("x.journal", render(&ks.iter().map(|k| parts[*k].clone()).collect::<Vec<_>>()));
            if cmd == 0 {
                return sv(&["fmt", "x.journal"]);
            }
            e.sut.put("r.ron", rules);
            sv(&["apply-rules", "-o", "o.journal", "x.journal", "table", "r.ron"])
        };
        law(e, 3, false, if cmd == 0 { &["x.journal"] } else { &["o.journal"] }, &p, &|| render(&parts))
    });
    // Merges.
    let (la, lb) = (merges(2), merges(if c.thorough { 2 } else { 1 }));
    // How far away: by units of the calendar, by days in powers of two, and with day and month exchanged.
    let dates = [
        ("2021-01-10", "2021-01-11"),
        ("2020-01-12", "2020-01-13"),
        ("2020-01-17", "2020-01-18"),
        ("2020-02-10", "2020-02-11"),
        ("2020-10-01", "2020-11-01"),
        ("2021-01-09", "2021-01-10"),
        ("2024-01-10", "2024-01-11"),
        ("2048-01-10", "2048-01-11"),
        ("2120-01-10", "2120-01-11"),
        ("2420-01-10", "2420-01-11"),
        ("2020-09-22", "2020-09-23"),
        ("2031-03-29", "2031-03-30"),
        ("2109-09-28", "2109-09-29"),
        ("2199-06-16", "2199-06-17"),
        ("2019-01-10", "2019-01-11"),
        ("2020-01-08", "2020-01-09"),
        ("1020-01-10", "1020-01-11"),
    ];
    let small = merges(1);
    for (name, la, lb, nd) in [("merges on other dates", &la, &lb, 1), ("merges of the same dates", &la, &lb, 0), ("merges at all distances", &small, &small, dates.len())] {
        c.par(name, la.len() * lb.len() * nd.max(1) * 2, |e, i| {
            let mut g = Dig(i);
            let (a, b, swap) = (g.of(la), g.of(lb), g.take(2) == 1);
            let by_date = if nd > 0 { Some(dates[g.0]) } else { None };
            let other = apart(if swap { a.clone() } else { b.clone() }, by_date);
            let parts = [if swap { b } else { a }, &other];
            e.case(true, &(name, i));
            e.state(&(by_date, &other));
            let p = |e: &mut Env, ks: &[usize]| {
                for f in 0..2 {
                    // The files also differ in which part comes first.
                    let mut ts: Vec<Vec<Trn>> = ks.iter().map(|k| parts[*k][f].clone()).collect();
                    if i % 3 == f {
                        ts.reverse();
                    }
                    e.sut.put(["a.journal", "b.journal"][f], render(&ts.concat()));
                }
                sv(&["merge", "-o", "o.journal", "-u", "u.journal", "a.journal", "b.journal"])
            };
            // Within a date, and for what is not merged, the order is that of the files.
            law(e, 2, by_date.is_none() || by_date.unwrap().0 < D1 || i % 3 < 2, &["o.journal", "u.journal"], &p, &|| parts.iter().map(|p| p.iter().map(|j| render(j)).collect::<Vec<_>>().join("--\n")).collect::<Vec<_>>().join("==== and\n"))
        });
    }
    // Statements.
    for (kind, name, variants) in [(Kind3::Csv, "nationwide-csv", 8), (Kind3::Pp, "paypal-csv", if c.thorough { 20 } else { 10 }), (Kind3::Pdf, "nationwide-pdf", 3)] {
        let alone: &'static Alone = Box::leak(Box::default());
        c.par(&format!("{}, three parts", name), PART_SHAPES.pow(3) * variants, |e, i| {
            let mut g = Dig(i);
            let v = g.take(variants);
            let parts: Vec<(usize, usize)> = (0..3).map(|p| (p, g.take(PART_SHAPES))).collect();
            e.case(true, &(name, i));
            e.state(&(name, v, parts[2]));
            let p = |e: &mut Env, ks: &[usize]| {
                let mut a = sv(&["import", "-o", "o.journal"]);
                a.extend(part_import(c, e, kind, v, &ks.iter().map(|k| parts[*k]).collect::<Vec<_>>()));
                a
            };
            law_of(e, 3, false, &["o.journal"], &p, &|| format!("{:?} of parts {:?}", kind, parts), &|k| Some((alone, (v, parts[k].0, parts[k].1))))
        });
    }
    // Anywhere among many others.
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= if c.thorough { 258 } else { 130 }).collect();
    c.par("one among many", sizes.len() * 5 * 4 * 3 * 3, |e, i| {
        let mut g = Dig(i);
        let (n, kind, what, at, table) = (*g.of(&sizes), g.take(5), g.take(4), g.take(3), g.take(3));
        if kind != 1 && table > 0 {
            return Ok(());
        }
        let filler = |k: usize| {
            let mut t = featured(k % nf, k);
            t.date = format!("20{:02}-{:02}-{:02}", 22 + k / 336, 1 + k / 28 % 12, 1 + k % 28);
            t.posts[0].acct += &format!("{}", k);
            t
        };
        let mut t = featured([0, 7, 20, 40][what], 9999);
        t.date = [s("2019-05-05"), filler(n / 2).date, s("2099-05-05")][at].clone();
        t.posts[0].amt = Some(pamt("XTS1"));
        t.posts[1].amt = Some(pamt("XTS-1"));
        let others: Vec<Trn> = (0..n).map(filler).collect();
        e.case(true, &i);
        e.state(&(kind, n));
        e.sut.put("r.ron", &ts[ts.len() - [1, 3, 5][table]]);
        let p = |e: &mut Env, ks: &[usize]| {
            let mut v = Vec::new();
            if ks.contains(&0) {
                v.extend(others.clone());
            }
            if ks.contains(&1) {
                let p = [0, v.len() / 2, v.len()][at];
                v.insert(p, t.clone());
            }
            match kind {
                0 => {
                    e.sut.put("o.journal", render(&v));
                    sv(&["fmt", "o.journal"])
                }
                1 => {
                    e.sut.put("a.journal", render(&v));
                    sv(&["apply-rules", "-o", "o.journal", "a.journal", "table", "r.ron"])
                }
                2 => {
                    e.sut.put("a.journal", render(&v));
                    sv(&["merge", "-o", "o.journal", "a.journal"])
                }
                3 => {
                    e.sut.put("a.journal", render(&v));
                    let mut w = v.clone();
                    w.iter_mut().flat_map(|t| &mut t.posts).for_each(|p| {
                        let f: Vec<String> = p.fps().into_iter().collect();
                        p.c.flags.extend(f.iter().map(|f| format!("{}-again", f)));
                    });
                    e.sut.put("b.journal", render(&w));
                    sv(&["merge", "-o", "o.journal", "a.journal", "b.journal"])
                }
                _ => {
                    e.sut.put("o.journal", render(&v));
                    sv(&["generate-fingerprints", "o.journal"])
                }
            }
        };
        law(e, 2, true, &["o.journal"], &p, &|| format!("{} other transactions and, at place {},\n{}", n, at, render(&[t.clone()])))
    });
    c.assume("parts are unrelated if they share no fingerprint and differ in date or in commodity (merging), or in day or moment (statements)");
    ("model_checking", "every case is a set of unrelated parts; what the real command makes of them together is compared with what it makes of each alone; a state is a table or kind of command with the last part, distinct by parts")
}
