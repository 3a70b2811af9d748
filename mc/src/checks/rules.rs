//! C09 (evaluation), C10 (frame) and C11 (loading) of rule tables.

use super::merging::Dig;
use crate::ctx::*;
use crate::ensure;
use crate::journal::*;
use crate::rules::*;

fn s(x: &str) -> String {
    x.to_string()
}

fn po(acct: &str, a: &str, c: Comment) -> Post {
    Post { acct: s(acct), amt: (!a.is_empty()).then(|| pamt(a)), c, ..Post::default() }
}

fn tr(date: &str, desc: &str, c: Comment, posts: Vec<Post>) -> Trn {
    Trn { date: s(date), desc: s(desc), c, posts, ..Trn::default() }
}

fn cm() -> Comment {
    Comment::default()
}

/// A journal whose postings differ in everything that predicates look at.
pub fn wide() -> Vec<Trn> {
    vec![
        tr("2020-01-01", "Shop 12 two", cm(), vec![
            po("assets:a", "GBP1", cm().flag("a")),
            po("Assets:A", "GBP-1", cm().flag("A").val("k", "v")),
        ]),
        tr("2020-01-02", "the shop. one", cm().flag("t").val("tk", "tv").line("text of the transaction"), vec![
            po("assets:b", "GBP2", cm().flag("a").flag("b").val("k", "V").line("some text")),
            po("income:shop", "GBP-1", cm().val("k", "w 2").val("k2", "v")),
            po("expenses:shopping:two", "GBP-1", cm().flag("shop-flag")),
        ]),
        tr("2020-01-03", "SHOP o", cm(), vec![
            po("assets", "GBP3", cm()),
            po("assets:a:sub", "", cm().val("k", "")),
        ]),
        tr("2020-01-03", "Café", cm().line("line 1").line("line 2"), vec![
            po("a", "5 USD", cm().flag("a-long-flag-tag-name").val("shop", "shop")),
            po("é:ü", "GBP1", cm().flag("é").val("é", "Ü")),
            po("two words", "GBP-1", cm().line("only text")),
            po("É:Ü", "GBP-1", cm().flag("É").val("k", "É").val("É", "ÉÜ")),
        ]),
        tr("2020-01-03", "CAFÉ ẞ ÑANDÚ SHOP", cm(), vec![
            po("ÀB", "GBP1", cm().flag("ÀSHOP").val("k", "ЖÉ")),
            po("àb", "", cm().flag("àshop").val("k", "жé")),
        ]),
        {
            // Everything that rules do not look at.
            let mut t = tr("2020-01-06", "shop x", cm().line("shop"), vec![
                po("assets:a", "", cm().flag("a").flag("shop")),
                po("assets:a", "", cm().val("k", "v")),
                po("assets:a", "GBP10 @ USD2", cm().flag("a")),
                po("shop", "GBP0", cm()),
                po("shop", "GBP-1", cm().flag("a").line("a line").line("shop")),
                po("assets:a", "GBP79228162514264337593543950335", cm().flag("b").val("k", "v")),
            ]);
            t.st = St::Pend;
            t.edate = Some(s("2020-03-01"));
            t.code = Some(s("shop"));
            t.posts[0].st = St::Clr;
            t.posts[1].st = St::Pend;
            t.posts[1].kind = Kind::Unbal;
            t.posts[3].kind = Kind::Bal;
            t.posts[4].kind = Kind::Unbal;
            t.posts[4].st = St::Clr;
            t.posts[0].bal = Some(Bal::Amt(amt("GBP5")));
            t.posts[3].bal = Some(Bal::Zero);
            t
        },
        {
            let mut t = tr("1999-12-31", "y", cm().val("shop", "v"), vec![po("assets:a", "GBP1", cm().flag("a"))]);
            t.st = St::Clr;
            t
        },
        tr("2020-01-04", "ooo", cm().val("k", "v").flag("a"), vec![po("assets:a", "GBP1", cm())]),
        tr("2020-01-05", "x", cm(), vec![po("assets:a", "GBP7", cm().flag("a")), po("assets:a", "GBP-7", cm().flag("b"))]),
    ]
}

fn matchers() -> Vec<Sm> {
    let mut v = vec![
        Sm::Contains(s("shop")),
        Sm::Contains(s("")),
        Sm::Contains(s("a")),
        Sm::Contains(s(":")),
        Sm::Contains(s("é")),
        Sm::Contains(s("SHOP")),
        Sm::Eq(s("assets:a")),
        Sm::Eq(s("a")),
        Sm::Eq(s("v")),
        Sm::Eq(s("")),
        Sm::Eq(s("Shop 12 two")),
        Sm::Eq(s("shop o")),
        Sm::Eq(s("é:ü")),
        Sm::Eq(s("é")),
        Sm::Contains(s("É")),
        Sm::Contains(s("à")),
        Sm::Contains(s("жé")),
        Sm::Contains(s("ß ñandú")),
    ];
    v.extend(RES.iter().map(|r| Sm::Matches(*r)));
    let low: Vec<Sm> = v.iter().map(|m| Sm::Lower(Box::new(m.clone()))).collect();
    v.extend(low);
    v.push(Sm::Lower(Box::new(Sm::Lower(Box::new(Sm::Eq(s("assets:a")))))));
    v
}

pub fn preds() -> Vec<Pred> {
    let mut v = vec![Pred::True];
    for m in matchers() {
        v.push(Pred::Account(m.clone()));
        v.push(Pred::FlagTag(m.clone()));
        v.push(Pred::Desc(m.clone()));
        v.push(Pred::ValueTag(s("k"), m.clone()));
    }
    for t in ["a", "A", "b", "t", "k", "é", "a-long-flag-tag-name", "nope", ""] {
        v.push(Pred::HasFlag(s(t)));
        v.push(Pred::HasValue(s(t)));
        v.push(Pred::ValueTag(s(t), Sm::Contains(s(""))));
    }
    v.push(Pred::All(vec![]));
    v.push(Pred::Any(vec![]));
    v
}

/// A smaller set for combinations.
fn preds_small() -> Vec<Pred> {
    vec![
        Pred::True,
        Pred::Not(Box::new(Pred::True)),
        Pred::HasFlag(s("a")),
        Pred::HasFlag(s("b")),
        Pred::Account(Sm::Eq(s("assets:a"))),
        Pred::Account(Sm::Contains(s("shop"))),
        Pred::HasValue(s("k")),
        Pred::ValueTag(s("k"), Sm::Eq(s("v"))),
        Pred::Desc(Sm::Contains(s("x"))),
        Pred::Desc(Sm::Lower(Box::new(Sm::Contains(s("shop"))))),
        Pred::FlagTag(Sm::Matches(re("shop"))),
    ]
}

pub fn acts() -> Vec<Act> {
    let mut v = vec![
        Act::Noop,
        Act::All(vec![]),
        Act::Error(s("stop")),
        Act::SetAccount(s("assets:new")),
        Act::SetAccount(s("assets:a")),
        Act::SetAccount(s("two words")),
        Act::SetAccount(s("é")),
        Act::AddFlag(s("a")),
        Act::AddFlag(s("new")),
        Act::AddFlag(s("a-very-long-new-flag")),
        Act::AddValue(s("k"), s("v")),
        Act::AddValue(s("k"), s("new value")),
        Act::AddValue(s("n"), s("")),
        Act::AddTFlag(s("t")),
        Act::AddTFlag(s("a")),
        Act::AddTFlag(s("new")),
        Act::AddTValue(s("tk"), s("new value")),
        Act::AddTValue(s("k"), s("v2")),
        Act::AddTValue(s("n"), s("1")),
        Act::DelFlag(s("a")),
        Act::DelFlag(s("A")),
        Act::DelFlag(s("a-long-flag-tag-name")),
        Act::DelFlag(s("k")),
        Act::DelValue(s("k")),
        Act::DelValue(s("a")),
        Act::DelTFlag(s("t")),
        Act::DelTFlag(s("a")),
        Act::DelTValue(s("tk")),
        Act::DelTValue(s("k")),
    ];
    v.push(Act::ReplaceDesc(re(".*"), s("")));
    v.push(Act::ReplaceDesc(re("shop"), s("")));
    v.push(Act::ReplaceDesc(re(".*"), s("[${0}]")));
    for (i, r) in RES.iter().enumerate() {
        let t = ["X", "<$1>", "$0$0", "a$$", "${1}x", "[${0}]"];
        v.push(Act::ReplaceDesc(*r, s(t[i % t.len()])));
        v.push(Act::ReplaceDesc(*r, s(t[(i + 2) % t.len()])));
    }
    v
}

/// Comments in which the same name is a flag tag, a value tag, a value and text, in all combinations.
fn namesakes() -> Vec<Trn> {
    let c = |k: usize| {
        let mut c = cm();
        if k & 1 != 0 {
            c = c.flag("n");
        }
        match k >> 1 & 3 {
            1 => c = c.val("n", ""),
            2 => c = c.val("n", "n"),
            3 => c = c.val("m", "n"),
            _ => {}
        }
        match k >> 3 & 3 {
            1 => c = c.line("n"),
            2 => c = c.line("first").line("n"),
            3 => c = c.line("n n").line("N").line("n"),
            _ => {}
        }
        c
    };
    (0..32).map(|k| tr("2020-01-01", ["n", "x", "n n", "N"][k % 4], c(k), (0..32).filter(|q| q % 8 == k % 8 || k == 0).map(|q| po(["n", "a:n", "n:a", "N"][(k + q) % 4], "GBP1", c(q))).collect())).collect()
}

fn name_acts() -> Vec<Act> {
    vec![
        Act::AddFlag(s("n")),
        Act::DelFlag(s("n")),
        Act::AddTFlag(s("n")),
        Act::DelTFlag(s("n")),
        Act::AddValue(s("n"), s("n")),
        Act::AddValue(s("n"), s("")),
        Act::AddValue(s("n"), s("w")),
        Act::DelValue(s("n")),
        Act::AddTValue(s("n"), s("n")),
        Act::AddTValue(s("n"), s("w")),
        Act::DelTValue(s("n")),
        Act::SetAccount(s("n")),
        Act::ReplaceDesc(re(".*"), s("n")),
    ]
}

fn rule(pred: Pred, act: Act) -> Rule {
    Rule { pred, act, ret: false }
}

fn start(rules: Vec<Rule>) -> Chains {
    vec![(s("start"), rules)]
}

/// Runs apply-rules on the model and the program.
fn apply(e: &mut Env, chains: &Chains, input: &[Trn], nontrivial: bool) -> R {
    let text = ron(chains);
    e.sut.put("rules.ron", &text);
    let inp = render(input);
    e.sut.put("in.journal", &inp);
    let mut it = Interp::new(chains);
    let want = it.run(Some(e), input);
    // Without a description, what follows in the head of a transaction may be ambiguous, which may be refused;
    // white space around it cannot be seen.
    let blank = matches!(&want, Ok(w) if w.iter().any(|t| t.desc.is_empty() || t.desc != t.desc.trim()));
    let out = e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", "rules.ron"]);
    let got = e.sut.get_str("out.journal");
    e.case(nontrivial, &(&text, &inp));
    e.validated();
    e.sample(|| format!("{}{}", text, inp));
    let desc = |what: &str| format!("{}: {}\nrules:\n{}\ninput:\n{}\noutput:\n{}", what, out.short(), text, inp, got.as_deref().unwrap_or("(none)"));
    ensure!(out.orderly(), "disorderly", "{}", desc("apply-rules did not end in an orderly way"));
    if blank && !out.ok() {
        e.outcome("description becomes empty, refused");
        ensure!(got.is_none(), "output of failed run", "{}", desc("a failing command wrote output"));
        return Ok(());
    }
    e.outcome(match &want {
        Ok(_) => "applied",
        Err(Stop::Error) => "error action",
        Err(Stop::Endless) => "endless",
    });
    match want {
        Err(_) => {
            ensure!(out.failed(), "error not reported", "{}", desc("an error action (or endless jumps) did not fail the command"));
            ensure!(got.is_none(), "output of failed run", "{}", desc("a failing command wrote output"));
        }
        Ok(w) => {
            ensure!(out.ok(), "rules fail", "{}", desc("applying rules failed"));
            let Some(got) = &got else { return fail("no output", desc("no output written")) };
            match parse(got) {
                Err(x) => return fail("unreadable output", desc(&x)),
                Ok(mut g) => {
                    let mut w = w;
                    if blank {
                        g.iter_mut().chain(&mut w).for_each(|t| t.desc = s(t.desc.trim()));
                    }
                    if g != w {
                        return fail("wrong effect", format!("{}\nexpected:\n{}", desc("the output differs from what the rules say"), render(&w)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Two transactions of two postings, in which effects on the transaction reach the next posting.
fn narrow() -> Vec<Trn> {
    vec![
        tr("2020-01-01", "x", cm(), vec![po("assets:a", "GBP1", cm().flag("a")), po("assets:b", "GBP-1", cm().val("k", "v"))]),
        tr("2020-01-01", "shop", cm().flag("t"), vec![po("assets:a", "GBP1", cm().flag("b")), po("shop", "GBP-1", cm())]),
    ]
}

fn acts_small() -> Vec<Act> {
    vec![
        Act::AddFlag(s("a")),
        Act::AddFlag(s("b")),
        Act::DelFlag(s("a")),
        Act::SetAccount(s("assets:a")),
        Act::SetAccount(s("assets:shop")),
        Act::AddValue(s("k"), s("v")),
        Act::DelValue(s("k")),
        Act::AddTFlag(s("u")),
        Act::DelTFlag(s("t")),
        Act::ReplaceDesc(re("shop"), s("x")),
        Act::ReplaceDesc(re(".*"), s("$0.")),
        Act::Noop,
        Act::Error(s("stop")),
    ]
}

/// A transaction for each feature of the merge checks.
fn feature_journal() -> Vec<Trn> {
    let mut v = Vec::new();
    for (k, (_, f)) in super::merging::features().into_iter().enumerate() {
        let c = [cm().flag("a"), cm().val("k", "v"), cm()][k % 3].clone();
        let mut t = tr("2020-01-10", "Shop", cm(), vec![po("assets:a", "GBP10.00", c.clone()), po("shop", "", cm().flag("a")), po("assets:a", "GBP10.00", c)]);
        f(&mut t, k % 2 * 2);
        v.push(t);
    }
    v
}

/// All texts of up to `n` characters of one to four bytes.
pub fn short_texts(n: u32) -> Vec<String> {
    let al = ['a', 'B', '\u{e9}', '\u{65e5}', '\u{1f389}', ' '];
    (0..=n).flat_map(|l| (0..al.len().pow(l)).map(move |i| {
        let mut d = Dig(i);
        (0..l).map(|_| *d.of(&al)).collect::<String>()
    })).collect()
}

pub fn c09(c: &Ctx) -> (&'static str, &'static str) {
    let all = preds();
    let hit = Act::AddFlag(s("hit"));
    c.par("single predicates", all.len() * 2, |e, i| {
        let p = all[i / 2].clone();
        let p = if i % 2 == 1 { Pred::Not(Box::new(p)) } else { p };
        apply(e, &start(vec![rule(p, hit.clone())]), &wide(), true)
    });
    // What is looked for and where it is looked for: all short texts, in characters of one to four bytes.
    let short = short_texts(if c.thorough { 4 } else { 3 });
    c.par("all short texts", short.len() * 5, |e, i| {
        let (w, k) = (short[i / 5].clone(), i % 5);
        let m = match k {
            0 => Sm::Contains(w),
            1 => Sm::Eq(w),
            2 => Sm::Lower(Box::new(Sm::Contains(w))),
            3 => Sm::Lower(Box::new(Sm::Eq(w))),
            _ => Sm::Lower(Box::new(Sm::Lower(Box::new(Sm::Contains(w))))),
        };
        let js: Vec<Trn> = short.iter().filter(|d| !d.is_empty() && d.trim() == *d).map(|d| tr("2020-01-01", d, cm(), vec![po("a", "GBP1", cm())])).collect();
        apply(e, &start(vec![rule(Pred::Desc(m), hit.clone())]), &js, true)
    });
    let ps = preds_small();
    c.par("predicate combinations", ps.len() * ps.len() * 6, |e, i| {
        let mut d = Dig(i);
        let (a, b) = (d.of(&ps).clone(), d.of(&ps).clone());
        let n = |p: Pred| Pred::Not(Box::new(p));
        let p = match d.take(6) {
            0 => Pred::All(vec![a, b]),
            1 => Pred::Any(vec![a, b]),
            2 => n(Pred::All(vec![a, b])),
            3 => n(Pred::Any(vec![n(a), b])),
            4 => Pred::All(vec![Pred::Any(vec![a, b.clone()]), n(Pred::All(vec![b, Pred::True]))]),
            _ => Pred::Any(vec![Pred::All(vec![a.clone(), b.clone()]), n(Pred::Any(vec![b, a])), n(Pred::True)]),
        };
        apply(e, &start(vec![rule(p, hit.clone())]), &wide(), true)
    });
    let av = acts();
    c.par("single actions", av.len() * ps.len(), |e, i| {
        let mut d = Dig(i);
        let a = d.of(&av).clone();
        let p = d.of(&ps).clone();
        apply(e, &start(vec![rule(p, a)]), &wide(), true)
    });
    c.par("pairs of actions", av.len() * av.len() * 2, |e, i| {
        let mut d = Dig(i);
        let (a, b) = (d.of(&av).clone(), d.of(&av).clone());
        let ch = if d.take(2) == 0 {
            start(vec![rule(Pred::True, Act::All(vec![a, Act::All(vec![b])]))])
        } else {
            start(vec![rule(Pred::True, a), rule(Pred::True, b)])
        };
        apply(e, &ch, &wide(), true)
    });
    // Postings and transactions with every feature, one at a time.
    let feats = feature_journal();
    c.par("all features", all.len() + av.len() * 3, |e, i| {
        let ch = match i.checked_sub(all.len()) {
            None => start(vec![rule(all[i].clone(), hit.clone())]),
            Some(k) => start(vec![rule([Pred::True, ps[2].clone(), ps[6].clone()][k % 3].clone(), av[k / 3].clone())]),
        };
        apply(e, &ch, &feats, true)
    });
    // One name as flag tag, value tag, value, text, account and description.
    let names = namesakes();
    let na = name_acts();
    let np = [Pred::True, Pred::HasFlag(s("n")), Pred::HasValue(s("n")), Pred::ValueTag(s("n"), Sm::Eq(s("n"))), Pred::FlagTag(Sm::Eq(s("n"))), Pred::Account(Sm::Eq(s("n"))), Pred::Desc(Sm::Eq(s("n")))];
    c.par("namesakes", na.len() * (na.len() + 1) * np.len(), |e, i| {
        let mut d = Dig(i);
        let (p, a) = (d.of(&np).clone(), d.of(&na).clone());
        let mut rules = vec![rule(p.clone(), a)];
        if let Some(b) = d.0.checked_sub(1) {
            rules.push(rule(p, na[b].clone()));
        }
        apply(e, &start(rules), &names, true)
    });
    // Sequences of rules: predicates see the effects of the rules before, results decide what follows.
    let sa = acts_small();
    let sp = [0usize, 1, 2, 4, 6, 8].map(|i| ps[i].clone());
    let one = sa.len() * sp.len() * 2;
    let mk = |d: &mut Dig| Rule { act: d.of(&sa).clone(), pred: d.of(&sp).clone(), ret: d.take(2) == 1 };
    c.par("two rules", one * one, |e, i| {
        let mut d = Dig(i);
        let ch = start(vec![mk(&mut d), mk(&mut d)]);
        apply(e, &ch, &narrow(), true)
    });
    let sa3 = [0usize, 2, 3, 9, 4, 12].map(|i| sa[i].clone());
    let sp3 = [0usize, 2, 4, 8, 6, 3].map(|i| ps[i].clone());
    let (n3a, n3p) = if c.thorough { (6, 6) } else { (4, 4) };
    let one3 = n3a * n3p * 2;
    c.par("three rules", one3 * one3 * one3, |e, i| {
        let mut d = Dig(i);
        let mut mk = || Rule { act: sa3[d.take(n3a)].clone(), pred: sp3[d.take(n3p)].clone(), ret: d.take(2) == 1 };
        let ch = start(vec![mk(), mk(), mk()]);
        apply(e, &ch, &narrow(), true)
    });
    // Chains: jumps at every place, with what returns to where.
    let tag = |n: &str| Act::AddFlag(s(n));
    c.par("chains", 4 * 2 * 2 * 2 * 2 * 2 * 2 * 2 * 6 * 3, |e, i| {
        let mut d = Dig(i);
        let shape = d.take(4);
        let mut r = || d.take(2) == 1;
        let (r1, r2, r3, r4, r5, r6, r7) = (r(), r(), r(), r(), r(), r(), r());
        let pi = d.take(6);
        let inner = d.take(3);
        let p = sp[pi].clone();
        let jump = |n: &str| Act::Jump(s(n));
        let j1 = match shape {
            0 => jump("c1"),
            1 => Act::All(vec![tag("before"), jump("c1"), tag("after")]),
            2 => Act::All(vec![jump("c1"), jump("c2")]),
            _ => Act::All(vec![Act::All(vec![jump("c1"), tag("inner")]), jump("c1")]),
        };
        let c1 = vec![
            Rule { pred: p.clone(), act: Act::All(vec![tag("c1a"), Act::SetAccount(s("assets:c1"))]), ret: r1 },
            Rule { pred: Pred::Not(Box::new(p)), act: if inner == 0 { jump("c2") } else { tag("c1n") }, ret: r2 },
            Rule { pred: Pred::True, act: tag("c1b"), ret: r3 },
            Rule { pred: Pred::True, act: tag("c1c"), ret: r7 },
        ];
        let c2 = vec![
            Rule { pred: Pred::HasFlag(s("b")), act: tag("c2b"), ret: r4 },
            Rule { pred: Pred::True, act: if inner == 1 { jump("c3") } else { Act::AddTFlag(s("c2")) }, ret: r7 },
            Rule { pred: Pred::True, act: tag("c2end"), ret: r4 },
        ];
        let c3 = vec![Rule { pred: Pred::True, act: tag("c3"), ret: r7 }];
        let st = vec![
            Rule { pred: Pred::True, act: tag("first"), ret: false },
            Rule { pred: if inner == 2 { Pred::HasFlag(s("b")) } else { Pred::True }, act: j1, ret: r5 },
            Rule { pred: Pred::HasFlag(s("c1b")), act: tag("seen"), ret: r6 },
            Rule { pred: Pred::True, act: tag("last"), ret: r6 },
        ];
        let ch = vec![(s("c2"), c2), (s("start"), st), (s("c3"), c3), (s("c1"), c1)];
        apply(e, &ch, &narrow(), true)
    });
    // Lists of actions within lists.
    let leaves = [Act::Noop, Act::Error(s("no")), Act::SetAccount(s("assets:set")), Act::Jump(s("sub")), Act::AddTFlag(s("t2"))];
    let nl = leaves.len();
    // What a list within a list holds: nothing, one or two; or it is no list.
    let inner_n = nl + 1 + nl + nl * nl;
    let inner = {
        let leaves = leaves.clone();
        move |k: usize| -> Act {
            if k < nl {
                leaves[k].clone()
            } else if k == nl {
                Act::All(vec![])
            } else if k <= 2 * nl {
                Act::All(vec![leaves[k - nl - 1].clone()])
            } else {
                let k = k - 2 * nl - 1;
                Act::All(vec![leaves[k % nl].clone(), leaves[k / nl].clone()])
            }
        }
    };
    c.par("lists in lists", inner_n * inner_n * 4 * 2, |e, i| {
        let mut d = Dig(i);
        let (a, b, how, ret) = (inner(d.take(inner_n)), inner(d.take(inner_n)), d.take(4), d.take(2) == 1);
        let act = match how {
            0 => Act::All(vec![a, b]),
            1 => Act::All(vec![a, Act::AddFlag(s("between")), b, Act::AddFlag(s("end"))]),
            2 => Act::All(vec![Act::All(vec![a]), Act::All(vec![Act::All(vec![b])])]),
            _ => Act::All(vec![Act::All(vec![Act::All(vec![a, b]), Act::Noop]), Act::DelFlag(s("a"))]),
        };
        let sub = vec![Rule { pred: Pred::HasFlag(s("b")), act: Act::AddFlag(s("subbed")), ret }, Rule { pred: Pred::True, act: Act::AddValue(s("sub"), s("1")), ret }];
        let st = vec![Rule { pred: Pred::HasFlag(s("b")), act, ret }, rule(Pred::True, Act::AddFlag(s("last")))];
        apply(e, &vec![(s("start"), st), (s("sub"), sub)], &narrow(), true)
    });
    // Rules far down, and what they return to.
    let deep: Vec<Act> = vec![
        Act::Noop, Act::AddFlag(s("z")), Act::DelFlag(s("a")), Act::All(vec![Act::DelFlag(s("a")), Act::DelFlag(s("b"))]), Act::DelValue(s("k")), Act::SetAccount(s("assets:deep")), Act::ReplaceDesc(re(".*"), s("deep")), Act::DelTFlag(s("t")), Act::Jump(s("leaf")),
    ];
    let nd = deep.len();
    let deepest = if c.thorough { 6 } else { 4 };
    c.par("far down", nd * nd * 4 * deepest * 4, |e, i| {
        let mut d = Dig(i);
        let (a, b, rets, up) = (d.of(&deep).clone(), d.of(&deep).clone(), d.take(4), d.take(4));
        let depth = 1 + d.0;
        let mut ch: Chains = Vec::new();
        for k in 0..depth {
            let name = if k == 0 { s("start") } else { format!("d{}", k) };
            ch.push((name, vec![
                Rule { pred: Pred::True, act: Act::Jump(format!("d{}", k + 1)), ret: up & 1 == 1 && k > 0 },
                Rule { pred: Pred::True, act: Act::AddFlag(format!("up{}", k)), ret: up & 2 == 2 },
                rule(Pred::True, Act::AddFlag(format!("upper{}", k))),
            ]));
        }
        ch.push((format!("d{}", depth), vec![
            Rule { pred: Pred::True, act: a, ret: rets & 1 == 1 },
            Rule { pred: Pred::True, act: b, ret: rets & 2 == 2 },
            Rule { pred: Pred::True, act: Act::AddValue(s("third"), s("1")), ret: rets == 3 },
            rule(Pred::True, Act::AddTFlag(s("fourth"))),
        ]));
        ch.push((s("leaf"), vec![Rule { pred: Pred::True, act: Act::DelFlag(s("b")), ret: true }, rule(Pred::True, Act::AddFlag(s("leafend")))]));
        apply(e, &ch, &narrow(), true)
    });
    // Recursion that ends because its condition does, nested to a given depth, and endless recursion.
    c.par("recursion", 200, |e, i| {
        let n = 1 + i / 4;
        let kind = i % 4;
        let ch: Chains = match kind {
            0 => {
                // n chains jumping on to the next, with something to do after each jump.
                let mut v: Chains = (0..n)
                    .map(|k| {
                        let name = if k == 0 { s("start") } else { format!("c{}", k) };
                        let mut rules = Vec::new();
                        if k + 1 < n {
                            rules.push(Rule { pred: Pred::True, act: Act::Jump(format!("c{}", k + 1)), ret: k % 3 == 1 });
                        }
                        rules.push(rule(Pred::True, Act::ReplaceDesc(re(".*"), format!("${{0}}{}", k % 10))));
                        (name, rules)
                    })
                    .collect();
                v.reverse();
                v
            }
            1 => {
                // A chain that jumps to itself until it has added n tags.
                let mut rules = Vec::new();
                for k in 0..n {
                    rules.push(Rule {
                        pred: Pred::Not(Box::new(Pred::HasFlag(format!("x{}", k)))),
                        act: Act::All(vec![Act::AddFlag(format!("x{}", k)), Act::Jump(s("loop"))]),
                        ret: k % 2 == 0,
                    });
                }
                vec![(s("start"), vec![rule(Pred::True, Act::Jump(s("loop")))]), (s("loop"), rules)]
            }
            2 => {
                // A cycle of n chains without an end.
                let mut v: Chains = (0..n)
                    .map(|k| (format!("c{}", k), vec![rule(Pred::True, Act::Jump(format!("c{}", (k + 1) % n)))]))
                    .collect();
                v.push((s("start"), vec![rule(Pred::HasFlag(s("b")), Act::Jump(s("c0")))]));
                v
            }
            _ => {
                // An endless cycle that grows the description, inside an All action.
                let mut v: Chains = (0..n)
                    .map(|k| {
                        (
                            format!("c{}", k),
                            vec![rule(Pred::True, Act::All(vec![Act::AddFlag(format!("y{}", k)), Act::Jump(format!("c{}", (k + 1) % n))]))],
                        )
                    })
                    .collect();
                v.push((s("start"), vec![rule(Pred::Desc(Sm::Eq(s("shop"))), Act::Jump(s("c0")))]));
                v
            }
        };
        apply(e, &ch, &narrow(), n > 1)
    });
    // Sizes: many rules, many postings.
    c.par("sizes", 80, |e, i| {
        let n = 1 + (i / 2) * 5;
        if i % 2 == 0 {
            let mut rules: Vec<Rule> = (0..n).map(|k| rule(Pred::Not(Box::new(Pred::HasFlag(s("stop")))), Act::AddValue(s("n"), format!("{}", k)))).collect();
            rules.insert(n / 2, Rule { pred: Pred::HasFlag(s("b")), act: Act::AddFlag(s("stop")), ret: false });
            apply(e, &start(rules), &narrow(), true)
        } else {
            let posts: Vec<Post> = (0..n).map(|k| po(&format!("assets:p{}", k), "GBP1", if k % 3 == 0 { cm().flag("a") } else { cm() })).collect();
            let mut j = narrow();
            j.push(tr("2020-02-01", "x", cm(), posts));
            j.extend((0..n).map(|k| tr("2020-02-02", &format!("x{}", k), cm(), vec![po("assets:a", "GBP1", cm())])));
            let rules = vec![
                Rule { pred: Pred::HasFlag(s("a")), act: Act::SetAccount(s("assets:moved")), ret: true },
                Rule { pred: Pred::Desc(Sm::Matches(re("[0-9]+"))), act: Act::ReplaceDesc(re("[0-9]+"), s("n$0")), ret: false },
                rule(Pred::True, Act::ReplaceDesc(re(".*"), s("$0."))),
            ];
            apply(e, &start(rules), &j, true)
        }
    });
    c.assume("chains nest to at most 250 jumps (the program reports deeper nesting as endless)");
    ("model_checking", "every case is a rule table (all predicates, actions, results, two and three rule sequences, chain shapes) applied by the real program and by the reference interpreter to a journal; states are (chain, rule, posting, transaction) of the interpreter, transitions its rule steps; distinct by rules and journal")
}

// ---------------------------------------------------------------------------------------------
// C10: what rules leave alone.

pub fn full_journal() -> Vec<Trn> {
    let amts = ["", "GBP10.00", "GBP-0.5", "10 USD", "GBP0", "GBP79228162514264337593543950335", "-1.000 EUR",
        "10 AAPL @ GBP2.5", "10 AAPL @@ GBP25", "10 AAPL {GBP2}", "10 AAPL {{GBP20}}", "10 AAPL {GBP2} @ GBP3.25", "10 AAPL {{GBP20}} @@ USD4"];
    let bals = ["", "0", "GBP5.50", "GBP-5", "3 USD"];
    let cs = [cm(), cm().flag("a").val("k", "v").line("text one").line("text two"), cm().flag("a-long-flag-tag-name").val("k", "V")];
    let mut posts = Vec::new();
    for st in [St::None, St::Pend, St::Clr] {
        for kind in [Kind::Real, Kind::Bal, Kind::Unbal] {
            for a in amts {
                for b in bals {
                    let n = posts.len();
                    let c = cs[n % 3].clone();
                    posts.push(Post {
                        st,
                        kind,
                        acct: s(["assets:a", "shop", "two words"][(n / 3) % 3]),
                        amt: (!a.is_empty()).then(|| pamt(a)),
                        bal: match b {
                            "" => None,
                            "0" => Some(Bal::Zero),
                            b => Some(Bal::Amt(amt(b))),
                        },
                        c,
                    });
                }
            }
        }
    }
    let mut out = Vec::new();
    let mut k = 0;
    while !posts.is_empty() {
        let n = 1 + k % 4;
        let rest = posts.split_off(n.min(posts.len()));
        let ps = std::mem::replace(&mut posts, rest);
        out.push(Trn {
            date: format!("20{:02}-{:02}-{:02}", (97 - k % 98), 1 + k % 12, 1 + k % 28),
            edate: (k % 3 == 1).then(|| format!("2021-0{}-11", 1 + k % 9)),
            st: [St::None, St::Pend, St::Clr][(k / 3) % 3],
            code: (k % 2 == 1).then(|| format!("c{}", k)),
            desc: s(["x", "shop", "Shop 12 two", "Café"][k % 4]),
            c: cs[(k / 2) % 3].clone(),
            posts: ps,
        });
        k += 1;
    }
    out
}

#[derive(Default)]
struct Touches {
    acct: bool,
    desc: bool,
    pflag: Vec<String>,
    pval: Vec<String>,
    tflag: Vec<String>,
    tval: Vec<String>,
}

fn touches(a: &Act, t: &mut Touches) {
    match a {
        Act::AddFlag(x) | Act::DelFlag(x) => t.pflag.push(x.clone()),
        Act::AddValue(x, _) | Act::DelValue(x) => t.pval.push(x.clone()),
        Act::AddTFlag(x) | Act::DelTFlag(x) => t.tflag.push(x.clone()),
        Act::AddTValue(x, _) | Act::DelTValue(x) => t.tval.push(x.clone()),
        Act::All(v) => v.iter().for_each(|x| touches(x, t)),
        Act::SetAccount(_) => t.acct = true,
        Act::ReplaceDesc(..) => t.desc = true,
        Act::Error(_) | Act::Noop | Act::Jump(_) => {}
    }
}

fn same_but(a: &Comment, b: &Comment, flags: &[String], vals: &[String]) -> Result<(), String> {
    let f = |c: &Comment| c.flags.iter().filter(|x| !flags.contains(x)).cloned().collect::<Vec<_>>();
    let v = |c: &Comment| c.kv.iter().filter(|x| !vals.contains(x.0)).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    if a.lines != b.lines {
        return Err(format!("comment text {:?} became {:?}", a.lines, b.lines));
    }
    if f(a) != f(b) {
        return Err(format!("flag tags {:?} became {:?}", a.flags, b.flags));
    }
    if v(a) != v(b) {
        return Err(format!("value tags {:?} became {:?}", a.kv, b.kv));
    }
    Ok(())
}

/// The frame: `fired` are the rules whose predicates held at least once.
fn frame(before: &[Trn], after: &[Trn], t: &Touches) -> Result<(), String> {
    if before.len() != after.len() {
        return Err(format!("{} transactions became {}", before.len(), after.len()));
    }
    for (n, (a, b)) in before.iter().zip(after).enumerate() {
        let at = |w: String| Err(format!("transaction {} ({} {}): {}", n + 1, a.date, a.desc, w));
        if (&a.date, &a.edate, a.st, &a.code) != (&b.date, &b.edate, b.st, &b.code) {
            return at(format!("header {:?} became {:?}", (&a.date, &a.edate, a.st, &a.code), (&b.date, &b.edate, b.st, &b.code)));
        }
        if !t.desc && a.desc != b.desc {
            return at(format!("description became {:?}", b.desc));
        }
        if let Err(w) = same_but(&a.c, &b.c, &t.tflag, &t.tval) {
            return at(w);
        }
        if a.posts.len() != b.posts.len() {
            return at(format!("{} postings became {}", a.posts.len(), b.posts.len()));
        }
        for (k, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            let at = |w: String| at(format!("posting {}: {}", k + 1, w));
            if (p.st, p.kind, &p.amt, &p.bal) != (q.st, q.kind, &q.amt, &q.bal) {
                return at(format!("{:?} became {:?}", (p.st, p.kind, &p.amt, &p.bal), (q.st, q.kind, &q.amt, &q.bal)));
            }
            if !t.acct && p.acct != q.acct {
                return at(format!("account {:?} became {:?}", p.acct, q.acct));
            }
            if let Err(w) = same_but(&p.c, &q.c, &t.pflag, &t.pval) {
                return at(w);
            }
        }
    }
    Ok(())
}

fn c10_case(e: &mut Env, ch: &Chains, j: &[Trn], inp: &str) -> R {
    let text = ron(ch);
    e.sut.put("rules.ron", &text);
    e.sut.put("in.journal", inp);
    let mut it = Interp::new(ch);
    let want = it.run(None, j);
    let out = e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", "rules.ron"]);
    let got = e.sut.get_str("out.journal");
    e.case(true, &(&text, inp));
    e.sample(|| format!("{}{}", text, inp));
    let desc = |what: &str| format!("{} ({})\nrules:\n{}\noutput starts:\n{}", what, out.short(), text, got.as_deref().unwrap_or("(none)").chars().take(500).collect::<String>());
    ensure!(out.orderly(), "disorderly", "{}", desc("did not end in an orderly way"));
    if !out.ok() {
        e.outcome("failed");
        ensure!(want.is_err(), "rules fail", "{}", desc("applying rules failed"));
        return Ok(());
    }
    e.outcome("applied");
    let mut t = Touches::default();
    for (n, rules) in ch {
        for (k, r) in rules.iter().enumerate() {
            if it.fired.contains(&(n.clone(), k)) {
                touches(&r.act, &mut t);
            }
        }
    }
    let g = match parse(got.as_deref().unwrap_or("")) {
        Ok(g) => g,
        Err(x) => return fail("unreadable output", desc(&x)),
    };
    if let Err(w) = frame(j, &g, &t) {
        return fail("frame broken", desc(&w));
    }
    Ok(())
}

pub fn c10(c: &Ctx) -> (&'static str, &'static str) {
    let mut j = full_journal();
    j.extend(feature_journal());
    let inp = render(&j);
    // A transaction without description but with other things in its head is refused: not looked at here.
    let av: Vec<Act> = acts().into_iter().filter(|a| !matches!(a, Act::ReplaceDesc(_, r) if r.is_empty())).collect();
    let ps = preds_small();
    c.par("single actions", av.len() * ps.len(), |e, i| {
        let mut d = Dig(i);
        let a = d.of(&av).clone();
        let p = d.of(&ps).clone();
        c10_case(e, &start(vec![rule(p, a)]), &j, &inp)
    });
    let pairs = av.len() * av.len();
    c.par("pairs of actions", if c.thorough { pairs * 2 } else { pairs }, |e, i| {
        let mut d = Dig(i);
        let (a, b) = (d.of(&av).clone(), d.of(&av).clone());
        let (p1, p2) = if d.take(2) == 1 { (ps[2].clone(), ps[5].clone()) } else { (ps[4].clone(), ps[6].clone()) };
        c10_case(e, &start(vec![rule(p1, a), rule(p2, b)]), &j, &inp)
    });
    let names = namesakes();
    let names_inp = render(&names);
    let na = name_acts();
    c.par("namesakes", na.len() * 4, |e, i| {
        let p = [Pred::True, Pred::HasFlag(s("n")), Pred::Not(Box::new(Pred::HasFlag(s("n")))), Pred::HasValue(s("n"))][i % 4].clone();
        c10_case(e, &start(vec![rule(p, na[i / 4].clone())]), &names, &names_inp)
    });
    // Accounts of all sorts.
    const TOP: [&str; 30] = [
        "assets", "liabilities", "equity", "income", "expenses", "revenue", "revenues", "budget", "budgets", "virtual", "savings", "cash", "bank", "unknown", "transfer", "transfers", "opening balances", "equity:opening balances", "equity:conversion", "payable", "accounts payable",
        "imbalance", "trading", "fees", "tax", "split", "envelope", "goal", "ignore", "void",
    ];
    c.par("accounts set", TOP.len() * 4 * 4, |e, i| {
        let mut d = Dig(i);
        let (t, how, p) = (*d.of(&TOP), d.take(4), d.take(4));
        let cap = |x: &str| x[..1].to_uppercase() + &x[1..];
        let a = [s(t), format!("{}:food", t), format!("{}:Food and:x", cap(t)), format!("x:{}", t)][how].clone();
        let p = [Pred::True, ps[2].clone(), ps[5].clone(), ps[8].clone()][p].clone();
        c10_case(e, &start(vec![rule(p, Act::SetAccount(a))]), &j, &inp)
    });
    // The same through jumps.
    c.par("jumps", av.len() * 4, |e, i| {
        let mut d = Dig(i);
        let a = d.of(&av).clone();
        let (r1, r2) = (d.take(2) == 1, d.take(2) == 1);
        let ch = vec![
            (s("start"), vec![
                Rule { pred: ps[2].clone(), act: Act::All(vec![Act::Jump(s("sub")), Act::AddFlag(s("x"))]), ret: r1 },
                Rule { pred: ps[8].clone(), act: a.clone(), ret: r2 },
            ]),
            (s("sub"), vec![Rule { pred: ps[6].clone(), act: a, ret: r2 }]),
        ];
        c10_case(e, &ch, &j, &inp)
    });
    // Journals in which one transaction has every combination of header parts, no rule touching it.
    c.par("nothing to do", 64, |e, i| {
        let mut d = Dig(i);
        let (st, ed, code, cc) = (d.take(3), d.take(2), d.take(2), d.take(3));
        let t = Trn {
            date: s("2020-02-29"),
            edate: (ed == 1).then(|| s("2020-03-01")),
            st: [St::None, St::Pend, St::Clr][st],
            code: (code == 1).then(|| s("code 1")),
            desc: s("a description; with (odd) things = here"),
            c: [cm(), cm().flag("f").line("l"), cm().val("a", "b")][cc].clone(),
            posts: vec![po("a", "GBP1", cm())],
        };
        let inp = render(std::slice::from_ref(&t));
        c10_case(e, &start(vec![rule(Pred::Not(Box::new(Pred::True)), Act::SetAccount(s("no")))]), &[t], &inp)
    });
    ("exploration", "every case applies a rule table of the action and predicate alphabets to a journal in which 585 postings take every combination of status, kind, amount form and balance; distinct by rules and journal")
}

// ---------------------------------------------------------------------------------------------
// C11: loading.

#[derive(Clone, Debug)]
struct RFile {
    path: String,
    entries: Vec<Ent>,
}

#[derive(Clone, Debug)]
enum Ent {
    /// As written in the file, and which file it means (None: a missing one).
    Include(String, Option<usize>),
    /// Name, text of the actions of its rules, chains it jumps to.
    Chain(String, Vec<String>, Vec<String>),
    Raw(String),
}

fn ent_ron(x: &Ent) -> String {
    match x {
        Ent::Include(p, _) => format!("Include({}),\n", q(p)),
        Ent::Chain(n, acts, _) => format!(
            "Chain({}, [{}]),\n",
            q(n),
            acts.iter().map(|a| format!("Rule(action: {}, predicate: True, result: Continue)", a)).collect::<Vec<_>>().join(",\n  ")
        ),
        Ent::Raw(t) => t.clone(),
    }
}

/// Whether the files are acceptable, and which chains they define.
fn load(files: &[RFile]) -> Result<Vec<String>, &'static str> {
    fn go(files: &[RFile], k: usize, seen: &mut Vec<usize>, chains: &mut Vec<(String, Vec<String>)>) -> Result<(), &'static str> {
        if seen.contains(&k) {
            return Ok(());
        }
        seen.push(k);
        for x in &files[k].entries {
            match x {
                Ent::Raw(_) => return Err("does not parse"),
                Ent::Include(_, None) => return Err("missing file"),
                Ent::Include(_, Some(n)) => {
                    if files[*n].entries.iter().any(|x| matches!(x, Ent::Raw(_))) {
                        return Err("does not parse");
                    }
                    go(files, *n, seen, chains)?
                }
                Ent::Chain(n, _, j) => {
                    if chains.iter().any(|c| c.0 == *n) {
                        return Err("duplicate chain");
                    }
                    chains.push((n.clone(), j.clone()));
                }
            }
        }
        Ok(())
    }
    let mut chains = Vec::new();
    go(files, 0, &mut Vec::new(), &mut chains)?;
    if !chains.iter().any(|c| c.0 == "start") {
        return Err("no start chain");
    }
    for (_, js) in &chains {
        if js.iter().any(|j| !chains.iter().any(|c| c.0 == *j)) {
            return Err("undefined chain");
        }
    }
    Ok(chains.into_iter().map(|c| c.0).collect())
}

fn c11_case(e: &mut Env, files: &[RFile], extra_raw: bool) -> R {
    let mut texts = String::new();
    for f in files {
        let mut t = String::from("[\n");
        for x in &f.entries {
            t.push_str(&ent_ron(x));
        }
        t.push_str("]\n");
        if extra_raw {
            if let [Ent::Raw(r)] = &f.entries[..] {
                t = r.clone();
            }
        }
        e.sut.put(&f.path, &t);
        texts.push_str(&format!("--- {}\n{}", f.path, t));
    }
    e.sut.put("in.journal", "2020-01-01 x\n    assets:a  GBP1\n");
    e.sut.put("out.journal", "old content\n");
    let before = e.sut.tree();
    let want = load(files);
    let out = e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", &files[0].path]);
    e.case(files.len() > 1 || want.is_err(), &texts);
    e.sample(|| format!("{}=> {:?}", texts, want));
    let desc = |w: &str| format!("{}: {}\nexpected {:?}\n{}", w, out.short(), want, texts);
    ensure!(out.orderly(), "disorderly", "{}", desc("did not end in an orderly way"));
    match &want {
        Err(why) => {
            e.outcome(why);
            ensure!(out.failed(), "invalid rules accepted", "{}", desc("an invalid rules file was accepted"));
            ensure!(e.sut.tree() == before, "output of rejected rules", "{}", desc("files changed though the rules were rejected"));
        }
        Ok(chains) => {
            e.outcome("accepted");
            ensure!(out.ok(), "valid rules rejected", "{}", desc("a valid rules file was rejected"));
            // Chains tag the posting with their names, if the start chain jumps to them.
            let got = e.sut.get_str("out.journal").unwrap_or_default();
            let g = match parse(&got) {
                Ok(g) if g.len() == 1 && g[0].posts.len() == 1 => g,
                _ => return fail("wrong output", desc(&format!("unexpected output {:?}", got))),
            };
            let mut reach = vec![s("start")];
            let mut k = 0;
            while k < reach.len() {
                for f in files {
                    for x in &f.entries {
                        if let Ent::Chain(n, _, js) = x {
                            if *n == reach[k] && chains.contains(n) {
                                for j in js {
                                    if !reach.contains(j) {
                                        reach.push(j.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                k += 1;
            }
            let mut want: Vec<String> = reach.iter().map(|n| format!("in-{}", n)).collect();
            want.sort();
            let got: Vec<String> = g[0].posts[0].c.flags.iter().cloned().collect();
            ensure!(got == want, "wrong chains applied", "{}", desc(&format!("chains applied {:?}, should be {:?}", got, want)));
        }
    }
    Ok(())
}

/// A chain of some name that tags its posting, and a jump to the same or another name.
fn named_case(e: &mut Env, files: &[RFile], good: bool) -> R {
    let mut texts = String::new();
    for f in files {
        let t = format!("[\n{}]\n", f.entries.iter().map(ent_ron).collect::<String>());
        e.sut.put(&f.path, &t);
        texts.push_str(&format!("--- {}\n{}", f.path, t));
    }
    e.sut.put("in.journal", "2020-01-01 x\n    assets:a  GBP1\n");
    let out = e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", &files[0].path]);
    e.case(true, &texts);
    e.outcome(if good { "accepted" } else { "undefined chain" });
    if good {
        ensure!(out.ok(), "valid rules rejected", "{}\n{}", out.short(), texts);
        ensure!(e.sut.get_str("out.journal").unwrap_or_default().contains(":in-start:reached:"), "wrong chains applied", "{}", texts);
    } else {
        ensure!(out.failed(), "invalid rules accepted", "{}\n{}", out.short(), texts);
        ensure!(e.sut.get("out.journal").is_none(), "output of rejected rules", "{}", texts);
    }
    Ok(())
}

fn tagged(n: &str) -> String {
    format!("AddPostingFlagTag({})", q(&format!("in-{}", n)))
}

/// A jump wrapped in `depth` All actions; `pos`: first, middle or last of its siblings.
fn nested(target: &str, depth: usize, pos: usize) -> String {
    let mut a = format!("JumpChain({})", q(target));
    for _ in 0..depth {
        a = match pos {
            0 => format!("All([{}, Noop])", a),
            1 => format!("All([Noop, {}, Noop])", a),
            _ => format!("All([Noop, All([]), {}])", a),
        };
    }
    a
}

fn rel(from: &str, to: &str) -> String {
    // Both are "dir/.../name"; gives a path relative to the directory of `from`.
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let fd = &f[..f.len() - 1];
    let td = &t[..t.len() - 1];
    let common = fd.iter().zip(td).take_while(|(a, b)| a == b).count();
    let mut v: Vec<&str> = vec![".."; fd.len() - common];
    v.extend(&td[common..]);
    v.push(t[t.len() - 1]);
    v.join("/")
}

pub fn c11(c: &Ctx) -> (&'static str, &'static str) {
    let dirs = ["d", "d/sub", "e", "."];
    let path = |dir: &str, n: usize| {
        let n = ["main.ron", "a.ron", "b.ron"][n];
        if dir == "." { s(n) } else { format!("{}/{}", dir, n) }
    };
    // All inclusion graphs of three files in directories; the chains are spread over the files.
    c.par("inclusion graphs", 512 * 9 * 3 * 2, |e, i| {
        let mut d = Dig(i);
        let graph = d.take(512);
        let (da, db) = (d.take(3), d.take(3));
        let start_at = d.take(3);
        let includes_first = d.take(2) == 0;
        let paths = [path(dirs[0], 0), path(dirs[da], 1), path(dirs[db], 2)];
        let names = |k: usize| ["x", "y", "z"][k];
        let files: Vec<RFile> = (0..3)
            .map(|k| {
                let inc: Vec<Ent> = (0..3)
                    .filter(|t| graph >> (k * 3 + t) & 1 == 1)
                    .map(|t| {
                        // The same file by different names, too.
                        let r = rel(&paths[k], &paths[t]);
                        let r = if (k + t) % 2 == 1 { format!("./{}", r) } else { r };
                        Ent::Include(r, Some(t))
                    })
                    .collect();
                let mut own = vec![Ent::Chain(s(names(k)), vec![tagged(names(k))], vec![])];
                if k == start_at {
                    own.push(Ent::Chain(
                        s("start"),
                        vec![tagged("start"), nested("x", k, k), nested("y", 1, k), nested("z", 0, 0)],
                        vec![s("x"), s("y"), s("z")],
                    ));
                }
                let entries = if includes_first { [inc, own].concat() } else { [own, inc].concat() };
                RFile { path: paths[k].clone(), entries }
            })
            .collect();
        c11_case(e, &files, false)
    });
    // Four and five files: all graphs without inclusion of oneself, and all without cycles.
    for (nf, n) in [(4usize, 1usize << 12), (5, 1 << 10)] {
        c.par(["", "", "", "", "graphs of four files", "graphs of five files"][nf], n * 3 * 2, |e, i| {
            let mut d = Dig(i);
            let (first, shape, graph) = (d.take(2) == 1, d.take(3), d.0);
            let mut bit = 0;
            let mut edge = vec![vec![]; nf];
            for a in 0..nf {
                for b in 0..nf {
                    if if nf == 4 { a != b } else { a < b } {
                        if graph >> bit & 1 == 1 {
                            edge[a].push(b);
                        }
                        bit += 1;
                    }
                }
            }
            let file = |k: usize| format!("{}f{}.ron", ["", "d/", "d/e/"][if shape == 2 { k % 3 } else { 0 }], k);
            let files: Vec<RFile> = (0..nf)
                .map(|k| {
                    let inc: Vec<Ent> = edge[k].iter().map(|t| Ent::Include(rel(&file(k), &file(*t)), Some(*t))).collect();
                    // One chain each, or two, or none for some.
                    let own = if shape == 1 && k % 2 == 1 { 0 } else { 1 + (shape == 2) as usize };
                    let mut ch: Vec<Ent> = (0..own).map(|x| Ent::Chain(format!("c{}{}", k, x), vec![tagged(&format!("c{}{}", k, x))], vec![])).collect();
                    if k == 0 {
                        ch.push(Ent::Chain(s("start"), vec![tagged("start"), nested("c00", 1, 0)], vec![s("c00")]));
                    }
                    RFile { path: file(k), entries: if first { [inc, ch].concat() } else { [ch, inc].concat() } }
                })
                .collect();
            c11_case(e, &files, false)
        });
    }
    // Many chains, of which one jumps nowhere.
    let many = [2, 10, 31, 33, 63, 65, 100, 127, 130, 200];
    c.par("jumps of many chains", many.len() * 12 * 2, |e, i| {
        let mut d = Dig(i);
        let (n, at, none) = (*d.of(&many), d.take(12), d.take(2) == 1);
        let at = at * n / 12;
        let mut ents: Vec<Ent> = (0..n)
            .map(|k| {
                let to = if k == at && none { s("nowhere") } else { format!("m{}", (k + 7) % n) };
                Ent::Chain(format!("m{}", k), vec![tagged("m"), nested(&to, k % 3, k % 2)], vec![to])
            })
            .collect();
        ents.insert(n / 2, Ent::Chain(s("start"), vec![tagged("start")], vec![]));
        c11_case(e, &[RFile { path: s("main.ron"), entries: ents }], false)
    });
    // The same, where only reached files matter: start jumps only to its own chains.
    c.par("partial inclusion", 512 * 16, |e, i| {
        let mut d = Dig(i);
        let graph = d.take(512);
        let (da, db) = (d.take(4), d.take(4));
        let paths = [path(dirs[3], 0), path(dirs[da], 1), path(dirs[db], 2)];
        let files: Vec<RFile> = (0..3)
            .map(|k| {
                let mut entries: Vec<Ent> = (0..3)
                    .filter(|t| graph >> (k * 3 + t) & 1 == 1)
                    .map(|t| Ent::Include(rel(&paths[k], &paths[t]), Some(t)))
                    .collect();
                entries.push(Ent::Chain(format!("own{}", k), vec![tagged(&format!("own{}", k))], vec![]));
                if k == 0 {
                    entries.push(Ent::Chain(s("start"), vec![tagged("start"), nested("own0", 2, 1)], vec![s("own0")]));
                }
                RFile { path: paths[k].clone(), entries }
            })
            .collect();
        c11_case(e, &files, false)
    });
    // Placement of definitions: each of three names in each subset of the files (so none, one or several times).
    c.par("definitions", 8 * 8 * 8 * 2, |e, i| {
        let mut d = Dig(i);
        let at = [d.take(8), d.take(8), d.take(8)];
        let twice = d.take(2) == 1;
        let names = ["start", "x", "y"];
        let files: Vec<RFile> = (0..3)
            .map(|k| {
                let mut entries = Vec::new();
                if k == 0 {
                    entries.push(Ent::Include(s("a.ron"), Some(1)));
                    entries.push(Ent::Include(s("sub/b.ron"), Some(2)));
                }
                for (n, name) in names.iter().enumerate() {
                    if at[n] >> k & 1 == 1 {
                        let js: Vec<String> = if n == 0 { vec![s("x"), s("y")] } else { vec![] };
                        let mut acts = vec![tagged(name)];
                        acts.extend(js.iter().map(|j| nested(j, 1, 2)));
                        entries.push(Ent::Chain(s(name), acts, js));
                    }
                }
                if twice {
                    entries.push(Ent::Include(s(["a.ron", "a.ron", "../main.ron"][k]), Some([1, 1, 0][k])));
                }
                RFile { path: s(["main.ron", "a.ron", "sub/b.ron"][k]), entries }
            })
            .collect();
        c11_case(e, &files, false)
    });
    // Chains of any content of the same name, whatever comes between.
    let bodies = ["", "Rule(action: AddPostingFlagTag(\"t\"), predicate: True, result: Continue)", "Rule(action: Noop, predicate: Not(True), result: Return)", "Rule(action: Noop, predicate: True, result: Continue), Rule(action: JumpChain(\"x\"), predicate: True, result: Continue)", "Rule(action: All([]), predicate: True, result: Return)"];
    c.par("contents of chains", bodies.len() * bodies.len() * 3 * 3 * 2, |e, i| {
        let mut d = Dig(i);
        let (b1, b2, n1, place, sep) = (*d.of(&bodies), *d.of(&bodies), d.take(3), d.take(3), d.take(2) == 1);
        let names = ["start", "x", "y"];
        // The second one has the same name, or a name of its own.
        let chain = |n: &str, b: &str| format!("Chain(\"{}\", [{}])", n, b);
        let mut all: Vec<String> = names.iter().map(|n| chain(n, if *n == names[n1] { b1 } else { "" })).collect();
        let twice = if sep { chain("own", b2) } else { chain(names[n1], b2) };
        let mut files = vec![RFile { path: s("main.ron"), entries: vec![] }];
        match place {
            0 => all.push(twice),
            1 => all.insert(0, twice),
            _ => {
                files.push(RFile { path: s("a.ron"), entries: vec![Ent::Raw(twice)] });
                files[0].entries.push(Ent::Include(s("a.ron"), Some(1)));
            }
        }
        files[0].entries.push(Ent::Raw(all.join(", ")));
        let mut texts = String::new();
        for f in &files {
            let t = format!("[\n{}]\n", f.entries.iter().map(ent_ron).collect::<String>());
            e.sut.put(&f.path, &t);
            texts.push_str(&format!("--- {}\n{}", f.path, t));
        }
        e.sut.put("in.journal", "2020-01-01 x\n    assets:a  GBP1\n");
        let out = e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", "main.ron"]);
        e.case(true, &texts);
        e.outcome(if sep { "accepted" } else { "duplicate chain" });
        if sep {
            ensure!(out.ok(), "valid rules rejected", "{}\n{}", out.short(), texts);
        } else {
            ensure!(out.failed(), "invalid rules accepted", "{}\n{}", out.short(), texts);
            ensure!(e.sut.get("out.journal").is_none(), "output of rejected rules", "{}", texts);
        }
        Ok(())
    });
    // Jumps: defined or not, nesting, position, in a chain that is reached or not, behind a predicate that never holds.
    c.par("jumps", 2 * 5 * 3 * 4 * 3 * 2, |e, i| {
        let mut d = Dig(i);
        let defined = d.take(2) == 1;
        let depth = d.take(5);
        let pos = d.take(3);
        let place = d.take(4);
        let rule_pos = d.take(3);
        let included = d.take(2) == 1;
        let target = if defined { "x" } else { "missing" };
        let jump = nested(target, depth, pos);
        let mut others = vec![tagged("c")];
        others.insert(rule_pos.min(1), if rule_pos == 2 { format!("All([Noop, {}])", jump) } else { jump.clone() });
        let mut main = vec![Ent::Chain(s("x"), vec![tagged("x")], vec![])];
        let (st, host) = match place {
            // In start itself.
            0 => (Ent::Chain(s("start"), vec![tagged("start"), jump], vec![s(target)]), None),
            // In a chain that start jumps to.
            1 => (
                Ent::Chain(s("start"), vec![tagged("start"), nested("c", 0, 0)], vec![s("c")]),
                Some(Ent::Chain(s("c"), others, vec![s(target)])),
            ),
            // In a chain nobody jumps to.
            2 => (
                Ent::Chain(s("start"), vec![tagged("start")], vec![]),
                Some(Ent::Chain(s("c"), others, vec![s(target)])),
            ),
            // Behind a predicate that never holds.
            _ => (
                Ent::Chain(s("start"), vec![tagged("start")], vec![]),
                Some(Ent::Chain(
                    s("c"),
                    vec![format!("{}, predicate: True, result: Continue), Rule(action: {}, predicate: Not(True), result: Return), Rule(action: Noop", tagged("c"), jump)],
                    vec![s(target)],
                )),
            ),
        };
        main.push(st);
        let mut files = Vec::new();
        if let Some(h) = host {
            if included {
                main.push(Ent::Include(s("c.ron"), Some(1)));
                files.push(RFile { path: s("c.ron"), entries: vec![h] });
            } else {
                main.push(h);
            }
        }
        files.insert(0, RFile { path: s("main.ron"), entries: main });
        c11_case(e, &files, false)
    });
    // A jump beside every other action, under every predicate: whether it is ever reached does not matter.
    let all_acts: Vec<String> = acts().iter().map(|a| a.ron()).filter(|a| !a.contains("JumpChain")).collect();
    let all_preds: Vec<String> = preds().iter().flat_map(|p| [p.ron(), Pred::Not(Box::new(p.clone())).ron()]).collect();
    let ways = 6;
    c.par("jumps beside other actions", (all_acts.len() + all_preds.len()) * ways * 2 * 2 * 2, |e, i| {
        let mut d = Dig(i);
        let (way, good, ret, place) = (d.take(ways), d.take(2) == 0, *d.of(&["Continue", "Return"]), d.take(2));
        let (act, pred) = if d.0 < all_acts.len() { (all_acts[d.0].as_str(), "Not(True)") } else { ("Noop", all_preds[d.0 - all_acts.len()].as_str()) };
        let j = format!("JumpChain({})", q(if good { "x" } else { "missing" }));
        let rule = |a: &str, p: &str| format!("Rule(action: {}, predicate: {}, result: {})", a, p, ret);
        let host = match way {
            0 => rule(&format!("All([{}, {}])", act, j), pred),
            1 => rule(&format!("All([{}, {}])", j, act), pred),
            2 => rule(&format!("All([All([{}]), All([Noop, {}])])", act, j), pred),
            3 => rule(&format!("All([{}, All([{}]), {}])", act, j, act), pred),
            4 => format!("{}, {}", rule(act, pred), rule(&j, pred)),
            _ => format!("{}, {}", rule(&j, pred), rule(act, pred)),
        };
        let start = "Rule(action: AddPostingFlagTag(\"in-start\"), predicate: True, result: Continue), Rule(action: AddPostingFlagTag(\"reached\"), predicate: True, result: Return)";
        let x = "Chain(\"x\", [])";
        // In a chain that nobody jumps to, or in the start chain behind the rule that returns.
        let text = if place == 0 {
            format!("Chain(\"start\", [{}]), Chain(\"c\", [{}]), {}", start, host, x)
        } else {
            format!("Chain(\"start\", [{}, {}]), {}", start, host, x)
        };
        named_case(e, &[RFile { path: s("main.ron"), entries: vec![Ent::Raw(text)] }], good)
    });
    // Files that do not parse, or are missing, at each place.
    let bad = [
        "Chain(\"x\", [Rule(action: Nope, predicate: True, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: Nope, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: True, result: Nope)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: True)]),\n",
        "Chain(\"x\", [Rule(predicate: True, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, result: Continue)]),\n",
        "Chain(\"x\"),\n",
        "Chain([]),\n",
        "Include(),\n",
        "Include(1),\n",
        "Other(\"x\"),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: Account(Matches(\"(\")), result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: ReplaceTransactionDescription(RegexReplace(regex: \"[\", replacement: \"\")), predicate: True, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: AddPostingFlagTag(1), predicate: True, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: AddPostingValueTag(\"a\"), predicate: True, result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: PostingValueTag(\"a\"), result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: Not(), result: Continue)]),\n",
        "Chain(\"x\", [Rule(action: Noop, predicate: True, result: Continue)\n",
        "]\n",
        "\"\n",
    ];
    c.par("malformed", bad.len() * 4 * 2, |e, i| {
        let mut d = Dig(i);
        let b = *d.of(&bad);
        let place = d.take(4);
        let pos = d.take(2);
        let st = Ent::Chain(s("start"), vec![tagged("start")], vec![]);
        let mut files = vec![
            RFile { path: s("main.ron"), entries: vec![st, Ent::Include(s("sub/a.ron"), Some(1))] },
            RFile { path: s("sub/a.ron"), entries: vec![Ent::Include(s("../b.ron"), Some(2))] },
            RFile { path: s("b.ron"), entries: vec![Ent::Chain(s("z"), vec![tagged("z")], vec![])] },
        ];
        if place < 3 {
            let at = if pos == 0 { 0 } else { files[place].entries.len() };
            files[place].entries.insert(at, Ent::Raw(s(b)));
        } else {
            // Not included: harmless.
            files.push(RFile { path: s("c.ron"), entries: vec![Ent::Raw(s(b))] });
        }
        c11_case(e, &files, false)
    });
    let whole = ["", "\n", "[", "{}", "()", "Chain(\"start\", [])", "[] x", "[1]", "[Chain(\"start\", [])", "\u{0}", "[Chain(\"start\", []), /* ]"];
    c.par("not a rules file", whole.len() * 3, |e, i| {
        let place = i % 3;
        let w = whole[i / 3];
        let mut files = vec![
            RFile { path: s("main.ron"), entries: vec![Ent::Chain(s("start"), vec![tagged("start")], vec![]), Ent::Include(s("a.ron"), Some(1))] },
            RFile { path: s("a.ron"), entries: vec![Ent::Include(s("b.ron"), Some(2))] },
            RFile { path: s("b.ron"), entries: vec![] },
        ];
        files[place].entries = vec![Ent::Raw(s(w))];
        c11_case(e, &files, true)
    });
    c.par("missing files", 3 * 5 * 2, |e, i| {
        let mut d = Dig(i);
        let place = d.take(3);
        let p = ["none.ron", "", "sub", "sub/none.ron", "../none.ron"][d.take(5)];
        let first = d.take(2) == 0;
        let mut files = vec![
            RFile { path: s("main.ron"), entries: vec![Ent::Include(s("sub/a.ron"), Some(1)), Ent::Chain(s("start"), vec![tagged("start")], vec![])] },
            RFile { path: s("sub/a.ron"), entries: vec![Ent::Include(s("b.ron"), Some(2))] },
            RFile { path: s("sub/b.ron"), entries: vec![Ent::Chain(s("z"), vec![tagged("z")], vec![])] },
        ];
        let at = if first { 0 } else { files[place].entries.len() };
        files[place].entries.insert(at, Ent::Include(s(p), None));
        c11_case(e, &files, false)
    });
    // Long inclusion chains and many chains.
    c.par("sizes", 60, |e, i| {
        let n = 1 + i / 2;
        let broken = i % 2 == 1;
        let mut files: Vec<RFile> = (0..n)
            .map(|k| {
                let mut entries = vec![Ent::Chain(format!("c{}", k), vec![tagged(&format!("c{}", k))], vec![])];
                if k + 1 < n {
                    entries.insert(k % 2, Ent::Include(rel(&format!("d{}/f.ron", k), &format!("d{}/f.ron", k + 1)), Some(k + 1)));
                } else {
                    let mut js: Vec<String> = (0..n).map(|k| format!("c{}", k)).collect();
                    if broken {
                        js.push(format!("c{}", n));
                    }
                    let mut acts = vec![tagged("start")];
                    acts.extend(js.iter().map(|j| nested(j, 0, 0)));
                    entries.push(Ent::Chain(s("start"), acts, js));
                }
                RFile { path: format!("d{}/f.ron", k), entries }
            })
            .collect();
        if n > 2 {
            let last = n - 1;
            files[last].entries.push(Ent::Include(s("../d0/f.ron"), Some(0)));
        }
        c11_case(e, &files, false)
    });
    // Other files of the name of the included one, where it is not looked for; the right one may be missing.
    let at = |dir: &str, name: &str| {
        // "." and ".." taken out; None above the scratch directory.
        let mut v: Vec<String> = Vec::new();
        for x in dir.split('/').chain(name.split('/')).filter(|x| *x != ".") {
            if x == ".." {
                v.pop()?;
            } else {
                v.push(s(x));
            }
        }
        Some(v.join("/"))
    };
    let homes = [".", "d", "d/sub", "e"];
    let targets = ["c.ron", "sub/c.ron", "../c.ron", "./c.ron", "sub/../c.ron", "d/c.ron"];
    let places = ["c.ron", "d/c.ron", "d/sub/c.ron", "e/c.ron", "sub/c.ron", "d/sub/sub/c.ron"];
    c.par("other files of the same name", homes.len() * homes.len() * targets.len() * 64, |e, i| {
        let mut d = Dig(i);
        let (hm, ha, t, present) = (*d.of(&homes), *d.of(&homes), *d.of(&targets), d.take(64));
        let (main, a) = (at(hm, "main.ron").unwrap(), at(ha, "a.ron").unwrap());
        let Some(right) = at(ha, t) else { return Ok(()) };
        // A path through a directory that is not there leads nowhere.
        if t == "sub/../c.ron" && ha != "d" && !(ha == "." && present >> 4 & 1 == 1) && !(ha == "d/sub" && present >> 5 & 1 == 1) {
            return Ok(());
        }
        let there = places.iter().position(|x| *x == right).is_some_and(|k| present >> k & 1 == 1);
        let mut files = vec![
            RFile { path: main.clone(), entries: vec![Ent::Include(rel(&main, &a), Some(1)), Ent::Chain(s("start"), vec![tagged("start"), nested("x", 0, 0)], vec![s("x")])] },
            RFile { path: a, entries: vec![Ent::Include(s(t), there.then_some(2))] },
        ];
        if there {
            files.push(RFile { path: right.clone(), entries: vec![Ent::Chain(s("x"), vec![tagged("x")], vec![])] });
        }
        for (k, x) in places.iter().enumerate() {
            if present >> k & 1 == 1 && *x != right {
                files.push(RFile { path: s(x), entries: vec![Ent::Chain(s("x"), vec![tagged("decoy")], vec![])] });
            }
        }
        // The directories are there, whether or not the files are.
        e.sut.put("d/sub/keep", "");
        c11_case(e, &files, false)
    });
    // Names that are almost that of the included file, which is missing or not.
    let near = ["c", "C.ron", "c.RON", "c.ron~", "c.ron.ron", " c.ron", "c.ron ", "./c.ron.bak", "c.ro", "c..ron", ".ron", "c.ron.", "*.ron", "?.ron", "c.json", "c/mod.ron", "c/c.ron", "c.ron/c.ron", "c%2eron", "~/c.ron", "include/c.ron", "rules/c.ron", "c.ron;1", "a.c.ron"];
    c.par("names almost the same", near.len() * near.len() * 2 * 2, |e, i| {
        let mut d = Dig(i);
        let (n, m, has, deep) = (*d.of(&near), *d.of(&near), d.take(2) == 1, d.take(2) == 1);
        let given = if has { n } else { "c.ron" };
        if has && (n == m || n.starts_with("c.ron/") || m.starts_with("c.ron/") || n.starts_with("c/") && m == "c" || m.starts_with("c/") && n == "c") || !has && given == m {
            return Ok(());
        }
        let dir = if deep { "d/" } else { "" };
        let inc = Ent::Include(s(given), has.then_some(1));
        let start = Ent::Chain(s("start"), vec![tagged("start"), nested("x", 0, 0)], vec![s("x")]);
        let mut files = vec![RFile { path: format!("{}main.ron", dir), entries: vec![inc, start] }];
        if has {
            files.push(RFile { path: format!("{}{}", dir, n), entries: vec![Ent::Chain(s("x"), vec![tagged("x")], vec![])] });
        }
        files.push(RFile { path: format!("{}{}", dir, m), entries: vec![Ent::Chain(s("x"), vec![tagged("decoy")], vec![])] });
        c11_case(e, &files, false)
    });
    // Many files, included from one or each from the one before; many chains with names almost the same.
    let counts = [2, 3, 5, 8, 9, 12, 13, 14, 16, 17, 20, 31, 32, 33, 34, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201];
    c.par("many files", counts.len() * 2 * 2 * 4, |e, i| {
        let mut d = Dig(i);
        let (n, star, broken, kind) = (*d.of(&counts), d.take(2) == 0, d.take(2) == 1, d.take(4));
        let n = if kind > 0 { n.min(40) } else { n };
        let js: Vec<String> = (0..n).map(|k| format!("c{}", k)).collect();
        // Some or all of the files have nothing in them.
        let nothing = |k: usize| match kind {
            1 => k == n - 1,
            2 => k < n - 1,
            3 => k % 2 == 0,
            _ => false,
        };
        let mut js2: Vec<String> = (0..n).filter(|k| !nothing(*k)).map(|k| js[k].clone()).collect();
        if broken {
            js2.push(format!("c{}", n));
        }
        let acts = [vec![tagged("start")], js2.iter().map(|j| nested(j, 0, 0)).collect()].concat();
        let mut files = vec![RFile { path: s("main.ron"), entries: vec![Ent::Chain(s("start"), acts, js2)] }];
        for k in 0..n {
            let entries = if nothing(k) { vec![] } else { vec![Ent::Chain(js[k].clone(), vec![tagged(&js[k])], vec![])] };
            let f = RFile { path: format!("f{}.ron", k), entries };
            files.push(f);
            let at = if star { 0 } else { k };
            files[at].entries.push(Ent::Include(format!("f{}.ron", k), Some(k + 1)));
        }
        c11_case(e, &files, false)
    });
    let odd = ["x", "X", " x", "x ", "", "xx", "é", "e\u{301}", "É", "start ", "Start", "START", "a\"b", "a b", "1", "\\", "c\n"];
    c.par("names of chains", odd.len() * odd.len() * 2, |e, i| {
        let mut d = Dig(i);
        let (a, b, host) = (*d.of(&odd), *d.of(&odd), d.take(2));
        let acts = vec![tagged("start"), nested(b, 0, 0)];
        let ch = Ent::Chain(s(a), vec![s("AddPostingFlagTag(\"reached\")")], vec![]);
        let st = Ent::Chain(s("start"), acts, vec![s(b)]);
        let files = if host == 0 {
            vec![RFile { path: s("main.ron"), entries: vec![st, ch] }]
        } else {
            vec![RFile { path: s("main.ron"), entries: vec![Ent::Include(s("a.ron"), Some(1)), st] }, RFile { path: s("a.ron"), entries: vec![ch] }]
        };
        named_case(e, &files, a == b)
    });
    ("exploration", "every case is a set of rules files (all inclusion graphs of three files over directories, all placements of chain definitions, jumps at every nesting and place, malformed and missing files at every place); non-trivial if it has several files or must be rejected; distinct by content")
}
