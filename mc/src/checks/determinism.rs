//! The same inputs give the same outputs, whatever the seeds of hash tables, the clock and the environment.

use super::imports::{small_import, KINDS3};
use super::journals::{EMPTY_RULES, fmt_items};
use super::merging::*;
use crate::ctx::{Ctx, Env, R};
use crate::ensure;
use crate::imports::Ns;
use crate::journal::*;
use crate::merge::{files, put_files, Files};
use crate::sut::Out;
use std::collections::{BTreeSet, HashMap, HashSet};

/// Prints, for sets of 2 to 4 elements, how many iteration orders the seeds 1..=k realise at least, over the
/// first tables a thread makes. Runs with the seed library preloaded.
pub fn orders(k: u64) {
    use std::os::unix::fs::FileExt;
    let path = std::env::var("ACCMC_SEED_FILE").expect("ACCMC_SEED_FILE");
    let cell = std::fs::OpenOptions::new().write(true).read(true).open(path).expect("seed file");
    const TABLES: usize = 24;
    let names = [["fp-a", "fp-b", "fp-c", "fp-d"], ["a", "key", "unknown-account", "import-self"], ["in00.journal", "in01.journal", "s1", "s2"]];
    for n in 2..=4usize {
        let mut least = usize::MAX;
        for set in names {
            let mut seen: Vec<BTreeSet<Vec<String>>> = vec![BTreeSet::new(); TABLES];
            let mut seen_u: Vec<BTreeSet<Vec<usize>>> = vec![BTreeSet::new(); TABLES];
            for seed in 1..=k {
                cell.write_all_at(&seed.to_le_bytes(), 0).unwrap();
                let got = std::thread::spawn(move || {
                    let mut v = Vec::new();
                    let mut u = Vec::new();
                    for i in 0..TABLES {
                        if i % 2 == 0 {
                            let s: HashSet<String> = set[..n].iter().map(|x| x.to_string()).collect();
                            v.push((i, s.into_iter().collect::<Vec<_>>()));
                        } else {
                            let s: HashMap<usize, ()> = (0..n).map(|x| (x, ())).collect();
                            u.push((i, s.into_keys().collect::<Vec<_>>()));
                        }
                    }
                    (v, u)
                })
                .join()
                .unwrap();
                for (i, o) in got.0 {
                    seen[i].insert(o);
                }
                for (i, o) in got.1 {
                    seen_u[i].insert(o);
                }
            }
            for i in 0..TABLES {
                least = least.min(if i % 2 == 0 { seen[i].len() } else { seen_u[i].len() });
            }
        }
        println!("{} {}", n, least);
    }
}

fn realised(c: &Ctx, k: u64) {
    let f = c.scratch.join("orders.seed");
    std::fs::write(&f, [0u8; 4096]).expect("seed file");
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["orders", &k.to_string()])
        .env("LD_PRELOAD", lib(c))
        .env("ACCMC_SEED_FILE", &f)
        .output()
        .expect("running the orders probe");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let all = |n: usize| (1..=n).product::<usize>();
    for l in text.lines() {
        let (n, k) = l.split_once(' ').unwrap_or(("0", "0"));
        let (n, k): (usize, usize) = (n.parse().unwrap(), k.parse().unwrap());
        c.extra(&format!("iteration orders realised for sets of {}", n), format!("at least {} of {} at every table", k, all(n)));
        if n < 4 && k != all(n) {
            eprintln!("mc: the seeds realise only {} of {} orders of {} elements", k, all(n), n);
            std::process::exit(3);
        }
    }
    if text.lines().count() != 3 {
        eprintln!("mc: the orders probe failed: {}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(3);
    }
}

fn lib(c: &Ctx) -> std::path::PathBuf {
    c.root.join("target/libseed.so")
}

const CLOCKS: [i64; 6] = [0, 86400 * 200, -86400 * 365 * 9, 43200, 86400 * 365 * 30, -86400];

fn kind(o: &Out) -> &'static str {
    match o {
        Out::Ok => "success",
        Out::Err(_) => "failure",
        Out::Usage(_) => "usage",
        Out::Panic(_) => "panic",
        Out::Crash(_) => "crash",
        Out::Hang => "hang",
    }
}

/// Runs a command under each seed and compares everything it leaves.
fn det(c: &Ctx, e: &mut Env, seeds: u64, prep: &dyn Fn(&mut Env) -> Vec<String>) -> R {
    let mut first = None;
    for k in 1..=seeds {
        let clock = CLOCKS[k as usize % CLOCKS.len()];
        e.sut.set_seed(&lib(c), k, clock);
        e.sut.reset();
        let a = prep(e);
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let out = e.sut.run(&a);
        let mut tree = e.sut.tree();
        tree.retain(|f| f.0 != "tess.list");
        e.case(true, &(k, &a, &tree));
        e.transition();
        match &first {
            None => {
                e.outcome(kind(&out));
                e.state(&tree);
                e.sample(|| format!("{:?} under {} seeds: {}\n{}", a, seeds, kind(&out), show(&tree)));
                first = Some((kind(&out), tree, clock));
            }
            Some((w, t, cl)) => {
                ensure!(*w == kind(&out), "status differs", "{:?}: {} with seed 1 (clock {:+}), {} with seed {} (clock {:+})\n{}", a, w, cl, out.short(), k, clock, show(t));
                if *t != tree {
                    let (x, y) = t.iter().zip(&tree).find(|(x, y)| x != y).map(|(x, y)| (show(std::slice::from_ref(x)), show(std::slice::from_ref(y)))).unwrap_or((show(t), show(&tree)));
                    return crate::ctx::fail("output differs", format!("{:?} gave with seed 1 (clock {:+})\n{}\nand with seed {} (clock {:+})\n{}\nall files:\n{}", a, cl, x, k, clock, y, show(t)));
                }
            }
        }
    }
    e.validated();
    Ok(())
}

fn show(t: &[(String, Vec<u8>)]) -> String {
    t.iter().map(|(n, x)| format!("--- {}\n{}", n, String::from_utf8_lossy(x))).collect::<Vec<_>>().join("\n")
}

fn s(x: &str) -> String {
    x.into()
}

fn merge_args(fs: &Files) -> Vec<String> {
    let mut a: Vec<String> = ["merge", "-o", "out.journal", "-u", "un.journal"].iter().map(|x| s(x)).collect();
    a.extend(fs.iter().map(|f| f.0.clone()));
    a
}

fn merged(c: &Ctx, e: &mut Env, seeds: u64, fs: &Files) -> R {
    det(c, e, seeds, &|e| {
        put_files(e, fs);
        merge_args(fs)
    })
}

pub fn c08(c: &Ctx) -> (&'static str, &'static str) {
    let many = if c.thorough { 512 } else { 64 };
    let some = if c.thorough { 48 } else { 6 };
    realised(c, many);
    let names = ["a", "key", "a-long-flag-tag-name", "b", "zz"];
    // Tags.
    c.par("tags", 5 * 5 * 4 * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (nf, nv, nfp, cmd, split) = (g.take(5), g.take(5), 1 + g.take(4), g.take(3), g.take(2) == 1);
        let mut c1 = Comment::default();
        let mut c2 = Comment::default();
        for (k, n) in names.iter().enumerate() {
            let (x, y) = if split && k % 2 == 1 { (&mut c2, &mut c1) } else { (&mut c1, &mut c2) };
            if k < nf {
                *x = x.clone().flag(n);
                *y = y.clone().flag(&format!("{}{}", n, n));
            }
            if k < nv {
                *x = x.clone().val(n, "1");
                *y = y.clone().val(n, "2");
            }
        }
        let mut p = post("assets:a", "GBP1", &["x0", "x1", "x2", "x3"][..nfp]);
        let mut q = post("assets:a", "GBP1", &["x0", "y1", "y2", "y3"][..nfp]);
        p.c.flags.extend(c1.flags.clone());
        p.c.kv.extend(c1.kv.clone());
        q.c.flags.extend(c2.flags.clone());
        q.c.kv.extend(c2.kv.clone());
        let (mut a, mut b) = (trn(D1, "t", vec![p]), trn(D1, "t", vec![q, post("assets:b", "GBP2", &["z"])]));
        a.c = c1;
        b.c = c2;
        det(c, e, many, &|e| match cmd {
            0 => {
                let fs = files(vec![vec![a.clone()], vec![b.clone()]]);
                put_files(e, &fs);
                merge_args(&fs)
            }
            1 => {
                e.sut.put("in.journal", render(&[a.clone(), b.clone()]));
                let acts: Vec<String> = names[..nf].iter().map(|n| format!("AddPostingFlagTag(\"new-{0}\"), AddTransactionFlagTag(\"new-{0}\"), AddPostingValueTag(\"new-{0}\", \"{0}\")", n)).collect();
                e.sut.put("r.ron", format!("[Chain(\"start\", [Rule(action: All([{}]), predicate: True, result: Continue)])]", acts.join(", ")));
                ["apply-rules", "-o", "out.journal", "in.journal", "table", "r.ron"].iter().map(|x| s(x)).collect()
            }
            _ => {
                e.sut.put("in.journal", render(&[a.clone(), b.clone()]));
                vec![s("generate-fingerprints"), s("in.journal")]
            }
        })
    });
    c.one("probe of the seeds", |e| {
        let before = {
            e.sut.set_seed(&lib(c), 1, 0);
            e.sut.seeds_used()
        };
        e.sut.put("in.journal", "2020-01-01 x\n  a  GBP1\n  ; :fp-a:\n");
        let out = e.sut.run(&["merge", "-o", "out.journal", "in.journal"]);
        c.extra("seeds drawn by one merge", (e.sut.seeds_used() - before).to_string());
        e.case(false, "probe");
        ensure!(out.ok(), "merge fails", "{}", out.short());
        Ok(())
    });
    // Sources and dates.
    for n in 2..=if c.thorough { 5 } else { 4u32 } {
        let total = 4usize.pow(n) * 2usize.pow(n);
        c.par(["", "", "two of a source", "three of a source", "four of a source", "five of a source"][n as usize], total * 2, |e, i| {
            let mut g = Dig(i);
            let split = g.take(2) == 1;
            let mut js: Vec<Vec<Trn>> = vec![vec![], vec![]];
            for k in 0..n as usize {
                let (src, late) = (g.take(4), g.take(2) == 1);
                let mut t = trn(if late { D2 } else { D1 }, &format!("t{}", k), vec![post("assets:a", &format!("GBP{}", k + 1), &[&format!("k{}", k)])]);
                if src > 0 {
                    t.c.kv.insert(SRC.into(), ["", "s1", "s2", "in00.journal"][src].into());
                }
                js[if split { k % 2 } else { 0 }].push(t);
            }
            js.retain(|j| !j.is_empty());
            merged(c, e, if n < 4 { many } else { some }, &files(js))
        });
    }
    // Candidates: several postings that look alike, in one or several transactions, with several fingerprints.
    c.par("candidates", 4 * 3 * 3 * 3 * 2 * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (n, fps, layout, incoming, unknown, dates) = (2 + g.take(4), 1 + g.take(3), g.take(3), 1 + g.take(3), g.take(2) == 1, g.take(3));
        let ends = [["", "b", "a"], ["c", "b", "a"]][g.take(2)];
        let tag = |x: String| -> Vec<String> { (0..fps).map(|k| format!("{}{}", x, ends[k])).collect() };
        let mk = |x: String| {
            let t = tag(x);
            let r: Vec<&str> = t.iter().map(|y| y.as_str()).collect();
            let p = post("assets:a", "GBP1", &r);
            if unknown { unk(p) } else { p }
        };
        let old: Vec<Post> = (0..n).map(|k| mk(format!("o{}", (k * 7) % n))).collect();
        let mut ts: Vec<Trn> = match layout {
            0 => vec![trn(D1, "all", old)],
            1 => old.into_iter().enumerate().map(|(k, p)| trn(D1, &format!("o{}", k), vec![p])).collect(),
            _ => old.chunks(2).enumerate().map(|(k, p)| trn(D1, &format!("o{}", k), p.to_vec())).collect(),
        };
        if dates == 1 {
            ts.reverse();
        }
        if dates == 2 {
            ts.iter_mut().enumerate().for_each(|(k, t)| {
                t.c.kv.insert(SRC.into(), format!("s{}", k % 3));
            });
        }
        let new: Vec<Post> = (0..incoming).map(|k| mk(format!("n{}", k))).collect();
        let last = if dates == 1 { new.iter().enumerate().map(|(k, p)| trn(D1, &format!("n{}", k), vec![p.clone()])).collect() } else { vec![trn(D1, "new", new)] };
        merged(c, e, many, &files(vec![ts, last]))
    });
    // A transaction that matches several postings at once.
    c.par("several matches", 4usize.pow(4) * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let ks: Vec<usize> = (0..4).map(|_| g.take(4)).collect();
        let (layout, two) = (g.take(3), g.take(2) == 1);
        let old: Vec<Post> = (0..4).map(|k| post(&format!("assets:a{}", k / 2), &format!("GBP{}", k + 1), &[&format!("o{}", k), &format!("p{}", k)])).collect();
        let ts: Vec<Trn> = match layout {
            0 => vec![trn(D1, "all", old.clone())],
            1 => old.chunks(2).map(|p| trn(D1, "half", p.to_vec())).collect(),
            _ => old.chunks(3).map(|p| trn(D1, "most", p.to_vec())).collect(),
        };
        let new: Vec<Post> = ks
            .iter()
            .enumerate()
            .map(|(k, x)| match x {
                0 => post(&format!("assets:a{}", k / 2), &format!("GBP{}", k + 1), &[&format!("n{}", k)]),
                1 => post("assets:other", "GBP77", &[&format!("n{}", k), &format!("o{}", k)]),
                2 => post("assets:other", &format!("GBP7{}", k), &[&format!("n{}", k)]),
                _ => post("assets:other", "GBP77", &[&format!("p{}", k), &format!("o{}", k)]),
            })
            .collect();
        let last = if two { new.chunks(2).map(|p| trn(D1, "new", p.to_vec())).collect() } else { vec![trn(D1, "new", new)] };
        merged(c, e, many / 3, &files(vec![ts, last]))
    });
    // The families of the merge checks.
    let mut fams = fam_two();
    fams.extend(fam_conflict());
    fams.extend(fam_order(c.thorough));
    fams.extend(fam_comments());
    fams.extend(fam_seq(if c.thorough { 3 } else { 2 }));
    if c.thorough {
        fams.extend(fam_fields(false));
        fams.extend(fam_pair(false));
    }
    for f in fams {
        let step = if f.n > 6000 && !c.thorough { f.n / 6000 + 1 } else { 1 };
        if step > 1 {
            c.note(format!("quick: every {}th case of \"{}\"", step, f.name));
        }
        c.par(f.name, f.n.div_ceil(step), |e, i| merged(c, e, some, &(f.gen)(i * step)));
    }
    c.par("sizes", 6 * 9, |e, i| {
        let mut g = Dig(i);
        let (n, k) = ([2, 3, 5, 9, 17, 40][g.take(6)], g.take(9));
        merged(c, e, if c.thorough { 64 } else { 16 }, &scale(k, n))
    });
    let alike = alike();
    c.par("names that are alike", alike.len() * 15 * 6, |e, i| {
        let mut g = Dig(i);
        let (group, set, how) = (&alike[g.take(alike.len())], 1 + g.take(15), g.take(6));
        let names: Vec<&str> = (0..4).filter(|k| set >> k & 1 == 1).map(|k| group[k].as_str()).collect();
        let n = names.len();
        let fs = match how {
            // Sources, unmerged and merged.
            0 => {
                let mut v = vec![trn(D1, "all", vec![post("assets:a", "GBP1", &["a"]), post("assets:a", "GBP1", &["b"])])];
                for (k, x) in names.iter().enumerate().rev() {
                    for l in 0..2 {
                        let mut t = trn(D1, &format!("t{}{}", k, l), vec![post(["assets:a", "assets:n"][l], "GBP1", &[&format!("s{}{}", k, l)])]);
                        t.c.kv.insert(SRC.into(), x.to_string());
                        v.push(t);
                    }
                }
                files(vec![v])
            }
            // Tags and keys of postings and transactions.
            1 | 2 => {
                let mut t = trn(D1, "t", vec![post("assets:a", "GBP1", &["p"])]);
                let mut u = t.clone();
                for (k, x) in names.iter().enumerate() {
                    let d = if how == 2 && k % 2 == 0 { &mut u } else { &mut t };
                    d.posts[0].c = d.posts[0].c.clone().flag(x).val(x, &k.to_string());
                    d.c = d.c.clone().flag(x).val(x, &k.to_string());
                }
                if how == 1 { files(vec![vec![t]]) } else { files(vec![vec![t], vec![u]]) }
            }
            // Fingerprints, of one posting and of candidates.
            3 => files(vec![vec![trn(D1, "t", vec![post("assets:a", "GBP1", &names)])], vec![trn(D1, "u", vec![post("assets:a", "GBP1", &names[..1])])]]),
            4 => {
                let mut p: Vec<Post> = names.iter().map(|x| post("assets:a", "GBP1", &[x])).collect();
                if n > 2 {
                    p.rotate_left(1);
                }
                files(vec![vec![trn(D1, "t", p)], vec![trn(D1, "u", vec![post("assets:a", "GBP1", &["new"])])]])
            }
            // Accounts and descriptions of new transactions.
            _ => files(vec![names.iter().map(|x| trn(D1, x, vec![post(&format!("assets:{}", x), "GBP1", &[x])])).collect(), vec![trn(D1, "u", vec![unk(post("assets:u", "GBP1", &["new"]))])]]),
        };
        merged(c, e, if c.thorough { many } else { 16 }, &fs)
    });
    // Dates of all centuries, where days, months or years differ.
    let years = [1, 33, 999, 1000, 1582, 1752, 1899, 1900, 1969, 1970, 1999, 2000, 2019, 2024, 2038, 2099, 2100, 2999, 9900, 9999];
    c.par("dates", years.len() * 5 * 2, |e, i| {
        let mut g = Dig(i);
        let (y, how, same) = (years[g.take(years.len())], g.take(5), g.take(2) == 1);
        let ts: Vec<Trn> = (0..8)
            .map(|k| {
                let d = match how {
                    0 => format!("{:04}-03-{:02}", y, k + 1),
                    1 => format!("{:04}-{:02}-05", y, k + 1),
                    2 => format!("{:04}-01-05", years[(years.iter().position(|x| *x == y).unwrap() + k * 3) % years.len()]),
                    3 => format!("{:04}-{:02}-{:02}", y, k % 4 + 1, 4 - k % 4),
                    _ => format!("{:04}-12-{:02}", y, 31 - k),
                };
                trn(&d, if same { "t" } else { ["t", "u", "v"][k % 3] }, vec![post("assets:a", &format!("GBP{}", k + 1), &[&format!("k{}", k)])])
            })
            .collect();
        merged(c, e, 16, &files(vec![ts]))
    });
    let nfeat = features().len();
    let feat = fam_feat().pop().unwrap();
    c.par("features", 3 * nfeat * 9, |e, i| {
        let mut g = Dig(i);
        let (f, both, sit) = (g.take(nfeat), g.take(3), g.take(9));
        let (x, y) = [(f, 0), (0, f), (f, f)][both];
        merged(c, e, some, &(feat.gen)(x + nfeat * (y + nfeat * sit)))
    });
    // Rules: chains, includes and lookups are in tables.
    c.par("rules", 5 * 4 * 6, |e, i| {
        let mut g = Dig(i);
        let (n, how, bad) = (1 + g.take(5), g.take(4), g.take(6));
        det(c, e, many, &|e| {
            e.sut.put("in.journal", render(&super::rules::wide()));
            let chains: Vec<String> = (0..n)
                .map(|k| {
                    let act = [format!("AddPostingFlagTag(\"c{}\")", k), format!("AddPostingValueTag(\"v\", \"c{}\")", k), format!("SetAccount(\"c{}\")", k), format!("JumpChain(\"c{}\")", k + 1)][how].clone();
                    let act = if k + 1 == n && how == 3 { s("AddPostingFlagTag(\"end\")") } else { act };
                    format!("Chain(\"{}\", [Rule(action: {}, predicate: True, result: Continue), Rule(action: {}, predicate: True, result: Continue)]),", if k == 0 { s("start") } else { format!("c{}", k) }, act, if k + 1 < n { format!("JumpChain(\"c{}\")", k + 1) } else { s("Noop") })
                })
                .collect();
            let extra = match bad {
                0 => s(""),
                1 => s("Chain(\"start\", []),"),
                2 => s("Chain(\"x\", [Rule(action: JumpChain(\"nowhere\"), predicate: True, result: Continue)]), Chain(\"y\", [Rule(action: JumpChain(\"nowhere2\"), predicate: True, result: Continue)]),"),
                3 => s("Include(\"inc1.ron\"), Include(\"inc2.ron\"),"),
                4 => s("Include(\"inc1.ron\"), Include(\"inc1.ron\"),"),
                _ => s("Chain(\"x\", [Rule(action: Error(\"e\"), predicate: True, result: Continue)]),"),
            };
            e.sut.put("inc1.ron", "[Chain(\"i1\", [])]");
            e.sut.put("inc2.ron", "[Chain(\"i2\", []), Chain(\"i3\", [])]");
            e.sut.put("r.ron", format!("[{}{}]", chains.concat(), extra));
            ["apply-rules", "-o", "out.journal", "in.journal", "table", "r.ron"].iter().map(|x| s(x)).collect()
        })
    });
    // Many chains, with something wrong with one of them.
    let counts = [8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300];
    c.par("many chains", counts.len() * 4 * 3, |e, i| {
        let mut g = Dig(i);
        let (n, bad, at) = (*g.of(&counts), g.take(4), g.take(3));
        det(c, e, many / 4, &|e| {
            e.sut.put("in.journal", "2020-01-01 a\n  x  GBP1\n  y  GBP2\n");
            let mut t = s("[Chain(\"start\", []),\n");
            let at = [0, n / 2, n - 1][at];
            for k in 0..n {
                let act = match bad {
                    1 if k == at => s("JumpChain(\"none\")"),
                    2 if k == at => s("All([Noop, All([JumpChain(\"none\")])])"),
                    3 if k == at => s("JumpChain(\"start\")"),
                    _ => format!("JumpChain(\"c{}\")", (k + 1) % n),
                };
                t.push_str(&format!("Chain(\"c{}\", [Rule(predicate: True, action: {}, result: Continue)]),\n", k, act));
            }
            t.push(']');
            e.sut.put("r.ron", t);
            ["apply-rules", "-o", "out.journal", "in.journal", "table", "r.ron"].iter().map(|x| s(x)).collect()
        })
    });
    // Imports.
    let nss = || vec![Ns::Default, Ns::Fixed(s("acct")), Ns::Lookup(vec![(s("****12345"), s("look_1")), (s("12-34-56 12345678"), s("look_1")), (s("x"), s("y")), (s("z"), s("look_1"))])];
    c.par("imports", 3 * 3 * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let (k, ns, legacy, dest) = (KINDS3[g.take(3)], nss()[g.take(3)].clone(), g.take(2) == 1, g.take(2));
        det(c, e, many, &|e| {
            let (a, _, _) = small_import(c, e, k, &ns);
            let mut v: Vec<String> = vec![s("import"), s("-o"), s(["out.journal", "a/%FP_NS%/out.journal"][dest])];
            if dest == 1 {
                v.extend([s("--sub-output-path"), s("--make-parent-dirs")]);
            }
            v.extend(a);
            if legacy && v.iter().any(|x| x != "nationwide-pdf") && !v.contains(&s("nationwide-pdf")) {
                let at = v.iter().position(|x| x.ends_with("-csv")).unwrap() + 1;
                v.insert(at, s("--include-legacy-fingerprint"));
            }
            v
        })
    });
    // Formatting.
    let items = fmt_items();
    c.par("fmt", items.len() * items.len(), |e, i| {
        let text = format!("{}\n{}", items[i / items.len()].0, items[i % items.len()].0);
        det(c, e, some, &|e| {
            e.sut.put("f.journal", &text);
            vec![s("fmt"), s("f.journal")]
        })
    });
    // Previous outputs.
    c.par("previous outputs", 5 * 4, |e, i| {
        let mut g = Dig(i);
        let (cmd, k) = (g.take(5), g.take(4));
        let run = |e: &mut Env, old: Option<&str>| {
            e.sut.reset();
            let a = command(c, e, cmd);
            if let (Some(o), true) = (old, cmd != 3) {
                e.sut.put("out.journal", o);
                e.sut.put("un.journal", o);
            }
            let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
            let out = e.sut.run(&a);
            (kind(&out), e.sut.get("out.journal"), e.sut.get("f.journal"))
        };
        let long = "; long\n".repeat(2000);
        let old = ["", "x", "2001-01-01 old\n  old  GBP1\n  ; :fp-old:\n", long.as_str()][k];
        let (w, g) = (run(e, None), run(e, Some(old)));
        e.case(true, &i);
        ensure!(w.0 == "success" && w == g, "previous content matters", "command {}: {:?} without a previous output, {:?} with {:?}", cmd, w.0, g.0, old.chars().take(60).collect::<String>());
        Ok(())
    });
    // The environment.
    let envs: [(&str, &[&str]); 9] = [
        ("TZ", &["UTC", "America/New_York", "Pacific/Kiritimati", "Asia/Tokyo", "nonsense"]),
        ("LC_ALL", &["C", "de_DE.UTF-8", "C.UTF-8", "tr_TR"]),
        ("LANG", &["C", "en_GB.UTF-8"]),
        ("HOME", &["/", "/nonexistent", ""]),
        ("USER", &["root", "x"]),
        ("RUST_LOG", &["trace", "off"]),
        ("RUST_BACKTRACE", &["1"]),
        ("COLUMNS", &["10", "500"]),
        ("TERM", &["dumb", "xterm-256color"]),
    ];
    let settings: Vec<(&str, &str)> = envs.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    c.par("environment", 5 * settings.len(), |e, i| {
        let mut g = Dig(i);
        let cmd = g.take(5);
        let set = settings[g.0];
        let run = |e: &mut Env, env: &[(&str, &str)]| {
            e.sut.reset();
            let a = command(c, e, cmd);
            let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
            let p = e.sut.plain(&a, None, env);
            let mut t = e.sut.tree();
            t.retain(|f| f.0 != "tess.list");
            (kind(&p.out), p.stdout, t)
        };
        let (w, g) = (run(e, &[]), run(e, &[set]));
        e.case(true, &i);
        ensure!(w.0 == "success" && w == g, "environment matters", "command {} with {}={:?}: {:?}, {:?} without\n{}\n{}", cmd, set.0, set.1, g.0, w.0, show(&g.2), show(&w.2));
        Ok(())
    });
    c.assume("the order in which a hash table gives its elements depends on its seed alone, which the library preloaded into the program sets (shown for each table by the probe)");
    c.assume("joint orders of several tables are those of the seeds used, not all combinations");
    ("model_checking", "every case is one command on one set of files, run under each of the hash seeds and clocks; exit status and all files must be the same; distinct by seed, command line and resulting files; a state is a resulting set of files, a transition one run")
}

/// One command of each kind, on interesting files.
fn command(c: &Ctx, e: &mut Env, k: usize) -> Vec<String> {
    match k {
        0 => {
            let mut fs = ops();
            fs.truncate(2);
            let fs = files(fs);
            put_files(e, &fs);
            merge_args(&fs)
        }
        1 => {
            e.sut.put("in.journal", render(&super::rules::wide()));
            e.sut.put("empty.ron", EMPTY_RULES);
            ["apply-rules", "-o", "out.journal", "in.journal", "table", "empty.ron"].iter().map(|x| s(x)).collect()
        }
        2 | 4 => {
            let (a, _, _) = small_import(c, e, KINDS3[if k == 2 { 0 } else { 2 }], &Ns::Default);
            let mut v: Vec<String> = vec![s("import"), s("-o"), s("out.journal")];
            v.extend(a);
            v
        }
        _ => {
            e.sut.put("f.journal", fmt_items().iter().map(|x| format!("{}\n", x.0)).collect::<String>());
            vec![s("fmt"), s("f.journal")]
        }
    }
}
