//! What must not matter: which files are read and written and how they are named (C27), how
//! journals are laid out (C28), and whether files are standard streams (C29).

use super::imports::{small_import, Kind3};
use super::journals::EMPTY_RULES;
use super::merging::{bal, features, ops, post, scale, trn, unk, Dig, D1, D2};
use super::rules::{full_journal, preds, wide};
use crate::ctx::{fail, Ctx, Env, R};
use crate::ensure;
use crate::imports::Ns;
use crate::journal::*;
use crate::sut::{Out, VIA};
use std::fmt::Write;

fn s(x: &str) -> String {
    x.into()
}

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| s(y)).collect()
}

// ---------------------------------------------------------------------------------------------
// Commands with files in roles.

/// A command; "{i0}" stands for its first input file, "{o0}" for its first output file.
#[derive(Clone)]
struct Job {
    name: String,
    ins: Vec<(String, Vec<u8>)>,
    /// Files that the command reads, but that are not named on its command line.
    extra: Vec<(String, Vec<u8>)>,
    args: Vec<String>,
    /// Number of output files; none if the inputs are rewritten.
    outs: usize,
    /// Inputs that may be "-".
    streams: Vec<usize>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Done {
    ok: bool,
    /// Content of the outputs, or of the inputs if they are rewritten.
    outs: Vec<Option<Vec<u8>>>,
}

fn kind(o: &Out) -> Option<bool> {
    match o {
        Out::Ok => Some(true),
        // A file that is given as part of an option may be read with the command line.
        Out::Err(_) | Out::Usage(_) => Some(false),
        _ => None,
    }
}

fn text(x: &Option<Vec<u8>>) -> String {
    x.as_ref().map(|b| String::from_utf8_lossy(b).chars().take(1500).collect()).unwrap_or_else(|| s("(none)"))
}

/// Without the names of sources.
fn norm(x: &Option<Vec<u8>>) -> Option<String> {
    x.as_ref().map(|b| {
        String::from_utf8_lossy(b)
            .split('\n')
            .map(|l| l.find("source-file: ").map(|p| &l[..p + 12]).unwrap_or(l))
            .collect::<Vec<_>>()
            .join("\n")
    })
}

impl Job {
    fn put(&self, e: &mut Env) {
        for (n, x) in self.ins.iter().chain(&self.extra) {
            e.sut.put(n, x);
        }
    }

    fn out_names(&self) -> Vec<String> {
        (0..self.outs).map(|k| format!("result{}.journal", k)).collect()
    }

    fn in_names(&self) -> Vec<String> {
        self.ins.iter().map(|x| x.0.clone()).collect()
    }

    fn command(&self, ins: &[String], outs: &[String]) -> Vec<String> {
        let mut v = self.args.clone();
        for a in &mut v {
            for (k, n) in ins.iter().enumerate() {
                *a = a.replace(&format!("{{i{}}}", k), n);
            }
            for (k, n) in outs.iter().enumerate() {
                *a = a.replace(&format!("{{o{}}}", k), n);
            }
        }
        v
    }

    fn run(&self, e: &mut Env, ins: &[String], outs: &[String]) -> Out {
        let a = self.command(ins, outs);
        e.sut.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>())
    }

    /// With plain files; leaves the scratch directory empty.
    fn base(&self, e: &mut Env) -> Result<Done, crate::ctx::Fail> {
        self.put(e);
        let (ins, outs) = (self.in_names(), self.out_names());
        let o = self.run(e, &ins, &outs);
        let Some(ok) = kind(&o) else { return fail("disorderly", format!("{}: {}", self.name, o.short())) };
        let d = Done { ok, outs: if self.outs == 0 { &ins } else { &outs }.iter().map(|n| e.sut.get(n)).collect() };
        e.sut.reset();
        Ok(d)
    }
}

fn merge_job(name: &str, js: &[String], un: bool) -> Job {
    let mut args = sv(&["merge", "-o", "{o0}"]);
    if un {
        args.extend(sv(&["-u", "{o1}"]));
    }
    args.extend((0..js.len()).map(|k| format!("{{i{}}}", k)));
    Job {
        name: s(name),
        ins: js.iter().enumerate().map(|(k, j)| (format!("f{}.journal", k), j.clone().into_bytes())).collect(),
        extra: vec![],
        args,
        outs: if un { 2 } else { 1 },
        streams: (0..js.len()).collect(),
    }
}

/// Journals to merge: they share postings, are ambiguous, or fail to merge.
fn histories() -> Vec<(&'static str, Vec<String>)> {
    let a = |f: &str| post("assets:a", "GBP10", &[f]);
    let rich = {
        let mut t = trn(D1, "Rich one", vec![unk(bal(a("a"), "GBP5")), post("expenses:x", "USD-3 @ GBP2", &["b"])]);
        t.st = St::Clr;
        t.code = Some(s("7"));
        t.edate = Some(s(D2));
        t.c = t.c.line("about it").val("k", "v").flag("t");
        t.posts[0].st = St::Pend;
        t.posts[1].kind = Kind::Unbal;
        t.posts[1].c = t.posts[1].c.clone().line("text").val("k", "w");
        t
    };
    let j = |t: &[Trn]| render(t);
    let big: Vec<Trn> = (0..300).map(|k| trn(if k % 2 == 0 { D1 } else { D2 }, &format!("trn {}", k), vec![post("assets:a", &format!("GBP{}", k), &[&format!("z{}", k)]), post("assets:b", &format!("GBP-{}", k), &[&format!("y{}", k)])])).collect();
    vec![
        ("merge", vec![j(&[rich.clone()]), j(&[trn(D1, "two", vec![post("assets:b", "GBP10", &["c"])]), trn(D2, "three", vec![a("d")])])]),
        ("merge of one file", vec![j(&[rich.clone(), trn(D2, "x", vec![a("x")])])]),
        ("merge of the same transactions", vec![j(&[rich.clone()]), j(&[rich.clone()]), j(&[trn(D2, "more", vec![a("a"), a("b")])])]),
        ("merge with unmerged transactions", vec![j(&[trn(D1, "d", vec![a("a"), a("b")])]), j(&[trn(D1, "s", vec![a("c")]), trn(D1, "t", vec![post("assets:new", "GBP7", &["n"])])])]),
        ("merge of three with unmerged transactions", vec![j(&[trn(D1, "d", vec![a("a")])]), j(&[trn(D1, "d", vec![post("assets:a", "GBP11", &["b"]), post("assets:b", "GBP10", &["bb"])])]), j(&[trn(D1, "s", vec![post("assets:z", "GBP11", &["c"]), unk(post("assets:u", "GBP10", &["e"]))])])]),
        ("merge of conflicting files", vec![j(&[trn(D1, "d", vec![a("a"), a("b")])]), j(&[trn(D1, "s", vec![post("assets:a", "GBP10", &["a", "b"])])])]),
        ("merge of an unreadable file", vec![j(&[rich.clone()]), s("2020-01-01 x\n\ngarbage\n")]),
        ("merge that shrinks", vec![format!("\n\n\n{}\n\n\n\n", j(&[rich.clone()]).replace("    ", "                        ")), j(&[rich.clone()]).replace('\n', "\r\n"), s("")]),
        ("merge of long files", vec![j(&big), j(&big[..150]), j(&[rich])]),
        ("merge of empty files", vec![s(""), s("\n")]),
    ]
}

fn jobs(c: &Ctx) -> Vec<Job> {
    let mut v = Vec::new();
    for (n, js) in histories() {
        v.push(merge_job(n, &js, true));
        v.push(merge_job(&format!("{}, no unmerged output", n), &js, false));
    }
    let rules = "[Chain(\"start\", [Rule(action: All([AddPostingFlagTag(\"ruled\"), SetAccount(\"assets:set\")]), predicate: Account(Contains(\"a\")), result: Continue)])]";
    let rules_job = |name: &str, j: String, r: &str, extra: &[(&str, &str)]| Job {
        name: s(name),
        ins: vec![(s("in.journal"), j.into_bytes()), (s("r.ron"), r.as_bytes().to_vec())],
        extra: extra.iter().map(|(n, x)| (s(n), x.as_bytes().to_vec())).collect(),
        args: sv(&["apply-rules", "-o", "{o0}", "{i0}", "table", "{i1}"]),
        outs: 1,
        streams: vec![0],
    };
    let inc = "[Include(\"sub/i.ron\"), Chain(\"start\", [Rule(action: JumpChain(\"x\"), predicate: True, result: Continue)])]";
    let sub = [("sub/i.ron", "[Include(\"../j.ron\")]"), ("j.ron", "[Chain(\"x\", [Rule(action: AddPostingFlagTag(\"ruled\"), predicate: True, result: Continue)])]")];
    v.push(rules_job("apply-rules", render(&wide()), rules, &[]));
    v.push(rules_job("apply-rules of nothing", render(&full_journal()), EMPTY_RULES, &[]));
    v.push(rules_job("apply-rules with includes", render(&wide()), inc, &sub));
    v.push(rules_job("apply-rules that fails", render(&wide()), "[Chain(\"start\", [Rule(action: Error(\"no\"), predicate: True, result: Continue)])]", &[]));
    v.push(rules_job("apply-rules with a missing chain", render(&wide()), &inc.replace("\"x\"", "\"y\""), &sub));
    v.push(rules_job("apply-rules that shrinks", render(&wide()).replace("    ", "                  ").replace('\n', "\r\n"), EMPTY_RULES, &[]));
    v.push(rules_job("apply-rules on an empty journal", s(""), rules, &[]));
    for (cmd, j) in [("fmt", render(&full_journal())), ("fmt", s("2020/01/02=2020/01/03   ! x\r\n\ta\tGBP 1\r\n\r\n; c\r\nP 2020/01/01 00:00:00  EUR 1,000.5 USD")), ("fmt", s("")), ("fmt", s("nonsense\n")), ("generate-fingerprints", render(&[trn(D1, "x", vec![post("a", "GBP1", &["f"])])])), ("generate-fingerprints", s(""))] {
        v.push(Job {
            name: format!("{} of {} bytes", cmd, j.len()),
            ins: vec![(s("in.journal"), j.into_bytes())],
            extra: vec![],
            args: sv(&[cmd, "{i0}"]),
            outs: 0,
            streams: vec![0],
        });
    }
    for (a, b) in [("2020/01/02   ! x\n\ta\tGBP 1\n", "2020-01-01 y\n    b  GBP2\n"), ("2020-01-01 y\n    b  GBP2\n", "")] {
        v.push(Job {
            name: format!("fmt of two, {} bytes", a.len() + b.len()),
            ins: vec![(s("one.journal"), a.as_bytes().to_vec()), (s("two.journal"), b.as_bytes().to_vec())],
            extra: vec![],
            args: sv(&["fmt", "{i0}", "{i1}"]),
            outs: 0,
            streams: vec![0, 1],
        });
    }
    let look = Ns::Lookup(vec![(s("****12345"), s("look"))]);
    for (name, k, ns) in [("nationwide-csv", Kind3::Csv, Ns::Default), ("nationwide-csv with lookup", Kind3::Csv, look), ("paypal-csv", Kind3::Pp, Ns::Fixed(s("ns"))), ("nationwide-pdf", Kind3::Pdf, Ns::Default)] {
        for broken in [false, true] {
            let mut e = c.scratch_env();
            let (args, _, _) = small_import(c, &mut e, k, &ns);
            let mut ins = Vec::new();
            let mut extra = Vec::new();
            let mut args: Vec<String> = [sv(&["import", "-o", "{o0}"]), args].concat();
            for (n, mut x) in e.sut.tree() {
                let named = args.iter().position(|a| *a == n || a.ends_with(&format!(":{}", n)));
                if broken && (n == "in.csv" || n == "ocr.tsv") {
                    x.truncate(x.len() * 2 / 3);
                    x.extend(b"\x01\n\"");
                }
                match named {
                    Some(p) => {
                        args[p] = args[p].replace(&n, &format!("{{i{}}}", ins.len()));
                        ins.push((n, x));
                    }
                    None => extra.push((n, x)),
                }
            }
            // Not while the list of calls is being written.
            extra.retain(|x| x.0 != "tess.list");
            extra.extend((k == Kind3::Pdf).then(|| (s("tess.list"), vec![])));
            v.push(Job {
                name: format!("{}{}", name, if broken { " that fails" } else { "" }),
                streams: if k == Kind3::Pdf { vec![] } else { (0..ins.len()).collect() },
                ins,
                extra,
                args,
                outs: 1,
            });
            e.sut.reset();
        }
    }
    v
}

/// Ways to name a file; the first is its plain name.
const SPELLINGS: usize = 9;

/// A name for the file `f`, made in way `k`.
fn spell(e: &mut Env, f: &str, k: usize) -> String {
    let (dir, base) = f.rfind('/').map(|p| f.split_at(p + 1)).unwrap_or(("", f));
    match k {
        0 => s(f),
        1 => format!("./{}", f),
        2 => {
            e.sut.mkdir("dir");
            format!("dir/../{}", f)
        }
        3 => e.sut.path(f).display().to_string(),
        4 => {
            let n = format!("{}sym-{}", dir, base);
            e.sut.link(base, &n, false);
            n
        }
        5 => {
            let n = format!("{}hard-{}", dir, base);
            e.sut.link(f, &n, true);
            n
        }
        6 => {
            if !e.sut.path("here").exists() {
                e.sut.link(".", "here", false);
            }
            format!("here/here/{}", f)
        }
        7 => format!(".//.///{}", f),
        _ => {
            let n = format!("sym2-{}", base);
            e.sut.link(base, &format!("{}{}", dir, n), false);
            e.sut.link(&n, &format!("{}sym3-{}", dir, base), false);
            format!("{}sym3-{}", dir, base)
        }
    }
}

/// The way in `spell` that is a hard link.
const HARD: usize = 5;

/// Names that files can have.
fn odd_names() -> Vec<String> {
    let mut v = sv(&[
        "a b", " a", "a ", "-", "--", "-o", "--output", "a:b", ":a:", "a: b", "source-file: x", "fp-x", ":fp-x:", "a=b", "a;b", "; a", "#a", "%FP_NS%", "%s", "{}", "\\", "\"", "'", "a\"b\"", "~", "$HOME", "*", "?", "[a]", "(a)", "|a", "a|b", "&", ".a", "..a", "...",
        "ü", "Ü", "日本", "\u{301}", "\u{200b}", "\u{a0}", "\u{feff}a", "\u{202e}a", "a\nb", "a\n  b  GBP1", "a\r", "\t", "a\tb", "\u{1}", "\u{7f}", "\u{2028}", "0", "1", "2020-01-01 x", "include x", "P", "null", "a.ron", "a.csv", "a.pdf", "A.JOURNAL", "a,b", "a%", "+", "@", "!", "^",
        "stdio", "<stdio>", "stdin", "stdout", "stderr", "file:a", "file://a", "file:///a", "file:d/a", "http://a/b", "https:a", "data:a", "data:text/plain,a", "s3://a/b", "fd:0", "fd/0", "path:a", "gz:a", "a.gz", "a.zst", "a.gpg", "a~", "a.bak", "a.tmp", ".#a", "#a#", "@a", "~/a", "~root/a", "C:\\a", "C:a", "%41", "a%20b", "&1", "0<a", ">a", "<a", "a>b", "a#1", "a?x=1", "NUL", "CON", "dev/null", "proc/self/fd/0", "a\\ b", "a\\", "unknown-account", "deep/er/path/a", "deep dir/a:b/c",
    ]);
    v.push("x".repeat(255));
    v.push(format!("{}/{}", "y".repeat(200), "z".repeat(200)));
    v.push("é".repeat(127));
    v
}

/// So that it is not taken for an option or a stream.
fn arg_of(name: &str) -> String {
    if name.starts_with('-') {
        format!("./{}", name)
    } else {
        s(name)
    }
}

fn check_outs(job: &Job, base: &Done, out: &Out, got: &[Option<Vec<u8>>], what: &dyn Fn() -> String) -> R {
    let desc = |k: usize| format!("{}: {}\noutput {}:\n{}\nwith plain files ({}):\n{}", what(), out.short(), k, text(&got[k]), if base.ok { "success" } else { "failure" }, text(&base.outs[k]));
    ensure!(kind(out) == Some(base.ok), "outcome depends on names", "{}: {}, but with plain files: {}", what(), out.short(), if base.ok { "success" } else { "failure" });
    for k in 0..base.outs.len() {
        // Only what is left unmerged says where it comes from.
        let same = if k == 1 && job.outs == 2 { norm(&got[k]) == norm(&base.outs[k]) } else { got[k] == base.outs[k] };
        ensure!(same, "output depends on names", "{}", desc(k));
    }
    Ok(())
}

pub fn c27(c: &Ctx) -> (&'static str, &'static str) {
    let js = jobs(c);
    // Outputs that replace inputs.
    let mut cases: Vec<(usize, Vec<Option<(usize, usize)>>)> = Vec::new();
    for (j, job) in js.iter().enumerate().filter(|(_, j)| j.outs > 0) {
        let nf = job.ins.len() + job.extra.iter().filter(|x| x.0 != "tess.list").count();
        let mut al: Vec<Option<(usize, usize)>> = vec![None];
        al.extend((0..nf).flat_map(|i| (0..SPELLINGS).map(move |k| Some((i, k)))));
        if job.outs == 1 {
            cases.extend(al.iter().map(|a| (j, vec![*a])));
        } else {
            for a in &al {
                for b in &al {
                    if a.map(|x| x.0) != b.map(|x| x.0) || a.is_none() {
                        cases.push((j, vec![*a, *b]));
                    }
                }
            }
        }
    }
    let bases: Vec<Done> = js
        .iter()
        .map(|j| {
            let mut e = c.scratch_env();
            let r = j.base(&mut e);
            match r {
                Ok(d) => d,
                // The family below reports it.
                Err(_) => Done { ok: false, outs: vec![None; j.outs.max(1)] },
            }
        })
        .collect();
    c.par("outputs in place of inputs", cases.len(), |e, i| {
        let (j, al) = &cases[i];
        let (job, base) = (&js[*j], &bases[*j]);
        job.put(e);
        let all: Vec<(String, Vec<u8>)> = job.ins.iter().chain(&job.extra).cloned().collect();
        let outs: Vec<String> = al
            .iter()
            .zip(job.out_names())
            .map(|(a, plain)| match a {
                None => plain,
                Some((f, k)) => spell(e, &all[*f].0, *k),
            })
            .collect();
        let before: Vec<String> = e.sut.tree().into_iter().map(|f| f.0).collect();
        let out = job.run(e, &job.in_names(), &outs);
        e.case(al.iter().any(|a| a.is_some()), &(&job.name, al));
        let what = || format!("{} ({:?})", job.name, job.command(&job.in_names(), &outs));
        e.sample(what);
        e.outcome(if out.ok() { "replaced" } else { "failed" });
        // An output that is not written stays as it was.
        let mut base = base.clone();
        for (k, a) in al.iter().enumerate() {
            if let (None, Some((f, _))) = (&base.outs[k], a) {
                base.outs[k] = Some(all[*f].1.clone());
            }
        }
        let got: Vec<Option<Vec<u8>>> = outs.iter().map(|o| e.sut.get(o)).collect();
        check_outs(job, &base, &out, &got, &what)?;
        // What is written is written to the file behind the name.
        for (k, a) in al.iter().enumerate() {
            if let Some((f, way)) = a {
                ensure!(*way == HARD || e.sut.get(&all[*f].0) == got[k], "file behind the name", "{}: {} is not what was written as {}", what(), all[*f].0, outs[k]);
            }
        }
        for (f, (n, x)) in all.iter().enumerate() {
            if n != "tess.list" && !al.iter().flatten().any(|a| a.0 == f) {
                ensure!(e.sut.get(n).as_ref() == Some(x), "input changed", "{}: {} changed", what(), n);
            }
        }
        for f in e.sut.tree() {
            ensure!(before.contains(&f.0) || outs.contains(&f.0), "stray file", "{}: {} appeared", what(), f.0);
        }
        Ok(())
    });
    // Ways to name the inputs: each of them in each way, and all of them.
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        cases.extend((0..=job.ins.len()).flat_map(|i| (0..SPELLINGS).map(move |k| (j, i, k))));
    }
    c.par("spellings of inputs", cases.len(), |e, i| {
        let (j, at, k) = cases[i];
        let (job, base) = (&js[j], &bases[j]);
        job.put(e);
        let ins: Vec<String> = job.in_names().iter().enumerate().map(|(x, n)| if x == at || at == job.ins.len() { spell(e, n, k) } else { n.clone() }).collect();
        let outs = job.out_names();
        let out = job.run(e, &ins, &outs);
        e.case(k > 0, &(&job.name, at, k));
        let what = || format!("{} ({:?})", job.name, job.command(&ins, &outs));
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 { &ins } else { &outs }.iter().map(|o| e.sut.get(o)).collect();
        check_outs(job, base, &out, &got, &what)?;
        if job.outs == 0 && k != HARD {
            for (n, g) in job.in_names().iter().zip(&got) {
                ensure!(e.sut.get(n) == *g, "file behind the name", "{}: {} is not what was written", what(), n);
            }
        }
        Ok(())
    });
    // Outputs that are links, to files that are there or not.
    c.par("outputs through links", js.len() * 2 * 2 * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let (there, far, twice, all) = (g.take(2) == 1, g.take(2) == 1, g.take(2) == 1, g.take(2) == 1);
        let (job, base) = (&js[g.0], &bases[g.0]);
        if job.outs == 0 {
            return Ok(());
        }
        job.put(e);
        e.sut.mkdir("far");
        let mut outs = job.out_names();
        let mut real = outs.clone();
        for (k, o) in outs.iter_mut().enumerate() {
            if k > 0 && !all {
                continue;
            }
            real[k] = format!("{}real-{}", if far { "far/" } else { "" }, o);
            if there {
                e.sut.put(&real[k], "what was here before, and is longer than some other things that were here before\n".repeat(40));
            }
            let l = format!("link-{}", o);
            e.sut.link(&real[k], &l, false);
            *o = l;
            if twice {
                let l2 = format!("link2-{}", real[k].replace('/', "-"));
                e.sut.link(o, &l2, false);
                *o = l2;
            }
        }
        let out = job.run(e, &job.in_names(), &outs);
        e.case(true, &(&job.name, there, far, twice, all));
        let what = || format!("{} ({:?}), where the outputs are links to {:?}", job.name, job.command(&job.in_names(), &outs), real);
        e.sample(what);
        let old = "what was here before, and is longer than some other things that were here before\n".repeat(40);
        let mut base = base.clone();
        for k in 0..base.outs.len() {
            if base.outs[k].is_none() && there && (k == 0 || all) {
                base.outs[k] = Some(old.clone().into_bytes());
            }
        }
        let got: Vec<Option<Vec<u8>>> = real.iter().map(|o| e.sut.get(o)).collect();
        check_outs(job, &base, &out, &got, &what)
    });
    // Odd names, for each file in turn and for all; what is left unmerged can still be used.
    let odd = odd_names();
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        cases.extend((0..=job.ins.len() + job.outs).flat_map(|i| (0..odd.len()).map(move |k| (j, i, k))));
    }
    c.par("odd names", cases.len(), |e, i| {
        let (j, at, k) = cases[i];
        let (job, base) = (&js[j], &bases[j]);
        let nf = job.ins.len() + job.outs;
        if job.name.contains("pdf") && (at == 0 || at == nf) && odd[k].len() > 250 {
            return Ok(());
        }
        // What it is, must be seen from the name.
        let ext = |x: usize| if job.name.contains("pdf") && x == 0 { ".pdf" } else { "" };
        let name = |x: usize, plain: &str| if x == at { odd[k].clone() + ext(x) } else if at == nf { format!("{}/{}{}", x, odd[k], ext(x)) } else { s(plain) };
        let mut job = job.clone();
        let outs: Vec<String> = job.out_names().iter().enumerate().map(|(x, n)| name(job.ins.len() + x, n)).collect();
        for x in 0..job.ins.len() {
            job.ins[x].0 = name(x, &job.ins[x].0);
        }
        // Includes are relative to the file.
        if !job.extra.is_empty() && job.name.contains("rules") && (at == 1 || at == nf) {
            let dir = job.ins[1].0.rfind('/').map(|p| job.ins[1].0[..p + 1].to_string()).unwrap_or_default();
            for x in &mut job.extra {
                x.0 = format!("{}{}", dir, x.0);
            }
        }
        job.put(e);
        for o in &outs {
            if let Some(p) = o.rfind('/') {
                e.sut.mkdir(&o[..p]);
            }
        }
        let (ia, oa): (Vec<String>, Vec<String>) = (job.ins.iter().map(|x| arg_of(&x.0)).collect(), outs.iter().map(|x| arg_of(x)).collect());
        let out = job.run(e, &ia, &oa);
        e.case(true, &(&job.name, at, k));
        let what = || format!("{} ({:?})", job.name, job.command(&ia, &oa));
        e.sample(what);
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 { &ia } else { &oa }.iter().map(|o| e.sut.get(o)).collect();
        check_outs(&job, base, &out, &got, &what)?;
        if job.outs == 2 && got[1].is_some() {
            // Merging it again without deciding leaves the same unmerged.
            let undecided: Vec<u8> = got[1].as_ref().unwrap().split_inclusive(|b| *b == b'\n').filter(|l| !l.starts_with(b"  ; :candidate-")).flatten().copied().collect();
            e.sut.put(&outs[1], undecided);
            let a = ["merge", "-o", "again.journal", "-u", "left.journal", &oa[0], &oa[1]];
            let out = e.sut.run(&a);
            ensure!(out.ok(), "unmerged output unusable", "{}, then {:?}: {}\nunmerged:\n{}", what(), a, out.short(), text(&got[1]));
            ensure!(e.sut.get("again.journal") == got[0], "unmerged output changes the journal", "{}, then {:?}\nunmerged:\n{}", what(), a, text(&got[1]));
            ensure!(e.sut.get("left.journal") == got[1], "unmerged output not kept", "{}, then {:?}\nunmerged before:\n{}\nand after:\n{}", what(), a, text(&got[1]), text(&e.sut.get("left.journal")));
        }
        Ok(())
    });
    // Names that are alike, for the first four files.
    let groups = super::journals::file_groups();
    c.par("names alike", js.len() * groups.len() * 4, |e, i| {
        let mut g = Dig(i);
        let (j, n, rot) = (g.take(js.len()), g.of(&groups), g.take(4));
        let (mut job, base) = (js[j].clone(), &bases[j]);
        // What it is, must be seen from the name.
        let ext = |x: usize| if job.name.contains("pdf") && x == 0 { ".pdf" } else { "" };
        let name = |x: usize, plain: &str| if x < 4 { n[(x + rot) % 4].clone() + ext(x) } else { s(plain) };
        let ni = job.ins.len();
        let outs: Vec<String> = job.out_names().iter().enumerate().map(|(x, o)| name(ni + x, o)).collect();
        let ins: Vec<String> = job.ins.iter().enumerate().map(|(x, f)| name(x, &f.0)).collect();
        for (f, n) in job.ins.iter_mut().zip(&ins) {
            f.0 = n.clone();
        }
        if !job.extra.is_empty() && job.name.contains("rules") {
            let dir = ins[1].rfind('/').map(|p| ins[1][..p + 1].to_string()).unwrap_or_default();
            for x in &mut job.extra {
                x.0 = format!("{}{}", dir, x.0);
            }
        }
        job.put(e);
        for o in &outs {
            if let Some(p) = o.rfind('/') {
                e.sut.mkdir(&o[..p]);
            }
        }
        let (ia, oa): (Vec<String>, Vec<String>) = (ins.iter().map(|x| arg_of(x)).collect(), outs.iter().map(|x| arg_of(x)).collect());
        let out = job.run(e, &ia, &oa);
        e.case(true, &(&job.name, n, rot));
        let what = || format!("{} ({:?})", job.name, job.command(&ia, &oa));
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 { &ia } else { &oa }.iter().map(|o| e.sut.get(o)).collect();
        check_outs(&job, base, &out, &got, &what)
    });
    // The same file several times is the same as copies of it.
    let o = ops();
    let orders: Vec<Vec<usize>> = (2..=if c.thorough { 4 } else { 3 }).flat_map(|n| (0..1usize << n).map(move |b| (0..n).map(|k| b >> k & 1).collect())).collect();
    c.par("inputs given twice", o.len() * o.len() * orders.len(), |e, i| {
        let mut g = Dig(i);
        let (a, b, ord) = (g.of(&o), g.of(&o), g.of(&orders));
        let mut names = Vec::new();
        for (k, x) in ord.iter().enumerate() {
            let t = render(if *x == 0 { a } else { b });
            e.sut.put(["a.journal", "b.journal"][*x], &t);
            e.sut.put(&format!("copy{}.journal", k), &t);
            names.push((s(["a.journal", "b.journal"][*x]), format!("copy{}.journal", k)));
        }
        let mut run = |f: &dyn Fn(&(String, String)) -> String, o: &str, u: &str| {
            let mut a = sv(&["merge", "-o", o, "-u", u]);
            a.extend(names.iter().map(f));
            let out = e.sut.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
            (out, e.sut.get(o), e.sut.get(u))
        };
        let one = run(&|n| n.0.clone(), "o1", "u1");
        let two = run(&|n| n.1.clone(), "o2", "u2");
        e.case(true, &(i % (o.len() * o.len() * orders.len())));
        e.outcome(if one.0.ok() { "merged" } else { "failed" });
        ensure!(
            kind(&one.0).is_some() && kind(&one.0) == kind(&two.0) && one.1 == two.1 && norm(&one.2) == norm(&two.2),
            "repeated input differs from a copy",
            "{:?}: {}\n{}\nunmerged:\n{}\nwith copies: {}\n{}\nunmerged:\n{}",
            ord,
            one.0.short(),
            text(&one.1),
            text(&one.2),
            two.0.short(),
            text(&two.1),
            text(&two.2)
        );
        Ok(())
    });
    ("exploration", "every case is one command with its files named in one way, compared byte for byte with the same command on plainly named, separate files; non-trivial if a name is not the plain one, distinct by command and names")
}

// ---------------------------------------------------------------------------------------------
// C29: standard streams.

pub fn c29(c: &Ctx) -> (&'static str, &'static str) {
    const INS: [&str; 3] = ["-", "/dev/stdin", "/proc/self/fd/0"];
    const OUTS: [&str; 4] = ["-", "", "/dev/stdout", "/proc/self/fd/1"];
    let mut js = jobs(c);
    for (k, n) in [(0, 130), (8, 60), (14, 4000)] {
        let fs = scale(k, n);
        js.push(merge_job(&format!("merge of {} postings ({})", n, k), &fs.iter().map(|f| render(&f.1)).collect::<Vec<_>>(), true));
    }
    let bases: Vec<Done> = js.iter().map(|j| j.base(&mut c.scratch_env()).unwrap_or(Done { ok: false, outs: vec![None; j.outs.max(1)] })).collect();
    let mut cases: Vec<(usize, Option<(usize, usize)>, Option<(usize, usize)>, bool)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        let mut ia: Vec<Option<(usize, usize)>> = vec![None];
        ia.extend(job.streams.iter().flat_map(|i| (0..INS.len()).map(move |k| Some((*i, k)))));
        let mut oa: Vec<Option<(usize, usize)>> = vec![None];
        if job.outs > 0 {
            oa.extend((0..job.outs).flat_map(|o| (0..OUTS.len()).map(move |k| Some((o, k)))));
        }
        for i in &ia {
            // Commands that rewrite their input write a stream to standard output; only "-" is one.
            if job.outs == 0 && matches!(i, None | Some((_, 1..))) {
                continue;
            }
            for o in &oa {
                // Only the journal is written to standard output by default.
                if *o != Some((1, 1)) {
                    cases.extend([(j, *i, *o, false), (j, *i, *o, true)]);
                }
            }
        }
    }
    c.par("streams", cases.len(), |e, i| {
        let (j, inp, outp, dash) = cases[i];
        let (job, base) = (&js[j], &bases[j]);
        job.put(e);
        // A file of that name is not meant.
        if dash {
            e.sut.put("-", "2001-01-01 not me\n  x  GBP1\n");
        }
        let (mut ins, mut outs) = (job.in_names(), job.out_names());
        let mut stdin = None;
        if let Some((k, w)) = inp {
            ins[k] = s(INS[w]);
            stdin = Some(job.ins[k].1.clone());
            e.sut.rm(&job.ins[k].0);
        }
        if let Some((k, w)) = outp {
            outs[k] = s(OUTS[w]);
        }
        let mut a = job.command(&ins, &outs);
        if let Some(p) = a.iter().position(|x| x.is_empty()) {
            a.drain(p - 1..=p);
        }
        let before = e.sut.tree();
        let p = e.sut.plain(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), stdin.as_deref(), &[]);
        e.case(inp.is_some() || outp.is_some(), &(&job.name, inp, outp, dash));
        e.outcome(if p.out.ok() { "success" } else { "failure" });
        let what = || format!("{} ({:?})", job.name, a);
        e.sample(what);
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 {
            (0..job.ins.len()).map(|k| if inp.map(|x| x.0) == Some(k) { Some(p.stdout.clone()) } else { e.sut.get(&job.ins[k].0) }).collect()
        } else {
            (0..job.outs).map(|k| if outp.map(|x| x.0) == Some(k) { (base.outs[k].is_some() || !p.stdout.is_empty()).then(|| p.stdout.clone()) } else { e.sut.get(&outs[k]) }).collect()
        };
        let mut base = base.clone();
        if job.outs == 0 && !base.ok {
            // Nothing of it is written.
            base.outs[inp.unwrap().0] = Some(vec![]);
        }
        check_outs(job, &base, &p.out, &got, &what)?;
        if job.outs > 0 && outp.is_none() {
            ensure!(p.stdout.is_empty(), "unexpected output", "{} writes to standard output: {}", what(), text(&Some(p.stdout.clone())));
        }
        let changed: Vec<String> = e.sut.tree().into_iter().filter(|f| !before.contains(f) && !outs.contains(&f.0) && f.0 != "tess.list" && !(job.outs == 0 && ins.contains(&f.0) && f.0 != "-")).map(|f| f.0).collect();
        ensure!(changed.is_empty(), "file touched instead of a stream", "{}: {:?}", what(), changed);
        Ok(())
    });
    // Whatever the bytes are: what a file is read as, and refused for, a stream is, too.
    let odd = |x: &[u8], k: usize| -> Vec<u8> {
        let mid = x.iter().position(|b| *b == b'\n').unwrap_or(0);
        let put = |at: usize, y: &[u8]| [&x[..at], y, &x[at..]].concat();
        match k {
            0 => vec![],
            1 => x.strip_suffix(b"\n").unwrap_or(x).to_vec(),
            2 => put(0, "\u{feff}".as_bytes()),
            3 => put(mid, b"\xff"),
            4 => put(x.len(), b"\xff\xfe"),
            5 => put(x.len(), b"; \xe2\x82"),
            6 => put(mid, b"\xc0\xaf"),
            7 => put(mid, b"\xed\xa0\x80"),
            8 => put(mid, b"\0"),
            9 => put(mid, b"\x1a"),
            10 => put(x.len(), b"\x1a"),
            11 => put(mid, b"\r"),
            12 => String::from_utf8_lossy(x).replace('\n', "\r\n").into_bytes(),
            13 => String::from_utf8_lossy(x).replace('\n', "\r").into_bytes(),
            14 => put(mid, "é€日\u{10ffff}".as_bytes()),
            15 => put(mid, "\u{85}\u{2028}".as_bytes()),
            16 => put(mid, &vec![b'x'; 70_000]),
            17 => put(x.len(), &vec![b'\n'; 200_000]),
            18 => put(x.len(), b"\x04"),
            19 => String::from_utf8_lossy(x).encode_utf16().flat_map(u16::to_le_bytes).collect(),
            20 => put(mid, b"\x80"),
            21 => put(mid, b"\xf4\x90\x80\x80"),
            22 => put(mid, b"\xa3"),
            _ => x[..x.len() / 2].to_vec(),
        }
    };
    let cases: Vec<(usize, usize)> = js.iter().enumerate().filter(|(j, _)| bases[*j].ok).flat_map(|(j, job)| job.streams.iter().map(move |k| (j, *k))).collect();
    c.par("odd content", cases.len() * 24 * INS.len(), |e, i| {
        let mut g = Dig(i);
        let (way, v) = (g.take(INS.len()), g.take(24));
        let (j, k) = cases[g.0];
        let mut job = js[j].clone();
        if job.outs == 0 && way > 0 {
            return Ok(());
        }
        job.ins[k].1 = odd(&job.ins[k].1, v);
        let base = job.base(e)?;
        job.put(e);
        e.sut.rm(&job.ins[k].0);
        let (mut ins, outs) = (job.in_names(), job.out_names());
        ins[k] = s(INS[way]);
        let a = job.command(&ins, &outs);
        let p = e.sut.plain(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), Some(&job.ins[k].1), &[]);
        e.case(true, &(&job.name, way, v, k));
        e.outcome(if p.out.ok() { "success" } else { "failure" });
        let what = || format!("{} ({:?}) with input {} {:?}", job.name, a, k, text(&Some(job.ins[k].1.clone())));
        e.sample(what);
        let mut base = base.clone();
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 {
            if !base.ok {
                base.outs[k] = Some(vec![]);
            }
            (0..job.ins.len()).map(|q| if q == k { Some(p.stdout.clone()) } else { e.sut.get(&job.ins[q].0) }).collect()
        } else {
            outs.iter().map(|o| e.sut.get(o)).collect()
        };
        // What is made up anew every time.
        let mask = |x: &Option<Vec<u8>>| {
            x.as_ref().map(|b| {
                let t = String::from_utf8_lossy(b).into_owned();
                t.split("fp-uuidb64-").enumerate().map(|(k, y)| if k > 0 { y.chars().skip(22).collect() } else { s(y) }).collect::<Vec<_>>().join("fp-uuidb64-").into_bytes()
            })
        };
        let (mut base, mut got) = (base, got);
        if job.args[0] == "generate-fingerprints" {
            for x in base.outs.iter_mut().chain(&mut got) {
                *x = mask(x);
            }
        }
        check_outs(&job, &base, &p.out, &got, &what)
    });
    // Files that are named like a stream, but spelled as files.
    const SPELLED: [&str; 6] = ["./-", ".//-", "././-", "sub/-", "sub/../-", "$PWD/-"];
    let mut cases: Vec<(usize, bool, usize, usize, usize)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        for w in 0..SPELLED.len() {
            for garbage in 0..2 {
                // The stand-ins for the OCR tell PDF files by their names.
                cases.extend((0..job.ins.len()).filter(|k| !job.ins[*k].0.ends_with(".pdf")).map(|k| (j, true, k, w, garbage)));
                cases.extend((0..job.outs).map(|k| (j, false, k, w, garbage)));
            }
        }
    }
    c.par("files named like streams", cases.len(), |e, i| {
        let (j, input, k, w, garbage) = cases[i];
        let (job, base) = (&js[j], &bases[j]);
        job.put(e);
        e.sut.mkdir("sub");
        let file = if w == 3 { "sub/-" } else { "-" };
        // What a file includes is beside it.
        for (n, x) in job.extra.iter().filter(|_| w == 3) {
            e.sut.put(&format!("sub/{}", n), x);
        }
        let name = SPELLED[w].replace("$PWD", &e.sut.path("").to_string_lossy().trim_end_matches('/').to_string());
        let (mut ins, mut outs) = (job.in_names(), job.out_names());
        if input {
            e.sut.rm(&job.ins[k].0);
            e.sut.put(file, &job.ins[k].1);
            ins[k] = name;
        } else {
            outs[k] = name;
        }
        let a = job.command(&ins, &outs);
        let p = e.sut.plain(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), Some(["2001-01-01 not me\n  x  GBP1\n".as_bytes(), b""][garbage]), &[]);
        e.case(true, &(&job.name, input, k, w, garbage));
        e.outcome(if p.out.ok() { "success" } else { "failure" });
        let what = || format!("{} ({:?})", job.name, a);
        e.sample(what);
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 {
            (0..job.ins.len()).map(|q| e.sut.get(if input && q == k { file } else { &job.ins[q].0 })).collect()
        } else {
            (0..job.outs).map(|q| e.sut.get(if !input && q == k { file } else { &outs[q] })).collect()
        };
        check_outs(job, base, &p.out, &got, &what)?;
        ensure!(p.stdout.is_empty(), "unexpected output", "{} writes to standard output: {}", what(), text(&Some(p.stdout.clone())));
        Ok(())
    });
    // Kinds of streams: what a stream has before where it stands is not read, or kept.
    let vias: [(bool, bool, &str); 12] = [
        (true, false, r#"exec "$0" "$@" <st.in"#),
        (true, false, r#"exec "$0" "$@" <>st.in"#),
        (true, false, r#"{ dd bs=7 count=1 2>/dev/null >/dev/null; exec "$0" "$@"; } <st.skip"#),
        (true, false, r#"dd bs=97 if=st.in 2>/dev/null | "$0" "$@""#),
        (true, false, r#"{ dd bs=41 count=1; sleep 0.02; cat; } <st.in 2>/dev/null | "$0" "$@""#),
        (false, true, r#"exec "$0" "$@" >st.out"#),
        (false, true, r#"exec "$0" "$@" >>st.out"#),
        (false, true, r#"{ printf 'before\n'; "$0" "$@" && printf 'after\n'; } >st.out"#),
        (false, true, r#"exec "$0" "$@" 1<>st.out"#),
        (false, true, r#""$0" "$@" >st.fifo & p=$!; cat st.fifo >st.out; wait $p"#),
        (true, true, r#"exec "$0" "$@" <st.in >>st.out"#),
        (true, true, r#"{ dd bs=7 count=1 2>/dev/null >/dev/null; printf 'before\n'; "$0" "$@" && printf 'after\n'; } <st.skip >st.out"#),
    ];
    let mut cases: Vec<(usize, Option<usize>, Option<usize>, bool, usize)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        for (v, (i, o, _)) in vias.iter().enumerate() {
            if job.outs == 0 {
                // "-" is both.
                if *i && *o {
                    cases.extend(job.streams.iter().map(|k| (j, Some(*k), Some(*k), false, v)));
                }
                continue;
            }
            let ins: Vec<Option<usize>> = if *i { job.streams.iter().map(|k| Some(*k)).collect() } else { vec![None] };
            for k in ins {
                if *o {
                    cases.extend([(j, k, Some(0), false, v), (j, k, Some(0), true, v)]);
                } else {
                    cases.push((j, k, None, false, v));
                }
            }
        }
    }
    c.par("kinds of streams", cases.len(), |e, i| {
        let (j, inp, outp, by_default, v) = cases[i];
        let (job, base) = (&js[j], &bases[j]);
        job.put(e);
        let (mut ins, mut outs) = (job.in_names(), job.out_names());
        if let Some(k) = inp {
            ins[k] = s("-");
            e.sut.put("st.in", &job.ins[k].1);
            e.sut.put("st.skip", &[b"skipped".to_vec(), job.ins[k].1.clone()].concat());
            e.sut.rm(&job.ins[k].0);
        }
        let script = vias[v].2;
        let (mut before, mut after) = ("", "");
        if outp.is_some() {
            if !outs.is_empty() {
                outs[0] = s(if by_default { "" } else { "-" });
            }
            if script.contains(">>st.out") {
                e.sut.put("st.out", "earlier\n");
                before = "earlier\n";
            }
            if script.contains("before") {
                (before, after) = ("before\n", "after\n");
            }
        }
        let mut a = job.command(&ins, &outs);
        if let Some(p) = a.iter().position(|x| x.is_empty()) {
            a.drain(p - 1..=p);
        }
        let full = format!("{}{}", if script.contains("st.fifo") { "mkfifo st.fifo; " } else { "" }, script);
        let p = e.sut.plain(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), None, &[(VIA, &full)]);
        e.sut.rm("st.fifo");
        e.case(true, &(&job.name, inp, outp, by_default, v));
        e.outcome(if p.out.ok() { "success" } else { "failure" });
        let what = || format!("{} ({:?} in: {})", job.name, a, full);
        e.sample(what);
        ensure!(p.stdout.is_empty(), "unexpected output", "{} writes to another stream: {}", what(), text(&Some(p.stdout.clone())));
        let streamed: Option<Vec<u8>> = match outp {
            None => None,
            Some(_) => {
                let all = e.sut.get("st.out").unwrap_or_default();
                let after = if p.out.ok() { after } else { "" };
                let inner = all.strip_prefix(before.as_bytes()).and_then(|x| x.strip_suffix(after.as_bytes()));
                ensure!(inner.is_some(), "stream not continued", "{}: standard output is now {}", what(), text(&Some(all.clone())));
                inner.map(|x| x.to_vec())
            }
        };
        let written = |x: &Vec<u8>, k: usize| (base.outs[k].is_some() || !x.is_empty()).then(|| x.clone());
        let got: Vec<Option<Vec<u8>>> = if job.outs == 0 {
            (0..job.ins.len()).map(|k| if inp == Some(k) { streamed.clone() } else { e.sut.get(&job.ins[k].0) }).collect()
        } else {
            (0..job.outs).map(|k| match (&streamed, k) { (Some(x), 0) => written(x, 0), _ => e.sut.get(&outs[k]) }).collect()
        };
        let mut base = base.clone();
        if job.outs == 0 && !base.ok {
            base.outs[inp.unwrap()] = Some(vec![]);
        }
        check_outs(job, &base, &p.out, &got, &what)
    });
    // Many files, and nothing of a stream among them.
    let most = if c.thorough { 40 } else { 12 };
    c.par("many files", most * 5 * 2, |e, i| {
        let mut g = Dig(i);
        let (cmd, via) = (g.take(5), g.take(2) == 1);
        let n = 1 + g.0;
        let names: Vec<String> = (0..n).map(|k| format!("m{}.journal", k)).collect();
        for (k, f) in names.iter().enumerate() {
            e.sut.put(f, format!("2020-01-{:02} d{}\n  a  GBP{}\n  ; :{}-{}:\n", 1 + k % 28, k, k + 1, if cmd == 4 { "x" } else { "fp" }, k));
        }
        e.sut.put("rules.ron", "[Chain(\"start\", [])]");
        let mut a = match cmd {
            0 => sv(&["merge", "-o", "o.journal"]),
            1 => sv(&["merge", "-o", "o.journal", "-u", "u.journal"]),
            2 => sv(&["apply-rules", "-o", "o.journal"]),
            3 => sv(&["fmt"]),
            _ => sv(&["generate-fingerprints"]),
        };
        a.extend(if cmd == 2 { names[..1].to_vec() } else { names.clone() });
        if cmd == 2 {
            a.extend(sv(&["table", "rules.ron"]));
        }
        let args: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let p = e.sut.plain(&args, if via { Some(b"2001-01-01 not me\n  x  GBP1\n") } else { None }, &[]);
        e.case(true, &(cmd, n, via));
        e.outcome("success");
        ensure!(p.out.ok(), "fails", "{:?}: {}", a, p.out.short());
        ensure!(p.stdout.is_empty(), "unexpected output", "{:?} writes to standard output: {}", a, text(&Some(p.stdout.clone())));
        Ok(())
    });
    // Names that may be taken for streams, of files that are not there.
    const NOT: [&str; 26] = [
        "", "file:", "file:-", "file:///dev/stdin", "stdin", "STDIN", "<stdin>", "<stdio>", "stdout", "fd:0", "fd/0", "0", "&0", "--stdin", "-0", "dev/stdin", "- ", " -", "-/", "-.journal", "\u{2013}", "\u{2014}", "\u{2212}", "stdin:", "std:in", "pipe:0",
    ];
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for (j, job) in js.iter().enumerate() {
        cases.extend((0..job.ins.len()).filter(|k| !job.ins[*k].0.ends_with(".pdf")).flat_map(|k| (0..NOT.len()).map(move |w| (j, k, w))));
    }
    c.par("files that are not there", cases.len() + 2 * NOT.len() * 2, |e, i| {
        let refused = |e: &mut Env, a: &[String], stdin: &[u8]| {
            let before = e.sut.tree();
            let p = e.sut.plain(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), Some(stdin), &[]);
            e.case(true, &a);
            e.outcome("failure");
            ensure!(p.out.failed() || matches!(p.out, Out::Usage(_)), "accepted", "{:?}: {}", a, p.out.short());
            let mut after = e.sut.tree();
            after.retain(|f| !before.contains(f) && f.0 != "tess.list");
            ensure!(p.stdout.is_empty() && after.is_empty(), "written though refused", "{:?}: {:?}", a, after);
            Ok(())
        };
        if let Some((j, k, w)) = cases.get(i).copied() {
            let job = &js[j];
            if job.outs == 0 && (k > 0 || job.ins.len() > 1) {
                // The other files are rewritten.
                return Ok(());
            }
            job.put(e);
            e.sut.rm(&job.ins[k].0);
            let (mut ins, outs) = (job.in_names(), job.out_names());
            ins[k] = s(NOT[w]);
            return refused(e, &job.command(&ins, &outs), &job.ins[k].1);
        }
        // The lookup file of an import is an input as well.
        let mut g = Dig(i - cases.len());
        let (w, pdf, eq) = (*g.of(&NOT), g.take(2) == 1, g.take(2) == 1);
        let kind = if pdf { Kind3::Pdf } else { Kind3::Csv };
        let (a, _, _) = small_import(c, e, kind, &Ns::Default);
        let mut l = sv(&["import", "-o", "o.journal"]);
        l.push(a[0].clone());
        if eq {
            l.push(format!("--fp-namespace=lookup:{}", w));
        } else {
            l.extend([s("--fp-namespace"), format!("lookup:{}", w)]);
        }
        l.extend(a[1..].to_vec());
        refused(e, &l, b"{\"****12345\": \"x\", \"12-34-56 12345678\": \"x\", \"a ****12345\": \"x\"}")
    });
    // Sizes of streams: just below and above each power of two.
    const CMDS: [&str; 6] = ["merge", "merge with unmerged", "apply-rules", "fmt", "nationwide-csv", "paypal-csv"];
    let thorough = c.thorough;
    let sizes = if thorough { 8..=23 } else { 9..=20 };
    let cases: Vec<(usize, usize, usize, usize)> = (0..CMDS.len()).flat_map(|k| sizes.clone().flat_map(move |b| (0..3usize).filter(move |d| *d == 2 || b <= if thorough { 20 } else { 14 }).flat_map(move |d| (0..3).map(move |way| (k, b, d, way))))).collect();
    c.par("sizes of streams", cases.len(), |e, i| {
        let (k, b, d, way) = cases[cases.len() - 1 - i];
        let mut x = match k {
            4 => s("\"Account Name:\",\"a ****12345\"\n\"Account Balance:\",\"1.00\"\n\"Available Balance:\",\"1.00\"\n\"Date\",\"Transaction type\",\"Description\",\"Paid out\",\"Paid in\",\"Balance\"\n").replace("\"1.00\"", "\"#1.00\""),
            5 => s("Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\n"),
            _ => String::new(),
        };
        // One item after the other up to the size, one less, or one more.
        let most = (1usize << b) + 40 * d;
        let mut n = 0;
        loop {
            let (y, m, day) = (1990 + n / 336 % 100, 1 + n / 28 % 12, 1 + n % 28);
            let it = match k {
                4 => format!("\"{:02} {} {}\",\"t{}\",\"d\",\"#{}.00\",\"\",\"#1.00\"\n", day, ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m - 1], y, n, n),
                5 => format!("{:02}/{:02}/{},12:00:00,GMT,n{},t,Completed,GBP,{}.00,,1.00\n", day, m, y, n, n),
                _ => format!("{}-{:02}-{:02} d{}\n  a  GBP{}\n  ; :fp-{}:\n\n", y, m, day, n, n, n),
            };
            if x.len() + it.len() > most {
                break;
            }
            x.push_str(&it);
            n += 1;
        }
        let x: Vec<u8> = if k == 4 { x.bytes().map(|c| if c == b'#' { 0xa3 } else { c }).collect() } else { x.into_bytes() };
        let other = (0..2).map(|k| format!("1980-01-01 again\n  b  GBP0\n  ; :fp-again{}:\n\n", k)).collect::<String>();
        e.sut.put("st.in", &x);
        e.sut.put("empty.ron", EMPTY_RULES);
        e.sut.put("other.journal", &other);
        e.sut.put("third.journal", "1980-01-01 third\n  b  GBP0\n  ; :fp-third:\n");
        e.sut.put("tz.csv", "abbreviation,utc_offset\nGMT,UTC+00\n");
        let a = |i: &'static str, o: &'static str| -> Vec<&'static str> {
            match k {
                0 => vec!["merge", "-o", o, i],
                1 => vec!["merge", "-o", o, "-u", "un", i, "other.journal", "third.journal"],
                2 => vec!["apply-rules", "-o", o, i, "table", "empty.ron"],
                3 => vec!["fmt", i],
                4 => vec!["import", "-o", o, "nationwide-csv", i],
                _ => vec!["import", "-o", o, "paypal-csv", "--output-timezone", "UTC", i, "tz.csv"],
            }
        };
        e.sut.put("copy", &x);
        let base = e.sut.plain(&a("copy", "want"), None, &[]);
        ensure!(base.out.ok(), "valid input refused", "{} of {} bytes: {}", CMDS[k], x.len(), base.out.short());
        let want = e.sut.get(if k == 3 { "copy" } else { "want" }).unwrap_or_default();
        // Each item is in it.
        let mut made: Vec<&str> = std::str::from_utf8(&want).unwrap_or_default().lines().filter(|l| l.starts_with(|c: char| c.is_ascii_digit())).filter_map(|l| l.split_once(' ')).map(|(_, l)| l.trim()).collect();
        made.retain(|l| k != 1 || *l != "again");
        made.sort();
        let mut items: Vec<String> = (0..n).map(|i| if k == 4 { s("d") } else { format!("{}{}", if k == 5 { "n" } else { "d" }, i) }).collect();
        items.sort();
        ensure!(made == items, "not every item", "{} of {} bytes ({} items): {} of them in the result", CMDS[k], x.len(), n, made.len());
        let un = e.sut.get("un");
        ensure!(k != 1 || un.as_ref().is_some_and(|u| u.starts_with(b"1980-01-01 third")), "no unmerged transaction", "{} bytes: {}", x.len(), text(&un));
        e.sut.rm("un");
        let (i, o, script) = match way {
            _ if k == 3 => ("-", "", [r#"cat st.in | "$0" "$@" | cat >got"#, r#""$0" "$@" <st.in >got"#, r#"{ sleep 0.01; cat st.in; } | "$0" "$@" | { sleep 0.01; cat >got; }"#][way]),
            0 => ("-", "got", r#"cat st.in | "$0" "$@""#),
            1 => ("st.in", "-", r#""$0" "$@" | { sleep 0.01; cat >got; }"#),
            _ => ("-", "-", r#"cat st.in | "$0" "$@" | cat >got"#),
        };
        let p = e.sut.plain(&a(i, o), None, &[(VIA, script)]);
        e.case(true, &(k, b, d, way));
        e.outcome(if p.out.ok() { "success" } else { "failure" });
        let what = || format!("{} of {} bytes ({} items) in: {}", CMDS[k], x.len(), n, script);
        e.sample(what);
        ensure!(p.out.ok(), "refused", "{}: {}", what(), p.out.short());
        let got = e.sut.get("got").unwrap_or_default();
        ensure!(got == want, "differs", "{}: {} bytes instead of {}, from {:?}", what(), got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
        ensure!(e.sut.get("un").map(|u| norm(&Some(u))) == un.map(|u| norm(&Some(u))), "unmerged differ", "{}", what());
        Ok(())
    });
    ("exploration", "every case is one command with one input from standard input, or one output to standard output, or both, under each of their names, or as one of twelve kinds of streams (files from where they stand, files appended to, pipes in pieces, named pipes), compared byte for byte with the same command on files; distinct by command and streams")
}

// ---------------------------------------------------------------------------------------------
// C28: layout.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Style {
    indent: usize,
    eol: usize,
    tail: usize,
    date: usize,
    sep: usize,
    comments: usize,
    mark: usize,
    amount: usize,
    gap: usize,
    lead: usize,
    end: usize,
    head: usize,
}

const INDENTS: [&str; 5] = ["    ", " ", "\t", "  \t  ", "            "];
const EOLS: [&str; 2] = ["\n", "\r\n"];
const TAILS: [&str; 3] = ["", "  ", "\t"];
const DATES: [char; 3] = ['-', '/', '.'];
const SEPS: [&str; 4] = ["  ", "\t", "          ", " \t "];
const MARKS: [&str; 3] = ["; ", ";", ";   "];
const GAPS: [&str; 4] = ["\n", "", "\n\n\n", "  \n\t\n"];
const LEADS: [&str; 3] = ["", "\n", " \n\n"];
const ENDS: [&str; 4] = ["", "\n\n", " \n", "(no line end)"];
const HEADS: [&str; 3] = [" ", "  ", " \t"];
/// How many ways there are in each respect.
const WAYS: [usize; 12] = [5, 2, 3, 3, 4, 9, 3, 5, 4, 3, 4, 3];

impl Style {
    fn set(mut self, what: usize, way: usize) -> Self {
        *match what {
            0 => &mut self.indent,
            1 => &mut self.eol,
            2 => &mut self.tail,
            3 => &mut self.date,
            4 => &mut self.sep,
            5 => &mut self.comments,
            6 => &mut self.mark,
            7 => &mut self.amount,
            8 => &mut self.gap,
            9 => &mut self.lead,
            10 => &mut self.end,
            _ => &mut self.head,
        } = way;
        self
    }
}

/// All styles that differ from the plain one in up to `n` respects.
fn styles(n: usize) -> Vec<Style> {
    let mut v = vec![(Style::default(), 0)];
    let mut from = 0;
    for _ in 0..n {
        let to = v.len();
        for k in from..to {
            let (st, first) = v[k];
            for what in first..WAYS.len() {
                for way in 1..WAYS[what] {
                    v.push((st.set(what, way), what + 1));
                }
            }
        }
        from = to;
    }
    v.into_iter().map(|x| x.0).collect()
}

fn lay_amt(a: &Amt, way: usize) -> String {
    let plain = a.to_string();
    let q = a.q.to_string();
    let abs = q.trim_start_matches('-');
    let minus = if q.starts_with('-') { "-" } else { "" };
    match (way, a.left) {
        (1, true) => format!("{}  {}", a.c, q),
        (1, false) => format!("{}{}", q, a.c),
        (2, true) if !minus.is_empty() => format!("-{}{}", a.c, abs),
        (2, false) => format!("{}    {}", q, a.c),
        (3, _) => {
            let (i, f) = abs.split_once('.').map(|(i, f)| (i, format!(".{}", f))).unwrap_or((abs, String::new()));
            let mut o = String::new();
            for (k, ch) in i.chars().enumerate() {
                if k > 0 && (i.len() - k) % 3 == 0 {
                    o.push(',');
                }
                o.push(ch);
            }
            plain.replace(&q, &format!("{}{}{}", minus, o, f))
        }
        (4, _) => plain.replace(&q, &format!("{}00{}", minus, abs)),
        _ => plain,
    }
}

/// Comment lines: the same comment in other words.
fn lay_comment(c: &Comment, way: usize) -> Vec<String> {
    let flags: Vec<&str> = c.flags.iter().map(|x| x.as_str()).collect();
    let kv: Vec<String> = c.kv.iter().map(|(k, v)| format!("{}: {}", k, v)).collect();
    let mut v = Vec::new();
    match way {
        // One flag per line, in the other order; last the values, in the other order.
        2 => {
            v.extend(flags.iter().rev().map(|f| format!(":{}:", f)));
            v.extend(c.lines.clone());
            v.extend(kv.into_iter().rev());
        }
        // All flags in a line, behind the values.
        3 => {
            v.extend(kv);
            if !flags.is_empty() {
                v.push(format!(":{}:", flags.join(":")));
            }
            v.extend(c.lines.clone());
        }
        // Text and flags in a line.
        4 => {
            let mut l = c.lines.clone();
            if !flags.is_empty() {
                match l.last_mut() {
                    Some(x) => *x += &format!(" :{}:", flags.join(":")),
                    None => l.push(format!(":{}:", flags.join(":"))),
                }
            }
            v.extend(l);
            v.extend(kv);
        }
        // Each flag in a group of its own, all in a line.
        6 => {
            if !flags.is_empty() {
                v.push(flags.iter().map(|f| format!(":{}:", f)).collect::<Vec<_>>().join(" "));
            }
            v.extend(kv);
            v.extend(c.lines.clone());
        }
        // All of them several times, before and behind text.
        7 => {
            let mut l = c.lines.clone();
            if !flags.is_empty() {
                let all = flags.iter().flat_map(|f| [format!(":{}:", f), format!(":{}:{}:", f, flags[0])]).collect::<Vec<_>>().join(" ");
                match l.first_mut() {
                    Some(x) => *x = format!("{} {} {}", all, x, all),
                    None => l.push(all),
                }
            }
            v.extend(l);
            v.extend(kv);
        }
        // Blanks in front of values and around flags.
        8 => {
            v.extend(c.kv.iter().map(|(k, x)| format!("{}:{}{}", k, if x.is_empty() { "" } else { "     " }, x)));
            v.extend(flags.iter().map(|f| format!("   :{}:", f)));
            v.extend(c.lines.iter().map(|l| format!("   {}", l)));
        }
        // Each flag twice, and empty lines.
        5 => {
            v.push(String::new());
            v.extend(flags.iter().map(|f| format!(":{}: :{}:", f, f)));
            v.extend(c.lines.clone());
            v.push(String::new());
            v.extend(kv);
            v.push(String::new());
        }
        _ => {
            v.extend(flags.iter().map(|f| format!(":{}:", f)));
            v.extend(c.lines.clone());
            v.extend(kv);
        }
    }
    v
}

pub fn lay(trns: &[Trn], y: Style) -> String {
    let (ind, eol, tail, sep, mark) = (INDENTS[y.indent], EOLS[y.eol], TAILS[y.tail], SEPS[y.sep], MARKS[y.mark]);
    let date = |d: &str| d.replace('-', &DATES[y.date].to_string());
    let mut o = s(LEADS[y.lead]);
    // A comment: in the line, or in lines of its own.
    let put = |o: &mut String, c: &Comment, tail1: &str| {
        let mut l = lay_comment(c, y.comments).into_iter();
        if y.comments == 1 {
            if let Some(x) = l.next() {
                let _ = write!(o, "  {}{}{}{}", mark, x, tail, eol);
            } else {
                let _ = write!(o, "{}{}", tail1, eol);
            }
        } else {
            let _ = write!(o, "{}{}", tail1, eol);
        }
        for x in l {
            let _ = write!(o, "{}{}{}{}{}", ind, mark, x, tail, eol);
        }
    };
    for (k, t) in trns.iter().enumerate() {
        if k > 0 {
            o.push_str(&GAPS[y.gap].replace('\n', eol));
        }
        o.push_str(&date(&t.date));
        if let Some(x) = &t.edate {
            let _ = write!(o, "={}", date(x));
        }
        let gap = HEADS[y.head];
        o.push_str(match t.st {
            St::None => "",
            St::Pend => " !",
            St::Clr => " *",
        });
        if let Some(x) = &t.code {
            let _ = write!(o, "{}({})", gap, x);
        }
        let _ = write!(o, "{}{}", gap, t.desc);
        put(&mut o, &t.c, "");
        for p in &t.posts {
            o.push_str(ind);
            o.push_str(match (p.st, y.head) {
                (St::None, _) => "",
                (St::Pend, 0) => "! ",
                (St::Pend, _) => "!",
                (St::Clr, 0) => "* ",
                (St::Clr, _) => "*",
            });
            o.push_str(&match p.kind {
                Kind::Real => p.acct.clone(),
                Kind::Bal => format!("[{}]", p.acct),
                Kind::Unbal => format!("({})", p.acct),
            });
            if p.amt.is_some() || p.bal.is_some() {
                o.push_str(sep);
            }
            if let Some(a) = &p.amt {
                o.push_str(&lay_amt(&a.a, y.amount));
                let price = |o: &mut String, x: &Price, l: [&str; 2], r: [&str; 2]| match x {
                    Price::None => {}
                    Price::Unit(a) => {
                        let _ = write!(o, " {}{}{}", l[0], lay_amt(a, y.amount), r[0]);
                    }
                    Price::Total(a) => {
                        let _ = write!(o, " {}{}{}", l[1], lay_amt(a, y.amount), r[1]);
                    }
                };
                price(&mut o, &a.lot, ["{", "{{"], ["}", "}}"]);
                price(&mut o, &a.price, if y.sep == 1 { ["@", "@@"] } else { ["@ ", "@@ "] }, ["", ""]);
            }
            match &p.bal {
                None => {}
                Some(Bal::Zero) => o.push_str(if y.sep == 1 { "=0" } else { " = 0" }),
                Some(Bal::Amt(a)) => {
                    let _ = write!(o, "{}{}", if y.sep == 1 { "=" } else { " = " }, lay_amt(a, y.amount));
                }
            }
            put(&mut o, &p.c, tail);
        }
    }
    match y.end {
        3 => o.truncate(o.trim_end_matches(['\r', '\n']).len()),
        k => o.push_str(&ENDS[k].replace('\n', eol)),
    }
    o
}

struct Outcome {
    ok: Option<bool>,
    outs: Vec<Option<Vec<u8>>>,
    short: String,
}

fn layout_run(e: &mut Env, fs: &[String], args: &[&str], outs: &[&str]) -> Outcome {
    for o in outs {
        e.sut.rm(o);
    }
    for (k, f) in fs.iter().enumerate() {
        e.sut.put(&format!("f{}.journal", k), f);
    }
    let out = e.sut.run(args);
    Outcome { ok: kind(&out), outs: outs.iter().map(|o| e.sut.get(o)).collect(), short: out.short() }
}

fn layout_same(base: &Outcome, got: &Outcome, args: &[&str], plain: &[String], fs: &[String]) -> R {
    let desc = || {
        let show = |x: &Outcome| format!("{}\n{}", x.short, x.outs.iter().map(text).collect::<Vec<_>>().join("\n---\n"));
        format!("{:?}: {}\nand with plain layout: {}\ninputs:\n{}\nand plain:\n{}", args, show(got), show(base), fs.join("\n--- ---\n"), plain.join("\n--- ---\n"))
    };
    ensure!(got.ok.is_some(), "disorderly", "{}", desc());
    ensure!(got.ok == base.ok, "outcome depends on layout", "{}", desc());
    ensure!(got.outs == base.outs, "output depends on layout", "{}", desc());
    Ok(())
}

const MERGE2: [&str; 7] = ["merge", "-o", "o.journal", "-u", "u.journal", "f0.journal", "f1.journal"];
const MERGE1: [&str; 6] = ["merge", "-o", "o.journal", "-u", "u.journal", "f0.journal"];
const OUT2: [&str; 2] = ["o.journal", "u.journal"];

/// Compares all `n` variants of the inputs with the first.
fn layout_case(e: &mut Env, args: &[&str], outs: &[&str], n: usize, gen: &dyn Fn(usize) -> Vec<String>) -> R {
    let plain = gen(0);
    let base = layout_run(e, &plain, args, outs);
    ensure!(base.ok.is_some(), "disorderly", "{:?}: {}\n{}", args, base.short, plain.join("\n---\n"));
    e.outcome(if base.ok == Some(true) { "accepted" } else { "refused" });
    for k in 1..n {
        let fs = gen(k);
        if fs == plain {
            continue;
        }
        let got = layout_run(e, &fs, args, outs);
        e.case(true, &(&fs, args));
        e.sample(|| fs.join("\n--- ---\n"));
        layout_same(&base, &got, args, &plain, &fs)?;
    }
    Ok(())
}

pub fn c28(c: &Ctx) -> (&'static str, &'static str) {
    let (one, two) = (styles(1), styles(2));
    let o = ops();
    let f = features();
    let nf = f.len();
    let feature_files = |i: usize| -> Vec<Vec<Trn>> {
        let a = |x: &str| post("assets:a", "GBP1010.00", &[x]);
        let b = |x: &str| post("assets:o", "GBP-10.00", &[x]);
        let (sit, k) = (i / nf, i % nf);
        let (mut d, mut src) = (trn(D1, "shop", vec![a("a"), b("b")]), trn(D1, "src", vec![a("s"), b("t")]));
        match sit {
            0 => f[k].1(&mut d, 0),
            1 => f[k].1(&mut src, 0),
            2 => {
                f[k].1(&mut d, 1);
                f[k].1(&mut src, 1);
            }
            _ => {
                src.posts[0] = a("a");
                src.posts.push(post("assets:n", "GBP7", &["n"]));
                f[k].1(&mut d, 0);
                f[k].1(&mut src, 0);
            }
        }
        vec![vec![d], vec![src, trn(D2, "last", vec![post("assets:z", "GBP1", &["z"])])]]
    };
    // Merging: every feature under every single deviation, of either file and of both.
    c.par("merges of features", nf * 4, |e, i| {
        let js = feature_files(i);
        layout_case(e, &MERGE2, &OUT2, one.len() * 3, &|k| {
            let y = one[k / 3];
            let d = Style::default();
            vec![lay(&js[0], if k % 3 == 1 { d } else { y }), lay(&js[1], if k % 3 == 2 { d } else { y })]
        })
    });
    // Sequences of merges.
    c.par("merges of pairs", o.len() * o.len(), |e, i| {
        let (a, b) = (&o[i % o.len()], &o[i / o.len()]);
        layout_case(e, &MERGE2, &OUT2, one.len(), &|k| vec![lay(a, one[k]), lay(b, one[(k * 7) % one.len()])])
    });
    // Pairs of deviations on journals with everything in them.
    let journals: Vec<Vec<Trn>> = vec![
        o.iter().take(8).flatten().cloned().enumerate().map(|(k, t)| with_fps(t, k)).collect(),
        o.iter().skip(8).flatten().cloned().enumerate().map(|(k, t)| with_fps(t, k)).collect(),
        full_journal().into_iter().enumerate().map(|(k, t)| with_fps(t, k)).collect(),
        wide().into_iter().enumerate().map(|(k, t)| with_fps(t, k)).collect(),
        (0..nf)
            .map(|k| {
                let mut t = with_fps(feature_files(k)[0][0].clone(), k);
                t.date = format!("20{:02}-01-{:02}", 30 + k / 28, 1 + k % 28);
                t
            })
            .collect(),
    ];
    for (k, j) in journals.iter().enumerate() {
        c.one(&format!("journal {} merges", k), |e| {
            let base = layout_run(e, &[lay(j, Style::default())], &MERGE1, &OUT2);
            ensure!(base.ok == Some(true), "valid journal refused", "{}", base.short);
            Ok(())
        });
    }
    let nj = if c.thorough { journals.len() } else { 4 };
    let chunk = 16;
    let chunks = two.len().div_ceil(chunk);
    c.par("merges with themselves", nj * chunks, |e, i| {
        let j = &journals[[0, 1, 3, 4, 2][i % nj]];
        let from = i / nj * chunk;
        layout_case(e, &MERGE2, &OUT2, chunk.min(two.len() - from) + 1, &|k| {
            let y = if k == 0 { Style::default() } else { two[from + k - 1] };
            vec![lay(j, y), lay(j, Style::default())]
        })
    });
    c.par("merges of one file", journals.len() * chunks, |e, i| {
        let j = &journals[i % journals.len()];
        let from = i / journals.len() * chunk;
        layout_case(e, &MERGE1, &OUT2, chunk.min(two.len() - from) + 1, &|k| vec![lay(j, if k == 0 { Style::default() } else { two[from + k - 1] })])
    });
    // Rules.
    let tables = [
        EMPTY_RULES.to_string(),
        s("[Chain(\"start\", [Rule(action: All([AddPostingFlagTag(\"hit\"), SetAccount(\"assets:set\")]), predicate: Account(Contains(\"a\")), result: Continue), Rule(action: AddTransactionFlagTag(\"shop\"), predicate: TransactionDescription(AsLower(Contains(\"shop\"))), result: Return), Rule(action: RemovePostingFlagTag(\"a\"), predicate: PostingHasFlagTag(\"a\"), result: Continue)])]"),
        s("[Chain(\"start\", [Rule(action: ReplaceTransactionDescription(RegexReplace(regex: \"(?i)shop\", replacement: \"store\")), predicate: True, result: Continue), Rule(action: AddPostingFlagTag(\"val\"), predicate: PostingValueTag(\"k\", Eq(\"v\")), result: Continue), Rule(action: RemovePostingFlagTag(\"b\"), predicate: Account(Eq(\"assets:a\")), result: Continue)])]"),
        // Every predicate, each with a flag of its own.
        crate::rules::ron(&vec![(s("start"), preds().into_iter().enumerate().map(|(k, p)| crate::rules::Rule { pred: p, act: crate::rules::Act::AddFlag(format!("hit{}", k)), ret: false }).collect())]),
    ];
    c.par("rules", journals.len() * chunks * tables.len(), |e, i| {
        let mut g = Dig(i);
        let (j, table) = (g.of(&journals), g.of(&tables));
        let from = g.take(chunks) * chunk;
        e.sut.put("r.ron", table);
        e.sut.put("f0.journal", lay(j, Style::default()));
        let out = e.sut.run(&["apply-rules", "-o", "o.journal", "f0.journal", "table", "r.ron"]);
        ensure!(out.ok(), "valid rules refused", "{}\n{}", out.short(), table);
        layout_case(e, &["apply-rules", "-o", "o.journal", "f0.journal", "table", "r.ron"], &["o.journal"], chunk.min(two.len() - from) + 1, &|k| vec![lay(j, if k == 0 { Style::default() } else { two[from + k - 1] })])
    });
    // Fingerprints are only added where there are none.
    let marked: Vec<Vec<Trn>> = journals
        .iter()
        .map(|j| {
            let mut j = j.clone();
            for (k, p) in j.iter_mut().flat_map(|t| &mut t.posts).enumerate() {
                p.c.flags.insert(format!("fp-m{}", k));
            }
            j
        })
        .collect();
    c.par("generated fingerprints", marked.len() * chunks, |e, i| {
        let j = &marked[i % marked.len()];
        let from = i / marked.len() * chunk;
        let gen = |k: usize| vec![lay(j, if k == 0 { Style::default() } else { two[from + k - 1] })];
        // Rewritten in place.
        let plain = gen(0);
        let base = rewrite(e, "generate-fingerprints", &plain);
        for k in 1..=chunk.min(two.len() - from) {
            let fs = gen(k);
            if fs != plain {
                let got = rewrite(e, "generate-fingerprints", &fs);
                e.case(true, &fs);
                layout_same(&base, &got, &["generate-fingerprints", "f0.journal"], &plain, &fs)?;
            }
        }
        Ok(())
    });
    // Formatting first changes nothing.
    c.par("merges of formatted files", nf * 4 + o.len() * o.len(), |e, i| {
        let js = if i < nf * 4 { feature_files(i) } else { vec![o[(i - nf * 4) % o.len()].clone(), o[(i - nf * 4) / o.len()].clone()] };
        let formatted: Vec<String> = js
            .iter()
            .map(|j| {
                let r = rewrite(e, "fmt", &[render(j)]);
                String::from_utf8_lossy(r.outs[0].as_deref().unwrap_or_default()).into_owned()
            })
            .collect();
        layout_case(e, &MERGE2, &OUT2, 4, &|k| (0..2).map(|x| if k >> x & 1 == 1 { formatted[x].clone() } else { render(&js[x]) }).collect())
    });
    ("exploration", "every case is a command on journals laid out in one way, compared byte for byte with the same command on the same journals in plain layout; distinct by text")
}

fn rewrite(e: &mut Env, cmd: &str, fs: &[String]) -> Outcome {
    e.sut.put("f0.journal", &fs[0]);
    let out = e.sut.run(&[cmd, "f0.journal"]);
    Outcome { ok: kind(&out), outs: vec![e.sut.get("f0.journal")], short: out.short() }
}

/// With fingerprints on all postings, so that it can be merged.
fn with_fps(mut t: Trn, k: usize) -> Trn {
    for (n, p) in t.posts.iter_mut().enumerate() {
        // No other transaction has them.
        p.c.flags = p.c.flags.iter().map(|f| if f.starts_with("fp-") { format!("{}-{}", f, k) } else { f.clone() }).collect();
        p.c.flags.insert(format!("fp-w{}-{}", k, n));
    }
    t
}
