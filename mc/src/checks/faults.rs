//! Faults of file operations, at every operation of every command, one and two at a time.

use super::imports::{small_import, Kind3, KINDS3};
use super::journals::EMPTY_RULES;
use super::merging::{post, trn, D1, D2};
use crate::ctx::{fail, Ctx, Env, Fail};
use crate::ensure;
use crate::imports::Ns;
use crate::journal::*;
use crate::sut::Out;

fn s(x: &str) -> String {
    x.into()
}

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| s(y)).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Op {
    k: usize,
    what: String,
    path: String,
}

impl Op {
    fn writes(&self) -> bool {
        ["open-w", "write", "mkdir", "truncate", "rename", "unlink"].contains(&self.what.as_str())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Effect {
    /// The operation fails: the command must fail too.
    Fails,
    /// The operation is interrupted or incomplete, and the command must carry on.
    Harmless,
    /// The process ends there.
    Crash,
}

/// What can happen to an operation.
fn faults_of(what: &str) -> Vec<(&'static str, Effect)> {
    use Effect::*;
    match what {
        // ENOENT, EACCES, EMFILE, EIO, ELOOP, EPERM, ENOMEM; EINTR.
        "open-r" => vec![("2", Fails), ("13", Fails), ("24", Fails), ("5", Fails), ("40", Fails), ("1", Fails), ("12", Fails), ("4", Harmless), ("kill", Crash)],
        // EACCES, ENOSPC, EROFS, EISDIR, EMFILE, EDQUOT, EIO, ENOENT.
        "open-w" => vec![("13", Fails), ("28", Fails), ("30", Fails), ("21", Fails), ("24", Fails), ("122", Fails), ("5", Fails), ("2", Fails), ("4", Harmless), ("kill", Crash)],
        // EIO, EISDIR, ENOMEM, ESTALE, ETIMEDOUT.
        "read" => vec![("5", Fails), ("21", Fails), ("12", Fails), ("116", Fails), ("110", Fails), ("4", Harmless), ("short", Harmless), ("half", Harmless), ("kill", Crash)],
        // ENOSPC, EIO, EDQUOT, EFBIG, EPIPE.
        "write" => vec![("28", Fails), ("5", Fails), ("122", Fails), ("27", Fails), ("32", Fails), ("zero", Fails), ("4", Harmless), ("short", Harmless), ("half", Harmless), ("kill", Crash), ("torn", Crash)],
        "mkdir" => vec![("13", Fails), ("28", Fails), ("30", Fails), ("5", Fails), ("kill", Crash)],
        "realpath" => vec![("2", Fails), ("13", Fails), ("5", Fails), ("40", Fails), ("kill", Crash)],
        "rename" | "truncate" | "fsync" => vec![("5", Fails), ("28", Fails), ("kill", Crash)],
        _ => vec![("kill", Crash)],
    }
}

/// Which of the operations are faulted: all, but of a long run of operations of the same kind on the same file only those at its
/// ends and some between.
fn faulted(ops: &[Op], thorough: bool) -> Vec<&Op> {
    let (ends, between) = if thorough { (24, 40) } else { (8, 8) };
    let mut v = Vec::new();
    let mut at = 0;
    while at < ops.len() {
        let n = ops[at..].iter().take_while(|o| o.what == ops[at].what && o.path == ops[at].path).count();
        let step = ((n.saturating_sub(2 * ends)) / between).max(1);
        v.extend((0..n).filter(|j| *j < ends || j + ends >= n || (j - ends) % step == 0).map(|j| &ops[at + j]));
        at += n;
    }
    v
}

pub struct Scen {
    pub args: Vec<String>,
    pub stdin: Option<Vec<u8>>,
    /// Written in place.
    pub in_place: Vec<String>,
    pub outputs: Vec<String>,
}

struct Ran {
    out: Out,
    stdout: Vec<u8>,
    tree: Vec<(String, Vec<u8>)>,
    ops: Vec<Op>,
}

fn tree(e: &Env) -> Vec<(String, Vec<u8>)> {
    let mut t = e.sut.tree();
    // What external programs and temporary directories leave behind.
    t.retain(|f| f.0 != "tess.list" && !f.0.starts_with("tmp"));
    t
}

fn run(c: &Ctx, e: &mut Env, sc: &Scen, faults: &str) -> Ran {
    let log = e.sut.dir.with_extension("log");
    let _ = std::fs::remove_file(&log);
    let (dir, tmp) = (e.sut.dir.display().to_string(), e.sut.path("tmp").display().to_string());
    let (lib, log_s) = (c.root.join("target/libfault.so").display().to_string(), log.display().to_string());
    let a: Vec<&str> = sc.args.iter().map(|x| x.as_str()).collect();
    let p = e.sut.plain(
        &a,
        sc.stdin.as_deref(),
        &[("LD_PRELOAD", &lib), ("ACCMC_DIR", &dir), ("ACCMC_LOG", &log_s), ("ACCMC_FAULTS", faults), ("TMPDIR", &tmp)],
    );
    let ops = std::fs::read_to_string(&log)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            (w.len() == 4).then(|| Op { k: w[0].parse().unwrap_or(usize::MAX), what: s(w[1]), path: w[2].strip_prefix(&format!("{}/", dir)).unwrap_or(w[2]).to_string() })
        })
        .collect();
    Ran { out: p.out, stdout: p.stdout, tree: tree(e), ops }
}

const OLD: &str = "2001-01-01 what was here before\n  old  GBP1\n  ; :fp-old:\n";

fn journal(n: usize, first: usize) -> String {
    let t: Vec<Trn> = (0..n)
        .map(|k| {
            let k = first + k;
            trn(if k % 2 == 0 { D1 } else { D2 }, &format!("transaction {}", k), vec![post("assets:a", &format!("GBP{}", k + 1), &[&format!("a{}", k)]), post("expenses:b", &format!("GBP-{}", k + 1), &[&format!("b{}", k)])])
        })
        .collect();
    render(&t)
}

pub const SCENS: [&str; 22] = [
    "merge", "merge with unmerged output", "merge from stdin", "merge to stdout", "apply-rules", "apply-rules with includes", "apply-rules from stdin", "apply-rules to stdout", "apply-rules without effect",
    "fmt", "fmt of three", "fmt stdin", "generate-fingerprints", "generate-fingerprints of two", "nationwide-csv", "nationwide-csv with lookup, directories and substitution", "nationwide-csv from stdin", "nationwide-csv to stdout",
    "paypal-csv", "paypal-csv from stdin", "nationwide-pdf", "nationwide-pdf to stdout",
];

/// Puts the files of a scenario; `n` is the size of its journals, `old` whether outputs are there already.
pub fn scenario(c: &Ctx, e: &mut Env, k: usize, n: usize, old: bool) -> Scen {
    e.sut.mkdir("tmp");
    let mut sc = Scen { args: vec![], stdin: None, in_place: vec![], outputs: vec![s("out.journal")] };
    let rules = "[Chain(\"start\", [Rule(action: AddPostingFlagTag(\"ruled\"), predicate: True, result: Continue)])]";
    let import = |e: &mut Env, kind: Kind3, ns: &Ns| -> Vec<String> {
        let (a, _, _) = small_import(c, e, kind, ns);
        if n > 1 && kind == Kind3::Csv {
            let f = e.sut.get("in.csv").unwrap();
            let mut x = f.clone();
            for _ in 0..n {
                x.extend(tail_line(&f));
            }
            e.sut.put("in.csv", x);
        }
        a
    };
    match SCENS[k] {
        "merge" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("b.journal", journal(n, n));
            sc.args = sv(&["merge", "-o", "out.journal", "a.journal", "b.journal"]);
        }
        "merge with unmerged output" => {
            let same = |x: &str| post("assets:same", "GBP5", &[x]);
            e.sut.put("a.journal", journal(n, 0) + "\n" + &render(&[trn(D1, "same", vec![same("s1"), same("s2")])]));
            e.sut.put("b.journal", render(&[trn(D1, "same", vec![same("s3")])]));
            sc.args = sv(&["merge", "-o", "out.journal", "-u", "un.journal", "a.journal", "b.journal"]);
            sc.outputs.push(s("un.journal"));
        }
        "merge from stdin" => {
            e.sut.put("b.journal", journal(n, n));
            sc.stdin = Some(journal(n, 0).into_bytes());
            sc.args = sv(&["merge", "-o", "out.journal", "b.journal", "-"]);
        }
        "merge to stdout" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("b.journal", journal(n, n));
            sc.args = sv(&["merge", "a.journal", "b.journal"]);
        }
        "apply-rules" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("r.ron", rules);
            sc.args = sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]);
        }
        "apply-rules with includes" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("r.ron", "[Include(\"sub/i.ron\"), Chain(\"start\", [Rule(action: JumpChain(\"x\"), predicate: True, result: Continue)])]");
            e.sut.put("sub/i.ron", "[Include(\"j.ron\")]");
            e.sut.put("sub/j.ron", "[Chain(\"x\", [Rule(action: AddPostingFlagTag(\"ruled\"), predicate: True, result: Continue)])]");
            sc.args = sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]);
        }
        "apply-rules from stdin" => {
            e.sut.put("r.ron", rules);
            sc.stdin = Some(journal(n, 0).into_bytes());
            sc.args = sv(&["apply-rules", "-o", "out.journal", "-", "table", "r.ron"]);
        }
        "apply-rules to stdout" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("r.ron", rules);
            sc.args = sv(&["apply-rules", "a.journal", "table", "r.ron"]);
        }
        "apply-rules without effect" => {
            e.sut.put("a.journal", journal(n, 0));
            e.sut.put("r.ron", EMPTY_RULES);
            sc.args = sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]);
        }
        "fmt" | "fmt of three" => {
            let m = if SCENS[k] == "fmt" { 1 } else { 3 };
            sc.args = sv(&["fmt"]);
            for f in 0..m {
                let f = format!("f{}.journal", f);
                e.sut.put(&f, journal(n, 0).replace("  assets", "      assets"));
                sc.args.push(f.clone());
                sc.in_place.push(f);
            }
        }
        "fmt stdin" => {
            sc.stdin = Some(journal(n, 0).replace("  assets", "      assets").into_bytes());
            sc.args = sv(&["fmt", "-"]);
        }
        "generate-fingerprints" | "generate-fingerprints of two" => {
            let m = if SCENS[k] == "generate-fingerprints" { 1 } else { 2 };
            sc.args = sv(&["generate-fingerprints"]);
            for f in 0..m {
                let f = format!("f{}.journal", f);
                // With fingerprints everywhere, the result is the same each time.
                e.sut.put(&f, journal(n, 0).replace("  assets", "      assets"));
                sc.args.push(f.clone());
                sc.in_place.push(f);
            }
        }
        "nationwide-csv" => {
            let a = import(e, Kind3::Csv, &Ns::Default);
            sc.args = [sv(&["import", "-o", "out.journal"]), a].concat();
        }
        "nationwide-csv with lookup, directories and substitution" => {
            let a = import(e, Kind3::Csv, &Ns::Lookup(vec![(s("****12345"), s("look"))]));
            sc.args = [sv(&["import", "-o", "new/a/%FP_NS%.journal", "--sub-output-path", "--make-parent-dirs"]), a].concat();
            sc.outputs = vec![s("new/a/look.journal")];
        }
        "nationwide-csv from stdin" => {
            let mut a = import(e, Kind3::Csv, &Ns::Default);
            sc.stdin = e.sut.get("in.csv");
            a.iter_mut().filter(|x| *x == "in.csv").for_each(|x| *x = s("-"));
            sc.args = [sv(&["import", "-o", "out.journal"]), a].concat();
        }
        "nationwide-csv to stdout" => {
            let a = import(e, Kind3::Csv, &Ns::Default);
            sc.args = [sv(&["import"]), a].concat();
        }
        "paypal-csv" => {
            let a = import(e, KINDS3[2], &Ns::Default);
            sc.args = [sv(&["import", "-o", "out.journal"]), a].concat();
        }
        "paypal-csv from stdin" => {
            let mut a = import(e, KINDS3[2], &Ns::Default);
            sc.stdin = e.sut.get("in.csv");
            a.iter_mut().filter(|x| *x == "in.csv").for_each(|x| *x = s("-"));
            sc.args = [sv(&["import", "-o", "out.journal"]), a].concat();
        }
        "nationwide-pdf" => {
            let a = import(e, Kind3::Pdf, &Ns::Default);
            sc.args = [sv(&["import", "-o", "out.journal"]), a].concat();
        }
        _ => {
            let a = import(e, Kind3::Pdf, &Ns::Default);
            sc.args = [sv(&["import"]), a].concat();
        }
    }
    if SCENS[k].contains("pdf") && n > 1 {
        e.sut.put("gm.pages", "3");
    }
    if old && n == 1 {
        // Without an end of line at the end of the files.
        for (f, mut x) in e.sut.tree() {
            if ["ron", "journal", "tsv", "csv"].iter().any(|y| f.ends_with(y)) && x.last() == Some(&b'\n') {
                while x.last().is_some_and(|b| b.is_ascii_whitespace()) {
                    x.pop();
                }
                e.sut.put(&f, x);
            }
        }
    }
    if old && sc.in_place.is_empty() && sc.outputs.iter().all(|o| !o.contains('/')) {
        for o in sc.outputs.clone() {
            e.sut.put(&o, OLD);
        }
    }
    sc
}

/// The last line of a file, with its line end.
fn tail_line(f: &[u8]) -> Vec<u8> {
    let end = f.len().saturating_sub(1);
    let at = f[..end].iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
    let mut v = f[at..].to_vec();
    if v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    v
}

struct Base {
    before: Vec<(String, Vec<u8>)>,
    ran: Ran,
}

fn baseline(c: &Ctx, e: &mut Env, k: usize, n: usize, old: bool) -> Result<(Scen, Base), Fail> {
    let sc = scenario(c, e, k, n, old);
    let before = tree(e);
    let ran = run(c, e, &sc, "");
    ensure!(ran.out.ok(), "fails without a fault", "{:?}: {}", sc.args, ran.out.short());
    ensure!(!ran.ops.is_empty(), "no file operations seen", "{:?}", sc.args);
    // In place: a file is read to its end before it is first written.
    for f in &sc.in_place {
        let w = ran.ops.iter().position(|o| &o.path == f && o.writes());
        let r = ran.ops.iter().rposition(|o| &o.path == f && (o.what == "read" || o.what == "open-r"));
        if let (Some(w), Some(r)) = (w, r) {
            ensure!(r < w, "written before it is read", "{:?}: {} is opened for writing before it has been read completely: {:?}", sc.args, f, ran.ops);
        }
    }
    Ok((sc, Base { before, ran }))
}

/// Runs a scenario with faults and judges what became of it.
fn judge(c: &Ctx, e: &mut Env, k: usize, n: usize, old: bool, base: &Base, faults: &[(usize, &'static str, Effect)]) -> Result<Ran, Fail> {
    e.sut.reset();
    let sc = scenario(c, e, k, n, old);
    let spec = faults.iter().map(|(k, f, _)| format!("{}:{}", k, f)).collect::<Vec<_>>().join(",");
    let r = run(c, e, &sc, &spec);
    e.case(true, &(k, n, old, &spec));
    let reached = |k: usize| r.ops.iter().any(|o| o.k == k);
    let what = || {
        format!(
            "{:?} ({}), faults {}: {}\noperations: {}",
            sc.args,
            SCENS[k],
            faults.iter().map(|(k, f, _)| format!("{} at operation {}", f, k)).collect::<Vec<_>>().join(", "),
            r.out.short(),
            r.ops.iter().map(|o| format!("{} {} {}", o.k, o.what, o.path)).collect::<Vec<_>>().join("; ")
        )
    };
    e.sample(|| format!("{}\n", what()));
    let fatal = faults.iter().filter(|f| f.2 != Effect::Harmless && reached(f.0)).min_by_key(|f| f.0);
    match fatal {
        Some((at, _, eff)) => {
            if *eff == Effect::Fails {
                e.outcome("failed");
                ensure!(!r.out.ok(), "success in spite of a fault", "{}", what());
                ensure!(r.out.failed(), "disorderly end after a fault", "{}", what());
            } else {
                e.outcome("crashed");
                ensure!(matches!(r.out, Out::Crash(_)), "no crash", "{}", what());
            }
            let torn = faults.iter().any(|f| f.0 == *at && f.1 == "torn");
            // A buffer may write once more what could not be written, so a fault of a write is not before writing.
            let writing = r.ops.iter().any(|o| (o.k < *at || o.k == *at && (torn || o.what == "write")) && o.writes());
            if !writing {
                ensure!(r.tree == base.before, "files changed before writing began", "{}", what());
                ensure!(r.stdout.is_empty(), "output before writing began", "{}", what());
            }
            // What has not been opened for writing is as it was.
            for (f, x) in &base.before {
                let opened = r.ops.iter().any(|o| &o.path == f && o.writes() && (o.k < *at || torn && o.k == *at));
                if !opened && !f.ends_with('/') {
                    let now = r.tree.iter().find(|y| &y.0 == f).map(|y| &y.1);
                    ensure!(now == Some(x), "file changed", "{} changed although it was not written: {}", f, what());
                }
            }
            if sc.in_place.is_empty() {
                // Once more, without the fault.
                let again = run(c, e, &sc, "");
                ensure!(again.out.ok(), "fails when run again", "{}\nthen {}", what(), again.out.short());
                ensure!(again.stdout == base.ran.stdout && again.tree == base.ran.tree, "differs when run again", "{}", what());
            }
        }
        // Some libraries report an interruption (EINTR) instead of repeating the operation.
        None if r.out.failed() && faults.iter().any(|f| f.1 == "4" && reached(f.0)) => e.outcome("interrupted"),
        None => {
            e.outcome("not impaired");
            ensure!(r.out.ok(), "fails because of an interruption", "{}", what());
            ensure!(r.tree == base.ran.tree, "incomplete output reported as success", "{}\n{}", what(), first_difference(&base.ran.tree, &r.tree));
            ensure!(r.stdout == base.ran.stdout, "incomplete output reported as success", "standard output: {}", what());
        }
    }
    Ok(r)
}

fn first_difference(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> String {
    match a.iter().zip(b).find(|(x, y)| x != y) {
        Some((x, y)) => format!("{} ({} bytes) became {} ({} bytes)", x.0, x.1.len(), y.0, y.1.len()),
        None => format!("{} files became {}", a.len(), b.len()),
    }
}

pub fn c19(c: &Ctx) -> (&'static str, &'static str) {
    let ns = SCENS.len();
    let sizes: &[usize] = if c.thorough { &[1, 40, 120, 1000] } else { &[1, 120] };
    // One fault.
    let found = c.par_map("operations", ns * sizes.len() * 2, |e, i| {
        let mut g = super::merging::Dig(i);
        let (n, old, k) = (*g.of(sizes), g.take(2) == 1, g.0);
        let (_, b) = baseline(c, e, k, n, old)?;
        e.case(false, &i);
        Ok(b)
    });
    let base = |k: usize, n: usize, old: bool| found[sizes.iter().position(|x| *x == n).unwrap() + sizes.len() * (old as usize + 2 * k)].as_ref().expect("a baseline");
    if c.stop.load(std::sync::atomic::Ordering::SeqCst) {
        return ("fault_enumeration", "runs without faults failed");
    }
    let mut cases = Vec::new();
    let mut total = 0;
    for (i, ops) in found.iter().enumerate() {
        let mut g = super::merging::Dig(i);
        let (n, old, k) = (*g.of(sizes), g.take(2) == 1, g.0);
        for o in ops.iter().flat_map(|b| faulted(&b.ran.ops, c.thorough)) {
            total += 1;
            for (f, eff) in faults_of(&o.what) {
                cases.push((k, n, old, o.k, f, eff));
            }
        }
    }
    c.extra("operations faulted", total.to_string());
    c.par("one fault", cases.len(), |e, i| {
        let (k, n, old, at, f, eff) = cases[i];
        judge(c, e, k, n, old, base(k, n, old), &[(at, f, eff)]).map(|_| ())
    });
    // Two faults: the first does not end the command, the second is any.
    let firsts: Vec<_> = cases.iter().filter(|x| x.5 == Effect::Harmless && (c.thorough && x.1 <= 120 || x.1 == 1 && !x.2)).cloned().collect();
    c.par("two faults", firsts.len(), |e, i| {
        let (k, n, old, at, f, eff) = firsts[i];
        let b = base(k, n, old);
        let r = judge(c, e, k, n, old, b, &[(at, f, eff)])?;
        for o in faulted(&r.ops, c.thorough).into_iter().filter(|o| o.k > at) {
            for (f2, eff2) in faults_of(&o.what) {
                if c.thorough || ["5", "28", "4", "short", "half", "zero", "torn", "13"].contains(&f2) {
                    judge(c, e, k, n, old, b, &[(at, f, eff), (o.k, f2, eff2)])?;
                }
            }
        }
        Ok(())
    });
    // Every operation interrupted or shortened.
    c.par("everything interrupted", ns * 3 * sizes.len(), |e, i| {
        let mut g = super::merging::Dig(i);
        let (how, n, k) = (g.take(3), *g.of(sizes), g.0);
        let b = base(k, n, true);
        let f = ["4", "short", "half"][how];
        let mut fs: Vec<(usize, &'static str, Effect)> = Vec::new();
        let mut at = 0;
        // The operations move as faults are added.
        loop {
            let r = judge(c, e, k, n, true, b, &fs)?;
            let next = r.ops.iter().find(|o| o.k >= at && faults_of(&o.what).iter().any(|x| x.0 == f));
            match next {
                Some(o) if fs.len() < 60 => {
                    fs.push((o.k, f, Effect::Harmless));
                    at = o.k + if how == 0 { 2 } else { 1 };
                }
                _ => return Ok(()),
            }
        }
    });
    // Places that cannot be read or written.
    let bad_out = ["missing/out.journal", "dir", "file/out.journal", "dir/", ""];
    c.par("impossible outputs", ns * bad_out.len(), |e, i| {
        let mut g = super::merging::Dig(i);
        let (o, k) = (*g.of(&bad_out), g.0);
        let mut sc = scenario(c, e, k, 1, false);
        e.sut.mkdir("dir");
        e.sut.put("file", "x");
        let Some(p) = sc.args.iter().position(|a| a == "-o") else {
            return Ok(());
        };
        if sc.args.iter().any(|a| a == "--make-parent-dirs") && o.starts_with("missing") {
            return Ok(());
        }
        sc.args[p + 1] = s(o);
        let before = tree(e);
        let a: Vec<&str> = sc.args.iter().map(|x| x.as_str()).collect();
        let r = e.sut.plain(&a, sc.stdin.as_deref(), &[]);
        e.case(true, &a);
        ensure!(r.out.failed(), "success in spite of a fault", "{:?}: {}", a, r.out.short());
        // The other output may have been written.
        ensure!(tree(e) == before || sc.outputs.len() > 1, "file changed", "{:?}", a);
        Ok(())
    });
    c.par("impossible inputs", ns * 8 * 4, |e, i| {
        let mut g = super::merging::Dig(i);
        let (which, how, k) = (g.take(8), g.take(4), g.0);
        let sc = scenario(c, e, k, 1, true);
        // The inputs, in the order of their names.
        let inputs: Vec<String> = e.sut.tree().into_iter().map(|f| f.0).filter(|f| !f.ends_with('/') && !sc.outputs.contains(f) && !["ocr.tsv", "tess.list", "gm.pages"].contains(&f.as_str())).collect();
        let Some(f) = inputs.get(which).cloned() else { return Ok(()) };
        if !sc.args.contains(&f) && !f.ends_with(".ron") {
            return Ok(());
        }
        e.sut.rm(&f);
        match how {
            0 => {}
            1 => e.sut.mkdir(&f),
            2 => {
                let _ = std::os::unix::fs::symlink(e.sut.path(&f), e.sut.path(&f));
            }
            _ => {
                let _ = std::os::unix::fs::symlink("nowhere", e.sut.path(&f));
            }
        }
        let before = tree(e);
        let a: Vec<&str> = sc.args.iter().map(|x| x.as_str()).collect();
        let r = e.sut.plain(&a, sc.stdin.as_deref(), &[("TMPDIR", "tmp")]);
        e.case(true, &(&a, &f, how));
        let after = tree(e);
        let late = sc.in_place.iter().position(|x| *x == f).unwrap_or(0) > 0;
        let _ = std::fs::remove_file(e.sut.path(&f));
        // The PDF itself is read by the external programs only; a missing one makes the stand-in fail.
        let pdf_dir = f.ends_with(".pdf") && how == 1;
        ensure!(r.out.failed() || pdf_dir, "success in spite of a fault", "{:?} with {} impossible to read: {}", a, f, r.out.short());
        ensure!(r.stdout.is_empty() || pdf_dir, "output in spite of a fault", "{:?} with {} impossible to read", a, f);
        if !late && !pdf_dir {
            ensure!(after == before, "file changed", "{:?} with {} impossible to read", a, f);
        }
        Ok(())
    });
    // A standard output that cannot be written.
    let to_stdout: Vec<usize> = (0..ns).filter(|k| SCENS[*k].contains("to stdout") || SCENS[*k] == "fmt stdin").collect();
    c.par("standard output", to_stdout.len() * 2 * sizes.len(), |e, i| {
        use std::process::{Command, Stdio};
        let mut g = super::merging::Dig(i);
        let (full, n, k) = (g.take(2) == 0, *g.of(sizes), to_stdout[g.0]);
        let sc = scenario(c, e, k, n, false);
        let mut st = None;
        // For a moment, processes started at the same time may hold the reading end, too.
        for _ in 0..30 {
            let mut cmd = Command::new(&c.bin);
            cmd.current_dir(&e.sut.dir).env_remove("LD_PRELOAD").env("TMPDIR", e.sut.path("tmp")).args(&sc.args).stderr(Stdio::null());
            cmd.stdin(if sc.stdin.is_some() { Stdio::piped() } else { Stdio::null() });
            if full {
                let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/full") else { return Ok(()) };
                cmd.stdout(f);
            } else {
                // A reader that went away.
                let (r, w) = std::io::pipe().expect("a pipe");
                drop(r);
                cmd.stdout(w);
            }
            let mut ch = cmd.spawn().expect("starting the program under test");
            if let (Some(mut si), Some(data)) = (ch.stdin.take(), &sc.stdin) {
                let _ = std::io::Write::write_all(&mut si, data);
            }
            let now = ch.wait().expect("waiting for the program under test");
            st = Some(now);
            if full || !now.success() {
                break;
            }
        }
        let st = st.unwrap();
        e.case(true, &(full, n, k));
        if st.code() != Some(1) {
            return fail("success in spite of a fault", format!("{:?} with {} as standard output: {}", sc.args, if full { "/dev/full" } else { "a closed pipe" }, st));
        }
        Ok(())
    });
    c.assume("failures of close() are not injected (the standard library does not report them), nor is EBADF on standard streams (which it takes for an empty stream)");
    c.assume("of more than 16 operations of the same kind on the same file in a row, the first and last eight and every so many between are faulted (thorough: 24, 40)");
    c.assume("operations of the external OCR programs are not faulted here (C14 covers their failures)");
    ("fault_enumeration", "every case is one command with one or more faults at chosen file operations, for every operation seen in the run without faults and every fault possible for its kind; exit status, all files, standard output and a repetition without faults are judged; distinct by scenario, size and faults")
}
