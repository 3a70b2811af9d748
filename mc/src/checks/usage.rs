//! C32: what a command line means. A grammar of the documented usage says which command lines mean anything, and
//! what: each is compared with the plainest command line that means the same, or has to be refused.

use super::imports::{small_import, Kind3};
use super::merging::{post, trn, Dig, D1};
use crate::ctx::{fail, Ctx, Env, Fail, R};
use crate::ensure;
use crate::imports::Ns;
use crate::journal::*;
use std::collections::HashMap;
use std::sync::Mutex;

fn s(x: &str) -> String {
    x.to_string()
}

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| s(x)).collect()
}

struct Opt {
    short: Option<char>,
    long: &'static str,
    value: bool,
    required: bool,
}

/// The options and arguments of a command, and the commands below it.
struct Level {
    opts: &'static [Opt],
    /// How many arguments at least, and at most.
    args: (usize, usize),
    subs: &'static [(&'static str, Level)],
}

const fn val(short: Option<char>, long: &'static str) -> Opt {
    Opt { short, long, value: true, required: false }
}

const fn flag(long: &'static str) -> Opt {
    Opt { short: None, long, value: false, required: false }
}

const OUT: Opt = val(Some('o'), "output");
const MANY: usize = usize::MAX;

const USAGE: Level = Level {
    opts: &[],
    args: (0, 0),
    subs: &[
        ("apply-rules", Level { opts: &[OUT], args: (1, 1), subs: &[("table", Level { opts: &[], args: (1, 1), subs: &[] })] }),
        ("fmt", Level { opts: &[], args: (0, MANY), subs: &[] }),
        ("generate-fingerprints", Level { opts: &[], args: (0, MANY), subs: &[] }),
        (
            "import",
            Level {
                opts: &[OUT, flag("sub-output-path"), flag("make-parent-dirs")],
                args: (0, 0),
                subs: &[
                    ("nationwide-csv", Level { opts: &[val(None, "fp-namespace"), flag("include-legacy-fingerprint")], args: (1, 1), subs: &[] }),
                    ("nationwide-pdf", Level { opts: &[val(None, "fp-namespace")], args: (1, 3), subs: &[] }),
                    (
                        "paypal-csv",
                        Level {
                            opts: &[Opt { short: None, long: "output-timezone", value: true, required: true }, val(None, "fingerprint-namespace"), flag("include-legacy-fingerprint")],
                            args: (2, 2),
                            subs: &[],
                        },
                    ),
                ],
            },
        ),
        ("merge", Level { opts: &[OUT, val(Some('u'), "unmerged")], args: (0, MANY), subs: &[] }),
    ],
};

/// The plainest command line that means the same: options in the order above, long, and before arguments.
fn meaning(line: &[String]) -> Option<Vec<String>> {
    let mut plain = Vec::new();
    let mut l = &USAGE;
    let mut given: Vec<Option<String>> = Vec::new();
    let mut args: Vec<String> = Vec::new();
    let mut only_args = false;
    let end = |plain: &mut Vec<String>, l: &Level, given: &[Option<String>], args: &[String]| -> Option<()> {
        for (k, o) in l.opts.iter().enumerate() {
            match given.get(k).cloned().flatten() {
                Some(v) => {
                    plain.push(format!("--{}", o.long));
                    if o.value {
                        plain.push(v);
                    }
                }
                None if o.required => return None,
                None => {}
            }
        }
        if args.len() < l.args.0 || args.len() > l.args.1 {
            return None;
        }
        if args.iter().any(|a| a.starts_with('-') && a != "-") {
            plain.push(String::from("--"));
        }
        plain.extend(args.iter().cloned());
        Some(())
    };
    let mut k = 0;
    while k < line.len() {
        let t = &line[k];
        k += 1;
        let mut option: Option<(usize, Option<String>)> = None;
        if only_args {
            args.push(t.clone());
        } else if t == "--" {
            only_args = true;
        } else if let Some(o) = t.strip_prefix("--") {
            let (name, v) = match o.split_once('=') {
                Some((n, v)) => (n, Some(s(v))),
                None => (o, None),
            };
            option = Some((l.opts.iter().position(|o| o.long == name)?, v));
        } else if t.starts_with('-') && t.len() > 1 {
            let c = t.chars().nth(1)?;
            let v = &t[1 + c.len_utf8()..];
            option = Some((l.opts.iter().position(|o| o.short == Some(c))?, if v.is_empty() { None } else { Some(s(v)) }));
        } else if let Some((name, sub)) = l.subs.iter().find(|(n, _)| n == t) {
            end(&mut plain, l, &given, &args)?;
            plain.push(s(name));
            (l, given, args) = (sub, Vec::new(), Vec::new());
        } else {
            args.push(t.clone());
        }
        if let Some((o, mut v)) = option {
            given.resize(l.opts.len(), None);
            if given[o].is_some() || (!l.opts[o].value && v.is_some()) {
                return None;
            }
            if l.opts[o].value && v.is_none() {
                v = Some(line.get(k).filter(|v| !v.starts_with('-') || *v == "-")?.clone());
                k += 1;
            }
            given[o] = Some(v.unwrap_or_default());
        }
        if args.len() > l.args.1 {
            return None;
        }
    }
    if !l.subs.is_empty() {
        return None;
    }
    end(&mut plain, l, &given, &args)?;
    Some(plain)
}

struct Job {
    path: String,
    files: Vec<(String, Vec<u8>)>,
    line: Vec<String>,
}

fn jobs(c: &Ctx) -> Vec<Job> {
    let a = render(&[trn(D1, "a", vec![post("x", "GBP1", &["f1"]), post("y", "GBP1", &["f2"])])]);
    let b = render(&[trn(D1, "b", vec![post("x", "GBP2", &["f3"])]), trn(D1, "a", vec![post("x", "GBP1", &["f4"])])]);
    let amb = a.replace("y", "x");
    let third = render(&[trn(D1, "c", vec![post("x", "GBP1", &["f5"])])]);
    let odd = "2020/01/02=2020/01/03   ! x\n\ta\tGBP 1\n\t; :fp-z:\n";
    let rules = "[Chain(\"start\", [Rule(action: AddPostingFlagTag(\"ruled\"), predicate: True, result: Continue)])]";
    let f = |x: &[(&str, &str)]| x.iter().map(|(n, x)| (s(n), x.as_bytes().to_vec())).collect::<Vec<_>>();
    let path = programs(c);
    let mut v = vec![
        Job { path: path.clone(), files: f(&[("a.j", &a), ("b.j", &b)]), line: sv(&["merge", "-o", "o.j", "a.j", "b.j"]) },
        Job { path: path.clone(), files: f(&[("a.j", &amb), ("b.j", &third)]), line: sv(&["merge", "-o", "o.j", "-u", "u.j", "a.j", "b.j"]) },
        Job { path: path.clone(), files: f(&[("in.j", &a), ("r.ron", rules)]), line: sv(&["apply-rules", "-o", "o.j", "in.j", "table", "r.ron"]) },
        Job { path: path.clone(), files: f(&[("a.j", odd), ("b.j", &b)]), line: sv(&["fmt", "a.j", "b.j"]) },
        Job { path: path.clone(), files: f(&[("a.j", odd), ("b.j", &b)]), line: sv(&["generate-fingerprints", "a.j", "b.j"]) },
    ];
    let ns = Ns::Lookup(vec![(s("****12345"), s("look"))]);
    for (kind, ns, first, second) in [
        (Kind3::Csv, Ns::Fixed(s("n")), &["import", "-o", "o.j"][..], &[][..]),
        (Kind3::Csv, ns, &["import", "-o", "d/%FP_NS%/o.j", "--sub-output-path", "--make-parent-dirs"], &["--include-legacy-fingerprint"]),
        (Kind3::Pp, Ns::Fixed(s("n")), &["import", "-o", "%FP_NS%.j", "--sub-output-path"], &["--include-legacy-fingerprint"]),
        (Kind3::Pdf, Ns::Fixed(s("n")), &["import", "-o", "d/e/o.j", "--make-parent-dirs"], &[]),
        (Kind3::Pdf, Ns::Default, &["import"], &[]),
    ] {
        let mut e = c.scratch_env();
        let (args, _, _) = small_import(c, &mut e, kind, &ns);
        let mut line = [sv(first), vec![args[0].clone()], sv(second), args[1..].to_vec()].concat();
        if let Kind3::Pdf = kind {
            let n = line.len();
            line[n - 2..].clone_from_slice(&sv(&["gm", "tesseract"]));
        }
        v.push(Job { path: path.clone(), files: e.sut.tree(), line });
    }
    v
}

/// A directory with the programs that importing a PDF runs, which cannot stand in for each other.
fn programs(c: &Ctx) -> String {
    let d = c.scratch.join("programs");
    std::fs::create_dir_all(&d).expect("creating directory");
    let ocr = c.root.join("target/ocr").display().to_string();
    for (n, is) in [("gm", "="), ("tesseract", "!=")] {
        let p = d.join(n);
        std::fs::write(&p, format!("#!/bin/sh\n[ \"$1\" {} convert ] && exec '{}' \"$@\"\n", is, ocr)).expect("writing");
        std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).expect("permissions");
    }
    d.display().to_string()
}

/// What a command did.
#[derive(Clone, PartialEq, Eq)]
struct Did {
    ok: bool,
    stdout: Vec<u8>,
    files: Vec<(String, Vec<u8>)>,
}

/// Nothing outside of the scratch directory can be meant by it, whatever it is taken for.
fn stays(t: &str) -> bool {
    let names = t.trim_start_matches("--output").trim_start_matches("-o").trim_start_matches("-u").trim_start_matches("--unmerged").trim_start_matches('=');
    !t.contains("..") && !t.starts_with('/') && !names.starts_with('/') && !t.contains("=/") && !t.starts_with("%FP_NS%/")
}

fn lay_out(e: &mut Env, j: &Job) {
    e.sut.reset();
    for (n, x) in &j.files {
        e.sut.put(n, x);
    }
    e.sut.mkdir("there");
}

fn run(e: &mut Env, j: &Job, line: &[String]) -> Result<(Did, String, bool), Fail> {
    assert!(line.iter().all(|t| stays(t)), "would leave the scratch directory: {:?}", line);
    lay_out(e, j);
    let mut before = e.sut.tree();
    before.sort();
    let p = e.sut.plain(&line.iter().map(String::as_str).collect::<Vec<_>>(), Some(b"2019-01-01 in\n  z  GBP7\n  ; :fp-in:\n"), &[("PATH", &j.path)]);
    ensure!(p.out.orderly(), "disorderly", "{:?}: {}", line, p.out.short());
    let mut files = e.sut.tree();
    files.sort();
    let untouched = before == files;
    Ok((Did { ok: p.out.ok(), stdout: p.stdout, files }, p.out.short(), untouched))
}

type Known = Mutex<HashMap<(usize, Vec<String>), Did>>;

fn judge(e: &mut Env, js: &[Job], known: &Known, j: usize, line: &[String]) -> R {
    let plain = meaning(line);
    e.case(true, &(j, line));
    e.sample(|| format!("{:?} is {}", line, plain.as_ref().map_or(s("no usage"), |p| format!("{:?}", p))));
    let Some(plain) = plain else {
        let (did, short, untouched) = run(e, &js[j], line)?;
        e.outcome("refused");
        ensure!(!did.ok, "accepted", "{:?}, which is not a usage", line);
        ensure!(untouched && did.stdout.is_empty(), "refused but done", "{:?} ({}): {:?} and on standard output {:?}", line, short, did.files.iter().map(|f| &f.0).collect::<Vec<_>>(), String::from_utf8_lossy(&did.stdout));
        return Ok(());
    };
    let key = (j, plain.clone());
    let before = known.lock().unwrap().get(&key).cloned();
    let want = match before {
        Some(w) => w,
        None => {
            let w = run(e, &js[j], &plain)?.0;
            known.lock().unwrap().insert(key, w.clone());
            w
        }
    };
    let (did, short, _) = run(e, &js[j], line)?;
    e.outcome(if want.ok { "done" } else { "failed" });
    ensure!(did.ok == want.ok, "another status", "{:?} ({}) {}, but {:?} does {}", line, short, if did.ok { "succeeds" } else { "fails" }, plain, if want.ok { "succeed" } else { "fail" });
    if did != want {
        let show = |d: &Did| format!("{}\nand on standard output: {}", d.files.iter().filter(|f| !js[j].files.contains(f)).map(|(n, x)| format!("{}: {}\n", n, String::from_utf8_lossy(x))).collect::<String>(), String::from_utf8_lossy(&d.stdout));
        return fail("another result", format!("{:?}\n{}\n{:?}\n{}", line, show(&did), plain, show(&want)));
    }
    Ok(())
}

/// All orders of `n` things.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = Vec::new();
    for o in orders(n - 1) {
        for k in 0..n {
            let mut o = o.clone();
            o.insert(k, n - 1);
            v.push(o);
        }
    }
    v
}

/// The ways to write what a level of a command line says: options in each place and spelling.
fn spellings(level: &Level, units: &[(Option<usize>, String)], last: bool) -> Vec<Vec<String>> {
    let mut v = Vec::new();
    for order in orders(units.len()) {
        let args: Vec<usize> = order.iter().copied().filter(|k| units[*k].0.is_none()).collect();
        if !args.is_sorted() {
            continue;
        }
        let mut lines: Vec<Vec<String>> = vec![vec![]];
        for k in &order {
            let (o, x) = &units[*k];
            let ways: Vec<Vec<String>> = match o.map(|o| &level.opts[o]) {
                None => vec![vec![x.clone()]],
                Some(o) if !o.value => vec![vec![format!("--{}", o.long)]],
                Some(o) => {
                    let mut w = vec![vec![format!("--{}", o.long), x.clone()], vec![format!("--{}={}", o.long, x)]];
                    if let Some(c) = o.short {
                        w.extend([vec![format!("-{}", c), x.clone()], vec![format!("-{}{}", c, x)]]);
                    }
                    w
                }
            };
            lines = lines.iter().flat_map(|l| ways.iter().map(move |w| [l.clone(), w.clone()].concat())).collect();
        }
        // Arguments behind all options may follow "--".
        let behind = order.iter().rev().take_while(|k| units[**k].0.is_none()).count();
        if last && behind == args.len() {
            let n = lines.len();
            for k in 0..n {
                let mut l = lines[k].clone();
                l.insert(l.len() - behind, s("--"));
                lines.push(l);
            }
        }
        v.extend(lines);
    }
    v
}

/// The plain command line again, with all ways to write it.
fn all_spellings(line: &[String]) -> Vec<Vec<String>> {
    let plain = meaning(line).expect("a usage");
    let mut level = &USAGE;
    let mut all: Vec<Vec<String>> = vec![vec![]];
    let mut units = Vec::new();
    let mut k = 0;
    // Arguments of these lines do not look like options.
    loop {
        let t = plain.get(k);
        let sub = t.and_then(|t| level.subs.iter().find(|x| x.0 == t));
        if t.is_none() || sub.is_some() {
            let ways = spellings(level, &units, t.is_none());
            all = all.iter().flat_map(|a| ways.iter().map(move |w| [a.clone(), w.clone()].concat())).collect();
            units.clear();
            match sub {
                None => return all,
                Some((n, l)) => {
                    all.iter_mut().for_each(|a| a.push(s(n)));
                    level = l;
                }
            }
        } else if let Some(o) = t.and_then(|t| t.strip_prefix("--")).and_then(|o| level.opts.iter().position(|x| x.long == o)) {
            let v = if level.opts[o].value { k += 1; plain[k].clone() } else { String::new() };
            units.push((Some(o), v));
        } else {
            units.push((None, plain[k].clone()));
        }
        k += 1;
    }
}

/// Parts of command lines.
fn tokens() -> Vec<String> {
    let mut v = sv(&[
        "-o", "-u", "--output", "--unmerged", "-op.j", "-uq.j", "--output=p.j", "--unmerged=q.j", "-o-", "-", "--", "p.j", "a.j", "missing", "there", "-x", "--bogus", "--out", "--output-", "-O", "--Output", "--OUTPUT", "---output", "-output", "-io", "-ou",
        "table", "import", "merge", "fmt", "Merge", "MERGE", "apply", "nationwide-csv", "paypal", "nationwide_csv", "generate-fingerprint", "format",
        "--fp-namespace", "--fp-namespace=fixed:q", "--fp-namespace=account-name", "--fp-namespace=generated", "--fp-namespace=Generated", "--fp-namespace=bogus", "fixed:q", "--fingerprint-namespace", "--fingerprint-namespace=w", "--fp_namespace=fixed:q",
        "--include-legacy-fingerprint", "--include-legacy-fingerprint=true", "--include-legacy-fingerprints", "--output-timezone", "--output-timezone=Asia/Tokyo", "--output-timezone=asia/tokyo", "--output-timezone=Nowhere", "--output-timezone=GMT+1", "UTC",
        "--sub-output-path", "--sub-output-path=false", "--sub-output-path=true", "--make-parent-dirs", "--make-parent-dirs=1", "--make-parent-dirs=true", "--make-parent-dirs=false", "--include-legacy-fingerprint=false", "--make-parents", "--no-make-parent-dirs", "-p", "-f", "-v", "-q", "-V", "--force", "--verbose", "--quiet", "--version", "--dry-run", "--config", "--input=a.j", "-i", "-1", "-25", "-1.5", "-.5", "-1e3", "--1",
    ]);
    v.extend(sv(&["--output=there/p.j", "-od/p.j", "--output=%FP_NS%.j"]));
    v
}

fn edits(line: &[String], toks: &[String]) -> Vec<Vec<String>> {
    let mut v = Vec::new();
    for k in 0..=line.len() {
        let (a, b) = line.split_at(k);
        for t in toks.iter().chain(line) {
            v.push([a, &[t.clone()], b].concat());
            if !b.is_empty() {
                v.push([a, &[t.clone()], &b[1..]].concat());
            }
        }
        if !b.is_empty() {
            v.push([a, &b[1..]].concat());
            // Each part in other letters, cut short, or longer.
            let x = &b[0];
            for y in [x.to_uppercase(), format!("{}x", x), format!("-{}", x), s(&x[..x.len() - 1]), s(&x[1..]), x.replace('-', "_")] {
                if !y.is_empty() && y != "-h" && y != "--help" {
                    v.push([a, &[y], &b[1..]].concat());
                }
            }
        }
        for m in k + 1..line.len() {
            let mut l = line.to_vec();
            l.swap(k, m);
            v.push(l);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|l| l.iter().all(|t| stays(t)));
    // Not asked about: "=" as the start of a short option's value, and values that are empty.
    v.retain(|l| !l.iter().any(|t| t.starts_with("-o=") || t.starts_with("-u=") || t.ends_with('=')));
    v
}

pub fn c32(c: &Ctx) -> (&'static str, &'static str) {
    c.assume("An option is not given an empty value, and \"=\" does not follow a short option. What help says is not judged.");
    let js = jobs(c);
    let known = Known::default();
    let mut cases = Vec::new();
    for (j, x) in js.iter().enumerate() {
        let all = all_spellings(&x.line);
        cases.extend(all.into_iter().map(|l| (j, l)));
    }
    c.par("spellings", cases.len(), |e, i| {
        let (j, l) = &cases[i];
        ensure!(meaning(l) == meaning(&js[*j].line), "grammar", "{:?} is taken for {:?}", l, meaning(l));
        judge(e, &js, &known, *j, l)
    });

    // Without some of the options, and with those that are the default.
    let mut cases = Vec::new();
    for (j, x) in js.iter().enumerate() {
        let plain = meaning(&x.line).expect("a usage");
        let opts: Vec<usize> = (0..plain.len()).filter(|k| plain[*k].starts_with("--")).collect();
        for set in 0..1usize << opts.len() {
            let mut l = Vec::new();
            let mut k = 0;
            while k < plain.len() {
                let out = opts.iter().position(|o| *o == k).is_some_and(|o| set >> o & 1 == 1);
                let n = if out && !["--sub-output-path", "--make-parent-dirs", "--include-legacy-fingerprint"].contains(&plain[k].as_str()) { 2 } else { 1 };
                if !out {
                    l.extend_from_slice(&plain[k..k + 1]);
                }
                k += n;
            }
            if !l.is_empty() {
                cases.push((j, l));
            }
        }
    }
    // No input at all is a usage: nothing is made of nothing.
    let none = [&["fmt"][..], &["generate-fingerprints"], &["merge"], &["merge", "-o", "o.j"], &["merge", "-u", "u.j", "-o", "o.j"], &["merge", "--"], &["merge", "-o", "o.j", "--"]];
    c.par("no inputs", none.len(), |e, i| {
        let (did, short, _) = run(e, &js[0], &sv(none[i]))?;
        e.case(true, &("none", i));
        ensure!(did.ok, "nothing refused", "{:?}: {}", none[i], short);
        ensure!(String::from_utf8_lossy(&did.stdout).trim().is_empty(), "something of nothing", "{:?}: {:?}", none[i], String::from_utf8_lossy(&did.stdout));
        for (n, x) in &did.files {
            let was = js[0].files.iter().find(|f| f.0 == *n);
            ensure!(was.map_or(x.iter().all(u8::is_ascii_whitespace), |w| w.1 == *x), "something of nothing", "{:?}: {} is {:?}", none[i], n, String::from_utf8_lossy(x));
        }
        let outs: Vec<&str> = none[i].windows(2).filter(|w| w[0] == "-o").map(|w| w[1]).collect();
        ensure!(outs.iter().all(|o| did.files.iter().any(|f| f.0 == *o)), "no output", "{:?}: {:?}", none[i], did.files.iter().map(|f| &f.0).collect::<Vec<_>>());
        Ok(())
    });
    c.par("defaults", cases.len() * 8, |e, i| {
        let (j, l) = &cases[i / 8];
        let Some(mut with) = meaning(l) else { return judge(e, &js, &known, *j, l) };
        let mut n = 0;
        for (k, (at, before, opt, v)) in [(1, "", "--output", "-"), (0, "nationwide-", "--fp-namespace", "generated"), (0, "paypal-csv", "--fingerprint-namespace", "paypal")].iter().enumerate() {
            if i >> k & 1 == 1 && !with.iter().any(|t| t == opt) && !["fmt", "generate-fingerprints"].contains(&with[0].as_str()) {
                if let Some(p) = if *at == 1 { Some(0) } else { with.iter().position(|t| t.starts_with(before)) } {
                    with.splice(p + 1..p + 1, sv(&[opt, v]));
                    n += 1;
                }
            }
        }
        let with = meaning(&with).expect("a usage");
        e.case(n > 0, &(j, l, &with));
        let a = run(e, &js[*j], &with)?.0;
        let b = run(e, &js[*j], l)?.0;
        e.outcome(if a.ok { "done" } else { "failed" });
        e.sample(|| format!("{:?} and {:?}", with, l));
        ensure!(a == b, "another default", "{:?} ({}, {} bytes on standard output, {} files), {:?} ({}, {} bytes, {} files)", with, a.ok, a.stdout.len(), a.files.len(), l, b.ok, b.stdout.len(), b.files.len());
        judge(e, &js, &known, *j, &with)
    });

    let toks = tokens();
    for (j, x) in js.iter().enumerate() {
        let one = edits(&x.line, &toks);
        c.par(&format!("edits of {}", x.line.join(" ")), one.len(), |e, i| judge(e, &js, &known, j, &one[i]));
    }
    // Options that do not exist, in place of those that do and beside them.
    const PARTS: [&str; 34] = [
        "output", "out", "unmerged", "merged", "remaining", "rest", "file", "path", "to", "journal", "sub", "make", "parent", "parents", "dirs", "directories", "create", "fp", "fingerprint", "namespace", "ns", "legacy", "include", "timezone", "tz", "zone", "account",
        "name", "import", "input", "from", "rules", "table", "no",
    ];
    let mut made: Vec<String> = PARTS.iter().map(|x| s(x)).collect();
    made.extend(PARTS.iter().flat_map(|a| PARTS.iter().map(move |b| format!("{}-{}", a, b))));
    made.extend(PARTS[..25].iter().flat_map(|a| ["path", "dirs", "fingerprint", "zone"].iter().flat_map(move |b| ["include", "sub", "parent", "output"].iter().map(move |c| format!("{}-{}-{}", c, a, b)))));
    let mut cases: Vec<(usize, usize, bool)> = Vec::new();
    for (j, x) in js.iter().enumerate() {
        for (k, t) in x.line.iter().enumerate() {
            if t.starts_with('-') && t.len() > 1 {
                cases.extend([(j, k, true), (j, k, false)]);
            }
        }
    }
    let step = if c.thorough { 1 } else { 3 };
    c.par("made-up options", cases.len() * made.len().div_ceil(step), |e, i| {
        let (j, k, instead) = cases[i % cases.len()];
        let n = i / cases.len() * step + (i % cases.len()) % step;
        let Some(m) = made.get(n) else { return Ok(()) };
        let mut l = js[j].line.clone();
        let had = l[k].clone();
        let v = had.split_once('=').map(|x| format!("={}", x.1));
        let t = format!("--{}{}", m, v.unwrap_or_default());
        if instead {
            l[k] = t;
        } else {
            l.insert(k, if had.contains('=') || n % 2 == 0 { t } else { format!("{}=q.j", t) });
        }
        if l.iter().any(|t| t.ends_with('=')) {
            return Ok(());
        }
        judge(e, &js, &known, j, &l)
    });
    let max = if c.thorough { 8 } else { 7 };
    for (j, x) in js.iter().enumerate() {
        if x.line.len() <= max {
            let all = orders(x.line.len());
            c.par(&format!("orders of {}", x.line.join(" ")), all.len(), |e, i| judge(e, &js, &known, j, &all[i].iter().map(|k| x.line[*k].clone()).collect::<Vec<_>>()));
        }
    }
    // All short lines.
    let few = sv(&["merge", "fmt", "import", "apply-rules", "generate-fingerprints", "table", "nationwide-csv", "nationwide-pdf", "paypal-csv", "a.j", "-", "--", "-o", "--output=p.j", "-u", "--make-parent-dirs", "--output-timezone=UTC", "--fp-namespace"]);
    let most = if c.thorough { 4 } else { 3 };
    for n in 0..=most {
        c.par(&format!("lines of {}", n), few.len().pow(n as u32), |e, i| {
            let mut g = Dig(i);
            let l: Vec<String> = (0..n).map(|_| g.of(&few).clone()).collect();
            judge(e, &js, &known, 0, &l)
        });
    }
    if c.thorough {
        for (j, x) in js.iter().enumerate().filter(|(j, _)| [1, 2, 7].contains(j)) {
            let short = sv(&["-o", "-u", "--output=p.j", "--", "-", "table", "--bogus", "a.j", "--fp-namespace=fixed:q", "--make-parent-dirs", "--output-timezone=Asia/Tokyo"]);
            let one = edits(&x.line, &short);
            let mut two: Vec<Vec<String>> = one.iter().flat_map(|l| edits(l, &short)).collect();
            two.sort();
            two.dedup();
            c.par(&format!("two edits of {}", x.line.join(" ")), two.len(), |e, i| judge(e, &js, &known, j, &two[i]));
        }
    }

    // Help is shown wherever it is asked for, and nothing else is done.
    let paths: Vec<Vec<String>> = vec![
        vec![], sv(&["merge"]), sv(&["fmt"]), sv(&["generate-fingerprints"]), sv(&["import"]), sv(&["apply-rules"]), sv(&["import", "nationwide-csv"]), sv(&["import", "nationwide-pdf"]), sv(&["import", "paypal-csv"]),
        sv(&["import", "-o", "a.j", "paypal-csv"]), sv(&["merge", "-o", "a.j", "a.j"]), sv(&["fmt", "a.j"]), sv(&["generate-fingerprints", "a.j"]), sv(&["apply-rules", "-o", "a.j", "a.j"]), sv(&["apply-rules", "-o", "a.j", "a.j", "table"]), sv(&["import", "--make-parent-dirs", "-o", "x/a.j", "nationwide-csv", "a.j"]),
    ];
    c.par("help", paths.len() * 2, |e, i| {
        let mut l = paths[i / 2].clone();
        l.push(s(["-h", "--help"][i % 2]));
        e.case(true, &l);
        let (did, short, untouched) = run(e, &js[3], &l)?;
        e.outcome("help");
        e.sample(|| format!("{:?}", l));
        ensure!(did.ok && !did.stdout.is_empty() && untouched, "help", "{:?}: {}, {} bytes on standard output, {:?}", l, short, did.stdout.len(), did.files.iter().map(|f| &f.0).collect::<Vec<_>>());
        Ok(())
    });
    ("exploration", "every case is a command line: all ways to write ten command lines that use every option, all lines within one edit of them over an alphabet of parts (thorough: two for three of them), all orders of their parts, and all short lines; compared with the plainest line that means the same by a grammar of the usage, or to be refused by it; distinct by line")
}
