//! C30: commands that run at the same time do not disturb each other. Two real processes run under a
//! scheduler that stops them before chosen file operations, so that every interleaving of their file
//! operations with up to one, two or three switches is executed.

use super::faults::{scenario, Scen, SCENS};
use super::merging::Dig;
use crate::ctx::{fail, Ctx, Env, Fail, R};
use crate::ensure;
use crate::sut::{Ev, VIA};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
const WNOHANG: i32 = 1;
const WUNTRACED: i32 = 2;
const SIGKILL: i32 = 9;
const SIGCONT: i32 = 18;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ended {
    Stopped,
    Exit(i32),
    Signal(i32),
    Hang,
}

/// A started command.
struct Proc {
    pid: i32,
    end: Option<Ended>,
}

impl Proc {
    fn wait(&mut self) -> Ended {
        if let Some(e) = self.end {
            return e;
        }
        let t0 = Instant::now();
        let mut nap = 30;
        loop {
            let mut st = 0;
            let r = unsafe { waitpid(self.pid, &mut st, WNOHANG | WUNTRACED) };
            if r == self.pid {
                let e = if st & 0xff == 0x7f {
                    return Ended::Stopped;
                } else if st & 0x7f == 0 {
                    Ended::Exit(st >> 8 & 0xff)
                } else {
                    Ended::Signal(st & 0x7f)
                };
                self.end = Some(e);
                return e;
            }
            if r < 0 || t0.elapsed() > Duration::from_secs(30) {
                unsafe {
                    kill(self.pid, SIGKILL);
                    waitpid(self.pid, &mut st, 0);
                }
                self.end = Some(Ended::Hang);
                return Ended::Hang;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(2000);
        }
    }
    fn go_on(&self) {
        if self.end.is_none() {
            unsafe {
                kill(self.pid, SIGCONT);
            }
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if self.end.is_none() {
            let mut st = 0;
            unsafe {
                kill(self.pid, SIGKILL);
                kill(self.pid, SIGCONT);
                waitpid(self.pid, &mut st, 0);
            }
        }
    }
}

/// What a command leaves: how it ended, its standard output, and the files of its directory.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Left {
    end: Ended,
    stdout: Vec<u8>,
    tree: Vec<(String, Vec<u8>)>,
    ops: Vec<usize>,
}

/// One command, where it runs and what of its directory is its own.
struct Job {
    sc: Scen,
    dir: PathBuf,
    name: &'static str,
    /// The files that this command may write, if it shares the directory.
    own: Option<Vec<String>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Place {
    Apart,
    Together,
}

/// What is wrong with the input of a command.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Bad {
    No,
    A,
    B,
}

fn break_input(e: &mut Env, sc: &mut Scen) {
    if let Some(x) = &mut sc.stdin {
        x.extend(b"\"not a\njournal\n");
    }
    for f in ["b.journal", "f0.journal", "a.journal", "in.csv"] {
        if sc.args.iter().any(|a| a == f) {
            let mut x = e.sut.get(f).unwrap_or_default();
            x.extend(b"\n\"not a\njournal\n");
            e.sut.put(f, x);
            break;
        }
    }
    if sc.args.iter().any(|a| a == "in.pdf") {
        e.sut.put("tess.exit", "1");
    }
}

/// Puts the files of scenario `k` in a directory; which = 1 makes them differ from those of which = 0.
fn put(c: &Ctx, e: &mut Env, base: &Path, place: Place, k: usize, n: usize, which: usize, bad: bool) -> Job {
    let sub = if place == Place::Apart { ["x", "y"][which] } else { "x" };
    let names = if place == Place::Together { 0 } else { which };
    let dir = base.join(sub);
    let _ = std::fs::create_dir_all(&dir);
    e.sut.dir = dir.clone();
    let before = e.sut.log.len();
    let mut sc = scenario(c, e, k, n + names, true);
    if names == 1 {
        // Other amounts, so that a mix-up of the two shows.
        for f in ["in.csv", "ocr.tsv"] {
            if let Some(mut x) = e.sut.get(f) {
                for i in 0..x.len().saturating_sub(2) {
                    if x[i] == b'.' && x[i + 1..i + 3] == *b"00" {
                        x[i + 2] = b'7';
                    }
                }
                e.sut.put(f, x);
            }
        }
    }
    if bad {
        break_input(e, &mut sc);
    }
    let mut own = None;
    if place == Place::Together {
        // Its own outputs, and copies of files that are written in place.
        let mine: Vec<String> = sc.outputs.iter().chain(&sc.in_place).cloned().collect();
        if which == 1 {
            let other = |f: &str| match f.rsplit_once('/') {
                Some((d, f)) => format!("{}/B-{}", d, f),
                None => format!("B-{}", f),
            };
            for f in &mine {
                if let Some(x) = e.sut.get(f) {
                    e.sut.put(&other(f), x);
                }
            }
            let hit = |a: &String| mine.contains(a) || a.contains("%FP_NS%");
            sc.args = sc.args.iter().map(|a| if hit(a) { other(a) } else { a.clone() }).collect();
            own = Some(mine.iter().map(|f| other(f)).collect());
        } else {
            own = Some(mine);
        }
    }
    e.sut.dir = base.to_owned();
    // In replays, paths are from the common directory.
    for ev in e.sut.log.iter_mut().skip(before) {
        match ev {
            Ev::Put(f, _) | Ev::Rm(f) | Ev::Mkdir(f) | Ev::Link(_, f, _) => *f = format!("{}/{}", sub, f),
            _ => {}
        }
    }
    if let Some(x) = &sc.stdin {
        e.sut.put(&format!("stdin{}", which), x);
    }
    Job { sc, dir, name: SCENS[k], own }
}

fn begin(c: &Ctx, base: &Path, j: &Job, which: usize, faults: &str, seeded: bool) -> Proc {
    let f = |x: &str| base.with_extension(format!("{}{}", x, which));
    let _ = std::fs::remove_file(f("log"));
    let so = std::fs::File::create(f("out")).expect("output file");
    let si = match &j.sc.stdin {
        Some(x) => {
            std::fs::write(f("in"), x).expect("input file");
            Stdio::from(std::fs::File::open(f("in")).expect("input file"))
        }
        None => Stdio::null(),
    };
    let lib = |x: &str| c.root.join("target").join(x).display().to_string();
    let preload = if seeded { format!("{}:{}", lib("libfault.so"), lib("libseed.so")) } else { lib("libfault.so") };
    let mut cmd = Command::new(&c.bin);
    cmd.current_dir(&j.dir)
        .env_remove("RUST_BACKTRACE")
        .env("TZ", "UTC")
        .env("LC_ALL", "C")
        .env("LD_PRELOAD", preload)
        .env("ACCMC_DIR", base)
        .env("ACCMC_LOG", f("log"))
        .env("ACCMC_FAULTS", faults)
        .env("TMPDIR", base.join("tmp"))
        .args(&j.sc.args)
        .stdin(si)
        .stdout(so)
        .stderr(Stdio::null());
    if seeded {
        cmd.env("ACCMC_SEED", "1:0");
    }
    let ch = cmd.spawn().expect("starting the program under test");
    Proc { pid: ch.id() as i32, end: None }
}

fn left(e: &Env, base: &Path, j: &Job, which: usize, end: Ended) -> Left {
    let sub = format!("{}/", j.dir.file_name().unwrap().to_string_lossy());
    let mut tree: Vec<(String, Vec<u8>)> =
        e.sut.tree().into_iter().filter_map(|(f, x)| f.strip_prefix(&sub).map(|f| (f.to_string(), x))).filter(|f| f.0 != "tess.list").collect();
    if let Some(own) = &j.own {
        tree.retain(|f| own.contains(&f.0));
    }
    let f = |x: &str| base.with_extension(format!("{}{}", x, which));
    let ops = std::fs::read_to_string(f("log")).unwrap_or_default().lines().filter_map(|l| l.split(' ').next()?.parse().ok()).collect();
    Left { end, stdout: std::fs::read(f("out")).unwrap_or_default(), tree, ops }
}

/// Runs a command on its own, in the place it would have next to the other.
fn alone(c: &Ctx, e: &mut Env, place: Place, k: usize, n: usize, which: usize, bad: bool, seeded: bool) -> Result<Left, Fail> {
    let base = e.sut.dir.clone();
    e.sut.mkdir("tmp");
    let j = put(c, e, &base, place, k, n, which, bad);
    let end = begin(c, &base, &j, which, "", seeded).wait();
    e.sut.runs += 1;
    let l = left(e, &base, &j, which, end);
    ensure!(end == Ended::Exit(bad as i32), "ends otherwise on its own", "{:?}: {:?}", j.sc.args, end);
    no_leftovers(e, &[&j])?;
    Ok(l)
}

fn no_leftovers(e: &Env, js: &[&Job]) -> R {
    let t: Vec<String> = e.sut.tree().into_iter().map(|f| f.0).filter(|f| f.starts_with("tmp/") && f != "tmp/").collect();
    ensure!(t.is_empty(), "temporary files left behind", "{:?} left {:?}", js.iter().map(|j| &j.sc.args).collect::<Vec<_>>(), t);
    Ok(())
}

/// Runs two commands; `cuts` are the operations at which the running one stops and the other goes on: A's first, then B's, then A's ...
#[allow(clippy::too_many_arguments)]
fn together(c: &Ctx, e: &mut Env, place: Place, (ka, kb): (usize, usize), n: usize, bad: Bad, seeded: bool, cuts: &[usize], want: [&Left; 2]) -> R {
    let base = e.sut.dir.clone();
    e.sut.mkdir("tmp");
    let ja = put(c, e, &base, place, ka, n, 0, bad == Bad::A);
    let jb = put(c, e, &base, place, kb, n, 1, bad == Bad::B);
    let spec = |which: usize| cuts.iter().enumerate().filter(|x| x.0 % 2 == which).map(|x| format!("{}:stop", x.1)).collect::<Vec<_>>().join(",");
    let mut a = begin(c, &base, &ja, 0, &spec(0), seeded);
    let mut b = None;
    let mut turn = 0;
    // Whoever stops or ends hands over to the other.
    loop {
        let mut ended = false;
        if turn == 0 {
            ended |= a.wait() != Ended::Stopped;
        } else {
            let p: &mut Proc = b.get_or_insert_with(|| begin(c, &base, &jb, 1, &spec(1), seeded));
            ended |= p.wait() != Ended::Stopped;
        }
        let other_ended = if turn == 0 { b.as_ref().is_some_and(|p| p.end.is_some()) } else { a.end.is_some() };
        if ended && other_ended {
            break;
        }
        if !other_ended {
            turn = 1 - turn;
        }
        if turn == 0 {
            a.go_on();
        } else if let Some(p) = &b {
            p.go_on();
        }
    }
    e.sut.runs += 2;
    let la = left(e, &base, &ja, 0, a.end.unwrap());
    let lb = left(e, &base, &jb, 1, b.as_ref().unwrap().end.unwrap());
    e.case(cuts.iter().any(|k| *k > 0), &(place, ka, kb, n, bad, seeded, cuts));
    e.validated();
    for (k, l) in cuts.iter().zip([&la, &lb].into_iter().cycle()) {
        e.transition();
        e.state(&(place, ka, kb, bad, k, l.ops.len()));
    }
    e.outcome(if bad == Bad::No { "both succeed" } else { "one fails" });
    let what = || {
        format!(
            "A: {:?} ({}), B: {:?} ({}), {}, switching {}",
            ja.sc.args,
            ja.name,
            jb.sc.args,
            jb.name,
            if place == Place::Apart { "each in its own directory with one TMPDIR" } else { "in one directory" },
            cuts.iter().enumerate().map(|(i, k)| format!("before {}'s operation {}", ["A", "B"][i % 2], k)).collect::<Vec<_>>().join(", then ")
        )
    };
    e.sample(what);
    let r = (|| {
        for (n, (l, w)) in [&la, &lb].into_iter().zip(want).enumerate() {
            let who = ["A", "B"][n];
            ensure!(l.end == w.end, "ends otherwise", "{}: {} ends with {:?} instead of {:?}", what(), who, l.end, w.end);
            ensure!(l.stdout == w.stdout, "standard output differs", "{}: {}", what(), who);
            if l.tree != w.tree {
                let d = |x: &Left, y: &Left| x.tree.iter().filter(|f| !y.tree.contains(f)).map(|f| format!("{}: {}", f.0, String::from_utf8_lossy(&f.1))).collect::<Vec<_>>().join("\n");
                return fail("files differ", format!("{}: {} left\n{}\ninstead of\n{}", what(), who, d(l, w), d(w, l)));
            }
        }
        no_leftovers(e, &[&ja, &jb])?;
        // Nothing but what either alone leaves.
        if place == Place::Together {
            let t = e.sut.tree();
            let stray: Vec<&String> = t.iter().map(|f| &f.0).filter(|f| f.starts_with("x/B-B-") || f.ends_with(".tmp") || f.ends_with(".lock") || f.ends_with('~')).collect();
            ensure!(stray.is_empty(), "stray files", "{}: {:?}", what(), stray);
        }
        Ok(())
    })();
    if r.is_err() && e.sut.mode == crate::sut::Mode::Plain {
        // For the replay: the same with the shell as the scheduler.
        let q = |x: &String| format!("'{}'", x.replace('\'', "'\\''"));
        let dir = |j: &Job| j.dir.file_name().unwrap().to_string_lossy().into_owned();
        let lib = c.root.join("target/libfault.so").display().to_string();
        let start = |j: &Job, w: usize| {
            format!(
                "(cd {} && exec env LD_PRELOAD={} ACCMC_DIR=\"$T\" ACCMC_FAULTS={} TMPDIR=\"$T/tmp\" \"$0\" {} >\"$T/stdout{}\" 2>\"$T/stderr{}\" <{}) & P{}=$!",
                dir(j),
                lib,
                spec(w),
                j.sc.args.iter().map(q).collect::<Vec<_>>().join(" "),
                w,
                w,
                if j.sc.stdin.is_some() { format!("\"$T/stdin{}\"", w) } else { "/dev/null".into() },
                w
            )
        };
        let mut sh = String::from("T=$PWD; until_stop() { while kill -0 $1 2>/dev/null && ! grep -q 'State:.*[TZ]' /proc/$1/status; do sleep 0.01; done; }\n");
        sh += &format!("{}\nuntil_stop $P0\n{}\nuntil_stop $P1\n", start(&ja, 0), start(&jb, 1));
        for _ in 1..cuts.len() + 1 {
            sh += "kill -CONT $P0 2>/dev/null; until_stop $P0; kill -CONT $P1 2>/dev/null; until_stop $P1\n";
        }
        sh += "wait $P0; echo \"A: exit status $?\"; wait $P1; echo \"B: exit status $?\"";
        e.sut.log.push(Ev::Run(vec![], None, vec![(VIA.into(), sh)]));
    }
    r
}

pub fn c30(c: &Ctx) -> (&'static str, &'static str) {
    let ns = SCENS.len();
    let pair_of = |k: usize| (k / ns, k % ns);
    for (family, place, bads, seeded) in [
        ("apart", Place::Apart, vec![Bad::No], false),
        ("apart, one failing", Place::Apart, vec![Bad::A, Bad::B], false),
        ("apart, same random numbers", Place::Apart, vec![Bad::No], true),
        ("in one directory", Place::Together, vec![Bad::No], false),
    ] {
        // What each leaves on its own.
        let size = if c.thorough && !seeded { 40 } else { 1 };
        let solo = c.par_map(&format!("{}: alone", family), ns * 4, |e, i| {
            let mut g = Dig(i);
            let (which, bad, k) = (g.take(2), g.take(2) == 1, g.0);
            let needed = bads.iter().any(|b| bad == (*b == [Bad::A, Bad::B][which]));
            if !needed || bad && SCENS[k] == "apply-rules without effect" && place == Place::Together {
                return Ok(None);
            }
            e.case(false, &i);
            alone(c, e, place, k, size, which, bad, seeded).map(Some)
        });
        if c.stop.load(std::sync::atomic::Ordering::SeqCst) {
            break;
        }
        let of = |which: usize, bad: bool, k: usize| solo[which + 2 * (bad as usize + 2 * k)].as_ref().and_then(|x| x.as_ref());
        let mut cases: Vec<(usize, Bad, Vec<usize>)> = Vec::new();
        // A few commands that between them use every kind of file, for the deeper schedules.
        let some = |k: usize| ["merge with unmerged output", "apply-rules with includes", "fmt", "generate-fingerprints", "nationwide-csv with lookup, directories and substitution", "nationwide-pdf", "paypal-csv"].contains(&SCENS[k]);
        for p in 0..ns * ns {
            let (ka, kb) = pair_of(p);
            if place == Place::Together && ka != kb {
                continue;
            }
            for bad in &bads {
                let (Some(a), Some(b)) = (of(0, *bad == Bad::A, ka), of(1, *bad == Bad::B, kb)) else { continue };
                let few = if size > 1 { 4 } else { 1 };
                for k1 in a.ops.iter().filter(|k| *k % few == 0) {
                    cases.push((p, *bad, vec![*k1]));
                }
                let deep = match bad {
                    Bad::No => place == Place::Together || (some(ka) && some(kb)) || c.thorough && !seeded,
                    _ => c.thorough && some(ka) && some(kb),
                };
                if deep && (!seeded || SCENS[ka] == "nationwide-pdf" || SCENS[kb] == "nationwide-pdf" || c.thorough) {
                    for k1 in &a.ops {
                        for k2 in &b.ops {
                            cases.push((p, *bad, vec![*k1, *k2]));
                            if c.thorough && ka == kb && *bad == Bad::No && !seeded {
                                cases.extend(a.ops.iter().filter(|k3| *k3 > k1).map(|k3| (p, *bad, vec![*k1, *k2, *k3])));
                            }
                        }
                    }
                }
            }
        }
        c.par(family, cases.len(), |e, i| {
            let (p, bad, cuts) = &cases[i];
            let (ka, kb) = pair_of(*p);
            let want = [of(0, *bad == Bad::A, ka).unwrap(), of(1, *bad == Bad::B, kb).unwrap()];
            together(c, e, place, (ka, kb), size, *bad, seeded, cuts, want)
        });
    }
    c.assume("commands with separate outputs; what the external OCR programs do is one step, at the file operation before or after it");
    ("model_checking", "every case is a pair of commands and a schedule: one runs up to a file operation, then the other up to one or to its end, and so on; states are reached points of the pair, transitions switches; both must end and leave what they do on their own; distinct by commands, place and schedule")
}
