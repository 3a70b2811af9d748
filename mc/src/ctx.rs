//! Exploration context: enumerates cases by index over worker threads, confirms violations with
//! fresh processes, writes replays and evidence.

use crate::sut::{Ev, Mode, Out, Sut};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

/// A property does not hold. `key` identifies what fails, for the known-findings file.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::ctx::Fail { key: $key.to_string(), msg: format!($($arg)*) }); }
    };
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What a worker has at hand for one case.
pub struct Env {
    pub sut: Sut,
    pub evals: u64,
    pub validated: u64,
    pub transitions: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub outcomes: BTreeMap<String, u64>,
    counting: bool,
}

impl Env {
    /// Counts an execution whose behaviour was compared with the oracle.
    pub fn case<T: Hash + ?Sized>(&mut self, nontrivial: bool, id: &T) {
        if !self.counting {
            return;
        }
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_of(id));
        }
    }
    pub fn validated(&mut self) {
        if self.counting {
            self.validated += 1;
        }
    }
    pub fn transition(&mut self) {
        if self.counting {
            self.transitions += 1;
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, id: &T) -> bool {
        if self.counting {
            self.states.insert(hash_of(id))
        } else {
            false
        }
    }
    pub fn outcome(&mut self, what: &str) {
        if self.counting {
            *self.outcomes.entry(what.to_string()).or_default() += 1;
        }
    }
    /// Keeps a few cases as samples (those with the smallest hashes, so that the choice is stable).
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.counting {
            return;
        }
        if self.samples.len() < 3 || self.evals % 997 == 0 {
            let s: String = f().chars().take(1200).collect();
            self.samples.push((hash_of(&s), s));
            self.samples.sort();
            self.samples.truncate(4);
        }
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub bin: PathBuf,
    pub scratch: PathBuf,
    pub workers: usize,
    pub stop: AtomicBool,
    pub t0: Instant,
    known: Vec<(String, String)>,
    st: Mutex<State>,
    next_worker: AtomicUsize,
    envs: Mutex<Vec<Env>>,
}

#[derive(Default)]
struct State {
    violations: Vec<(Fail, String)>,
    known_seen: BTreeMap<String, String>,
    notes: Vec<String>,
    families: Vec<(String, u64)>,
    capped: Vec<String>,
    assumptions: Vec<String>,
    extra: BTreeMap<String, String>,
}

impl Ctx {
    pub fn new(id: &str, tier: &str, root: &Path) -> Self {
        let base = if fs::create_dir_all("/dev/shm").is_ok()
            && fs::write(format!("/dev/shm/.accmc.{}", std::process::id()), b"").is_ok()
        {
            let _ = fs::remove_file(format!("/dev/shm/.accmc.{}", std::process::id()));
            "/dev/shm"
        } else {
            "/tmp"
        };
        let scratch = PathBuf::from(format!("{}/accmc.{}", base, std::process::id()));
        fs::create_dir_all(&scratch).expect("creating the scratch directory");
        let bin = root.join("target/sut/debug/accountmerge");
        let known = fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix("known: property="))
            .filter_map(|l| {
                let (p, rest) = l.split_once(' ')?;
                let rest = rest.strip_prefix("key=")?;
                let (k, what) = rest.split_once(' ')?;
                (p == id).then(|| (k.to_string(), what.to_string()))
            })
            .collect();
        Ctx {
            id: id.into(),
            tier: tier.into(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: tier == "thorough",
            root: root.to_owned(),
            bin,
            scratch,
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16),
            stop: AtomicBool::new(false),
            t0: Instant::now(),
            known,
            st: Mutex::new(State::default()),
            next_worker: AtomicUsize::new(0),
            envs: Mutex::new(Vec::new()),
        }
    }

    fn take_env(&self) -> Env {
        if let Some(e) = self.envs.lock().unwrap().pop() {
            return e;
        }
        let k = self.next_worker.fetch_add(1, SeqCst);
        Env {
            sut: Sut::new(&self.bin, &self.scratch, &format!("w{}", k)),
            evals: 0,
            validated: 0,
            transitions: 0,
            distinct: HashSet::new(),
            states: HashSet::new(),
            samples: Vec::new(),
            outcomes: BTreeMap::new(),
            counting: true,
        }
    }

    /// A scratch directory for preparations.
    pub fn scratch_env(&self) -> Env {
        let mut e = self.take_env();
        e.sut.reset();
        e
    }

    pub fn note(&self, s: impl Into<String>) {
        self.st.lock().unwrap().notes.push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.st.lock().unwrap().assumptions.push(s.into());
    }
    pub fn capped(&self, s: impl Into<String>) {
        self.st.lock().unwrap().capped.push(s.into());
    }
    pub fn extra(&self, k: &str, v: impl Into<String>) {
        self.st.lock().unwrap().extra.insert(k.into(), v.into());
    }

    /// Explores cases 0..n of a family; each case is a deterministic function of its index.
    pub fn par<F>(&self, family: &str, n: usize, f: F)
    where
        F: Fn(&mut Env, usize) -> R + Sync,
    {
        self.par_map(family, n, |e, i| f(e, i).map(|_| ()));
    }

    pub fn par_map<T, F>(&self, family: &str, n: usize, f: F) -> Vec<Option<T>>
    where
        T: Send,
        F: Fn(&mut Env, usize) -> Result<T, Fail> + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
        let chunk = (n / (self.workers * 8)).clamp(1, 64);
        std::thread::scope(|s| {
            for _ in 0..self.workers.min(n) {
                s.spawn(|| {
                    let mut env = self.take_env();
                    'outer: loop {
                        let start = next.fetch_add(chunk, SeqCst);
                        if start >= n {
                            break;
                        }
                        let mut local = Vec::new();
                        for i in start..(start + chunk).min(n) {
                            if self.stop.load(SeqCst) {
                                break 'outer;
                            }
                            env.sut.reset();
                            match f(&mut env, i) {
                                Ok(t) => local.push((i, t)),
                                Err(fl) => self.judge(family, i, &mut env, fl, &f),
                            }
                        }
                        let mut r = results.lock().unwrap();
                        for (i, t) in local {
                            r[i] = Some(t);
                        }
                    }
                    env.sut.reset();
                    self.envs.lock().unwrap().push(env);
                });
            }
        });
        self.st.lock().unwrap().families.push((family.to_string(), n as u64));
        if std::env::var_os("MC_VERBOSE").is_some() {
            let (a, b) = (&crate::sut::OKS, &crate::sut::FAILURES);
            eprintln!("mc: {} {}: {} cases, {:.2} s; {} runs succeeded, {} did not", self.id, family, n, t0.elapsed().as_secs_f64(), a.swap(0, SeqCst), b.swap(0, SeqCst));
        }
        results.into_inner().unwrap()
    }

    /// A case failed: confirm it with fresh processes before it counts.
    fn judge<T, F>(&self, family: &str, i: usize, env: &mut Env, first: Fail, f: &F)
    where
        F: Fn(&mut Env, usize) -> Result<T, Fail> + Sync,
    {
        if self.is_known(&first.key) {
            let mut st = self.st.lock().unwrap();
            if st.known_seen.contains_key(&first.key) {
                return;
            }
            st.known_seen.insert(first.key.clone(), first.msg.clone());
            return;
        }
        env.counting = false;
        let mode = env.sut.mode;
        env.sut.mode = Mode::Plain;
        let mut confirmed = None;
        for _ in 0..25 {
            env.sut.reset();
            if let Err(fl) = f(env, i) {
                confirmed = Some(fl);
                break;
            }
        }
        let log = std::mem::take(&mut env.sut.log);
        env.sut.mode = mode;
        env.counting = true;
        let Some(fl) = confirmed else {
            self.note(format!(
                "not reproduced with fresh processes, not reported: family {} case {}: {}",
                family, i, first.msg
            ));
            eprintln!("mc: not reproduced: {} #{}: {}", family, i, first.msg);
            return;
        };
        if self.is_known(&fl.key) {
            self.st.lock().unwrap().known_seen.insert(fl.key.clone(), fl.msg.clone());
            return;
        }
        let replay = self.write_replay(family, i, &fl, &log);
        let mut st = self.st.lock().unwrap();
        st.violations.push((fl, replay));
        self.stop.store(true, SeqCst);
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    /// Runs a case outside of `par` on the calling thread.
    pub fn one<F>(&self, family: &str, f: F)
    where
        F: Fn(&mut Env) -> R + Sync,
    {
        self.par(family, 1, |e, _| f(e));
    }

    fn write_replay(&self, family: &str, i: usize, fl: &Fail, log: &[Ev]) -> String {
        let dir = self.root.join("replays").join(format!("{}-{}-{}", self.id, family.replace(' ', "_"), i));
        let _ = fs::remove_dir_all(&dir);
        if fs::create_dir_all(&dir).is_err() {
            return "unwritable".into();
        }
        let _ = fs::write(
            dir.join("README"),
            format!("property {}\nfamily {} case {}\n{}\n\n{}\n", self.id, family, i, fl.key, fl.msg),
        );
        let mut sh = String::from(
            "#!/bin/bash\n# Replays the execution with the real binary; see README for what is wrong with the result.\n\
             BIN=${BIN:-/verif/target/sut/debug/accountmerge}\nHERE=$(cd \"$(dirname \"$0\")\" && pwd)\n\
             D=$(mktemp -d) && cd \"$D\" && echo \"scratch directory: $D\"\nunset RUST_BACKTRACE\n",
        );
        let q = |s: &str| format!("'{}'", s.replace('\'', "'\\''"));
        for (n, ev) in log.iter().enumerate() {
            match ev {
                Ev::Put(name, content) => {
                    let f = format!("file{}", n);
                    let _ = fs::write(dir.join(&f), content);
                    let _ = writeln!(sh, "mkdir -p \"$(dirname {0})\"; cp \"$HERE/{1}\" {0}", q(name), f);
                }
                Ev::Rm(name) => {
                    let _ = writeln!(sh, "rm -rf {}", q(&format!("./{}", name)));
                }
                Ev::Mkdir(name) => {
                    let _ = writeln!(sh, "mkdir -p {}", q(name));
                }
                Ev::Link(target, name, hard) => {
                    let _ = writeln!(sh, "ln {} {} {}", if *hard { "" } else { "-s" }, q(target), q(name));
                }
                Ev::Reset => {}
                Ev::Run(args, stdin, env) => {
                    let mut l = String::new();
                    for (k, v) in env.iter().filter(|x| x.0 != crate::sut::VIA) {
                        let _ = write!(l, "{}={} ", k, q(v));
                    }
                    if let Some((_, script)) = env.iter().find(|x| x.0 == crate::sut::VIA) {
                        let _ = write!(l, "sh -c {} ", q(script));
                    }
                    let _ = write!(l, "\"$BIN\"");
                    for a in args {
                        let _ = write!(l, " {}", q(a));
                    }
                    if let Some(data) = stdin {
                        let f = format!("stdin{}", n);
                        let _ = fs::write(dir.join(&f), data);
                        let _ = write!(l, " < \"$HERE/{}\"", f);
                    }
                    let _ = writeln!(sh, "{}; echo \"exit status $?\"", l);
                }
            }
        }
        sh.push_str("echo; head -100 $(find . -type f)\n");
        let _ = fs::write(dir.join("replay.sh"), sh);
        dir.to_string_lossy().into_owned()
    }

    /// Prints the verdict, writes the evidence, returns the exit status.
    pub fn finish(self, level: &str, rule: &str) -> i32 {
        let mut evals = 0;
        let mut validated = 0;
        let mut transitions = 0;
        let mut distinct = HashSet::new();
        let mut states = HashSet::new();
        let mut samples = Vec::new();
        let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
        let mut runs = 0;
        for mut e in self.envs.lock().unwrap().drain(..) {
            evals += e.evals;
            validated += e.validated;
            transitions += e.transitions;
            distinct.extend(e.distinct.drain());
            states.extend(e.states.drain());
            samples.append(&mut e.samples);
            runs += e.sut.runs;
            for (k, v) in &e.outcomes {
                *outcomes.entry(k.clone()).or_default() += v;
            }
        }
        samples.sort();
        samples.dedup();
        samples.truncate(4);
        let st = self.st.into_inner().unwrap();
        let _ = fs::remove_dir_all(&self.scratch);

        let mut j = String::from("{");
        let _ = write!(
            j,
            "\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},",
            js(&self.id),
            js(&self.tier),
            self.seed,
            js(level)
        );
        j.push_str("\"coverage\":{");
        if level == "model_checking" {
            let _ = write!(
                j,
                "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},",
                states.len(),
                transitions,
                validated
            );
        }
        // No count under two names: those that coincide by definition are left out.
        if level != "model_checking" || (evals != validated && evals != transitions) {
            let _ = write!(j, "\"evaluations\":{},", evals);
        }
        if runs != evals && runs != validated && runs != transitions {
            let _ = write!(j, "\"commands_executed\":{},", runs);
        }
        if level != "model_checking" || (distinct.len() != states.len() && distinct.len() as u64 != validated) {
            let _ = write!(j, "\"distinct_nontrivial\":{},", distinct.len());
        }
        let _ = write!(j, "\"rule\":{},\"exhaustive\":{},", js(rule), st.capped.is_empty() && st.violations.is_empty());
        let _ = write!(
            j,
            "\"families\":{{{}}},",
            st.families.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        );
        let _ = write!(
            j,
            "\"outcomes\":{{{}}},",
            outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        );
        for (k, v) in &st.extra {
            let _ = write!(j, "{}:{},", js(k), js(v));
        }
        if !st.capped.is_empty() {
            let _ = write!(j, "\"caps_hit\":[{}],", st.capped.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        }
        let _ = write!(
            j,
            "\"samples\":[{}]}},",
            samples.iter().map(|(_, s)| js(s)).collect::<Vec<_>>().join(",")
        );
        let mut assumptions = st.assumptions.clone();
        assumptions.extend(st.notes.iter().take(20).map(|n| n.chars().take(500).collect::<String>()));
        let _ = write!(
            j,
            "\"assumptions\":[{}],\"known_findings\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            st.known_seen.keys().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.t0.elapsed().as_secs_f64(),
            st.violations.len()
        );
        let ev = self.root.join("evidence");
        let _ = fs::create_dir_all(&ev);
        fs::write(ev.join(format!("{}.json", self.id)), j).expect("writing evidence");

        for (k, what) in &self.known {
            if st.known_seen.contains_key(k) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            }
        }
        println!(
            "{} {}: {} executions compared, {} distinct non-trivial, {} states, {} commands run, {:.1} s; outcomes {:?}",
            self.id,
            self.tier,
            evals,
            distinct.len(),
            states.len(),
            runs,
            self.t0.elapsed().as_secs_f64(),
            outcomes
        );
        if st.violations.is_empty() {
            0
        } else {
            for (fl, replay) in st.violations.iter().take(3) {
                println!("violated ({}): {}", fl.key, fl.msg.chars().take(4000).collect::<String>());
                println!("VIOLATION property={} replay={}", self.id, replay);
            }
            1
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A command that must not crash: turns panics, crashes and hangs into failures.
pub fn orderly(out: &Out, what: &str) -> R {
    if out.orderly() {
        Ok(())
    } else {
        fail("disorderly", format!("{}: {}", what, out.short()))
    }
}
