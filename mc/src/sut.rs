//! Runs the real accountmerge binary: many command lines per process ("serve" mode, behind
//! cfg(accountmerge_verif)), or one fresh process per command line ("plain" mode, exactly what a
//! user runs).

use std::fs;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// How many runs succeeded and did not.
pub static OKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static FAILURES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    /// The command reported an error (exit status 1).
    Err(String),
    /// The command line was refused (exit status 2).
    Usage(String),
    Panic(String),
    Crash(String),
    Hang,
}

impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok)
    }
    /// Failed in an orderly way.
    pub fn failed(&self) -> bool {
        matches!(self, Out::Err(_) | Out::Usage(_))
    }
    pub fn orderly(&self) -> bool {
        self.ok() || self.failed()
    }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        s.chars().take(300).collect()
    }
}

/// Not an environment variable but a shell script to run the command line ("$0" "$@") in.
pub const VIA: &str = "(via)";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Serve,
    Plain,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Put(String, Vec<u8>),
    Rm(String),
    Mkdir(String),
    /// Target, name, and whether it is a hard link.
    Link(String, String, bool),
    Reset,
    Run(Vec<String>, Option<Vec<u8>>, Vec<(String, String)>),
}

pub struct Plain {
    pub out: Out,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

pub struct Sut {
    bin: PathBuf,
    pub dir: PathBuf,
    pub mode: Mode,
    sock: PathBuf,
    server: Option<(Child, UnixStream)>,
    /// What happened since the last reset; only kept in plain mode.
    pub log: Vec<Ev>,
    pub runs: u64,
    pub timeout: Duration,
    /// A preloaded library that makes hash seeds and the clock a function of numbers chosen here.
    seeds: Option<Seeds>,
}

struct Seeds {
    lib: PathBuf,
    path: PathBuf,
    cell: fs::File,
    now: (u64, i64),
}

fn base_command(bin: &Path, dir: &Path) -> Command {
    let mut c = Command::new(bin);
    c.current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .env_remove("RUST_LIB_BACKTRACE")
        .env_remove("LD_PRELOAD")
        .env("TMPDIR", "/dev/shm")
        .env("TZ", "UTC")
        .env("LC_ALL", "C");
    c
}

impl Sut {
    pub fn new(bin: &Path, scratch: &Path, name: &str) -> Self {
        let dir = scratch.join(name);
        fs::create_dir_all(&dir).expect("creating scratch dir");
        Self {
            bin: bin.to_owned(),
            dir,
            mode: Mode::Serve,
            sock: scratch.join(format!("{}.sock", name)),
            server: None,
            log: Vec::new(),
            runs: 0,
            timeout: Duration::from_secs(20),
            seeds: None,
        }
    }

    /// From now on, commands run with the hash seeds and the clock offset given.
    pub fn set_seed(&mut self, lib: &Path, seed: u64, clock: i64) {
        use std::os::unix::fs::FileExt;
        if self.seeds.is_none() {
            self.stop();
            let path = self.dir.with_extension("seed");
            fs::write(&path, [0u8; 4096]).expect("writing the seed file");
            let cell = fs::OpenOptions::new().read(true).write(true).open(&path).expect("opening the seed file");
            self.seeds = Some(Seeds { lib: lib.to_owned(), path, cell, now: (0, 0) });
        }
        let s = self.seeds.as_mut().unwrap();
        s.cell.write_all_at(&seed.to_le_bytes(), 0).expect("setting the seed");
        s.cell.write_all_at(&clock.to_le_bytes(), 16).expect("setting the clock");
        s.now = (seed, clock);
    }

    /// How often the program asked for random numbers since set_seed was first called.
    pub fn seeds_used(&self) -> u64 {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 8];
        match &self.seeds {
            Some(s) if s.cell.read_exact_at(&mut b, 8).is_ok() => u64::from_le_bytes(b),
            _ => 0,
        }
    }

    pub fn no_seed(&mut self) {
        if self.seeds.take().is_some() {
            self.stop();
        }
    }

    fn note(&mut self, ev: Ev) {
        if self.mode == Mode::Plain {
            self.log.push(ev);
        }
    }

    /// Empties the scratch directory.
    pub fn reset(&mut self) {
        if self.mode == Mode::Plain {
            self.log.clear();
        }
        if let Ok(rd) = fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    let _ = fs::remove_dir_all(&p);
                } else {
                    let _ = fs::remove_file(&p);
                }
            }
        }
    }

    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }

    pub fn put(&mut self, name: &str, content: impl AsRef<[u8]>) {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            if d != self.dir {
                fs::create_dir_all(d).expect("creating directory");
            }
        }
        fs::write(&p, content.as_ref()).expect("writing scratch file");
        if self.mode == Mode::Plain {
            self.log.push(Ev::Put(name.into(), content.as_ref().to_vec()));
        }
    }

    pub fn mkdir(&mut self, name: &str) {
        fs::create_dir_all(self.path(name)).expect("creating directory");
        self.note(Ev::Mkdir(name.into()));
    }

    /// A link at `name` to `target`, which is relative to the link's directory, or a file of the scratch directory if hard.
    pub fn link(&mut self, target: &str, name: &str, hard: bool) {
        if hard {
            fs::hard_link(self.path(target), self.path(name)).expect("creating a hard link");
        } else {
            std::os::unix::fs::symlink(target, self.path(name)).expect("creating a symbolic link");
        }
        self.note(Ev::Link(target.into(), name.into(), hard));
    }

    pub fn rm(&mut self, name: &str) {
        let p = self.path(name);
        if p.is_dir() {
            let _ = fs::remove_dir_all(&p);
        } else {
            let _ = fs::remove_file(&p);
        }
        self.note(Ev::Rm(name.into()));
    }

    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.path(name)).ok()
    }

    pub fn get_str(&self, name: &str) -> Option<String> {
        self.get(name).map(|b| String::from_utf8_lossy(&b).into_owned())
    }

    /// All files below the scratch directory with their content, sorted by path.
    pub fn tree(&self) -> Vec<(String, Vec<u8>)> {
        fn walk(base: &Path, d: &Path, out: &mut Vec<(String, Vec<u8>)>) {
            if let Ok(rd) = fs::read_dir(d) {
                for e in rd.flatten() {
                    let p = e.path();
                    let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                    if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                        out.push((format!("{}/", rel), Vec::new()));
                        walk(base, &p, out);
                    } else {
                        out.push((rel, fs::read(&p).unwrap_or_default()));
                    }
                }
            }
        }
        let mut out = Vec::new();
        walk(&self.dir, &self.dir, &mut out);
        out.sort();
        out
    }

    fn start(&mut self) {
        let _ = fs::remove_file(&self.sock);
        let listener = UnixListener::bind(&self.sock).expect("binding socket");
        listener.set_nonblocking(true).unwrap();
        let mut c = base_command(&self.bin, &self.dir);
        if let Some(s) = &self.seeds {
            c.env("LD_PRELOAD", &s.lib).env("ACCMC_SEED_FILE", &s.path);
        }
        let mut child = c
            .env("ACCOUNTMERGE_VERIF_SOCK", &self.sock)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("starting the program under test");
        let t0 = Instant::now();
        let stream = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) => {
                    if let Ok(Some(st)) = child.try_wait() {
                        eprintln!("mc: the program under test does not serve ({})", st);
                        std::process::exit(3);
                    }
                    if t0.elapsed() > Duration::from_secs(30) {
                        eprintln!("mc: the program under test does not connect");
                        std::process::exit(3);
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        };
        stream.set_nonblocking(false).unwrap();
        stream.set_read_timeout(Some(self.timeout)).unwrap();
        self.server = Some((child, stream));
    }

    pub fn stop(&mut self) {
        if let Some((mut c, _)) = self.server.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    pub fn run(&mut self, args: &[&str]) -> Out {
        let o = self.run_any(args);
        match &o {
            Out::Ok => &OKS,
            _ => &FAILURES,
        }
        .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        o
    }

    fn run_any(&mut self, args: &[&str]) -> Out {
        if self.mode == Mode::Plain || args.iter().any(|a| a.contains(['\t', '\n', '\r']) || a.is_empty()) {
            return self.plain(args, None, &[]).out;
        }
        self.runs += 1;
        if self.server.is_none() {
            self.start();
        }
        let req = args.join("\t") + "\n";
        let (child, stream) = self.server.as_mut().unwrap();
        let mut reply = Vec::new();
        let mut hang = false;
        if stream.write_all(req.as_bytes()).is_ok() {
            let mut buf = [0u8; 4096];
            loop {
                match stream.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => {
                        reply.extend_from_slice(&buf[..n]);
                        if reply.last() == Some(&b'\n') {
                            break;
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => {
                        hang = true;
                        break;
                    }
                }
            }
        }
        if hang {
            self.stop();
            return Out::Hang;
        }
        if reply.last() != Some(&b'\n') {
            let st = child.wait().map(|s| s.to_string()).unwrap_or_default();
            self.server = None;
            return Out::Crash(st);
        }
        reply.pop();
        let s = String::from_utf8_lossy(&reply).replace('\u{1}', "\n");
        if s == "ok" {
            Out::Ok
        } else if let Some(m) = s.strip_prefix("err ") {
            Out::Err(m.to_string())
        } else if let Some(m) = s.strip_prefix("usage ") {
            Out::Usage(m.to_string())
        } else {
            Out::Panic(s)
        }
    }

    /// Runs a fresh process, as a user would.
    pub fn plain(&mut self, args: &[&str], stdin: Option<&[u8]>, env: &[(&str, &str)]) -> Plain {
        use std::os::unix::process::ExitStatusExt;
        self.runs += 1;
        let (args_v, stdin_v): (Vec<String>, Option<Vec<u8>>) =
            (args.iter().map(|s| s.to_string()).collect(), stdin.map(|s| s.to_vec()));
        let mut env: Vec<(String, String)> = env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if let Some(s) = &self.seeds {
            env.push(("LD_PRELOAD".into(), s.lib.to_string_lossy().into_owned()));
            env.push(("ACCMC_SEED".into(), format!("{}:{}", s.now.0, s.now.1)));
        }
        self.note(Ev::Run(args_v, stdin_v, env.clone()));
        let via = env.iter().position(|x| x.0 == VIA).map(|k| env.remove(k).1);
        let mut c = match &via {
            Some(script) => {
                let mut c = base_command(Path::new("sh"), &self.dir);
                c.arg("-c").arg(script).arg(&self.bin);
                c
            }
            None => base_command(&self.bin, &self.dir),
        };
        for (k, v) in &env {
            c.env(k, v);
        }
        let mut child = c
            .args(args)
            .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("starting the program under test");
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let si = child.stdin.take();
        let pid = child.id() as i32;
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (stdout, stderr, timed_out) = std::thread::scope(|s| {
            let d2 = done.clone();
            let timeout = self.timeout;
            let killer = s.spawn(move || {
                let t0 = Instant::now();
                let mut nap = Duration::from_micros(500);
                while !d2.load(std::sync::atomic::Ordering::Acquire) {
                    if t0.elapsed() > timeout {
                        let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                        return true;
                    }
                    std::thread::park_timeout(nap);
                    nap = (nap * 2).min(Duration::from_millis(50));
                }
                false
            });
            if let (Some(mut si), Some(data)) = (si, stdin) {
                let data = data.to_vec();
                s.spawn(move || {
                    let _ = si.write_all(&data);
                });
            }
            let e = s.spawn(move || {
                let mut v = Vec::new();
                let _ = se.read_to_end(&mut v);
                v
            });
            let mut v = Vec::new();
            let _ = so.read_to_end(&mut v);
            let ev = e.join().unwrap();
            done.store(true, std::sync::atomic::Ordering::Release);
            killer.thread().unpark();
            (v, ev, killer.join().unwrap())
        });
        let st = child.wait().expect("waiting for the program under test");
        let err = || String::from_utf8_lossy(&stderr).into_owned();
        let out = if timed_out {
            Out::Hang
        } else if let Some(sig) = st.signal() {
            Out::Crash(format!("signal {}", sig))
        } else {
            match st.code() {
                Some(0) => Out::Ok,
                Some(1) => Out::Err(err()),
                Some(2) => Out::Usage(err()),
                Some(101) => Out::Panic(err()),
                c => Out::Crash(format!("exit status {:?}", c)),
            }
        };
        Plain { out, stdout, stderr }
    }
}

impl Drop for Sut {
    fn drop(&mut self) {
        self.stop();
    }
}
