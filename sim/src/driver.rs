//! Worker processes, crash and hang detection, verification and minimisation of failures, evidence.
use crate::exec::{self, Res, Viol};
use crate::plan;
use crate::rng::{mix, mix2};
use crate::scen::*;
use crate::sched;
use crate::shrink;
use crate::stats;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---- randomness seam --------------------------------------------------------------------------

static ENTROPY: AtomicU64 = AtomicU64::new(1);

/// What the process gets for random bytes (hash map keys): decided by the scenario.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let x = mix(ENTROPY.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed));
        let n = c.len();
        c.copy_from_slice(&x.to_le_bytes()[..n]);
    }
    len as isize
}

// ---- panics -----------------------------------------------------------------------------------

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        crate::alloc::leave(|| {
            let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
            // Keep the first one; later ones are usually its consequences.
            if p.is_none() {
                *p = Some((at, msg));
            }
        });
    }));
}

/// The outcome of a run in which a panic was caught.
pub fn panicked() -> Res {
    let p = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let (at, msg) = p.unwrap_or_default();
    let ours = at.starts_with("src/") && !at.starts_with("src/derived.rs");
    let class = if ours { "harness" } else { "panic" };
    Err(Viol { class: class.into(), detail: format!("panicked at {at}: {}", exec::clip(msg)) })
}

static TRACE: Mutex<Vec<(u64, u32)>> = Mutex::new(Vec::new());

pub fn note_trace(t: &[(u64, u32)]) {
    *TRACE.lock().unwrap() = t.to_vec();
}

// ---- caller's logger --------------------------------------------------------------------------

type LogHook = (Box<dyn FnMut(u64)>, u64);
thread_local! {
    static LOG_HOOK: std::cell::RefCell<Option<LogHook>> = const { std::cell::RefCell::new(None) };
}

/// What this thread's logger does at each record (but not at the records this leads to).
pub fn log_hook(h: Option<Box<dyn FnMut(u64)>>) {
    LOG_HOOK.with(|l| *l.borrow_mut() = h.map(|h| (h, 0)));
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        crate::alloc::leave(|| self.record(r))
    }
    fn flush(&self) {}
}
impl Logger {
    fn record(&self, r: &log::Record) {
        stats::count(stats::C::LogRecords);
        let _ = write!(std::io::sink(), "{}", r.args());
        crate::sched::point();
        // The caller's logger may do anything, using the library again included.
        if let Some(mut h) = LOG_HOOK.with(|h| h.borrow_mut().take()) {
            h.0(h.1);
            h.1 += 1;
            LOG_HOOK.with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    *l = Some(h);
                }
            });
        }
    }
}
static LOGGER: Logger = Logger;

// ---- one run ----------------------------------------------------------------------------------

/// CPU seconds one run may take; ordinary runs take milliseconds.
fn cpu_limit(s: &Scenario) -> i64 {
    match (s.prop.as_str(), s.fam.as_str()) {
        (_, "huge") => 120,
        ("C08", _) => 60,
        _ => 20,
    }
}

fn set_timer(secs: i64) {
    let it = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs as _, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

pub fn run_one(s: &Scenario) -> Res {
    stats::begin_run();
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    TRACE.lock().unwrap().clear();
    ENTROPY.store(mix2(s.seed, 0xE27), Relaxed);
    crate::env::begin_run(s.seed, &s.env);
    log::set_max_level(if s.trace { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    set_timer(cpu_limit(s));
    let s2 = s.clone();
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::run(&s2))).unwrap_or_else(|_| panicked()))
        .unwrap()
        .join();
    set_timer(0);
    match r {
        Ok(r) => r,
        Err(_) => panicked(),
    }
}

// ---- child side -------------------------------------------------------------------------------

fn channel() -> std::fs::File {
    // Standard output belongs to the code under test from here on.
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 40);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    }
}

fn child_setup() -> std::fs::File {
    let _ = log::set_logger(&LOGGER);
    install_hook();
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    channel()
}

fn warm(prop: &str) {
    match prop {
        "C08" => drop(std::thread::spawn(exec::warm_up).join()),
        "C14" | "C15" | "C24" => drop(std::thread::spawn(|| exec::warm_up_with(2)).join()),
        _ => {}
    }
}

/// Schedules that depend on single instructions or allocations: each run starts from the same state of the
/// process, whatever ran before it.
fn forked(s: &Scenario) -> bool {
    matches!(s.prop.as_str(), "C14" | "C15" | "C24")
}

/// In a copy of this process. The value is the exit code of `f`; a fatal signal is passed on.
fn in_fork(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let me = libc::getpid();
        match libc::fork() {
            0 => {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::getppid() != me {
                    libc::_exit(2);
                }
                libc::_exit(f())
            }
            -1 => 2,
            pid => {
                let mut st = 0;
                while libc::waitpid(pid, &mut st, 0) < 0 {
                    if *libc::__errno_location() != libc::EINTR {
                        return 2;
                    }
                }
                if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    libc::signal(sig, libc::SIG_DFL);
                    libc::raise(sig);
                }
                libc::WEXITSTATUS(st)
            }
        }
    }
}

fn counts_line() -> String {
    let c: Vec<String> = stats::snapshot().iter().map(|x| x.to_string()).collect();
    format!("C {}\n", c.join(" "))
}

pub fn worker(prop: &str, base: u64, list: &[u64]) -> i32 {
    let mut ch = child_setup();
    warm(prop);
    for &idx in list {
        let _ = ch.write_all(format!("S {idx}\n").as_bytes());
        let s = plan::scenario(prop, base, idx);
        if forked(&s) {
            let c = in_fork(|| {
                stats::zero();
                let line = match run_one(&s) {
                    Ok(()) => format!("D {idx} {} {}\n", stats::run_hash(), stats::run_faults()),
                    Err(v) => format!("V {idx} {}\n", serde_json::to_string(&(&v.class, &v.detail)).unwrap()),
                };
                let _ = ch.write_all(line.as_bytes());
                let _ = ch.write_all(counts_line().as_bytes());
                line.starts_with('V') as i32
            });
            if c != 0 {
                break;
            }
            continue;
        }
        let r = run_one(&s);
        match r {
            Ok(()) => {
                let _ = ch.write_all(format!("D {idx} {} {}\n", stats::run_hash(), stats::run_faults()).as_bytes());
            }
            Err(v) => {
                let j = serde_json::to_string(&(&v.class, &v.detail)).unwrap();
                let _ = ch.write_all(format!("V {idx} {j}\n").as_bytes());
                break;
            }
        }
    }
    let _ = ch.write_all(counts_line().as_bytes());
    0
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    /// Run one after another in one process; normally there is only one.
    pub scenarios: Vec<Scenario>,
    #[serde(default)]
    pub note: String,
}

/// Runs the scenarios of a file in this process.
pub fn exec_file(path: &Path) -> i32 {
    let text = std::fs::read_to_string(path).expect("read file");
    let rep: Replay = serde_json::from_str(&text).expect("parse file");
    let mut ch = child_setup();
    warm(&rep.property);
    for s in &rep.scenarios {
        let run = |ch: &mut std::fs::File| match run_one(s) {
            Ok(()) => 0,
            Err(v) => {
                let t = TRACE.lock().unwrap().clone();
                let j = serde_json::to_string(&(&v.class, &v.detail, &t)).unwrap();
                let _ = ch.write_all(format!("V {j}\n").as_bytes());
                if v.class == "harness" { 2 } else { 1 }
            }
        };
        let c = if forked(s) { in_fork(|| run(&mut ch)) } else { run(&mut ch) };
        if c != 0 {
            return c;
        }
    }
    let _ = ch.write_all(format!("H {}\n", stats::run_hash()).as_bytes());
    0
}

/// Run actor `t` of `s` in a fresh process: a digest of what it did, None if it panicked.
pub fn pristine(s: &Scenario, t: usize) -> Option<u64> {
    let mut c = Command::new(me());
    c.arg("alone").arg(t.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut c = c.spawn().expect("spawn");
    c.stdin.take().unwrap().write_all(&serde_json::to_vec(s).unwrap()).expect("pipe");
    let out = c.wait_with_output().expect("wait");
    String::from_utf8_lossy(&out.stdout).trim().parse().ok()
}

/// The fresh process of `pristine`.
pub fn alone(t: usize) -> i32 {
    let s: Scenario = serde_json::from_reader(std::io::stdin()).expect("scenario");
    let mut ch = child_setup();
    stats::begin_run();
    ENTROPY.store(mix2(s.seed, 0xE27), Relaxed);
    crate::env::begin_run(s.seed, &s.env);
    log::set_max_level(if s.trace { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    set_timer(cpu_limit(&s));
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || crate::multi::alone(&s, t)).unwrap().join();
    match r {
        Ok(h) => {
            let _ = ch.write_all(format!("{h}\n").as_bytes());
            0
        }
        Err(_) => 1,
    }
}

// ---- parent side ------------------------------------------------------------------------------

fn sandboxed(cmd: &mut Command, cwd: &Path) {
    cmd.current_dir(cwd).env("TMPDIR", cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    cmd.process_group(0);
    // The same addresses every time, where that is permitted.
    unsafe {
        cmd.pre_exec(|| {
            libc::personality(libc::ADDR_NO_RANDOMIZE as _);
            Ok(())
        });
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("yulesim-{}", std::process::id()));
        let _ = std::fs::create_dir_all(p.join("cwd"));
        Scratch(p)
    }
    pub fn cwd(&self) -> PathBuf {
        self.0.join("cwd")
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn signal_class(sig: i32) -> &'static str {
    match sig {
        libc::SIGPROF => "hang",
        libc::SIGKILL => "killed",
        _ => "abort",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Fine,
    Viol(String, String, Vec<(u64, u32)>),
    /// The machinery itself failed.
    Broken(String),
}

/// Run a replay in a process of its own.
pub fn run_replay(scr: &Scratch, rep: &Replay, tag: u64) -> Outcome {
    let f = scr.0.join(format!("try-{tag}.json"));
    if let Err(e) = std::fs::write(&f, serde_json::to_string(rep).unwrap()) {
        return Outcome::Broken(e.to_string());
    }
    let cwd = scr.cwd();
    let mut cmd = Command::new(me());
    cmd.arg("exec").arg(&f);
    sandboxed(&mut cmd, &cwd);
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return Outcome::Broken(e.to_string()),
    };
    let out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut v = None;
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if let Some(j) = l.strip_prefix("V ") {
                v = Some(j.to_string());
            }
        }
        let _ = tx.send(v);
    });
    let mut polls = 0;
    let mut pulse = Pulse::new();
    let mut stalled = false;
    let st = loop {
        match child.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) => {}
            Err(e) => return Outcome::Broken(e.to_string()),
        }
        polls += 1;
        std::thread::sleep(Duration::from_millis(if polls < 200 { 1 } else { 20 }));
        // It waits for itself (or, where that cannot be seen, has not ended for minutes).
        if pulse.stuck(child.id()) || polls > 200 + 30_000 {
            stalled = true;
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    let v = rx.recv_timeout(Duration::from_secs(10)).ok().flatten();
    if stalled {
        return Outcome::Viol("hang".into(), "the run came to a standstill".into(), vec![]);
    }
    if let Some(sig) = st.signal() {
        return match signal_class(sig) {
            "killed" => Outcome::Broken("killed from outside".into()),
            "hang" => Outcome::Viol("hang".into(), "one run used up its CPU time".into(), vec![]),
            c => Outcome::Viol(c.into(), format!("the process died of signal {sig}"), vec![]),
        };
    }
    match (st.code(), v) {
        (Some(0), _) => Outcome::Fine,
        (Some(1), Some(j)) => {
            let (c, d, t): (String, String, Vec<(u64, u32)>) = serde_json::from_str(&j).unwrap_or_default();
            Outcome::Viol(c, d, t)
        }
        (c, v) => Outcome::Broken(format!("exit code {c:?}: {}", v.unwrap_or_default())),
    }
}

/// Watches whether a process and its children do anything at all.
struct Pulse {
    looked: Instant,
    cpu: u64,
    idle: u32,
}

impl Pulse {
    /// Seconds of waiting without any use of the processor after which a process counts as stuck.
    const STUCK: u32 = 25;

    fn new() -> Pulse {
        Pulse { looked: Instant::now(), cpu: 0, idle: 0 }
    }
    /// Ticks used by the process and its children; None if one of them is able to run, or if that cannot be seen.
    fn ticks(pid: u32, deep: u32) -> Option<u64> {
        let mut sum = 0;
        let mut first = true;
        for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
            let dir = t.path();
            let stat = std::fs::read_to_string(dir.join("stat")).ok()?;
            let f: Vec<&str> = stat[stat.rfind(')')? + 2..].split(' ').collect();
            if f[0] != "S" && f[0] != "Z" {
                return None;
            }
            let n = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            sum += n(11) + n(12);
            if std::mem::take(&mut first) {
                sum += n(13) + n(14);
            }
            for c in std::fs::read_to_string(dir.join("children")).ok()?.split_whitespace() {
                if deep > 4 {
                    return None;
                }
                sum += Pulse::ticks(c.parse().ok()?, deep + 1)?;
            }
        }
        Some(sum)
    }
    /// Has it been waiting, and nothing else, for `STUCK` seconds?
    fn stuck(&mut self, pid: u32) -> bool {
        if self.looked.elapsed() < Duration::from_secs(1) {
            return false;
        }
        self.looked = Instant::now();
        match Pulse::ticks(pid, 0) {
            Some(t) if t == self.cpu => self.idle += 1,
            Some(t) => {
                self.cpu = t;
                self.idle = 0;
            }
            None => self.idle = 0,
        }
        self.idle >= Pulse::STUCK
    }
}

enum Msg {
    Line(usize, String),
    End(usize),
}

struct Wk {
    child: Child,
    list: Vec<u64>,
    current: Option<u64>,
    /// The last run it began.
    reached: Option<u64>,
    since: Instant,
    pulse: Pulse,
    ended: bool,
}

fn spawn_worker(scr: &Scratch, prop: &str, base: u64, list: Vec<u64>, k: usize, tx: &mpsc::Sender<Msg>) -> Wk {
    let f = scr.0.join(format!("list-{k}-{}", list.first().copied().unwrap_or(0)));
    std::fs::write(&f, list.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")).expect("write list");
    let mut cmd = Command::new(me());
    cmd.arg("worker").arg(prop).arg(base.to_string()).arg(&f);
    sandboxed(&mut cmd, &scr.cwd());
    let mut child = cmd.spawn().expect("spawn worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::with_capacity(1 << 16, out).lines().map_while(Result::ok) {
            if tx.send(Msg::Line(k, l)).is_err() {
                return;
            }
        }
        let _ = tx.send(Msg::End(k));
    });
    Wk { child, list, current: None, reached: None, since: Instant::now(), pulse: Pulse::new(), ended: false }
}

pub struct Sweep {
    pub done: u64,
    pub hashes: HashMap<u64, u64>,
    pub distinct: HashSet<u64>,
    pub counts: Vec<u64>,
    pub found: Option<(u64, String, String, Vec<u64>)>,
    pub broken: Option<String>,
    pub cut_short: bool,
}

/// Run the given indices over a number of worker processes.
fn sweep(scr: &Scratch, prop: &str, base: u64, lists: Vec<Vec<u64>>, budget: Duration, keep_hashes: usize) -> Sweep {
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<Wk> = lists.into_iter().enumerate().map(|(k, l)| spawn_worker(scr, prop, base, l, k, &tx)).collect();
    let mut out = Sweep {
        done: 0,
        hashes: HashMap::new(),
        distinct: HashSet::new(),
        counts: vec![0; stats::NAMES.len()],
        found: None,
        broken: None,
        cut_short: false,
    };
    let mut retried = 0;
    let mut looked = Instant::now();
    let mut found_at = None;
    while ws.iter().any(|w| !w.ended) {
        let m = rx.recv_timeout(Duration::from_millis(100));
        match m {
            Ok(Msg::Line(k, l)) => {
                let w = &mut ws[k];
                let mut it = l.splitn(2, ' ');
                match (it.next(), it.next()) {
                    (Some("S"), Some(i)) => {
                        w.current = i.parse().ok();
                        w.reached = w.current;
                        w.since = Instant::now();
                    }
                    (Some("D"), Some(x)) => {
                        let v: Vec<u64> = x.split(' ').filter_map(|y| y.parse().ok()).collect();
                        if v.len() == 3 {
                            out.done += 1;
                            if v[2] > 0 {
                                out.distinct.insert(v[1]);
                            }
                            if out.hashes.len() < keep_hashes || (v[0] as usize) < keep_hashes {
                                out.hashes.insert(v[0], v[1]);
                            }
                        }
                        w.current = None;
                    }
                    (Some("V"), Some(x)) => {
                        let mut y = x.splitn(2, ' ');
                        let idx: u64 = y.next().and_then(|z| z.parse().ok()).unwrap_or(0);
                        let (c, d): (String, String) = serde_json::from_str(y.next().unwrap_or("")).unwrap_or_default();
                        if c == "harness" {
                            out.broken = Some(format!("run {idx}: {d}"));
                        } else if out.found.as_ref().is_none_or(|f| idx < f.0) {
                            let before: Vec<u64> = w.list.iter().copied().take_while(|z| *z != idx).collect();
                            out.found = Some((idx, c, d, before));
                        }
                        w.current = None;
                    }
                    (Some("C"), Some(x)) => {
                        for (a, b) in out.counts.iter_mut().zip(x.split(' ')) {
                            *a += b.parse().unwrap_or(0);
                        }
                    }
                    _ => {}
                }
            }
            Ok(Msg::End(k)) => {
                let st = ws[k].child.wait();
                ws[k].ended = true;
                if let Ok(st) = st {
                    if let (Some(sig), Some(idx)) = (st.signal(), ws[k].current) {
                        match signal_class(sig) {
                            "killed" => {
                                retried += 1;
                                if retried > 3 {
                                    out.broken = Some("workers are being killed from outside".into());
                                } else {
                                    let rest: Vec<u64> = ws[k].list.iter().copied().skip_while(|z| *z != idx).collect();
                                    let n = spawn_worker(scr, prop, base, rest, k, &tx);
                                    ws[k] = n;
                                }
                            }
                            c => {
                                if out.found.as_ref().is_none_or(|f| idx < f.0) {
                                    let before: Vec<u64> = ws[k].list.iter().copied().take_while(|z| *z != idx).collect();
                                    out.found = Some((idx, c.into(), format!("the process died of signal {sig}"), before));
                                }
                            }
                        }
                    } else if st.code() != Some(0) && st.signal().is_none() {
                        out.broken = Some(format!("a worker ended with {st}"));
                    }
                }
            }
            Err(_) => {}
        }
        if looked.elapsed() > Duration::from_secs(1) {
            looked = Instant::now();
            for w in ws.iter_mut().filter(|w| !w.ended) {
                let Some(idx) = w.current else { continue };
                // Runs take milliseconds; one that has been going on for long is looked at closely.
                if w.since.elapsed() < Duration::from_secs(3) {
                    w.pulse = Pulse::new();
                } else if w.pulse.stuck(w.child.id()) || w.since.elapsed() > Duration::from_secs(600) {
                    if out.found.as_ref().is_none_or(|f| idx < f.0) {
                        let before: Vec<u64> = w.list.iter().copied().take_while(|z| *z != idx).collect();
                        out.found = Some((idx, "hang".into(), "the run came to a standstill".into(), before));
                    }
                }
            }
        }
        let over = t0.elapsed() > budget;
        out.cut_short |= over && out.found.is_none();
        if out.broken.is_some() || over {
            break;
        }
        // The lowest failing run is the one reported: let the others come as far.
        if let Some((idx, class, ..)) = &out.found {
            let since = *found_at.get_or_insert_with(Instant::now);
            let behind = ws.iter().any(|w| {
                !w.ended && (w.current.is_some_and(|c| c < *idx) || w.list.iter().any(|z| z < idx && w.reached.is_none_or(|r| *z > r)))
            });
            if !behind || class == "hang" || since.elapsed() > Duration::from_secs(10) {
                break;
            }
        }
    }
    for w in ws.iter_mut().filter(|w| !w.ended) {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    out
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub runs: Option<u64>,
    pub variant: &'static str,
}

fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16)
}

pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let scr = Scratch::new();
    let base = o.seed;
    let n = o.runs.unwrap_or_else(|| plan::runs(&o.prop, &o.tier));
    let w = workers();
    let lists: Vec<Vec<u64>> = (0..w as u64).map(|k| (k..n).step_by(w).collect::<Vec<u64>>()).filter(|l| !l.is_empty()).collect();
    let budget = Duration::from_secs(if o.tier == "thorough" { 3000 } else { 300 });
    let keep = (n as usize / 50).clamp(20, 500);
    let sw = sweep(&scr, &o.prop, base, lists, budget, keep);
    let mut code = 0;
    let mut violations = 0;
    let mut trusted = true;
    if let Some(b) = &sw.broken {
        println!("ERROR: the simulator failed: {b}");
        code = 2;
        trusted = false;
    }
    let sweep_s = t0.elapsed().as_secs_f64();
    // The same seeds again, in other processes and another order: the same executions?
    let mut again = 0;
    let mut diverged = vec![];
    if code == 0 && sw.found.is_none() {
        let mut idx: Vec<u64> = sw.hashes.keys().copied().collect();
        idx.sort_by_key(|x| std::cmp::Reverse(*x));
        idx.truncate(keep);
        let lists: Vec<Vec<u64>> = idx.chunks(idx.len().div_ceil(w).max(1)).map(|c| c.to_vec()).collect();
        let rerun = sweep(&scr, &o.prop, base, lists, Duration::from_secs(120), usize::MAX);
        for (i, h) in &rerun.hashes {
            again += 1;
            if sw.hashes.get(i) != Some(h) {
                diverged.push(*i);
            }
        }
        if !diverged.is_empty() {
            println!("note: {} of {again} repeated runs took another course: {:?}", diverged.len(), &diverged[..diverged.len().min(5)]);
        }
    }
    if let Some((idx, class, detail, before)) = &sw.found {
        match report(o, &scr, base, *idx, class, detail, before) {
            Some(path) => {
                violations = 1;
                code = 1;
                println!("VIOLATION property={} replay={}", o.prop, path.display());
            }
            None => {
                println!("ERROR: run {idx} ended with {class} ({detail}) but the failure did not come back");
                code = 2;
                trusted = false;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(o, &sw, n, w, sweep_s, wall, again, &diverged, violations, trusted);
    if code == 0 {
        println!(
            "{}: held in {} simulated runs ({} distinct), {:.1} s{}",
            o.prop,
            sw.done,
            sw.distinct.len(),
            wall,
            if sw.cut_short { ", cut short by the time limit" } else { "" }
        );
    }
    code
}

fn report(o: &Opts, scr: &Scratch, base: u64, idx: u64, class: &str, detail: &str, before: &[u64]) -> Option<PathBuf> {
    let mk = |scs: Vec<Scenario>, note: &str| Replay {
        property: o.prop.clone(),
        class: class.into(),
        detail: detail.into(),
        seed: base,
        index: idx,
        scenarios: scs,
        note: note.into(),
    };
    println!("run {idx} (seed {base}): {class}: {detail}");
    let target = plan::scenario(&o.prop, base, idx);
    let mut rep = mk(vec![target.clone()], "");
    let same = |out: &Outcome| matches!(out, Outcome::Viol(c, _, _) if c == class);
    let mut ok = same(&run_replay(scr, &rep, 0));
    if !ok {
        // Perhaps it depends on what ran before in the same process.
        let mut k = 1;
        loop {
            let from = before.len().saturating_sub(k);
            let mut v: Vec<Scenario> = before[from..].iter().map(|i| plan::scenario(&o.prop, base, *i)).collect();
            v.push(target.clone());
            rep = mk(v, "fails only after the preceding runs in the same process");
            if same(&run_replay(scr, &rep, 0)) {
                ok = true;
                break;
            }
            if from == 0 || k > 20_000 {
                break;
            }
            k *= 8;
        }
    }
    if !ok && (class == "hang" || class == "abort") {
        // Nothing that can be shown again.
        return None;
    }
    if ok {
        let budget = Duration::from_secs(if class == "hang" { 120 } else { 60 });
        shrink::minimise(scr, &mut rep, budget);
    } else {
        rep = mk(vec![target], "seen once; running it again by itself did not show it");
    }
    let dir = o.verif.join("out");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(&rep).unwrap();
    let h = crate::rng::hash_str(&text);
    let path = dir.join(format!("{}-{:08x}.json", o.prop, h as u32));
    if let Err(e) = std::fs::write(&path, text) {
        println!("ERROR: cannot write {}: {e}", path.display());
        return None;
    }
    println!("{}: {}", rep.class, rep.detail);
    Some(path)
}

pub fn replay(path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("ERROR: cannot read {}", path.display());
        return 2;
    };
    let rep: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR: {e}");
            return 2;
        }
    };
    let scr = Scratch::new();
    match run_replay(&scr, &rep, 1) {
        Outcome::Fine => {
            println!("{}: the recorded scenario passes", rep.property);
            0
        }
        Outcome::Viol(c, d, _) => {
            println!("{c}: {d}");
            println!("VIOLATION property={} replay={}", rep.property, path.display());
            1
        }
        Outcome::Broken(b) => {
            println!("ERROR: {b}");
            2
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    o: &Opts,
    sw: &Sweep,
    planned: u64,
    w: usize,
    sweep_s: f64,
    wall: f64,
    again: u64,
    diverged: &[u64],
    violations: u64,
    trusted: bool,
) {
    use serde_json::json;
    let c: serde_json::Map<String, serde_json::Value> =
        stats::NAMES.iter().zip(&sw.counts).filter(|(_, v)| **v > 0).map(|(n, v)| (n.to_string(), json!(v))).collect();
    let group = |p: &str| -> serde_json::Map<String, serde_json::Value> {
        c.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), v.clone())).collect()
    };
    let micros = sw.counts[stats::C::SimMicros as usize];
    let mut samples = vec![];
    for i in [0u64, 1, 2, 5, 9, 17, 33, 65] {
        if i >= planned || samples.len() >= 2 {
            break;
        }
        let s = plan::scenario(&o.prop, o.seed, i);
        let j = serde_json::to_value(&s).unwrap();
        if j.to_string().len() < 6000 {
            samples.push(json!({"index": i, "scenario": j}));
        }
    }
    if samples.is_empty() {
        let s = plan::scenario(&o.prop, o.seed, 0);
        let t = serde_json::to_string(&s).unwrap();
        samples.push(json!({"index": 0, "scenario_text": t.chars().take(4000).collect::<String>()}));
    }
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sw.done,
            "distinct_nontrivial": sw.distinct.len(),
            "rule": "one case = one simulated run of a scenario drawn from (seed, property, index): generated log, delivery plan, faults, crash points, schedule. Two cases are the same if their event logs hash the same (every simulated read/write call with its outcome, every answer of the code under test, every context switch). Non-trivial = at least one fault or scheduling event actually fired in the run.",
            "samples": samples,
            "runs_planned": planned,
            "cut_short_by_time_limit": sw.cut_short,
            "worker_processes": w,
            "simulated_runs_per_hour": if sweep_s > 0.0 { (sw.done as f64 / sweep_s * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if sweep_s > 0.0 { (sw.done as f64 / sweep_s * 3600.0) as u64 } else { 0 },
            "simulated_seconds_covered": micros as f64 / 1e6,
            "faults_injected": group("fault."),
            "scheduling": group("sched."),
            "io": group("io."),
            "reached": group("probe."),
            "repeated_for_determinism": again,
            "repeats_that_diverged": diverged.len(),
            "real_code": "yule_log (core) and yule_log_macros from /repo's working tree, built as they are; derived streams are generated by the real macros",
            "stubs": "readers, writers, their latency, failures and crashes; the clock and sleeping; thread scheduling (at every read, write, queue operation, allocation, lock, yield and sleep, and between single machine instructions); allocator accounting and limit; random bytes of the process; environment variables; standard streams; files, sockets, pipes and processes (refused and recorded)",
            "build_variant": o.variant,
        },
        "assumptions": [
            "what must be decoded is stated by the simulator's own model of the ULog format (sim/src/model.rs), written from the format's description",
            "simulated threads run one at a time, so memory orders weaker than those of x86 are out of reach",
            "search is by seeded sampling: absence of a violation is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": violations,
        "trustworthy": trusted,
    });
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", o.prop));
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        println!("ERROR: cannot write evidence: {e}");
    }
}

#[allow(dead_code)]
fn unused(_: &sched::Plan) {}
