//! The process's standard streams: captured, full or closed while the code under test runs (C16).
use crate::alloc;
use crate::exec::*;
use crate::io::*;
use crate::model::*;
use crate::observe::{self, Got};
use crate::scen::*;
use crate::stats::{self, C};
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;
use std::sync::Arc;
use yule_log::datastream::DataStream;
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;

/// Now and then a message too large for its frame, which encoding has to refuse.
fn oversize(m: UlogMessage, n: usize, w: &mut SimWriter, fails: &mut Vec<String>) {
    if n % 64 != 5 {
        return;
    }
    let m = match m {
        UlogMessage::Info(mut i) => {
            i.key = "k".repeat(300);
            UlogMessage::Info(i)
        }
        UlogMessage::Parameter(mut p) => {
            p.key = "k".repeat(300);
            UlogMessage::Parameter(p)
        }
        _ => UlogMessage::Unhandled { msg_type: b'Z', message_contents: vec![7; 70_000] },
    };
    if let Err(e) = alloc::enter(|| m.encode(w)) {
        fails.push(e.to_string());
    }
}

/// The bytes once more through the low-level byte source.
fn low(log: &LogInst, b: &Built, bytes: &Arc<Vec<u8>>, fails: &mut Vec<String>) {
    let rd = reader(log, b, bytes.clone(), 2);
    let mut ds = DataStream::new(rd.boxed(log.read.buf));
    for k in 0..40u64 {
        let x = crate::rng::mix2(bytes.len() as u64, k);
        let n = (x >> 8 & 15) as usize;
        let t = alloc::enter(|| match x % 12 {
            0 => format!("{:?}", ds.read_u8()),
            1 => format!("{:?}", ds.read_u16()),
            2 => format!("{:?}", ds.read_u32()),
            3 => format!("{:?}", ds.read_u64()),
            4 => format!("{:?}", ds.read_i8()),
            5 => format!("{:?}", ds.read_i16()),
            6 => format!("{:?}", ds.read_i32()),
            7 => format!("{:?}", ds.read_f32()),
            8 => format!("{:?}", ds.read_f64()),
            9 => format!("{:?}", ds.read_bool()),
            10 => format!("{:?}", ds.read_string(n)),
            _ => format!("{:?}", ds.skip(n * n)),
        });
        fails.push(t);
    }
}

/// Results of one pass over a log: answers, encoded bytes, encoding failures.
fn pass(log: &LogInst, b: &Built, bytes: &Arc<Vec<u8>>) -> Result<(Vec<Got>, Vec<u8>, Vec<String>), Viol> {
    let mut w = SimWriter::new(3, &log.write);
    let mut fails = vec![];
    let cap = cap_steps(bytes.len(), log);
    let rd = reader(log, b, bytes.clone(), 1);
    let got = match &log.iface {
        Iface::Low(cfg) => {
            let mut p = open_low(rd.boxed(log.read.buf), cfg)?;
            let mut got = vec![];
            loop {
                let r = alloc::enter(|| p.next());
                let g = got_of(&r);
                note(&g);
                let Some(g) = g else { break };
                got.push(g);
                if let Some(Ok(m)) = r {
                    if let Err(e) = alloc::enter(|| m.encode(&mut w)) {
                        fails.push(e.to_string());
                    }
                    // Printing into a string is no output either.
                    if got.len() % 3 == 1 {
                        fails.push(alloc::enter(|| observe::render_all(&m)));
                    }
                    oversize(m, got.len(), &mut w, &mut fails);
                }
                if got.len() > cap {
                    return viol("no_end", "no end");
                }
            }
            low(log, b, bytes, &mut fails);
            got
        }
        Iface::Derived(_) => {
            let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
            drain(&mut se, cap, None)?
        }
    };
    Ok((got, w.out(), fails))
}

struct Redirect {
    saved: [i32; 2],
}

impl Redirect {
    fn to(fds: [Option<i32>; 2]) -> Redirect {
        let _ = std::io::stdout().flush();
        let saved = unsafe { [libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 50), libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 50)] };
        for (i, f) in fds.iter().enumerate() {
            let target = i as i32 + 1;
            unsafe {
                match f {
                    Some(fd) => {
                        libc::dup2(*fd, target);
                    }
                    None => {
                        libc::close(target);
                    }
                }
            }
        }
        Redirect { saved }
    }
}

impl Drop for Redirect {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        for (i, s) in self.saved.iter().enumerate() {
            if *s >= 0 {
                unsafe {
                    libc::dup2(*s, i as i32 + 1);
                    libc::close(*s);
                }
            }
        }
    }
}

/// Files and directories in the working directory: nothing may appear there.
fn cwd() -> Vec<String> {
    let mut v: Vec<String> =
        std::fs::read_dir(".").map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn temp() -> std::fs::File {
    let fd = unsafe { libc::memfd_create(c"captured".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    use std::os::fd::FromRawFd;
    unsafe { std::fs::File::from_raw_fd(fd) }
}

pub fn c16(s: &Scenario) -> Res {
    for log in &s.logs {
        let b = log.built();
        let (mut bytes, hit) = damaged(&b, &log.damage, false);
        stats::add(C::Damage, hit.len() as u64);
        if let Some(c) = log.cut.and_then(|p| b.abs(p)) {
            stats::count(C::Cut);
            bytes.truncate(c);
        }
        let bytes = Arc::new(bytes);
        let before = cwd();
        // Captured.
        let mut cap = [temp(), temp()];
        let normal = {
            let _r = Redirect::to([Some(cap[0].as_raw_fd()), Some(cap[1].as_raw_fd())]);
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pass(log, &b, &bytes)));
            let _ = std::io::stdout().flush();
            x
        };
        for (i, f) in cap.iter_mut().enumerate() {
            let mut text = vec![];
            let _ = f.rewind();
            let _ = f.read_to_end(&mut text);
            if !text.is_empty() {
                let name = ["standard output", "standard error"][i];
                return viol(
                    "output",
                    clip(format!("{} bytes arrived at {name}, beginning {:?}", text.len(), String::from_utf8_lossy(&text))),
                );
            }
        }
        let Ok(Ok(normal)) = normal else {
            // It fails with the streams in order, too.
            stats::count(C::Anyway);
            continue;
        };
        // Full or closed.
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full");
        let fd = full.as_ref().ok().map(|f| f.as_raw_fd());
        let mode = s.n.first().copied().unwrap_or(0);
        let pick = |bit: u64| if mode >> bit & 1 == 1 { None } else { fd };
        stats::count(C::StdioBlocked);
        let other = {
            let _r = Redirect::to([pick(0), pick(1)]);
            pass(log, &b, &bytes)
        };
        if other? != normal {
            return viol("result_changed", "results depend on the state of the standard streams");
        }
        if let Some(what) = crate::env::touched() {
            return viol("touched", clip(format!("something besides the reader and writer is reached for: {what}")));
        }
        let after = cwd();
        if after != before {
            return viol("files", format!("files appeared in the working directory: {after:?}"));
        }
    }
    Ok(())
}
