//! Several parsers, streams, encoders and consumers in one process (C14, C15).
use crate::alloc;
use crate::exec::*;
use crate::io::*;
use crate::model::*;
use crate::observe::{self, Got};
use crate::rng::mix2;
use crate::scen::*;
use crate::sched;
use crate::stats::{self, C};
use std::cell::RefCell;
#[cfg(feature = "arc")]
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use yule_log::encode::Encode;

/// Everything one actor observably did.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Done {
    got: Vec<Got>,
    enc: Vec<String>,
    out: Vec<u8>,
    fail: Option<String>,
}

/// One parser (or derived stream), possibly re-encoding what it yields.
struct Actor {
    step: Option<Box<dyn FnMut(&mut Done) -> bool>>,
    done: Done,
    w: SimWriter,
    left: usize,
    abandon: Option<u32>,
}

struct Stuff {
    b: Built,
    bytes: Arc<Vec<u8>>,
    intact: bool,
}

fn stuff(log: &LogInst) -> Stuff {
    let b = log.built();
    let (mut bytes, hit) = damaged(&b, &log.damage, false);
    stats::add(C::Damage, hit.len() as u64);
    let mut intact = log.damage.is_empty();
    if let Some(c) = log.cut.and_then(|p| b.abs(p)) {
        intact &= c >= bytes.len();
        bytes.truncate(c);
    }
    Stuff { b, bytes: Arc::new(bytes), intact }
}

impl Actor {
    fn new(log: &LogInst, s: &Stuff, t: usize, todo: u64, hook: Option<Box<dyn FnMut(u64) + Send>>) -> Actor {
        let rd = reader(log, &s.b, s.bytes.clone(), t as u64);
        rd.st.lock().unwrap().hook = hook;
        let w = SimWriter::new(t as u64, &log.write);
        let mut done = Done::default();
        let step: Option<Box<dyn FnMut(&mut Done) -> bool>> = match &log.iface {
            Iface::Low(cfg) => match open_low(rd.boxed(log.read.buf), cfg) {
                Ok(mut p) => {
                    let mut w = w.clone();
                    Some(Box::new(move |d: &mut Done| {
                        let r = alloc::enter(|| p.next());
                        let g = got_of(&r);
                        note(&g);
                        let Some(g) = g else { return false };
                        d.got.push(g);
                        if let Some(Ok(m)) = r {
                            if todo & 2 != 0 {
                                d.enc.push(alloc::enter(|| observe::render_all(&m)));
                            }
                            if todo & 1 != 0 {
                                if let Err(e) = alloc::enter(|| m.encode(&mut w)) {
                                    d.enc.push(format!("{:?} {e}", e.kind()));
                                }
                            }
                        }
                        true
                    }))
                }
                Err(v) => {
                    done.fail = Some(v.detail);
                    None
                }
            },
            Iface::Derived(_) => match Sess::open(rd.boxed(log.read.buf), &log.iface) {
                Ok(mut se) => Some(Box::new(move |d: &mut Done| match se.next() {
                    Some(g) => {
                        d.got.push(g);
                        true
                    }
                    None => false,
                })),
                Err(v) => {
                    done.fail = Some(v.detail);
                    None
                }
            },
        };
        Actor { step, done, w, left: cap_steps(s.bytes.len(), log), abandon: log.abandon }
    }
    fn step(&mut self) -> bool {
        if self.abandon.is_some_and(|a| self.done.got.len() >= a as usize) {
            stats::count(C::Abandon);
            self.step = None;
        }
        if self.left == 0 {
            self.done.fail = Some("no end".into());
            self.step = None;
        }
        self.left = self.left.saturating_sub(1);
        let Some(f) = &mut self.step else { return false };
        if !f(&mut self.done) {
            self.step = None;
            return false;
        }
        true
    }
    fn finish(mut self) -> Done {
        while self.step() {}
        self.step = None;
        self.done.out = self.w.out();
        self.done
    }
}

/// What an actor does with its messages: bit 0 encode, bit 1 print.
fn encodes(s: &Scenario, t: usize) -> u64 {
    s.n.get(t).copied().unwrap_or(0)
}

type Pool = Rc<RefCell<Vec<Option<Actor>>>>;

/// A closure that stays on the thread it was made on.
struct Here<F>(F);
unsafe impl<F> Send for Here<F> {}

fn nested_hook(pool: Pool, seed: u64, t: usize, pm: u64) -> Box<dyn FnMut(u64) + Send> {
    let h = Here(pool);
    Box::new(move |n| {
        let h = &h;
        let x = mix2(seed ^ t as u64, n);
        if x % 1000 >= pm {
            return;
        }
        let k = {
            let p = h.0.borrow();
            let free: Vec<usize> = p.iter().enumerate().filter(|(_, a)| a.as_ref().is_some_and(|a| a.step.is_some())).map(|x| x.0).collect();
            if free.is_empty() {
                return;
            }
            free[((x >> 20) % free.len() as u64) as usize]
        };
        let a = h.0.borrow_mut()[k].take();
        if let Some(mut a) = a {
            stats::count(C::Nested);
            stats::event(0x4e57 ^ (k as u64) << 20 ^ (t as u64) << 30 ^ n);
            for _ in 0..1 + (x >> 40) % 3 {
                a.step();
            }
            h.0.borrow_mut()[k] = Some(a);
        }
    })
}

fn digest(d: &Done) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in format!("{d:?}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// What actor `t` does alone in a process in which nothing else ever ran.
pub fn alone(s: &Scenario, t: usize) -> u64 {
    let st = stuff(&s.logs[t]);
    digest(&Actor::new(&s.logs[t], &st, t, encodes(s, t), None).finish())
}

pub fn c14(s: &Scenario) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c14_inner(s))).unwrap_or_else(|_| crate::driver::panicked());
    match r {
        // Somebody who panics alone as well was not disturbed by anyone.
        Err(v) if v.class == "panic" && (0..s.logs.len()).any(|t| crate::driver::pristine(s, t).is_none()) => Ok(()),
        r => r,
    }
}

fn c14_inner(s: &Scenario) -> Res {
    let n = s.logs.len();
    let st: Vec<Stuff> = s.logs.iter().map(stuff).collect();
    let together: Vec<Done> = match s.fam.as_str() {
        "threads" => {
            let out: Arc<Mutex<Vec<Option<Done>>>> = Arc::new(Mutex::new(vec![None; n]));
            let mut bodies: Vec<sched::Body> = vec![];
            for t in 0..n {
                let (log, bytes, out) = (s.logs[t].clone(), st[t].bytes.clone(), out.clone());
                let enc = encodes(s, t);
                bodies.push(Box::new(move || {
                    let b = log.built();
                    let my = Stuff { b, bytes, intact: false };
                    let a = Actor::new(&log, &my, t, enc, None);
                    let d = a.finish();
                    out.lock().unwrap()[t] = Some(d);
                }));
            }
            let (trace, bad) = sched::run(&s.sched, bodies);
            crate::driver::note_trace(&trace);
            if bad.iter().any(|b| *b) {
                return crate::driver::panicked();
            }
            let mut o = out.lock().unwrap();
            o.iter_mut().map(|d| d.take().unwrap()).collect()
        }
        "nested" => {
            let pool: Pool = Rc::new(RefCell::new((0..n).map(|_| None).collect()));
            for t in 0..n {
                let hook = nested_hook(pool.clone(), s.sched.seed, t, s.sched.switch_pm as u64);
                let a = Actor::new(&s.logs[t], &st[t], t, encodes(s, t), Some(hook));
                pool.borrow_mut()[t] = Some(a);
            }
            if s.trace {
                // Records of one parser: the logger uses another one.
                crate::driver::log_hook(Some(nested_hook(pool.clone(), mix2(s.sched.seed, 0x106), n, s.sched.switch_pm as u64 / 3)));
            }
            let mut turn = 0u64;
            loop {
                let free: Vec<usize> =
                    pool.borrow().iter().enumerate().filter(|(_, a)| a.as_ref().unwrap().step.is_some()).map(|x| x.0).collect();
                if free.is_empty() {
                    break;
                }
                let k = free[(mix2(s.sched.seed ^ 0x77, turn) % free.len() as u64) as usize];
                turn += 1;
                let mut a = pool.borrow_mut()[k].take().unwrap();
                a.step();
                pool.borrow_mut()[k] = Some(a);
            }
            crate::driver::log_hook(None);
            let all: Vec<Actor> = pool.borrow_mut().iter_mut().map(|a| a.take().unwrap()).collect();
            all.into_iter().map(|a| a.finish()).collect()
        }
        _ => {
            // One thread, the parsers' steps interleaved.
            let mut all: Vec<Actor> = (0..n).map(|t| Actor::new(&s.logs[t], &st[t], t, encodes(s, t), None)).collect();
            let mut turn = 0u64;
            let mut cur = 0;
            let mut trace = vec![];
            let explicit = s.sched.explicit.as_ref();
            let mut at = 0;
            loop {
                let free: Vec<usize> = all.iter().enumerate().filter(|(_, a)| a.step.is_some()).map(|x| x.0).collect();
                if free.is_empty() {
                    break;
                }
                turn += 1;
                let mut k = if free.contains(&cur) { cur } else { free[0] };
                match explicit {
                    Some(l) => {
                        while at < l.len() && l[at].0 < turn {
                            at += 1;
                        }
                        if at < l.len() && l[at].0 == turn && free.contains(&(l[at].1 as usize)) {
                            k = l[at].1 as usize;
                        }
                    }
                    None => {
                        if !free.contains(&cur) || mix2(s.sched.seed, turn) % 1000 < s.sched.switch_pm as u64 {
                            k = free[(mix2(s.sched.seed ^ 0x99, turn) % free.len() as u64) as usize];
                        }
                    }
                }
                if k != cur {
                    trace.push((turn, k as u32));
                    stats::count(C::Switch);
                    cur = k;
                }
                all[k].step();
            }
            crate::driver::note_trace(&trace);
            all.into_iter().map(|a| a.finish()).collect()
        }
    };
    // Alone, in the opposite order.
    for t in (0..n).rev() {
        let alone = Actor::new(&s.logs[t], &st[t], t, encodes(s, t), None).finish();
        let d = &together[t];
        if *d != alone {
            let what = match d.got.iter().zip(&alone.got).position(|(a, b)| a != b) {
                Some(k) => format!("answer {k}: {:?} instead of {:?}", d.got[k], alone.got[k]),
                None if d.got.len() != alone.got.len() => format!("{} answers instead of {}", d.got.len(), alone.got.len()),
                None if d.out != alone.out => "other bytes were written".into(),
                None => format!("{:?} {:?} instead of {:?} {:?}", d.enc, d.fail, alone.enc, alone.fail),
            };
            return viol("interference", clip(format!("actor {t} of {n} gave other results beside the others than alone: {what}")));
        }
        // Traces left in the process would also affect the reference: where the result is not what the log
        // says, and now and then anyway, compare with a process in which nothing else ever ran.
        let mut suspect = d.fail.is_some() || (t == 0 && mix2(s.seed, 0xA10E) % 60 == 0);
        if st[t].intact {
            let want = wants(&s.logs[t], &st[t].b, &st[t].b.recs);
            let got: Vec<Got> = d.got.iter().filter(|g| !matches!(g, Got::Err(Some(_), _))).cloned().collect();
            suspect |= match_seq(&want, &got, s.logs[t].abandon.is_none()).is_err();
            let plain = s.logs[t].write.faults.is_empty() && s.logs[t].write.cap.is_none();
            suspect |= encodes(s, t) & 1 == 1 && plain && s.logs[t].cfg() == Cfg::full() && !st[t].bytes.starts_with(&d.out);
        }
        if suspect {
            stats::count(C::Pristine);
            if crate::driver::pristine(s, t) != Some(digest(d)) {
                return viol("interference", format!("actor {t} of {n} gave other results than in a process of its own"));
            }
        }
    }
    Ok(())
}

// ---- C15: messages on other threads -----------------------------------------------------------

#[cfg(not(feature = "arc"))]
pub fn c15(_s: &Scenario) -> Res {
    viol("harness", "C15 needs the thread-safe build")
}

#[cfg(feature = "arc")]
mod threaded {
    use super::*;
    use crate::observe;
    use std::collections::VecDeque;
    use yule_log::model::msg::{LoggedData, UlogMessage};

    pub enum Cargo {
        Msg(UlogMessage),
        Copy(LoggedData),
        Def(yule_log::model::Shared<yule_log::model::def::Format>),
    }

    pub struct Parcel {
        pub from: usize,
        pub n: usize,
        pub what: Cargo,
        pub item: Item,
        /// Printed form at the time it was yielded, for some.
        pub text: Option<String>,
        /// Encoding at the time it was yielded.
        pub bytes: Vec<u8>,
        pub hops: u32,
    }

    pub struct Q {
        pub items: VecDeque<Parcel>,
    }

    pub struct Shared {
        pub qs: Vec<Mutex<Q>>,
        pub producing: Mutex<usize>,
        pub fail: Mutex<Option<Viol>>,
        pub seed: u64,
        pub cap: usize,
    }

    impl Shared {
        pub fn fail(&self, class: &str, detail: String) {
            let mut f = self.fail.lock().unwrap();
            if f.is_none() {
                *f = Some(Viol { class: class.into(), detail: clip(detail) });
            }
        }
    }

    pub fn check(sh: &Shared, p: &Parcel, who: usize, w: &mut SimWriter) {
        let now = match &p.what {
            Cargo::Msg(m) => observe::message(m),
            Cargo::Copy(d) => observe::data(d),
            Cargo::Def(f) => Item::Format(observe::format_text(f)),
        };
        if now != p.item {
            sh.fail("content_changed", format!("message {} of parser {} on thread {who}: {now:?}, was {:?}", p.n, p.from, p.item));
        }
        if let (Some(t), Cargo::Msg(m)) = (&p.text, &p.what) {
            if alloc::enter(|| observe::render_all(m)) != *t {
                sh.fail("content_changed", format!("message {} of parser {} is printed differently on thread {who}", p.n, p.from));
            }
        }
        let at = w.len();
        let r = match &p.what {
            Cargo::Msg(m) => alloc::enter(|| m.encode(w)),
            Cargo::Copy(d) => alloc::enter(|| d.encode(w)),
            Cargo::Def(f) => alloc::enter(|| f.encode(w)),
        };
        if let Err(e) = r {
            sh.fail("encode_failed", format!("message {} of parser {} on thread {who}: {e}", p.n, p.from));
            return;
        }
        let out = w.st.lock().unwrap().out.split_off(at);
        // What follows the frame's header is the content of the copy.
        let want: &[u8] = match &p.what {
            Cargo::Msg(_) => &p.bytes,
            _ => p.bytes.get(3..).unwrap_or(&[]),
        };
        if out != want {
            sh.fail("encoding_changed", format!("message {} of parser {} encodes differently on thread {who}", p.n, p.from));
        }
    }

    pub fn put(sh: &Shared, k: usize, p: Parcel, hard: bool) {
        let cap = if hard { sh.cap } else { usize::MAX };
        sched::wait_until(|| sh.qs[k].lock().unwrap().items.len() < cap);
        sh.qs[k].lock().unwrap().items.push_back(p);
        stats::count(C::ThreadMsgs);
        sched::wake();
        sched::point();
    }
}

#[cfg(feature = "arc")]
pub fn c15(s: &Scenario) -> Res {
    use crate::observe;
    use threaded::*;
    use yule_log::model::msg::UlogMessage;
    let consumers = (s.n[0] as usize).max(1);
    let sh = Arc::new(threaded::Shared {
        qs: (0..consumers).map(|_| Mutex::new(Q { items: Default::default() })).collect(),
        producing: Mutex::new(s.logs.len()),
        fail: Mutex::new(None),
        seed: s.sched.seed,
        cap: (s.n[1] as usize).max(1),
    });
    let mut bodies: Vec<sched::Body> = vec![];
    for (t, log) in s.logs.iter().enumerate() {
        let (log, sh) = (log.clone(), sh.clone());
        bodies.push(Box::new(move || {
            let st = stuff(&log);
            let cfg = log.cfg();
            let rd = reader(&log, &st.b, st.bytes.clone(), t as u64);
            let mut n = 0;
            let full = cfg == Cfg::full() && st.intact;
            if let Ok(mut p) = open_low(rd.boxed(log.read.buf), &cfg) {
                let cap = cap_steps(st.bytes.len(), &log);
                let mut steps = 0;
                let mut frames = st.b.recs.iter();
                loop {
                    steps += 1;
                    if steps > cap || log.abandon.is_some_and(|a| n >= a as usize) {
                        break;
                    }
                    match alloc::enter(|| p.next()) {
                        None => break,
                        Some(Err(e)) => {
                            // I/O errors leave no message behind; others stand for one.
                            if full && !matches!(e, yule_log::errors::ULogError::Io(_)) {
                                frames.next();
                            }
                        }
                        Some(Ok(m)) => {
                            let item = observe::message(&m);
                            stats::event(h64(&item));
                            stats::count(C::Items);
                            let mut bytes = vec![];
                            let r = alloc::enter(|| m.encode(&mut bytes));
                            if let Err(e) = r {
                                sh.fail("encode_failed", format!("message {n} of parser {t}: {e}"));
                            }
                            if full {
                                if let Some(r) = frames.next() {
                                    if bytes != st.b.bytes[r.start..r.end] {
                                        sh.fail("encoding_changed", format!("message {n} of parser {t} does not encode to the logged bytes"));
                                    }
                                    if r.exp != Exp::Item(item.clone()) {
                                        sh.fail("content_changed", format!("message {n} of parser {t}: {item:?} instead of {:?}", r.exp));
                                    }
                                }
                            }
                            let x = mix2(sh.seed ^ 0xd0 ^ t as u64, n as u64);
                            let k = (x % sh.qs.len() as u64) as usize;
                            let from = t;
                            if let UlogMessage::LoggedData(d) = &m {
                                if x >> 8 & 3 == 0 {
                                    let c = alloc::enter(|| d.clone());
                                    let k2 = (x >> 16) as usize % sh.qs.len();
                                    put(&sh, k2, Parcel { from, n, what: Cargo::Copy(c), item: item.clone(), text: None, bytes: bytes.clone(), hops: 0 }, true);
                                }
                                if x >> 10 & 7 == 0 {
                                    let f = d.data.def_format.clone();
                                    let text = observe::format_text(&f);
                                    let mut b = vec![0; 3];
                                    b.extend_from_slice(text.as_bytes());
                                    put(&sh, k, Parcel { from, n, what: Cargo::Def(f), item: Item::Format(text), text: None, bytes: b, hops: 0 }, true);
                                }
                            }
                            let text = (x >> 32 & 7 == 0).then(|| observe::render_all(&m));
                            put(&sh, k, Parcel { from, n, what: Cargo::Msg(m), item, text, bytes, hops: 0 }, true);
                            n += 1;
                        }
                    }
                    sched::point();
                }
                // The parser goes away while its messages live on.
                alloc::enter(|| drop(p));
            }
            *sh.producing.lock().unwrap() -= 1;
            sched::wake();
        }));
    }
    for c in 0..consumers {
        let (sh, plan) = (sh.clone(), s.logs[0].write.clone());
        bodies.push(Box::new(move || {
            let me = s_me(c);
            let mut w = SimWriter::new(100 + c as u64, &WritePlan { faults: vec![], cap: None, ..plan });
            let mut kept: BTreeMap<u64, Parcel> = BTreeMap::new();
            let mut i = 0u64;
            loop {
                let ok = sched::wait_until(|| !sh.qs[c].lock().unwrap().items.is_empty() || *sh.producing.lock().unwrap() == 0);
                let got = sh.qs[c].lock().unwrap().items.pop_front();
                sched::wake();
                i += 1;
                let x = mix2(sh.seed ^ me, i);
                match got {
                    Some(mut p) => {
                        check(&sh, &p, c, &mut w);
                        match x % 8 {
                            0 | 1 => {
                                kept.insert(x, p);
                            }
                            2 if p.hops < 3 => {
                                p.hops += 1;
                                let k = (x >> 30) as usize % sh.qs.len();
                                put(&sh, k, p, false);
                            }
                            3 => {
                                // A copy for somebody else, whatever becomes of ours.
                                let copy = match &p.what {
                                    Cargo::Msg(UlogMessage::LoggedData(d)) => Some(alloc::enter(|| d.clone())),
                                    Cargo::Copy(d) => Some(alloc::enter(|| d.clone())),
                                    _ => None,
                                };
                                if let (Some(d), true) = (copy, p.hops < 3) {
                                    let k = (x >> 30) as usize % sh.qs.len();
                                    let q = Parcel { from: p.from, n: p.n, what: Cargo::Copy(d), item: p.item.clone(), text: None, bytes: p.bytes.clone(), hops: p.hops + 1 };
                                    put(&sh, k, q, false);
                                }
                                if x >> 50 & 1 == 0 {
                                    kept.insert(x, p);
                                }
                            }
                            _ => drop(p),
                        }
                    }
                    None => {
                        if *sh.producing.lock().unwrap() == 0 {
                            break;
                        }
                        if !ok {
                            break;
                        }
                    }
                }
                if kept.len() > 3 {
                    let (_, p) = kept.pop_first().unwrap();
                    check(&sh, &p, c, &mut w);
                }
                sched::point();
            }
            for p in kept.into_values() {
                check(&sh, &p, c, &mut w);
                sched::point();
            }
        }));
    }
    let (trace, bad) = sched::run(&s.sched, bodies);
    crate::driver::note_trace(&trace);
    if bad.iter().any(|b| *b) {
        return crate::driver::panicked();
    }
    // Messages sent to a consumer that had already left.
    let mut w = SimWriter::new(999, &WritePlan::default());
    for q in &sh.qs {
        for p in std::mem::take(&mut q.lock().unwrap().items) {
            check(&sh, &p, 999, &mut w);
        }
    }
    let f = sh.fail.lock().unwrap().take();
    match f {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

#[cfg(feature = "arc")]
fn s_me(c: usize) -> u64 {
    0xC0 + ((c as u64) << 32)
}

// ---- C24: parsers on other threads ------------------------------------------------------------

#[cfg(not(feature = "handoff"))]
pub fn c24(_s: &Scenario) -> Res {
    viol("harness", "C24 needs the thread-safe build with parsers that can be sent")
}

/// A parser or stream that nobody is using at the moment, or that has ended.
#[cfg(feature = "handoff")]
struct Desk {
    se: Option<Sess>,
    got: Vec<Got>,
    left: usize,
    busy: bool,
    over: bool,
    fail: Option<String>,
    abandon: Option<u32>,
    /// Who used it last, and how often it changed hands.
    last: usize,
    hands: u64,
}

#[cfg(feature = "handoff")]
pub fn c24(s: &Scenario) -> Res {
    let st: Vec<Stuff> = s.logs.iter().map(stuff).collect();
    let open = |t: usize| {
        let log = &s.logs[t];
        let rd = reader(log, &st[t].b, st[t].bytes.clone(), t as u64);
        Sess::open(rd.boxed(log.read.buf), &log.iface)
    };
    let mut desks = vec![];
    for (t, log) in s.logs.iter().enumerate() {
        let left = cap_steps(st[t].bytes.len(), log);
        let (se, fail) = match open(t) {
            Ok(se) => (Some(se), None),
            Err(v) => (None, Some(v.detail)),
        };
        let over = fail.is_some();
        desks.push(Desk { se, got: vec![], left, busy: false, over, fail, abandon: log.abandon, last: usize::MAX, hands: 0 });
    }
    let desks = Arc::new(Mutex::new(desks));
    let threads = (s.n[0] as usize).max(2);
    let burst = s.n[1].max(1);
    let mut bodies: Vec<sched::Body> = vec![];
    for me in 0..threads {
        let desks = desks.clone();
        let seed = mix2(s.sched.seed ^ 0xC24, me as u64);
        // Some threads do a little work and go.
        let quit = if s.n[2] == 1 && me > 0 { 3 + seed % 10 } else { u64::MAX };
        bodies.push(Box::new(move || {
            let mut i = 0;
            loop {
                i += 1;
                if i > quit {
                    break;
                }
                let x = mix2(seed, i);
                let ok = sched::wait_until(|| {
                    let d = desks.lock().unwrap();
                    d.iter().any(|d| !d.over && !d.busy) || d.iter().all(|d| d.over)
                });
                let taken = {
                    let mut d = desks.lock().unwrap();
                    let free: Vec<usize> = (0..d.len()).filter(|k| !d[*k].over && !d[*k].busy).collect();
                    if free.is_empty() {
                        if !ok || d.iter().all(|d| d.over) {
                            break;
                        }
                        continue;
                    }
                    let k = free[(x % free.len() as u64) as usize];
                    d[k].busy = true;
                    if d[k].last != me {
                        d[k].last = me;
                        d[k].hands += 1;
                        stats::count(C::Handed);
                    }
                    (k, d[k].se.take(), std::mem::take(&mut d[k].got), d[k].left, d[k].abandon)
                };
                let (k, mut se, mut got, mut left, abandon) = taken;
                let mut over = false;
                let mut fail = None;
                for _ in 0..1 + (x >> 20) % burst {
                    if abandon.is_some_and(|a| got.len() >= a as usize) {
                        stats::count(C::Abandon);
                        over = true;
                        break;
                    }
                    if left == 0 {
                        fail = Some("no end".to_string());
                        over = true;
                        break;
                    }
                    left -= 1;
                    match se.as_mut().unwrap().next() {
                        Some(g) => got.push(g),
                        None => {
                            over = true;
                            break;
                        }
                    }
                }
                if over {
                    // Dropped wherever it happens to be.
                    let gone = se.take();
                    alloc::enter(|| drop(gone));
                }
                {
                    let mut d = desks.lock().unwrap();
                    d[k].se = se;
                    d[k].got = got;
                    d[k].left = left;
                    d[k].fail = fail;
                    d[k].over = over;
                    d[k].busy = false;
                }
                sched::wake();
                sched::point();
            }
        }));
    }
    let (trace, bad) = sched::run(&s.sched, bodies);
    crate::driver::note_trace(&trace);
    let panicked = bad.iter().any(|b| *b);
    let mut d = std::mem::take(&mut *desks.lock().unwrap_or_else(|e| e.into_inner()));
    for (t, log) in s.logs.iter().enumerate() {
        // The same on one thread, without anybody else.
        let mut se = match open(t) {
            Ok(se) => se,
            Err(v) if d[t].fail.as_ref() == Some(&v.detail) => continue,
            Err(v) => return Err(v),
        };
        let want = drain(&mut se, cap_steps(st[t].bytes.len(), log), log.abandon)?;
        if panicked {
            continue;
        }
        if let Some(f) = &d[t].fail {
            return viol("other_thread", format!("parser {t} that changed hands {} times: {f}", d[t].hands));
        }
        if !d[t].over {
            return viol("harness", format!("parser {t} was left alone"));
        }
        let got = std::mem::take(&mut d[t].got);
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return viol(
                "other_thread",
                format!(
                    "parser {t}, which changed hands {} times, gave {} answers instead of {}; answer {k}: {} instead of {}",
                    d[t].hands,
                    got.len(),
                    want.len(),
                    clip(format!("{:?}", got.get(k))),
                    clip(format!("{:?}", want.get(k)))
                ),
            );
        }
        if st[t].intact {
            let exp = wants(log, &st[t].b, &st[t].b.recs);
            let plain: Vec<Got> = got.into_iter().filter(|g| !matches!(g, Got::Err(Some(_), _))).collect();
            if let Err(e) = match_seq(&exp, &plain, log.abandon.is_none()) {
                return viol("other_thread", format!("parser {t}, which changed hands {} times: {e}", d[t].hands));
            }
        }
    }
    if panicked {
        return crate::driver::panicked();
    }
    Ok(())
}
