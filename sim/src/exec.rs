//! Runs one scenario against the real code and decides the property.
use crate::alloc;
use crate::derived;
use crate::io::*;
use crate::model::*;
use crate::observe::{self, Got};
use crate::rng::{mix2, Rng};
use crate::scen::*;
use crate::spec::*;
use crate::stats::{self, C};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;
use yule_log::parser::ULogParser;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail: detail.into() })
}

pub fn clip(s: String) -> String {
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s
    }
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Deepest level of nesting, and whether there is padding.
fn shape(i: &Inst) -> (usize, bool) {
    let mut d = 0;
    let mut p = false;
    for f in &i.fields {
        match &f.2 {
            Val::N(n) => {
                let (a, b) = shape(n);
                d = d.max(a + 1);
                p |= b;
            }
            Val::NA(v) => {
                d = d.max(1);
                for n in v.iter().take(2) {
                    let (a, b) = shape(n);
                    d = d.max(a + 1);
                    p |= b;
                }
            }
            Val::Pad(_) => p = true,
            _ => {}
        }
    }
    (d, p)
}

pub fn note(g: &Option<Got>) {
    match g {
        None => stats::event(0xE0F),
        Some(g) => {
            stats::event(h64(g));
            match g {
                Got::Item(i) => {
                    stats::count(C::Items);
                    match i {
                        Item::Ignored(_) => stats::count(C::Ignored),
                        Item::Data { inst, multi, .. } => {
                            let (d, p) = shape(inst);
                            if d > 0 {
                                stats::count(C::NestedData);
                            }
                            if p {
                                stats::count(C::PadData);
                            }
                            if multi.is_some() {
                                stats::count(C::MultiIdx);
                            }
                        }
                        _ => {}
                    }
                }
                Got::Typed(..) => stats::count(C::Typed),
                Got::Err(..) => stats::count(C::Errors),
            }
        }
    }
}

pub fn open_low(dev: Dev, cfg: &Cfg) -> Result<ULogParser<Dev>, Viol> {
    alloc::enter(|| {
        build_low(dev, cfg).or_else(|e| viol("build_failed", format!("the parser could not be built: {e}")))
    })
}

/// Build a parser with these options, told in one of many ways that mean the same.
fn build_low<R: std::io::Read>(r: R, cfg: &Cfg) -> Result<ULogParser<R>, yule_log::errors::ULogError> {
    let mut b = ULogParserBuilder::new(r);
    let bit = |k: u32| cfg.how >> k & 1 == 1;
    if bit(0) {
        // Other options first; what is said last counts.
        b = b.include_padding(bit(1)).include_header(bit(2)).include_timestamp(bit(3));
    }
    let early = bit(4);
    let set = |b: ULogParserBuilder<R>| match (&cfg.allow, cfg.old_setter) {
        (Some(a), false) => {
            let b = match cfg.how >> 5 & 7 {
                1 => b.set_subscription_allow_list(["another_one"]),
                2 => b.set_subscription_allow_list(Vec::<String>::new()),
                3 => b.set_subscription_allow_list(a.iter().map(|s| format!("{s}x"))),
                4 => b.set_subscription_allow_list(a.iter().skip(1).cloned()),
                _ => b,
            };
            match cfg.how >> 8 & 3 {
                0 => b.set_subscription_allow_list(a.iter().cloned()),
                1 => b.set_subscription_allow_list(a.iter().map(|s| s.as_str())),
                2 => b.set_subscription_allow_list(a.iter().chain(a.iter()).cloned()),
                _ => b.set_subscription_allow_list(a.iter().rev().cloned().collect::<std::collections::BTreeSet<_>>()),
            }
        }
        // The setter's word comes after the builder's.
        (Some(_), true) if bit(13) => b.set_subscription_allow_list(["another_one"]),
        _ => b,
    };
    if early {
        b = set(b);
    }
    b = match cfg.how >> 10 & 3 {
        0 => b.include_header(cfg.header).include_timestamp(cfg.ts).include_padding(cfg.pad),
        1 => b.include_padding(cfg.pad).include_timestamp(cfg.ts).include_header(cfg.header),
        2 => b.include_timestamp(cfg.ts).include_header(cfg.header).include_padding(cfg.pad),
        _ => {
            // What is never said is off.
            for (on, k) in [(cfg.ts, 0), (cfg.pad, 1), (cfg.header, 2)] {
                if on || bit(0) {
                    b = match k {
                        0 => b.include_timestamp(on),
                        1 => b.include_padding(on),
                        _ => b.include_header(on),
                    };
                }
            }
            b
        }
    };
    if !early {
        b = set(b);
    }
    let mut p = b.build()?;
    if let (Some(a), true) = (&cfg.allow, cfg.old_setter) {
        #[allow(deprecated)]
        {
            if bit(12) {
                p.set_subscription_allow_list(["another_one".to_string()].into_iter().collect());
            }
            p.set_subscription_allow_list(a.iter().cloned().collect());
        }
    }
    Ok(p)
}

pub fn got_of(r: &Option<Result<UlogMessage, yule_log::errors::ULogError>>) -> Option<Got> {
    match r {
        None => None,
        Some(Ok(m)) => Some(Got::Item(observe::message(m))),
        Some(Err(e)) => Some(observe::err(e)),
    }
}

/// A stream of answers, whichever interface it comes from.
pub struct Sess {
    next: derived::Stream,
}

impl Sess {
    pub fn open(dev: Dev, iface: &Iface) -> Result<Sess, Viol> {
        match iface {
            Iface::Low(cfg) => {
                let mut p = open_low(dev, cfg)?;
                let (relist, mut asked) = (cfg.relist.clone(), 0);
                Ok(Sess {
                    next: Box::new(move |k| {
                        for l in relist.iter().filter(|l| l.0 as usize == asked) {
                            #[allow(deprecated)]
                            p.set_subscription_allow_list(l.1.iter().cloned().collect());
                        }
                        asked += 1;
                        let (r, h) = alloc::enter(|| derived::ask(&mut p, k));
                        (got_of(&r), h)
                    }),
                })
            }
            Iface::Derived(d) => match derived::open(dev, d) {
                Ok(s) => Ok(Sess { next: s }),
                Err(e) => viol("build_failed", format!("the derived stream could not be built: {e}")),
            },
        }
    }
    pub fn next(&mut self) -> Option<Got> {
        let g = (self.next)(0).0;
        note(&g);
        g
    }
    /// The answer after the next `k`, and how many the iterator claimed to have left.
    pub fn nth(&mut self, k: usize) -> (Option<Got>, derived::Hint) {
        let g = (self.next)(k);
        note(&g.0);
        g
    }
}

pub fn frames(b: &Built) -> BTreeMap<u64, u64> {
    b.recs.iter().map(|r| (r.start as u64, r.end as u64)).collect()
}

pub fn reader(log: &LogInst, b: &Built, bytes: Arc<Vec<u8>>, tag: u64) -> SimReader {
    let fr = if log.read.faults.is_empty() { BTreeMap::new() } else { frames(b) };
    SimReader::new(tag, bytes, &log.read, |p| b.abs(p).map(|x| x as u64), &fr)
}

pub fn wants(log: &LogInst, b: &Built, recs: &[Rec]) -> Vec<Want> {
    let n = recs.iter().take_while(|r| b.before_limit(r)).count();
    let recs = &recs[..n];
    match &log.iface {
        Iface::Low(c) => expected(recs, c),
        Iface::Derived(d) => expected_derived(recs, &b.formats, d),
    }
}

fn matches(e: &Exp, g: &Got) -> bool {
    match (e, g) {
        (Exp::Item(a), Got::Item(b)) => a == b,
        (Exp::Typed(v, f), Got::Typed(w, h)) => v == w && f == h,
        (Exp::Err, Got::Err(None, _)) => true,
        (Exp::Any, Got::Err(Some(_), _)) => false,
        (Exp::Any, _) => true,
        (Exp::AnyErr, Got::Err(..)) => true,
        _ => false,
    }
}

/// Compare the recorded answers with the expected ones. `whole`: all must have been given.
pub fn match_seq(want: &[Want], got: &[Got], whole: bool) -> Result<(), String> {
    let mut cur: BTreeSet<usize> = BTreeSet::new();
    cur.insert(0);
    let close = |s: &mut BTreeSet<usize>| {
        let mut add: Vec<usize> = s.iter().copied().collect();
        while let Some(i) = add.pop() {
            if i < want.len() && want[i].optional && s.insert(i + 1) {
                add.push(i + 1);
            }
        }
    };
    close(&mut cur);
    for (k, g) in got.iter().enumerate() {
        let mut nx = BTreeSet::new();
        for &i in &cur {
            if i < want.len() && want[i].alts.iter().any(|e| matches(e, g)) {
                nx.insert(i + 1);
            }
        }
        if nx.is_empty() {
            let exp: Vec<String> = cur
                .iter()
                .take(2)
                .map(|&i| match want.get(i) {
                    None => "the end".to_string(),
                    Some(w) => clip(format!("{:?}", w.alts)),
                })
                .collect();
            return Err(format!("answer {k}: expected {}, got {}", exp.join(" or "), clip(format!("{g:?}"))));
        }
        close(&mut nx);
        cur = nx;
    }
    if whole && !cur.contains(&want.len()) {
        let i = cur.iter().next_back().copied().unwrap_or(0);
        return Err(format!(
            "after {} answers it ended, but expected {}",
            got.len(),
            clip(format!("{:?}", want.get(i).map(|w| &w.alts)))
        ));
    }
    Ok(())
}

pub fn cap_steps(bytes: usize, log: &LogInst) -> usize {
    bytes + log.read.faults.iter().map(|f| f.times as usize).sum::<usize>() + 64
}

/// Does the same log, faithfully stored and delivered at once, already differ from what it should
/// give? Then a difference under faults says nothing about the faults.
fn differs_anyway(log: &LogInst, bytes: &[u8], want: &[Want]) -> Result<bool, Viol> {
    differs_from(SimReader::simple(Arc::new(bytes.to_vec()), Chunk::All), log, bytes, want)
}

/// An error that says a read failed, as the simulated reader puts it.
fn failed_read(g: &Got) -> bool {
    matches!(g, Got::Err(Some(_), _))
}

fn differs_from(rd: SimReader, log: &LogInst, bytes: &[u8], want: &[Want]) -> Result<bool, Viol> {
    let mut plain = LogInst::new(log.spec.clone(), log.iface.clone());
    plain.read.chunk = Chunk::All;
    plain.read.faults = log.read.faults.clone();
    let mut se = Sess::open(rd.boxed(None), &log.iface)?;
    let bad = match drain(&mut se, cap_steps(bytes.len(), &plain), None) {
        Ok(mut got) => {
            got.retain(|g| !failed_read(g));
            match_seq(want, &got, true).is_err()
        }
        Err(_) => true,
    };
    if bad {
        stats::count(C::Anyway);
    }
    Ok(bad)
}

/// All answers until the end (or until `abandon`).
pub fn drain(s: &mut Sess, cap: usize, abandon: Option<u32>) -> Result<Vec<Got>, Viol> {
    let mut out = vec![];
    loop {
        if let Some(a) = abandon {
            if out.len() >= a as usize {
                stats::count(C::Abandon);
                return Ok(out);
            }
        }
        match s.next() {
            None => return Ok(out),
            Some(g) => out.push(g),
        }
        if out.len() > cap {
            return viol("no_end", format!("no end after {cap} answers"));
        }
    }
}

pub fn run(s: &Scenario) -> Res {
    match s.prop.as_str() {
        "C01" => c01(s),
        "C02" => c02(s),
        "C03" => c03(s),
        "C04" => c04(s),
        "C05" => c05(s),
        "C06" => c06(s),
        "C07" => c07(s),
        "C08" => c08(s),
        "C09" => c09(s),
        "C10" => c10(s),
        "C11" => c11(s),
        "C12" => c12(s),
        "C13" => c13(s),
        "C14" => crate::multi::c14(s),
        "C15" => crate::multi::c15(s),
        "C16" => crate::stdio::c16(s),
        "C17" => c17(s),
        "C18" => c18(s),
        "C19" => c19(s),
        "C23" => c23(s),
        "C24" => crate::multi::c24(s),
        "C25" => c25(s),
        p => viol("unknown_property", p),
    }
}

fn probes(b: &Built) {
    let mut seen: BTreeMap<u16, u32> = BTreeMap::new();
    for r in &b.recs {
        if r.end - r.start > 60000 {
            stats::count(C::BigMsg);
        }
        if let Some((id, Some(_))) = &r.sub {
            *seen.entry(*id).or_default() += 1;
        }
        match &r.exp {
            Exp::Item(Item::Data { id, .. }) if seen.get(id).copied().unwrap_or(0) > 1 => stats::count(C::Redirect),
            Exp::Err => stats::count(C::BadId),
            _ => {}
        }
    }
}

// ---- C01: re-emission -------------------------------------------------------------------------

fn c01(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        probes(&b);
        let bytes = Arc::new(b.bytes.clone());
        let rd = reader(log, &b, bytes.clone(), t as u64);
        let mut p = open_low(rd.boxed(log.read.buf), &Cfg::full())?;
        let mut w = SimWriter::new(t as u64, &log.write);
        let mut n = 0;
        loop {
            let r = alloc::enter(|| p.next());
            note(&got_of(&r));
            match r {
                None => break,
                Some(Err(e)) => return viol("error_on_good_log", format!("answer {n} is an error on a well-formed log: {e}")),
                Some(Ok(m)) => {
                    if let Err(e) = alloc::enter(|| m.encode(&mut w)) {
                        return viol("encode_failed", format!("encoding message {n} ({:?}) failed: {e}", observe::message(&m).kind()));
                    }
                }
            }
            n += 1;
            if n > b.recs.len() + 4 {
                return viol("no_end", "more messages than the log has");
            }
        }
        let out = w.out();
        let whole = &b.bytes[..b.content_end()];
        if out != whole {
            let at = out.iter().zip(whole).position(|(x, y)| x != y).unwrap_or(out.len().min(whole.len()));
            let rec = b.recs.iter().find(|r| at < r.end).map(|r| r.kind).unwrap_or("end");
            return viol(
                "bytes_differ",
                format!("re-emitted {} bytes of {}; first difference at byte {at}, in a {rec} message", out.len(), whole.len()),
            );
        }
    }
    Ok(())
}

// ---- C02: decoding ----------------------------------------------------------------------------

fn c02(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        probes(&b);
        let bytes = Arc::new(b.bytes.clone());
        let want = wants(log, &b, &b.recs);
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            return viol("wrong_message", e);
        }
        // The same bytes all at once.
        let mut se = Sess::open(Dev::Raw(SimReader::simple(bytes.clone(), Chunk::All)), &log.iface)?;
        let again = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if again != got {
            return viol("delivery_matters", "handing the same bytes over differently gave different messages");
        }
        leaps(s, log, &bytes, &got)?;
    }
    Ok(())
}

/// The same answers are found by leaping forward with `nth`, and the iterator never promises more
/// answers than there are, nor fewer.
fn leaps(s: &Scenario, log: &LogInst, bytes: &Arc<Vec<u8>>, got: &[Got]) -> Res {
    let x = mix2(s.seed, 0x1eaf);
    if x % 4 != 0 {
        return Ok(());
    }
    let mut se = Sess::open(Dev::Raw(SimReader::simple(bytes.clone(), Chunk::All)), &log.iface)?;
    let (mut at, mut n) = (0, 0);
    while at <= got.len() {
        n += 1;
        let k = (mix2(x, n) % [2, 4, 12][(x >> 10) as usize % 3]) as usize;
        let (g, hint) = se.nth(k);
        if hint.0 > got.len() - at || hint.1.is_some_and(|m| m < got.len() - at) {
            return viol("wrong_promise", format!("before answer {at} of {} the iterator promised {hint:?} more", got.len()));
        }
        at += k;
        if g.as_ref() != got.get(at) {
            return viol("leap_differs", format!("nth({k}) gave {} for answer {at}, next() {}", clip(format!("{g:?}")), clip(format!("{:?}", got.get(at)))));
        }
        at += 1;
    }
    Ok(())
}

// ---- C03: truncation --------------------------------------------------------------------------

fn c03(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let cut = log.cut.and_then(|p| b.abs(p)).unwrap_or(b.bytes.len());
        let bytes = Arc::new(b.bytes[..cut].to_vec());
        let whole: Vec<Rec> = b.content().into_iter().filter(|r| r.end <= cut).collect();
        let mut want = if cut < 16 { vec![] } else { wants(log, &b, &whole) };
        let err = |optional| Want { rec: 0, alts: vec![Exp::AnyErr], optional };
        let torn = b.recs.iter().find(|r| r.start < cut && cut < r.end);
        if cut < b.bytes.len() {
            stats::count(C::Cut);
        }
        if cut < 16 {
            stats::count(C::CutInFileHeader);
            want.push(err(cut == 0));
        } else if let Some(r) = torn {
            let in_header = cut - r.start < 3;
            stats::count(if in_header { C::CutInFrameHeader } else { C::CutInBody });
            want.push(err(in_header || !b.before_limit(r)));
        }
        if cut < 16 || torn.is_some() {
            for _ in 0..3 {
                want.push(err(true));
            }
        }
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            let place = match torn {
                _ if cut < 16 => "the file header".to_string(),
                Some(r) => format!("byte {} of a {} message of {} bytes", cut - r.start, r.kind, r.end - r.start),
                None => "a message boundary".into(),
            };
            return viol("wrong_after_cut", format!("log cut at byte {cut} ({place}): {e}"));
        }
        for _ in 0..3 {
            if let Some(Got::Item(_) | Got::Typed(..)) = se.next() {
                return viol("message_after_cut", "a message was yielded after the end of the cut log");
            }
        }
    }
    Ok(())
}

// ---- C04: failing reads -----------------------------------------------------------------------

fn c04(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let bytes = Arc::new(b.bytes.clone());
        let want = wants(log, &b, &b.recs);
        let rd = reader(log, &b, bytes.clone(), t as u64);
        let st = rd.st.clone();
        let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
        let mut got = vec![];
        let mut io = vec![];
        let cap = cap_steps(bytes.len(), log);
        let mut n = 0;
        loop {
            n += 1;
            if n > cap {
                return viol("no_end", format!("no end after {cap} answers"));
            }
            match se.next() {
                None => {
                    // A failure must not have been taken for the end of the log.
                    let left = { let g = st.lock().unwrap(); (b.content_end() as u64).saturating_sub(g.pos) };
                    if left > 0 {
                        return viol("failure_taken_for_end", format!("iteration ended with {left} bytes of the log unread"));
                    }
                    break;
                }
                Some(Got::Err(Some(k), text)) => io.push((k, text)),
                Some(g) => got.push(g),
            }
        }
        let fired = st.lock().unwrap().fired.clone();
        if let Err(e) = match_seq(&want, &got, true) {
            let at: Vec<String> = fired.iter().map(|f| f.0.to_string()).collect();
            return viol("not_exactly_once", format!("read failures at bytes {}: {e}", at.join(",")));
        }
        let exp: Vec<(ErrorKind, String)> = fired.iter().map(|(p, k)| (kind(*k), fault_text(*p))).collect();
        if exp.len() != io.len() {
            return viol("failure_not_reported", format!("{} reads failed, {} I/O errors were reported", exp.len(), io.len()));
        }
        for (e, g) in exp.iter().zip(&io) {
            if e.0 != g.0 || !g.1.contains(&e.1) {
                return viol("wrong_error", format!("the reader failed with {e:?}, reported was {g:?}"));
            }
        }
    }
    Ok(())
}

// ---- C05: encoding ----------------------------------------------------------------------------

/// Encode something with its own faulty writer and judge the outcome.
fn encode_check(what: &str, plan: &WritePlan, exact: &[u8], enc: impl FnOnce(&mut SimWriter) -> std::io::Result<()>) -> Res {
    let mut plan = plan.clone();
    for f in &mut plan.faults {
        f.at %= exact.len() as u64 + 1;
    }
    if let Some(c) = &mut plan.cap {
        *c %= exact.len() as u64 + 1;
    }
    let mut w = SimWriter::new(7, &plan);
    let r = alloc::enter(|| enc(&mut w));
    let out = w.out();
    match r {
        Ok(()) => {
            if out != exact {
                let at = out.iter().zip(exact).position(|(x, y)| x != y).unwrap_or(out.len().min(exact.len()));
                return viol(
                    "false_success",
                    format!("encoding {what} returned success but the writer took {} bytes of {} (first difference at {at})", out.len(), exact.len()),
                );
            }
            if w.fired() > 0 {
                return viol("write_failure_hidden", format!("the writer failed while {what} was encoded, yet success was returned"));
            }
        }
        Err(e) => {
            if !exact.starts_with(&out) {
                return viol("not_a_prefix", format!("after the failed encoding of {what} the writer holds bytes that are no prefix of the message"));
            }
            if w.fired() == 0 {
                return viol("needless_failure", format!("encoding {what} failed although the writer never did: {e}"));
            }
        }
    }
    Ok(())
}

fn c05(s: &Scenario) -> Res {
    if s.fam == "oversize" {
        return c05_oversize(s);
    }
    for log in &s.logs {
        let b = log.built();
        let bytes = Arc::new(b.bytes.clone());
        let mut p = open_low(Dev::Raw(SimReader::simple(bytes.clone(), Chunk::All)), &Cfg::full())?;
        for (i, r) in b.content().iter().enumerate() {
            let Some(Ok(m)) = alloc::enter(|| p.next()) else {
                return viol("error_on_good_log", "a well-formed log could not be read");
            };
            let mut plan = log.write.clone();
            plan.seed = mix2(plan.seed, i as u64);
            for (k, f) in plan.faults.iter_mut().enumerate() {
                f.at = f.at.wrapping_add(mix2(plan.seed, 99 + k as u64) % 7);
                if mix2(plan.seed, 55 + k as u64) % 4 == 0 {
                    f.times = 0;
                }
            }
            let frame = &b.bytes[r.start..r.end];
            let body = &b.bytes[r.body()..r.end];
            encode_check(&format!("a {} message", r.kind), &plan, frame, |w| m.encode(w))?;
            let part = format!("the content of a {} message", r.kind);
            match &m {
                UlogMessage::FlagBits(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                UlogMessage::FormatDefinition(x) => {
                    encode_check(&part, &plan, body, |w| x.encode(w))?;
                    for f in &x.fields {
                        let t = format!("{} {}", observe::type_text(&f.r#type), f.name);
                        encode_check("a field definition", &plan, t.as_bytes(), |w| f.encode(w))?;
                        encode_check("a type", &plan, observe::type_text(&f.r#type).as_bytes(), |w| f.r#type.encode(w))?;
                        encode_check("a base type", &plan, observe::base_text(&f.r#type.base_type).as_bytes(), |w| {
                            f.r#type.base_type.encode(w)
                        })?;
                    }
                }
                UlogMessage::LoggedData(x) => {
                    encode_check(&part, &plan, body, |w| x.encode(w))?;
                    encode_check("a data instance", &plan, &body[2..], |w| x.data.encode(w))?;
                    let mut at = 2;
                    for f in &x.data.fields {
                        let n = observe::raw(observe::value(&f.value)).len();
                        encode_check("a data field", &plan, &body[at..at + n], |w| f.encode(w))?;
                        encode_check("a field value", &plan, &body[at..at + n], |w| (&f.value).encode(w))?;
                        at += n;
                    }
                }
                UlogMessage::AddSubscription(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                UlogMessage::Info(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                UlogMessage::MultiInfo(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                UlogMessage::Parameter(x) => {
                    encode_check(&part, &plan, body, |w| x.encode(w))?;
                    encode_check("a parameter value", &plan, &body[body.len() - 4..], |w| x.value.encode(w))?;
                }
                UlogMessage::DefaultParameter(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => {
                    encode_check(&part, &plan, body, |w| x.encode(w))?;
                    encode_check("a log level", &plan, &body[..1], |w| x.level.encode(w))?;
                }
                UlogMessage::DropoutMark(x) => encode_check(&part, &plan, body, |w| x.encode(w))?,
                _ => {}
            }
        }
    }
    Ok(())
}

/// Messages that do not fit the length fields, or only just do.
fn c05_oversize(s: &Scenario) -> Res {
    use yule_log::model::{def, inst, msg};
    let (which, size) = (s.n[0], s.n[1] as usize);
    let plan = &s.logs[0].write;
    let key = |n: usize| "k".repeat(n);
    let ty = |b: def::BaseType| def::TypeExpr { base_type: b, array_size: None };
    let arr = |n: usize| def::TypeExpr { base_type: def::BaseType::UINT8, array_size: Some(n) };
    // (message, exact bytes if it fits)
    let frame = |t: u8, body: Vec<u8>| -> Option<Vec<u8>> {
        (body.len() <= 65535).then(|| {
            let mut f = (body.len() as u16).to_le_bytes().to_vec();
            f.push(t);
            f.extend_from_slice(&body);
            f
        })
    };
    let keyed = |pre: &[u8], k: String, val: &[u8]| -> Option<Vec<u8>> {
        (k.len() <= 255).then(|| {
            let mut v = pre.to_vec();
            v.push(k.len() as u8);
            v.extend_from_slice(k.as_bytes());
            v.extend_from_slice(val);
            v
        })
    };
    let fill: Vec<u8> = (0..size).map(|i| (i % 251) as u8).collect();
    let (m, exact): (UlogMessage, Option<Vec<u8>>) = match which % 12 {
        0 => (UlogMessage::Unhandled { msg_type: b'X', message_contents: fill.clone() }, frame(b'X', fill.clone())),
        1 => {
            let t = "a".repeat(size);
            let mut body = vec![b'3'];
            body.extend_from_slice(&5u64.to_le_bytes());
            body.extend_from_slice(t.as_bytes());
            (
                UlogMessage::LoggedString(msg::LoggedString { level: msg::LogLevel::Err, tag: None, timestamp: 5, msg: t }),
                frame(b'L', body),
            )
        }
        2 => {
            let t = "a".repeat(size);
            let mut body = vec![b'3', 9, 0];
            body.extend_from_slice(&5u64.to_le_bytes());
            body.extend_from_slice(t.as_bytes());
            (
                UlogMessage::TaggedLoggedString(msg::LoggedString { level: msg::LogLevel::Err, tag: Some(9), timestamp: 5, msg: t }),
                frame(b'C', body),
            )
        }
        3 => {
            let n = key(size);
            let mut body = vec![1, 2, 0];
            body.extend_from_slice(n.as_bytes());
            (UlogMessage::AddSubscription(msg::Subscription { multi_id: 1, msg_id: 2, message_name: n }), frame(b'A', body))
        }
        4 => {
            let k = key(size % 600);
            let kt = format!("int32_t {k}");
            let body = keyed(&[], kt, &7i32.to_le_bytes());
            (
                UlogMessage::Parameter(msg::Parameter { key: k, r#type: ty(def::BaseType::INT32), value: inst::ParameterValue::INT32(7) }),
                body.and_then(|b| frame(b'P', b)),
            )
        }
        5 => {
            let k = key(size % 600);
            let kt = format!("float {k}");
            let body = keyed(&[2], kt, &7f32.to_le_bytes());
            (
                UlogMessage::DefaultParameter(msg::DefaultParameter {
                    key: k,
                    default_types: 2,
                    r#type: ty(def::BaseType::FLOAT),
                    value: inst::ParameterValue::FLOAT(7.0),
                }),
                body.and_then(|b| frame(b'Q', b)),
            )
        }
        6 => {
            let k = key(size % 600);
            let kt = format!("double {k}");
            let body = keyed(&[], kt, &7f64.to_le_bytes());
            (
                UlogMessage::Info(msg::Info { key: k, r#type: ty(def::BaseType::DOUBLE), value: inst::FieldValue::ScalarF64(7.0) }),
                body.and_then(|b| frame(b'I', b)),
            )
        }
        7 => {
            let k = key(size % 600);
            let kt = format!("bool {k}");
            let body = keyed(&[1], kt, &[1]);
            (
                UlogMessage::MultiInfo(msg::MultiInfo {
                    is_continued: true,
                    key: k,
                    r#type: ty(def::BaseType::BOOL),
                    value: inst::FieldValue::ScalarBool(true),
                }),
                body.and_then(|b| frame(b'M', b)),
            )
        }
        8 | 9 => {
            let kt = format!("uint8_t[{size}] k");
            let multi = which % 12 == 9;
            let body = keyed(if multi { &[0] } else { &[] }, kt, &fill);
            let v = inst::FieldValue::ArrayU8(fill.clone());
            if multi {
                (
                    UlogMessage::MultiInfo(msg::MultiInfo { is_continued: false, key: "k".into(), r#type: arr(size), value: v }),
                    body.and_then(|b| frame(b'M', b)),
                )
            } else {
                (UlogMessage::Info(msg::Info { key: "k".into(), r#type: arr(size), value: v }), body.and_then(|b| frame(b'I', b)))
            }
        }
        10 => {
            let name = key(size);
            let f = def::Format {
                name: name.clone().into(),
                fields: vec![def::Field { name: "x".into(), r#type: ty(def::BaseType::BOOL) }],
                padding: 0,
            };
            (UlogMessage::FormatDefinition(f), frame(b'F', format!("{name}:bool x;").into_bytes()))
        }
        _ => {
            let f = def::Format {
                name: "m".into(),
                fields: vec![
                    def::Field { name: "timestamp".into(), r#type: ty(def::BaseType::UINT64) },
                    def::Field { name: "d".into(), r#type: arr(size) },
                ],
                padding: 0,
            };
            let i = inst::Format {
                timestamp: Some(1),
                name: "m".into(),
                fields: vec![
                    inst::Field { name: "timestamp".into(), r#type: ty(def::BaseType::UINT64), value: inst::FieldValue::ScalarU64(1) },
                    inst::Field { name: "d".into(), r#type: arr(size), value: inst::FieldValue::ArrayU8(fill.clone()) },
                ],
                multi_id_index: None,
                def_format: f.into(),
            };
            let mut body = vec![3, 0];
            body.extend_from_slice(&1u64.to_le_bytes());
            body.extend_from_slice(&fill);
            (UlogMessage::LoggedData(msg::LoggedData { timestamp: 1, msg_id: 3, data: i }), frame(b'D', body))
        }
    };
    let what = format!("a message of kind {} and size {size}", which % 12);
    match exact {
        Some(x) => encode_check(&what, plan, &x, |w| m.encode(w)),
        None => {
            stats::count(C::AllocRefused);
            let mut w = SimWriter::new(7, &WritePlan { chunk: plan.chunk, ..Default::default() });
            match alloc::enter(|| m.encode(&mut w)) {
                Err(_) => Ok(()),
                Ok(()) => viol("oversize_accepted", format!("{what} does not fit its length field, but encoding it returned success ({} bytes written)", w.len())),
            }
        }
    }
}

// ---- C06: contained damage --------------------------------------------------------------------

fn c06(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (bytes, hit) = damaged(&b, &log.damage, true);
        stats::add(C::Damage, hit.len() as u64);
        let bytes = Arc::new(bytes);
        let mut recs = b.recs.clone();
        for r in recs.iter_mut() {
            if hit.contains(&r.uid) {
                r.exp = Exp::Any;
            }
        }
        let mut want = wants(log, &b, &recs);
        for w in want.iter_mut() {
            if w.alts == [Exp::Any] {
                w.optional = true;
            }
        }
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            if differs_anyway(log, &b.bytes, &wants(log, &b, &b.recs))? {
                continue;
            }
            let kinds: Vec<&str> = b.recs.iter().filter(|r| hit.contains(&r.uid)).map(|r| r.kind).collect();
            return viol("damage_spread", format!("damaged content of {kinds:?}: {e}"));
        }
        let errs = got.iter().filter(|g| matches!(g, Got::Err(..))).count();
        stats::add(if errs > 0 { C::DamagedMessageErr } else { C::DamagedMessageItem }, !hit.is_empty() as u64);
    }
    Ok(())
}

// ---- C23: damaged definitions -----------------------------------------------------------------

/// Damage inside definitions and subscriptions, never where a message says which name or id it
/// defines: what is left of a format's colon and the id of a subscription stay.
fn damaged_defs(b: &Built, d: &[Damage]) -> (Vec<u8>, Vec<u32>) {
    let mut bytes = b.bytes.clone();
    let mut hit = BTreeSet::new();
    for d in d {
        let Some(r) = b.rec(d.at.uid) else { continue };
        let body = r.body();
        let mut a = r.start + (d.at.byte as usize).min(r.end - r.start);
        let (lo, hi) = match (r.kind, &r.exp) {
            ("format", Exp::Item(Item::Format(_))) => match b.bytes[body..r.end].iter().position(|c| *c == b':') {
                Some(k) => (body + k + 1, r.end),
                None => continue,
            },
            ("sub", Exp::Item(Item::Sub { .. })) if a < body + 3 => (body, body + 1),
            ("sub", Exp::Item(Item::Sub { .. })) => (body + 3, r.end),
            _ => continue,
        };
        if lo >= hi {
            continue;
        }
        a = a.clamp(lo, hi - 1);
        let part = &mut bytes[a..hi];
        let before = part.to_vec();
        match &d.op {
            DOp::Flip(m) => part[0] ^= m,
            DOp::Set(s) => {
                let n = s.len().min(part.len());
                part[..n].copy_from_slice(&s[..n]);
            }
            DOp::Fill { len, byte } => {
                let n = (*len as usize).min(part.len());
                part[..n].fill(*byte);
            }
            DOp::Rand { len, seed } => {
                let mut r = Rng::new(*seed);
                let n = (*len as usize).min(part.len());
                part[..n].iter_mut().for_each(|x| *x = r.next() as u8);
            }
            _ => continue,
        }
        if before != part {
            hit.insert(d.at.uid);
        }
    }
    (bytes, hit.into_iter().collect())
}

fn c23(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (bytes, hit) = damaged_defs(&b, &log.damage);
        // Formats by what they are made of, over all definitions of the log.
        let mut uses: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
        for o in &log.spec.ops {
            if let K::Format(f) = &o.k {
                let e = uses.entry(&f.name).or_default();
                e.extend(f.fields.iter().filter_map(|x| if let Ty::N(n) = &x.ty { Some(n.as_str()) } else { None }));
            }
        }
        let mut names: BTreeSet<String> = BTreeSet::new();
        let mut ids: BTreeSet<u16> = BTreeSet::new();
        let mut recs = b.recs.clone();
        let mut first = true;
        let mut affected = 0;
        for r in recs.iter_mut() {
            let is_hit = hit.contains(&r.uid);
            match &r.sub {
                Some((id, Some((_, name)))) => {
                    if first && (is_hit || names.contains(name)) {
                        // Where the data section begins is then a matter of opinion.
                        return Ok(());
                    }
                    first = false;
                    ids.remove(id);
                    if is_hit {
                        names.insert(name.clone());
                        names.insert(String::from_utf8_lossy(&bytes[r.body() + 3..r.end]).into_owned());
                        ids.insert(*id);
                        r.exp = Exp::Any;
                    } else if names.contains(name) {
                        ids.insert(*id);
                        r.exp = Exp::Any;
                        affected += 1;
                    }
                    continue;
                }
                Some((id, None)) => {
                    ids.remove(id);
                    continue;
                }
                None => {}
            }
            if is_hit {
                let text = &b.bytes[r.body()..r.end];
                let name = text.split(|c| *c == b':').next().unwrap_or(&[]);
                names.insert(String::from_utf8_lossy(name).into_owned());
                loop {
                    let n = names.len();
                    for (k, v) in &uses {
                        if v.iter().any(|x| names.contains(*x)) {
                            names.insert(k.to_string());
                        }
                    }
                    if names.len() == n {
                        break;
                    }
                }
                r.exp = Exp::Any;
            } else if r.kind == "data" {
                let id = u16::from_le_bytes([b.bytes[r.body()], b.bytes[r.body() + 1]]);
                let named = matches!(&r.exp, Exp::Item(Item::Data { inst, .. }) if names.contains(&inst.name));
                if named || ids.contains(&id) {
                    r.exp = Exp::Any;
                    affected += 1;
                }
            }
        }
        stats::add(C::Damage, hit.len() as u64);
        stats::add(C::Dependent, affected);
        let want = wants(log, &b, &recs);
        let bytes = Arc::new(bytes);
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            if differs_anyway(log, &b.bytes, &wants(log, &b, &b.recs))? {
                continue;
            }
            let kinds: Vec<&str> = b.recs.iter().filter(|r| hit.contains(&r.uid)).map(|r| r.kind).collect();
            return viol("damage_spread", format!("damaged {kinds:?}: {e}"));
        }
        let errs = got.iter().filter(|g| matches!(g, Got::Err(..))).count();
        stats::add(if errs > 0 { C::DamagedMessageErr } else { C::DamagedMessageItem }, !hit.is_empty() as u64);
    }
    Ok(())
}

// ---- C25: messages stay what they were --------------------------------------------------------

struct Kept {
    n: usize,
    m: UlogMessage,
    item: Item,
    text: String,
    bytes: Result<Vec<u8>, String>,
}

fn encoded(m: &UlogMessage) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    match alloc::enter(|| m.encode(&mut v)) {
        Ok(()) => Ok(v),
        Err(e) => Err(format!("{:?} {e}", e.kind())),
    }
}

fn still(k: &Kept, when: &str) -> Res {
    stats::count(C::LookedAgain);
    let now = observe::message(&k.m);
    if now != k.item {
        return viol("message_changed", format!("message {} changed {when}: {}, was {}", k.n, clip(format!("{now:?}")), clip(format!("{:?}", k.item))));
    }
    if alloc::enter(|| observe::render_all(&k.m)) != k.text {
        return viol("message_changed", format!("message {} is printed differently {when}", k.n));
    }
    let b = encoded(&k.m);
    if b != k.bytes {
        return viol("message_changed", format!("message {} is encoded differently {when}", k.n));
    }
    Ok(())
}

fn c25(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (bytes, hit) = damaged(&b, &log.damage, false);
        stats::add(C::Damage, hit.len() as u64);
        let bytes = Arc::new(bytes);
        let mut p = open_low(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.cfg())?;
        let cap = cap_steps(bytes.len(), log);
        let mut kept: Vec<Kept> = vec![];
        let mut w = SimWriter::new(t as u64, &log.write);
        for n in 0.. {
            if n > cap {
                return viol("no_end", format!("no end after {cap} answers"));
            }
            if log.abandon.is_some_and(|a| n >= a as usize) {
                stats::count(C::Abandon);
                break;
            }
            let r = alloc::enter(|| p.next());
            note(&got_of(&r));
            let x = mix2(s.seed ^ 0xC25, n as u64);
            match r {
                None => break,
                Some(Err(_)) => {}
                Some(Ok(m)) => {
                    // A copy, and then the message itself, or only one of them.
                    if let (UlogMessage::LoggedData(d), 0) = (&m, x >> 8 & 3) {
                        let m = UlogMessage::LoggedData(alloc::enter(|| d.clone()));
                        kept.push(Kept { n, item: observe::message(&m), text: alloc::enter(|| observe::render_all(&m)), bytes: encoded(&m), m });
                    }
                    if x & 3 != 0 {
                        // Encoding to somewhere that fails leaves the message as it was.
                        let (item, text) = (observe::message(&m), alloc::enter(|| observe::render_all(&m)));
                        if x >> 12 & 1 == 0 {
                            let _ = alloc::enter(|| m.encode(&mut w));
                        }
                        kept.push(Kept { n, item, text, bytes: encoded(&m), m });
                    }
                }
            }
            if !kept.is_empty() && x >> 16 & 3 == 0 {
                let k = (x >> 20) as usize % kept.len();
                still(&kept[k], "while the parser went on")?;
                if kept.len() > 300 || x >> 50 & 1 == 0 {
                    let k = (x >> 30) as usize % kept.len();
                    kept.swap_remove(k);
                }
            }
        }
        for k in &kept {
            still(k, "by the time the log ended")?;
        }
        alloc::enter(|| drop(p));
        // In any order, each after the others were dropped.
        let mut n = 0;
        while !kept.is_empty() {
            n += 1;
            let k = (mix2(s.seed ^ 0xC26, n) % kept.len() as u64) as usize;
            let k = kept.swap_remove(k);
            still(&k, "after the parser was gone")?;
        }
    }
    Ok(())
}

// ---- C07: hostile bytes -----------------------------------------------------------------------

fn c07(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (mut bytes, hit) = damaged(&b, &log.damage, false);
        stats::add(C::Damage, hit.len() as u64);
        if let Some(c) = log.cut.and_then(|p| b.abs(p)) {
            stats::count(C::Cut);
            bytes.truncate(c);
        }
        let bytes = Arc::new(bytes);
        // The parser may need a constant amount per nesting level (at most 32) of each byte.
        let bound = (8 << 20) + 8192 * bytes.len() as i64;
        let base = alloc::live();
        alloc::reset_peak();
        let rd = reader(log, &b, bytes.clone(), t as u64);
        let cap = cap_steps(bytes.len(), log);
        match &log.iface {
            Iface::Low(cfg) => {
                let mut p = open_low(rd.boxed(log.read.buf), cfg)?;
                let mut n = 0;
                loop {
                    let r = alloc::enter(|| p.next());
                    note(&got_of(&r));
                    match r {
                        None => break,
                        Some(Ok(m)) => {
                            // What was yielded can also be written again without blowing up.
                            let mut sink = std::io::sink();
                            let _ = alloc::enter(|| m.encode(&mut sink));
                            if mix2(s.seed, n as u64) % 4 == 0 {
                                observe::render(&m);
                            }
                        }
                        Some(Err(e)) => {
                            let _ = (format!("{e:?}"), std::error::Error::source(&e).map(|x| x.to_string()));
                        }
                    }
                    n += 1;
                    if n > cap {
                        return viol("no_end", format!("no end after {cap} answers from {} bytes", bytes.len()));
                    }
                    if alloc::peak() - base > bound {
                        return viol("memory", format!("{} bytes held while reading a log of {} bytes", alloc::peak() - base, bytes.len()));
                    }
                }
            }
            _ => {
                let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
                drain(&mut se, cap, None)?;
            }
        }
        let p = alloc::peak() - base;
        if p > bound {
            return viol("memory", format!("{p} bytes held while reading a log of {} bytes", bytes.len()));
        }
    }
    Ok(())
}

// ---- C08: memory ------------------------------------------------------------------------------

/// A logger that never stops: bytes are made when they are asked for.
struct Endless {
    m: Model,
    cycle: Vec<Op>,
    i: u64,
    left: u64,
    buf: Vec<u8>,
    at: usize,
    chunk: Chunk,
    pos: u64,
    consumed: u64,
    block_pm: u64,
    blocked_at: u64,
}

impl Endless {
    fn refill(&mut self) {
        self.buf.clear();
        self.at = 0;
        while self.buf.is_empty() && self.left > 0 {
            self.left -= 1;
            let mut op = self.cycle[(self.i % self.cycle.len() as u64) as usize].clone();
            op.v = mix2(op.v, self.i) | 1;
            if let K::Data { id, .. } = &mut op.k {
                if !self.m.subs.contains_key(id) {
                    // Data without a subscription: ever new ids.
                    *id = (self.i.wrapping_mul(40503) & 0xffff) as u16;
                    if self.m.subs.contains_key(id) {
                        self.i += 1;
                        continue;
                    }
                }
            }
            // Ever new texts, keys and damaged contents.
            let new = |t: &mut String, max: usize| {
                let x = format!("_{}", self.i);
                if t.len() + x.len() <= max {
                    t.push_str(&x);
                }
            };
            match &mut op.k {
                K::Log { text, .. } => new(text, 2000),
                K::Info { key, .. } | K::Multi { key, .. } | K::Param { key, .. } | K::DefParam { key, .. } => new(key, 200),
                K::Raw { bytes, .. } => {
                    let mut r = Rng::new(op.v);
                    let keep = r.below(bytes.len() + 1);
                    for b in &mut bytes[keep..] {
                        *b = r.next() as u8;
                    }
                }
                _ => {}
            }
            self.i += 1;
            self.m.push(&op);
            self.m.recs.truncate(1);
            self.buf = std::mem::take(&mut self.m.bytes);
        }
    }
}

#[derive(Clone)]
struct EndlessReader(Arc<Mutex<Endless>>);

impl std::io::Read for EndlessReader {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        alloc::leave(|| {
            let mut e = self.0.lock().unwrap();
            stats::count(C::ReadCall);
            crate::env::call(20);
            if out.is_empty() {
                return Ok(0);
            }
            if e.at == e.buf.len() {
                e.refill();
                if e.buf.is_empty() {
                    return Ok(0);
                }
            }
            if e.block_pm > 0 && e.blocked_at != e.pos && mix2(e.pos, 5) % 1000 < e.block_pm {
                e.blocked_at = e.pos;
                stats::count(C::WouldBlock);
                return Err(std::io::Error::from(ErrorKind::WouldBlock));
            }
            let room = e.buf.len() - e.at;
            let n = e.chunk.take(e.pos, out.len().min(room));
            if n < out.len() {
                stats::count(C::ShortRead);
            }
            out[..n].copy_from_slice(&e.buf[e.at..e.at + n]);
            e.at += n;
            e.pos += n as u64;
            e.consumed += n as u64;
            stats::add(C::BytesRead, n as u64);
            Ok(n)
        })
    }
}

type BoxNext = Box<dyn FnMut() -> Option<bool>>;

fn open_any<R: std::io::Read + Send + 'static>(r: R, iface: &Iface) -> Result<BoxNext, Viol> {
    // Returns whether the answer was an I/O error.
    match iface {
        Iface::Low(c) => {
            let c = c.clone();
            let mut p = alloc::enter(|| build_low(r, &c))
            .map_err(|e| Viol { class: "build_failed".into(), detail: e.to_string() })?;
            Ok(Box::new(move || {
                let r = alloc::enter(|| p.next())?;
                match &r {
                    Ok(_) => stats::count(C::Items),
                    Err(_) => stats::count(C::Errors),
                }
                Some(matches!(r, Err(yule_log::errors::ULogError::Io(_))))
            }))
        }
        Iface::Derived(d) => {
            let mut s = derived::open(r, d).map_err(|e| Viol { class: "build_failed".into(), detail: e.to_string() })?;
            Ok(Box::new(move || {
                let g = s(0).0?;
                match &g {
                    Got::Typed(..) => stats::count(C::Typed),
                    Got::Item(_) => stats::count(C::Items),
                    Got::Err(..) => stats::count(C::Errors),
                }
                Some(matches!(g, Got::Err(Some(_), _)))
            }))
        }
    }
}

/// One pass over a small log of every kind, so that what is set up once per process exists.
pub fn warm_up() {
    warm_up_with(12);
}

/// Set up what is set up once per process.
pub fn warm_up_with(logs: usize) {
    let mut r = Rng::new(4711);
    for i in 0..logs {
        let mut p = crate::gen::Prof::swarm(&mut r);
        p.derived = i % 2 == 0;
        p.meta = true;
        p.text = true;
        p.max_ops = 30;
        let spec = crate::gen::G::new(&mut r, p).log();
        let b = build(&spec);
        let mut bytes = b.bytes.clone();
        if i >= 6 {
            for _ in 0..20 {
                let k = 16 + r.below(bytes.len() - 16);
                bytes[k] = r.next() as u8;
            }
        }
        let bytes = Arc::new(bytes);
        for iface in [
            Iface::Low(Cfg::full()),
            Iface::Derived(derived::DCfg { which: derived::Which::Full, builder: false, extra: vec![], one_by_one: false, fwd_subs: false, how: 0 }),
        ] {
            if let Ok(mut n) = open_any(SimReader::simple(bytes.clone(), Chunk::All), &iface) {
                for _ in 0..5000 {
                    if n().is_none() {
                        break;
                    }
                }
            }
        }
    }
}

fn c08(s: &Scenario) -> Res {
    warm_up();
    if s.fam == "release" {
        return c08_release(s);
    }
    match c08_steady(s) {
        // Something set up once and for all is no leak: it does not come again.
        Err(v) if v.class == "not_released" => c08_steady(s),
        r => r,
    }
}

fn c08_steady(s: &Scenario) -> Res {
    let log = &s.logs[0];
    let total = s.n[0];
    // Definitions and subscriptions first, then the endless part.
    let mut m = Model::new(log.spec.version, log.spec.ts);
    let mut cycle = vec![];
    for op in &log.spec.ops {
        match &op.k {
            K::Flag { .. } | K::Format(_) | K::Sub { .. } => {
                m.push(op);
            }
            K::Unsub { .. } if s.n.get(2) != Some(&1) => {}
            _ => cycle.push(op.clone()),
        }
    }
    if !m.in_data || cycle.is_empty() {
        return Ok(());
    }
    let before_open = alloc::live();
    let blocks_before = alloc::blocks();
    let buf = std::mem::take(&mut m.bytes);
    m.recs.truncate(1);
    let defs = buf.len();
    let e = Arc::new(Mutex::new(Endless {
        m,
        cycle,
        i: 0,
        left: total,
        buf,
        at: 0,
        chunk: log.read.chunk,
        pos: 0,
        consumed: 0,
        block_pm: s.n[1],
        blocked_at: u64::MAX,
    }));
    let mut next = open_any(EndlessReader(e.clone()), &log.iface)?;
    let (mut warm, mut n, mut maxlive) = (0i64, 0u64, 0i64);
    let warm_n = (300 + (defs as u64 / 8)).max(total / 10);
    let mut carry = 0u64;
    let mut last_pos = u64::MAX;
    let mut idle = 0;
    loop {
        alloc::reset_peak();
        let live0 = alloc::live();
        e.lock().unwrap().consumed = 0;
        let r = next();
        let used = alloc::peak() - live0;
        let consumed = e.lock().unwrap().consumed + carry;
        carry = if r == Some(true) { consumed } else { 0 };
        if used > (96 << 10) + 1024 * consumed as i64 {
            return viol("message_memory", format!("{used} bytes were needed to produce one answer from {consumed} bytes"));
        }
        let Some(_) = r else { break };
        n += 1;
        let pos = e.lock().unwrap().pos;
        idle = if pos == last_pos { idle + 1 } else { 0 };
        if idle > 100_000 {
            return viol("no_end", "the reader is not asked for more bytes");
        }
        last_pos = pos;
        let live = alloc::live() - before_open;
        if n <= warm_n {
            warm = warm.max(live);
        } else {
            maxlive = maxlive.max(live);
            if live > warm + (20 << 10) {
                return viol(
                    "memory_grows",
                    format!("{live} bytes held after {n} messages; {warm} were enough during the first {warm_n}"),
                );
            }
        }
    }
    stats::add(C::LongLogMsgs, n);
    drop(next);
    drop(e);
    let left = alloc::live() - before_open;
    let blocks = alloc::blocks() - blocks_before;
    if left > 4096 || blocks > 24 {
        return viol("not_released", format!("{left} bytes in {blocks} blocks still held after the parser was dropped"));
    }
    stats::event(n);
    Ok(())
}

/// One complete life of a parser on a (possibly damaged, possibly abandoned) log.
fn life(t: usize, log: &LogInst, b: &Built, bytes: &Arc<Vec<u8>>, parser_first: bool) -> Res {
    let rd = reader(log, b, bytes.clone(), t as u64);
    let cap = cap_steps(bytes.len(), log);
    match &log.iface {
        Iface::Low(cfg) => {
            let mut p = open_low(rd.boxed(log.read.buf), cfg)?;
            let mut kept = vec![];
            for k in 0..cap {
                if log.abandon.is_some_and(|a| k >= a as usize) {
                    stats::count(C::Abandon);
                    break;
                }
                match alloc::enter(|| p.next()) {
                    None => break,
                    r => note(&got_of(&r)),
                }
                if let Some(r) = alloc::enter(|| p.next()) {
                    kept.push(r);
                }
            }
            if parser_first {
                drop(p);
                drop(kept);
            } else {
                drop(kept);
                drop(p);
            }
        }
        _ => {
            let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
            drain(&mut se, cap, log.abandon)?;
        }
    }
    Ok(())
}

/// Each of several logs is read a number of times; what remains after each life must not pile up.
/// What is set up once and for all (by the library or beneath it) shows in the first lives only.
fn c08_release(s: &Scenario) -> Res {
    const LIVES: usize = 5;
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (bytes, _) = damaged(&b, &log.damage, false);
        let bytes = Arc::new(bytes);
        let mut marks = vec![];
        for _ in 0..LIVES {
            life(t, log, &b, &bytes, s.n[0] % 2 == 0)?;
            marks.push((alloc::live(), alloc::blocks()));
        }
        if marks.windows(2).skip(1).all(|w| w[1].0 > w[0].0) {
            return viol("not_released", format!("memory held after each of {LIVES} finished readings of one log keeps growing (bytes, blocks): {marks:?}"));
        }
    }
    // Different logs may leave something behind each without a repetition showing it: one of the logs
    // again and again with ever new names and texts. Whatever is kept per name (in tables that double
    // their size now and then) shows between 16 and 32, 32 and 64, 64 and 128 logs.
    let t = (mix2(s.seed, 0xC08) % s.logs.len() as u64) as usize;
    let log = &s.logs[t];
    let mut at = vec![];
    for k in 0..128u64 {
        let mut l = log.clone();
        renew(&mut l.spec, k);
        let b = l.built();
        let (bytes, _) = damaged(&b, &l.damage, false);
        life(t, &l, &b, &Arc::new(bytes), k % 2 == 0)?;
        if [16, 32, 64, 128].contains(&(k + 1)) {
            at.push(alloc::live());
        }
    }
    if at.windows(2).all(|w| w[1] - w[0] > 16) {
        return viol("not_released", format!("bytes held after 16, 32, 64 and 128 logs that differ in names only, each read and dropped: {at:?}"));
    }
    // The same definitions with ordinary messages, then with very large ones: what large messages
    // needed must be given back as well.
    let mut l = log.clone();
    l.abandon = None;
    l.damage.clear();
    l.read.faults.clear();
    let b = l.built();
    let bytes = Arc::new(b.bytes.clone());
    for k in 0..3 {
        life(t, &l, &b, &bytes, k % 2 == 0)?;
    }
    let before = alloc::live();
    let mut uid = l.spec.ops.iter().map(|o| o.uid).max().unwrap_or(0);
    let sizes = [60_000usize, 20_000, 65_000, 40_000];
    let len = l.spec.ops.len();
    let at = (0..8).map(|i| (mix2(s.seed, i) as usize) % (len + 1));
    for (i, at) in at.enumerate() {
        uid += 1;
        let n = sizes[i % 4];
        let k = match i {
            0 | 1 => K::Log { level: b'6', tag: None, text: "w".repeat(n) },
            2 => K::Log { level: b'6', tag: Some(7), text: "w".repeat(n) },
            3 | 4 => K::Unknown { ty: b'x', len: n },
            5 => K::Info { key: "large".into(), ty: B::Char, arr: Some(n) },
            6 => K::Multi { cont: false, key: "large".into(), ty: B::U8, arr: Some(n) },
            _ => K::Raw { ty: b'L', bytes: vec![b'w'; n] },
        };
        // Not before the flags.
        l.spec.ops.insert(at.max(1).min(l.spec.ops.len()), Op { uid, v: 1, k });
    }
    let b = l.built();
    let bytes = Arc::new(b.bytes.clone());
    for k in 0..2 {
        life(t, &l, &b, &bytes, k % 2 == 0)?;
    }
    let kept = alloc::live() - before;
    if kept > 12 << 10 {
        return viol("not_released", format!("{kept} bytes are still held after a log with large messages was read and dropped"));
    }
    Ok(())
}

/// The same log with other names and texts (those that typed structs refer to stay).
fn renew(spec: &mut LogSpec, k: u64) {
    use crate::derived::{ALL_TYPES, ALPHA, BETA, CELL, GAMMA, VEC3};
    let typed = [&ALPHA, &BETA, &GAMMA, &ALL_TYPES, &VEC3, &CELL];
    let new = |n: &mut String| {
        let fixed = ["timestamp", "alpha", "beta", "gamma", "all_types"].contains(&n.as_str());
        if !fixed && !typed.iter().any(|d| d.fields.iter().any(|f| f.name == n)) {
            n.push_str(&format!("_{k}"));
        }
    };
    for o in &mut spec.ops {
        o.v = mix2(o.v, k) | 1;
        match &mut o.k {
            K::Format(f) => {
                new(&mut f.name);
                for x in &mut f.fields {
                    new(&mut x.name);
                    if let Ty::N(n) = &mut x.ty {
                        new(n);
                    }
                }
            }
            K::Sub { name, .. } => new(name),
            K::Info { key, .. } | K::Multi { key, .. } | K::Param { key, .. } | K::DefParam { key, .. } => new(key),
            K::Log { text, .. } => new(text),
            _ => {}
        }
    }
}

// ---- C09: live arrival ------------------------------------------------------------------------

fn c09(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        if let Err(v) = c09_one(t, log, &b) {
            if !differs_anyway(log, &b.bytes, &wants(log, &b, &b.recs))? {
                return Err(v);
            }
        }
    }
    Ok(())
}

fn c09_one(t: usize, log: &LogInst, b: &Built) -> Res {
    {
        let bytes = Arc::new(b.bytes.clone());
        let Some(arr) = &log.arrive else { return Ok(()) };
        let end = bytes.len() as u64;
        let mut points: Vec<(u64, u64)> = arr.points.iter().filter_map(|(p, t)| Some((b.abs(*p)? as u64, *t))).collect();
        points.sort();
        let mut tm = 0;
        for p in points.iter_mut() {
            tm += p.1;
            p.1 = tm;
        }
        points.push((end, tm + 1000));
        let gate = Arc::new(Mutex::new(Gate { points: points.clone(), next: 0, avail: 0, now: 0, blocking: arr.blocking, waits: vec![] }));
        let rd = reader(log, b, bytes.clone(), t as u64);
        rd.st.lock().unwrap().gate = Some(gate.clone());
        let want = wants(log, b, &b.recs);
        let ends: Vec<u64> = want.iter().map(|w| b.recs[w.rec].end as u64).collect();
        let paired = want.iter().position(|w| w.optional).unwrap_or(want.len());
        let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
        let mut got: Vec<Got> = vec![];
        let cap = cap_steps(bytes.len(), log) + points.len() * 4;
        if arr.blocking {
            let mut n = 0;
            loop {
                gate.lock().unwrap().waits.clear();
                let k = got.len();
                let r = se.next();
                let waits = gate.lock().unwrap().waits.clone();
                // With everything of the next message available, nobody may wait for more.
                // (Past an answer that may also be missing, answers and messages no longer pair up.)
                if let Some(e) = ends.get(k).filter(|_| k < paired) {
                    if let Some(a) = waits.iter().find(|a| **a >= *e) {
                        return viol(
                            "waits_for_later_bytes",
                            format!("answer {k} was complete at byte {e}, with {a} bytes available, yet the parser waited for more"),
                        );
                    }
                }
                match r {
                    None => break,
                    Some(g) => got.push(g),
                }
                n += 1;
                if n > cap {
                    return viol("no_end", "too many answers");
                }
            }
        } else {
            let mut steps = 0;
            'arrivals: loop {
                let more = gate.lock().unwrap().advance();
                loop {
                    steps += 1;
                    if steps > cap {
                        return viol("no_end", "too many answers");
                    }
                    match se.next() {
                        None => break 'arrivals,
                        Some(Got::Err(Some(ErrorKind::WouldBlock), _)) => break,
                        Some(g) => got.push(g),
                    }
                }
                let avail = gate.lock().unwrap().avail;
                let due = ends.iter().filter(|e| **e <= avail).count();
                let opt = want.iter().zip(&ends).filter(|(w, e)| w.optional && **e <= avail).count();
                if got.len() + opt < due {
                    return viol(
                        "late",
                        format!("{} bytes had arrived, completing {due} messages, but only {} were yielded", avail, got.len()),
                    );
                }
                if !more {
                    if se.next().is_some() {
                        return viol("late", "all bytes had arrived but the end was not reached");
                    }
                    break;
                }
            }
        }
        if let Err(e) = match_seq(&want, &got, true) {
            return viol("wrong_message", e);
        }
    }
    Ok(())
}

// ---- C10: appended data -----------------------------------------------------------------------

fn c10(s: &Scenario) -> Res {
    if s.fam == "huge" {
        return c10_huge(s);
    }
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        // Faithful storage of everything before the offset; anything may follow it.
        let (set, offs) = match b.recs.get(1).map(|r| &r.exp) {
            Some(Exp::Item(Item::Flag { incompat, offs, .. })) => (incompat[0] & 1 != 0, *offs),
            _ => (false, [0; 3]),
        };
        let limit = if set { offs.iter().copied().find(|o| *o > 0) } else { None };
        let mut bytes = b.bytes.clone();
        let mut cut = bytes.len();
        if let Some(x) = limit {
            if x < b.recs[1].end as u64 {
                return Ok(());
            }
            if x < bytes.len() as u64 {
                let x = x as usize;
                if b.recs.iter().any(|r| r.start < x && x < r.end) {
                    stats::count(C::Straddle);
                }
                for d in &log.damage {
                    if let Some(a) = b.abs(d.at) {
                        if a >= x {
                            stats::count(C::Damage);
                            let mut r = Rng::new(mix2(a as u64, 3));
                            let e = (a + 50).min(bytes.len());
                            for y in &mut bytes[a..e] {
                                *y = r.next() as u8;
                            }
                        }
                    }
                }
                if let Some(c) = log.cut.and_then(|p| b.abs(p)) {
                    if c >= x {
                        stats::count(C::Cut);
                        cut = c;
                    }
                }
            }
        }
        bytes.truncate(cut);
        let recs: Vec<Rec> = b.recs.iter().filter(|r| limit.is_none_or(|x| r.end as u64 <= x)).cloned().collect();
        let want = wants(log, &b, &recs);
        let bytes = Arc::new(bytes);
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let mut got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        // Of the reader's failures, only what they do to the end is of interest here.
        got.retain(|g| !failed_read(g));
        if let Err(e) = match_seq(&want, &got, true) {
            // The same messages without any appended data announced.
            let mut plain = b.bytes[..recs.last().map_or(0, |r| r.end)].to_vec();
            let mut precs = recs.clone();
            if let (Some(r), Some(Exp::Item(Item::Flag { incompat, offs, .. }))) =
                (b.recs.get(1), precs.get_mut(1).map(|r| &mut r.exp))
            {
                let f = r.body();
                plain[f + 8] &= !1;
                plain[f + 16..f + 40].fill(0);
                incompat[0] &= !1;
                *offs = [0; 3];
            }
            let pw = wants(log, &b, &precs);
            if differs_anyway(log, &plain, &pw)? {
                continue;
            }
            if !log.read.faults.is_empty() {
                let end = plain.len();
                let rd = reader(log, &b, Arc::new(plain.clone()), t as u64);
                if differs_from(rd, log, &plain[..end], &pw)? {
                    continue;
                }
            }
            return viol("appended_data", format!("flag set: {set}, offsets {offs:?}, log of {} bytes: {e}", bytes.len()));
        }
        for _ in 0..3 {
            if se.next().is_some() {
                return viol("message_after_end", "something was yielded after the end at the appended data");
            }
        }
    }
    Ok(())
}

/// More than 4 GiB of log before the appended data.
fn c10_huge(s: &Scenario) -> Res {
    stats::count(C::Beyond4G);
    let offset = s.n[0];
    struct Huge {
        head: Vec<u8>,
        pos: u64,
        total: u64,
    }
    impl std::io::Read for Huge {
        fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
            let hl = self.head.len() as u64;
            let n = if self.pos < hl {
                let n = out.len().min((hl - self.pos) as usize);
                out[..n].copy_from_slice(&self.head[self.pos as usize..self.pos as usize + n]);
                n
            } else {
                // Messages of 65535 bytes of an unknown type: frames of 65538.
                let q = (self.pos - hl) % 65538;
                let left = self.total - self.pos;
                if left == 0 {
                    return Ok(0);
                }
                let (n, b) = match q {
                    0 => (1, 0xff),
                    1 => (1, 0xff),
                    2 => (1, b'X'),
                    _ => ((65538 - q) as usize, (q & 0x7f) as u8),
                };
                let n = n.min(out.len()).min(left as usize);
                out[..n].fill(b);
                n
            };
            self.pos += n as u64;
            stats::add(C::BytesRead, n as u64);
            Ok(n)
        }
    }
    let mut head = vec![b'U', b'L', b'o', b'g', 1, 0x12, 0x35, 1, 0, 0, 0, 0, 0, 0, 0, 0, 40, 0, b'B'];
    head.extend_from_slice(&[0; 8]);
    head.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0]);
    head.extend_from_slice(&offset.to_le_bytes());
    head.extend_from_slice(&[0; 16]);
    let hl = head.len() as u64;
    let rd = Huge { head, pos: 0, total: offset + 3 * 65538 };
    let mut p = ULogParserBuilder::new(rd).build().map_err(|e| Viol { class: "build_failed".into(), detail: e.to_string() })?;
    let exp = 1 + (offset - hl) / 65538;
    let mut n = 0u64;
    loop {
        match p.next() {
            None => break,
            Some(Ok(UlogMessage::FlagBits(_))) if n == 0 => {}
            Some(Ok(UlogMessage::Unhandled { msg_type: b'X', message_contents })) if n > 0 && message_contents.len() == 65535 => {}
            Some(Ok(m)) => return viol("appended_data", format!("message {n}: unexpected {:?}", observe::message(&m).kind())),
            Some(Err(e)) => return viol("appended_data", format!("message {n}: {e}")),
        }
        n += 1;
        if n > exp + 5 {
            break;
        }
    }
    stats::event(n);
    if n != exp {
        return viol("appended_data", format!("appended data at {offset}: {n} messages yielded, {exp} lie before it"));
    }
    Ok(())
}

// ---- C11: subscription histories --------------------------------------------------------------

fn c11(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        probes(&b);
        let bytes = Arc::new(b.bytes.clone());
        let cfg = log.cfg();
        let want = wants(log, &b, &b.recs);
        let mut p = open_low(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &cfg)?;
        let mut got = vec![];
        let mut subs: BTreeMap<u16, (u8, String)> = BTreeMap::new();
        let mut fmts: BTreeSet<String> = BTreeSet::new();
        let mut ids: BTreeSet<u16> = b.recs.iter().filter_map(|r| r.sub.as_ref().map(|x| x.0)).collect();
        ids.extend([0u16, 1, 0xffff]);
        let mut done = 0;
        loop {
            let r = alloc::enter(|| p.next());
            let g = got_of(&r);
            note(&g);
            let Some(g) = g else { break };
            got.push(g);
            let k = got.len() - 1;
            if k >= want.len() || match_seq(&want[k..=k], &got[k..], true).is_err() {
                if let Err(e) = match_seq(&want, &got, false) {
                    return viol("wrong_subscription", e);
                }
                return viol("wrong_subscription", "more answers than messages");
            }
            // The history up to and including this message.
            let upto = want[got.len() - 1].rec;
            let look = k < 300 || k % 61 == 0 || k + 1 == want.len() || matches!(b.recs[upto].kind, "sub" | "unsub") && k < 3000;
            while done <= upto {
                let r = &b.recs[done];
                if let Some((id, x)) = &r.sub {
                    match x {
                        Some(v) => {
                            subs.insert(*id, v.clone());
                        }
                        None => {
                            subs.remove(id);
                        }
                    }
                }
                if let Exp::Item(Item::Format(text)) = &r.exp {
                    fmts.insert(text[..text.find(':').unwrap()].to_string());
                }
                done += 1;
            }
            for id in ids.iter().filter(|_| look) {
                let have = p.get_subscription(*id).ok().map(|x| (x.multi_id, x.message_name.clone(), x.msg_id));
                let should = subs.get(id).map(|(m, n)| (*m, n.clone(), *id));
                if have != should {
                    return viol("wrong_lookup", format!("after answer {}: looking up subscription {id} gives {have:?}, the log says {should:?}", got.len() - 1));
                }
            }
            for (name, f) in b.formats.iter().filter(|_| look) {
                let have = p.get_format(name).ok().map(|x| observe::format_text(&x));
                let should = fmts.contains(name).then(|| f.text());
                if have != should {
                    return viol("wrong_lookup", format!("after answer {}: looking up format {name} gives {have:?}, the log says {should:?}", got.len() - 1));
                }
            }
            if p.get_format("no such format").is_ok() {
                return viol("wrong_lookup", "a format that was never defined was found");
            }
        }
        if let Err(e) = match_seq(&want, &got, true) {
            return viol("wrong_subscription", e);
        }
    }
    Ok(())
}

// ---- C12: filters and options -----------------------------------------------------------------

/// Is the log read wrongly in every view alike, so that no filter or option is to blame?
fn same_under_every_view(log: &LogInst, b: &Built, bytes: &[u8]) -> Result<bool, Viol> {
    let Iface::Low(c) = &log.iface else { return Ok(false) };
    for k in 0..8u32 {
        let mut l = log.clone();
        l.iface = Iface::Low(Cfg { header: k & 1 == 0, ts: k & 2 == 0, pad: k & 4 == 0, allow: None, relist: vec![], ..c.clone() });
        if !differs_anyway(&l, bytes, &wants(&l, b, &b.recs))? {
            return Ok(false);
        }
    }
    Ok(true)
}

fn c12(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        probes(&b);
        let bytes = Arc::new(b.bytes.clone());
        let want = wants(log, &b, &b.recs);
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            if same_under_every_view(log, &b, &bytes)? {
                continue;
            }
            return viol("wrong_view", format!("with {:?}: {e}", log.iface));
        }
    }
    Ok(())
}

// ---- C13: derived streams ---------------------------------------------------------------------

fn c13(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        probes(&b);
        let bytes = Arc::new(b.bytes.clone());
        let want = wants(log, &b, &b.recs);
        let mut se = Sess::open(reader(log, &b, bytes.clone(), t as u64).boxed(log.read.buf), &log.iface)?;
        let got = drain(&mut se, cap_steps(bytes.len(), log), None)?;
        if let Err(e) = match_seq(&want, &got, true) {
            return viol("wrong_stream", format!("{:?}: {e}", log.iface));
        }
        leaps(s, log, &bytes, &got)?;
    }
    Ok(())
}

// ---- C17: interrupted re-emission -------------------------------------------------------------

fn c17(s: &Scenario) -> Res {
    let log = &s.logs[0];
    let b = log.built();
    let bytes = Arc::new(b.bytes.clone());
    let mut disk: Vec<u8> = vec![];
    let full = Cfg::full();
    let content = b.content();
    let want = expected(&content, &full);
    for life in 0..=s.crashes.len() {
        // What survived?
        let mut keep = 0usize;
        let mut have = 0usize;
        if !disk.is_empty() {
            let rd = SimReader::new(50 + life as u64, Arc::new(disk.clone()), &ReadPlan { faults: vec![], ..log.read.clone() }, |_| None, &BTreeMap::new());
            let mut p = open_low(rd.boxed(log.read.buf), &full)?;
            let mut got = vec![];
            loop {
                let r = alloc::enter(|| p.next());
                note(&got_of(&r));
                match r {
                    Some(Ok(m)) => {
                        let mut one = vec![];
                        if let Err(e) = m.encode(&mut one) {
                            return viol("encode_failed", e.to_string());
                        }
                        keep += one.len();
                        have += 1;
                        got.push(Got::Item(observe::message(&m)));
                    }
                    Some(Err(_)) | None => break,
                }
                if have > content.len() {
                    return viol("invented_message", "the surviving output holds more messages than the log");
                }
            }
            if let Err(e) = match_seq(&want, &got, false) {
                return viol("survivors_differ", format!("after a crash at byte {}: {e}", disk.len()));
            }
            let complete = content.iter().filter(|r| r.end <= disk.len()).count();
            if have != complete {
                return viol(
                    "survivors_differ",
                    format!("after a crash at byte {} the output holds {complete} complete messages, {have} were found", disk.len()),
                );
            }
        }
        disk.truncate(keep);
        // Go on from the first message that is not completely there.
        let mut w = SimWriter::new(life as u64, &WritePlan { seed: mix2(log.write.seed, life as u64), ..log.write.clone() });
        {
            let mut g = w.st.lock().unwrap();
            g.out = std::mem::take(&mut disk);
            if let Some(p) = s.crashes.get(life) {
                let a = b.abs(*p).unwrap_or(0) as u64;
                g.die_at = Some(a.max(keep as u64));
            }
        }
        let mut p = open_low(reader(log, &b, bytes.clone(), life as u64).boxed(log.read.buf), &full)?;
        let mut n = 0;
        // Pass over what is already there one by one or in one leap.
        let leap = have > 0 && mix2(s.seed, life as u64) % 2 == 0;
        loop {
            let r = alloc::enter(|| if leap && n == 0 { p.nth(have) } else { p.next() });
            if leap && n == 0 {
                n = have;
            }
            note(&got_of(&r));
            match r {
                None => break,
                Some(Err(e)) => return viol("error_on_good_log", e.to_string()),
                Some(Ok(m)) => {
                    if n >= have {
                        if let Err(e) = alloc::enter(|| m.encode(&mut w)) {
                            if w.st.lock().unwrap().dead {
                                break;
                            }
                            return viol("encode_failed", e.to_string());
                        }
                        let g = w.st.lock().unwrap();
                        if g.dead {
                            break;
                        }
                    }
                    n += 1;
                }
            }
            if n > b.recs.len() + 4 {
                return viol("no_end", "more messages than the log has");
            }
        }
        let g = w.st.lock().unwrap();
        disk = g.out.clone();
        if g.dead {
            stats::count(C::Crash);
            if !b.recs.iter().any(|r| r.end == disk.len()) {
                stats::count(C::CrashMidMessage);
            }
        }
    }
    if disk != b.bytes[..b.content_end()] {
        return viol("final_output_differs", format!("after {} crashes the output has {} bytes, the log {}", s.crashes.len(), disk.len(), b.content_end()));
    }
    Ok(())
}

// ---- C18: byte source -------------------------------------------------------------------------

fn c18(s: &Scenario) -> Res {
    let Some(ds) = &s.ds else { return Ok(()) };
    let log = &s.logs[0];
    let mut r = Rng::new(ds.seed);
    let mode = r.below(6);
    let mut data: Vec<u8> = Vec::with_capacity(ds.len as usize + 40);
    while data.len() < ds.len as usize {
        match mode {
            // Text with odd pieces, text with many zero bytes, the bytes of extreme numbers, anything.
            0 | 1 if r.pct(12) => data.extend(crate::gen::TRICKY[r.below(crate::gen::TRICKY.len())].bytes()),
            2 if r.pct(25) => data.extend(std::iter::repeat_n(0, r.range(1, 5))),
            3 => data.extend(std::iter::repeat_n(*r.pick(&[0, 0xff, 0x80, 0x7f, 0xc0, 1, 0xfe]), r.range(1, 5))),
            0..=2 => data.push(0x20 + r.below(0x5f) as u8),
            _ if r.pct(70) => data.push(0x20 + r.below(0x5f) as u8),
            _ => data.push(r.next() as u8),
        }
    }
    data.truncate(ds.len as usize);
    let rd = SimReader::new(1, Arc::new(data.clone()), &ReadPlan { faults: vec![], ..log.read.clone() }, |_| None, &BTreeMap::new());
    let mut d = yule_log::datastream::DataStream::new(rd.boxed(log.read.buf));
    let mut at = 0usize;
    for (i, op) in ds.ops.iter().enumerate() {
        let left = data.len() - at;
        macro_rules! num {
            ($t:ty, $f:ident) => {{
                let n = std::mem::size_of::<$t>();
                if n > left {
                    continue;
                }
                let v = <$t>::from_le_bytes(data[at..at + n].try_into().unwrap());
                at += n;
                let got = alloc::enter(|| d.$f());
                stats::event(i as u64);
                match got {
                    Ok(x) if x.to_le_bytes() == v.to_le_bytes() => {}
                    x => return viol("wrong_value", format!("operation {i} {op:?} at byte {} gave {x:?} instead of {v:?}", at - n)),
                }
            }};
        }
        stats::count(C::DsOps);
        match op {
            DsOp::U8 => num!(u8, read_u8),
            DsOp::U16 => num!(u16, read_u16),
            DsOp::U32 => num!(u32, read_u32),
            DsOp::U64 => num!(u64, read_u64),
            DsOp::I8 => num!(i8, read_i8),
            DsOp::I16 => num!(i16, read_i16),
            DsOp::I32 => num!(i32, read_i32),
            DsOp::F32 => num!(f32, read_f32),
            DsOp::F64 => num!(f64, read_f64),
            DsOp::Bool => {
                if left < 1 {
                    continue;
                }
                let v = data[at] != 0;
                at += 1;
                match d.read_bool() {
                    Ok(x) if x == v => {}
                    x => return viol("wrong_value", format!("operation {i} {op:?} gave {x:?} instead of {v}")),
                }
            }
            DsOp::Exact(n) => {
                let n = *n as usize;
                if n > left {
                    continue;
                }
                let mut buf = vec![0xAA; n];
                match alloc::enter(|| d.read_exact(&mut buf)) {
                    Ok(k) if k == n && buf == data[at..at + n] => {}
                    x => return viol("wrong_value", format!("operation {i}: exact read of {n} at {at} gave {x:?} or other bytes")),
                }
                at += n;
            }
            DsOp::Str(n) => {
                let n = *n as usize;
                if n > left {
                    continue;
                }
                let want = String::from_utf8(data[at..at + n].to_vec());
                let got = alloc::enter(|| d.read_string(n));
                at += n;
                match (want, got) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), Err(yule_log::errors::ULogError::Utf8(_))) => {}
                    (a, b) => return viol("wrong_value", format!("operation {i}: string read of {n} gave {b:?} instead of {a:?}")),
                }
            }
            DsOp::Skip(n) => {
                let n = *n as usize;
                let should = n.min(left);
                match alloc::enter(|| d.skip(n)) {
                    Ok(k) if k == should => {}
                    x => return viol("wrong_skip", format!("operation {i}: skipping {n} with {left} bytes left gave {x:?}")),
                }
                at += should;
            }
        }
    }
    Ok(())
}

// ---- C19: the end -----------------------------------------------------------------------------

fn c19(s: &Scenario) -> Res {
    for (t, log) in s.logs.iter().enumerate() {
        let b = log.built();
        let (mut bytes, hit) = damaged(&b, &log.damage, false);
        stats::add(C::Damage, hit.len() as u64);
        if let Some(n) = s.n.first().copied().filter(|n| *n > 0) {
            // Not a log at all.
            let mut r = Rng::new(s.n[1]);
            let before = s.n.get(3).copied().unwrap_or(0);
            let n = if before > 0 { before } else { n };
            let dull = before > 0 && r.pct(50);
            bytes = (0..n).map(|_| if dull { 0 } else { r.next() as u8 }).collect();
            if s.n[2] > 0 {
                let k = (s.n[2] as usize).min(bytes.len()).min(7);
                bytes[..k].copy_from_slice(&b.bytes[..k]);
            }
            if before > 0 {
                bytes.extend_from_slice(&b.bytes);
                if bytes[..7] == b.bytes[..7] {
                    continue;
                }
            }
        }
        let cut = log.cut.and_then(|p| b.abs(p)).map(|c| c.min(bytes.len()));
        let valid_header = bytes.len() >= 16 && bytes[..7] == b.bytes[..7];
        let early = cut.unwrap_or(bytes.len());
        let n_bytes = bytes.len();
        let rd = reader(log, &b, Arc::new(bytes), t as u64);
        {
            let mut g = rd.st.lock().unwrap();
            g.late = cut.is_some();
            g.limit_before_late = early as u64;
        }
        let st = rd.st.clone();
        let mut se = Sess::open(rd.boxed(log.read.buf), &log.iface)?;
        let fails: usize = log.read.faults.iter().map(|f| f.times as usize).sum();
        let bound = n_bytes + fails + 8;
        let mut steps = 0;
        let mut items = 0;
        while let Some(g) = se.next() {
            if matches!(g, Got::Item(_) | Got::Typed(..)) {
                items += 1;
            }
            steps += 1;
            if steps > bound {
                return viol("no_end", format!("no end after {steps} answers from {n_bytes} bytes and {fails} failures"));
            }
        }
        if items > 0 && !(valid_header && early >= 16) {
            let _ = &st;
            if !valid_header || cut.is_none() {
                return viol("message_without_header", format!("{items} messages from an input without a valid file header"));
            }
        }
        for k in 0..24 {
            if let Some(g) = se.next() {
                return viol("end_not_final", format!("after the end was reported, request {k} gave {}", clip(format!("{g:?}"))));
            }
        }
    }
    Ok(())
}
