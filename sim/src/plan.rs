//! From (property, seed, index) to a scenario: the only place where choices are drawn.
use crate::env::EnvPlan;
use crate::derived::{DCfg, Which};
use crate::gen::{self, Prof, G};
use crate::io::WritePlan;
use crate::model::{self, Built, Cfg, Exp, Item};
use crate::rng::{hash_str, mix2, Rng};
use crate::scen::*;
use crate::sched;
use crate::spec::*;

pub const PROPS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C23", "C24", "C25",
];

/// Number of runs of a quick check; a thorough one does many times more.
pub fn runs(prop: &str, tier: &str) -> u64 {
    let q = match prop {
        "C01" => 120_000,
        "C02" => 120_000,
        "C03" => 160_000,
        "C04" => 120_000,
        "C05" => 80_000,
        "C06" => 140_000,
        "C07" => 180_000,
        "C08" => 1_600,
        "C09" => 120_000,
        "C10" => 150_000,
        "C11" => 80_000,
        "C12" => 72_000,
        "C13" => 110_000,
        "C14" => 20_000,
        "C15" => 14_000,
        "C16" => 80_000,
        "C17" => 50_000,
        "C18" => 200_000,
        "C19" => 150_000,
        "C23" => 100_000,
        "C24" => 10_000,
        "C25" => 80_000,
        _ => 1000,
    };
    if tier == "thorough" {
        q * 30
    } else {
        q
    }
}

fn log(r: &mut Rng, p: Prof) -> LogSpec {
    G::new(r, p).log()
}

fn any_cfg(r: &mut Rng, spec: &LogSpec) -> Cfg {
    if r.pct(35) {
        Cfg::full()
    } else if r.pct(20) {
        Cfg::plain()
    } else {
        gen::cfg(r, &gen::tops(spec))
    }
}

/// The low-level parser or a derived stream, under any options.
fn any_iface(r: &mut Rng, spec: &LogSpec, derived_log: bool) -> Iface {
    if r.pct(if derived_log { 70 } else { 12 }) {
        Iface::Derived(gen::dcfg(r, &gen::tops(spec)))
    } else {
        Iface::Low(any_cfg(r, spec))
    }
}

fn place(r: &mut Rng, b: &Built) -> Pos {
    gen::pos(r, b)
}

/// Where the logger stopped: anywhere, with the three kinds of place equally likely.
fn cut(r: &mut Rng, b: &Built) -> Pos {
    if r.pct(10) {
        return Pos { uid: 0, byte: r.below(17) as u32 };
    }
    place(r, b)
}

fn schedule(r: &mut Rng) -> sched::Plan {
    let hot = r.pct(40);
    sched::Plan {
        seed: r.next(),
        switch_pm: *r.pick(&[20, 100, 300, 600, 1000]),
        mem_pm: *r.pick(&[0, 0, 20, 100, 400]),
        fine_pm: if hot { *r.pick(&[20, 100, 500, 1000]) } else { *r.pick(&[0, 0, 20, 100, 500]) },
        fine_pc: if hot { *r.pick(&[1, 2, 4, 10]) } else { *r.pick(&[0, 20, 100, 300, 800]) },
        fine_hot: hot,
        fine_from: 0,
        explicit: None,
    }
}

/// The process's surroundings, chosen apart from all else.
fn env_plan(seed: u64) -> EnvPlan {
    let mut r = Rng::new(mix2(seed, 0xE4F));
    EnvPlan {
        vars: r.pct(30),
        slow: if r.pct(15) { *r.pick(&[2_000_000, 60_000_000, 3_600_000_000, 200_000_000_000]) } else { 0 },
        jumps: r.pct(20),
    }
}

pub fn scenario(prop: &str, base: u64, idx: u64) -> Scenario {
    let seed = mix2(base ^ hash_str(prop), idx);
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut p = Prof::swarm(r);
    // One run of each of these checks is long enough for any counter of 16 bits to wrap.
    if idx == 3 && matches!(prop, "C01" | "C02" | "C03" | "C06" | "C11" | "C12" | "C13") {
        p.long = 70_000;
        p.big = false;
        p.wide = 0;
    }
    // And in one of these, nearly every message is damaged, or every read fails at first.
    let storm = idx == 5 && matches!(prop, "C04" | "C06" | "C07" | "C19");
    if storm {
        p.long = 3_000;
        p.big = false;
        p.wide = 0;
    }
    let trace = r.pct(4);
    let mut s = Scenario {
        prop: prop.into(),
        seed,
        fam: String::new(),
        logs: vec![],
        sched: sched::Plan::default(),
        crashes: vec![],
        ds: None,
        n: vec![],
        trace,
        env: env_plan(seed),
    };
    match prop {
        "C01" => {
            let spec = log(r, p);
            let mut l = LogInst::new(spec, Iface::Low(Cfg::full()));
            l.read = gen::read_plan(r);
            l.write = gen::write_plan(r);
            s.logs.push(l);
        }
        "C02" => {
            let spec = log(r, p);
            let cfg = Cfg { header: r.pct(60), ts: r.pct(70), pad: r.pct(60), allow: None, old_setter: false, how: 0, relist: vec![] };
            let mut l = LogInst::new(spec, Iface::Low(cfg));
            l.read = gen::read_plan(r);
            s.logs.push(l);
        }
        "C03" => {
            p.derived = r.pct(30);
            p.bad_ids = r.pct(5);
            let d = p.derived;
            let spec = log(r, p);
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            l.cut = Some(cut(r, &b));
            l.read = gen::read_plan(r);
            s.logs.push(l);
        }
        "C04" => {
            p.derived = r.pct(30);
            if r.pct(12) {
                p.flag = true;
                p.append = true;
            }
            p.bad_ids = r.pct(10);
            let d = p.derived;
            let spec = log(r, p);
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            l.read = gen::read_plan(r);
            l.read.faults = gen::rfaults(r, &b);
            if storm {
                l.read.faults =
                    b.recs.iter().map(|x| crate::io::RFault { at: Pos { uid: x.uid, byte: 0 }, kind: r.below(14) as u8, times: 1 }).collect();
            } else if r.pct(10) {
                // A fault at every byte of one message's beginning.
                let at = place(r, &b);
                l.read.faults = (0..r.range(3, 12))
                    .map(|k| crate::io::RFault { at: Pos { uid: at.uid, byte: k as u32 }, kind: r.below(14) as u8, times: 1 })
                    .collect();
            }
            s.logs.push(l);
        }
        "C05" => {
            p.long = 0;
            if r.pct(12) {
                s.fam = "oversize".into();
                let size = match r.below(8) {
                    0 => r.range(225, 262),
                    1 => r.range(240, 262),
                    2 => r.range(65500, 65545),
                    3 => r.range(65500, 65545),
                    4 => 65536 + r.below(70000),
                    5 => 131072 + r.below(40),
                    6 => r.range(300, 599),
                    _ => r.below(70000),
                };
                s.n = vec![r.below(12) as u64, size as u64];
                let mut l = LogInst::new(LogSpec { version: 1, ts: 0, ops: vec![] }, Iface::Low(Cfg::full()));
                l.write = gen::write_plan(r);
                if matches!(l.write.chunk, crate::io::Chunk::One) {
                    l.write.chunk = crate::io::Chunk::Fixed(100);
                }
                if r.pct(30) {
                    l.write.faults = gen::wfaults(r, size as u64 + 20);
                }
                s.logs.push(l);
            } else {
                p.max_ops = p.max_ops.min(25);
                let spec = log(r, p);
                let mut l = LogInst::new(spec, Iface::Low(Cfg::full()));
                l.write = gen::write_plan(r);
                let far = r.range(4, 300) as u64;
                if r.pct(75) {
                    l.write.faults = gen::wfaults(r, far);
                }
                if r.pct(15) {
                    l.write.cap = Some(r.below(400) as u64);
                }
                s.logs.push(l);
            }
        }
        "C06" => {
            p.derived = r.pct(30);
            p.max_ops = p.max_ops.max(8);
            let d = p.derived;
            let spec = log(r, p);
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            let iso: Vec<(u32, usize)> =
                b.recs.iter().filter(|x| x.isolated && x.end > x.body()).map(|x| (x.uid, x.end - x.start)).collect();
            if !iso.is_empty() {
                let times = if storm {
                    4 * iso.len()
                } else if r.permille(12) {
                    r.range(6, 2 * iso.len() + 6)
                } else if r.pct(60) {
                    1
                } else {
                    r.range(2, 5)
                };
                for _ in 0..times {
                    let (uid, len) = *r.pick(&iso);
                    l.damage.push(gen::content_damage(r, uid, len));
                }
                // Data that claims to be of another subscription.
                let data: Vec<u32> = b.recs.iter().filter(|x| x.kind == "data").map(|x| x.uid).collect();
                let ids: Vec<u16> = l.spec.ops.iter().filter_map(|o| if let K::Sub { id, .. } = &o.k { Some(*id) } else { None }).collect();
                if !data.is_empty() && !ids.is_empty() && r.pct(25) {
                    for _ in 0..r.range(1, 3) {
                        let id: u16 = *r.pick(&ids);
                        l.damage.push(Damage { at: Pos { uid: *r.pick(&data), byte: 3 }, op: DOp::Set(id.to_le_bytes().to_vec()) });
                    }
                }
            }
            l.read = gen::read_plan(r);
            s.logs.push(l);
        }
        "C23" => {
            p.derived = false;
            p.long = 0;
            p.max_ops = p.max_ops.max(14);
            p.redirect = r.pct(50);
            let spec = log(r, p);
            let mut l = LogInst::new(spec, Iface::Low(Cfg::full()));
            l.iface = Iface::Low(any_cfg(r, &l.spec));
            let b = l.built();
            // The first subscription, and what it is made of, begin the data section and stay.
            let first = b.recs.iter().find(|x| matches!(&x.sub, Some((_, Some(_)))));
            let mut keep: Vec<String> = first.iter().filter_map(|x| x.sub.as_ref()?.1.as_ref()).map(|x| x.1.clone()).collect();
            let mut i = 0;
            while i < keep.len() {
                for o in &l.spec.ops {
                    match &o.k {
                        K::Format(f) if f.name == keep[i] => {
                            for x in &f.fields {
                                if let Ty::N(n) = &x.ty {
                                    if !keep.contains(n) {
                                        keep.push(n.clone());
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                i += 1;
            }
            let stays = |x: &model::Rec| match &x.exp {
                Exp::Item(Item::Format(t)) => t.split(':').next().is_some_and(|n| keep.iter().any(|k| k == n)),
                _ => first.is_some_and(|f| f.uid == x.uid),
            };
            let defs: Vec<(u32, u32, bool)> = b
                .recs
                .iter()
                .filter(|x| matches!(x.exp, Exp::Item(Item::Format(_)) | Exp::Item(Item::Sub { .. })) && !stays(x))
                .map(|x| (x.uid, (x.end - x.start) as u32, x.kind == "sub"))
                .collect();
            if !defs.is_empty() {
                let words: Vec<String> = l
                    .spec
                    .ops
                    .iter()
                    .filter_map(|o| if let K::Format(f) = &o.k { Some(f.name.clone()) } else { None })
                    .chain(["uint8_t", "float", "char[", "timestamp", "_padding0", "[65535]", "[0]", "]", "[", ";", " ", ":", ";;", "  ", "\0", "uint64_t timestamp;", "é", "_2"].map(String::from))
                    .collect();
                for _ in 0..if r.pct(60) { 1 } else { r.range(2, 8) } {
                    let (uid, len, sub) = *r.pick(&defs);
                    let byte = if sub && r.pct(25) { 3 } else { r.range(3, len as usize) as u32 };
                    let op = match r.below(10) {
                        0..=2 => DOp::Flip(1 << r.below(8)),
                        3 => DOp::Set(vec![r.next() as u8]),
                        4..=5 => DOp::Set(r.pick(&words).clone().into_bytes()),
                        6 if sub => DOp::Set(format!("{}\0\0", r.pick(&words)).into_bytes()),
                        6 => DOp::Set(gen::odd_text(r, 12).into_bytes()),
                        7 => DOp::Fill { len: r.range(1, 30) as u32, byte: *r.pick(b"\0 ;]:_9a\xff") },
                        8 => DOp::Fill { len: 70_000, byte: *r.pick(b"\0 ;a\xff") },
                        _ => DOp::Rand { len: *r.pick(&[2, 8, 1000]), seed: r.next() },
                    };
                    // Names and types begin behind these.
                    l.damage.push(Damage { at: Pos { uid, byte: if sub && byte > 3 && r.pct(40) { 6 } else { byte } }, op });
                }
            }
            l.read = gen::read_plan(r);
            s.logs.push(l);
        }
        "C25" => {
            p.derived = r.pct(20);
            p.max_ops = p.max_ops.max(8);
            p.long = p.long.min(2000);
            p.redirect = r.pct(60);
            let spec = log(r, p);
            let mut l = LogInst::new(spec, Iface::Low(Cfg::full()));
            l.iface = Iface::Low(any_cfg(r, &l.spec));
            let b = l.built();
            if r.pct(35) {
                for _ in 0..r.range(1, 4) {
                    l.damage.push(gen::any_damage(r, &b));
                }
            }
            l.read = gen::read_plan(r);
            l.write = gen::write_plan(r);
            if r.pct(30) {
                l.read.faults = gen::rfaults(r, &b);
            }
            if r.pct(40) {
                l.write.faults = gen::wfaults(r, b.bytes.len() as u64);
            }
            if r.pct(25) {
                l.abandon = Some(r.below(b.recs.len() + 1) as u32);
            }
            s.logs.push(l);
        }
        "C24" => {
            p.max_ops = p.max_ops.min(30);
            p.long = 0;
            p.mid = p.mid && r.pct(15);
            p.wide = p.wide.min(40);
            p.big = r.pct(1);
            p.derived = r.pct(40);
            for _ in 0..r.range(1, 3) {
                let q = Prof { redirect: r.pct(50), bad_ids: r.pct(15), ..p.clone() };
                let spec = log(r, q);
                let iface = any_iface(r, &spec, p.derived);
                let mut l = LogInst::new(spec, iface);
                let b = l.built();
                l.read = gen::read_plan(r);
                if r.pct(40) {
                    l.read.faults = gen::rfaults(r, &b);
                }
                if r.pct(15) {
                    for _ in 0..r.range(1, 3) {
                        l.damage.push(gen::any_damage(r, &b));
                    }
                }
                if r.pct(10) {
                    l.cut = Some(cut(r, &b));
                }
                if r.pct(15) {
                    l.abandon = Some(r.below(b.recs.len() + 1) as u32);
                }
                s.logs.push(l);
            }
            // Threads, how many answers one of them takes at a time, and whether threads are short-lived.
            s.n = vec![r.range(2, 4) as u64, *r.pick(&[1, 1, 2, 5, 20]), r.below(3) as u64];
            s.sched = schedule(r);
        }
        "C07" => {
            let evil = r.pct(28);
            let framed = r.pct(50);
            p.derived = r.pct(40);
            p.bad_ids = r.pct(20);
            let d = p.derived;
            let spec = if !evil {
                log(r, p)
            } else if r.pct(70) {
                gen::evil_log(r)
            } else {
                gen::soup_log(r)
            };
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            if !evil || r.pct(30) {
                for _ in 0..if storm { 3000 } else if r.permille(15) { r.range(20, 200) } else { r.range(1, 6) } {
                    l.damage.push(if framed { gen::framed_damage(r, &b) } else { gen::any_damage(r, &b) });
                }
            }
            if r.pct(15) {
                l.cut = Some(cut(r, &b));
            }
            l.read = gen::read_plan(r);
            if r.pct(15) {
                l.read.faults = gen::rfaults(r, &b);
            }
            s.logs.push(l);
        }
        "C08" => {
            p.long = 0;
            p.wide = 0;
            if idx % 4 == 3 {
                s.fam = "release".into();
                s.n = vec![r.below(2) as u64];
                for _ in 0..6 {
                    let mut p = Prof::swarm(r);
                    p.long = 0;
                    p.wide = p.wide.min(60);
                    p.derived = r.pct(40);
                    p.redirect = r.pct(60);
                    let d = p.derived;
                    let spec = log(r, p);
                    let iface = any_iface(r, &spec, d);
                    let mut l = LogInst::new(spec, iface);
                    let b = l.built();
                    l.read = gen::read_plan(r);
                    if r.pct(40) {
                        l.damage.push(gen::any_damage(r, &b));
                    }
                    if r.pct(30) {
                        l.read.faults = gen::rfaults(r, &b);
                    }
                    if r.pct(50) {
                        l.abandon = Some(r.below(b.recs.len() + 1) as u32);
                    }
                    s.logs.push(l);
                }
            } else {
                s.fam = "steady".into();
                p.derived = r.pct(35);
                p.redirect = false;
                p.bad_ids = r.pct(50);
                p.big = false;
                p.meta = r.pct(80);
                p.text = r.pct(80);
                p.unknown = r.pct(70);
                p.max_ops = 60;
                let d = p.derived;
                let mut spec = log(r, p);
                spec.ops.retain(|o| !matches!(&o.k, K::Log { text, .. } if text.len() > 2000));
                // Logs of all kinds of messages, and logs of one or two kinds only.
                let kind = |k: &K| match k {
                    K::Data { .. } => 0u32,
                    K::Log { .. } => 1,
                    K::Dropout => 2,
                    K::Sync => 3,
                    K::Unknown { .. } => 4,
                    K::Info { .. } | K::Multi { .. } => 5,
                    K::Param { .. } | K::DefParam { .. } => 6,
                    K::Raw { .. } => 7,
                    _ => 99,
                };
                let mut uid = spec.ops.iter().map(|o| o.uid).max().unwrap_or(0);
                if r.pct(60) {
                    for _ in 0..r.range(1, 8) {
                        uid += 1;
                        let k = match r.below(3) {
                            0 => K::Dropout,
                            1 => K::Sync,
                            _ => K::Raw { ty: *r.pick(b"IMPQLCOSXIM"), bytes: gen::odd_text(r, 30).into_bytes() },
                        };
                        spec.ops.push(Op { uid, v: r.next() | 1, k });
                    }
                }
                if r.pct(60) {
                    let (a, c) = (r.below(8) as u32, r.below(8) as u32);
                    let keep = |o: &Op| [a, c, 99].contains(&kind(&o.k));
                    if spec.ops.iter().any(|o| kind(&o.k) != 99 && keep(o)) {
                        spec.ops.retain(keep);
                    }
                }
                let unsub = r.pct(15) as u64;
                let mut iface = any_iface(r, &spec, d);
                if let Iface::Low(c) = &mut iface {
                    c.old_setter = false;
                }
                let mut l = LogInst::new(spec, iface);
                l.read.chunk = match r.below(3) {
                    0 => crate::io::Chunk::All,
                    1 => crate::io::Chunk::Hash { seed: r.next(), max: 40 },
                    _ => crate::io::Chunk::Fixed(r.range(3, 60) as u32),
                };
                s.n = vec![r.range(12_000, 36_000) as u64, if r.pct(25) { 60 } else { 0 }, unsub];
                s.logs.push(l);
            }
            s.trace = false;
        }
        "C09" => {
            p.derived = r.pct(30);
            p.bad_ids = r.pct(10);
            let d = p.derived;
            let spec = log(r, p);
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            let mut points: Vec<(Pos, u64)> = vec![];
            match r.below(4) {
                0 => {
                    // Message by message.
                    for x in &b.recs {
                        points.push((Pos { uid: x.uid, byte: (x.end - x.start) as u32 }, r.below(5000) as u64));
                    }
                }
                1 => {
                    // Up to just short of each end.
                    for x in &b.recs {
                        points.push((Pos { uid: x.uid, byte: (x.end - x.start - 1) as u32 }, r.below(5000) as u64));
                        points.push((Pos { uid: x.uid, byte: (x.end - x.start) as u32 }, r.below(5000) as u64));
                    }
                }
                _ => {
                    for _ in 0..r.range(1, 40) {
                        points.push((place(r, &b), r.below(1_000_000) as u64));
                    }
                }
            }
            // A connection that stays silent for long.
            if r.pct(4) {
                let k = r.below(points.len());
                let (at, t) = points[k];
                for _ in 0..r.range(5, 300) {
                    points.insert(k, (at, t + r.below(100) as u64));
                }
            }
            l.arrive = Some(Arrive { blocking: r.pct(70), points });
            l.read = gen::read_plan(r);
            if l.read.buf.is_some() && r.pct(50) {
                l.read.buf = None;
            }
            s.logs.push(l);
        }
        "C10" => {
            if idx == 1 {
                s.fam = "huge".into();
                // A little more than 4 GiB, at a message boundary or inside a message.
                let hl = 16 + 43u64;
                let k = (1u64 << 32) / 65538 + 2;
                let x = hl + k * 65538 + if r.pct(50) { 0 } else { r.range(1, 65000) as u64 };
                s.n = vec![x];
                return s;
            }
            p.derived = r.pct(20);
            p.flag = true;
            let d = p.derived;
            let mut spec = log(r, p);
            let iface = any_iface(r, &spec, d);
            let b = model::build(&spec);
            // The appended data begins somewhere: a boundary, inside a message, or beyond the end.
            let after = |r: &mut Rng| -> Pos {
                let i = r.range(1, b.recs.len() - 1);
                let x = &b.recs[i];
                let len = (x.end - x.start) as u32;
                let byte = match r.below(10) {
                    0..=3 => len,
                    4 => 1,
                    5 => 2,
                    6 => 3,
                    7 => len - 1,
                    _ => r.below(len as usize + 1) as u32,
                };
                // Not inside the flag message itself.
                Pos { uid: x.uid, byte: if i == 1 { len } else { byte } }
            };
            let off = match r.below(12) {
                0 => Off::Abs(b.bytes.len() as u64 + r.below(5) as u64),
                1 => Off::Abs(u64::MAX),
                2 => Off::Abs((1u64 << 32) + b.recs[r.below(b.recs.len())].end as u64),
                3 => Off::Abs((1u64 << *r.pick(&[31u32, 32, 33, 48, 63])) + r.below(3000) as u64),
                _ => Off::At(after(r)),
            };
            let mut offs = [None; 3];
            let slot = if r.pct(60) { 0 } else { r.below(3) };
            offs[slot] = Some(off);
            for x in offs.iter_mut().skip(slot + 1) {
                if r.pct(50) {
                    *x = Some(Off::At(after(r)));
                }
            }
            let set = r.pct(80);
            if let K::Flag { incompat0, offs: o, .. } = &mut spec.ops[0].k {
                // The other bits of that byte say nothing about appended data.
                let others = if r.pct(25) { r.next() as u8 & 0xfe } else { 0 };
                *incompat0 = set as u8 | others;
                *o = offs;
            }
            let mut l = LogInst::new(spec, iface);
            if r.pct(60) {
                for _ in 0..r.range(1, 4) {
                    l.damage.push(Damage { at: place(r, &b), op: DOp::Rand { len: 50, seed: r.next() } });
                }
            }
            if r.pct(20) {
                l.cut = Some(place(r, &b));
            }
            l.read = gen::read_plan(r);
            if r.pct(12) {
                let b = l.built();
                l.read.faults = gen::rfaults(r, &b);
            }
            s.logs.push(l);
        }
        "C11" => {
            p.derived = false;
            p.redirect = r.pct(90);
            p.bad_ids = r.pct(50);
            p.multi = r.pct(80);
            p.max_ops = p.max_ops.max(14);
            let spec = log(r, p);
            let mut cfg = if r.pct(60) { Cfg::full() } else { Cfg { allow: None, ..gen::cfg(r, &[]) } };
            cfg.old_setter = false;
            let mut l = LogInst::new(spec, Iface::Low(cfg));
            l.read = gen::read_plan(r);
            s.logs.push(l);
        }
        "C12" => {
            p.redirect = r.pct(60);
            p.pads = r.pct(80);
            p.derived = r.pct(10);
            p.max_ops = p.max_ops.max(10);
            let spec = log(r, p);
            let tops = gen::tops(&spec);
            for _ in 0..r.range(2, 5) {
                let mut c = gen::cfg(r, &tops);
                if r.pct(15) {
                    // The list is set, or changed, on the way.
                    let mut at = 0;
                    for _ in 0..r.range(1, 4) {
                        at += r.below(spec.ops.len() + 4);
                        c.relist.push((at as u32, tops.iter().filter(|_| r.pct(50)).cloned().collect()));
                    }
                }
                let mut l = LogInst::new(spec.clone(), Iface::Low(c));
                l.read = gen::read_plan(r);
                s.logs.push(l);
            }
        }
        "C13" => {
            p.derived = true;
            p.redirect = r.pct(45);
            p.bad_ids = r.pct(10);
            p.big = false;
            p.max_ops = p.max_ops.max(10);
            let spec = log(r, p);
            let tops = gen::tops(&spec);
            for _ in 0..r.range(1, 3) {
                let mut l = LogInst::new(spec.clone(), Iface::Derived(gen::dcfg(r, &tops)));
                l.read = gen::read_plan(r);
                s.logs.push(l);
            }
        }
        "C14" => {
            s.fam = (*r.pick(&["interleave", "threads", "threads", "nested"])).into();
            // The logger is another place where others can come in between.
            s.trace |= matches!(s.fam.as_str(), "threads" | "nested") && r.pct(20);
            let n = r.range(2, 4);
            p.max_ops = p.max_ops.min(24);
            p.long = 0;
            p.mid = p.mid && r.pct(30);
            p.wide = p.wide.min(40);
            p.derived = r.pct(45);
            let first = log(r, p.clone());
            for t in 0..n {
                let spec = if t == 0 {
                    first.clone()
                } else {
                    match r.below(4) {
                        // The same names and ids with other definitions.
                        0 | 1 => rename(log(r, p.clone()), &first, r),
                        2 => {
                            let mut x = first.clone();
                            let shuffle = r.pct(50);
                            for o in &mut x.ops {
                                o.v = mix2(o.v, t as u64) | 1;
                                // The same names, with their fields in another order.
                                if let (K::Format(f), true) = (&mut o.k, shuffle) {
                                    r.shuffle(&mut f.fields);
                                }
                            }
                            x
                        }
                        _ => {
                            let mut q = Prof::swarm(r);
                            q.max_ops = q.max_ops.min(24);
                            q.long = 0;
                            q.wide = q.wide.min(40);
                            log(r, q)
                        }
                    }
                };
                let iface = any_iface(r, &spec, p.derived);
                let mut l = LogInst::new(spec, iface);
                let b = l.built();
                l.read = gen::read_plan(r);
                l.write = gen::write_plan(r);
                if r.pct(20) {
                    l.read.faults = gen::rfaults(r, &b);
                }
                if r.pct(15) {
                    for _ in 0..r.range(1, 3) {
                        l.damage.push(gen::any_damage(r, &b));
                    }
                }
                if r.pct(10) {
                    l.cut = Some(cut(r, &b));
                }
                if r.pct(15) {
                    l.write.faults = gen::wfaults(r, b.bytes.len() as u64);
                }
                if r.pct(20) {
                    l.abandon = Some(r.below(b.recs.len() + 1) as u32);
                }
                s.n.push(r.below(2) as u64 | if r.pct(25) { 2 } else { 0 });
                s.logs.push(l);
            }
            s.sched = schedule(r);
        }
        "C15" => {
            let n = if r.pct(75) { 1 } else { 2 };
            p.derived = false;
            p.max_ops = p.max_ops.min(30);
            p.long = 0;
            p.mid = p.mid && r.pct(15);
            p.wide = p.wide.min(40);
            p.big = r.pct(1);
            for _ in 0..n {
                let q = Prof { redirect: r.pct(50), bad_ids: r.pct(15), ..p.clone() };
                let spec = log(r, q);
                let cfg = if r.pct(70) { Cfg::full() } else { any_cfg(r, &spec) };
                let mut l = LogInst::new(spec, Iface::Low(cfg));
                let b = l.built();
                l.read = gen::read_plan(r);
                l.write = gen::write_plan(r);
                if r.pct(20) {
                    l.read.faults = gen::rfaults(r, &b);
                }
                if r.pct(15) {
                    for _ in 0..r.range(1, 3) {
                        l.damage.push(gen::any_damage(r, &b));
                    }
                }
                if r.pct(30) {
                    l.abandon = Some(r.below(b.recs.len() + 1) as u32);
                }
                s.logs.push(l);
            }
            s.n = vec![r.range(1, 3) as u64, *r.pick(&[1, 2, 4, 16, 1000])];
            s.sched = schedule(r);
            // In half of the runs, save the interruptions for those who use the messages.
            if r.pct(50) {
                s.sched.fine_from = s.logs.len() as u32;
            }
        }
        "C16" => {
            p.derived = r.pct(30);
            p.bad_ids = r.pct(20);
            let d = p.derived;
            let spec = match r.below(16) { 0 | 1 => gen::evil_log(r), 2 => gen::soup_log(r), _ => log(r, p) };
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            if r.pct(45) {
                for _ in 0..r.range(1, 4) {
                    l.damage.push(gen::any_damage(r, &b));
                }
            }
            if r.pct(15) {
                l.cut = Some(cut(r, &b));
            }
            if r.pct(10) {
                l.read.faults = gen::rfaults(r, &b);
            }
            if r.pct(10) {
                l.write = gen::write_plan(r);
                l.write.faults = gen::wfaults(r, b.bytes.len() as u64);
            }
            s.n = vec![r.below(4) as u64];
            s.logs.push(l);
        }
        "C17" => {
            p.max_ops = p.max_ops.min(40);
            let spec = log(r, p);
            let mut l = LogInst::new(spec, Iface::Low(Cfg::full()));
            let b = l.built();
            l.read = gen::read_plan(r);
            l.write = WritePlan { ..gen::write_plan(r) };
            for _ in 0..r.range(1, 5) {
                s.crashes.push(place(r, &b));
            }
            if r.pct(60) {
                s.crashes.sort_by_key(|p| b.abs(*p));
            }
            s.logs.push(l);
        }
        "C18" => {
            let len = match r.below(6) {
                0 => r.below(20),
                1 => r.range(60_000, 140_000),
                _ => r.below(800),
            };
            let mut l = LogInst::new(LogSpec { version: 1, ts: 0, ops: vec![] }, Iface::Low(Cfg::plain()));
            l.read = gen::read_plan(r);
            if len > 50_000 && matches!(l.read.chunk, crate::io::Chunk::One) {
                l.read.chunk = crate::io::Chunk::Fixed(777);
            }
            let mut ops = vec![];
            for _ in 0..r.range(1, 80) {
                let size = |r: &mut Rng| -> u32 {
                    match r.below(9) {
                        0 => 0,
                        1 => 1,
                        2 => r.range(1020, 1030) as u32,
                        3 => r.range(2040, 2060) as u32,
                        4 if len > 50_000 => r.range(4000, 70_000) as u32,
                        5 => r.below(len + 40) as u32,
                        _ => r.below(40) as u32,
                    }
                };
                let o = match r.below(14) {
                    0 => DsOp::U8,
                    1 => DsOp::U16,
                    2 => DsOp::U32,
                    3 => DsOp::U64,
                    4 => DsOp::I8,
                    5 => DsOp::I16,
                    6 => DsOp::I32,
                    7 => DsOp::F32,
                    8 => DsOp::F64,
                    9 => DsOp::Bool,
                    10 => DsOp::Exact(size(r)),
                    11 => DsOp::Str(size(r)),
                    _ => DsOp::Skip(size(r)),
                };
                ops.push(o);
            }
            s.ds = Some(DsPlan { len: len as u32, seed: r.next(), ops });
            s.logs.push(l);
        }
        "C19" => {
            p.derived = r.pct(30);
            p.bad_ids = r.pct(20);
            p.max_ops = p.max_ops.min(40);
            let d = p.derived;
            let spec = match r.below(16) { 0 | 1 => gen::evil_log(r), 2 => gen::soup_log(r), _ => log(r, p) };
            let iface = any_iface(r, &spec, d);
            let mut l = LogInst::new(spec, iface);
            let b = l.built();
            match r.below(5) {
                0 => {
                    // Not a log.
                    let len = match r.below(4) {
                        0 => r.below(17),
                        1 => r.below(40),
                        _ => r.below(600),
                    };
                    // Perhaps with a whole log behind it.
                    let before = if r.pct(50) { *r.pick(&[1, 2, 3, 7, 8, 15, 16, 16, 17, 32, 48, 512, 4096]) } else { 0 };
                    s.n = vec![len.max(1) as u64, r.next(), if r.pct(50) { r.range(1, 6) as u64 } else { 0 }, before];
                }
                1 => {
                    // A damaged header.
                    l.damage.push(Damage { at: Pos { uid: 0, byte: r.below(8) as u32 }, op: DOp::Flip(1 << r.below(8)) });
                }
                2 => {
                    for _ in 0..r.range(1, 6) {
                        l.damage.push(gen::any_damage(r, &b));
                    }
                }
                _ => {}
            }
            if r.pct(45) {
                l.cut = Some(cut(r, &b));
            }
            l.read = gen::read_plan(r);
            if r.pct(50) {
                l.read.faults = gen::rfaults(r, &b);
            }
            if storm {
                l.read.faults = (0..3000)
                    .map(|_| crate::io::RFault { at: place(r, &b), kind: r.below(14) as u8, times: 1 + r.below(2) as u32 })
                    .collect();
            }
            s.logs.push(l);
        }
        _ => {}
    }
    s
}

/// Give the messages of `spec` the names used in `other`, so that the two logs define the same
/// names differently.
fn rename(mut spec: LogSpec, other: &LogSpec, r: &mut Rng) -> LogSpec {
    let names = |s: &LogSpec| -> Vec<String> {
        s.ops
            .iter()
            .filter_map(|o| match &o.k {
                K::Format(f) => Some(f.name.clone()),
                _ => None,
            })
            .collect()
    };
    let mine = names(&spec);
    let mut theirs = names(other);
    r.shuffle(&mut theirs);
    let mut map = std::collections::BTreeMap::new();
    for (a, b) in mine.iter().zip(theirs.iter()) {
        // Only if nobody here has that name already.
        if !mine.contains(b) && !map.values().any(|x| x == b) {
            map.insert(a.clone(), b.clone());
        }
    }
    let get = |n: &String| map.get(n).cloned().unwrap_or_else(|| n.clone());
    for o in &mut spec.ops {
        match &mut o.k {
            K::Format(f) => {
                f.name = get(&f.name);
                for x in &mut f.fields {
                    if let Ty::N(n) = &mut x.ty {
                        *n = get(n);
                    }
                }
            }
            K::Sub { name, .. } => *name = get(name),
            _ => {}
        }
    }
    spec
}

#[allow(dead_code)]
pub fn plain_dcfg() -> DCfg {
    DCfg { which: Which::Full, builder: false, extra: vec![], one_by_one: false, fwd_subs: false, how: 0 }
}
