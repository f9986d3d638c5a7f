//! Scenario generation: swarm style. Each run enables a random subset of features and fault kinds.
use crate::derived::{DCfg, Desc, Ft, Which, ALL_TYPES, ALPHA, ALPHA_ONE, BETA, CELL, GAMMA, GPS, RIG, VEC3, WHATEVER};
use crate::io::{Chunk, RFault, ReadPlan, WFault, WritePlan};
use crate::model::{Built, Cfg};
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use std::collections::BTreeSet;

const NAMES: &[&str] = &[
    "vehicle_status", "heartbeat", "my_heartbeat_2", "uint8_tx", "float_", "int", "charx", "boolean", "Msg_1", "_x", "a",
    "double_t", "sensor_accel", "uint64_t_", "timestamp_", "vec", "Z9", "esc_status", "battery", "_paddingfmt", "cpuload",
    "vehicle_local_position", "actuator_outputs", "x__y", "true", "L", "D", "telemetry_heartbeat",
];
const FIELDS: &[&str] = &[
    "x", "y", "z", "value", "id", "timestamp_sample", "float", "bool", "uint8_t", "pad", "padding0", "_pad", "_p", "Name",
    "a_very_long_field_name_that_goes_on_and_on_for_quite_a_while_0123456789", "q", "t", "data", "count", "status", "v1", "v2",
    "3d_fix", "0_", "1e9", "timestamp2", "timestamps", "_timestamp", "ch", "w", "len", "def", "key", "header", "multi_id",
];
const IDS: &[u16] = &[0, 1, 2, 3, 7, 10, 20, 255, 256, 257, 511, 512, 1000, 0x4141, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff];

/// What a generated log may contain.
#[derive(Clone)]
pub struct Prof {
    pub derived: bool,
    pub redirect: bool,
    pub bad_ids: bool,
    pub big: bool,
    pub flag: bool,
    pub unknown: bool,
    pub max_ops: usize,
    pub text: bool,
    pub nest: usize,
    pub multi: bool,
    pub trim: bool,
    pub pads: bool,
    pub meta: bool,
    pub zero: bool,
    /// The log announces appended data.
    pub append: bool,
    /// Runs of messages of one kind, in percent of the steps.
    pub bursts: usize,
    /// Sizes between the common and the extreme ones, those around powers of two among them.
    pub mid: bool,
    /// Many formats and subscriptions.
    pub wide: usize,
    /// A chain of formats this long, each nested in the next.
    pub deep: usize,
    /// Many messages.
    pub long: usize,
}

impl Prof {
    pub fn swarm(r: &mut Rng) -> Prof {
        let max_ops = match r.below(20) {
            0 => 90,
            1..=3 => 45,
            4..=6 => 5,
            _ => 18,
        };
        Prof {
            derived: r.pct(15),
            redirect: r.pct(35),
            bad_ids: false,
            big: r.pct(3),
            flag: r.pct(50),
            unknown: r.pct(45),
            max_ops,
            text: r.pct(60),
            nest: if r.pct(55) { r.range(1, 4) } else if r.pct(8) { r.range(5, 9) } else { 0 },
            multi: r.pct(45),
            trim: r.pct(50),
            pads: r.pct(60),
            meta: r.pct(60),
            zero: r.pct(5),
            append: r.pct(8),
            bursts: if r.pct(12) { r.range(1, 12) } else { 0 },
            mid: r.pct(6),
            wide: if r.permille(8) { r.range(30, 400) } else { 0 },
            deep: if r.permille(8) { r.range(9, 30) } else { 0 },
            long: if r.permille(2) { r.range(600, 5000) } else { 0 },
        }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub p: Prof,
    uid: u32,
}

fn ident(r: &mut Rng, min: usize, max: usize) -> String {
    let n = r.range(min, max);
    let mut s = String::with_capacity(n);
    for i in 0..n {
        let set: &[u8] = if i == 0 {
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
        } else {
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
        };
        s.push(*r.pick(set) as char);
    }
    s
}

/// Any name the format allows: letters, digits, `_`, `-` and `/` (but not digits alone).
fn spec_name(r: &mut Rng, min: usize, max: usize) -> String {
    let n = r.range(min, max);
    let mut s: Vec<u8> =
        (0..n).map(|_| if r.pct(30) { *r.pick(b"-/-/_0123456789") } else { *r.pick(b"abcxyzABCXYZ_0189") }).collect();
    if s.iter().all(|c| c.is_ascii_digit()) {
        let k = r.below(n);
        s[k] = *r.pick(b"a-/_");
    }
    String::from_utf8(s).unwrap()
}

/// An id that could be taken for another one.
fn relative(r: &mut Rng, id: u16) -> u16 {
    match r.below(4) {
        0 => id.swap_bytes(),
        1 => id.wrapping_add(1),
        _ => id ^ (1 << r.below(16)),
    }
}

/// A size of some hundreds or thousands.
fn mid_size(r: &mut Rng) -> usize {
    if r.pct(50) {
        let p = 1usize << r.range(8, 14);
        (p + r.below(24)).saturating_sub(14)
    } else {
        r.range(300, 9000)
    }
}

fn text(r: &mut Rng, big: bool, mid: bool) -> String {
    let n = if mid && r.pct(30) {
        mid_size(r)
    } else if big && r.pct(30) {
        *r.pick(&[65524usize, 65000, 30000])
    } else {
        match r.below(10) {
            0 => 0,
            1..=2 => r.range(100, 400),
            _ => r.range(1, 40),
        }
    };
    let mut s = String::with_capacity(n + 4);
    while s.len() < n {
        let c = match r.below(12) {
            0 => 'é',
            1 => '→',
            2 => '🛩',
            3 => '\n',
            4 => '\0',
            _ => (0x20 + r.below(0x5f) as u8) as char,
        };
        if s.len() + c.len_utf8() > n {
            s.push('a');
        } else {
            s.push(c);
        }
    }
    if r.pct(35) {
        // Pieces that text processing likes to change: at the start, at the end, or inside.
        for _ in 0..r.range(1, 4) {
            let p = *r.pick(TRICKY);
            if s.len() + p.len() > 65500 {
                break;
            }
            let mut at = match r.below(4) {
                0 => 0,
                1 | 2 => s.len(),
                _ => r.below(s.len() + 1),
            };
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, p);
        }
    }
    s
}

/// Marks, line ends, blanks, escapes, placeholders and letters with several forms.
pub const TRICKY: &[&str] = &[
    "\u{feff}", "\r", "\r\n", "\n", "\n\n", " ", "  ", "\t", "\0", "\0\0", "\u{a0}", "\u{85}", "\u{2028}", "\u{200b}", "\u{200d}", "\u{ad}", "\u{fffd}", "e\u{301}",
    "\u{e9}", "\u{212b}", "\u{fb01}", "\u{130}", "\u{df}", "\u{1b}[31m", "\u{1b}[0m", "\u{7f}", "\u{8}", "\u{1a}", "\u{4}", "%s", "%d", "{}", "{0}", "$HOME", "\\n", "\\", "\"", "'", "`", ";",
    ":", ",", "#", "//", "<b>", "&amp;", "\u{202e}", "\u{e000}", "\u{fffe}", "\u{10ffff}", "[ERROR]", "ULog", "\u{b}\u{c}",
];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, p: Prof) -> G<'a> {
        G { r, p, uid: 0 }
    }
    fn op(&mut self, k: K) -> Op {
        self.uid += 1;
        let v = if self.p.zero && self.r.pct(40) { 0 } else { self.r.next() | 1 };
        Op { uid: self.uid, v, k }
    }
    fn name(&mut self, used: &mut BTreeSet<String>) -> String {
        loop {
            let n = match self.r.below(10) {
                0 if self.r.pct(40) => spec_name(self.r, 1, 12),
                0 => ident(self.r, 1, 3),
                1 => ident(self.r, 4, 30),
                2 => {
                    // A prefix or extension of a name already in use.
                    let v: Vec<&String> = used.iter().collect();
                    if v.is_empty() {
                        continue;
                    }
                    let base = (*self.r.pick(&v)).clone();
                    if self.r.pct(50) && base.len() > 1 {
                        base[..base.len() - 1].to_string()
                    } else {
                        base + *self.r.pick(&["_2", "1", "x", "_", "-", "/0"])
                    }
                }
                3 if self.r.pct(10) => ident(self.r, 100, 200),
                _ => self.r.pick(NAMES).to_string(),
            };
            let is_type = ALL_B.iter().any(|b| b.text() == n) || n.bytes().all(|c| c.is_ascii_digit());
            if !is_type && used.insert(n.clone()) {
                return n;
            }
        }
    }
    fn field_name(&mut self, used: &mut BTreeSet<String>) -> String {
        loop {
            let n = if self.r.pct(80) { self.r.pick(FIELDS).to_string() } else { ident(self.r, 1, 12) };
            if n.starts_with("_padding") || n == "timestamp" {
                continue;
            }
            if used.insert(n.clone()) {
                return n;
            }
        }
    }
    fn arr(&mut self, elem: usize, budget: &mut usize) -> usize {
        let n = match self.r.below(20) {
            0 => 0,
            1..=3 => 1,
            4..=10 => self.r.range(2, 5),
            11..=17 => self.r.range(4, 20),
            _ => {
                if self.p.big {
                    self.r.range(500, 30000)
                } else if self.p.mid {
                    mid_size(self.r)
                } else {
                    self.r.range(20, 140)
                }
            }
        };
        let n = if elem == 0 { n.min(8) } else { n.min(*budget / elem.max(1)) };
        *budget = budget.saturating_sub(n * elem);
        n
    }
    fn prim(&mut self) -> B {
        *self.r.pick(&ALL_B)
    }
    fn padding(&mut self, used: &mut BTreeSet<String>) -> Option<Field> {
        let name = format!("_padding{}", self.r.pick(&["0", "1", "2", "", "_x", "9"]));
        if !used.insert(name.clone()) {
            return None;
        }
        let (ty, arr) = match self.r.below(10) {
            0 => (Ty::P(self.prim()), None),
            1 => (Ty::P(self.prim()), Some(self.r.range(0, 4))),
            2 => (Ty::P(B::U8), None),
            _ => (Ty::P(B::U8), Some(self.r.range(0, 7))),
        };
        Some(Field { name, ty, arr })
    }
    fn nested_fmt(&mut self, name: String, children: &[(String, usize)], ts: bool) -> (Fmt, usize) {
        let mut used = BTreeSet::new();
        let mut budget: usize = if self.p.big { 60000 } else if self.p.long > 0 { 40 } else if self.p.mid { 18_000 } else { 700 };
        let mut fields = vec![];
        let n = self.r.range(if ts { 0 } else { 1 }, 6);
        let mut size = 0;
        for _ in 0..n {
            if self.p.pads && self.r.pct(12) {
                if let Some(f) = self.padding(&mut used) {
                    let e = match &f.ty {
                        Ty::P(b) => b.size(),
                        _ => 1,
                    };
                    size += e * f.arr.unwrap_or(1);
                    fields.push(f);
                    continue;
                }
            }
            let fname = self.field_name(&mut used);
            let nest = !children.is_empty() && self.r.pct(40);
            let (ty, elem) = if nest {
                let c = self.r.pick(children).clone();
                (Ty::N(c.0), c.1)
            } else {
                let b = self.prim();
                (Ty::P(b), b.size())
            };
            if elem > budget {
                continue;
            }
            let arr = if self.r.pct(35) { Some(self.arr(elem, &mut budget)) } else { None };
            if arr.is_none() {
                budget = budget.saturating_sub(elem);
            }
            size += elem * arr.unwrap_or(1);
            fields.push(Field { name: fname, ty, arr });
        }
        if ts {
            let f = Field { name: "timestamp".into(), ty: Ty::P(B::U64), arr: None };
            size += 8;
            let at = if self.r.pct(70) { 0 } else { self.r.below(fields.len() + 1) };
            fields.insert(at, f);
            if self.p.pads && self.r.pct(45) {
                if let Some(f) = self.padding(&mut used) {
                    let e = match &f.ty {
                        Ty::P(b) => b.size(),
                        _ => 1,
                    };
                    size += e * f.arr.unwrap_or(1);
                    fields.push(f);
                }
            }
        } else if self.r.pct(20) {
            // Nested formats may well have a timestamp of their own, of whatever type.
            let b = if self.r.pct(60) { B::U64 } else { self.prim() };
            fields.insert(self.r.below(fields.len() + 1), Field { name: "timestamp".into(), ty: Ty::P(b), arr: None });
            size += b.size();
        }
        if fields.is_empty() || size == 0 {
            fields.push(Field { name: "fill".into(), ty: Ty::P(B::U8), arr: None });
            size += 1;
        }
        (Fmt { name, fields }, size)
    }

    /// A format for a typed struct, with the liberties a log may take.
    fn derived_fmt(&mut self, name: &str, d: &Desc, inner: &[(&'static Desc, String)], top: bool) -> Fmt {
        let mut used: BTreeSet<String> = d.fields.iter().map(|f| f.name.to_string()).collect();
        let mut fields = vec![];
        let mutate = self.r.pct(35);
        for fd in d.fields {
            if fd.optional && self.r.pct(35) {
                continue;
            }
            if mutate && fd.name != "timestamp" && self.r.pct(6) {
                continue;
            }
            let nested_name = |d: &'static Desc| inner.iter().find(|x| std::ptr::eq(d, x.0)).map(|x| x.1.clone()).unwrap_or_default();
            let (mut ty, mut arr) = match fd.ft {
                Ft::S(b) => (Ty::P(b), None),
                Ft::A(b) => (Ty::P(b), Some(self.r.range(0, 5))),
                Ft::N(d) => (Ty::N(nested_name(d)), None),
                Ft::NA(d) => (Ty::N(nested_name(d)), Some(self.r.range(0, 3))),
            };
            if mutate && fd.name != "timestamp" && self.r.pct(7) {
                match self.r.below(4) {
                    0 => arr = if arr.is_some() { None } else { Some(self.r.range(0, 3)) },
                    1 => ty = Ty::N(self.r.pick(inner).1.clone()),
                    _ => ty = Ty::P(self.prim()),
                }
            }
            fields.push(Field { name: fd.name.into(), ty, arr });
        }
        for _ in 0..self.r.below(4) {
            let fname = self.field_name(&mut used);
            let b = self.prim();
            let arr = if self.r.pct(30) { Some(self.r.range(0, 4)) } else { None };
            fields.push(Field { name: fname, ty: Ty::P(b), arr });
        }
        if self.p.pads && self.r.pct(40) {
            if let Some(f) = self.padding(&mut used) {
                fields.push(f);
            }
        }
        if self.r.pct(60) {
            self.r.shuffle(&mut fields);
        }
        if self.p.pads && self.r.pct(20) {
            // Padding larger than what follows it.
            if let Some(mut f) = self.padding(&mut used) {
                f.ty = Ty::P(B::U8);
                f.arr = Some(self.r.range(4, 24));
                let back = self.r.below(3).min(fields.len());
                fields.insert(fields.len() - back, f);
            }
        }
        if top && !fields.iter().any(|f| f.name == "timestamp") {
            fields.insert(0, Field { name: "timestamp".into(), ty: Ty::P(B::U64), arr: None });
        }
        if self.p.pads && top && self.r.pct(30) {
            if let Some(f) = self.padding(&mut used) {
                fields.push(f);
            }
        }
        if !fields.iter().any(|f| f.arr.is_none() && matches!(f.ty, Ty::P(_))) {
            // Formats of no size at all are not written by loggers.
            fields.push(Field { name: "fill".into(), ty: Ty::P(B::U8), arr: None });
        }
        Fmt { name: name.into(), fields }
    }

    fn key(&mut self, head: usize) -> String {
        match self.r.below(12) {
            0 => ident(self.r, 254 - head, 254 - head),
            1 => ident(self.r, 100, 200),
            2 => "sys_name".into(),
            3 => "bool".into(),
            4 => spec_name(self.r, 1, 24),
            _ => ident(self.r, 1, 24),
        }
    }

    fn meta(&mut self) -> K {
        let ty = if self.r.pct(40) { B::Char } else { self.prim() };
        let arr = if self.r.pct(60) {
            Some(match self.r.below(12) {
                0 => 0,
                1 => 1,
                2 => 255,
                3 if self.p.big => 60000 / ty.size(),
                4..=5 if self.p.mid => mid_size(self.r),
                _ => self.r.range(2, 30),
            })
        } else {
            None
        };
        let head = type_text(&Ty::P(ty), arr).len();
        match self.r.below(10) {
            0..=3 => K::Info { key: self.key(head), ty, arr },
            4..=6 => K::Multi { cont: self.r.pct(50), key: self.key(head), ty, arr },
            7..=8 => K::Param { key: self.key(7), float: self.r.pct(50) },
            _ => K::DefParam { types: self.r.below(4) as u8, key: self.key(7), float: self.r.pct(50) },
        }
    }

    fn unknown(&mut self) -> K {
        const KNOWN: &[u8] = b"FDIMPQARSOLCB";
        loop {
            let ty = if self.r.pct(30) { *self.r.pick(&[0u8, 255, 254, b'X', b'd', b'U', 1]) } else { self.r.below(256) as u8 };
            if !KNOWN.contains(&ty) {
                let len = match self.r.below(12) {
                    0 => 0,
                    1 => 255,
                    2 => 256,
                    3 => 257,
                    4 if self.p.big => 65535,
                    5..=7 if self.p.mid => mid_size(self.r),
                    _ => self.r.below(40),
                };
                return K::Unknown { ty, len };
            }
        }
    }

    fn log_text(&mut self) -> K {
        let (big, mid) = (self.p.big, self.p.mid);
        K::Log {
            level: b'0' + self.r.below(8) as u8,
            tag: if self.r.pct(45) { Some(*self.r.pick(IDS)) } else { None },
            text: text(self.r, big, mid),
        }
    }

    pub fn log(&mut self) -> LogSpec {
        let mut ops: Vec<Op> = vec![];
        if self.p.long > 0 {
            self.p.big = false;
            self.p.mid = false;
            self.p.bursts = self.p.bursts.min(2);
            self.p.deep = 0;
        }
        if self.p.flag {
            let compat = match self.r.below(10) {
                0..=3 => [0u8; 8],
                4..=7 => [1, 0, 0, 0, 0, 0, 0, 0],
                8 => self.r.next().to_le_bytes(),
                _ => (1u64 << self.r.below(64)).to_le_bytes(),
            };
            // Offsets mean nothing unless the flag says so.
            let mut offs = [None; 3];
            if self.r.pct(15) {
                for o in offs.iter_mut() {
                    if self.r.pct(50) {
                        *o = Some(Off::Abs(if self.r.pct(50) { self.r.next() } else { self.r.below(2000) as u64 }));
                    }
                }
            }
            ops.push(self.op(K::Flag { compat, incompat0: 0, offs }));
        }
        // Formats.
        let mut used = BTreeSet::new();
        let mut defs: Vec<Fmt> = vec![];
        let mut tops: Vec<String> = vec![];
        if self.p.derived {
            for n in ["alpha", "beta", "gamma", "all_types", "gps_position", "only_opt"] {
                used.insert(n.to_string());
            }
            // Each may contain those before it.
            let mut inner: Vec<(&'static Desc, String)> = vec![];
            for (n, d) in [("vec3", &VEC3), ("cell", &CELL), ("rig", &RIG)] {
                let name = if self.r.pct(60) && used.insert(n.to_string()) { n.to_string() } else { self.name(&mut used) };
                let mut f = if inner.is_empty() {
                    let none = [(&VEC3 as &'static Desc, name.clone())];
                    self.derived_fmt(&name, d, &none, false)
                } else {
                    self.derived_fmt(&name, d, &inner, false)
                };
                f.fields.retain(|x| !matches!(&x.ty, Ty::N(c) if *c == name || c.is_empty()));
                if f.fields.is_empty() {
                    f.fields.push(Field { name: "id".into(), ty: Ty::P(B::U16), arr: None });
                }
                defs.push(f);
                inner.push((d, name));
            }
            for (n, d) in [
                ("alpha", if self.r.pct(70) { &ALPHA } else { &ALPHA_ONE }),
                ("beta", &BETA),
                ("gamma", &GAMMA),
                ("all_types", &ALL_TYPES),
                ("gps_position", &GPS),
                ("only_opt", &WHATEVER),
            ] {
                if self.r.pct(60) && (self.p.long < 6000 || n == "alpha" || n == "gamma") {
                    let f = self.derived_fmt(n, d, &inner, true);
                    tops.push(n.into());
                    defs.push(f);
                }
            }
        }
        let mut children: Vec<(String, usize)> = vec![];
        for _ in 0..self.p.nest {
            let n = self.name(&mut used);
            // Chains become likely when only the latest child is offered.
            let offer: Vec<(String, usize)> =
                if self.r.pct(50) { children.iter().rev().take(1).cloned().collect() } else { children.clone() };
            let (f, s) = self.nested_fmt(n.clone(), &offer, false);
            children.push((n, s));
            defs.push(f);
        }
        if self.p.deep > 0 {
            let mut below: Option<(String, usize)> = None;
            for _ in 0..self.p.deep {
                let n = self.name(&mut used);
                let mut fields = vec![];
                let mut size = 0;
                let at = self.r.below(3);
                for k in 0..3 {
                    if k == at {
                        if let Some((b, s)) = below.take() {
                            let arr = match self.r.below(24) {
                                0 if s < 100 => Some(2),
                                1..=6 => Some(1),
                                _ => None,
                            };
                            size += s * arr.unwrap_or(1);
                            fields.push(Field { name: "below".into(), ty: Ty::N(b), arr });
                        }
                    } else if self.r.pct(40) || (k == 2 && fields.is_empty()) {
                        let b = self.prim();
                        size += b.size();
                        fields.push(Field { name: format!("v{k}"), ty: Ty::P(b), arr: None });
                    }
                }
                if fields.is_empty() {
                    fields.push(Field { name: "v".into(), ty: Ty::P(B::U8), arr: None });
                    size += 1;
                }
                defs.push(Fmt { name: n.clone(), fields });
                below = Some((n, size));
            }
            let n = self.name(&mut used);
            let mut fields = vec![Field { name: "timestamp".into(), ty: Ty::P(B::U64), arr: None }];
            fields.push(Field { name: "below".into(), ty: Ty::N(below.unwrap().0), arr: None });
            fields.push(Field { name: "last".into(), ty: Ty::P(B::U16), arr: None });
            tops.push(n.clone());
            defs.push(Fmt { name: n, fields });
        }
        let ntop = self.r.range(if tops.is_empty() { 1 } else { 0 }, 4);
        for i in 0..ntop + self.p.wide {
            let n = if i >= ntop && i % 3 == 0 { format!("wide_message_{i}") } else { self.name(&mut used) };
            let (f, _) = self.nested_fmt(n.clone(), if i < ntop + 4 { &children } else { &[] }, true);
            tops.push(n);
            defs.push(f);
        }
        if self.r.pct(60) {
            self.r.shuffle(&mut defs);
        }
        // Some loggers define a format twice.
        if self.r.pct(4) {
            let f = self.r.pick(&defs).clone();
            let at = self.r.below(defs.len() + 1);
            defs.insert(at, f);
        }
        // Definitions section.
        for f in defs {
            let o = self.op(K::Format(f));
            ops.push(o);
            if self.p.meta && self.r.pct(30) {
                let k = self.meta();
                let o = self.op(k);
                ops.push(o);
            }
            if self.p.unknown && self.r.pct(8) {
                let k = self.unknown();
                let o = self.op(k);
                ops.push(o);
            }
            if self.p.text && self.r.pct(6) {
                let k = self.log_text();
                let o = self.op(k);
                ops.push(o);
            }
        }
        // Subscriptions and data.
        let mut ids: Vec<u16> = vec![];
        let nid = self.r.range(1, if self.p.redirect { 4 } else { 6 }) + self.p.wide;
        while ids.len() < nid {
            let i = if !ids.is_empty() && self.r.pct(25) {
                let other: u16 = *self.r.pick(&ids);
                relative(self.r, other)
            } else if ids.len() < 8 { *self.r.pick(IDS) } else if self.r.pct(50) { ids.len() as u16 } else { self.r.next() as u16 };
            if !ids.contains(&i) {
                ids.push(i);
            }
        }
        let mut live: BTreeSet<u16> = BTreeSet::new();
        let body = self.r.range(1, self.p.max_ops.max(1)) + self.p.long + self.p.wide;
        let first = if self.p.wide > 0 { self.r.range(nid / 2 + 1, nid) } else if self.p.redirect { 1 } else { self.r.range(1, ids.len()) };
        for i in 0..first {
            let k = self.sub(ids[i], &tops);
            live.insert(ids[i]);
            let o = self.op(k);
            ops.push(o);
        }
        let mut fresh = first;
        for _ in 0..body {
            if self.p.bursts > 0 && self.r.pct(self.p.bursts as u32) {
                self.burst(&mut ops, &live, &tops);
                continue;
            }
            let x = self.r.below(100);
            let k = if x < 55 {
                let id = if self.p.bad_ids && self.r.pct(12) {
                    let other: u16 = *self.r.pick(&ids);
                    if self.r.pct(30) { relative(self.r, other) } else { *self.r.pick(IDS) }
                } else if live.is_empty() {
                    continue;
                } else {
                    let v: Vec<u16> = live.iter().copied().collect();
                    *self.r.pick(&v)
                };
                if !live.contains(&id) && !self.p.bad_ids {
                    continue;
                }
                K::Data { id, trim: self.p.trim && self.r.pct(50) }
            } else if x < 68 {
                if self.p.redirect {
                    let id = *self.r.pick(&ids);
                    if self.r.pct(35) {
                        live.remove(&id);
                        K::Unsub { id }
                    } else {
                        live.insert(id);
                        self.sub(id, &tops)
                    }
                } else if fresh < ids.len() {
                    fresh += 1;
                    live.insert(ids[fresh - 1]);
                    self.sub(ids[fresh - 1], &tops)
                } else {
                    continue;
                }
            } else if x < 80 {
                if !self.p.text {
                    continue;
                }
                self.log_text()
            } else if x < 84 {
                K::Dropout
            } else if x < 87 {
                K::Sync
            } else if x < 93 {
                if !self.p.meta {
                    continue;
                }
                self.meta()
            } else if self.p.unknown {
                self.unknown()
            } else {
                continue;
            };
            let o = self.op(k);
            ops.push(o);
        }
        if self.p.append && self.p.flag {
            // What follows some place after the flag message is no log content.
            let k = self.r.below(ops.len());
            let at = Pos { uid: ops[k].uid, byte: if k == 0 { u32::MAX } else { *self.r.pick(&[0, 1, 2, 3, 4, u32::MAX, u32::MAX]) } };
            if let K::Flag { incompat0, offs, .. } = &mut ops[0].k {
                *incompat0 |= 1;
                *offs = [Some(Off::At(at)), None, None];
            }
        }
        LogSpec { version: if self.r.pct(80) { 1 } else { self.r.below(256) as u8 }, ts: self.r.next(), ops }
    }

    /// Many messages of one kind in a row.
    fn burst(&mut self, ops: &mut Vec<Op>, live: &BTreeSet<u16>, tops: &[String]) {
        let n = match self.r.below(4) {
            0 => self.r.range(2, 6),
            1 | 2 => self.r.range(6, 40),
            _ => self.r.range(40, 120),
        };
        let n = if self.p.big || self.p.mid { n.min(8) } else { n };
        let what = self.r.below(10);
        let v: Vec<u16> = live.iter().copied().collect();
        let dead: Vec<u16> = IDS.iter().copied().filter(|i| !live.contains(i)).collect();
        let one = self.r.pct(50);
        let pick = |r: &mut Rng, s: &[u16]| if s.is_empty() { 0 } else if one { s[0] } else { *r.pick(s) };
        for _ in 0..n {
            let k = match what {
                0..=2 if self.p.bad_ids => K::Data { id: pick(self.r, &dead), trim: false },
                3 => K::Dropout,
                4 => K::Sync,
                5 if self.p.text => self.log_text(),
                6 if self.p.meta => self.meta(),
                7 if self.p.unknown => self.unknown(),
                8 if self.p.redirect => K::Unsub { id: pick(self.r, &dead) },
                9 if self.p.redirect && !v.is_empty() => self.sub(v[0], tops),
                _ if !v.is_empty() => K::Data { id: pick(self.r, &v), trim: self.p.trim && self.r.pct(50) },
                _ => return,
            };
            let o = self.op(k);
            ops.push(o);
        }
    }

    fn sub(&mut self, id: u16, tops: &[String]) -> K {
        let name = self.r.pick(tops).clone();
        let multi = if self.p.derived && name == "gamma" {
            *self.r.pick(&[3, 3, 3, 0, 1])
        } else if self.p.derived && name == "gps_position" {
            *self.r.pick(&[255, 255, 255, 0, 254])
        } else if self.p.derived && name == "alpha" {
            *self.r.pick(&[0, 0, 1, 1, 2])
        } else if self.p.multi && self.r.pct(45) {
            *self.r.pick(&[1, 2, 3, 255, 1])
        } else {
            0
        };
        K::Sub { multi, id, name }
    }
}

/// How a builder is told its options: in the plain way more often than not.
fn how(r: &mut Rng) -> u32 {
    if r.pct(60) {
        0
    } else {
        r.next() as u32
    }
}

pub fn cfg(r: &mut Rng, tops: &[String]) -> Cfg {
    let allow = if r.pct(45) {
        let mut v: Vec<String> = tops.iter().filter(|_| true).cloned().collect();
        let keep = r.below(4);
        v.retain(|_| r.below(3) < keep);
        if r.pct(20) {
            v.push("no_such_message".into());
        }
        if r.pct(10) {
            if let Some(t) = tops.first() {
                v.push(t[..t.len() - 1].to_string());
            }
        }
        v.retain(|s| !s.is_empty());
        Some(v)
    } else {
        None
    };
    Cfg { header: r.pct(50), ts: r.pct(50), pad: r.pct(50), allow, old_setter: r.pct(20), how: how(r), relist: vec![] }
}

pub fn tops(spec: &LogSpec) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for o in &spec.ops {
        if let K::Sub { name, .. } = &o.k {
            if !v.contains(name) {
                v.push(name.clone());
            }
        }
    }
    v
}

pub fn dcfg(r: &mut Rng, tops: &[String]) -> DCfg {
    let which = *r.pick(&[Which::Full, Which::Full, Which::Bare, Which::Duo, Which::Quad, Which::Quad, Which::Solo]);
    let builder = r.pct(55);
    let mut extra = vec![];
    if builder && which.forwards() && r.pct(60) {
        for t in tops {
            if r.pct(35) {
                extra.push(t.clone());
            }
        }
        if r.pct(10) {
            extra.push("no_such_message".into());
        }
    }
    DCfg { which, builder, extra, one_by_one: r.pct(50), fwd_subs: builder && which.forwards() && r.pct(50), how: how(r) }
}

pub fn chunk(r: &mut Rng) -> Chunk {
    match r.below(8) {
        0 => Chunk::All,
        1..=2 => Chunk::One,
        3 => Chunk::Fixed(r.range(2, 9) as u32),
        4 => Chunk::Hash { seed: r.next(), max: 3 },
        5 => Chunk::Hash { seed: r.next(), max: 16 },
        6 => Chunk::Hash { seed: r.next(), max: 100 },
        _ => Chunk::Fixed(r.range(10, 300) as u32),
    }
}

/// How often a call is interrupted, and how often in a row: seldom very often.
fn interruptions(r: &mut Rng) -> (u32, u32) {
    if r.permille(15) {
        (*r.pick(&[3, 10, 30]), *r.pick(&[20u32, 70, 150, 400]))
    } else if r.pct(45) {
        (*r.pick(&[5, 30, 120, 400]), r.range(1, 4) as u32)
    } else {
        (0, 0)
    }
}

pub fn read_plan(r: &mut Rng) -> ReadPlan {
    let (eintr_pm, eintr_max) = interruptions(r);
    ReadPlan {
        chunk: chunk(r),
        eintr_pm,
        eintr_max,
        seed: r.next(),
        buf: if r.pct(25) { Some(*r.pick(&[1u32, 2, 3, 7, 16, 64, 1000, 8192])) } else { None },
        faults: vec![],
    }
}

pub fn write_plan(r: &mut Rng) -> WritePlan {
    let (eintr_pm, eintr_max) = interruptions(r);
    WritePlan { chunk: chunk(r), eintr_pm, eintr_max, seed: r.next(), faults: vec![], cap: None }
}

/// A place inside the log, preferring boundaries and message headers.
pub fn pos(r: &mut Rng, b: &Built) -> Pos {
    let i = if r.pct(8) { 0 } else { r.below(b.recs.len()) };
    let rec = &b.recs[i];
    let len = rec.end - rec.start;
    let byte = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => len.saturating_sub(1),
        5 => len,
        6 => 4.min(len),
        7 => 5.min(len),
        _ => r.below(len + 1),
    };
    Pos { uid: rec.uid, byte: byte.min(len) as u32 }
}

pub fn rfaults(r: &mut Rng, b: &Built) -> Vec<RFault> {
    // Around the end of what is log content.
    if let Some(x) = b.limit.filter(|_| r.pct(60)) {
        let near: Vec<u32> = b.recs.iter().filter(|m| m.start <= x && m.end + 8 > x).map(|m| m.uid).collect();
        if !near.is_empty() {
            return (0..r.range(1, 3))
                .map(|_| {
                    let uid = *r.pick(&near);
                    let m = b.rec(uid).map_or(1, |m| m.end - m.start);
                    let byte = if r.pct(50) { r.below(m.min(6) + 1) } else { m.saturating_sub(r.below(4)) };
                    RFault { at: Pos { uid, byte: byte as u32 }, kind: r.below(14) as u8, times: 1 }
                })
                .collect();
        }
    }
    // A device that fails for long, or again and again.
    if r.permille(15) {
        let at = pos(r, b);
        return match r.below(3) {
            0 => vec![RFault { at, kind: r.below(14) as u8, times: r.range(10, 150) as u32 }],
            1 => (0..r.range(20, 200)).map(|_| RFault { at: pos(r, b), kind: r.below(14) as u8, times: 1 }).collect(),
            _ => (0..r.range(2, 300) as u32)
                .map(|k| RFault { at: Pos { uid: at.uid, byte: k }, kind: r.below(14) as u8, times: 1 })
                .collect(),
        };
    }
    let n = match r.below(10) {
        0..=3 => 1,
        4..=6 => 2,
        7..=8 => r.range(3, 6),
        _ => r.range(6, 14),
    };
    let mut v: Vec<RFault> = (0..n)
        .map(|_| RFault { at: pos(r, b), kind: r.below(14) as u8, times: if r.pct(75) { 1 } else { r.range(2, 5) as u32 } })
        .collect();
    // Faults close together: several inside one message.
    if r.pct(40) {
        let at = v[0].at;
        for k in 1..=r.range(1, 3) {
            v.push(RFault { at: Pos { uid: at.uid, byte: at.byte + k as u32 }, kind: r.below(14) as u8, times: 1 });
        }
    }
    v
}

pub fn wfaults(r: &mut Rng, len: u64) -> Vec<WFault> {
    let n = if r.permille(30) {
        r.range(10, 60)
    } else if r.pct(70) {
        1
    } else {
        2
    };
    (0..n)
        .map(|_| {
            let at = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 3,
                4 => len.saturating_sub(1),
                _ => r.below(len as usize + 1) as u64,
            };
            WFault { at, kind: if r.pct(25) { 255 } else { r.below(14) as u8 }, times: if r.pct(80) { 1 } else { 3 } }
        })
        .collect()
}

/// Damage to the content of one message of the given record, same length.
pub fn content_damage(r: &mut Rng, uid: u32, len: usize) -> Damage {
    let byte = match r.below(6) {
        0 => 3,
        1 => 4,
        2 => 5,
        3 => (len.saturating_sub(1)) as u32,
        _ => 3 + r.below(len.saturating_sub(3).max(1)) as u32,
    };
    let op = match r.below(8) {
        0 | 1 => DOp::Flip(1 << r.below(8)),
        7 => { let n = r.range(1, 200); DOp::Set(odd_text(r, n).into_bytes()) }
        2 => DOp::Flip(r.range(1, 255) as u8),
        3 => DOp::Fill { len: r.range(1, 40) as u32, byte: *r.pick(&[0u8, 0xff, b'[', b'9', b' ']) },
        4 => DOp::Rand { len: r.range(1, 200) as u32, seed: r.next() },
        5 => DOp::Fill { len: 70000, byte: *r.pick(&[0u8, 0xff, 0x80]) },
        _ => DOp::Set(EVIL[r.below(EVIL.len())].as_bytes().to_vec()),
    };
    Damage { at: Pos { uid, byte }, op }
}

const EVIL: &[&str] = &[
    "99999999999999999999", "18446744073709551615", "4294967295", "[0]", "[]", "[[", "uint8_t[65535] x", "int32_t x", ";", ":",
    "é", "heartbeat", "_padding0", "timestamp", "float[1000000] y", "char[99999999] z", "bool", "  ", "\u{0}",
];

/// Damage of any kind anywhere.
pub fn any_damage(r: &mut Rng, b: &Built) -> Damage {
    if r.pct(25) {
        return framed_damage(r, b);
    }
    let at = pos(r, b);
    if r.pct(14) {
        let data: Vec<u32> = b.recs.iter().filter(|x| x.kind == "data").map(|x| x.uid).collect();
        let uid = if !data.is_empty() && r.pct(60) { *r.pick(&data) } else { at.uid };
        if let Some(x) = b.rec(uid).filter(|x| x.uid != 0) {
            let n = (x.end - x.start).saturating_sub(3);
            let to = match r.below(8) {
                0..=3 => n.saturating_sub(r.range(1, 16)),
                4..=5 => r.below(n + 1),
                6 => n + r.range(1, 40),
                _ => *r.pick(&[0usize, 1, 2, 3, 65535]),
            };
            return Damage { at: Pos { uid, byte: 0 }, op: DOp::Resize(to.min(65535) as u16) };
        }
    }
    let op = match r.below(14) {
        0..=2 => DOp::Flip(1 << r.below(8)),
        3 => DOp::Flip(r.range(1, 255) as u8),
        4 => DOp::Fill { len: r.range(1, 60) as u32, byte: *r.pick(&[0u8, 0xff, b'9', b';']) },
        5 => DOp::Rand { len: r.range(1, 60) as u32, seed: r.next() },
        6 => DOp::Del(r.range(1, 30) as u32),
        7 => DOp::Dup(r.range(1, 60) as u32),
        8 => DOp::InsRand { len: r.range(1, 20) as u32, seed: r.next() },
        9 if r.pct(40) => { let n = r.range(1, 80); DOp::Ins(odd_text(r, n).into_bytes()) }
        9 => DOp::Ins(EVIL[r.below(EVIL.len())].as_bytes().to_vec()),
        10 if r.pct(40) => { let n = r.range(1, 200); DOp::Set(odd_text(r, n).into_bytes()) }
        10 => DOp::Set(EVIL[r.below(EVIL.len())].as_bytes().to_vec()),
        11 => DOp::Set(vec![r.next() as u8, r.next() as u8]),
        12 => DOp::Set(vec![*r.pick(b"FDIMPQARSOLCB")]),
        _ => DOp::Del(r.range(1, 3) as u32),
    };
    Damage { at, op }
}

/// Damage that leaves the frames of all messages intact, so that what follows is still read.
pub fn framed_damage(r: &mut Rng, b: &Built) -> Damage {
    let kinds: &[&str] = if r.pct(55) { &["data"] } else { &["data", "sub", "format", "info", "param"] };
    let v: Vec<usize> = (1..b.recs.len()).filter(|i| kinds.contains(&b.recs[*i].kind)).collect();
    let i = if v.is_empty() || r.pct(25) { r.below(b.recs.len()) } else { *r.pick(&v) };
    let rec = &b.recs[i];
    let n = (rec.end - rec.start).saturating_sub(3);
    if i == 0 || n == 0 {
        return any_damage(r, b);
    }
    if r.pct(45) {
        let to = match r.below(8) {
            0..=4 => n.saturating_sub(r.range(1, 16)),
            5..=6 => r.below(n + 1),
            _ => n + r.range(1, 40),
        };
        return Damage { at: Pos { uid: rec.uid, byte: 0 }, op: DOp::Resize(to.min(65535) as u16) };
    }
    let k = if r.pct(30) { r.below(n.min(4)) } else { r.below(n) };
    let room = n - k;
    let op = match r.below(7) {
        0..=2 => DOp::Flip(1 << r.below(8)),
        3 => DOp::Flip(r.range(1, 255) as u8),
        6 => { let n = r.range(1, room); DOp::Set(odd_text(r, n).into_bytes()) }
        4 => DOp::Fill { len: r.range(1, room.min(8)) as u32, byte: *r.pick(&[0u8, 0xff, b'9', b';']) },
        _ => DOp::Rand { len: r.range(1, room.min(16)) as u32, seed: r.next() },
    };
    Damage { at: Pos { uid: rec.uid, byte: k as u32 + 3 }, op }
}

/// Definitions no sane logger writes: recursion, absurd arrays, exponential nesting, missing types.
pub fn evil_log(r: &mut Rng) -> LogSpec {
    let mut ops = vec![];
    let mut uid = 0u32;
    let mut push = |ops: &mut Vec<Op>, k: K, v: u64| {
        uid += 1;
        ops.push(Op { uid, v, k });
    };
    let big = ["0", "1", "3", "255", "65535", "65536", "1000000", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999", "007"];
    let n = r.range(1, 6);
    let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
    let style = r.below(7);
    for i in 0..n {
        let mut t = format!("{}:", names[i]);
        let ts = r.pct(75) || i == 0;
        if ts {
            t.push_str("uint64_t timestamp;");
        }
        for k in 0..r.range(1, 4) {
            let ty = match style {
                0 => names[i].clone(),
                1 => names[(i + 1) % n].clone(),
                2 => names[r.below(n)].clone(),
                3 => names[(i + 1).min(n - 1)].clone(),
                4 => "undefined_type".into(),
                _ => {
                    if r.pct(50) {
                        names[r.below(n)].clone()
                    } else {
                        r.pick(&ALL_B).text().to_string()
                    }
                }
            };
            let a = if r.pct(65) { format!("[{}]", r.pick(&big)) } else { String::new() };
            let nm = if r.pct(10) { "_padding".to_string() } else if r.pct(5) { "timestamp".into() } else { format!("f{k}") };
            t.push_str(&format!("{ty}{a} {nm};"));
        }
        push(&mut ops, K::Raw { ty: b'F', bytes: t.into_bytes() }, 1);
    }
    if r.pct(20) {
        // Exponential: each level holds several of the next, the last one holds nothing.
        let depth = r.range(3, 40);
        let width = *r.pick(&["2", "3", "10", "100", "1000"]);
        for i in 0..depth {
            let t = if i + 1 == depth {
                format!("e{i}:uint8_t[0] z;")
            } else {
                format!("e{i}:{}e{}[{width}] c;", if i == 0 { "uint64_t timestamp;" } else { "" }, i + 1)
            };
            push(&mut ops, K::Raw { ty: b'F', bytes: t.into_bytes() }, 1);
        }
    }
    if r.pct(25) {
        // A long chain of definitions, one inside the other.
        let depth = *r.pick(&[10usize, 100, 1000, 5000]);
        for i in 0..depth {
            let t = if i + 1 == depth {
                format!("c{i}:uint8_t z;")
            } else if i == 0 {
                format!("c{i}:uint64_t timestamp;c{} n;", i + 1)
            } else {
                format!("c{i}:c{} n;", i + 1)
            };
            push(&mut ops, K::Raw { ty: b'F', bytes: t.into_bytes() }, 1);
        }
    }
    if r.pct(30) {
        let t = format!("uint8_t[{}] k", r.pick(&big));
        let mut b = vec![t.len() as u8];
        b.extend_from_slice(t.as_bytes());
        b.extend_from_slice(&[1, 2, 3, 4]);
        push(&mut ops, K::Raw { ty: b'I', bytes: b }, 1);
    }
    let mut heads: Vec<String> = names.clone();
    heads.push("e0".into());
    heads.push("c0".into());
    for (i, h) in heads.iter().enumerate() {
        let mut b = vec![r.below(2) as u8, i as u8, 0];
        b.extend_from_slice(h.as_bytes());
        push(&mut ops, K::Raw { ty: b'A', bytes: b }, 1);
    }
    for _ in 0..r.range(1, 8) {
        let id = r.below(heads.len()) as u8;
        let mut b = vec![id, 0];
        for _ in 0..r.pick(&[0usize, 8, 9, 20, 60, 300]).to_owned() {
            b.push(r.next() as u8);
        }
        push(&mut ops, K::Raw { ty: b'D', bytes: b }, 1);
    }
    LogSpec { version: 1, ts: 1, ops }
}

/// Text of exactly `n` bytes in which characters of one to four bytes alternate in all ways.
pub fn odd_text(r: &mut Rng, n: usize) -> String {
    const SETS: &[&[char]] = &[&['é'], &['→'], &['🛩'], &['é', 'a'], &['a', '→', '🛩'], &['\u{fffd}', 'é', '\u{1}', ' ', '_', ';', ']'], &['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']];
    let set = *r.pick(SETS);
    let mut s: String = "x".repeat(r.below(4).min(n));
    while s.len() < n {
        let c = *r.pick(set);
        s.push(if s.len() + c.len_utf8() > n { 'z' } else { c });
    }
    s
}

/// Messages whose texts follow the grammar of definitions more or less: types known and unknown,
/// arrays where there should be none, names of any alphabet and length, tokens missing or extra.
pub fn soup_log(r: &mut Rng) -> LogSpec {
    let mut ops = vec![];
    let mut uid = 0u32;
    let mut push = |ops: &mut Vec<Op>, ty: u8, bytes: Vec<u8>| {
        uid += 1;
        ops.push(Op { uid, v: 1, k: K::Raw { ty, bytes } });
    };
    let field = |r: &mut Rng| -> String {
        let ty = match r.below(8) {
            0 => { let n = r.range(0, 60); odd_text(r, n) }
            1 => "m0".to_string(),
            2 => r.pick(&["", "int32", "uint8", "string", "bool_", "Float", "m9", "_", "9"]).to_string(),
            3 => r.pick(&["float", "int32_t"]).to_string(),
            _ => r.pick(&ALL_B).text().to_string(),
        };
        let arr = match r.below(6) {
            0 => format!("[{}]", r.below(40)),
            1 => r.pick(&["[", "]", "[]", "[0]", "[-1]", "[1", "[1][2]", "[a]", "[65536]", "[1 ]", "[ 3]", "[é]"]).to_string(),
            _ => String::new(),
        };
        let name = match r.below(6) {
            0 | 1 => { let n = r.range(0, 240); odd_text(r, n) }
            2 => String::new(),
            3 => ident(r, 1, 200),
            _ => ident(r, 1, 20),
        };
        let sep = if r.pct(90) { " " } else { *r.pick(&["", "  ", ":", "\t", "\u{a0}"]) };
        let mut t = format!("{ty}{arr}{sep}{name}");
        if r.pct(8) {
            t.push_str(*r.pick(&[" x", ";", "é", "[3]", ":", "\0"]));
        }
        t
    };
    for _ in 0..r.range(1, 14) {
        match r.below(8) {
            0 => {
                let mut t = if r.pct(70) { format!("m{}:", r.below(3)) } else { let n = r.range(0, 40); odd_text(r, n) };
                if r.pct(60) {
                    t.push_str("uint64_t timestamp;");
                }
                for _ in 0..r.below(4) {
                    t.push_str(&field(r));
                    if r.pct(90) {
                        t.push(';');
                    }
                }
                push(&mut ops, b'F', t.into_bytes());
            }
            1 => {
                let mut b = vec![r.below(3) as u8, r.below(3) as u8, 0];
                b.extend(if r.pct(60) { format!("m{}", r.below(3)) } else { let n = r.range(0, 40); odd_text(r, n) }.into_bytes());
                push(&mut ops, b'A', b);
            }
            2 => {
                let mut b = vec![r.below(3) as u8, 0];
                for _ in 0..r.below(60) {
                    b.push(r.next() as u8);
                }
                push(&mut ops, b'D', b);
            }
            3 => {
                let mut b = vec![b'0' + r.below(8) as u8];
                b.extend_from_slice(&1u64.to_le_bytes());
                let n = r.range(0, 300);
                b.extend(odd_text(r, n).into_bytes());
                if r.pct(30) {
                    b.pop();
                }
                push(&mut ops, b'L', b);
            }
            k => {
                let ty = [b'I', b'M', b'P', b'Q'][k - 4];
                let key = field(r).into_bytes();
                let mut b = vec![];
                if ty == b'M' || ty == b'Q' {
                    b.push(r.below(4) as u8);
                }
                let n = key.len().min(255);
                b.push(if r.pct(90) { n } else { r.below(256) } as u8);
                b.extend_from_slice(&key[..if r.pct(95) { n } else { r.below(n + 1) }]);
                for _ in 0..*r.pick(&[0usize, 1, 4, 4, 4, 8, 40]) {
                    b.push(r.next() as u8);
                }
                push(&mut ops, ty, b);
            }
        }
    }
    LogSpec { version: 1, ts: 1, ops }
}
