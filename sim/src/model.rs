//! The executable reference model: writes a log and, independently of the code under test,
//! states what each of its messages must be decoded to.
use crate::derived::{DCfg, Desc, Fields, Ft, Map, Tv};
use crate::rng::{mix2, Rng};
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Val {
    S(B, Vec<u8>),
    A(B, usize, Vec<u8>),
    N(Box<Inst>),
    NA(Vec<Inst>),
    /// Content of a padding field: only its bytes count.
    Pad(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub struct Inst {
    pub name: String,
    pub ts: Option<u64>,
    pub fields: Vec<(String, String, Val)>,
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Item {
    Header { version: u8, ts: u64 },
    Flag { compat: [u8; 8], incompat: [u8; 8], offs: [u64; 3] },
    Format(String),
    Data { ts: u64, id: u16, multi: Option<u8>, def: String, inst: Inst },
    Sub { multi: u8, id: u16, name: String },
    Info { key: String, ty: String, val: Val },
    Multi { cont: bool, key: String, ty: String, val: Val },
    Param { key: String, ty: String, val: Val },
    DefParam { types: u8, key: String, ty: String, val: Val },
    Log { level: u8, tag: Option<u16>, tagged: bool, ts: u64, text: String },
    Dropout(u16),
    Unhandled { ty: u8, bytes: Vec<u8> },
    Ignored(u8),
}

impl Item {
    pub fn kind(&self) -> &'static str {
        match self {
            Item::Header { .. } => "header",
            Item::Flag { .. } => "flag",
            Item::Format(_) => "format",
            Item::Data { .. } => "data",
            Item::Sub { .. } => "sub",
            Item::Info { .. } => "info",
            Item::Multi { .. } => "multi",
            Item::Param { .. } => "param",
            Item::DefParam { .. } => "defparam",
            Item::Log { tag: None, .. } => "log",
            Item::Log { .. } => "taglog",
            Item::Dropout(_) => "dropout",
            Item::Unhandled { .. } => "unhandled",
            Item::Ignored(_) => "ignored",
        }
    }
}

/// What must be yielded for one message.
#[derive(Clone, PartialEq, Debug)]
pub enum Exp {
    Item(Item),
    /// A typed value of a derived stream.
    Typed(&'static str, Fields),
    /// An error that is not an I/O error.
    Err,
    /// Any one answer (the message was damaged).
    Any,
    /// An error of any kind, I/O included.
    AnyErr,
}

/// One expected answer: any of `alts`; it may also be missing if `optional`.
#[derive(Clone, PartialEq, Debug)]
pub struct Want {
    pub rec: usize,
    pub alts: Vec<Exp>,
    pub optional: bool,
}

impl Want {
    pub fn one(rec: usize, e: Exp) -> Want {
        Want { rec, alts: vec![e], optional: false }
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub uid: u32,
    /// Whole frame is bytes[start..end]; the file header has a frame too.
    pub start: usize,
    pub end: usize,
    pub exp: Exp,
    pub kind: &'static str,
    /// Can this message's content be damaged without affecting any other message?
    pub isolated: bool,
    /// Subscription in force after this message, by id (only kept when asked for).
    pub sub: Option<(u16, Option<(u8, String)>)>,
}

impl Rec {
    pub fn body(&self) -> usize {
        if self.uid == 0 { self.start } else { self.start + 3 }
    }
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub recs: Vec<Rec>,
    pub formats: BTreeMap<String, Fmt>,
    /// Where appended data begins, if the log announces any.
    pub limit: Option<usize>,
}

impl Built {
    /// The messages that are log content: those that end before appended data begins.
    pub fn content(&self) -> Vec<Rec> {
        self.recs.iter().filter(|r| self.before_limit(r)).cloned().collect()
    }
    pub fn before_limit(&self, r: &Rec) -> bool {
        self.limit.is_none_or(|x| r.end <= x)
    }
    /// Where the last message of the log's content ends.
    pub fn content_end(&self) -> usize {
        self.recs.iter().filter(|r| self.before_limit(r)).map(|r| r.end).max().unwrap_or(0)
    }
    pub fn rec(&self, uid: u32) -> Option<&Rec> {
        match self.recs.binary_search_by_key(&uid, |r| r.uid) {
            Ok(i) => Some(&self.recs[i]),
            Err(_) => self.recs.iter().find(|r| r.uid == uid),
        }
    }
    pub fn abs(&self, p: Pos) -> Option<usize> {
        self.rec(p.uid).map(|r| r.start + (p.byte as usize).min(r.end - r.start))
    }
}

pub fn gen_scalar(r: &mut Rng, b: B, zero: bool) -> Vec<u8> {
    let n = b.size();
    if zero {
        return vec![0; n];
    }
    if b == B::Bool {
        return vec![(r.next() & 1) as u8];
    }
    let pat = r.below(10);
    let raw: u64 = match (b, pat) {
        (B::F32, 0) => 0x7fc0_1234,
        (B::F32, 1) => 0xff80_0000,
        (B::F32, 2) => 0x8000_0000,
        (B::F32, 3) => 0x7fa0_0001,
        (B::F64, 3) => 0x7ff4_0000_0000_0001,
        (B::F64, 0) => 0x7ff8_0000_dead_beef,
        (B::F64, 1) => 0xfff0_0000_0000_0000,
        (B::F64, 2) => 0x8000_0000_0000_0000,
        (B::Char, 0..=7) => 0x20 + r.below(0x5f) as u64,
        (_, 0) => 0,
        (_, 1) => u64::MAX,
        (_, 2) => 1u64 << (8 * n - 1),
        (_, 3) => (1u64 << (8 * n - 1)).wrapping_sub(1),
        (_, 4) => r.below(256) as u64,
        _ => r.next(),
    };
    raw.to_le_bytes()[..n].to_vec()
}

pub struct Layout<'a> {
    pub formats: &'a BTreeMap<String, Fmt>,
}

impl<'a> Layout<'a> {
    /// Generate the bytes and the expected value of one instance of `f`.
    pub fn inst(&self, f: &Fmt, r: &mut Rng, zero: bool, out: &mut Vec<u8>, trim: bool) -> Option<Inst> {
        let mut fields = Vec::with_capacity(f.fields.len());
        let mut ts = None;
        let last = f.fields.len().wrapping_sub(1);
        for (i, fd) in f.fields.iter().enumerate() {
            if trim && i == last && fd.is_padding() {
                continue;
            }
            let start = out.len();
            let val = match (&fd.ty, fd.arr) {
                (Ty::P(b), None) => {
                    let v = gen_scalar(r, *b, zero);
                    out.extend_from_slice(&v);
                    if fd.name == "timestamp" && *b == B::U64 {
                        ts = Some(u64::from_le_bytes(v[..8].try_into().unwrap()));
                    }
                    Val::S(*b, v)
                }
                (Ty::P(b), Some(n)) => {
                    // Long arrays: cheap bytes, still attributable.
                    if n > 64 && *b != B::Bool {
                        let mut left = n * b.size();
                        while left > 0 {
                            let w = if zero { [0; 8] } else { r.next().to_le_bytes() };
                            let k = left.min(8);
                            out.extend_from_slice(&w[..k]);
                            left -= k;
                        }
                    } else {
                        for _ in 0..n {
                            let v = gen_scalar(r, *b, zero);
                            out.extend_from_slice(&v);
                        }
                    }
                    Val::A(*b, n, out[start..].to_vec())
                }
                (Ty::N(name), None) => {
                    let child = self.formats.get(name)?;
                    Val::N(Box::new(self.inst(child, r, zero, out, false)?))
                }
                (Ty::N(name), Some(n)) => {
                    let child = self.formats.get(name)?;
                    let mut v = Vec::with_capacity(n);
                    for _ in 0..n {
                        v.push(self.inst(child, r, zero, out, false)?);
                    }
                    Val::NA(v)
                }
            };
            let val = if fd.is_padding() { Val::Pad(out[start..].to_vec()) } else { val };
            // Whether padding of no bytes is listed makes no difference to anyone.
            if matches!(&val, Val::Pad(v) if v.is_empty()) {
                continue;
            }
            fields.push((fd.name.clone(), fd.type_text(), val));
        }
        Some(Inst { name: f.name.clone(), ts, fields })
    }

    pub fn size(&self, f: &Fmt, depth: usize) -> Option<usize> {
        if depth > 40 {
            return None;
        }
        let mut t = 0usize;
        for fd in &f.fields {
            let one = match &fd.ty {
                Ty::P(b) => b.size(),
                Ty::N(n) => self.size(self.formats.get(n)?, depth + 1)?,
            };
            t = t.checked_add(one.checked_mul(fd.arr.unwrap_or(1))?)?;
        }
        Some(t)
    }

    /// The number of values of no size in an instance, at most.
    fn empties(&self, f: &Fmt, depth: usize) -> usize {
        if depth > 40 {
            return usize::MAX;
        }
        let mut t = 0usize;
        for fd in &f.fields {
            let n = fd.arr.unwrap_or(1);
            t = t.saturating_add(match &fd.ty {
                _ if n == 0 => 1,
                Ty::P(_) => 0,
                Ty::N(name) => match self.formats.get(name) {
                    Some(c) => {
                        let own = (self.size(c, depth + 1) == Some(0)) as usize;
                        self.empties(c, depth + 1).saturating_add(own).saturating_mul(n)
                    }
                    None => usize::MAX,
                },
            });
        }
        t
    }

    /// Messages made of values of no size by the hundred are refused by the parser on purpose: they need not
    /// be long to take any amount of time.
    pub fn mostly_empty(&self, f: &Fmt) -> bool {
        self.empties(f, 0) > 200
    }
}

fn key_text(ty: B, arr: Option<usize>, key: &str) -> Vec<u8> {
    format!("{} {}", type_text(&Ty::P(ty), arr), key).into_bytes()
}

fn scalar_or_array(r: &mut Rng, ty: B, arr: Option<usize>, zero: bool, out: &mut Vec<u8>) -> Val {
    match arr {
        None => {
            let v = gen_scalar(r, ty, zero);
            out.extend_from_slice(&v);
            Val::S(ty, v)
        }
        Some(n) => {
            let s = out.len();
            for _ in 0..n {
                let v = gen_scalar(r, ty, zero);
                out.extend_from_slice(&v);
            }
            Val::A(ty, n, out[s..].to_vec())
        }
    }
}

pub fn build(spec: &LogSpec) -> Built {
    let mut m = Model::new(spec.version, spec.ts);
    for op in &spec.ops {
        m.push(op);
    }
    m.finish()
}

/// The model proper: current state of the log as its reader has to see it.
pub struct Model {
    pub bytes: Vec<u8>,
    pub recs: Vec<Rec>,
    pub formats: BTreeMap<String, Fmt>,
    pub subs: BTreeMap<u16, (u8, String)>,
    pub multi_names: BTreeSet<String>,
    pub in_data: bool,
    patches: Vec<(usize, usize, Off)>, // (byte offset of the field, rec index, what)
    patch_slots: Vec<usize>,
    /// Bytes already dropped from the front (streaming use).
    pub base: usize,
}

impl Model {
    pub fn new(version: u8, ts: u64) -> Model {
        let mut bytes = vec![b'U', b'L', b'o', b'g', 0x01, 0x12, 0x35, version];
        bytes.extend_from_slice(&ts.to_le_bytes());
        let recs = vec![Rec {
            uid: 0,
            start: 0,
            end: 16,
            exp: Exp::Item(Item::Header { version, ts }),
            kind: "header",
            isolated: false,
            sub: None,
        }];
        Model {
            bytes,
            recs,
            formats: BTreeMap::new(),
            subs: BTreeMap::new(),
            multi_names: BTreeSet::new(),
            in_data: false,
            patches: vec![],
            patch_slots: vec![],
            base: 0,
        }
    }

    /// Append one operation; returns false if it makes no sense in the current state (it is then
    /// left out, so that deleting operations always leaves a proper log).
    pub fn push(&mut self, op: &Op) -> bool {
        let zero = op.v == 0;
        let mut r = Rng::new(mix2(op.v, 77));
        let mut body: Vec<u8> = Vec::new();
        let mut isolated = false;
        let mut sub = None;
        let (ty, exp): (u8, Exp) = match &op.k {
            K::Flag { compat, incompat0, offs } => {
                if self.recs.len() != 1 {
                    return false;
                }
                body.extend_from_slice(compat);
                let mut inc = [0u8; 8];
                inc[0] = *incompat0;
                body.extend_from_slice(&inc);
                let ri = self.recs.len();
                let mut o = [0u64; 3];
                for (i, x) in offs.iter().enumerate() {
                    let at = self.bytes.len() + 3 + 16 + 8 * i;
                    match x {
                        None => {}
                        Some(Off::Abs(v)) => o[i] = *v,
                        Some(p) => {
                            self.patches.push((at, ri, *p));
                            self.patch_slots.push(i);
                        }
                    }
                    body.extend_from_slice(&o[i].to_le_bytes());
                }
                (b'B', Exp::Item(Item::Flag { compat: *compat, incompat: inc, offs: o }))
            }
            K::Format(f) => {
                if self.in_data {
                    return false;
                }
                let t = f.text();
                if t.len() > 65535 || f.fields.is_empty() {
                    return false;
                }
                body.extend_from_slice(t.as_bytes());
                self.formats.insert(f.name.clone(), f.clone());
                (b'F', Exp::Item(Item::Format(t)))
            }
            K::Info { key, ty, arr } => {
                let kt = key_text(*ty, *arr, key);
                if kt.len() > 255 {
                    return false;
                }
                body.push(kt.len() as u8);
                body.extend_from_slice(&kt);
                let val = scalar_or_array(&mut r, *ty, *arr, zero, &mut body);
                isolated = true;
                (b'I', Exp::Item(Item::Info { key: key.clone(), ty: type_text(&Ty::P(*ty), *arr), val }))
            }
            K::Multi { cont, key, ty, arr } => {
                let kt = key_text(*ty, *arr, key);
                if kt.len() > 255 {
                    return false;
                }
                body.push(*cont as u8);
                body.push(kt.len() as u8);
                body.extend_from_slice(&kt);
                let val = scalar_or_array(&mut r, *ty, *arr, zero, &mut body);
                isolated = true;
                (b'M', Exp::Item(Item::Multi { cont: *cont, key: key.clone(), ty: type_text(&Ty::P(*ty), *arr), val }))
            }
            K::Param { key, float } => {
                let t = if *float { B::F32 } else { B::I32 };
                let kt = key_text(t, None, key);
                if kt.len() > 255 {
                    return false;
                }
                body.push(kt.len() as u8);
                body.extend_from_slice(&kt);
                let val = scalar_or_array(&mut r, t, None, zero, &mut body);
                isolated = true;
                (b'P', Exp::Item(Item::Param { key: key.clone(), ty: t.text().into(), val }))
            }
            K::DefParam { types, key, float } => {
                let t = if *float { B::F32 } else { B::I32 };
                let kt = key_text(t, None, key);
                if kt.len() > 255 {
                    return false;
                }
                body.push(*types);
                body.push(kt.len() as u8);
                body.extend_from_slice(&kt);
                let val = scalar_or_array(&mut r, t, None, zero, &mut body);
                isolated = true;
                (b'Q', Exp::Item(Item::DefParam { types: *types, key: key.clone(), ty: t.text().into(), val }))
            }
            K::Sub { multi, id, name } => {
                if !self.formats.contains_key(name) {
                    return false;
                }
                body.push(*multi);
                body.extend_from_slice(&id.to_le_bytes());
                body.extend_from_slice(name.as_bytes());
                self.in_data = true;
                self.subs.insert(*id, (*multi, name.clone()));
                if *multi > 0 {
                    self.multi_names.insert(name.clone());
                }
                sub = Some((*id, Some((*multi, name.clone()))));
                (b'A', Exp::Item(Item::Sub { multi: *multi, id: *id, name: name.clone() }))
            }
            K::Unsub { id } => {
                if !self.in_data {
                    return false;
                }
                body.extend_from_slice(&id.to_le_bytes());
                self.subs.remove(id);
                sub = Some((*id, None));
                (b'R', Exp::Item(Item::Unhandled { ty: b'R', bytes: body.clone() }))
            }
            K::Data { id, trim } => {
                if !self.in_data {
                    return false;
                }
                isolated = true;
                body.extend_from_slice(&id.to_le_bytes());
                match self.subs.get(id) {
                    None => {
                        for _ in 0..r.below(24) {
                            body.push(r.next() as u8);
                        }
                        (b'D', Exp::Err)
                    }
                    Some((multi, name)) => {
                        let f = &self.formats[name];
                        let lay = Layout { formats: &self.formats };
                        match lay.size(f, 0) {
                            Some(n) if n + 2 <= 65535 && !lay.mostly_empty(f) => {}
                            _ => return false,
                        }
                        let Some(inst) = lay.inst(f, &mut r, zero, &mut body, *trim) else { return false };
                        let Some(ts) = inst.ts else { return false };
                        let multi = if self.multi_names.contains(name) { Some(*multi) } else { None };
                        (b'D', Exp::Item(Item::Data { ts, id: *id, multi, def: f.text(), inst }))
                    }
                }
            }
            K::Log { level, tag, text } => {
                if text.len() > 65535 - 11 {
                    return false;
                }
                let ts = if zero { 0 } else { r.next() };
                body.push(*level);
                if let Some(t) = tag {
                    body.extend_from_slice(&t.to_le_bytes());
                }
                body.extend_from_slice(&ts.to_le_bytes());
                body.extend_from_slice(text.as_bytes());
                isolated = true;
                (
                    if tag.is_some() { b'C' } else { b'L' },
                    Exp::Item(Item::Log { level: *level, tag: *tag, tagged: tag.is_some(), ts, text: text.clone() }),
                )
            }
            K::Dropout => {
                if !self.in_data {
                    return false;
                }
                let d = if zero { 0 } else { r.next() as u16 };
                body.extend_from_slice(&d.to_le_bytes());
                isolated = true;
                (b'O', Exp::Item(Item::Dropout(d)))
            }
            K::Sync => {
                if !self.in_data {
                    return false;
                }
                body.extend_from_slice(&[0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12]);
                isolated = true;
                (b'S', Exp::Item(Item::Unhandled { ty: b'S', bytes: body.clone() }))
            }
            K::Raw { ty, bytes } => {
                body.extend_from_slice(bytes);
                (*ty, Exp::Any)
            }
            K::Unknown { ty, len } => {
                while body.len() < *len {
                    let w = if zero { [0; 8] } else { r.next().to_le_bytes() };
                    let k = (*len - body.len()).min(8);
                    body.extend_from_slice(&w[..k]);
                }
                isolated = true;
                (*ty, Exp::Item(Item::Unhandled { ty: *ty, bytes: body.clone() }))
            }
        };
        if body.len() > 65535 {
            return false;
        }
        let start = self.base + self.bytes.len();
        self.bytes.extend_from_slice(&(body.len() as u16).to_le_bytes());
        self.bytes.push(ty);
        self.bytes.extend_from_slice(&body);
        let kind = match &exp {
            Exp::Item(i) => match (ty, i.kind()) {
                (b'R', _) => "unsub",
                (b'S', _) => "sync",
                (_, k) => k,
            },
            Exp::Err => "baddata",
            _ => "raw",
        };
        self.recs.push(Rec { uid: op.uid, start, end: self.base + self.bytes.len(), exp, kind, isolated, sub });
        true
    }

    pub fn finish(mut self) -> Built {
        let patches = std::mem::take(&mut self.patches);
        for (k, (at, ri, off)) in patches.into_iter().enumerate() {
            if let Off::At(p) = off {
                let abs = self
                    .recs
                    .iter()
                    .find(|r| r.uid == p.uid)
                    .map(|r| r.start + (p.byte as usize).min(r.end - r.start))
                    .unwrap_or(self.bytes.len()) as u64;
                self.bytes[at..at + 8].copy_from_slice(&abs.to_le_bytes());
                let slot = self.patch_slots[k];
                if let Exp::Item(Item::Flag { offs, .. }) = &mut self.recs[ri].exp {
                    offs[slot] = abs;
                }
            }
        }
        let limit = match self.recs.get(1).map(|r| &r.exp) {
            Some(Exp::Item(Item::Flag { incompat, offs, .. })) if incompat[0] & 1 != 0 => {
                offs.iter().copied().find(|o| *o > 0).map(|o| usize::try_from(o).unwrap_or(usize::MAX))
            }
            _ => None,
        };
        Built { bytes: self.bytes, recs: self.recs, formats: self.formats, limit }
    }
}

/// The parser options the model knows about.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Cfg {
    pub header: bool,
    pub ts: bool,
    pub pad: bool,
    pub allow: Option<Vec<String>>,
    /// Use the deprecated setter instead of the builder for the allow list.
    #[serde(default)]
    pub old_setter: bool,
    /// How the builder is told (the options mean the same): order of the calls, options set before
    /// to something else, empty calls.
    #[serde(default)]
    pub how: u32,
    /// Allow lists set later: after that many answers.
    #[serde(default)]
    pub relist: Vec<(u32, Vec<String>)>,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg { header: true, ts: true, pad: true, allow: None, old_setter: false, how: 0, relist: vec![] }
    }
    pub fn plain() -> Cfg {
        Cfg { header: false, ts: false, pad: false, allow: None, old_setter: false, how: 0, relist: vec![] }
    }
}

fn strip_pad(i: &mut Inst) {
    i.fields.retain(|f| !f.0.starts_with("_padding"));
    for f in &mut i.fields {
        match &mut f.2 {
            Val::N(n) => strip_pad(n),
            Val::NA(v) => v.iter_mut().for_each(strip_pad),
            _ => {}
        }
    }
}

pub fn apply_cfg(item: &Item, cfg: &Cfg) -> Option<Item> {
    match item {
        Item::Header { .. } => cfg.header.then(|| item.clone()),
        Item::Data { ts, id, multi, def, inst } => {
            if let Some(allow) = &cfg.allow {
                if !allow.contains(&inst.name) {
                    return Some(Item::Ignored(b'D'));
                }
            }
            let mut inst = inst.clone();
            if !cfg.pad {
                strip_pad(&mut inst);
            }
            if !cfg.ts {
                inst.fields.retain(|f| f.0 != "timestamp");
            }
            Some(Item::Data { ts: *ts, id: *id, multi: *multi, def: def.clone(), inst })
        }
        _ => Some(item.clone()),
    }
}

/// Expected answers of the low-level parser for the given records.
pub fn expected(recs: &[Rec], cfg: &Cfg) -> Vec<Want> {
    let mut out = Vec::with_capacity(recs.len());
    for (i, r) in recs.iter().enumerate() {
        match &r.exp {
            Exp::Item(it) => {
                let later = cfg.relist.iter().rev().find(|l| l.0 as usize <= out.len());
                let x = match later {
                    Some(l) => apply_cfg(it, &Cfg { allow: Some(l.1.clone()), ..cfg.clone() }),
                    None => apply_cfg(it, cfg),
                };
                if let Some(x) = x {
                    out.push(Want::one(i, Exp::Item(x)));
                }
            }
            e => out.push(Want::one(i, e.clone())),
        }
    }
    out
}

fn typed_value(ft: &Ft, v: &Val) -> Option<Tv> {
    match (ft, v) {
        (Ft::S(b), Val::S(c, x)) if b == c => Some(Tv::S(*b, x.clone())),
        (Ft::A(b), Val::A(c, n, x)) if b == c => Some(Tv::A(*b, *n, x.clone())),
        (Ft::N(d), Val::N(i)) => Some(Tv::N(typed(d, i)?)),
        (Ft::NA(d), Val::NA(v)) => Some(Tv::NA(v.iter().map(|i| typed(d, i)).collect::<Option<Vec<_>>>()?)),
        _ => None,
    }
}

/// The typed value of an instance, or None if a required field is missing or a type differs.
pub fn typed(d: &Desc, i: &Inst) -> Option<Fields> {
    let mut out = Vec::with_capacity(d.fields.len());
    for fd in d.fields {
        match i.fields.iter().find(|f| f.0 == fd.name) {
            None if fd.optional => out.push((fd.name, None)),
            None => return None,
            Some(f) => out.push((fd.name, Some(typed_value(&fd.ft, &f.2)?))),
        }
    }
    Some(out)
}

/// Expected answers of a derived stream.
pub fn expected_derived(recs: &[Rec], formats: &BTreeMap<String, Fmt>, d: &DCfg) -> Vec<Want> {
    enum Acc {
        Mapped(&'static Map),
        /// The log's format lacks a required field.
        Broken,
    }
    let maps = d.which.maps();
    let allow: BTreeSet<&str> =
        maps.iter().map(|m| m.name).chain(d.extra.iter().filter(|_| d.builder).map(|s| s.as_str())).collect();
    let fwd = d.which.forwards();
    let fwd_subs = d.builder && d.fwd_subs;
    let mut subs: BTreeMap<u16, Acc> = BTreeMap::new();
    let mut out = Vec::new();
    for (i, r) in recs.iter().enumerate() {
        let it = match &r.exp {
            Exp::Item(it) => it,
            e => {
                out.push(Want::one(i, e.clone()));
                continue;
            }
        };
        match it {
            Item::Header { .. } => {}
            Item::Sub { multi, id, name } => {
                subs.remove(id);
                if let Some(m) = maps.iter().find(|m| m.name == name && m.multi == *multi) {
                    let f = &formats[name];
                    let ok = m.desc.fields.iter().all(|fd| fd.optional || f.fields.iter().any(|x| x.name == fd.name));
                    if ok {
                        subs.insert(*id, Acc::Mapped(m));
                    } else {
                        subs.insert(*id, Acc::Broken);
                        out.push(Want::one(i, Exp::Err));
                    }
                } else if fwd && fwd_subs {
                    out.push(Want::one(i, Exp::Item(it.clone())));
                }
            }
            Item::Data { id, inst, .. } => {
                let raw = Exp::Item(it.clone());
                match subs.get(id) {
                    Some(Acc::Mapped(m)) => {
                        out.push(Want::one(i, match typed(m.desc, inst) {
                            Some(f) => Exp::Typed(m.variant, f),
                            None => Exp::Err,
                        }));
                    }
                    Some(Acc::Broken) => {
                        out.push(Want { rec: i, alts: vec![Exp::Err, raw, Exp::Item(Item::Ignored(b'D'))], optional: true })
                    }
                    None => {
                        let mapped_name = maps.iter().any(|m| m.name == inst.name);
                        let asked = d.builder && d.extra.contains(&inst.name);
                        if !fwd {
                        } else if asked || (!mapped_name && allow.contains(inst.name.as_str())) {
                            out.push(Want::one(i, raw));
                        } else if mapped_name {
                            // Another instance of a mapped name: shown raw or only as ignored.
                            out.push(Want { rec: i, alts: vec![raw, Exp::Item(Item::Ignored(b'D'))], optional: false });
                        } else {
                            out.push(Want::one(i, Exp::Item(Item::Ignored(b'D'))));
                        }
                    }
                }
            }
            _ => {
                if fwd {
                    out.push(Want::one(i, Exp::Item(it.clone())));
                }
            }
        }
    }
    out
}
