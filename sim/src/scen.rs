//! A scenario: everything one simulated run consists of, as plain data. Running it draws no
//! randomness, so a scenario written to a file is its own replay.
use crate::derived::DCfg;
use crate::io::{ReadPlan, WritePlan};
use crate::model::{self, Built, Cfg};
use crate::rng::Rng;
use crate::sched;
use crate::spec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Iface {
    Low(Cfg),
    Derived(DCfg),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum DOp {
    Flip(u8),
    Set(Vec<u8>),
    Fill { len: u32, byte: u8 },
    Rand { len: u32, seed: u64 },
    Del(u32),
    Dup(u32),
    Ins(Vec<u8>),
    InsRand { len: u32, seed: u64 },
    /// The whole message gets another length, its frame staying intact.
    Resize(u16),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Damage {
    pub at: Pos,
    pub op: DOp,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Arrive {
    pub blocking: bool,
    pub points: Vec<(Pos, u64)>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct LogInst {
    pub spec: LogSpec,
    pub iface: Iface,
    #[serde(default)]
    pub read: ReadPlan,
    #[serde(default)]
    pub write: WritePlan,
    #[serde(default)]
    pub cut: Option<Pos>,
    #[serde(default)]
    pub damage: Vec<Damage>,
    #[serde(default)]
    pub arrive: Option<Arrive>,
    /// Stop (and drop everything) after that many answers.
    #[serde(default)]
    pub abandon: Option<u32>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum DsOp {
    U8, U16, U32, U64, I8, I16, I32, F32, F64, Bool,
    Exact(u32),
    Str(u32),
    Skip(u32),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct DsPlan {
    pub len: u32,
    pub seed: u64,
    pub ops: Vec<DsOp>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub fam: String,
    pub logs: Vec<LogInst>,
    #[serde(default)]
    pub sched: sched::Plan,
    /// Output offsets at which the writing process dies, one per life.
    #[serde(default)]
    pub crashes: Vec<Pos>,
    #[serde(default)]
    pub ds: Option<DsPlan>,
    /// Numbers whose meaning depends on the property.
    #[serde(default)]
    pub n: Vec<u64>,
    /// Install a caller's logger that takes everything.
    #[serde(default)]
    pub trace: bool,
    #[serde(default)]
    pub env: crate::env::EnvPlan,
}

/// Apply damage, last position first so that positions stay valid. With `inside`, it is kept
/// inside the content of the message it names and preserves its length.
pub fn damaged(b: &Built, d: &[Damage], inside: bool) -> (Vec<u8>, Vec<u32>) {
    let mut bytes = b.bytes.clone();
    let mut hit = vec![];
    let mut v: Vec<(usize, usize, &Damage)> = d
        .iter()
        .filter_map(|d| {
            let r = b.rec(d.at.uid)?;
            let mut a = r.start + (d.at.byte as usize).min(r.end - r.start);
            let mut end = b.bytes.len();
            if inside {
                if r.body() >= r.end || !r.isolated {
                    return None;
                }
                a = a.clamp(r.body(), r.end - 1);
                end = r.end;
            }
            Some((a, end, d))
        })
        .collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    for (a, end, d) in v {
        let end = if inside { end } else { bytes.len() };
        let a = a.min(end);
        let room = end - a;
        let before = if inside { bytes.clone() } else { vec![] };
        match &d.op {
            DOp::Flip(m) => {
                if room > 0 {
                    bytes[a] ^= m;
                }
            }
            DOp::Set(s) => {
                let n = s.len().min(room);
                bytes[a..a + n].copy_from_slice(&s[..n]);
            }
            DOp::Fill { len, byte } => {
                let n = (*len as usize).min(room);
                bytes[a..a + n].fill(*byte);
            }
            DOp::Rand { len, seed } => {
                let mut r = Rng::new(*seed);
                let n = (*len as usize).min(room);
                for x in &mut bytes[a..a + n] {
                    *x = r.next() as u8;
                }
            }
            DOp::Del(n) if !inside => {
                let n = (*n as usize).min(room);
                bytes.drain(a..a + n);
            }
            DOp::Dup(n) if !inside => {
                let n = (*n as usize).min(room);
                let part = bytes[a..a + n].to_vec();
                bytes.splice(a..a, part);
            }
            DOp::Ins(s) if !inside => {
                bytes.splice(a..a, s.iter().copied());
            }
            DOp::InsRand { len, seed } if !inside => {
                let mut r = Rng::new(*seed);
                let part: Vec<u8> = (0..*len).map(|_| r.next() as u8).collect();
                bytes.splice(a..a, part);
            }
            DOp::Resize(n) if !inside => {
                let Some(r) = b.rec(d.at.uid).filter(|r| r.uid != 0) else { continue };
                let end = (r.end + bytes.len()).saturating_sub(b.bytes.len()).min(r.end).max(r.start + 3).min(bytes.len());
                if r.start + 3 > end {
                    continue;
                }
                let mut body = bytes[r.start + 3..end].to_vec();
                body.resize(*n as usize, 0x5a);
                bytes[r.start..r.start + 2].copy_from_slice(&n.to_le_bytes());
                bytes.splice(r.start + 3..end, body);
            }
            _ => continue,
        }
        if !inside || before != bytes {
            hit.push(d.at.uid);
        }
    }
    (bytes, hit)
}

impl LogInst {
    pub fn new(spec: LogSpec, iface: Iface) -> LogInst {
        LogInst {
            spec,
            iface,
            read: Default::default(),
            write: Default::default(),
            cut: None,
            damage: vec![],
            arrive: None,
            abandon: None,
        }
    }
    pub fn cfg(&self) -> Cfg {
        match &self.iface {
            Iface::Low(c) => c.clone(),
            Iface::Derived(_) => Cfg { header: false, ts: true, pad: true, allow: None, old_setter: false, how: 0, relist: vec![] },
        }
    }
    pub fn built(&self) -> Built {
        model::build(&self.spec)
    }
}
