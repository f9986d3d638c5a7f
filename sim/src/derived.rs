//! Typed structs and enums built with the repository's derive macros, and what the model knows
//! about them (written by hand, independently of the macros).
#![allow(dead_code)]
use crate::observe::{self, Got};
use crate::spec::B;
use std::io::Read;
use yule_log::errors::ULogError;
use yule_log::model::CChar;

/// Value of a field of a typed struct.
#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Tv {
    S(B, Vec<u8>),
    A(B, usize, Vec<u8>),
    N(Vec<(&'static str, Option<Tv>)>),
    NA(Vec<Vec<(&'static str, Option<Tv>)>>),
}

pub type Fields = Vec<(&'static str, Option<Tv>)>;

pub enum Ft {
    S(B),
    A(B),
    N(&'static Desc),
    NA(&'static Desc),
}

pub struct Fd {
    /// Name of the field in the log.
    pub name: &'static str,
    pub ft: Ft,
    pub optional: bool,
}

pub struct Desc {
    pub fields: &'static [Fd],
}

pub struct Map {
    pub variant: &'static str,
    pub name: &'static str,
    pub multi: u8,
    pub desc: &'static Desc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub enum Which {
    Full,
    Bare,
    Duo,
    Quad,
    Solo,
}

impl Which {
    pub fn maps(self) -> &'static [Map] {
        match self {
            Which::Full => FULL,
            Which::Bare => BARE,
            Which::Duo => DUO,
            Which::Quad => QUAD,
            Which::Solo => SOLO,
        }
    }
    pub fn forwards(self) -> bool {
        !matches!(self, Which::Bare | Which::Solo)
    }
}

/// Options of a derived stream.
#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
pub struct DCfg {
    pub which: Which,
    pub builder: bool,
    pub extra: Vec<String>,
    /// Give the extra names one by one instead of as a list.
    pub one_by_one: bool,
    pub fwd_subs: bool,
    /// How the builder is told (it means the same): order of the calls, mixed calls, options taken back.
    #[serde(default)]
    pub how: u32,
}

pub trait Tvs {
    fn tv(&self) -> Tv;
}

macro_rules! prim {
    ($t:ty, $b:expr, |$x:ident| $e:expr) => {
        impl Tvs for $t {
            fn tv(&self) -> Tv {
                let $x = self;
                Tv::S($b, $e)
            }
        }
        impl Tvs for Vec<$t> {
            fn tv(&self) -> Tv {
                Tv::A($b, self.len(), self.iter().flat_map(|$x| $e).collect())
            }
        }
    };
}
prim!(u8, B::U8, |x| vec![*x]);
prim!(u16, B::U16, |x| x.to_le_bytes().to_vec());
prim!(u32, B::U32, |x| x.to_le_bytes().to_vec());
prim!(u64, B::U64, |x| x.to_le_bytes().to_vec());
prim!(i8, B::I8, |x| x.to_le_bytes().to_vec());
prim!(i16, B::I16, |x| x.to_le_bytes().to_vec());
prim!(i32, B::I32, |x| x.to_le_bytes().to_vec());
prim!(i64, B::I64, |x| x.to_le_bytes().to_vec());
prim!(f32, B::F32, |x| x.to_bits().to_le_bytes().to_vec());
prim!(f64, B::F64, |x| x.to_bits().to_le_bytes().to_vec());
prim!(bool, B::Bool, |x| vec![*x as u8]);
prim!(CChar, B::Char, |x| vec![x.0]);

pub trait AsFields {
    fn fields(&self) -> Fields;
}

macro_rules! nested {
    ($t:ident) => {
        impl Tvs for $t {
            fn tv(&self) -> Tv {
                Tv::N(self.fields())
            }
        }
        impl Tvs for Vec<$t> {
            fn tv(&self) -> Tv {
                Tv::NA(self.iter().map(|x| x.fields()).collect())
            }
        }
    };
}

trait Opt {
    fn o(&self) -> Option<Tv>;
}
impl<T: Tvs> Opt for T {
    fn o(&self) -> Option<Tv> {
        Some(self.tv())
    }
}
struct O<'a, T>(&'a Option<T>);
impl<T: Tvs> O<'_, T> {
    fn o(&self) -> Option<Tv> {
        self.0.as_ref().map(|x| x.tv())
    }
}

use yule_log::ULogData;
use yule_log::ULogMessages;

#[derive(ULogData)]
pub struct Vec3 {
    x: f32,
    y: f32,
    z: f32,
}
impl AsFields for Vec3 {
    fn fields(&self) -> Fields {
        vec![("x", self.x.o()), ("y", self.y.o()), ("z", self.z.o())]
    }
}
nested!(Vec3);
pub static VEC3: Desc = Desc {
    fields: &[
        Fd { name: "x", ft: Ft::S(B::F32), optional: false },
        Fd { name: "y", ft: Ft::S(B::F32), optional: false },
        Fd { name: "z", ft: Ft::S(B::F32), optional: false },
    ],
};

#[derive(ULogData)]
pub struct Cell {
    id: u16,
    pos: Vec3,
    tag: Vec<CChar>,
    opt: Option<i32>,
}
impl AsFields for Cell {
    fn fields(&self) -> Fields {
        vec![("id", self.id.o()), ("pos", self.pos.o()), ("tag", self.tag.o()), ("opt", O(&self.opt).o())]
    }
}
nested!(Cell);
pub static CELL: Desc = Desc {
    fields: &[
        Fd { name: "id", ft: Ft::S(B::U16), optional: false },
        Fd { name: "pos", ft: Ft::N(&VEC3), optional: false },
        Fd { name: "tag", ft: Ft::A(B::Char), optional: false },
        Fd { name: "opt", ft: Ft::S(B::I32), optional: true },
    ],
};

#[derive(ULogData)]
pub struct Alpha {
    timestamp: u64,
    x: f32,
    y: f32,
    count: u32,
    note: Option<i16>,
}
impl AsFields for Alpha {
    fn fields(&self) -> Fields {
        vec![
            ("timestamp", self.timestamp.o()),
            ("x", self.x.o()),
            ("y", self.y.o()),
            ("count", self.count.o()),
            ("note", O(&self.note).o()),
        ]
    }
}
pub static ALPHA: Desc = Desc {
    fields: &[
        Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false },
        Fd { name: "x", ft: Ft::S(B::F32), optional: false },
        Fd { name: "y", ft: Ft::S(B::F32), optional: false },
        Fd { name: "count", ft: Ft::S(B::U32), optional: false },
        Fd { name: "note", ft: Ft::S(B::I16), optional: true },
    ],
};

#[derive(ULogData)]
#[yule_log(subscription_name = "alpha", multi_id = 1)]
pub struct AlphaOne {
    timestamp: u64,
    y: f32,
    x: Option<f32>,
}
impl AsFields for AlphaOne {
    fn fields(&self) -> Fields {
        vec![("timestamp", self.timestamp.o()), ("y", self.y.o()), ("x", O(&self.x).o())]
    }
}
pub static ALPHA_ONE: Desc = Desc {
    fields: &[
        Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false },
        Fd { name: "y", ft: Ft::S(B::F32), optional: false },
        Fd { name: "x", ft: Ft::S(B::F32), optional: true },
    ],
};

#[derive(ULogData)]
pub struct Beta {
    timestamp: u64,
    pos: Vec3,
    cells: Vec<Cell>,
    extra: Option<Vec3>,
    more: Option<Vec<u8>>,
}
impl AsFields for Beta {
    fn fields(&self) -> Fields {
        vec![
            ("timestamp", self.timestamp.o()),
            ("pos", self.pos.o()),
            ("cells", self.cells.o()),
            ("extra", O(&self.extra).o()),
            ("more", O(&self.more).o()),
        ]
    }
}
pub static BETA: Desc = Desc {
    fields: &[
        Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false },
        Fd { name: "pos", ft: Ft::N(&VEC3), optional: false },
        Fd { name: "cells", ft: Ft::NA(&CELL), optional: false },
        Fd { name: "extra", ft: Ft::N(&VEC3), optional: true },
        Fd { name: "more", ft: Ft::A(B::U8), optional: true },
    ],
};

#[derive(ULogData)]
#[yule_log(multi_id = 3)]
pub struct Gamma {
    #[yule_log(field_name = "timestamp")]
    time: u64,
    #[yule_log(field_name = "raw_level")]
    level: i8,
    flag: bool,
    #[yule_log(field_name = "opt_z")]
    z: Option<u64>,
}
impl AsFields for Gamma {
    fn fields(&self) -> Fields {
        vec![
            ("timestamp", self.time.o()),
            ("raw_level", self.level.o()),
            ("flag", self.flag.o()),
            ("opt_z", O(&self.z).o()),
        ]
    }
}
pub static GAMMA: Desc = Desc {
    fields: &[
        Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false },
        Fd { name: "raw_level", ft: Ft::S(B::I8), optional: false },
        Fd { name: "flag", ft: Ft::S(B::Bool), optional: false },
        Fd { name: "opt_z", ft: Ft::S(B::U64), optional: true },
    ],
};

macro_rules! all_types {
    ($( $n:ident : $t:ty = $ft:expr ),* ; $( $on:ident : $ot:ty = $oft:expr ),*) => {
        #[derive(ULogData)]
        pub struct AllTypes {
            $( $n: $t, )*
            $( $on: Option<$ot>, )*
        }
        impl AsFields for AllTypes {
            fn fields(&self) -> Fields {
                vec![ $( (stringify!($n), self.$n.o()), )* $( (stringify!($on), O(&self.$on).o()), )* ]
            }
        }
        pub static ALL_TYPES: Desc = Desc { fields: &[
            $( Fd { name: stringify!($n), ft: $ft, optional: false }, )*
            $( Fd { name: stringify!($on), ft: $oft, optional: true }, )*
        ] };
    };
}
all_types!(
    timestamp: u64 = Ft::S(B::U64),
    a_u8: u8 = Ft::S(B::U8), a_u16: u16 = Ft::S(B::U16), a_u32: u32 = Ft::S(B::U32), a_u64: u64 = Ft::S(B::U64),
    a_i8: i8 = Ft::S(B::I8), a_i16: i16 = Ft::S(B::I16), a_i32: i32 = Ft::S(B::I32), a_i64: i64 = Ft::S(B::I64),
    a_f32: f32 = Ft::S(B::F32), a_f64: f64 = Ft::S(B::F64), a_bool: bool = Ft::S(B::Bool), a_char: CChar = Ft::S(B::Char),
    v_u8: Vec<u8> = Ft::A(B::U8), v_u16: Vec<u16> = Ft::A(B::U16), v_u32: Vec<u32> = Ft::A(B::U32), v_u64: Vec<u64> = Ft::A(B::U64),
    v_i8: Vec<i8> = Ft::A(B::I8), v_i16: Vec<i16> = Ft::A(B::I16), v_i32: Vec<i32> = Ft::A(B::I32), v_i64: Vec<i64> = Ft::A(B::I64),
    v_f32: Vec<f32> = Ft::A(B::F32), v_f64: Vec<f64> = Ft::A(B::F64), v_bool: Vec<bool> = Ft::A(B::Bool), v_char: Vec<CChar> = Ft::A(B::Char),
    n: Vec3 = Ft::N(&VEC3), vn: Vec<Vec3> = Ft::NA(&VEC3) ;
    o_u8: u8 = Ft::S(B::U8), o_f64: f64 = Ft::S(B::F64), o_bool: bool = Ft::S(B::Bool), o_vi16: Vec<i16> = Ft::A(B::I16), o_n: Cell = Ft::N(&CELL), o_vn: Vec<Cell> = Ft::NA(&CELL)
);

#[derive(ULogData)]
#[yule_log(subscription_name = "not_a_subscription", multi_id = 9)]
pub struct Rig {
    lead: Cell,
    #[yule_log(field_name = "spares")]
    others: Option<Vec<Cell>>,
    gain: Vec<f64>,
}
impl AsFields for Rig {
    fn fields(&self) -> Fields {
        vec![("lead", self.lead.o()), ("spares", O(&self.others).o()), ("gain", self.gain.o())]
    }
}
nested!(Rig);
pub static RIG: Desc = Desc {
    fields: &[
        Fd { name: "lead", ft: Ft::N(&CELL), optional: false },
        Fd { name: "spares", ft: Ft::NA(&CELL), optional: true },
        Fd { name: "gain", ft: Ft::A(B::F64), optional: false },
    ],
};

/// The names of most of its fields are not those of the log.
#[derive(ULogData)]
#[yule_log(multi_id = 255)]
pub struct GPSPosition {
    #[yule_log(field_name = "fixType")]
    fix: u8,
    #[yule_log(field_name = "rig")]
    mount: Rig,
    #[yule_log(field_name = "rigs")]
    mounts: Option<Vec<Rig>>,
    timestamp: u64,
    #[yule_log(field_name = "names")]
    labels: Option<Vec<CChar>>,
    #[yule_log(field_name = "fix")]
    fix_type: Option<i64>,
    #[yule_log(field_name = "at")]
    place: Option<Vec3>,
}
impl AsFields for GPSPosition {
    fn fields(&self) -> Fields {
        vec![
            ("fixType", self.fix.o()),
            ("rig", self.mount.o()),
            ("rigs", O(&self.mounts).o()),
            ("timestamp", self.timestamp.o()),
            ("names", O(&self.labels).o()),
            ("fix", O(&self.fix_type).o()),
            ("at", O(&self.place).o()),
        ]
    }
}
pub static GPS: Desc = Desc {
    fields: &[
        Fd { name: "fixType", ft: Ft::S(B::U8), optional: false },
        Fd { name: "rig", ft: Ft::N(&RIG), optional: false },
        Fd { name: "rigs", ft: Ft::NA(&RIG), optional: true },
        Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false },
        Fd { name: "names", ft: Ft::A(B::Char), optional: true },
        Fd { name: "fix", ft: Ft::S(B::I64), optional: true },
        Fd { name: "at", ft: Ft::N(&VEC3), optional: true },
    ],
};

/// Nothing in it is required.
#[derive(ULogData)]
#[yule_log(subscription_name = "only_opt")]
pub struct Whatever {
    a: Option<u8>,
    b: Option<Vec3>,
    c: Option<Vec<f64>>,
    d: Option<bool>,
    e: Option<CChar>,
}
impl AsFields for Whatever {
    fn fields(&self) -> Fields {
        vec![("a", O(&self.a).o()), ("b", O(&self.b).o()), ("c", O(&self.c).o()), ("d", O(&self.d).o()), ("e", O(&self.e).o())]
    }
}
pub static WHATEVER: Desc = Desc {
    fields: &[
        Fd { name: "a", ft: Ft::S(B::U8), optional: true },
        Fd { name: "b", ft: Ft::N(&VEC3), optional: true },
        Fd { name: "c", ft: Ft::A(B::F64), optional: true },
        Fd { name: "d", ft: Ft::S(B::Bool), optional: true },
        Fd { name: "e", ft: Ft::S(B::Char), optional: true },
    ],
};

/// Two instances of one message, both of them as nothing but their time.
#[derive(ULogData)]
#[yule_log(subscription_name = "alpha", multi_id = 2)]
pub struct AlphaTwo {
    timestamp: u64,
}
impl AsFields for AlphaTwo {
    fn fields(&self) -> Fields {
        vec![("timestamp", self.timestamp.o())]
    }
}
pub static ALPHA_TWO: Desc = Desc { fields: &[Fd { name: "timestamp", ft: Ft::S(B::U64), optional: false }] };

pub static QUAD: &[Map] = &[
    Map { variant: "Gps", name: "gps_position", multi: 255, desc: &GPS },
    Map { variant: "Two", name: "alpha", multi: 2, desc: &ALPHA_TWO },
    Map { variant: "Any", name: "only_opt", multi: 0, desc: &WHATEVER },
    Map { variant: "Gamma", name: "gamma", multi: 3, desc: &GAMMA },
];
pub static SOLO: &[Map] = &[Map { variant: "Whatever", name: "only_opt", multi: 0, desc: &WHATEVER }];
pub static FULL: &[Map] = &[
    Map { variant: "Alpha", name: "alpha", multi: 0, desc: &ALPHA },
    Map { variant: "AlphaOne", name: "alpha", multi: 1, desc: &ALPHA_ONE },
    Map { variant: "Beta", name: "beta", multi: 0, desc: &BETA },
    Map { variant: "Gamma", name: "gamma", multi: 3, desc: &GAMMA },
    Map { variant: "AllTypes", name: "all_types", multi: 0, desc: &ALL_TYPES },
];
pub static BARE: &[Map] = &[
    Map { variant: "Alpha", name: "alpha", multi: 0, desc: &ALPHA },
    Map { variant: "Beta", name: "beta", multi: 0, desc: &BETA },
    Map { variant: "AllTypes", name: "all_types", multi: 0, desc: &ALL_TYPES },
];
pub static DUO: &[Map] = &[
    Map { variant: "AlphaOne", name: "alpha", multi: 1, desc: &ALPHA_ONE },
    Map { variant: "Gamma", name: "gamma", multi: 3, desc: &GAMMA },
];

pub trait ToGot {
    fn got(&self) -> Got;
}

/// An iterator of a derived stream, its items turned into the model's vocabulary.
/// Given k, it is asked for the answer after the next k ones (`nth`).
#[cfg(not(feature = "handoff"))]
pub type Stream = Box<dyn FnMut(usize) -> (Option<Got>, Hint)>;
/// In the thread-safe build, parsers and streams can be handed to other threads.
#[cfg(feature = "handoff")]
pub type Stream = Box<dyn FnMut(usize) -> (Option<Got>, Hint) + Send>;
pub type Hint = (usize, Option<usize>);

/// Ask an iterator in one of several ways.
pub fn ask<I: Iterator>(it: &mut I, k: usize) -> (Option<I::Item>, Hint) {
    let h = it.size_hint();
    (if k == 0 { it.next() } else { it.nth(k) }, h)
}

macro_rules! stream_of {
    () => {
        pub fn open<R: Read + Send + 'static>(r: R, c: &DCfg) -> Result<Stream, ULogError> {
            if !c.builder {
                let mut it = Msgs::stream(r)?;
                return Ok(Box::new(move |k| wrap(alloc::enter(|| ask(&mut it, k)))));
            }
            let mut b = alloc::enter(|| Msgs::builder(r));
            let bit = |k: u32| c.how >> k & 1 == 1;
            // Forwarding of subscriptions: said first or last, said more than once; the last word counts.
            if !bit(0) || bit(1) {
                if bit(2) && c.which.forwards() {
                    b = b.forward_subscriptions(!c.fwd_subs)?;
                }
                if c.fwd_subs || bit(2) || bit(3) {
                    b = b.forward_subscriptions(c.fwd_subs)?;
                }
            }
            let late = bit(0);
            if c.how >> 4 & 3 == 1 && c.extra.len() > 1 {
                // Some one by one, some in lists, an empty list between.
                let k = 1 + (c.how >> 6) as usize % (c.extra.len() - 1);
                if bit(12) {
                    b = b.add_subscription(c.extra[0].as_str())?.extend_subscriptions(c.extra[1..k].iter())?;
                } else {
                    b = b.extend_subscriptions(c.extra[..k].iter().map(|s| s.as_str()))?;
                }
                if bit(13) {
                    b = b.extend_subscriptions(Vec::<String>::new())?;
                }
                if bit(14) {
                    b = b.extend_subscriptions(c.extra[k..].to_vec())?;
                } else {
                    for n in &c.extra[k..] {
                        b = b.add_subscription(n.clone())?;
                    }
                }
            } else if c.one_by_one {
                for n in &c.extra {
                    b = b.add_subscription(n.clone())?;
                }
            } else if !c.extra.is_empty() {
                b = b.extend_subscriptions(c.extra.iter().cloned())?;
            }
            if late && (c.fwd_subs || bit(3)) {
                b = b.forward_subscriptions(c.fwd_subs)?;
            }
            let mut it = alloc::enter(|| b.stream())?;
            Ok(Box::new(move |k| wrap(alloc::enter(|| ask(&mut it, k)))))
        }
        fn wrap((x, h): (Option<Result<Msgs, ULogError>>, Hint)) -> (Option<Got>, Hint) {
            let g = x.as_ref().map(|x| match x {
                Ok(m) => m.got(),
                Err(e) => observe::err(e),
            });
            (g, h)
        }
    };
}

pub mod full {
    use super::*;
    use crate::alloc;
    use yule_log::model::msg::UlogMessage;
    #[derive(ULogMessages)]
    pub enum Msgs {
        Alpha(Alpha),
        AlphaOne(AlphaOne),
        Beta(Beta),
        Gamma(Gamma),
        AllTypes(AllTypes),
        #[yule_log(forward_other)]
        Rest(UlogMessage),
    }
    impl ToGot for Msgs {
        fn got(&self) -> Got {
            match self {
                Msgs::Alpha(a) => Got::Typed("Alpha", a.fields()),
                Msgs::AlphaOne(a) => Got::Typed("AlphaOne", a.fields()),
                Msgs::Beta(a) => Got::Typed("Beta", a.fields()),
                Msgs::Gamma(a) => Got::Typed("Gamma", a.fields()),
                Msgs::AllTypes(a) => Got::Typed("AllTypes", a.fields()),
                Msgs::Rest(m) => Got::Item(observe::message(m)),
            }
        }
    }
    stream_of!();
}

pub mod bare {
    use super::*;
    use crate::alloc;
    #[derive(ULogMessages)]
    pub enum Msgs {
        Alpha(Alpha),
        Beta(Beta),
        AllTypes(AllTypes),
    }
    impl ToGot for Msgs {
        fn got(&self) -> Got {
            match self {
                Msgs::Alpha(a) => Got::Typed("Alpha", a.fields()),
                Msgs::Beta(a) => Got::Typed("Beta", a.fields()),
                Msgs::AllTypes(a) => Got::Typed("AllTypes", a.fields()),
            }
        }
    }
    stream_of!();
}

pub mod duo {
    use super::*;
    use crate::alloc;
    use yule_log::model::msg::UlogMessage;
    #[derive(ULogMessages)]
    pub enum Msgs {
        #[yule_log(forward_other)]
        Other(UlogMessage),
        Gamma(Gamma),
        AlphaOne(AlphaOne),
    }
    impl ToGot for Msgs {
        fn got(&self) -> Got {
            match self {
                Msgs::AlphaOne(a) => Got::Typed("AlphaOne", a.fields()),
                Msgs::Gamma(a) => Got::Typed("Gamma", a.fields()),
                Msgs::Other(m) => Got::Item(observe::message(m)),
            }
        }
    }
    stream_of!();
}

pub mod quad {
    use super::*;
    use crate::alloc;
    use yule_log::model::msg::UlogMessage;
    #[derive(ULogMessages)]
    pub enum Msgs {
        Gps(GPSPosition),
        Two(AlphaTwo),
        #[yule_log(forward_other)]
        Forwarded(UlogMessage),
        Any(Whatever),
        Gamma(Gamma),
    }
    impl ToGot for Msgs {
        fn got(&self) -> Got {
            match self {
                Msgs::Gps(a) => Got::Typed("Gps", a.fields()),
                Msgs::Two(a) => Got::Typed("Two", a.fields()),
                Msgs::Any(a) => Got::Typed("Any", a.fields()),
                Msgs::Gamma(a) => Got::Typed("Gamma", a.fields()),
                Msgs::Forwarded(m) => Got::Item(observe::message(m)),
            }
        }
    }
    stream_of!();
}

pub mod solo {
    use super::*;
    use crate::alloc;
    #[derive(ULogMessages)]
    pub enum Msgs {
        Whatever(Whatever),
    }
    impl ToGot for Msgs {
        fn got(&self) -> Got {
            match self {
                Msgs::Whatever(a) => Got::Typed("Whatever", a.fields()),
            }
        }
    }
    stream_of!();
}

pub fn open<R: Read + Send + 'static>(r: R, c: &DCfg) -> Result<Stream, ULogError> {
    match c.which {
        Which::Quad => quad::open(r, c),
        Which::Solo => solo::open(r, c),
        Which::Full => full::open(r, c),
        Which::Bare => bare::open(r, c),
        Which::Duo => duo::open(r, c),
    }
}
