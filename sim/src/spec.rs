//! What a simulated log consists of, as plain data. A `LogSpec` is a list of operations of the
//! simulated logger; `model::build` turns it into bytes and expected messages.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum B {
    U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Bool, Char,
}

pub const ALL_B: [B; 12] = [
    B::U8, B::U16, B::U32, B::U64, B::I8, B::I16, B::I32, B::I64, B::F32, B::F64, B::Bool, B::Char,
];

impl B {
    pub fn size(self) -> usize {
        match self {
            B::U8 | B::I8 | B::Bool | B::Char => 1,
            B::U16 | B::I16 => 2,
            B::U32 | B::I32 | B::F32 => 4,
            B::U64 | B::I64 | B::F64 => 8,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            B::U8 => "uint8_t",
            B::U16 => "uint16_t",
            B::U32 => "uint32_t",
            B::U64 => "uint64_t",
            B::I8 => "int8_t",
            B::I16 => "int16_t",
            B::I32 => "int32_t",
            B::I64 => "int64_t",
            B::F32 => "float",
            B::F64 => "double",
            B::Bool => "bool",
            B::Char => "char",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Ty {
    P(B),
    N(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub arr: Option<usize>,
}

impl Field {
    pub fn type_text(&self) -> String {
        type_text(&self.ty, self.arr)
    }
    pub fn is_padding(&self) -> bool {
        self.name.starts_with("_padding")
    }
}

pub fn type_text(ty: &Ty, arr: Option<usize>) -> String {
    let base = match ty {
        Ty::P(b) => b.text().to_string(),
        Ty::N(n) => n.clone(),
    };
    match arr {
        None => base,
        Some(n) => format!("{base}[{n}]"),
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Fmt {
    pub name: String,
    pub fields: Vec<Field>,
}

impl Fmt {
    /// Canonical text form, as a logger writes it.
    pub fn text(&self) -> String {
        let mut s = format!("{}:", self.name);
        for f in &self.fields {
            s.push_str(&f.type_text());
            s.push(' ');
            s.push_str(&f.name);
            s.push(';');
        }
        s
    }
}

/// A byte position that survives deletion of other operations: `byte` bytes into the message of
/// operation `uid` (uid 0 is the file header), clamped to the message's end.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Pos {
    pub uid: u32,
    pub byte: u32,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum K {
    Flag { compat: [u8; 8], incompat0: u8, offs: [Option<Off>; 3] },
    Format(Fmt),
    Info { key: String, ty: B, arr: Option<usize> },
    Multi { cont: bool, key: String, ty: B, arr: Option<usize> },
    Param { key: String, float: bool },
    DefParam { types: u8, key: String, float: bool },
    Sub { multi: u8, id: u16, name: String },
    Unsub { id: u16 },
    /// `trim`: leave out the last field if it is padding, as loggers do.
    Data { id: u16, trim: bool },
    Log { level: u8, tag: Option<u16>, text: String },
    Dropout,
    Sync,
    Unknown { ty: u8, len: usize },
    /// Arbitrary content (only where nothing is expected of it).
    Raw { ty: u8, bytes: Vec<u8> },
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Off {
    At(Pos),
    Abs(u64),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Op {
    pub uid: u32,
    /// Seed of the values carried by this message; 0 means all zero.
    pub v: u64,
    pub k: K,
}

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct LogSpec {
    pub version: u8,
    pub ts: u64,
    pub ops: Vec<Op>,
}
