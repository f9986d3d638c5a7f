//! Turns what the code under test yields into the model's vocabulary, through public API only.
use crate::model::{Inst, Item, Val};
use crate::spec::B;
use std::fmt::Write as _;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst};

/// One answer of an iterator under test.
#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Got {
    Item(Item),
    /// A typed value of a derived stream: enum variant and fields by log name.
    Typed(&'static str, crate::derived::Fields),
    /// (is I/O error: its kind), rendered text
    Err(Option<std::io::ErrorKind>, String),
}

pub fn err(e: &ULogError) -> Got {
    match e {
        ULogError::Io(e) => Got::Err(Some(e.kind()), e.to_string()),
        other => Got::Err(None, other.to_string()),
    }
}

pub fn base_text(b: &def::BaseType) -> String {
    use def::BaseType::*;
    match b {
        UINT8 => "uint8_t",
        UINT16 => "uint16_t",
        UINT32 => "uint32_t",
        UINT64 => "uint64_t",
        INT8 => "int8_t",
        INT16 => "int16_t",
        INT32 => "int32_t",
        INT64 => "int64_t",
        FLOAT => "float",
        DOUBLE => "double",
        BOOL => "bool",
        CHAR => "char",
        OTHER(s) => s,
    }
    .to_string()
}

pub fn type_text(t: &def::TypeExpr) -> String {
    let b = base_text(&t.base_type);
    match t.array_size {
        None => b,
        Some(n) => format!("{b}[{n}]"),
    }
}

pub fn format_text(f: &def::Format) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}:", f.name);
    for fd in &f.fields {
        let _ = write!(s, "{} {};", type_text(&fd.r#type), fd.name);
    }
    s
}

macro_rules! arr {
    ($b:expr, $v:expr) => {{
        let mut o = Vec::with_capacity($v.len() * $b.size());
        for x in $v {
            o.extend_from_slice(&x.to_le_bytes());
        }
        Val::A($b, $v.len(), o)
    }};
}

pub fn value(v: &inst::FieldValue) -> Val {
    use inst::FieldValue::*;
    match v {
        ScalarU8(x) => Val::S(B::U8, vec![*x]),
        ScalarU16(x) => Val::S(B::U16, x.to_le_bytes().to_vec()),
        ScalarU32(x) => Val::S(B::U32, x.to_le_bytes().to_vec()),
        ScalarU64(x) => Val::S(B::U64, x.to_le_bytes().to_vec()),
        ScalarI8(x) => Val::S(B::I8, x.to_le_bytes().to_vec()),
        ScalarI16(x) => Val::S(B::I16, x.to_le_bytes().to_vec()),
        ScalarI32(x) => Val::S(B::I32, x.to_le_bytes().to_vec()),
        ScalarI64(x) => Val::S(B::I64, x.to_le_bytes().to_vec()),
        ScalarF32(x) => Val::S(B::F32, x.to_bits().to_le_bytes().to_vec()),
        ScalarF64(x) => Val::S(B::F64, x.to_bits().to_le_bytes().to_vec()),
        ScalarBool(x) => Val::S(B::Bool, vec![*x as u8]),
        ScalarChar(c) => Val::S(B::Char, vec![c.0]),
        ScalarOther(f) => Val::N(Box::new(instance(f))),
        ArrayU8(v) => Val::A(B::U8, v.len(), v.clone()),
        ArrayU16(v) => arr!(B::U16, v),
        ArrayU32(v) => arr!(B::U32, v),
        ArrayU64(v) => arr!(B::U64, v),
        ArrayI8(v) => arr!(B::I8, v),
        ArrayI16(v) => arr!(B::I16, v),
        ArrayI32(v) => arr!(B::I32, v),
        ArrayI64(v) => arr!(B::I64, v),
        ArrayF32(v) => {
            let o: Vec<u8> = v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect();
            Val::A(B::F32, v.len(), o)
        }
        ArrayF64(v) => {
            let o: Vec<u8> = v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect();
            Val::A(B::F64, v.len(), o)
        }
        ArrayBool(v) => Val::A(B::Bool, v.len(), v.iter().map(|x| *x as u8).collect()),
        ArrayChar(v) => Val::A(B::Char, v.len(), v.iter().map(|c| c.0).collect()),
        ArrayOther(v) => Val::NA(v.iter().map(instance).collect()),
    }
}

pub fn raw(v: Val) -> Vec<u8> {
    match v {
        Val::S(_, b) | Val::A(_, _, b) | Val::Pad(b) => b,
        Val::N(i) => i.fields.into_iter().flat_map(|f| raw(f.2)).collect(),
        Val::NA(v) => v.into_iter().flat_map(|i| i.fields.into_iter().flat_map(|f| raw(f.2)).collect::<Vec<u8>>()).collect(),
    }
}

pub fn instance(f: &inst::Format) -> Inst {
    let fields = f
        .fields
        .iter()
        .map(|fd| {
            let v = value(&fd.value);
            let v = if fd.name.starts_with("_padding") { Val::Pad(raw(v)) } else { v };
            (fd.name.to_string(), type_text(&fd.r#type), v)
        })
        .filter(|(_, _, v)| !matches!(v, Val::Pad(b) if b.is_empty()))
        .collect();
    Inst { name: f.name.to_string(), ts: f.timestamp, fields }
}

fn param(v: &inst::ParameterValue) -> Val {
    match v {
        inst::ParameterValue::INT32(x) => Val::S(B::I32, x.to_le_bytes().to_vec()),
        inst::ParameterValue::FLOAT(x) => Val::S(B::F32, x.to_bits().to_le_bytes().to_vec()),
    }
}

pub fn data(d: &yule_log::model::msg::LoggedData) -> Item {
    Item::Data {
        ts: d.timestamp,
        id: d.msg_id,
        multi: d.data.multi_id_index,
        def: format_text(&d.data.def_format),
        inst: instance(&d.data),
    }
}

pub fn message(m: &UlogMessage) -> Item {
    match m {
        UlogMessage::Header(h) => Item::Header { version: h.version, ts: h.timestamp },
        UlogMessage::FlagBits(f) => {
            Item::Flag { compat: f.compat_flags, incompat: f.incompat_flags, offs: f.appended_data_offsets }
        }
        UlogMessage::FormatDefinition(f) => Item::Format(format_text(f)),
        UlogMessage::LoggedData(d) => data(d),
        UlogMessage::AddSubscription(s) => {
            Item::Sub { multi: s.multi_id, id: s.msg_id, name: s.message_name.clone() }
        }
        UlogMessage::Info(i) => Item::Info { key: i.key.clone(), ty: type_text(&i.r#type), val: value(&i.value) },
        UlogMessage::MultiInfo(i) => Item::Multi {
            cont: i.is_continued,
            key: i.key.clone(),
            ty: type_text(&i.r#type),
            val: value(&i.value),
        },
        UlogMessage::Parameter(p) => {
            Item::Param { key: p.key.clone(), ty: type_text(&p.r#type), val: param(&p.value) }
        }
        UlogMessage::DefaultParameter(p) => Item::DefParam {
            types: p.default_types,
            key: p.key.clone(),
            ty: type_text(&p.r#type),
            val: param(&p.value),
        },
        UlogMessage::LoggedString(l) => {
            Item::Log { level: l.level as u8, tag: l.tag, tagged: false, ts: l.timestamp, text: l.msg.clone() }
        }
        UlogMessage::TaggedLoggedString(l) => {
            Item::Log { level: l.level as u8, tag: l.tag, tagged: true, ts: l.timestamp, text: l.msg.clone() }
        }
        // The duration is not public; its printed form is.
        UlogMessage::DropoutMark(d) => Item::Dropout(d.to_string().parse().unwrap_or(u16::MAX)),
        UlogMessage::Unhandled { msg_type, message_contents } => {
            Item::Unhandled { ty: *msg_type, bytes: message_contents.clone() }
        }
        UlogMessage::Ignored { msg_type } => Item::Ignored(*msg_type),
    }
}

/// What the helpers on a message's values say of it: flattened values, single values, text.
#[allow(deprecated)]
pub fn helped(m: &UlogMessage) -> String {
    use yule_log::model::CCharSlice;
    let mut s = String::new();
    use inst::FieldValue;
    let mut value = |v: &FieldValue| {
        if let Some(l) = v.to_scalars() {
            let _ = write!(s, "{} {:?};", l.len(), l.first());
        }
        match v {
            FieldValue::ArrayChar(c) => {
                let _ = write!(s, "{:?} {:?} {:?} {}", c.to_string_lossy(), c.to_string_lossy_trimmed(), c.as_bytes(), c.trim_end_nul().len());
            }
            FieldValue::ScalarChar(c) => {
                let _ = write!(s, "{} {:?} {}", c, c.as_char(), c.as_u8());
            }
            _ => (),
        }
    };
    match m {
        UlogMessage::LoggedData(d) => {
            for f in &d.data.fields {
                value(&f.value);
            }
            for (k, v) in d.data.flatten() {
                let _ = write!(s, "{k}={v};");
            }
        }
        UlogMessage::Info(i) => value(&i.value),
        UlogMessage::MultiInfo(i) => value(&i.value),
        UlogMessage::FlagBits(f) => {
            let _ = write!(s, "{} {}", f.has_default_parameters(), f.has_data_appended());
        }
        UlogMessage::DefaultParameter(p) => {
            let _ = write!(s, "{}", std::mem::size_of_val(&p.get_default_type()));
        }
        _ => (),
    }
    s
}

/// Text of a message, with that of the helpers unless it is large.
pub fn render_all(m: &UlogMessage) -> String {
    let mut s = render(m);
    if s.len() < 20_000 {
        s += &helped(m);
    }
    s
}

/// Everything a user may print of a message.
pub fn render(m: &UlogMessage) -> String {
    let mut s = String::new();
    let _ = write!(s, "{m:?}");
    let _ = match m {
        UlogMessage::FormatDefinition(x) => write!(s, "{x}"),
        UlogMessage::LoggedData(x) => {
            let _ = write!(s, "{}", x.data);
            for f in &x.data.fields {
                let _ = write!(s, "{} {}", f.r#type, f.value);
            }
            Ok(())
        }
        UlogMessage::AddSubscription(x) => write!(s, "{x}"),
        UlogMessage::Info(x) => write!(s, "{x}"),
        UlogMessage::MultiInfo(x) => write!(s, "{x}"),
        UlogMessage::Parameter(x) => write!(s, "{x}"),
        UlogMessage::DefaultParameter(x) => write!(s, "{x}"),
        UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => write!(s, "{x}"),
        UlogMessage::DropoutMark(x) => write!(s, "{x}"),
        _ => Ok(()),
    };
    s
}
