//! Argument values: what goes in (`Ser`, any shape serde can express), and what it denotes (`Val`).

use std::collections::{BTreeMap, HashMap};
use std::fmt;

use serde::de::{self, Deserialize, Deserializer, SeqAccess, Visitor};
use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use serde_json::Value;
use simrt::rng::Rng;

/// What a socket.io argument denotes. Non-negative integers are always `U`.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Val {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Arr(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

impl Val {
    pub fn int(x: i64) -> Val {
        if x >= 0 {
            Val::U(x as u64)
        } else {
            Val::I(x)
        }
    }

    pub fn s(x: &str) -> Val {
        Val::Str(x.to_string())
    }

    /// Object keys in a canonical order.
    pub fn canon(&self) -> Val {
        match self {
            Val::Arr(x) => Val::Arr(x.iter().map(Val::canon).collect()),
            Val::Obj(x) => {
                let mut v: Vec<(String, Val)> = x.iter().map(|(k, v)| (k.clone(), v.canon())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                Val::Obj(v)
            }
            x => x.clone(),
        }
    }

    /// Bytes written as an array of numbers, the form they take in a plain JSON value.
    pub fn flat(&self) -> Val {
        match self {
            Val::Bytes(b) => Val::Arr(b.iter().map(|x| Val::U(*x as u64)).collect()),
            Val::Arr(x) => Val::Arr(x.iter().map(Val::flat).collect()),
            Val::Obj(x) => Val::Obj(x.iter().map(|(k, v)| (k.clone(), v.flat())).collect()),
            x => x.clone(),
        }
    }

    pub fn has_bytes(&self) -> bool {
        match self {
            Val::Bytes(_) => true,
            Val::Arr(x) => x.iter().any(Val::has_bytes),
            Val::Obj(x) => x.iter().any(|(_, v)| v.has_bytes()),
            _ => false,
        }
    }

    pub fn atts(&self) -> usize {
        match self {
            Val::Bytes(_) => 1,
            Val::Arr(x) => x.iter().map(Val::atts).sum(),
            Val::Obj(x) => x.iter().map(|(_, v)| v.atts()).sum(),
            _ => 0,
        }
    }

    pub fn from_json(v: &Value) -> Val {
        match v {
            Value::Null => Val::Null,
            Value::Bool(b) => Val::Bool(*b),
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    Val::U(u)
                } else if let Some(i) = n.as_i64() {
                    Val::I(i)
                } else {
                    Val::F(n.as_f64().unwrap())
                }
            }
            Value::String(s) => Val::Str(s.clone()),
            Value::Array(a) => Val::Arr(a.iter().map(Val::from_json).collect()),
            Value::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), Val::from_json(v))).collect()).canon(),
        }
    }

    /// Fill in placeholders; None if one is malformed, out of range or an attachment is left over
    /// or used twice.
    pub fn resolve(args: Vec<Val>, atts: &[Vec<u8>]) -> Option<Vec<Val>> {
        let mut used = vec![false; atts.len()];
        let out: Option<Vec<Val>> = args.into_iter().map(|v| v.resolve_one(atts, &mut used)).collect();
        if used.iter().all(|x| *x) {
            out
        } else {
            None
        }
    }

    fn resolve_one(self, atts: &[Vec<u8>], used: &mut [bool]) -> Option<Val> {
        Some(match self {
            Val::Arr(x) => Val::Arr(x.into_iter().map(|v| v.resolve_one(atts, used)).collect::<Option<_>>()?),
            Val::Obj(x) => {
                if x.iter().any(|(k, _)| k == "_placeholder") {
                    if x.len() != 2 || !x.contains(&("_placeholder".to_string(), Val::Bool(true))) {
                        return None;
                    }
                    let n = match x.iter().find(|(k, _)| k == "num") {
                        Some((_, Val::U(n))) => *n as usize,
                        _ => return None,
                    };
                    if n >= atts.len() || used[n] {
                        return None;
                    }
                    used[n] = true;
                    return Some(Val::Bytes(atts[n].clone()));
                }
                Val::Obj(x.into_iter().map(|(k, v)| Some((k, v.resolve_one(atts, used)?))).collect::<Option<_>>()?)
            }
            x => x,
        })
    }

    pub fn size(&self) -> usize {
        match self {
            Val::Arr(x) => 1 + x.iter().map(Val::size).sum::<usize>(),
            Val::Obj(x) => 1 + x.iter().map(|(k, v)| k.len() + v.size()).sum::<usize>(),
            Val::Str(s) => 1 + s.len(),
            Val::Bytes(s) => 1 + s.len(),
            _ => 1,
        }
    }
}

impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Null => write!(f, "null"),
            Val::Bool(b) => write!(f, "{}", b),
            Val::U(x) => write!(f, "{}", x),
            Val::I(x) => write!(f, "{}", x),
            Val::F(x) => write!(f, "{:?}", x),
            Val::Str(s) if s.chars().count() > 60 => write!(f, "{:?}..({} bytes)", s.chars().take(20).collect::<String>(), s.len()),
            Val::Str(s) => write!(f, "{:?}", s),
            Val::Bytes(b) if b.len() > 24 => write!(f, "bytes{:?}..({})", &b[..8], b.len()),
            Val::Bytes(b) => write!(f, "bytes{:?}", b),
            Val::Arr(x) => {
                write!(f, "[")?;
                for (i, v) in x.iter().enumerate() {
                    write!(f, "{}{}", if i > 0 { "," } else { "" }, v)?;
                }
                write!(f, "]")
            }
            Val::Obj(x) => {
                write!(f, "{{")?;
                for (i, (k, v)) in x.iter().enumerate() {
                    write!(f, "{}{:?}:{}", if i > 0 { "," } else { "" }, k, v)?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn show(args: &[Val]) -> String {
    let mut s = String::from("[");
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&a.to_string());
    }
    s.push(']');
    s
}

// ---- outgoing ------------------------------------------------------------------------------------

/// A Rust value of any shape serde can express, as a user would hand it to `arg`.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Ser {
    Unit,
    None,
    Some(Box<Ser>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    /// `Vec<T>`; the flag says whether the length is announced.
    Seq(Vec<Ser>, bool),
    /// `Vec<u8>`.
    U8s(Vec<u8>),
    Tuple(Vec<Ser>),
    TupleStruct(Vec<Ser>),
    TupleVariant(u8, Vec<Ser>),
    Map(Vec<(Key, Ser)>, bool),
    Struct(Vec<Ser>),
    StructVariant(u8, Vec<Ser>),
    Newtype(Box<Ser>),
    NewtypeVariant(u8, Box<Ser>),
    UnitStruct,
    UnitVariant(u8),
    /// A value whose serialization fails.
    Fail,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Key {
    S(String),
    U(u64),
    I(i64),
    C(char),
    /// A unit variant as key.
    V(u8),
    /// Not representable as a JSON key: serialization must fail.
    Bad,
}

pub const FIELDS: [&str; 8] = ["f0", "name", "data", "x y", "ключ", "q\"q", "type", "num"];
pub const VARIANTS: [&str; 4] = ["A", "Variant", "é", "b-c"];

struct KeyArg<'a>(&'a Key);

impl Serialize for KeyArg<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Key::S(k) => s.serialize_str(k),
            Key::U(k) => s.serialize_u64(*k),
            Key::I(k) => s.serialize_i64(*k),
            Key::C(k) => s.serialize_char(*k),
            Key::V(k) => s.serialize_unit_variant("K", *k as u32, VARIANTS[*k as usize % VARIANTS.len()]),
            Key::Bad => s.collect_seq([1u8].iter()),
        }
    }
}

/// The user's `Serialize` implementation for a `Ser`.
pub struct Arg<'a>(pub &'a Ser);

impl Serialize for Arg<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let fld = |i: usize| FIELDS[i % FIELDS.len()];
        let var = |i: u8| VARIANTS[i as usize % VARIANTS.len()];
        match self.0 {
            Ser::Unit => s.serialize_unit(),
            Ser::None => s.serialize_none(),
            Ser::Some(x) => s.serialize_some(&Arg(x)),
            Ser::Bool(x) => s.serialize_bool(*x),
            Ser::U8(x) => s.serialize_u8(*x),
            Ser::U16(x) => s.serialize_u16(*x),
            Ser::U32(x) => s.serialize_u32(*x),
            Ser::U64(x) => s.serialize_u64(*x),
            Ser::I8(x) => s.serialize_i8(*x),
            Ser::I16(x) => s.serialize_i16(*x),
            Ser::I32(x) => s.serialize_i32(*x),
            Ser::I64(x) => s.serialize_i64(*x),
            Ser::F32(x) => s.serialize_f32(*x),
            Ser::F64(x) => s.serialize_f64(*x),
            Ser::Char(x) => s.serialize_char(*x),
            Ser::Str(x) => s.serialize_str(x),
            Ser::Bytes(x) => s.serialize_bytes(x),
            Ser::U8s(x) => x.serialize(s),
            Ser::Seq(x, len) => {
                simrt::point("serialize-seq");
                let mut q = s.serialize_seq(if *len { Some(x.len()) } else { None })?;
                for v in x {
                    q.serialize_element(&Arg(v))?;
                }
                q.end()
            }
            Ser::Tuple(x) => {
                let mut q = s.serialize_tuple(x.len())?;
                for v in x {
                    q.serialize_element(&Arg(v))?;
                }
                q.end()
            }
            Ser::TupleStruct(x) => {
                let mut q = s.serialize_tuple_struct("TS", x.len())?;
                for v in x {
                    q.serialize_field(&Arg(v))?;
                }
                q.end()
            }
            Ser::TupleVariant(n, x) => {
                let mut q = s.serialize_tuple_variant("E", *n as u32, var(*n), x.len())?;
                for v in x {
                    q.serialize_field(&Arg(v))?;
                }
                q.end()
            }
            Ser::Map(x, entry) => {
                simrt::point("serialize-map");
                let mut q = s.serialize_map(if *entry { Some(x.len()) } else { None })?;
                for (k, v) in x {
                    if *entry {
                        q.serialize_entry(&KeyArg(k), &Arg(v))?;
                    } else {
                        q.serialize_key(&KeyArg(k))?;
                        q.serialize_value(&Arg(v))?;
                    }
                }
                q.end()
            }
            Ser::Struct(x) => {
                let mut q = s.serialize_struct("St", x.len())?;
                for (i, v) in x.iter().enumerate().take(FIELDS.len()) {
                    q.serialize_field(fld(i), &Arg(v))?;
                }
                q.end()
            }
            Ser::StructVariant(n, x) => {
                let mut q = s.serialize_struct_variant("E", *n as u32, var(*n), x.len())?;
                for (i, v) in x.iter().enumerate().take(FIELDS.len()) {
                    q.serialize_field(fld(i), &Arg(v))?;
                }
                q.end()
            }
            Ser::Newtype(x) => s.serialize_newtype_struct("Nt", &Arg(x)),
            Ser::NewtypeVariant(n, x) => s.serialize_newtype_variant("E", *n as u32, var(*n), &Arg(x)),
            Ser::UnitStruct => s.serialize_unit_struct("Us"),
            Ser::UnitVariant(n) => s.serialize_unit_variant("E", *n as u32, var(*n)),
            Ser::Fail => {
                simrt::point("serialize-fail");
                Err(S::Error::custom("injected serialization failure"))
            }
        }
    }
}

impl Ser {
    pub fn fails(&self) -> bool {
        match self {
            Ser::Fail => true,
            Ser::Some(x) | Ser::Newtype(x) | Ser::NewtypeVariant(_, x) => x.fails(),
            Ser::Seq(x, _) | Ser::Tuple(x) | Ser::TupleStruct(x) | Ser::TupleVariant(_, x) => x.iter().any(Ser::fails),
            Ser::Struct(x) | Ser::StructVariant(_, x) => x.iter().take(FIELDS.len()).any(Ser::fails),
            Ser::Map(x, _) => x.iter().any(|(k, v)| *k == Key::Bad || v.fails()),
            _ => false,
        }
    }

    /// What the other side is to receive.
    pub fn denotes(&self, binary: bool) -> Val {
        let arr = |x: &[Ser]| Val::Arr(x.iter().map(|v| v.denotes(binary)).collect());
        let obj = |x: &[Ser]| {
            Val::Obj(x.iter().enumerate().take(FIELDS.len()).map(|(i, v)| (FIELDS[i].to_string(), v.denotes(binary))).collect())
        };
        let var = |n: u8, v: Val| Val::Obj(vec![(VARIANTS[n as usize % VARIANTS.len()].to_string(), v)]);
        let bytes = |b: &[u8]| if binary { Val::Bytes(b.to_vec()) } else { Val::Bytes(b.to_vec()).flat() };
        match self {
            Ser::Unit | Ser::None | Ser::UnitStruct => Val::Null,
            Ser::Some(x) | Ser::Newtype(x) => x.denotes(binary),
            Ser::Bool(x) => Val::Bool(*x),
            Ser::U8(x) => Val::U(*x as u64),
            Ser::U16(x) => Val::U(*x as u64),
            Ser::U32(x) => Val::U(*x as u64),
            Ser::U64(x) => Val::U(*x),
            Ser::I8(x) => Val::int(*x as i64),
            Ser::I16(x) => Val::int(*x as i64),
            Ser::I32(x) => Val::int(*x as i64),
            Ser::I64(x) => Val::int(*x),
            Ser::F32(x) => Val::F(*x as f64),
            Ser::F64(x) => Val::F(*x),
            Ser::Char(c) => Val::Str(c.to_string()),
            Ser::Str(x) => Val::Str(x.clone()),
            Ser::Bytes(x) => bytes(x),
            // An empty sequence has no element to show that it holds bytes.
            Ser::U8s(x) if x.is_empty() => Val::Arr(vec![]),
            Ser::U8s(x) => bytes(x),
            Ser::Seq(x, _) => {
                if !x.is_empty() && x.iter().all(|v| matches!(v, Ser::U8(_))) {
                    bytes(&x.iter().map(|v| if let Ser::U8(b) = v { *b } else { 0 }).collect::<Vec<u8>>())
                } else {
                    arr(x)
                }
            }
            Ser::Tuple(x) | Ser::TupleStruct(x) => arr(x),
            Ser::TupleVariant(n, x) => var(*n, arr(x)),
            Ser::Struct(x) => obj(x),
            Ser::StructVariant(n, x) => var(*n, obj(x)),
            Ser::NewtypeVariant(n, x) => var(*n, x.denotes(binary)),
            Ser::UnitVariant(n) => Val::Str(VARIANTS[*n as usize % VARIANTS.len()].to_string()),
            Ser::Map(x, _) => Val::Obj(
                x.iter()
                    .map(|(k, v)| {
                        let k = match k {
                            Key::S(s) => s.clone(),
                            Key::U(n) => n.to_string(),
                            Key::I(n) => n.to_string(),
                            Key::C(c) => c.to_string(),
                            Key::V(n) => VARIANTS[*n as usize % VARIANTS.len()].to_string(),
                            Key::Bad => String::new(),
                        };
                        (k, v.denotes(binary))
                    })
                    .collect(),
            ),
            Ser::Fail => Val::Null,
        }
    }

    /// Keys must be distinct, floats exact in binary and decimal, and a key must not look like a
    /// placeholder, or the same value has no single right reading.
    pub fn valid(&self) -> bool {
        let all = |x: &[Ser]| x.iter().all(Ser::valid);
        match self {
            Ser::Some(x) => !matches!(**x, Ser::U8(_)) && x.valid(),
            Ser::Newtype(x) => !matches!(**x, Ser::U8(_)) && x.valid(),
            Ser::NewtypeVariant(_, x) => x.valid(),
            Ser::F32(x) => exact(*x as f64),
            Ser::F64(x) => exact(*x),
            Ser::Seq(x, _) | Ser::Tuple(x) | Ser::TupleStruct(x) | Ser::TupleVariant(_, x) => all(x),
            Ser::Struct(x) | Ser::StructVariant(_, x) => all(x) && x.len() <= FIELDS.len(),
            Ser::Map(x, _) => {
                if let Val::Obj(o) = self.denotes(false) {
                    let mut k: Vec<&String> = o.iter().map(|(k, _)| k).collect();
                    k.sort();
                    let n = k.len();
                    k.dedup();
                    let bad = x.iter().filter(|(k, _)| *k == Key::Bad).count();
                    k.len() == n && bad <= 1 && k.iter().all(|k| k.as_str() != "_placeholder") && x.iter().all(|(_, v)| v.valid())
                } else {
                    false
                }
            }
            _ => true,
        }
    }
}

pub fn exact(x: f64) -> bool {
    x.is_finite() && x.abs() < 1e15 && (x * 1024.0).fract() == 0.0 && !(x == 0.0 && x.is_sign_negative())
}

// ---- incoming, typed -------------------------------------------------------------------------------

/// The Rust type an argument is read as, and what reading it must give.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum As {
    Value,
    Str,
    I64,
    U8,
    F64,
    Bool,
    OptStr,
    Unit,
    VecI64,
    VecStr,
    MapI64,
    Strukt,
    Enum,
    Bin,
    VecU8,
    Tuple,
    VecBin,
    MapBin,
    Hash,
    OptBin,
    Wrap,
}

pub const ALL_AS: [As; 21] = [
    As::Value,
    As::Str,
    As::I64,
    As::U8,
    As::F64,
    As::Bool,
    As::OptStr,
    As::Unit,
    As::VecI64,
    As::VecStr,
    As::MapI64,
    As::Strukt,
    As::Enum,
    As::Bin,
    As::VecU8,
    As::Tuple,
    As::VecBin,
    As::MapBin,
    As::Hash,
    As::OptBin,
    As::Wrap,
];

/// A byte buffer that takes bytes in any of serde's forms.
#[derive(Clone, Debug, PartialEq)]
pub struct Bin(pub Vec<u8>);

impl<'de> Deserialize<'de> for Bin {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Bin, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bin;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Bin, E> {
                Ok(Bin(v.to_vec()))
            }
            fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Bin, E> {
                Ok(Bin(v))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bin, A::Error> {
                let mut v = Vec::new();
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Bin(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

#[derive(serde::Deserialize, Debug)]
struct Strukt {
    a: i64,
    #[serde(rename = "b c")]
    b: String,
    bin: Bin,
    #[serde(default)]
    opt: Option<Box<Strukt>>,
    e: Enum,
}

#[derive(serde::Deserialize, Debug)]
enum Enum {
    Unit,
    New(i64),
    NewBin(Bin),
    Tup(i64, String),
    TupBin(Bin, i64),
    St { x: f64, y: Bin },
}

#[derive(serde::Deserialize, Debug)]
struct Wrap(Vec<u8>);

fn bin(b: &Bin) -> Val {
    Val::Bytes(b.0.clone())
}

fn enum_val(e: &Enum) -> Val {
    let o = |k: &str, v: Val| Val::Obj(vec![(k.to_string(), v)]);
    match e {
        Enum::Unit => Val::s("Unit"),
        Enum::New(x) => o("New", Val::int(*x)),
        Enum::NewBin(x) => o("NewBin", bin(x)),
        Enum::Tup(x, s) => o("Tup", Val::Arr(vec![Val::int(*x), Val::s(s)])),
        Enum::TupBin(b, x) => o("TupBin", Val::Arr(vec![bin(b), Val::int(*x)])),
        Enum::St { x, y } => o("St", Val::Obj(vec![("x".into(), Val::F(*x)), ("y".into(), bin(y))])),
    }
}

fn strukt_val(s: &Strukt) -> Val {
    let mut v = vec![
        ("a".to_string(), Val::int(s.a)),
        ("b c".to_string(), Val::s(&s.b)),
        ("bin".to_string(), bin(&s.bin)),
        ("e".to_string(), enum_val(&s.e)),
    ];
    if let Some(o) = &s.opt {
        v.push(("opt".to_string(), strukt_val(o)));
    }
    Val::Obj(v)
}

/// Read one argument as the given type; the result is put back into the common form.
pub fn read_as(arg: &socket_io_client::protocol::Arg<'_>, t: As) -> Option<Val> {
    macro_rules! get {
        ($t:ty, $f:expr) => {
            arg.deserialize::<$t>().ok().map($f).map(|v: Val| v.canon())
        };
    }
    match t {
        As::Value => get!(Value, |v| Val::from_json(&v)),
        As::Str => get!(String, |v| Val::s(&v)),
        As::I64 => get!(i64, Val::int),
        As::U8 => get!(u8, |v| Val::U(v as u64)),
        As::F64 => get!(f64, Val::F),
        As::Bool => get!(bool, Val::Bool),
        As::OptStr => get!(Option<String>, |v| v.map_or(Val::Null, |v| Val::s(&v))),
        As::Unit => get!((), |_| Val::Null),
        As::VecI64 => get!(Vec<i64>, |v| Val::Arr(v.into_iter().map(Val::int).collect())),
        As::VecStr => get!(Vec<String>, |v| Val::Arr(v.iter().map(|x| Val::s(x)).collect())),
        As::MapI64 => get!(BTreeMap<String, i64>, |v| Val::Obj(v.into_iter().map(|(k, v)| (k, Val::int(v))).collect())),
        As::Hash => get!(HashMap<String, Value>, |v| Val::Obj(v.into_iter().map(|(k, v)| (k, Val::from_json(&v))).collect())),
        As::Strukt => get!(Strukt, |v| strukt_val(&v)),
        As::Enum => get!(Enum, |v| enum_val(&v)),
        As::Bin => get!(Bin, |v| bin(&v)),
        As::VecU8 => get!(Vec<u8>, Val::Bytes),
        As::Wrap => get!(Wrap, |v| Val::Bytes(v.0)),
        As::Tuple => get!((i64, String, Bin), |v| Val::Arr(vec![Val::int(v.0), Val::s(&v.1), bin(&v.2)])),
        As::VecBin => get!(Vec<Bin>, |v| Val::Arr(v.iter().map(bin).collect())),
        As::MapBin => get!(BTreeMap<String, Bin>, |v| Val::Obj(v.iter().map(|(k, v)| (k.clone(), bin(v))).collect())),
        As::OptBin => get!(Option<Bin>, |v| v.map_or(Val::Null, |v| bin(&v))),
    }
}

// ---- generation ------------------------------------------------------------------------------------

/// How rich generated values are.
#[derive(Clone, Copy, Debug)]
pub struct Rich {
    pub depth: u32,
    pub big: bool,
    pub bytes: bool,
    pub odd: bool,
}

pub fn gen_str(r: &mut Rng, rich: Rich) -> String {
    const ODD: [&str; 22] = [
        "", "a", "hello", "\"", "\\", "\\\"", "[", "]", "],[", ",", "é", "日本", "🦀", "\u{0}", "\n", "\u{7f}\u{2028}", "{}", "/", "a b",
        "_", "\u{10ffff}", "'",
    ];
    if !rich.odd {
        return format!("s{}", r.below(100));
    }
    if rich.big && r.chance(60) {
        let n = *r.pick(&[124usize, 125, 126, 127, 130, 1000, 4095, 4096, 4097, 65535, 65536, 70000]);
        let c = *r.pick(&["x", "é", "\""]);
        return c.repeat(n / c.len().max(1));
    }
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&ODD)).collect()
}

pub fn gen_bytes(r: &mut Rng, rich: Rich) -> Vec<u8> {
    let n = if rich.big && r.chance(80) {
        *r.pick(&[124usize, 125, 126, 127, 4096, 65534, 65535, 65536, 66000])
    } else {
        *r.pick(&[0usize, 1, 1, 2, 3, 4, 5, 9])
    };
    let mode = r.below(3);
    (0..n)
        .map(|i| match mode {
            0 => r.below(256) as u8,
            1 => 4,
            _ => i as u8,
        })
        .collect()
}

fn gen_int(r: &mut Rng) -> i64 {
    *r.pick(&[0, 1, -1, 4, 7, 127, 128, 255, 256, -128, 65535, 1 << 31, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MIN, 42, 1234567890123])
}

fn gen_f64(r: &mut Rng) -> f64 {
    *r.pick(&[0.5, 1.5, -2.25, 1024.0, 0.0078125, -1000000.5, 3.0, 1e10])
}

pub fn gen_key(r: &mut Rng, rich: Rich, i: usize) -> String {
    if rich.odd && r.chance(400) {
        let s = *r.pick(&["", "k\"ey", "\\", "é", "a\nb", "num", "_placeholde", "日本", " ", "0"]);
        if i == 0 {
            s.to_string()
        } else {
            format!("{}{}", s, i)
        }
    } else {
        format!("k{}", i)
    }
}

/// A value as a server may send it.
pub fn gen_val(r: &mut Rng, rich: Rich) -> Val {
    let leaf = rich.depth == 0 || r.chance(600);
    if leaf {
        match r.weighted(&[1, 1, 3, 1, 1, 4, if rich.bytes { 4 } else { 0 }]) {
            0 => Val::Null,
            1 => Val::Bool(r.chance(500)),
            2 => Val::int(gen_int(r)),
            3 => Val::U(*r.pick(&[u64::MAX, 1 << 63, 18446744073709551614])),
            4 => Val::F(gen_f64(r)),
            5 => Val::Str(gen_str(r, rich)),
            _ => Val::Bytes(gen_bytes(r, rich)),
        }
    } else {
        let inner = Rich { depth: rich.depth - 1, ..rich };
        let n = r.below(4);
        if r.chance(500) {
            Val::Arr((0..n).map(|_| gen_val(r, inner)).collect())
        } else {
            Val::Obj((0..n).map(|i| (gen_key(r, rich, i), gen_val(r, inner))).collect())
        }
    }
}

pub fn val_ok(v: &Val) -> bool {
    match v {
        Val::F(x) => exact(*x),
        Val::I(x) => *x < 0,
        Val::Arr(x) => x.iter().all(val_ok),
        Val::Obj(x) => {
            let mut k: Vec<&String> = x.iter().map(|(k, _)| k).collect();
            k.sort();
            k.dedup();
            k.len() == x.len() && x.iter().all(|(k, v)| k != "_placeholder" && val_ok(v))
        }
        _ => true,
    }
}

/// A value of the shape of the given Rust type.
pub fn gen_as(r: &mut Rng, t: As, rich: Rich) -> Val {
    let by = |r: &mut Rng| if rich.bytes { Val::Bytes(gen_bytes(r, rich)) } else { Val::Bytes(gen_bytes(r, Rich { big: false, ..rich })).flat() };
    let st = |r: &mut Rng| Val::Str(gen_str(r, rich));
    match t {
        As::Value => gen_val(r, rich),
        As::Str => st(r),
        As::I64 => Val::int(gen_int(r)),
        As::U8 => Val::U(r.below(256) as u64),
        As::F64 => Val::F(gen_f64(r)),
        As::Bool => Val::Bool(r.chance(500)),
        As::OptStr => {
            if r.chance(400) {
                Val::Null
            } else {
                st(r)
            }
        }
        As::Unit => Val::Null,
        As::VecI64 => Val::Arr((0..r.below(4)).map(|_| Val::int(gen_int(r))).collect()),
        As::VecStr => Val::Arr((0..r.below(4)).map(|_| st(r)).collect()),
        As::MapI64 => Val::Obj((0..r.below(4)).map(|i| (gen_key(r, rich, i), Val::int(gen_int(r)))).collect()),
        As::Hash => Val::Obj((0..r.below(4)).map(|i| (gen_key(r, rich, i), gen_val(r, Rich { depth: 1, ..rich }))).collect()),
        As::Enum => {
            let o = |k: &str, v: Val| Val::Obj(vec![(k.to_string(), v)]);
            match r.below(6) {
                0 => Val::s("Unit"),
                1 => o("New", Val::int(gen_int(r))),
                2 => o("NewBin", by(r)),
                3 => o("Tup", Val::Arr(vec![Val::int(gen_int(r)), st(r)])),
                4 => o("TupBin", Val::Arr(vec![by(r), Val::int(gen_int(r))])),
                _ => {
                    let mut f = vec![("x".to_string(), Val::F(gen_f64(r))), ("y".to_string(), by(r))];
                    if r.chance(500) {
                        f.reverse();
                    }
                    o("St", Val::Obj(f))
                }
            }
        }
        As::Strukt => {
            let mut f = vec![
                ("a".to_string(), Val::int(gen_int(r))),
                ("b c".to_string(), st(r)),
                ("bin".to_string(), by(r)),
                ("e".to_string(), gen_as(r, As::Enum, rich)),
            ];
            if rich.depth > 0 && r.chance(400) {
                f.push(("opt".to_string(), gen_as(r, As::Strukt, Rich { depth: rich.depth - 1, ..rich })));
            }
            for i in (1..f.len()).rev() {
                f.swap(i, r.below(i + 1));
            }
            Val::Obj(f)
        }
        As::Bin | As::VecU8 | As::Wrap => by(r),
        As::Tuple => Val::Arr(vec![Val::int(gen_int(r)), st(r), by(r)]),
        As::VecBin => Val::Arr((0..r.below(4)).map(|_| by(r)).collect()),
        As::MapBin => Val::Obj((0..r.below(4)).map(|i| (gen_key(r, rich, i), by(r))).collect()),
        As::OptBin => {
            if r.chance(400) {
                Val::Null
            } else {
                by(r)
            }
        }
    }
}

/// What reading `v` (as sent) as type `t` must give, in the form `read_as` produces; None if the
/// value is not of that type.
pub fn expect_as(v: &Val, t: As) -> Option<Val> {
    let as_bytes = |v: &Val| -> Option<Val> {
        match v {
            Val::Bytes(b) => Some(Val::Bytes(b.clone())),
            Val::Arr(x) => x
                .iter()
                .map(|x| match x {
                    Val::U(n) if *n < 256 => Some(*n as u8),
                    _ => None,
                })
                .collect::<Option<Vec<u8>>>()
                .map(Val::Bytes),
            _ => None,
        }
    };
    let int = |v: &Val| match v {
        Val::U(n) if *n <= i64::MAX as u64 => Some(v.clone()),
        Val::I(_) => Some(v.clone()),
        _ => None,
    };
    let st = |v: &Val| if let Val::Str(_) = v { Some(v.clone()) } else { None };
    let arr = |v: &Val, f: &dyn Fn(&Val) -> Option<Val>| match v {
        Val::Arr(x) => x.iter().map(f).collect::<Option<Vec<Val>>>().map(Val::Arr),
        _ => None,
    };
    let obj = |v: &Val, f: &dyn Fn(&Val) -> Option<Val>| match v {
        Val::Obj(x) => x.iter().map(|(k, v)| Some((k.clone(), f(v)?))).collect::<Option<Vec<_>>>().map(Val::Obj),
        _ => None,
    };
    let r = match t {
        As::Value => Some(v.flat()),
        As::Str => st(v),
        As::I64 => int(v),
        As::U8 => match v {
            Val::U(n) if *n < 256 => Some(v.clone()),
            _ => None,
        },
        As::F64 => match v {
            Val::F(_) => Some(v.clone()),
            _ => None,
        },
        As::Bool => match v {
            Val::Bool(_) => Some(v.clone()),
            _ => None,
        },
        As::OptStr => match v {
            Val::Null => Some(Val::Null),
            _ => st(v),
        },
        As::Unit => match v {
            Val::Null => Some(Val::Null),
            _ => None,
        },
        As::VecI64 => arr(v, &int),
        As::VecStr => arr(v, &st),
        As::MapI64 => obj(v, &int),
        As::Hash => obj(v, &|v| Some(v.flat())),
        As::Enum => match v {
            Val::Str(s) if s == "Unit" => Some(v.clone()),
            Val::Obj(x) if x.len() == 1 => {
                let (k, p) = &x[0];
                let w = |v: Val| Some(Val::Obj(vec![(k.clone(), v)]));
                match (k.as_str(), p) {
                    ("New", p) => w(int(p)?),
                    ("NewBin", p) => w(as_bytes(p)?),
                    ("Tup", Val::Arr(a)) if a.len() == 2 => w(Val::Arr(vec![int(&a[0])?, st(&a[1])?])),
                    ("TupBin", Val::Arr(a)) if a.len() == 2 => w(Val::Arr(vec![as_bytes(&a[0])?, int(&a[1])?])),
                    ("St", Val::Obj(f)) if f.len() == 2 => {
                        let x = f.iter().find(|(k, _)| k == "x")?.1.clone();
                        let y = as_bytes(&f.iter().find(|(k, _)| k == "y")?.1)?;
                        w(Val::Obj(vec![("x".into(), x), ("y".into(), y)]))
                    }
                    _ => None,
                }
            }
            _ => None,
        },
        As::Strukt => match v {
            Val::Obj(f) => {
                let g = |k: &str| f.iter().find(|(n, _)| n == k).map(|(_, v)| v);
                let mut o = vec![
                    ("a".to_string(), int(g("a")?)?),
                    ("b c".to_string(), st(g("b c")?)?),
                    ("bin".to_string(), as_bytes(g("bin")?)?),
                    ("e".to_string(), expect_as(g("e")?, As::Enum)?),
                ];
                if let Some(x) = g("opt") {
                    o.push(("opt".to_string(), expect_as(x, As::Strukt)?));
                }
                Some(Val::Obj(o))
            }
            _ => None,
        },
        As::Bin | As::VecU8 | As::Wrap => as_bytes(v),
        As::Tuple => match v {
            Val::Arr(a) if a.len() == 3 => Some(Val::Arr(vec![int(&a[0])?, st(&a[1])?, as_bytes(&a[2])?])),
            _ => None,
        },
        As::VecBin => arr(v, &as_bytes),
        As::MapBin => obj(v, &as_bytes),
        As::OptBin => match v {
            Val::Null => Some(Val::Null),
            _ => as_bytes(v),
        },
    };
    r.map(|v| v.canon())
}

/// A Rust value as a user may pass it.
pub fn gen_ser(r: &mut Rng, rich: Rich) -> Ser {
    let leaf = rich.depth == 0 || r.chance(500);
    let inner = Rich { depth: rich.depth.saturating_sub(1), ..rich };
    for _ in 0..20 {
        let s = if leaf {
            match r.below(if rich.bytes { 22 } else { 18 }) {
                0 => Ser::Unit,
                1 => Ser::None,
                2 => Ser::Bool(r.chance(500)),
                3 => Ser::U8(r.below(256) as u8),
                4 => Ser::U16(r.below(65536) as u16),
                5 => Ser::U32(r.u64() as u32),
                6 => Ser::U64(*r.pick(&[0, 1, u64::MAX, 1 << 63, 1 << 53])),
                7 => Ser::I8(r.u64() as i8),
                8 => Ser::I16(r.u64() as i16),
                9 => Ser::I32(r.u64() as i32),
                10 => Ser::I64(gen_int(r)),
                11 => Ser::F32(gen_f64(r) as f32),
                12 => Ser::F64(gen_f64(r)),
                13 => Ser::Char(*r.pick(&['a', '"', 'é', '🦀', '\n'])),
                14 | 15 => Ser::Str(gen_str(r, rich)),
                16 => Ser::UnitVariant(r.below(4) as u8),
                17 => Ser::UnitStruct,
                18 | 19 => Ser::Bytes(gen_bytes(r, rich)),
                _ => Ser::U8s(gen_bytes(r, rich)),
            }
        } else {
            let n = r.below(5);
            let list = |r: &mut Rng, n: usize| -> Vec<Ser> { (0..n).map(|_| gen_ser(r, inner)).collect() };
            match r.below(12) {
                0 => Ser::Some(Box::new(gen_ser(r, inner))),
                1 | 2 => {
                    // Sequences that start like bytes and go on as something else.
                    let mut v: Vec<Ser> = Vec::new();
                    if r.chance(500) {
                        for _ in 0..r.below(4) {
                            v.push(Ser::U8(r.below(256) as u8));
                        }
                    }
                    v.extend(list(r, n));
                    Ser::Seq(v, r.chance(500))
                }
                3 => Ser::Tuple(list(r, n)),
                4 => Ser::TupleStruct(list(r, n)),
                5 => Ser::TupleVariant(r.below(4) as u8, list(r, n)),
                6 | 7 => {
                    let entry = r.chance(500);
                    let m = (0..n)
                        .map(|i| {
                            let k = match r.below(8) {
                                0 => Key::U(r.below(1000) as u64),
                                1 => Key::I(-(r.below(1000) as i64)),
                                2 => Key::C(*r.pick(&['z', '"', 'é'])),
                                3 => Key::V(r.below(4) as u8),
                                _ => Key::S(gen_key(r, rich, i)),
                            };
                            (k, gen_ser(r, inner))
                        })
                        .collect();
                    Ser::Map(m, entry)
                }
                8 => Ser::Struct(list(r, n)),
                9 => Ser::StructVariant(r.below(4) as u8, list(r, n)),
                10 => Ser::Newtype(Box::new(gen_ser(r, inner))),
                _ => Ser::NewtypeVariant(r.below(4) as u8, Box::new(gen_ser(r, inner))),
            }
        };
        if s.valid() {
            return s;
        }
    }
    Ser::Unit
}

/// Put a failure somewhere inside.
pub fn gen_failing(r: &mut Rng, rich: Rich) -> Ser {
    let rich = Rich { depth: rich.depth.max(1), ..rich };
    let mut s = Ser::Fail;
    let mut deep = r.below(3) + r.below(2);
    if deep == 0 {
        if r.chance(300) {
            return Ser::Map(vec![(Key::Bad, Ser::Unit)], r.chance(500));
        }
        return s;
    }
    while deep > 0 {
        deep -= 1;
        let inner = Rich { depth: 1, ..rich };
        let n = r.below(4);
        let mut list: Vec<Ser> = (0..n).map(|_| gen_ser(r, inner)).collect();
        if r.chance(300) {
            for x in list.iter_mut() {
                *x = Ser::U8(7);
            }
        }
        let at = r.below(n + 1);
        list.insert(at, s.clone());
        let cand = match r.below(7) {
            0 | 1 => Ser::Seq(list, r.chance(500)),
            2 => Ser::Tuple(list),
            3 => Ser::Struct(list),
            4 => {
                let entry = r.chance(500);
                let mut m: Vec<(Key, Ser)> = list.into_iter().enumerate().map(|(i, v)| (Key::S(format!("m{}", i)), v)).collect();
                if r.chance(200) {
                    m.push((Key::Bad, Ser::Unit));
                }
                Ser::Map(m, entry)
            }
            5 => Ser::StructVariant(1, list),
            _ => Ser::NewtypeVariant(2, Box::new(Ser::Seq(list, true))),
        };
        if cand.valid() && cand.fails() {
            s = cand;
        }
    }
    s
}
