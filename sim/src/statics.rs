//! Message types declared the way users declare them: serde derives, the library's derives and helpers.
//! Each is driven through one `relay` function: bytes -> value -> (Debug text, bytes again).
#![allow(dead_code)]
use crate::dynser::Hk;
use crate::schema::{Env, S, VS};
use serde::de::{DeserializeOwned, Deserializer, Visitor};
use serde::ser::SerializeTuple;
use serde::{Deserialize, Serialize};
use serde_xdr::error::Error;
use serde_xdr::opaque::VariableArray;
use serde_xdr::{XdrIndexer, XdrUnion};
use serde_xdr_derive::{XdrIndexer, XdrUnion};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Debug};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub struct Relayed {
    pub debug: String,
    pub bytes: Result<Vec<u8>, Error>,
}
pub type Relay = fn(&[u8]) -> Result<Relayed, Error>;
pub fn relay<T: DeserializeOwned + Serialize + Debug>(b: &[u8]) -> Result<Relayed, Error> {
    let v: T = serde_xdr::from_bytes(b)?;
    let debug = {
        let _p = crate::rt::Paused::new();
        format!("{v:?}")
    };
    if ONLY_DECODE.load(Relaxed) {
        return Ok(Relayed { debug, bytes: Ok(vec![]) });
    }
    let (m, n) = SEND.with(|s| s.get());
    if m > 0 {
        crate::rt::mem_begin(m);
        crate::rt::steps_begin(n);
    }
    Ok(Relayed { debug, bytes: serde_xdr::to_bytes(&v) })
}
thread_local! {
    static SEND: std::cell::Cell<(i64, u64)> = const { std::cell::Cell::new((0, 0)) };
}
/// what the encoding half of the relays called on this thread may cost (0: no matter)
pub fn limit_sending(mem: i64, steps: u64) {
    SEND.with(|s| s.set((mem, steps)));
}
static ONLY_DECODE: AtomicBool = AtomicBool::new(false);
/// read a message without passing it on
pub fn only_decode(relay: Relay, b: &[u8]) -> Result<Relayed, Error> {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ONLY_DECODE.store(false, Relaxed);
        }
    }
    let _r = Reset;
    ONLY_DECODE.store(true, Relaxed);
    relay(b)
}

pub struct Static {
    pub name: &'static str,
    pub s: S,
    pub relay: Relay,
    /// the order of map entries on the wire is unspecified
    pub unordered: bool,
}

#[derive(Debug, Serialize, Deserialize)]
struct Scalars {
    a: bool,
    b: i8,
    c: i16,
    d: i32,
    e: i64,
    f: u8,
    g: u16,
    h: u32,
    i: u64,
    j: f32,
    k: f64,
    l: char,
    m: Hk,
    n: (),
}
#[derive(Debug, Serialize, Deserialize)]
struct Marker;
#[derive(Debug, Serialize, Deserialize)]
struct Wrap(Hk);
#[derive(Debug, Serialize, Deserialize)]
struct Pair(u8, Hk);
#[derive(Debug, Serialize, Deserialize)]
struct Texts {
    a: String,
    b: Option<String>,
    c: Vec<String>,
    d: Wrap,
    e: Marker,
    f: Box<str>,
}
#[derive(Debug, Serialize, Deserialize)]
enum Shape {
    Empty,
    New(Hk),
    Tup(u16, String, Hk),
    Rec { a: u8, b: Option<Hk>, c: Vec<Hk> },
    Nested(Pair),
    Unit2,
}
#[derive(Debug, Serialize, Deserialize)]
struct Tree {
    shape: Shape,
    shapes: Vec<Shape>,
    pairs: Vec<(Hk, Option<Shape>)>,
    arr: [Pair; 3],
}
#[derive(Debug, Serialize, Deserialize)]
struct Opaques {
    #[serde(with = "serde_xdr::opaque::fixed")]
    a: [u8; 3],
    #[serde(with = "serde_xdr::opaque::variable")]
    b: Vec<u8>,
    #[serde(with = "serde_xdr::opaque::fixed")]
    c: [u8; 16],
    d: Vec<VariableArray>,
    #[serde(with = "serde_xdr::opaque::fixed")]
    e: [u8; 5],
    f: u32,
}
struct Sorted<K, V>(HashMap<K, V>);
impl<K: Debug + Ord, V: Debug> Debug for Sorted<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let m: BTreeMap<&K, &V> = self.0.iter().collect();
        m.fmt(f)
    }
}
impl<K: Serialize, V: Serialize> Serialize for Sorted<K, V> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.0.serialize(z)
    }
}
impl<'de, K: Deserialize<'de> + Eq + std::hash::Hash, V: Deserialize<'de>> Deserialize<'de> for Sorted<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        HashMap::deserialize(d).map(Sorted)
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct HMaps {
    a: Sorted<u32, String>,
    b: Hk,
}
#[derive(Debug, Serialize, Deserialize)]
struct BMaps {
    a: BTreeMap<String, Hk>,
    b: BTreeMap<u32, BTreeMap<u32, Pair>>,
}
/// caller code that reads text and bytes through the borrowing entry points
struct TextRef(String);
impl Debug for TextRef {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Serialize for TextRef {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_str(&self.0)
    }
}
impl<'de> Deserialize<'de> for TextRef {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = TextRef;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "text")
            }
            fn visit_str<E>(self, v: &str) -> Result<TextRef, E> {
                Ok(TextRef(v.to_string()))
            }
        }
        d.deserialize_str(V)
    }
}
struct BytesRef(Vec<u8>);
impl Debug for BytesRef {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Serialize for BytesRef {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for BytesRef {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = BytesRef;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<BytesRef, E> {
                Ok(BytesRef(v.to_vec()))
            }
        }
        d.deserialize_bytes(V)
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Borrowing {
    a: TextRef,
    b: BytesRef,
    c: Vec<TextRef>,
    d: Option<BytesRef>,
}

// an enumeration with gaps and a negative value, carried as its number
#[derive(Debug, Clone, Copy, PartialEq)]
enum Code {
    Ok = 0,
    Minus = -1,
    Far = 70000,
    Max = i32::MAX as isize,
}
impl AsRef<i32> for Code {
    fn as_ref(&self) -> &'static i32 {
        match self {
            Code::Ok => &0,
            Code::Minus => &-1,
            Code::Far => &70000,
            Code::Max => &i32::MAX,
        }
    }
}
impl TryFrom<i32> for Code {
    type Error = ();
    fn try_from(v: i32) -> Result<Self, ()> {
        [Code::Ok, Code::Minus, Code::Far, Code::Max].into_iter().find(|c| *c.as_ref() == v).ok_or(())
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Coded {
    #[serde(with = "serde_xdr::primitive::signed32")]
    a: Code,
    #[serde(with = "serde_xdr::primitive::signed32")]
    b: Code,
    c: Hk,
}

macro_rules! indexer {
    ($t:ident, $($n:literal => $v:ident $pat:tt),*) => {
        impl XdrIndexer for $t {
            type Error = Error;
            fn name_by_index(index: i32) -> Result<&'static str, Error> {
                match index { $($n => Ok(stringify!($v)),)* _ => Err(Error::Convert) }
            }
            fn index(&self) -> i32 {
                match self { $($t::$v { .. } => $n),* }
            }
        }
    };
}
#[derive(Debug, XdrIndexer)]
enum Reply {
    Done,
    Data(String),
    Many(u8, Hk, Vec<Hk>),
    Wide(u8, u8, u8, u8, u8, u8, u8, u8, Hk),
    Wider(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Hk),
}
indexer!(Reply, -5 => Done {}, 0 => Data {}, 3 => Many {}, 1000 => Wide {}, 1001 => Wider {});
#[derive(Debug, XdrIndexer)]
enum Kind {
    A,
    B,
    C,
}
indexer!(Kind, 1 => A {}, 5 => B {}, -1 => C {});
#[derive(Debug, Serialize, Deserialize)]
struct Replies {
    a: Reply,
    b: Vec<Reply>,
    c: Option<Kind>,
    d: Kind,
}

#[derive(Debug, XdrUnion)]
enum ByInt {
    Zero(u32, Hk),
    Some(u32, String, Option<Hk>),
    Default(u32),
}
impl XdrUnion<u32> for ByInt {
    type Error = Error;
    fn name_by_value(v: &u32) -> Result<&'static str, Error> {
        match v {
            0u32 => Ok("Zero"),
            1u32 | 7u32 => Ok("Some"),
            _ => Ok("Default"),
        }
    }
}
#[derive(Debug, XdrUnion)]
enum BySigned {
    Neg(i32, Hk),
    Big(i32, VariableArray),
}
impl XdrUnion<i32> for BySigned {
    type Error = Error;
    fn name_by_value(v: &i32) -> Result<&'static str, Error> {
        match v {
            -1 => Ok("Neg"),
            100000 => Ok("Big"),
            _ => Err(Error::Convert),
        }
    }
}
#[derive(Debug, XdrUnion)]
enum ByBool {
    True(bool, u64),
    False(bool),
}
impl XdrUnion<bool> for ByBool {
    type Error = Error;
    fn name_by_value(v: &bool) -> Result<&'static str, Error> {
        Ok(if *v { "True" } else { "False" })
    }
}
#[derive(Debug, XdrUnion)]
enum ByKind {
    A(Kind, Hk),
    B(Kind, Vec<ByInt>),
}
impl XdrUnion<Kind> for ByKind {
    type Error = Error;
    fn name_by_value(v: &Kind) -> Result<&'static str, Error> {
        match v {
            Kind::A => Ok("A"),
            Kind::B => Ok("B"),
            _ => Err(Error::Convert),
        }
    }
}
// the discriminant is caller code itself
#[derive(Debug, XdrUnion)]
enum ByHook {
    Plain(Hk),
    More(Hk, Hk, String),
    Rest(Hk, Option<Wrap>),
}
impl XdrUnion<Hk> for ByHook {
    type Error = Error;
    fn name_by_value(v: &Hk) -> Result<&'static str, Error> {
        match v.0 {
            0 => Ok("Plain"),
            -2 | 4 => Ok("More"),
            _ => Ok("Rest"),
        }
    }
}
#[derive(Debug, Serialize, Deserialize)]
enum Color {
    Red,
    Green,
    Blue,
}
#[derive(Debug, XdrUnion)]
enum ByColor {
    Warm(Color, ByHook),
    Cold(Color, Vec<Color>),
}
impl XdrUnion<Color> for ByColor {
    type Error = Error;
    fn name_by_value(v: &Color) -> Result<&'static str, Error> {
        match v {
            Color::Red => Ok("Warm"),
            Color::Blue => Ok("Cold"),
            _ => Err(Error::Convert),
        }
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Hooked {
    a: ByHook,
    b: Vec<ByHook>,
    c: Option<ByColor>,
    d: (ByColor, Hk),
}
#[derive(Debug, Serialize, Deserialize)]
struct Unions {
    a: ByInt,
    b: Vec<ByBool>,
    c: Option<ByKind>,
    d: BySigned,
    e: (ByKind, u32),
}
// discriminants at the ends of their range and around byte boundaries
#[derive(Debug, XdrIndexer)]
enum Far {
    Lowest(Hk),
    Highest,
    Byte(u8),
    Short(String),
    Medium,
    NegByte(Option<Hk>),
    Top(i64, Hk),
}
indexer!(Far, -2147483648 => Lowest {}, 2147483647 => Highest {}, 256 => Byte {}, 65536 => Short {}, 16777216 => Medium {}, -256 => NegByte {}, 2147483646 => Top {});
#[derive(Debug, XdrUnion)]
enum ByFar {
    Lowest(i32, Hk),
    Highest(i32, u8, Hk),
    Round(i32, Vec<u16>),
    Default(i32, Option<Hk>),
}
impl XdrUnion<i32> for ByFar {
    type Error = Error;
    fn name_by_value(v: &i32) -> Result<&'static str, Error> {
        Ok(match *v {
            i32::MIN => "Lowest",
            i32::MAX => "Highest",
            256 | 65536 | 16777216 | -256 => "Round",
            _ => "Default",
        })
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Fars {
    a: Far,
    b: Vec<Far>,
    c: Option<Option<Far>>,
    d: ByFar,
    e: Vec<ByFar>,
    f: [ByFar; 2],
}
#[derive(Debug, Serialize, Deserialize)]
struct Generic<T, U = u8> {
    a: T,
    b: Box<[U]>,
    c: std::marker::PhantomData<T>,
    d: std::ops::Bound<U>,
}
type Widest = (i8, u16, u32, u64, f32, f64, bool, char, String, (), Hk, Option<Hk>);
#[derive(Debug, Serialize, Deserialize)]
struct Misc {
    a: Option<Option<Hk>>,
    b: [u32; 32],
    c: Result<Hk, String>,
    d: std::collections::VecDeque<Generic<Option<u16>>>,
    e: Box<Widest>,
    f: std::borrow::Cow<'static, str>,
    g: std::num::Wrapping<i16>,
    h: std::collections::LinkedList<(bool, Result<(), ()>)>,
    i: std::cell::RefCell<[[u8; 3]; 2]>,
}
#[derive(Debug, Serialize, Deserialize)]
struct Branch {
    tag: u16,
    name: Option<Box<str>>,
    kids: Vec<Branch>,
    side: Option<Box<Branch>>,
    x: Leaf,
}
#[derive(Debug, Serialize, Deserialize)]
enum Leaf {
    Bare,
    Both { l: Box<Leaf>, r: Box<Leaf> },
    One(Box<Leaf>, Hk),
}
#[derive(Debug, Serialize, Deserialize)]
pub struct Node {
    v: i32,
    next: Option<Box<Node>>,
}

fn st(n: &str, f: Vec<(&str, S)>) -> S {
    S::Struct(n.into(), f.into_iter().map(|(a, b)| (a.into(), b)).collect())
}
fn b(s: S) -> Box<S> {
    Box::new(s)
}
pub fn all() -> Vec<Static> {
    let wrap = || S::Newtype("Wrap".into(), b(S::Hk));
    let pair = || S::TStruct("Pair".into(), vec![S::U8, S::Hk]);
    let opt = |s: S| S::Opt(b(s));
    let seq = |s: S| S::Seq(b(s));
    let shape = || {
        S::Enum(
            "Shape".into(),
            vec![
                ("Empty".into(), VS::Unit),
                ("New".into(), VS::New(S::Hk)),
                ("Tup".into(), VS::Tup(vec![S::U16, S::Str, S::Hk])),
                ("Rec".into(), VS::Str(vec![("a".into(), S::U8), ("b".into(), S::Opt(b(S::Hk))), ("c".into(), S::Seq(b(S::Hk)))])),
                ("Nested".into(), VS::New(pair())),
                ("Unit2".into(), VS::Unit),
            ],
        )
    };
    let code = || {
        S::S32("Code".into(), vec![(0, "Ok".into()), (-1, "Minus".into()), (70000, "Far".into()), (i32::MAX, "Max".into())])
    };
    let reply = || {
        let mut wide = vec![S::U8; 8];
        wide.push(S::Hk);
        let mut wider = vec![S::U8; 11];
        wider.push(S::Hk);
        S::XIdx(
            "Reply".into(),
            vec![
                (-5, "Done".into(), vec![]),
                (0, "Data".into(), vec![S::Str]),
                (3, "Many".into(), vec![S::U8, S::Hk, S::Seq(b(S::Hk))]),
                (1000, "Wide".into(), wide),
                (1001, "Wider".into(), wider),
            ],
        )
    };
    let kind = || S::XIdx("Kind".into(), vec![(1, "A".into(), vec![]), (5, "B".into(), vec![]), (-1, "C".into(), vec![])]);
    let byint = || {
        S::Uni(
            "ByInt".into(),
            b(S::U32),
            vec![(vec![0], "Zero".into(), vec![S::Hk]), (vec![1, 7], "Some".into(), vec![S::Str, S::Opt(b(S::Hk))])],
            Some(("Default".into(), vec![])),
            true,
        )
    };
    let bysigned = || {
        S::Uni(
            "BySigned".into(),
            b(S::I32),
            vec![(vec![-1], "Neg".into(), vec![S::Hk]), (vec![100000], "Big".into(), vec![S::VArr])],
            None,
            true,
        )
    };
    let bybool = || {
        S::Uni("ByBool".into(), b(S::Bool), vec![(vec![1], "True".into(), vec![S::U64]), (vec![0], "False".into(), vec![])], None, true)
    };
    let bykind = || {
        S::Uni(
            "ByKind".into(),
            b(kind()),
            vec![(vec![1], "A".into(), vec![S::Hk]), (vec![5], "B".into(), vec![S::Seq(b(byint()))])],
            None,
            true,
        )
    };
    let byhook = || {
        S::Uni(
            "ByHook".into(),
            b(S::Hk),
            vec![(vec![0], "Plain".into(), vec![]), (vec![-2, 4], "More".into(), vec![S::Hk, S::Str])],
            Some(("Rest".into(), vec![opt(wrap())])),
            true,
        )
    };
    let color = || S::Enum("Color".into(), ["Red", "Green", "Blue"].map(|n| (n.into(), VS::Unit)).to_vec());
    let bycolor = || {
        S::Uni(
            "ByColor".into(),
            b(color()),
            vec![(vec![0], "Warm".into(), vec![byhook()]), (vec![2], "Cold".into(), vec![seq(color())])],
            None,
            true,
        )
    };
    let far = || {
        S::XIdx(
            "Far".into(),
            vec![
                (i32::MIN, "Lowest".into(), vec![S::Hk]),
                (i32::MAX, "Highest".into(), vec![]),
                (256, "Byte".into(), vec![S::U8]),
                (65536, "Short".into(), vec![S::Str]),
                (16777216, "Medium".into(), vec![]),
                (-256, "NegByte".into(), vec![opt(S::Hk)]),
                (i32::MAX - 1, "Top".into(), vec![S::I64, S::Hk]),
            ],
        )
    };
    let byfar = || {
        S::Uni(
            "ByFar".into(),
            b(S::I32),
            vec![
                (vec![i32::MIN as i64], "Lowest".into(), vec![S::Hk]),
                (vec![i32::MAX as i64], "Highest".into(), vec![S::U8, S::Hk]),
                (vec![256, 65536, 16777216, -256], "Round".into(), vec![seq(S::U16)]),
            ],
            Some(("Default".into(), vec![opt(S::Hk)])),
            true,
        )
    };
    let result = |t: VS, u: VS| S::Enum("Result".into(), vec![("Ok".into(), t), ("Err".into(), u)]);
    let bound = |t: S| {
        S::Enum("Bound".into(), vec![("Unbounded".into(), VS::Unit), ("Included".into(), VS::New(t.clone())), ("Excluded".into(), VS::New(t))])
    };
    let widest = || {
        S::Tuple(vec![
            S::I8, S::U16, S::U32, S::U64, S::F32, S::F64, S::Bool, S::Char, S::Str, S::Unit, S::Hk, opt(S::Hk),
        ])
    };
    let mk = |name, s, relay| Static { name, s, relay, unordered: false };
    let mut l = vec![
        mk(
            "Scalars",
            st(
                "Scalars",
                vec![
                    ("a", S::Bool),
                    ("b", S::I8),
                    ("c", S::I16),
                    ("d", S::I32),
                    ("e", S::I64),
                    ("f", S::U8),
                    ("g", S::U16),
                    ("h", S::U32),
                    ("i", S::U64),
                    ("j", S::F32),
                    ("k", S::F64),
                    ("l", S::Char),
                    ("m", S::Hk),
                    ("n", S::Unit),
                ],
            ),
            relay::<Scalars>,
        ),
        mk(
            "Texts",
            st(
                "Texts",
                vec![
                    ("a", S::Str),
                    ("b", opt(S::Str)),
                    ("c", seq(S::Str)),
                    ("d", wrap()),
                    ("e", S::UnitStruct("Marker")),
                    ("f", S::Str),
                ],
            ),
            relay::<Texts>,
        ),
        mk("Shape", shape(), relay::<Shape>),
        mk(
            "Tree",
            st(
                "Tree",
                vec![
                    ("shape", shape()),
                    ("shapes", seq(shape())),
                    ("pairs", seq(S::Tuple(vec![S::Hk, opt(shape())]))),
                    ("arr", S::Arr(b(pair()), 3)),
                ],
            ),
            relay::<Tree>,
        ),
        mk(
            "Opaques",
            st(
                "Opaques",
                vec![
                    ("a", S::OpFix(3)),
                    ("b", S::OpVar),
                    ("c", S::OpFix(16)),
                    ("d", seq(S::VArr)),
                    ("e", S::OpFix(5)),
                    ("f", S::U32),
                ],
            ),
            relay::<Opaques>,
        ),
        mk("VArr", S::VArr, relay::<VariableArray>),
        Static {
            name: "HMaps",
            s: st("HMaps", vec![("a", S::SMap(b(S::U32), b(S::Str))), ("b", S::Hk)]),
            relay: relay::<HMaps>,
            unordered: true,
        },
        mk(
            "BMaps",
            st(
                "BMaps",
                vec![("a", S::SMap(b(S::Str), b(S::Hk))), ("b", S::SMap(b(S::U32), b(S::SMap(b(S::U32), b(pair())))))],
            ),
            relay::<BMaps>,
        ),
        mk(
            "Borrowing",
            st("Borrowing", vec![("a", S::Str), ("b", S::Bytes), ("c", seq(S::Str)), ("d", opt(S::Bytes))]),
            relay::<Borrowing>,
        ),
        mk("Coded", st("Coded", vec![("a", code()), ("b", code()), ("c", S::Hk)]), relay::<Coded>),
        mk("Reply", reply(), relay::<Reply>),
        mk("Replies", st("Replies", vec![("a", reply()), ("b", seq(reply())), ("c", opt(kind())), ("d", kind())]), relay::<Replies>),
        mk("ByInt", byint(), relay::<ByInt>),
        mk(
            "Unions",
            st(
                "Unions",
                vec![
                    ("a", byint()),
                    ("b", seq(bybool())),
                    ("c", opt(bykind())),
                    ("d", bysigned()),
                    ("e", S::Tuple(vec![bykind(), S::U32])),
                ],
            ),
            relay::<Unions>,
        ),
        mk("VecOptStr", seq(opt(S::Str)), relay::<Vec<Option<String>>>),
        mk("DeepVec", seq(seq(seq(S::U16))), relay::<Vec<Vec<Vec<u16>>>>),
        mk("VecU8", seq(S::U8), relay::<Vec<u8>>),
        mk("Tuples", S::Tuple(vec![S::Tuple(vec![S::I8]), S::Arr(b(S::I64), 5), S::Unit, S::Str]), relay::<((i8,), [i64; 5], (), String)>),
        mk("Node", S::Chain, relay::<Node>),
        mk(
            "Fars",
            st(
                "Fars",
                vec![
                    ("a", far()),
                    ("b", seq(far())),
                    ("c", opt(opt(far()))),
                    ("d", byfar()),
                    ("e", seq(byfar())),
                    ("f", S::Arr(b(byfar()), 2)),
                ],
            ),
            relay::<Fars>,
        ),
        mk("Far", far(), relay::<Far>),
        mk(
            "Misc",
            st(
                "Misc",
                vec![
                    ("a", opt(opt(S::Hk))),
                    ("b", S::Arr(b(S::U32), 32)),
                    ("c", result(VS::New(S::Hk), VS::New(S::Str))),
                    (
                        "d",
                        seq(st(
                            "Generic",
                            vec![
                                ("a", opt(S::U16)),
                                ("b", seq(S::U8)),
                                ("c", S::UnitStruct("PhantomData<core::option::Option<u16>>")),
                                ("d", bound(S::U8)),
                            ],
                        )),
                    ),
                    ("e", widest()),
                    ("f", S::Str),
                    ("g", S::I16),
                    ("h", seq(S::Tuple(vec![S::Bool, result(VS::New(S::Unit), VS::New(S::Unit))]))),
                    ("i", st("RefCell", vec![("value", S::Arr(b(S::Arr(b(S::U8), 3)), 2))])),
                ],
            ),
            relay::<Misc>,
        ),
        mk(
            "Hooked",
            st("Hooked", vec![("a", byhook()), ("b", seq(byhook())), ("c", opt(bycolor())), ("d", S::Tuple(vec![bycolor(), S::Hk]))]),
            relay::<Hooked>,
        ),
        mk("ByHook", byhook(), relay::<ByHook>),
        mk("Branch", S::Rec(0), relay::<Branch>),
        mk("Leaf", S::Rec(1), relay::<Leaf>),
        mk("Bool", S::Bool, relay::<bool>),
        mk("Str", S::Str, relay::<String>),
    ];
    // CString: bytes without NUL, through the library's byte-buffer entry points
    l.retain(|x| !x.name.is_empty());
    l
}
pub fn env() -> Env {
    let r = |i| S::Rec(i);
    Env {
        defs: vec![
            st(
                "Branch",
                vec![
                    ("tag", S::U16),
                    ("name", S::Opt(b(S::Str))),
                    ("kids", S::Seq(b(r(0)))),
                    ("side", S::Opt(b(r(0)))),
                    ("x", r(1)),
                ],
            ),
            S::Enum(
                "Leaf".into(),
                vec![
                    ("Bare".into(), VS::Unit),
                    ("Both".into(), VS::Str(vec![("l".into(), r(1)), ("r".into(), r(1))])),
                    ("One".into(), VS::Tup(vec![r(1), S::Hk])),
                ],
            ),
        ],
    }
}

/// text a receiver knows only some of; what it does not know it names in its complaint
#[derive(Debug, Serialize)]
struct Word(String);
impl<'de> Deserialize<'de> for Word {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::{Error, Unexpected};
        let s = String::deserialize(d)?;
        match s.len() % 5 {
            0 => Err(D::Error::custom(format!("unknown word `{s}`"))),
            1 => Err(D::Error::invalid_value(Unexpected::Str(&s), &"a word of the language")),
            2 => Err(D::Error::unknown_variant(&s, &["größe", "寸法"])),
            _ => Ok(Word(s)),
        }
    }
}
/// a number named by text, a list of a length the receiver insists on
#[derive(Debug, Serialize)]
struct Even(Vec<u16>);
impl<'de> Deserialize<'de> for Even {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let v = Vec::deserialize(d)?;
        if v.len() % 2 == 1 {
            return Err(D::Error::invalid_length(v.len(), &"pairs"));
        }
        Ok(Even(v))
    }
}
#[derive(Debug, Serialize, Deserialize)]
struct Letter {
    id: u32,
    to: Word,
    also: Vec<Word>,
    body: Option<Even>,
}
#[derive(Debug, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
struct Short(String);
impl Clone for Short {
    fn clone(&self) -> Self {
        Short(self.0.clone())
    }
}
impl From<Short> for String {
    fn from(s: Short) -> String {
        s.0
    }
}
impl TryFrom<String> for Short {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        if s.len() > 8 { Err(format!("too long: {s}")) } else { Ok(Short(s)) }
    }
}
/// types whose own code refuses some of what arrives; the shape of what they send
pub fn picky() -> Vec<Static> {
    let seq = |s| S::Seq(b(s));
    let word = || S::Str;
    let mk = |name, s, relay| Static { name, s, relay, unordered: true };
    vec![
        mk("Word", word(), relay::<Word>),
        mk("Words", seq(word()), relay::<Vec<Word>>),
        mk("Letter", S::Tuple(vec![S::U32, word(), seq(word()), S::Opt(b(seq(S::U16)))]), relay::<Letter>),
        mk("Short", S::Tuple(vec![S::Str, S::Str]), relay::<(Short, Short)>),
        mk("IpAddr", S::Str, relay::<std::net::IpAddr>),
        mk("SocketAddr", S::Tuple(vec![S::U8, S::Str]), relay::<(u8, std::net::SocketAddr)>),
        mk("NonZero", S::Tuple(vec![S::U32, S::I64]), relay::<(std::num::NonZeroU32, std::num::NonZeroI64)>),
        mk("Duration", S::Tuple(vec![S::U64, S::U32]), relay::<std::time::Duration>),
        mk("SystemTime", S::Tuple(vec![S::U64, S::U32]), relay::<std::time::SystemTime>),
        mk("Path", S::Str, relay::<std::path::PathBuf>),
        mk("CString", S::Bytes, relay::<std::ffi::CString>),
        mk("OsString", S::Enum("OsString".into(), vec![("Unix".into(), VS::New(S::Bytes))]), relay::<std::ffi::OsString>),
        mk("Sets", S::Tuple(vec![seq(S::U16), seq(S::Str)]), relay::<(std::collections::BTreeSet<u16>, std::collections::HashSet<String>)>),
        mk("Queues", S::Tuple(vec![seq(S::I8), seq(S::Bool)]), relay::<(std::collections::VecDeque<i8>, std::collections::LinkedList<bool>)>),
        mk("Range", S::Tuple(vec![S::I32, S::I32]), relay::<std::ops::Range<i32>>),
        mk("Cow", S::Tuple(vec![S::Str, seq(S::U8)]), relay::<(std::borrow::Cow<'static, str>, std::borrow::Cow<'static, [u8]>)>),
    ]
}
