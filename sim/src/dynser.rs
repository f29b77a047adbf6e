//! Caller-supplied serialisation code: `Serialize` / `Deserialize` for any schema, with a callback
//! point at every value. At a callback point the simulator may fail the call, panic, or make another
//! call from inside (re-entrancy).
use crate::rt::{self, stat, InjectedPanic, Paused, St};
use crate::schema::{self, Env, Val, S, VS};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant,
    Serializer,
};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

pub enum Act {
    Fail(u64),
    Panic(u64),
    Call(Box<dyn FnMut()>),
    /// encode something of this declared length instead (0: sequence, 1: map, 2: bytes, 3: text)
    Len(Option<usize>, u8),
}
#[derive(Default)]
pub struct Plan {
    pub seen: u64,
    pub acts: Vec<(u64, Act)>,
    pub failed: Option<u64>,
    pub after: u64,
}
thread_local! {
    static PLAN: RefCell<Vec<Plan>> = const { RefCell::new(Vec::new()) };
    static LEN: RefCell<Option<(Option<usize>, u8)>> = const { RefCell::new(None) };
    static CUR: RefCell<Vec<(*const S, *const Env)>> = const { RefCell::new(Vec::new()) };
}
/// run `f` with a callback plan in force; panic-safe
pub fn with_plan<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Plan) {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            if self.0 {
                let _p = Paused::new();
                PLAN.with(|l| l.borrow_mut().pop());
            }
        }
    }
    PLAN.with(|l| l.borrow_mut().push(p));
    let mut g = G(true);
    let r = f();
    g.0 = false;
    let p = PLAN.with(|l| l.borrow_mut().pop()).unwrap();
    (r, p)
}
pub fn fail_text(id: u64) -> String {
    let mid = match id % 7 {
        0 => "line one\nline two\r\n\tdone".to_string(),
        1 => "the \"quoted\" part, it's {braced} {0} %s \\x".to_string(),
        2 => "größe 寸法 🦀 é".repeat(1 + (id >> 8) as usize % 40),
        3 => "0123456789abcdef".repeat(1 + (id >> 8) as usize % 300),
        4 => "error: Custom(\"Convert\") NotEnoughData(4)".to_string(),
        _ => String::new(),
    };
    format!("injected-failure-{id:016x}-{mid}-end")
}
/// does the error say what the failure said, plainly or in quoted form?
pub fn says(e: &(impl fmt::Display + fmt::Debug), id: u64) -> bool {
    let want = fail_text(id);
    let quoted = format!("{want:?}");
    let have = format!("{e} {e:?}");
    have.contains(&want) || have.contains(&quoted[1..quoted.len() - 1])
}
/// bytes a caller hands to the opaque codec: `AsRef` is caller code, too
pub struct Raw<'a>(&'a Vec<u8>);
impl Serialize for Raw<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.0.serialize(z)
    }
}
impl AsRef<[u8]> for Raw<'_> {
    fn as_ref(&self) -> &[u8] {
        let _ = hook_at(At::Ref);
        self.0
    }
}
#[derive(PartialEq, Clone, Copy)]
enum At {
    Start,
    Ref,
    End,
}
/// a callback point; Err carries the failure's message
pub fn hook() -> Result<(), String> {
    hook_at(At::Start)
}
fn hook_end() -> Result<(), String> {
    hook_at(At::End)
}
fn hook_at(at: At) -> Result<(), String> {
    let _p = Paused::new();
    let act = PLAN.with(|l| {
        let mut l = l.borrow_mut();
        let Some(p) = l.last_mut() else { return None };
        let n = p.seen;
        p.seen += 1;
        if p.failed.is_some() {
            p.after += 1;
        }
        let i = p.acts.iter().position(|a| a.0 == n)?;
        let here = match p.acts[i].1 {
            Act::Len(..) => at == At::Start,  // a length is declared where a value begins
            Act::Fail(_) => at != At::Ref,    // `as_ref` has no way to fail
            _ => true,
        };
        if !here {
            p.acts[i].0 += 1;
            return None;
        }
        let a = p.acts.swap_remove(i).1;
        match &a {
            Act::Fail(id) => p.failed = Some(*id),
            Act::Panic(id) => p.failed = Some(*id),
            Act::Len(..) => p.failed = Some(0),
            _ => {}
        }
        Some(a)
    });
    rt::shm().stats[St::CbCalls as usize] += 1;
    match act {
        None => Ok(()),
        Some(Act::Fail(id)) => {
            stat(St::CbFail, 1);
            Err(fail_text(id))
        }
        Some(Act::Panic(id)) => {
            stat(St::CbPanic, 1);
            std::panic::resume_unwind(Box::new(InjectedPanic(id)))
        }
        Some(Act::Len(n, k)) => {
            stat(St::CbLen, 1);
            LEN.with(|l| *l.borrow_mut() = Some((n, k)));
            Ok(())
        }
        Some(Act::Call(mut f)) => {
            stat(St::CbNest, 1);
            f();
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ static names
const LONG: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
    "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "a1", "b1", "c1", "d1", "e1", "f1",
    "g1", "h1", "i1", "j1", "k1", "l1", "m1", "n1", "o1", "p1", "q1", "r1", "s1", "t1", "u1", "v1",
    "w1", "x1", "y1", "z1", "a2", "b2", "c2", "d2", "e2", "f2", "g2", "h2", "i2", "j2", "k2", "l2",
];

// ------------------------------------------------------------------ Serialize
pub struct DV<'a>(pub &'a S, pub &'a Val, pub &'a Env);
impl Serialize for DV<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        hook().map_err(<Z::Error as ser::Error>::custom)?;
        if let Some((n, k)) = take_len() {
            return huge(z, n, k);
        }
        let r = self.inner(z)?;
        hook_end().map_err(<Z::Error as ser::Error>::custom)?;
        Ok(r)
    }
}
fn take_len() -> Option<(Option<usize>, u8)> {
    let _p = Paused::new();
    LEN.with(|l| l.borrow_mut().take())
}
fn huge<Z: Serializer>(z: Z, n: Option<usize>, k: u8) -> Result<Z::Ok, Z::Error> {
    match k {
        0 => z.serialize_seq(n)?.end(),
        1 => z.serialize_map(n)?.end(),
        _ => {
            let n = n.unwrap_or(1 << 32);
            // zero pages that are never touched unless the library copies them
            let p = unsafe { rt::simrt_reserve(n as u64) };
            assert!(!p.is_null());
            let b = unsafe { std::slice::from_raw_parts(p, n) };
            if k == 2 {
                z.serialize_bytes(b)
            } else {
                z.serialize_str(unsafe { std::str::from_utf8_unchecked(b) })
            }
        }
    }
}
impl DV<'_> {
    fn inner<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let e = self.2;
        match (self.0, self.1) {
            (S::Bool, Val::Bool(b)) => z.serialize_bool(*b),
            (S::I8, Val::I(i)) => z.serialize_i8(*i as i8),
            (S::I16, Val::I(i)) => z.serialize_i16(*i as i16),
            (S::I32 | S::Hk, Val::I(i)) => z.serialize_i32(*i as i32),
            (S::I64, Val::I(i)) => z.serialize_i64(*i),
            (S::U8, Val::U(i)) => z.serialize_u8(*i as u8),
            (S::U16, Val::U(i)) => z.serialize_u16(*i as u16),
            (S::U32, Val::U(i)) => z.serialize_u32(*i as u32),
            (S::U64, Val::U(i)) => z.serialize_u64(*i),
            (S::F32, Val::F32(b)) => z.serialize_f32(f32::from_bits(*b)),
            (S::F64, Val::F64(b)) => z.serialize_f64(f64::from_bits(*b)),
            (S::Char, Val::Char(c)) => z.serialize_char(*c),
            (S::Str, Val::Str(t)) => z.serialize_str(t),
            (S::Bytes, Val::Bytes(b)) => z.serialize_bytes(b),
            (S::OpVar | S::VArr, Val::Bytes(b)) => serde_xdr::opaque::variable::serialize(&Raw(b), z),
            (S::OpFix(_), Val::Bytes(b)) => serde_xdr::opaque::fixed::serialize(&Raw(b), z),
            (S::Unit, _) => z.serialize_unit(),
            (S::UnitStruct(n), _) => z.serialize_unit_struct(n),
            (S::Opt(_), Val::None) => z.serialize_none(),
            (S::Opt(t), Val::Some(x)) => z.serialize_some(&DV(t, x, e)),
            (S::Seq(t), Val::List(l)) => {
                let mut q = z.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(&DV(t, x, e))?;
                }
                q.end()
            }
            (S::Map(k, t) | S::SMap(k, t), Val::Map(l)) => {
                let mut q = z.serialize_map(Some(l.len()))?;
                for (i, (a, b)) in l.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&DV(k, a, e), &DV(t, b, e))?;
                    } else {
                        q.serialize_key(&DV(k, a, e))?;
                        q.serialize_value(&DV(t, b, e))?;
                    }
                }
                q.end()
            }
            (S::Tuple(ts), Val::List(l)) => {
                let mut q = z.serialize_tuple(l.len())?;
                for (t, x) in ts.iter().zip(l) {
                    q.serialize_element(&DV(t, x, e))?;
                }
                q.end()
            }
            (S::Arr(t, _), Val::List(l)) => {
                let mut q = z.serialize_tuple(l.len())?;
                for x in l {
                    q.serialize_element(&DV(t, x, e))?;
                }
                q.end()
            }
            (S::TStruct(_, ts), Val::List(l)) => {
                let mut q = z.serialize_tuple_struct("T", l.len())?;
                for (t, x) in ts.iter().zip(l) {
                    q.serialize_field(&DV(t, x, e))?;
                }
                q.end()
            }
            (S::Struct(_, fs), Val::List(l)) => {
                let mut q = z.serialize_struct("R", l.len())?;
                for (i, ((_, t), x)) in fs.iter().zip(l).enumerate() {
                    q.serialize_field(LONG[i % LONG.len()], &DV(t, x, e))?;
                }
                q.end()
            }
            (S::Newtype(_, t), x) => z.serialize_newtype_struct("N", &DV(t, x, e)),
            (S::Enum(n, vs), Val::Var(i, l)) => match &vs[*i].1 {
                VS::Unit => z.serialize_unit_variant("E", schema::vidx(n, *i), LONG[*i % 64]),
                VS::New(t) => z.serialize_newtype_variant("E", schema::vidx(n, *i), LONG[*i % 64], &DV(t, &l[0], e)),
                VS::Tup(ts) => {
                    let mut q = z.serialize_tuple_variant("E", schema::vidx(n, *i), LONG[*i % 64], l.len())?;
                    for (t, x) in ts.iter().zip(l) {
                        q.serialize_field(&DV(t, x, e))?;
                    }
                    q.end()
                }
                VS::Str(ts) => {
                    let mut q = z.serialize_struct_variant("E", schema::vidx(n, *i), LONG[*i % 64], l.len())?;
                    for (j, ((_, t), x)) in ts.iter().zip(l).enumerate() {
                        q.serialize_field(LONG[j % 64], &DV(t, x, e))?;
                    }
                    q.end()
                }
            },
            (S::Rec(i), x) => DV(&e.defs[*i], x, e).serialize(z),
            (s, v) => panic!("dynser: {s:?} {v:?}"),
        }
    }
}

// ------------------------------------------------------------------ Deserialize
#[derive(Clone, Copy)]
struct Seed<'s>(&'s S, &'s Env);
#[derive(Debug)]
pub struct Dyn(pub Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (s, e) = {
            let _p = Paused::new();
            CUR.with(|c| *c.borrow().last().expect("schema"))
        };
        // the schema outlives the call: `decode` below keeps it borrowed
        let (s, e) = unsafe { (&*s, &*e) };
        Seed(s, e).deserialize(d).map(Dyn)
    }
}
/// decode with the real library; the caller arms the simulator
pub fn decode(env: &Env, s: &S, b: &[u8]) -> Result<Val, serde_xdr::error::Error> {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let _p = Paused::new();
            CUR.with(|c| c.borrow_mut().pop());
        }
    }
    {
        let _p = Paused::new();
        CUR.with(|c| c.borrow_mut().push((s, env)));
    }
    let _g = G;
    serde_xdr::from_bytes::<Dyn>(b).map(|d| d.0)
}
pub fn encode(env: &Env, s: &S, v: &Val) -> Result<Vec<u8>, serde_xdr::error::Error> {
    serde_xdr::to_bytes(&DV(s, v, env))
}

struct V<'s>(&'s S, &'s Env);
fn all<'s, 'de, A: SeqAccess<'de>>(mut a: A, ts: impl Iterator<Item = &'s S>, e: &'s Env) -> Result<Vec<Val>, A::Error> {
    let mut l = vec![];
    for (i, t) in ts.enumerate() {
        match a.next_element_seed(Seed(t, e))? {
            Some(x) => l.push(x),
            None => return Err(<A::Error as de::Error>::invalid_length(i, &"more")),
        }
    }
    Ok(l)
}
macro_rules! num {
    ($f:ident, $t:ty, $k:ident, $c:ty) => {
        fn $f<E: de::Error>(self, v: $t) -> Result<Val, E> {
            Ok(Val::$k(v as $c))
        }
    };
}
impl<'de> Visitor<'de> for V<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a value")
    }
    num!(visit_i8, i8, I, i64);
    num!(visit_i16, i16, I, i64);
    num!(visit_i32, i32, I, i64);
    num!(visit_i64, i64, I, i64);
    num!(visit_u8, u8, U, u64);
    num!(visit_u16, u16, U, u64);
    num!(visit_u32, u32, U, u64);
    num!(visit_u64, u64, U, u64);
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        Ok(Val::F32(v.to_bits()))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        Ok(Val::F64(v.to_bits()))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        Ok(Val::Char(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.to_vec()))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let S::Opt(t) = self.0 else { unreachable!() };
        Ok(Val::Some(Box::new(Seed(t, self.1).deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let S::Newtype(_, t) = self.0 else { unreachable!() };
        Seed(t, self.1).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            S::Seq(t) => {
                let mut l = vec![];
                while let Some(x) = a.next_element_seed(Seed(t, self.1))? {
                    l.push(x);
                }
                Ok(Val::List(l))
            }
            S::Tuple(ts) | S::TStruct(_, ts) => Ok(Val::List(all(a, ts.iter(), self.1)?)),
            S::Arr(t, n) => Ok(Val::List(all(a, (0..*n).map(|_| &**t), self.1)?)),
            S::Struct(_, fs) => Ok(Val::List(all(a, fs.iter().map(|f| &f.1), self.1)?)),
            _ => Err(<A::Error as de::Error>::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            S::Map(k, t) | S::SMap(k, t) => {
                let mut l = vec![];
                while let Some(x) = a.next_key_seed(Seed(k, self.1))? {
                    let y = a.next_value_seed(Seed(t, self.1))?;
                    l.push((x, y));
                }
                Ok(Val::Map(l))
            }
            _ => Err(<A::Error as de::Error>::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let S::Enum(n, vs) = self.0 else { return Err(<A::Error as de::Error>::custom("unexpected enum")) };
        let (i, v) = a.variant_seed(Idx(n, vs.len()))?;
        let l = match &vs[i].1 {
            VS::Unit => {
                v.unit_variant()?;
                vec![]
            }
            VS::New(t) => vec![v.newtype_variant_seed(Seed(t, self.1))?],
            VS::Tup(ts) => v.tuple_variant(ts.len(), VV(ts.iter().collect(), self.1))?,
            VS::Str(ts) => v.struct_variant(&LONG[..ts.len().min(64)], VV(ts.iter().map(|f| &f.1).collect(), self.1))?,
        };
        Ok(Val::Var(i, l))
    }
}
struct VV<'s>(Vec<&'s S>, &'s Env);
impl<'de> Visitor<'de> for VV<'_> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
        all(a, self.0.iter().copied(), self.1)
    }
}
struct Idx<'s>(&'s str, usize);
impl<'de> DeserializeSeed<'de> for Idx<'_> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Idx<'_> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant index")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        schema::vpos(self.0, self.1, v).ok_or_else(|| E::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
    }
}
macro_rules! fixed {
    ($n:expr, $d:expr, $($k:literal)*) => {
        match $n { $($k => serde_xdr::opaque::fixed::deserialize::<$k, _>($d).map(|a: [u8; $k]| Val::Bytes(a.to_vec())),)* n => panic!("opaque[{n}]") }
    };
}
impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        hook().map_err(<D::Error as de::Error>::custom)?;
        let r = self.inner(d)?;
        hook_end().map_err(<D::Error as de::Error>::custom)?;
        Ok(r)
    }
}
impl<'s> Seed<'s> {
    fn inner<'de, D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let Seed(s, e) = self;
        let v = V(s, e);
        match s {
            S::Bool => d.deserialize_bool(v),
            S::I8 => d.deserialize_i8(v),
            S::I16 => d.deserialize_i16(v),
            S::I32 | S::Hk => d.deserialize_i32(v),
            S::I64 => d.deserialize_i64(v),
            S::U8 => d.deserialize_u8(v),
            S::U16 => d.deserialize_u16(v),
            S::U32 => d.deserialize_u32(v),
            S::U64 => d.deserialize_u64(v),
            S::F32 => d.deserialize_f32(v),
            S::F64 => d.deserialize_f64(v),
            S::Char => d.deserialize_char(v),
            S::Str => {
                // both entry points are in use by real types (String, &str-like visitors)
                d.deserialize_string(v)
            }
            S::Bytes => d.deserialize_byte_buf(v),
            S::OpVar => serde_xdr::opaque::variable::deserialize(d).map(Val::Bytes),
            S::VArr => serde_xdr::opaque::VariableArray::deserialize(d).map(|a| Val::Bytes(a.data)),
            S::OpFix(n) => fixed!(*n, d, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33
                63 64 65 127 128 255 256 257 1000 1024 4096),
            S::Unit => d.deserialize_unit(v),
            S::UnitStruct(n) => d.deserialize_unit_struct(n, v),
            S::Opt(_) => d.deserialize_option(v),
            S::Seq(_) => d.deserialize_seq(v),
            S::Map(..) | S::SMap(..) => d.deserialize_map(v),
            S::Tuple(ts) => d.deserialize_tuple(ts.len(), v),
            S::Arr(_, n) => d.deserialize_tuple(*n, v),
            S::TStruct(_, ts) => d.deserialize_tuple_struct("T", ts.len(), v),
            S::Struct(_, fs) => d.deserialize_struct("R", &LONG[..fs.len().min(64)], v),
            S::Newtype(..) => d.deserialize_newtype_struct("N", v),
            S::Enum(_, vs) => d.deserialize_enum("E", &LONG[..vs.len().min(64)], v),
            S::Rec(i) => Seed(&e.defs[*i], e).deserialize(d),
            _ => panic!("dynamic schema {s:?}"),
        }
    }
}

// ------------------------------------------------------------------ a leaf with a callback point, for derived types
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Hk(pub i32);
impl Serialize for Hk {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        hook().map_err(<Z::Error as ser::Error>::custom)?;
        let r = z.serialize_i32(self.0)?;
        hook_end().map_err(<Z::Error as ser::Error>::custom)?;
        Ok(r)
    }
}
impl<'de> Deserialize<'de> for Hk {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        hook().map_err(<D::Error as de::Error>::custom)?;
        let r = i32::deserialize(d).map(Hk)?;
        hook_end().map_err(<D::Error as de::Error>::custom)?;
        Ok(r)
    }
}
