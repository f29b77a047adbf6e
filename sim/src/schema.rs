//! Message types, values, and the reference model: an RFC 4506 encoder and decoder written from the
//! standard, sharing no code with the library. The model is lenient exactly where the properties say
//! the library is: any non-zero boolean or presence word is true, padding content is ignored.
use crate::choice::Ch;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct(&'static str),
    Opt(Box<S>),
    Seq(Box<S>),
    Map(Box<S>, Box<S>),
    /// a map that keeps the last of equal keys, in key order (BTreeMap, or HashMap shown sorted)
    SMap(Box<S>, Box<S>),
    Tuple(Vec<S>),
    Arr(Box<S>, usize),
    TStruct(String, Vec<S>),
    Struct(String, Vec<(String, S)>),
    Newtype(String, Box<S>),
    Enum(String, Vec<(String, VS)>),
    OpFix(usize),
    OpVar,
    VArr,
    S32(String, Vec<(i32, String)>),
    XIdx(String, Vec<(i32, String, Vec<S>)>),
    /// discriminant type, arms (accepted discriminants, name, further fields), default arm; `show`:
    /// the discriminant is part of the value (XdrUnion)
    Uni(String, Box<S>, Vec<(Vec<i64>, String, Vec<S>)>, Option<(String, Vec<S>)>, bool),
    /// leaf of caller-supplied code, an int on the wire
    Hk,
    /// struct Node { v: i32, next: Option<Box<Node>> }
    Chain,
    /// Box is transparent
    Rec(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum VS {
    Unit,
    New(S),
    Tup(Vec<S>),
    Str(Vec<(String, S)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Var(usize, Vec<Val>),
    Uni(Box<Val>, usize, Vec<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Word,
    Len,
    Disc,
    Pres,
    Pad,
    Narrow,
    Bool,
    Char,
    Str,
    Raw,
}

/// recursive schemas refer to this table (S::Rec)
#[derive(Default)]
pub struct Env {
    pub defs: Vec<S>,
}

// ------------------------------------------------------------------ encoding model
pub struct Enc<'e> {
    pub out: Vec<u8>,
    pub roles: Vec<(usize, usize, Role)>,
    pub env: &'e Env,
}
impl Enc<'_> {
    fn w32(&mut self, v: u32, r: Role) {
        self.roles.push((self.out.len(), 4, r));
        self.out.extend_from_slice(&v.to_be_bytes());
    }
    fn w64(&mut self, v: u64) {
        self.roles.push((self.out.len(), 8, Role::Word));
        self.out.extend_from_slice(&v.to_be_bytes());
    }
    fn body(&mut self, b: &[u8], r: Role) {
        if !b.is_empty() {
            self.roles.push((self.out.len(), b.len(), r));
        }
        self.out.extend_from_slice(b);
        let p = (4 - b.len() % 4) % 4;
        if p > 0 {
            self.roles.push((self.out.len(), p, Role::Pad));
            self.out.extend(std::iter::repeat(0).take(p));
        }
    }
    pub fn put(&mut self, s: &S, v: &Val) {
        match (s, v) {
            (S::Bool, Val::Bool(b)) => self.w32(*b as u32, Role::Bool),
            (S::I8 | S::I16, Val::I(i)) => self.w32(*i as i32 as u32, Role::Narrow),
            (S::U8 | S::U16, Val::U(i)) => self.w32(*i as u32, Role::Narrow),
            (S::I32 | S::Hk, Val::I(i)) => self.w32(*i as i32 as u32, Role::Word),
            (S::S32(..), Val::I(i)) => self.w32(*i as i32 as u32, Role::Disc),
            (S::U32, Val::U(i)) => self.w32(*i as u32, Role::Word),
            (S::I64, Val::I(i)) => self.w64(*i as u64),
            (S::U64, Val::U(i)) => self.w64(*i),
            (S::F32, Val::F32(b)) => self.w32(*b, Role::Word),
            (S::F64, Val::F64(b)) => self.w64(*b),
            (S::Char, Val::Char(c)) => self.w32(*c as u32, Role::Char),
            (S::Str, Val::Str(t)) => {
                self.w32(t.len() as u32, Role::Len);
                self.body(t.as_bytes(), Role::Str);
            }
            (S::Bytes | S::OpVar | S::VArr, Val::Bytes(b)) => {
                self.w32(b.len() as u32, Role::Len);
                self.body(b, Role::Raw);
            }
            (S::OpFix(_), Val::Bytes(b)) => self.body(b, Role::Raw),
            (S::Unit | S::UnitStruct(_), _) => {}
            (S::Opt(_), Val::None) => self.w32(0, Role::Pres),
            (S::Opt(t), Val::Some(x)) => {
                self.w32(1, Role::Pres);
                self.put(t, x);
            }
            (S::Seq(t), Val::List(l)) => {
                self.w32(l.len() as u32, Role::Len);
                for x in l {
                    self.put(t, x);
                }
            }
            (S::Map(k, t) | S::SMap(k, t), Val::Map(l)) => {
                self.w32(l.len() as u32, Role::Len);
                for (a, b) in l {
                    self.put(k, a);
                    self.put(t, b);
                }
            }
            (S::Tuple(ts) | S::TStruct(_, ts), Val::List(l)) => {
                for (t, x) in ts.iter().zip(l) {
                    self.put(t, x);
                }
            }
            (S::Arr(t, _), Val::List(l)) => {
                for x in l {
                    self.put(t, x);
                }
            }
            (S::Struct(_, fs), Val::List(l)) => {
                for ((_, t), x) in fs.iter().zip(l) {
                    self.put(t, x);
                }
            }
            (S::Newtype(_, t), x) => self.put(t, x),
            (S::Enum(n, vs), Val::Var(i, l)) => {
                self.w32(vidx(n, *i), Role::Disc);
                match &vs[*i].1 {
                    VS::Unit => {}
                    VS::New(t) => self.put(t, &l[0]),
                    VS::Tup(ts) => ts.iter().zip(l).for_each(|(t, x)| self.put(t, x)),
                    VS::Str(ts) => ts.iter().zip(l).for_each(|((_, t), x)| self.put(t, x)),
                }
            }
            (S::XIdx(_, vs), Val::Var(i, l)) => {
                self.w32(vs[*i].0 as u32, Role::Disc);
                vs[*i].2.iter().zip(l).for_each(|(t, x)| self.put(t, x));
            }
            (S::Uni(_, c, arms, def, _), Val::Uni(d, i, l)) => {
                let at = self.out.len();
                self.put(c, d);
                if let Some(r) = self.roles.iter_mut().find(|r| r.0 == at) {
                    r.2 = Role::Disc;
                }
                let ts = if *i < arms.len() { &arms[*i].2 } else { &def.as_ref().unwrap().1 };
                ts.iter().zip(l).for_each(|(t, x)| self.put(t, x));
            }
            (S::Chain, Val::List(l)) => {
                for (i, x) in l.iter().enumerate() {
                    self.put(&S::I32, x);
                    self.w32((i + 1 < l.len()) as u32, Role::Pres);
                }
            }
            (S::Rec(i), x) => {
                let e = self.env;
                self.put(&e.defs[*i], x)
            }
            _ => panic!("model: value {v:?} does not fit {s:?}"),
        }
    }
}
pub fn encode(env: &Env, s: &S, v: &Val) -> Vec<u8> {
    let mut e = Enc { out: vec![], roles: vec![], env };
    e.put(s, v);
    e.out
}
pub fn encode_roles(env: &Env, s: &S, v: &Val) -> (Vec<u8>, Vec<(usize, usize, Role)>) {
    let mut e = Enc { out: vec![], roles: vec![], env };
    e.put(s, v);
    (e.out, e.roles)
}

// ------------------------------------------------------------------ decoding model
#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Short,
    Utf8,
    Char,
    Range,
    Disc,
    Trailing(usize),
}
pub struct Dec<'a, 'e> {
    pub b: &'a [u8],
    pub pos: usize,
    pub env: &'e Env,
}
impl<'a> Dec<'a, '_> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() - self.pos < n {
            return Err(Bad::Short);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn r32(&mut self) -> Result<u32, Bad> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn r64(&mut self) -> Result<u64, Bad> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn body(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        let b = self.take(n)?;
        self.take((4 - n % 4) % 4)?;
        Ok(b)
    }
    fn vlen(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.r32()? as usize;
        // a text that is cut off before its padding ends is short, whatever it contains
        self.body(n)
    }
    fn all<'t>(&mut self, ts: impl Iterator<Item = &'t S>) -> Result<Vec<Val>, Bad> {
        ts.map(|t| self.get(t)).collect()
    }
    pub fn get(&mut self, s: &S) -> Result<Val, Bad> {
        Ok(match s {
            S::Bool => Val::Bool(self.r32()? != 0),
            S::I8 => Val::I(i8::try_from(self.r32()? as i32).map_err(|_| Bad::Range)? as i64),
            S::I16 => Val::I(i16::try_from(self.r32()? as i32).map_err(|_| Bad::Range)? as i64),
            S::U8 => Val::U(u8::try_from(self.r32()?).map_err(|_| Bad::Range)? as u64),
            S::U16 => Val::U(u16::try_from(self.r32()?).map_err(|_| Bad::Range)? as u64),
            S::I32 | S::Hk => Val::I(self.r32()? as i32 as i64),
            S::S32(_, l) => {
                let v = self.r32()? as i32;
                if !l.iter().any(|x| x.0 == v) {
                    return Err(Bad::Disc);
                }
                Val::I(v as i64)
            }
            S::U32 => Val::U(self.r32()? as u64),
            S::I64 => Val::I(self.r64()? as i64),
            S::U64 => Val::U(self.r64()?),
            S::F32 => Val::F32(self.r32()?),
            S::F64 => Val::F64(self.r64()?),
            S::Char => Val::Char(char::from_u32(self.r32()?).ok_or(Bad::Char)?),
            S::Str => Val::Str(std::str::from_utf8(self.vlen()?).map_err(|_| Bad::Utf8)?.to_string()),
            S::Bytes | S::OpVar | S::VArr => Val::Bytes(self.vlen()?.to_vec()),
            S::OpFix(n) => Val::Bytes(self.body(*n)?.to_vec()),
            S::Unit | S::UnitStruct(_) => Val::Unit,
            S::Opt(t) => {
                if self.r32()? != 0 {
                    Val::Some(Box::new(self.get(t)?))
                } else {
                    Val::None
                }
            }
            S::Seq(t) => {
                let n = self.r32()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.get(t)?);
                }
                Val::List(l)
            }
            S::Map(k, t) => {
                let n = self.r32()?;
                let mut l = vec![];
                for _ in 0..n {
                    let a = self.get(k)?;
                    l.push((a, self.get(t)?));
                }
                Val::Map(l)
            }
            S::SMap(k, t) => {
                let n = self.r32()?;
                let mut l: Vec<(Val, Val)> = vec![];
                for _ in 0..n {
                    let a = self.get(k)?;
                    let b = self.get(t)?;
                    match l.binary_search_by(|(x, _)| key_cmp(x, &a)) {
                        Ok(i) => l[i].1 = b,
                        Err(i) => l.insert(i, (a, b)),
                    }
                }
                Val::Map(l)
            }
            S::Tuple(ts) | S::TStruct(_, ts) => Val::List(self.all(ts.iter())?),
            S::Arr(t, n) => Val::List(self.all((0..*n).map(|_| &**t))?),
            S::Struct(_, fs) => Val::List(self.all(fs.iter().map(|f| &f.1))?),
            S::Newtype(_, t) => self.get(t)?,
            S::Enum(n, vs) => {
                let i = vpos(n, vs.len(), self.r32()? as u64).ok_or(Bad::Disc)?;
                let l = match &vs[i].1 {
                    VS::Unit => vec![],
                    VS::New(t) => vec![self.get(t)?],
                    VS::Tup(ts) => self.all(ts.iter())?,
                    VS::Str(ts) => self.all(ts.iter().map(|f| &f.1))?,
                };
                Val::Var(i, l)
            }
            S::XIdx(_, vs) => {
                let i = self.r32()? as i32;
                let p = vs.iter().position(|v| v.0 == i).ok_or(Bad::Disc)?;
                Val::Var(p, self.all(vs[p].2.iter())?)
            }
            S::Uni(_, c, arms, def, _) => {
                let d = self.get(c)?;
                let n = disc_num(c, &d);
                match arms.iter().position(|a| a.0.contains(&n)) {
                    Some(p) => Val::Uni(Box::new(d), p, self.all(arms[p].2.iter())?),
                    None => {
                        let (_, ts) = def.as_ref().ok_or(Bad::Disc)?;
                        Val::Uni(Box::new(d), arms.len(), self.all(ts.iter())?)
                    }
                }
            }
            S::Chain => {
                let mut l = vec![];
                loop {
                    l.push(self.get(&S::I32)?);
                    if self.r32()? == 0 {
                        break;
                    }
                }
                Val::List(l)
            }
            S::Rec(i) => {
                let e = self.env;
                self.get(&e.defs[*i])?
            }
        })
    }
}
pub fn disc_num(c: &S, d: &Val) -> i64 {
    match (c, d) {
        (_, Val::Bool(b)) => *b as i64,
        (_, Val::I(i)) => *i,
        (_, Val::U(u)) => *u as i64,
        (S::XIdx(_, vs), Val::Var(i, _)) => vs[*i].0 as i64,
        (_, Val::Var(i, _)) => *i as i64,
        _ => panic!("discriminant {d:?}"),
    }
}
pub fn key_cmp(a: &Val, b: &Val) -> std::cmp::Ordering {
    match (a, b) {
        (Val::I(x), Val::I(y)) => x.cmp(y),
        (Val::U(x), Val::U(y)) => x.cmp(y),
        (Val::Str(x), Val::Str(y)) => x.cmp(y),
        _ => panic!("key type"),
    }
}
pub fn decode(env: &Env, s: &S, b: &[u8]) -> Result<Val, Bad> {
    let mut d = Dec { b, pos: 0, env };
    let v = d.get(s)?;
    if d.pos < b.len() {
        return Err(Bad::Trailing(b.len() - d.pos));
    }
    Ok(v)
}

// ------------------------------------------------------------------ derived Debug, as the reference
pub fn debug(env: &Env, s: &S, v: &Val) -> String {
    let mut o = String::new();
    dbg(env, s, v, &mut o);
    o
}
fn list<'t>(env: &Env, o: &mut String, a: &str, z: &str, it: impl Iterator<Item = (&'t S, &'t Val)>) {
    o.push_str(a);
    for (i, (s, v)) in it.enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        dbg(env, s, v, o);
    }
    o.push_str(z);
}
fn fields<'t>(env: &Env, o: &mut String, name: &str, it: impl Iterator<Item = (&'t String, &'t S, &'t Val)>) {
    o.push_str(name);
    let mut any = false;
    for (i, (f, s, v)) in it.enumerate() {
        o.push_str(if i > 0 { ", " } else { " { " });
        o.push_str(f);
        o.push_str(": ");
        dbg(env, s, v, o);
        any = true;
    }
    if any {
        o.push_str(" }");
    }
}
fn named<'t>(env: &Env, o: &mut String, name: &str, mut it: Vec<(&'t S, &'t Val)>) {
    o.push_str(name);
    if !it.is_empty() {
        list(env, o, "(", ")", it.drain(..));
    }
}
fn dbg(env: &Env, s: &S, v: &Val, o: &mut String) {
    match (s, v) {
        (_, Val::Bool(b)) => write!(o, "{b:?}").unwrap(),
        (S::S32(_, l), Val::I(i)) => o.push_str(&l.iter().find(|x| x.0 as i64 == *i).unwrap().1),
        (S::Hk, Val::I(i)) => write!(o, "Hk({i})").unwrap(),
        (S::Newtype(n, t), x) => {
            write!(o, "{n}(").unwrap();
            dbg(env, t, x, o);
            o.push(')');
        }
        (S::Rec(i), x) => dbg(env, &env.defs[*i], x, o),
        (_, Val::I(i)) => write!(o, "{i:?}").unwrap(),
        (_, Val::U(i)) => write!(o, "{i:?}").unwrap(),
        (_, Val::F32(b)) => write!(o, "{:?}", f32::from_bits(*b)).unwrap(),
        (_, Val::F64(b)) => write!(o, "{:?}", f64::from_bits(*b)).unwrap(),
        (_, Val::Char(c)) => write!(o, "{c:?}").unwrap(),
        (_, Val::Str(t)) => write!(o, "{t:?}").unwrap(),
        (S::VArr, Val::Bytes(b)) => write!(o, "VariableArray {{ data: {b:?} }}").unwrap(),
        (_, Val::Bytes(b)) => write!(o, "{b:?}").unwrap(),
        (S::UnitStruct(n), _) => o.push_str(n),
        (_, Val::Unit) => o.push_str("()"),
        (_, Val::None) => o.push_str("None"),
        (S::Opt(t), Val::Some(x)) => {
            o.push_str("Some(");
            dbg(env, t, x, o);
            o.push(')');
        }
        (S::Seq(t) | S::Arr(t, _), Val::List(l)) => list(env, o, "[", "]", l.iter().map(|x| (&**t, x))),
        (S::Map(k, t) | S::SMap(k, t), Val::Map(l)) => {
            o.push('{');
            for (i, (a, b)) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                dbg(env, k, a, o);
                o.push_str(": ");
                dbg(env, t, b, o);
            }
            o.push('}');
        }
        (S::Tuple(ts), Val::List(l)) => {
            list(env, o, "(", if ts.len() == 1 { ",)" } else { ")" }, ts.iter().zip(l))
        }
        (S::TStruct(n, ts), Val::List(l)) => named(env, o, n, ts.iter().zip(l).collect()),
        (S::Struct(n, fs), Val::List(l)) => fields(env, o, n, fs.iter().zip(l).map(|((f, t), x)| (f, t, x))),
        (S::Enum(_, vs), Val::Var(i, l)) => match &vs[*i].1 {
            VS::Unit => o.push_str(&vs[*i].0),
            VS::New(t) => named(env, o, &vs[*i].0, vec![(t, &l[0])]),
            VS::Tup(ts) => named(env, o, &vs[*i].0, ts.iter().zip(l).collect()),
            VS::Str(ts) => fields(env, o, &vs[*i].0, ts.iter().zip(l).map(|((f, t), x)| (f, t, x))),
        },
        (S::XIdx(_, vs), Val::Var(i, l)) => named(env, o, &vs[*i].1, vs[*i].2.iter().zip(l).collect()),
        (S::Uni(_, c, arms, def, show), Val::Uni(d, i, l)) => {
            let (n, ts) = if *i < arms.len() { (&arms[*i].1, &arms[*i].2) } else { let d = def.as_ref().unwrap(); (&d.0, &d.1) };
            let mut all: Vec<(&S, &Val)> = vec![];
            if *show {
                all.push((c, d));
            }
            all.extend(ts.iter().zip(l));
            named(env, o, n, all);
        }
        (S::Chain, Val::List(l)) => {
            for x in l {
                o.push_str("Node { v: ");
                dbg(env, &S::I32, x, o);
                o.push_str(", next: Some(");
            }
            o.truncate(o.len() - 5);
            o.push_str("None");
            for _ in l {
                o.push_str(" })");
            }
            o.pop();
        }
        _ => panic!("model debug: {v:?} for {s:?}"),
    }
}

// ------------------------------------------------------------------ measures
pub fn min_size(s: &S) -> usize {
    match s {
        S::Unit | S::UnitStruct(_) => 0,
        S::I64 | S::U64 | S::F64 | S::Chain => 8,
        S::Tuple(ts) | S::TStruct(_, ts) => ts.iter().map(min_size).sum(),
        S::Struct(_, fs) => fs.iter().map(|f| min_size(&f.1)).sum(),
        S::Newtype(_, t) => min_size(t),
        S::Arr(t, n) => n * min_size(t),
        S::OpFix(n) => n.div_ceil(4) * 4,
        _ => 4,
    }
}
pub fn depth(s: &S) -> usize {
    fn m<'a>(it: impl Iterator<Item = &'a S>) -> usize {
        it.map(depth).max().unwrap_or(0)
    }
    match s {
        S::Opt(t) => depth(t),
        S::Seq(t) => 1 + depth(t),
        S::Map(k, t) | S::SMap(k, t) => 1 + depth(k).max(depth(t)),
        S::Tuple(ts) | S::TStruct(_, ts) => m(ts.iter()),
        S::Arr(t, _) | S::Newtype(_, t) => depth(t),
        S::Struct(_, fs) => m(fs.iter().map(|f| &f.1)),
        S::Enum(_, vs) => vs
            .iter()
            .map(|v| match &v.1 {
                VS::Unit => 0,
                VS::New(t) => depth(t),
                VS::Tup(ts) => m(ts.iter()),
                VS::Str(ts) => m(ts.iter().map(|f| &f.1)),
            })
            .max()
            .unwrap_or(0),
        S::XIdx(_, vs) => vs.iter().map(|v| m(v.2.iter())).max().unwrap_or(0),
        S::Uni(_, _, a, d, _) => a.iter().map(|v| m(v.2.iter())).max().unwrap_or(0).max(d.as_ref().map_or(0, |d| m(d.1.iter()))),
        S::OpVar | S::VArr | S::OpFix(_) => 1,
        S::Rec(_) => 4,
        _ => 0,
    }
}
/// can the types of `dynser` stand for it?
pub fn dynamic(s: &S) -> bool {
    match s {
        S::S32(..) | S::XIdx(..) | S::Uni(..) | S::Chain | S::SMap(..) => false,
        S::Opt(t) | S::Seq(t) | S::Newtype(_, t) | S::Arr(t, _) => dynamic(t),
        S::Map(k, t) => dynamic(k) && dynamic(t),
        S::Tuple(ts) | S::TStruct(_, ts) => ts.iter().all(dynamic),
        S::Struct(_, fs) => fs.iter().all(|f| dynamic(&f.1)),
        S::Enum(_, vs) => vs.iter().all(|v| match &v.1 {
            VS::Unit => true,
            VS::New(t) => dynamic(t),
            VS::Tup(ts) => ts.iter().all(dynamic),
            VS::Str(fs) => fs.iter().all(|f| dynamic(&f.1)),
        }),
        S::Rec(_) => false,
        _ => true,
    }
}
pub fn nodes(s: &S) -> usize {
    1 + match s {
        S::Opt(t) | S::Seq(t) | S::Newtype(_, t) | S::Arr(t, _) => nodes(t),
        S::Map(k, t) | S::SMap(k, t) => nodes(k) + nodes(t),
        S::Tuple(ts) | S::TStruct(_, ts) => ts.iter().map(nodes).sum(),
        S::Struct(_, fs) => fs.iter().map(|f| nodes(&f.1)).sum(),
        S::Enum(_, vs) => vs.len(),
        S::XIdx(_, vs) => vs.len(),
        _ => 0,
    }
}

// ------------------------------------------------------------------ generation
pub const OPFIX: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 63,
    64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4096,
];
fn name(i: usize) -> String {
    let l = ((b'a' + (i % 26) as u8) as char).to_string();
    if i < 26 { l } else { format!("{l}{}", i / 26) }
}

pub fn gen_schema(c: &mut Ch, depth: usize) -> S {
    let leaf = [
        S::I32, S::U32, S::Bool, S::U8, S::I8, S::I16, S::U16, S::I64, S::U64, S::F32, S::F64, S::Char, S::Str, S::Bytes, S::OpVar,
        S::VArr, S::Hk,
    ];
    let kind = if depth == 0 { c.weighted(&[30, 6, 1]) } else { c.weighted(&[14, 4, 1, 5, 8, 3, 4, 3, 3, 8, 3, 9]) };
    // the last weight: a wide one
    let width = |c: &mut Ch| match c.weighted(&[36, 120, 120, 96, 48, 24, 12, 12, 0, 0, 12, 0, 12, 9]) {
        13 => 8 + c.us(40),
        n => n,
    };
    match kind {
        0 => c.pick(&leaf).clone(),
        1 => S::OpFix(*c.pick(OPFIX)),
        2 => {
            if c.chance(1, 2) {
                S::UnitStruct("U")
            } else {
                S::Unit
            }
        }
        3 => S::Opt(Box::new(gen_schema(c, depth - 1))),
        4 => S::Seq(Box::new(sized(gen_schema(c, depth - 1)))),
        5 => S::Map(Box::new(sized(gen_schema(c, depth - 1))), Box::new(gen_schema(c, depth - 1))),
        6 => {
            let n = width(c);
            S::Tuple((0..n).map(|_| gen_schema(c, depth - 1)).collect())
        }
        7 => S::Arr(Box::new(gen_schema(c, depth - 1)), if c.chance(1, 16) { c.us(70) } else { c.us(6) }),
        8 => {
            let n = width(c);
            S::TStruct("T".into(), (0..n).map(|_| gen_schema(c, depth - 1)).collect())
        }
        9 => {
            let n = width(c);
            S::Struct("R".into(), (0..n).map(|i| (name(i), gen_schema(c, depth - 1))).collect())
        }
        10 => S::Newtype("N".into(), Box::new(gen_schema(c, depth - 1))),
        _ => {
            let n = match c.weighted(&[16, 32, 32, 16, 8, 4, 4, 3, 1]) {
                7 => 8 + c.us(32),
                8 => 120 + c.us(300),
                n => 1 + n,
            };
            let vs = (0..n)
                .map(|i| {
                    let v = match if i < 8 { c.us(4) } else { 0 } {
                        0 if i >= 8 && i % 3 == 1 => VS::New(S::U16),
                        0 => VS::Unit,
                        1 => VS::New(gen_schema(c, depth - 1)),
                        2 => {
                            let n = width(c);
                            VS::Tup((0..n).map(|_| gen_schema(c, depth - 1)).collect())
                        }
                        _ => {
                            let n = width(c);
                            VS::Str((0..n).map(|i| (name(i), gen_schema(c, depth - 1))).collect())
                        }
                    };
                    (name(i).to_uppercase(), v)
                })
                .collect();
            // now and then the variants' indices are far apart: hand-written code may choose any
            let name = if c.chance(1, 5) { format!("E@{}", 2 * c.log(30) + 1) } else { "E".into() };
            S::Enum(name, vs)
        }
    }
}
/// the index a variant has on the wire
pub fn vidx(name: &str, i: usize) -> u32 {
    match name.split_once('@') {
        Some((_, k)) => ((i as u64 * k.parse::<u64>().unwrap()) & 0x7fff_ffff) as u32,
        None => i as u32,
    }
}
pub fn vpos(name: &str, n: usize, word: u64) -> Option<usize> {
    if name.contains('@') {
        (0..n).find(|i| vidx(name, *i) as u64 == word)
    } else {
        Some(word as usize).filter(|w| *w < n)
    }
}
/// sequences of elements that take no bytes are outside the properties
fn sized(s: S) -> S {
    if min_size(&s) == 0 {
        S::Tuple(vec![s, S::U32])
    } else {
        s
    }
}

fn gint(c: &mut Ch, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match c.weighted(&[4, 3, 3, 2]) {
        0 => c.below(9),
        1 => {
            let p = 1u64.checked_shl(c.below(bits as u64 + 1) as u32).unwrap_or(0);
            p.wrapping_add(c.below(3)).wrapping_sub(1)
        }
        2 => c.bits(),
        _ => m.wrapping_sub(c.below(3)),
    };
    v & m
}
fn sext(v: u64, bits: u32) -> i64 {
    let sh = 64 - bits;
    ((v << sh) as i64) >> sh
}
/// a type whose values hold tens of thousands of small elements or up to 16 MiB in one piece, and one
/// such value: lengths around 2^16, 2^20 and 2^24
pub fn bulk(c: &mut Ch, most: u32) -> (S, Val) {
    let near = |c: &mut Ch, p: u32| (1usize << p) + c.us(9) - 4;
    if c.chance(1, 2) {
        let p = (*c.pick(&[12u32, 15, 16, 16, 17, 20, 20, 22, 24])).min(most);
        let n = near(c, p);
        let s = c.pick(&[S::Str, S::Bytes, S::OpVar, S::VArr]).clone();
        let v = if s == S::Str {
            let mut t = String::new();
            let long = c.chance(1, 2);
            while t.len() < n {
                t.push(if long && t.len() % 5 == 3 && t.len() + 3 < n { '\u{20ac}' } else { (b'a' + (t.len() % 23) as u8) as char });
            }
            Val::Str(t)
        } else {
            Val::Bytes(gen_bytes(c, n))
        };
        return match c.us(3) {
            0 => (S::Tuple(vec![S::U8, s, S::U32]), Val::List(vec![Val::U(7), v, Val::U(0xfeedface)])),
            1 => (S::Seq(Box::new(s)), Val::List(vec![v])),
            _ => (s, v),
        };
    }
    let p = *c.pick(&[12u32, 14, 15, 16, 16, 16, 17]);
    let n = near(c, p);
    let x = c.bits();
    let e = c.pick(&[S::U8, S::I32, S::Bool, S::U64, S::Opt(Box::new(S::U16)), S::Char, S::Str]).clone();
    let one = |i: usize| -> Val {
        let w = crate::choice::mix(x ^ i as u64);
        match &e {
            S::U8 => Val::U(w & 0xff),
            S::I32 => Val::I(w as i32 as i64),
            S::Bool => Val::Bool(w & 1 != 0),
            S::U64 => Val::U(w),
            S::Opt(_) => if w & 1 != 0 { Val::Some(Box::new(Val::U(w >> 48))) } else { Val::None },
            S::Char => Val::Char((b'a' + (w % 26) as u8) as char),
            _ => Val::Str("xyzzy"[..(w % 5) as usize].to_string()),
        }
    };
    let l: Vec<Val> = (0..n).map(one).collect();
    match c.us(4) {
        0 => (S::Map(Box::new(S::U32), Box::new(e)), Val::Map(l.into_iter().enumerate().map(|(i, v)| (Val::U(i as u64), v)).collect())),
        1 => (S::Tuple(vec![S::Seq(Box::new(e)), S::U16]), Val::List(vec![Val::List(l), Val::U(515)])),
        2 if n < 70_000 => (S::Arr(Box::new(e), n), Val::List(l)),
        _ => (S::Seq(Box::new(e)), Val::List(l)),
    }
}
pub fn gen_string(c: &mut Ch, max: usize) -> String {
    let n = c.len(max);
    let mut s = String::new();
    match c.weighted(&[6, 3, 1]) {
        0 => {
            let f = c.below(26) as u8;
            while s.len() < n {
                s.push((b'a' + ((f as usize + s.len()) % 26) as u8) as char);
            }
        }
        1 => {
            let pool = ['a', 'é', 'あ', '🦀', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\0', '"', '\n'];
            let (k, o) = (1 + c.us(pool.len()), c.us(pool.len()));
            let mut i = 0;
            while s.len() < n {
                s.push(pool[(o + i * k) % pool.len()]);
                i += 1;
            }
        }
        _ => {
            while s.len() < n {
                s.push('\0');
            }
        }
    }
    s
}
fn gen_bytes(c: &mut Ch, n: usize) -> Vec<u8> {
    let base = c.below(256) as u8;
    let step = c.below(256) as u8;
    (0..n).map(|i| base.wrapping_add((i as u8).wrapping_mul(step))).collect()
}

/// `fuel` bounds the size of the value
pub fn gen_val(c: &mut Ch, env: &Env, s: &S, fuel: &mut isize) -> Val {
    *fuel -= 4;
    let room = (*fuel).max(0) as usize;
    match s {
        S::Bool => Val::Bool(c.chance(1, 2)),
        S::I8 => Val::I(sext(gint(c, 8), 8)),
        S::I16 => Val::I(sext(gint(c, 16), 16)),
        S::I32 | S::Hk => Val::I(sext(gint(c, 32), 32)),
        S::I64 => Val::I(gint(c, 64) as i64),
        S::U8 => Val::U(gint(c, 8)),
        S::U16 => Val::U(gint(c, 16)),
        S::U32 => Val::U(gint(c, 32)),
        S::U64 => Val::U(gint(c, 64)),
        S::F32 if c.chance(1, 2) => Val::F32(gint(c, 32) as u32),
        S::F64 if c.chance(1, 2) => Val::F64(gint(c, 64)),
        S::Char if c.chance(1, 2) => {
            let v = gint(c, 21) as u32;
            Val::Char(char::from_u32(v).unwrap_or_else(|| char::from_u32(v & 0xffff ^ 0x8000).unwrap_or('x')))
        }
        S::F32 => Val::F32(*c.pick(&[0, 0x3f800000, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1, 0x7f7fffff, 0x41480000])),
        S::F64 => Val::F64(*c.pick(&[
            0,
            0x3ff0000000000000,
            0x8000000000000000,
            0x7ff0000000000000,
            0xfff0000000000000,
            0x7ff8000000000000,
            0x7ff0000000000001,
            1,
            0x7fefffffffffffff,
            0x4029000000000000,
        ])),
        S::Char => Val::Char(*c.pick(&['a', '\0', 'é', 'あ', '🦀', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10ffff}'])),
        S::Str => {
            let t = gen_string(c, room);
            *fuel -= t.len() as isize;
            Val::Str(t)
        }
        S::Bytes | S::OpVar | S::VArr => {
            let n = c.len(room);
            *fuel -= n as isize;
            Val::Bytes(gen_bytes(c, n))
        }
        S::OpFix(n) => {
            *fuel -= *n as isize;
            Val::Bytes(gen_bytes(c, *n))
        }
        S::Unit | S::UnitStruct(_) => Val::Unit,
        S::Opt(t) => {
            if room > 0 && c.chance(2, 3) {
                Val::Some(Box::new(gen_val(c, env, t, fuel)))
            } else {
                Val::None
            }
        }
        S::Seq(t) => {
            let n = c.len(room / min_size(t).max(4) / 2);
            let mut l = vec![];
            for _ in 0..n {
                if *fuel <= 0 {
                    break;
                }
                l.push(gen_val(c, env, t, fuel));
            }
            Val::List(l)
        }
        S::Map(k, t) => {
            let n = c.len(room / 16).min(400);
            let mut l = vec![];
            for _ in 0..n {
                if *fuel <= 0 {
                    break;
                }
                let a = gen_val(c, env, k, fuel);
                l.push((a, gen_val(c, env, t, fuel)));
            }
            Val::Map(l)
        }
        S::SMap(k, t) => {
            let n = c.len(room / 16).min(400);
            let mut l: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                if *fuel <= 0 {
                    break;
                }
                let a = gen_val(c, env, k, fuel);
                let b = gen_val(c, env, t, fuel);
                if let Err(i) = l.binary_search_by(|(x, _)| key_cmp(x, &a)) {
                    l.insert(i, (a, b));
                }
            }
            Val::Map(l)
        }
        S::Tuple(ts) | S::TStruct(_, ts) => Val::List(ts.iter().map(|t| gen_val(c, env, t, fuel)).collect()),
        S::Arr(t, n) => Val::List((0..*n).map(|_| gen_val(c, env, t, fuel)).collect()),
        S::Struct(_, fs) => Val::List(fs.iter().map(|f| gen_val(c, env, &f.1, fuel)).collect()),
        S::Newtype(_, t) => gen_val(c, env, t, fuel),
        S::Enum(_, vs) => {
            // recursive values end
            let i = if *fuel < -200 { 0 } else { c.us(vs.len()) };
            let l = match &vs[i].1 {
                VS::Unit => vec![],
                VS::New(t) => vec![gen_val(c, env, t, fuel)],
                VS::Tup(ts) => ts.iter().map(|t| gen_val(c, env, t, fuel)).collect(),
                VS::Str(ts) => ts.iter().map(|f| gen_val(c, env, &f.1, fuel)).collect(),
            };
            Val::Var(i, l)
        }
        S::S32(_, l) => Val::I(c.pick(l).0 as i64),
        S::XIdx(_, vs) => {
            let i = c.us(vs.len());
            Val::Var(i, vs[i].2.iter().map(|t| gen_val(c, env, t, fuel)).collect())
        }
        S::Uni(_, cs, arms, def, _) => {
            let i = c.us(arms.len() + def.is_some() as usize);
            let (n, ts) = if i < arms.len() {
                (*c.pick(&arms[i].0), &arms[i].2)
            } else {
                let mut pool: Vec<i64> = match &**cs {
                    S::Bool => vec![0, 1],
                    S::Enum(_, vs) => (0..vs.len() as i64).collect(),
                    S::XIdx(_, vs) => vs.iter().map(|v| v.0 as i64).collect(),
                    S::S32(_, vs) => vs.iter().map(|v| v.0 as i64).collect(),
                    S::U32 => vec![0, 1, 2, 3, 7, 100, 0x7fffffff, 0x80000000, 0xffffffff],
                    _ => vec![0, 1, 2, 3, 7, 100, i32::MAX as i64, -1, i32::MIN as i64],
                };
                pool.retain(|p| !arms.iter().any(|a| a.0.contains(p)));
                if pool.is_empty() {
                    (arms[0].0[0], &arms[0].2)
                } else {
                    (*c.pick(&pool), &def.as_ref().unwrap().1)
                }
            };
            let i = arms.iter().position(|a| a.0.contains(&n)).unwrap_or(arms.len());
            let d = match &**cs {
                S::Bool => Val::Bool(n != 0),
                S::U32 => Val::U(n as u64),
                S::Enum(..) => Val::Var(n as usize, vec![]),
                S::XIdx(_, vs) => Val::Var(vs.iter().position(|v| v.0 as i64 == n).unwrap(), vec![]),
                _ => Val::I(n),
            };
            Val::Uni(Box::new(d), i, ts.iter().map(|t| gen_val(c, env, t, fuel)).collect())
        }
        S::Chain => {
            let n = 1 + c.len(room / 8).min(1500);
            Val::List((0..n).map(|i| Val::I(i as i64)).collect())
        }
        S::Rec(i) => gen_val(c, env, &env.defs[*i], fuel),
    }
}
