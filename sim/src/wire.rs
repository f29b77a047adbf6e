//! C01, C02, C03, C04, C08: messages over faulty links and torn stores.
use crate::choice::{hash_bytes, Ch};
use crate::driver::{panic_viol, viol, Outcome, Viol};
use crate::dynser;
use crate::faults;
use crate::rt::{self, event, guarded, stat, stat_max, Caught, St};
use crate::schema::{self, decode, encode, encode_roles, gen_schema, gen_val, Bad, Env, Role, Val, S, VS};
use crate::statics::{self, Relay, Static};
use serde_xdr::error::Error;

pub struct Ty {
    pub name: String,
    pub s: S,
    pub relay: Option<Relay>,
    pub unordered: bool,
}
pub fn pick_ty(c: &mut Ch, st: &[Static], depth: usize) -> Ty {
    if c.chance(1, 2) {
        let t = c.pick(st);
        Ty { name: t.name.into(), s: t.s.clone(), relay: Some(t.relay), unordered: t.unordered }
    } else {
        let s = gen_schema(c, depth);
        Ty { name: "dynamic".into(), s, relay: None, unordered: false }
    }
}
pub fn show(t: &Ty) -> String {
    if t.relay.is_some() {
        t.name.clone()
    } else {
        format!("{:?}", t.s).chars().take(160).collect()
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 {
        s += &format!("..({} bytes)", b.len());
    }
    s
}
fn fuel(c: &mut Ch) -> isize {
    match c.weighted(&[30, 12, 4, 1]) {
        0 => 60,
        1 => 400,
        2 => 4000,
        _ => 70000,
    }
}

pub enum Got {
    Static { debug: String, bytes: Result<Vec<u8>, Error> },
    Dyn(Val),
}
/// hand bytes to the real decoder
pub fn deliver(env: &Env, t: &Ty, b: &[u8]) -> Result<Result<Got, Error>, Viol> {
    rt::hint("");
    let r = guarded(|| match t.relay {
        Some(f) => f(b).map(|r| Got::Static { debug: r.debug, bytes: r.bytes }),
        None => dynser::decode(env, &t.s, b).map(Got::Dyn),
    });
    stat(St::Frames, 1);
    stat(St::BytesIn, b.len() as u64);
    match r {
        Ok(r) => {
            stat(if r.is_ok() { St::DecOk } else { St::DecErr }, 1);
            if let Err(e) = &r {
                // reporting the error must be safe too
                let e: &Error = e;
                if guarded(|| format!("{e} {e:?}").len()).is_err() {
                    return panic_viol("reporting the decode error");
                }
            }
            Ok(r)
        }
        Err(Caught::Foreign(_)) | Err(Caught::Injected(_)) => panic_viol(&format!("decoding {} from {}", show(t), hex(b))),
    }
}

/// does the outcome agree with what RFC 4506 says about these bytes?
pub fn judge(env: &Env, t: &Ty, b: &[u8], r: &Result<Got, Error>) -> Outcome {
    let m = decode(env, &t.s, b);
    match (m, r) {
        (Ok(v), Ok(g)) => {
            match g {
                Got::Dyn(x) => {
                    if *x != v {
                        return viol("wrong value", format!("{} from {}: decoded {x:?}, the bytes say {v:?}", show(t), hex(b)));
                    }
                }
                Got::Static { debug, bytes } => {
                    let want = schema::debug(env, &t.s, &v);
                    if *debug != want {
                        return viol("wrong value", format!("{} from {}: decoded {debug}, the bytes say {want}", show(t), hex(b)));
                    }
                    let canon = encode(env, &t.s, &v);
                    match bytes {
                        Ok(o) if *o == canon => {}
                        Ok(o) if t.unordered && decode(env, &t.s, o) == Ok(v.clone()) => {}
                        Ok(o) => return viol("wrong value carried on", format!("{}: {want} re-encoded as {} instead of {}", show(t), hex(o), hex(&canon))),
                        Err(e) => return viol("wrong value carried on", format!("{}: {want} cannot be re-encoded: {e:?}", show(t))),
                    }
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Err(Bad::Short), Ok(_)) => viol("accepted: short", format!("{} accepted from {} although bytes are missing", show(t), hex(b))),
        (Err(w), Ok(g)) => {
            let k = match &w {
                Bad::Trailing(_) => "trailing".to_string(),
                w => format!("{w:?}").to_lowercase(),
            };
            let d = match g {
                Got::Dyn(v) => format!("{v:?}"),
                Got::Static { debug, .. } => debug.clone(),
            };
            viol(format!("accepted: {k}"), format!("{} from {}: decoded {d}, but the bytes denote no value ({w:?})", show(t), hex(b)))
        }
        (Ok(v), Err(e)) => viol("rejected a value", format!("{} from {}: {e:?}, but the bytes say {v:?}", show(t), hex(b))),
    }
}

struct Frames {
    last: Vec<u8>,
}
impl Frames {
    fn next(&mut self, c: &mut Ch, env: &Env, t: &Ty) -> (Vec<u8>, Vec<(usize, usize, Role)>, Vec<u8>) {
        let mut f = fuel(c);
        let v = gen_val(c, env, &t.s, &mut f);
        let (b, r) = encode_roles(env, &t.s, &v);
        let other = std::mem::replace(&mut self.last, b[..b.len().min(40_000)].to_vec());
        (b, r, other)
    }
    /// now and then a very large one, of its own type
    fn next_or_bulk(&mut self, c: &mut Ch, env: &Env, t: &Ty) -> (Option<Ty>, Vec<u8>, Vec<(usize, usize, Role)>, Vec<u8>) {
        if c.chance(1, 1500) {
            let (s, v) = schema::bulk(c, 20);
            let (b, r) = encode_roles(env, &s, &v);
            return (Some(Ty { name: "dynamic".into(), s, relay: None, unordered: false }), b, r, self.last.clone());
        }
        let (b, r, o) = self.next(c, env, t);
        (None, b, r, o)
    }
}

fn outcome_hash(b: &[u8], r: &Result<Got, Error>) -> u64 {
    hash_bytes(match r {
        Ok(_) => 1,
        Err(Error::NotEnoughData(n)) => 1000 + *n as u64,
        Err(Error::TrailingData(n)) => 2_000_000 + *n as u64,
        Err(Error::Custom(m)) => hash_bytes(3, m.as_bytes()),
        Err(_) => 4,
    }, b)
}
fn say(r: &Result<Got, Error>) -> String {
    match r {
        Ok(Got::Dyn(v)) => format!("value {v:?}"),
        Ok(Got::Static { debug, .. }) => format!("value {debug}"),
        Err(e) => format!("{e:?}"),
    }
    .chars()
    .take(160)
    .collect()
}
fn count_outcome(r: &Result<Got, Error>) {
    stat(if r.is_ok() { St::DecOkDamaged } else { St::DecErrDamaged }, 1);
}

// ------------------------------------------------------------------ C01
pub fn c01(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let mut fr = Frames { last: vec![] };
    let n = c.range(2, 30);
    let picky = statics::picky();
    let any = |c: &mut Ch| match c.chance(1, 5) {
        true => {
            let t = c.pick(&picky);
            Ty { name: t.name.into(), s: t.s.clone(), relay: Some(t.relay), unordered: true }
        }
        false => pick_ty(c, &st, 3),
    };
    let mut t = any(c);
    for i in 0..n {
        if c.chance(1, 3) {
            t = any(c);
        }
        let (big, b, roles, other) = fr.next_or_bulk(c, &env, &t);
        let t = big.as_ref().unwrap_or(&t);
        let b = if big.is_none() && c.chance(1, 12) {
            stat(St::FSplice, 1);
            // something else entirely
            let n = c.us(80);
            (0..n).map(|_| *c.pick(&[0u8, 0, 0, 1, 2, 3, 4, 7, 0x7f, 0x80, 0xff, 0xc0])).collect()
        } else {
            faults::damage(c, &b, &roles, &other)
        };
        tr!("receive #{i} {}: {}", show(t), hex(&b));
        rt::mem_begin(1 << 30);
        rt::steps_begin(4_000_000 + 4000 * b.len() as u64);
        let r = deliver(&env, t, &b)?;
        stat_max(St::StepMax, rt::steps_end());
        rt::mem_end();
        count_outcome(&r);
        event(outcome_hash(&b, &r));
        tr!("  -> {}", say(&r));
    }
    Ok(())
}
/// a linked list of 400 000 nodes: decoding recurses once per node
pub fn c01_chain() -> Outcome {
    let st = statics::all();
    let t = st.iter().find(|t| t.name == "Node").unwrap();
    let mut b = vec![];
    for _ in 0..400_000 {
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
    }
    rt::hint("list of 400000 nodes");
    match guarded(|| (t.relay)(&b).is_ok()) {
        Ok(_) => Ok(()),
        Err(_) => panic_viol("decoding a long list"),
    }
}

// ------------------------------------------------------------------ C03
pub fn c03(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let mut fr = Frames { last: vec![] };
    let n = c.range(2, 30);
    let mut t = pick_ty(c, &st, 3);
    for i in 0..n {
        if c.chance(1, 3) {
            t = pick_ty(c, &st, 3);
        }
        let (big, b, roles, other) = fr.next_or_bulk(c, &env, &t);
        let t = big.as_ref().unwrap_or(&t);
        let b = faults::damage(c, &b, &roles, &other);
        tr!("receive #{i} {}: {}", show(t), hex(&b));
        rt::mem_begin(1 << 30);
        let r = deliver(&env, t, &b)?;
        rt::mem_end();
        count_outcome(&r);
        event(outcome_hash(&b, &r));
        tr!("  -> {}", say(&r));
        judge(&env, t, &b, &r)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
pub fn c04(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let mut fr = Frames { last: vec![] };
    if c.chance(1, 400) {
        return c04_bulk(c, &env, &st);
    }
    let n = c.range(2, 24);
    // elements nested without limit are allowed for by their depth; these types have a fixed one
    let flat = |c: &mut Ch| loop {
        let t = pick_ty(c, &st, 4);
        if t.name != "Branch" {
            return t;
        }
    };
    let mut t = flat(c);
    for i in 0..n {
        if c.chance(1, 3) {
            t = flat(c);
        }
        let (mut b, roles, other) = fr.next(c, &env, &t);
        let lens: Vec<usize> = roles.iter().filter(|r| r.2 == Role::Len).map(|r| r.0).collect();
        let mut big = false;
        if !lens.is_empty() && c.chance(3, 4) {
            let at = *c.pick(&lens);
            let v: u32 = match c.us(4) {
                0 => *c.pick(&[0xffffffffu32, 0x7fffffff, 0x80000000, 0xfffffffc, 0x40000000, 0x3fffffff]),
                1 => 1u32 << c.range(8, 31),
                2 => u32::from_be_bytes(b[at..at + 4].try_into().unwrap()).wrapping_add(1 << c.below(32)),
                _ => c.bits() as u32,
            };
            b[at..at + 4].copy_from_slice(&v.to_be_bytes());
            stat(St::FLen, 1);
            big = true;
            tr!("  fault: length word at {at} became {v:#x}");
        }
        if !big || c.chance(1, 4) {
            faults::one(c, &mut b, &roles, &other);
        }
        if c.chance(1, 10) {
            // a flood of length words: every nested count claims the maximum
            let v = *c.pick(&[0xffffffffu32, 0x00ffffff, 0x7fffffff, 0x10000]);
            let m = c.us(40);
            b = (0..m).flat_map(|_| v.to_be_bytes()).collect();
            stat(St::FOnes, 1);
        }
        let levels = schema::depth(&t.s) as i64 + 1;
        let budget = (96 << 10) + levels * (3 << 19) + 384 * b.len() as i64;
        let limit = 100_000 + levels as u64 * 150_000 + 10_000 * schema::nodes(&t.s) as u64 + STEPS_PER_BYTE * b.len() as u64;
        tr!("receive #{i} {}: {} (may request {budget} bytes, {limit} steps)", show(&t), hex(&b));
        rt::mem_begin(budget);
        rt::steps_begin(limit);
        let r = deliver(&env, &t, &b);
        let steps = rt::steps_end();
        let peak = rt::mem_end();
        if rt::shm().flag == 1 {
            return viol("memory", format!("{}: {} requested {} bytes at once", show(&t), hex(&b), rt::shm().req));
        }
        let r = match r {
            Ok(r) => r,
            Err(v) => {
                tr!("  panicked: {} (C01's business)", v.msg);
                continue;
            }
        };
        stat_max(St::MemPeakMax, peak as u64);
        stat_max(St::MemRatioMax, peak as u64 * 100 / budget as u64);
        stat_max(St::StepMax, steps);
        stat_max(St::StepRatioMax, steps * 100 / limit);
        count_outcome(&r);
        event(outcome_hash(&b, &r));
        tr!("  -> {} ({peak} bytes, {steps} steps)", say(&r));
    }
    Ok(())
}
/// what long messages consist of
pub fn part(c: &mut Ch, st: &[Static]) -> S {
    match c.us(13) {
        0 => S::Str,
        1 => S::Bytes,
        2 => S::VArr,
        3 => S::OpVar,
        4 => S::Opt(Box::new(S::U32)),
        5 => S::Seq(Box::new(S::U16)),
        6 => S::Tuple(vec![S::Str, S::Bool]),
        7 => S::OpFix(1 + c.us(9)),
        8 => S::Char,
        9 => S::Struct("P".into(), vec![("k".into(), S::Str), ("v".into(), S::Opt(Box::new(S::Str)))]),
        10 => S::Map(Box::new(S::U32), Box::new(S::Str)),
        11 => S::Enum("K".into(), ('A'..='D').map(|k| (k.to_string(), VS::Unit)).collect()),
        _ => {
            let l: Vec<&Static> = st.iter().filter(|t| schema::min_size(&t.s) > 0 && schema::dynamic(&t.s)).collect();
            c.pick(&l).s.clone()
        }
    }
}
const STEPS_PER_BYTE: u64 = 1500;
/// one large message of many small parts: work that grows faster than the message shows in the processor
/// time (20 s are allowed, undisturbed decoding takes well under one), also where no steps are counted
fn c04_bulk(c: &mut Ch, env: &Env, st: &[Static]) -> Outcome {
    let target = (1 << 20) + c.us(3 << 20);
    let e = part(c, st);
    let (s, kind) = match c.us(8) {
        // one long body instead of many parts
        0 => (c.pick(&[S::Str, S::Bytes, S::VArr, S::OpVar, S::Seq(Box::new(S::U32))]).clone(), 0),
        1 => (S::Map(Box::new(S::U32), Box::new(e.clone())), 2),
        _ => (S::Seq(Box::new(e.clone())), 1),
    };
    let parts: Vec<Vec<u8>> = (0..8)
        .map(|_| {
            let mut f = 4;
            let v = gen_val(c, env, &e, &mut f);
            encode(env, &e, &v)
        })
        .collect();
    let mut b = vec![0; 4];
    let mut n = 0u32;
    while b.len() < target {
        match (kind, &s) {
            (0, S::Str) => {
                b.extend_from_slice("a\u{e9}\u{20ac}bc\u{1f600}".as_bytes());
                b.resize(b.len().next_multiple_of(4), b'z');
                n = b.len() as u32 - 4;
            }
            (0, S::Seq(_)) => {
                b.extend_from_slice(&(n * 77).to_be_bytes());
                n += 1;
            }
            (0, _) => {
                b.extend_from_slice(&n.to_be_bytes());
                n = b.len() as u32 - 4;
            }
            _ => {
                if kind == 2 {
                    b.extend_from_slice(&n.to_be_bytes());
                }
                b.extend_from_slice(&parts[n as usize % 8]);
                if parts.iter().all(|p| p.is_empty()) && kind == 1 {
                    break;
                }
                n += 1;
            }
        }
    }
    b[..4].copy_from_slice(&n.to_be_bytes());
    match c.us(6) {
        0 => {
            let k = 1 + c.us(b.len() / 8);
            b.truncate(b.len() - k);
            stat(St::FTrunc, 1);
        }
        1 => {
            let at = b.len() - 4 - 4 * c.us(b.len() / 64);
            b[at..at + 4].copy_from_slice(&0xffffffffu32.to_be_bytes());
            stat(St::FOnes, 1);
        }
        2 => {
            b[..4].copy_from_slice(&(n.wrapping_add(1 + c.us(1 << 20) as u32)).to_be_bytes());
            stat(St::FLen, 1);
        }
        _ => {}
    }
    let t = Ty { name: "dynamic".into(), s, relay: None, unordered: false };
    let levels = schema::depth(&t.s) as i64 + 1;
    let budget = (96 << 10) + levels * (3 << 19) + 384 * b.len() as i64;
    let limit = 100_000 + levels as u64 * 150_000 + 10_000 * schema::nodes(&t.s) as u64 + STEPS_PER_BYTE * b.len() as u64;
    tr!("receive {}: {} parts, {}", show(&t), n, hex(&b));
    rt::hint("large message");
    rt::mem_begin(budget);
    rt::steps_begin(limit);
    let r = guarded(|| dynser::decode(env, &t.s, &b).map(|_| ()));
    let steps = rt::steps_end();
    let peak = rt::mem_end();
    stat(St::Frames, 1);
    stat(St::BytesIn, b.len() as u64);
    if rt::shm().flag == 1 {
        return viol("memory", format!("{}: {} requested {} bytes at once", show(&t), hex(&b), rt::shm().req));
    }
    stat_max(St::MemPeakMax, peak as u64);
    stat_max(St::StepMax, steps);
    event(hash_bytes(n as u64, &b[b.len() - 64..]) ^ matches!(r, Ok(Ok(()))) as u64);
    tr!("  -> {} ({peak} bytes, {steps} steps)", match &r { Ok(Ok(())) => "value".into(), Ok(Err(e)) => format!("{e:?}"), Err(_) => "panic (C01's business)".into() });
    Ok(())
}

// ------------------------------------------------------------------ C02
struct Rec {
    t: Ty,
    v: Val,
    b: Vec<u8>,
}
fn records(c: &mut Ch, env: &Env, st: &[Static], n: usize) -> Vec<Rec> {
    let mut l = vec![];
    let mut t = pick_ty(c, st, 3);
    let mut big = false;
    while l.len() < n {
        if big || c.chance(1, 2) {
            t = pick_ty(c, st, 3);
        }
        big = false;
        if schema::min_size(&t.s) == 0 {
            t = Ty { name: "dynamic".into(), s: S::Tuple(vec![S::U32, t.s.clone()]), relay: None, unordered: false };
        }
        let mut f = fuel(c).min(4000);
        let mut v = gen_val(c, env, &t.s, &mut f);
        if c.chance(1, 3000) {
            big = true;
            let s;
            (s, v) = schema::bulk(c, 20);
            t = Ty { name: "dynamic".into(), s, relay: None, unordered: false };
        }
        let b = encode(env, &t.s, &v);
        l.push(Rec { t: Ty { name: t.name.clone(), s: t.s.clone(), relay: t.relay, unordered: t.unordered }, v, b });
    }
    l
}
fn same(env: &Env, r: &Rec, g: &Got) -> bool {
    match g {
        Got::Dyn(v) => *v == r.v,
        Got::Static { debug, .. } => *debug == schema::debug(env, &r.t.s, &r.v),
    }
}
/// one reader following only the decoder's reports
struct Reader {
    buf: Vec<u8>,
    need: usize,
    got: usize,
}
impl Reader {
    fn new() -> Reader {
        Reader { buf: vec![], need: 1, got: 0 }
    }
    fn feed(&mut self, env: &Env, recs: &[Rec], chunk: &[u8]) -> Outcome {
        self.buf.extend_from_slice(chunk);
        while self.buf.len() >= self.need && self.got < recs.len() {
            let r = &recs[self.got];
            let have = self.buf.len();
            let end = r.b.len();
            match deliver(env, &r.t, &self.buf)? {
                Ok(g) => {
                    if have != end {
                        return viol("boundary: accepted", format!("{}: accepted {have} bytes, the message has {end}: {}", show(&r.t), hex(&self.buf)));
                    }
                    if !same(env, r, &g) {
                        return viol("boundary: wrong message", format!("{}: {} came back as another value", show(&r.t), hex(&r.b)));
                    }
                    self.buf.clear();
                    self.need = 1;
                    self.got += 1;
                    stat(St::SMsgs, 1);
                }
                Err(Error::NotEnoughData(n)) => {
                    if have >= end {
                        return viol("boundary: complete message called short", format!("{}: {n} bytes said to be missing from a complete message {}", show(&r.t), hex(&self.buf)));
                    }
                    if n == 0 || n > end - have {
                        return viol("boundary: shortfall", format!("{}: {n} bytes said to be missing, {} are: {}", show(&r.t), end - have, hex(&self.buf)));
                    }
                    stat(St::SShort, 1);
                    self.need = have + n;
                }
                Err(Error::TrailingData(t)) => {
                    if have <= end || t != have - end {
                        return viol("boundary: surplus", format!("{}: {t} bytes said to be left over, {} are: {}", show(&r.t), have as i64 - end as i64, hex(&self.buf)));
                    }
                    stat(St::STrail, 1);
                    let g = deliver(env, &r.t, &self.buf[..have - t])?;
                    match g {
                        Ok(g) if same(env, r, &g) => {}
                        _ => return viol("boundary: wrong message", format!("{}: message lost although only {t} surplus bytes were reported", show(&r.t))),
                    }
                    self.buf.drain(..have - t);
                    self.need = 1;
                    self.got += 1;
                    stat(St::SMsgs, 1);
                }
                Err(e) => {
                    return viol("boundary: other error", format!("{}: {e:?} for {} of {end} bytes {}", show(&r.t), have, hex(&self.buf)));
                }
            }
        }
        Ok(())
    }
}
pub fn c02(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    match c.us(3) {
        0 => {
            // every cut point of one message, and what follows it
            let recs = records(c, &env, &st, 2);
            let b = &recs[0].b;
            let t = &recs[0].t;
            tr!("every cut of {}: {}", show(t), hex(b));
            let step = 1 + b.len() / 400;
            let mut k = 0;
            while k < b.len() {
                match deliver(&env, t, &b[..k])? {
                    Ok(_) => return viol("boundary: accepted", format!("{} accepted from the first {k} of {} bytes: {}", show(t), b.len(), hex(b))),
                    Err(Error::NotEnoughData(n)) if n >= 1 && n <= b.len() - k => {}
                    Err(e) => {
                        return viol(
                            if matches!(e, Error::NotEnoughData(_)) { "boundary: shortfall" } else { "boundary: other error" },
                            format!("{} cut off after {k} of {} bytes: {e:?}: {}", show(t), b.len(), hex(b)),
                        )
                    }
                }
                stat(St::SCuts, 1);
                stat(St::FTrunc, 1);
                k += step;
            }
            // usually a little follows, now and then a lot
            let bits = if c.chance(1, 8) { 22 } else { 17 };
            let much = if c.chance(1, 6) { 4096 + c.log(bits) as usize } else { 6 };
            for extra in [1usize, 2, 3, 4, 5, 8, recs[1].b.len().min(3000), much] {
                let mut m = b.clone();
                m.extend(recs[1].b.iter().cycle().take(extra));
                match deliver(&env, t, &m)? {
                    Err(Error::TrailingData(n)) if n == m.len() - b.len() => {}
                    Ok(_) => return viol("boundary: accepted", format!("{} accepted with {extra} extra bytes: {}", show(t), hex(&m))),
                    Err(e) => return viol("boundary: surplus", format!("{} with {extra} extra bytes: {e:?}: {}", show(t), hex(&m))),
                }
                stat(St::FAppend, 1);
            }
            event(hash_bytes(1, b));
        }
        1 => {
            // a byte stream, delivered in pieces, ending anywhere
            let n = 1 + c.len(12).min(30);
            let recs = records(c, &env, &st, n);
            let all: Vec<u8> = recs.iter().flat_map(|r| r.b.iter().copied()).collect();
            let end = if c.chance(1, 2) { c.us(all.len() + 1) } else { all.len() };
            let mut rd = Reader::new();
            let mut at = 0;
            let style = c.us(4);
            tr!("stream of {} messages, {} bytes, ends at {end}", recs.len(), all.len());
            while at < end {
                let k = match style {
                    0 => 1 + c.us(8),
                    1 => 1 + c.us(64),
                    2 => 1 + c.us(1500),
                    _ => 1 + c.len(5000),
                }
                // a reader that asks again after every piece of a very large message takes too long
                .max(end / 40 * (end > 20_000) as usize)
                .min(end - at);
                stat(St::SChunk, 1);
                tr!("  chunk of {k}");
                rd.feed(&env, &recs, &all[at..at + k])?;
                at += k;
                event(rd.got as u64 * 1_000_003 + rd.need as u64);
            }
            let mut whole = 0;
            let mut o = 0;
            for r in &recs {
                o += r.b.len();
                if o <= end {
                    whole += 1;
                }
            }
            let clean = recs.iter().scan(0, |s, r| { *s += r.b.len(); Some(*s) }).any(|x| x == end) || end == 0;
            stat(if clean { St::SEofClean } else { St::SEof }, 1);
            stat(St::FTrunc, (end < all.len()) as u64);
            rt::nontrivial();
            if rd.got != whole {
                return viol("boundary: lost message", format!("{} of {whole} complete messages recovered; the reader waits for {} bytes and has {}", rd.got, rd.need, rd.buf.len()));
            }
        }
        _ => {
            // an append-only log: crashes keep a prefix of what was written; recovery truncates and goes on
            let crashes = c.range(1, 4);
            let n = 2 + c.us(14);
            let recs = records(c, &env, &st, n);
            let mut disk: Vec<u8> = vec![];
            let mut next = 0;
            for k in 0..=crashes {
                let from = disk.len();
                let upto = if k == crashes { recs.len() } else { (next + 1 + c.us(5)).min(recs.len()) };
                for r in &recs[next..upto] {
                    disk.extend_from_slice(&r.b);
                }
                if k < crashes {
                    let lost = c.us(disk.len() - from + 1);
                    let keep = disk.len() - lost;
                    disk.truncate(keep);
                    stat(St::FTrunc, 1);
                    tr!("appended records {next}..{upto}, crash: {lost} bytes never reached the disk");
                }
                let mut rd = Reader::new();
                let mut at = 0;
                while at < disk.len() {
                    let k = (1 + c.len(4096)).max(disk.len() / 40 * (disk.len() > 20_000) as usize).min(disk.len() - at);
                    rd.feed(&env, &recs, &disk[at..at + k])?;
                    at += k;
                }
                let mut whole = 0;
                let mut o = 0;
                for r in &recs {
                    if o + r.b.len() > disk.len() {
                        break;
                    }
                    o += r.b.len();
                    whole += 1;
                }
                tr!("restart: {} records recovered of {whole}", rd.got);
                event(disk.len() as u64 * 31 + rd.got as u64);
                if rd.got != whole {
                    return viol("boundary: lost message", format!("{} of {whole} complete records recovered from a log of {} bytes", rd.got, disk.len()));
                }
                disk.truncate(o);
                next = whole;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
#[derive(Clone)]
enum Ev {
    Arrive { to: u8, id: usize, bytes: Vec<u8>, intact: bool },
    Timer { id: usize, tries: u32 },
    Send { id: usize },
}
struct Net {
    q: std::collections::BTreeMap<(u64, u64), Ev>,
    seq: u64,
    now: u64,
    down_until: u64,
    faulty: bool,
}
impl Net {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
}
pub fn c08(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let n = 1 + c.us(10);
    let mut tys: Vec<Ty> = vec![];
    for _ in 0..1 + c.us(4) {
        tys.push(pick_ty(c, &st, 3));
    }
    let mut bulk = if c.chance(1, 100) {
        let (s, v) = schema::bulk(c, 20);
        tys.push(Ty { name: "dynamic".into(), s, relay: None, unordered: false });
        Some(v)
    } else {
        None
    };
    // exchanges; the sender's bytes come from the real encoder
    struct X {
        t: usize,
        v: Val,
        bytes: Vec<u8>,
        roles: Vec<(usize, usize, Role)>,
        done: bool,
        sends: u32,
        sends_after_heal: u32,
    }
    let mut xs: Vec<X> = vec![];
    for i in 0..n {
        let (t, v) = match bulk.take() {
            Some(v) => (tys.len() - 1, v),
            None => {
                let t = c.us(tys.len());
                let mut f = fuel(c);
                (t, gen_val(c, &env, &tys[t].s, &mut f))
            }
        };
        let (model, roles) = encode_roles(&env, &tys[t].s, &v);
        // the sending peer holds the value in its own type: static types get it from the model bytes
        let bytes = match deliver_encode(&env, &tys[t], &v, &model)? {
            Ok(b) => b,
            Err(e) => return viol("exchange: not encodable", format!("exchange {i} {}: {v:?}: {e:?}", show(&tys[t]))),
        };
        xs.push(X { t, v, bytes, roles, done: false, sends: 0, sends_after_heal: 0 });
    }
    let (loss, dup, dmg, part) = (c.below(5), c.below(4), c.below(5), c.below(3));
    let heal_at = c.range(0, 40) * 1_000_000;
    let mut net = Net { q: Default::default(), seq: 0, now: 0, down_until: 0, faulty: true };
    for i in 0..n {
        let d = c.range(0, 20) * 500_000;
        net.at(d, Ev::Send { id: i });
    }
    const RTO: u64 = 8_000_000;
    let mut other: Vec<u8> = vec![];
    let mut steps = 0;
    while let Some(((t, _), ev)) = net.q.pop_first() {
        net.now = t;
        steps += 1;
        if steps > 4000 {
            return viol("exchange: no progress", "more than 4000 events".to_string());
        }
        if net.faulty && t >= heal_at {
            net.faulty = false;
            stat(St::LHeal, 1);
            tr!("[{t}] faults stop");
        }
        // sends one frame towards `to`, through the link
        let send = |net: &mut Net, c: &mut Ch, to: u8, id: usize, bytes: &[u8], roles: &[(usize, usize, Role)], other: &mut Vec<u8>| {
            let mut copies = 1;
            if net.faulty {
                if part > 0 && c.chance(part, 12) {
                    net.down_until = net.now + c.range(1, 10) * 1_000_000;
                    tr!("[{}] partition until {}", net.now, net.down_until);
                }
                if net.now < net.down_until {
                    stat(St::LPart, 1);
                    tr!("[{}] frame {id} dropped by the partition", net.now);
                    return;
                }
                if c.chance(loss, 10) {
                    stat(St::LLoss, 1);
                    tr!("[{}] frame {id} lost", net.now);
                    return;
                }
                if c.chance(dup, 10) {
                    copies = 2 + c.us(2);
                    stat(St::LDup, copies as u64 - 1);
                }
            }
            for _ in 0..copies {
                let delay = if net.faulty { 100_000 * (1 + c.len(60) as u64) } else { 200_000 };
                if net.faulty && delay > 400_000 {
                    stat(St::LReorder, 1);
                }
                let (b, intact) = if net.faulty && c.chance(dmg, 8) {
                    let b = faults::damage(c, bytes, roles, other);
                    stat(St::LDamage, 1);
                    let i = b == bytes;
                    (b, i)
                } else {
                    (bytes.to_vec(), true)
                };
                *other = b.clone();
                net.at(net.now + delay, Ev::Arrive { to, id, bytes: b, intact });
            }
        };
        match ev {
            Ev::Send { id } => {
                if xs[id].done {
                    continue;
                }
                xs[id].sends += 1;
                if !net.faulty {
                    xs[id].sends_after_heal += 1;
                    if xs[id].sends_after_heal > 2 {
                        return viol("exchange: no progress", format!("exchange {id} still open after two undisturbed retransmissions ({})", show(&tys[xs[id].t])));
                    }
                }
                tr!("[{t}] request {id} {} sent (#{}): {}", show(&tys[xs[id].t]), xs[id].sends, hex(&xs[id].bytes));
                let (b, r) = (xs[id].bytes.clone(), xs[id].roles.clone());
                send(&mut net, c, 1, id, &b, &r, &mut other);
                let tries = xs[id].sends;
                net.at(t + RTO, Ev::Timer { id, tries });
            }
            Ev::Timer { id, tries } => {
                if !xs[id].done && xs[id].sends == tries {
                    stat(St::LRetrans, 1);
                    net.at(t, Ev::Send { id });
                }
            }
            Ev::Arrive { to, id, bytes, intact } => {
                stat(St::LDeliver, 1);
                let ty = &tys[xs[id].t];
                let r = match deliver(&env, ty, &bytes) {
                    Ok(r) => r,
                    Err(v) if !intact => {
                        // a crash on a damaged message is C01's; here the peer restarts
                        tr!("[{t}] peer {to} crashed on a damaged frame ({}) and restarts", v.msg);
                        continue;
                    }
                    Err(v) => return Err(v),
                };
                event(outcome_hash(&bytes, &r) ^ t);
                tr!("[{t}] peer {to} receives {} frame {id}: {}", if intact { "intact" } else { "damaged" }, say(&r));
                if !intact {
                    count_outcome(&r);
                    continue; // its checksum does not match: the peer drops it after looking at it
                }
                stat(St::FramesIntact, 1);
                let want = &xs[id];
                let back = match r {
                    Err(e) => return viol("exchange: intact message rejected", format!("exchange {id} {}: {} -> {e:?}", show(ty), hex(&bytes))),
                    Ok(Got::Dyn(v)) => {
                        if v != want.v {
                            return viol("exchange: intact message changed", format!("exchange {id} {}: sent {:?}, received {v:?}", show(ty), want.v));
                        }
                        if to == 1 {
                            match guarded(|| dynser::encode(&env, &ty.s, &v)) {
                                Ok(Ok(b)) => b,
                                Ok(Err(e)) => return viol("exchange: reply not encodable", format!("exchange {id}: {e:?}")),
                                Err(_) => return panic_viol("encoding a reply"),
                            }
                        } else {
                            vec![]
                        }
                    }
                    Ok(Got::Static { debug, bytes: re }) => {
                        let w = schema::debug(&env, &ty.s, &want.v);
                        if debug != w {
                            return viol("exchange: intact message changed", format!("exchange {id} {}: sent {w}, received {debug}", show(ty)));
                        }
                        match re {
                            Ok(b) => b,
                            Err(e) => return viol("exchange: reply not encodable", format!("exchange {id}: {e:?}")),
                        }
                    }
                };
                if to == 1 {
                    let roles = want.roles.clone();
                    send(&mut net, c, 0, id, &back, &roles, &mut other);
                } else if !xs[id].done {
                    xs[id].done = true;
                    tr!("[{t}] exchange {id} complete");
                }
            }
        }
    }
    stat(St::SimNs, net.now * 1000);
    if let Some(i) = xs.iter().position(|x| !x.done) {
        return viol("exchange: no progress", format!("exchange {i} never completed"));
    }
    Ok(())
}
/// the sender's bytes: the real encoder on the sender's own value
pub fn deliver_encode(env: &Env, t: &Ty, v: &Val, model: &[u8]) -> Result<Result<Vec<u8>, Error>, Viol> {
    match t.relay {
        Some(_) => match deliver(env, t, model)? {
            Ok(Got::Static { bytes, .. }) => Ok(bytes),
            Ok(_) => unreachable!(),
            Err(e) => Ok(Err(e)),
        },
        None => match guarded(|| dynser::encode(env, &t.s, v)) {
            Ok(r) => Ok(r),
            Err(_) => panic_viol("encoding a message"),
        },
    }
}
