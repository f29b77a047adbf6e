//! C05, C06, C07: histories and interleavings of calls, failing and re-entrant caller code.
use crate::choice::{hash_bytes, mix, Ch};
use crate::driver::{panic_viol, viol, Outcome};
use crate::dynser::{self, fail_text, with_plan, Act, Plan};
use crate::faults;
use crate::idl::{self, Mode};
use crate::rt::{self, event, guarded, stat, stat_max, Caught, St};
use crate::schema::{encode, encode_roles, gen_schema, gen_val, Env, Val, S};
use crate::statics::{self, Relay};
use crate::wire::{hex, pick_ty, show, Ty};
use serde_xdr::error::Error;

// ------------------------------------------------------------------ C07
/// one call under a callback plan: the whole outcome
fn c07_call(env: &Env, t: &Ty, v: &Val, bytes: &[u8], enc: bool, p: Plan) -> (Result<Result<(), Error>, Caught>, Plan) {
    with_plan(p, || {
        guarded(|| match t.relay {
            // decodes, then encodes what it decoded
            Some(f) => f(bytes).and_then(|r| r.bytes).map(|_| ()),
            None if enc => dynser::encode(env, &t.s, v).map(|_| ()),
            None => dynser::decode(env, &t.s, bytes).map(|_| ()),
        })
    })
}
pub fn c07(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    rt::mem_begin(3 << 30);
    for round in 0..1 + c.us(4) {
        let t = pick_ty(c, &st, 3);
        let mut f = *c.pick(&[30isize, 60, 200]);
        let v = gen_val(c, &env, &t.s, &mut f);
        let bytes = encode(&env, &t.s, &v);
        let enc = c.chance(1, 2);
        let what = if t.relay.is_some() { "relay of" } else if enc { "encoding" } else { "decoding" };
        let (r, p) = c07_call(&env, &t, &v, &bytes, enc, Plan::default());
        stat(St::Ops, 1);
        let n = p.seen;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol("failure: undisturbed call failed", format!("{what} {}: {e:?}", show(&t))),
            Err(_) => return panic_viol(&format!("{what} {}", show(&t))),
        }
        tr!("#{round} {what} {} ({n} callbacks): {}", show(&t), hex(&bytes));
        if n == 0 {
            continue;
        }
        let want = 24.min(n);
        for j in 0..want {
            let k = if want == n { j } else if j == 0 { n - 1 } else { c.below(n) };
            let id = hash_bytes(k, &bytes);
            let bad_len = t.relay.is_none() && enc && c.chance(1, 6);
            let act = if bad_len {
                match c.us(8) {
                    0 | 1 => Act::Len(None, c.us(2) as u8),
                    2 => Act::Len(Some((1 << 32) + c.us(5)), 2 + c.us(2) as u8),
                    3 => Act::Len(Some(1 << 32), c.us(2) as u8),
                    4 => Act::Len(Some(usize::MAX - c.us(3)), c.us(2) as u8),
                    5 => Act::Len(Some(((1 + c.us(1 << 20)) << 32) + c.us(4)), c.us(2) as u8),
                    _ => Act::Len(Some((1usize << (32 + c.us(32))) + c.us(70000)), c.us(2) as u8),
                }
            } else {
                Act::Fail(id)
            };
            let desc = match &act {
                Act::Len(l, k) => format!("declares {} of length {l:?}", ["a sequence", "a map", "bytes", "text"][*k as usize]),
                _ => "fails".to_string(),
            };
            let (r, p) = c07_call(&env, &t, &v, &bytes, enc, Plan { acts: vec![(k, act)], ..Default::default() });
            stat(St::Ops, 1);
            stat(St::OpsErr, matches!(r, Ok(Err(_))) as u64);
            event(hash_bytes(k ^ (n << 20), &bytes));
            if p.failed.is_none() && bad_len {
                continue; // no value begins after this point
            }
            if p.failed.is_none() {
                return viol("failure: callbacks differ", format!("{what} {}: callback {k} of {n} was not reached the second time", show(&t)));
            }
            tr!("  callback {k} {desc} -> {}", match &r { Ok(x) => format!("{x:?}").chars().take(120).collect(), Err(_) => "panic".to_string() });
            match r {
                Err(_) => return panic_viol(&format!("{what} {} when callback {k} {desc}", show(&t))),
                Ok(Ok(())) => {
                    return viol(
                        if bad_len { "failure: length accepted" } else { "failure: swallowed" },
                        format!("{what} {}: callback {k} of {n} {desc}, yet the call succeeded", show(&t)),
                    )
                }
                Ok(Err(e)) => {
                    if !bad_len && !dynser::says(&e, id) {
                        return viol("failure: message lost", format!("{what} {}: callback {k} of {n} failed with {}, the call reports {e:?}", show(&t), fail_text(id)));
                    }
                }
            }
            if p.after > 0 {
                return viol("failure: caller code invoked again", format!("{what} {}: callback {k} of {n} {desc}, then {} more callbacks", show(&t), p.after));
            }
        }
    }
    rt::mem_end();
    Ok(())
}

// ------------------------------------------------------------------ C05, C06: operations and their outcome in isolation
enum Kind {
    Enc(S, Val),
    Dec(S, Vec<u8>),
    Relay(&'static str, Relay, Vec<u8>),
    Gen(String, usize),
}
struct Op {
    k: Kind,
    /// what a fresh process answers
    alone: Out,
    /// steps of work it took there
    steps: u64,
    /// callback points it passes
    seen: u64,
    /// disturbed variants: (position, panics) and their outcome in a fresh process
    hurt: Vec<(u64, bool, Out)>,
}
#[derive(Clone, PartialEq)]
struct Out {
    h: u64,
    text: String,
}
#[repr(C)]
struct Page {
    done: u32,
    len: u32,
    h: u64,
    seen: u64,
    steps: u64,
    text: [u8; 400],
}
fn name(k: &Kind) -> String {
    match k {
        Kind::Enc(s, _) => format!("encode {}", format!("{s:?}").chars().take(70).collect::<String>()),
        Kind::Dec(s, b) => format!("decode {} from {} bytes", format!("{s:?}").chars().take(70).collect::<String>(), b.len()),
        Kind::Relay(n, _, b) => format!("relay {n} of {} bytes", b.len()),
        Kind::Gen(t, m) => format!("generate stubs from {} bytes {:?}", t.len(), Mode::of(*m).flags()),
    }
}
/// make the call; everything the caller can observe goes into the outcome
fn perform(env: &Env, k: &Kind, p: Plan) -> (Out, Plan) {
    let (r, p) = with_plan(p, || {
        guarded(|| -> Result<Vec<u8>, String> {
            let err = |e: Error| {
                let _p = rt::Paused::new();
                format!("{e:?} / {e}")
            };
            match k {
                Kind::Enc(s, v) => dynser::encode(env, s, v).map_err(err),
                Kind::Dec(s, b) => {
                    let v = dynser::decode(env, s, b).map_err(err)?;
                    let _p = rt::Paused::new();
                    Ok(format!("{v:?}").into_bytes())
                }
                Kind::Relay(_, f, b) => {
                    let r = f(b).map_err(err)?;
                    let _p = rt::Paused::new();
                    let mut o = r.debug.into_bytes();
                    o.push(0);
                    match r.bytes {
                        Ok(b) => o.extend(b),
                        Err(e) => o.extend(format!("{e:?} / {e}").into_bytes()),
                    }
                    Ok(o)
                }
                Kind::Gen(t, m) => idl::generate(t, &Mode::of(*m)).map(|s| s.into_bytes()),
            }
        })
    });
    let o = match r {
        Ok(Ok(b)) => {
            let t = match k {
                Kind::Enc(..) => hex(&b),
                _ => String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned(),
            };
            Out { h: hash_bytes(1, &b), text: format!("Ok {t}") }
        }
        Ok(Err(e)) => Out { h: hash_bytes(2, e.as_bytes()), text: format!("Err {}", e.chars().take(160).collect::<String>()) },
        Err(Caught::Injected(i)) => Out { h: hash_bytes(3, &i.to_le_bytes()), text: format!("unwinds with the caller's panic {i:x}") },
        Err(Caught::Foreign(m)) => Out { h: hash_bytes(4, m.as_bytes()), text: format!("panics: {m}") },
    };
    (o, p)
}
/// the call as the first one of a fresh process
fn alone(env: &Env, page: *mut Page, k: &Kind, plan: Plan) -> Option<(Out, u64, u64)> {
    let pg = unsafe { &mut *page };
    pg.done = 0;
    let sh = rt::shm();
    let keep = (sh.in_lib, sh.flag, sh.req, sh.digest);
    let pid = unsafe { rt::simrt_fork() };
    if pid == 0 {
        unsafe { rt::simrt_child_setup(10, 0) };
        rt::steps_begin(600_000_000);
        let (o, p) = rt::solo(|| perform(env, k, plan));
        pg.steps = rt::steps_end();
        pg.seen = p.seen;
        pg.h = o.h;
        let t = o.text.as_bytes();
        let n = t.len().min(pg.text.len());
        pg.text[..n].copy_from_slice(&t[..n]);
        pg.len = n as u32;
        pg.done = 1;
        unsafe { rt::simrt_exit(0) }
    }
    unsafe { rt::simrt_wait(pid) };
    let sh = rt::shm();
    (sh.in_lib, sh.flag, sh.req, sh.digest) = keep;
    stat(St::Fresh, 1);
    if pg.done == 0 {
        return None;
    }
    let o = Out { h: pg.h, text: String::from_utf8_lossy(&pg.text[..pg.len as usize]).into_owned() };
    Some((o, pg.seen, pg.steps))
}
fn act(pos: u64, panics: bool) -> Act {
    if panics {
        Act::Panic(mix(pos))
    } else {
        Act::Fail(mix(pos))
    }
}
fn a_message(c: &mut Ch, env: &Env, s: &S, fuel: &mut isize) -> Vec<u8> {
    let v = gen_val(c, env, s, fuel);
    let (b, roles) = encode_roles(env, s, &v);
    if c.chance(1, 3) {
        faults::damage(c, &b, &roles, &b.clone())
    } else {
        b
    }
}
fn gen_kind(c: &mut Ch, env: &Env, st: &[statics::Static], small: bool, gens: bool) -> Kind {
    let mut fuel = if small { 30 } else { *c.pick(&[30isize, 30, 100, 400, 20_000]) };
    match c.weighted(&[4, 4, 5, if gens { 4 } else { 0 }]) {
        0 => {
            let s = gen_schema(c, 3);
            let v = gen_val(c, env, &s, &mut fuel);
            Kind::Enc(s, v)
        }
        3 => {
            let i = idl::gen_idl(c, idl::Style::Wild, if small { 3 } else { 8 });
            let mut f = idl::File::new(&i);
            if c.chance(1, 3) {
                f.fault(c, true);
            }
            let t = String::from_utf8_lossy(&f.bytes).into_owned();
            Kind::Gen(t, c.us(idl::MODES))
        }
        k => {
            let (s, rel) = if k == 1 {
                (gen_schema(c, 3), None)
            } else {
                let l: Vec<&statics::Static> = st.iter().filter(|t| !t.unordered).collect();
                let t = *c.pick(&l);
                (t.s.clone(), Some((t.name, t.relay)))
            };
            let b = a_message(c, env, &s, &mut fuel);
            match rel {
                Some((n, f)) => Kind::Relay(n, f, b),
                None => Kind::Dec(s, b),
            }
        }
    }
}
/// nearly the same text: two words or two definitions swapped, or a digit changed
fn twist(c: &mut Ch, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let word = |x: u8| x.is_ascii_alphanumeric() || x == b'_';
    match c.us(4) {
        0 => {
            let at: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
            if at.len() > 1 {
                let (i, j) = (*c.pick(&at), *c.pick(&at));
                b.swap(i, j);
            }
        }
        1 => {
            let at: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
            if !at.is_empty() {
                b[*c.pick(&at)] = b'1' + c.us(9) as u8;
            }
        }
        2 => {
            // two words change places
            let mut w: Vec<(usize, usize)> = vec![];
            let mut i = 0;
            while i < b.len() {
                let j = (i..b.len()).find(|j| !word(b[*j])).unwrap_or(b.len());
                if j > i {
                    w.push((i, j));
                }
                i = j.max(i + 1);
            }
            if w.len() > 1 {
                let (x, y) = (*c.pick(&w), *c.pick(&w));
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                if x.1 <= y.0 {
                    b = [&b[..x.0], &b[y.0..y.1], &b[x.1..y.0], &b[x.0..x.1], &b[y.1..]].concat();
                }
            }
        }
        _ => {
            // lines change places
            let mut l: Vec<&[u8]> = b.split_inclusive(|x| *x == b'\n').collect();
            if l.len() > 1 {
                let (i, j) = (c.us(l.len()), c.us(l.len()));
                l.swap(i, j);
            }
            b = l.concat();
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}
/// operations with their answers in a fresh process; `None` answers (crashes) belong to other properties
/// `kin`: mostly variations of one operation
fn gen_ops(c: &mut Ch, env: &Env, page: *mut Page, n: usize, small: bool, kin: bool) -> Vec<Op> {
    let st = statics::all();
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let k = match ops.last() {
            // relatives of an earlier operation: same type, other value; same interface, other mode
            Some(o) if c.chance(if kin { 7 } else { 2 }, 8) => {
                let mut fuel = *c.pick(&[30isize, 40, 100, 400]);
                match &o.k {
                    Kind::Gen(t, m) => {
                        let (t, m) = (t.clone(), *m);
                        let t = if c.chance(1, 2) { twist(c, &t) } else { t };
                        Kind::Gen(t, if c.chance(1, 2) { c.us(idl::MODES) } else { m })
                    }
                    Kind::Enc(s, _) => {
                        let s = s.clone();
                        let v = gen_val(c, env, &s, &mut fuel);
                        Kind::Enc(s, v)
                    }
                    Kind::Dec(s, _) => {
                        let s = s.clone();
                        let b = a_message(c, env, &s, &mut fuel);
                        Kind::Dec(s, b)
                    }
                    Kind::Relay(n, f, _) => {
                        let (n, f) = (*n, *f);
                        let s = &st.iter().find(|t| t.name == n).unwrap().s;
                        let b = a_message(c, env, s, &mut fuel);
                        Kind::Relay(n, f, b)
                    }
                }
            }
            _ => gen_kind(c, env, &st, small, true),
        };
        let Some((o, seen, steps)) = alone(env, page, &k, Plan::default()) else {
            stat(St::Skipped, 1);
            continue;
        };
        let mut op = Op { k, alone: o, steps, seen, hurt: vec![] };
        if seen > 0 && c.chance(1, 2) {
            for _ in 0..1 + c.us(2) {
                let pos = if c.chance(1, 4) { seen - 1 } else { c.below(seen) };
                let panics = c.chance(1, 2);
                if let Some((o, _, s)) = alone(env, page, &op.k, Plan { acts: vec![(pos, act(pos, panics))], ..Default::default() }) {
                    op.steps = op.steps.max(s);
                    op.hurt.push((pos, panics, o));
                }
            }
        }
        ops.push(op);
    }
    ops
}
/// short calls that all pass through the same few values of one kind: whatever the code remembers about such
/// a value is read and replaced all the time
fn gen_duel(c: &mut Ch, env: &Env, page: *mut Page) -> Vec<Op> {
    let st = statics::all();
    let leaf = match c.us(24) {
        k @ 0..=14 => [
            S::I32, S::U32, S::Bool, S::U8, S::I8, S::I16, S::U16, S::I64, S::U64, S::F32, S::F64, S::Char, S::Str, S::Bytes, S::Char,
        ][k]
        .clone(),
        15 => S::OpVar,
        16 => S::VArr,
        17 => S::OpFix(1 + c.us(9)),
        18 => S::Opt(Box::new(c.pick(&[S::U32, S::Char, S::Str]).clone())),
        19 => S::Seq(Box::new(c.pick(&[S::U32, S::Char, S::Str]).clone())),
        20 => S::Map(Box::new(S::U32), Box::new(c.pick(&[S::U32, S::Char, S::Str]).clone())),
        _ => crate::wire::part(c, &st),
    };
    let mut fuel = 12;
    let pool: Vec<Val> = (0..2 + c.us(2)).map(|_| gen_val(c, env, &leaf, &mut fuel)).collect();
    let (mut ops, n) = (vec![], 1 + c.us(4));
    for _ in 0..n {
        let l: Vec<Val> = (0..1 + c.us(8)).map(|_| c.pick(&pool).clone()).collect();
        let (s, v) = match c.us(3) {
            0 => (S::Tuple(vec![leaf.clone(); l.len()]), Val::List(l)),
            1 => (S::Struct("R".into(), (0..l.len()).map(|i| (format!("f{i}"), leaf.clone())).collect()), Val::List(l)),
            _ => (S::Seq(Box::new(leaf.clone())), Val::List(l)),
        };
        let k = if c.chance(1, 3) {
            Kind::Enc(s, v)
        } else {
            let (b, roles) = encode_roles(env, &s, &v);
            let b = if c.chance(1, 6) { faults::damage(c, &b, &roles, &b.clone()) } else { b };
            Kind::Dec(s, b)
        };
        match alone(env, page, &k, Plan::default()) {
            Some((o, seen, steps)) => ops.push(Op { k, alone: o, steps, seen, hurt: vec![] }),
            None => stat(St::Skipped, 1),
        }
    }
    ops
}
/// which variant of an operation to make: 0 undisturbed, else 1 + index into `hurt`
#[derive(Clone)]
struct Step {
    op: usize,
    var: usize,
    nest: Vec<(u64, Step)>,
}
fn gen_step(c: &mut Ch, ops: &[Op], depth: usize) -> Step {
    let op = c.us(ops.len());
    let var = if !ops[op].hurt.is_empty() && c.chance(1, 3) { 1 + c.us(ops[op].hurt.len()) } else { 0 };
    let mut nest = vec![];
    let seen = if var > 0 { ops[op].hurt[var - 1].0 } else { ops[op].seen };
    if depth > 0 && seen > 0 && c.chance(1, 3) {
        for _ in 0..1 + c.us(2) {
            nest.push((c.below(seen), gen_step(c, ops, depth - 1)));
        }
        nest.sort_by_key(|n| n.0);
        nest.dedup_by_key(|n| n.0);
    }
    Step { op, var, nest }
}
fn cost(s: &Step, ops: &[Op]) -> u64 {
    ops[s.op].steps + s.nest.iter().map(|n| cost(&n.1, ops)).sum::<u64>()
}
fn say(s: &Step, ops: &[Op]) -> String {
    let o = &ops[s.op];
    let v = if s.var > 0 { format!(", callback {} {}", o.hurt[s.var - 1].0, if o.hurt[s.var - 1].1 { "panics" } else { "fails" }) } else { String::new() };
    let n: String = s.nest.iter().map(|n| format!(" [inside callback {}: {}]", n.0, say(&n.1, ops))).collect();
    format!("{}{v}{n}", name(&o.k))
}
type Found = std::sync::Arc<std::sync::Mutex<Option<(String, String)>>>;
/// make the call of a step (and, from inside its callbacks, the nested ones) and check every answer.
/// The pointers outlive the run: nothing is freed before the process ends.
fn take(env: &'static Env, ops: &'static [Op], s: &'static Step, level: usize, found: &Found) {
    let o = &ops[s.op];
    let mut acts: Vec<(u64, Act)> = vec![];
    let want = if s.var > 0 {
        let h = &o.hurt[s.var - 1];
        acts.push((h.0, act(h.0, h.1)));
        &h.2
    } else {
        &o.alone
    };
    for n in &s.nest {
        let f = found.clone();
        acts.push((n.0, Act::Call(Box::new(move || take(env, ops, &n.1, level + 1, &f)))));
    }
    let (got, _) = perform(env, &o.k, Plan { acts, ..Default::default() });
    let _p = rt::Paused::new();
    rt::shm().stats[St::Ops as usize] += 1;
    if got.h != want.h {
        let mut f = found.lock().unwrap();
        if f.is_none() {
            let k = match &o.k {
                Kind::Enc(..) => "encode",
                Kind::Dec(..) | Kind::Relay(..) => "decode",
                Kind::Gen(..) => "generation",
            };
            *f = Some((
                format!("{}{k} differs", if level > 0 { "nested " } else { "" }),
                format!("{}: {} -- in a fresh process: {}", say(s, ops), got.text, want.text),
            ));
        }
    }
}
fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}
/// one run in this many is a long haul
const HAUL: u64 = 700;
/// a few short calls again and again, beyond every 16-bit count
fn haul(c: &mut Ch, env: &'static Env, page: *mut Page) -> Outcome {
    let n = 1 + c.us(3);
    let ops: &'static Vec<Op> = leak(if c.chance(1, 2) { gen_duel(c, env, page) } else { gen_ops(c, env, page, n, true, false) });
    let cheap: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].steps < 20_000).collect();
    if cheap.is_empty() {
        return Ok(());
    }
    let steps: &'static Vec<Step> = leak(
        (0..1 + c.us(4))
            .map(|_| {
                let op = *c.pick(&cheap);
                let var = if !ops[op].hurt.is_empty() && c.chance(1, 2) { 1 + c.us(ops[op].hurt.len()) } else { 0 };
                Step { op, var, nest: vec![] }
            })
            .collect(),
    );
    let dear = |s: &Step| s.var > 0 && ops[s.op].hurt[s.var - 1].1;
    let round: u64 = steps.iter().map(|s| cost(s, ops) + if dear(s) { 4000 } else { 300 }).sum();
    let total = (*c.pick(&[34_000u64, 67_000]) * steps.len().min(2) as u64).min(300_000_000 / round * steps.len() as u64);
    let found: Found = Default::default();
    rt::steps_begin(10_000_000 + round.saturating_mul(30 * (total / steps.len() as u64 + 1)));
    for s in steps.iter() {
        tr!("again and again, {total} calls in all: {}", say(s, ops));
        event(ops[s.op].alone.h ^ (s.var as u64) << 32);
    }
    rt::nontrivial();
    let r = rt::solo(|| {
        for i in 0..total {
            take(env, ops, &steps[i as usize % steps.len()], 0, &found);
            if i % 64 == 0 || i + 64 > total {
                if let Some((k, m)) = found.lock().unwrap().take() {
                    return viol(k, format!("call {i} or up to 63 before it: {m}"));
                }
            }
        }
        Ok(())
    });
    stat_max(St::StepMax, rt::steps_end());
    r
}
pub fn c05(c: &mut Ch) -> Outcome {
    let env: &'static Env = leak(statics::env());
    let page = unsafe { rt::simrt_shared(std::mem::size_of::<Page>() as u64) } as *mut Page;
    if c.chance(1, HAUL) {
        return haul(c, env, page);
    }
    let long = c.chance(1, 24);
    let n = if long { 1 + c.us(3) } else { 1 + c.us(8) };
    let kin = c.chance(1, 3);
    let ops: &'static Vec<Op> = leak(if c.chance(1, 6) { gen_duel(c, env, page) } else { gen_ops(c, env, page, n, long, kin) });
    if ops.is_empty() {
        return Ok(());
    }
    let len = if long { 200 + c.us(900) } else { 2 + c.us(24) };
    let steps: &'static Vec<Step> = leak((0..len).map(|_| gen_step(c, ops, if long { 1 } else { 2 })).collect());
    let total: u64 = steps.iter().map(|s| cost(s, ops)).sum();
    let found: Found = Default::default();
    rt::steps_begin(10_000_000 + total.saturating_mul(30));
    let r = rt::solo(|| {
        for (i, s) in steps.iter().enumerate() {
            tr!("{i}: {}", say(s, ops));
            rt::nontrivial();
            take(env, ops, s, 0, &found);
            event(ops[s.op].alone.h ^ (s.var as u64) << 32 ^ s.nest.len() as u64);
            if let Some((k, m)) = found.lock().unwrap().take() {
                return viol(k, format!("call {i}: {m}"));
            }
        }
        Ok(())
    });
    stat_max(St::StepMax, rt::steps_end());
    r
}

pub fn c06(c: &mut Ch) -> Outcome {
    let env: &'static Env = leak(statics::env());
    let page = unsafe { rt::simrt_shared(std::mem::size_of::<Page>() as u64) } as *mut Page;
    let small = c.chance(2, 3);
    let n = 1 + c.us(5);
    let kin = c.chance(1, 2);
    let duel = c.chance(1, 3);
    let ops: &'static Vec<Op> = leak(if duel { gen_duel(c, env, page) } else { gen_ops(c, env, page, n, small, kin) });
    if ops.is_empty() {
        return Ok(());
    }
    let nt = 2 + c.weighted(&[6, 2, 1]);
    let per = 1 + c.us(if small || duel { 6 } else { 3 });
    // contending threads often do the same thing
    let same = c.chance(1, 3);
    let mut plan: Vec<&'static Vec<Step>> = vec![];
    for t in 0..nt {
        if t > 0 && same {
            plan.push(plan[0]);
        } else {
            plan.push(leak((0..per).map(|_| gen_step(c, ops, 1)).collect()));
        }
    }
    let total: u64 = plan.iter().flat_map(|p| p.iter()).map(|s| cost(s, ops)).sum();
    let bits = 64 - total.max(2).leading_zeros() as u64;
    let np = match c.weighted(if duel { &[1, 2, 6] } else { &[6, 4, 2] }) {
        0 => 1 + c.us(4),
        1 => 1 + c.us(24),
        _ => 40 + c.us(400),
    };
    let maxb = match c.weighted(if duel { &[1, 2, 4] } else { &[4, 2, 1] }) {
        0 => bits,
        1 => bits / 2,
        _ => 6,
    };
    let pre: Vec<(u64, u32)> = (0..np).map(|_| (c.log(maxb), c.below(3) as u32)).collect();
    let first = c.us(nt);
    let found: Found = Default::default();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, p) in plan.iter().enumerate() {
        for s in p.iter() {
            tr!("thread {t}: {}", say(s, ops));
        }
        let f = found.clone();
        let p: &'static Vec<Step> = p;
        bodies.push(Box::new(move || {
            for s in p {
                take(env, ops, s, 0, &f);
            }
        }));
    }
    tr!("first thread {first}, preemptions (steps, pick): {:?}", pre);
    stat(St::ThreadsSum, nt as u64);
    stat(St::Preempts, np as u64);
    rt::nontrivial();
    rt::steps_begin(10_000_000 + total.saturating_mul(30));
    let h = rt::run_threads(bodies, first, &pre);
    stat_max(St::StepMax, rt::steps_end());
    event(h);
    for o in ops.iter() {
        event(o.alone.h);
    }
    let f = found.lock().unwrap().take();
    match f {
        Some((k, m)) => viol(k, m),
        None => Ok(()),
    }
}
