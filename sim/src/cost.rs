//! C21: what a sender pays. C23: what a long history of calls holds on to.
use crate::choice::{hash_bytes, mix, Ch};
use crate::driver::{panic_viol, viol, Outcome};
use crate::dynser::{self, with_plan, Act, Plan};
use crate::faults;
use crate::idl::{self, Mode};
use crate::rt::{self, event, guarded, stat, stat_max, Caught, St};
use crate::schema::{self, encode, encode_roles, gen_schema, gen_val, Env, Val, S};
use crate::statics::{self, Relay};
use crate::wire::{part, pick_ty, show, Ty};

fn vals(v: &Val) -> u64 {
    1 + match v {
        Val::Some(x) => vals(x),
        Val::List(l) | Val::Var(_, l) => l.iter().map(vals).sum(),
        Val::Map(l) => l.iter().map(|(a, b)| vals(a) + vals(b)).sum(),
        Val::Uni(d, _, l) => vals(d) + l.iter().map(vals).sum::<u64>(),
        _ => 0,
    }
}
// ------------------------------------------------------------------ C21
const MEM_BASE: i64 = 64 << 10;
const MEM_BYTE: i64 = 16;
const STEP_BASE: u64 = 50_000;
const STEP_VAL: u64 = 500;
const STEP_BYTE: u64 = 50;
/// bytes requested in all, or copied in large pieces
const MOVE_BASE: u64 = 256 << 10;
const MOVE_VAL: u64 = 128;
const MOVE_BYTE: u64 = 48;
/// a message of thousands of short parts, of one or two kinds
fn crowd(c: &mut Ch, env: &Env, st: &[statics::Static]) -> (S, Val) {
    let e = part(c, st);
    let most: usize = *c.pick(&[300, 2000, 10_000, 40_000]);
    let parts: Vec<Val> = (0..8)
        .map(|_| {
            let mut f = 4;
            gen_val(c, env, &e, &mut f)
        })
        .collect();
    let mut room = 60_000i64;
    let mut l = vec![];
    for i in 0..most {
        let v = &parts[i % 8];
        room -= vals(v) as i64;
        if room < 0 {
            break;
        }
        l.push(v.clone());
    }
    match c.us(4) {
        0 => (S::Map(Box::new(S::U32), Box::new(e)), Val::Map(l.into_iter().enumerate().map(|(i, v)| (Val::U(i as u64), v)).collect())),
        1 => {
            // lists of lists
            let w = 1 + c.us(9);
            let l = l.chunks(w).map(|x| Val::List(x.to_vec())).collect();
            (S::Seq(Box::new(S::Seq(Box::new(e)))), Val::List(l))
        }
        2 => (S::Arr(Box::new(e), l.len()), Val::List(l)),
        _ => (S::Seq(Box::new(e)), Val::List(l)),
    }
}
pub fn c21(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let n = 1 + c.us(12);
    let mut t = pick_ty(c, &st, 3);
    for i in 0..n {
        if i == 0 || c.chance(1, 2) {
            t = pick_ty(c, &st, 3);
        }
        let (t, v) = if c.chance(1, 150) {
            let (s, v) = if c.chance(1, 3) { schema::bulk(c, 20) } else { crowd(c, &env, &st) };
            (Ty { name: "dynamic".into(), s, relay: None, unordered: false }, v)
        } else {
            let mut f = *c.pick(&[30isize, 60, 60, 400, 4000]);
            let v = gen_val(c, &env, &t.s, &mut f);
            (Ty { name: t.name.clone(), s: t.s.clone(), relay: t.relay, unordered: t.unordered }, v)
        };
        let bytes = encode(&env, &t.s, &v);
        let nv = vals(&v);
        let budget = MEM_BASE + MEM_BYTE * bytes.len() as i64;
        let limit = STEP_BASE + STEP_VAL * nv + STEP_BYTE * bytes.len() as u64;
        let mut plan = Plan::default();
        let mut what = "undisturbed".to_string();
        if t.relay.is_none() && c.chance(1, 2) {
            let pos = if c.chance(1, 3) { 0 } else { c.below(2 * nv) };
            let act = match c.us(5) {
                0 => Act::Fail(mix(pos)),
                1 => Act::Panic(mix(pos)),
                _ => {
                    let len = match c.us(6) {
                        0 => u32::MAX as usize - c.us(4),
                        1 => 1usize << c.range(16, 31),
                        2 => (1usize << c.range(32, 63)) + c.us(3),
                        3 => usize::MAX - c.us(9),
                        4 => c.log(31) as usize,
                        _ => (i32::MAX as usize + 1) - c.us(3),
                    };
                    Act::Len(Some(len), c.us(2) as u8)
                }
            };
            what = match &act {
                Act::Fail(_) => format!("callback {pos} fails"),
                Act::Panic(_) => format!("callback {pos} panics"),
                Act::Len(l, k) => format!("callback {pos} declares a {} of length {l:?} and adds nothing", ["sequence", "map"][*k as usize]),
                _ => String::new(),
            };
            plan.acts.push((pos, act));
        }
        let may_move = MOVE_BASE + MOVE_VAL * nv + MOVE_BYTE * bytes.len() as u64;
        tr!("send #{i} {}: {} values in {} bytes, {what} (may request {budget} bytes, {limit} steps)", show(&t), nv, bytes.len());
        rt::hint("encoding");
        let r = match t.relay {
            Some(f) => {
                // the value is first read, with unlimited means
                statics::limit_sending(budget, limit);
                let r = guarded(|| f(&bytes).map(|r| r.bytes.map(|b| b.len())));
                statics::limit_sending(0, 0);
                match r {
                    Ok(Ok(r)) => Ok(r.map_err(|_| ())),
                    Ok(Err(_)) => {
                        // not readable: nothing to send (other properties judge that)
                        stat(St::Skipped, 1);
                        rt::mem_end();
                        rt::steps_end();
                        continue;
                    }
                    Err(e) => Err(e),
                }
            }
            None => {
                rt::mem_begin(budget);
                rt::steps_begin(limit);
                with_plan(plan, || guarded(|| dynser::encode(&env, &t.s, &v).map(|b| b.len()).map_err(|_| ()))).0
            }
        };
        let steps = rt::steps_end();
        let moved = rt::moved();
        let peak = rt::mem_end();
        stat(St::Ops, 1);
        stat_max(St::MovedRatioMax, moved * 100 / may_move);
        if rt::shm().flag == 1 {
            return viol("memory", format!("encoding {} ({} bytes): requested {} bytes at once, {what}", show(&t), bytes.len(), rt::shm().req));
        }
        stat_max(St::MemPeakMax, peak.max(0) as u64);
        stat_max(St::MemRatioMax, peak.max(0) as u64 * 100 / budget as u64);
        stat_max(St::StepMax, steps);
        stat_max(St::StepRatioMax, steps * 100 / limit);
        stat(St::OpsErr, !matches!(r, Ok(Ok(_))) as u64);
        event(hash_bytes(nv, &bytes) ^ hash_bytes(1, what.as_bytes()));
        rt::nontrivial();
        if moved > may_move {
            let m = format!("encoding {} ({nv} values, {} bytes): {moved} bytes were requested or copied in all, {may_move} are allowed, {what}", show(&t), bytes.len());
            return viol("copying", m);
        }
        match r {
            Err(Caught::Foreign(_)) => return panic_viol(&format!("encoding {} ({what})", show(&t))),
            Err(Caught::Injected(_)) => tr!("  -> unwinds ({peak} bytes, {steps} steps)"),
            Ok(r) => tr!("  -> {r:?} ({peak} bytes, {steps} steps)"),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C23
enum Kind {
    Enc(S),
    Dec(S),
    Relay(&'static str, S, Relay),
    Gen(idl::Idl, usize),
}
struct Op {
    k: Kind,
    seed: u64,
    /// how often the input is a new one, of 8
    fresh: u64,
    /// how often the input is damaged, of 8
    hurt: u64,
    /// how often caller code fails or panics, of 8
    fail: u64,
}
fn small(c: &mut Ch, env: &Env, s: &S) -> Val {
    let mut f = *c.pick(&[12isize, 30, 60]);
    gen_val(c, env, s, &mut f)
}
fn damaged(c: &mut Ch, env: &Env, s: &S, hurt: u64) -> Vec<u8> {
    let v = small(c, env, s);
    let (b, roles) = encode_roles(env, s, &v);
    if c.chance(hurt, 8) {
        faults::damage(c, &b, &roles, &b.clone())
    } else {
        b
    }
}
/// one call; everything it gave is dropped again
fn once(env: &Env, o: &Op, x: u64) -> (u64, bool) {
    let mut q = Ch::quiet(x);
    let c = &mut q;
    let p = if c.chance(o.fail, 8) {
        let pos = c.log(4) - 1;
        // failures with texts of their own each time
        let id = c.bits();
        let act = if c.chance(2, 3) { Act::Fail(id) } else { Act::Panic(id) };
        Plan { acts: vec![(pos, act)], ..Default::default() }
    } else {
        Plan::default()
    };
    let r = match &o.k {
        Kind::Enc(s) => {
            let v = small(c, env, s);
            with_plan(p, || guarded(|| dynser::encode(env, s, &v).map(|b| b.len()).map_err(|e| e.to_string().len()))).0
        }
        Kind::Dec(s) => {
            let b = damaged(c, env, s, o.hurt);
            with_plan(p, || guarded(|| dynser::decode(env, s, &b).map(|_| b.len()).map_err(|e| e.to_string().len()))).0
        }
        Kind::Relay(_, s, f) => {
            let b = damaged(c, env, s, o.hurt);
            with_plan(p, || guarded(|| f(&b).map(|r| r.bytes.map_or(0, |b| b.len())).map_err(|e| e.to_string().len()))).0
        }
        Kind::Gen(i, m) => {
            let mut f = idl::File::new(i);
            if o.hurt > 0 && c.chance(o.hurt, 8) {
                f.fault(c, true);
            } else if let Some(n) = i.defs.first().map(|d| d.name.clone()) {
                // another name makes it another interface
                let t = String::from_utf8_lossy(&f.bytes).replace(&n, &format!("{n}v{}", c.below(100_000)));
                f.bytes = t.into_bytes();
            }
            let t = String::from_utf8_lossy(&f.bytes).into_owned();
            guarded(|| idl::generate(&t, &Mode::of(*m)).map(|s| s.len()).map_err(|e| e.len()))
        }
    };
    stat(St::Ops, 1);
    match r {
        Ok(Ok(n)) => (n as u64, true),
        Ok(Err(n)) => (1 << 32 | n as u64, false),
        Err(Caught::Injected(i)) => (2 << 32 ^ i, false),
        Err(Caught::Foreign(_)) => (3 << 32, false),
    }
}
const KEEP: i64 = 24 << 10;
pub fn c23(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st = statics::all();
    let gens = c.chance(1, 4);
    let mut ops = vec![];
    for _ in 0..1 + c.us(3) {
        let k = if gens {
            let n = 1 + c.us(5);
            Kind::Gen(idl::gen_idl(c, idl::Style::Wild, n), c.us(idl::MODES))
        } else {
            match c.us(3) {
                0 => Kind::Enc(gen_schema(c, 3)),
                1 => Kind::Dec(gen_schema(c, 3)),
                _ => {
                    let t = c.pick(&st);
                    Kind::Relay(t.name, t.s.clone(), t.relay)
                }
            }
        };
        let w = |c: &mut Ch| *c.pick(&[0u64, 1, 4, 7, 8]);
        ops.push(Op { k, seed: c.bits(), fresh: w(c), hurt: w(c), fail: w(c) });
    }
    for o in &ops {
        tr!(
            "{}: new input {}/8, damaged {}/8, failing caller code {}/8",
            match &o.k {
                Kind::Enc(s) => format!("encode {}", format!("{s:?}").chars().take(70).collect::<String>()),
                Kind::Dec(s) => format!("decode {}", format!("{s:?}").chars().take(70).collect::<String>()),
                Kind::Relay(n, ..) => format!("relay {n}"),
                Kind::Gen(i, m) => format!("generate stubs from {} definitions {:?}", i.defs.len(), Mode::of(*m).flags()),
            },
            o.fresh,
            o.hurt,
            o.fail
        );
    }
    let x = c.bits();
    if c.chance(1, 8) {
        return c23_threads(c, env, ops, x);
    }
    let calls = if gens { 150 + c.below(250) } else { 1000 + c.below(2000) };
    let warm = calls / 4;
    let mut held = 0;
    let (mut fails, mut h) = (0u64, 0u64);
    for i in 0..calls {
        let o = &ops[(mix(x ^ i) % ops.len() as u64) as usize];
        let y = mix(x ^ (i << 20));
        let s = if y % 8 < o.fresh { mix(o.seed ^ y) } else { o.seed };
        let (r, ok) = once(&env, o, s);
        fails += !ok as u64;
        h = mix(h ^ r);
        if i == warm {
            held = rt::live_bytes();
        }
    }
    let grown = rt::live_bytes() - held;
    event(h);
    stat(St::OpsErr, fails);
    stat_max(St::HeldMax, grown.max(0) as u64);
    rt::nontrivial();
    tr!("{calls} calls, {fails} of them failed: {grown} bytes more are held than after {warm}");
    if grown > KEEP {
        return viol("memory held", format!("{calls} calls ({fails} failed): {grown} bytes more are held than after call {warm}, although every result was dropped"));
    }
    Ok(())
}

/// short-lived threads, two at a time
fn c23_threads(c: &mut Ch, env: Env, ops: Vec<Op>, x: u64) -> Outcome {
    let env: &'static Env = Box::leak(Box::new(env));
    let ops: &'static Vec<Op> = Box::leak(Box::new(ops));
    let rounds = 100 + c.below(300);
    let pre = c.us(4);
    let warm = rounds / 4;
    let mut held = 0;
    for i in 0..rounds {
        let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..2u64)
            .map(|k| {
                let y = mix(x ^ (i << 20) ^ k);
                Box::new(move || {
                    for j in 0..1 + y % 3 {
                        let z = mix(y ^ j);
                        let o = &ops[(z % ops.len() as u64) as usize];
                        once(env, o, if (z >> 8) % 8 < o.fresh { mix(o.seed ^ z) } else { o.seed });
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let plan: Vec<(u64, u32)> = (0..pre as u64).map(|k| (1 + mix(x ^ i ^ k << 40) % 4000, k as u32 & 1)).collect();
        event(rt::run_threads(bodies, 0, &plan));
        if i == warm {
            held = rt::live_bytes();
        }
    }
    let grown = rt::live_bytes() - held;
    stat_max(St::HeldMax, grown.max(0) as u64);
    stat(St::ThreadsSum, 2 * rounds);
    rt::nontrivial();
    tr!("{rounds} times two threads: {grown} bytes more are held than after {warm} times");
    if grown > KEEP {
        return viol("memory held", format!("{} threads, two at a time: {grown} bytes more are held than after {} of them, although they ended and every result was dropped", 2 * rounds, 2 * warm));
    }
    Ok(())
}
