//! C14: peers and relays built from generated stubs, each in its own generation mode, passing messages on
//! over a faulty link.
use crate::choice::{hash_bytes, mix, Ch};
use crate::driver::{panic_viol, viol, Outcome};
use crate::evolve;
use crate::faults;
use crate::idl::{self, Idl, Mode, Style, T};
use crate::proc::World;
use crate::rt::{self, event, guarded, nontrivial, stat, St};
use crate::schema::{self, encode_roles, gen_val, Env, Role, Val, S};
use crate::statics::Relay;
use crate::wire::hex;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use std::fmt::Write as _;

/// one generated Rust type
pub struct Stub {
    pub idl: usize,
    /// generation mode + 64 * edition of the interface
    pub mode: usize,
    pub ty: &'static str,
    pub relay: Relay,
}

/// the interfaces the stubs of a seed are generated from
pub fn interfaces(seed: u64, n: usize) -> Vec<(Idl, bool)> {
    (0..n as u64)
        .map(|k| {
            let std = k % 2 == 1;
            let mut t = 0;
            loop {
                let mut c = Ch::quiet(mix(mix(seed ^ 0x57ab) ^ mix(k) ^ t));
                let i = idl::gen_idl(&mut c, Style::Peers { std }, 18);
                if (6..=12).contains(&i.types.iter().filter(|t| t.item).count()) || t > 60 {
                    return (i, std);
                }
                t += 1;
            }
        })
        .collect()
}
/// one flag set for each distinct configuration
pub fn modes(std: bool) -> Vec<usize> {
    let mut seen: Vec<(bool, bool, bool, bool)> = vec![];
    (0..16)
        .filter(|i| {
            let c = Mode::of(*i).config();
            let k = (c.enum_impl_std_trait, c.enum_impl_indexer, c.union_impl_union, c.union_impl_indexer);
            (std || !k.0) && !seen.contains(&k) && {
                seen.push(k);
                true
            }
        })
        .collect()
}
fn usable(t: &idl::Type, std: bool) -> bool {
    // an enumeration by itself is not a message in the std trait modes
    t.item && !(std && matches!(t.t, T::Enum(..)))
}

/// the kinds of peers of an interface: C14 has one edition in every mode, C24 four editions in two modes each
pub fn kinds(seed: u64, k: usize, std: bool, evolve: bool) -> Vec<usize> {
    let all = modes(std);
    if !evolve {
        return all;
    }
    let unions: Vec<usize> = all.iter().copied().filter(|m| Mode::of(*m).config().union_impl_union).collect();
    (0..4)
        .flat_map(|v| {
            let x = mix(mix(seed ^ 0xed) ^ mix(k as u64 * 4 + v as u64));
            let a = unions[x as usize % unions.len()];
            let b = all[(x >> 20) as usize % all.len()];
            if a == b { vec![a + 64 * v] } else { vec![a + 64 * v, b + 64 * v] }
        })
        .collect()
}
/// write the stub modules and the list of types; the shipped command generates them
pub fn write_stubs(dir: &str, seed: u64, n: usize, evolve: bool) -> Result<(), (String, String)> {
    let put = |name: &str, text: &str| {
        let p = format!("{dir}/{name}");
        if std::fs::read_to_string(&p).ok().as_deref() != Some(text) {
            std::fs::write(&p, text).expect("stub file");
        }
    };
    std::fs::create_dir_all(dir).expect("stub directory");
    let w = World::new();
    let mut mods = String::new();
    let mut list = String::new();
    for (k, (i, std)) in interfaces(seed, n).iter().enumerate() {
        for m in kinds(seed, k, *std, evolve) {
            let text = evolve::edition(i, *std, mix(seed) ^ k as u64, m / 64);
            put(&if m < 64 { format!("idl{k}.x") } else { format!("idl{k}e{}.x", m / 64) }, &text);
            w.write("in.x", text.as_bytes());
            let p = w.plain("in.x", &Mode::of(m % 64));
            if p.code != 0 {
                return Err((
                    format!("interface {k} edition {} {:?}: exit {}: {}", m / 64, Mode::of(m % 64).flags(), p.code, String::from_utf8_lossy(&p.err[..p.err.len().min(400)])),
                    text,
                ));
            }
            put(&format!("m{k}_{m}.rs"), &String::from_utf8_lossy(&p.out));
            let _ = writeln!(mods, "#[allow(warnings)] mod m{k}_{m} {{ include!({:?}); }}", format!("{dir}/m{k}_{m}.rs"));
            for t in i.types.iter().filter(|t| usable(t, *std)) {
                let _ = writeln!(list, "    Stub {{ idl: {k}, mode: {m}, ty: {:?}, relay: relay::<m{k}_{m}::{}> }},", t.name, t.rust);
            }
        }
    }
    put("registry.rs", &format!("const SEED: u64 = {seed};\nconst IDLS: usize = {n};\nconst EVOLVE: bool = {evolve};\n{mods}static STUBS: &[Stub] = &[\n{list}];\n"));
    Ok(())
}

/// names as written in the interface may be spelled in any way in Rust
fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}
fn strip_default(s: &S) -> S {
    let b = |t: &S| Box::new(strip_default(t));
    match s {
        S::Struct(n, f) => S::Struct(n.clone(), f.iter().map(|f| (f.0.clone(), strip_default(&f.1))).collect()),
        S::Arr(t, n) => S::Arr(b(t), *n),
        S::Seq(t) => S::Seq(b(t)),
        S::Opt(t) => S::Opt(b(t)),
        S::Uni(n, d, arms, _, show) => {
            S::Uni(n.clone(), d.clone(), arms.iter().map(|a| (a.0.clone(), a.1.clone(), a.2.iter().map(strip_default).collect())).collect(), None, *show)
        }
        x => x.clone(),
    }
}

struct Msg {
    idl: usize,
    ty: usize,
    v: Val,
    bytes: Vec<u8>,
    roles: Vec<(usize, usize, Role)>,
    /// generation mode of every hop
    path: Vec<usize>,
    at: usize,
    sends_after_heal: u32,
}
enum Ev {
    Send { id: usize, hop: usize },
    Timer { id: usize, hop: usize },
    Arrive { id: usize, hop: usize, bytes: Vec<u8>, kind: Kind },
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Intact,
    Cut,
    Damaged,
}

static IFS: OnceLock<Vec<(Idl, bool)>> = OnceLock::new();
static KINDS: OnceLock<Vec<Vec<usize>>> = OnceLock::new();
/// called once, before the runs are forked
pub fn prepare(seed: u64, n: usize, evolve: bool) {
    let l = IFS.get_or_init(|| interfaces(seed, n));
    KINDS.get_or_init(|| l.iter().enumerate().map(|(k, i)| kinds(seed, k, i.1, evolve)).collect());
}
/// how many interfaces the linked stubs come from
pub fn count() -> usize {
    IFS.get().map_or(0, |l| l.len())
}
pub fn c14(c: &mut Ch, stubs: &'static [Stub]) -> Outcome {
    let ifs = IFS.get().expect("prepared");
    let n = ifs.len();
    let nm = 1 + c.us(5);
    let mut ms: Vec<Msg> = vec![];
    let k0 = c.us(n);
    for _ in 0..nm {
        let k = if c.chance(3, 4) { k0 } else { c.us(n) };
        let (i, std) = &ifs[k];
        let tys: Vec<usize> = (0..i.types.len()).filter(|t| usable(&i.types[*t], *std)).collect();
        if tys.is_empty() {
            continue;
        }
        let ty = *c.pick(&tys);
        let all = &KINDS.get().expect("prepared")[k];
        let mut path: Vec<usize> = (0..2 + c.us(5)).map(|_| *c.pick(all)).collect();
        let unions: Vec<usize> = all.iter().copied().filter(|m| Mode::of(*m % 64).config().union_impl_union).collect();
        // only the union mode stands for messages that take a default arm
        let keep_default = c.chance(1, 3);
        if keep_default {
            path.iter_mut().for_each(|m| *m = unions[*m % unions.len()]);
        }
        let m0 = Mode::of(path[0] % 64);
        let (mut s, mut env) = (i.types[ty].t.schema(&m0), i.env(&m0));
        if !keep_default {
            s = strip_default(&s);
            env = Env { defs: env.defs.iter().map(strip_default).collect() };
        }
        let mut fuel = *c.pick(&[40isize, 40, 200, 2000]);
        let v = gen_val(c, &env, &s, &mut fuel);
        let (bytes, roles) = encode_roles(&env, &s, &v);
        tr!("message {}: {} of interface {k}, modes {path:?}: {}", ms.len(), i.types[ty].name, hex(&bytes));
        ms.push(Msg { idl: k, ty, v, bytes, roles, path, at: 0, sends_after_heal: 0 });
    }
    let relay_of = |m: &Msg, hop: usize| -> Relay {
        let name = &ifs[m.idl].0.types[m.ty].name;
        stubs.iter().find(|s| s.idl == m.idl && s.mode == m.path[hop] && s.ty == name).expect("stub").relay
    };
    let (loss, dup, dmg, part) = (c.below(5), c.below(4), c.below(6), c.below(3));
    let heal_at = c.range(0, 40) * 1_000_000;
    let mut down_until = 0u64;
    let mut faulty = true;
    let mut q: BTreeMap<(u64, u64), Ev> = BTreeMap::new();
    let mut seq = 0;
    let at = |q: &mut BTreeMap<(u64, u64), Ev>, seq: &mut u64, t: u64, e: Ev| {
        *seq += 1;
        q.insert((t, *seq), e);
    };
    const RTO: u64 = 8_000_000;
    // the first peer holds the message in its own stub type: it reads it from its store
    let mut held: Vec<Vec<u8>> = vec![];
    for (id, m) in ms.iter().enumerate() {
        let b = take(ifs, m, id, 0, &m.bytes, Kind::Intact, relay_of(m, 0))?;
        held.push(b.unwrap());
        let d = c.range(0, 20) * 500_000;
        at(&mut q, &mut seq, d, Ev::Send { id, hop: 1 });
    }
    let mut other: Vec<u8> = vec![];
    let mut steps = 0;
    let mut now = 0;
    while let Some(((t, _), ev)) = q.pop_first() {
        now = t;
        steps += 1;
        if steps > 6000 {
            return viol("relay: no progress", "more than 6000 events");
        }
        if faulty && t >= heal_at {
            faulty = false;
            stat(St::LHeal, 1);
            tr!("[{t}] faults stop");
        }
        match ev {
            Ev::Timer { id, hop } => {
                if ms[id].at < hop {
                    stat(St::LRetrans, 1);
                    at(&mut q, &mut seq, t, Ev::Send { id, hop });
                }
            }
            Ev::Send { id, hop } => {
                if ms[id].at >= hop {
                    continue;
                }
                if !faulty {
                    ms[id].sends_after_heal += 1;
                    if ms[id].sends_after_heal > 2 + ms[id].path.len() as u32 {
                        return viol("relay: no progress", format!("message {id} is not delivered although faults have stopped"));
                    }
                }
                at(&mut q, &mut seq, t + RTO, Ev::Timer { id, hop });
                let mut copies = 1;
                if faulty {
                    if part > 0 && c.chance(part, 12) {
                        down_until = t + c.range(1, 10) * 1_000_000;
                        tr!("[{t}] partition until {down_until}");
                    }
                    if t < down_until {
                        stat(St::LPart, 1);
                        tr!("[{t}] message {id} dropped by the partition");
                        continue;
                    }
                    if c.chance(loss, 10) {
                        stat(St::LLoss, 1);
                        tr!("[{t}] message {id} lost");
                        continue;
                    }
                    if c.chance(dup, 10) {
                        copies = 2 + c.us(2);
                        stat(St::LDup, copies as u64 - 1);
                    }
                }
                for _ in 0..copies {
                    let delay = if faulty { 100_000 * (1 + c.len(60) as u64) } else { 200_000 };
                    if faulty && delay > 400_000 {
                        stat(St::LReorder, 1);
                    }
                    let sent = held[id].clone();
                    let (bytes, kind) = if faulty && c.chance(dmg, 8) {
                        stat(St::LDamage, 1);
                        if c.chance(1, 4) && !sent.is_empty() {
                            stat(St::FTrunc, 1);
                            (sent[..c.us(sent.len())].to_vec(), Kind::Cut)
                        } else {
                            let b = faults::damage(c, &sent, &ms[id].roles, &other);
                            let k = if b == sent { Kind::Intact } else { Kind::Damaged };
                            (b, k)
                        }
                    } else {
                        (sent, Kind::Intact)
                    };
                    other = bytes.clone();
                    at(&mut q, &mut seq, t + delay, Ev::Arrive { id, hop, bytes, kind });
                }
            }
            Ev::Arrive { id, hop, bytes, kind } => {
                stat(St::LDeliver, 1);
                stat(St::RelayHops, 1);
                nontrivial();
                let m = &ms[id];
                event(hash_bytes(t, &bytes));
                let r = take(ifs, m, id, hop, &bytes, kind, relay_of(m, hop))?;
                if let (Kind::Intact, Some(b)) = (kind, r) {
                    // a repeated copy is answered, not passed on again
                    if ms[id].at < hop {
                        ms[id].at = hop;
                        held[id] = b;
                        if hop + 1 < ms[id].path.len() {
                            at(&mut q, &mut seq, t + 100_000, Ev::Send { id, hop: hop + 1 });
                        } else {
                            stat(St::RelayMsgs, 1);
                            tr!("[{t}] message {id} delivered");
                        }
                    }
                }
            }
        }
    }
    stat(St::SimNs, now * 1000);
    if let Some(i) = ms.iter().position(|m| m.at + 1 != m.path.len()) {
        return viol("relay: no progress", format!("message {i} never arrived"));
    }
    Ok(())
}

/// one peer receives bytes; what it passes on
fn take(ifs: &[(Idl, bool)], m: &Msg, id: usize, hop: usize, bytes: &[u8], kind: Kind, relay: Relay) -> Result<Option<Vec<u8>>, crate::driver::Viol> {
    let ty = &ifs[m.idl].0.types[m.ty];
    let mode = Mode::of(m.path[hop] % 64);
    let what = format!("message {id} ({}, interface {} edition {}) at hop {hop} {:?}", ty.name, m.idl, m.path[hop] / 64, mode.flags());
    rt::hint("");
    rt::steps_begin(4_000_000 + 4000 * bytes.len() as u64);
    let r = guarded(|| if kind == Kind::Intact { relay(bytes) } else { crate::statics::only_decode(relay, bytes) });
    rt::steps_end();
    let r = match r {
        Ok(r) => r,
        Err(_) => return panic_viol(&format!("{what} ({kind:?}: {})", hex(bytes))),
    };
    event(hash_bytes(5, format!("{:?}", r.as_ref().map(|r| &r.debug)).as_bytes()));
    stat(if r.is_ok() { St::DecOk } else { St::DecErr }, 1);
    match (kind, r) {
        (Kind::Intact, Err(e)) => viol("relay: intact message rejected", format!("{what}: {} -> {e:?}", hex(bytes))),
        (Kind::Intact, Ok(r)) => {
            let want = schema::debug(&ifs[m.idl].0.env(&mode), &ty.t.schema(&mode), &m.v);
            if norm(&r.debug) != norm(&want) {
                return viol("relay: message read differently", format!("{what}: {} read as {}, should be {want}", hex(bytes), r.debug));
            }
            match r.bytes {
                Err(e) => viol("relay: message cannot be passed on", format!("{what}: {want}: {e:?}")),
                Ok(b) if b != m.bytes => viol("relay: message changed on the way", format!("{what}: {want}: received {}, passed on {}", hex(bytes), hex(&b))),
                Ok(b) => {
                    tr!("{what}: {}", hex(bytes));
                    Ok(Some(b))
                }
            }
        }
        (Kind::Cut, Ok(r)) => viol("relay: cut-off message accepted", format!("{what}: {} of {} bytes read as {}", bytes.len(), m.bytes.len(), r.debug)),
        (Kind::Damaged, Ok(r)) => {
            stat(St::PeerDamOk, 1);
            tr!("{what}: damaged, read as {}", r.debug);
            Ok(None)
        }
        (k, Err(e)) => {
            stat(St::PeerDamErr, 1);
            tr!("{what}: {k:?}, rejected: {e:?}");
            Ok(None)
        }
    }
}
