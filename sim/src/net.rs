//! C20: a store-and-forward network. Some nodes run the library, others an independent RFC 4506
//! implementation (the model of schema.rs); they pass messages on, keep them in append-only journals,
//! crash with torn journals, restart and retransmit.
use crate::choice::{hash_bytes, Ch};
use crate::driver::{viol, Outcome, Viol};
use crate::faults;
use crate::rt::{event, nontrivial, stat, St};
use crate::schema::{self, encode, encode_roles, gen_val, Bad, Dec, Env, Role, Val, S};
use crate::statics;
use crate::wire::{deliver, deliver_encode, hex, pick_ty, show, Got, Ty};
use serde_xdr::error::Error;
use std::collections::BTreeMap;

/// what precedes every message on the wire and in a journal
fn head() -> Ty {
    let f = |n: &str, s: S| (n.to_string(), s);
    let s = S::Struct("Head".into(), vec![f("id", S::U64), f("kind", S::U16), f("hop", S::U8), f("ack", S::Bool)]);
    Ty { name: "dynamic".into(), s, relay: None, unordered: false }
}
fn head_val(id: usize, kind: usize, hop: usize, ack: bool) -> Val {
    Val::List(vec![Val::U(0x0123_4567_0000_0000 + id as u64), Val::U(kind as u64), Val::U(hop as u64), Val::Bool(ack)])
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Impl {
    Library,
    Other,
}
struct Node {
    by: Impl,
    up: bool,
    /// what was appended; the first `synced` bytes survive a crash
    disk: Vec<u8>,
    synced: usize,
    /// volatile: (message, hop) in the journal, in order
    have: Vec<(usize, usize)>,
    /// volatile: acknowledgements not sent before the journal is synced
    owed: Vec<(usize, usize)>,
    /// volatile: passed on and acknowledged
    done: Vec<(usize, usize)>,
}
struct Msg {
    ty: usize,
    v: Val,
    /// what RFC 4506 says
    bytes: Vec<u8>,
    path: Vec<usize>,
}
enum Ev {
    Inject { id: usize },
    Send { id: usize, hop: usize },
    Arrive { to: usize, bytes: Vec<u8>, intact: bool },
    Sync { node: usize },
    Crash { node: usize },
    Restart { node: usize },
}

/// what a reader makes of the start of a buffer
enum Read {
    Value(Val, usize),
    Short,
    Bad(String),
}
/// the value of type `t` at the start of `b`, as implementation `by` reads it
fn read(env: &Env, t: &Ty, b: &[u8], by: Impl, known: Option<&Val>) -> Result<Read, Viol> {
    match by {
        Impl::Other => {
            let mut d = Dec { b, pos: 0, env };
            Ok(match d.get(&t.s) {
                Ok(v) => {
                    // strict: only the one representation RFC 4506 defines
                    if encode(env, &t.s, &v) != b[..d.pos] {
                        return Ok(Read::Bad("not the representation of any value".into()));
                    }
                    Read::Value(v, d.pos)
                }
                Err(Bad::Short) => Read::Short,
                Err(e) => Read::Bad(format!("{e:?}")),
            })
        }
        Impl::Library => {
            let mut n = b.len();
            for _ in 0..2 {
                match deliver(env, t, &b[..n])? {
                    Ok(Got::Dyn(v)) => return Ok(Read::Value(v, n)),
                    Ok(Got::Static { debug, .. }) => {
                        // a value of the node's own type: compared by its text
                        return Ok(match known {
                            Some(v) if debug == schema::debug(env, &t.s, v) => Read::Value(v.clone(), n),
                            Some(v) => Read::Bad(format!("read as {debug}, should be {}", schema::debug(env, &t.s, v))),
                            None => Read::Value(Val::Unit, n),
                        });
                    }
                    Err(Error::NotEnoughData(_)) => return Ok(Read::Short),
                    Err(Error::TrailingData(k)) if k > 0 && k <= n => n -= k,
                    Err(e) => return Ok(Read::Bad(format!("{e:?}"))),
                }
            }
            Ok(Read::Bad("the reported surplus is not the surplus".into()))
        }
    }
}
fn write(env: &Env, t: &Ty, v: &Val, by: Impl) -> Result<Vec<u8>, Viol> {
    let m = encode(env, &t.s, v);
    if by == Impl::Other {
        return Ok(m);
    }
    match deliver_encode(env, t, v, &m)? {
        Ok(b) if b == m => Ok(b),
        Ok(b) => viol("network: representation", format!("{}: {v:?} written as {}, RFC 4506 says {}", show(t), hex(&b), hex(&m))),
        Err(e) => viol("network: not encodable", format!("{}: {v:?}: {e:?}", show(t))),
    }
}

pub fn c20(c: &mut Ch) -> Outcome {
    let env = statics::env();
    let st: Vec<statics::Static> = statics::all().into_iter().filter(|t| !t.unordered).collect();
    let head = head();
    let nn = 2 + c.us(4);
    let mut nodes: Vec<Node> = (0..nn)
        .map(|i| Node {
            by: if i == 0 || c.chance(1, 2) { Impl::Library } else { Impl::Other },
            up: true,
            disk: vec![],
            synced: 0,
            have: vec![],
            owed: vec![],
            done: vec![],
        })
        .collect();
    let mut tys: Vec<Ty> = vec![];
    for _ in 0..1 + c.us(4) {
        tys.push(pick_ty(c, &st, 3));
    }
    let mut ms: Vec<Msg> = vec![];
    let nm = 1 + c.us(8);
    let bulk = c.chance(1, 150);
    for i in 0..nm {
        let mut ty = c.us(tys.len());
        let v = if bulk && i == 0 {
            let (s, v) = schema::bulk(c, 20);
            tys.push(Ty { name: "dynamic".into(), s, relay: None, unordered: false });
            ty = tys.len() - 1;
            v
        } else {
            let mut fuel = *c.pick(&[60isize, 60, 60, 400, 4000]);
            if bulk && ty == tys.len() - 1 {
                ty = 0;
            }
            gen_val(c, &env, &tys[ty].s, &mut fuel)
        };
        let bytes = encode(&env, &tys[ty].s, &v);
        // a path that may come back to a node it has visited
        let mut path = vec![c.us(nn)];
        for _ in 0..1 + c.us(4) {
            let last = *path.last().unwrap();
            path.push((last + 1 + c.us(nn - 1)) % nn);
        }
        tr!("message {i} along {:?}: {} = {}", path.iter().map(|n| (n, nodes[*n].by)).collect::<Vec<_>>(), show(&tys[ty]), hex(&bytes));
        ms.push(Msg { ty, v, bytes, path });
    }
    let (loss, dup, dmg, part, crash) = (c.below(5), c.below(4), c.below(4), c.below(3), c.below(4));
    let heal_at = c.range(0, 60) * 1_000_000;
    let mut faulty = true;
    let mut down_until = 0u64;
    let mut q: BTreeMap<(u64, u64), Ev> = BTreeMap::new();
    let mut seq = 0u64;
    let mut now = 0u64;
    macro_rules! at {
        ($t:expr, $e:expr) => {{
            seq += 1;
            let t: u64 = $t;
            q.insert((t, seq), $e);
        }};
    }
    for id in 0..nm {
        at!(c.range(0, 20) * 500_000, Ev::Inject { id });
    }
    for node in 0..nn {
        for _ in 0..crash {
            if c.chance(1, 2) {
                at!(c.range(1, 60) * 900_000, Ev::Crash { node });
            }
        }
    }
    const RTO: u64 = 8_000_000;
    let mut steps = 0;
    let mut other: Vec<u8> = vec![];
    let mut last_progress = 0u64;
    while let Some(((t, _), ev)) = q.pop_first() {
        now = t;
        steps += 1;
        if faulty && t >= heal_at {
            faulty = false;
            stat(St::LHeal, 1);
            tr!("[{t}] faults stop");
            last_progress = t;
        }
        if steps > 20_000 || (!faulty && t > last_progress.max(heal_at) + 12 * RTO) {
            return viol("network: no progress", format!("messages are still under way {} ms after the faults stopped", (t - heal_at) / 1_000_000));
        }
        // hands a frame to the link
        macro_rules! link {
            ($to:expr, $bytes:expr, $roles:expr) => {{
                let (to, bytes, roles): (usize, Vec<u8>, Vec<(usize, usize, Role)>) = ($to, $bytes, $roles);
                let mut copies = 1;
                if faulty {
                    if part > 0 && c.chance(part, 12) {
                        down_until = t + c.range(1, 10) * 1_000_000;
                        tr!("[{t}] partition until {down_until}");
                    }
                    if t < down_until {
                        stat(St::LPart, 1);
                        tr!("[{t}] frame dropped by the partition");
                        copies = 0;
                    } else if c.chance(loss, 10) {
                        stat(St::LLoss, 1);
                        tr!("[{t}] frame lost");
                        copies = 0;
                    } else if c.chance(dup, 10) {
                        copies = 2 + c.us(2);
                        stat(St::LDup, copies as u64 - 1);
                    }
                }
                for _ in 0..copies {
                    let delay = if faulty { 100_000 * (1 + c.len(60) as u64) } else { 200_000 };
                    if faulty && delay > 400_000 {
                        stat(St::LReorder, 1);
                    }
                    let mut b = bytes.clone();
                    if faulty && c.chance(dmg, 8) {
                        b = faults::damage(c, &bytes, &roles, &other);
                        stat(St::LDamage, 1);
                    }
                    let intact = b == bytes;
                    other = b[..b.len().min(4096)].to_vec();
                    at!(t + delay, Ev::Arrive { to, bytes: b, intact });
                }
            }};
        }
        // accepts a message at a hop: into the journal
        macro_rules! keep {
            ($node:expr, $id:expr, $hop:expr) => {{
                let (node, id, hop): (usize, usize, usize) = ($node, $id, $hop);
                let m = &ms[id];
                let by = nodes[node].by;
                let mut rec = write(&env, &head, &head_val(id, m.ty, hop, false), by)?;
                rec.extend(write(&env, &tys[m.ty], &m.v, by)?);
                nodes[node].disk.extend_from_slice(&rec);
                nodes[node].have.push((id, hop));
                tr!("[{t}] node {node} appends message {id} hop {hop} to its journal ({} bytes)", nodes[node].disk.len());
                at!(t + 50_000 * (1 + c.us(40) as u64), Ev::Sync { node });
                last_progress = t;
            }};
        }
        match ev {
            Ev::Inject { id } => {
                let node = ms[id].path[0];
                if !nodes[node].up {
                    at!(t + 1_000_000, Ev::Inject { id });
                    continue;
                }
                // the client asks again until the message is durable
                if !nodes[node].have.contains(&(id, 0)) {
                    keep!(node, id, 0);
                }
                if !journal_has(&nodes[node], &env, &head, &tys, &ms, (id, 0))? {
                    at!(t + RTO / 2, Ev::Inject { id });
                }
            }
            Ev::Sync { node } => {
                let n = &mut nodes[node];
                if !n.up {
                    continue;
                }
                n.synced = n.disk.len();
                // what is durable is acknowledged and passed on
                let owed = std::mem::take(&mut n.owed);
                let have = n.have.clone();
                for (id, hop) in owed {
                    let b = write(&env, &head, &head_val(id, ms[id].ty, hop, true), nodes[node].by)?;
                    let roles = encode_roles(&env, &head.s, &head_val(id, ms[id].ty, hop, true)).1;
                    link!(ms[id].path[hop - 1], b, roles);
                }
                for (id, hop) in have {
                    if hop + 1 < ms[id].path.len() && !nodes[node].done.contains(&(id, hop)) {
                        at!(t, Ev::Send { id, hop });
                    }
                }
            }
            Ev::Send { id, hop } => {
                let node = ms[id].path[hop];
                let n = &nodes[node];
                if !n.up || n.done.contains(&(id, hop)) || !n.have.contains(&(id, hop)) {
                    continue;
                }
                // at most one timer for each
                if q.values().any(|e| matches!(e, Ev::Send { id: i, hop: h } if *i == id && *h == hop)) {
                    continue;
                }
                stat(St::LRetrans, 1);
                let m = &ms[id];
                let mut b = write(&env, &head, &head_val(id, m.ty, hop + 1, false), n.by)?;
                b.extend(write(&env, &tys[m.ty], &m.v, n.by)?);
                let mut roles = encode_roles(&env, &head.s, &head_val(id, m.ty, hop + 1, false)).1;
                roles.extend(encode_roles(&env, &tys[m.ty].s, &m.v).1.into_iter().map(|r| (r.0 + 20, r.1, r.2)));
                tr!("[{t}] node {node} sends message {id} to {}", m.path[hop + 1]);
                let to = m.path[hop + 1];
                link!(to, b, roles);
                at!(t + RTO, Ev::Send { id, hop });
            }
            Ev::Arrive { to, bytes, intact } => {
                if !nodes[to].up {
                    tr!("[{t}] node {to} is down, frame lost");
                    continue;
                }
                stat(St::LDeliver, 1);
                nontrivial();
                event(hash_bytes(t, &bytes));
                let by = nodes[to].by;
                let h = match read(&env, &head, &bytes, by, None) {
                    Ok(r) => r,
                    Err(v) if intact => return Err(v),
                    Err(_) => continue, // crashes on damaged messages are C01's
                };
                let (h, n) = match h {
                    Read::Value(h, n) => (h, n),
                    _ if !intact => continue,
                    Read::Short => return viol("network: intact message rejected", format!("node {to} ({by:?}) finds an intact header short: {}", hex(&bytes))),
                    Read::Bad(e) => return viol("network: intact message rejected", format!("node {to} ({by:?}): header {}: {e}", hex(&bytes))),
                };
                let Val::List(f) = &h else { unreachable!() };
                let (Val::U(id), Val::U(kind), Val::U(hop), Val::Bool(ack)) = (&f[0], &f[1], &f[2], &f[3]) else { unreachable!() };
                let (id, kind, hop) = ((*id as u32) as usize, *kind as usize, *hop as usize);
                if !intact {
                    // looked at, then dropped for its checksum
                    if kind < tys.len() && !*ack {
                        let _ = read(&env, &tys[kind], &bytes[n..], by, None);
                    }
                    continue;
                }
                if id >= ms.len() || kind != ms[id].ty || hop >= ms[id].path.len() || h != head_val(id, kind, hop, *ack) {
                    return viol("network: message changed", format!("node {to} ({by:?}) reads the header {} as {h:?}", hex(&bytes)));
                }
                let m = &ms[id];
                if *ack {
                    tr!("[{t}] node {to}: message {id} hop {hop} acknowledged");
                    if nodes[to].have.contains(&(id, hop - 1)) && !nodes[to].done.contains(&(id, hop - 1)) {
                        nodes[to].done.push((id, hop - 1));
                        last_progress = t;
                    }
                    continue;
                }
                match read(&env, &tys[kind], &bytes[n..], by, Some(&m.v))? {
                    Read::Value(v, k) if v == m.v && n + k == bytes.len() => {}
                    Read::Value(v, k) => {
                        return viol(
                            "network: message changed",
                            format!("node {to} ({by:?}): {} of {} bytes of message {id} {} read as {v:?}, sent as {:?}", k, bytes.len() - n, show(&tys[kind]), m.v),
                        )
                    }
                    Read::Short => return viol("network: intact message rejected", format!("node {to} ({by:?}) finds message {id} {} short: {}", show(&tys[kind]), hex(&bytes[n..]))),
                    Read::Bad(e) => return viol("network: intact message rejected", format!("node {to} ({by:?}): message {id} {} {}: {e}", show(&tys[kind]), hex(&bytes[n..]))),
                }
                if !nodes[to].have.contains(&(id, hop)) {
                    keep!(to, id, hop);
                }
                if !nodes[to].owed.contains(&(id, hop)) {
                    nodes[to].owed.push((id, hop));
                    at!(t + 50_000, Ev::Sync { node: to });
                }
            }
            Ev::Crash { node } => {
                if !faulty || !nodes[node].up {
                    continue;
                }
                let n = &mut nodes[node];
                // a prefix of what was not synced may have reached the disk
                let keep = n.synced + c.us(n.disk.len() - n.synced + 1);
                tr!("[{t}] node {node} crashes; {} of {} journal bytes survive", keep, n.disk.len());
                stat(St::NCrash, 1);
                stat(St::NTorn, (keep != n.disk.len()) as u64);
                n.disk.truncate(keep);
                n.up = false;
                n.have.clear();
                n.owed.clear();
                n.done.clear();
                at!(t + c.range(0, 12) * 500_000, Ev::Restart { node });
            }
            Ev::Restart { node } => {
                // sometimes another implementation takes over the journal
                if c.chance(1, 3) {
                    nodes[node].by = if nodes[node].by == Impl::Library { Impl::Other } else { Impl::Library };
                    stat(St::NSwap, 1);
                }
                let recs = recover(&nodes[node], &env, &head, &tys, &ms)?;
                tr!("[{t}] node {node} restarts on {:?}: {} records recovered", nodes[node].by, recs.0.len());
                let n = &mut nodes[node];
                event(hash_bytes(recs.1 as u64, &[n.by as u8]));
                n.disk.truncate(recs.1);
                n.synced = n.disk.len();
                n.have = recs.0;
                n.up = true;
                at!(t, Ev::Sync { node });
            }
        }
    }
    stat(St::SimNs, now * 1000);
    // every message is in the journal of every node it had to pass, once for each visit
    for (k, n) in nodes.iter().enumerate() {
        let (recs, end) = recover(n, &env, &head, &tys, &ms)?;
        if end != n.disk.len() {
            return viol("network: journal", format!("node {k}: {} of {} journal bytes are complete records", end, n.disk.len()));
        }
        for (id, m) in ms.iter().enumerate() {
            for (hop, at) in m.path.iter().enumerate() {
                let want = (*at == k) as usize;
                let got = recs.iter().filter(|r| **r == (id, hop)).count();
                if got != want {
                    return viol("network: conservation", format!("message {id} hop {hop} is {got} times in the journal of node {k}, should be {want}"));
                }
            }
        }
    }
    Ok(())
}
fn journal_has(n: &Node, env: &Env, head: &Ty, tys: &[Ty], ms: &[Msg], k: (usize, usize)) -> Result<bool, Viol> {
    if !n.have.contains(&k) {
        return Ok(false);
    }
    // is it within the durable part? the records are read from their start, as after a crash
    let d = Node { by: n.by, up: true, disk: n.disk[..n.synced].to_vec(), synced: n.synced, have: vec![], owed: vec![], done: vec![] };
    Ok(recover(&d, env, head, tys, ms)?.0.contains(&k))
}
/// the records of a journal and where the last complete one ends
fn recover(n: &Node, env: &Env, head: &Ty, tys: &[Ty], ms: &[Msg]) -> Result<(Vec<(usize, usize)>, usize), Viol> {
    let b = &n.disk;
    let mut at = 0;
    let mut l = vec![];
    // what the harness knows: records are complete up to here
    while at < b.len() {
        let (h, k) = match read(env, head, &b[at..], n.by, None)? {
            Read::Value(h, k) => (h, k),
            Read::Short if b.len() - at < 20 => break,
            Read::Short => return viol("network: journal", format!("a complete record header is called short: {}", hex(&b[at..]))),
            Read::Bad(e) => return viol("network: journal", format!("a record header is not understood: {e}: {}", hex(&b[at..]))),
        };
        let Val::List(f) = &h else { unreachable!() };
        let (Val::U(id), Val::U(kind), Val::U(hop), Val::Bool(ack)) = (&f[0], &f[1], &f[2], &f[3]) else { unreachable!() };
        let (id, kind, hop) = ((*id as u32) as usize, *kind as usize, *hop as usize);
        if k != 20 || id >= ms.len() || kind != ms[id].ty || hop >= ms[id].path.len() || *ack || h != head_val(id, kind, hop, false) {
            return viol("network: journal", format!("{k} bytes {} are read as the record header {h:?}", hex(&b[at..])));
        }
        let m = &ms[id];
        let rest = &b[at + k..];
        if rest.len() < m.bytes.len() {
            // torn: must be noticed
            if let Read::Value(v, _) = read(env, &tys[kind], rest, n.by, Some(&m.v))? {
                return viol("network: journal", format!("a torn record of {} of {} bytes is read as {v:?}", rest.len(), m.bytes.len()));
            }
            break;
        }
        match read(env, &tys[kind], rest, n.by, Some(&m.v))? {
            Read::Value(v, k2) if v == m.v && k2 == m.bytes.len() => at += k + k2,
            Read::Value(v, k2) => return viol("network: journal", format!("record of message {id} {}: {k2} bytes read as {v:?}, should be {} bytes {:?}", show(&tys[kind]), m.bytes.len(), m.v)),
            Read::Short => return viol("network: journal", format!("a complete record {} is called short: {}", show(&tys[kind]), hex(rest))),
            Read::Bad(e) => return viol("network: journal", format!("record {} {}: {e}", show(&tys[kind]), hex(rest))),
        }
        l.push((id, hop));
    }
    Ok((l, at))
}
