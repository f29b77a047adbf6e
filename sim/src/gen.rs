//! C11, C12: damaged interface files in front of the generator.
use crate::choice::{hash_bytes, Ch};
use crate::driver::{panic_viol, viol, Outcome, Viol};
use crate::idl::{self, generate, items, words, File, Idl, Mode, K};
use crate::proc::World;
use crate::rt::{self, event, guarded, nontrivial, stat, Caught, St};
use std::collections::HashMap;

/// the real generator in this process, under a work limit
fn gen_in(text: &str, m: &Mode) -> Result<Result<String, String>, Viol> {
    rt::hint("");
    rt::steps_begin(600_000_000);
    let r = guarded(|| generate(text, m));
    rt::steps_end();
    match r {
        Ok(r) => {
            stat(if r.is_ok() { St::GenOk } else { St::GenErr }, 1);
            event(hash_bytes(3, format!("{r:?}").as_bytes()));
            Ok(r)
        }
        Err(Caught::Injected(_)) => unreachable!(),
        Err(Caught::Foreign(_)) => panic_viol(&format!("generating stubs ({:?})", m.flags())),
    }
}
fn quote(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    s.chars().take(600).collect::<String>().escape_debug().to_string()
}
/// a wild interface: anything the grammar allows
fn wild(c: &mut Ch) -> Idl {
    let n = *c.pick(&[2, 4, 8, 8, 20, 60]);
    idl::gen_idl(c, idl::Style::Wild, n)
}

// ------------------------------------------------------------------ C12
pub fn c12(c: &mut Ch) -> Outcome {
    let i = wild(c);
    let world = if c.chance(1, 12) { Some(World::new()) } else { None };
    let rounds = if world.is_some() { 1 + c.us(3) } else { 1 + c.us(8) };
    for _ in 0..rounds {
        let mut f = File::new(&i);
        for _ in 0..1 + c.us(8) {
            let before = f.clone();
            f.fault(c, true);
            if f.log.len() == before.log.len() {
                continue;
            }
            nontrivial();
            event(hash_bytes(1, &f.bytes));
            let m = Mode::of(if world.is_none() && c.chance(1, 4) { c.us(idl::MODES) } else { c.us(16) });
            tr!("{:?}: {} bytes: {} ({})", m.flags(), f.bytes.len(), quote(&f.bytes), f.log.join("; "));
            let r = match f.utf8() {
                Some(t) => Some(gen_in(t, &m)?),
                None => None,
            };
            if let Some(w) = &world {
                w.write("in.x", &f.bytes);
                let p = w.plain("in.x", &m);
                event(hash_bytes(p.code as u64, &p.out));
                tr!("the command: exit {} with {} bytes", p.code, p.out.len());
                let err = String::from_utf8_lossy(&p.err[..p.err.len().min(300)]).into_owned();
                if p.code == 101 || err.contains("panicked at") {
                    return viol("the command panics", format!("{:?} on {}: {err}", m.flags(), quote(&f.bytes)));
                }
                if p.code < 0 {
                    return viol("the command crashes or hangs", format!("{:?} on {}: status {}", m.flags(), quote(&f.bytes), p.code));
                }
                let good = matches!(r, Some(Ok(_)));
                if (p.code == 0) != good {
                    return viol("damage not diagnosed", format!("{:?} on {}: exit {}, but the library says {}", m.flags(), quote(&f.bytes), p.code, if good { "success" } else { "error" }));
                }
                if !good && err.trim().is_empty() {
                    return viol("damage not diagnosed", format!("{:?} on {}: exit {} without a message", m.flags(), quote(&f.bytes), p.code));
                }
            }
            // damage piles up mostly while the file stays readable: a file that is rejected early tests little
            if !matches!(r, Some(Ok(_))) && c.chance(3, 4) {
                f = before;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
struct Clean {
    out: Result<String, String>,
    /// item name and tokens, for every definition (by Rust name)
    items: HashMap<String, Vec<String>>,
}
fn clean(text: &str, m: &Mode) -> Result<Clean, Viol> {
    let out = gen_in(text, m)?;
    let mut h: HashMap<String, Vec<String>> = HashMap::new();
    if let Ok(o) = &out {
        for (n, t) in items(o) {
            h.entry(n).or_default().push(t);
        }
    }
    Ok(Clean { out, items: h })
}
/// every name the bindings of definition `k` depend on, transitively; its own only where it mentions itself
fn closure(i: &Idl, k: usize) -> std::collections::HashSet<String> {
    let mut seen: std::collections::HashSet<String> = Default::default();
    let mut todo: Vec<usize> = vec![k];
    let mut done = vec![false; i.defs.len()];
    if i.defs[k].intro.iter().any(|n| words_of(&i.defs[k].text, n) > 1) {
        seen.extend(i.defs[k].intro.iter().cloned());
    }
    while let Some(k) = todo.pop() {
        if std::mem::replace(&mut done[k], true) {
            continue;
        }
        for n in &i.defs[k].deps {
            seen.insert(n.clone());
            for (j, e) in i.defs.iter().enumerate() {
                if e.intro.contains(n) {
                    seen.extend(e.intro.iter().cloned());
                    todo.push(j);
                }
            }
        }
    }
    seen
}
fn words_of(text: &str, w: &str) -> usize {
    text.split(|x: char| !(x.is_ascii_alphanumeric() || x == '_')).filter(|x| *x == w).count()
}
pub fn c11(c: &mut Ch) -> Outcome {
    let st = if c.chance(1, 2) { idl::Style::Wild } else { idl::Style::Peers { std: false } };
    let n = *c.pick(&[2, 4, 8, 8, 20]);
    let i = idl::gen_idl(c, st, n);
    let world = if c.chance(1, 12) { Some(World::new()) } else { None };
    let (text, spans) = i.text();
    let mut base: HashMap<u8, Clean> = HashMap::new();
    let rounds = if world.is_some() { 1 + c.us(3) } else { 1 + c.us(8) };
    for _ in 0..rounds {
        let mi = if world.is_none() && c.chance(1, 4) { c.us(idl::MODES) } else { c.us(16) };
        let m = Mode::of(mi);
        if c.chance(1, 3) {
            // torn inside a definition: every cut of one definition, or a random one
            let k = c.us(spans.len());
            let (a, b) = spans[k];
            let cuts: Vec<usize> = if c.chance(1, 6) && b - a < 400 { (a + 1..b).collect() } else { vec![a + 1 + c.us((b - a - 1).max(1))] };
            for at in cuts {
                if at >= b || !text.is_char_boundary(at) {
                    continue;
                }
                stat(St::ITorn, 1);
                nontrivial();
                let t = &text[..at];
                event(hash_bytes(2, t.as_bytes()));
                let r = gen_in(t, &m)?;
                tr!("{:?}: cut off at {at} inside definition {k} ({:?} {}): {}", m.flags(), i.defs[k].kind, i.defs[k].name, if r.is_ok() { "accepted" } else { "rejected" });
                if let Ok(o) = r {
                    return viol(
                        "torn file accepted",
                        format!("cut off inside {:?} {} after {:?}: generation succeeds with {} bytes", i.defs[k].kind, i.defs[k].name, &t[a..], o.len()),
                    );
                }
                if let Some(w) = &world {
                    if c.chance(1, 8) {
                        w.write("in.x", t.as_bytes());
                        let p = w.plain("in.x", &m);
                        event(hash_bytes(p.code as u64, &p.out));
                        if p.code == 0 || !p.out.is_empty() {
                            return viol(
                                "torn file used by the command",
                                format!("cut off inside {:?} {} after {:?}: exit {} with {} bytes of output", i.defs[k].kind, i.defs[k].name, &t[a..], p.code, p.out.len()),
                            );
                        }
                    }
                }
            }
            continue;
        }
        if c.chance(1, 8) {
            // a remark that never ends, so that nothing behind its start is a definition any more
            let from = text.rfind("*/").map_or(0, |e| e + 2);
            let l: Vec<usize> = (0..spans.len()).filter(|k| spans[*k].0 >= from).collect();
            if l.is_empty() {
                continue;
            }
            let (a, b) = spans[*c.pick(&l)];
            let at = if c.chance(2, 3) { a } else { a + c.us(b - a) };
            if !text.is_char_boundary(at) {
                continue;
            }
            let open = *c.pick(&["/*", "/* remark\n", " /* a * / b\n", "\n/**\n", "/*/"]);
            let t = format!("{}{open}{}", &text[..at], &text[at..]);
            if t[at..].contains("*/") && !open.ends_with("*/") {
                continue;
            }
            stat(St::IToken, 1);
            nontrivial();
            event(hash_bytes(3, t.as_bytes()));
            let r = gen_in(&t, &m)?;
            tr!("{:?}: remark opened at {at} ({open:?}): {}", m.flags(), if r.is_ok() { "accepted" } else { "rejected" });
            if r.is_ok() {
                return viol("open remark accepted", format!("{}: the remark opened at {at} never ends, generation succeeds without the definitions behind it", quote(t.as_bytes())));
            }
            continue;
        }
        let mut f = File::new(&i);
      for _ in 0..1 + c.us(6) {
        let before = f.clone();
        f.fault(c, false);
        event(hash_bytes(1, &f.bytes));
        let Some(t) = f.utf8().filter(|_| f.log.len() > before.log.len()) else {
            f = before;
            continue;
        };
        let r = gen_in(t, &m)?;
        tr!("{:?}: {} ({}): {}", m.flags(), quote(&f.bytes), f.log.join("; "), if r.is_ok() { "accepted" } else { "rejected" });
        if let Some(w) = &world {
            w.write("in.x", &f.bytes);
            let p = w.plain("in.x", &m);
            event(hash_bytes(p.code as u64, &p.out));
            if p.code != 0 && !p.out.is_empty() {
                return viol("output in spite of failure", format!("{}: exit {} with {} bytes of output", quote(&f.bytes), p.code, p.out.len()));
            }
            if p.code == 0 && r.is_err() {
                return viol("damaged file used by the command", format!("{}: exit 0, but the library says {:?}", quote(&f.bytes), r));
            }
            if let (0, Ok(o)) = (p.code, &r) {
                if p.out.len() < o.len() {
                    return viol("incomplete output", format!("{}: {} of {} bytes delivered", quote(&f.bytes), p.out.len(), o.len()));
                }
            }
        }
        let Ok(o) = r else {
            if c.chance(3, 4) {
                f = before;
            }
            continue;
        };
        if f.delicate {
            break;
        }
        if !base.contains_key(&(mi as u8)) {
            let b = clean(&text, &m)?;
            base.insert(mi as u8, b);
        }
        let b = &base[&(mi as u8)];
        if b.out.is_err() {
            break;
        }
        let mut have: HashMap<String, Vec<String>> = HashMap::new();
        for (n, t) in items(&o) {
            have.entry(n).or_default().push(t);
        }
        let mut w = words(&f.touched_text);
        for (k, d) in i.defs.iter().enumerate() {
            if f.touched[k] {
                w.extend(d.intro.iter().map(|n| n.as_bytes().to_vec()));
            }
        }
        for (k, d) in i.defs.iter().enumerate() {
            if f.touched[k] || matches!(d.kind, K::Typedef | K::Program) {
                continue;
            }
            nontrivial();
            stat(St::IKept, 1);
            let rn = if d.kind == K::Const { d.name.clone() } else { idl::camel(&d.name) };
            let Some(want) = b.items.get(&rn) else {
                return viol("definition missing from the bindings", format!("{:?} {} has no item in the bindings of the undamaged file ({:?})", d.kind, d.name, m.flags()));
            };
            let got = have.get(&rn);
            let same = !closure(&i, k).iter().any(|n| w.contains(n.as_bytes()));
            let ok = match got {
                None => false,
                Some(g) if same => want.iter().all(|x| g.contains(x)),
                Some(g) => g.len() >= want.len(),
            };
            if !ok {
                return viol(
                    "undamaged definition lost or changed",
                    format!("{:?} {} ({:?}) is not in the bindings as without damage; damage: {}; file: {}", d.kind, d.name, m.flags(), f.log.join("; "), quote(&f.bytes)),
                );
            }
        }
      }
    }
    Ok(())
}

fn probe(text: String, what: &str) -> Outcome {
    let w = World::new();
    w.write("in.x", text.as_bytes());
    let p = w.plain("in.x", &Mode::of(0));
    if p.code < 0 || p.code == 101 {
        return viol(format!("the command crashes ({what})"), format!("status {}", p.code));
    }
    Ok(())
}
/// the parser recurses once per nested block without a limit
pub fn c12_deep() -> Outcome {
    let d = 20_000;
    probe(format!("struct s {{ {}int a;{} }};", "struct { ".repeat(d), " } b;".repeat(d)), "20000 nested types")
}
/// and once per link of a chain of typedefs
pub fn c12_chain() -> Outcome {
    let d = 20_000;
    let l: String = (0..d).map(|i| format!("typedef t{i} t{};\n", i + 1)).collect();
    probe(format!("typedef int t0;\n{l}struct s {{ t{d} x; }};\n"), "chain of 20000 typedefs")
}
