//! Seeded search, minimisation, replay and evidence. One run = one forked process, so every run starts
//! from the state of a freshly started program and a crash of the code under test ends only that run.
use crate::choice::{hash_bytes, mix, Ch};
use crate::rt::{self, Shm, St, STAT_NAMES};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;

pub struct Viol {
    pub klass: String,
    pub msg: String,
}
pub type Outcome = Result<(), Viol>;
pub fn viol<T>(klass: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    let mut msg: String = msg.into();
    if msg.len() > 4000 {
        msg = format!("{}...", msg.chars().take(1500).collect::<String>());
    }
    Err(Viol { klass: klass.into(), msg })
}

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(&mut Ch) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_s: i32,
    pub rule: &'static str,
    pub time: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// reproduce the known findings of this property: (class, demonstration)
    pub probes: &'static [(&'static str, fn() -> Outcome)],
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _p = rt::Paused::new();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {m}"));
    }));
}
pub fn panic_viol<T>(what: &str) -> Result<T, Viol> {
    let m = last_panic();
    let file = m.split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
    viol(format!("panic in {file}"), format!("{what}: panicked at {m}"))
}

fn prop_hash(id: &str) -> u64 {
    hash_bytes(7, id.as_bytes())
}
pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ 0x5eed) ^ prop_hash(id) ^ mix(i))
}

enum Src<'a> {
    Seed(u64),
    List(&'a [u64]),
    Probe(fn() -> Outcome),
}
struct RunResult {
    status: u32, // 1 ok 2 violation 3 harness error
    klass: String,
    msg: String,
    digest: u64,
}
fn exec(shm: *mut Shm, sc: &Scenario, src: Src, trace: bool) -> RunResult {
    let s = unsafe { &mut *shm };
    s.status = 0;
    s.in_lib = 0;
    s.flag = 0;
    s.nchoices = 0;
    s.tracelen = 0;
    s.req = 0;
    s.pad_ = 0;
    s.digest = 0;
    s.klass[0] = 0;
    s.msg[0] = 0;
    rt::use_shm(shm);
    let pid = unsafe { rt::simrt_fork() };
    if pid == 0 {
        unsafe { rt::simrt_child_setup(sc.cpu_s, 1) };
        unsafe { rt::simrt_arena_begin() };
        install_panic_hook();
        if trace {
            rt::trace_on();
        }
        rt::sim_begin(1);
        let r = std::panic::catch_unwind(|| {
            if let Src::Probe(f) = src {
                return f();
            }
            let mut c = match src {
                Src::Seed(x) => Ch::random(x),
                // the list was copied by fork and is never freed in this process
                Src::List(l) => Ch::replay(unsafe { std::slice::from_raw_parts(l.as_ptr(), l.len()) }),
                Src::Probe(_) => unreachable!(),
            };
            (sc.run)(&mut c)
        });
        match r {
            Ok(Ok(())) => rt::set_result(1, "", ""),
            Ok(Err(v)) => rt::set_result(2, &v.klass, &v.msg),
            Err(_) => rt::set_result(3, "harness", &format!("harness panicked at {}", last_panic())),
        }
        unsafe { rt::simrt_exit(0) }
    }
    let code = unsafe { rt::simrt_wait(pid) };
    let s = unsafe { &mut *shm };
    if s.status == 0 {
        // the run ended inside a call
        let inlib = s.in_lib > 0;
        let hint = rt::get(&s.msg);
        let sig = -code;
        let (k, m) = match (s.flag, code) {
            (1, _) => ("memory".into(), format!("requested {} bytes at once, beyond what the call justifies", s.req)),
            (2, _) => ("runaway".into(), format!("more than {} steps of work", s.req)),
            (3, _) => ("deadlock".into(), "every thread of the run waits for another one".into()),
            (_, c) if c < 0 && (inlib || sig == 11) => {
                let n = match sig {
                    6 => "abort",
                    11 | 7 => "stack overflow or memory fault",
                    24 | 9 => "does not end",
                    _ => "signal",
                };
                let n = if hint.is_empty() { n.to_string() } else { format!("{n} ({hint})") };
                (format!("crash: {n}"), format!("the process died with signal {sig} inside the call"))
            }
            _ => ("harness".to_string(), format!("run ended with code {code}")),
        };
        let st = if k == "harness" || (!inlib && s.flag == 0 && sig != 11) { 3 } else { 2 };
        rt::set_result(st, &k, &m);
    } else if s.status == 1 && s.flag == 1 {
        rt::set_result(2, "memory", &format!("requested {} bytes at once, beyond what the call justifies", s.req));
    }
    let s = unsafe { &*shm };
    RunResult { status: s.status, klass: rt::get(&s.klass), msg: rt::get(&s.msg), digest: s.digest }
}
fn choices(shm: *const Shm) -> Vec<u64> {
    let s = unsafe { &*shm };
    s.choices[..(s.nchoices as usize).min(rt::SHM_CHOICES)].to_vec()
}

// ------------------------------------------------------------------ known findings
struct Known {
    class: String,
    what: String,
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
/// lines: "known: property=<id> class=<class> :: <what fails>" / "fixed: property=<id> <commit> <what failed>"
fn load_known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} class=")))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(c, w)| Known { class: c.to_string(), what: w.to_string() })
        .collect()
}

// ------------------------------------------------------------------ search
#[repr(C)]
struct Ctl {
    min_viol: std::sync::atomic::AtomicU64,
    stop: std::sync::atomic::AtomicU64,
    done: [std::sync::atomic::AtomicU64; 64],
    viol_at: [std::sync::atomic::AtomicU64; 64],
    harness: std::sync::atomic::AtomicU64,
}
use std::sync::atomic::Ordering::SeqCst;

pub fn main_with(scs: &[Scenario]) -> i32 {
    rt::sim_begin(1);
    rt::no_aslr();
    let dir = format!("/tmp/xsim.{}", std::process::id());
    rt::set_scratch(format!("{dir}/m"));
    let code = command(scs, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn command(scs: &[Scenario], dir: &str) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let Some(sc) = scs.iter().find(|s| s.id == a[2]) else {
                eprintln!("no scenario {}", a[2]);
                return 2;
            };
            search(sc, &a[3..], dir)
        }
        Some("replay") => replay(scs, &a[2]),
        Some("one") => {
            // one <ID> <index>: trace of one run
            let Some(sc) = scs.iter().find(|s| s.id == a[2]) else { return 2 };
            let shm = unsafe { rt::simrt_shm_new() };
            let r = exec(shm, sc, Src::Seed(run_seed(env_seed(), sc.id, a[3].parse().unwrap())), true);
            print_trace(shm);
            let l = choices(shm);
            let r2 = exec(shm, sc, Src::List(&l), true);
            print_trace(shm);
            println!("{:x} {:x} {}", r.digest, r2.digest, l == choices(shm));
            println!("status {} class [{}] digest {:016x}: {}", r.status, r.klass, r.digest, r.msg);
            0
        }
        Some("digests") => {
            // digests <ID> <from> <to>: determinism self-check
            let Some(sc) = scs.iter().find(|s| s.id == a[2]) else { return 2 };
            let shm = unsafe { rt::simrt_shm_new() };
            let step: usize = a.get(5).map_or(1, |s| s.parse().unwrap());
            for i in (a[3].parse::<u64>().unwrap()..a[4].parse::<u64>().unwrap()).step_by(step) {
                let r = exec(shm, sc, Src::Seed(run_seed(env_seed(), sc.id, i)), false);
                println!("{i} {} {:016x} {:016x} {}", r.status, r.digest, hash_bytes(1, &choices(shm).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()), r.klass);
            }
            0
        }
        Some("stubs") => {
            // stubs <dir> <n> <id>: the stub modules of C14 or C24
            let id = a[4].as_str();
            rt::use_shm(unsafe { rt::simrt_shm_new() });
            let _ = std::fs::create_dir_all(rt::scratch());
            match crate::peers::write_stubs(&a[2], env_seed(), a[3].parse().unwrap(), id == "C24") {
                Ok(()) => 0,
                Err((what, text)) => {
                    let path = format!("{}/replays/{id}-stubs-{:x}.x", verif_dir(), env_seed());
                    let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
                    let _ = std::fs::write(&path, text);
                    println!("{what}");
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
            }
        }
        Some("list") => {
            for s in scs {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: run <ID> [--runs N] [--seconds N] [--workers N] | replay <file> | one <ID> <i> | digests <ID> <a> <b>");
            2
        }
    }
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn print_trace(shm: *const Shm) {
    let s = unsafe { &*shm };
    std::io::stdout().write_all(&s.trace[..s.tracelen as usize]).ok();
}

fn search(sc: &Scenario, args: &[String], dir: &str) -> i32 {
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|v| v.parse::<u64>().ok());
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = env_seed();
    let runs = opt("--runs").unwrap_or(if thorough { sc.thorough } else { sc.quick });
    let secs = opt("--seconds").unwrap_or(if thorough { 3600 } else { 300 });
    let workers = opt("--workers").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()) as u64).clamp(1, 32) as usize;
    let known = load_known(sc.id);
    let t0 = unsafe { rt::simrt_real_ns() };
    let ctl = unsafe { &*(rt::simrt_shared(std::mem::size_of::<Ctl>() as u64) as *const Ctl) };
    ctl.min_viol.store(u64::MAX, SeqCst);
    let pages: Vec<*mut Shm> = (0..workers).map(|_| unsafe { rt::simrt_shm_new() }).collect();
    let mut pids = vec![];
    for (w, page) in pages.iter().enumerate() {
        let pid = unsafe { rt::simrt_fork() };
        if pid == 0 {
            unsafe { rt::simrt_child_setup(0, 0) };
            ctl.viol_at[w].store(u64::MAX, SeqCst);
            rt::set_scratch(format!("{dir}/{}", (b'a' + w as u8) as char));
            let mut i = w as u64;
            let mut known_hits = 0;
            while i < runs && i < ctl.min_viol.load(SeqCst) && ctl.stop.load(SeqCst) == 0 {
                let r = exec(*page, sc, Src::Seed(run_seed(seed, sc.id, i)), false);
                let s = unsafe { &mut **page };
                s.stats[St::Runs as usize] += 1;
                if s.pad_ != 0 {
                    let h = mix(r.digest) as usize & (rt::SHM_DISTINCT * 8 - 1);
                    s.distinct[h / 8] |= 1 << (h % 8);
                }
                ctl.done[w].store(i + 1, SeqCst);
                if r.status == 2 {
                    if known.iter().any(|k| k.class == r.klass) {
                        known_hits += 1;
                    } else {
                        ctl.viol_at[w].store(i, SeqCst);
                        ctl.min_viol.fetch_min(i, SeqCst);
                        break;
                    }
                } else if r.status != 1 {
                    eprintln!("{}: harness error in run {i}: {}", sc.id, r.msg);
                    ctl.harness.fetch_add(1, SeqCst);
                    ctl.stop.store(1, SeqCst);
                    break;
                }
                i += workers as u64;
            }
            unsafe { (**page).stats[St::KnownHits as usize] += known_hits };
            unsafe { rt::simrt_exit(0) }
        }
        pids.push(pid);
    }
    let mut left: Vec<i32> = pids.clone();
    while !left.is_empty() {
        let mut code = 0;
        left.retain(|p| unsafe { rt::simrt_trywait(*p, &mut code) } == 0);
        if (unsafe { rt::simrt_real_ns() } - t0) / 1_000_000_000 > secs {
            ctl.stop.store(1, SeqCst);
        }
        unsafe { rt::simrt_usleep(3000) };
    }
    let search_s = (unsafe { rt::simrt_real_ns() } - t0) as f64 / 1e9;
    let timed_out = ctl.stop.load(SeqCst) != 0 && ctl.harness.load(SeqCst) == 0;
    if ctl.harness.load(SeqCst) != 0 {
        return 2;
    }
    // known findings are demonstrated on every run
    let mut klines = vec![];
    let pshm = unsafe { rt::simrt_shm_new() };
    for k in &known {
        let shown = sc.probes.iter().filter(|p| p.0 == k.class).any(|p| {
            let r = exec(pshm, sc, Src::Probe(p.1), false);
            r.status == 2 && r.klass == k.class
        });
        if shown {
            klines.push(format!("KNOWN-FINDING: property={} {}", sc.id, k.what));
        } else {
            eprintln!("{}: the listed finding [{}] did not show in this run", sc.id, k.class);
        }
    }
    for l in &klines {
        println!("{l}");
    }
    let mut code = 0;
    let mv = ctl.min_viol.load(SeqCst);
    let mut violations = 0;
    if mv != u64::MAX {
        violations = 1;
        code = 1;
        let shm = unsafe { rt::simrt_shm_new() };
        let r = exec(shm, sc, Src::Seed(run_seed(seed, sc.id, mv)), false);
        let mut list = choices(shm);
        let n0 = list.len();
        let klass = r.klass.clone();
        if r.status != 2 {
            eprintln!("{}: run {mv} did not fail again (status {}); reporting the original", sc.id, r.status);
        } else {
            minimise(shm, sc, &klass, &mut list);
        }
        let r = exec(shm, sc, Src::List(&list), true);
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-seed{}-run{}.json", sc.id, seed as i64, mv);
        let mut j = String::new();
        let s = unsafe { &*shm };
        let trace = String::from_utf8_lossy(&s.trace[..s.tracelen as usize]).into_owned();
        let _ = write!(
            j,
            "{{\"property\":\"{}\",\"verif_seed\":{},\"stubs\":{},\"run\":{},\"class\":{},\"message\":{},\"digest\":\"{:016x}\",\"choices_before_minimising\":{},\"choices\":{:?},\"trace\":[\n{}\n]}}\n",
            sc.id,
            seed as i64,
            crate::peers::count(),
            mv,
            q(&r.klass),
            q(&r.msg),
            r.digest,
            n0,
            list,
            trace.lines().map(q).collect::<Vec<_>>().join(",\n")
        );
        let _ = std::fs::write(&path, j);
        println!("{}: {}", r.klass, r.msg);
        for l in trace.lines().take(40) {
            println!("  | {}", l.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", sc.id, path);
    }
    evidence(sc, seed, thorough, &pages, search_s, t0, violations, runs, timed_out, workers, &klines);
    code
}

fn minimise(shm: *mut Shm, sc: &Scenario, klass: &str, list: &mut Vec<u64>) {
    let t0 = unsafe { rt::simrt_real_ns() };
    let over = || (unsafe { rt::simrt_real_ns() } - t0) > 25_000_000_000;
    let test = |l: &[u64]| -> Option<Vec<u64>> {
        let r = exec(shm, sc, Src::List(l), false);
        if r.status == 2 && r.klass == klass {
            let mut used = choices(shm);
            while used.last() == Some(&0) {
                used.pop();
            }
            Some(used)
        } else {
            None
        }
    };
    match test(list) {
        Some(l) => *list = l,
        None => return,
    }
    loop {
        let before = list.clone();
        // drop or zero blocks, large to small
        let mut k = list.len().next_power_of_two();
        while k >= 1 && !over() {
            let mut i = 0;
            while i < list.len() && !over() {
                let e = (i + k).min(list.len());
                let mut d = list.clone();
                d.drain(i..e);
                if let Some(l) = test(&d) {
                    if l.len() < list.len() {
                        *list = l;
                        continue;
                    }
                }
                if list[i..e].iter().any(|x| *x != 0) {
                    let mut d = list.clone();
                    d[i..e].fill(0);
                    if let Some(l) = test(&d) {
                        if l.len() <= list.len() {
                            *list = l;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // shrink values
        let mut i = 0;
        while i < list.len() && !over() {
            for v in [1, list[i] / 2, list[i].saturating_sub(1)] {
                if i < list.len() && v < list[i] {
                    let mut d = list.clone();
                    d[i] = v;
                    if let Some(l) = test(&d) {
                        if l.len() <= list.len() {
                            *list = l;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if over() || *list == before {
            break;
        }
    }
}

fn replay(scs: &[Scenario], path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let field = |k: &str| -> Option<String> {
        let p = format!("\"{k}\":\"");
        let i = t.find(&p)? + p.len();
        let mut o = String::new();
        let mut it = t[i..].chars();
        while let Some(ch) = it.next() {
            match ch {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    x => o.push(x),
                },
                x => o.push(x),
            }
        }
        None
    };
    let id = field("property").unwrap_or_default();
    let Some(sc) = scs.iter().find(|s| s.id == id) else {
        eprintln!("no scenario {id}");
        return 2;
    };
    let Some(i) = t.find("\"choices\":[") else { return 2 };
    let body = &t[i + 11..];
    let list: Vec<u64> = body[..body.find(']').unwrap_or(0)].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let shm = unsafe { rt::simrt_shm_new() };
    let r = exec(shm, sc, Src::List(&list), true);
    print_trace(shm);
    println!("class [{}] digest {:016x}: {}", r.klass, r.digest, r.msg);
    if r.status == 2 {
        let same = r.klass == field("class").unwrap_or_default() && format!("{:016x}", r.digest) == field("digest").unwrap_or_default();
        println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
        println!("VIOLATION property={id} replay={path}");
        1
    } else if r.status == 1 {
        println!("the recorded history holds on this tree");
        0
    } else {
        2
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(sc: &Scenario, seed: u64, thorough: bool, pages: &[*mut Shm], search_s: f64, t0: u64, violations: u32, planned: u64, timed_out: bool, workers: usize, klines: &[String]) {
    let mut stats = vec![0u64; rt::SHM_STATS];
    let mut distinct = vec![0u8; rt::SHM_DISTINCT];
    let mut edges = vec![0u8; rt::SHM_EDGES];
    for p in pages {
        let s = unsafe { &**p };
        for (i, n) in STAT_NAMES.iter().enumerate() {
            if n.starts_with("max.") {
                stats[i] = stats[i].max(s.stats[i]);
            } else {
                stats[i] += s.stats[i];
            }
        }
        distinct.iter_mut().zip(s.distinct.iter()).for_each(|(a, b)| *a |= b);
        edges.iter_mut().zip(s.edges.iter()).for_each(|(a, b)| *a |= b);
    }
    let dn: u64 = distinct.iter().map(|b| b.count_ones() as u64).sum();
    let en = edges.iter().filter(|e| **e != 0).count();
    let runs = stats[St::Runs as usize];
    // sample histories, and a determinism re-check of the same runs
    let shm = unsafe { rt::simrt_shm_new() };
    let mut samples = vec![];
    let mut rechecked = 0;
    let mut mism = 0;
    if violations == 0 {
        for i in 0..40u64.min(runs) {
            let r = exec(shm, sc, Src::Seed(run_seed(seed, sc.id, i)), true);
            let s = unsafe { &*shm };
            if i < 3 {
                let t = String::from_utf8_lossy(&s.trace[..s.tracelen as usize]).into_owned();
                samples.push(format!(
                    "{{\"run\":{i},\"digest\":\"{:016x}\",\"history\":[{}]}}",
                    r.digest,
                    t.lines().take(14).map(|l| q(&l.chars().take(220).collect::<String>())).collect::<Vec<_>>().join(",")
                ));
            }
            let l = choices(shm);
            let r2 = exec(shm, sc, Src::List(&l), false);
            rechecked += 1;
            mism += (r.digest != r2.digest || r.status != r2.status) as u32;
        }
    }
    let mut faults = vec![];
    let mut measures = vec![];
    for (i, n) in STAT_NAMES.iter().enumerate() {
        if stats[i] == 0 || i == St::Runs as usize {
            continue;
        }
        let e = format!("{}:{}", q(n), stats[i]);
        if n.starts_with("fault.") || n.starts_with("link.") || n.starts_with("varied.") {
            faults.push(e);
        } else {
            measures.push(e);
        }
    }
    let qs = |l: &[&str]| l.iter().map(|s| q(s)).collect::<Vec<_>>().join(",");
    let wall = (unsafe { rt::simrt_real_ns() } - t0) as f64 / 1e9;
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\n\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"runs_planned\":{},\"stopped_by_time\":{},\"workers\":{},\n\"runs_per_hour_one_seed_each\":{:.0},\n\"simulated_time\":{},\n\"faults_injected\":{{{}}},\n\"measures\":{{{}}},\n\"code_edges_reached\":{},\"code_edges_instrumented\":{},\n\"determinism\":{{\"runs_repeated_from_their_recorded_choices\":{},\"different\":{}}},\n\"known_findings_shown\":[{}],\n\"ran_real\":[{}],\"ran_stub\":[{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\"violations\":{}}}\n",
        q(sc.id),
        q(if thorough { "thorough" } else { "quick" }),
        seed as i64,
        runs,
        dn,
        q(sc.rule),
        samples.join(",\n"),
        planned,
        timed_out,
        workers,
        runs as f64 / search_s.max(0.001) * 3600.0,
        q(&format!("{} ({:.3} simulated s in total)", sc.time, stats[St::SimNs as usize] as f64 / 1e9)),
        faults.join(","),
        measures.join(","),
        en,
        unsafe { rt::simrt_nguards() },
        rechecked,
        mism,
        klines.iter().map(|l| q(l)).collect::<Vec<_>>().join(","),
        qs(sc.real),
        qs(sc.stub),
        qs(sc.assumptions),
        wall,
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", sc.id), j);
    println!(
        "{}: {} runs, {} distinct histories, {} violation(s), {:.1} s",
        sc.id, runs, dn, violations, wall
    );
}
