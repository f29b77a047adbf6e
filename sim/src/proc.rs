//! C09, C10, C13: the shipped command as a process under a system-call plan.
use crate::choice::{hash_bytes, mix, Ch};
use crate::driver::{viol, Outcome};
use crate::idl::{self, generate, lex, Mode};
use crate::rt::{self, event, guarded, nontrivial, stat, Proc, St};

const MAXRULES: usize = 64;
const MAXLOG: usize = 512;
#[derive(Clone, Copy, PartialEq)]
#[repr(u32)]
pub enum Cls {
    Open,
    Stat,
    Read,
    Write,
    Seek,
    ErrW,
}
const CLS: &[&str] = &["open", "stat", "read", "write", "lseek", "write(stderr)"];
#[derive(Clone, Copy, PartialEq)]
#[repr(u32)]
pub enum Kd {
    Err = 1,
    Short,
    Slow,
    Size,
    Zero,
    Fifo,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Rule {
    cls: u32,
    kind: u32,
    nth: u32,
    count: u32,
    arg: u32,
    fired: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Log {
    cls: i32,
    pad: i32,
    arg: i64,
    ret: i64,
}
/// mirrors shim/plan.h
#[repr(C)]
pub struct Plan {
    path: [u8; 256],
    nrules: u32,
    nlog: u32,
    rules: [Rule; MAXRULES],
    calls: [u32; 8],
    log: [Log; MAXLOG],
    pub seed: u64,
    pub clock_ns: u64,
    cap: u64,
    written: u64,
    allocs: u64,
    alloc_fail: u64,
    alloc_fail_n: u64,
    alloc_failed: u64,
    pub pid: u32,
    pub heap_shift: u32,
    pub map_shift: u32,
    cap_errno: u32,
    cap_fired: u32,
    draws: u32,
    clocks: u32,
    pub vary: u32,
    asked: u32,
    threads: u32,
    kill_call: u64,
    kill_alloc: u64,
    calls_made: u64,
    killed: u64,
    nmods: u32,
    noutside: u32,
    root: [u8; 256],
    outside: [u8; 256],
    nmiss: u32,
    pad2: u32,
    miss: [[u8; 256]; 4],
}
impl Plan {
    /// files the process looked for in vain
    fn missing(&self) -> Vec<String> {
        let text = |b: &[u8; 256]| String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(0)]).into_owned();
        self.miss[..self.nmiss.min(4) as usize].iter().map(text).collect()
    }
    pub fn rule(&mut self, cls: Cls, kind: Kd, nth: u64, count: u64, arg: u64) {
        if (self.nrules as usize) < MAXRULES {
            self.rules[self.nrules as usize] =
                Rule { cls: cls as u32, kind: kind as u32, nth: nth as u32, count: count as u32, arg: arg as u32, fired: 0 };
            self.nrules += 1;
        }
    }
    fn calls_text(&self) -> String {
        let n = (self.nlog as usize).min(MAXLOG);
        let mut s = String::new();
        for l in &self.log[..n.min(40)] {
            s += &format!(" {}({})={}", CLS[l.cls as usize], l.arg, l.ret);
        }
        if n > 40 {
            s += &format!(" ..{} more", n - 40);
        }
        s
    }
    fn fired(&self, f: impl Fn(&Rule) -> bool) -> u64 {
        self.rules[..self.nrules as usize].iter().filter(|r| f(r)).map(|r| r.fired as u64).sum()
    }
    fn errs(&self, cls: Cls) -> u64 {
        self.fired(|r| r.cls == cls as u32 && r.kind == Kd::Err as u32 && r.arg != EINTR as u32)
    }
    fn count(&self) {
        for r in &self.rules[..self.nrules as usize] {
            let n = r.fired as u64;
            let k = match (r.cls, r.kind) {
                (_, 3) => St::PDelay,
                (0, 1) if r.arg == EINTR as u32 => St::POpenEintr,
                (0, 1) => St::POpen,
                (1, _) | (4, _) => St::PStat,
                (2, 1) if r.arg == EINTR as u32 => St::PEintrR,
                (2, 1) => St::PEioR,
                (2, 2) => St::PShortR,
                (5, _) => St::PErrW2,
                (_, 1) if r.arg == EINTR as u32 => St::PEintrW,
                (_, 1) => St::PErrW,
                (_, 5) => St::PZeroW,
                _ => St::PShortW,
            };
            if n > 0 {
                stat(k, n);
            }
        }
        if self.cap_fired > 0 {
            stat(St::PCapW, self.cap_fired as u64);
        }
        if self.alloc_failed > 0 {
            stat(St::PAlloc, self.alloc_failed);
        }
        if self.killed > 0 {
            stat(St::PKill, 1);
        }
        stat(St::PRand, self.draws as u64);
        stat(St::PClock, self.clocks as u64);
        stat(St::PEnv, self.asked as u64);
    }
}
const EINTR: i32 = 4;

pub struct World {
    fd: i32,
    plan: *mut Plan,
    pub dir: String,
    bin: String,
    shim: String,
}
impl World {
    pub fn new() -> World {
        let mut p: *mut u8 = std::ptr::null_mut();
        let fd = unsafe { rt::simrt_memfd(std::mem::size_of::<Plan>() as u64, &mut p) };
        assert!(fd >= 0, "memfd");
        let v = crate::driver::verif_dir();
        World { fd, plan: p as *mut Plan, dir: rt::scratch(), bin: format!("{v}/target/rpc/release/rpcgen"), shim: format!("{v}/target/shim.so") }
    }
    pub fn write(&self, name: &str, b: &[u8]) {
        std::fs::write(format!("{}/{name}", self.dir), b).expect("scratch file");
    }
    /// one process; `path` is what the command line says
    pub fn run(&self, path: &str, args: &[String], env: &[(String, String)], cwd: &str, set: impl FnOnce(&mut Plan)) -> (Proc, &Plan) {
        let p = unsafe { &mut *self.plan };
        unsafe { std::ptr::write_bytes(self.plan, 0, 1) };
        let n = path.len().min(255);
        p.path[..n].copy_from_slice(&path.as_bytes()[..n]);
        p.seed = 1;
        p.clock_ns = 1_700_000_000_000_000_000;
        p.pid = 4242;
        set(p);
        let mut e = vec![("LD_PRELOAD".to_string(), self.shim.clone()), ("PATH".to_string(), "/usr/bin:/bin".to_string())];
        e.extend(env.iter().cloned());
        let r = rt::spawn(&self.bin, args, &e, cwd, 20, self.fd);
        assert!(r.code != -1000 && r.code != 127, "the command could not be started");
        stat(St::Procs, 1);
        p.count();
        (r, p)
    }
    pub fn plain(&self, path: &str, m: &Mode) -> Proc {
        self.run(path, &args(path, m), &[], &self.dir, |_| {}).0
    }
}
pub fn args(path: &str, m: &Mode) -> Vec<String> {
    let mut l = m.flags();
    l.push(path.to_string());
    l
}
fn brief(p: &Proc) -> String {
    format!("exit {} with {} bytes of output", p.code, p.out.len())
}
/// an interface file: mostly sound, sometimes damaged, sometimes damaged again and again but still readable
fn a_file(c: &mut Ch, hurt: u64) -> Vec<u8> {
    let mut b = b_file(c, hurt);
    if c.chance(1, 24) {
        // a licence text of many pages
        let unit = *c.pick(&["x\n", "é\n ", "寸法\n", "🦀🦀🦀\t", "Permission is granted, free of charge\n * "]);
        let n = (1 << c.us(18)) / unit.len() + c.us(40);
        let mut t = format!("/*{}*/\n", unit.repeat(n)).into_bytes();
        t.extend(b);
        b = t;
    }
    b
}
fn b_file(c: &mut Ch, hurt: u64) -> Vec<u8> {
    let n = if c.chance(1, 60) { 400 } else { *c.pick(&[3, 8, 8, 20, 60]) };
    let st = if c.chance(1, 2) { idl::Style::Wild } else { idl::Style::Peers { std: false } };
    let i = idl::gen_idl(c, st, n);
    let mut f = idl::File::new(&i);
    if hurt > 0 && c.chance(1, hurt) {
        if c.chance(1, 3) {
            f.fault(c, true);
            return f.bytes;
        }
        let m = Mode::of(c.us(16));
        for _ in 0..1 + c.us(12) {
            let before = f.clone();
            f.fault(c, false);
            let ok = f.utf8().is_some_and(|t| matches!(guarded(|| generate(t, &m)), Ok(Ok(_))));
            if !ok {
                f = before;
            }
        }
    }
    f.bytes
}
fn record(p: &Proc, plan: &Plan) {
    event(hash_bytes(p.code as u64, &p.out));
    let n = (plan.nlog as usize).min(MAXLOG);
    for l in &plan.log[..n] {
        event(mix((l.cls as u64) << 40 ^ (l.ret as u64)));
    }
}

// ------------------------------------------------------------------ C09
const OPEN_ERR: &[i32] = &[2, 13, 24, 23, 5, 40, 12, 6, 26, 11];
const READ_ERR: &[i32] = &[5, 21, 12, 11, 116, 110, 22, 9, 14, 105];
const WRITE_ERR: &[i32] = &[28, 5, 32, 11, 27, 122, 12, 110, 22, 104];
pub fn c09(c: &mut Ch) -> Outcome {
    let w = World::new();
    let bytes = a_file(c, 5);
    let m = Mode::of(c.us(16));
    w.write("in.x", &bytes);
    let a = args("in.x", &m);
    let base = w.plain("in.x", &m);
    event(hash_bytes(base.code as u64, &base.out));
    tr!("{} bytes of interface, {:?}: undisturbed {}", bytes.len(), m.flags(), brief(&base));
    match std::str::from_utf8(&bytes) {
        Err(_) => {
            nontrivial();
            if base.code == 0 || !base.out.is_empty() {
                return viol("undecodable file accepted", format!("a file that is not UTF-8 gave {}", brief(&base)));
            }
        }
        Ok(t) if base.code == 0 => {
            // complete: exactly what the library generates, whatever the layout
            if let Ok(Ok(g)) = guarded(|| generate(t, &m)) {
                let o = String::from_utf8_lossy(&base.out);
                if lex(&g) != lex(&o) {
                    return viol("incomplete output", format!("undisturbed, {}; the library generates {} bytes of bindings", brief(&base), g.len()));
                }
            }
        }
        _ => {}
    }
    let outn = base.out.len() as u64;
    for _ in 0..1 + c.us(6) {
        let kind = c.weighted(&[2, 5, 8, 2, 1]);
        let mut what = String::new();
        let (p, plan) = w.run("in.x", &a, &[], &w.dir, |pl| {
            // short transfers make more calls, so that the failure can come between any two of them
            if c.chance(1, 2) {
                let s = c.log(12);
                pl.rule(Cls::Read, Kd::Short, 0, 1 << 20, s);
            }
            if c.chance(1, 2) {
                let s = c.log(12);
                pl.rule(Cls::Write, Kd::Short, 0, 1 << 20, s);
            }
            if c.chance(1, 4) {
                pl.rule(Cls::ErrW, Kd::Err, 0, 1 << 20, *c.pick(WRITE_ERR) as u64);
            }
            if c.chance(1, 6) {
                pl.rule(Cls::Stat, Kd::Err, 0, 1, 5);
            }
            let once = c.chance(1, 2);
            let count = if once { 1 } else { 1 << 20 };
            match kind {
                0 => {
                    let e = *c.pick(OPEN_ERR);
                    front(pl, Rule { cls: Cls::Open as u32, kind: 1, nth: 0, count: count as u32, arg: e as u32, fired: 0 });
                    what = format!("open fails with errno {e}");
                }
                1 => {
                    let e = *c.pick(READ_ERR);
                    let nth = if c.chance(1, 2) { c.below(3) } else { c.log(8) - 1 };
                    front(pl, Rule { cls: Cls::Read as u32, kind: 1, nth: nth as u32, count: count as u32, arg: e as u32, fired: 0 });
                    what = format!("read {nth} fails with errno {e} ({})", if once { "once" } else { "from then on" });
                }
                2 => {
                    let e = *c.pick(WRITE_ERR);
                    if c.chance(1, 2) {
                        pl.cap = match c.us(4) {
                            0 => 0,
                            1 => c.below(outn + 1),
                            2 => outn.saturating_sub(1 + c.below(3)),
                            _ => c.log(14),
                        };
                        pl.cap_errno = e as u32;
                        what = format!("standard output takes {} bytes, then errno {e}", pl.cap);
                    } else {
                        let nth = if c.chance(1, 2) { c.below(3) } else { c.log(8) - 1 };
                        front(pl, Rule { cls: Cls::Write as u32, kind: 1, nth: nth as u32, count: count as u32, arg: e as u32, fired: 0 });
                        what = format!("write {nth} fails with errno {e} ({})", if once { "once" } else { "from then on" });
                    }
                }
                3 => {
                    pl.alloc_fail = c.log(11);
                    pl.alloc_fail_n = if once { 1 } else { 1 << 40 };
                    what = format!("allocation {} fails ({})", pl.alloc_fail, if once { "once" } else { "from then on" });
                }
                _ => {
                    let nth = c.below(3);
                    front(pl, Rule { cls: Cls::Write as u32, kind: Kd::Zero as u32, nth: nth as u32, count: count as u32, arg: 0, fired: 0 });
                    what = format!("write {nth} accepts nothing");
                }
            }
        });
        record(&p, plan);
        tr!("{what}: {} |{}", brief(&p), plan.calls_text());
        let rd = plan.errs(Cls::Open) + plan.errs(Cls::Read);
        let wr = plan.errs(Cls::Write) + plan.cap_fired as u64;
        if p.code == -1001 || p.code == -24 {
            return viol("does not end", format!("{what}: the process does not end"));
        }
        if rd > 0 {
            if p.code == 0 {
                return viol("success without input", format!("{what}: {}", brief(&p)));
            }
            if !p.out.is_empty() {
                return viol("output without input", format!("{what}: {}", brief(&p)));
            }
        }
        if wr > 0 && p.code == 0 {
            return viol("success without output", format!("{what}: {} (undisturbed: {})", brief(&p), brief(&base)));
        }
        if p.code == 0 && p.out != base.out {
            return viol("success with other output", format!("{what}: {} (undisturbed: {})", brief(&p), brief(&base)));
        }
    }
    Ok(())
}
fn front(pl: &mut Plan, r: Rule) {
    pl.rules.rotate_right(1);
    pl.rules[0] = r;
    pl.nrules += 1;
}
/// standard output is not open at all: the Rust runtime treats EBADF on it as a successful write
pub fn c09_ebadf() -> Outcome {
    let w = World::new();
    w.write("in.x", b"struct s { int a; };");
    let m = Mode::of(0);
    let (p, _) = w.run("in.x", &args("in.x", &m), &[], &w.dir, |pl| pl.rule(Cls::Write, Kd::Err, 0, 1 << 20, 9));
    if p.code == 0 && p.out.is_empty() {
        return viol("success without output (EBADF)", "standard output closed");
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
pub fn c10(c: &mut Ch) -> Outcome {
    let w = World::new();
    let bytes = a_file(c, 3);
    let m = Mode::of(c.us(16));
    w.write("in.x", &bytes);
    let a = args("in.x", &m);
    let base = w.plain("in.x", &m);
    event(hash_bytes(base.code as u64, &base.out));
    tr!("{} bytes of interface, {:?}: undisturbed {}", bytes.len(), m.flags(), brief(&base));
    for _ in 0..1 + c.us(6) {
        let mut what = vec![];
        let (p, plan) = w.run("in.x", &a, &[], &w.dir, |pl| {
            let mut first = true;
            for _ in 0..1 + c.us(8) {
                // interruptions come before the short-transfer rules, so both take effect
                match c.weighted(&[3, 3, 2, 2, 1, 3, 3, 1, 1]) {
                    0 => {
                        let (n, k) = (c.log(6) - 1, 1 + c.below(6));
                        pl.rule(Cls::Read, Kd::Err, n, k, EINTR as u64);
                        what.push(format!("read {n}..{} interrupted", n + k));
                    }
                    1 => {
                        let (n, k) = (if first { 0 } else { c.log(5) - 1 }, c.log(10));
                        let s = if c.chance(1, 2) { 1 + c.below(5) } else { c.log(12) };
                        pl.rule(Cls::Read, Kd::Short, n, k, s);
                        what.push(format!("reads {n}..{} give {s} bytes", n + k));
                        first = false;
                    }
                    2 => {
                        if c.chance(1, 2) {
                            let e = *c.pick(&[5u64, 38, 13, 22]);
                            pl.rule(Cls::Stat, Kd::Err, 0, 8, e);
                            what.push(format!("metadata fails with errno {e}"));
                        } else if c.chance(1, 4) {
                            pl.rule(Cls::Stat, Kd::Fifo, 0, 8, 0);
                            what.push("a pipe according to its metadata".into());
                        } else {
                            let s = match c.us(4) {
                                0 => 0,
                                1 => c.below(bytes.len() as u64 + 1),
                                2 => bytes.len() as u64 + 1 + c.below(64),
                                _ => c.log(20),
                            };
                            pl.rule(Cls::Stat, Kd::Size, 0, 8, s);
                            what.push(format!("metadata says {s} bytes"));
                        }
                    }
                    3 => {
                        pl.rule(Cls::Seek, Kd::Err, 0, 8, 29);
                        what.push("not seekable".into());
                    }
                    4 => {
                        let k = 1 + c.below(4);
                        pl.rule(Cls::Open, Kd::Err, 0, k, EINTR as u64);
                        what.push(format!("open interrupted {k} times"));
                    }
                    5 => {
                        let (n, k) = (c.log(6) - 1, 1 + c.below(6));
                        pl.rule(Cls::Write, Kd::Err, n, k, EINTR as u64);
                        what.push(format!("write {n}..{} interrupted", n + k));
                    }
                    6 => {
                        let (n, k) = (c.log(5) - 1, c.log(10));
                        let s = if c.chance(1, 2) { 1 + c.below(5) } else { c.log(12) };
                        pl.rule(Cls::Write, Kd::Short, n, k, s);
                        what.push(format!("writes {n}..{} take {s} bytes", n + k));
                    }
                    7 => {
                        let (n, ms) = (c.log(4) - 1, c.log(24));
                        let cl = if c.chance(1, 2) { Cls::Read } else { Cls::Write };
                        pl.rule(cl, Kd::Slow, n, 4, ms);
                        what.push(format!("transfer {n} takes {ms} ms"));
                    }
                    _ => {
                        pl.rule(Cls::ErrW, Kd::Err, c.below(3), 3, EINTR as u64);
                        what.push("stderr interrupted".into());
                    }
                }
            }
        });
        record(&p, plan);
        tr!("{}: {} |{}", what.join(", "), brief(&p), plan.calls_text());
        if p.code == -1001 || p.code == -24 {
            return viol("does not end", format!("{}: the process does not end", what.join(", ")));
        }
        if p.code != base.code {
            return viol("status changed", format!("{}: {} (undisturbed: {}); stderr: {}", what.join(", "), brief(&p), brief(&base), String::from_utf8_lossy(&p.err[..p.err.len().min(200)])));
        }
        if p.out != base.out {
            let at = p.out.iter().zip(&base.out).position(|(a, b)| a != b).unwrap_or(p.out.len().min(base.out.len()));
            return viol("output changed", format!("{}: {} (undisturbed: {}), first difference at byte {at}", what.join(", "), brief(&p), brief(&base)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
const ENVS: &[(&str, &[&str])] = &[
    ("RUST_BACKTRACE", &["0", "1", "full"]),
    ("LANG", &["C", "en_US.UTF-8", "ja_JP.eucJP"]),
    ("LC_ALL", &["C", "tr_TR.UTF-8"]),
    ("TZ", &["UTC", "Asia/Tokyo"]),
    ("HOME", &["/", "/root", "/nonexistent"]),
    ("TERM", &["dumb", "xterm-256color"]),
    ("NO_COLOR", &["1"]),
    ("COLUMNS", &["20", "400"]),
    ("USER", &["root", "nobody"]),
    ("PWD", &["/elsewhere"]),
    ("RUST_MIN_STACK", &["65536"]),
    ("RUSTFMT", &["rustfmt"]),
    ("OUT_DIR", &["/tmp/out"]),
    ("CARGO_PKG_NAME", &["other"]),
    ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
    ("TMPDIR", &["/var/tmp"]),
    ("DEBUG", &["1"]),
    ("RUST_LOG", &["trace"]),
    ("GLIBC_TUNABLES", &["glibc.malloc.mmap_threshold=4096"]),
    ("RPCGEN_OPTIONS", &["--use-union"]),
];
pub fn c13(c: &mut Ch) -> Outcome {
    let w = World::new();
    let bytes = a_file(c, 2);
    let m = Mode::of(c.us(16));
    w.write("in.x", &bytes);
    let sub = format!("{}/d", w.dir);
    let _ = std::fs::create_dir_all(&sub);
    let home = |env: &mut Vec<(String, String)>| {
        for k in ["HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "TMPDIR", "CARGO_MANIFEST_DIR"] {
            env.push((k.into(), sub.clone()));
        }
    };
    let mut env = vec![];
    if c.chance(1, 2) {
        home(&mut env);
    }
    let (base, plan) = w.run("in.x", &args("in.x", &m), &env, &w.dir, |_| {});
    let mut missing = plan.missing();
    event(hash_bytes(base.code as u64, &base.out));
    tr!("{} bytes of interface, {:?}: {}", bytes.len(), m.flags(), brief(&base));
    for _ in 0..1 + c.us(5) {
        let mut env = vec![];
        for _ in 0..c.us(5) {
            let e = c.pick(ENVS);
            env.push((e.0.to_string(), c.pick(e.1).to_string()));
        }
        if c.chance(1, 3) {
            env.push(("PAD".into(), "x".repeat(c.log(14) as usize)));
        }
        if c.chance(1, 3) {
            env.retain(|e| e.0 != "HOME" && e.0 != "TMPDIR");
            home(&mut env);
        }
        if c.chance(1, 6) {
            env.push(("@arg0".into(), c.pick(&["rpcgen", "./rpcgen-std", "rpcgen-use-union", "", "/usr/lib/x y/RPCGEN"]).to_string()));
        }
        let name = c.pick(&["in.x", "b", "other name.x", "z.rs", "0", "UPPER.X", "\u{e9}.x", "in.x.bak"]).to_string();
        let full = format!("{}/{name}", w.dir);
        let kind = c.us(8);
        if kind < 2 && name != "in.x" {
            let _ = std::fs::remove_file(&full);
            let _ = if kind == 0 { std::os::unix::fs::symlink("in.x", &full) } else { std::fs::hard_link(format!("{}/in.x", w.dir), &full) };
        } else {
            let _ = std::fs::remove_file(&full);
            w.write(&name, &bytes);
            if kind == 2 {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&full, std::fs::Permissions::from_mode(*c.pick(&[0o444, 0o755, 0o600, 0o4777])));
            }
        }
        // what an earlier run looked for in vain is there now
        for p in &missing {
            let p = if p.starts_with('/') { p.clone() } else { format!("{}/{p}", c.pick(&[&w.dir, &sub])) };
            if p.starts_with(&w.dir) && !p.contains("/..") && c.chance(1, 2) && !std::path::Path::new(&p).exists() {
                let t = match c.us(4) {
                    0 => b"--use-union\n--use-std-trait\n".to_vec(),
                    1 => b"use-union = true\nuse_indexer = true\n[rpcgen]\nunion = true\n".to_vec(),
                    2 => a_file(c, 2),
                    _ => vec![],
                };
                if let Some(d) = std::path::Path::new(&p).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                let _ = std::fs::write(&p, &t);
                tr!("{p} exists now");
            }
        }
        let (path, cwd) = match c.us(4) {
            0 => (name.clone(), w.dir.clone()),
            1 => (format!("./{name}"), w.dir.clone()),
            2 => (format!("../{name}"), sub.clone()),
            _ => (format!("{}/{name}", w.dir), "/".to_string()),
        };
        let when = c.below(2_000_000_000);
        if let Ok(f) = std::fs::File::open(format!("{}/{name}", w.dir)) {
            let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(when));
        }
        let mut a = args(&path, &m);
        if c.chance(1, 3) {
            a.rotate_right(1);
        }
        let (seed, clock, pid) = (c.bits(), c.below(1 << 62), 1 + c.below(4_000_000));
        let (hs, ms) = (c.below(64), c.log(16));
        let vary = c.chance(1, 2);
        let (p, plan) = w.run(&path, &a, &env, &cwd, |pl| {
            pl.seed = seed;
            pl.clock_ns = clock;
            pl.pid = pid as u32;
            pl.heap_shift = hs as u32;
            pl.map_shift = ms as u32;
            pl.vary = vary as u32;
        });
        record(&p, plan);
        stat(St::PCfgVar, 1);
        stat(St::PEnv, env.len() as u64);
        nontrivial();
        missing.extend(plan.missing());
        missing.truncate(8);
        tr!("{a:?} in {cwd}, env {env:?}, hash seed {seed:x}, clock {clock}, pid {pid}, heap shift {hs}, other surroundings {vary}: {}", brief(&p));
        if p.code != base.code {
            return viol("status varies", format!("hash seed {seed:x}, clock {clock}, pid {pid}, {path} in {cwd}, env {env:?}: {} (first: {})", brief(&p), brief(&base)));
        }
        if p.out != base.out {
            let at = p.out.iter().zip(&base.out).position(|(a, b)| a != b).unwrap_or(p.out.len().min(base.out.len()));
            return viol(
                "output varies",
                format!("hash seed {seed:x}, clock {clock}, pid {pid}, {path} in {cwd}, env {env:?}: {}, first difference at byte {at}", brief(&p)),
            );
        }
    }
    // generations within one process: other seeds, after and beside other generations
    if let Ok(t) = std::str::from_utf8(&bytes) {
        let t: &'static str = Box::leak(t.to_string().into_boxed_str());
        let other = String::from_utf8_lossy(&a_file(c, 2)).into_owned();
        rt::sim_begin(c.bits());
        let mut seen: Option<String> = None;
        let same = |what: &str, r: Result<Result<String, String>, rt::Caught>, seen: &mut Option<String>| -> Outcome {
            let Ok(r) = r else { return Ok(()) };
            let r = format!("{r:?}");
            event(hash_bytes(9, r.as_bytes()));
            match seen {
                None => *seen = Some(r),
                Some(s) if *s == r => {}
                Some(s) => {
                    let at = s.bytes().zip(r.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(r.len()));
                    return viol("output varies within a process", format!("{what}: differs from the first generation at byte {at}"));
                }
            }
            Ok(())
        };
        if c.chance(1, 2) {
            let _ = guarded(|| generate(&other, &Mode::of(c.us(16))));
        }
        for i in 0..1 + c.us(3) {
            same(&format!("generation {i}"), guarded(|| generate(t, &m)), &mut seen)?;
            // the command's was the first one of its process
            if let (0, Ok(Ok(g))) = (base.code, guarded(|| generate(t, &m))) {
                if lex(&g) != lex(&String::from_utf8_lossy(&base.out)) {
                    return viol("output varies within a process", format!("generation {i} differs from that of a fresh process"));
                }
            }
            if c.chance(1, 2) {
                let _ = guarded(|| generate(&other, &Mode::of(c.us(16))));
            }
            nontrivial();
        }
        if c.chance(1, 2) {
            let out: &'static std::sync::Mutex<Vec<Result<String, String>>> = Box::leak(Default::default());
            let pre: Vec<(u64, u32)> = (0..1 + c.us(20)).map(|_| (c.log(18), c.below(2) as u32)).collect();
            let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..2)
                .map(|_| {
                    Box::new(move || {
                        if let Ok(r) = guarded(|| generate(t, &m)) {
                            let _p = rt::Paused::new();
                            out.lock().unwrap().push(r);
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let h = rt::run_threads(bodies, 0, &pre);
            event(h);
            for r in out.lock().unwrap().drain(..) {
                same("a thread beside another one", Ok(r), &mut seen)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
type Tree = std::collections::BTreeMap<String, (u32, u64, u64, u64)>;
/// everything below a directory: kind and permissions, size, content, time of the last change (files)
fn tree(root: &str) -> Tree {
    fn walk(d: &std::path::Path, root: &str, t: &mut Tree) {
        use std::os::unix::fs::MetadataExt;
        let Ok(l) = std::fs::read_dir(d) else { return };
        for e in l.flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let name = p.to_string_lossy()[root.len()..].to_string();
            if m.is_dir() {
                t.insert(name, (m.mode(), 0, 0, 0));
                walk(&p, root, t);
            } else if m.is_file() {
                let b = std::fs::read(&p).unwrap_or_default();
                t.insert(name, (m.mode(), b.len() as u64, hash_bytes(5, &b), (m.mtime() as u64) << 30 ^ m.mtime_nsec() as u64));
            } else {
                t.insert(name, (m.mode(), 0, 0, 0));
            }
        }
    }
    let mut t = Tree::new();
    walk(std::path::Path::new(root), root, &mut t);
    t
}
fn difference(a: &Tree, b: &Tree) -> Option<String> {
    for (k, v) in b {
        match a.get(k) {
            None => return Some(format!("{k} appeared ({} bytes)", v.1)),
            Some(w) if w != v => return Some(format!("{k} changed")),
            _ => {}
        }
    }
    a.keys().find(|k| !b.contains_key(*k)).map(|k| format!("{k} vanished"))
}
/// a place to run in: working directory, home, temporary and cache directories
struct Place {
    root: String,
}
impl Place {
    fn new(root: String) -> Place {
        let _ = std::fs::remove_dir_all(&root);
        for d in ["w/idl", "home", "tmp", "cache", "out"] {
            std::fs::create_dir_all(format!("{root}/{d}")).expect("scratch directory");
        }
        Place { root }
    }
    fn put(&self, name: &str, b: &[u8], when: u64) {
        let p = format!("{}/w/{name}", self.root);
        std::fs::write(&p, b).expect("scratch file");
        if let Ok(f) = std::fs::File::options().write(true).open(&p) {
            let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(when));
        }
    }
    fn run<'a>(&self, w: &'a World, name: &str, m: &Mode, set: impl FnOnce(&mut Plan)) -> (Proc, &'a Plan) {
        let e = |k: &str, d: &str| (k.to_string(), format!("{}/{d}", self.root));
        let env = [
            e("HOME", "home"),
            e("TMPDIR", "tmp"),
            e("XDG_CACHE_HOME", "cache"),
            e("XDG_CONFIG_HOME", "home"),
            e("XDG_STATE_HOME", "home"),
            e("XDG_RUNTIME_DIR", "tmp"),
            e("OUT_DIR", "out"),
            e("CARGO_TARGET_DIR", "out"),
            e("CARGO_MANIFEST_DIR", "w"),
        ];
        w.run(name, &args(name, m), &env, &format!("{}/w", self.root), |pl| {
            let r = format!("{}/", self.root);
            let n = r.len().min(255);
            pl.root[..n].copy_from_slice(&r.as_bytes()[..n]);
            set(pl)
        })
    }
}
pub fn c22(c: &mut Ch) -> Outcome {
    let w = World::new();
    let here = Place::new(format!("{}/here", w.dir));
    let mut text = a_file(c, 4);
    let name = *c.pick(&["in.x", "idl/in.x", "in", "./in.x"]);
    let mut m = Mode::of(c.us(16));
    let mut when = 1_600_000_000 + c.below(100_000_000);
    here.put(name, &text, when);
    // neighbours that mean nothing to the generator
    for _ in 0..c.us(4) {
        let n = *c.pick(&["in.rs", "in.x.tmp", "in.x.bak", "in.x~", "in.x.lock", ".rpcgen", "rpcgen.toml", "common.x", "in.h", "in.x.cache", "out.rs", "idl/types.x", "../tmp/in.x", "../tmp/rpcgen", "../cache/rpcgen", "../home/.rpcgenrc"]);
        let b = if c.chance(1, 2) { a_file(c, 4) } else { b"x = 1\n".to_vec() };
        here.put(n, &b, when - 5);
    }
    for step in 0..2 + c.us(7) {
        match c.weighted(&[6, 2, 2]) {
            1 => {
                // the interface is edited, sometimes so that neither its size nor its time tells
                let keep = c.chance(1, 2);
                if keep {
                    let at: Vec<usize> = (0..text.len()).filter(|i| text[*i].is_ascii_digit() && text[*i] != b'0').collect();
                    if !at.is_empty() {
                        text[*c.pick(&at)] = b'1' + c.us(9) as u8;
                    }
                } else {
                    text = a_file(c, 4);
                }
                if !keep || c.chance(1, 2) {
                    when += c.below(3);
                }
                here.put(name, &text, when);
                tr!("{step}: the interface is edited: {} bytes", text.len());
            }
            2 => m = Mode::of(c.us(16)),
            _ => {}
        }
        let before = tree(&here.root);
        let mut what = "undisturbed".to_string();
        let kind = c.weighted(&[4, 4, 3, 1]);
        let (p, plan) = here.run(&w, name, &m, |pl| {
            if kind > 0 && c.chance(1, 3) {
                let s = c.log(10);
                pl.rule(Cls::Write, Kd::Short, 0, 1 << 20, s);
            }
            match kind {
                1 => {
                    pl.kill_call = c.log(5);
                    what = format!("killed at call {}", pl.kill_call);
                }
                2 => {
                    pl.kill_alloc = c.log(13);
                    what = format!("killed at allocation {}", pl.kill_alloc);
                }
                3 => {
                    if c.chance(1, 2) {
                        pl.cap = c.log(12) - 1;
                        pl.cap_errno = *c.pick(WRITE_ERR) as u32;
                        what = format!("standard output takes {} bytes", pl.cap);
                    } else {
                        let n = c.below(3);
                        pl.rule(Cls::Read, Kd::Err, n, 1, 5);
                        what = format!("read {n} fails");
                    }
                }
                _ => {}
            }
        });
        record(&p, plan);
        nontrivial();
        let (killed, nmods, outside) = (plan.killed > 0, plan.nmods, rt::get(&plan.outside));
        tr!("{step}: {what}: {} {} |{}", brief(&p), if killed { "(killed)" } else { "" }, plan.calls_text());
        if let Some(d) = difference(&before, &tree(&here.root)) {
            return viol("left behind", format!("run {step}, {what}: {d}"));
        }
        if !outside.is_empty() {
            return viol("changes elsewhere", format!("run {step}, {what}: {outside} (and {nmods} changes in all)"));
        }
        if kind == 0 {
            let fresh = Place::new(format!("{}/fresh", w.dir));
            fresh.put(name, &text, 1_500_000_000);
            let (q, _) = fresh.run(&w, name, &m, |_| {});
            if p.code != q.code {
                return viol("later run differs", format!("run {step}: {}, in a fresh place {}; stderr: {}", brief(&p), brief(&q), String::from_utf8_lossy(&p.err[..p.err.len().min(200)])));
            }
            if p.out != q.out {
                let at = p.out.iter().zip(&q.out).position(|(a, b)| a != b).unwrap_or(p.out.len().min(q.out.len()));
                return viol("later run differs", format!("run {step}: {}, in a fresh place {}, first difference at byte {at}", brief(&p), brief(&q)));
            }
        }
    }
    Ok(())
}
