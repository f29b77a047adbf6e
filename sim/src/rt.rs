//! FFI to the C runtime, the accounting allocator, the shared result page and the event log.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::os::raw::{c_char, c_int};

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub in_lib: u32,
    pub flag: u32,
    pub nchoices: u32,
    pub tracelen: u32,
    pub pad_: u32,
    pub req: u64,
    pub digest: u64,
    pub klass: [u8; 256],
    pub msg: [u8; 4096],
    pub choices: [u64; SHM_CHOICES],
    pub trace: [u8; SHM_TRACE],
    pub stats: [u64; SHM_STATS],
    pub edges: [u8; SHM_EDGES],
    pub distinct: [u8; SHM_DISTINCT],
}
pub const SHM_CHOICES: usize = 131072;
pub const SHM_TRACE: usize = 1 << 20;
pub const SHM_STATS: usize = 256;
pub const SHM_EDGES: usize = 1 << 18;
pub const SHM_DISTINCT: usize = 1 << 20;

extern "C" {
    pub fn simrt_shm_new() -> *mut Shm;
    pub fn simrt_shm_use(p: *mut Shm);
    fn simrt_sched_init(n: c_int);
    fn simrt_sched_pre(gap: u64, pick: u32);
    fn simrt_thread_enter(tid: c_int);
    fn simrt_wait_parked(tid: c_int);
    fn simrt_sched_run(first: c_int);
    fn simrt_thread_exit();
    fn simrt_thread_release(tid: c_int);
    fn simrt_solo_begin();
    fn simrt_solo_end();
    fn simrt_switches() -> u64;
    fn simrt_blocks() -> u64;
    fn simrt_sched_hash() -> u64;
    fn simrt_points() -> u64;
    fn simrt_arm();
    fn simrt_disarm();
    fn simrt_pause(save: *mut c_int);
    fn simrt_resume(save: c_int);
    fn simrt_mem_begin(b: i64);
    fn simrt_mem_peak() -> i64;
    fn simrt_mem_end();
    fn simrt_moved() -> u64;
    fn simrt_steps_begin(limit: u64);
    fn simrt_steps() -> u64;
    fn simrt_steps_end();
    fn simrt_on_alloc(size: u64) -> c_int;
    fn simrt_on_free(size: u64);
    fn simrt_sim_begin(seed: u64);
    fn simrt_sim_end();
    fn simrt_yield();
    fn simrt_no_aslr(argv: *const *const c_char) -> c_int;
    pub fn simrt_fork() -> c_int;
    pub fn simrt_child_setup(cpu_s: c_int, quiet: c_int);
    pub fn simrt_limit_stack(bytes: u64);
    pub fn simrt_wait(pid: c_int) -> c_int;
    pub fn simrt_trywait(pid: c_int, code: *mut c_int) -> c_int;
    pub fn simrt_exit(c: c_int) -> !;
    pub fn simrt_kill(pid: c_int);
    pub fn simrt_real_ns() -> u64;
    pub fn simrt_usleep(us: u32);
    fn simrt_spawn(
        path: *const c_char,
        argv: *const *const c_char,
        envp: *const *const c_char,
        cwd: *const c_char,
        out: *mut u8,
        outcap: u64,
        outlen: *mut u64,
        err: *mut u8,
        errcap: u64,
        errlen: *mut u64,
        cpu_s: c_int,
        plan_fd: c_int,
    ) -> c_int;
    pub fn simrt_memfd(n: u64, p: *mut *mut u8) -> c_int;
    pub fn simrt_nguards() -> u32;
    pub fn simrt_arena_begin();
    pub fn simrt_arena_half(h: c_int);
    fn simrt_arena_on() -> c_int;
    fn simrt_arena_has(p: *const u8) -> c_int;
    fn simrt_arena_alloc(n: usize, align: usize, zero: c_int) -> *mut u8;
    fn simrt_arena_free(p: *mut u8, n: usize, align: usize);
    pub fn simrt_reserve(n: u64) -> *mut u8;
    pub fn simrt_shared(n: u64) -> *mut u8;
}

pub struct SimAlloc;

/// bytes in use by the whole process, the harness included
static HELD: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn held(n: i64) {
    HELD.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
}
pub fn live_bytes() -> i64 {
    HELD.load(std::sync::atomic::Ordering::Relaxed)
}
unsafe fn sys_alloc(l: Layout) -> *mut u8 {
    if simrt_arena_on() != 0 {
        simrt_arena_alloc(l.size(), l.align(), 0)
    } else {
        System.alloc(l)
    }
}
unsafe fn sys_free(p: *mut u8, l: Layout) {
    if simrt_arena_has(p) != 0 {
        simrt_arena_free(p, l.size(), l.align())
    } else if simrt_arena_on() == 0 {
        System.dealloc(p, l) // what the parent process allocated stays where it is
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if simrt_on_alloc(l.size() as u64) == 0 {
            return std::ptr::null_mut();
        }
        held(l.size() as i64);
        sys_alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if simrt_on_alloc(l.size() as u64) == 0 {
            return std::ptr::null_mut();
        }
        held(l.size() as i64);
        if simrt_arena_on() != 0 {
            simrt_arena_alloc(l.size(), l.align(), 1)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        simrt_on_free(l.size() as u64);
        held(-(l.size() as i64));
        sys_free(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // accounted as "new block, then free the old one", the worst case of a moving realloc
        if simrt_on_alloc(n as u64) == 0 {
            return std::ptr::null_mut();
        }
        held(n as i64 - l.size() as i64);
        let q = if simrt_arena_on() != 0 {
            let q = sys_alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                sys_free(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        };
        simrt_on_free(l.size() as u64);
        q
    }
}

// ------------------------------------------------------------------ result page
static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn use_shm(p: *mut Shm) {
    unsafe {
        SHM = p;
        simrt_shm_use(p);
    }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|b| *b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
pub fn set_result(status: u32, klass: &str, msg: &str) {
    let s = shm();
    put(&mut s.klass, klass);
    put(&mut s.msg, msg);
    s.status = status;
}

/// every choice is recorded where it survives a crash of the run
pub fn record_choice(v: u64) {
    unsafe {
        if SHM.is_null() {
            return;
        }
        let s = &mut *SHM;
        let n = s.nchoices as usize;
        if n < SHM_CHOICES {
            s.choices[n] = v;
            s.nchoices = n as u32 + 1;
        }
    }
}

// ------------------------------------------------------------------ statistics
macro_rules! stats {
    ($($id:ident => $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum St { $($id),* , _End }
        pub const STAT_NAMES: &[&str] = &[$($name),*];
    };
}
stats! {
    Runs => "runs",
    Events => "events",
    SimNs => "sim_ns",
    Frames => "frames_decoded",
    FramesIntact => "frames_intact",
    DecOk => "decoded_ok",
    DecErr => "decoded_err",
    DecOkDamaged => "damaged_frames_accepted",
    DecErrDamaged => "damaged_frames_rejected",
    BytesIn => "bytes_received",
    FTrunc => "fault.truncate",
    FFlip => "fault.bit_flip",
    FSet => "fault.byte_overwrite",
    FZero => "fault.zeroed_region",
    FOnes => "fault.ones_region",
    FDrop => "fault.lost_segment",
    FDup => "fault.repeated_segment",
    FSwap => "fault.swapped_segments",
    FSplice => "fault.splice_other_message",
    FAppend => "fault.trailing_garbage",
    FLen => "fault.length_word",
    FDisc => "fault.discriminant_word",
    FPres => "fault.presence_word",
    FPad => "fault.padding",
    FUtf => "fault.utf8",
    FNarrow => "fault.narrow_integer",
    FStale => "fault.stale_tail",
    LLoss => "link.loss",
    LDup => "link.duplicate",
    LReorder => "link.reorder_or_delay",
    LPart => "link.partition_drop",
    LDamage => "link.damage",
    LRetrans => "link.retransmission",
    LDeliver => "link.delivered",
    LHeal => "link.healed_runs",
    SChunk => "stream.chunks",
    SEof => "stream.eof_mid_message",
    SEofClean => "stream.eof_at_boundary",
    SShort => "stream.shortfall_reports",
    STrail => "stream.surplus_reports",
    SMsgs => "stream.messages_recovered",
    SCuts => "stream.cut_points_checked",
    CbCalls => "callback.invocations",
    CbFail => "fault.callback_error",
    CbPanic => "fault.callback_panic",
    CbNest => "fault.reentrant_call",
    CbLen => "fault.bad_declared_length",
    Ops => "calls",
    OpsErr => "calls_failed",
    Switches => "schedule.context_switches",
    Blocks => "schedule.futex_blocks",
    Points => "schedule.preemption_points",
    Preempts => "schedule.preemptions_planned",
    Fresh => "fresh_process_references",
    MemPeakMax => "max.peak_bytes_requested",
    HeldMax => "max.bytes_held_after_warm_up",
    MemRatioMax => "max.percent_of_memory_allowance",
    MovedRatioMax => "max.percent_of_copying_allowance",
    StepMax => "max.steps",
    StepRatioMax => "max.percent_of_step_allowance",
    Procs => "processes_run",
    PEintrR => "fault.read_EINTR",
    PShortR => "fault.short_read",
    PEioR => "fault.read_error",
    POpen => "fault.open_error",
    POpenEintr => "fault.open_EINTR",
    PStat => "fault.metadata_error",
    PEintrW => "fault.write_EINTR",
    PShortW => "fault.short_write",
    PErrW => "fault.write_error",
    PZeroW => "fault.write_zero",
    PCapW => "fault.output_capacity_reached",
    PAlloc => "fault.allocation_failed",
    PKill => "fault.process_killed",
    PErrW2 => "fault.stderr_error",
    PDelay => "fault.slow_transfer",
    PRand => "varied.hash_seed_draws",
    PEnv => "varied.environment_reads",
    PClock => "varied.clock_reads",
    PCfgVar => "varied.process_context",
    GenOk => "generations_ok",
    GenErr => "generations_failed",
    ITorn => "fault.file_cut_off",
    IDrop => "fault.file_lost_region",
    IDup => "fault.file_repeated_region",
    IZero => "fault.file_overwritten_region",
    IFlip => "fault.file_bit_flip",
    ISwap => "fault.file_swapped_regions",
    IDefDrop => "fault.file_lost_definition",
    IDefDup => "fault.file_repeated_definition",
    IUtf8 => "fault.file_invalid_utf8",
    IToken => "fault.file_token_damage",
    IKept => "undamaged_definitions_checked",
    RelayHops => "relay.hops",
    RelayMsgs => "relay.messages",
    PeerDamOk => "relay.damaged_accepted",
    PeerDamErr => "relay.damaged_rejected",
    NCrash => "fault.node_crash",
    NTorn => "fault.torn_journal",
    NSwap => "node.implementation_changed",
    Skipped => "skipped",
    ThreadsSum => "schedule.threads",
    Deadlock0 => "schedule.deadlocks",
    KnownHits => "known_finding_hits",
}
pub fn stat(s: St, n: u64) {
    let sh = shm();
    sh.stats[s as usize] += n;
    if n > 0 && (STAT_NAMES[s as usize].starts_with("fault.") || STAT_NAMES[s as usize].starts_with("link.")) {
        sh.pad_ = 1;
    }
}
/// this run exercised something (counted as non-trivial)
pub fn nontrivial() {
    shm().pad_ = 1;
}
/// qualifies the class of a crash, should the next call die
pub fn hint(s: &str) {
    put(&mut shm().msg, s);
}
pub fn stat_max(s: St, n: u64) {
    let p = &mut shm().stats[s as usize];
    if n > *p {
        *p = n;
    }
}

// ------------------------------------------------------------------ scratch files
static mut SCRATCH: Option<String> = None;
pub fn set_scratch(d: String) {
    std::fs::create_dir_all(&d).expect("scratch directory");
    unsafe { SCRATCH = Some(d) }
}
#[allow(static_mut_refs)]
pub fn scratch() -> String {
    unsafe { SCRATCH.clone() }.expect("scratch directory")
}

// ------------------------------------------------------------------ event log
thread_local! {
    static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
pub fn trace_on() {
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::new()));
}
pub fn tracing() -> bool {
    TRACE.with(|t| t.borrow().is_some())
}
pub fn log_line(s: String) {
    let sh = shm();
    let n = s.len().min(SHM_TRACE - 2 - sh.tracelen as usize);
    let o = sh.tracelen as usize;
    sh.trace[o..o + n].copy_from_slice(&s.as_bytes()[..n]);
    sh.trace[o + n] = b'\n';
    sh.tracelen += n as u32 + 1;
    if sh.tracelen as usize > SHM_TRACE - 8 {
        TRACE.with(|t| *t.borrow_mut() = None);
    }
}
/// every event enters the digest; its text is only built while tracing
pub fn event(h: u64) {
    let s = shm();
    s.digest = crate::choice::mix(s.digest ^ h);
    s.stats[St::Events as usize] += 1;
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { if $crate::rt::tracing() {
        unsafe { $crate::rt::simrt_arena_half(1) };
        $crate::rt::log_line(format!($($a)*));
        unsafe { $crate::rt::simrt_arena_half(0) };
    } };
}

// ------------------------------------------------------------------ guards around the code under test
pub struct Armed(());
impl Armed {
    pub fn new() -> Armed {
        unsafe { simrt_arm() };
        Armed(())
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        unsafe { simrt_disarm() }
    }
}
/// harness code running inside a callback: not counted, not preempted
pub struct Paused(c_int);
impl Paused {
    pub fn new() -> Paused {
        let mut s = 0;
        unsafe { simrt_pause(&mut s) };
        Paused(s)
    }
}
impl Drop for Paused {
    fn drop(&mut self) {
        unsafe { simrt_resume(self.0) }
    }
}

pub struct InjectedPanic(pub u64);

pub enum Caught {
    Injected(u64),
    Foreign(String),
}
/// run the code under test; a panic comes back as a value
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _a = Armed::new();
        f()
    }));
    r.map_err(|p| {
        if let Some(i) = p.downcast_ref::<InjectedPanic>() {
            Caught::Injected(i.0)
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Caught::Foreign(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            Caught::Foreign(s.clone())
        } else {
            Caught::Foreign("?".into())
        }
    })
}

pub fn mem_begin(budget: i64) {
    unsafe { simrt_mem_begin(budget) }
}
pub fn mem_end() -> i64 {
    unsafe {
        let p = simrt_mem_peak();
        simrt_mem_end();
        p
    }
}
/// bytes requested, or copied a kilobyte or more at once, since `mem_begin`
pub fn moved() -> u64 {
    unsafe { simrt_moved() }
}
pub fn steps_begin(limit: u64) {
    unsafe { simrt_steps_begin(limit) }
}
pub fn steps_end() -> u64 {
    unsafe {
        let s = simrt_steps();
        simrt_steps_end();
        s
    }
}
pub fn sim_begin(seed: u64) {
    unsafe { simrt_sim_begin(seed) }
}
pub fn sim_end() {
    unsafe { simrt_sim_end() }
}
pub fn yield_point() {
    unsafe { simrt_yield() }
}
pub fn solo<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { simrt_solo_end() }
        }
    }
    unsafe { simrt_solo_begin() };
    let _g = G;
    f()
}
pub fn points() -> u64 {
    unsafe { simrt_points() }
}

/// Run the bodies as threads, one released at a time; `pre` is the preemption plan.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, first: usize, pre: &[(u64, u32)]) -> u64 {
    let n = bodies.len();
    unsafe {
        simrt_sched_init(n as c_int);
        for (g, p) in pre {
            simrt_sched_pre(*g, *p);
        }
    }
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                unsafe { simrt_thread_enter(i as c_int) };
                b();
                unsafe { simrt_thread_exit() };
            })
            .expect("thread");
        unsafe { simrt_wait_parked(i as c_int) };
        hs.push(h);
    }
    unsafe { simrt_sched_run(first as c_int) };
    for (i, h) in hs.into_iter().enumerate() {
        unsafe { simrt_thread_release(i as c_int) };
        let _ = h.join();
    }
    unsafe {
        stat(St::Switches, simrt_switches());
        stat(St::Blocks, simrt_blocks());
        simrt_sched_hash()
    }
}

// ------------------------------------------------------------------ processes
pub fn no_aslr() {
    use std::ffi::CString;
    let args: Vec<CString> = std::env::args().map(|a| CString::new(a).unwrap()).collect();
    let mut p: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
    p.push(std::ptr::null());
    unsafe { simrt_no_aslr(p.as_ptr()) };
}

pub struct Proc {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
pub fn spawn(path: &str, args: &[String], env: &[(String, String)], cwd: &str, cpu_s: i32, plan_fd: i32) -> Proc {
    use std::ffi::CString;
    let cs = |s: &str| CString::new(s.replace('\0', "?")).unwrap();
    let name = env.iter().find(|e| e.0 == "@arg0").map_or(path, |e| &e.1);
    let mut av: Vec<CString> = vec![cs(name)];
    av.extend(args.iter().map(|a| cs(a)));
    let ev: Vec<CString> = env.iter().filter(|e| e.0 != "@arg0").map(|(k, v)| cs(&format!("{k}={v}"))).collect();
    let mut ap: Vec<*const c_char> = av.iter().map(|a| a.as_ptr()).collect();
    ap.push(std::ptr::null());
    let mut ep: Vec<*const c_char> = ev.iter().map(|a| a.as_ptr()).collect();
    ep.push(std::ptr::null());
    let p = cs(path);
    let c = cs(cwd);
    let mut out = vec![0u8; 4 << 20];
    let mut err = vec![0u8; 1 << 16];
    let (mut ol, mut el) = (0u64, 0u64);
    let code = unsafe {
        simrt_spawn(
            p.as_ptr(),
            ap.as_ptr(),
            ep.as_ptr(),
            c.as_ptr(),
            out.as_mut_ptr(),
            out.len() as u64,
            &mut ol,
            err.as_mut_ptr(),
            err.len() as u64,
            &mut el,
            cpu_s,
            plan_fd,
        )
    };
    out.truncate(ol as usize);
    err.truncate(el as usize);
    Proc { code, out, err }
}
