//! FFI to the C runtime, the shared result area and the per-run context (draws, phases, verdicts).
#![allow(dead_code)]
use std::cell::UnsafeCell;
use std::os::raw::c_char;

pub const OP_OPENR: u64 = 0;
pub const OP_OPENW: u64 = 1;
pub const OP_WRITE: u64 = 2;
pub const OP_READ: u64 = 3;
pub const OP_STAT: u64 = 4;
pub const OP_MMAP: u64 = 5;
pub const OP_CLOSE: u64 = 6;
pub const OP_NAMES: [&str; 11] = [
    "open_read", "open_write", "write", "read", "stat", "mmap", "close", "seek", "truncate", "sync", "meta",
];
pub const MUT_WRITE: i32 = 3;
pub const ZERO: u64 = 0x7fff_ffff_ffff;
pub const EINTR: u64 = 4;
pub const EIO: u64 = 5;
pub const ENOSPC: u64 = 28;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Override {
    pub step: u64,
    pub what: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Fault {
    pub op: u64,
    pub nth: u64,
    pub count: u64,
    pub err: u64,
    pub arg: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Config {
    pub sched_seed: u64,
    pub strategy: u64,
    pub gap: u64,
    pub pct_depth: u64,
    pub pct_len: u64,
    pub cpus: u64,
    pub rnd_seed: u64,
    pub max_steps: u64,
    pub fair_after: u64,
}
pub const MAX_OV: usize = 400_000;
#[repr(C)]
pub struct SimShared {
    pub end_code: u64,
    pub end_msg: [u8; 256],
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub state_hash: u64,
    pub sim_ns: u64,
    pub timer_fires: u64,
    pub getrandom_calls: u64,
    pub io: [u64; 16],
    pub f_err: [u64; 16],
    pub fired: [u64; 64],
    pub fired_total: u64,
    pub f_eintr: u64,
    pub f_short: u64,
    pub f_enospc: u64,
    pub bytes_written: u64,
    pub mmaps: u64,
    pub mem_refused: u64,
    pub mem_refuse_size: u64,
    pub n_ov: u64,
    pub ov_overflow: u64,
    pub ov: [Override; MAX_OV],
}
pub const MAX_CHOICES: usize = 60_000;
pub const MAX_PROBES: usize = 160;
#[repr(C)]
pub struct HShared {
    pub verdict: u64, // 0 running, 1 ok, 2 violation, 3 harness error
    pub class: [u8; 96],
    pub msg: [u8; 4000],
    pub phase: [u8; 200],
    pub desc: [u8; 1500],
    pub panic_msg: [u8; 1000],
    pub n_known: u64,
    pub known: [u8; 2000],
    pub n_probes: u64,
    pub probe_names: [[u8; 56]; MAX_PROBES],
    pub probes: [u64; MAX_PROBES],
    pub evals: u64,
    pub n_choices: u64,
    pub choices: [u64; MAX_CHOICES],
}
#[repr(C)]
pub struct Shared {
    pub s: SimShared,
    pub h: HShared,
}

unsafe extern "C" {
    pub fn sim_begin(c: *const Config, sh: *mut SimShared, ov: *const Override, n: u64);
    pub fn sim_end();
    pub fn sim_steps() -> u64;
    pub fn sim_thread_id() -> i32;
    pub fn sim_in() -> i32;
    pub fn sim_set_cpus(n: i32);
    pub fn sim_yield();
    pub fn sim_point();
    pub fn sim_choose(n: u64) -> u64;
    pub fn sim_fs_put(p: *const c_char, d: *const u8, n: u64) -> i32;
    pub fn sim_fs_size(p: *const c_char) -> i64;
    pub fn sim_fs_get(p: *const c_char, off: u64, d: *mut u8, n: u64) -> i64;
    pub fn sim_fs_del(p: *const c_char) -> i32;
    pub fn sim_fs_list(i: i32, out: *mut c_char, cap: i32) -> i32;
    pub fn sim_fs_truncate(p: *const c_char, n: u64);
    pub fn sim_open_fds() -> i32;
    pub fn sim_fs_capacity(c: u64);
    pub fn sim_fs_used() -> u64;
    pub fn sim_fs_chunks(wr: u64, rd: u64);
    pub fn sim_faults_clear();
    pub fn sim_fault_add(f: *const Fault) -> i32;
    pub fn sim_io_count(op: i32) -> u64;
    pub fn sim_log(on: i32);
    pub fn sim_log_len() -> u64;
    pub fn sim_log_get(i: u64, off: *mut u64, len: *mut u64, path: *mut c_char, cap: i32) -> i32;
    pub fn sim_log_image(path: *const c_char, base: *const u8, nbase: i64, k: u64, torn: u64, out: *mut u8, cap: u64) -> i64;
    pub fn sim_alloc(n: usize, al: usize, zero: i32) -> *mut u8;
    pub fn sim_free(p: *mut u8, n: usize);
    pub fn sim_mem_cap(extra: i64);
    pub fn sim_mem_live() -> i64;
    pub fn sim_mem_peak() -> i64;
    pub fn sim_mem_reset_peak();
    pub fn sim_mem_refused() -> u64;
    pub fn sim_mem_on_refuse(cb: extern "C" fn(u64));
}

// ------------------------------------------------------------------ allocator
pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { sim_alloc(l.size(), l.align(), 0) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { sim_alloc(l.size(), l.align(), 1) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { sim_free(p, l.size()) }
    }
}

// ------------------------------------------------------------------ shared area
pub struct G(UnsafeCell<*mut Shared>);
unsafe impl Sync for G {}
pub static SHARED: G = G(UnsafeCell::new(std::ptr::null_mut()));
pub fn shared() -> &'static mut Shared {
    unsafe { &mut **SHARED.0.get() }
}
pub fn map_shared() {
    unsafe {
        let n = std::mem::size_of::<Shared>();
        let p = libc::mmap(
            std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0,
        );
        assert!(p != libc::MAP_FAILED);
        *SHARED.0.get() = p as *mut Shared;
    }
}
pub fn put(buf: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let mut n = b.len().min(buf.len() - 1);
    while n > 0 && !s.is_char_boundary(n) {
        n -= 1;
    }
    buf[..n].copy_from_slice(&b[..n]);
    buf[n] = 0;
}
pub fn get(buf: &[u8]) -> String {
    let n = buf.iter().position(|&c| c == 0).unwrap_or(buf.len());
    String::from_utf8_lossy(&buf[..n]).into_owned()
}
pub fn reset_shared() {
    let sh = shared();
    // Clear everything but the bulk arrays.
    unsafe {
        let p = sh as *mut Shared as *mut u8;
        let ov = std::mem::offset_of!(Shared, s) + std::mem::offset_of!(SimShared, ov);
        std::ptr::write_bytes(p, 0, ov);
        let h = std::mem::offset_of!(Shared, h);
        std::ptr::write_bytes(p.add(h), 0, std::mem::offset_of!(HShared, choices));
    }
}

// ------------------------------------------------------------------ run context
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick_usize(&mut self, xs: &[usize]) -> usize {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// Source of workload and fault decisions: a recorded choice sequence.
pub struct Ctx {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub thorough: bool,
    pub seed: u64,
}
impl Ctx {
    pub fn new(seed: u64, replay: Option<Vec<u64>>, thorough: bool) -> Self {
        Ctx { rng: Rng(mix(seed ^ 0xC0FF_EE00)), replay, pos: 0, thorough, seed }
    }
    /// Draw in lo..=hi; simpler values are nearer to lo.
    pub fn draw(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        let span = hi - lo;
        let off = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(span),
            None => {
                if span == u64::MAX { self.rng.next() } else { self.rng.below(span + 1) }
            }
        };
        let h = &mut shared().h;
        if self.pos < MAX_CHOICES {
            h.choices[self.pos] = off;
            h.n_choices = self.pos as u64 + 1;
        } else {
            harness_error("too many choices");
        }
        self.pos += 1;
        lo + off
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // "true" is the rarer/more complex outcome and has a non-zero code, so shrinking removes it
        self.draw(0, den - 1) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(0, xs.len() as u64 - 1) as usize]
    }
    /// A size with a heavy-tailed distribution up to max.
    pub fn size(&mut self, max: u64) -> u64 {
        let mut cls = vec![0u64, 1, 3, 8, 40, 200, 1000, 5000, 20000, 100_000, 1_000_000];
        cls.retain(|&c| c < max);
        cls.push(max);
        let i = self.draw(0, cls.len() as u64 - 1) as usize;
        let lo = if i == 0 { 0 } else { cls[i - 1] };
        self.draw(lo.min(cls[i]), cls[i])
    }
}

pub fn harness_error(msg: &str) -> ! {
    let h = &mut shared().h;
    put(&mut h.class, "harness-error");
    put(&mut h.msg, msg);
    h.verdict = 3;
    unsafe { libc::_exit(78) }
}
/// Reports a violation and ends the run.
pub fn violation(class: &str, msg: &str) -> ! {
    let sh = shared();
    put(&mut sh.h.class, class);
    put(&mut sh.h.msg, msg);
    sh.h.verdict = 2;
    sh.s.steps = unsafe { sim_steps() };
    unsafe { libc::_exit(79) }
}
#[macro_export]
macro_rules! viol {
    ($class:expr, $($a:tt)*) => { $crate::sim::violation($class, &format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { $crate::sim::violation($class, &format!($($a)*)) } };
}
/// Notes a listed known finding (the run goes on).
pub fn known(id: &str) {
    let h = &mut shared().h;
    h.n_known += 1;
    let cur = get(&h.known);
    if !cur.split('\n').any(|l| l == id) {
        let s = if cur.is_empty() { id.to_string() } else { format!("{cur}\n{id}") };
        put(&mut h.known, &s);
    }
}
pub fn phase(s: &str) {
    put(&mut shared().h.phase, s);
}
pub fn desc(s: &str) {
    let h = &mut shared().h;
    let cur = get(&h.desc);
    let t = if cur.is_empty() { s.to_string() } else { format!("{cur}; {s}") };
    put(&mut h.desc, &t);
}
pub fn probe(name: &str) {
    probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
    let h = &mut shared().h;
    for i in 0..h.n_probes as usize {
        if get(&h.probe_names[i]) == name {
            h.probes[i] += n;
            return;
        }
    }
    let i = h.n_probes as usize;
    if i < MAX_PROBES {
        put(&mut h.probe_names[i], name);
        h.probes[i] = n;
        h.n_probes += 1;
    }
}
/// Counts one oracle evaluation.
pub fn eval1() {
    shared().h.evals += 1;
}

// ------------------------------------------------------------------ file helpers
pub fn cpath(p: &str) -> std::ffi::CString {
    std::ffi::CString::new(p).unwrap()
}
pub fn fs_get(p: &str) -> Option<Vec<u8>> {
    let c = cpath(p);
    unsafe {
        let n = sim_fs_size(c.as_ptr());
        if n < 0 {
            return None;
        }
        let mut v = vec![0u8; n as usize];
        sim_fs_get(c.as_ptr(), 0, v.as_mut_ptr(), n as u64);
        Some(v)
    }
}
pub fn fs_put(p: &str, d: &[u8]) {
    let c = cpath(p);
    unsafe {
        sim_fs_put(c.as_ptr(), d.as_ptr(), d.len() as u64);
    }
}
pub fn fs_del(p: &str) {
    let c = cpath(p);
    unsafe {
        sim_fs_del(c.as_ptr());
    }
}
pub fn fs_size(p: &str) -> i64 {
    let c = cpath(p);
    unsafe { sim_fs_size(c.as_ptr()) }
}
pub fn fs_list() -> Vec<String> {
    let mut v = Vec::new();
    let mut i = 0;
    loop {
        let mut b = [0u8; 256];
        if unsafe { sim_fs_list(i, b.as_mut_ptr() as *mut c_char, 256) } < 0 {
            return v;
        }
        v.push(get(&b));
        i += 1;
    }
}
pub fn fault(op: u64, nth: u64, count: u64, err: u64, arg: u64) {
    unsafe {
        sim_fault_add(&Fault { op, nth, count, err, arg });
    }
}
pub fn faults_clear() {
    unsafe { sim_faults_clear() }
}
pub fn io_count(op: u64) -> u64 {
    unsafe { sim_io_count(op as i32) }
}
pub fn log_on() {
    unsafe { sim_log(1) }
}
pub fn log_off() {
    unsafe { sim_log(0) }
}
pub struct Mutation {
    pub op: i32,
    pub off: u64,
    pub len: u64,
    pub path: String,
}
pub fn log_list() -> Vec<Mutation> {
    unsafe {
        (0..sim_log_len())
            .map(|i| {
                let (mut off, mut len, mut b) = (0u64, 0u64, [0u8; 256]);
                let op = sim_log_get(i, &mut off, &mut len, b.as_mut_ptr() as *mut c_char, 256);
                Mutation { op, off, len, path: get(&b) }
            })
            .collect()
    }
}
/// Content of `path` after the first k logged mutations and `torn` bytes of the next one.
pub fn log_image(path: &str, base: Option<&[u8]>, k: u64, torn: u64, cap: usize) -> Option<Vec<u8>> {
    let c = cpath(path);
    let mut out = vec![0u8; cap + 16];
    let r = unsafe {
        sim_log_image(
            c.as_ptr(),
            base.map_or(std::ptr::null(), |b| b.as_ptr()),
            base.map_or(-1, |b| b.len() as i64),
            k, torn, out.as_mut_ptr(), cap as u64,
        )
    };
    if r < 0 {
        return None;
    }
    out.truncate(r as usize);
    Some(out)
}

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let (mut out, mut f) = (None, Some(f));
    catch_dyn(&mut || out = f.take().map(|f| f()))?;
    Ok(out.expect("ran"))
}
fn catch_dyn(f: &mut dyn FnMut()) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".to_string()
            };
            Err(format!("{m} [{}]", get(&shared().h.panic_msg)))
        }
    }
}

// ------------------------------------------------------------------ known finding in a dependency
static KNOWN_PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const BINCODE_LENGTH: &str = "bincode-string-length";
/// True if the allocation or panic being handled was requested by bincode's decoder of owned strings and
/// byte buffers, which allocates the stored length before it looks at the data.
fn in_bincode_length() -> bool {
    // The first frame outside the standard library and this file decides. (Frames of inlined functions
    // have short names, so the source file is the reliable part.)
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut name = String::new();
    for l in bt.lines() {
        let t = l.trim();
        if let Some(file) = t.strip_prefix("at ") {
            let skip = ["/library/std/", "/library/core/", "/library/alloc/", "src/sim.rs", "src/orch.rs"];
            if !skip.iter().any(|s| file.contains(s)) {
                return file.contains("/bincode-") && file.contains("impl_alloc.rs") && name.contains("decode");
            }
        } else if let Some((n, f)) = t.split_once(": ")
            && n.parse::<u32>().is_ok()
        {
            name = f.to_string();
        }
    }
    false
}
pub extern "C" fn on_refused(_n: u64) {
    if in_bincode_length() {
        known(BINCODE_LENGTH);
        // the real process would abort here; the run ends with the finding noted
        let sh = shared();
        sh.s.steps = unsafe { sim_steps() };
        sh.h.verdict = 1;
        unsafe { libc::_exit(0) }
    }
}
pub fn on_panic(msg: &str) {
    if msg.contains("capacity overflow") && in_bincode_length() {
        known(BINCODE_LENGTH);
        KNOWN_PANIC.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
/// Was the panic just caught the listed one?
pub fn take_known_panic() -> bool {
    KNOWN_PANIC.swap(false, std::sync::atomic::Ordering::SeqCst)
}
