//! C04, C05, C07, C08, C17: destination errors, transient conditions, crashes, histories, read-side failures.
use super::common::*;
use super::tree::*;
use crate::model::*;
use crate::reff;
use crate::sim::*;
use crate::{dispatch, ensure, viol};
use parcode::{Parcode, ParcodeError};
use std::io::{self, ErrorKind, Write};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ what is saved
pub trait Subject: Sync {
    fn name(&self) -> String;
    fn write<W: Write + Send>(&self, w: W, comp: bool, sync: bool) -> Result<(), ParcodeError>;
    fn save(&self, path: &str, comp: bool, sync: bool) -> Result<(), ParcodeError>;
    /// does `bytes` hold exactly this value?
    fn verify(&self, bytes: &[u8], comp: bool) -> Result<(), String>;
}
pub struct Val<T>(pub T);
impl<T: Model> Subject for Val<T> {
    fn name(&self) -> String {
        T::NAME.into()
    }
    fn write<W: Write + Send>(&self, w: W, comp: bool, sync: bool) -> Result<(), ParcodeError> {
        let b = Parcode::builder().compression(comp);
        if sync { b.write_sync(w, &self.0) } else { b.write(w, &self.0) }
    }
    fn save(&self, path: &str, comp: bool, sync: bool) -> Result<(), ParcodeError> {
        let b = Parcode::builder().compression(comp);
        if sync { b.save_sync(path, &self.0) } else { b.save(path, &self.0) }
    }
    fn verify(&self, bytes: &[u8], _comp: bool) -> Result<(), String> {
        reff::parse(bytes)?;
        match catch(|| Parcode::load_bytes::<T>(bytes.to_vec())) {
            Ok(Ok(x)) if x == self.0 => Ok(()),
            Ok(Ok(x)) => Err(format!("loads as another value: {}", self.0.diff(&x))),
            Ok(Err(e)) => Err(format!("does not load: {e}")),
            Err(m) => Err(format!("loading panics: {m}")),
        }
    }
}
impl Subject for JNode {
    fn name(&self) -> String {
        format!("tree of {}", self.count())
    }
    fn write<W: Write + Send>(&self, w: W, comp: bool, sync: bool) -> Result<(), ParcodeError> {
        let b = Parcode::builder().compression(comp);
        if sync { b.write_sync(w, self) } else { b.write(w, self) }
    }
    fn save(&self, path: &str, comp: bool, sync: bool) -> Result<(), ParcodeError> {
        let b = Parcode::builder().compression(comp);
        if sync { b.save_sync(path, self) } else { b.save(path, self) }
    }
    fn verify(&self, bytes: &[u8], comp: bool) -> Result<(), String> {
        self.check(&reff::parse(bytes)?, comp, HAS_LZ4)
    }
}

// ------------------------------------------------------------------ a client-defined destination
#[derive(Default, Clone, Debug)]
pub struct DevPlan {
    pub buffering: bool,                   // keeps bytes until flushed
    pub short: u64,                        // at most this many bytes per write (0: no limit)
    pub interrupt: u64,                    // every n-th write call is interrupted (0: never)
    pub fail_write: Option<(u64, u64)>,    // call number, count
    pub fail_after: Option<u64>,           // bytes accepted before every further write fails
    pub zero_at: Option<u64>,              // from this call on, accepts nothing
    pub fail_flush: Option<(u64, u64)>,    // flush number, count
    pub kind: u8,
}
#[derive(Default)]
pub struct DevState {
    pub done: Vec<u8>,
    pub held: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub fired: u64,
    pub transient: u64,
    accepted: u64,
}
#[derive(Clone)]
pub struct Dev {
    pub st: Arc<Mutex<DevState>>,
    pub plan: DevPlan,
}
impl Dev {
    pub fn new(plan: DevPlan) -> Dev {
        Dev { st: Default::default(), plan }
    }
    fn err(&self) -> io::Error {
        match self.plan.kind {
            0 => io::Error::other("device failed"),
            1 => io::Error::from_raw_os_error(28),
            2 => io::Error::new(ErrorKind::BrokenPipe, "gone"),
            3 => io::Error::new(ErrorKind::WouldBlock, "not now"),
            4 => io::Error::new(ErrorKind::TimedOut, "too slow"),
            _ => io::Error::new(ErrorKind::WriteZero, "no room"),
        }
    }
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.st.lock().unwrap();
        let k = s.writes;
        s.writes += 1;
        let p = &self.plan;
        if p.interrupt > 0 && k % p.interrupt == p.interrupt - 1 {
            s.transient += 1;
            probe("fault.dev_interrupted");
            return Err(io::Error::from_raw_os_error(4));
        }
        if p.fail_write.is_some_and(|(n, c)| k >= n && k < n + c) {
            s.fired += 1;
            probe("fault.dev_write_error");
            return Err(self.err());
        }
        if p.zero_at.is_some_and(|n| k >= n) && !b.is_empty() {
            s.fired += 1;
            probe("fault.dev_write_zero");
            return Ok(0);
        }
        let mut n = b.len();
        if p.short > 0 && n as u64 > p.short {
            n = p.short as usize;
            s.transient += 1;
            probe("fault.dev_short_write");
        }
        if let Some(lim) = p.fail_after {
            let room = lim.saturating_sub(s.accepted) as usize;
            if room == 0 && n > 0 {
                s.fired += 1;
                probe("fault.dev_full");
                return Err(self.err());
            }
            n = n.min(room);
        }
        s.accepted += n as u64;
        if p.buffering { s.held.extend_from_slice(&b[..n]) } else { s.done.extend_from_slice(&b[..n]) }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.lock().unwrap();
        let k = s.flushes;
        s.flushes += 1;
        if self.plan.fail_flush.is_some_and(|(n, c)| k >= n && k < n + c) {
            s.fired += 1;
            probe("fault.dev_flush_error");
            return Err(self.err());
        }
        let h = std::mem::take(&mut s.held);
        s.done.extend_from_slice(&h);
        Ok(())
    }
}

/// Draws a subject and passes it on.
macro_rules! with_subject {
    ($ctx:ident, $f:ident, $scale:expr, $big:expr) => {{
        if $ctx.chance(1, 3) {
            let big = $big && $ctx.chance(1, 9);
            let n = $ctx.draw(1, if big { 12 } else { 60 }) as usize;
            let seed = $ctx.draw(0, 1 << 32);
            let max = if big { 6 << 20 } else { $ctx.pick(&[20u64, 400, 9000]) };
            let log = Arc::new(JLog::default());
            let mut t = g_tree(&mut Rng(seed), n, max, &log);
            if big && $ctx.chance(1, 2) {
                // one chunk larger than the write buffer, among small ones
                let (id, len) = ($ctx.draw(0, n as u64 - 1) as u32, $ctx.draw((16 << 20) - 40, 18 << 20) as u32);
                t.each(&mut |x| x.len = if x.id == id { len } else { x.len % 3000 });
                probe("chunk_over_buffer");
            }
            if big { probe("output_over_buffer") }
            $f($ctx, &t)
        } else {
            let kind = $ctx.draw(0, N_KINDS - 1);
            let n = draw_size($ctx, kind, $scale);
            let seed = $ctx.draw(0, 1 << 32);
            fn go<T: Model>(ctx: &mut Ctx, n: usize, seed: u64) {
                $f(ctx, &Val(T::make(&mut Rng(seed), n)))
            }
            dispatch!(kind, go, $ctx, n, seed)
        }
    }};
}
fn fired() -> u64 {
    shared().s.fired_total + shared().s.f_enospc
}
const ERRS: [u64; 6] = [EIO, ENOSPC, 122 /* EDQUOT */, 27 /* EFBIG */, 1 /* EPERM */, 32 /* EPIPE */];

/// Undisturbed serial output: reference and size estimate.
fn baseline<S: Subject>(s: &S, comp: bool) -> Vec<u8> {
    let mut b = Vec::new();
    match nopanic("baseline write", catch(|| s.write(&mut b, comp, true))) {
        Ok(()) => b,
        Err(e) => viol!("write-failed", "writing {} to memory failed: {e}", s.name()),
    }
}

// ------------------------------------------------------------------ C04
pub fn c04(ctx: &mut Ctx) {
    with_subject!(ctx, c04_s, 40, true)
}
fn c04_s<S: Subject>(ctx: &mut Ctx, s: &S) {
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    set_cpus(draw_cpus(ctx));
    phase("baseline");
    let base = baseline(s, comp);
    let len = base.len() as u64;
    let rounds = ctx.draw(1, 3);
    for _ in 0..rounds {
        let sync = ctx.chance(1, 4);
        let place = draw_place(ctx);
        let f0 = fired();
        let short = match ctx.draw(0, 3) {
            0 => 0,
            1 => (len / 3).max(1),
            2 => (len / 20).max(1),
            _ => (len / 60).max(7),
        };
        let calls = if short == 0 { 1 + len / (16 << 20) } else { len.div_ceil(short) };
        if ctx.chance(1, 2) {
            // a file
            let path = "/simfs/d.par";
            faults_clear();
            unsafe { sim_fs_chunks(short, 0) };
            let mode = ctx.draw(0, 6);
            let nth = ctx.draw(0, calls);
            let err = ctx.pick(&ERRS);
            match mode {
                0 => {}
                1 => fault(OP_OPENW, 0, 1, err, 0),
                2 => fault(OP_WRITE, nth, 1, err, 0),
                3 => fault(OP_WRITE, nth, 1 << 40, err, 0),
                4 => fault(OP_WRITE, nth, 1 << 40, 0, ZERO),
                _ => {
                    let old = fs_size(path).max(0) as u64;
                    let cap = unsafe { sim_fs_used() } - old + ctx.draw(0, len + len / 8);
                    unsafe { sim_fs_capacity(cap.max(1)) };
                }
            }
            desc(&format!("{} {len} bytes to file sync={sync} comp={comp} {place:?} mode={mode} nth={nth}/{calls} err={err} short={short}", s.name()));
            phase("save");
            let r = nopanic("save", catch(|| at(place, || s.save(path, comp, sync))));
            let f = fired() - f0;
            faults_clear();
            unsafe { sim_fs_capacity(0) };
            phase("judge");
            eval1();
            match r {
                Ok(()) => {
                    let got = fs_get(path).unwrap_or_default();
                    if let Err(e) = s.verify(&got, comp) {
                        viol!("success-but-incomplete", "save returned success, {} of about {len} bytes are on disk ({f} faults): {e}", got.len());
                    }
                }
                Err(e) => ensure!(f > 0, "failed-without-fault", "save of {} failed though nothing went wrong: {e}", s.name()),
            }
            phase("again");
            let r = nopanic("save", catch(|| at(place, || s.save(path, comp, sync))));
            unsafe { sim_fs_chunks(0, 0) };
            if let Err(e) = r {
                viol!("failed-without-fault", "save after the fault was gone failed: {e}");
            }
            if let Err(e) = s.verify(&fs_get(path).unwrap_or_default(), comp) {
                viol!("success-but-incomplete", "save after the fault was gone: {e}");
            }
        } else {
            let mut p = DevPlan { buffering: ctx.chance(1, 3), short, kind: ctx.draw(0, 5) as u8, ..Default::default() };
            if ctx.chance(1, 4) {
                p.interrupt = ctx.draw(2, 5);
            }
            let nth = ctx.draw(0, calls);
            match ctx.draw(0, 6) {
                0 => {}
                1 => p.fail_write = Some((nth, 1)),
                2 => p.fail_write = Some((nth, 1 << 40)),
                3 => p.zero_at = Some(nth),
                4 => p.fail_after = Some(ctx.draw(0, len + len / 8)),
                5 => p.fail_flush = Some((0, 1)),
                _ => p.fail_flush = Some((ctx.draw(0, 1), 1 << 40)),
            }
            desc(&format!("{} {len} bytes to device sync={sync} comp={comp} {place:?} {p:?}", s.name()));
            let d = Dev::new(p);
            let w = d.clone();
            phase("write");
            let r = nopanic("write", catch(|| at(place, || s.write(w, comp, sync))));
            phase("judge");
            eval1();
            let st = d.st.lock().unwrap();
            match r {
                Ok(()) => {
                    if let Err(e) = s.verify(&st.done, comp) {
                        viol!("success-but-incomplete", "write returned success, the device holds {} of about {len} bytes ({} faults, {} unflushed): {e}", st.done.len(), st.fired, st.held.len());
                    }
                }
                Err(e) => ensure!(st.fired > 0, "failed-without-fault", "write of {} failed though nothing went wrong: {e}", s.name()),
            }
        }
    }
}

// ------------------------------------------------------------------ C05
pub fn c05(ctx: &mut Ctx) {
    with_subject!(ctx, c05_s, 40, true)
}
fn same_output(base: &[u8], got: &[u8], sync: bool) -> Result<(), String> {
    if sync && base != got {
        let i = base.iter().zip(got).position(|(a, b)| a != b).unwrap_or(base.len().min(got.len()));
        return Err(format!("{} bytes instead of {}, first difference at {i}", got.len(), base.len()));
    }
    let a = reff::parse(base)?;
    let b = reff::parse(got)?;
    a.same(&b)
}
fn c05_s<S: Subject>(ctx: &mut Ctx, s: &S) {
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    set_cpus(draw_cpus(ctx));
    phase("baseline");
    let base = baseline(s, comp);
    let len = base.len() as u64;
    let rounds = ctx.draw(1, 3);
    for _ in 0..rounds {
        let sync = ctx.chance(1, 3);
        let place = draw_place(ctx);
        let parts = ctx.pick(&[1u64, 2, 7, 40, 150]);
        let short = (len / parts).max(1);
        let calls = len.div_ceil(short);
        let got = if ctx.chance(2, 3) {
            let path = "/simfs/t.par";
            faults_clear();
            unsafe { sim_fs_chunks(short, 0) };
            let k = ctx.draw(0, 5);
            for _ in 0..k {
                let op = ctx.pick(&[OP_WRITE, OP_WRITE, OP_WRITE, OP_OPENW]);
                let nth = if op == OP_WRITE { ctx.draw(0, calls) } else { 0 };
                let cnt = ctx.draw(1, 3);
                if ctx.chance(1, 3) && op == OP_WRITE {
                    fault(op, nth, cnt, 0, ctx.draw(1, 9));
                } else {
                    fault(op, nth, cnt, EINTR, 0);
                }
            }
            desc(&format!("{} {len} bytes, file sync={sync} comp={comp} {place:?} pieces of {short}, {k} interruptions", s.name()));
            phase("save");
            let r = nopanic("save", catch(|| at(place, || s.save(path, comp, sync))));
            faults_clear();
            unsafe { sim_fs_chunks(0, 0) };
            if let Err(e) = r {
                viol!("transient-failure", "an interrupted or short write made the save fail: {e}");
            }
            fs_get(path).unwrap_or_default()
        } else {
            let p = DevPlan { short, interrupt: ctx.draw(2, 4), buffering: ctx.chance(1, 3), ..Default::default() };
            desc(&format!("{} {len} bytes, device sync={sync} comp={comp} {place:?} {p:?}", s.name()));
            let d = Dev::new(p);
            let w = d.clone();
            phase("write");
            if let Err(e) = nopanic("write", catch(|| at(place, || s.write(w, comp, sync)))) {
                viol!("transient-failure", "an interrupted or short write made the write fail: {e}");
            }
            let st = d.st.lock().unwrap();
            st.done.clone()
        };
        phase("compare");
        eval1();
        if let Err(e) = same_output(&base, &got, sync) {
            viol!("output-differs", "with interrupted or short writes the output differs: {e}");
        }
    }
}
/// The reading half of C05.
pub fn c05_read(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c05_read_t, ctx, kind)
}
fn c05_read_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, 40);
    let seed = ctx.draw(0, 1 << 32);
    let s = Val(T::make(&mut Rng(seed), n));
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let base = baseline(&s, comp);
    let path = "/simfs/r.par";
    fs_put(path, &base);
    for _ in 0..ctx.draw(1, 3) {
        faults_clear();
        let parts = ctx.pick(&[1u64, 2, 7, 60, 300]);
        unsafe { sim_fs_chunks(0, (base.len() as u64 / parts).max(1)) };
        for _ in 0..ctx.draw(0, 6) {
            let op = ctx.pick(&[OP_READ, OP_READ, OP_READ, OP_OPENR]);
            let nth = if op == OP_READ { ctx.draw(0, parts) } else { 0 };
            let c = ctx.draw(1, 3);
            if op == OP_READ && ctx.chance(1, 3) {
                fault(op, nth, c, 0, ctx.draw(1, 40));
            } else {
                fault(op, nth, c, EINTR, 0);
            }
        }
        let place = draw_place(ctx);
        let way = ctx.draw(0, 2);
        desc(&format!("{} {} bytes in {parts} parts {place:?} way={way}", T::NAME, base.len()));
        phase("load");
        let r: Result<T, ParcodeError> = nopanic("load", catch(|| at(place, || match way {
            0 => Parcode::load(path),
            1 => Parcode::open(path)?.load(),
            _ => {
                Parcode::inspect(path)?;
                Parcode::load(path)
            }
        })));
        eval1();
        match r {
            Ok(x) => ensure!(x == s.0, "wrong-value", "interrupted reads changed the value: {}", s.0.diff(&x)),
            Err(e) => viol!("transient-failure", "an interrupted or short read made loading fail: {e}"),
        }
    }
}

// ------------------------------------------------------------------ C07
/// Old content of a path.
fn old_content<T: Model>(ctx: &mut Ctx, len: usize, v: &T) -> Option<Vec<u8>> {
    match ctx.draw(0, 7) {
        0 => None,
        1 | 2 => {
            // a valid file of the same type; often another size than the new one
            let n = ctx.size(2000) as usize;
            let w = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
            Some(baseline(&Val(w), false))
        }
        3 => Some(vec![]),
        4 => {
            // a valid file with room behind and before
            let w = T::make(&mut Rng(ctx.draw(0, 1 << 32)), 3);
            let b = baseline(&Val(w), false);
            let mut v = vec![0xEE; len + ctx.draw(0, 200) as usize];
            v.extend_from_slice(&b);
            Some(v)
        }
        6 | 7 => {
            // nearly the value that is about to be saved
            let mut w = v.clone();
            w.tweak(&mut Rng(ctx.draw(0, 1 << 32)));
            Some(baseline(&Val(w), false))
        }
        _ => Some(vec![0x50; ctx.draw(1, 3 * len as u64 + 9) as usize]),
    }
}
fn load_any<T: Model>(path: &str) -> Option<Result<T, ParcodeError>> {
    match catch(|| Parcode::load::<T, _>(path)) {
        Ok(r) => Some(r),
        Err(_) if take_known_panic() => None,
        Err(m) => viol!("panic", "loading {path} panicked: {m}"),
    }
}
/// A crash left `img`; `old` was there before.
fn judge_image<T: Model>(img: Option<&[u8]>, old: Option<&[u8]>, v: &T, what: &str) {
    eval1();
    if img == old {
        return;
    }
    let Some(b) = img else { viol!("crash-lost-file", "{what}: the path vanished") };
    fs_put("/simfs/img.par", b);
    if let Some(Ok(x)) = load_any::<T>("/simfs/img.par") {
        ensure!(x == *v, "crash-wrong-value", "{what}: the remains ({} bytes) load as a value that was not being saved: {}", b.len(), v.diff(&x));
        probe("complete_image");
    }
    if let Err(m) = catch(|| Parcode::inspect("/simfs/img.par").map(|_| ())) {
        viol!("panic", "inspecting a crash image panicked: {m}");
    }
}
pub fn c07(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c07_t, ctx, kind)
}
fn c07_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = { let sc = if ctx.chance(1, 4) { 60 } else { 5 }; draw_size(ctx, kind, sc) };
    let seed = ctx.draw(0, 1 << 32);
    let s = Val(T::make(&mut Rng(seed), n));
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let sync = ctx.chance(1, 4);
    let place = draw_place(ctx);
    set_cpus(draw_cpus(ctx));
    let base = baseline(&s, comp);
    let old = old_content::<T>(ctx, base.len(), &s.0);
    let path = "/simfs/c.par";
    if let Some(o) = &old {
        fs_put(path, o);
    }
    let short = match ctx.draw(0, 2) {
        0 => 0,
        1 => (base.len() as u64 / 5).max(1),
        _ => (base.len() as u64 / 30).max(1),
    };
    unsafe { sim_fs_chunks(short, 0) };
    desc(&format!("{} n={n} {} bytes over {:?} sync={sync} comp={comp} {place:?} pieces={short}", T::NAME, base.len(), old.as_ref().map(|o| o.len())));
    log_on();
    phase("save");
    let r = nopanic("save", catch(|| at(place, || s.save(path, comp, sync))));
    log_off();
    unsafe { sim_fs_chunks(0, 0) };
    if let Err(e) = r {
        viol!("write-failed", "save failed without any fault: {e}");
    }
    phase("crash-images");
    let end = fs_get(path).unwrap_or_default();
    let log = log_list();
    let cap = end.len().max(old.as_ref().map_or(0, |o| o.len())) + 64;
    let cap = cap + log.iter().map(|m| m.off + m.len).max().unwrap_or(0) as usize;
    let mut points: Vec<(u64, u64)> = (0..=log.len() as u64).map(|k| (k, 0)).collect();
    while points.len() > 45 {
        let i = ctx.draw(1, points.len() as u64 - 2) as usize;
        points.swap_remove(i);
    }
    for _ in 0..12 {
        if log.is_empty() {
            break;
        }
        let k = ctx.draw(0, log.len() as u64 - 1);
        let m = &log[k as usize];
        if m.op == MUT_WRITE && m.len > 1 {
            let t = match ctx.draw(0, 3) {
                0 => m.len.saturating_sub(ctx.draw(1, 60)).max(1),
                1 => ctx.draw(1, 60.min(m.len)),
                _ => ctx.draw(1, m.len),
            };
            points.push((k, t));
        }
    }
    for (k, torn) in points {
        let img = log_image(path, old.as_deref(), k, torn, cap);
        if k == 0 && torn == 0 {
            ensure!(img == old, "crash-model", "image before the first change differs from the old content");
        }
        probe("fault.crash");
        judge_image(img.as_deref(), old.as_deref(), &s.0, &format!("crash after {k} of {} changes plus {torn} bytes", log.len()));
    }
    ensure!(log_image(path, old.as_deref(), log.len() as u64, 0, cap).as_deref() == Some(&end[..]), "crash-model", "final image differs from the file");
    match load_any::<T>(path) {
        Some(Ok(x)) if x == s.0 => {}
        _ => viol!("wrong-value", "the finished save does not load"),
    }
}
/// Known weakness of the format: no checksum over the file. A value that embeds the bytes of a complete file at
/// the right offset, torn exactly behind them, loads as the embedded value.
pub fn c07_forged(_ctx: &mut Ctx) {
    phase("forged");
    desc("Vec<u8> embedding a complete file, torn behind it");
    let lead = 3u64; // bincode length prefix of a byte vector of 251..65535 bytes
    let mut e = vec![];
    e.extend_from_slice(&[2, 7, 9, 0]); // shard: [7, 9], meta 0
    let coff = lead + e.len() as u64;
    e.extend_from_slice(&2u64.to_le_bytes());
    e.extend_from_slice(&[1, 2, 1]); // one run of (2, 1)
    e.extend_from_slice(&lead.to_le_bytes());
    e.extend_from_slice(&4u64.to_le_bytes());
    e.extend_from_slice(&1u32.to_le_bytes());
    e.push(1);
    let clen = lead + e.len() as u64 - coff;
    e.extend_from_slice(b"PAR4");
    e.extend_from_slice(&4u16.to_le_bytes());
    e.extend_from_slice(&coff.to_le_bytes());
    e.extend_from_slice(&clen.to_le_bytes());
    e.extend_from_slice(&0u32.to_le_bytes());
    let stop = lead + e.len() as u64;
    let mut v = e;
    v.resize(1000, 0x33);
    log_on();
    let r = nopanic("save", catch(|| Parcode::save_sync("/simfs/f.par", &v)));
    log_off();
    ensure!(r.is_ok(), "write-failed", "save failed without any fault");
    let log = log_list();
    let img = log.iter().position(|m| m.op == MUT_WRITE).and_then(|k| log_image("/simfs/f.par", None, k as u64, stop, 1 << 16)).unwrap_or_default();
    probe("fault.crash");
    fs_put("/simfs/img.par", &img);
    eval1();
    if let Some(Ok(x)) = load_any::<Vec<u8>>("/simfs/img.par") {
        if x == [7, 9] {
            known("embedded-trailer-torn");
        } else if x != v {
            viol!("crash-wrong-value", "torn file loads as {} bytes", x.len());
        }
    }
}

// ------------------------------------------------------------------ C08
#[derive(Clone)]
enum St<T> {
    Absent,
    Holds(T),
    /// a save of this value failed or crashed after it had changed the file
    Broken(T),
}
pub fn c08(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c08_t, ctx, kind)
}
fn c08_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let paths = ["/simfs/x.par", "/simfs/y.par", "/simfs/z.par"];
    let mut st: Vec<St<T>> = vec![St::Absent, St::Absent, St::Absent];
    let steps = ctx.draw(2, if ctx.thorough { 16 } else { 9 });
    let mut trail = String::new();
    for step in 0..steps {
        let i = ctx.draw(0, 2) as usize;
        let p = paths[i];
        let op = ctx.draw(0, 9);
        if op == 9 {
            fs_del(p);
            st[i] = St::Absent;
            trail += &format!(" del{i}");
        } else {
            let scale = ctx.pick(&[8u64, 8, 8, 8, 8, 30, 120]);
            let n = draw_size(ctx, kind, ctx.thorough as u64 * 10 + scale);
            // often a small change of what some path (mostly the same one) holds, or should hold
            let from = ctx.draw(0, 7) as usize;
            let from = if from >= 6 { i } else { from };
            let vseed = ctx.draw(0, 1 << 32);
            let v = match st.get(from) {
                Some(St::Holds(w) | St::Broken(w)) => {
                    let mut w = w.clone();
                    w.tweak(&mut Rng(vseed));
                    w
                }
                _ => T::make(&mut Rng(vseed), n),
            };
            let s = Val(v);
            let (comp, sync) = (HAS_LZ4 && ctx.chance(1, 4), ctx.chance(1, 4));
            let place = draw_place(ctx);
            set_cpus(draw_cpus(ctx));
            let before = fs_get(p);
            let crash = op == 6 || op == 7;
            faults_clear();
            match op {
                3 => fault(OP_WRITE, ctx.draw(0, 2), 1, ctx.pick(&ERRS), 0),
                4 => fault(OP_OPENW, 0, 1, ctx.pick(&ERRS), 0),
                5 => {
                    let used = unsafe { sim_fs_used() } - before.as_ref().map_or(0, |b| b.len() as u64);
                    unsafe { sim_fs_capacity(used + ctx.draw(1, 4000)) };
                }
                8 => fault(OP_WRITE, 0, 1 << 40, ENOSPC, 0),
                _ => {}
            }
            let short = ctx.pick(&[0u64, 0, 500, 64]);
            unsafe { sim_fs_chunks(short, 0) };
            log_on();
            let f0 = fired();
            phase("save");
            trail += &format!(" save{i}/{op}/{n}");
            let r = nopanic("save", catch(|| at(place, || s.save(p, comp, sync))));
            let f = fired() - f0;
            log_off();
            faults_clear();
            unsafe {
                sim_fs_capacity(0);
                sim_fs_chunks(0, 0);
            }
            let now = fs_get(p);
            match r {
                Ok(()) if crash => {
                    // the process died somewhere on the way; only what had reached the file remains
                    let log = log_list();
                    let end = now.unwrap_or_default();
                    let cap = end.len() + before.as_ref().map_or(0, |b| b.len()) + 4096;
                    let k = ctx.draw(0, log.len() as u64);
                    let torn = log.get(k as usize).map_or(0, |m| ctx.draw(0, m.len));
                    probe("fault.crash");
                    let img = log_image(p, before.as_deref(), k, torn, cap);
                    match img {
                        None => {
                            fs_del(p);
                            ensure!(before.is_none(), "crash-lost-file", "a crash removed the file");
                        }
                        Some(b) => {
                            fs_put(p, &b);
                            if before.as_deref() != Some(&b[..]) {
                                st[i] = St::Broken(s.0);
                            }
                        }
                    }
                }
                Ok(()) => st[i] = St::Holds(s.0),
                Err(e) => {
                    ensure!(f > 0, "failed-without-fault", "step {step}: save failed though nothing went wrong: {e}");
                    // (also when the old bytes were put back after the file had been opened for writing)
                    if now != before || log_list().iter().any(|m| m.path == p) {
                        st[i] = St::Broken(s.0);
                    }
                }
            }
        }
        // every path, not only the one just used
        phase("check-all");
        for j in 0..3 {
            eval1();
            let got = load_any::<T>(paths[j]);
            let Some(got) = got else { continue };
            match (&st[j], got) {
                (St::Absent, Ok(_)) => viol!("wrong-value", "path {j} has no file, yet loads [{trail}]"),
                (St::Absent, Err(_)) => {}
                (St::Holds(v), Ok(x)) => ensure!(x == *v, "wrong-value", "path {j} does not read back its last successful save: {} [{trail}]", v.diff(&x)),
                (St::Holds(_), Err(e)) => viol!("load-failed", "path {j} was saved successfully but fails to load: {e} [{trail}]"),
                (St::Broken(v), Ok(x)) => ensure!(x == *v, "wrong-value", "path {j} was left by an unfinished save but loads as another value: {} [{trail}]", v.diff(&x)),
                (St::Broken(_), Err(_)) => {}
            }
        }
    }
    desc(&format!("{}{trail}", T::NAME));
}

// ------------------------------------------------------------------ C17
pub fn c17(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c17_t, ctx, kind)
}
fn c17_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, 30);
    let s = Val(T::make(&mut Rng(ctx.draw(0, 1 << 32)), n));
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    set_cpus(draw_cpus(ctx));
    let base = baseline(&s, comp);
    let path = "/simfs/r.par";
    let mut trail = format!("{} {} bytes:", T::NAME, base.len());
    for _ in 0..ctx.draw(1, 5) {
        fs_put(path, &base);
        faults_clear();
        let place = draw_place(ctx);
        let way = ctx.draw(0, 3);
        let f0 = fired();
        let mut cut = false;
        let mut hard = false; // data cannot have been obtained
        match ctx.draw(0, 8) {
            0 => {
                let e = ctx.pick(&[2u64, 13, 24, 23, 5, 12]);
                fault(OP_OPENR, 0, 1, e, 0);
                hard = true;
                trail += &format!(" open:{e}");
            }
            1 => {
                fault(OP_STAT, 0, ctx.draw(1, 2), EIO, 0);
                trail += " stat";
            }
            2 => {
                fault(OP_MMAP, 0, 1, ctx.pick(&[12u64, 19, 13]), 0);
                trail += " mmap";
            }
            3 => {
                unsafe { sim_fs_chunks(0, (base.len() as u64 / ctx.draw(1, 9)).max(1)) };
                let k = ctx.draw(0, 9);
                fault(OP_READ, k, 1, ctx.pick(&[EIO, 116, 21]), 0);
                hard = true;
                trail += &format!(" read{k}");
            }
            4 => {
                // the file ends early while it is being read
                unsafe { sim_fs_chunks(0, (base.len() as u64 / ctx.draw(1, 9)).max(1)) };
                let k = ctx.draw(0, 9);
                fault(OP_READ, k, 1 << 40, 0, ZERO);
                trail += &format!(" eof{k}");
            }
            8 => {
                // the file has its length already, but not all of its content
                let len = base.len();
                let from = ctx.draw(0, len as u64 - 26) as usize;
                let mut b = base.clone();
                b[from..].fill(0);
                fs_put(path, &b);
                cut = true;
                probe("fault.unwritten_tail");
                trail += &format!(" unwritten{from}");
            }
            _ => {
                let len = base.len() as u64;
                let keep = match ctx.draw(0, 4) {
                    0 => ctx.draw(0, 27.min(len - 1)),
                    1 => len - ctx.draw(1, 30.min(len)),
                    2 => 0,
                    _ => ctx.draw(0, len - 1),
                };
                unsafe { sim_fs_truncate(cpath(path).as_ptr(), keep) };
                cut = true;
                probe("fault.truncated_file");
                trail += &format!(" cut{keep}");
            }
        }
        desc(&trail);
        trail.clear();
        let c = unsafe { shared().s.io };
        phase("read");
        let r: Result<Option<T>, ParcodeError> = match catch(|| at(place, || match way {
            0 => Parcode::load(path).map(Some),
            1 => Parcode::open(path)?.load().map(Some),
            2 => {
                let f = Parcode::open(path)?;
                f.inspect()?;
                f.load().map(Some)
            }
            _ => {
                // an inspection must not succeed either on a part of a file
                Parcode::inspect(path)?;
                Ok(None)
            }
        })) {
            Ok(r) => r,
            Err(_) if take_known_panic() => continue,
            Err(m) => viol!("panic", "reading under a fault panicked: {m}"),
        };
        let _ = c;
        let f = fired() - f0;
        faults_clear();
        unsafe { sim_fs_chunks(0, 0) };
        eval1();
        match r {
            Ok(x) => {
                ensure!(!cut, "partial-read-accepted", "a truncated file was read successfully");
                ensure!(!(hard && f > 0), "error-swallowed", "reading succeeded although an open or read failed");
                if let Some(x) = x {
                    ensure!(x == s.0, "wrong-value", "a failing read produced another value: {}", s.0.diff(&x));
                }
            }
            Err(e) => ensure!(cut || f > 0, "failed-without-fault", "reading failed though nothing went wrong: {e}"),
        }
        phase("again");
        fs_put(path, &base);
        match nopanic("load", catch(|| Parcode::load::<T, _>(path))) {
            Ok(x) => ensure!(x == s.0, "wrong-value", "after the fault was gone the value differs"),
            Err(e) => viol!("load-failed", "after the fault was gone loading fails: {e}"),
        }
    }
}
/// A reader meets a file that is being written: at every moment it gets an error or the complete value.
pub fn c17_race(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c17_race_t, ctx, kind)
}
fn c17_race_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, 15);
    let s = Val(T::make(&mut Rng(ctx.draw(0, 1 << 32)), n));
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let sync = ctx.chance(1, 2);
    let base = baseline(&s, comp);
    let path = "/simfs/w.par";
    unsafe { sim_fs_chunks((base.len() as u64 / ctx.draw(1, 12)).max(1), 0) };
    let tries = ctx.draw(1, 12);
    desc(&format!("{} {} bytes written while read {tries} times sync={sync}", T::NAME, base.len()));
    phase("race");
    std::thread::scope(|sc| {
        let s = &s;
        let w = sc.spawn(move || nopanic("save", catch(|| s.save(path, comp, sync))));
        for _ in 0..tries {
            // take a stable copy of what is visible now (a mapped file that shrinks cannot be read safely)
            unsafe { sim_yield() };
            if let Some(b) = fs_get(path) {
                fs_put("/simfs/seen.par", &b);
                eval1();
                match load_any::<T>("/simfs/seen.par") {
                    Some(Ok(x)) => ensure!(x == s.0, "wrong-value", "a file being written loads as another value: {}", s.0.diff(&x)),
                    Some(Err(_)) => probe("fault.partial_file_seen"),
                    None => {}
                }
            }
        }
        if let Ok(Err(e)) = w.join() {
            viol!("write-failed", "save failed without any fault: {e}");
        }
    });
    unsafe { sim_fs_chunks(0, 0) };
    match load_any::<T>(path) {
        Some(Ok(x)) => ensure!(x == s.0, "wrong-value", "the finished file loads as another value"),
        _ => viol!("load-failed", "the finished file does not load"),
    }
}
