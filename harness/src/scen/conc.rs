//! C06, C09, C10: failing and panicking jobs, progress, independence of concurrent operations.
use super::common::*;
use super::fault::{Dev, DevPlan, Subject};
use super::look::*;
use super::tree::*;
use crate::model::*;
use crate::reff::{self, Node};
use crate::sim::*;
use crate::{dispatch, dispatch_lazy, ensure, viol};
use parcode::{Parcode, ParcodeError, ParcodeFile, ParcodeObject};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ values whose serialisation fails
#[derive(Clone, Debug, PartialEq, Deserialize)]
pub struct Fuse {
    pub id: u32,
    pub mode: u8, // 0 fine, 1 error, 2 panic
}
impl Serialize for Fuse {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.mode {
            1 => Err(serde::ser::Error::custom(format!("boom-{}.", self.id))),
            2 => panic!("kaboom-{}.", self.id),
            _ => s.serialize_u64((self.id as u64) << 8 | 7),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Bomb {
    pub n: u32,
    pub fuse: Fuse,
    #[parcode(chunkable)]
    pub tail: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct BombBox {
    pub head: Fuse,
    #[parcode(chunkable)]
    pub list: Vec<Bomb>,
    #[parcode(map)]
    pub index: HashMap<u32, FuseVal>,
    #[parcode(chunkable)]
    pub one: FuseVal,
    #[parcode(chunkable)]
    pub blob: HashMap<u32, FuseVal>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct FuseVal {
    pub pad: u64,
    pub fuse: Fuse,
}

/// What a failing write may do, given what its parts did.
fn judge_failure(res: Result<Result<(), ParcodeError>, String>, errors: &[u32], panics: &[u32], n_err: usize, n_panic: usize) {
    eval1();
    match res {
        Ok(Ok(())) => viol!("failure-swallowed", "the write reports success though {} jobs fail and {} panic", n_err, n_panic),
        Ok(Err(e)) => {
            let m = e.to_string();
            match named(&m, "boom-") {
                Some(id) if errors.contains(&id) => {}
                Some(id) => viol!("not-genuine", "the write returned the failure of part {id}, which did not fail: {m}"),
                None => viol!("not-genuine", "the write returned an error no part produced: {m}"),
            }
            // (an error may win over a panic only if no panic happened at all)
            ensure!(panics.is_empty(), "panic-swallowed", "part(s) {panics:?} panicked but the write returned: {m}");
        }
        Err(m) => {
            let ok = named(&m, "kaboom-").is_some_and(|id| panics.contains(&id));
            ensure!(ok, "not-genuine", "the write unwound with a panic no part raised: {m}");
        }
    }
}
fn must_not_open(bytes: &[u8], what: &str) {
    let r = catch(|| Parcode::open_bytes(bytes.to_vec()).and_then(|f| f.inspect().map(|_| ())));
    match r {
        Ok(Ok(())) => viol!("failed-write-opens", "{what}: the output of a failed write ({} bytes) opens as a complete file", bytes.len()),
        Ok(Err(_)) => {}
        Err(_) if take_known_panic() => {}
        Err(m) => viol!("panic", "{what}: opening the output of a failed write panicked: {m}"),
    }
}

pub fn c06(ctx: &mut Ctx) {
    let n = { let m = ctx.pick(&[6u64, 30, 150, 400]); ctx.draw(1, m) as usize };
    let seed = ctx.draw(0, 1 << 32);
    let log = Arc::new(JLog::default());
    let mut t = g_tree(&mut Rng(seed), n, 3000, &log);
    let bad = ctx.draw(1, 4.min(n as u64)) as usize;
    let kindness = ctx.draw(0, 3); // 0 errors, 1 panics, 2.. mixed
    let mut at_ids = vec![];
    for _ in 0..bad {
        at_ids.push((ctx.draw(0, n as u64 - 1) as u32, match kindness { 0 => Act::Err, 1 => Act::Panic, _ => ctx.pick(&[Act::Err, Act::Panic]) }));
    }
    let (mut ne, mut np) = (0, 0);
    t.each(&mut |x| {
        if let Some((_, a)) = at_ids.iter().find(|(i, _)| *i == x.id) {
            x.act = *a;
            if *a == Act::Err { ne += 1 } else { np += 1 }
        }
    });
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let sync = ctx.chance(1, 5);
    let threads = ctx.draw(0, 5) as usize; // 0: global pool
    let nested = ctx.chance(1, 3);
    set_cpus(draw_cpus(ctx));
    desc(&format!("tree of {n}, {ne} errors {np} panics {at_ids:?} sync={sync} comp={comp} pool={threads} nested={nested}"));
    #[cfg(feature = "parallel")]
    let pl = if threads > 0 { Some(pool(threads)) } else { None };
    let go = |f: &(dyn Fn() -> Result<(), ParcodeError> + Sync)| -> Result<Result<(), ParcodeError>, String> {
        catch(|| {
            #[cfg(feature = "parallel")]
            if let Some(p) = &pl {
                return p.install(|| {
                    if nested {
                        let mut out = None;
                        rayon::scope(|s| s.spawn(|_| out = Some(f())));
                        out.expect("ran")
                    } else {
                        f()
                    }
                });
            }
            let _ = nested;
            f()
        })
    };
    phase("write");
    let d = Dev::new(DevPlan { short: ctx.pick(&[0u64, 0, 100]), ..Default::default() });
    let to_file = ctx.chance(1, 2);
    let path = "/simfs/bad.par";
    let r = if to_file { go(&|| t.save(path, comp, sync)) } else { go(&|| t.write(d.clone(), comp, sync)) };
    phase("judge");
    let (started, running) = (log.started.load(SeqCst), log.running.load(SeqCst));
    ensure!(running == 0, "still-running", "{running} jobs were still running when the write returned");
    judge_failure(r, &log.errors.lock().unwrap(), &log.panics.lock().unwrap(), ne, np);
    let out = if to_file { fs_get(path).unwrap_or_default() } else { d.st.lock().unwrap().done.clone() };
    must_not_open(&out, "tree");
    if let Some(o) = log.odd.lock().unwrap().first() {
        viol!("job-misuse", "{o}");
    }
    probe_n("fault.job_error", log.errors.lock().unwrap().len() as u64);
    probe_n("fault.job_panic", log.panics.lock().unwrap().len() as u64);
    // life goes on, in the same pool
    phase("afterwards");
    let log2 = Arc::new(JLog::default());
    let t2 = g_tree(&mut Rng(seed ^ 1), ctx.draw(1, 60) as usize, 500, &log2);
    let out2 = Mutex::new(vec![]);
    let r = go(&|| {
        let mut o = vec![];
        t2.write(&mut o, comp, false)?;
        *out2.lock().unwrap() = o;
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!("aftermath", "a write after the failed one fails: {e}"),
        Err(m) => viol!("aftermath", "a write after the failed one panics: {m}"),
    }
    if let Err(e) = t2.verify(&out2.lock().unwrap(), comp) {
        viol!("aftermath", "a write after the failed one stores something else: {e}");
    }
    let v: Vec<u32> = (0..ctx.draw(0, 9000) as u32).collect();
    let back = Mutex::new(vec![]);
    let r = go(&|| {
        let mut o = vec![];
        Parcode::write(&mut o, &v)?;
        *back.lock().unwrap() = Parcode::load_bytes::<Vec<u32>>(o)?;
        Ok(())
    });
    ensure!(matches!(r, Ok(Ok(()))) && *back.lock().unwrap() == v, "aftermath", "round trip after the failed write went wrong");
    ensure!(log.started.load(SeqCst) == started && log.running.load(SeqCst) == 0, "still-running", "jobs of the failed write ran after it had returned");
    // a finished part of the graph is not held back: all jobs of a fault-free tree ran exactly once
    ensure!(log2.started.load(SeqCst) as usize == t2.count(), "job-misuse", "{} jobs ran for a tree of {}", log2.started.load(SeqCst), t2.count());
}

fn g_fuseval(r: &mut Rng, id: u32) -> FuseVal {
    FuseVal { pad: g_u64(r), fuse: Fuse { id, mode: 0 } }
}
pub fn c06_bomb(ctx: &mut Ctx) {
    let r = &mut Rng(ctx.draw(0, 1 << 32));
    let n = ctx.size(1200);
    let m = ctx.size(60);
    let mut id = 10u32;
    let mut next = || {
        id += 1;
        id
    };
    let mut v = BombBox {
        head: Fuse { id: next(), mode: 0 },
        list: (0..n).map(|i| Bomb { n: i as u32, fuse: Fuse { id: next(), mode: 0 }, tail: (0..r.below(4)).map(|x| x as u16).collect() }).collect(),
        index: (0..m).map(|i| (i as u32, g_fuseval(r, next()))).collect(),
        one: g_fuseval(r, next()),
        blob: (0..ctx.draw(0, 5)).map(|i| (i as u32, g_fuseval(r, next()))).collect(),
    };
    let shape = ctx.draw(0, 1); // the whole box or only its list
    let bad = ctx.draw(1, 3);
    let kindness = ctx.draw(0, 2);
    let mut placed = vec![];
    for _ in 0..bad {
        let mode = match kindness { 0 => 1, 1 => 2, _ => ctx.draw(1, 2) as u8 };
        let f = match if shape == 1 { 1 } else { ctx.draw(0, 4) } {
            0 => Some(&mut v.head),
            1 if n > 0 => { let i = ctx.draw(0, n - 1) as usize; Some(&mut v.list[i].fuse) }
            2 if m > 0 => { let i = ctx.draw(0, m - 1) as u32; v.index.get_mut(&i).map(|x| &mut x.fuse) }
            3 => Some(&mut v.one.fuse),
            4 => v.blob.values_mut().next().map(|x| &mut x.fuse),
            _ => None,
        };
        if let Some(f) = f {
            f.mode = mode;
            placed.push((f.id, mode));
        }
    }
    // a later choice may have replaced an earlier one
    let mut last: HashMap<u32, u8> = HashMap::new();
    for (i, m) in &placed {
        last.insert(*i, *m);
    }
    let mut errs: Vec<u32> = last.iter().filter(|x| *x.1 == 1).map(|x| *x.0).collect();
    let mut pans: Vec<u32> = last.iter().filter(|x| *x.1 == 2).map(|x| *x.0).collect();
    errs.sort();
    pans.sort();
    let sync = ctx.chance(1, 5);
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let place = draw_place(ctx);
    set_cpus(draw_cpus(ctx));
    let path = "/simfs/bomb.par";
    let old = ctx.chance(1, 3);
    if old {
        nopanic("save", catch(|| Parcode::save_sync(path, &vec![Plain { a: 1, s: "x".into(), t: (1, 1), o: None }; 50]))).ok();
    }
    desc(&format!("box list={n} index={m} errors {errs:?} panics {pans:?} list_only={} sync={sync} {place:?}", shape == 1));
    phase("write");
    let b = Parcode::builder().compression(comp);
    let r = catch(|| at(place, || match (shape, sync) {
        (1, true) => b.save_sync(path, &v.list),
        (1, false) => b.save(path, &v.list),
        (_, true) => b.save_sync(path, &v),
        (_, false) => b.save(path, &v),
    }));
    phase("judge");
    if errs.is_empty() && pans.is_empty() {
        ensure!(matches!(r, Ok(Ok(()))), "failed-without-fault", "nothing fails, yet the write did: {:?}", r.map(|x| x.map_err(|e| e.to_string())));
    } else {
        probe("fault.value_failure");
        eval1();
        match r {
            Ok(Ok(())) => viol!("failure-swallowed", "the write reports success though parts {errs:?} fail and {pans:?} panic"),
            Ok(Err(e)) => {
                let m = e.to_string();
                ensure!(named(&m, "boom-").is_some_and(|i| errs.contains(&i)), "not-genuine", "the write returned an error no part produced: {m}");
                // when only panics can stop the write it cannot return an error
            }
            Err(m) => ensure!(named(&m, "kaboom-").is_some_and(|i| pans.contains(&i)), "not-genuine", "the write unwound with a panic no part raised: {m}"),
        }
        // an old file may survive only whole (the write failed before opening it)
        let now = fs_get(path).unwrap_or_default();
        if !old || now.len() < 26 || Parcode::load_bytes::<Vec<Plain>>(now.clone()).map(|x| x.len()).unwrap_or(0) != 50 {
            must_not_open(&now, "box");
        }
    }
    phase("afterwards");
    v.head.mode = 0;
    v.one.fuse.mode = 0;
    v.list.iter_mut().for_each(|x| x.fuse.mode = 0);
    v.index.values_mut().for_each(|x| x.fuse.mode = 0);
    v.blob.values_mut().for_each(|x| x.fuse.mode = 0);
    let mut o = vec![];
    let r = catch(|| at(place, || b.write(&mut o, &v)));
    match r {
        Ok(Ok(())) => {
            if let Err(e) = reff::parse(&o) {
                viol!("aftermath", "a write after the failed one: {e}");
            }
        }
        r => viol!("aftermath", "a write after the failed one fails: {:?}", r.map(|x| x.map_err(|e| e.to_string()))),
    }
}

// ------------------------------------------------------------------ concurrent clients (C09, C10)
enum Op {
    /// a value of its own, to memory, file or device; the round trip must be exact
    Own { seed: u64, n: usize, file: bool, sync: bool, comp: bool },
    /// the shared value to a destination of its own
    Shared { file: bool, sync: bool },
    /// a job tree; `bad` jobs fail or panic
    Tree { seed: u64, n: usize, bad: u64, sync: bool },
    /// explores the shared open file
    Look { seed: u64, steps: u64 },
    Load,
    Inspect,
    /// reads a damaged file
    Damaged { seed: u64 },
    /// a write to a destination that fails
    NoDisk { after: u64 },
}
fn draw_op(ctx: &mut Ctx) -> Op {
    match ctx.draw(0, 11) {
        0 | 1 => Op::Own { seed: ctx.draw(0, 1 << 32), n: ctx.size(3000) as usize, file: ctx.chance(1, 2), sync: ctx.chance(1, 4), comp: HAS_LZ4 && ctx.chance(1, 4) },
        2 | 3 => Op::Shared { file: ctx.chance(1, 2), sync: ctx.chance(1, 4) },
        4 => Op::Tree { seed: ctx.draw(0, 1 << 32), n: ctx.draw(1, 60) as usize, bad: 0, sync: false },
        5 => Op::Tree { seed: ctx.draw(0, 1 << 32), n: ctx.draw(1, 60) as usize, bad: ctx.draw(1, 3), sync: ctx.chance(1, 4) },
        6 | 7 => Op::Look { seed: ctx.draw(0, 1 << 32), steps: ctx.draw(1, 25) },
        8 => Op::Load,
        9 => Op::Inspect,
        10 => Op::Damaged { seed: ctx.draw(0, 1 << 32) },
        _ => Op::NoDisk { after: ctx.draw(0, 3000) },
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Seat {
    Plain,
    Pool(usize),   // in one of the shared pools
    Nested(usize), // in a task spawned there
}
struct Shared<'a, T> {
    v: &'a T,
    base: &'a Node,
    file: &'a ParcodeFile,
    bad: &'a ParcodeFile,
    bad_set: &'a [u64],
    report: &'a str,
}
fn do_op<T: LazyModel>(op: &Op, who: &str, sh: &Shared<'_, T>) {
    match op {
        Op::Own { seed, n, file, sync, comp } => {
            let v = <Vec<Item> as Model>::make(&mut Rng(*seed), n / 20);
            let w: Vec<u32> = <Vec<u32> as Model>::make(&mut Rng(*seed ^ 5), *n);
            let b = Parcode::builder().compression(*comp);
            let p = format!("/simfs/own{who}.par");
            let r = nopanic("write", catch(|| if *file {
                if *sync { b.save_sync(&p, &v) } else { b.save(&p, &v) }.and_then(|()| Parcode::load::<Vec<Item>, _>(&p))
            } else {
                let mut o = vec![];
                if *sync { b.write_sync(&mut o, &v) } else { b.write(&mut o, &v) }.and_then(|()| Parcode::load_bytes(o))
            }));
            match r {
                Ok(x) => ensure!(x == v, "wrong-value", "client {who}: own value came back changed: {}", v.diff(&x)),
                Err(e) => viol!("op-failed", "client {who}: own round trip failed: {e}"),
            }
            let mut o = vec![];
            let r = nopanic("write", catch(|| b.write(&mut o, &w).and_then(|()| Parcode::load_bytes::<Vec<u32>>(o))));
            match r {
                Ok(x) => ensure!(x == w, "wrong-value", "client {who}: own vector came back changed: {}", w.diff(&x)),
                Err(e) => viol!("op-failed", "client {who}: own round trip failed: {e}"),
            }
        }
        Op::Shared { file, sync } => {
            let p = format!("/simfs/sh{who}.par");
            let b = Parcode::builder();
            let got = if *file {
                let r = nopanic("save", catch(|| if *sync { b.save_sync(&p, sh.v) } else { b.save(&p, sh.v) }));
                if let Err(e) = r {
                    viol!("op-failed", "client {who}: saving the shared value failed: {e}");
                }
                fs_get(&p).unwrap_or_default()
            } else {
                let mut o = vec![];
                let r = nopanic("write", catch(|| if *sync { b.write_sync(&mut o, sh.v) } else { b.write(&mut o, sh.v) }));
                if let Err(e) = r {
                    viol!("op-failed", "client {who}: writing the shared value failed: {e}");
                }
                o
            };
            match reff::parse(&got) {
                Ok(n) => {
                    if let Err(e) = sh.base.same(&n) {
                        viol!("content-differs", "client {who}: the shared value was stored differently than alone: {e}");
                    }
                }
                Err(e) => viol!("bad-layout", "client {who}: {e}"),
            }
        }
        Op::Tree { seed, n, bad, sync } => {
            let log = Arc::new(JLog::default());
            let mut r = Rng(*seed);
            let mut t = g_tree(&mut r, *n, 800, &log);
            let (mut ne, mut np) = (0, 0);
            for _ in 0..*bad {
                let id = r.below(*n as u64) as u32;
                let pan = r.chance(1, 2);
                t.each(&mut |x| if x.id == id && !matches!(x.act, Act::Err | Act::Panic) {
                    x.act = if pan { np += 1; Act::Panic } else { ne += 1; Act::Err };
                });
            }
            if *bad == 0 {
                let id = r.below(*n as u64) as u32;
                t.each(&mut |x| if x.id == id { x.act = Act::Write });
            }
            let mut o = vec![];
            let res = catch(|| t.write(&mut o, false, *sync));
            ensure!(log.running.load(SeqCst) == 0, "still-running", "client {who}: jobs still run after the write returned");
            if ne + np > 0 {
                probe("fault.failing_client");
                judge_failure(res, &log.errors.lock().unwrap(), &log.panics.lock().unwrap(), ne, np);
                must_not_open(&o, "tree");
            } else {
                match res {
                    Ok(Ok(())) => {
                        if let Err(e) = t.verify(&o, false) {
                            viol!("content-differs", "client {who}: tree stored wrongly: {e}");
                        }
                    }
                    Ok(Err(e)) => viol!("op-failed", "client {who}: tree write failed: {e}"),
                    Err(m) => viol!("panic", "client {who}: tree write panicked: {m}"),
                }
            }
            if let Some(x) = log.odd.lock().unwrap().first() {
                viol!("job-misuse", "client {who}: {x}");
            }
        }
        Op::Look { seed, steps } => {
            let mut cx = Look::new(*seed, *steps as i64);
            cx.label = "concurrent: ";
            explore::<T>(sh.file, sh.v, sh.base, &mut cx, true);
        }
        Op::Load => match nopanic("load", catch(|| sh.file.load::<T>())) {
            Ok(x) => ensure!(x == *sh.v, "wrong-value", "client {who}: shared file loads as another value: {}", sh.v.diff(&x)),
            Err(e) => viol!("op-failed", "client {who}: loading the shared file failed: {e}"),
        },
        Op::Inspect => match nopanic("inspect", catch(|| sh.file.inspect().map(|r| r.to_string()))) {
            Ok(s) => ensure!(s == sh.report, "wrong-value", "client {who}: another inspection report than alone"),
            Err(e) => viol!("op-failed", "client {who}: inspection failed: {e}"),
        },
        Op::Damaged { seed } => {
            probe("fault.damaged_read");
            let mut cx = Look::new(*seed, 6);
            cx.damaged = sh.bad_set.iter().copied().collect();
            cx.label = "damaged file: ";
            explore::<T>(sh.bad, sh.v, sh.base, &mut cx, true);
        }
        Op::NoDisk { after } => {
            let d = Dev::new(DevPlan { fail_after: Some(*after), ..Default::default() });
            let w = d.clone();
            let r = nopanic("write", catch(|| Parcode::write(w, sh.v)));
            let st = d.st.lock().unwrap();
            match r {
                Ok(()) => ensure!(st.fired == 0, "failure-swallowed", "client {who}: success on a device that refused bytes"),
                Err(e) => ensure!(st.fired > 0, "op-failed", "client {who}: write failed without a fault: {e}"),
            }
        }
    }
    eval1();
}
fn clients<T: LazyModel>(ctx: &mut Ctx, kind: u64, many: bool) {
    let n = lazy_size(ctx, kind, if many { 30 } else { 60 });
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    set_cpus(draw_cpus(ctx));
    phase("prepare");
    let mut bytes = vec![];
    if let Err(e) = nopanic("write", catch(|| Parcode::write_sync(&mut bytes, &v))) {
        viol!("write-failed", "write failed without any fault: {e}");
    }
    let base = match reff::parse(&bytes) {
        Ok(b) => b,
        Err(e) => viol!("bad-layout", "{e}"),
    };
    let damage = damage_leaves(&mut Rng(ctx.draw(0, 1 << 32)), &bytes, &base, 3);
    fs_put("/simfs/shared.par", &bytes);
    fs_put("/simfs/broken.par", &damage.0);
    let mapped = ctx.chance(1, 2);
    let open = |p: &str, b: &[u8]| -> ParcodeFile {
        match nopanic("open", catch(|| if mapped { Parcode::open(p) } else { Parcode::open_bytes(b.to_vec()) })) {
            Ok(f) => f,
            Err(e) => viol!("open-failed", "{e}"),
        }
    };
    let file = open("/simfs/shared.par", &bytes);
    let bad = open("/simfs/broken.par", &damage.0);
    let report = match nopanic("inspect", catch(|| file.inspect())) {
        Ok(r) => r.to_string(),
        Err(e) => viol!("op-failed", "inspection failed: {e}"),
    };
    let nc = if many { ctx.draw(2, 6) } else { ctx.draw(1, 4) } as usize;
    let pools: Vec<usize> = (0..ctx.draw(1, 2)).map(|_| ctx.draw(1, 4) as usize).collect();
    let mut plan: Vec<(Seat, Vec<Op>)> = vec![];
    let mut d = format!("{} n={n} pools={pools:?} mapped={mapped}:", T::NAME);
    for _ in 0..nc {
        let seat = if !PARALLEL { Seat::Plain } else {
            match ctx.draw(0, 4) {
                0 | 1 => Seat::Plain,
                2 | 3 => Seat::Pool(ctx.draw(0, pools.len() as u64 - 1) as usize),
                _ => Seat::Nested(ctx.draw(0, pools.len() as u64 - 1) as usize),
            }
        };
        let ops: Vec<Op> = (0..ctx.draw(1, 3)).map(|_| draw_op(ctx)).collect();
        d += &format!(" {seat:?}x{}", ops.len());
        plan.push((seat, ops));
    }
    desc(&d);
    phase("clients");
    #[cfg(feature = "parallel")]
    let made: Vec<rayon::ThreadPool> = pools.iter().map(|&k| pool(k)).collect();
    let sh = Shared { v: &v, base: &base, file: &file, bad: &bad, bad_set: &damage.1, report: &report };
    std::thread::scope(|sc| {
        for (i, (seat, ops)) in plan.iter().enumerate() {
            let sh = &sh;
            #[cfg(feature = "parallel")]
            let made = &made;
            sc.spawn(move || {
                let body = || {
                    for (k, op) in ops.iter().enumerate() {
                        do_op(op, &format!("{i}.{k}"), sh);
                    }
                };
                #[cfg(feature = "parallel")]
                match *seat {
                    Seat::Plain => body(),
                    Seat::Pool(p) => made[p].install(body),
                    Seat::Nested(p) => made[p].scope(|s| s.spawn(|_| body())),
                }
                #[cfg(not(feature = "parallel"))]
                {
                    let _ = seat;
                    body()
                }
            });
        }
    });
    phase("afterwards");
    match nopanic("load", catch(|| file.load::<T>())) {
        Ok(x) => ensure!(x == v, "wrong-value", "after all clients the shared file loads as another value"),
        Err(e) => viol!("op-failed", "after all clients loading fails: {e}"),
    }
}
/// Flips bytes in up to `k` leaf payloads; returns the bytes and the offsets of the damaged chunks.
pub fn damage_leaves(r: &mut Rng, bytes: &[u8], root: &Node, k: u64) -> (Vec<u8>, Vec<u64>) {
    let mut all = vec![];
    root.walk(&mut all);
    let leaves: Vec<&&Node> = all.iter().filter(|n| n.kids.is_empty() && !n.raw.is_empty() && n.off != root.off).collect();
    let mut b = bytes.to_vec();
    let mut set = vec![];
    if leaves.is_empty() {
        return (b, set);
    }
    for _ in 0..r.range(1, k) {
        let n = leaves[r.below(leaves.len() as u64) as usize];
        let (o, l) = (n.off as usize, n.raw.len());
        match r.below(4) {
            0 => b[o..o + l].fill(r.next() as u8),
            1 => {
                let s = r.below(l as u64) as usize;
                let e = (s + 1 + r.below(64) as usize).min(l);
                for x in &mut b[o + s..o + e] {
                    *x = r.next() as u8;
                }
            }
            2 => b[o..o + l].iter_mut().for_each(|x| *x = r.next() as u8),
            _ => {
                let s = if r.chance(1, 2) { 0 } else { r.below(l as u64) as usize };
                b[o + s] ^= 1 << r.below(8);
            }
        }
        if !set.contains(&n.off) {
            set.push(n.off);
        }
    }
    (b, set)
}
pub fn c10(ctx: &mut Ctx) {
    fn go<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
        clients::<T>(ctx, kind, true)
    }
    let kind = ctx.draw(0, N_LAZY - 1);
    dispatch_lazy!(kind, go, ctx, kind)
}

// ------------------------------------------------------------------ C09
/// Many reads of one file with many shards, as tasks of one pool: a worker that waits inside one read picks up
/// another. Reads nest in each other too.
fn c09_loads(ctx: &mut Ctx) {
    let kind = ctx.pick(&[7u64, 0, 4, 8, 6, 6, 1, 19, 11, 15, 2, 3, 23, 23]);
    fn go<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
        let n = lazy_size(ctx, kind, 100);
        let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
        set_cpus(ctx.pick(&[16, 8, 4, 2, 1]));
        let comp = HAS_LZ4 && ctx.chance(1, 4);
        let mut bytes = vec![];
        if let Err(e) = nopanic("write", catch(|| Parcode::builder().compression(comp).write_sync(&mut bytes, &v))) {
            viol!("write-failed", "write failed without any fault: {e}");
        }
        let base = match reff::parse(&bytes) {
            Ok(b) => b,
            Err(e) => viol!("bad-layout", "{e}"),
        };
        fs_put("/simfs/l.par", &bytes);
        let mapped = ctx.chance(1, 2);
        let file = match nopanic("open", catch(|| if mapped { Parcode::open("/simfs/l.par") } else { Parcode::open_bytes(bytes) })) {
            Ok(f) => f,
            Err(e) => viol!("open-failed", "{e}"),
        };
        let p = ctx.draw(1, 4) as usize;
        let tasks: Vec<(u64, u64)> = (0..ctx.draw(2, 7)).map(|_| (ctx.draw(0, 4), ctx.draw(0, 1 << 32))).collect();
        let lop = ctx.chance(1, 3); // one more reader outside the pool
        desc(&format!("{} n={n} shards={} pool={p} {} reads {tasks:?}", T::NAME, base.kids.len(), tasks.len()));
        probe_n("vector_shards", base.kids.len() as u64);
        phase("reads");
        let (file, v, base) = (&file, &v, &base);
        let load = || match nopanic("load", catch(|| file.load::<T>())) {
            Ok(x) => ensure!(x == *v, "wrong-value", "one of many loads returned another value: {}", v.diff(&x)),
            Err(e) => viol!("op-failed", "one of many loads failed: {e}"),
        };
        let task = |(what, seed): (u64, u64)| {
            match what {
                0 | 1 => load(),
                2 => {
                    #[cfg(feature = "parallel")]
                    rayon::join(load, load);
                    #[cfg(not(feature = "parallel"))]
                    load();
                }
                3 => {
                    let mut o = vec![];
                    let r = nopanic("write", catch(|| Parcode::write(&mut o, v)));
                    ensure!(r.is_ok(), "op-failed", "write failed without any fault");
                    load();
                }
                _ => {
                    let mut cx = Look::new(seed, 8);
                    explore::<T>(file, v, base, &mut cx, true);
                }
            }
            eval1();
        };
        let task = &task;
        let all = || {
            #[cfg(feature = "parallel")]
            pool(p).scope(|s| {
                for &t in &tasks {
                    s.spawn(move |_| task(t));
                }
            });
            #[cfg(not(feature = "parallel"))]
            std::thread::scope(|s| {
                for &t in &tasks {
                    s.spawn(move || task(t));
                }
            });
        };
        if lop {
            std::thread::scope(|s| {
                s.spawn(|| task((0, 0)));
                all();
            });
        } else {
            all();
        }
    }
    dispatch_lazy!(kind, go, ctx, kind)
}
/// Operations of all kinds, possibly stuck: the runtime reports deadlock and livelock.
pub fn c09(ctx: &mut Ctx) {
    match ctx.draw(0, 3) {
        3 => c09_loads(ctx),
        0 => {
            fn go<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
                clients::<T>(ctx, kind, false)
            }
            let kind = ctx.draw(0, N_LAZY - 1);
            dispatch_lazy!(kind, go, ctx, kind)
        }
        1 => {
            // one worker or very many, deep or wide graphs, jobs that wait for other work in the same pool
            let n = { let m = ctx.pick(&[10u64, 100, 600]); ctx.draw(1, m) as usize };
            let log = Arc::new(JLog::default());
            let seed = ctx.draw(0, 1 << 32);
            let mut t = g_tree(&mut Rng(seed), n, 60, &log);
            let acts = ctx.draw(0, 4);
            let mut r = Rng(seed ^ 3);
            t.each(&mut |x| {
                if r.below(5) < acts {
                    x.act = match r.below(5) {
                        0 => Act::Join(1 + r.below(4) as u8),
                        1 => Act::Scope(1 + r.below(6) as u8),
                        2 => Act::Slow(3),
                        3 if r.chance(1, 12) => Act::Write,
                        _ => Act::Fine,
                    }
                }
            });
            let bad = ctx.draw(0, 2);
            for _ in 0..bad {
                let id = ctx.draw(0, n as u64 - 1) as u32;
                let a = ctx.pick(&[Act::Err, Act::Panic]);
                t.each(&mut |x| if x.id == id { x.act = a });
            }
            let p = ctx.pick(&[1usize, 1, 2, 3, 8, 20]);
            let depth = ctx.draw(0, 2);
            desc(&format!("tree of {n}, busy={acts} bad={bad} pool={p} depth={depth}"));
            phase("write");
            let mut o = vec![];
            let res = catch(|| {
                #[cfg(feature = "parallel")]
                {
                    let pl = pool(p);
                    match depth {
                        0 => pl.install(|| t.write(&mut o, false, false)),
                        1 => pl.install(|| rayon::join(|| t.write(&mut o, false, false), || rayon::join(|| 1, || 2)).0),
                        _ => pl.install(|| rayon::scope(|_| rayon::scope(|_| t.write(&mut o, false, false)))),
                    }
                }
                #[cfg(not(feature = "parallel"))]
                {
                    let _ = (p, depth);
                    t.write(&mut o, false, false)
                }
            });
            ensure!(log.running.load(SeqCst) == 0, "still-running", "jobs run after the write returned");
            eval1();
            if bad == 0 {
                match res {
                    Ok(Ok(())) => {
                        if let Err(e) = t.verify(&o, false) {
                            viol!("content-differs", "{e}");
                        }
                    }
                    _ => viol!("op-failed", "fault-free write failed: {:?}", res.map(|x| x.map_err(|e| e.to_string()))),
                }
                let s = log.started.load(SeqCst) as usize;
                ensure!(s == n, "job-misuse", "{s} jobs ran for a tree of {n}");
            }
        }
        _ => {
            let kind = ctx.draw(0, N_KINDS - 1);
            fn go<T: Model>(ctx: &mut Ctx, kind: u64) {
                let n = draw_size(ctx, kind, 100);
                let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
                let place = draw_place(ctx);
                set_cpus(draw_cpus(ctx));
                desc(&format!("{} n={n} {place:?}", T::NAME));
                phase("round-trip");
                let r = nopanic("round trip", catch(|| at(place, || {
                    Parcode::save("/simfs/a.par", &v)?;
                    let f = Parcode::open("/simfs/a.par")?;
                    f.inspect()?;
                    f.load::<T>()
                })));
                match r {
                    Ok(x) => ensure!(x == v, "wrong-value", "{}", v.diff(&x)),
                    Err(e) => viol!("op-failed", "{e}"),
                }
                eval1();
            }
            dispatch!(kind, go, ctx, kind)
        }
    }
}
