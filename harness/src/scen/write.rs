//! C01-C03: round trip, write-path equivalence, layout.
use super::common::*;
use super::fault::Subject;
use crate::model::*;
use crate::reff;
use crate::sim::*;
use crate::{dispatch, ensure, viol};
use std::sync::Arc;

pub fn c01(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c01_t, ctx, kind)
}
fn c01_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, if ctx.thorough { 300 } else { 100 });
    let n = maybe_large(ctx, kind, n);
    let wide = kind == 5 && ctx.chance(1, 30); // one shard with more children than a 16-bit count holds
    let n = if wide { ctx.draw(262_200, 264_000) as usize } else { n };
    let seed = ctx.draw(0, 1 << 32);
    let v = T::make(&mut Rng(seed), n);
    let rounds = if wide { probe("wide_node"); 1 } else { ctx.draw(1, 2) };
    for round in 0..rounds {
        let how = if wide { ctx.pick(&[How::WriteSyncVec, How::SaveSync, How::WriteVec]) } else { draw_how(ctx) };
        let comp = HAS_LZ4 && ctx.chance(1, 3);
        let (wp, rp) = (draw_place(ctx), draw_place(ctx));
        let (way, rcpu) = (ctx.draw(0, 2), draw_cpus(ctx));
        let wcpu = if wide { 1 } else { draw_cpus(ctx) };
        desc(&format!("{} n={n} {how:?} comp={comp} write@{wp:?} read@{rp:?} way={way} cpus {wcpu}->{rcpu}", T::NAME));
        set_cpus(wcpu);
        phase("write");
        let o = nopanic("write", catch(|| at(wp, || write_value(&v, how, comp, round == 1, "/simfs/a.par"))));
        let o = match o {
            Ok(o) => o,
            Err(e) => viol!("write-failed", "writing {} failed without any fault: {e}", T::NAME),
        };
        set_cpus(rcpu);
        phase("load");
        let r: Result<T, _> = nopanic("load", catch(|| at(rp, || read_value(o.as_deref(), "/simfs/a.par", way))));
        match r {
            Ok(x) => ensure!(x == v, "wrong-value", "{} n={n}: loaded value differs: {}", T::NAME, v.diff(&x)),
            Err(e) => viol!("load-failed", "loading {} failed: {e}", T::NAME),
        }
        eval1();
    }
}

/// A client-defined visitor: chunk sizes and shapes no derived type has.
fn tree_of(ctx: &mut Ctx) -> (super::tree::JNode, Arc<super::tree::JLog>) {
    let m = ctx.pick(&[4u64, 40, 300]);
    let n = ctx.draw(1, m) as usize;
    let seed = ctx.draw(0, 1 << 32);
    let max = ctx.pick(&[20u64, 400, 9000, 9000, 150_000, 1_200_000]);
    let max = if n > 40 { max.min(9000) } else { max };
    let log = Arc::new(super::tree::JLog::default());
    if ctx.chance(1, 60) {
        probe("wide_node");
        return (super::tree::g_wide(&mut Rng(seed), ctx.draw(65_530, 67_000) as usize, &log), log);
    }
    (super::tree::g_tree(&mut Rng(seed), n, max, &log), log)
}
fn c02_tree(ctx: &mut Ctx) {
    let (t, log) = tree_of(ctx);
    let comp = HAS_LZ4 && ctx.chance(1, 3);
    let wide = t.count() > 60_000;
    set_cpus(if wide { 2 } else { draw_cpus(ctx) });
    desc(&format!("{} comp={comp}", t.name()));
    let mut base: Option<reff::Node> = None;
    for round in 0..if wide { 2 } else { 3 } {
        let sync = round == 0 || ctx.chance(1, 4);
        let place = draw_place(ctx);
        let file = ctx.chance(1, 2);
        phase("write");
        let mut o = vec![];
        let r = nopanic("write", catch(|| at(place, || if file { t.save("/simfs/t.par", comp, sync) } else { t.write(&mut o, comp, sync) })));
        if let Err(e) = r {
            viol!("write-failed", "writing a tree failed without any fault: {e}");
        }
        let b = if file { fs_get("/simfs/t.par").unwrap_or_default() } else { o };
        phase("compare");
        if let Err(e) = t.verify(&b, comp) {
            viol!("content-differs", "sync={sync} {place:?}: {e}");
        }
        let n = reff::parse(&b).unwrap();
        match &base {
            None => base = Some(n),
            Some(w) => if let Err(e) = w.same(&n) {
                viol!("content-differs", "sync={sync} {place:?} stores other content than the synchronous path: {e}");
            },
        }
        eval1();
    }
    if let Some(o) = log.odd.lock().unwrap().first() {
        viol!("job-misuse", "{o}");
    }
}
pub fn c02(ctx: &mut Ctx) {
    if ctx.chance(1, 6) {
        return c02_tree(ctx);
    }
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c02_t, ctx, kind)
}
fn c02_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, 60);
    let n = maybe_large(ctx, kind, n);
    let seed = ctx.draw(0, 1 << 32);
    let v = T::make(&mut Rng(seed), n);
    let comp = ctx.chance(1, 3);
    let wcpu = draw_cpus(ctx);
    let hows = [draw_how(ctx), draw_how(ctx)];
    let places = [draw_place(ctx), draw_place(ctx)];
    desc(&format!("{} n={n} {hows:?} {places:?} comp={comp} cpus={wcpu}", T::NAME));
    set_cpus(wcpu);
    phase("write-sync");
    let go = |how, place, path: &str| {
        let o = nopanic("write", catch(|| at(place, || write_value(&v, how, comp, true, path))));
        match o {
            Ok(o) => out_bytes(&o, path),
            Err(e) => viol!("write-failed", "{how:?} of {} failed without any fault: {e}", T::NAME),
        }
    };
    let base = go(How::WriteSyncVec, Place::Global, "/simfs/s.par");
    let base2 = go(How::SaveSync, places[0], "/simfs/s2.par");
    ensure!(base == base2, "sync-not-deterministic", "two synchronous writes of one value differ ({} vs {} bytes)", base.len(), base2.len());
    phase("parse-sync");
    let want = match reff::parse(&base) {
        Ok(t) => t,
        Err(e) => viol!("bad-layout", "synchronous output does not parse: {e}"),
    };
    for i in 0..2 {
        phase("write-par");
        let b = go(hows[i], places[i], "/simfs/p.par");
        phase("compare");
        match reff::parse(&b) {
            Ok(t) => {
                if let Err(e) = want.same(&t) {
                    viol!("content-differs", "{:?} stores other content than the synchronous path: {e}", hows[i]);
                }
            }
            Err(e) => viol!("bad-layout", "{:?} output does not parse: {e}", hows[i]),
        }
        phase("load");
        let r: Result<T, _> = nopanic("load", catch(|| read_value(Some(&b), "", 0)));
        match r {
            Ok(x) => ensure!(x == v, "wrong-value", "{:?}: loaded value differs: {}", hows[i], v.diff(&x)),
            Err(e) => viol!("load-failed", "{:?}: {e}", hows[i]),
        }
        eval1();
    }
}

pub fn c03(ctx: &mut Ctx) {
    if ctx.chance(1, 6) {
        let (t, _log) = tree_of(ctx);
        let comp = HAS_LZ4 && ctx.chance(1, 3);
        let sync = ctx.chance(1, 3);
        let place = draw_place(ctx);
        desc(&format!("{} comp={comp} sync={sync} {place:?}", t.name()));
        phase("write");
        let mut o = vec![];
        if let Err(e) = nopanic("write", catch(|| at(place, || t.write(&mut o, comp, sync)))) {
            viol!("write-failed", "writing a tree failed without any fault: {e}");
        }
        phase("parse");
        if let Err(e) = t.verify(&o, comp) {
            viol!("bad-layout", "sync={sync} {place:?}: {e}");
        }
        probe_n("chunks", t.count() as u64);
        return eval1();
    }
    let kind = ctx.draw(0, N_KINDS - 1);
    dispatch!(kind, c03_t, ctx, kind)
}
fn c03_t<T: Model>(ctx: &mut Ctx, kind: u64) {
    let n = draw_size(ctx, kind, 100);
    let n = maybe_large(ctx, kind, n);
    let seed = ctx.draw(0, 1 << 32);
    let v = T::make(&mut Rng(seed), n);
    let how = draw_how(ctx);
    let comp = HAS_LZ4 && ctx.chance(1, 3);
    let wp = draw_place(ctx);
    set_cpus(draw_cpus(ctx));
    phase("write");
    let o = nopanic("write", catch(|| at(wp, || write_value(&v, how, comp, true, "/simfs/a.par"))));
    let b = match o {
        Ok(o) => out_bytes(&o, "/simfs/a.par"),
        Err(e) => viol!("write-failed", "writing {} failed without any fault: {e}", T::NAME),
    };
    phase("parse");
    match reff::parse(&b) {
        Ok(t) => {
            probe_n("chunks", t.count() as u64);
            eval1();
        }
        Err(e) => viol!("bad-layout", "{how:?} of {}: {e}", T::NAME),
    }
}
