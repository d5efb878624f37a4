//! C11-C13, C15, C18, C20: reading through open files.
use super::common::*;
use super::conc::damage_leaves;
use super::look::*;
use crate::model::*;
use crate::reff::{self, Node};
use crate::sim::*;
use crate::{dispatch_lazy, ensure, viol};
use parcode::{Parcode, ParcodeFile};
use std::collections::HashMap;

/// Writes `v` in some way; its bytes are also put at /simfs/r.par.
pub fn store<T: Model>(ctx: &mut Ctx, v: &T) -> (Vec<u8>, Node) {
    let cpus = draw_cpus(ctx);
    store_cpus(ctx, v, cpus)
}
/// With few CPUs large values are stored in few, large chunks.
pub fn store_cpus<T: Model>(ctx: &mut Ctx, v: &T, cpus: i32) -> (Vec<u8>, Node) {
    let how = draw_how(ctx);
    let comp = HAS_LZ4 && ctx.chance(1, 3);
    let place = draw_place(ctx);
    set_cpus(cpus);
    phase("write");
    desc(&format!("{} {how:?} comp={comp} cpus={cpus} {place:?}", T::NAME));
    let o = nopanic("write", catch(|| at(place, || write_value(v, how, comp, true, "/simfs/r.par"))));
    let b = match o {
        Ok(o) => out_bytes(&o, "/simfs/r.par"),
        Err(e) => viol!("write-failed", "writing {} failed without any fault: {e}", T::NAME),
    };
    fs_put("/simfs/r.par", &b);
    let n = match reff::parse(&b) {
        Ok(n) => n,
        Err(e) => viol!("bad-layout", "{e}"),
    };
    set_cpus(draw_cpus(ctx));
    probe_n("stored_chunks", n.count() as u64);
    (b, n)
}
pub fn open_some(ctx: &mut Ctx, path: &str) -> ParcodeFile {
    let way = ctx.draw(0, 1);
    let r = nopanic("open", catch(|| if way == 0 { Parcode::open(path) } else { Parcode::open_bytes(fs_get(path).unwrap()) }));
    match r {
        Ok(f) => f,
        Err(e) => viol!("open-failed", "{e}"),
    }
}
/// 1..=max reader threads share the file.
pub fn readers(ctx: &mut Ctx, max: u64, steps: u64, f: impl Fn(&mut Look) + Send + Sync) {
    let n = ctx.draw(1, max);
    let plans: Vec<(u64, Place, i64)> = (0..n).map(|_| (ctx.draw(0, 1 << 32), draw_place(ctx), ctx.draw(2, steps) as i64)).collect();
    desc(&format!("{n} readers"));
    phase("read");
    if n == 1 {
        let (s, p, b) = plans[0];
        let mut cx = Look::new(s, b);
        at(p, || f(&mut cx));
        return;
    }
    std::thread::scope(|sc| {
        for (s, p, b) in plans {
            let f = &f;
            sc.spawn(move || {
                let mut cx = Look::new(s, b);
                at(p, || f(&mut cx));
            });
        }
    });
}

// ------------------------------------------------------------------ C11
pub fn c11(ctx: &mut Ctx) {
    let kind = ctx.pick(&[0u64, 4, 7, 6, 8, 19, 9, 11, 15, 16, 21, 22, 23, 24]);
    dispatch_lazy!(kind, c11_t, ctx, kind)
}
fn c11_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = lazy_size(ctx, kind, if ctx.thorough { 300 } else { 100 });
    let large = ctx.chance(1, if kind == 8 { 12 } else { 40 });
    let n = if large { n + ctx.draw(1, match kind { 7 | 9 | 15 | 16 | 21 => 400_000, 4 | 8 | 11 => 40_000, 0 | 6 => 2000, _ => 1 }) as usize } else { n };
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    let cpus = if large { ctx.pick(&[1, 1, 2, 4, 16]) } else { draw_cpus(ctx) };
    let (_b, node) = store_cpus(ctx, &v, cpus);
    probe_n("vector_shards", node.kids.len() as u64);
    let file = open_some(ctx, "/simfs/r.par");
    readers(ctx, 3, 40, |cx| explore::<T>(&file, &v, &node, cx, true));
}

// ------------------------------------------------------------------ C12
fn g_key(r: &mut Rng, mode: u8, span: u64) -> Key {
    Key { id: r.below(span) as u32, mode }
}
fn look_db(file: &ParcodeFile, v: &Db, n: &Node, cx: &mut Look, focus: u64) {
    if n.kids.len() != 7 {
        viol!("bad-layout", "the root of a Db has {} children", n.kids.len());
    }
    while cx.budget > 0 {
        let lz = match cx.run("root", || file.root::<Db>()) {
            Some(Ok(lz)) => lz,
            Some(Err(e)) => viol!("read-failed", "lazy root failed: {e}"),
            None => return,
        };
        for _ in 0..1 + cx.r.below(4) {
            cx.budget -= 1;
            match if cx.r.chance(2, 3) { focus } else { cx.r.below(7) } {
                0 => Field::look(&lz.plain, &v.plain, &n.kids[0], cx),
                1 => Field::look(&lz.coll, &v.coll, &n.kids[1], cx),
                2 => Field::look(&lz.strs, &v.strs, &n.kids[2], cx),
                3 => Field::look(&lz.single, &v.single, &n.kids[3], cx),
                4 => Field::look(&lz.blob, &v.blob, &n.kids[4], cx),
                5 => Field::look(&lz.entries, &v.entries, &n.kids[5], cx),
                _ => Field::look(&lz.kents, &v.kents, &n.kids[6], cx),
            }
        }
    }
}
/// Looks up every stored key (or a stride of them) and neighbours of it.
fn sweep<K: MapKey, V: MapVal>(what: &str, lz: &parcode::rt::ParcodeMapPromise<'_, K, V>, v: &HashMap<K, V>, near: impl Fn(&K) -> K, cap: usize) {
    let stride = v.len() / cap + 1;
    for (k, x) in v.iter().step_by(stride) {
        match nopanic("get", catch(|| lz.get(k))) {
            Ok(Some(y)) => ensure!(y == *x, "wrong-value", "{what}.get({k:?}) returned {} instead of {}", short(&y), short(x)),
            Ok(None) => viol!("missing-entry", "{what}.get({k:?}) is absent in a map of {}", v.len()),
            Err(e) => viol!("read-failed", "{what}.get({k:?}): {e}"),
        }
        let o = near(k);
        match nopanic("get", catch(|| lz.get(&o))) {
            Ok(y) => ensure!(y.as_ref() == v.get(&o), "wrong-value", "{what}.get({o:?}) returned {} instead of {}", short(&y), short(&v.get(&o))),
            Err(e) => viol!("read-failed", "{what}.get({o:?}): {e}"),
        }
        eval1();
    }
}
pub fn c12(ctx: &mut Ctx) {
    if ctx.chance(1, 4) {
        let kind = ctx.pick(&[12u64, 13, 17]);
        return dispatch_lazy!(kind, c13_t, ctx, kind, 100);
    }
    let small = if ctx.thorough { 400 } else { 120 };
    let focus = ctx.draw(0, 6);
    let big = ctx.chance(1, 4);
    let huge = ctx.chance(1, 250); // hundreds of buckets
    let focus = if huge { 1 } else { focus };
    let n = if huge { probe("huge_maps"); let top = ctx.pick(&[600_000u64, 600_000, 600_000, 2_300_000]); ctx.draw(top / 4, top) } else if big { ctx.draw(2000, if ctx.thorough { 30_000 } else { 7000 }) } else { ctx.size(small) } as usize;
    let mode = if huge { 3 } else { ctx.draw(0, 3) as u8 };
    // with every key in one collision class lookups are linear: keep those maps smaller
    let n = if matches!(focus, 1 | 6) && mode == 0 { n.min(4500) } else { n };
    let seed = ctx.draw(0, 1 << 32);
    let mut r = Rng(seed);
    let mut v = g_db(&mut r, ctx.size(60) as usize);
    match focus {
        0 => v.plain = (0..n).map(|i| (if r.chance(1, 2) { i as u64 } else { g_u64(&mut r) }, g_plain(&mut r))).collect(),
        1 => v.coll = (0..n).map(|i| (if mode == 3 { g_key(&mut r, 3, 1 << 31) } else { Key { id: i as u32, mode } }, r.next())).collect(),
        2 => v.strs = (0..n).map(|i| (format!("{}{}", g_string(&mut r, 4), if r.chance(1, 2) { i.to_string() } else { String::new() }), (0..r.below(4)).map(|_| r.next() as u16).collect())).collect(),
        3 => v.single = (0..n.min(256)).map(|i| (i as u8, r.next() as u8)).collect(),
        4 => v.blob = (0..n.min(256)).map(|_| (r.next() as u8, r.next() as u8)).collect(),
        5 => v.entries = (0..n.min(5000)).map(|i| (i as u32 * 3, g_entry(&mut r))).collect(),
        _ => v.kents = (0..n.min(5000)).map(|i| (Key { id: i as u32, mode }, g_entry(&mut r))).collect(),
    }
    desc(&format!("focus={focus} n={n} mode={mode}"));
    let (_b, node) = store(ctx, &v);
    if node.kids.len() == 7 {
        probe_n("map_buckets", node.kids[focus as usize].kids.len() as u64);
        if node.kids[focus as usize].kids.len() > 1 {
            probe("multi_bucket_maps");
        }
    }
    let file = open_some(ctx, "/simfs/r.par");
    if ctx.chance(1, 2) {
        phase("sweep");
        let lz = match nopanic("root", catch(|| file.root::<Db>())) {
            Ok(l) => l,
            Err(e) => viol!("read-failed", "lazy root failed: {e}"),
        };
        let cap = if mode == 0 && matches!(focus, 1 | 6) { 60 } else { 400 };
        sweep("plain", &lz.plain, &v.plain, |k| k ^ 1, cap);
        sweep("coll", &lz.coll, &v.coll, |k| Key { id: k.id ^ 0x4000_0000, mode: k.mode }, cap);
        sweep("strs", &lz.strs, &v.strs, |k| format!("{k}x"), cap);
        sweep("single", &lz.single, &v.single, |k| k.wrapping_add(1), cap);
        sweep("entries", &lz.entries, &v.entries, |k| k + 1, cap);
        sweep("kents", &lz.kents, &v.kents, |k| Key { id: k.id ^ 0x4000_0000, mode: k.mode }, cap);
        sweep("blob", &lz.blob, &v.blob, |k| k.wrapping_add(1), cap);
    }
    phase("load");
    match nopanic("load", catch(|| file.load::<Db>())) {
        Ok(x) => ensure!(x == v, "wrong-value", "loaded maps differ: {}", v.diff(&x)),
        Err(e) => viol!("load-failed", "{e}"),
    }
    readers(ctx, 3, 40, |cx| look_db(&file, &v, &node, cx, focus));
}

/// Known finding: lazy lookups of map values with an inline field after a chunked one.
pub fn c12_odd(ctx: &mut Ctx) {
    let v = OddDb { odd: (0..40u32).map(|i| (i, Odd { inv: (0..i % 5).map(|k| 1000 + k).collect(), level: i * 7 })).collect() };
    set_cpus(draw_cpus(ctx));
    let mut b = vec![];
    if let Err(e) = nopanic("write", catch(|| Parcode::write_sync(&mut b, &v))) {
        viol!("write-failed", "{e}");
    }
    let file = match nopanic("open", catch(|| Parcode::open_bytes(b))) {
        Ok(f) => f,
        Err(e) => viol!("open-failed", "{e}"),
    };
    match nopanic("load", catch(|| file.load::<OddDb>())) {
        Ok(x) => ensure!(x == v, "wrong-value", "{x:?}"),
        Err(e) => viol!("load-failed", "{e}"),
    }
    let lz = match nopanic("root", catch(|| file.root::<OddDb>())) {
        Ok(l) => l,
        Err(e) => viol!("read-failed", "{e}"),
    };
    for (k, x) in &v.odd {
        match nopanic("get", catch(|| lz.odd.get(k))) {
            Ok(y) => ensure!(y.as_ref() == Some(x), "wrong-value", "get({k}) returned {y:?}"),
            Err(e) => viol!("read-failed", "get({k}): {e}"),
        }
        let good = matches!(nopanic("get_lazy", catch(|| lz.odd.get_lazy(k))), Ok(Some(l)) if l.level == x.level && matches!(l.inv.load(), Ok(i) if i == x.inv));
        if !good {
            known("map-value-field-order");
        }
        eval1();
    }
}

// ------------------------------------------------------------------ C13
pub fn c13(ctx: &mut Ctx) {
    let kind = ctx.pick(&[1u64, 0, 3, 5, 6, 2, 4, 10, 14, 19, 1, 18, 20, 22, 23, 24, 25]);
    dispatch_lazy!(kind, c13_t, ctx, kind, 100)
}
fn c13_t<T: LazyModel>(ctx: &mut Ctx, kind: u64, scale: u64) {
    let n = lazy_size(ctx, kind, if ctx.thorough { scale * 3 } else { scale });
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    let (_b, node) = store(ctx, &v);
    let file = open_some(ctx, "/simfs/r.par");
    readers(ctx, 3, 60, |cx| explore::<T>(&file, &v, &node, cx, true));
}

// ------------------------------------------------------------------ C15
pub fn c15(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_LAZY - 1);
    dispatch_lazy!(kind, c15_t, ctx, kind)
}
fn c15_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = lazy_size(ctx, kind, 100);
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    let (b, node) = store(ctx, &v);
    let many = ctx.pick(&[1u64, 1, 3, 10, 60]);
    let (bad, set) = damage_leaves(&mut Rng(ctx.draw(0, 1 << 32)), &b, &node, many);
    probe_n("fault.damaged_leaf", set.len() as u64);
    fs_put("/simfs/r.par", &bad);
    let file = open_some(ctx, "/simfs/r.par");
    let cap = Mem::Cap((128 << 20) + 1000 * b.len() as i64);
    let single = ctx.chance(1, 2);
    readers(ctx, if single { 1 } else { 3 }, 60, |cx| {
        cx.damaged = set.iter().copied().collect();
        if single {
            cx.mem = cap;
        }
        cx.label = "leaf damage: ";
        explore::<T>(&file, &v, &node, cx, true)
    });
    // the same open file keeps working for parts that are intact, and other files are unaffected
    let copy = match nopanic("open", catch(|| Parcode::open_bytes(b.clone()))) {
        Ok(f) => f,
        Err(e) => viol!("open-failed", "{e}"),
    };
    match nopanic("load", catch(|| copy.load::<T>())) {
        Ok(x) => ensure!(x == v, "wrong-value", "undamaged copy loads as another value"),
        Err(e) => viol!("load-failed", "undamaged copy: {e}"),
    }
}

// ------------------------------------------------------------------ C18
pub fn c18(ctx: &mut Ctx) {
    let kind = ctx.pick(&[15u64, 8, 0, 9, 4, 1, 6, 7, 11, 16, 21, 19, 3, 2, 2]);
    if kind == 2 {
        let n = ctx.draw(4000, if ctx.thorough { 40_000 } else { 14_000 }) as usize;
        let mut r = Rng(ctx.draw(0, 1 << 32));
        let mut v = g_db(&mut r, 20);
        let focus = ctx.pick(&[0u64, 2, 5]);
        match focus {
            0 => v.plain = (0..n).map(|i| (i as u64 * 3, g_plain(&mut r))).collect(),
            2 => v.strs = (0..n).map(|i| (i.to_string(), (0..r.below(9)).map(|_| r.next() as u16).collect())).collect(),
            _ => v.entries = (0..n / 2).map(|i| (i as u32 * 3, g_entry(&mut r))).collect(),
        }
        return c18_v(ctx, kind, n, v, |f, v, n, cx| look_db(f, v, n, cx, focus));
    }
    dispatch_lazy!(kind, c18_t, ctx, kind)
}
fn c18_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = match kind {
        15 | 7 | 16 | 21 => 150_000,
        9 => 1_000_000,
        8 | 11 => 40_000,
        0 | 6 => 5000,
        4 => 25_000,
        19 => 2000,
        1 => 800,
        _ => 4000,
    };
    let n = n * ctx.draw(2, if ctx.thorough { 20 } else { 8 }) as usize / 8;
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    c18_v(ctx, kind, n, v, |f, v, n, cx| explore::<T>(f, v, n, cx, false));
}
fn c18_v<T: LazyModel>(ctx: &mut Ctx, kind: u64, n: usize, v: T, look: impl Fn(&ParcodeFile, &T, &Node, &mut Look)) {
    // many processors make small shards, so that one shard is much less than the file
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    let how = ctx.pick(&[How::SaveSync, How::SaveSync, How::SaveSync, How::Save]);
    set_cpus(if how == How::Save { 6 } else { ctx.pick(&[64, 16, 8]) });
    phase("write");
    desc(&format!("{} n={n} {how:?} comp={comp}", T::NAME));
    if let Err(e) = nopanic("write", catch(|| write_value(&v, how, comp, true, "/simfs/r.par"))) {
        viol!("write-failed", "{e}");
    }
    let b = fs_get("/simfs/r.par").unwrap();
    let node = match reff::parse(&b) {
        Ok(n) => n,
        Err(e) => viol!("bad-layout", "{e}"),
    };
    set_cpus(ctx.pick(&[1, 2, 4]));
    let mut all = vec![];
    node.walk(&mut all);
    let kids = all.iter().map(|n| n.kids.len()).max().unwrap_or(0);
    let chunk = all.iter().map(|n| n.payload.len() + n.raw.len()).max().unwrap_or(0);
    let whole: usize = all.iter().map(|n| n.payload.len()).sum();
    // a ChunkNode is 56 bytes; elements may take several times their encoding
    let grow = match kind { 2 => 2, 7 | 9 | 15 | 16 | 21 => 3, _ => 5 };
    let cap = 40_000 + 130 * kids as i64 + grow * chunk as i64;
    if (cap as usize) < whole {
        probe("memory_smaller_than_file");
    }
    probe_n("file_bytes", b.len() as u64);
    drop(b);
    // starting the worker threads is not part of what is measured
    #[cfg(feature = "parallel")]
    rayon::broadcast(|_| ());
    phase("open");
    unsafe { sim_mem_cap(24_000) };
    let f = catch(|| Parcode::open("/simfs/r.par"));
    unsafe { sim_mem_cap(-1) };
    let file = match nopanic("open", f) {
        Ok(f) => f,
        Err(e) => viol!("open-failed", "{e}"),
    };
    phase("read");
    let mut cx = Look::new(ctx.draw(0, 1 << 32), ctx.draw(4, 40) as i64);
    cx.lazy_only = true;
    cx.mem = Mem::Cap(cap);
    probe("fault.small_memory");
    unsafe { sim_mem_reset_peak() };
    look(&file, &v, &node, &mut cx);
    if std::env::var_os("C18_CAL").is_some() {
        let t = 40_000 + 130 * kids as i64;
        eprintln!("CAL {} kids={kids} chunk={chunk} whole={whole} cap={cap} peak={} x{:.2}", T::NAME, cx.peak, (cx.peak - t) as f64 / chunk as f64);
    }
}
// ------------------------------------------------------------------ C20
pub fn c20(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_LAZY - 1);
    if kind == 2 || ctx.chance(1, 5) {
        let mut r = Rng(ctx.draw(0, 1 << 32));
        let n = if ctx.chance(1, 3) { ctx.draw(3000, 7000) } else { ctx.size(100) } as usize;
        let v = g_db(&mut r, n);
        return c20_v(ctx, v);
    }
    dispatch_lazy!(kind, c20_t, ctx, kind)
}
fn c20_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = lazy_size(ctx, kind, 100);
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    c20_v(ctx, v)
}
fn c20_v<T: LazyModel>(ctx: &mut Ctx, v: T) {
    let (b, node) = store(ctx, &v);
    let place = draw_place(ctx);
    phase("inspect");
    let way = ctx.draw(0, 4);
    let get = |p: &str| nopanic("inspect", catch(|| at(place, || match way {
        0 => parcode::inspector::ParcodeInspector::inspect(p),
        1 => Parcode::open(p).and_then(|f| f.inspect()),
        2 => Parcode::inspect_bytes(fs_get(p).unwrap()),
        3 => Parcode::inspect(p),
        _ => Parcode::open_bytes(fs_get(p).unwrap()).and_then(|f| f.inspect()),
    })));
    let rep = match get("/simfs/r.par") {
        Ok(r) => r,
        Err(e) => viol!("inspect-failed", "{e}"),
    };
    ensure!(rep.file_size == b.len() as u64, "wrong-report", "file size {} instead of {}", rep.file_size, b.len());
    ensure!(rep.root_offset == node.off, "wrong-report", "root at {} instead of {}", rep.root_offset, node.off);
    ensure!(rep.global_version == 4, "wrong-report", "version {}", rep.global_version);
    let mut shapes = HashMap::new();
    T::shape(&node, &mut shapes);
    probe_n("containers", shapes.len() as u64);
    fn cmp(c: &parcode::inspector::ChunkInfo, n: &Node, shapes: &HashMap<u64, Shape>) {
        let w = |ok: bool, what: &str| {
            if !ok {
                viol!("wrong-report", "chunk at {}: reported {what} differs: offset {} length {} payload {} children {} / {} compression {} chunkable {} {} {:?}; the chunk is {}+{} payload {} children {} meta {}",
                    n.off, c.offset, c.total_length, c.payload_size, c.child_count, c.children.len(), c.compression_algo, c.is_chunkable, c.node_type_hint, c.distribution_info,
                    n.off, n.len, n.raw.len(), n.kids.len(), n.meta);
            }
        };
        w(c.offset == n.off, "offset");
        w(c.total_length == n.len, "length");
        w(c.payload_size == n.raw.len() as u64, "payload size");
        w(c.child_count as usize == n.kids.len() && c.children.len() == n.kids.len(), "child count");
        w(c.is_chunkable == (n.meta & 1 != 0), "chunkable flag");
        w(c.compression_algo == if n.meta >> 1 & 7 == 0 { "None" } else { "LZ4" }, "compression");
        match shapes.get(&n.off) {
            Some(Shape::Vec { items, shards }) => {
                w(c.node_type_hint == "Vec Container", "kind");
                w(c.distribution_info.as_deref() == Some(&format!("Vec<{items}> items across {shards} logical shards")), "vector layout");
            }
            Some(Shape::Map { buckets }) => {
                w(c.node_type_hint == "Map Container", "kind");
                w(c.distribution_info.as_deref() == Some(&format!("Hashtable with {buckets} buckets")), "bucket count");
            }
            None => {}
        }
        for (a, b) in c.children.iter().zip(&n.kids) {
            cmp(a, b, shapes);
        }
    }
    cmp(&rep.tree, &node, &shapes);
    let text = format!("{rep}");
    ensure!(text.lines().filter(|l| l.contains("── [")).count() == node.count(), "wrong-report", "the printed report does not list {} chunks", node.count());
    eval1();
    phase("inspect-damaged");
    let (bad, set) = damage_leaves(&mut Rng(ctx.draw(0, 1 << 32)), &b, &node, 5);
    if set.is_empty() {
        return;
    }
    probe_n("fault.damaged_leaf", set.len() as u64);
    fs_put("/simfs/bad.par", &bad);
    match get("/simfs/bad.par") {
        Ok(r) => ensure!(format!("{r:?}") == format!("{rep:?}") && format!("{r}") == text, "wrong-report", "leaf damage changed the report"),
        Err(e) => viol!("inspect-failed", "leaf damage: {e}"),
    }
    eval1();
}
