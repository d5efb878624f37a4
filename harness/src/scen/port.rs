//! C19: files written by one build and read by another.
use super::common::*;
use super::look::*;
use super::read::readers;
use crate::model::*;
use crate::reff::{self, Node};
use crate::sim::*;
use crate::{dispatch_lazy, ensure, viol};
use parcode::{Parcode, ParcodeFile};
use std::sync::Mutex;

struct Port {
    peer: String,
    wseed: u64,
    data: Vec<u8>,
}
static PORT: Mutex<Option<Port>> = Mutex::new(None);
/// The file for the next run: a line of settings, then the content.
pub fn set(peer: &str, wseed: u64, data: Vec<u8>) {
    *PORT.lock().unwrap() = Some(Port { peer: peer.into(), wseed, data });
}

/// Writes one file to the path in C19_OUT (outside the simulation).
pub fn c19_write(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_LAZY - 1);
    dispatch_lazy!(kind, write_t, ctx, kind)
}
fn write_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = lazy_size(ctx, kind, 100);
    let large = ctx.chance(1, 50);
    let n = if large { probe("large_value"); n + ctx.draw(1, match kind { 9 => 1_600_000, 7 | 15 | 16 | 21 => 300_000, 4 | 8 | 11 => 30_000, 0 | 6 => 1500, _ => 1 }) as usize } else { n };
    let vseed = ctx.draw(0, 1 << 32);
    let v = T::make(&mut Rng(vseed), n);
    let how = draw_how(ctx);
    let comp = ctx.chance(1, 3); // (asked for even where the build lacks it and falls back to none)
    let place = draw_place(ctx);
    set_cpus(draw_cpus(ctx));
    phase("write");
    desc(&format!("{} n={n} vseed={vseed} {how:?} comp={comp} {place:?}", T::NAME));
    let o = nopanic("write", catch(|| at(place, || write_value(&v, how, comp, true, "/simfs/p.par"))));
    let b = match o {
        Ok(o) => out_bytes(&o, "/simfs/p.par"),
        Err(e) => viol!("write-failed", "{e}"),
    };
    let Ok(out) = std::env::var("C19_OUT") else { return };
    let mut d = format!("{kind} {n} {vseed} {}\n", comp as u8).into_bytes();
    d.extend_from_slice(&b);
    let tmp = format!("{out}.{}", unsafe { libc::getpid() });
    std::fs::write(&tmp, &d).expect("export");
    std::fs::rename(&tmp, &out).expect("export");
}

pub fn c19(ctx: &mut Ctx) {
    let p = PORT.lock().unwrap().take().expect("a file was prepared");
    let nl = p.data.iter().position(|&b| b == b'\n').expect("settings");
    let f: Vec<u64> = std::str::from_utf8(&p.data[..nl]).unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
    desc(&format!("written by build {} (seed {}): kind {} n={} vseed={} comp={}", p.peer, p.wseed, f[0], f[1], f[2], f[3]));
    probe(&format!("read_from_{}", p.peer));
    let bytes = p.data[nl + 1..].to_vec();
    dispatch_lazy!(f[0], read_t, ctx, f[1] as usize, f[2], bytes)
}
fn codecs(n: &Node, out: &mut Vec<u64>) {
    if n.meta >> 1 & 7 != 0 {
        out.push(n.off);
    }
    n.kids.iter().for_each(|k| codecs(k, out));
}
fn read_t<T: LazyModel>(ctx: &mut Ctx, n: usize, vseed: u64, bytes: Vec<u8>) {
    let v = T::make(&mut Rng(vseed), n);
    let node = match reff::parse(&bytes) {
        Ok(x) => x,
        Err(e) => viol!("bad-layout", "{e}"),
    };
    let mut missing = vec![];
    if !HAS_LZ4 {
        codecs(&node, &mut missing);
        probe_n("chunks_of_missing_codec", missing.len() as u64);
    }
    set_cpus(draw_cpus(ctx));
    fs_put("/simfs/p.par", &bytes);
    phase("read");
    let open = |way: u64| -> ParcodeFile {
        match nopanic("open", catch(|| if way == 0 { Parcode::open("/simfs/p.par") } else { Parcode::open_bytes(bytes.clone()) })) {
            Ok(f) => f,
            Err(e) => viol!("open-failed", "{e}"),
        }
    };
    let place = draw_place(ctx);
    let (w1, w2) = (ctx.draw(0, 2), ctx.draw(0, 1));
    let r = nopanic("load", catch(|| at(place, || read_value::<T>(None, "/simfs/p.par", w1))));
    eval1();
    match r {
        Ok(x) => {
            ensure!(missing.is_empty(), "missing-codec", "{} chunks are compressed in a way this build lacks, yet the file loads", missing.len());
            ensure!(x == v, "wrong-value", "loaded value differs: {}", v.diff(&x));
        }
        Err(e) => ensure!(!missing.is_empty(), "read-failed", "load failed: {e}"),
    }
    let file = open(w2);
    match nopanic("inspect", catch(|| file.inspect().map(|_| ()))) {
        Ok(()) => {}
        Err(e) => ensure!(!missing.is_empty(), "read-failed", "inspect failed: {e}"),
    }
    readers(ctx, 2, 40, |cx| {
        cx.damaged = missing.iter().copied().collect();
        explore::<T>(&file, &v, &node, cx, true)
    });
}
