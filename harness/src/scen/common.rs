//! Shared pieces of scenarios: how a client writes and reads a value.
#![allow(dead_code)]
use crate::model::*;
use crate::sim::*;
use crate::viol;
use parcode::{Parcode, ParcodeError};

pub const HAS_LZ4: bool = cfg!(feature = "lz4");
pub const PARALLEL: bool = cfg!(feature = "parallel");

/// Where the calling client runs: which pool serves it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Global,
    Pool(usize),        // installed in its own pool of n threads
    NestedPool(usize),  // inside a task spawned in its own pool, next to other tasks
}
pub fn draw_place(ctx: &mut Ctx) -> Place {
    if !PARALLEL {
        return Place::Global;
    }
    match ctx.draw(0, 5) {
        0..=2 => Place::Global,
        3 => Place::Pool(1),
        4 => Place::Pool(ctx.draw(2, 6) as usize),
        _ => Place::NestedPool(ctx.draw(1, 4) as usize),
    }
}
/// Runs `f` where `p` says. (Through a trait object: one instance of the pool's generics for all callers.)
#[cfg(feature = "parallel")]
pub fn at<T: Send>(p: Place, f: impl FnOnce() -> T + Send) -> T {
    let (mut out, mut f) = (None, Some(f));
    at_dyn(p, &mut || out = f.take().map(|f| f()));
    out.expect("ran")
}
#[cfg(feature = "parallel")]
fn at_dyn(p: Place, f: &mut (dyn FnMut() + Send)) {
    match p {
        Place::Global => f(),
        Place::Pool(n) => pool(n).install(f),
        Place::NestedPool(n) => pool(n).scope(|s| {
            for i in 0..2u64 {
                s.spawn(move |_| {
                    let mut x = i;
                    for _ in 0..3 {
                        let (a, b) = rayon::join(|| mix(x), || mix(x ^ 1));
                        x = a ^ b;
                    }
                    std::hint::black_box(x);
                });
            }
            s.spawn(move |_| f());
        }),
    }
}
#[cfg(feature = "parallel")]
pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}
#[cfg(not(feature = "parallel"))]
pub fn at<T>(_p: Place, f: impl FnOnce() -> T) -> T {
    f()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Save,
    SaveSync,
    WriteVec,
    WriteSyncVec,
    Serialize,
}
pub fn draw_how(ctx: &mut Ctx) -> How {
    ctx.pick(&[How::Save, How::WriteVec, How::Serialize, How::Save, How::Save, How::SaveSync, How::WriteSyncVec])
}
/// Saves `v`; file-based ways leave it at `path`, memory-based ways return bytes.
pub fn write_value<T: Model>(v: &T, how: How, comp: bool, builder: bool, path: &str) -> Result<Option<Vec<u8>>, ParcodeError> {
    let b = || Parcode::builder().compression(comp);
    let b_plain = !comp && !builder;
    match how {
        How::Save => {
            if b_plain { Parcode::save(path, v)? } else { b().save(path, v)? }
            Ok(None)
        }
        How::SaveSync => {
            if b_plain { Parcode::save_sync(path, v)? } else { b().save_sync(path, v)? }
            Ok(None)
        }
        How::WriteVec => {
            let mut o = Vec::new();
            if b_plain { Parcode::write(&mut o, v)? } else { b().write(&mut o, v)? }
            Ok(Some(o))
        }
        How::WriteSyncVec => {
            let mut o = Vec::new();
            if b_plain { Parcode::write_sync(&mut o, v)? } else { b().write_sync(&mut o, v)? }
            Ok(Some(o))
        }
        How::Serialize => {
            if comp {
                let mut o = Vec::new();
                b().write(&mut o, v)?;
                Ok(Some(o))
            } else {
                Ok(Some(Parcode::serialize(v)?))
            }
        }
    }
}
pub fn read_value<T: Model>(bytes: Option<&[u8]>, path: &str, way: u64) -> Result<T, ParcodeError> {
    match (bytes, way) {
        (Some(b), 0) => Parcode::load_bytes(b.to_vec()),
        (Some(b), 1) => Parcode::open_bytes(b.to_vec())?.load(),
        (Some(b), _) => {
            fs_put("/simfs/copy.par", b);
            Parcode::load("/simfs/copy.par")
        }
        (None, 0) => Parcode::load(path),
        (None, 1) => Parcode::open(path)?.load(),
        (None, _) => Parcode::load_bytes(fs_get(path).unwrap_or_default()),
    }
}
/// The produced bytes, wherever they went.
pub fn out_bytes(o: &Option<Vec<u8>>, path: &str) -> Vec<u8> {
    match o {
        Some(b) => b.clone(),
        None => fs_get(path).unwrap_or_default(),
    }
}
/// Unwraps a catch result, reporting a panic as a violation.
pub fn nopanic<T>(what: &str, r: Result<T, String>) -> T {
    match r {
        Ok(v) => v,
        Err(m) => viol!("panic", "{what} panicked: {m}"),
    }
}
pub fn draw_cpus(ctx: &mut Ctx) -> i32 {
    ctx.pick(&[1, 2, 3, 4, 6, 8, 16, 64])
}
pub fn set_cpus(n: i32) {
    unsafe { sim_set_cpus(n) }
}
