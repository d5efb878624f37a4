//! Files larger than 4 GiB: offsets that need more than 32 bits. The bulk is zero bytes, which the
//! simulated file system does not store.
use super::common::*;
use crate::model::*;
use crate::sim::*;
use crate::{ensure, viol};
use parcode::format::ChildRef;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::rt::ParcodeLazyRef;
use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeError, ParcodeFile};
use std::collections::HashMap;

struct Fill {
    tag: u64,
    len: usize,
}
struct Huge {
    fill: Vec<Fill>,
    list: Vec<u64>,
    recs: Vec<Plain>,
    map: HashMap<u64, String>,
}
struct FillJob<'a>(&'a Fill);
impl<'a> SerializationJob<'a> for FillJob<'a> {
    fn execute(&self, _: &[ChildRef]) -> Result<Vec<u8>, ParcodeError> {
        let mut v = vec![0u8; self.0.len];
        v[..8].copy_from_slice(&self.0.tag.to_le_bytes());
        let n = v.len();
        v[n - 8..].copy_from_slice(&(!self.0.tag).to_le_bytes());
        Ok(v)
    }
    fn estimated_size(&self) -> usize {
        self.0.len
    }
}
struct Top(usize);
impl<'a> SerializationJob<'a> for Top {
    fn execute(&self, kids: &[ChildRef]) -> Result<Vec<u8>, ParcodeError> {
        if kids.len() != self.0 {
            return Err(ParcodeError::Serialization("wrong number of children".into()));
        }
        Ok(b"top".to_vec())
    }
    fn estimated_size(&self) -> usize {
        3
    }
}
impl ParcodeVisitor for Huge {
    fn visit<'a>(&'a self, g: &mut TaskGraph<'a>, parent: Option<ChunkId>, cfg: Option<JobConfig>) {
        let id = g.add_node(self.create_job(cfg));
        if let Some(p) = parent {
            g.link_parent_child(p, id);
        }
        for f in &self.fill {
            let k = g.add_node(Box::new(FillJob(f)));
            g.link_parent_child(id, k);
        }
        self.list.visit(g, Some(id), None);
        self.recs.visit(g, Some(id), None);
        self.map.visit(g, Some(id), Some(JobConfig { compression_id: 0, is_map: true }));
    }
    fn create_job<'a>(&'a self, _: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        Box::new(Top(self.fill.len() + 3))
    }
}
const P: &str = "/simfs/huge.par";
fn part(off: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    let c = cpath(P);
    let got = unsafe { sim_fs_get(c.as_ptr(), off, v.as_mut_ptr(), n as u64) };
    ensure!(got == n as i64, "bad-layout", "the file ends inside a structure at {off}+{n}");
    v
}
fn u64at(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
}
/// (offset, length) of every chunk, children of a chunk in order, starting with the root.
fn tile(off: u64, len: u64, out: &mut Vec<(u64, u64)>, top: &mut Vec<(u64, u64)>, depth: usize) {
    ensure!(len > 0 && depth < 10, "bad-layout", "chunk {off}+{len} at depth {depth}");
    out.push((off, len));
    let meta = part(off + len - 1, 1)[0];
    if meta & 1 == 0 {
        return;
    }
    ensure!(len >= 5, "bad-layout", "chunk {off}+{len} has no room for a child count");
    let n = u32::from_le_bytes(part(off + len - 5, 4).try_into().unwrap()) as u64;
    ensure!(n > 0 && n * 16 + 5 <= len, "bad-layout", "chunk {off}+{len} claims {n} children");
    let foot = part(off + len - 5 - n * 16, n as usize * 16);
    for i in 0..n as usize {
        let (o, l) = (u64at(&foot, i * 16), u64at(&foot, i * 16 + 8));
        ensure!(o.checked_add(l).is_some_and(|e| e <= off), "bad-layout", "child {i} of chunk {off}+{len} at {o}+{l} does not lie before it");
        if depth == 0 {
            top.push((o, l));
        }
        tile(o, l, out, top, depth + 1);
    }
}
fn go(ctx: &mut Ctx, read: bool) {
    let mb = ctx.pick(&[64u64, 96, 128]);
    let n = (ctx.draw(4300, 5200) / mb).max(34);
    let seed = ctx.draw(0, 1 << 32);
    let r = &mut Rng(seed);
    let fill = (0..n).map(|i| Fill { tag: i + 1, len: (mb << 20) as usize + r.below(100) as usize }).collect();
    let list: Vec<u64> = Model::make(r, 6000);
    let recs: Vec<Plain> = Model::make(r, 400);
    let map = (0..300).map(|_| (r.next(), format!("v{}", r.below(1000)))).collect();
    let v = Huge { fill, list, recs, map };
    let place = ctx.pick(&[Place::Global, Place::Pool(1), Place::Pool(2), Place::Pool(3)]);
    let sync = ctx.chance(1, 4);
    set_cpus(draw_cpus(ctx).min(4));
    desc(&format!("{n} chunks of {mb} MiB, sync={sync} {place:?}"));
    phase("write");
    let w = nopanic("write", catch(|| at(place, || if sync { Parcode::save_sync(P, &v) } else { Parcode::save(P, &v) })));
    if let Err(e) = w {
        viol!("write-failed", "writing {n} chunks of {mb} MiB failed without any fault: {e}");
    }
    phase("layout");
    let size = fs_size(P) as u64;
    let h = part(size - 26, 26);
    ensure!(&h[..6] == b"PAR4\x04\x00" && size > 1 << 32, "bad-layout", "no trailer at the end of {size} bytes");
    let (ro, rl) = (u64at(&h, 6), u64at(&h, 14));
    ensure!(ro.checked_add(rl) == Some(size - 26), "bad-layout", "root chunk {ro}+{rl} does not end at the trailer ({})", size - 26);
    let (mut all, mut top) = (vec![], vec![]);
    tile(ro, rl, &mut all, &mut top, 0);
    all.sort();
    let mut pos = 0;
    for (o, l) in &all {
        ensure!(*o == pos, "bad-layout", "gap or overlap: chunk at {o}, expected {pos}");
        pos += l;
    }
    ensure!(pos == size - 26, "bad-layout", "chunks end at {pos}, trailer starts at {}", size - 26);
    ensure!(top.len() == v.fill.len() + 3, "bad-layout", "{} children under the root", top.len());
    for (f, (o, l)) in v.fill.iter().zip(&top) {
        let ok = *l == f.len as u64 + 1 && u64at(&part(*o, 8), 0) == f.tag && u64at(&part(o + l - 9, 8), 0) == !f.tag;
        ensure!(ok, "bad-layout", "chunk {o}+{l} does not hold piece {}", f.tag);
    }
    probe_n("chunks_beyond_4gib", all.iter().filter(|x| x.0 > u32::MAX as u64).count() as u64);
    eval1();
    if !read {
        return;
    }
    phase("read");
    let open = || -> Result<(), ParcodeError> {
        let f = ParcodeFile::open(P)?;
        ensure!(f.file_size() == size, "wrong-value", "file_size() is {} of {size}", f.file_size());
        let kids = f.root_node()?.children()?;
        ensure!(kids.len() == top.len(), "wrong-value", "{} children of the root", kids.len());
        for (i, p) in v.fill.iter().enumerate() {
            ensure!((kids[i].offset(), kids[i].length()) == top[i], "wrong-value", "child {i} at {}+{}", kids[i].offset(), kids[i].length());
            let one = f.root_node()?.get_child_by_index(i)?;
            let b = one.read_raw()?;
            let ok = b.len() == p.len && u64at(&b, 0) == p.tag && u64at(&b, b.len() - 8) == !p.tag;
            ensure!(ok, "wrong-value", "child {i} does not hold piece {}", p.tag);
        }
        let k = v.fill.len();
        let list = <Vec<u64> as ParcodeLazyRef>::create_lazy(kids[k].clone())?;
        ensure!(list.load()? == v.list, "wrong-value", "the list differs");
        for i in (0..v.list.len()).step_by(97) {
            ensure!(list.get(i)? == v.list[i], "wrong-value", "element {i} of the list differs");
        }
        let all: Result<Vec<u64>, _> = list.iter()?.collect();
        ensure!(all? == v.list, "wrong-value", "iterating the list differs");
        let recs = <Vec<Plain> as ParcodeLazyRef>::create_lazy(kids[k + 1].clone())?;
        ensure!(recs.load()? == v.recs, "wrong-value", "the records differ");
        for i in (0..v.recs.len()).step_by(13) {
            ensure!(recs.get(i)? == v.recs[i], "wrong-value", "record {i} differs");
        }
        let map = <HashMap<u64, String> as ParcodeLazyRef>::create_lazy(kids[k + 2].clone())?;
        ensure!(map.load()? == v.map, "wrong-value", "the map differs");
        for (q, x) in v.map.iter().take(40) {
            ensure!(map.get(q)?.as_ref() == Some(x), "wrong-value", "map entry {q} differs");
        }
        Ok(())
    };
    match nopanic("read", catch(|| open())) {
        Ok(()) => {}
        Err(e) => viol!("load-failed", "reading a file of {size} bytes failed: {e}"),
    }
    eval1();
}
pub fn c01(ctx: &mut Ctx) {
    go(ctx, true)
}
pub fn c03(ctx: &mut Ctx) {
    go(ctx, false)
}
