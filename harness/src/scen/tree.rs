//! Job trees: a client-defined visitor and job type (public extension points), with jobs that return errors,
//! panic, use the pool themselves or write nested values.
#![allow(dead_code)]
use crate::reff::Node;
use crate::sim::*;
use parcode::format::ChildRef;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeError};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Fine,
    Err,
    Panic,
    /// yields a few times
    Slow(u8),
    /// uses the pool from inside the job
    Join(u8),
    Scope(u8),
    /// writes another value from inside the job
    Write,
}
pub struct JNode {
    pub id: u32,
    pub len: u32,
    pub comp: u8,
    pub act: Act,
    pub kids: Vec<JNode>,
    pub log: Arc<JLog>,
}
#[derive(Default)]
pub struct JLog {
    pub running: AtomicU64,
    pub started: AtomicU64,
    pub finished: AtomicU64,
    pub max_running: AtomicU64,
    /// failures that really happened
    pub errors: Mutex<Vec<u32>>,
    pub panics: Mutex<Vec<u32>>,
    pub odd: Mutex<Vec<String>>,
}
pub fn payload(id: u32, len: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize + 12);
    v.extend_from_slice(&id.to_le_bytes());
    v.extend_from_slice(&len.to_le_bytes());
    let x = mix(id as u64);
    while v.len() < len as usize + 8 {
        v.extend_from_slice(&(x.wrapping_mul(v.len() as u64 / 64 + 1)).to_le_bytes());
    }
    v.truncate(len as usize + 8);
    v
}
struct Guard<'a>(&'a JLog);
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        self.0.running.fetch_sub(1, SeqCst);
        self.0.finished.fetch_add(1, SeqCst);
    }
}
struct JJob<'a>(&'a JNode);
impl<'a> SerializationJob<'a> for JJob<'a> {
    fn execute(&self, kids: &[ChildRef]) -> Result<Vec<u8>, ParcodeError> {
        let n = self.0;
        let l = &*n.log;
        l.started.fetch_add(1, SeqCst);
        let r = l.running.fetch_add(1, SeqCst) + 1;
        let _g = Guard(l);
        l.max_running.fetch_max(r, SeqCst);
        if kids.len() != n.kids.len() {
            l.odd.lock().unwrap().push(format!("job {} ran with {} child references instead of {}", n.id, kids.len(), n.kids.len()));
        }
        match n.act {
            Act::Fine => {}
            Act::Err => {
                l.errors.lock().unwrap().push(n.id);
                return Err(ParcodeError::Serialization(format!("boom-{}.", n.id)));
            }
            Act::Panic => {
                l.panics.lock().unwrap().push(n.id);
                panic!("kaboom-{}.", n.id);
            }
            Act::Slow(k) => {
                for _ in 0..k {
                    unsafe { sim_yield() };
                }
            }
            #[cfg(feature = "parallel")]
            Act::Join(k) => {
                fn go(k: u8) -> u64 {
                    if k == 0 { 1 } else { let (a, b) = rayon::join(|| go(k - 1), || go(k - 1)); a + b }
                }
                if go(k) != 1 << k {
                    l.odd.lock().unwrap().push("join lost work".into());
                }
            }
            #[cfg(feature = "parallel")]
            Act::Scope(k) => {
                let c = AtomicU64::new(0);
                rayon::scope(|s| {
                    for _ in 0..k {
                        s.spawn(|_| {
                            c.fetch_add(1, SeqCst);
                        });
                    }
                });
                if c.load(SeqCst) != k as u64 {
                    l.odd.lock().unwrap().push("scope lost work".into());
                }
            }
            #[cfg(not(feature = "parallel"))]
            Act::Join(_) | Act::Scope(_) => {}
            Act::Write => {
                let v: Vec<u32> = (0..3000).map(|x| x * 7 + n.id).collect();
                let mut o = Vec::new();
                match Parcode::write(&mut o, &v).and_then(|()| Parcode::load_bytes::<Vec<u32>>(o)) {
                    Ok(x) if x == v => {}
                    r => l.odd.lock().unwrap().push(format!("nested write went wrong: {:?}", r.map(|x| x.len()))),
                }
            }
        }
        Ok(payload(n.id, n.len))
    }
    fn estimated_size(&self) -> usize {
        self.0.len as usize
    }
    fn config(&self) -> JobConfig {
        JobConfig { compression_id: self.0.comp, is_map: false }
    }
}
impl ParcodeVisitor for JNode {
    fn visit<'a>(&'a self, graph: &mut TaskGraph<'a>, parent: Option<ChunkId>, cfg: Option<JobConfig>) {
        let id = graph.add_node(self.create_job(cfg));
        if let Some(p) = parent {
            graph.link_parent_child(p, id);
        }
        for k in &self.kids {
            k.visit(graph, Some(id), None);
        }
    }
    fn create_job<'a>(&'a self, _: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        Box::new(JJob(self))
    }
}
impl JNode {
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn each(&mut self, f: &mut impl FnMut(&mut JNode)) {
        f(self);
        for k in &mut self.kids {
            k.each(f);
        }
    }
    /// Does the parsed output hold exactly this tree?
    pub fn check(&self, n: &Node, comp: bool, lz4: bool) -> Result<(), String> {
        if n.payload != payload(self.id, self.len) {
            let got = n.payload.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
            return Err(format!("chunk at {} holds {} bytes of job {got:?} instead of job {}", n.off, n.payload.len(), self.id));
        }
        let want = if self.comp == 0 && comp { 1 } else { self.comp };
        let want = if want == 1 && !lz4 { 0 } else { want };
        if (n.meta >> 1) & 7 != want {
            return Err(format!("job {} stored with compression {} instead of {want}", self.id, (n.meta >> 1) & 7));
        }
        if n.kids.len() != self.kids.len() {
            return Err(format!("job {} has {} children instead of {}", self.id, n.kids.len(), self.kids.len()));
        }
        for (k, c) in self.kids.iter().zip(&n.kids) {
            k.check(c, comp, lz4)?;
        }
        Ok(())
    }
}
/// Random tree with `n` nodes. Shapes: bushy, chain-like, wide, two-level.
pub fn g_tree(r: &mut Rng, n: usize, max_len: u64, log: &Arc<JLog>) -> JNode {
    let shape = r.below(5);
    let mut parent = vec![usize::MAX];
    for i in 1..n.max(1) {
        parent.push(match shape {
            0 => r.below(i as u64) as usize,
            1 => i - 1 - r.below(3.min(i as u64)) as usize,
            2 => 0,
            3 => if i <= 4 { 0 } else { 1 + r.below(4) as usize },
            _ => (i - 1) / 2,
        });
    }
    let mut nodes: Vec<Option<JNode>> = (0..n.max(1))
        .map(|i| {
            let len = match r.below(4) { 0 => 0, 1 => r.below(16), _ => r.below(max_len + 1) } as u32;
            let act = match r.below(12) {
                0 => Act::Slow(1 + r.below(4) as u8),
                1 => Act::Join(r.below(3) as u8),
                2 => Act::Scope(r.below(4) as u8),
                _ => Act::Fine,
            };
            let comp = if cfg!(feature = "lz4") && r.chance(1, 6) { 1 } else { 0 };
            Some(JNode { id: i as u32, len, comp, act, kids: vec![], log: log.clone() })
        })
        .collect();
    for i in (1..nodes.len()).rev() {
        let mut c = nodes[i].take().unwrap();
        c.kids.reverse(); // collected from the last one down
        nodes[parent[i]].as_mut().unwrap().kids.push(c);
    }
    let mut root = nodes[0].take().unwrap();
    root.kids.reverse();
    root
}
/// `n` tiny chunks, nearly all of them children of one node: more than fit a 16-bit count.
pub fn g_wide(r: &mut Rng, n: usize, log: &Arc<JLog>) -> JNode {
    let node = |i: usize, kids| JNode { id: i as u32, len: (i % 3) as u32, comp: 0, act: Act::Fine, kids, log: log.clone() };
    let kids: Vec<JNode> = (2..n).map(|i| node(i, vec![])).collect();
    if r.chance(1, 2) { node(0, vec![node(1, kids)]) } else { let mut k = vec![node(1, vec![])]; k.extend(kids); node(0, k) }
}
/// Number of the failure named in a message ("boom-17." / "kaboom-17.").
pub fn named(m: &str, word: &str) -> Option<u32> {
    let i = m.find(word)?;
    let t = &m[i + word.len()..];
    t[..t.find('.')?].parse().ok()
}
