//! C16: who owns which element during parallel reconstruction.
//!
//! Every `Tok` created (by the client or by decoding) has a serial number in a ledger; creating, dropping and
//! looking at tokens is checked against it. Decoding takes time (scheduling points), fails or panics as planned.
use super::common::*;
use crate::model::*;
use crate::reff::{self, Node};
use crate::sim::*;
use crate::{ensure, viol};
use parcode::reader::{ChunkNode, ParcodeItem};
use parcode::{Parcode, ParcodeFile, ParcodeObject};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::io::Cursor;

struct Ledger {
    state: Vec<u8>, // per serial: 1 live, 2 dropped
    live: usize,
    decoding: i64,
    decoded: u64,
    plan: Vec<(u32, u8)>, // id -> 1 error, 2 panic
    slow: u32,
}
struct L(UnsafeCell<Ledger>);
// Simulated threads run one at a time and the ledger is never touched across a scheduling point.
unsafe impl Sync for L {}
static LEDGER: L = L(UnsafeCell::new(Ledger { state: Vec::new(), live: 0, decoding: 0, decoded: 0, plan: Vec::new(), slow: 0 }));
#[allow(clippy::mut_from_ref)]
fn led() -> &'static mut Ledger {
    unsafe { &mut *LEDGER.0.get() }
}
const MAGIC: u64 = 0x51AC_7007_C0FF_EE99;

#[derive(Debug)]
pub struct Tok {
    magic: u64,
    serial: u32,
    pub id: u32,
    heap: Box<u64>,
}
impl Tok {
    pub fn new(id: u32) -> Tok {
        let l = led();
        let serial = l.state.len() as u32;
        l.state.push(1);
        l.live += 1;
        Tok { magic: MAGIC ^ serial as u64, serial, id, heap: Box::new(id as u64) }
    }
    /// The token must be a live one.
    pub fn check(&self, what: &str) {
        ensure!(self.magic == MAGIC ^ self.serial as u64, "uninitialised", "{what} is not an element (bytes {:#x} {:#x})", self.magic, self.serial);
        ensure!(led().state.get(self.serial as usize) == Some(&1), "not-live", "{what} (id {}) has already been dropped", self.id);
        ensure!(*self.heap == self.id as u64, "corrupted", "{what} (id {}) owns damaged memory", self.id);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("cloned element");
        Tok::new(self.id)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        ensure!(self.magic == MAGIC ^ self.serial as u64, "drop-uninitialised", "a slot that was never filled is dropped (bytes {:#x} {:#x})", self.magic, self.serial);
        let l = led();
        match l.state.get_mut(self.serial as usize) {
            Some(s) if *s == 1 => *s = 2,
            Some(_) => viol!("double-drop", "element {} (serial {}) is dropped twice", self.id, self.serial),
            None => viol!("drop-uninitialised", "dropped element has serial {} of {}", self.serial, l.state.len()),
        }
        l.live -= 1;
    }
}
impl Serialize for Tok {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check("serialised element");
        s.serialize_u32(self.id)
    }
}
impl<'de> Deserialize<'de> for Tok {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        let id = u32::deserialize(d)?;
        let l = led();
        l.decoding += 1;
        l.decoded += 1;
        let plan = l.plan.iter().find(|p| p.0 == id).map(|p| p.1);
        for _ in 0..l.slow {
            unsafe { sim_point() };
        }
        led().decoding -= 1;
        match plan {
            Some(1) => Err(serde::de::Error::custom(format!("bad token {id}"))),
            Some(_) => panic!("token {id} cannot be decoded"),
            None => Ok(Tok::new(id)),
        }
    }
}

/// Small elements, many per shard.
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct El {
    pub a: Tok,
    pub k: u16,
    pub b: Tok,
}
/// Elements with remote parts, rebuilt by nested parallel reconstruction.
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Rich {
    pub a: Tok,
    #[parcode(chunkable)]
    pub sub: Vec<El>,
    #[parcode(chunkable)]
    pub one: El,
}
/// Elements that decode themselves (the trait is public), through the trait's default slice reader.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hand(pub Tok);
impl parcode::visitor::ParcodeVisitor for Hand {
    fn visit<'a>(&'a self, graph: &mut parcode::graph::TaskGraph<'a>, parent: Option<parcode::graph::ChunkId>, _: Option<parcode::graph::JobConfig>) {
        let _ = (graph, parent);
    }
    fn create_job<'a>(&'a self, _: Option<parcode::graph::JobConfig>) -> Box<dyn parcode::graph::SerializationJob<'a> + 'a> {
        Box::new(HandJob(self))
    }
}
struct HandJob<'a>(&'a Hand);
impl<'a> parcode::graph::SerializationJob<'a> for HandJob<'a> {
    fn execute(&self, _: &[parcode::format::ChildRef]) -> parcode::Result<Vec<u8>> {
        bincode::serde::encode_to_vec(self.0, bincode::config::standard()).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))
    }
    fn estimated_size(&self) -> usize {
        8
    }
}
impl ParcodeItem for Hand {
    fn read_from_shard(r: &mut Cursor<&[u8]>, _: &mut std::vec::IntoIter<ChunkNode<'_>>) -> parcode::Result<Self> {
        bincode::serde::decode_from_std_read(r, bincode::config::standard()).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Holder {
    pub tok: Tok,
    #[parcode(chunkable)]
    pub els: Vec<El>,
    #[parcode(chunkable)]
    pub rich: Vec<Rich>,
    #[parcode(map)]
    pub map: HashMap<u32, El>,
    #[parcode(chunkable)]
    pub hand: Vec<Hand>,
}

/// Calls `f` with the tokens of a value in a fixed order.
trait Toks {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok));
}
impl Toks for El {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        f(&self.a);
        f(&self.b);
    }
}
impl Toks for Rich {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        f(&self.a);
        self.sub.toks(f);
        self.one.toks(f);
    }
}
impl Toks for Hand {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        f(&self.0);
    }
}
impl<T: Toks> Toks for Vec<T> {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        self.iter().for_each(|x| x.toks(f));
    }
}
impl Toks for HashMap<u32, El> {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        let mut k: Vec<_> = self.keys().collect();
        k.sort();
        k.iter().for_each(|k| self[k].toks(f));
    }
}
impl Toks for Holder {
    fn toks<'a>(&'a self, f: &mut dyn FnMut(&'a Tok)) {
        f(&self.tok);
        self.els.toks(f);
        self.rich.toks(f);
        self.map.toks(f);
        self.hand.toks(f);
    }
}
/// The value read must consist of live tokens, each with the right identity, none twice.
fn judge<T: Toks>(what: &str, got: &T, want: &T) {
    eval1();
    let mut w = vec![];
    want.toks(&mut |t| w.push(t.id));
    let mut g = vec![];
    got.toks(&mut |t| {
        t.check(what);
        g.push((t.id, t.serial));
    });
    ensure!(g.len() == w.len(), "wrong-count", "{what} has {} elements instead of {}", g.len(), w.len());
    if let Some(i) = (0..w.len()).find(|&i| g[i].0 != w[i]) {
        viol!("wrong-element", "{what}: element {i} has id {} instead of {}", g[i].0, w[i]);
    }
    let mut s: Vec<u32> = g.iter().map(|x| x.1).collect();
    s.sort();
    ensure!(s.windows(2).all(|p| p[0] != p[1]), "duplicate-owner", "{what} owns one element twice");
}

struct Gen {
    next: u32,
}
impl Gen {
    fn tok(&mut self) -> Tok {
        self.next += 1;
        Tok::new(self.next)
    }
    fn el(&mut self) -> El {
        El { a: self.tok(), k: self.next as u16, b: self.tok() }
    }
    fn rich(&mut self, r: &mut Rng, m: u64) -> Rich {
        let a = self.tok();
        let n = r.below(m + 1);
        Rich { a, sub: (0..n).map(|_| self.el()).collect(), one: self.el() }
    }
}

/// Reads the whole value in some way; Err carries the text of an error or panic.
fn read<T, R>(what: &str, failed: &mut bool, may_fail: bool, f: impl FnOnce() -> parcode::Result<R>, ok: impl FnOnce(R)) {
    let r = catch(f);
    ensure!(!PARALLEL || led().decoding >= 0, "harness", "negative");
    match r {
        Ok(Ok(v)) => ok(v),
        Ok(Err(e)) => {
            *failed = true;
            ensure!(may_fail, "read-failed", "{what} failed although nothing was wrong: {e}");
        }
        Err(m) => {
            *failed = true;
            ensure!(may_fail && m.contains("cannot be decoded"), "panic", "{what} panicked: {m}");
        }
    }
}

/// Inconsistent containers: counts that disagree, shards cut short. Loading must fail.
fn corrupt(r: &mut Rng, root: &Node, at: &[usize]) -> Option<(Node, String)> {
    fn nth<'a>(n: &'a mut Node, at: &[usize]) -> Option<&'a mut Node> {
        match at.split_first() {
            None => Some(n),
            Some((i, rest)) => nth(n.kids.get_mut(*i)?, rest),
        }
    }
    let mut out = root.clone();
    let v = nth(&mut out, at)?;
    let plain = |n: &mut Node| {
        n.raw = n.payload.clone();
        n.meta &= 1;
    };
    if v.kids.is_empty() || v.payload.len() < 9 {
        return None;
    }
    let total = u64::from_le_bytes(v.payload[0..8].try_into().unwrap());
    let mut runs: Vec<(u32, u32)> = bincode::serde::decode_from_slice(&v.payload[8..], bincode::config::standard()).ok()?.0;
    let put = |v: &mut Node, total: u64, runs: &Vec<(u32, u32)>| {
        v.payload = total.to_le_bytes().to_vec();
        v.payload.extend(bincode::serde::encode_to_vec(runs, bincode::config::standard()).unwrap());
        v.raw = v.payload.clone();
        v.meta &= 1;
    };
    let k = r.below(v.kids.len() as u64) as usize;
    let mut what = String::new();
    match r.below(8) {
        0 | 1 => {
            // a shard that says it holds fewer or more items than the table
            let s = &mut v.kids[k];
            let (n, w): (u64, usize) = bincode::serde::decode_from_slice(&s.payload, bincode::config::standard()).ok()?;
            let m = match r.below(4) { 0 => n.checked_sub(1)?, 1 => n + 1, 2 => 0, _ => n / 2 };
            if m == n {
                return None;
            }
            let mut p = bincode::serde::encode_to_vec(m, bincode::config::standard()).unwrap();
            p.extend_from_slice(&s.payload[w..]);
            s.payload = p;
            plain(s);
            what = format!("shard {k} claims {m} items instead of {n}");
        }
        2 => {
            let t = match r.below(3) { 0 => total + 1, 1 => total - 1, _ => total * 2 };
            put(v, t, &runs);
            what = format!("the table claims {t} items instead of {total}");
        }
        3 | 4 => {
            // table and total agree with each other but not with the shards
            let i = r.below(runs.len() as u64) as usize;
            let (c, rep) = runs[i];
            let d = if r.chance(1, 2) && c > 0 { -1i64 } else { 1 + r.below(3) as i64 };
            runs[i].0 = (c as i64 + d) as u32;
            put(v, (total as i64 + d * rep as i64) as u64, &runs);
            what = format!("run {i} claims {} items per shard instead of {c}", c as i64 + d);
        }
        5 => {
            // one item moved from one shard's slots to another's
            if runs.len() < 2 {
                return None;
            }
            let last = runs.len() - 1;
            if runs[0].1 != runs[last].1 || runs[last].0 == 0 {
                return None;
            }
            runs[0].0 += 1;
            runs[last].0 -= 1;
            put(v, total, &runs);
            what = "the table moves items between shards".into();
        }
        6 => {
            v.kids.pop();
            if v.kids.is_empty() {
                return None;
            }
            what = "the last shard is missing".into();
        }
        _ => {
            let s = &mut v.kids[k];
            if s.payload.len() < 3 {
                return None;
            }
            let l = 1 + r.below(s.payload.len() as u64 - 2) as usize;
            s.payload.truncate(l);
            plain(s);
            what = format!("shard {k} is cut to {l} bytes");
        }
    }
    Some((out, what))
}

pub fn c16(ctx: &mut Ctx) {
    led().state.reserve(400_000);
    let shape = ctx.draw(0, 3); // els, rich, holder, hand
    let mut g = Gen { next: 0 };
    let seed = ctx.draw(0, 1 << 32);
    let r = &mut Rng(seed);
    let n = ctx.size(match shape { 0 => 4000, 1 => 150, 3 => 6000, _ => 800 });
    let m = ctx.size(60);
    let v = Holder {
        tok: g.tok(),
        els: if shape == 0 || shape == 2 { (0..n).map(|_| g.el()).collect() } else { vec![] },
        rich: if shape == 1 || shape == 2 { (0..if shape == 2 { n / 20 } else { n }).map(|_| g.rich(r, m)).collect() } else { vec![] },
        map: if shape == 2 { (0..n / 2).map(|i| (i as u32, g.el())).collect() } else { HashMap::new() },
        hand: if shape >= 2 { (0..n).map(|_| Hand(g.tok())).collect() } else { vec![] },
    };
    let ids = g.next;
    let comp = HAS_LZ4 && ctx.chance(1, 4);
    set_cpus(draw_cpus(ctx));
    phase("write");
    let mut bytes = vec![];
    let b = Parcode::builder().compression(comp);
    let w = catch(|| match shape {
        0 => b.write(&mut bytes, &v.els),
        1 => b.write(&mut bytes, &v.rich),
        3 => b.write(&mut bytes, &v.hand),
        _ => b.write(&mut bytes, &v),
    });
    ensure!(matches!(w, Ok(Ok(()))), "write-failed", "writing failed: {:?}", w.map(|x| x.map_err(|e| e.to_string())));
    let own = led().live;
    ensure!(own == ids as usize, "leak", "writing left {own} elements alive instead of {ids}");
    // trouble
    let trouble = ctx.draw(0, 3);
    let mut may_fail = false;
    let mut must_fail = false;
    match trouble {
        1 | 2 if ids > 0 => {
            for _ in 0..ctx.draw(1, 4) {
                let id = ctx.draw(1, ids as u64) as u32;
                let k = match ctx.draw(0, 2) { 0 => 1, 1 => 2, _ => trouble as u8 };
                led().plan.push((id, k));
                probe(if k == 1 { "fault.decode_error" } else { "fault.decode_panic" });
            }
            may_fail = true;
            // (the first token belongs to the holder; bare vectors do not store it)
            must_fail = led().plan.iter().any(|p| shape == 2 || p.0 > 1);
            desc(&format!("decoding fails at {:?}", led().plan));
        }
        3 => {
            let at: Vec<usize> = match shape {
                2 => vec![ctx.pick(&[0usize, 1, 3])],
                1 => match ctx.draw(0, 2) {
                    0 => vec![],
                    _ => {
                        let k = ctx.draw(0, 3) as usize;
                        let i = ctx.draw(0, 9) as usize;
                        vec![k, i * 2]
                    }
                },
                _ => vec![],
            };
            if let Ok(root) = reff::parse(&bytes)
                && let Some((bad, what)) = corrupt(r, &root, &at)
            {
                bytes = reff::emit(&bad);
                desc(&format!("{what} (container {at:?})"));
                may_fail = true;
                must_fail = true;
                probe("fault.inconsistent_container");
            }
        }
        _ => {}
    }
    led().slow = ctx.draw(0, 3) as u32;
    set_cpus(draw_cpus(ctx));
    desc(&format!("shape {shape} n={n} m={m} ids={ids} comp={comp} slow={}", led().slow));
    let file = match if ctx.chance(1, 2) {
        Parcode::open_bytes(bytes)
    } else {
        fs_put("/simfs/tok.par", &bytes);
        Parcode::open("/simfs/tok.par")
    } {
        Ok(f) => f,
        Err(e) => viol!("open-failed", "{e}"),
    };
    phase("read");
    let threads = ctx.draw(1, 3);
    let plans: Vec<(u64, Place, u64)> = (0..threads).map(|_| (ctx.draw(0, 1 << 32), draw_place(ctx), ctx.draw(1, 3))).collect();
    desc(&format!("readers {plans:?}"));
    let failed = if threads == 1 {
        let (s, p, k) = plans[0];
        reader(&file, &v, shape, s, p, k, may_fail, must_fail)
    } else {
        std::thread::scope(|sc| {
            let hs: Vec<_> = plans
                .iter()
                .map(|&(s, p, k)| {
                    let (file, v) = (&file, &v);
                    sc.spawn(move || reader(file, v, shape, s, p, k, may_fail, must_fail))
                })
                .collect();
            hs.into_iter().any(|h| h.join().unwrap_or(true))
        })
    };
    phase("balance");
    let l = led();
    ensure!(l.decoding == 0, "still-running", "{} elements were still being decoded when every reader had returned", l.decoding);
    ensure!(l.live >= own, "double-drop", "{} elements alive although the client owns {own}", l.live);
    if !failed {
        ensure!(l.live == own, "leak", "successful reads leaked {} elements", l.live - own);
    } else {
        probe_n("elements_left_by_failed_reads", (l.live - own) as u64);
    }
    probe_n("elements_decoded", l.decoded);
    judge("the client's own value", &v, &v);
    // whatever memory the library freed may be reused now without disturbing anything
    let d = l.decoded;
    let churn: Vec<Vec<u8>> = (0..40).map(|i| vec![0xA5; 1 + i * 97]).collect();
    std::hint::black_box(&churn);
    ensure!(led().decoded == d, "still-running", "decoding goes on after every reader returned");
    drop(v);
    ensure!(failed || led().live == 0, "leak", "{} elements left at the end", led().live);
}

#[allow(clippy::too_many_arguments)]
fn reader(file: &ParcodeFile, v: &Holder, shape: u64, seed: u64, place: Place, times: u64, may_fail: bool, must_fail: bool) -> bool {
    at(place, || {
        let mut r = Rng(seed);
        let mut failed = false;
        let f = &mut failed;
        for _ in 0..times {
            // whole
            if r.chance(1, 2) {
                let full = !must_fail;
                macro_rules! whole {
                    ($t:ty, $want:expr) => {
                        read::<$t, $t>("load", f, may_fail, || file.load::<$t>(), |got| {
                            ensure!(full, "damage-accepted", "loading succeeded although an element cannot be decoded or a container is inconsistent");
                            judge("loaded value", &got, $want);
                        })
                    };
                }
                match shape {
                    0 => whole!(Vec<El>, &v.els),
                    1 => whole!(Vec<Rich>, &v.rich),
                    3 => whole!(Vec<Hand>, &v.hand),
                    _ => whole!(Holder, v),
                }
                continue;
            }
            // in parts
            match shape {
                0 => parts("elements", &mut r, f, may_fail, file.root::<Vec<El>>(), &v.els),
                1 => parts("elements", &mut r, f, may_fail, file.root::<Vec<Rich>>(), &v.rich),
                3 => {}
                _ => {
                    let mut root = None;
                    read::<(), _>("root", f, may_fail, || file.root::<Holder>(), |l| root = Some(l));
                    let Some(l) = root else { continue };
                    l.tok.check("inline field");
                    match r.below(4) {
                        0 => parts("els", &mut r, f, may_fail, Ok(l.els), &v.els),
                        1 => parts("rich", &mut r, f, may_fail, Ok(l.rich), &v.rich),
                        2 => {
                            for _ in 0..1 + r.below(5) {
                                let k = r.below(v.map.len() as u64 + 2) as u32;
                                read::<(), _>("map get", f, may_fail, || l.map.get(&k), |x: Option<El>| match (x, v.map.get(&k)) {
                                    (Some(x), Some(w)) => judge("map entry", &x, w),
                                    (None, None) => {}
                                    (x, _) => viol!("wrong-element", "entry {k} present: {}", x.is_some()),
                                });
                            }
                            if r.chance(1, 2) {
                                read::<(), _>("map load", f, may_fail, || l.map.load(), |x| judge("loaded map", &x, &v.map));
                            }
                        }
                        _ => read::<(), _>("hand load", f, may_fail, || l.hand.load(), |x: Vec<Hand>| judge("hand", &x, &v.hand)),
                    }
                }
            }
        }
        failed
    })
}
/// Element access, streaming and lazy streaming, stopped anywhere.
fn parts<'a, T>(what: &str, r: &mut Rng, failed: &mut bool, may_fail: bool, p: parcode::Result<parcode::rt::ParcodeCollectionPromise<'a, T>>, want: &Vec<T>)
where
    T: ParcodeItem + Toks + parcode::rt::ParcodeLazyRef<'a>,
{
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ensure!(may_fail, "read-failed", "lazy root: {e}");
            *failed = true;
            return;
        }
    };
    match r.below(4) {
        0 => read::<(), _>("promise load", failed, may_fail, || p.load(), |x| {
            if x.len() == want.len() || !may_fail {
                judge(what, &x, want);
            } else {
                x.toks(&mut |t| t.check(what));
            }
        }),
        1 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(want.len() as u64 + 2) as usize;
                read::<(), _>("get", failed, may_fail || i >= want.len(), || p.get(i), |x: T| {
                    if may_fail {
                        x.toks(&mut |t| t.check(what));
                    } else {
                        judge("element", &x, &want[i]);
                    }
                });
            }
        }
        2 => {
            let stop = if r.chance(1, 2) { usize::MAX } else { r.below(want.len() as u64 + 1) as usize };
            read::<(), _>("streaming", failed, may_fail, || {
                for (i, x) in p.iter()?.enumerate() {
                    let x = x?;
                    if i >= stop {
                        break;
                    }
                    if !may_fail {
                        judge("streamed element", &x, &want[i]);
                    } else {
                        x.toks(&mut |t| t.check(what));
                    }
                }
                Ok(())
            }, |_| ());
        }
        _ => {
            let stop = r.below(want.len() as u64 + 1) as usize;
            read::<(), _>("lazy streaming", failed, may_fail, || {
                let mut n = 0;
                let mut kept = vec![];
                for x in p.iter_lazy()? {
                    let x = x?;
                    if n >= stop {
                        break;
                    }
                    n += 1;
                    kept.push(x);
                }
                Ok(())
            }, |_| ());
        }
    }
}
