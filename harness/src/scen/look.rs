//! Guided exploration of an open file: lazily and eagerly reads parts of it and compares every result with
//! the value that was saved. A set of damaged chunks says which results may be anything.
#![allow(dead_code)]
use crate::model::*;
use crate::reff::Node;
use crate::sim::*;
use crate::viol;
use parcode::reader::{ParcodeItem, ParcodeNative};
use parcode::rt::{ParcodeCollectionPromise, ParcodeLazyRef, ParcodeMapPromise};
use parcode::{ParcodeError, ParcodeFile};
use serde::de::DeserializeOwned;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

pub type R<T> = Result<T, ParcodeError>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mem {
    No,
    /// every operation may allocate at most this much beyond what the result itself needs
    Cap(i64),
}
pub struct Look {
    pub r: Rng,
    pub damaged: HashSet<u64>, // offsets of damaged chunks
    pub loose: bool,           // nothing is known about the damage: any result is fine
    pub budget: i64,           // steps left
    pub lazy_only: bool,       // avoid operations that load whole collections
    pub mem: Mem,
    pub max_iter: usize,
    pub peak: i64,
    pub label: &'static str,
}
impl Look {
    pub fn new(seed: u64, budget: i64) -> Look {
        Look { r: Rng(mix(seed)), damaged: HashSet::new(), loose: false, budget, lazy_only: false, mem: Mem::No, max_iter: usize::MAX, peak: 0, label: "" }
    }
    pub fn sub_clean(&self, n: &Node) -> bool {
        !self.loose && (self.damaged.is_empty() || (!self.damaged.contains(&n.off) && n.kids.iter().all(|k| self.sub_clean(k))))
    }
    pub fn subs_clean(&self, n: &[Node]) -> bool {
        !self.loose && n.iter().all(|k| self.sub_clean(k))
    }
    pub fn one_clean(&self, n: &Node) -> bool {
        !self.loose && !self.damaged.contains(&n.off)
    }
    pub fn set_clean(&self, v: &[u64]) -> bool {
        !self.loose && v.iter().all(|o| !self.damaged.contains(o))
    }
    /// Runs one reading operation under the memory limit and turns panics into violations.
    pub fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.budget -= 1;
        if let Mem::Cap(c) = self.mem {
            unsafe {
                sim_mem_reset_peak();
                sim_mem_cap(c)
            };
        }
        let live = unsafe { sim_mem_live() };
        let r = catch(f);
        if let Mem::Cap(_) = self.mem {
            unsafe { sim_mem_cap(-1) };
            self.peak = self.peak.max(unsafe { sim_mem_peak() } - live);
        }
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                if take_known_panic() {
                    return None;
                }
                viol!("panic", "{}{what} panicked: {m}", self.label)
            }
        }
    }
    pub fn expect<T: PartialEq + Debug>(&mut self, clean: bool, what: &str, want: &T, f: impl FnOnce() -> R<T>) {
        let Some(got) = self.run(what, f) else { return };
        self.judge(clean, what, want, got);
    }
    pub fn judge<T: PartialEq + Debug>(&mut self, clean: bool, what: &str, want: &T, got: R<T>) {
        eval1();
        if !clean {
            return;
        }
        match got {
            Ok(v) if v == *want => {}
            Ok(v) => viol!("wrong-value", "{}{what} returned another value: {} instead of {}", self.label, short(&v), short(want)),
            Err(e) => viol!("read-failed", "{}{what} failed: {e}", self.label),
        }
    }
}
pub fn short<T: Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 160 { format!("{}.. ({} chars)", s.chars().take(160).collect::<String>(), s.len()) } else { s }
}
/// Elements per shard of a vector container (own reading of the container payload).
pub fn runs_of(payload: &[u8]) -> Option<(u64, Vec<u32>)> {
    if payload.len() < 9 {
        return None;
    }
    let total = u64::from_le_bytes(payload[..8].try_into().unwrap());
    let (runs, used): (Vec<(u32, u32)>, usize) =
        bincode::serde::decode_from_slice(&payload[8..], bincode::config::standard()).ok()?;
    if used != payload.len() - 8 {
        return None;
    }
    let mut v = vec![];
    for (c, n) in runs {
        for _ in 0..n {
            v.push(c);
        }
    }
    Some((total, v))
}
/// (first element, length) of each shard of a container node.
pub fn shards_of(n: &Node) -> Vec<(usize, usize)> {
    let Some((_, counts)) = runs_of(&n.payload) else { return vec![] };
    let mut b = 0;
    counts
        .iter()
        .map(|&c| {
            let x = (b, c as usize);
            b += c as usize;
            x
        })
        .collect()
}

/// Element of a stored vector or value of a stored map.
pub trait Elem: ParcodeItem + Clone + PartialEq + Debug + for<'a> ParcodeLazyRef<'a> {
    const REMOTES: usize;
    const STRUCT: bool;
    fn look_elem<'a>(_lz: &<Self as ParcodeLazyRef<'a>>::Lazy, _v: &Self, _kids: &[Node], _cx: &mut Look) {}
    /// Containers below the chunks of one element.
    fn shape_elem(_kids: &[Node], _out: &mut HashMap<u64, Shape>) {}
    /// offsets of the chunks that creating the lazy view of one element reads
    fn eager(_kids: &[Node], _out: &mut Vec<u64>) {}
}
/// Field with its own chunk.
pub trait Field: for<'a> ParcodeLazyRef<'a> {
    fn look<'a>(lz: &<Self as ParcodeLazyRef<'a>>::Lazy, v: &Self, n: &Node, cx: &mut Look);
    fn eager_field(_n: &Node, _out: &mut Vec<u64>) {}
    /// What the inspector must say about the containers in this chunk and below.
    fn shape(_n: &Node, _out: &mut HashMap<u64, Shape>) {}
}
/// A container as the file stores it.
#[derive(Debug)]
pub enum Shape {
    Vec { items: u64, shards: u64 },
    Map { buckets: u64 },
}

macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Elem for $t { const REMOTES: usize = 0; const STRUCT: bool = false; }
        impl Field for $t {
            fn look<'a>(lz: &<Self as ParcodeLazyRef<'a>>::Lazy, v: &Self, n: &Node, cx: &mut Look) {
                let c = cx.sub_clean(n);
                cx.expect(c, concat!("load of ", stringify!($t)), v, || lz.load());
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, i8, i16, i64, String, f64, bool, f32);

impl<T: Elem> Field for Vec<T> {
    fn shape(n: &Node, out: &mut HashMap<u64, Shape>) {
        if n.kids.is_empty() {
            return; // empty vector: a leaf
        }
        let Some((total, counts)) = runs_of(&n.payload) else { viol!("bad-container", "vector container at {} cannot be read", n.off) };
        if counts.len() != n.kids.len() || counts.iter().map(|&c| c as u64).sum::<u64>() != total {
            viol!("bad-container", "vector container at {} says {total} items in {counts:?} and has {} shards", n.off, n.kids.len());
        }
        out.insert(n.off, Shape::Vec { items: total, shards: n.kids.len() as u64 });
        for (s, &c) in n.kids.iter().zip(&counts) {
            if s.kids.len() != c as usize * T::REMOTES {
                viol!("bad-container", "shard at {} has {} children for {c} elements", s.off, s.kids.len());
            }
            if T::REMOTES > 0 {
                s.kids.chunks(T::REMOTES).for_each(|k| T::shape_elem(k, out));
            }
        }
    }
    fn look<'a>(lz: &ParcodeCollectionPromise<'a, T>, v: &Self, n: &Node, cx: &mut Look) {
        let steps = 1 + cx.r.below(6);
        for _ in 0..steps {
            if cx.budget <= 0 {
                return;
            }
            look_vec(lz, v, n, cx);
        }
    }
}
fn pick_index(cx: &mut Look, len: usize, sh: &[(usize, usize)]) -> usize {
    match cx.r.below(10) {
        0 => 0,
        1 => len.saturating_sub(1),
        2 => len,
        3 => len + 1 + cx.r.below(5) as usize,
        4 => cx.r.pick_usize(&[usize::MAX, usize::MAX / 2, u32::MAX as usize, u32::MAX as usize + 1, 1 << 40]),
        5..=7 if !sh.is_empty() => {
            let k = cx.r.below(sh.len() as u64) as usize;
            let (a, c) = sh[k];
            let k = cx.r.below(3);
            [a, a + c - 1, (a + c).saturating_sub(2).max(a)][k as usize]
        }
        _ => cx.r.below(len as u64 + 1) as usize,
    }
}
pub fn look_vec<'a, T: Elem>(lz: &ParcodeCollectionPromise<'a, T>, v: &[T], n: &Node, cx: &mut Look) {
    let sh = shards_of(n);
    let head = cx.one_clean(n);
    let loc = |i: usize| sh.iter().position(|&(a, c)| i >= a && i < a + c);
    // chunks needed to form the lazy view of element i
    let lazy_clean = |cx: &Look, i: usize| match loc(i) {
        Some(s) => {
            let shard = &n.kids[s];
            if !head || !cx.one_clean(shard) {
                return false;
            }
            let mut need = vec![];
            for k in 0..=(i - sh[s].0) {
                T::eager(&shard.kids[k * T::REMOTES..(k + 1) * T::REMOTES], &mut need);
            }
            cx.set_clean(&need)
        }
        None => head,
    };
    let kids_of = |i: usize| {
        let s = loc(i).unwrap();
        let k = i - sh[s].0;
        (s, k)
    };
    match cx.r.below(if T::STRUCT { 12 } else { 6 }) {
        3 if head && cx.sub_clean(n) && cx.max_iter == usize::MAX && cx.r.chance(1, 2) => adapt_eager(lz, v, cx),
        10 | 11 if head && cx.sub_clean(n) && cx.max_iter == usize::MAX => adapt_lazy(lz, v, n, &sh, cx),
        0 => {
            let got = cx.run("len", || (lz.len(), lz.is_empty()));
            if head && let Some((l, e)) = got {
                eval1();
                if l != v.len() || e != v.is_empty() {
                    viol!("wrong-length", "{}len {l} empty {e}, expected {}", cx.label, v.len());
                }
            }
        }
        1 | 2 => {
            let i = pick_index(cx, v.len(), &sh);
            if i < v.len() {
                let s = loc(i).unwrap();
                let c = head && cx.sub_clean(&n.kids[s]);
                cx.expect(c, &format!("get({i}) of {}", v.len()), &v[i], || lz.get(i));
            } else {
                let got = cx.run("get outside", || lz.get(i));
                if head && let Some(Ok(x)) = got {
                    viol!("out-of-bounds-value", "{}get({i}) of a vector of {} returned {}", cx.label, v.len(), short(&x));
                }
                eval1();
            }
        }
        3 => {
            // streaming; stops at the first shard that cannot be read
            let stop_at = if cx.r.chance(1, 3) { cx.r.below(v.len() as u64 + 1) as usize } else { usize::MAX };
            let clean_all = head && cx.sub_clean(n);
            let mut upto = 0;
            for (s, &(a, c)) in sh.iter().enumerate() {
                if !cx.sub_clean(&n.kids[s]) {
                    break;
                }
                upto = a + c;
            }
            let max = cx.max_iter;
            let res = cx.run("iter", || {
                let mut it = match lz.iter() {
                    Ok(it) => it,
                    Err(e) => return Err(e.to_string()),
                };
                let mut i = 0usize;
                loop {
                    if i >= stop_at {
                        return Ok((i, None));
                    }
                    if i > max {
                        return Err("ENDLESS".into());
                    }
                    match it.next() {
                        None => return Ok((i, None)),
                        Some(Ok(x)) => {
                            if head && i < upto && (i >= v.len() || x != v[i]) {
                                return Err(format!("WRONG element {i}: {} instead of {}", short(&x), v.get(i).map_or("nothing".into(), short)));
                            }
                            i += 1;
                        }
                        Some(Err(e)) => {
                            let mut more = 0;
                            while it.next().is_some() {
                                more += 1;
                                if more > max.min(1 << 22) {
                                    return Err("ENDLESS".into());
                                }
                            }
                            return Ok((i, Some(e.to_string())));
                        }
                    }
                }
            });
            eval1();
            match res {
                Some(Err(m)) if m == "ENDLESS" => viol!("endless-iterator", "{}iterator does not end", cx.label),
                Some(Err(m)) if m.starts_with("WRONG") => viol!("wrong-value", "{}iter: {m}", cx.label),
                Some(Err(m)) if head => viol!("read-failed", "{}iter failed: {m}", cx.label),
                Some(Ok((i, e))) => {
                    if clean_all && (e.is_some() || i != v.len().min(stop_at)) {
                        viol!("wrong-iteration", "{}iter ended after {i} of {} ({e:?})", cx.label, v.len());
                    }
                    if head && i < upto.min(stop_at) {
                        viol!("wrong-iteration", "{}iter ended after {i}, {upto} elements are intact ({e:?})", cx.label);
                    }
                }
                _ => {}
            }
        }
        4 | 5 => {
            if cx.lazy_only {
                return;
            }
            let c = head && cx.sub_clean(n);
            cx.expect(c, "load of vector", &v.to_vec(), || lz.load());
        }
        6 => {
            let i = pick_index(cx, v.len(), &sh);
            let c = lazy_clean(cx, i);
            let got = cx.run("get_lazy", || lz.get_lazy(i));
            match got {
                Some(Ok(l)) => {
                    if cx.loose {
                        // exercise the view; the original element only provides parameters
                        if let Some((s, k)) = (!v.is_empty()).then(|| kids_of(i.min(v.len() - 1))) {
                            T::look_elem(&l, &v[i.min(v.len() - 1)], &n.kids[s].kids[k * T::REMOTES..(k + 1) * T::REMOTES], cx);
                        }
                        return;
                    }
                    if i >= v.len() {
                        if head {
                            viol!("out-of-bounds-value", "{}get_lazy({i}) of a vector of {} returned something", cx.label, v.len());
                        }
                        return;
                    }
                    let (s, k) = kids_of(i);
                    if c {
                        T::look_elem(&l, &v[i], &n.kids[s].kids[k * T::REMOTES..(k + 1) * T::REMOTES], cx);
                    }
                }
                Some(Err(e)) if i < v.len() && c => viol!("read-failed", "{}get_lazy({i}) of {} failed: {e}", cx.label, v.len()),
                _ => {}
            }
            eval1();
        }
        7 => {
            let last = cx.r.chance(1, 2);
            let i = if last { v.len().saturating_sub(1) } else { 0 };
            let c = lazy_clean(cx, i);
            let got = cx.run("first/last", || if last { lz.last() } else { lz.first() });
            match got {
                Some(Ok(None)) if !v.is_empty() && c => viol!("wrong-value", "{}first/last absent in a vector of {}", cx.label, v.len()),
                Some(Ok(Some(_))) if v.is_empty() && head => viol!("out-of-bounds-value", "{}first/last present in an empty vector", cx.label),
                Some(Ok(Some(l))) if !v.is_empty() && (c || cx.loose) => {
                    let (s, k) = kids_of(i);
                    T::look_elem(&l, &v[i], &n.kids[s].kids[k * T::REMOTES..(k + 1) * T::REMOTES], cx);
                }
                Some(Err(e)) if c => viol!("read-failed", "{}first/last failed: {e}", cx.label),
                _ => {}
            }
            eval1();
        }
        _ => {
            let Some(it) = cx.run("iter_lazy", || lz.iter_lazy()) else { return };
            let mut it = match it {
                Ok(it) => it,
                Err(e) => {
                    if head {
                        viol!("read-failed", "{}iter_lazy failed: {e}", cx.label);
                    }
                    return;
                }
            };
            let stop_at = if cx.r.chance(1, 3) { cx.r.below(v.len() as u64 + 1) as usize } else { usize::MAX };
            let every = 1 + cx.r.below(6) as usize;
            let mut i = 0;
            let mut calls = 0usize;
            let mut ok = head; // everything up to here was intact
            while i < stop_at {
                if ok {
                    let (l, h) = (it.len(), it.size_hint());
                    if l != v.len() - i || h != (l, Some(l)) {
                        viol!("wrong-length", "{}lazy iterator reports {l} remaining ({h:?}) at {i} of {}", cx.label, v.len());
                    }
                }
                let it_ref = &mut it;
                let c = ok && i < v.len() && lazy_clean(cx, i);
                let Some(got) = cx.run("lazy iterator", || {
                    let _ = it_ref.size_hint();
                    it_ref.next()
                }) else { return };
                calls += 1;
                if calls > cx.max_iter {
                    viol!("endless-iterator", "{}lazy iterator does not end", cx.label);
                }
                match got {
                    None => {
                        if ok && i != v.len() {
                            viol!("wrong-iteration", "{}lazy iteration ended after {i} of {}", cx.label, v.len());
                        }
                        break;
                    }
                    Some(Ok(l)) => {
                        if ok && i >= v.len() {
                            viol!("wrong-iteration", "{}lazy iteration yields more than {} items", cx.label, v.len());
                        }
                        if (c || cx.loose && i < v.len()) && i % every == 0 {
                            let (s, k) = kids_of(i);
                            T::look_elem(&l, &v[i], &n.kids[s].kids[k * T::REMOTES..(k + 1) * T::REMOTES], cx);
                        }
                        ok = ok && c;
                        i += 1;
                    }
                    Some(Err(e)) => {
                        if c {
                            viol!("read-failed", "{}lazy iterator failed at {i}: {e}", cx.label);
                        }
                        ok = false;
                        i += 1;
                    }
                }
            }
            eval1();
        }
    }
}

fn skip_len(cx: &mut Look, left: usize, at: usize, sh: &[(usize, usize)]) -> usize {
    match cx.r.below(6) {
        0 => 0,
        1 => cx.r.below(4) as usize,
        2 => left,
        3 => left + cx.r.below(3) as usize,
        4 if !sh.is_empty() => {
            // to the edge of some later shard
            let (a, c) = sh[cx.r.below(sh.len() as u64) as usize];
            let t = [a, a + c - 1, a + c][cx.r.below(3) as usize];
            t.saturating_sub(at)
        }
        _ => cx.r.below(left as u64 + 1) as usize,
    }
}
/// Drives the streaming iterator through the other methods of `Iterator`, against the vector itself.
fn adapt_eager<'a, T: Elem>(lz: &ParcodeCollectionPromise<'a, T>, v: &[T], cx: &mut Look) {
    let Some(it) = cx.run("iter", || lz.iter()) else { return };
    let mut it = match it {
        Ok(it) => it,
        Err(e) => viol!("read-failed", "{}iter failed: {e}", cx.label),
    };
    let mut i = 0usize;
    let same = |cx: &Look, what: &str, got: Option<R<T>>, want: Option<&T>| {
        eval1();
        match (got, want) {
            (None, None) => {}
            (Some(Ok(x)), Some(y)) if x == *y => {}
            (Some(Err(e)), _) => viol!("read-failed", "{}{what} of the iterator failed: {e}", cx.label),
            (a, b) => viol!("wrong-iteration", "{}{what} of the iterator over {} yields {} instead of {}", cx.label, v.len(), a.map_or("nothing".into(), |x| short(&x.ok())), b.map_or("nothing".into(), short)),
        }
    };
    for _ in 0..1 + cx.r.below(8) {
        let it = &mut it;
        let left = v.len() - i;
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            viol!("wrong-length", "{}iterator size hint {lo}..{hi:?} at {i} of {}", cx.label, v.len());
        }
        match cx.r.below(5) {
            0 | 1 => {
                let k = skip_len(cx, left, i, &[]);
                let Some(g) = cx.run("nth", || it.nth(k)) else { return };
                same(cx, &format!("nth({k}) at {i}"), g, v.get(i + k));
                i = (i + k + 1).min(v.len());
            }
            2 => {
                let Some(g) = cx.run("next", || it.next()) else { return };
                same(cx, &format!("next at {i}"), g, v.get(i));
                i = (i + 1).min(v.len());
            }
            3 => {
                let (st, m) = (1 + cx.r.below(5) as usize, cx.r.below(40) as usize);
                let Some(g) = cx.run("step_by", || it.step_by(st).take(m).collect::<R<Vec<T>>>()) else { return };
                let want: Vec<T> = v[i..].iter().step_by(st).take(m).cloned().collect();
                eval1();
                match g {
                    Ok(g) if g == want => {}
                    Ok(g) => viol!("wrong-iteration", "{}step_by({st}).take({m}) at {i} of {} yields {}", cx.label, v.len(), short(&g)),
                    Err(e) => viol!("read-failed", "{}step_by failed: {e}", cx.label),
                }
                return;
            }
            _ => {
                if cx.r.chance(1, 2) {
                    let Some(c) = cx.run("count", || it.count()) else { return };
                    eval1();
                    if c != left {
                        viol!("wrong-iteration", "{}count of the iterator at {i} of {} is {c}", cx.label, v.len());
                    }
                } else {
                    let Some(g) = cx.run("last", || it.last()) else { return };
                    same(cx, "last", g, v[i..].last());
                }
                return;
            }
        }
    }
}
fn adapt_lazy<'a, T: Elem>(lz: &ParcodeCollectionPromise<'a, T>, v: &[T], n: &Node, sh: &[(usize, usize)], cx: &mut Look) {
    let Some(it) = cx.run("iter_lazy", || lz.iter_lazy()) else { return };
    let mut it = match it {
        Ok(it) => it,
        Err(e) => viol!("read-failed", "{}iter_lazy failed: {e}", cx.label),
    };
    let judge = |cx: &mut Look, what: &str, got: Option<R<<T as ParcodeLazyRef<'a>>::Lazy>>, i: usize| {
        eval1();
        match got {
            None if i >= v.len() => {}
            Some(Ok(l)) if i < v.len() => {
                let s = sh.iter().position(|&(a, c)| i >= a && i < a + c).unwrap();
                let k = i - sh[s].0;
                T::look_elem(&l, &v[i], &n.kids[s].kids[k * T::REMOTES..(k + 1) * T::REMOTES], cx);
            }
            Some(Err(e)) => viol!("read-failed", "{}{what} of the lazy iterator failed: {e}", cx.label),
            g => viol!("wrong-iteration", "{}{what} of the lazy iterator is {} for element {i} of {}", cx.label, if g.is_some() { "present" } else { "absent" }, v.len()),
        }
    };
    let mut i = 0usize;
    for _ in 0..1 + cx.r.below(8) {
        if cx.budget <= 0 {
            return;
        }
        let it = &mut it;
        let left = v.len() - i;
        let (l, h) = (it.len(), it.size_hint());
        if l != left || h != (l, Some(l)) {
            viol!("wrong-length", "{}lazy iterator reports {l} remaining ({h:?}) at {i} of {}", cx.label, v.len());
        }
        match cx.r.below(6) {
            0..=2 => {
                let k = skip_len(cx, left, i, sh);
                let Some(g) = cx.run("nth", || it.nth(k)) else { return };
                judge(cx, &format!("nth({k}) at {i}"), g, i.saturating_add(k));
                i = (i + k + 1).min(v.len());
            }
            3 => {
                let Some(g) = cx.run("next", || it.next()) else { return };
                judge(cx, "next", g, i);
                i = (i + 1).min(v.len());
            }
            4 => {
                let (st, m) = (1 + cx.r.below(5) as usize, cx.r.below(12) as usize);
                let Some(g) = cx.run("step_by", || it.step_by(st).take(m).collect::<Vec<_>>()) else { return };
                let want = (0..left).step_by(st).take(m).count();
                if g.len() != want {
                    viol!("wrong-iteration", "{}step_by({st}).take({m}) of the lazy iterator at {i} of {} yields {} items", cx.label, v.len(), g.len());
                }
                for (x, g) in g.into_iter().enumerate() {
                    judge(cx, "step_by", Some(g), i + x * st);
                }
                return;
            }
            _ => {
                if cx.r.chance(1, 2) {
                    let Some(c) = cx.run("count", || it.count()) else { return };
                    eval1();
                    if c != left {
                        viol!("wrong-iteration", "{}count of the lazy iterator at {i} of {} is {c}", cx.label, v.len());
                    }
                } else {
                    let Some(g) = cx.run("last", || it.last()) else { return };
                    judge(cx, "last", g, if left == 0 { usize::MAX } else { v.len() - 1 });
                }
                return;
            }
        }
    }
}

/// Value of a stored map.
pub trait MapVal: Clone + PartialEq + Debug + DeserializeOwned + Send + Sync + 'static {
    const REMOTES: usize = 0;
    fn shape_val(_kids: &[Node], _out: &mut HashMap<u64, Shape>) {}
    fn lazy_get<'a, K: MapKey>(_m: &ParcodeMapPromise<'a, K, Self>, _k: &K, _want: Option<&Self>, _kids: Option<&[Node]>, _clean: bool, _cx: &mut Look) -> bool {
        false
    }
}
pub trait MapKey: Clone + Eq + Hash + Debug + DeserializeOwned + Send + Sync + 'static {
    fn other(r: &mut Rng) -> Self;
    /// another key close to (or colliding with) a stored one
    fn near(&self, r: &mut Rng) -> Self;
}
impl MapKey for u64 {
    fn other(r: &mut Rng) -> u64 { g_u64(r) }
    fn near(&self, r: &mut Rng) -> Self { self ^ 1 << r.below(64) }
}
impl MapKey for u32 {
    fn other(r: &mut Rng) -> u32 { g_u64(r) as u32 }
    fn near(&self, r: &mut Rng) -> Self { self ^ 1 << r.below(32) }
}
impl MapKey for u16 {
    fn other(r: &mut Rng) -> u16 { r.next() as u16 }
    fn near(&self, r: &mut Rng) -> Self { self ^ 1 << r.below(16) }
}
impl MapKey for u8 {
    fn other(r: &mut Rng) -> u8 { r.next() as u8 }
    fn near(&self, r: &mut Rng) -> Self { self ^ 1 << r.below(8) }
}
impl MapKey for String {
    fn other(r: &mut Rng) -> String { g_string(r, 7) }
    fn near(&self, r: &mut Rng) -> Self { let mut s = self.clone(); if r.chance(1, 2) { s.pop(); } else { s.push('b'); } s }
}
impl MapKey for Key {
    fn other(r: &mut Rng) -> Key { Key { id: r.below(3000) as u32, mode: r.below(4) as u8 } }
    fn near(&self, r: &mut Rng) -> Self { Key { id: self.id ^ [1, 3 << 20, 6 << 20, 1 << 30][r.below(4) as usize], mode: self.mode } }
}
impl MapKey for i32 {
    fn other(r: &mut Rng) -> i32 { g_u64(r) as i32 }
    fn near(&self, r: &mut Rng) -> Self { self ^ 1 << r.below(32) }
}
impl MapVal for u64 {}
impl MapVal for u32 {}
impl MapVal for u8 {}
impl MapVal for String {}
impl MapVal for Vec<u16> {}
macro_rules! lazy_val {
    ($($t:ty),*) => {$(
        impl MapVal for $t {
            const REMOTES: usize = <$t as Elem>::REMOTES;
            fn shape_val(kids: &[Node], out: &mut HashMap<u64, Shape>) {
                <$t as Elem>::shape_elem(kids, out)
            }
            fn lazy_get<'a, K: MapKey>(m: &ParcodeMapPromise<'a, K, Self>, k: &K, want: Option<&Self>, kids: Option<&[Node]>, clean: bool, cx: &mut Look) -> bool {
                let got = cx.run("get_lazy of map", || m.get_lazy(k));
                eval1();
                match (got, want) {
                    (Some(Ok(Some(l))), Some(v)) => if clean || cx.loose { <$t as Elem>::look_elem(&l, v, kids.unwrap_or(&[]), cx) },
                    (Some(Ok(None)), Some(_)) if clean => viol!("missing-entry", "{}get_lazy({k:?}) is absent", cx.label),
                    (Some(Ok(Some(_))), None) if clean => viol!("wrong-value", "{}get_lazy({k:?}) of an absent key returned something", cx.label),
                    (Some(Err(e)), _) if clean => viol!("read-failed", "{}get_lazy({k:?}) failed: {e}", cx.label),
                    _ => {}
                }
                true
            }
        }
    )*};
}
lazy_val!(Plain, Entry, Odd);

pub fn xxh(k: &impl Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = twox_hash::XxHash64::with_seed(0);
    k.hash(&mut h);
    h.finish()
}
/// Keys of a map shard in stored order (own reading).
fn shard_keys<K: DeserializeOwned>(p: &[u8]) -> Option<Vec<K>> {
    if p.is_empty() {
        return Some(vec![]);
    }
    let n = u32::from_le_bytes(p.get(0..4)?.try_into().ok()?) as usize;
    let offs = p.get(8 + n * 8..8 + n * 12)?;
    let data = p.get(8 + n * 12..)?;
    (0..n)
        .map(|i| {
            let o = u32::from_le_bytes(offs[i * 4..i * 4 + 4].try_into().unwrap()) as usize;
            bincode::serde::decode_from_slice::<K, _>(data.get(o..)?, bincode::config::standard()).ok().map(|x| x.0)
        })
        .collect()
}
impl<K: MapKey, V: MapVal> Field for HashMap<K, V> {
    fn shape(n: &Node, out: &mut HashMap<u64, Shape>) {
        if n.kids.is_empty() {
            return;
        }
        out.insert(n.off, Shape::Map { buckets: n.kids.len() as u64 });
        if V::REMOTES > 0 {
            n.kids.iter().for_each(|s| s.kids.chunks(V::REMOTES).for_each(|k| V::shape_val(k, out)));
        }
    }
    fn look<'a>(lz: &ParcodeMapPromise<'a, K, V>, v: &Self, n: &Node, cx: &mut Look) {
        let head = cx.one_clean(n);
        let steps = 1 + cx.r.below(6);
        for _ in 0..steps {
            if cx.budget <= 0 {
                return;
            }
            let op = cx.r.below(8);
            if op == 0 && !cx.lazy_only {
                let c = cx.sub_clean(n);
                cx.expect(c, "load of map", v, || lz.load());
                continue;
            }
            // a stored key, or some other key
            let key = if !v.is_empty() && cx.r.chance(3, 4) {
                // iteration order is fixed by the simulated hash seeds
                let i = cx.r.below(v.len() as u64) as usize;
                let k = v.keys().nth(i).unwrap().clone();
                if cx.r.chance(1, 5) { k.near(&mut cx.r) } else { k }
            } else {
                K::other(&mut cx.r)
            };
            let want = v.get(&key).cloned();
            let sharded = !n.kids.is_empty();
            let (clean, full_clean, kids) = if sharded {
                let s = (xxh(&key) % n.kids.len() as u64) as usize;
                let shard = &n.kids[s];
                let mut kids = None;
                let mut need = vec![];
                if V::REMOTES > 0
                    && let Some(keys) = shard_keys::<K>(&shard.payload)
                    && let Some(i) = keys.iter().position(|k| *k == key)
                {
                    kids = Some(&shard.kids[i * V::REMOTES..(i + 1) * V::REMOTES]);
                    need.push(shard.off);
                }
                (head && cx.one_clean(shard) && cx.set_clean(&need), head && cx.sub_clean(shard), kids)
            } else {
                (head, head, None)
            };
            let lazily = cx.r.chance(1, 2) && sharded;
            if lazily && V::lazy_get(lz, &key, want.as_ref(), kids, clean, cx) {
                continue;
            }
            cx.expect(full_clean, &format!("get({}) in a map of {}", short(&key), v.len()), &want, || lz.get(&key));
        }
    }
}

/// Structures: inline fields and remote fields, in declaration order.
macro_rules! lazy_struct {
    ($t:ident [$($in:ident),*] [$($k:tt : $rem:ident : $rt:ty),*] $nrem:expr) => {
        impl Elem for $t {
            const REMOTES: usize = $nrem;
            const STRUCT: bool = true;
            #[allow(unused_variables, unused_mut)]
            fn look_elem<'a>(lz: &<Self as ParcodeLazyRef<'a>>::Lazy, v: &Self, kids: &[Node], cx: &mut Look) {
                eval1();
                $( if !cx.loose && lz.$in != v.$in {
                    viol!("wrong-value", "{}lazy {}.{} is {} instead of {}", cx.label, stringify!($t), stringify!($in), short(&lz.$in), short(&v.$in));
                } )*
                if $nrem == 0 || kids.len() < $nrem { return; }
                let rounds = 1 + cx.r.below(3);
                for _ in 0..rounds {
                    if cx.budget <= 0 { return; }
                    let k = cx.r.below(($nrem as u64).max(1));
                    match k {
                        $( $k => <$rt as Field>::look(&lz.$rem, &v.$rem, &kids[$k], cx), )*
                        _ => {}
                    }
                }
            }
            #[allow(unused_variables)]
            fn shape_elem(kids: &[Node], out: &mut HashMap<u64, Shape>) {
                if kids.len() < $nrem { return; }
                $( <$rt as Field>::shape(&kids[$k], out); )*
            }
            #[allow(unused_variables)]
            fn eager(kids: &[Node], out: &mut Vec<u64>) {
                if kids.len() < $nrem { return; }
                $( <$rt as Field>::eager_field(&kids[$k], out); )*
            }
        }
        impl Field for $t {
            fn look<'a>(lz: &<Self as ParcodeLazyRef<'a>>::Lazy, v: &Self, n: &Node, cx: &mut Look) {
                <$t as Elem>::look_elem(lz, v, &n.kids, cx)
            }
            fn shape(n: &Node, out: &mut HashMap<u64, Shape>) {
                <$t as Elem>::shape_elem(&n.kids, out)
            }
            fn eager_field(n: &Node, out: &mut Vec<u64>) {
                out.push(n.off);
                <$t as Elem>::eager(&n.kids, out);
            }
        }
    };
}
lazy_struct!(Plain [a, s, t, o] [] 0);
lazy_struct!(Item [id, tag] [0: data: Vec<u8>, 1: nums: Vec<u32>, 2: inner: Plain] 3);
lazy_struct!(Tree [v] [0: kids: Vec<Tree>] 1);
lazy_struct!(Bare [] [0: x: Vec<u16>, 1: y: Plain] 2);
lazy_struct!(Thin [k] [0: p: u64] 1);
lazy_struct!(Mid [label] [0: things: Vec<Thin>, 1: bare: Bare] 2);
lazy_struct!(Entry [level, note] [0: inv: Vec<u32>] 1);
lazy_struct!(Odd [level] [0: inv: Vec<u32>] 1);
lazy_struct!(OddDb [] [0: odd: HashMap<u32, Odd>] 1);
lazy_struct!(World [id, name, inline_map] [0: nums: Vec<u64>, 1: items: Vec<Item>, 2: index: HashMap<u64, Plain>,
    3: names: HashMap<String, String>, 4: blob: HashMap<u16, u32>, 5: one: u64, 6: text: String, 7: mid: Mid, 8: plains: Vec<Plain>] 9);
lazy_struct!(Db [ver] [0: plain: HashMap<u64, Plain>, 1: coll: HashMap<Key, u64>, 2: strs: HashMap<String, Vec<u16>>,
    3: single: HashMap<u8, u8>, 4: blob: HashMap<u8, u8>, 5: entries: HashMap<u32, Entry>, 6: kents: HashMap<Key, Entry>] 7);

lazy_struct!(Exo [sort, arr, c, big, nested, tree, unit, w] [0: bytes: Vec<i8>, 1: flag: bool, 2: f: Vec<f32>, 3: m: HashMap<i32, u64>, 4: mid: Mid] 5);

/// The chunk-level interface: metadata, raw payloads and child references of chunks on a random path.
pub fn nodes(file: &ParcodeFile, root: &Node, shapes: &HashMap<u64, Shape>, size: u64, cx: &mut Look) {
    let loose = cx.loose;
    if !loose && file.file_size() != size {
        viol!("wrong-value", "{}file_size {} instead of {size}", cx.label, file.file_size());
    }
    let mut n = root;
    let mut at = match cx.run("root_node", || file.root_node()) {
        Some(Ok(x)) => x,
        Some(Err(e)) if !loose => viol!("read-failed", "{}root_node: {e}", cx.label),
        _ => return,
    };
    for _ in 0..60 {
        cx.budget -= 1;
        if !loose {
            let got = (at.offset(), at.length(), at.payload_len(), at.child_count() as usize, at.meta().as_u8());
            let want = (n.off, n.len, n.raw.len() as u64, n.kids.len(), n.meta);
            if got != want {
                viol!("wrong-value", "{}chunk at {}: (offset, length, payload, children, meta) {got:?} instead of {want:?}", cx.label, n.off);
            }
        }
        let c = cx.one_clean(n);
        match cx.r.below(4) {
            0 => cx.expect(c, "read_raw", &n.payload, || at.read_raw().map(|x| x.into_owned())),
            1 => {
                let (l, e) = match cx.run("node len", || (at.len(), at.is_empty())) { Some(x) => x, None => return };
                if (l == 0) != e {
                    viol!("wrong-length", "{}chunk says len {l} and empty {e}", cx.label);
                }
                if let (true, Some(Shape::Vec { items, .. })) = (c, shapes.get(&n.off)) && l != *items {
                    viol!("wrong-length", "{}container says {l} items instead of {items}", cx.label);
                }
            }
            2 if !cx.lazy_only || n.kids.len() < 5000 => {
                let want: Vec<u64> = n.kids.iter().map(|k| k.off).collect();
                cx.expect(!loose, "children", &want, || at.children().map(|v| v.iter().map(|k| k.offset()).collect::<Vec<_>>()));
            }
            _ if loose => {
                let i = cx.r.below(300) as usize;
                match cx.r.below(4) {
                    0 => drop(cx.run("decode of a chunk", || at.decode::<(u64, u32)>())),
                    1 => drop(cx.run("get of a chunk", || at.get::<u16>(i))),
                    2 => drop(cx.run("collection of a chunk", || at.decode_parallel_collection::<u8>().map(|v| v.len()))),
                    _ => drop(cx.run("iterator of a chunk", || at.clone().iter::<u32>().map(|it| it.take(5000).map(|x| x.is_ok()).count()))),
                }
            }
            _ => {}
        }
        let kids = at.child_count() as usize;
        let over = kids + cx.r.pick_usize(&[0, 1, 1 << 20, usize::MAX / 12 - kids, usize::MAX - kids]);
        if cx.r.chance(1, 4) && matches!(cx.run("get_child_by_index", || at.get_child_by_index(over).map(|k| k.offset())), Some(Ok(_))) {
            viol!("out-of-bounds-value", "{}child {over} of {kids} exists", cx.label);
        }
        if kids == 0 {
            return;
        }
        let i = cx.r.below(kids as u64) as usize;
        let next = match cx.run("get_child_by_index", || at.get_child_by_index(i)) {
            Some(Ok(x)) => x,
            Some(Err(e)) if !loose => viol!("read-failed", "{}child {i} of {kids}: {e}", cx.label),
            _ => return,
        };
        at = next;
        if !loose {
            n = &n.kids[i];
        }
    }
}

/// Root values that can be explored lazily.
pub trait LazyModel: Model + Field {}
impl<T: Model + Field> LazyModel for T {}

/// Explores `file`, which holds `v` stored as `n`, within the budget of `cx`.
pub fn explore<T: Field + ParcodeNative + PartialEq + Debug>(file: &ParcodeFile, v: &T, n: &Node, cx: &mut Look, eager_ok: bool) {
    let mut need = vec![];
    T::eager_field(n, &mut need);
    while cx.budget > 0 {
        if eager_ok && !cx.lazy_only && cx.r.chance(1, 5) {
            let c = cx.sub_clean(n);
            cx.expect(c, "full load", v, || file.load::<T>());
            continue;
        }
        if cx.r.chance(1, 10) {
            let mut shapes = HashMap::new();
            if !cx.loose {
                T::shape(n, &mut shapes);
            }
            nodes(file, n, &shapes, n.off + n.len + 26, cx);
            continue;
        }
        let c = cx.set_clean(&need);
        let way = cx.r.below(3);
        let got = cx.run("root", || match way {
            0 => file.load_lazy::<T>(),
            1 => file.read_lazy::<T>(),
            _ => file.root::<T>(),
        });
        match got {
            Some(Ok(lz)) => {
                let rounds = 1 + cx.r.below(4);
                for _ in 0..rounds {
                    if cx.budget > 0 {
                        if c || cx.loose {
                            T::look(&lz, v, n, cx);
                        }
                        cx.budget -= 1;
                    }
                }
            }
            Some(Err(e)) => {
                if c {
                    viol!("read-failed", "{}lazy root failed: {e}", cx.label);
                }
            }
            None => {}
        }
    }
}
#[macro_export]
macro_rules! dispatch_lazy {
    ($kind:expr, $f:ident, $($a:expr),*) => {{
        use $crate::model::*;
        use std::collections::HashMap;
        match $kind {
            0 => $f::<Vec<Item>>($($a),*),
            1 => $f::<World>($($a),*),
            2 => $f::<Db>($($a),*),
            3 => $f::<Mid>($($a),*),
            4 => $f::<Vec<Thin>>($($a),*),
            5 => $f::<Tree>($($a),*),
            6 => $f::<Vec<Bare>>($($a),*),
            7 => $f::<Vec<u32>>($($a),*),
            8 => $f::<Vec<Plain>>($($a),*),
            9 => $f::<Vec<u8>>($($a),*),
            10 => $f::<Item>($($a),*),
            11 => $f::<Vec<String>>($($a),*),
            12 => $f::<HashMap<u64, Plain>>($($a),*),
            13 => $f::<HashMap<String, u64>>($($a),*),
            14 => $f::<Bare>($($a),*),
            15 => $f::<Vec<u64>>($($a),*),
            16 => $f::<Vec<f64>>($($a),*),
            17 => $f::<HashMap<u8, u8>>($($a),*),
            18 => $f::<String>($($a),*),
            19 => $f::<Vec<Tree>>($($a),*),
            20 => $f::<Plain>($($a),*),
            22 => $f::<Vec<Exo>>($($a),*),
            23 => $f::<Vec<Mid>>($($a),*),
            24 => $f::<Vec<World>>($($a),*),
            25 => $f::<Exo>($($a),*),
            _ => $f::<Vec<u16>>($($a),*),
        }
    }};
}
pub const N_LAZY: u64 = 26;
pub fn lazy_size(ctx: &mut Ctx, kind: u64, scale: u64) -> usize {
    let cap: u64 = match kind {
        0 | 6 => 150,
        1 | 3 => 60,
        2 => 150,
        4 => 1500,
        5 => 120,
        19 => 40,
        22 | 23 => 60,
        24 => 14,
        25 => 200,
        9 => 60_000,
        7 | 15 | 16 | 21 => 8000,
        8 | 11 => 2500,
        10 | 14 => 3000,
        12 | 13 | 17 => 1500,
        _ => 100,
    };
    ctx.size((cap * scale / 100).max(1)) as usize
}
