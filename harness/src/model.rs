//! Data model: the value types the simulated clients save and load, and their generators.
#![allow(dead_code)]
use crate::sim::{Ctx, Rng};
use parcode::ParcodeObject;
use parcode::reader::ParcodeNative;
use parcode::visitor::ParcodeVisitor;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Plain {
    pub a: u32,
    pub s: String,
    pub t: (u8, i64),
    pub o: Option<u16>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Item {
    pub id: u64,
    #[parcode(chunkable)]
    pub data: Vec<u8>,
    pub tag: String,
    #[parcode(chunkable, compression = "lz4")]
    pub nums: Vec<u32>,
    #[parcode(chunkable)]
    pub inner: Plain,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Tree {
    pub v: u32,
    #[parcode(chunkable)]
    pub kids: Vec<Tree>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Bare {
    #[parcode(chunkable)]
    pub x: Vec<u16>,
    #[parcode(chunkable)]
    pub y: Plain,
}
/// Small structure with one remote field: many children per shard.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Thin {
    pub k: u16,
    #[parcode(chunkable)]
    pub p: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Mid {
    pub label: String,
    #[parcode(chunkable)]
    pub things: Vec<Thin>,
    #[parcode(chunkable)]
    pub bare: Bare,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct World {
    pub id: u64,
    #[parcode(chunkable)]
    pub nums: Vec<u64>,
    pub name: String,
    #[parcode(chunkable, compression = "lz4")]
    pub items: Vec<Item>,
    #[parcode(map)]
    pub index: HashMap<u64, Plain>,
    #[parcode(map, compression = "lz4")]
    pub names: HashMap<String, String>,
    #[parcode(chunkable)]
    pub blob: HashMap<u16, u32>,
    pub inline_map: Vec<(u8, String)>,
    #[parcode(chunkable)]
    pub one: u64,
    #[parcode(chunkable, compression = "zstd")]
    pub text: String,
    #[parcode(chunkable)]
    pub mid: Mid,
    #[parcode(chunkable)]
    pub plains: Vec<Plain>,
}
/// Map values with remote fields, which come last (see `Odd`).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Entry {
    pub level: u32,
    pub note: String,
    #[parcode(chunkable)]
    pub inv: Vec<u32>,
}
/// Map values with an inline field after a remote one: lazy lookups misread them (known finding).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Odd {
    #[parcode(chunkable)]
    pub inv: Vec<u32>,
    pub level: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct OddDb {
    #[parcode(map)]
    pub odd: HashMap<u32, Odd>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Db {
    pub ver: u8,
    #[parcode(map)]
    pub plain: HashMap<u64, Plain>,
    #[parcode(map)]
    pub coll: HashMap<Key, u64>,
    #[parcode(map)]
    pub strs: HashMap<String, Vec<u16>>,
    #[parcode(map)]
    pub single: HashMap<u8, u8>,
    #[parcode(chunkable)]
    pub blob: HashMap<u8, u8>,
    #[parcode(map)]
    pub entries: HashMap<u32, Entry>,
    #[parcode(map)]
    pub kents: HashMap<Key, Entry>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sort {
    Unit,
    One(i32),
    Two(u8, String),
    Named { x: f32, y: Option<Box<Sort>> },
}
/// Every kind of inline field, remote fields in between, a map inside.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Exo {
    pub sort: Sort,
    #[parcode(chunkable)]
    pub bytes: Vec<i8>,
    pub arr: [u16; 3],
    pub c: char,
    #[parcode(chunkable)]
    pub flag: bool,
    pub big: i128,
    pub nested: Vec<Vec<u8>>,
    #[parcode(chunkable, compression = "none")]
    pub f: Vec<f32>,
    pub tree: BTreeMap<i16, (u8, f64)>,
    pub unit: (),
    #[parcode(map)]
    pub m: HashMap<i32, u64>,
    #[parcode(chunkable)]
    pub mid: Mid,
    pub w: usize,
}
/// No field at all: elements without bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, ParcodeObject)]
pub struct Nil {}

/// A key whose `Hash` keeps only a few bits (all hash values collide often) but whose `Eq` is exact.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Key {
    pub id: u32,
    pub mode: u8,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.mode {
            0 => 7u8.hash(h),                      // every key collides
            1 => (self.id % 3).hash(h),            // three classes
            2 => (self.id / 2).hash(h),            // pairs
            _ => self.id.hash(h),
        }
    }
}

// ---------------------------------------------------------------- generation
pub fn g_string(r: &mut Rng, max: u64) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push(match r.below(12) {
            0 => 'é',
            1 => '漢',
            2 => ' ',
            k => (b'a' + (k as u8 * 3 + r.below(4) as u8) % 26) as char,
        });
    }
    s
}
/// Integers over all varint widths.
pub fn g_u64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(251),
        1 => r.range(250, 252),
        2 => r.below(70_000),
        3 => r.below(1 << 33),
        4 => u64::MAX - r.below(3),
        _ => r.next(),
    }
}
pub fn g_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mode = r.below(3);
    while v.len() < n {
        let x = r.next();
        match mode {
            0 => v.extend_from_slice(&x.to_le_bytes()),
            1 => v.extend(std::iter::repeat_n(x as u8, 1 + (x >> 8) as usize % 40)),
            _ => v.extend_from_slice(&[(x % 3) as u8; 8]),
        }
    }
    v.truncate(n);
    v
}
pub fn g_plain(r: &mut Rng) -> Plain {
    Plain {
        a: g_u64(r) as u32,
        s: g_string(r, 12),
        t: (r.next() as u8, r.next() as i64 >> r.below(60)),
        o: if r.chance(1, 2) { Some(r.next() as u16) } else { None },
    }
}
pub fn g_item(r: &mut Rng, n: usize) -> Item {
    let nd = r.below(n as u64 + 1) as usize;
    let nn = r.below(n as u64 + 1) as usize;
    Item {
        id: g_u64(r),
        data: g_bytes(r, nd),
        tag: g_string(r, 8),
        nums: (0..nn).map(|_| g_u64(r) as u32).collect(),
        inner: g_plain(r),
    }
}
fn g_tree(r: &mut Rng, budget: &mut i64, depth: u32) -> Tree {
    let v = g_u64(r) as u32;
    let mut kids = vec![];
    if depth < 40 {
        let want = if depth == 0 { 3 } else { r.below(4) };
        for _ in 0..want {
            if *budget <= 0 {
                break;
            }
            *budget -= 1;
            kids.push(g_tree(r, budget, depth + 1));
        }
    }
    Tree { v, kids }
}
pub fn g_bare(r: &mut Rng, n: usize) -> Bare {
    Bare { x: (0..n).map(|_| g_u64(r) as u16).collect(), y: g_plain(r) }
}
pub fn g_thin(r: &mut Rng) -> Thin {
    Thin { k: r.next() as u16, p: g_u64(r) }
}
pub fn g_mid(r: &mut Rng, n: usize) -> Mid {
    Mid {
        label: g_string(r, 10),
        things: (0..n).map(|_| g_thin(r)).collect(),
        bare: { let k = r.below(n as u64 * 4 + 2) as usize; g_bare(r, k) },
    }
}
fn g_sort(r: &mut Rng, depth: u32) -> Sort {
    match r.below(4) {
        0 => Sort::Unit,
        1 => Sort::One(g_u64(r) as i32),
        2 => Sort::Two(r.next() as u8, g_string(r, 5)),
        _ => Sort::Named { x: r.next() as i32 as f32 / 9.0, y: if depth < 4 && r.chance(2, 3) { Some(Box::new(g_sort(r, depth + 1))) } else { None } },
    }
}
pub fn g_exo(r: &mut Rng, n: usize) -> Exo {
    Exo {
        sort: g_sort(r, 0),
        bytes: { let k = part(r, n * 3); (0..k).map(|_| r.next() as i8).collect() },
        arr: [r.next() as u16, 0, r.below(300) as u16],
        c: ['a', 'ß', '漢', '🦀', '\0'][r.below(5) as usize],
        flag: r.chance(1, 2),
        big: (r.next() as i64 as i128) << r.below(60),
        nested: { let k = r.below(4); (0..k).map(|_| { let l = r.below(5) as usize; g_bytes(r, l) }).collect() },
        f: { let k = part(r, n * 2); (0..k).map(|_| r.next() as i32 as f32 / 3.0).collect() },
        tree: { let k = r.below(4); (0..k).map(|_| (r.next() as i16, (r.next() as u8, r.next() as i64 as f64 / 7.0))).collect() },
        unit: (),
        m: { let k = part(r, n); (0..k).map(|_| (g_u64(r) as i32, g_u64(r))).collect() },
        mid: { let k = part(r, n.min(20)); g_mid(r, k) },
        w: g_u64(r) as usize,
    }
}
fn part(r: &mut Rng, n: usize) -> usize {
    match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.below(n as u64 + 1) as usize,
    }
}
pub fn g_world(r: &mut Rng, n: usize) -> World {
    World {
        id: g_u64(r),
        nums: { let k = part(r, n * 8); (0..k).map(|_| g_u64(r)).collect() },
        name: g_string(r, 20),
        items: { let k = part(r, n); (0..k).map(|_| g_item(r, 12)).collect() },
        index: { let k = part(r, n); (0..k).map(|_| (g_u64(r), g_plain(r))).collect() },
        names: { let k = part(r, n); (0..k).map(|_| (g_string(r, 6), g_string(r, 9))).collect() },
        // at least two entries or none; single-entry maps are covered by the map scenarios
        blob: { let k = part(r, n); (0..k).map(|i| (i as u16 * 7, r.next() as u32)).collect() },
        inline_map: { let k = r.below(4); (0..k).map(|i| (i as u8, g_string(r, 4))).collect() },
        one: g_u64(r),
        text: g_string(r, 30),
        mid: { let k = part(r, n); g_mid(r, k) },
        plains: { let k = part(r, n * 4); (0..k).map(|_| g_plain(r)).collect() },
    }
}

/// Everything a root value needs so that generic clients can save, load and compare it.
pub trait Model:
    ParcodeVisitor + ParcodeNative + PartialEq + std::fmt::Debug + Clone + Send + Sync + 'static
{
    const NAME: &'static str;
    fn make(r: &mut Rng, n: usize) -> Self;
    /// A small change in one place; often the encoding keeps its length.
    fn tweak(&mut self, _r: &mut Rng) {}
    /// short description of a difference, for reports
    fn diff(&self, other: &Self) -> String {
        let a = format!("{self:?}");
        let b = format!("{other:?}");
        let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let cut = |s: &str| {
            let lo = i.saturating_sub(30);
            s.bytes().skip(lo).take(90).map(|c| if c.is_ascii() { c as char } else { '?' }).collect::<String>()
        };
        format!("debug length {} vs {}, first difference at {}: ..{}.. vs ..{}..", a.len(), b.len(), i, cut(&a), cut(&b))
    }
}
macro_rules! vec_model {
    ($t:ty, $name:expr, $r:ident, $e:expr) => {
        impl Model for Vec<$t> {
            const NAME: &'static str = $name;
            fn make($r: &mut Rng, n: usize) -> Self {
                // runs of similar width make shard sizing depend on the sampled head
                let mut v = Vec::with_capacity(n);
                for _ in 0..n {
                    v.push($e);
                }
                v
            }
            fn tweak(&mut self, $r: &mut Rng) {
                if !self.is_empty() {
                    let i = $r.below(self.len() as u64) as usize;
                    self[i] = $e;
                }
            }
        }
    };
}
impl Model for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_bytes(r, n)
    }
    fn tweak(&mut self, r: &mut Rng) {
        if !self.is_empty() {
            let i = r.below(self.len() as u64) as usize;
            self[i] ^= 1 << r.below(8);
        }
    }
}
/// Shard sizes follow the first elements: sometimes those are much larger or smaller than the rest.
fn g_lead(r: &mut Rng, mode: u64, i: usize, s: String) -> String {
    match mode {
        0 if i < 8 => {
            let k = match r.below(40) { 0 => 30_000, 1..4 => 6000, _ => 900 };
            "lead ".repeat(k + r.below(300) as usize)
        }
        1 if i < 8 => "lead ".repeat(100),
        2 if i >= 8 && r.chance(1, 60) => "tail ".repeat(r.below(2000) as usize),
        _ => s,
    }
}
impl Model for Vec<String> {
    const NAME: &'static str = "Vec<String>";
    fn make(r: &mut Rng, n: usize) -> Self {
        let mode = r.below(12);
        (0..n).map(|i| { let s = g_string(r, 14); g_lead(r, mode, i, s) }).collect()
    }
    fn tweak(&mut self, r: &mut Rng) {
        if !self.is_empty() {
            let i = r.below(self.len() as u64) as usize;
            self[i] = g_string(r, 14);
        }
    }
}
impl Model for Vec<Plain> {
    const NAME: &'static str = "Vec<Plain>";
    fn make(r: &mut Rng, n: usize) -> Self {
        let mode = r.below(12);
        (0..n).map(|i| { let mut p = g_plain(r); p.s = g_lead(r, mode, i, p.s); p }).collect()
    }
    fn tweak(&mut self, r: &mut Rng) {
        if !self.is_empty() {
            let i = r.below(self.len() as u64) as usize;
            self[i].t.0 ^= 1;
        }
    }
}
vec_model!(u16, "Vec<u16>", r, r.next() as u16);
vec_model!(u32, "Vec<u32>", r, g_u64(r) as u32);
vec_model!(u64, "Vec<u64>", r, g_u64(r));
vec_model!(i16, "Vec<i16>", r, r.next() as i16);
vec_model!(i64, "Vec<i64>", r, g_u64(r) as i64);
vec_model!(u128, "Vec<u128>", r, (g_u64(r) as u128) << r.below(64) | 1);
vec_model!(f32, "Vec<f32>", r, r.next() as i32 as f32 / 3.0);
vec_model!(f64, "Vec<f64>", r, r.next() as i64 as f64 / 7.0);
vec_model!(bool, "Vec<bool>", r, r.chance(1, 2));
vec_model!(Item, "Vec<Item>", r, g_item(r, 10));
vec_model!(Exo, "Vec<Exo>", r, { let k = r.below(12) as usize; g_exo(r, k) });
/// Elements with large inner collections: every element a shard of its own, with many shards below it.
fn deep(r: &mut Rng, n: usize) -> Option<usize> {
    (n >= 4 && n <= 200 && r.chance(1, 8)).then(|| n.min(4 + r.below(9) as usize))
}
fn g_deep_bare(r: &mut Rng) -> Bare {
    let k = 1500 + r.below(9000) as usize;
    g_bare(r, k)
}
impl Model for Vec<Mid> {
    const NAME: &'static str = "Vec<Mid>";
    fn make(r: &mut Rng, n: usize) -> Self {
        let d = deep(r, n);
        (0..d.unwrap_or(n))
            .map(|_| {
                let k = r.below(10) as usize;
                let mut m = g_mid(r, k);
                if d.is_some() {
                    m.bare = g_deep_bare(r);
                    if r.chance(1, 2) {
                        m.label = "label ".repeat(r.below(900) as usize);
                    }
                }
                m
            })
            .collect()
    }
    fn tweak(&mut self, r: &mut Rng) {
        if !self.is_empty() {
            let i = r.below(self.len() as u64) as usize;
            self[i].bare.y.t.0 ^= 1;
        }
    }
}
vec_model!(World, "Vec<World>", r, { let k = r.below(5) as usize; g_world(r, k) });
vec_model!(Nil, "Vec<Nil>", _r, Nil {});
vec_model!(i8, "Vec<i8>", r, r.next() as i8);
impl Model for Exo {
    const NAME: &'static str = "Exo";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_exo(r, n)
    }
}
vec_model!(Thin, "Vec<Thin>", r, g_thin(r));
impl Model for Vec<Bare> {
    const NAME: &'static str = "Vec<Bare>";
    fn make(r: &mut Rng, n: usize) -> Self {
        let d = deep(r, n);
        (0..d.unwrap_or(n)).map(|_| if d.is_some() { g_deep_bare(r) } else { g_bare(r, 5) }).collect()
    }
    fn tweak(&mut self, r: &mut Rng) {
        if !self.is_empty() {
            let i = r.below(self.len() as u64) as usize;
            self[i].y.t.0 ^= 1;
        }
    }
}
impl Model for u64 {
    const NAME: &'static str = "u64";
    fn make(r: &mut Rng, _: usize) -> Self {
        g_u64(r)
    }
}
impl Model for String {
    const NAME: &'static str = "String";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_string(r, n as u64)
    }
}
impl Model for Plain {
    const NAME: &'static str = "Plain";
    fn make(r: &mut Rng, _: usize) -> Self {
        g_plain(r)
    }
}
impl Model for Item {
    const NAME: &'static str = "Item";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_item(r, n)
    }
}
impl Model for Bare {
    const NAME: &'static str = "Bare";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_bare(r, n)
    }
}
impl Model for Mid {
    const NAME: &'static str = "Mid";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_mid(r, n)
    }
}
impl Model for World {
    const NAME: &'static str = "World";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_world(r, n)
    }
    fn tweak(&mut self, r: &mut Rng) {
        match r.below(3) {
            0 => self.one ^= 1,
            1 => self.blob.values_mut().for_each(|v| *v ^= 1),
            _ => if let Some(i) = self.items.last_mut() { i.data.iter_mut().for_each(|b| *b = !*b) },
        }
    }
}
impl Model for Tree {
    const NAME: &'static str = "Tree";
    fn make(r: &mut Rng, n: usize) -> Self {
        let mut b = n.min(400) as i64;
        g_tree(r, &mut b, 0)
    }
}
impl Model for HashMap<u64, Plain> {
    const NAME: &'static str = "HashMap<u64,Plain>";
    fn make(r: &mut Rng, n: usize) -> Self {
        (0..n).map(|_| (g_u64(r), g_plain(r))).collect()
    }
}
impl Model for HashMap<String, u64> {
    const NAME: &'static str = "HashMap<String,u64>";
    fn make(r: &mut Rng, n: usize) -> Self {
        (0..n).map(|_| (g_string(r, 8), g_u64(r))).collect()
    }
}
impl Model for HashMap<u8, u8> {
    const NAME: &'static str = "HashMap<u8,u8>";
    fn make(r: &mut Rng, n: usize) -> Self {
        (0..n.min(300)).map(|_| (r.next() as u8, r.next() as u8)).collect()
    }
}

pub const N_KINDS: u64 = 32;
/// Calls a generic function with the model type selected by a number.
#[macro_export]
macro_rules! dispatch {
    ($kind:expr, $f:ident, $($a:expr),*) => {{
        use $crate::model::*;
        use std::collections::HashMap;
        match $kind {
            0 => $f::<Vec<u32>>($($a),*),
            1 => $f::<Vec<Item>>($($a),*),
            2 => $f::<World>($($a),*),
            3 => $f::<Vec<u8>>($($a),*),
            4 => $f::<Vec<Plain>>($($a),*),
            5 => $f::<Vec<Thin>>($($a),*),
            6 => $f::<Tree>($($a),*),
            7 => $f::<Mid>($($a),*),
            8 => $f::<Bare>($($a),*),
            9 => $f::<Vec<String>>($($a),*),
            10 => $f::<HashMap<u64, Plain>>($($a),*),
            11 => $f::<Vec<u64>>($($a),*),
            12 => $f::<Item>($($a),*),
            13 => $f::<Plain>($($a),*),
            14 => $f::<Vec<u16>>($($a),*),
            15 => $f::<Vec<bool>>($($a),*),
            16 => $f::<Vec<f64>>($($a),*),
            17 => $f::<Vec<i64>>($($a),*),
            18 => $f::<Vec<u128>>($($a),*),
            19 => $f::<u64>($($a),*),
            20 => $f::<String>($($a),*),
            21 => $f::<HashMap<String, u64>>($($a),*),
            22 => $f::<Vec<Bare>>($($a),*),
            23 => $f::<HashMap<u8, u8>>($($a),*),
            25 => $f::<Vec<Exo>>($($a),*),
            26 => $f::<Vec<Mid>>($($a),*),
            27 => $f::<Vec<World>>($($a),*),
            28 => $f::<Vec<Nil>>($($a),*),
            29 => $f::<Vec<i8>>($($a),*),
            30 => $f::<Vec<f32>>($($a),*),
            31 => $f::<Exo>($($a),*),
            _ => $f::<Vec<i16>>($($a),*),
        }
    }};
}
/// Draws a size suited to the kind: element-heavy kinds get smaller ones.
pub fn draw_size(ctx: &mut Ctx, kind: u64, scale: u64) -> usize {
    let cap: u64 = match kind {
        3 => 60_000,
        0 | 11 | 14 | 15 | 16 | 17 | 18 | 24 | 9 => 6000,
        4 => 2500,
        10 | 21 | 23 => 1500,
        5 => 1500,
        1 | 22 => 120,
        25 | 26 => 60,
        27 => 14,
        28 => 20_000,
        29 | 30 => 6000,
        31 => 400,
        2 | 7 => 60,
        6 => 200,
        8 | 12 => 3000,
        _ => 200,
    };
    ctx.size((cap * scale / 100).max(1)) as usize
}

/// Occasionally replaces a drawn size by one whose chunks are large: over 64 KiB, several shards, over 1 MiB,
/// rarely over the write buffer.
pub fn maybe_large(ctx: &mut Ctx, kind: u64, n: usize) -> usize {
    if !ctx.chance(1, 14) {
        return n;
    }
    crate::sim::probe("large_value");
    let cap: u64 = match kind {
        3 if ctx.chance(1, 8) => {
            crate::sim::probe("output_over_buffer");
            return ctx.draw(16_700_000, 18_500_000) as usize;
        }
        3 => 2_500_000,
        20 => 400_000,
        0 | 11 | 14 | 16 | 17 | 18 | 24 | 29 | 30 => 180_000,
        28 => 3_000_000,
        25 | 26 => 600,
        27 => 100,
        15 => 500_000,
        9 => 40_000,
        4 => 30_000,
        10 | 21 => 9000,
        5 => 9000,
        1 | 22 => 2000,
        2 => 500,
        7 => 3000,
        8 | 12 => 200_000,
        _ => return n,
    };
    ctx.draw(cap / 20, cap) as usize
}
impl Model for Vec<Tree> {
    const NAME: &'static str = "Vec<Tree>";
    fn make(r: &mut Rng, n: usize) -> Self {
        (0..n).map(|_| { let mut b = r.below(8) as i64; g_tree(r, &mut b, 38) }).collect()
    }
}
pub fn g_db(r: &mut Rng, n: usize) -> Db {
    let mode = r.below(4) as u8;
    Db {
        ver: r.next() as u8,
        plain: { let k = part(r, n); (0..k).map(|_| (g_u64(r), g_plain(r))).collect() },
        coll: { let k = part(r, n); (0..k).map(|i| (Key { id: i as u32, mode }, r.next())).collect() },
        strs: { let k = part(r, n); (0..k).map(|_| (g_string(r, 6), { let m = r.below(5); (0..m).map(|_| r.next() as u16).collect() })).collect() },
        single: { let k = r.below(3); (0..k).map(|_| (r.next() as u8, r.next() as u8)).collect() },
        blob: { let k = r.below(4); (0..k).map(|_| (r.next() as u8, r.next() as u8)).collect() },
        entries: { let k = part(r, n); (0..k).map(|i| (i as u32 * 3, g_entry(r))).collect() },
        kents: { let k = part(r, n); (0..k).map(|i| (Key { id: i as u32, mode: (mode + 1) % 4 }, g_entry(r))).collect() },
    }
}
pub fn g_entry(r: &mut Rng) -> Entry {
    Entry { level: g_u64(r) as u32, inv: { let k = r.below(6); (0..k).map(|_| g_u64(r) as u32).collect() }, note: g_string(r, 6) }
}
impl Model for Db {
    const NAME: &'static str = "Db";
    fn make(r: &mut Rng, n: usize) -> Self {
        g_db(r, n)
    }
}
