//! C14: files damaged in storage.
use super::common::*;
use super::look::*;
use super::read::store;
use crate::model::*;
use crate::reff::{self, Node};
use crate::sim::*;
use crate::dispatch_lazy;
use parcode::Parcode;

fn tweak64(r: &mut Rng, old: u64, len: u64, other: u64) -> u64 {
    match r.below(13) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - r.below(len + 40),
        4 => len,
        5 => len - r.below(len.min(60)),
        6 => old.wrapping_add(1 + r.below(3)),
        7 => old.wrapping_sub(1 + r.below(3)),
        8 => other,
        9 => old ^ 1 << r.below(64),
        10 => r.below(len),
        11 => (1 << 32) - r.below(2),
        _ => r.next(),
    }
}
fn tweak32(r: &mut Rng, old: u32, len: u64) -> u32 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => u32::MAX - r.below(100) as u32,
        4 => old.wrapping_add(1 + r.below(3) as u32),
        5 => old.wrapping_sub(1 + r.below(3) as u32),
        6 => (len / 16) as u32,
        7 => old ^ 1 << r.below(32),
        8 => 0x1000_0000 + r.below(3) as u32,
        _ => r.next() as u32,
    }
}
fn set64(b: &mut [u8], at: usize, f: impl FnOnce(u64) -> u64) {
    if at + 8 <= b.len() {
        let o = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        b[at..at + 8].copy_from_slice(&f(o).to_le_bytes());
    }
}
fn set32(b: &mut [u8], at: usize, f: impl FnOnce(u32) -> u32) {
    if at + 4 <= b.len() {
        let o = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
        b[at..at + 4].copy_from_slice(&f(o).to_le_bytes());
    }
}
fn varint(out: &mut Vec<u8>, v: u64) {
    match v {
        0..=250 => out.push(v as u8),
        251..=0xFFFF => { out.push(251); out.extend_from_slice(&(v as u16).to_le_bytes()) }
        0x1_0000..=0xFFFF_FFFF => { out.push(252); out.extend_from_slice(&(v as u32).to_le_bytes()) }
        _ => { out.push(253); out.extend_from_slice(&v.to_le_bytes()) }
    }
}
/// Damage that is consistent on every level above the one it hits: one chunk's content changes and the whole
/// file is laid out anew around it (payload recompressed, lengths, tables and trailer matching).
fn rewrite(r: &mut Rng, root: &mut Node) -> &'static str {
    fn pick<'a>(r: &mut Rng, n: &'a mut Node) -> &'a mut Node {
        if n.kids.is_empty() || r.chance(1, 3) {
            return n;
        }
        let k = r.below(n.kids.len() as u64) as usize;
        pick(r, &mut n.kids[k])
    }
    let x = pick(r, root);
    let w = match r.below(4) {
        0 if x.kids.len() > 1 => {
            let k = r.below(x.kids.len() as u64) as usize;
            match r.below(4) {
                0 => { x.kids.remove(k); }
                1 => { let c = x.kids[k].clone(); x.kids.insert(k, c); }
                2 => x.kids.swap(0, k),
                _ => { let c = x.kids[k].clone(); x.kids[k].kids.push(c); x.kids[k].meta |= 1; }
            }
            return "consistent child change";
        }
        1 if !x.kids.is_empty() && x.payload.len() != 4 => {
            // a vector container with other counts that agree with one another
            let kids = x.kids.len() as u64;
            let each = match r.below(6) { 0 => 0, 1 => 1, 2 => u32::MAX as u64, 3 => 1 << 28, 4 => r.below(1 << 20), _ => r.below(300) };
            let mut p = vec![];
            if kids > 1 && r.chance(1, 2) {
                let other = r.below(1 << 10);
                let k = 1 + r.below(kids - 1);
                p.extend_from_slice(&(each * (kids - k) + other * k).to_le_bytes());
                p.push(2);
                for v in [each, kids - k, other, k] { varint(&mut p, v); }
            } else {
                p.extend_from_slice(&(each * kids).to_le_bytes());
                p.push(1);
                for v in [each, kids] { varint(&mut p, v); }
            }
            x.payload = p;
            "consistent counts"
        }
        _ => {
            let p = &mut x.payload;
            let l = p.len() as u64;
            if l == 0 {
                return "nothing";
            }
            match r.below(6) {
                0 => { let k = r.below(l) as usize; p.truncate(k); }
                1 => set64(p, 0, |o| tweak64(r, o, l, l / 2)),
                2 => set32(p, 0, |o| tweak32(r, o, l as u64)),
                3 => { let i = r.below(l.min(40)) as usize; p[i] = [0, 1, 250, 251, 252, 253, 254, 255][r.below(8) as usize]; }
                4 => { let i = 4 * r.below(l / 4 + 1) as usize; set32(p, i, |o| tweak32(r, o, l as u64)); }
                _ => { for _ in 0..1 + r.below(4) { let i = r.below(l) as usize; p[i] = r.next() as u8; } }
            }
            "consistent payload change"
        }
    };
    x.raw = match (x.meta >> 1) & 7 {
        0 => x.payload.clone(),
        _ => {
            let mut z = (x.payload.len() as u32).to_le_bytes().to_vec();
            z.extend(lz4_flex::block::compress(&x.payload));
            z
        }
    };
    w
}
/// One piece of damage. `orig` describes the undamaged file, `stale` is another file.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>, orig: &Node, stale: &[u8]) -> &'static str {
    let mut all = vec![];
    orig.walk(&mut all);
    let n = b.len();
    if n == 0 {
        return "nothing";
    }
    let span = |r: &mut Rng| {
        let l = 1 + match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(100), _ => r.below(n as u64) } as usize;
        let l = l.min(n);
        let s = r.below((n - l) as u64 + 1) as usize;
        (s, s + l)
    };
    // half of the structural damage goes to containers
    let node = |r: &mut Rng| -> Node {
        let cs: Vec<&&Node> = all.iter().filter(|x| !x.kids.is_empty()).collect();
        let k = if !cs.is_empty() && r.chance(1, 2) { (*cs[r.below(cs.len() as u64) as usize]).clone() } else { (*all[r.below(all.len() as u64) as usize]).clone() };
        Node { kids: k.kids.into_iter().map(|c| Node { kids: vec![], raw: vec![], payload: vec![], ..c }).collect(), ..k }
    };
    match r.below(23) {
        20..=22 => {
            let mut t = orig.clone();
            let w = rewrite(r, &mut t);
            *b = reff::emit(&t);
            w
        }
        0 => {
            for _ in 0..1 + r.below(8) {
                let i = r.below(n as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
            "bit flips"
        }
        1 => {
            let (s, e) = span(r);
            b[s..e].fill(if r.chance(2, 3) { 0 } else { 0xFF });
            "zeroed range"
        }
        2 => {
            let (s, e) = span(r);
            b[s..e].iter_mut().for_each(|x| *x = r.next() as u8);
            "garbage range"
        }
        3 => {
            let (s, e) = span(r);
            let l = (e - s).min(n / 2);
            let t = r.below((n - l) as u64 + 1) as usize;
            for i in 0..l {
                b.swap(s.min(n - l) + i, t + i);
            }
            "swapped ranges"
        }
        4 => {
            let (s, e) = span(r);
            b.drain(s..e);
            "missing range"
        }
        5 => {
            let (s, e) = span(r);
            let d = b[s..e].to_vec();
            let at = if r.chance(1, 2) { e } else { r.below(n as u64) as usize };
            b.splice(at..at, d);
            "repeated range"
        }
        6 => {
            let k = if r.chance(1, 2) { r.below(n as u64) as usize } else { n - 1 - r.below(40.min(n as u64)) as usize };
            b.truncate(k);
            "truncation"
        }
        7 => {
            let k = 1 + r.below(80);
            b.extend((0..k).map(|_| r.next() as u8));
            if r.chance(1, 2) && stale.len() > 26 {
                b.extend_from_slice(&stale[stale.len() - 26..]);
            }
            "appended garbage"
        }
        8 => {
            let (s, e) = span(r);
            let k = stale.len();
            if k > 0 {
                for i in s..e {
                    b[i] = stale[i % k];
                }
            }
            "stale range"
        }
        9 => {
            // lost middle, same length: everything behind moves up, the end stays
            let (s, e) = span(r);
            b.copy_within(e.., s);
            "shifted content"
        }
        10 => {
            let h = n.saturating_sub(26);
            let other = all[r.below(all.len() as u64) as usize].off;
            match r.below(4) {
                0 => set64(b, h + 6, |o| tweak64(r, o, n as u64, other)),
                1 => set64(b, h + 14, |o| tweak64(r, o, n as u64, other)),
                2 => {
                    set64(b, h + 6, |o| tweak64(r, o, n as u64, other));
                    set64(b, h + 14, |o| tweak64(r, o, n as u64, other));
                }
                _ => {
                    // another chunk as the root
                    let x = all[r.below(all.len() as u64) as usize];
                    set64(b, h + 6, |_| x.off);
                    set64(b, h + 14, |_| x.len);
                }
            }
            "trailer field"
        }
        11 | 12 => {
            let x = node(r);
            if x.kids.is_empty() {
                return "nothing";
            }
            let k = r.below(x.kids.len() as u64) as usize;
            let at = x.off as usize + x.raw.len() + k * 16;
            let other = all[r.below(all.len() as u64) as usize];
            match r.below(5) {
                0 => set64(b, at, |o| tweak64(r, o, n as u64, other.off)),
                1 => set64(b, at + 8, |o| tweak64(r, o, n as u64, other.len)),
                2 => {
                    set64(b, at, |_| other.off);
                    set64(b, at + 8, |_| other.len);
                }
                3 => {
                    // itself or its parent's range: a cycle
                    set64(b, at, |_| x.off);
                    set64(b, at + 8, |_| x.len);
                }
                _ => {
                    let j = x.off as usize + x.raw.len() + r.below(x.kids.len() as u64) as usize * 16;
                    if at.max(j) + 16 <= b.len() {
                        let t: [u8; 16] = b[at..at + 16].try_into().unwrap();
                        b.copy_within(j..j + 16, at);
                        b[j..j + 16].copy_from_slice(&t);
                    }
                }
            }
            "child table entry"
        }
        13 => {
            let x = node(r);
            let at = (x.off + x.len) as usize;
            if at >= 5 {
                set32(b, at - 5, |o| tweak32(r, o, n as u64));
            }
            "child count"
        }
        14 => {
            let x = node(r);
            let at = (x.off + x.len) as usize - 1;
            if at < b.len() {
                b[at] = if r.chance(1, 2) { b[at] ^ 1 << r.below(8) } else { r.next() as u8 };
            }
            "chunk flags"
        }
        15 | 16 => {
            // head of a payload: totals, run tables, shard counts, uncompressed sizes
            let x = node(r);
            let l = x.raw.len();
            if l == 0 {
                return "nothing";
            }
            let at = x.off as usize;
            match r.below(5) {
                0 => set64(b, at, |o| tweak64(r, o, n as u64, l as u64)),
                1 => set32(b, at, |o| tweak32(r, o, n as u64)),
                2 => {
                    let i = at + r.below(l.min(20) as u64) as usize;
                    if i < b.len() {
                        b[i] = [0, 1, 250, 251, 252, 253, 254, 255][r.below(8) as usize];
                    }
                }
                3 => {
                    // a varint of full width
                    let i = at + if l > 8 && r.chance(1, 2) { 8 + r.below((l as u64 - 8).min(12)) as usize } else { 0 };
                    if i + 9 <= b.len() {
                        b[i] = 253;
                        let v = tweak64(r, l as u64, n as u64, 1 << 40);
                        b[i + 1..i + 9].copy_from_slice(&v.to_le_bytes());
                    }
                }
                _ => {
                    let i = at + r.below(l as u64) as usize;
                    if i < b.len() {
                        b[i] = r.next() as u8;
                    }
                }
            }
            "payload head"
        }
        17 => {
            // tables inside a map shard
            let x = node(r);
            let l = x.raw.len() as u64;
            let at = x.off as usize;
            for _ in 0..1 + r.below(3) {
                let i = at + 4 * r.below(l / 4 + 1) as usize;
                set32(b, i, |o| tweak32(r, o, n as u64));
            }
            "payload words"
        }
        18 => {
            // the trailer survives, something before it is cut out or doubled
            if n < 60 {
                return "nothing";
            }
            let body = n - 26;
            let s = r.below(body as u64 - 1) as usize;
            let e = (s + 1 + r.below(300) as usize).min(body);
            if r.chance(1, 2) {
                b.drain(s..e);
            } else {
                let d = b[s..e].to_vec();
                b.splice(s..s, d);
            }
            // and the trailer may have been rewritten to match the new end
            if r.chance(1, 2) {
                let h = b.len() - 26;
                let len = u64::from_le_bytes(b[h + 14..h + 22].try_into().unwrap());
                set64(b, h + 6, |_| (h as u64).wrapping_sub(len));
            }
            "moved body"
        }
        _ => {
            let s = r.below(n as u64) as usize;
            let page = 512;
            let s = s / page * page;
            let e = (s + page).min(n);
            match r.below(3) {
                0 => b[s..e].fill(0),
                1 => {
                    let t = (r.below(n as u64) as usize / page * page).min(n - (e - s));
                    b.copy_within(t..t + (e - s), s);
                }
                _ => (s..e).for_each(|i| b[i] = *stale.get(i).unwrap_or(&0)),
            }
            "lost or misdirected sector"
        }
    }
}

pub fn c14(ctx: &mut Ctx) {
    let kind = ctx.draw(0, N_LAZY - 1);
    dispatch_lazy!(kind, c14_t, ctx, kind)
}
fn c14_t<T: LazyModel>(ctx: &mut Ctx, kind: u64) {
    let n = lazy_size(ctx, kind, 60);
    let v = T::make(&mut Rng(ctx.draw(0, 1 << 32)), n);
    let (bytes, node) = store(ctx, &v);
    let sn = lazy_size(ctx, kind, 40);
    let mut stale = vec![];
    let sv = T::make(&mut Rng(ctx.draw(0, 1 << 32)), sn);
    let _ = catch(|| Parcode::builder().compression(HAS_LZ4 && n % 2 == 0).write_sync(&mut stale, &sv));
    let mut r = Rng(ctx.draw(0, 1 << 32));
    let mut b = bytes.clone();
    let rounds = ctx.pick(&[1u64, 1, 1, 2, 4]);
    let mut what = vec![];
    for _ in 0..rounds {
        what.push(damage(&mut r, &mut b, &node, &stale));
    }
    for w in &what {
        probe(&format!("fault.{}", w.replace(' ', "_")));
    }
    desc(&format!("n={n} {} bytes: {what:?}", bytes.len()));
    phase("prepare");
    fs_put("/simfs/bad.par", &b);
    // started outside the memory limit: worker threads
    #[cfg(feature = "parallel")]
    rayon::broadcast(|_| ());
    let other = ctx.draw(0, 2 * N_LAZY);
    let way = ctx.draw(0, 2);
    let mut cx = Look::new(ctx.draw(0, 1 << 32), ctx.draw(5, 40) as i64);
    cx.loose = true;
    cx.mem = Mem::Cap((64 << 20) + 600 * (b.len() as i64));
    // an LZ4 block expands at most 255 times
    cx.max_iter = b.len() * if node_lz4(&node) { 300 } else { 4 } + 1000;
    cx.label = "damaged file: ";
    phase("open");
    let file = match cx.run("open", || match way {
        0 => Parcode::open("/simfs/bad.par"),
        1 => Parcode::open_bytes(b.clone()),
        _ => parcode::ParcodeFile::from_bytes(b.clone()),
    }) {
        Some(Ok(f)) => f,
        _ => {
            eval1();
            return;
        }
    };
    probe("damaged_file_opens");
    phase("inspect");
    match cx.run("inspect", || file.inspect().map(|r| r.to_string().len())) {
        Some(Ok(_)) => probe("damaged_file_inspects"),
        _ => probe("damaged_file_rejected_by_inspect"),
    }
    phase("load");
    match cx.run("load", || file.load::<T>()) {
        Some(Ok(x)) => probe(if x == v { "damage_without_effect" } else { "damage_changes_value" }),
        Some(Err(_)) => probe("damage_reported"),
        None => {}
    }
    eval1();
    phase("explore");
    explore::<T>(&file, &v, &node, &mut cx, true);
    // the file read as a value of another type (a stale or swapped directory entry)
    if other < N_LAZY {
        fn alien<U: LazyModel>(file: &parcode::ParcodeFile, cx: &mut Look, seed: u64) {
            let u = U::make(&mut Rng(seed), 12);
            let mut b = vec![];
            if Parcode::write_sync(&mut b, &u).is_err() {
                return;
            }
            let Ok(n) = reff::parse(&b) else { return };
            cx.budget = 12;
            cx.label = "file of another type: ";
            explore::<U>(file, &u, &n, cx, true);
        }
        probe("fault.wrong_type");
        phase("wrong-type");
        dispatch_lazy!(other, alien, &file, &mut cx, other)
    }
    phase("intact");
    drop(file);
    let good = nopanic("load", catch(|| Parcode::load_bytes::<T>(bytes)));
    match good {
        Ok(x) => crate::ensure!(x == v, "wrong-value", "an intact file loads as another value after a damaged one was read"),
        Err(e) => crate::viol!("load-failed", "an intact file fails to load after a damaged one was read: {e}"),
    }
}
fn node_lz4(n: &Node) -> bool {
    n.meta >> 1 & 7 != 0 || n.kids.iter().any(node_lz4)
}
