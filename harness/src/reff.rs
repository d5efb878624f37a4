//! Independent reader of the on-disk format (V4), used as an oracle. Shares no code with parcode.
#![allow(dead_code)]
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub off: u64,
    pub len: u64,
    pub meta: u8,
    pub raw: Vec<u8>,     // payload as stored
    pub payload: Vec<u8>, // after decompression
    pub kids: Vec<Node>,
}
impl Node {
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Node>) {
        out.push(self);
        for k in &self.kids {
            k.walk(out);
        }
    }
    /// Placement-independent equality.
    pub fn same(&self, o: &Node) -> Result<(), String> {
        if self.meta != o.meta {
            return Err(format!("meta byte {} vs {} (chunk at {} / {})", self.meta, o.meta, self.off, o.off));
        }
        if self.payload != o.payload {
            return Err(format!("payload of chunk at {} / {} differs ({} vs {} bytes)", self.off, o.off, self.payload.len(), o.payload.len()));
        }
        if self.raw != o.raw {
            return Err(format!("stored payload of chunk at {} / {} differs", self.off, o.off));
        }
        if self.kids.len() != o.kids.len() {
            return Err(format!("child count {} vs {} (chunk at {} / {})", self.kids.len(), o.kids.len(), self.off, o.off));
        }
        for (a, b) in self.kids.iter().zip(&o.kids) {
            a.same(b)?;
        }
        Ok(())
    }
}
fn u64at(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
}
/// Strict parse: the chunks must tile the file, children before parents, root last, trailer at the end.
pub fn parse(b: &[u8]) -> Result<Node, String> {
    if b.len() < 26 {
        return Err(format!("file of {} bytes has no trailer", b.len()));
    }
    let h = &b[b.len() - 26..];
    if &h[0..4] != b"PAR4" {
        return Err("bad magic".into());
    }
    if u16::from_le_bytes([h[4], h[5]]) != 4 {
        return Err("bad version".into());
    }
    let (ro, rl) = (u64at(h, 6), u64at(h, 14));
    let body = (b.len() - 26) as u64;
    if ro.checked_add(rl) != Some(body) {
        return Err(format!("root chunk {ro}+{rl} does not end at the trailer ({body})"));
    }
    let mut spans: Vec<(u64, u64)> = vec![];
    let root = node(b, ro, rl, body, &mut spans, 0)?;
    spans.sort();
    let mut pos = 0;
    for (o, l) in &spans {
        if *o != pos {
            return Err(format!("gap or overlap: chunk at {o}, expected {pos}"));
        }
        pos = o + l;
    }
    if pos != body {
        return Err(format!("chunks end at {pos}, trailer starts at {body}"));
    }
    Ok(root)
}
fn node(b: &[u8], off: u64, len: u64, limit: u64, spans: &mut Vec<(u64, u64)>, depth: usize) -> Result<Node, String> {
    if depth > 5000 {
        return Err("too deep".into());
    }
    let end = off.checked_add(len).ok_or("overflow")?;
    if len == 0 || end > limit {
        return Err(format!("chunk {off}+{len} does not lie before its parent/trailer at {limit}"));
    }
    spans.push((off, len));
    let c = &b[off as usize..end as usize];
    let meta = c[c.len() - 1];
    if meta & 0xF0 != 0 {
        return Err(format!("reserved meta bits set: {meta:#x}"));
    }
    let mut pend = c.len() - 1;
    let mut kids = vec![];
    if meta & 1 != 0 {
        if c.len() < 5 {
            return Err("no child count".into());
        }
        let n = u32::from_le_bytes(c[c.len() - 5..c.len() - 1].try_into().unwrap()) as usize;
        if n == 0 {
            return Err("chunkable flag without children".into());
        }
        let foot = n * 16 + 5;
        if foot > c.len() {
            return Err("footer larger than chunk".into());
        }
        pend = c.len() - foot;
        for i in 0..n {
            let p = pend + i * 16;
            kids.push(node(b, u64at(c, p), u64at(c, p + 8), off, spans, depth + 1)?);
        }
    }
    let raw = c[..pend].to_vec();
    let payload = match (meta >> 1) & 7 {
        0 => raw.clone(),
        1 => {
            if raw.len() < 4 {
                return Err("lz4 payload without size".into());
            }
            let n = u32::from_le_bytes(raw[0..4].try_into().unwrap()) as usize;
            lz4_flex::block::decompress(&raw[4..], n).map_err(|e| format!("lz4: {e}"))?
        }
        k => return Err(format!("unknown compression {k}")),
    };
    Ok(Node { off, len, meta, raw, payload, kids })
}
/// Independent writer of the format: children first, in order. Payloads are stored as `raw` says.
pub fn emit(root: &Node) -> Vec<u8> {
    fn put(n: &Node, out: &mut Vec<u8>) -> (u64, u64) {
        let refs: Vec<(u64, u64)> = n.kids.iter().map(|k| put(k, out)).collect();
        let at = out.len() as u64;
        out.extend_from_slice(&n.raw);
        for (o, l) in &refs {
            out.extend_from_slice(&o.to_le_bytes());
            out.extend_from_slice(&l.to_le_bytes());
        }
        if !refs.is_empty() {
            out.extend_from_slice(&(refs.len() as u32).to_le_bytes());
        }
        out.push(n.meta);
        (at, out.len() as u64 - at)
    }
    let mut out = vec![];
    let (o, l) = put(root, &mut out);
    out.extend_from_slice(b"PAR4");
    out.extend_from_slice(&4u16.to_le_bytes());
    out.extend_from_slice(&o.to_le_bytes());
    out.extend_from_slice(&l.to_le_bytes());
    out.extend_from_slice(&[0; 4]);
    out
}
