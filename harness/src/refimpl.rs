//! Independent reference model: written from the documented formats only, shares no code
//! with the crate under test.
use std::cmp::Reverse;
use std::collections::BinaryHeap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RNode { Leaf(u128), Joint(usize, usize) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RTree { pub nodes: Vec<RNode>, pub root: usize }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PErr { TooShort, Leftover }

impl RTree {
    /// Reads exactly one preorder encoding; iterative.
    pub fn parse(bits: &[bool], width: usize) -> Result<RTree, PErr> {
        let mut nodes: Vec<RNode> = vec![];
        // stack of joint nodes still missing children: (index, left child if already read)
        let mut stack: Vec<(usize, Option<usize>)> = vec![];
        let mut pos = 0;
        loop {
            let b = *bits.get(pos).ok_or(PErr::TooShort)?;
            pos += 1;
            if b {
                nodes.push(RNode::Joint(usize::MAX, usize::MAX));
                stack.push((nodes.len() - 1, None));
                continue;
            }
            if bits.len() - pos < width { return Err(PErr::TooShort); }
            let mut v = 0u128;
            for k in 0..width { v = (v << 1) | bits[pos + k] as u128; }
            pos += width;
            nodes.push(RNode::Leaf(v));
            let mut done = nodes.len() - 1;
            loop {
                match stack.pop() {
                    None => {
                        return if pos == bits.len() { Ok(RTree { nodes, root: done }) } else { Err(PErr::Leftover) };
                    }
                    Some((j, None)) => { stack.push((j, Some(done))); break; }
                    Some((j, Some(l))) => { nodes[j] = RNode::Joint(l, done); done = j; }
                }
            }
        }
    }
    pub fn encode(&self, width: usize) -> Vec<bool> {
        let mut out = vec![];
        let mut stack = vec![self.root];
        while let Some(i) = stack.pop() {
            match self.nodes[i] {
                RNode::Joint(l, r) => { out.push(true); stack.push(r); stack.push(l); }
                RNode::Leaf(v) => {
                    out.push(false);
                    for k in (0..width).rev() { out.push(k < 128 && (v >> k) & 1 == 1); }
                }
            }
        }
        out
    }
    /// (letter, path) of every leaf in preorder; a lone leaf has code 0.
    pub fn codes(&self) -> Vec<(u128, Vec<bool>)> {
        if let RNode::Leaf(v) = self.nodes[self.root] { return vec![(v, vec![false])]; }
        let mut out = vec![];
        let mut stack = vec![(self.root, Vec::<bool>::new())];
        while let Some((i, p)) = stack.pop() {
            match self.nodes[i] {
                RNode::Leaf(v) => out.push((v, p)),
                RNode::Joint(l, r) => {
                    let mut q = p.clone();
                    q.push(true);
                    stack.push((r, q));
                    let mut q = p;
                    q.push(false);
                    stack.push((l, q));
                }
            }
        }
        out
    }
    pub fn depth(&self) -> usize {
        let mut m = 0;
        let mut stack = vec![(self.root, 0)];
        while let Some((i, d)) = stack.pop() {
            m = m.max(d);
            if let RNode::Joint(l, r) = self.nodes[i] { stack.push((l, d + 1)); stack.push((r, d + 1)); }
        }
        m
    }
    /// Letters spelled by the bits, and whether the last code was complete.
    pub fn decode(&self, bits: &[bool]) -> (Vec<u128>, bool) {
        let mut out = vec![];
        let mut cur = self.root;
        for &b in bits {
            if let RNode::Joint(l, r) = self.nodes[cur] { cur = if b { r } else { l }; }
            if let RNode::Leaf(v) = self.nodes[cur] { out.push(v); cur = self.root; }
        }
        (out, cur == self.root)
    }
}

pub fn bytes_to_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> (7 - i)) & 1 == 1)).collect()
}
pub fn bits_to_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | ((*x as u8) << (7 - i)))).collect()
}

/// Minimum total weighted code length over all prefix codes (a lone letter costs one bit).
pub fn optimal_cost(weights: &[u128]) -> u128 {
    if weights.len() == 1 { return weights[0]; }
    let mut h: BinaryHeap<Reverse<u128>> = weights.iter().map(|w| Reverse(*w)).collect();
    let mut total = 0;
    while h.len() > 1 {
        let a = h.pop().unwrap().0;
        let b = h.pop().unwrap().0;
        total += a + b;
        h.push(Reverse(a + b));
    }
    total
}

#[derive(Debug)]
pub struct Container<'a> {
    pub tree_pad: u8,
    pub data_pad: u8,
    pub tree_len: usize,
    pub tree_bytes: &'a [u8],
    pub data: &'a [u8],
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CErr { ShortHeader, ShortTree }
/// Splits the documented container (shared by `to_bytes` and hff files).
pub fn split_container(b: &[u8]) -> Result<Container<'_>, CErr> {
    if b.len() < 5 { return Err(CErr::ShortHeader); }
    let tree_len = ((b[1] as usize) << 24) | ((b[2] as usize) << 16) | ((b[3] as usize) << 8) | b[4] as usize;
    if b.len() - 5 < tree_len { return Err(CErr::ShortTree); }
    Ok(Container { tree_pad: b[0] >> 4, data_pad: b[0] & 15, tree_len, tree_bytes: &b[5..5 + tree_len], data: &b[5 + tree_len..] })
}
impl Container<'_> {
    /// The tree encoding's bits, padding removed (tolerates paddings above 7).
    pub fn tree_bits(&self) -> Vec<bool> {
        let mut t = bytes_to_bits(self.tree_bytes);
        let n = t.len().saturating_sub(self.tree_pad as usize);
        t.truncate(n);
        t
    }
    pub fn data_bits(&self) -> Vec<bool> {
        let mut t = bytes_to_bits(self.data);
        let n = t.len().saturating_sub(self.data_pad as usize);
        t.truncate(n);
        t
    }
}
pub fn write_container(tree: &RTree, width: usize, data_bits: &[bool]) -> Vec<u8> {
    let tb = tree.encode(width);
    let pad = |n: usize| (8 - n % 8) % 8;
    let tbytes = bits_to_bytes(&tb);
    let mut out = vec![((pad(tb.len()) as u8) << 4) | pad(data_bits.len()) as u8];
    out.extend((tbytes.len() as u32).to_be_bytes());
    out.extend(tbytes);
    out.extend(bits_to_bytes(data_bits));
    out
}

/// Binary trie test: every code non-empty, none a prefix of another; complete if >= 2 codes.
pub fn prefix_code_problem(codes: &[Vec<bool>]) -> Option<String> {
    let mut next: Vec<[usize; 2]> = vec![[0, 0]];
    let mut end: Vec<bool> = vec![false];
    for c in codes {
        if c.is_empty() { return Some("empty code".into()); }
        let mut n = 0;
        for &b in c {
            if end[n] { return Some(format!("a code is a prefix of {}", show(c))); }
            let k = b as usize;
            if next[n][k] == 0 { next.push([0, 0]); end.push(false); let m = next.len() - 1; next[n][k] = m; }
            n = next[n][k];
        }
        if end[n] { return Some(format!("code {} given twice", show(c))); }
        if next[n] != [0, 0] { return Some(format!("code {} is a prefix of another", show(c))); }
        end[n] = true;
    }
    if codes.len() >= 2 {
        for (n, e) in next.iter().zip(&end) {
            if !e && (n[0] == 0 || n[1] == 0) { return Some("code is not complete: some bit strings decode to nothing".into()); }
        }
    }
    None
}
pub fn show(c: &[bool]) -> String { c.iter().map(|b| if *b { '1' } else { '0' }).collect() }

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
