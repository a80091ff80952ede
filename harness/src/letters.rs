//! Letter types, tree builders and generators shared by the library properties.
use crate::dict::magic;
use crate::refimpl::*;
use huff_coding::bitvec::prelude::{BitVec, Msb0};
use huff_coding::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};

pub type Bits = BitVec<Msb0, u8>;
pub fn to_bools(b: &Bits) -> Vec<bool> { b.iter().map(|x| *x).collect() }
pub fn from_bools(b: &[bool]) -> Bits {
    let mut v = Bits::with_capacity(b.len());
    for x in b { v.push(*x) }
    v
}
/// A BitVec with the same bits whose storage starts `off` bits into its first byte.
pub fn from_bools_offset(b: &[bool], off: usize) -> Bits {
    let mut v = Bits::with_capacity(b.len() + off);
    for i in 0..off { v.push(i % 2 == 0) }
    for x in b { v.push(*x) }
    v[off..].to_bitvec()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Kind { U8, U16, U32, U64, Usize, U128, I8, I16, I32, I64, Isize, I128, Char, Str, String, Weird, B3, B5, B20 }
use Kind::*;
pub const INTS: [Kind; 12] = [U8, U16, U32, U64, Usize, U128, I8, I16, I32, I64, Isize, I128];
/// All with a byte form: the integers and user-defined letters of 3, 5 and 20 bytes.
pub const BYTED: [Kind; 15] = [U8, U16, U32, U64, Usize, U128, I8, I16, I32, I64, Isize, I128, B3, B5, B20];
pub const ALL: [Kind; 19] = [U8, U16, U32, U64, Usize, U128, I8, I16, I32, I64, Isize, I128, Char, Str, String, Weird, B3, B5, B20];

pub trait Lt: HuffLetter + Send + Sync + 'static {
    fn from_raw(r: u128) -> Self;
    fn raw(&self) -> u128;
}
pub trait LtInt: Lt + HuffLetterAsBytes {
    const W: usize;
}
macro_rules! ints { ($($t:ty => $u:ty),+) => { $(
    impl Lt for $t {
        fn from_raw(r: u128) -> Self { r as $t }
        fn raw(&self) -> u128 { *self as $u as u128 }
    }
    impl LtInt for $t { const W: usize = <$t>::BITS as usize; }
)+ } }
ints!(u8=>u8,u16=>u16,u32=>u32,u64=>u64,usize=>usize,u128=>u128,i8=>u8,i16=>u16,i32=>u32,i64=>u64,isize=>usize,i128=>u128);
/// A user-defined letter with a byte form of N bytes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fixed<const N: usize>([u8; N]);
impl<const N: usize> HuffLetter for Fixed<N> {}
impl<const N: usize> HuffLetterAsBytes for Fixed<N> {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { Ok(Fixed(b.try_into()?)) }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
impl<const N: usize> Lt for Fixed<N> {
    fn from_raw(r: u128) -> Self {
        let (b, mut v) = (r.to_be_bytes(), [0; N]);
        let n = N.min(16);
        v[N - n..].copy_from_slice(&b[16 - n..]);
        Fixed(v)
    }
    fn raw(&self) -> u128 { self.0.iter().fold(0, |a, x| (a << 8) | *x as u128) }
}
impl<const N: usize> LtInt for Fixed<N> { const W: usize = 8 * N; }
impl Lt for char {
    fn from_raw(r: u128) -> Self {
        let v = (r % (0x110000 - 0x800)) as u32;
        char::from_u32(if v >= 0xD800 { v + 0x800 } else { v }).unwrap()
    }
    fn raw(&self) -> u128 { let v = *self as u32; (if v >= 0xE000 { v - 0x800 } else { v }) as u128 }
}
fn spell(r: u128) -> std::string::String { if r == 0 { std::string::String::new() } else { format!("{}{}", r, "é".repeat((r % 3) as usize)) } }
fn unspell(s: &str) -> u128 { if s.is_empty() { 0 } else { s.trim_end_matches('é').parse().unwrap() } }
impl Lt for std::string::String {
    fn from_raw(r: u128) -> Self { spell(r) }
    fn raw(&self) -> u128 { unspell(self) }
}
impl Lt for &'static str {
    fn from_raw(r: u128) -> Self {
        static T: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        let t = T.get_or_init(|| (0..30_000u128).map(|i| &*Box::leak(spell(i).into_boxed_str())).collect());
        t[(r % 30_000) as usize]
    }
    fn raw(&self) -> u128 { unspell(self) }
}
/// A user-defined letter whose hash collides a lot.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WeirdLetter { a: Option<u16>, b: Vec<u8> }
impl Hash for WeirdLetter { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.a.map_or(9, |x| x as u8 % 16)) } }
impl HuffLetter for WeirdLetter {}
impl Lt for WeirdLetter {
    fn from_raw(r: u128) -> Self {
        let r = (r % 600) as u16;
        WeirdLetter { a: if r % 5 == 0 { None } else { Some(r % 7) }, b: r.to_le_bytes().to_vec() }
    }
    fn raw(&self) -> u128 { u16::from_le_bytes([self.b[0], self.b[1]]) as u128 }
}
#[macro_export]
macro_rules! with_int { ($k:expr, $L:ident => $e:expr) => { match $k {
    Kind::U8=>{type $L=u8;$e} Kind::U16=>{type $L=u16;$e} Kind::U32=>{type $L=u32;$e} Kind::U64=>{type $L=u64;$e}
    Kind::Usize=>{type $L=usize;$e} Kind::U128=>{type $L=u128;$e} Kind::I8=>{type $L=i8;$e} Kind::I16=>{type $L=i16;$e}
    Kind::I32=>{type $L=i32;$e} Kind::I64=>{type $L=i64;$e} Kind::Isize=>{type $L=isize;$e} Kind::I128=>{type $L=i128;$e}
    Kind::B3=>{type $L=$crate::letters::Fixed<3>;$e} Kind::B5=>{type $L=$crate::letters::Fixed<5>;$e} Kind::B20=>{type $L=$crate::letters::Fixed<20>;$e}
    _ => unreachable!("a kind without a byte form"),
} } }
#[macro_export]
macro_rules! with_kind { ($k:expr, $L:ident => $e:expr) => { match $k {
    Kind::Char=>{type $L=char;$e} Kind::Str=>{type $L=&'static str;$e} Kind::String=>{type $L=std::string::String;$e}
    Kind::Weird=>{type $L=$crate::letters::WeirdLetter;$e}
    k => $crate::with_int!(k, $L => $e),
} } }

/// A user-defined `Weights` implementation: an association list in insertion order.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VecWeights<L: Clone + Eq>(pub Vec<(L, usize)>);
impl<L: Clone + Eq> IntoIterator for VecWeights<L> {
    type Item = (L, usize);
    type IntoIter = std::vec::IntoIter<(L, usize)>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl<L: Clone + Eq> Weights<L> for VecWeights<L> {
    fn get(&self, l: &L) -> Option<&usize> { self.0.iter().find(|e| e.0 == *l).map(|e| &e.1) }
    fn get_mut(&mut self, l: &L) -> Option<&mut usize> { self.0.iter_mut().find(|e| e.0 == *l).map(|e| &mut e.1) }
    fn len(&self) -> usize { self.0.len() }
    fn is_empty(&self) -> bool { self.0.is_empty() }
}

#[derive(Clone, Default)]
pub struct Collide(pub bool);
pub struct CollideH(u64, bool);
impl BuildHasher for Collide { type Hasher = CollideH; fn build_hasher(&self) -> CollideH { CollideH(0xcbf29ce484222325, self.0) } }
impl Hasher for CollideH {
    fn finish(&self) -> u64 { if self.1 { 42 } else { self.0 } }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 ^= *x as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } }
}

/// Tree shapes over n leaves.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape { Left, Right, Zig, Balanced, Split(Vec<u16>) }
pub fn shape_strategy() -> impl Strategy<Value = Shape> {
    prop_oneof![
        1 => Just(Shape::Left), 1 => Just(Shape::Right), 1 => Just(Shape::Zig), 1 => Just(Shape::Balanced),
        4 => prop::collection::vec(any::<u16>(), 1..12).prop_map(Shape::Split),
    ]
}
pub fn build_shape(leaves: &[u128], shape: &Shape) -> RTree {
    let mut nodes = vec![];
    // iterative: ranges to split, post-order assembly
    enum T { Do(usize, usize, usize), Join }
    let mut todo = vec![T::Do(0, leaves.len(), 0)];
    let mut done: Vec<usize> = vec![];
    let mut k = 0usize;
    while let Some(t) = todo.pop() {
        match t {
            T::Do(a, b, d) => {
                if b - a == 1 { nodes.push(RNode::Leaf(leaves[a])); done.push(nodes.len() - 1); continue; }
                let n = b - a;
                let l = match shape {
                    Shape::Left => n - 1,
                    Shape::Right => 1,
                    Shape::Zig => if d % 2 == 0 { 1 } else { n - 1 },
                    Shape::Balanced => n / 2,
                    Shape::Split(v) => { k += 1; 1 + v[k % v.len()] as usize % (n - 1) }
                };
                todo.push(T::Join);
                todo.push(T::Do(a + l, b, d + 1));
                todo.push(T::Do(a, a + l, d + 1));
            }
            T::Join => {
                let r = done.pop().unwrap();
                let l = done.pop().unwrap();
                nodes.push(RNode::Joint(l, r));
                done.push(nodes.len() - 1);
            }
        }
    }
    let root = done.pop().unwrap();
    RTree { nodes, root }
}

/// Reads the shape of a library tree through its public navigation.
pub struct LibNode<L> { pub letter: Option<L>, pub weight: usize, pub code: Option<Vec<bool>>, pub kids: Option<(usize, usize)>, pub path: Vec<bool> }
pub fn walk<L: HuffLetter>(t: &HuffTree<L>) -> Vec<LibNode<L>> {
    let mut out: Vec<LibNode<L>> = vec![];
    let mut stack: Vec<(&HuffBranch<L>, Vec<bool>, Option<(usize, bool)>)> = vec![(t.root(), vec![], None)];
    while let Some((b, path, parent)) = stack.pop() {
        let me = out.len();
        out.push(LibNode { letter: b.leaf().letter().cloned(), weight: b.leaf().weight(), code: b.leaf().code().map(to_bools), kids: None, path: path.clone() });
        if let Some((p, right)) = parent {
            let (mut l, mut r) = out[p].kids.unwrap_or((usize::MAX, usize::MAX));
            if right { r = me } else { l = me }
            out[p].kids = Some((l, r));
        }
        if b.has_children() {
            let mut q = path.clone(); q.push(true);
            stack.push((b.right_child().expect("right child"), q, Some((me, true))));
            let mut q = path; q.push(false);
            stack.push((b.left_child().expect("left child"), q, Some((me, false))));
        }
    }
    out
}
/// Same shape and letters?
pub fn same_structure<L: Lt>(t: &HuffTree<L>, r: &RTree) -> Result<(), std::string::String> {
    let lib = walk(t);
    let mut stack = vec![(0usize, r.root)];
    while let Some((a, b)) = stack.pop() {
        match (lib[a].kids, r.nodes[b]) {
            (Some((l, rr)), RNode::Joint(x, y)) => {
                if lib[a].letter.is_some() { return Err(format!("joint branch at {} carries a letter", show(&lib[a].path))); }
                stack.push((l, x)); stack.push((rr, y));
            }
            (None, RNode::Leaf(v)) => {
                let got = lib[a].letter.as_ref().map(|l| l.raw());
                if got != Some(v) { return Err(format!("leaf at {:?} holds {:?}, expected {}", show(&lib[a].path), got, v)); }
            }
            _ => return Err(format!("shape differs at {:?}", show(&lib[a].path))),
        }
    }
    Ok(())
}
/// Codes by letter, as the tree reports them.
pub fn codes_of<L: Lt>(t: &HuffTree<L>) -> HashMap<u128, Vec<bool>> {
    t.read_codes().iter().map(|(l, c)| (l.raw(), to_bools(c))).collect()
}

// ---------------------------------------------------------------- generators
pub fn raw_letter() -> impl Strategy<Value = u128> + Clone {
    prop_oneof![
        4 => 0u128..8,
        2 => 0u128..256,
        1 => Just(0u128), 1 => Just(u128::MAX), 1 => Just(0x80u128), 1 => Just(0x7fu128), 1 => Just(0xffu128),
        1 => (0u32..128).prop_map(|b| 1u128 << b),
        1 => (0u32..128).prop_map(|b| u128::MAX << b),
        1 => (0u32..128).prop_map(|b| u128::MAX >> b),
        3 => any::<u128>(),
        1 => any::<u8>().prop_map(|b| u128::from_be_bytes([b; 16])),
        1 => magic(u64::MAX).prop_map(|n| n as u128),
    ]
}
pub fn kind_of(ks: &'static [Kind]) -> impl Strategy<Value = Kind> {
    // u8 is the command-line tool's letter type: give it extra weight
    prop_oneof![1 => Just(ks[0]), 4 => prop::sample::select(ks)]
}
pub fn canon<L: Lt>(raws: &[u128]) -> Vec<u128> {
    // distinct raw values, in order of first appearance, after squeezing into the type
    let mut seen = std::collections::HashSet::new();
    raws.iter().map(|r| L::from_raw(*r).raw()).filter(|r| seen.insert(*r)).collect()
}

/// Weight schemes: how the i-th of n letters is weighted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scheme { Given(Vec<u64>), Equal(u64), Fib, FibRev, Pow2, Zeros(u64), NearMax(Vec<u64>) }
pub fn scheme() -> impl Strategy<Value = Scheme> {
    prop_oneof![
        4 => prop::collection::vec(1u64..6, 1..12).prop_map(Scheme::Given),
        3 => prop::collection::vec((any::<u64>(), 0u32..64).prop_map(|(v, s)| (v >> s).max(1)), 1..24).prop_map(Scheme::Given),
        2 => (1u64..1000).prop_map(Scheme::Equal),
        1 => prop::collection::vec(prop_oneof![2 => magic(u64::MAX >> 2), 1 => magic(1 << 20), 1 => 1u64..4], 1..10).prop_map(Scheme::Given),
        1 => magic(u64::MAX >> 10).prop_map(Scheme::Equal),
        2 => Just(Scheme::Fib), 1 => Just(Scheme::FibRev), 2 => Just(Scheme::Pow2),
        1 => any::<u64>().prop_map(Scheme::Zeros),
        1 => prop::collection::vec((0u64..u64::MAX, 0u32..6).prop_map(|(v, s)| v >> s), 1..6).prop_map(Scheme::NearMax),
    ]
}
/// Weights for n letters whose sum never exceeds usize::MAX.
pub fn expand_weights(s: &Scheme, n: usize, allow_zero: bool) -> Vec<usize> {
    let mut v: Vec<u128> = Vec::with_capacity(n);
    let fib = |i: usize| { let (mut a, mut b) = (1u128, 1u128); for _ in 0..i.min(88) { let c = a + b; a = b; b = c; } a };
    for i in 0..n {
        v.push(match s {
            Scheme::Given(w) => w[i % w.len()] as u128,
            Scheme::Equal(w) => *w as u128,
            Scheme::Fib => fib(i),
            Scheme::FibRev => fib(n - 1 - i),
            Scheme::Pow2 => 1u128 << i.min(60),
            Scheme::Zeros(m) => if (m >> (i % 64)) & 1 == 1 { 0 } else { 1 + (i % 3) as u128 },
            Scheme::NearMax(w) => w[i % w.len()] as u128,
        });
    }
    let reserve = n as u128;
    let mut left = usize::MAX as u128 - reserve;
    for w in v.iter_mut() {
        *w = (*w).min(left);
        left -= *w;
        if *w == 0 && !allow_zero { *w = 1; }
    }
    v.into_iter().map(|w| w as usize).collect()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Via { Map, Vec, Bytes }
/// Builds a tree from (letter, weight) pairs through one of the Weights implementations.
/// `Bytes` applies to u8 only and drops zero weights (absent by definition).
pub fn tree_from<L: Lt>(entries: &[(u128, usize)], via: Via) -> HuffTree<L> {
    use std::any::Any;
    if via == Via::Bytes && std::any::TypeId::of::<L>() == std::any::TypeId::of::<u8>() {
        let keep: Vec<u8> = entries.iter().filter(|e| e.1 > 0).map(|e| e.0 as u8).collect();
        let mut bw = ByteWeights::from_bytes(&keep);
        for (l, w) in entries { if *w > 0 { *bw.get_mut(&(*l as u8)).unwrap() = *w; } }
        let t: HuffTree<u8> = HuffTree::from_weights(bw);
        let b: Box<dyn Any> = Box::new(t);
        return *b.downcast::<HuffTree<L>>().unwrap();
    }
    if via == Via::Vec {
        return HuffTree::from_weights(VecWeights(entries.iter().map(|(l, w)| (L::from_raw(*l), *w)).collect()));
    }
    HuffTree::from_weights(entries.iter().map(|(l, w)| (L::from_raw(*l), *w)).collect::<HashMap<L, usize>>())
}
pub fn via() -> impl Strategy<Value = Via> { prop_oneof![Just(Via::Map), Just(Via::Vec), Just(Via::Bytes)] }

/// A sequence of letters: either spelled out over a generated alphabet, or expanded from a
/// generated seed (for sizes that could not be generated element by element).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seq {
    Explicit { alphabet: Vec<u128>, idx: Vec<u16> },
    Expanded { alphabet: u32, len: u32, skew: u8, seed: u64 },
    /// runs of the same letter
    Runs { alphabet: Vec<u128>, runs: Vec<(u16, u32)> },
}
/// Long runs of few letters, the lengths around the limits of counters as well.
pub fn seq_runs(max: u32) -> impl Strategy<Value = Seq> {
    let len = prop_oneof![3 => 1u32..20, 2 => 1u32..600, 1 => 250u32..260, 1 => 511u32..514, 1 => 4094u32..4100, 2 => 8190u32..8195, 3 => 65_530u32..65_545, 2 => 1..max, 2 => magic(max as u64).prop_map(|n| n as u32)];
    (prop::collection::vec(raw_letter(), 1..6), prop::collection::vec((0u16..6, len), 1..6)).prop_map(|(alphabet, runs)| Seq::Runs { alphabet, runs })
}
pub fn seq_small(max_alpha: usize, max_len: usize) -> impl Strategy<Value = Seq> {
    let geo = (any::<u16>()).prop_map(|x| x.trailing_zeros() as u16);
    let idx = prop_oneof![any::<u16>().boxed(), geo.boxed(), (0u16..3).boxed()];
    (
        prop_oneof![3 => prop::collection::vec(raw_letter(), 1..=max_alpha.min(6)).boxed(), 3 => prop::collection::vec(raw_letter(), 1..=max_alpha).boxed()],
        prop_oneof![2 => prop::collection::vec(idx.clone(), 1..=max_len.min(12)).boxed(), 5 => prop::collection::vec(idx, 1..=max_len).boxed()],
    ).prop_map(|(alphabet, idx)| Seq::Explicit { alphabet, idx })
}
pub fn seq_large(alpha: std::ops::Range<u32>, len: std::ops::Range<u32>) -> impl Strategy<Value = Seq> {
    (alpha, len, 0u8..4, any::<u64>()).prop_map(|(alphabet, len, skew, seed)| Seq::Expanded { alphabet, len, skew, seed })
}
/// Sizes of note: alphabets and lengths from the dictionary.
pub fn seq_magic(max_alpha: u32, max_len: u32) -> impl Strategy<Value = Seq> {
    let alpha = prop_oneof![2 => magic(max_alpha as u64).prop_map(|n| n as u32), 1 => 1u32..6, 1 => Just(256u32.min(max_alpha))];
    let len = magic(max_len as u64).prop_map(|n| n as u32);
    prop_oneof![
        3 => (alpha.clone(), len.clone(), 0u8..4, any::<u64>()).prop_map(|(alphabet, len, skew, seed)| Seq::Expanded { alphabet, len, skew, seed }),
        // as many letters as there are distinct ones, or hardly more
        1 => (alpha, 0u32..3, any::<u64>()).prop_map(|(alphabet, more, seed)| Seq::Expanded { alphabet, len: alphabet + more, skew: 3, seed }),
        1 => (prop::collection::vec(raw_letter(), 1..6), prop::collection::vec((0u16..6, len), 1..4)).prop_map(|(alphabet, runs)| Seq::Runs { alphabet, runs }),
    ]
}
pub fn expand_seq<L: Lt>(s: &Seq) -> Vec<L> {
    match s {
        Seq::Explicit { alphabet, idx } => idx.iter().map(|i| L::from_raw(alphabet[*i as usize % alphabet.len()])).collect(),
        Seq::Expanded { alphabet, len, skew, seed } => {
            let mut st = *seed;
            let n = *alphabet as u64;
            let spread = if seed % 2 == 0 { 1u128 } else { 0x9E3779B97F4A7C15_F39CC0605CEDC835u128 };
            (0..*len as u64).map(|k| {
                let r = splitmix(&mut st);
                let i = match skew {
                    0 => r % n,
                    1 => { let a = (r & 0xffff_ffff) % n; let b = (r >> 32) % n; a.min(b) }
                    2 => (r.trailing_zeros() as u64).min(n - 1),
                    _ => if k < n { k } else { (r % n) * (r >> 40) / (1 << 24) },
                };
                L::from_raw((i as u128).wrapping_mul(spread))
            }).collect()
        }
        Seq::Runs { alphabet, runs } => runs.iter().flat_map(|(i, n)| std::iter::repeat_n(L::from_raw(alphabet[*i as usize % alphabet.len()]), *n as usize)).collect(),
    }
}
pub fn distinct_raw<L: Lt>(v: &[L]) -> Vec<u128> {
    let mut seen = std::collections::HashSet::new();
    v.iter().map(|l| l.raw()).filter(|r| seen.insert(*r)).collect()
}
pub fn counts<L: Lt>(v: &[L]) -> HashMap<u128, u128> {
    let mut m = HashMap::new();
    for l in v { *m.entry(l.raw()).or_insert(0u128) += 1; }
    m
}
