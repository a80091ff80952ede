//! Library properties C01..C12 and C21.
use crate::dict::magic;
use crate::engine::*;
use crate::ensure;
use crate::letters::*;
use crate::refimpl::*;
use crate::{with_int, with_kind};
use huff_coding::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ shared case: a sequence and a tree
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TreeSrc {
    /// let `compress` build it
    Own,
    /// built from weights over the letters used plus `extra` letters
    Weights { extra: Vec<u128>, scheme: Scheme, via: Via },
    /// read from a binary encoding of the given shape over the letters used plus `extra`
    Bin { extra: Vec<u128>, rot: u16, shape: Shape },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase { kind: Kind, seq: Seq, tree: TreeSrc }

fn tree_src() -> impl Strategy<Value = TreeSrc> {
    let extra = prop::collection::vec(raw_letter(), 0..40);
    prop_oneof![
        3 => Just(TreeSrc::Own),
        4 => (extra.clone(), scheme(), via()).prop_map(|(extra, scheme, via)| TreeSrc::Weights { extra, scheme, via }),
        4 => (extra, any::<u16>(), shape_strategy()).prop_map(|(extra, rot, shape)| TreeSrc::Bin { extra, rot, shape }),
    ]
}
/// Extra letters by number, for wide or deep trees.
fn tree_src_big(max: u32) -> impl Strategy<Value = TreeSrc> {
    let extra = (1u32..max, any::<u64>()).prop_map(|(n, s)| {
        let mut st = s;
        (0..n).map(|_| ((splitmix(&mut st) as u128) << 64) | splitmix(&mut st) as u128).collect::<Vec<_>>()
    });
    prop_oneof![
        2 => (extra.clone(), scheme(), via()).prop_map(|(extra, scheme, via)| TreeSrc::Weights { extra, scheme, via }),
        3 => (extra, any::<u16>(), shape_strategy()).prop_map(|(extra, rot, shape)| TreeSrc::Bin { extra, rot, shape }),
    ]
}
fn seq_case(kinds: &'static [Kind], alpha: usize, len: usize) -> impl Strategy<Value = SeqCase> {
    (kind_of(kinds), seq_small(alpha, len), tree_src()).prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
}
/// The letters a supplied tree holds: those used, then the extra ones.
fn tree_letters<L: Lt>(letters: &[L], extra: &[u128]) -> Vec<u128> {
    let mut v = distinct_raw(letters);
    v.extend(extra.iter().copied());
    canon::<L>(&v)
}
fn width_of(k: Kind) -> usize { with_int!(k, L => <L as LtInt>::W) }

/// Builds the supplied tree for a case; `None` for `Own`. Shapes need a byte form, so
/// non-integer letters fall back to weights.
fn supplied<L: Lt>(case: &SeqCase, letters: &[L], read_bin: Option<fn(&[bool]) -> Result<HuffTree<L>, Fail>>) -> Result<Option<HuffTree<L>>, Fail> {
    match &case.tree {
        TreeSrc::Own => Ok(None),
        TreeSrc::Weights { extra, scheme, via } => {
            let ls = tree_letters(letters, extra);
            let ws = expand_weights(scheme, ls.len(), *via != Via::Bytes);
            let entries: Vec<_> = ls.into_iter().zip(ws).collect();
            Ok(Some(no_panic("from_weights", || tree_from::<L>(&entries, *via))?))
        }
        TreeSrc::Bin { extra, rot, shape } => {
            let mut ls = tree_letters(letters, extra);
            ls.truncate(900.max(distinct_raw(letters).len()));
            let n = ls.len();
            ls.rotate_left(*rot as usize % n);
            match read_bin {
                Some(f) => {
                    // chains deeper than a thousand levels may be refused: keep below
                    let shape = if n > 900 { &Shape::Balanced } else { shape };
                    Ok(Some(f(&build_shape(&ls, shape).encode(width_of(case.kind)))?))
                }
                None => {
                    let ws = expand_weights(&Scheme::Equal(1), n, false);
                    let entries: Vec<_> = ls.into_iter().zip(ws).collect();
                    Ok(Some(tree_from::<L>(&entries, Via::Vec)))
                }
            }
        }
    }
}
fn reader<L: LtInt>(bits: &[bool]) -> Result<HuffTree<L>, Fail> {
    match no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(from_bools(bits)))? {
        Ok(t) => Ok(t),
        Err(e) => bad(format!("well-formed tree encoding refused: {e}")),
    }
}
fn compressed<L: Lt>(letters: &[L], tree: Option<HuffTree<L>>) -> Result<CompressData<L>, Fail> {
    match tree {
        None => no_panic("compress", || compress(letters)),
        Some(t) => match no_panic("compress_with_tree", || compress_with_tree(letters, t))? {
            Ok(c) => Ok(c),
            Err(e) => bad(format!("compress_with_tree refused a covered sequence: {e}")),
        },
    }
}
fn first_diff<L: PartialEq + std::fmt::Debug>(want: &[L], got: &[L]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    format!("expected {} letters, got {}; first difference at {}: {:?} vs {:?}", want.len(), got.len(), i, want.get(i), got.get(i))
}
fn seq_info<L: Lt>(case: &SeqCase, letters: &[L], cd: &CompressData<L>) -> Info {
    let n = distinct_raw(letters).len();
    let codes = codes_of(cd.huff_tree());
    let deep = codes.values().map(|c| c.len()).max().unwrap_or(0);
    Info::new(n >= 2 && letters.len() >= 2)
        .label(format!("kind:{:?}", case.kind))
        .label(match case.tree { TreeSrc::Own => "tree:own", TreeSrc::Weights { .. } => "tree:weights", TreeSrc::Bin { .. } => "tree:bin" })
        .label(format!("pad:{}", cd.padding_bits()))
        .label(match n { 1 => "alphabet:1", 2..=16 => "alphabet:2-16", 17..=256 => "alphabet:17-256", _ => "alphabet:>256" })
        .label(match deep { 0..=8 => "longest code:<=8", 9..=16 => "longest code:9-16", 17..=64 => "longest code:17-64", _ => "longest code:>64" })
        .label_if(letters.len() > 65536, "letters:>65536")
}

// ------------------------------------------------------------------ C01
fn c01_generic<L: Lt>(case: &SeqCase, rb: Option<fn(&[bool]) -> Result<HuffTree<L>, Fail>>) -> Check {
    let letters: Vec<L> = expand_seq(&case.seq);
    let tree = supplied(case, &letters, rb)?;
    let cd = compressed(&letters, tree)?;
    let back = no_panic("decompress", || decompress(&cd))?;
    ensure!(back == letters, "round trip: {}", first_diff(&letters, &back));
    // the parts handed out and put back together are the same data
    let (b, p, t) = cd.clone().into_inner();
    let again = no_panic("CompressData::new", || CompressData::new(b, p, t))?;
    let back = no_panic("decompress", || decompress(&again))?;
    ensure!(back == letters, "round trip through into_inner/new: {}", first_diff(&letters, &back));
    Ok(seq_info(case, &letters, &cd))
}
fn c01(_: &Ctx, case: &SeqCase) -> Check {
    match case.kind {
        Kind::Char | Kind::Str | Kind::String | Kind::Weird => with_kind!(case.kind, L => c01_generic::<L>(case, None)),
        k => with_int!(k, L => c01_generic::<L>(case, Some(reader::<L>))),
    }
}
const WIDE: [Kind; 8] = [Kind::U16, Kind::I32, Kind::U64, Kind::I128, Kind::Char, Kind::Str, Kind::String, Kind::Usize];
const WIDE_INT: [Kind; 8] = [Kind::U16, Kind::I16, Kind::U32, Kind::I32, Kind::U64, Kind::I128, Kind::U128, Kind::Usize];

fn seq_families(id: &'static str, byted: bool, check: fn(&Ctx, &SeqCase) -> Check) -> Vec<Family> {
    let ks: &'static [Kind] = if byted { &BYTED } else { &ALL };
    let wide: &'static [Kind] = if byted { &WIDE_INT } else { &WIDE };
    let ex = |kind, seq, tree| SeqCase { kind, seq, tree };
    let fib_letters = |n: u32| -> Vec<u128> { (0..n as u128).collect() };
    let mut examples = vec![];
    // code lengths up to 88 bits (weights) and 255 bits (a chain over all bytes)
    for (k, n) in [(Kind::U8, 88u32), (Kind::U16, 90), (Kind::I64, 33), (Kind::U32, 17), (Kind::U8, 9)] {
        for sch in [Scheme::Fib, Scheme::FibRev, Scheme::Pow2] {
            examples.push(ex(k, Seq::Explicit { alphabet: fib_letters(n), idx: (0..n as u16).chain((0..n as u16).rev()).collect() },
                TreeSrc::Weights { extra: vec![], scheme: sch, via: Via::Vec }));
        }
    }
    for sh in [Shape::Left, Shape::Right, Shape::Zig, Shape::Balanced] {
        examples.push(ex(Kind::U8, Seq::Explicit { alphabet: fib_letters(256), idx: (0..256).collect() }, TreeSrc::Bin { extra: vec![], rot: 7, shape: sh.clone() }));
        examples.push(ex(Kind::I16, Seq::Explicit { alphabet: fib_letters(700), idx: (0..700).rev().collect() }, TreeSrc::Bin { extra: vec![], rot: 0, shape: sh }));
    }
    // a lone letter repeated 1..=17 times, every letter 0, 255, min
    for len in 1..=17usize {
        examples.push(ex(BYTED[len % 15], Seq::Explicit { alphabet: vec![if len % 2 == 0 { 0 } else { u128::MAX }], idx: vec![0; len] }, TreeSrc::Own));
    }
    // more than 65535 bytes of tree, and more than 65536 distinct letters
    examples.push(ex(Kind::U64, Seq::Expanded { alphabet: 9000, len: 9100, skew: 3, seed: 11 }, TreeSrc::Own));
    examples.push(ex(Kind::U32, Seq::Expanded { alphabet: 70_000, len: 70_500, skew: 3, seed: 12 }, TreeSrc::Own));
    // past 2^20 letters and 2^24 bits
    let huge = vec![
        ex(Kind::U8, Seq::Expanded { alphabet: 250, len: 2_500_000, skew: 0, seed: 21 }, TreeSrc::Own),
        ex(Kind::I8, Seq::Runs { alphabet: vec![1, 2, 3], runs: vec![(0, 1_100_000), (1, 70_000), (2, 300), (0, 1)] }, TreeSrc::Own),
        ex(Kind::U16, Seq::Expanded { alphabet: 60_000, len: 1_200_000, skew: 1, seed: 22 }, TreeSrc::Own),
        ex(Kind::I32, Seq::Expanded { alphabet: 40, len: 1_500_000, skew: 2, seed: 23 }, TreeSrc::Weights { extra: (50..90).collect(), scheme: Scheme::Fib, via: Via::Map }),
        ex(Kind::U8, Seq::Expanded { alphabet: 256, len: 300_000, skew: 0, seed: 24 }, TreeSrc::Bin { extra: vec![], rot: 3, shape: Shape::Right }),
    ];
    vec![
        family(id, "small", 12_000, 400_000, examples, move || seq_case(ks, 40, 120), check),
        family(id, "huge", 0, 40, huge, move || {
            (kind_of(wide), prop_oneof![seq_large(1..300, 1_000_000..4_000_000), seq_large(257..65_000, 500_000..2_000_000)], Just(TreeSrc::Own)).prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
        }, check),
        family(id, "medium", 1_200, 40_000, vec![], move || {
            (kind_of(ks), seq_large(1..400, 1..4000), prop_oneof![tree_src().boxed(), tree_src_big(300).boxed()])
                .prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
        }, check),
        family(id, "deep", 600, 15_000, vec![], move || {
            (kind_of(ks), seq_small(40, 60), tree_src_big(850)).prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
        }, check),
        family(id, "sizes", 100, 3_000, vec![], move || {
            (kind_of(ks), seq_magic(5_000, 70_000), prop_oneof![2 => Just(TreeSrc::Own).boxed(), 1 => tree_src().boxed()]).prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
        }, check),
        family(id, "large", 64, 1_600, vec![], move || {
            (kind_of(wide), prop_oneof![1 => seq_runs(150_000).boxed(), 3 => seq_large(257..12_000, 5_000..40_000).boxed(), 1 => seq_large(1..300, 65_000..200_000).boxed()], Just(TreeSrc::Own))
                .prop_map(|(kind, seq, tree)| SeqCase { kind, seq, tree })
        }, check),
    ]
}

/// A tree, read from bits, that lists letters several times: any of a letter's codes will do.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwiceCase { kind: Kind, leaves: Vec<u128>, shape: Shape, msg: Vec<u16> }
fn twice_case() -> impl Strategy<Value = TwiceCase> {
    let l = prop_oneof![3 => (0u128..4), 1 => raw_letter()];
    (kind_of(&BYTED), prop_oneof![3 => prop::collection::vec(l.clone(), 2..12).boxed(), 1 => prop::collection::vec(l, 2..400).boxed()], shape_strategy(), prop::collection::vec(any::<u16>(), 1..80))
        .prop_map(|(kind, leaves, shape, msg)| TwiceCase { kind, leaves, shape, msg })
}
fn c01_twice(_: &Ctx, case: &TwiceCase) -> Check {
    fn go<L: LtInt>(case: &TwiceCase) -> Check {
        let ls: Vec<u128> = case.leaves.iter().map(|l| L::from_raw(*l).raw()).collect();
        let t = reader::<L>(&build_shape(&ls, &case.shape).encode(L::W))?;
        let seq: Vec<L> = case.msg.iter().map(|i| L::from_raw(ls[*i as usize % ls.len()])).collect();
        let c = compressed(&seq, Some(t))?;
        let d = no_panic("decompress", || decompress(&c))?;
        ensure!(d == seq, "round trip with a tree listing letters twice: {}", first_diff(&seq, &d));
        let n = canon::<L>(&ls).len();
        Ok(Info::new(n < ls.len()).label(format!("kind:{:?}", case.kind)).label_if(n < ls.len(), "letters listed twice").label_if(n == 1 && ls.len() > 1, "one letter, several leaves"))
    }
    with_int!(case.kind, L => go::<L>(case))
}
/// Sizes beyond 32 bits: thorough tier only.
fn c01_giant(ctx: &Ctx, case: &SeqCase) -> Check {
    if ctx.tier == Tier::Quick { return Ok(Info::new(false).label("left to the thorough tier")); }
    let letters: Vec<u16> = expand_seq(&case.seq);
    let cd = compressed(&letters, supplied(case, &letters, Some(reader::<u16>))?)?;
    let bits: u64 = cd.comp_bytes().len() as u64 * 8 - cd.padding_bits() as u64;
    let codes = cd.huff_tree().read_codes();
    let want: u64 = letters.iter().map(|l| codes[l].len() as u64).sum();
    ensure!(bits == want, "{bits} bits of data, the codes of the letters are {want} bits");
    let back = no_panic("decompress", || decompress(&cd))?;
    ensure!(back == letters, "round trip: {}", first_diff(&letters, &back));
    Ok(Info::new(true).label_if(bits > u32::MAX as u64, "more than 2^32 bits"))
}

// ------------------------------------------------------------------ C02
fn c02_generic<L: LtInt>(case: &SeqCase) -> Check {
    let letters: Vec<L> = expand_seq(&case.seq);
    let tree = supplied(case, &letters, Some(reader::<L>))?;
    let cd = compressed(&letters, tree)?;
    let bytes = no_panic("to_bytes", || cd.to_bytes())?;
    let back = match no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(&bytes))? {
        Ok(b) => b,
        Err(e) => return bad(format!("own byte form refused: {e}")),
    };
    ensure!(back.comp_bytes() == cd.comp_bytes(), "compressed bytes differ after reading back ({} vs {} bytes)", back.comp_bytes().len(), cd.comp_bytes().len());
    ensure!(back.padding_bits() == cd.padding_bits(), "padding {} read back as {}", cd.padding_bits(), back.padding_bits());
    ensure!(codes_of(back.huff_tree()) == codes_of(cd.huff_tree()), "codes differ after reading back");
    let out = no_panic("decompress", || decompress(&back))?;
    ensure!(out == letters, "decompressing read-back data: {}", first_diff(&letters, &out));
    let bytes2 = no_panic("to_bytes", || back.to_bytes())?;
    ensure!(bytes == bytes2, "byte form changed after one trip: {} vs {} bytes", bytes.len(), bytes2.len());
    let tl = split_container(&bytes).map(|c| c.tree_len).unwrap_or(0);
    Ok(seq_info(case, &letters, &cd).label(match tl { 0..=255 => "tree bytes:<=255", 256..=65535 => "tree bytes:<=65535", _ => "tree bytes:>65535" })
        .label(format!("tree pad:{}", bytes[0] >> 4)))
}
fn c02(_: &Ctx, case: &SeqCase) -> Check { with_int!(case.kind, L => c02_generic::<L>(case)) }

/// Data put together from parts, as another writer's may be: any bytes, any padding bits,
/// which may be set, and an end within a code.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartsCase { kind: Kind, tree: Vec<u128>, shape: Shape, bytes: Vec<u8>, len: u32, pad: u8 }
fn parts_case() -> impl Strategy<Value = PartsCase> {
    let len = prop_oneof![4 => 1u32..10, 2 => 1u32..400, 1 => magic(70_000).prop_map(|n| n as u32)];
    let n = prop_oneof![6 => 1usize..12, 1 => 12usize..300].prop_flat_map(|n| prop::collection::vec(raw_letter(), n));
    (kind_of(&BYTED), n, shape_strategy(), prop::collection::vec(any::<u8>(), 1..8), len, 0u8..8).prop_map(|(kind, tree, shape, bytes, len, pad)| PartsCase { kind, tree, shape, bytes, len, pad })
}
fn c02_parts(_: &Ctx, case: &PartsCase) -> Check {
    fn go<L: LtInt>(case: &PartsCase) -> Check {
        let leaves: Vec<u128> = case.tree.iter().map(|l| L::from_raw(*l).raw()).collect();
        let rt = build_shape(&leaves, &case.shape);
        let t = reader::<L>(&rt.encode(L::W))?;
        let data: Vec<u8> = case.bytes.iter().copied().cycle().take(case.len as usize).collect();
        let cd = no_panic("CompressData::new", || CompressData::new(data.clone(), case.pad, t))?;
        let bits = bytes_to_bits(&data);
        let (want, _) = rt.decode(&bits[..bits.len() - case.pad as usize]);
        let bytes = no_panic("to_bytes", || cd.to_bytes())?;
        ensure!(bytes.ends_with(&data), "the byte form does not end with the {} bytes of data", data.len());
        let back = match no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(&bytes))? { Ok(b) => b, Err(e) => return bad(format!("own byte form refused: {e}")) };
        ensure!(back.comp_bytes() == data, "compressed bytes differ after reading back: {}", crate::cli::diff_bytes(&data, back.comp_bytes()));
        ensure!(back.padding_bits() == case.pad, "padding {} read back as {}", case.pad, back.padding_bits());
        if let Err(m) = same_structure(back.huff_tree(), &rt) { return bad(format!("another tree after reading back: {m}")); }
        ensure!(codes_of(back.huff_tree()) == codes_of(cd.huff_tree()), "codes differ after reading back");
        for (c, what) in [(&cd, "data as made"), (&back, "data read back")] {
            let out: Vec<u128> = no_panic("decompress", || decompress(c))?.iter().map(|l| l.raw()).collect();
            ensure!(out == want, "{what}: decompress gives {} letters, the bits stand for {}{}", out.len(), want.len(), out.iter().zip(&want).position(|(a, b)| a != b).map(|i| format!(" (first difference at {i})")).unwrap_or_default());
        }
        ensure!(no_panic("to_bytes", || back.to_bytes())? == bytes, "byte form changed after one trip");
        let last = data[data.len() - 1];
        Ok(Info::new(rt.codes().len() > 1).label_if(case.pad > 0 && last & ((1 << case.pad) - 1) != 0, "padding bits set").label(format!("data pad:{}", case.pad)).label(format!("kind:{:?}", case.kind)))
    }
    with_int!(case.kind, L => go::<L>(case))
}

/// A tree of more than 2^32 bits (half a gigabyte), by way of letters of 8 KiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigTreeCase { letters: u32 }
fn c02_big_tree(ctx: &Ctx, case: &BigTreeCase) -> Check {
    type Big = Fixed<8192>;
    let n = case.letters as usize;
    let letters: Vec<Big> = (0..n as u128).map(|i| Big::from_raw((i << 64) | i)).collect();
    let cd = compressed(&letters, None)?;
    let (data, pad) = (cd.comp_bytes().to_vec(), cd.padding_bits());
    let bytes = no_panic("to_bytes", || cd.to_bytes())?;
    drop(cd);
    // preorder: a joint more of 1 bit for every letter of 1 + 8 * 8192 bits but the first
    let tree = (n * (1 + 8 * 8192) + n - 1).div_ceil(8);
    let said = u32::from_be_bytes(bytes[1..5].try_into().unwrap()) as usize;
    ensure!(said == tree, "the tree takes {tree} bytes, its length is given as {said}");
    ensure!(bytes.len() == 5 + tree + data.len() && bytes[5 + tree..] == data[..], "the data are not behind the tree");
    // reading half a gigabyte bit by bit is left to the thorough tier
    if ctx.tier == Tier::Quick { return Ok(Info::new(true).label("a tree of more than 2^32 bits, written only")); }
    let back = match no_panic("try_from_bytes", || CompressData::<Big>::try_from_bytes(&bytes))? { Ok(b) => b, Err(e) => return bad(format!("own byte form refused: {e}")) };
    ensure!(back.comp_bytes() == data && back.padding_bits() == pad, "data or padding differ after reading back");
    drop(bytes);
    let out = no_panic("decompress", || decompress(&back))?;
    ensure!(out == letters, "decompressing read-back data gives {} letters, not the {n} compressed", out.len());
    Ok(Info::new(true).label("a tree of more than 2^32 bits"))
}

// ------------------------------------------------------------------ C03
fn c03_generic<L: LtInt>(case: &SeqCase) -> Check {
    let letters: Vec<L> = expand_seq(&case.seq);
    let raws: Vec<u128> = letters.iter().map(|l| l.raw()).collect();
    let tree = supplied(case, &letters, Some(reader::<L>))?;
    let cd = compressed(&letters, tree)?;
    let bytes = no_panic("to_bytes", || cd.to_bytes())?;
    let c = match split_container(&bytes) { Ok(c) => c, Err(e) => return bad(format!("byte form does not hold what its header says: {e:?}")) };
    ensure!(c.tree_pad <= 7 && c.data_pad <= 7, "padding out of range: tree {}, data {}", c.tree_pad, c.data_pad);
    ensure!(c.data_pad == cd.padding_bits(), "header says data padding {}, accessor says {}", c.data_pad, cd.padding_bits());
    ensure!(c.data == cd.comp_bytes(), "data section differs from comp_bytes");
    let t = match RTree::parse(&c.tree_bits(), L::W) { Ok(t) => t, Err(e) => return bad(format!("tree section is not the documented encoding: {e:?}")) };
    if let Err(m) = same_structure(cd.huff_tree(), &t) { return bad(format!("tree section is not the tree used: {m}")); }
    let codes: HashMap<u128, Vec<bool>> = t.codes().into_iter().collect();
    let mut want: Vec<bool> = vec![];
    for r in &raws {
        match codes.get(r) { Some(c) => want.extend(c), None => return bad(format!("letter {r} has no code in the stored tree")) }
    }
    let got = c.data_bits();
    ensure!(got.len() == want.len(), "data section holds {} bits besides padding, the codes of the letters are {} bits", got.len(), want.len());
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        return bad(format!("data bit {i} of {} differs from the concatenated codes", want.len()));
    }
    let (dec, complete) = t.decode(&got);
    ensure!(complete && dec == raws, "independent reader: {}", first_diff(&raws, &dec));
    Ok(seq_info(case, &letters, &cd).label(format!("tree pad:{}", c.tree_pad)).label_if(c.tree_len > 65535, "tree bytes:>65535"))
}
fn c03(_: &Ctx, case: &SeqCase) -> Check { with_int!(case.kind, L => c03_generic::<L>(case)) }

// ------------------------------------------------------------------ C04 / C05: weights
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Letters { Given(Vec<u128>), Many { n: u32, spread: bool } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WCase { kind: Kind, letters: Letters, scheme: Scheme, via: Via }
impl WCase {
    fn entries<L: Lt>(&self) -> Vec<(u128, usize)> {
        let raws: Vec<u128> = match &self.letters {
            Letters::Given(v) => v.clone(),
            Letters::Many { n, spread } => (0..*n as u128).map(|i| if *spread { i.wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835) } else { i }).collect(),
        };
        let ls = canon::<L>(&raws);
        let bytes = self.via == Via::Bytes && self.kind == Kind::U8;
        let ws = expand_weights(&self.scheme, ls.len(), !bytes);
        ls.into_iter().zip(ws).collect()
    }
}
/// Very many letters, many of them of weight 0: ties all over.
fn zero_examples() -> Vec<WCase> {
    let mut v = vec![];
    for (n, m) in [(6_000, u64::MAX), (70_000, u64::MAX), (30_000, 0x5555_5555_5555_5555), (20_000, !1), (9_000, 0xFFFF_0000_FFFF_0000), (300_000, u64::MAX)] {
        for via in [Via::Map, Via::Vec] { if n < 100_000 || via == Via::Map { v.push(WCase { kind: Kind::U32, letters: Letters::Many { n, spread: false }, scheme: Scheme::Zeros(m), via }); } }
    }
    v
}
fn wcase(big: bool) -> impl Strategy<Value = WCase> {
    let letters = if big {
        (prop_oneof![2 => 1u32..3000, 1 => magic(20_000).prop_map(|n| n as u32)], any::<bool>()).prop_map(|(n, spread)| Letters::Many { n, spread }).boxed()
    } else {
        prop_oneof![
            3 => prop::collection::vec(raw_letter(), 1..10).prop_map(Letters::Given).boxed(),
            2 => prop::collection::vec(raw_letter(), 1..60).prop_map(Letters::Given).boxed(),
            2 => (prop_oneof![3 => 1u32..300, 1 => magic(300).prop_map(|n| n as u32)], any::<bool>()).prop_map(|(n, spread)| Letters::Many { n, spread }).boxed(),
        ].boxed()
    };
    (kind_of(&ALL), letters, scheme(), via()).prop_map(|(kind, letters, scheme, via)| WCase { kind, letters, scheme, via })
}
fn w_examples() -> Vec<WCase> {
    let mut v = vec![];
    for n in [1u32, 2, 3, 4, 5, 16, 17, 64, 65, 88, 127, 128, 255, 256, 257, 1000] {
        for s in [Scheme::Equal(1), Scheme::Fib, Scheme::FibRev, Scheme::Pow2, Scheme::Zeros(0xAAAA_AAAA_AAAA_AAAA), Scheme::Zeros(u64::MAX), Scheme::NearMax(vec![u64::MAX / 2, 1]), Scheme::Given((0..64).map(|i| 1u64 << i).collect())] {
            for (k, via) in [(Kind::U8, Via::Bytes), (Kind::U16, Via::Map), (Kind::I32, Via::Vec)] {
                v.push(WCase { kind: k, letters: Letters::Many { n, spread: false }, scheme: s.clone(), via });
            }
        }
    }
    // every pair of bytes, as counted bytes: absent and present ends of the range
    for a in [0u128, 1, 127, 128, 254, 255] { for b in [0u128, 1, 127, 128, 254, 255] {
        v.push(WCase { kind: Kind::U8, letters: Letters::Given(vec![a, b]), scheme: Scheme::Given(vec![3, 5]), via: Via::Bytes });
    } }
    v
}
fn w_info(case: &WCase, entries: &[(u128, usize)]) -> Info {
    let ws: HashSet<usize> = entries.iter().map(|e| e.1).collect();
    let total: u128 = entries.iter().map(|e| e.1 as u128).sum();
    Info::new(entries.len() >= 3)
        .label(format!("kind:{:?}", case.kind)).label(format!("via:{:?}", case.via))
        .label(match entries.len() { 1 => "n:1", 2 => "n:2", 3..=16 => "n:3-16", 17..=256 => "n:17-256", _ => "n:>256" })
        .label_if(ws.len() < entries.len(), "has ties").label_if(ws.contains(&0), "has zero weight")
        .label_if(total > u32::MAX as u128, "sum>u32").label_if(total > (1u128 << 63), "sum>2^63")
}
fn c04_generic<L: Lt>(case: &WCase) -> Check {
    let entries = case.entries::<L>();
    let t: HuffTree<L> = no_panic("from_weights", || tree_from::<L>(&entries, case.via))?;
    check_codes(&t, &entries.iter().map(|e| e.0).collect::<Vec<_>>())?;
    Ok(w_info(case, &entries))
}
/// The tree holds exactly `letters`, each once, and all ways of reading codes agree.
fn check_codes<L: Lt>(t: &HuffTree<L>, letters: &[u128]) -> Result<(), Fail> {
    let nodes = no_panic("navigation", || walk(t))?;
    let codes = no_panic("read_codes", || t.read_codes())?;
    let want: HashSet<u128> = letters.iter().copied().collect();
    let mut seen = HashSet::new();
    let mut list = vec![];
    for n in &nodes {
        if n.kids.is_some() {
            ensure!(n.letter.is_none(), "joint branch at path '{}' carries letter {:?}", show(&n.path), n.letter);
            continue;
        }
        let l = match &n.letter { Some(l) => l, None => return bad(format!("leaf at path '{}' has no letter", show(&n.path))) };
        ensure!(want.contains(&l.raw()), "tree holds letter {l:?}, which has no weight");
        ensure!(seen.insert(l.raw()), "letter {l:?} is in the tree twice");
        let path = if nodes.len() == 1 { vec![false] } else { n.path.clone() };
        ensure!(n.code.as_deref() == Some(&path[..]), "leaf {l:?} stores code {:?}, its path is {}", n.code.as_ref().map(|c| show(c)), show(&path));
        match codes.get(l) {
            Some(c) => ensure!(to_bools(c) == path, "letter {l:?} is reported with code {}, its path is {}", show(&to_bools(c)), show(&path)),
            None => return bad(format!("letter {l:?} has no reported code")),
        }
        list.push(path);
    }
    ensure!(seen.len() == want.len(), "{} of {} letters have a leaf", seen.len(), want.len());
    ensure!(codes.len() == want.len(), "{} codes reported for {} letters", codes.len(), want.len());
    if let Some(m) = prefix_code_problem(&list) { return bad(m); }
    // other hashers report the same codes
    let c2 = no_panic("read_codes_with_hasher", || t.read_codes_with_hasher(Collide(false)))?;
    ensure!(c2.len() == codes.len() && codes.iter().all(|(l, c)| c2.get(l) == Some(c)), "codes differ with another hasher");
    if letters.len() <= 40 {
        let c3 = no_panic("read_codes_with_hasher", || t.read_codes_with_hasher(Collide(true)))?;
        ensure!(c3.len() == codes.len() && codes.iter().all(|(l, c)| c3.get(l) == Some(c)), "codes differ with a colliding hasher");
    }
    // a clone is the same tree
    let c4 = t.clone().read_codes();
    ensure!(c4 == codes, "a clone of the tree reports other codes");
    Ok(())
}
fn c04(_: &Ctx, case: &WCase) -> Check { with_kind!(case.kind, L => c04_generic::<L>(case)) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesTree { bytes: Vec<u8> }
/// trees as users get them: counted from data
fn c04_seq(_: &Ctx, case: &SeqCase) -> Check {
    fn go<L: Lt>(case: &SeqCase) -> Check {
        let letters: Vec<L> = expand_seq(&case.seq);
        let d = distinct_raw(&letters);
        let t = no_panic("from_weights", || HuffTree::from_weights(build_weights_map(&letters)))?;
        check_codes(&t, &d)?;
        if case.kind == Kind::U8 {
            let b: Vec<u8> = letters.iter().map(|l| l.raw() as u8).collect();
            check_codes(&no_panic("from_weights", || HuffTree::from_weights(ByteWeights::from_bytes(&b)))?, &d)?;
            check_codes(&no_panic("from_weights", || HuffTree::from_weights(ByteWeights::threaded_from_bytes(&b, 3)))?, &d)?;
        }
        Ok(Info::new(d.len() >= 3).label(format!("kind:{:?}", case.kind)))
    }
    with_kind!(case.kind, L => go::<L>(case))
}
fn seq_only(alpha: usize, len: usize) -> impl Strategy<Value = SeqCase> {
    (kind_of(&ALL), prop_oneof![3 => seq_small(alpha, len).boxed(), 1 => seq_large(1..300, 1..2000).boxed(), 1 => seq_magic(1_500, 5_000).boxed()]).prop_map(|(kind, seq)| SeqCase { kind, seq, tree: TreeSrc::Own })
}

fn c05_tree<L: Lt>(t: &HuffTree<L>, entries: &[(u128, usize)]) -> Result<(), Fail> {
    let nodes = no_panic("navigation", || walk(t))?;
    let want: HashMap<u128, usize> = entries.iter().copied().collect();
    let mut cost = 0u128;
    for n in &nodes {
        match n.kids {
            None => {
                let l = n.letter.as_ref().map(|l| l.raw());
                let w = match l.and_then(|l| want.get(&l)) { Some(w) => *w, None => return bad(format!("leaf {:?} is not a weighted letter", n.letter)) };
                ensure!(n.weight == w, "leaf {:?} carries weight {}, its weight is {}", n.letter, n.weight, w);
                cost += w as u128 * (n.path.len().max(1)) as u128;
            }
            Some((l, r)) => {
                let s = nodes[l].weight as u128 + nodes[r].weight as u128;
                ensure!(n.weight as u128 == s, "joint branch at '{}' weighs {}, its children weigh {}", show(&n.path), n.weight, s);
            }
        }
    }
    let best = optimal_cost(&entries.iter().map(|e| e.1 as u128).collect::<Vec<_>>());
    ensure!(cost == best, "total weighted path length is {cost}, the optimum is {best}");
    // the same through the reported codes
    let codes = codes_of(t);
    let mut c2 = 0u128;
    for (l, w) in entries {
        match codes.get(l) { Some(c) => c2 += *w as u128 * c.len() as u128, None => return bad(format!("letter {l} has no code")) }
    }
    ensure!(c2 == best, "total weighted code length is {c2}, the optimum is {best}");
    Ok(())
}
fn c05(_: &Ctx, case: &WCase) -> Check {
    fn go<L: Lt>(case: &WCase) -> Check {
        let entries = case.entries::<L>();
        let t: HuffTree<L> = no_panic("from_weights", || tree_from::<L>(&entries, case.via))?;
        c05_tree(&t, &entries)?;
        Ok(w_info(case, &entries))
    }
    with_kind!(case.kind, L => go::<L>(case))
}
fn c05_seq(_: &Ctx, case: &SeqCase) -> Check {
    fn go<L: Lt>(case: &SeqCase) -> Check {
        let letters: Vec<L> = expand_seq(&case.seq);
        let cs = counts(&letters);
        let best = optimal_cost(&cs.values().copied().collect::<Vec<_>>());
        let cd = no_panic("compress", || compress(&letters))?;
        let bits = cd.comp_bytes().len() as u128 * 8 - cd.padding_bits() as u128;
        ensure!(bits == best, "compressed to {bits} data bits, the minimum is {best}");
        let entries: Vec<(u128, usize)> = cs.iter().map(|(l, c)| (*l, *c as usize)).collect();
        c05_tree(cd.huff_tree(), &entries)?;
        if case.kind == Kind::U8 {
            let b: Vec<u8> = letters.iter().map(|l| l.raw() as u8).collect();
            let bw = ByteWeights::from_bytes(&b);
            c05_tree(&no_panic("from_weights", || HuffTree::from_weights(bw))?, &entries)?;
            let half = b.len() / 2;
            let sum = ByteWeights::threaded_from_bytes(&b[..half], 2) + ByteWeights::from_bytes(&b[half..]);
            let t = no_panic("from_weights", || HuffTree::from_weights(sum))?;
            c05_tree(&t, &entries)?;
            let cd = match no_panic("compress_with_tree", || compress_with_tree(&b, t))? { Ok(c) => c, Err(e) => return bad(format!("{e}")) };
            let bits = cd.comp_bytes().len() as u128 * 8 - cd.padding_bits() as u128;
            ensure!(bits == best, "compressed with a byte-counted tree to {bits} data bits, the minimum is {best}");
        }
        Ok(Info::new(cs.len() >= 3).label(format!("kind:{:?}", case.kind)).label(match cs.len() { 1 => "n:1", 2 => "n:2", 3..=16 => "n:3-16", _ => "n:>16" }))
    }
    with_kind!(case.kind, L => go::<L>(case))
}

// ------------------------------------------------------------------ C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase { kind: Kind, letters: Letters, shape: Shape, dup: bool, off: u8 }
fn shape_case(max: u32) -> impl Strategy<Value = ShapeCase> {
    let letters = prop_oneof![
        3 => prop::collection::vec(raw_letter(), 1..14).prop_map(Letters::Given),
        1 => (prop_oneof![2 => 1u32..max, 1 => magic(max as u64 - 1).prop_map(|n| n as u32)], any::<bool>()).prop_map(|(n, spread)| Letters::Many { n, spread }),
    ];
    (kind_of(&BYTED), letters, shape_strategy(), prop::bool::weighted(0.2), 0u8..8).prop_map(|(kind, letters, shape, dup, off)| ShapeCase { kind, letters, shape, dup, off })
}
impl ShapeCase {
    fn tree<L: LtInt>(&self) -> RTree {
        let raws: Vec<u128> = match &self.letters {
            Letters::Given(v) => v.clone(),
            Letters::Many { n, spread } => (0..*n as u128).map(|i| if *spread { i.wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835) } else { i }).collect(),
        };
        let ls = if self.dup { raws.iter().map(|r| L::from_raw(*r).raw()).collect() } else { canon::<L>(&raws) };
        build_shape(&ls, &self.shape)
    }
}
fn c06_shape(_: &Ctx, case: &ShapeCase) -> Check {
    fn go<L: LtInt>(case: &ShapeCase) -> Check {
        let rt = case.tree::<L>();
        let bits = rt.encode(L::W);
        let t = match no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(from_bools_offset(&bits, case.off as usize)))? {
            Ok(t) => t, Err(e) => return bad(format!("well-formed encoding of {} bits (depth {}) refused: {e}", bits.len(), rt.depth())),
        };
        if let Err(m) = same_structure(&t, &rt) { return bad(m); }
        for n in walk(&t) {
            ensure!(n.weight == 0, "a tree read from binary has weight {} at '{}'", n.weight, show(&n.path));
            if n.kids.is_none() {
                let p = if n.path.is_empty() { vec![false] } else { n.path };
                ensure!(n.code.as_deref() == Some(&p[..]), "leaf at '{}' stores another code", show(&p));
            }
        }
        let out = to_bools(&no_panic("as_bin", || t.as_bin())?);
        ensure!(out == bits, "writing out a tree read from {} bits gives {} bits, first difference at {:?}", bits.len(), out.len(), out.iter().zip(&bits).position(|(a, b)| a != b));
        let distinct: HashSet<u128> = rt.codes().iter().map(|c| c.0).collect();
        if distinct.len() == rt.codes().len() {
            let want: HashMap<u128, Vec<bool>> = rt.codes().into_iter().collect();
            ensure!(codes_of(&t) == want, "codes of the read tree differ from the encoding");
        } else {
            // a letter listed twice has one of its codes
            let got = codes_of(&t);
            ensure!(got.keys().copied().collect::<HashSet<u128>>() == distinct, "codes of the read tree are those of other letters");
            let all: HashSet<(u128, Vec<bool>)> = rt.codes().into_iter().collect();
            if let Some((l, c)) = got.into_iter().find(|(l, c)| !all.contains(&(*l, c.clone()))) { return bad(format!("the read tree reports the code {} for {l}, where there is no such letter", show(&c))); }
        }
        Ok(Info::new(distinct.len() >= 2).label(format!("kind:{:?}", case.kind)).label_if(case.dup, "repeated letters").label(match rt.depth() { 0..=8 => "depth:<=8", 9..=64 => "depth:<=64", 65..=255 => "depth:<=255", _ => "depth:>255" }))
    }
    with_int!(case.kind, L => go::<L>(case))
}
fn c06_weights(_: &Ctx, case: &WCase) -> Check {
    fn go<L: LtInt>(case: &WCase) -> Check {
        let entries = case.entries::<L>();
        let t: HuffTree<L> = no_panic("from_weights", || tree_from::<L>(&entries, case.via))?;
        let bin = no_panic("as_bin", || t.as_bin())?;
        let bits = to_bools(&bin);
        let rt = match RTree::parse(&bits, L::W) { Ok(r) => r, Err(e) => return bad(format!("binary form is not the documented encoding: {e:?}")) };
        if let Err(m) = same_structure(&t, &rt) { return bad(format!("binary form describes another tree: {m}")); }
        let n = match no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(bin))? { Ok(n) => n, Err(e) => return bad(format!("own binary form refused: {e}")) };
        if let Err(m) = same_structure(&n, &rt) { return bad(format!("read-back tree differs: {m}")); }
        ensure!(n.read_codes() == t.read_codes(), "codes changed by the trip through binary");
        ensure!(walk(&n).iter().all(|x| x.weight == 0), "a tree read from binary has a non-zero weight");
        let bits2 = to_bools(&n.as_bin());
        ensure!(bits == bits2, "binary form changed after one trip");
        Ok(w_info(case, &entries))
    }
    with_int!(case.kind, L => go::<L>(case))
}
fn wcase_int(big: bool) -> impl Strategy<Value = WCase> {
    (wcase(big), kind_of(&BYTED)).prop_map(|(mut w, k)| { w.kind = k; w })
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut { Truncate(u16), TruncateBy(u8), Extend(Vec<bool>), Flip(u16), Insert(u16, bool), Remove(u16), ChangeKind(Kind) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BitsBase { Tree(ShapeCase), Raw(Vec<bool>), Ones(u32, Vec<bool>), Chain { n: u32, left: bool } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BitsCase { kind: Kind, base: BitsBase, muts: Vec<Mut>, off: u8 }
fn muts() -> impl Strategy<Value = Vec<Mut>> {
    let m = prop_oneof![
        2 => any::<u16>().prop_map(Mut::Truncate),
        2 => (1u8..20).prop_map(Mut::TruncateBy),
        3 => prop::collection::vec(any::<bool>(), 1..20).prop_map(Mut::Extend),
        3 => any::<u16>().prop_map(Mut::Flip),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(p, b)| Mut::Insert(p, b)),
        1 => any::<u16>().prop_map(Mut::Remove),
        1 => prop::sample::select(&BYTED[..]).prop_map(Mut::ChangeKind),
    ];
    prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(m.clone(), 1..=1), 3 => prop::collection::vec(m, 1..4)]
}
fn apply_muts(bits: &mut Vec<bool>, muts: &[Mut], mut f: impl FnMut(Kind)) {
    for m in muts {
        let n = bits.len();
        match m {
            Mut::Truncate(k) => { if n > 0 { bits.truncate(*k as usize % n) } }
            Mut::TruncateBy(k) => bits.truncate(n.saturating_sub(*k as usize)),
            Mut::Extend(b) => bits.extend(b),
            Mut::Flip(k) => { if n > 0 { let i = *k as usize % n; bits[i] = !bits[i]; } }
            Mut::Insert(k, b) => bits.insert(*k as usize % (n + 1), *b),
            Mut::Remove(k) => { if n > 0 { bits.remove(*k as usize % n); } }
            Mut::ChangeKind(k) => f(*k),
        }
    }
}
fn bits_case() -> impl Strategy<Value = BitsCase> {
    let base = prop_oneof![
        6 => shape_case(60).prop_map(BitsBase::Tree),
        1 => prop::collection::vec(any::<bool>(), 0..80).prop_map(BitsBase::Raw),
        1 => prop::collection::vec(prop::bool::weighted(0.25), 0..400).prop_map(BitsBase::Raw),
    ];
    (kind_of(&BYTED), base, muts(), 0u8..8).prop_map(|(kind, base, muts, off)| {
        let kind = if let BitsBase::Tree(s) = &base { s.kind } else { kind };
        BitsCase { kind, base, muts, off }
    })
}
fn deep_case() -> impl Strategy<Value = BitsCase> {
    let base = prop_oneof![
        (prop_oneof![1u32..1100, 1100u32..100_000, magic(200_000).prop_map(|n| n as u32), Just(3_000_000u32)], prop::collection::vec(any::<bool>(), 0..40)).prop_map(|(n, v)| BitsBase::Ones(n, v)),
        (prop_oneof![1u32..1000, 1000u32..1100, magic(10_000).prop_map(|n| n as u32), 1100u32..30_000], any::<bool>()).prop_map(|(n, left)| BitsBase::Chain { n, left }),
    ];
    (kind_of(&BYTED), base, prop_oneof![4 => Just(vec![]).boxed(), 1 => muts().boxed()]).prop_map(|(kind, base, muts)| BitsCase { kind, base, muts, off: 0 })
}
fn base_bits(case: &BitsCase) -> Vec<bool> {
    match &case.base {
        BitsBase::Tree(s) => with_int!(s.kind, L => s.tree::<L>().encode(<L as LtInt>::W)),
        BitsBase::Raw(b) => b.clone(),
        BitsBase::Ones(n, t) => { let mut v = vec![true; *n as usize]; v.extend(t); v }
        BitsBase::Chain { n, left } => {
            let leaves: Vec<u128> = (0..=*n as u128).map(|i| with_int!(case.kind, L => <L as Lt>::from_raw(i).raw())).collect();
            build_shape(&leaves, if *left { &Shape::Left } else { &Shape::Right }).encode(width_of(case.kind))
        }
    }
}
const MUST_ACCEPT_DEPTH: usize = 1000;
/// What the reference says about a tree encoding: `Ok(Some)` must be accepted, `Ok(None)` may be
/// refused (nesting), `Err` must be refused.
fn c07(_: &Ctx, case: &BitsCase) -> Check {
    let mut bits = base_bits(case);
    let mut kind = case.kind;
    apply_muts(&mut bits, &case.muts, |k| kind = k);
    fn go<L: LtInt>(bits: &[bool], case: &BitsCase, kind: Kind) -> Check {
        let want = RTree::parse(bits, L::W);
        let input = if bits.len() < 5000 { from_bools_offset(bits, case.off as usize) } else { from_bools(bits) };
        let got = no_panic("try_from_bin", move || HuffTree::<L>::try_from_bin(input))?;
        let info = Info::new(!case.muts.is_empty() || !matches!(case.base, BitsBase::Tree(_))).label(format!("kind:{kind:?}"));
        match (want, got) {
            (Ok(rt), Ok(t)) => {
                if let Err(m) = same_structure(&t, &rt) { return bad(format!("accepted, but as another tree: {m}")); }
                if rt.depth() < 2000 {
                    no_panic("read_codes", || t.read_codes())?;
                    no_panic("as_bin", || t.as_bin())?;
                }
                Ok(info.label("accepted").label_if(rt.depth() > 255, "accepted, depth>255"))
            }
            (Ok(rt), Err(e)) => {
                ensure!(rt.depth() > MUST_ACCEPT_DEPTH, "well-formed encoding ({} bits, depth {}) refused: {e}", bits.len(), rt.depth());
                Ok(info.label("refused for nesting"))
            }
            (Err(e), Ok(_)) => bad(format!("malformed encoding of {} bits accepted ({e:?} expected)", bits.len())),
            (Err(e), Err(x)) => {
                ensure!(!x.to_string().is_empty() && !x.message().is_empty(), "error without a message");
                Ok(info.label(format!("refused:{e:?}")))
            }
        }
    }
    with_int!(kind, L => go::<L>(&bits, case, kind))
}
/// A user-defined letter that refuses some byte patterns.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Picky([u8; 2]);
impl HuffLetter for Picky {}
impl HuffLetterAsBytes for Picky {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        if b.len() != 2 { return Err("length".into()); }
        if b[1] % 3 == 2 || b[0] == 0xEE { return Err("not a letter".into()); }
        Ok(Picky([b[0], b[1]]))
    }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
fn picky_ok(v: u128) -> bool { (v & 0xff) % 3 != 2 && (v >> 8) & 0xff != 0xEE }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PickyCase { leaves: Vec<u16>, shape: Shape, muts: Vec<Mut> }
fn c07_picky(_: &Ctx, case: &PickyCase) -> Check {
    let leaves: Vec<u128> = case.leaves.iter().map(|x| *x as u128).collect();
    let mut bits = build_shape(&leaves, &case.shape).encode(16);
    apply_muts(&mut bits, &case.muts, |_| ());
    let want = RTree::parse(&bits, 16);
    let got = no_panic("try_from_bin", || HuffTree::<Picky>::try_from_bin(from_bools(&bits)))?;
    let fine = matches!(&want, Ok(t) if t.codes().iter().all(|(l, _)| picky_ok(*l)));
    ensure!(fine == got.is_ok(), "letters {}: reference says {}, library says {}", leaves.len(), if fine { "well-formed" } else { "malformed" }, if got.is_ok() { "accepted" } else { "refused" });
    if let Ok(t) = &got {
        ensure!(to_bools(&t.as_bin()) == bits, "accepted tree writes out differently");
        let cd = CompressData::new(vec![0b0101_1010, 0xA5], 3, t.clone());
        no_panic("decompress", || decompress(&cd))?;
    }
    // the same through compressed data
    let n = bits.len();
    let tb = bits_to_bytes(&bits);
    let mut bytes = vec![(((8 - n % 8) % 8) as u8) << 4];
    bytes.extend((tb.len() as u32).to_be_bytes());
    bytes.extend(&tb);
    bytes.push(0x5A);
    let got2 = no_panic("try_from_bytes", || CompressData::<Picky>::try_from_bytes(&bytes))?;
    ensure!(got2.is_ok() == (fine && tb.len() >= 2), "compressed data with that tree: accepted = {}", got2.is_ok());
    Ok(Info::new(want.is_ok()).label(if fine { "all letters accepted" } else if want.is_ok() { "a letter refused" } else { "malformed bits" }))
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ByteMut { Set(u16, u8), SetHead(u8, u8), Truncate(u16), TruncateBy(u8), Extend(Vec<u8>), Remove(u16), Insert(u16, u8), TreeLen(i32), TreeLenAbs(u32), TreePad(u8), DataPad(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BytesBase {
    Real(SeqCase),
    Built { shape: ShapeCase, data: Vec<u8>, pad: u8 },
    Raw(Vec<u8>),
    Bomb { ones: u32, data: Vec<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase { kind: Kind, base: BytesBase, muts: Vec<ByteMut> }
pub fn byte_muts() -> impl Strategy<Value = Vec<ByteMut>> {
    let m = prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| ByteMut::Set(p, v)),
        2 => (0u8..12, any::<u8>()).prop_map(|(p, v)| ByteMut::SetHead(p, v)),
        3 => any::<u16>().prop_map(ByteMut::Truncate),
        2 => (1u8..24).prop_map(ByteMut::TruncateBy),
        1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(ByteMut::Extend),
        1 => any::<u16>().prop_map(ByteMut::Remove),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| ByteMut::Insert(p, v)),
        3 => (-4i32..5).prop_map(ByteMut::TreeLen),
        1 => prop_oneof![0u32..6, any::<u32>(), Just(u32::MAX), Just(1u32 << 31), 0u32..100_000, magic(u32::MAX as u64).prop_map(|n| n as u32)].prop_map(ByteMut::TreeLenAbs),
        2 => (0u8..16).prop_map(ByteMut::TreePad),
        2 => (0u8..16).prop_map(ByteMut::DataPad),
    ];
    prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(m.clone(), 1..=1), 4 => prop::collection::vec(m, 1..4)]
}
pub fn apply_byte_muts(b: &mut Vec<u8>, muts: &[ByteMut]) {
    for m in muts {
        let n = b.len();
        match m {
            ByteMut::Set(p, v) => { if n > 0 { b[*p as usize % n] = *v } }
            ByteMut::SetHead(p, v) => { if (*p as usize) < n { b[*p as usize] = *v } }
            ByteMut::Truncate(k) => { if n > 0 { b.truncate(*k as usize % n) } }
            ByteMut::TruncateBy(k) => b.truncate(n.saturating_sub(*k as usize)),
            ByteMut::Extend(v) => b.extend(v),
            ByteMut::Remove(p) => { if n > 0 { b.remove(*p as usize % n); } }
            ByteMut::Insert(p, v) => b.insert(*p as usize % (n + 1), *v),
            ByteMut::TreeLen(d) => { if n >= 5 { let t = u32::from_be_bytes(b[1..5].try_into().unwrap()).wrapping_add(*d as u32); b[1..5].copy_from_slice(&t.to_be_bytes()); } }
            ByteMut::TreeLenAbs(t) => { if n >= 5 { b[1..5].copy_from_slice(&t.to_be_bytes()); } }
            ByteMut::TreePad(p) => { if n > 0 { b[0] = (p << 4) | (b[0] & 15) } }
            ByteMut::DataPad(p) => { if n > 0 { b[0] = (b[0] & 0xF0) | p } }
        }
    }
}
fn bytes_case() -> impl Strategy<Value = BytesCase> {
    let base = prop_oneof![
        3 => seq_case(&BYTED, 12, 40).prop_map(BytesBase::Real),
        4 => (shape_case(40), prop::collection::vec(any::<u8>(), 0..12), 0u8..16).prop_map(|(shape, data, pad)| BytesBase::Built { shape, data, pad: if pad > 10 { pad } else { pad % 8 } }),
        1 => prop::collection::vec(any::<u8>(), 0..60).prop_map(BytesBase::Raw),
        1 => (prop::collection::vec(any::<u8>(), 0..40), 0u8..8, 0u8..20).prop_map(|(mut v, p, n)| { let mut h = vec![p, 0, 0, 0, n]; h.append(&mut v); BytesBase::Raw(h) }),
    ];
    (kind_of(&BYTED), base, byte_muts()).prop_map(|(kind, base, muts)| {
        let kind = match &base { BytesBase::Real(s) => s.kind, BytesBase::Built { shape, .. } => shape.kind, _ => kind };
        BytesCase { kind, base, muts }
    })
}
fn bomb_case() -> impl Strategy<Value = BytesCase> {
    (kind_of(&BYTED), prop_oneof![1u32..2000, 2000u32..200_000, Just(8_000_000u32)], prop::collection::vec(any::<u8>(), 0..20), prop_oneof![Just(vec![]).boxed(), byte_muts().boxed()])
        .prop_map(|(kind, ones, data, muts)| BytesCase { kind, base: BytesBase::Bomb { ones, data }, muts })
}
fn bytes_of(case: &BytesCase) -> Result<Vec<u8>, Fail> {
    let mut b = match &case.base {
        BytesBase::Raw(v) => v.clone(),
        BytesBase::Real(s) => {
            fn go<L: LtInt>(s: &SeqCase) -> Result<Vec<u8>, Fail> {
                let letters: Vec<L> = expand_seq(&s.seq);
                let tree = supplied(s, &letters, Some(reader::<L>))?;
                Ok(compressed(&letters, tree)?.to_bytes())
            }
            with_int!(s.kind, L => go::<L>(s))?
        }
        BytesBase::Built { shape, data, pad } => {
            let bits = with_int!(shape.kind, L => shape.tree::<L>().encode(<L as LtInt>::W));
            let tb = bits_to_bytes(&bits);
            let mut v = vec![((((8 - bits.len() % 8) % 8) as u8) << 4) | pad];
            v.extend((tb.len() as u32).to_be_bytes());
            v.extend(tb);
            v.extend(data);
            v
        }
        BytesBase::Bomb { ones, data } => {
            let n = (*ones as usize).div_ceil(8);
            let mut v = vec![0u8];
            v.extend((n as u32).to_be_bytes());
            v.extend(std::iter::repeat_n(0xFFu8, n));
            v.extend(data);
            v
        }
    };
    apply_byte_muts(&mut b, &case.muts);
    Ok(b)
}
fn c08(_: &Ctx, case: &BytesCase) -> Check {
    let b = bytes_of(case)?;
    fn go<L: LtInt>(b: &[u8], case: &BytesCase) -> Check {
        let got = no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(b))?;
        let info = Info::new(!case.muts.is_empty() || !matches!(case.base, BytesBase::Real(_))).label(format!("kind:{:?}", case.kind));
        let why: Option<&str>;
        let mut free = false;
        let mut tree = None;
        match split_container(b) {
            Err(CErr::ShortHeader) => why = Some("header missing"),
            Err(CErr::ShortTree) => why = Some(if u32::from_be_bytes(b[1..5].try_into().unwrap()) < 2 { "tree length below 2" } else { "tree missing" }),
            Ok(c) => {
                let t = RTree::parse(&c.tree_bits(), L::W);
                why = if c.tree_len < 2 { Some("tree length below 2") }
                    else if t.is_err() { Some("invalid tree") }
                    else if c.data.is_empty() { Some("no data") }
                    else if c.data_pad > 7 { Some("data padding above 7") }
                    else { None };
                if let Ok(t) = t {
                    // whole bytes declared as tree padding: outside the documented range, either answer is fine
                    free = c.tree_pad > 7 || t.depth() > MUST_ACCEPT_DEPTH;
                    tree = Some(t);
                }
            }
        }
        match (why, got) {
            (Some(w), Ok(_)) => bad(format!("{w}, yet {} bytes were accepted", b.len())),
            (Some(w), Err(e)) => {
                ensure!(!e.message().is_empty() && !e.to_string().is_empty(), "error without a message");
                Ok(info.label(format!("refused:{w}")))
            }
            (None, Err(e)) => {
                ensure!(free, "valid compressed data of {} bytes refused: {e}", b.len());
                Ok(info.label("refused (unspecified)"))
            }
            (None, Ok(cd)) => {
                let c = split_container(b).unwrap();
                let t = tree.unwrap();
                ensure!(cd.padding_bits() == c.data_pad, "padding {} exposed as {}", c.data_pad, cd.padding_bits());
                ensure!(cd.comp_bytes() == c.data, "data bytes exposed differ");
                if let Err(m) = same_structure(cd.huff_tree(), &t) { return bad(format!("tree exposed differs: {m}")); }
                let out: Vec<u128> = no_panic("decompress", || decompress(&cd))?.iter().map(|l| l.raw()).collect();
                let (want, _) = t.decode(&c.data_bits());
                ensure!(out == want, "decompressing accepted data: {}", first_diff(&want, &out));
                Ok(info.label("accepted"))
            }
        }
    }
    with_int!(case.kind, L => go::<L>(&b, case))
}

// ------------------------------------------------------------------ C09
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MissCase { kind: Kind, seq: Seq, drop: Vec<u16>, extra: Vec<u128>, scheme: Scheme, via: Via, bin: Option<Shape> }
fn miss_case() -> impl Strategy<Value = MissCase> {
    (kind_of(&ALL), prop_oneof![60 => seq_small(12, 60).boxed(), 9 => seq_large(2..400, 1..3000).boxed(), 2 => seq_magic(600, 9_000).boxed(), 1 => seq_runs(70_000).boxed()], prop::collection::vec(any::<u16>(), 0..4), prop::collection::vec(raw_letter(), 0..6), scheme(), via(), prop::option::weighted(0.3, shape_strategy()))
        .prop_map(|(kind, seq, drop, extra, scheme, via, bin)| MissCase { kind, seq, drop, extra, scheme, via, bin })
}
fn c09(_: &Ctx, case: &MissCase) -> Check {
    fn go<L: Lt>(case: &MissCase, rb: Option<fn(&[bool]) -> Result<HuffTree<L>, Fail>>) -> Check {
        let letters: Vec<L> = expand_seq(&case.seq);
        let mut have = distinct_raw(&letters);
        let n = have.len();
        let dropped: HashSet<u128> = case.drop.iter().map(|d| have[*d as usize % n]).collect();
        have.retain(|r| !dropped.contains(r));
        for e in &case.extra { let r = L::from_raw(*e).raw(); if !have.contains(&r) && !dropped.contains(&r) { have.push(r) } }
        if have.is_empty() {
            let mut alt = (0u128..).map(|i| L::from_raw(i).raw());
            have.push(alt.find(|r| !dropped.contains(r)).unwrap());
        }
        let t = match (&case.bin, rb) {
            (Some(s), Some(f)) => f(&build_shape(&have, if have.len() > 900 { &Shape::Balanced } else { s }).encode(width_of(case.kind)))?,
            _ => {
                let ws = expand_weights(&case.scheme, have.len(), case.via != Via::Bytes);
                let entries: Vec<_> = have.iter().copied().zip(ws).collect();
                no_panic("from_weights", || tree_from::<L>(&entries, case.via))?
            }
        };
        let hs: HashSet<u128> = have.iter().copied().collect();
        let first = letters.iter().find(|l| !hs.contains(&l.raw()));
        let got = no_panic("compress_with_tree", || compress_with_tree(&letters, t))?;
        let info = Info::new(first.is_some()).label(format!("kind:{:?}", case.kind)).label(if first.is_some() { "a letter is missing" } else { "all covered" })
            .label_if(first.is_some() && first != letters.first(), "missing letter is not the first letter");
        match (first, got) {
            (None, Ok(cd)) => { let back = decompress(&cd); ensure!(back == letters, "covered sequence: {}", first_diff(&letters, &back)); }
            (None, Err(e)) => return bad(format!("every letter has a code, yet: {e}")),
            (Some(l), Ok(cd)) => return bad(format!("letter {l:?} has no code, yet compression succeeded (decompresses to {} of {} letters)", decompress(&cd).len(), letters.len())),
            (Some(l), Err(e)) => {
                ensure!(e.missing_letter() == l, "error names {:?}, the first letter without a code is {l:?}", e.missing_letter());
                ensure!(!e.message().is_empty() && e.to_string().contains(&format!("{l:?}")), "error text '{e}' does not name the letter");
            }
        }
        Ok(info)
    }
    match case.kind {
        Kind::Char | Kind::Str | Kind::String | Kind::Weird => with_kind!(case.kind, L => go::<L>(case, None)),
        k => with_int!(k, L => go::<L>(case, Some(reader::<L>))),
    }
}

// ------------------------------------------------------------------ C10
fn c10_map(_: &Ctx, case: &SeqCase) -> Check {
    fn same<L: Lt, S: std::hash::BuildHasher>(m: &HashMap<L, usize, S>, want: &HashMap<u128, u128>) -> Result<(), Fail> {
        ensure!(m.len() == want.len(), "{} letters counted, {} are distinct", m.len(), want.len());
        for (l, c) in m { ensure!(want.get(&l.raw()) == Some(&(*c as u128)), "letter {l:?} counted {c} times, occurs {:?}", want.get(&l.raw())); }
        Ok(())
    }
    fn go<L: Lt>(case: &SeqCase) -> Check {
        let letters: Vec<L> = expand_seq(&case.seq);
        let letters = if matches!(&case.tree, TreeSrc::Own) { &letters[..] } else { &letters[..0] };
        let want = counts(letters);
        let m = no_panic("build_weights_map", || build_weights_map(letters))?;
        same(&m, &want)?;
        same(&no_panic("build_weights_map_with_hasher", || build_weights_map_with_hasher(letters, Collide(false)))?, &want)?;
        if want.len() < 60 { same(&no_panic("build_weights_map_with_hasher", || build_weights_map_with_hasher(letters, Collide(true)))?, &want)?; }
        // through the Weights trait
        ensure!(Weights::len(&m) == want.len() && Weights::is_empty(&m) == want.is_empty(), "trait length/emptiness disagree");
        for l in letters.iter().take(50) { ensure!(Weights::get(&m, l).copied() == want.get(&l.raw()).map(|c| *c as usize), "trait lookup of {l:?} disagrees"); }
        let mut m2 = m.clone();
        for l in letters.iter().take(50) { ensure!(Weights::get_mut(&mut m2, l).copied() == want.get(&l.raw()).map(|c| *c as usize), "mutable trait lookup of {l:?} disagrees"); }
        for r in 0..20u128 { let l = L::from_raw(r.wrapping_mul(77)); ensure!(Weights::get(&m, &l).is_some() == want.contains_key(&l.raw()), "lookup of {l:?} disagrees"); }
        Ok(Info::new(want.len() >= 2).label(format!("kind:{:?}", case.kind)).label_if(letters.is_empty(), "empty slice"))
    }
    with_kind!(case.kind, L => go::<L>(case))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CountCase { seq: Seq, cut: u16, threads: u16, rel: u8 }
fn byte_alphabet() -> impl Strategy<Value = u128> {
    prop_oneof![Just(0u128), Just(255u128), Just(1u128), Just(254u128), Just(127u128), Just(128u128), (0u128..256), (0u128..256)]
}
pub fn byte_seq(max_len: usize) -> impl Strategy<Value = Seq> {
    (prop::collection::vec(byte_alphabet(), 1..20), prop::collection::vec(any::<u16>(), 1..=max_len)).prop_map(|(alphabet, idx)| Seq::Explicit { alphabet, idx })
}
fn count_case(big: bool) -> impl Strategy<Value = CountCase> {
    let seq = if big { prop_oneof![2 => seq_large(1..257, 100..20_000).boxed(), 1 => seq_magic(256, 70_000).boxed(), 1 => seq_runs(100_000).boxed()].boxed() } else { byte_seq(90).boxed() };
    let threads = prop_oneof![6 => 1u16..20, 3 => 1u16..100, 1 => 100u16..300, 2 => magic(300).prop_map(|n| n as u16)];
    (seq, any::<u16>(), threads, prop_oneof![12 => 0u8..6, 1 => 6u8..10]).prop_map(|(seq, cut, threads, rel)| CountCase { seq, cut, threads, rel })
}
/// Everything observable about byte counts, against a model map of non-zero weights.
pub fn check_bw(what: &str, bw: &ByteWeights, want: &BTreeMap<u8, usize>) -> Result<(), Fail> {
    for b in 0..=255u8 {
        ensure!(bw.get(&b) == want.get(&b), "{what}: weight of byte {b} is {:?}, expected {:?}", bw.get(&b), want.get(&b));
        ensure!(Weights::get(bw, &b) == want.get(&b), "{what}: trait lookup of byte {b} differs");
    }
    let mut c = *bw;
    for b in 0..=255u8 {
        ensure!(c.get_mut(&b).copied() == want.get(&b).copied(), "{what}: mutable lookup of byte {b} is {:?}, expected {:?}", c.get_mut(&b), want.get(&b));
        ensure!(Weights::get_mut(&mut c, &b).copied() == want.get(&b).copied(), "{what}: mutable trait lookup of byte {b} differs");
    }
    ensure!(bw.len() == want.len() && Weights::len(bw) == want.len(), "{what}: length is {}, {} bytes have a weight", bw.len(), want.len());
    ensure!(bw.is_empty() == want.is_empty() && Weights::is_empty(bw) == want.is_empty(), "{what}: is_empty is {}", bw.is_empty());
    let mut exp: Vec<(u8, usize)> = want.iter().map(|(b, w)| (*b, *w)).collect();
    exp.sort();
    let drain = |it: &mut dyn Iterator<Item = (u8, usize)>| -> Vec<(u8, usize)> {
        let mut v = vec![];
        while let Some(x) = it.next() { v.push(x); if v.len() > 600 { break } }
        for _ in 0..3 { if let Some(x) = it.next() { v.push(x) } }
        v
    };
    for (name, mut got) in [("iter", drain(&mut bw.iter())), ("into_iter by reference", drain(&mut bw.into_iter())), ("into_iter by value", drain(&mut (*bw).into_iter()))] {
        got.sort();
        if got != exp {
            let d = got.iter().find(|x| !exp.contains(x)).or_else(|| exp.iter().find(|x| !got.contains(x))).or_else(|| got.windows(2).find(|w| w[0] == w[1]).map(|w| &w[0]));
            return bad(format!("{what}: {name} yields {} entries for {} bytes with a weight (e.g. {:?})", got.len(), exp.len(), d));
        }
    }
    Ok(())
}
/// The other ways of going through the entries.
fn check_bw_iters(what: &str, bw: &ByteWeights, want: &BTreeMap<u8, usize>) -> Result<(), Fail> {
    let exp: Vec<(u8, usize)> = want.iter().map(|(b, w)| (*b, *w)).collect();
    let n = exp.len();
    macro_rules! others { ($name:expr, $mk:expr) => {
        let all: Vec<(u8, usize)> = $mk.take(600).collect();
        ensure!($mk.count() == n, "{what}: {} counts {} entries, there are {n}", $name, $mk.count());
        ensure!($mk.last() == all.last().copied(), "{what}: last of {} differs", $name);
        for k in [0, 1, n / 2, n.saturating_sub(1), n, 255, 256] { ensure!($mk.nth(k) == all.get(k).copied(), "{what}: nth({k}) of {} is {:?}, not {:?}", $name, $mk.nth(k), all.get(k)); }
        let mut it = $mk;
        for left in (0..=n).rev() {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= left && hi.is_none_or(|h| left <= h), "{what}: {} announces {lo} to {hi:?} entries, there are {left} left", $name);
            it.next();
        }
        let sum = $mk.fold(0u128, |a, (b, w)| a + w as u128 * (b as u128 + 1));
        ensure!(sum == exp.iter().map(|(b, w)| *w as u128 * (*b as u128 + 1)).sum::<u128>(), "{what}: folding {} gives another sum", $name);
    } }
    others!("iter", bw.iter());
    others!("into_iter", (*bw).into_iter());
    Ok(())
}
fn model_of(b: &[u8]) -> BTreeMap<u8, usize> {
    let mut m = BTreeMap::new();
    for x in b { *m.entry(*x).or_insert(0) += 1; }
    m
}
fn c10_bytes(_: &Ctx, case: &CountCase) -> Check {
    let all: Vec<u8> = expand_seq(&case.seq);
    let n = (case.cut as usize) % (all.len() + 1);
    let b = if case.rel == 5 { &all[..n] } else { &all[..] };
    let threads = match case.rel { 0 => b.len().max(1).min(300), 1 => (b.len() + 1).min(300), 2 => b.len().saturating_sub(1).clamp(1, 300), 3 => (b.len() / 2).clamp(1, 300),
        // far more threads than bytes (one thread is made then), also more than memory has room for
        6 => b.len() + 100_000 + case.threads as usize, 7 => (1 << 60) + case.threads as usize, 8 => usize::MAX, 9 => usize::MAX - case.threads as usize, _ => case.threads as usize };
    let want = model_of(b);
    let single = no_panic("from_bytes", || ByteWeights::from_bytes(b))?;
    check_bw("from_bytes", &single, &want)?;
    check_bw_iters("from_bytes", &single, &want)?;
    let multi = no_panic("threaded_from_bytes", || ByteWeights::threaded_from_bytes(b, threads))?;
    check_bw(&format!("threaded_from_bytes({threads})"), &multi, &want)?;
    ensure!(single == multi, "single-threaded and threaded counts compare unequal");
    let m = build_weights_map(b);
    ensure!(m.len() == want.len() && want.iter().all(|(b, w)| m.get(b) == Some(w)), "generic count differs from the byte count");
    Ok(Info::new(want.len() >= 2 && threads >= 2).label_if(b.is_empty(), "empty slice")
        .label(if threads > 90_000 { "far more threads than bytes" } else if b.len() < threads { "fewer bytes than threads" } else if b.len() % threads == 0 { "threads divide the length" } else { "remainder" })
        .label_if(want.contains_key(&0) && !want.contains_key(&255), "byte 0 present, 255 absent").label_if(want.len() == 256, "all 256 bytes"))
}

/// More occurrences than 32 bits can hold. The bytes are zeros that are never written to, so
/// counting them takes no memory.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyCase { zeros: u64, tail: Vec<u8>, threads: Option<u8> }
fn c10_many(ctx: &Ctx, case: &ManyCase) -> Check {
    if case.threads.is_some() && ctx.tier == Tier::Quick { return Ok(Info::new(false).label("left to the thorough tier")); }
    let mut v = vec![0u8; case.zeros as usize + case.tail.len()];
    let n = v.len();
    v[n - case.tail.len()..].copy_from_slice(&case.tail);
    let mut want = model_of(&case.tail);
    *want.entry(0).or_insert(0) += case.zeros as usize;
    let bw = match case.threads {
        None => no_panic("from_bytes", || ByteWeights::from_bytes(&v))?,
        Some(t) => no_panic("threaded_from_bytes", || ByteWeights::threaded_from_bytes(&v, t as usize))?,
    };
    check_bw(&format!("{n} bytes"), &bw, &want)?;
    Ok(Info::new(true).label(if case.threads.is_some() { "threaded" } else { "one thread" }))
}

// ------------------------------------------------------------------ C11
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BwOp {
    New(u8), Default(u8), From(u8, Vec<u8>), Threaded(u8, Vec<u8>, u8),
    AddAssign(u8, u8), AddMethod(u8, u8), AddOp(u8, u8, u8), Copy(u8, u8),
    Set { slot: u8, pick: u8, w: u64, via_trait: bool }, SetAbsent { slot: u8, byte: u8 },
    Full(u8),
}
fn few_bytes() -> impl Strategy<Value = Vec<u8>> {
    prop::collection::vec(byte_alphabet().prop_map(|b| b as u8), 0..30)
}
fn bw_ops() -> impl Strategy<Value = Vec<BwOp>> {
    let s = 0u8..4;
    let op = prop_oneof![
        1 => s.clone().prop_map(BwOp::New), 1 => s.clone().prop_map(BwOp::Default),
        5 => (s.clone(), few_bytes()).prop_map(|(a, b)| BwOp::From(a, b)),
        2 => (s.clone(), few_bytes(), 1u8..14).prop_map(|(a, b, t)| BwOp::Threaded(a, b, t)),
        3 => (s.clone(), s.clone()).prop_map(|(a, b)| BwOp::AddAssign(a, b)),
        3 => (s.clone(), s.clone()).prop_map(|(a, b)| BwOp::AddMethod(a, b)),
        3 => (s.clone(), s.clone(), s.clone()).prop_map(|(a, b, c)| BwOp::AddOp(a, b, c)),
        2 => (s.clone(), s.clone()).prop_map(|(a, b)| BwOp::Copy(a, b)),
        5 => (s.clone(), any::<u8>(), prop_oneof![3 => Just(0u64), 3 => 1u64..10, 1 => any::<u64>().prop_map(|x| x >> 12), 1 => magic(u64::MAX), 1 => any::<u32>().prop_map(|x| x as u64 + (1 << 31))], any::<bool>()).prop_map(|(slot, pick, w, via_trait)| BwOp::Set { slot, pick, w, via_trait }),
        1 => (s.clone(), any::<u8>()).prop_map(|(slot, byte)| BwOp::SetAbsent { slot, byte }),
        1 => s.prop_map(BwOp::Full),
    ];
    prop::collection::vec(op, 1..25)
}
fn c11(_: &Ctx, ops: &Vec<BwOp>) -> Check {
    let mut real = [ByteWeights::new(); 4];
    let mut model: [BTreeMap<u8, usize>; 4] = Default::default();
    let mut adds = 0;
    let mut zeroed = 0;
    let mut skipped = 0;
    let merge = |a: &BTreeMap<u8, usize>, b: &BTreeMap<u8, usize>| -> Option<BTreeMap<u8, usize>> {
        let mut r = a.clone();
        for (k, v) in b { let e = r.entry(*k).or_insert(0); *e = e.checked_add(*v)?; }
        Some(r)
    };
    for (i, op) in ops.iter().enumerate() {
        let what = format!("after step {i} {op:?}");
        match op {
            BwOp::New(a) => { real[*a as usize] = ByteWeights::new(); model[*a as usize].clear(); }
            BwOp::Default(a) => { real[*a as usize] = ByteWeights::default(); model[*a as usize].clear(); }
            BwOp::From(a, b) => { real[*a as usize] = ByteWeights::from_bytes(b); model[*a as usize] = model_of(b); }
            BwOp::Full(a) => { let b: Vec<u8> = (0..=255).collect(); real[*a as usize] = ByteWeights::from_bytes(&b); model[*a as usize] = model_of(&b); }
            BwOp::Threaded(a, b, t) => { real[*a as usize] = no_panic(&what, || ByteWeights::threaded_from_bytes(b, *t as usize))?; model[*a as usize] = model_of(b); }
            BwOp::AddAssign(a, b) | BwOp::AddMethod(a, b) => {
                let (a, b) = (*a as usize, *b as usize);
                match merge(&model[a], &model[b]) {
                    None => { skipped += 1; continue }
                    Some(m) => {
                        let other = real[b];
                        let mut x = real[a];
                        no_panic(&what, || if matches!(op, BwOp::AddAssign(..)) { x += other } else { x.add_byte_weights(&other) })?;
                        real[a] = x;
                        model[a] = m;
                        adds += 1;
                    }
                }
            }
            BwOp::AddOp(a, b, c) => {
                let (a, b, c) = (*a as usize, *b as usize, *c as usize);
                match merge(&model[b], &model[c]) {
                    None => { skipped += 1; continue }
                    Some(m) => { real[a] = no_panic(&what, || real[b] + real[c])?; model[a] = m; adds += 1; }
                }
            }
            BwOp::Copy(a, b) => {
                #[allow(clippy::clone_on_copy)]
                { let from = real[*b as usize].clone(); if (a + b) % 2 == 0 { real[*a as usize] = from } else { real[*a as usize].clone_from(&from) } }
                model[*a as usize] = model[*b as usize].clone();
            }
            BwOp::Set { slot, pick, w, via_trait } => {
                let s = *slot as usize;
                let keys: Vec<u8> = model[s].keys().copied().collect();
                if keys.is_empty() { continue }
                let k = keys[*pick as usize % keys.len()];
                let r = if *via_trait { Weights::get_mut(&mut real[s], &k) } else { real[s].get_mut(&k) };
                match r { Some(x) => *x = *w as usize, None => return bad(format!("{what}: byte {k} has weight {} but cannot be changed", model[s][&k])) }
                if *w == 0 { model[s].remove(&k); zeroed += 1; } else { model[s].insert(k, *w as usize); }
            }
            BwOp::SetAbsent { slot, byte } => {
                let s = *slot as usize;
                if !model[s].contains_key(byte) {
                    ensure!(real[s].get_mut(byte).is_none(), "{what}: byte {byte} is absent but can be changed");
                }
            }
        }
        for s in 0..4 { check_bw(&format!("{what}, value {s}"), &real[s], &model[s])?; }
        for a in 0..4 { for b in 0..4 {
            ensure!((real[a] == real[b]) == (model[a] == model[b]), "{what}: values {a} and {b} compare {}", if real[a] == real[b] { "equal, their weights differ" } else { "unequal, their weights are the same" });
            ensure!((real[a] != real[b]) == (model[a] != model[b]), "{what}: != of values {a} and {b} is {}", real[a] != real[b]);
        } }
    }
    for s in 0..4 { check_bw_iters(&format!("in the end, value {s}"), &real[s], &model[s])?; }
    Ok(Info::new(adds > 0).label_if(adds > 0, "has additions").label_if(zeroed > 0, "a weight set to 0").label_if(adds > 0 && zeroed > 0, "additions and zeroing").label_if(skipped > 0, "skipped an overflowing sum"))
}

// ------------------------------------------------------------------ C12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LetterCase { kind: Kind, raw: u128, slice: Vec<u8> }
fn c12(_: &Ctx, case: &LetterCase) -> Check {
    fn one<L: LtInt>(raw: u128) -> Result<(), Fail> {
        let l = L::from_raw(raw);
        let b = no_panic("as_be_bytes", || l.as_be_bytes())?;
        let want: Vec<u8> = (0..L::W / 8).rev().map(|k| (l.raw() >> (8 * k)) as u8).collect();
        ensure!(*b == want[..], "{l:?} is written as {:02x?}, big-endian is {:02x?}", b, want);
        match no_panic("try_from_be_bytes", || L::try_from_be_bytes(&want))? {
            Ok(x) => ensure!(x == l, "{want:02x?} reads back as {x:?}, expected {l:?}"),
            Err(e) => return bad(format!("{want:02x?} refused: {e}")),
        }
        Ok(())
    }
    fn go<L: LtInt>(case: &LetterCase) -> Check {
        one::<L>(case.raw)?;
        // around the value and around the type's ends
        for d in [0u128, 1, 2, u128::MAX] { one::<L>(case.raw.wrapping_add(d))?; one::<L>(d)?; one::<L>((1u128 << (L::W - 1)).wrapping_add(d))?; }
        let got = no_panic("try_from_be_bytes", || L::try_from_be_bytes(&case.slice))?;
        match got {
            Ok(x) => {
                ensure!(case.slice.len() == L::W / 8, "a slice of {} bytes was accepted for a type of {}", case.slice.len(), L::W / 8);
                let v = case.slice.iter().fold(0u128, |a, b| (a << 8) | *b as u128);
                ensure!(x.raw() == v, "{:02x?} reads as {x:?}", case.slice);
            }
            Err(_) => ensure!(case.slice.len() != L::W / 8, "a slice of the right length {} was refused", case.slice.len()),
        }
        Ok(Info::new(true).label(format!("kind:{:?}", case.kind)).label(if case.slice.len() == L::W / 8 { "slice of the right length" } else { "slice of a wrong length" }))
    }
    with_int!(case.kind, L => go::<L>(case))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exhaustive { kind: Kind, block: u16 }
/// all values of the 8- and 16-bit types, in blocks
fn c12_all(_: &Ctx, case: &Exhaustive) -> Check {
    fn go<L: LtInt>(block: u16) -> Check {
        for low in 0..256u128 {
            let raw = ((block as u128) << 8) | low;
            if L::W == 8 && block > 0 { break }
            let l = L::from_raw(raw);
            let b = no_panic("as_be_bytes", || l.as_be_bytes())?;
            let want: Vec<u8> = if L::W == 8 { vec![low as u8] } else { vec![block as u8, low as u8] };
            ensure!(*b == want[..], "{l:?} is written as {:02x?}", b);
            match L::try_from_be_bytes(&want) { Ok(x) => ensure!(x == l, "{want:02x?} reads back as {x:?}"), Err(e) => return bad(format!("{want:02x?} refused: {e}")) }
        }
        Ok(Info::new(true).label("block of 256 values"))
    }
    with_int!(case.kind, L => go::<L>(case.block))
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node { Leaf(Option<u16>, u64), Joint(Option<u16>, u64, Box<Node>, Box<Node>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BrOp { SetChildren(Vec<bool>, Option<(Node, Node)>), SetCode(Vec<bool>, Vec<bool>), CloneAway(Vec<bool>), Replace(Vec<bool>, Node), Swap(Vec<bool>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BrCase { start: Node, ops: Vec<BrOp>, in_tree: bool }
fn node() -> impl Strategy<Value = Node> {
    let w = prop_oneof![3 => 0u64..4, 1 => any::<u64>(), 1 => Just(u64::MAX)];
    let leaf = (prop::option::weighted(0.7, any::<u16>()), w.clone()).prop_map(|(l, w)| Node::Leaf(l, w));
    leaf.prop_recursive(4, 16, 2, move |inner| (prop::option::weighted(0.2, any::<u16>()), w.clone(), inner.clone(), inner).prop_map(|(l, w, a, b)| Node::Joint(l, w, Box::new(a), Box::new(b))))
}
fn br_case() -> impl Strategy<Value = BrCase> {
    let path = prop::collection::vec(any::<bool>(), 0..5);
    let op = prop_oneof![
        4 => (path.clone(), prop::option::weighted(0.7, (node(), node()))).prop_map(|(p, c)| BrOp::SetChildren(p, c)),
        3 => (path.clone(), prop::collection::vec(any::<bool>(), 0..40)).prop_map(|(p, c)| BrOp::SetCode(p, c)),
        1 => path.clone().prop_map(BrOp::CloneAway),
        1 => (path.clone(), node()).prop_map(|(p, n)| BrOp::Replace(p, n)),
        1 => path.prop_map(BrOp::Swap),
    ];
    (node(), prop::collection::vec(op, 0..12), any::<bool>()).prop_map(|(start, ops, in_tree)| BrCase { start, ops, in_tree })
}
#[derive(Clone, Debug)]
struct M { letter: Option<String>, weight: usize, code: Option<Vec<bool>>, kids: Option<Box<(M, M)>> }
fn lab(l: &Option<u16>) -> Option<String> { l.map(|x| if x % 5 == 0 { String::new() } else { format!("L{x}") }) }
fn mk(n: &Node) -> (HuffBranch<String>, M) {
    match n {
        Node::Leaf(l, w) => (HuffBranch::new(HuffLeaf::new(lab(l), *w as usize), None), M { letter: lab(l), weight: *w as usize, code: None, kids: None }),
        Node::Joint(l, w, a, b) => {
            let (ra, ma) = mk(a);
            let (rb, mb) = mk(b);
            (HuffBranch::new(HuffLeaf::new(lab(l), *w as usize), Some((ra, rb))), M { letter: lab(l), weight: *w as usize, code: None, kids: Some(Box::new((ma, mb))) })
        }
    }
}
fn same_branch(at: &str, r: &mut HuffBranch<String>, m: &M) -> Result<(), Fail> {
    ensure!(r.leaf().letter() == m.letter.as_ref(), "{at}: letter {:?}, expected {:?}", r.leaf().letter(), m.letter);
    ensure!(r.leaf().weight() == m.weight, "{at}: weight {}, expected {}", r.leaf().weight(), m.weight);
    ensure!(r.leaf().code().map(to_bools) == m.code, "{at}: code {:?}, expected {:?}", r.leaf().code(), m.code);
    let has = m.kids.is_some();
    ensure!(r.has_children() == has, "{at}: has_children is {}", r.has_children());
    ensure!(r.left_child().is_some() == has && r.right_child().is_some() == has, "{at}: has one child");
    ensure!(r.left_child_mut().is_some() == has && r.right_child_mut().is_some() == has, "{at}: mutable view has other children");
    match r.children_iter() {
        None => ensure!(!has, "{at}: no iterator over existing children"),
        Some(mut it) => {
            ensure!(has, "{at}: iterator over missing children");
            let (a, b) = (it.next(), it.next());
            ensure!(it.next().is_none() && it.next().is_none(), "{at}: iterator yields more than two children");
            ensure!(a.is_some_and(|a| std::ptr::eq(a, r.left_child().unwrap())), "{at}: iterator does not start with the left child");
            ensure!(b.is_some_and(|b| std::ptr::eq(b, r.right_child().unwrap())), "{at}: iterator does not end with the right child");
            ensure!(r.children_iter().unwrap().count() == 2, "{at}: child count");
            let same = |x: Option<&HuffBranch<String>>, y: Option<&HuffBranch<String>>| match (x, y) { (Some(x), Some(y)) => std::ptr::eq(x, y), (None, None) => true, _ => false };
            let of = |k: usize| match k { 0 => r.left_child(), 1 => r.right_child(), _ => None };
            for k in 0..4 {
                ensure!(same(r.children_iter().unwrap().nth(k), of(k)), "{at}: nth({k}) of the children iterator is another");
                ensure!(same(r.children_iter().unwrap().skip(k).last(), if k < 2 { of(1) } else { None }), "{at}: last of the children from {k} on is another");
            }
            let mut it = r.children_iter().unwrap();
            for left in [2, 1, 0, 0] { let (lo, hi) = it.size_hint(); ensure!(lo <= left && hi.is_none_or(|h| left <= h), "{at}: {left} children left, {lo} to {hi:?} announced"); it.next(); }
        }
    }
    if let Some(k) = &m.kids {
        let lp = r.left_child().unwrap() as *const _;
        ensure!(std::ptr::eq(r.left_child_mut().unwrap(), lp), "{at}: mutable left child is another branch");
        let rp = r.right_child().unwrap() as *const _;
        ensure!(std::ptr::eq(r.right_child_mut().unwrap(), rp), "{at}: mutable right child is another branch");
        same_branch(&format!("{at}0"), r.left_child_mut().unwrap(), &k.0)?;
        same_branch(&format!("{at}1"), r.right_child_mut().unwrap(), &k.1)?;
    }
    Ok(())
}
fn descend<'a>(mut r: &'a mut HuffBranch<String>, mut m: &'a mut M, path: &[bool]) -> (&'a mut HuffBranch<String>, &'a mut M) {
    for p in path {
        if m.kids.is_none() { break }
        let k = m.kids.as_mut().unwrap();
        if *p { r = r.right_child_mut().expect("right"); m = &mut k.1; } else { r = r.left_child_mut().expect("left"); m = &mut k.0; }
    }
    (r, m)
}
fn c21(_: &Ctx, case: &BrCase) -> Check {
    let (mut real, mut model) = mk(&case.start);
    // a tree root is a branch like any other
    let mut tree = HuffTree::from_weights(VecWeights(vec![("x".to_string(), 1usize), ("y".to_string(), 1)]));
    if case.in_tree { *tree.root_mut() = real.clone(); }
    same_branch("start ", &mut real, &model)?;
    let mut changed = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let root = if case.in_tree { tree.root_mut() } else { &mut real };
        match op {
            BrOp::SetChildren(p, c) => {
                let (r, m) = descend(root, &mut model, p);
                match c {
                    None => { r.set_children(None); m.kids = None; }
                    Some((a, b)) => { let (ra, ma) = mk(a); let (rb, mb) = mk(b); r.set_children(Some((ra, rb))); m.kids = Some(Box::new((ma, mb))); }
                }
                changed += 1;
            }
            BrOp::SetCode(p, c) => { let (r, m) = descend(root, &mut model, p); r.set_code(from_bools(c)); m.code = Some(c.clone()); changed += 1; }
            BrOp::CloneAway(p) => {
                let (r, m) = descend(root, &mut model, p);
                let mut copy = r.clone();
                same_branch(&format!("clone at step {i} "), &mut copy, m)?;
                copy.set_code(from_bools(&[true, false, true]));
                copy.set_children(None);
            }
            BrOp::Replace(p, n) => { let (r, m) = descend(root, &mut model, p); let (rn, mn) = mk(n); *r = rn; *m = mn; changed += 1; }
            BrOp::Swap(p) => {
                let (r, m) = descend(root, &mut model, p);
                if let Some(k) = &mut m.kids {
                    let a = r.left_child().unwrap().clone();
                    let b = r.right_child().unwrap().clone();
                    r.set_children(Some((b, a)));
                    let (x, y) = &mut **k;
                    std::mem::swap(x, y);
                    changed += 1;
                }
            }
        }
        let root = if case.in_tree { tree.root_mut() } else { &mut real };
        same_branch(&format!("after step {i} "), root, &model)?;
        if case.in_tree {
            ensure!(tree.root().leaf().weight() == model.weight && tree.root().has_children() == model.kids.is_some(), "shared and mutable root differ");
        }
    }
    Ok(Info::new(changed > 0).label_if(case.in_tree, "inside a tree").label_if(model.kids.is_some(), "ends with children"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrdCase { leaves: Vec<(Option<u16>, u64, bool)> }
fn c21_ord(_: &Ctx, case: &OrdCase) -> Check {
    use std::cmp::Ordering::*;
    let ls: Vec<HuffLeaf<String>> = case.leaves.iter().enumerate().map(|(i, (l, w, c))| {
        let mut x = HuffLeaf::new(lab(l), *w as usize);
        if *c { x.set_code(from_bools(&[i % 2 == 0, true])); }
        ensure_leaf(&x, l, *w, *c, i).map(|_| x)
    }).collect::<Result<_, Fail>>()?;
    let bs: Vec<HuffBranch<String>> = ls.iter().enumerate().map(|(i, l)| {
        let kids = if i % 3 == 0 { Some((HuffBranch::new(HuffLeaf::new(Some("k".into()), i), None), HuffBranch::new(HuffLeaf::new(None, 7), None))) } else { None };
        HuffBranch::new(l.clone(), kids)
    }).collect();
    let mut eq = 0;
    for i in 0..ls.len() { for j in 0..ls.len() {
        let want = case.leaves[i].1.cmp(&case.leaves[j].1);
        if want == Equal && i != j { eq += 1 }
        compares("leaves", &ls[i], &ls[j], want, |x| x.weight())?;
        compares("branches", &bs[i], &bs[j], want, |x| x.leaf().weight())?;
    } }
    Ok(Info::new(ls.len() > 1).label_if(eq > 0, "equal weights"))
}
/// Every way of comparing tells the same order.
fn compares<T: Ord + Clone>(what: &str, a: &T, b: &T, want: std::cmp::Ordering, weight: impl Fn(&T) -> usize) -> Result<(), Fail> {
    use std::cmp::Ordering::*;
    let (x, y) = (weight(a), weight(b));
    ensure!(a.cmp(b) == want && a.partial_cmp(b) == Some(want), "{what} of weight {x} and {y} compare {:?} ({:?})", a.cmp(b), a.partial_cmp(b));
    for (op, got, is) in [("==", a == b, want == Equal), ("!=", a != b, want != Equal), ("<", a < b, want == Less), ("<=", a <= b, want != Greater), (">", a > b, want == Greater), (">=", a >= b, want != Less)] {
        ensure!(got == is, "{what} of weight {x} and {y}: {op} is {got}");
    }
    ensure!(weight(std::cmp::max(a, b)) == x.max(y) && weight(std::cmp::min(a, b)) == x.min(y) && weight(&a.clone().max(b.clone())) == x.max(y) && weight(&a.clone().min(b.clone())) == x.min(y), "{what} of weight {x} and {y}: another is the larger or the smaller");
    let (lo, hi) = if x <= y { (a, b) } else { (b, a) };
    ensure!(weight(&a.clone().clamp(lo.clone(), hi.clone())) == x, "{what} of weight {x} is not between weights {x} and {y}");
    Ok(())
}
fn ensure_leaf(x: &HuffLeaf<String>, l: &Option<u16>, w: u64, c: bool, i: usize) -> Result<(), Fail> {
    ensure!(x.letter() == lab(l).as_ref() && x.weight() == w as usize, "leaf reports {:?}/{}", x.letter(), x.weight());
    ensure!(x.code().map(to_bools) == if c { Some(vec![i % 2 == 0, true]) } else { None }, "leaf reports code {:?}", x.code());
    Ok(())
}

// ------------------------------------------------------------------ C22
/// Edits of a tree through its root; positions and letters are taken modulo what is there.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EditOp {
    /// the whole tree anew
    Whole(Vec<u128>, Shape),
    /// another letter at a leaf
    Letter(u16, u128),
    /// a leaf becomes a joint branch of itself and a new letter
    Split(u16, u128, bool),
    /// a joint branch is replaced by its left or right part
    Prune(u16, bool),
    /// the children of a joint branch change places
    Swap(u16),
    /// two subtrees of different places change places
    Exchange(u16, u16),
    /// only the weights change
    Weights(u64),
    /// go on with a clone; the original must stay as it is
    Clone,
    /// go on with what compressing or reading back hands out
    Through(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditCase { kind: Kind, letters: Vec<u128>, shape: Shape, by_weights: bool, ops: Vec<EditOp>, msg: Vec<u16>, look: u8 }
fn edit_case() -> impl Strategy<Value = EditCase> {
    let ls = prop::collection::vec(raw_letter(), 1..10);
    let op = prop_oneof![
        2 => (ls.clone(), shape_strategy()).prop_map(|(l, s)| EditOp::Whole(l, s)),
        3 => (any::<u16>(), raw_letter()).prop_map(|(p, l)| EditOp::Letter(p, l)),
        3 => (any::<u16>(), raw_letter(), any::<bool>()).prop_map(|(p, l, s)| EditOp::Split(p, l, s)),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(p, s)| EditOp::Prune(p, s)),
        3 => any::<u16>().prop_map(EditOp::Swap),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| EditOp::Exchange(a, b)),
        1 => any::<u64>().prop_map(EditOp::Weights),
        1 => Just(EditOp::Clone),
        2 => (0u8..4).prop_map(EditOp::Through),
    ];
    (kind_of(&BYTED), ls, shape_strategy(), any::<bool>(), prop::collection::vec(op, 0..8), prop::collection::vec(any::<u16>(), 1..60), any::<u8>())
        .prop_map(|(kind, letters, shape, by_weights, ops, msg, look)| EditCase { kind, letters, shape, by_weights, ops, msg, look })
}
/// The model: a tree as a value.
#[derive(Clone, Debug, PartialEq)]
enum Mt { Leaf(u128), Joint(Box<Mt>, Box<Mt>) }
impl Mt {
    fn of(t: &RTree, at: usize) -> Mt { match t.nodes[at] { RNode::Leaf(v) => Mt::Leaf(v), RNode::Joint(l, r) => Mt::Joint(Box::new(Mt::of(t, l)), Box::new(Mt::of(t, r))) } }
    fn rtree(&self) -> RTree {
        fn put(m: &Mt, nodes: &mut Vec<RNode>) -> usize {
            let n = match m { Mt::Leaf(v) => RNode::Leaf(*v), Mt::Joint(l, r) => { let a = put(l, nodes); let b = put(r, nodes); RNode::Joint(a, b) } };
            nodes.push(n);
            nodes.len() - 1
        }
        let mut nodes = vec![];
        let root = put(self, &mut nodes);
        RTree { nodes, root }
    }
    /// paths of (leaves, joint branches)
    fn places(&self) -> (Vec<Vec<bool>>, Vec<Vec<bool>>) {
        fn go(m: &Mt, p: Vec<bool>, o: &mut (Vec<Vec<bool>>, Vec<Vec<bool>>)) {
            match m {
                Mt::Leaf(_) => o.0.push(p),
                Mt::Joint(l, r) => {
                    let mut a = p.clone(); a.push(false);
                    let mut b = p.clone(); b.push(true);
                    o.1.push(p);
                    go(l, a, o);
                    go(r, b, o);
                }
            }
        }
        let mut o = (vec![], vec![]);
        go(self, vec![], &mut o);
        o
    }
    fn at(&mut self, p: &[bool]) -> &mut Mt {
        let mut m = self;
        for b in p { m = match m { Mt::Joint(l, r) => if *b { &mut **r } else { &mut **l }, Mt::Leaf(_) => unreachable!() } }
        m
    }
    fn has(&self, l: u128) -> bool { match self { Mt::Leaf(v) => *v == l, Mt::Joint(a, b) => a.has(l) || b.has(l) } }
}
fn real_of<L: Lt>(m: &Mt, w: u64) -> HuffBranch<L> {
    match m {
        Mt::Leaf(v) => HuffBranch::new(HuffLeaf::new(Some(L::from_raw(*v)), w as usize), None),
        Mt::Joint(l, r) => HuffBranch::new(HuffLeaf::new(None, (w / 3) as usize), Some((real_of(l, w / 2), real_of(r, w / 5)))),
    }
}
fn real_at<'a, L: Lt>(mut r: &'a mut HuffBranch<L>, p: &[bool]) -> Result<&'a mut HuffBranch<L>, Fail> {
    for b in p {
        let n = if *b { r.right_child_mut() } else { r.left_child_mut() };
        match n { Some(n) => r = n, None => return bad(format!("no branch at {}", show(p))) }
    }
    Ok(r)
}
/// Sets every leaf's code to its path, as `root_mut` leaves it to the user.
fn recode<L: Lt>(r: &mut HuffBranch<L>, path: &mut Vec<bool>) {
    if r.has_children() {
        path.push(false);
        recode(r.left_child_mut().unwrap(), path);
        *path.last_mut().unwrap() = true;
        recode(r.right_child_mut().unwrap(), path);
        path.pop();
    } else {
        r.set_code(from_bools(if path.is_empty() { &[false] } else { &path[..] }));
    }
    if !path.is_empty() { r.set_code(from_bools(path)); }
}
fn c22(_: &Ctx, case: &EditCase) -> Check {
    fn uses<L: LtInt>(what: &str, t: &HuffTree<L>, m: &Mt, case: &EditCase, look: u8) -> Result<(), Fail> {
        let rt = m.rtree();
        if let Err(e) = same_structure(t, &rt) { return bad(format!("{what}: {e}")); }
        let codes: HashMap<u128, Vec<bool>> = rt.codes().into_iter().collect();
        // `look` decides what is looked at, so that histories differ in what ran before
        if look & 1 == 0 {
            let got = no_panic("read_codes", || codes_of(t))?;
            ensure!(got == codes, "{what}: codes reported {got:?}, leaves hold {codes:?}");
        }
        if look & 2 == 0 {
            let bits = to_bools(&no_panic("as_bin", || t.as_bin())?);
            ensure!(bits == rt.encode(L::W), "{what}: the binary form is not that of the present tree");
        }
        if look & 4 == 0 {
            let mut ls: Vec<u128> = codes.keys().copied().collect();
            ls.sort();
            let seq: Vec<L> = case.msg.iter().map(|i| L::from_raw(ls[*i as usize % ls.len()])).collect();
            let c = match no_panic("compress_with_tree", || compress_with_tree(&seq, t.clone()))? { Ok(c) => c, Err(e) => return bad(format!("{what}: {e}")) };
            let want: Vec<bool> = seq.iter().flat_map(|l| codes[&l.raw()].clone()).collect();
            let mut got = bytes_to_bits(c.comp_bytes());
            got.truncate(got.len().saturating_sub(c.padding_bits() as usize));
            ensure!(got == want, "{what}: compressed to {} bits, the codes of the letters are {} bits", got.len(), want.len());
            if let Err(e) = same_structure(c.huff_tree(), &rt) { return bad(format!("{what}: compressing handed on another tree: {e}")); }
            let d = no_panic("decompress", || decompress(&c))?;
            ensure!(d == seq, "{what}: decompressing gives {} letters, not the {} compressed", d.len(), seq.len());
        }
        if look & 8 == 0 {
            // a letter the tree does not have (any more)
            let absent = (0..).map(|i: u128| L::from_raw(i)).find(|l| !codes.contains_key(&l.raw()));
            if let (Some(l), true) = (absent, codes.len() < 256 || L::W > 8) {
                match no_panic("compress_with_tree", || compress_with_tree(&[l.clone()], t.clone()))? {
                    Ok(_) => return bad(format!("{what}: compresses {l:?}, which the tree does not have")),
                    Err(e) => ensure!(*e.missing_letter() == l, "{what}: names {:?} as missing, not {l:?}", e.missing_letter()),
                }
            }
        }
        Ok(())
    }
    fn go<L: LtInt>(case: &EditCase) -> Check {
        let start = canon::<L>(&case.letters);
        let (mut t, mut m);
        if case.by_weights {
            let e: Vec<(u128, usize)> = start.iter().enumerate().map(|(i, l)| (*l, i + 1)).collect();
            t = no_panic("from_weights", || tree_from::<L>(&e, Via::Map))?;
            let bits = to_bools(&t.as_bin());
            let Ok(rt) = RTree::parse(&bits, L::W) else { return bad("the tree's binary form is not readable") };
            m = Mt::of(&rt, rt.root);
        } else {
            let rt = build_shape(&start, &case.shape);
            t = match no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(from_bools(&rt.encode(L::W))))? { Ok(t) => t, Err(e) => return bad(format!("{e}")) };
            m = Mt::of(&rt, rt.root);
        }
        let mut looks = case.look as u64 + 1;
        uses("before any edit", &t, &m, case, case.look)?;
        let mut edits = 0;
        for (i, op) in case.ops.iter().enumerate() {
            let (leaves, joints) = m.places();
            let what = format!("after step {i} ({})", format!("{op:?}").split(['(', ' ']).next().unwrap());
            match op {
                EditOp::Whole(ls, sh) => {
                    let rt = build_shape(&canon::<L>(ls), sh);
                    m = Mt::of(&rt, rt.root);
                    *t.root_mut() = real_of(&m, 77);
                    edits += 1;
                }
                EditOp::Letter(p, l) => {
                    let l = L::from_raw(*l).raw();
                    if !m.has(l) {
                        let p = &leaves[*p as usize % leaves.len()];
                        *m.at(p) = Mt::Leaf(l);
                        *real_at(t.root_mut(), p)? = real_of(&Mt::Leaf(l), 3);
                        edits += 1;
                    }
                }
                EditOp::Split(p, l, new_left) => {
                    let l = L::from_raw(*l).raw();
                    if !m.has(l) {
                        let p = &leaves[*p as usize % leaves.len()];
                        let old = m.at(p).clone();
                        let (a, b) = if *new_left { (Mt::Leaf(l), old) } else { (old, Mt::Leaf(l)) };
                        let j = Mt::Joint(Box::new(a), Box::new(b));
                        *real_at(t.root_mut(), p)? = real_of(&j, 9);
                        *m.at(p) = j;
                        edits += 1;
                    }
                }
                EditOp::Prune(p, right) => if !joints.is_empty() {
                    let p = &joints[*p as usize % joints.len()];
                    let Mt::Joint(a, b) = m.at(p).clone() else { unreachable!() };
                    *m.at(p) = if *right { *b } else { *a };
                    let r = real_at(t.root_mut(), p)?;
                    let keep = if *right { r.right_child().unwrap().clone() } else { r.left_child().unwrap().clone() };
                    *r = keep;
                    edits += 1;
                },
                EditOp::Swap(p) => if !joints.is_empty() {
                    let p = &joints[*p as usize % joints.len()];
                    let Mt::Joint(a, b) = m.at(p).clone() else { unreachable!() };
                    *m.at(p) = Mt::Joint(b, a);
                    let r = real_at(t.root_mut(), p)?;
                    let (a, b) = (r.left_child().unwrap().clone(), r.right_child().unwrap().clone());
                    r.set_children(Some((b, a)));
                    edits += 1;
                },
                EditOp::Exchange(x, y) => {
                    let all: Vec<&Vec<bool>> = leaves.iter().chain(&joints).collect();
                    let (x, y) = (all[*x as usize % all.len()], all[*y as usize % all.len()]);
                    if !x.starts_with(y) && !y.starts_with(x) {
                        let (a, b) = (m.at(x).clone(), m.at(y).clone());
                        *m.at(x) = b;
                        *m.at(y) = a;
                        let a = real_at(t.root_mut(), x)?.clone();
                        let b = std::mem::replace(real_at(t.root_mut(), y)?, a);
                        *real_at(t.root_mut(), x)? = b;
                        edits += 1;
                    }
                }
                EditOp::Weights(w) => { *t.root_mut() = real_of(&m, *w); edits += 1; }
                EditOp::Clone => {
                    let mut copy = t.clone();
                    // what is done to the original is not the clone's business
                    *t.root_mut() = real_of(&Mt::Leaf(0), 1);
                    recode(t.root_mut(), &mut vec![]);
                    uses(&format!("the original {what}"), &t, &Mt::Leaf(0), case, 0)?;
                    std::mem::swap(&mut copy, &mut t);
                }
                EditOp::Through(how) => {
                    let seq = [L::from_raw(rt_first(&m))];
                    let c = match no_panic("compress_with_tree", || compress_with_tree(&seq, t.clone()))? { Ok(c) => c, Err(e) => return bad(format!("{what}: {e}")) };
                    t = match how {
                        0 => c.into_inner().2,
                        1 => c.huff_tree().clone(),
                        2 => match no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(&c.to_bytes()))? { Ok(c) => c.into_inner().2, Err(e) => return bad(format!("{what}: {e}")) },
                        _ => match no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(t.as_bin()))? { Ok(t) => t, Err(e) => return bad(format!("{what}: {e}")) },
                    };
                }
            }
            recode(t.root_mut(), &mut vec![]);
            uses(&what, &t, &m, case, splitmix(&mut looks) as u8)?;
        }
        uses("at the end", &t, &m, case, 0)?;
        Ok(Info::new(edits > 0).label(format!("kind:{:?}", case.kind)).label(format!("edits:{edits}")).label_if(case.by_weights, "from weights").label_if(matches!(m, Mt::Leaf(_)), "ends as a lone letter"))
    }
    with_int!(case.kind, L => go::<L>(case))
}
fn rt_first(m: &Mt) -> u128 { match m { Mt::Leaf(v) => *v, Mt::Joint(l, _) => rt_first(l) } }

// ------------------------------------------------------------------ C23
/// How the letters of a job come from those of the one before it: related contents are what
/// state kept between calls would mix up.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Related { Same, Fresh(Vec<u16>), Reorder(u64), Change(u16, u16), Truncate(u16), Extend(Vec<u16>), Shift(u16), Double }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IndepCase { kind: Kind, first: Vec<u16>, spread: bool, jobs: Vec<Related>, scale: u16, steps: Vec<(u8, u8, u16)>, own_bufs: bool, threads: u8 }
fn indep_case() -> impl Strategy<Value = IndepCase> {
    let l = prop_oneof![3 => 0u16..6, 2 => 0u16..40, 1 => any::<u16>()];
    let rel = prop_oneof![
        1 => Just(Related::Same),
        1 => prop::collection::vec(l.clone(), 1..40).prop_map(Related::Fresh),
        2 => any::<u64>().prop_map(Related::Reorder),
        2 => (any::<u16>(), l.clone()).prop_map(|(p, x)| Related::Change(p, x)),
        1 => any::<u16>().prop_map(Related::Truncate),
        1 => prop::collection::vec(l.clone(), 1..8).prop_map(Related::Extend),
        2 => (1u16..300).prop_map(Related::Shift),
        1 => Just(Related::Double),
    ];
    // most cases are small; some have their letters repeated, up to some ten thousand
    let scale = prop_oneof![120 => Just(1u16), 2 => 2u16..50, 1 => magic(600).prop_map(|n| n as u16)];
    (kind_of(&BYTED), prop::collection::vec(l, 1..60), any::<bool>(), prop::collection::vec(rel, 1..5), scale, prop::collection::vec((0u8..5, 0u8..13, any::<u16>()), 4..40), prop::bool::weighted(0.3), prop_oneof![3 => Just(1u8), 1 => 2u8..9])
        .prop_map(|(kind, first, spread, jobs, scale, steps, own_bufs, threads)| IndepCase { kind, first, spread, jobs, scale, steps, own_bufs, threads })
}
fn job_letters(case: &IndepCase) -> Vec<Vec<u16>> {
    let mut v = vec![case.first.clone()];
    for r in &case.jobs {
        let mut l = v.last().unwrap().clone();
        match r {
            Related::Same => {}
            Related::Fresh(x) => l = x.clone(),
            Related::Reorder(s) => { let mut s = *s | 1; for i in (1..l.len()).rev() { l.swap(i, splitmix(&mut s) as usize % (i + 1)); } }
            Related::Change(p, x) => { let i = *p as usize % l.len(); l[i] = *x; }
            Related::Truncate(k) => l.truncate(1 + *k as usize % l.len()),
            Related::Extend(x) => l.extend(x),
            Related::Shift(k) => for x in &mut l { *x = x.wrapping_add(*k) },
            Related::Double => if l.len() < 2000 { l.extend(l.clone()) },
        }
        v.push(l);
    }
    for l in &mut v { let n = (l.len() * case.scale as usize).min(15_000.max(l.len())); let m = l.len(); for i in m..n { l.push(l[i % m]); } }
    v
}
struct Job<L: Lt> { letters: Vec<L>, tree: Option<(HuffTree<L>, RTree)>, data: Option<(CompressData<L>, Vec<bool>, RTree)>, bytes: Option<Vec<u8>> }
fn code_map(rt: &RTree) -> HashMap<u128, Vec<bool>> { rt.codes().into_iter().collect() }
/// The tree as it is, checked to be an optimal one for the letters.
fn fits<L: LtInt>(what: &str, t: &HuffTree<L>, letters: &[L]) -> Result<RTree, Fail> {
    let bits = to_bools(&no_panic("as_bin", || t.as_bin())?);
    let Ok(rt) = RTree::parse(&bits, L::W) else { return bad(format!("{what}: the tree's binary form is not readable")) };
    if let Err(m) = same_structure(t, &rt) { return bad(format!("{what}: tree and binary form differ: {m}")); }
    let mut count: HashMap<u128, u128> = HashMap::new();
    for l in letters { *count.entry(l.raw()).or_default() += 1; }
    let codes = code_map(&rt);
    ensure!(codes.len() == rt.codes().len() && codes.len() == count.len() && codes.keys().all(|k| count.contains_key(k)), "{what}: the tree's letters are not those of the data");
    let cost: u128 = codes.iter().map(|(l, c)| count[l] * c.len() as u128).sum();
    let ws: Vec<u128> = count.values().copied().collect();
    ensure!(cost == optimal_cost(&ws), "{what}: {cost} bits with the tree, {} with the best one", optimal_cost(&ws));
    Ok(rt)
}
fn data_bits<L: Lt>(c: &CompressData<L>) -> Vec<bool> {
    let mut b = bytes_to_bits(c.comp_bytes());
    b.truncate(b.len().saturating_sub(c.padding_bits() as usize));
    b
}
fn indep_step<L: LtInt>(job: &mut Job<L>, other: Option<(HuffTree<L>, RTree)>, op: u8, x: usize, buf: &mut Vec<L>, what: &str) -> Result<bool, Fail> {
    buf.clear();
    buf.extend_from_slice(&job.letters);
    let spelled = |rt: &RTree| -> Vec<bool> { let m = code_map(rt); job.letters.iter().flat_map(|l| m[&l.raw()].clone()).collect() };
    match op {
        0 => {
            let mut want: HashMap<u128, usize> = HashMap::new();
            for l in &job.letters { *want.entry(l.raw()).or_default() += 1; }
            let got = no_panic("build_weights_map", || build_weights_map(buf))?;
            ensure!(got.len() == want.len() && got.iter().all(|(l, n)| want.get(&l.raw()) == Some(n)), "{what}: counts differ");
            let bytes: Vec<u8> = job.letters.iter().map(|l| l.raw() as u8).collect();
            check_bw(what, &no_panic("from_bytes", || ByteWeights::from_bytes(&bytes))?, &model_of(&bytes))?;
            check_bw(what, &no_panic("threaded_from_bytes", || ByteWeights::threaded_from_bytes(&bytes, [1, 2, 3, 2, 1, 4, 3, 8, 2, 11][x % 10]))?, &model_of(&bytes))?;
        }
        1 => {
            let t = no_panic("from_weights", || HuffTree::from_weights(build_weights_map(buf)))?;
            let rt = fits(what, &t, &job.letters)?;
            job.tree = Some((t, rt));
        }
        2 => {
            let c = no_panic("compress", || compress(buf))?;
            let rt = fits(what, c.huff_tree(), &job.letters)?;
            let bits = spelled(&rt);
            ensure!(data_bits(&c) == bits, "{what}: the data are not the codes of the letters");
            job.data = Some((c, bits, rt));
            job.bytes = None;
        }
        3 => {
            let Some((t, rt)) = &job.tree else { return Ok(false) };
            let c = compressed(buf, Some(t.clone()))?;
            let bits = spelled(rt);
            ensure!(data_bits(&c) == bits, "{what}: the data are not the codes of the letters");
            job.data = Some((c, bits, rt.clone()));
            job.bytes = None;
        }
        4 => {
            let Some((c, bits, rt)) = &job.data else { return Ok(false) };
            let b = no_panic("to_bytes", || c.to_bytes())?;
            let Ok(k) = split_container(&b) else { return bad(format!("{what}: the byte form is not readable")) };
            ensure!(k.tree_bits() == rt.encode(L::W) && k.data_bits() == *bits, "{what}: the byte form holds other data");
            if let Some(old) = &job.bytes { ensure!(*old == b, "{what}: another byte form than before"); }
            job.bytes = Some(b);
        }
        5 => {
            let (Some(b), Some((_, bits, rt))) = (&job.bytes, &job.data) else { return Ok(false) };
            let c = match no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(b))? { Ok(c) => c, Err(e) => return bad(format!("{what}: {e}")) };
            ensure!(data_bits(&c) == *bits, "{what}: other data than were written");
            if let Err(m) = same_structure(c.huff_tree(), rt) { return bad(format!("{what}: {m}")); }
            job.data = Some((c, bits.clone(), rt.clone()));
        }
        6 => {
            let Some((c, ..)) = &job.data else { return Ok(false) };
            let d = no_panic("decompress", || decompress(c))?;
            ensure!(d == job.letters, "{what}: {}", first_diff(&job.letters, &d));
        }
        7 => {
            let Some((t, rt)) = &job.tree else { return Ok(false) };
            if let Err(m) = same_structure(t, rt) { return bad(format!("{what}: the tree has changed: {m}")); }
            ensure!(no_panic("read_codes", || codes_of(t))? == code_map(rt), "{what}: other codes than before");
            ensure!(to_bools(&no_panic("as_bin", || t.as_bin())?) == rt.encode(L::W), "{what}: another binary form than before");
        }
        8 => {
            let Some((_, rt)) = &job.tree else { return Ok(false) };
            let rt = rt.clone();
            job.tree = Some((reader::<L>(&rt.encode(L::W))?, rt));
        }
        9 => {
            let Some((t, rt)) = job.tree.take() else { return Ok(false) };
            let copy = t.clone();
            drop(t);
            job.tree = Some((copy, rt));
        }
        // calls that fail must leave nothing behind for those that follow
        11 => {
            let mut any = false;
            if let Some((_, rt)) = &job.tree {
                let mut bits = rt.encode(L::W);
                let n = bits.len();
                match x % 3 {
                    0 => bits.truncate(n - 1 - x % L::W.min(n)),
                    1 => bits.truncate(x % n),
                    _ => bits.extend([x & 8 == 0, x & 16 == 0].iter().take(1 + x / 7 % 2)),
                }
                let r = no_panic("try_from_bin", || HuffTree::<L>::try_from_bin(from_bools(&bits)))?;
                ensure!(r.is_err(), "{what}: {} bits are taken for the tree's {n}", bits.len());
                any = true;
            }
            if let Some(b) = &job.bytes {
                let n = 5 + u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
                let r = no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(&b[..x % n]))?;
                ensure!(r.is_err(), "{what}: {} of the {n} bytes up to the data are accepted", x % n);
                any = true;
            }
            return Ok(any);
        }
        // and so must calls that are documented to panic
        12 => {
            use std::panic::{catch_unwind, AssertUnwindSafe};
            let _ = match x % 3 {
                0 => catch_unwind(|| { let e: [L; 0] = []; compress(&e); }),
                1 => catch_unwind(|| { HuffTree::from_weights(HashMap::<L, usize>::new()); }),
                _ => { let Some((t, _)) = &job.tree else { return Ok(false) }; let t = t.clone(); catch_unwind(AssertUnwindSafe(move || { CompressData::new(vec![], 9, t); })) }
            };
        }
        _ => {
            let Some((t, rt)) = other else { return Ok(false) };
            let m = code_map(&rt);
            let missing = job.letters.iter().find(|l| !m.contains_key(&l.raw()));
            match (no_panic("compress_with_tree", || compress_with_tree(buf, t))?, missing) {
                (Ok(c), None) => {
                    ensure!(data_bits(&c) == spelled(&rt), "{what}: with another job's tree: the data are not the codes of the letters");
                    let d = no_panic("decompress", || decompress(&c))?;
                    ensure!(d == job.letters, "{what}: with another job's tree: {}", first_diff(&job.letters, &d));
                }
                (Err(e), Some(l)) => ensure!(e.missing_letter() == l, "{what}: {:?} reported missing, not {l:?}", e.missing_letter()),
                (Ok(_), Some(l)) => return bad(format!("{what}: compressed {l:?}, which the tree lacks")),
                (Err(e), None) => return bad(format!("{what}: {e}")),
            }
        }
    }
    Ok(true)
}
const STEPS: [&str; 13] = ["count", "build a tree", "compress", "compress with the tree", "to bytes", "from bytes", "decompress", "look at the tree", "tree from bits", "clone the tree", "compress with another's tree", "read what is cut or extended", "a call that may panic"];
thread_local! { static ROUND: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
fn c23(_: &Ctx, case: &IndepCase) -> Check {
    fn go<L: LtInt>(case: &IndepCase) -> Check {
        let ls: Vec<Vec<L>> = job_letters(case).iter().map(|l| l.iter().map(|x| {
            let r = *x as u128 + ROUND.with(|r| r.get()) as u128;
            // spread: the letters differ in their high parts as well
            L::from_raw(if case.spread { (r << 64) ^ (r << 113) ^ (r << 24) ^ r } else { r })
        }).collect()).collect();
        let fresh = |l: &Vec<L>| Job::<L> { letters: l.clone(), tree: None, data: None, bytes: None };
        let cap = ls.iter().map(|l| l.len()).max().unwrap();
        let name = |i: usize, j: usize, op: u8| format!("step {i}, job {j}, {}", STEPS[op as usize]);
        // one after another, interleaved, in one buffer or in several
        let mut jobs: Vec<Job<L>> = ls.iter().map(fresh).collect();
        let mut bufs: Vec<Vec<L>> = if case.own_bufs { jobs.iter().map(|_| Vec::with_capacity(cap)).collect() } else { vec![Vec::with_capacity(cap)] };
        let mut done = 0;
        let mut touched = HashSet::new();
        for (i, (j, op, x)) in case.steps.iter().enumerate() {
            let j = *j as usize % jobs.len();
            let k = (j + 1 + i) % jobs.len();
            let other = jobs[k].tree.as_ref().map(|(t, r)| (t.clone(), r.clone()));
            let b = j % bufs.len();
            if indep_step(&mut jobs[j], other, *op, *x as usize, &mut bufs[b], &name(i, j, *op))? { done += 1; touched.insert(j); }
        }
        // and at once, each job in a thread of its own
        if case.threads > 1 {
            let rs: Vec<Result<(), Fail>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..case.threads as usize).map(|w| {
                    let (ls, steps) = (&ls, &case.steps);
                    sc.spawn(move || -> Result<(), Fail> {
                        let mut job = Job::<L> { letters: ls[w % ls.len()].clone(), tree: None, data: None, bytes: None };
                        let mut buf = vec![];
                        for (i, (_, op, x)) in steps.iter().enumerate() {
                            indep_step(&mut job, None, *op, *x as usize, &mut buf, &format!("in parallel: step {i}, {}", STEPS[*op as usize]))?;
                        }
                        Ok(())
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("panic in a thread"))).collect()
            });
            for r in rs { r?; }
        }
        Ok(Info::new(touched.len() > 1 && done > 3).label(format!("kind:{:?}", case.kind)).label_if(case.threads > 1, "threads").label_if(ls.iter().any(|l| l.len() > 1000), "letters:>1000").label_if(case.steps.iter().any(|s| s.1 == 11), "failed reads between").label(if case.own_bufs { "own buffers" } else { "one buffer" }))
    }
    with_int!(case.kind, L => go::<L>(case))
}

// ------------------------------------------------------------------ C24
const PER_BYTE: usize = 1024;
const CONST: usize = 256 << 10;
fn bounded<T>(what: &str, n: usize, f: impl FnOnce() -> T) -> Result<(T, usize), Fail> {
    let (r, peak) = crate::mem::peak(|| no_panic(what, f));
    let r = r?;
    ensure!(peak <= CONST + PER_BYTE * n, "{what} of {n} bytes allocates {peak} bytes at a time");
    Ok((r, if n > 64 { peak / n } else { 0 }))
}
fn larger_case() -> impl Strategy<Value = BytesCase> {
    let tree = prop_oneof![1 => Just(TreeSrc::Own).boxed(), 2 => tree_src_big(800).boxed()];
    (kind_of(&BYTED), seq_large(2..400, 200..6_000), tree, prop_oneof![2 => Just(vec![]).boxed(), 1 => byte_muts().boxed()])
        .prop_map(|(kind, seq, tree, muts)| BytesCase { kind, base: BytesBase::Real(SeqCase { kind, seq, tree }), muts })
}
fn ratio(r: usize) -> String { format!("bytes per byte:<={}", (r + 1).next_power_of_two()) }
fn c24_bits(_: &Ctx, case: &BitsCase) -> Check {
    let mut bits = base_bits(case);
    let mut kind = case.kind;
    apply_muts(&mut bits, &case.muts, |k| kind = k);
    fn go<L: LtInt>(bits: &[bool], kind: Kind) -> Check {
        let input = from_bools(bits);
        let (t, r) = bounded("try_from_bin", bits.len().div_ceil(8), move || HuffTree::<L>::try_from_bin(input))?;
        Ok(Info::new(true).label(format!("kind:{kind:?}")).label(ratio(r)).label(if t.is_ok() { "accepted" } else { "refused" }))
    }
    with_int!(kind, L => go::<L>(&bits, kind))
}
fn c24_bytes(_: &Ctx, case: &BytesCase) -> Check {
    let b = bytes_of(case)?;
    fn go<L: LtInt>(b: &[u8], case: &BytesCase) -> Check {
        let info = Info::new(true).label(format!("kind:{:?}", case.kind));
        let claims = b.len() >= 5 && u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize > 100 * b.len() + (1 << 20);
        let (c, r) = bounded("try_from_bytes", b.len(), || CompressData::<L>::try_from_bytes(b))?;
        let info = info.label(ratio(r)).label_if(claims, "claims a far longer tree");
        Ok(match c {
            Ok(c) => {
                let (_, r) = bounded("decompress", b.len(), || decompress(&c))?;
                info.label("accepted").label(format!("decompress {}", ratio(r)))
            }
            Err(_) => info.label("refused"),
        })
    }
    with_int!(case.kind, L => go::<L>(&b, case))
}

// ------------------------------------------------------------------ C29
/// Does the check (of another property), done seven times, leave memory behind each time but the
/// first few? What is made once and kept (tables, buffers of the runtime) is not counted.
fn given_back<T>(ctx: &Ctx, case: &T, check: impl Fn(&Ctx, &T) -> Check) -> Check {
    let run = || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(ctx, case))).unwrap_or_else(|_| bad("panic"));
    let mut first = None;
    let rises = crate::mem::kept(7, |i| {
        ROUND.with(|r| r.set(1000 * i as u32));
        let r = run();
        if i == 0 { first = Some(r); }
    });
    ROUND.with(|r| r.set(0));
    // what breaks another property is for that property to report
    let Some(Ok(info)) = first else { return Ok(Info::new(false).label("another property is broken")) };
    ensure!(rises[2..].iter().any(|r| *r <= 0), "once everything is dropped, more is held than before, each time: {rises:?} bytes");
    Ok(Info::new(info.nontrivial).label_if(rises.iter().all(|r| *r == 0), "not a byte kept"))
}
/// All calls, with letters that own memory as well.
fn c29_calls<L: Lt>(case: &SeqCase) -> Check {
    let letters: Vec<L> = expand_seq(&case.seq);
    let t = no_panic("from_weights", || HuffTree::from_weights(build_weights_map_with_hasher(&letters, Collide(false)).into_iter().collect::<HashMap<L, usize>>()))?;
    let mut edited = t.clone();
    edited.root_mut().set_children(None);
    let codes = no_panic("read_codes", || t.read_codes())?;
    let other = HuffTree::from_weights(letters[..1].iter().map(|l| (l.clone(), 1)).collect::<HashMap<L, usize>>());
    let refused = no_panic("compress_with_tree", || compress_with_tree(&letters, other))?;
    let c = no_panic("compress", || compress(&letters))?;
    let d = no_panic("decompress", || decompress(&c.clone()))?;
    ensure!(d == letters, "other letters");
    let (bytes, _, tree) = c.into_inner();
    drop(made(|| CompressData::new(bytes, 8, tree)));
    drop(made(|| HuffTree::from_weights(HashMap::<L, usize>::new())));
    drop(made(|| compress::<L>(&[])));
    Ok(Info::new(codes.len() > 1 && refused.is_err()))
}
/// The peak of each call, against what it is given and what it makes.
fn c29_peaks<L: Lt>(case: &SeqCase, bytes: Option<fn(&CompressData<L>) -> Result<Vec<u8>, Fail>>) -> Check {
    let letters: Vec<L> = expand_seq(&case.seq);
    // letters that own memory own at most this much of it
    let each = std::mem::size_of::<L>() + if std::mem::needs_drop::<L>() { 64 } else { 0 };
    let mut worst = 0.0f64;
    let mut within = |what: &str, given: usize, peak: usize| -> Result<(), Fail> {
        ensure!(peak <= CONST + PER_GIVEN * given, "{what} allocates {peak} bytes at a time; what it is given and makes takes {given}");
        if given > 10_000 { worst = worst.max(peak as f64 / given as f64); }
        Ok(())
    };
    let (w, p) = crate::mem::peak(|| no_panic("build_weights_map", || build_weights_map(&letters)));
    let w = w?;
    let k = w.len();
    within("build_weights_map", k * (each + 128), p)?;
    let (t, p) = crate::mem::peak(|| no_panic("from_weights", || HuffTree::from_weights(w)));
    let t = t?;
    let codes = no_panic("read_codes", || t.read_codes())?;
    let code_bytes: usize = codes.values().map(|c| c.len() / 8 + 1).sum();
    let tree = k * (each + 128) + code_bytes;
    within("from_weights", tree, p)?;
    let (_, p) = crate::mem::peak(|| no_panic("read_codes", || t.read_codes()).map(drop));
    within("read_codes", tree, p)?;
    let bits: usize = letters.iter().map(|l| codes[l].len()).sum();
    let (c, p) = crate::mem::peak(|| no_panic("compress_with_tree", || compress_with_tree(&letters, t)));
    let Ok(c) = c? else { return bad("compress_with_tree refuses the letters of the tree") };
    within("compress_with_tree", letters.len() + bits / 8 + tree, p)?;
    let (_, p) = crate::mem::peak(|| no_panic("compress", || compress(&letters)).map(drop));
    within("compress", letters.len() + bits / 8 + tree, p)?;
    let (_, p) = crate::mem::peak(|| no_panic("decompress", || decompress(&c)).map(drop));
    within("decompress", letters.len() * each + bits / 8 + tree, p)?;
    if let Some(f) = bytes {
        let (_, p) = crate::mem::peak(|| no_panic("to_bytes", || f(&c)).map(drop));
        within("to_bytes", bits / 8 + tree, p)?;
    }
    let raw: Vec<u8> = letters.iter().map(|l| l.raw() as u8).collect();
    for n in [1usize, 2, 12, 100] {
        let (_, p) = crate::mem::peak(|| no_panic("threaded_from_bytes", || ByteWeights::threaded_from_bytes(&raw, n)).map(drop));
        within("threaded_from_bytes", raw.len() + n * 2048, p)?;
    }
    Ok(Info::new(letters.len() > 300 || k > 100).label(format!("kind:{:?}", case.kind)).label(ratio(worst as usize)).label_if(k > 1000, "letters:>1000 different"))
}
const PER_GIVEN: usize = 64;
const OWNED: [Kind; 18] = [Kind::String, Kind::Weird, Kind::Char, Kind::U8, Kind::U16, Kind::U32, Kind::U64, Kind::Usize, Kind::U128, Kind::I8, Kind::I16, Kind::I32, Kind::I64, Kind::Isize, Kind::I128, Kind::B3, Kind::B5, Kind::B20];

// ------------------------------------------------------------------ C28
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MakeCase {
    Data { kind: Kind, tree: Vec<u128>, shape: Shape, bytes: Vec<u8>, len: u32, pad: u8 },
    Weights { kind: Kind, letters: Vec<u128>, scheme: Scheme, by: u8 },
    Letters { kind: Kind, seq: Option<Seq> },
}
fn make_case() -> impl Strategy<Value = MakeCase> {
    let len = prop_oneof![3 => Just(0u32), 4 => 1u32..10, 2 => 1u32..400, 1 => magic(70_000).prop_map(|n| n as u32)];
    let pad = prop_oneof![3 => 0u8..8, 2 => Just(7u8), 2 => Just(8u8), 2 => 8u8..20, 2 => any::<u8>(), 2 => (3u32..8).prop_map(|b| 1 << b)];
    let ls = |n| prop::collection::vec(raw_letter(), n);
    prop_oneof![
        4 => (kind_of(&BYTED), ls(1..12), shape_strategy(), prop::collection::vec(any::<u8>(), 1..8), len, pad).prop_map(|(kind, tree, shape, bytes, len, pad)| MakeCase::Data { kind, tree, shape, bytes, len, pad }),
        3 => (kind_of(&ALL), prop_oneof![1 => Just(vec![]).boxed(), 1 => ls(0..20).boxed()], scheme(), 0u8..6).prop_map(|(kind, letters, scheme, by)| MakeCase::Weights { kind, letters, scheme, by }),
        2 => (kind_of(&ALL), prop::option::of(seq_small(5, 40))).prop_map(|(kind, seq)| MakeCase::Letters { kind, seq }),
    ]
}
/// Does the call panic? (Whether it should is for the caller to say.)
fn made<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
fn c28(_: &Ctx, case: &MakeCase) -> Check {
    fn data<L: LtInt>(tree: &[u128], shape: &Shape, bytes: &[u8], len: usize, pad: u8, kind: Kind) -> Check {
        let rt = build_shape(&canon::<L>(tree), shape);
        let t = reader::<L>(&rt.encode(L::W))?;
        let b: Vec<u8> = bytes.iter().copied().cycle().take(len).collect();
        let fits = !b.is_empty() && pad <= 7;
        let info = Info::new(b.is_empty() || pad > 5 || b.len() == 1).label(if fits { "data: made" } else { "data: refused" }).label(format!("kind:{kind:?}"));
        let c = match made(|| CompressData::new(b.clone(), pad, t)) {
            None => { ensure!(!fits, "CompressData::new panics on {} bytes with {pad} padding bits: {}", b.len(), last_panic()); return Ok(info); }
            Some(c) => c,
        };
        ensure!(fits, "CompressData::new takes {} bytes with {pad} padding bits", b.len());
        let copy = c.clone();
        for (c, what) in [(c, "as made"), (copy, "cloned")] {
            ensure!(c.comp_bytes() == b && c.padding_bits() == pad, "{what}: {} bytes with {} padding bits, made of {} with {pad}", c.comp_bytes().len(), c.padding_bits(), b.len());
            if let Err(m) = same_structure(c.huff_tree(), &rt) { return bad(format!("{what}: another tree: {m}")); }
            let (b2, p2, t2) = no_panic("into_inner", || c.into_inner())?;
            ensure!(b2 == b && p2 == pad, "into_inner, {what}: {} bytes with {p2} padding bits, made of {} with {pad}", b2.len(), b.len());
            if let Err(m) = same_structure(&t2, &rt) { return bad(format!("into_inner, {what}: another tree: {m}")); }
            ensure!(codes_of(&t2) == code_map(&rt), "into_inner, {what}: other codes");
        }
        Ok(info)
    }
    fn weights<L: Lt>(letters: &[u128], scheme: &Scheme, by: u8, kind: Kind) -> Check {
        let ls = canon::<L>(letters);
        let ws = expand_weights(scheme, ls.len(), by != 4);
        let e: Vec<(L, usize)> = ls.iter().map(|l| L::from_raw(*l)).zip(ws).collect();
        let n = e.len();
        let (name, t): (_, Option<HuffTree<L>>) = match by {
            0 => ("a HashMap", made(|| HuffTree::from_weights(e.into_iter().collect::<HashMap<L, usize>>()))),
            1 => ("a HashMap with room", made(|| { let mut m = HashMap::with_capacity(64); m.extend(e); HuffTree::from_weights(m) })),
            2 => ("a HashMap with letters taken out", made(|| { let keep: HashSet<L> = e.iter().map(|x| x.0.clone()).collect(); let mut m: HashMap<L, usize> = (0..40u128).map(|i| (L::from_raw(i), 1)).collect(); m.extend(e); m.retain(|l, _| keep.contains(l)); HuffTree::from_weights(m) })),
            3 => ("an association list", made(|| HuffTree::from_weights(VecWeights(e)))),
            4 if kind == Kind::U8 => ("ByteWeights", made(|| tree_from::<L>(&ls.iter().copied().zip(e.iter().map(|x| x.1)).collect::<Vec<_>>(), Via::Bytes))),
            _ => ("a HashMap emptied before", made(|| { let mut m: HashMap<L, usize> = (0..40u128).map(|i| (L::from_raw(i), 1)).collect(); m.clear(); m.extend(e); HuffTree::from_weights(m) })),
        };
        ensure!(t.is_some() || n == 0, "from_weights panics on {name} of {n} letters: {}", last_panic());
        ensure!(t.is_none() || n > 0, "from_weights makes a tree of {name} without letters");
        Ok(Info::new(n < 3).label(format!("weights: {name}")).label(if n == 0 { "weights: none" } else { "weights: some" }))
    }
    fn letters<L: Lt>(seq: &Option<Seq>) -> Check {
        let l: Vec<L> = seq.as_ref().map(expand_seq).unwrap_or_default();
        let c = made(|| compress(&l));
        ensure!(c.is_some() || l.is_empty(), "compress panics on {} letters: {}", l.len(), last_panic());
        ensure!(c.is_none() || !l.is_empty(), "compress makes data of no letters");
        // the bytes counted without a letter are no weights either
        if l.is_empty() {
            for n in [1usize, 2, 3, 8] {
                for t in [made(|| HuffTree::from_weights(ByteWeights::from_bytes(&[]))), made(|| HuffTree::from_weights(ByteWeights::threaded_from_bytes(&[], n)))] { ensure!(t.is_none(), "from_weights makes a tree of the counts of no bytes"); }
            }
        }
        Ok(Info::new(l.len() < 3).label(if l.is_empty() { "letters: none" } else { "letters: some" }))
    }
    match case {
        MakeCase::Data { kind, tree, shape, bytes, len, pad } => with_int!(*kind, L => data::<L>(tree, shape, bytes, *len as usize, *pad, *kind)),
        MakeCase::Weights { kind, letters, scheme, by } => with_kind!(*kind, L => weights::<L>(letters, scheme, *by, *kind)),
        MakeCase::Letters { kind: _, seq: None } => letters::<u8>(&None),
        MakeCase::Letters { kind, seq } => with_kind!(*kind, L => letters::<L>(seq)),
    }
}

pub fn property(id: &str) -> Option<Property> {
    let seqrule = "Cases are (letter type, sequence, tree origin): sequences over generated alphabets (small, medium up to 400 letters, large up to 12k distinct letters / 200k letters), trees counted from the data, from generated weights (ties, Fibonacci, powers of two, zeros, near usize::MAX) or read from generated shapes (chains to 850+ levels, balanced, random). Non-trivial: at least two distinct letters and two letters.";
    Some(match id {
        "C01" => Property { id: "C01", rule: seqrule, assumptions: vec!["empty sequences are outside the property: the library documents a panic for them"], families: {
            let mut f = seq_families("C01", false, c01);
            f.push(family("C01", "listed-twice", 3_000, 60_000, vec![], twice_case, c01_twice));
            f.push(family("C01", "giant", 0, 0, vec![SeqCase { kind: Kind::U16, seq: Seq::Runs { alphabet: vec![5], runs: vec![(0, 4_800_000)] }, tree: TreeSrc::Bin { extra: (0..899).collect(), rot: 1, shape: Shape::Right } }], || seq_case(&BYTED, 2, 2), c01_giant));
            f
        } },
        "C02" => Property { id: "C02", rule: seqrule, assumptions: vec!["empty sequences excluded"], families: {
            let mut f = seq_families("C02", true, c02);
            f.push(family("C02", "parts", 6_000, 400_000, vec![], parts_case, c02_parts));
            f.push(family("C02", "big-tree", 0, 0, vec![BigTreeCase { letters: 65_600 }], || Just(BigTreeCase { letters: 2 }), c02_big_tree));
            f
        } },
        "C03" => Property { id: "C03", rule: seqrule, assumptions: vec!["the value of padding bits is not specified and not checked"], families: seq_families("C03", true, c03) },
        "C04" => Property { id: "C04", rule: "Cases are weight collections (letters x weight scheme x Weights implementation) or counted sequences. Non-trivial: three or more letters.", assumptions: vec!["sum of weights fits usize"], families: vec![
            family("C04", "weights", 9_000, 300_000, w_examples(), || wcase(false), c04),
            family("C04", "big", 160, 5_000, zero_examples(), || wcase(true), c04),
            family("C04", "counted", 5_000, 150_000, vec![], || seq_only(60, 200), c04_seq),
        ] },
        "C05" => Property { id: "C05", rule: "Cases are weight collections or sequences to compress; oracle: reference Huffman cost. Non-trivial: three or more letters.", assumptions: vec!["sum of weights fits usize"], families: vec![
            family("C05", "weights", 12_000, 400_000, w_examples(), || wcase(false), c05),
            family("C05", "big", 160, 5_000, zero_examples(), || wcase(true), c05),
            family("C05", "compress", 8_000, 200_000, vec![], || seq_only(60, 200), c05_seq),
            family("C05", "compress-large", 64, 1_500, vec![], || (kind_of(&WIDE), prop_oneof![3 => seq_large(100..8000, 2_000..60_000).boxed(), 1 => seq_runs(150_000).boxed()]).prop_map(|(kind, seq)| SeqCase { kind, seq, tree: TreeSrc::Own }), c05_seq),
        ] },
        "C06" => Property { id: "C06", rule: "Cases are tree shapes with letters (also with repeated letters) or weight collections, per integer type. Non-trivial: two or more distinct letters (shapes), three or more (weights).", assumptions: vec!["nesting up to 1000 levels"], families: vec![
            family("C06", "shapes", 12_000, 400_000, vec![], || shape_case(300), c06_shape),
            family("C06", "deep-shapes", 240, 8_000, [1000u32, 1001, 999, 512, 256].iter().flat_map(|n| [Shape::Left, Shape::Right, Shape::Zig].map(|s| ShapeCase { kind: Kind::U16, letters: Letters::Many { n: *n, spread: false }, shape: s, dup: false, off: 0 })).collect(),
                || (kind_of(&BYTED), 200u32..=1001, any::<bool>(), shape_strategy(), any::<bool>()).prop_map(|(kind, n, spread, shape, dup)| ShapeCase { kind, letters: Letters::Many { n, spread }, shape, dup, off: 0 }), c06_shape),
            family("C06", "weights", 6_000, 200_000, w_examples(), || wcase_int(false), c06_weights),
            family("C06", "big", 120, 4_000, zero_examples(), || wcase_int(true), c06_weights),
        ] },
        "C07" => Property { id: "C07", rule: "Cases are bit sequences: valid encodings with mutations (truncate, extend, flip, insert, remove, other type), random bits, long runs of joints and deep chains; plus a user-defined letter type refusing a third of its byte patterns. Non-trivial: mutated or not derived from a valid encoding; for the user type: structurally well-formed.", assumptions: vec!["well-formed encodings nested deeper than 1000 levels may be refused"], families: vec![
            family("C07", "mutated", 25_000, 800_000, vec![], bits_case, c07),
            family("C07", "deep", 160, 4_000, vec![
                BitsCase { kind: Kind::U8, base: BitsBase::Ones(24_000_000, vec![]), muts: vec![], off: 0 },
                BitsCase { kind: Kind::U8, base: BitsBase::Chain { n: 255, left: true }, muts: vec![], off: 0 },
                BitsCase { kind: Kind::U16, base: BitsBase::Chain { n: 1000, left: true }, muts: vec![], off: 0 },
                BitsCase { kind: Kind::U16, base: BitsBase::Chain { n: 1000, left: false }, muts: vec![], off: 0 },
                BitsCase { kind: Kind::U64, base: BitsBase::Chain { n: 60_000, left: false }, muts: vec![], off: 0 },
                BitsCase { kind: Kind::U8, base: BitsBase::Raw(vec![]), muts: vec![], off: 0 },
            ], deep_case, c07),
            family("C07", "user-type", 6_000, 200_000, vec![], || (prop::collection::vec(any::<u16>().prop_map(|x| if x % 5 != 0 { x - (x & 0xff) % 3 } else { x }), 1..12), shape_strategy(), prop_oneof![2 => Just(vec![]).boxed(), 1 => muts().boxed()]).prop_map(|(leaves, shape, muts)| PickyCase { leaves, shape, muts }), c07_picky),
        ] },
        "C08" => Property { id: "C08", rule: "Cases are byte sequences: real byte forms and hand-built containers with mutations (set, truncate, extend, remove, insert, tree length, paddings), raw bytes, and trees of up to 8M joint bits. Non-trivial: mutated or not produced by the library.", assumptions: vec!["a declared tree padding above 7 may be accepted or refused", "trees nested deeper than 1000 levels may be refused"], families: vec![
            family("C08", "mutated", 25_000, 800_000, (0..12u8).map(|n| BytesCase { kind: Kind::U8, base: BytesBase::Raw(vec![0, 0, 0, 0, 2, 0, 0, 0, 0][..(n as usize).min(9)].to_vec()), muts: vec![] }).chain(
                // a lone letter 'a' as u8: 0 01100001, 7 bits of tree padding, data padding 0..15, with and without data
                (0..16u8).flat_map(|p| [vec![0x70 | p, 0, 0, 0, 2, 0x30, 0x80, 0x00], vec![0x70 | p, 0, 0, 0, 2, 0x30, 0x80], vec![0x70 | p, 0, 0, 0, 1, 0x30, 0x80, 0], vec![0x70 | p, 0, 0, 0, 0, 0x30, 0x80, 0]]).map(|v| BytesCase { kind: Kind::U8, base: BytesBase::Raw(v), muts: vec![] })).collect(), bytes_case, c08),
            family("C08", "bomb", 120, 3_000, vec![], bomb_case, c08),
        ] },
        "C09" => Property { id: "C09", rule: "Cases are a sequence and a tree from which some of its letters were dropped and others added. Non-trivial: a letter is missing.", assumptions: vec![], families: vec![
            family("C09", "missing", 14_000, 400_000, vec![], miss_case, c09),
        ] },
        "C10" => Property { id: "C10", rule: "Cases are slices (also empty) with letter types, hashers and thread counts tied to the length (equal, one off, half, random to 300). Non-trivial: two or more distinct letters (and two or more threads for bytes).", assumptions: vec!["thread count >= 1"], families: vec![
            family("C10", "generic", 6_000, 200_000, vec![], || (seq_only(40, 150), prop::bool::weighted(0.05)).prop_map(|(mut s, e)| { if e { s.tree = TreeSrc::Weights { extra: vec![], scheme: Scheme::Fib, via: Via::Map } } s }), c10_map),
            family("C10", "generic-large", 100, 3_000, vec![], || (kind_of(&WIDE), prop_oneof![2 => seq_runs(200_000).boxed(), 1 => seq_large(1..70_000, 1_000..140_000).boxed()]).prop_map(|(kind, seq)| SeqCase { kind, seq, tree: TreeSrc::Own }), c10_map),
            family("C10", "bytes", 6_000, 150_000, (0..10u16).map(|t| CountCase { seq: Seq::Explicit { alphabet: (0..256).collect(), idx: (0..256).collect() }, cut: 0, threads: 1 + t * 7, rel: 4 }).chain((0..24u16).map(|t| CountCase { seq: Seq::Explicit { alphabet: vec![0], idx: vec![0; 12] }, cut: t % 13, threads: t + 1, rel: 5 - (t % 2) as u8 })).collect(), || count_case(false), c10_bytes),
            family("C10", "beyond-32-bits", 0, 0, vec![ManyCase { zeros: (1 << 32) + 5, tail: vec![1, 0, 255, 1], threads: None }, ManyCase { zeros: (1 << 32) + 70, tail: vec![7, 0, 255, 1], threads: Some(3) }], || Just(ManyCase { zeros: 1, tail: vec![], threads: None }), c10_many),
            family("C10", "bytes-large", 240, 6_000, [255u16, 256, 257, 512, 1000, 1024, 2000].iter().flat_map(|t| [3000u32, 2000, 513].map(|len| CountCase { seq: Seq::Expanded { alphabet: 256, len, skew: 0, seed: 3 }, cut: 0, threads: *t, rel: 4 })).collect(), || count_case(true), c10_bytes),
        ] },
        "C11" => Property { id: "C11", rule: "Cases are histories of up to 24 operations over four byte counts, compared with map models after every step. Non-trivial: at least one addition.", assumptions: vec!["sums that overflow usize are skipped"], families: vec![
            family("C11", "histories", 5_000, 150_000, vec![], bw_ops, c11),
        ] },
        "C12" => Property { id: "C12", rule: "All values of the 8- and 16-bit types (enumerated), generated values and boundaries of the others, slices of length 0..40. Every case is non-trivial.", assumptions: vec![], families: vec![
            family("C12", "values", 12_000, 400_000, vec![], || (kind_of(&INTS), raw_letter(), any::<bool>(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(kind, raw, exact, mut slice)| { if exact { slice.resize(width_of(kind) / 8, 0x5A) } LetterCase { kind, raw, slice } }), c12),
            family("C12", "exhaustive-8-16", 0, 0, (0..256u16).flat_map(|b| [Kind::U8, Kind::I8, Kind::U16, Kind::I16].map(|kind| Exhaustive { kind, block: b })).collect(), || (Just(Kind::U8), 0u16..1).prop_map(|(kind, block)| Exhaustive { kind, block }), c12_all),
        ] },
        "C21" => Property { id: "C21", rule: "Cases are histories of branch operations against a model tree (stand-alone and inside a tree), and sets of leaves compared pairwise. Non-trivial: at least one change / two leaves.", assumptions: vec![], families: vec![
            family("C21", "histories", 12_000, 400_000, vec![], br_case, c21),
            family("C21", "order", 4_000, 100_000, vec![], || prop::collection::vec((prop::option::of(any::<u16>()), prop_oneof![3 => 0u64..4, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(1u64 << 32)], any::<bool>()), 1..8).prop_map(|leaves| OrdCase { leaves }), c21_ord),
        ] },
        "C22" => Property { id: "C22", rule: "Cases are a tree (from weights or read from its binary form) and a history of up to seven edits through its root (whole tree, letters, splits, pruning, swaps, exchanges, weights, clones, trips through compressed data), each followed by setting the codes to the paths; a generated selection of codes, binary form, compressing, decompressing and missing letters is compared with a model after each edit, all of them at the end. Non-trivial: at least one edit took place.", assumptions: vec!["the user sets the codes of the leaves to their paths after an edit, as the tree's own constructors do"], families: vec![
            family("C22", "edits", 12_000, 400_000, vec![], edit_case, c22),
        ] },
        "C23" => Property { id: "C23", rule: "Cases are up to five jobs on related letters (same, reordered, one changed, cut, extended, shifted, doubled) and an interleaved schedule of library calls on them, in one reused buffer or in several, and in up to eight threads at once; every result is compared with what its own arguments call for. Non-trivial: calls of two or more jobs, more than three in all.", assumptions: vec![], families: vec![
            family("C23", "interleaved", 12_000, 400_000, vec![], indep_case, c23),
        ] },
        "C24" => Property { id: "C24", rule: "Cases are the bit and byte sequences of C07 and C08, hostile ones included; the peak of the bytes allocated during a call is compared with 1024 times the input + 256 KiB (far above what is needed now, far below what claimed lengths would ask for). Every case is non-trivial.", assumptions: vec!["bytes allocated by the calling thread are counted"], families: vec![
            family("C24", "bits", 12_000, 300_000, vec![], bits_case, c24_bits),
            family("C24", "deep-bits", 100, 3_000, vec![], deep_case, c24_bits),
            family("C24", "bytes", 25_000, 600_000, [u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 24, 200_000_000].iter().flat_map(|n| [0usize, 1, 8, 60].map(|k| { let mut v = vec![0u8]; v.extend(n.to_be_bytes()); v.extend(vec![0x55; k]); BytesCase { kind: Kind::U8, base: BytesBase::Raw(v), muts: vec![] } })).collect(), bytes_case, c24_bytes),
            family("C24", "bomb", 60, 2_000, vec![], bomb_case, c24_bytes),
            family("C24", "larger", 160, 5_000, vec![], larger_case, c24_bytes),
        ] },
        "C28" => Property { id: "C28", rule: "Cases are parts for compressed data (bytes, from none to 70,000; 0 to 255 padding bits; a tree), weights (none or some, six Weights types) and sequences (empty or not); what is documented to panic has to, nothing else may, and what is made gives its parts back. Non-trivial: at the limit of what is accepted (no byte or one, six or more padding bits; fewer than three letters).", assumptions: vec![], families: vec![
            family("C28", "made", 30_000, 1_000_000, vec![], make_case, c28),
        ] },
        "C29" => Property { id: "C29", rule: "Cases are sequences, histories, edits, byte counts, and readable and unreadable bits and bytes as in C01, C07-C09, C11, C21-C23; each is done seven times over (C23's with other letters each time) and what is still allocated at the end of one is compared with the end of the one before. The family peaks compares the peak of each call with 64 times what it is given and makes (+ 256 KiB). Non-trivial as in those properties; peaks: over 300 letters or 100 different ones.", assumptions: vec!["memory is seen through Rust's global allocator", "&str letters, which own nothing, are left out"], families: vec![
            family("C29", "calls", 600, 20_000, vec![], || seq_case(&OWNED, 12, 60), |ctx, case| given_back(ctx, case, |_, c: &SeqCase| with_kind!(c.kind, L => c29_calls::<L>(c)))),
            family("C29", "histories", 300, 10_000, vec![], indep_case, |ctx, case| given_back(ctx, case, c23)),
            family("C29", "edits", 600, 20_000, vec![], edit_case, |ctx, case| given_back(ctx, case, c22)),
            family("C29", "branches", 300, 10_000, vec![], br_case, |ctx, case| given_back(ctx, case, c21)),
            family("C29", "missing", 600, 20_000, vec![], miss_case, |ctx, case| given_back(ctx, case, c09)),
            family("C29", "bits", 800, 20_000, vec![], bits_case, |ctx, case| given_back(ctx, case, c07)),
            family("C29", "bytes", 800, 20_000, vec![], bytes_case, |ctx, case| given_back(ctx, case, c08)),
            family("C29", "byte-counts", 300, 10_000, vec![], bw_ops, |ctx, case| given_back(ctx, case, c11)),
            family("C29", "peaks", 600, 20_000, vec![], || (kind_of(&ALL), prop_oneof![2 => seq_small(40, 150).boxed(), 2 => seq_large(1..70_000, 1_000..140_000).boxed(), 1 => seq_runs(200_000).boxed()]).prop_map(|(kind, seq)| SeqCase { kind, seq, tree: TreeSrc::Own }), |_, c| match c.kind {
                Kind::Char => c29_peaks::<char>(c, None),
                Kind::Str => c29_peaks::<&'static str>(c, None),
                Kind::String => c29_peaks::<String>(c, None),
                Kind::Weird => with_kind!(c.kind, L => c29_peaks::<L>(c, None)),
                k => with_int!(k, L => c29_peaks::<L>(c, Some(|c| no_panic("to_bytes", || c.to_bytes())))),
            }),
        ] },
        _ => return None,
    })
}
