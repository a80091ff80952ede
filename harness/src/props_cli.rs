//! Command-line properties C13..C20, decided on the built binary.
use crate::cli::*;
use crate::dict::{magic, word};
use crate::engine::*;
use crate::ensure;
use crate::letters::{build_shape, shape_strategy, Shape};
use crate::refimpl::*;
use huff_coding::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

fn len_label(n: usize) -> &'static str { match n { 0..=8 => "file:<=8", 9..=100 => "file:9-100", 101..=8191 => "file:101-8191", 8192..=8193 => "file:8192-8193", _ => "file:>8193" } }

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TripCase { content: Content, comp: Blk, dec: Vec<Blk> }
fn trip_case(max: u32) -> impl Strategy<Value = TripCase> {
    (content(max), blk(), prop::collection::vec(blk(), 1..4)).prop_map(|(content, comp, dec)| TripCase { content, comp, dec })
}
fn c13(ctx: &Ctx, case: &TripCase) -> Check {
    let s = Sbx::new(ctx);
    let src = case.content.bytes();
    s.put("f", &src);
    let mut a = args(&["f"]);
    case.comp.push(src.len(), &mut a);
    let o = huff(ctx, &s, &a, Opts::default())?;
    ensure!(o.ok(), "huff {a:?} on {} bytes: {}", src.len(), o.how());
    let Some(arch) = s.get("f.hff") else { return bad("f.hff was not written") };
    ensure!(s.get("f").as_deref() == Some(&src[..]), "compressing changed the source");
    let mut worst = case.comp.blocks(src.len());
    for b in &case.dec {
        let mut a = args(&["-dn", "f.hff", "out"]);
        b.push(arch.len(), &mut a);
        let o = huff(ctx, &s, &a, Opts::default())?;
        ensure!(o.ok(), "huff {a:?} on the tool's own archive of {} bytes (made with {:?}): {}", src.len(), case.comp.size(src.len()), o.how());
        let got = s.get("out").unwrap_or_default();
        ensure!(got == src, "compressed with {:?}, decompressed with {:?}: {}", case.comp.size(src.len()), b.size(arch.len()), diff_bytes(&src, &got));
        worst = worst.max(b.blocks(arch.len()));
    }
    let multi = case.comp.blocks(src.len()) > 1 || case.dec.iter().any(|b| b.blocks(arch.len()) > 1);
    Ok(Info::new(multi).label(len_label(src.len())).label(block_label(case.comp.blocks(src.len()))).label(format!("deepest {}", block_label(worst)))
        .label(format!("data pad:{}", arch[0] & 15)))
}

// ------------------------------------------------------------------ C14
fn c14_out(ctx: &Ctx, case: &TripCase) -> Check {
    let s = Sbx::new(ctx);
    let src = case.content.bytes();
    s.put("f", &src);
    let mut a = args(&["f"]);
    case.comp.push(src.len(), &mut a);
    let o = huff(ctx, &s, &a, Opts::default())?;
    ensure!(o.ok(), "huff {a:?} on {} bytes: {}", src.len(), o.how());
    let Some(arch) = s.get("f.hff") else { return bad("f.hff was not written") };
    let c = match split_container(&arch) { Ok(c) => c, Err(e) => return bad(format!("archive does not hold what its header says: {e:?}")) };
    ensure!(c.tree_pad <= 7 && c.data_pad <= 7, "paddings {} and {} in the header", c.tree_pad, c.data_pad);
    let t = match RTree::parse(&c.tree_bits(), 8) { Ok(t) => t, Err(e) => return bad(format!("tree section is not the documented encoding: {e:?}")) };
    let mut counts = [0u128; 256];
    for b in &src { counts[*b as usize] += 1; }
    let codes = t.codes();
    let mut in_tree: Vec<u128> = codes.iter().map(|c| c.0).collect();
    in_tree.sort();
    let want: Vec<u128> = (0..256u128).filter(|i| counts[*i as usize] > 0).collect();
    ensure!(in_tree == want, "the tree holds {in_tree:?}, the bytes of the file are {want:?}");
    let bits = c.data_bits();
    let (dec, complete) = t.decode(&bits);
    let dec: Vec<u8> = dec.into_iter().map(|x| x as u8).collect();
    ensure!(complete && dec == src, "independent reader, block size {:?}: {}{}", case.comp.size(src.len()), diff_bytes(&src, &dec), if complete { "" } else { ", data ends inside a code" });
    let best = optimal_cost(&counts.iter().copied().filter(|c| *c > 0).collect::<Vec<_>>());
    ensure!(bits.len() as u128 == best, "{} data bits, the minimum for a letter-by-letter prefix code is {best}", bits.len());
    ensure!(c.data.len() as u128 == best.div_ceil(8), "{} data bytes for {best} bits", c.data.len());
    ensure!(c.tree_len == t.encode(8).len().div_ceil(8), "{} tree bytes for {} bits", c.tree_len, t.encode(8).len());
    // and the library reads it
    let back = no_panic("try_from_bytes on the tool's archive", || CompressData::<u8>::try_from_bytes(&arch))?;
    match back {
        Ok(cd) => { let d = no_panic("decompress", || decompress(&cd))?; ensure!(d == src, "library on the tool's archive: {}", diff_bytes(&src, &d)); }
        Err(e) => return bad(format!("the library refuses the tool's archive: {e}")),
    }
    Ok(Info::new(want.len() > 1).label(len_label(src.len())).label(block_label(case.comp.blocks(src.len()))).label(format!("tree pad:{}", c.tree_pad)))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Writer { Library, LibraryTree { extra: Vec<u8>, weights: Vec<u32> }, Other { extra: Vec<u8>, rot: u16, shape: Shape, dup: bool } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InCase { content: Content, writer: Writer, dec: Vec<Blk> }
fn writer() -> impl Strategy<Value = Writer> + Clone {
    let shape = shape_strategy().boxed();
    prop_oneof![
        1 => Just(Writer::Library),
        1 => (prop::collection::vec(any::<u8>(), 0..20), prop::collection::vec(1u32..10_000, 1..20)).prop_map(|(extra, weights)| Writer::LibraryTree { extra, weights }),
        4 => (prop_oneof![prop::collection::vec(any::<u8>(), 0..20).boxed(), Just((0..=255u8).collect::<Vec<_>>()).boxed()], any::<u16>(), shape, prop::bool::weighted(0.2)).prop_map(|(extra, rot, shape, dup)| Writer::Other { extra, rot, shape, dup }),
    ]
}
fn write_with(w: &Writer, src: &[u8]) -> Result<Vec<u8>, Fail> {
    Ok(match w {
        Writer::Library => no_panic("compress", || compress(src).to_bytes())?,
        Writer::LibraryTree { extra, weights } => {
            let mut m: HashMap<u8, usize> = HashMap::new();
            for (i, b) in src.iter().chain(extra).enumerate() { m.entry(*b).or_insert(weights[i % weights.len()] as usize); }
            match no_panic("compress_with_tree", || compress_with_tree(src, HuffTree::from_weights(m)))? { Ok(c) => no_panic("to_bytes", || c.to_bytes())?, Err(e) => return bad(format!("compress_with_tree: {e}")) }
        }
        Writer::Other { extra, rot, shape, dup } => ref_write(src, extra, *rot as usize, shape, *dup),
    })
}
fn c14_in(ctx: &Ctx, case: &InCase) -> Check {
    let s = Sbx::new(ctx);
    let src = case.content.bytes();
    let arch = write_with(&case.writer, &src)?;
    s.put("f.hff", &arch);
    let mut multi = false;
    for b in &case.dec {
        let mut a = args(&["-d", "-n"]);
        b.push(arch.len(), &mut a);
        a.extend(args(&["f.hff", "out"]));
        let o = huff(ctx, &s, &a, Opts::default())?;
        ensure!(o.ok(), "huff {a:?} on a well-formed archive of {} bytes: {}", arch.len(), o.how());
        let got = s.get("out").unwrap_or_default();
        ensure!(got == src, "huff {a:?}: {}", diff_bytes(&src, &got));
        multi |= b.blocks(arch.len()) > 1;
    }
    Ok(Info::new(src.len() > 1).label(match case.writer { Writer::Library => "by:library", Writer::LibraryTree { .. } => "by:library with own tree", Writer::Other { .. } => "by:other writer" }).label_if(multi, "several blocks").label(format!("pads:{}/{}", arch[0] >> 4, arch[0] & 15)))
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ArchBase { Made { content: Content, writer: Writer }, Raw(Vec<u8>), Deep { n: u32, left: bool, tail: Vec<u8> }, Nested(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AMut { Set(u32, u8), Flip(u32, u8), Cut(u32), Extend(Vec<u8>), Del(u32), Ins(u32, u8), TreeLen(i32), TreeLenAbs(u32), TreePad(u8), DataPad(u8), DropData, CutIn(u8, u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArchCase { base: ArchBase, muts: Vec<AMut>, blk: Blk }
fn amut() -> impl Strategy<Value = AMut> + Clone {
    prop_oneof![
        2 => (any::<u32>(), any::<u8>()).prop_map(|(p, v)| AMut::Set(p, v)),
        3 => (0u32..60, 0u8..8).prop_map(|(p, b)| AMut::Flip(p, b)),
        2 => any::<u32>().prop_map(AMut::Cut),
        2 => (0u32..40).prop_map(AMut::Cut),
        1 => prop::collection::vec(any::<u8>(), 1..9).prop_map(AMut::Extend),
        1 => (0u32..60).prop_map(AMut::Del),
        1 => (0u32..60, any::<u8>()).prop_map(|(p, v)| AMut::Ins(p, v)),
        3 => (-4i32..=4).prop_map(AMut::TreeLen),
        2 => prop_oneof![0u32..12, Just(u32::MAX), any::<u32>(), Just(0x7fff_ffff), Just(1 << 24), magic(u32::MAX as u64).prop_map(|n| n as u32)].prop_map(AMut::TreeLenAbs),
        3 => (0u8..16).prop_map(AMut::TreePad),
        3 => (0u8..16).prop_map(AMut::DataPad),
        1 => Just(AMut::DropData),
        2 => (0u8..3, any::<u32>()).prop_map(|(w, n)| AMut::CutIn(w, n)),
    ]
}
fn arch_case() -> impl Strategy<Value = ArchCase> {
    let base = prop_oneof![
        8 => (content(400), writer()).prop_map(|(content, writer)| ArchBase::Made { content, writer }),
        1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(ArchBase::Raw),
        1 => (prop::collection::vec(any::<u8>(), 0..40), 0u8..8, 0u8..8, 0u8..60).prop_map(|(mut v, a, b, l)| { let mut h = vec![a << 4 | b, 0, 0, 0, l]; h.append(&mut v); ArchBase::Raw(h) }),
    ];
    (base, prop_oneof![1 => Just(vec![]).boxed(), 8 => prop::collection::vec(amut(), 1..4).boxed()], blk()).prop_map(|(base, muts, blk)| ArchCase { base, muts, blk })
}
fn deep_case() -> impl Strategy<Value = ArchCase> {
    let base = prop_oneof![
        3 => (prop_oneof![2u32..256, 990u32..1001, 1020u32..1100, 1100u32..3000, 3000u32..300_000], any::<bool>(), prop::collection::vec(any::<u8>(), 1..40)).prop_map(|(n, left, tail)| ArchBase::Deep { n, left, tail }),
        1 => prop_oneof![1u32..200, 200u32..20_000, 20_000u32..3_000_000].prop_map(ArchBase::Nested),
    ];
    (base, prop_oneof![4 => Just(vec![]).boxed(), 1 => prop::collection::vec(amut(), 1..3).boxed()], blk()).prop_map(|(base, muts, blk)| ArchCase { base, muts, blk })
}
fn arch_bytes(c: &ArchCase) -> Result<Vec<u8>, Fail> {
    let mut v = match &c.base {
        ArchBase::Made { content, writer } => write_with(writer, &content.bytes())?,
        ArchBase::Raw(v) => v.clone(),
        ArchBase::Deep { n, left, tail } => {
            let ls: Vec<u128> = (0..*n as u128).map(|i| i % 256).collect();
            let t = build_shape(&ls, if *left { &Shape::Left } else { &Shape::Right });
            write_container(&t, 8, &bytes_to_bits(tail))
        }
        ArchBase::Nested(n) => { let mut v = vec![0]; v.extend(n.to_be_bytes()); v.resize(5 + *n as usize, 0xff); v.push(0x55); v }
    };
    for m in &c.muts {
        let n = v.len();
        let tl = if n >= 5 { u32::from_be_bytes([v[1], v[2], v[3], v[4]]) } else { 0 };
        match m {
            AMut::Set(p, x) => if n > 0 { v[*p as usize % n] = *x },
            AMut::Flip(p, b) => if n > 0 { v[*p as usize % n] ^= 1 << b },
            AMut::Cut(k) => if n > 0 { v.truncate(*k as usize % n) },
            AMut::Extend(e) => v.extend(e),
            AMut::Del(p) => if n > 0 { v.remove(*p as usize % n); },
            AMut::Ins(p, x) => v.insert(*p as usize % (n + 1), *x),
            AMut::TreeLen(d) => if n >= 5 { v[1..5].copy_from_slice(&tl.wrapping_add_signed(*d).to_be_bytes()) },
            AMut::TreeLenAbs(x) => if n >= 5 { v[1..5].copy_from_slice(&x.to_be_bytes()) },
            AMut::TreePad(p) => if n > 0 { v[0] = v[0] & 15 | p << 4 },
            AMut::DataPad(p) => if n > 0 { v[0] = v[0] & 0xf0 | p },
            AMut::DropData => if n >= 5 { v.truncate(5usize.saturating_add(tl as usize)) },
            AMut::CutIn(0, k) => v.truncate(*k as usize % 6),
            AMut::CutIn(1, k) => v.truncate(5 + *k as usize % (tl.max(1) as usize)),
            AMut::CutIn(_, k) => if n > 0 { v.truncate(n - 1 - *k as usize % n.min(4)) },
        }
    }
    Ok(v)
}
enum Verdict { MustFail(&'static str), May(Vec<u8>, bool) }
/// What the documented format prescribes for these bytes; deep trees may also be refused.
fn judge(a: &[u8]) -> Verdict {
    let c = match split_container(a) { Ok(c) => c, Err(CErr::ShortHeader) => return Verdict::MustFail("header is truncated"), Err(CErr::ShortTree) => return Verdict::MustFail("tree is truncated") };
    if c.tree_pad > 7 || c.data_pad > 7 { return Verdict::MustFail("a padding is above 7") }
    if c.tree_pad as usize > c.tree_len * 8 { return Verdict::MustFail("tree is invalid") }
    let t = match RTree::parse(&c.tree_bits(), 8) { Ok(t) => t, Err(_) => return Verdict::MustFail("tree is invalid") };
    let (d, complete) = t.decode(&c.data_bits());
    // data that end within a code: the bytes before it, or a refusal
    Verdict::May(d.into_iter().map(|x| x as u8).collect(), t.depth() <= 1000 && !c.data.is_empty() && complete)
}
fn c15(ctx: &Ctx, case: &ArchCase) -> Check {
    let s = Sbx::new(ctx);
    let a = arch_bytes(case)?;
    s.put("x.hff", &a);
    let mut ar = args(&["-d", "x.hff", "out"]);
    case.blk.push(a.len(), &mut ar);
    // with small blocks three gigabytes are plenty, whatever length the archive claims
    let mem = if case.blk.size(a.len()).is_some_and(|b| b <= 1 << 20) { Some(3 << 30) } else { None };
    let o = huff(ctx, &s, &ar, Opts { mem, ..Default::default() })?;
    let show = || -> String { a.iter().take(24).map(|b| format!("{b:02x}")).collect() };
    ensure!(s.get("x.hff").as_deref() == Some(&a[..]), "the archive itself was changed");
    let info = Info::new(!case.muts.is_empty() || !matches!(case.base, ArchBase::Made { .. }));
    match judge(&a) {
        Verdict::MustFail(why) => {
            ensure!(!o.ok(), "accepted although the {why} (archive of {} bytes, {})", a.len(), show());
            if let Err(m) = o.clean_error() { return bad(format!("{why}: huff {m} (archive of {} bytes, {})", a.len(), show())); }
            ensure!(o.code == Some(1), "{why}: {}", o.how());
            Ok(info.label(format!("refused: {why}")))
        }
        Verdict::May(want, firm) => {
            if o.ok() {
                let got = s.get("out").unwrap_or_default();
                ensure!(got == want, "archive of {} bytes ({}), block size {:?}: {}", a.len(), show(), case.blk.size(a.len()), diff_bytes(&want, &got));
                return Ok(info.label(if firm { "decoded" } else { "decoded (may be refused)" }));
            }
            if let Err(m) = o.clean_error() { return bad(format!("huff {m} (archive of {} bytes, {})", a.len(), show())); }
            ensure!(o.code == Some(1), "archive of {} bytes ({}): {}", a.len(), show(), o.how());
            ensure!(!firm, "well-formed archive of {} bytes ({}) refused: {}", a.len(), show(), o.how());
            Ok(info.label("refused (may be refused)"))
        }
    }
}

// ------------------------------------------------------------------ C16 / C17: faults
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Dir { Comp, Dec }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase { content: Content, dir: Dir, blk: Blk, shape: Shape, replace: bool, existing: Option<u16>, soft: Vec<Soft> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Soft { ShortAll(u16), EintrEvery(u8), Short(u16, u16), Eintr(u16) }
fn soft() -> impl Strategy<Value = Soft> + Clone {
    prop_oneof![
        2 => prop_oneof![1u16..4, 1u16..9000].prop_map(Soft::ShortAll),
        1 => (2u8..5).prop_map(Soft::EintrEvery),
        2 => (any::<u16>(), prop_oneof![1u16..4, 1u16..9000]).prop_map(|(i, k)| Soft::Short(i, k)),
        2 => any::<u16>().prop_map(Soft::Eintr),
    ]
}
fn fault_case(max: u32) -> impl Strategy<Value = FaultCase> {
    let b = prop_oneof![1 => Just(Blk::Default), 6 => (1u8..6, -1i8..=1).prop_map(|(den, delta)| Blk::Of { den, delta })];
    (content(max), prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], b, shape_strategy(), any::<bool>(), prop::option::weighted(0.4, 0u16..3000), prop::collection::vec(soft(), 1..4))
        .prop_map(|(content, dir, blk, shape, replace, existing, soft)| FaultCase { content, dir, blk, shape, replace, existing, soft })
}
struct Job { src_name: &'static str, dst_name: &'static str, src: Vec<u8>, plain: Vec<u8>, args: Vec<OsString>, dir: Dir, old: Option<Vec<u8>> }
impl Job {
    fn of(c: &FaultCase, replace: bool) -> Job {
        let plain = c.content.bytes();
        let (src_name, dst_name, src) = match c.dir {
            Dir::Comp => ("f", "g.hff", plain.clone()),
            Dir::Dec => ("f.hff", "g", ref_write(&plain, &[1, 2, 3], 2, &c.shape, false)),
        };
        let mut a = args(&["-n", src_name, "g"]);
        if c.dir == Dir::Dec { a.push("-d".into()) }
        if replace { a.push("-r".into()) }
        c.blk.push(src.len(), &mut a);
        let old = c.existing.map(|n| { let mut st = n as u64; (0..n).map(|_| splitmix(&mut st) as u8).collect() });
        Job { src_name, dst_name, src, plain, args: a, dir: c.dir, old }
    }
    fn prepare(&self, s: &Sbx) {
        s.put(self.src_name, &self.src);
        let _ = fs::remove_file(s.work.join(self.dst_name));
        if let Some(o) = &self.old { s.put(self.dst_name, o); }
    }
    /// The destination holds the complete, correct result?
    fn complete(&self, s: &Sbx) -> Result<(), String> {
        let Some(d) = s.get(self.dst_name) else { return Err("there is no destination".into()) };
        match self.dir {
            Dir::Dec => if d == self.plain { Ok(()) } else { Err(diff_bytes(&self.plain, &d)) },
            Dir::Comp => match ref_read(&d) { Ok(p) if p == self.plain => Ok(()), Ok(p) => Err(format!("archive decodes wrongly: {}", diff_bytes(&self.plain, &p))), Err(e) => Err(format!("archive is not readable: {e}")) },
        }
    }
    fn source_state(&self, s: &Sbx) -> Result<bool, String> {
        match s.get(self.src_name) { None => Ok(false), Some(b) if b == self.src => Ok(true), Some(b) => Err(format!("the source was altered: {}", diff_bytes(&self.src, &b))) }
    }
}
/// Points to disturb: all of them, or (for long runs) the first and last ones and a spread.
fn points(n: usize, cap: usize) -> Vec<usize> {
    if n <= cap { return (0..n).collect(); }
    let mut v: Vec<usize> = (0..cap / 3).chain(n - cap / 3..n).collect();
    let mid = cap - v.len();
    for i in 0..mid { v.push(cap / 3 + i * (n - 2 * (cap / 3)) / mid); }
    v.sort();
    v.dedup();
    v
}
fn dry(ctx: &Ctx, s: &Sbx, j: &Job) -> Result<Out, Fail> {
    j.prepare(s);
    let o = huff(ctx, s, &j.args, Opts { shim: true, ..Default::default() })?;
    ensure!(o.ok(), "huff {:?} without any fault: {}", j.args, o.how());
    if let Err(m) = j.complete(s) { return bad(format!("huff {:?} without any fault: {m}", j.args)); }
    if o.calls.len() < 4 { return Err(Fail::Inconclusive(format!("only {} file operations seen: the interposing library misses them", o.calls.len()))); }
    Ok(o)
}
fn c16_hard(ctx: &Ctx, case: &FaultCase) -> Check {
    let s = Sbx::new(ctx);
    let j = Job::of(case, case.replace);
    let d = dry(ctx, &s, &j)?;
    let mut injected = 0;
    let mut kinds = BTreeMap::new();
    let cap = if ctx.tier == Tier::Quick { 36 } else { 150 };
    for i in points(d.calls.len(), cap) {
        let k = d.calls[i].kind.as_str();
        let errs: &[(&str, i32)] = match k {
            "open" => &[("e", libc::EACCES), ("E", libc::EMFILE)],
            "read" => &[("e", libc::EIO), ("E", libc::EIO)],
            "write" => &[("e", libc::ENOSPC), ("E", libc::ENOSPC), ("e", libc::EIO)],
            "seek" => &[("e", libc::EIO), ("E", libc::EIO)],
            _ => &[("e", libc::EIO)],
        };
        for (mode, e) in errs {
            j.prepare(&s);
            let plan = format!("{i}={mode}{e}");
            let o = huff(ctx, &s, &j.args, Opts { shim: true, plan: &plan, ..Default::default() })?;
            if !o.calls.iter().any(|c| c.injected) { continue }
            injected += 1;
            *kinds.entry(format!("{k} fails{}", if *mode == "E" { " for good" } else { " once" })).or_insert(0) += 1;
            let what = format!("huff {:?}: {k} number {i} of {} fails with errno {e}{}", j.args, d.calls.len(), if *mode == "E" { " and all later ones" } else { "" });
            if ["open", "read", "write", "seek"].contains(&k) {
                ensure!(!o.ok(), "{what}, yet the exit status is 0 (destination: {})", j.complete(&s).map(|_| "complete".to_string()).unwrap_or_else(|m| m));
            }
            if o.ok() { if let Err(m) = j.complete(&s) { return bad(format!("{what}, exit status 0: {m}")); } }
        }
    }
    let mut info = Info::new(injected > 0).label(format!("{:?}", case.dir)).label(match d.calls.len() { 0..=12 => "operations:<=12", 13..=36 => "operations:13-36", _ => "operations:>36" });
    for (k, n) in kinds { for _ in 0..n { info = info.label(k.clone()); } }
    Ok(info)
}
fn c16_soft(ctx: &Ctx, case: &FaultCase) -> Check {
    let s = Sbx::new(ctx);
    let j = Job::of(case, false);
    let d = dry(ctx, &s, &j)?;
    let plan: Vec<String> = case.soft.iter().map(|x| match x {
        Soft::ShortAll(k) => format!("*=s{}", (*k as usize).max(j.src.len() / 400)),
        Soft::EintrEvery(m) => format!("%{m}=i"),
        Soft::Short(i, k) => format!("{}=s{k}", *i as usize % d.calls.len()),
        Soft::Eintr(i) => format!("{}=i", *i as usize % d.calls.len()),
    }).collect();
    let plan = plan.join(",");
    j.prepare(&s);
    let o = huff(ctx, &s, &j.args, Opts { shim: true, plan: &plan, ..Default::default() })?;
    let disturbed = o.calls.iter().filter(|c| c.injected || (c.res >= 0 && (c.res as usize) < c.len && (c.kind == "read" || c.kind == "write"))).count();
    ensure!(o.ok(), "huff {:?} with only short transfers and interruptions ({plan}): {}", j.args, o.how());
    if let Err(m) = j.complete(&s) { return bad(format!("huff {:?} with only short transfers and interruptions ({plan}), exit status 0: {m}", j.args)); }
    Ok(Info::new(disturbed > 0).label(format!("{:?}", case.dir)).label_if(o.calls.iter().any(|c| c.injected), "interrupted").label_if(plan.contains('s'), "short transfers"))
}
/// Short transfers and interruptions one by one, at every operation.
fn c16_soft_each(ctx: &Ctx, case: &FaultCase) -> Check {
    let s = Sbx::new(ctx);
    let j = Job::of(case, false);
    let d = dry(ctx, &s, &j)?;
    let mut n = 0;
    for i in points(d.calls.len(), if ctx.tier == Tier::Quick { 30 } else { 150 }) {
        let c = &d.calls[i];
        let acts: Vec<String> = match c.kind.as_str() {
            "read" | "write" => { let mut v = vec!["i".to_string()]; if c.res > 1 { v.push("s1".into()); v.push(format!("s{}", c.res - 1)); } if c.res > 6 { v.push("s5".into()); } v }
            "open" => vec!["i".into()],
            _ => continue,
        };
        for a in acts {
            j.prepare(&s);
            let plan = format!("{i}={a}");
            let o = huff(ctx, &s, &j.args, Opts { shim: true, plan: &plan, ..Default::default() })?;
            let what = format!("huff {:?}: {} number {i} {}", j.args, c.kind, if a == "i" { "is interrupted".into() } else { format!("transfers only {} bytes", &a[1..]) });
            ensure!(o.ok(), "{what}: {}", o.how());
            if let Err(m) = j.complete(&s) { return bad(format!("{what}, exit status 0: {m}")); }
            n += 1;
        }
    }
    Ok(Info::new(n > 0).label(format!("{:?}", case.dir)).label(format!("disturbed runs:{}0s", n / 10)))
}
fn c17_faults(ctx: &Ctx, case: &FaultCase) -> Check {
    let s = Sbx::new(ctx);
    let j = Job::of(case, case.replace);
    let d = dry(ctx, &s, &j)?;
    if !case.replace { if let Err(m) = j.source_state(&s).and_then(|p| if p { Ok(()) } else { Err("the source is gone although -r was not given".into()) }) { return bad(format!("huff {:?}: {m}", j.args)); } }
    let cap = if ctx.tier == Tier::Quick { 30 } else { 150 };
    let (mut lost_window, mut n) = (0, 0);
    for i in points(d.calls.len(), cap) {
        let k = d.calls[i].kind.as_str();
        for act in ["k", "K", "h", "E5", "e28"] {
            if act == "h" && !(k == "write" && d.calls[i].res > 1) { continue }
            j.prepare(&s);
            let plan = format!("{i}={act}");
            let o = huff(ctx, &s, &j.args, Opts { shim: true, plan: &plan, expect_kill: true, ..Default::default() })?;
            n += 1;
            let what = format!("huff {:?}: {} {k} number {i} of {}", j.args, match act { "k" => "killed before", "K" => "killed after", "h" => "killed in the middle of", "e28" => "one error in", _ => "errors from" }, d.calls.len());
            match j.source_state(&s) {
                Err(m) => return bad(format!("{what}: {m}")),
                Ok(true) => {}
                Ok(false) => {
                    ensure!(case.replace, "{what}: the source is gone although -r was not given");
                    if let Err(m) = j.complete(&s) { return bad(format!("{what}: the source is gone and the destination is not complete: {m} ({})", o.how())); }
                    lost_window += 1;
                }
            }
        }
    }
    Ok(Info::new(n > 0).label(format!("{:?}{}", case.dir, if case.replace { " -r" } else { "" })).label_if(lost_window > 0, "source removed in some disturbed run").label_if(case.existing.is_some(), "existing destination"))
}
// ---- the source named as the destination
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Spell { Plain, Dot, DotDot, Abs, Twice, ViaDirLink }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Alias { Same, Sym, SymAbs, SymSym, Hard }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SameCase { content: Content, dir: Dir, src: Spell, alias: Alias, dst: Option<Spell>, flags: u8, answer: String, blk: Blk }
fn spell(s: &Sbx, name: &str, how: Spell) -> OsString {
    match how {
        Spell::Plain => name.into(),
        Spell::Dot => format!("./{name}").into(),
        Spell::DotDot => format!("sub/../{name}").into(),
        Spell::Abs => s.work.join(name).into(),
        Spell::Twice => format!(".//../work/./{name}").into(),
        Spell::ViaDirLink => format!("dlink/{name}").into(),
    }
}
fn spells() -> impl Strategy<Value = Spell> + Clone { prop::sample::select(&[Spell::Plain, Spell::Dot, Spell::DotDot, Spell::Abs, Spell::Twice, Spell::ViaDirLink][..]) }
fn same_case() -> impl Strategy<Value = SameCase> {
    (content(300), prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], spells(), prop::sample::select(&[Alias::Same, Alias::Sym, Alias::SymAbs, Alias::SymSym, Alias::Hard][..]),
        prop::option::weighted(0.75, spells()), 0u8..4, prop::sample::select(&["y\n", "Y\n", "n\n", "", "yes\n"][..]).prop_map(String::from), blk())
        .prop_map(|(content, dir, src, alias, dst, flags, answer, blk)| SameCase { content, dir, src, alias, dst, flags, answer, blk })
}
fn c17_same(ctx: &Ctx, case: &SameCase) -> Check {
    let s = Sbx::new(ctx);
    let plain = case.content.bytes();
    fs::create_dir(s.work.join("sub")).unwrap();
    std::os::unix::fs::symlink("../work", s.work.join("dlink")).unwrap();
    // where the result would go, and a source that is the same file
    let (src_name, bytes, dst_file) = match (case.dir, case.dst.is_some()) {
        // compressing appends .hff to what is named
        (Dir::Comp, true) => ("data.hff", plain.clone(), if case.alias == Alias::Same { "data.hff" } else { "alias.hff" }),
        (Dir::Comp, false) => ("data", plain.clone(), "data.hff"),
        (Dir::Dec, true) => ("data.hff", ref_write(&plain, &[], 0, &Shape::Balanced, false), if case.alias == Alias::Same { "data.hff" } else { "alias" }),
        (Dir::Dec, false) => ("data.hff", ref_write(&plain, &[], 0, &Shape::Balanced, false), "data"),
    };
    s.put(src_name, &bytes);
    if dst_file != src_name {
        let at = s.work.join(dst_file);
        match case.alias {
            // the default destination is never the source itself: make it a link
            Alias::Same | Alias::Sym => std::os::unix::fs::symlink(src_name, &at).unwrap(),
            Alias::SymAbs => std::os::unix::fs::symlink(s.work.join(src_name), &at).unwrap(),
            Alias::SymSym => { std::os::unix::fs::symlink(src_name, s.work.join("sub/hop")).unwrap(); fs::remove_file(s.work.join("sub/hop")).unwrap(); std::os::unix::fs::symlink(format!("../{src_name}"), s.work.join("sub/hop")).unwrap(); std::os::unix::fs::symlink("sub/hop", &at).unwrap() }
            Alias::Hard => fs::hard_link(s.work.join(src_name), &at).unwrap(),
        }
    }
    let mut a = vec![spell(&s, src_name, case.src)];
    if let Some(d) = case.dst {
        let named = if case.dir == Dir::Comp { dst_file.strip_suffix(".hff").unwrap() } else { dst_file };
        let d = spell(&s, named, d);
        // ./SRC_FILE given as the destination of -d stands for the default
        if case.dir == Dir::Dec && Path::new(&d) == Path::new(".").join(&a[0]) { return Ok(Info::new(false).label("stands for the default")); }
        a.push(d);
    }
    if case.dir == Dir::Dec { a.push("-d".into()) }
    if case.flags & 1 == 1 { a.push("-n".into()) }
    if case.flags & 2 == 2 { a.push("-r".into()) }
    case.blk.push(bytes.len(), &mut a);
    let o = huff(ctx, &s, &a, Opts { stdin: case.answer.as_bytes(), ..Default::default() })?;
    let what = format!("huff {a:?} (answer {:?}, destination is the source through {:?})", case.answer, case.alias);
    let src_now = s.get(src_name);
    let dst_now = s.get(dst_file);
    let result_there = dst_now.as_ref().is_some_and(|d| match case.dir { Dir::Dec => *d == plain && *d != bytes, Dir::Comp => *d != bytes && ref_read(d).ok().as_deref() == Some(&plain[..]) });
    let intact = src_now.as_deref() == Some(&bytes[..]);
    ensure!(intact || (case.flags & 2 == 2 && src_now.is_none() && result_there), "{what}: the source is {} ({})",
        match &src_now { None => "gone".to_string(), Some(b) => format!("altered: {}", diff_bytes(&bytes, b)) }, o.how());
    let default_elsewhere = case.dst.is_none() && s.snapshot().len() > 6; // e.g. an absolute source with a default destination elsewhere
    if o.ok() && case.flags & 1 == 1 && !default_elsewhere { ensure!(result_there || dst_file == "data", "{what}: exit status 0, but the destination does not hold the result"); }
    Ok(Info::new(true).label(format!("{:?} via {:?}", case.dir, case.alias)).label(if o.ok() { "exit 0" } else { "refused" }).label_if(case.flags & 2 == 2, "-r"))
}
// ---- refusals with -r
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Refusal { Declined(String), DstDir, DstDirMissing, DstUnderFile, BadBlock(String), Malformed(Vec<AMut>), NoExt, Empty, ReadOnlyDst, DstDirSlash }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RefuseCase { content: Content, dir: Dir, how: Refusal, noask: bool }
fn refuse_case() -> impl Strategy<Value = RefuseCase> {
    let how = prop_oneof![
        2 => prop::sample::select(&["n\n", "", "\n", "no\n", " y\n", "ny\n", "N\n", "1\n"][..]).prop_map(|s| Refusal::Declined(s.into())),
        1 => Just(Refusal::DstDir), 1 => Just(Refusal::DstDirMissing), 1 => Just(Refusal::DstUnderFile), 1 => Just(Refusal::DstDirSlash),
        1 => prop::sample::select(&["0", "", "x", "1x", "99999999999999999999", "18446744073709551615K", "1.5", "-1", "Ki"][..]).prop_map(|s| Refusal::BadBlock(s.into())),
        4 => prop::collection::vec(amut(), 1..4).prop_map(Refusal::Malformed),
        1 => Just(Refusal::NoExt), 1 => Just(Refusal::Empty), 1 => Just(Refusal::ReadOnlyDst),
    ];
    (content(300), prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], how, any::<bool>()).prop_map(|(content, dir, how, noask)| RefuseCase { content, dir, how, noask })
}
fn c17_refuse(ctx: &Ctx, case: &RefuseCase) -> Check {
    let s = Sbx::new(ctx);
    let plain = case.content.bytes();
    let mut bytes = match case.dir { Dir::Comp => plain.clone(), Dir::Dec => ref_write(&plain, &[], 0, &Shape::Balanced, false) };
    let mut src = match case.dir { Dir::Comp => "f", Dir::Dec => "f.hff" };
    let result = if case.dir == Dir::Comp { "g.hff" } else { "g" };
    let mut dst: OsString = "g".into();
    let mut dst_file = s.work.join(result);
    let mut a = vec![];
    let mut noask = case.noask;
    let mut stdin: &[u8] = b"y\n";
    let mut must_refuse = true;
    match &case.how {
        Refusal::Declined(t) => { s.put(result, b"old"); noask = false; stdin = t.as_bytes(); must_refuse = false }
        Refusal::DstDir => { fs::create_dir(s.work.join(result)).unwrap(); }
        Refusal::DstDirSlash => { fs::create_dir(s.work.join("d.hff")).unwrap(); dst = if case.dir == Dir::Comp { "d".into() } else { "d.hff/".into() }; dst_file = s.work.join("d.hff"); }
        Refusal::DstDirMissing => { dst = "no/such/g".into(); dst_file = s.work.join("no/such").join(result); }
        Refusal::DstUnderFile => { s.put("plain", b"x"); dst = "plain/g".into(); dst_file = s.work.join("plain").join(result); }
        Refusal::BadBlock(b) => { a.push(format!("--block-size={b}").into()); }
        Refusal::Malformed(m) => if case.dir == Dir::Dec {
            bytes = arch_bytes(&ArchCase { base: ArchBase::Made { content: case.content.clone(), writer: Writer::Library }, muts: m.clone(), blk: Blk::Default })?;
            must_refuse = matches!(judge(&bytes), Verdict::MustFail(_));
        } else { must_refuse = false },
        Refusal::NoExt => { if case.dir == Dir::Dec { src = "f.hf" } else { must_refuse = false } }
        Refusal::Empty => { bytes = vec![] }
        Refusal::ReadOnlyDst => { dst = "/dev/null/g".into(); dst_file = Path::new("/dev/null").join(result); }
    }
    s.put(src, &bytes);
    a.extend([src.into(), dst, "-r".into()]);
    if case.dir == Dir::Dec { a.push("-d".into()) }
    if noask { a.push("-n".into()) }
    let o = huff(ctx, &s, &a, Opts { stdin, ..Default::default() })?;
    let what = format!("huff {a:?} ({:?})", case.how);
    match s.get(src) {
        Some(b) => ensure!(b == bytes, "{what}: the source was altered"),
        None => {
            let d = fs::read(&dst_file).ok();
            let ok = d.is_some_and(|d| match case.dir {
                Dir::Comp => ref_read(&d).ok().as_deref() == Some(&bytes[..]),
                Dir::Dec => matches!(judge(&bytes), Verdict::May(want, _) if want == d),
            });
            ensure!(ok && !must_refuse && o.ok(), "{what}: the source is gone ({})", o.how());
        }
    }
    if must_refuse { ensure!(!o.ok(), "{what}: exit status 0") }
    Ok(Info::new(!o.ok() || matches!(case.how, Refusal::Declined(_))).label(format!("{:?} {}", case.dir, format!("{:?}", case.how).split(['(', ' ']).next().unwrap())).label(if o.ok() { "exit 0" } else { "refused" }))
}

// ------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Name(Vec<u8>);
fn name() -> impl Strategy<Value = Name> + Clone {
    static FIXED: &[&[u8]] = &[b"a", b"b.txt", b"c d", "ä.bin".as_bytes(), b"x.tar.gz", b".hidden", b"a.", b"A.HFF", b"b.hff", b"c.hff.hff", b"-dash", b"*", b"new\nline", b"\xff\xfe", b"\xff.hff", b"SRC_FILE", b"n'q\"$(x)", b"hff", b"..a", b"a..b", b"...", b"a.b.", b"x.hff.txt", b".h.hff", b"a.HFF.hff", b"SRC_FILE.hff", b" ", b"a .hff", b"%s%n", b"~", b"\\", b"a\\b.hff", b"q.hff.", b"\xc3.\x28"];
    let ch = prop_oneof![3 => prop::sample::select(&b"abhf.. -AHFZ09_~$'\"*?\\\xc3\xa4\xff\n"[..]), 1 => (1u8..=255).prop_map(|b| if b == b'/' { b'|' } else { b })];
    let ok = |v: &Vec<u8>| !v.is_empty() && v != b"." && v != b"..";
    let rnd = prop::collection::vec(ch, 1..9).prop_map(move |v| if ok(&v) { v } else { b"dots".to_vec() });
    let stem = rnd.clone();
    prop_oneof![
        4 => prop::sample::select(FIXED).prop_map(|b| Name(b.to_vec())),
        2 => rnd.prop_map(Name),
        3 => stem.prop_map(|mut v| { v.extend(b".hff"); Name(v) }),
        1 => Just(Name(b"b.hff".to_vec())), 1 => Just(Name(b"a".to_vec())),
        // as long as names can be, or nearly
        1 => (236usize..256, "[a-z.]{1,3}", 0u8..3).prop_map(|(n, e, k)| { let mut v = vec![b'n'; n]; let e = match k { 0 => ".hff", 1 => ".gz.hff", _ => &e }; v[n - e.len()..].copy_from_slice(e.as_bytes()); Name(v) }),
        // texts of the sources: alone, before or after something
        2 => (word(), 0u8..4).prop_map(move |(w, k)| { let v = match k { 0 => w, 1 => format!("a{w}"), 2 => format!("{w}b"), _ => format!("{w}.hff") }.into_bytes(); Name(if ok(&v) { v } else { b"dots".to_vec() }) }),
    ]
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Place { Cwd, Sub, Out }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step { dec: bool, src: u8, src_abs: bool, dst: Option<(Place, Pick, bool)>, noask: bool, replace: bool, time: bool, answer: Vec<u8>, style: u8, blk: Blk }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pick { New(Name), Existing(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World { files: Vec<(Place, Name, Content, bool)>, dirs: Vec<(Place, Name)>, links: Vec<(Place, Name, u8, u8)>, steps: Vec<Step> }
fn world() -> impl Strategy<Value = World> {
    let place = prop_oneof![4 => Just(Place::Cwd), 1 => Just(Place::Sub), 1 => Just(Place::Out)];
    let (place2, place3) = (place.clone(), place.clone());
    let files = prop::collection::vec((place.clone(), name(), content(300), prop::bool::weighted(0.5)), 2..7);
    let dirs = prop::collection::vec((place.clone(), name()), 0..2);
    let answer = prop_oneof![
        3 => prop::sample::select(&["y\n", "Y\n", "yes\n", "Yes\n", "YES", "y"][..]).prop_map(String::from),
        3 => prop::sample::select(&["n\n", "N\n", "\n", "", " y\n", "no\ny\n", "q", "nY\n", "\ty\n", "1\n", "true\n", "ok\n", "ÿ\n", "ý\n", "\u{fffd}y\n", "o y\n", "\ny\n"][..]).prop_map(String::from),
        1 => "[ -~]{0,4}\n?",
        1 => (word(), any::<bool>()).prop_map(|(w, n)| if n { w + "\n" } else { w }),
        1 => "y[ -~]{0,6}\n?",
    ].prop_map(String::into_bytes);
    // not text: what does not begin with y is no consent; what does may be refused
    let answer = prop_oneof![14 => answer, 1 => prop::collection::vec(prop_oneof![0x80u8..=0xff, 0u8..=255], 1..4).prop_map(|mut v| { if v[0] & 0xdf == b'Y' { v[0] = 0xff } v })];
    let pick = prop_oneof![3 => name().prop_map(Pick::New), 2 => any::<u8>().prop_map(Pick::Existing)];
    let step = (
        (any::<bool>(), any::<u8>(), prop::bool::weighted(0.2), prop::option::weighted(0.5, (place, pick, any::<bool>()))),
        (prop::bool::weighted(0.4), prop::bool::weighted(0.25), prop::bool::weighted(0.1), answer, any::<u8>(), blk()),
    ).prop_map(|((dec, src, src_abs, dst), (noask, replace, time, answer, style, blk))| Step { dec, src, src_abs, dst, noask, replace, time, answer, style, blk });
    // files named after one another, in the same place or elsewhere
    let kin = prop::collection::vec((any::<u8>(), prop::option::weighted(0.4, place2), 0u8..5, any::<bool>()), 0..3);
    let links = prop::collection::vec((place3, name(), any::<u8>(), 0u8..3), 0..3);
    (files, kin, dirs, links, prop::collection::vec(step, 1..7)).prop_map(|(mut files, kin, dirs, links, steps)| {
        for (k, p, op, arch) in kin {
            let (p0, n, c, _) = files[k as usize % files.len()].clone();
            let mut b = n.0.clone();
            match op {
                0 | 1 => b.extend(b".hff"),
                2 => b = stem_of_hff(&b).unwrap_or(b),
                3 => { if let Some(i) = b.iter().rposition(|c| *c == b'.') { b.truncate(i) } }
                _ => {}
            }
            if b.is_empty() || b == b"." || b == b".." || b.len() > 255 { continue }
            files.push((p.unwrap_or(p0), Name(b), c, arch));
        }
        World { files, dirs, links, steps }
    })
}
fn place_rel(p: Place) -> &'static str { match p { Place::Cwd => "work", Place::Sub => "work/sub", Place::Out => "out" } }
fn join(p: Place, n: &[u8]) -> PathBuf { Path::new(place_rel(p)).join(std::ffi::OsStr::from_bytes(n)) }
/// How a path below the top directory is named from the working directory.
fn from_cwd(s: &Sbx, rel: &Path, abs: bool, style: u8) -> PathBuf {
    if abs { return s.top.join(rel); }
    let p = match rel.strip_prefix("work") { Ok(r) => r.to_path_buf(), Err(_) => Path::new("..").join(rel) };
    let dash = p.as_os_str().as_bytes().starts_with(b"-");
    if dash || style & 1 == 1 { Path::new(".").join(p) } else { p }
}
fn stem_of_hff(n: &[u8]) -> Option<Vec<u8>> { n.strip_suffix(b".hff").filter(|s| !s.is_empty()).map(|s| s.to_vec()) }
fn c18(ctx: &Ctx, case: &World) -> Check {
    let s = Sbx::new(ctx);
    fs::create_dir_all(s.top.join("work/sub")).unwrap();
    fs::create_dir_all(s.top.join("out")).unwrap();
    for (p, n) in &case.dirs { let d = s.top.join(join(*p, &n.0)); if !d.exists() { fs::create_dir(d).unwrap(); } }
    for (p, n, c, arch) in &case.files {
        let f = s.top.join(join(*p, &n.0));
        if f.exists() { continue }
        let b = c.bytes();
        let b = if *arch || stem_of_hff(&n.0).is_some() { ref_write(&b, &[], b.len(), &Shape::Balanced, false) } else { b };
        fs::write(f, b).unwrap();
    }
    // links to the files, in directories or by the whole path, also to one another; an archive's link may be named otherwise
    for (p, n, to, how) in &case.links {
        let l = s.top.join(join(*p, &n.0));
        let all: Vec<PathBuf> = s.snapshot().into_iter().filter(|(_, n)| matches!(n, Node::File(_) | Node::Link(_))).map(|(p, _)| p).collect();
        if all.is_empty() || fs::symlink_metadata(&l).is_ok() { continue }
        let t = &all[*to as usize % all.len()];
        let t = match how {
            0 => s.top.join(t),
            _ => { let up = if *p == Place::Sub { "../.." } else { ".." }; Path::new(up).join(t) }
        };
        std::os::unix::fs::symlink(t, l).unwrap();
    }
    let mut model = s.snapshot();
    let (mut done, mut declined, mut replaced, mut refused, mut linked, mut too_long) = (0, 0, 0, 0, 0, 0);
    let mut info = Info::new(true);
    for (i, st) in case.steps.iter().enumerate() {
        // files, and links that lead to one
        let files: Vec<PathBuf> = model.iter().filter(|(p, n)| matches!(n, Node::File(_)) || matches!(n, Node::Link(_)) && s.top.join(p).is_file()).map(|(p, _)| p.clone()).collect();
        let cands: Vec<&PathBuf> = files.iter().filter(|p| {
            let n = p.file_name().unwrap().as_bytes();
            !st.dec || stem_of_hff(n).is_some()
        }).collect();
        if cands.is_empty() { continue }
        let src = cands[st.src as usize % cands.len()].clone();
        let bytes = match &model[&src] {
            Node::File(b) => b.clone(),
            _ => { linked += 1; match fs::canonicalize(s.top.join(&src)).ok().and_then(|p| p.strip_prefix(fs::canonicalize(&s.top).unwrap()).map(Path::to_path_buf).ok()).and_then(|p| model.get(&p).cloned()) { Some(Node::File(b)) => b, _ => continue } }
        };
        let sname = src.file_name().unwrap().as_bytes().to_vec();
        // expected result
        let result: Option<Vec<u8>> = if st.dec { match judge(&bytes) { Verdict::May(d, true) => Some(d), _ => None } } else { Some(bytes.clone()) };
        if !st.dec && bytes.is_empty() { continue }
        if st.dec && result.is_none() && !matches!(judge(&bytes), Verdict::MustFail(_)) { continue }
        // expected destination
        let dst: PathBuf = match &st.dst {
            None if !st.dec => { let mut n = sname.clone(); n.extend(b".hff"); join(Place::Cwd, &n) }
            None => {
                // documented for files of the current directory only
                if src.parent() != Some(Path::new("work")) || st.src_abs { continue }
                let stem = stem_of_hff(&sname).unwrap();
                if stem == b"." || stem == b".." { continue }
                join(Place::Cwd, &stem)
            }
            Some((p, pick, _)) => {
                let mut d = match pick {
                    Pick::New(n) => join(*p, &n.0),
                    Pick::Existing(k) => {
                        let f = &files[*k as usize % files.len()];
                        // to end up on an existing archive when compressing, name it without .hff
                        if st.dec { f.clone() } else { match stem_of_hff(f.file_name().unwrap().as_bytes()) { Some(x) if x != b"." && x != b".." => f.with_file_name(std::ffi::OsStr::from_bytes(&x)), _ => f.clone() } }
                    }
                };
                if !st.dec { let mut n = d.file_name().unwrap().as_bytes().to_vec(); n.extend(b".hff"); d.set_file_name(std::ffi::OsStr::from_bytes(&n)); }
                d
            }
        };
        // C17's business
        if dst == src || matches!(model.get(&dst), Some(Node::Link(_))) || fs::canonicalize(s.top.join(&dst)).is_ok_and(|d| fs::canonicalize(s.top.join(&src)).is_ok_and(|s| s == d)) { continue }
        let dst_arg = st.dst.as_ref().map(|(_, _, abs)| {
            let named = if st.dec { dst.clone() } else { let n = dst.file_name().unwrap().as_bytes(); dst.with_file_name(std::ffi::OsStr::from_bytes(&n[..n.len() - 4])) };
            from_cwd(&s, &named, *abs, st.style >> 1)
        });
        // the default value of the option is not a name one can ask for
        if dst_arg.as_deref() == Some(Path::new("./SRC_FILE.hff")) { continue }
        // nor is, when decompressing, the source's own default place
        if st.dec && dst_arg.as_deref() == Some(&Path::new(".").join(from_cwd(&s, &src, st.src_abs, st.style))) { continue }
        let mut a: Vec<OsString> = vec![];
        let src_arg: OsString = from_cwd(&s, &src, st.src_abs, st.style).into();
        let mut flags = String::new();
        if st.dec { flags.push('d') }
        if st.noask { flags.push('n') }
        if st.replace { flags.push('r') }
        if st.time { flags.push('t') }
        match st.style % 3 {
            0 => if !flags.is_empty() { a.push(format!("-{flags}").into()) },
            1 => for f in flags.chars() { a.push(format!("-{f}").into()) },
            _ => for f in flags.chars() { a.push(match f { 'd' => "--decompress", 'n' => "--noask", 'r' => "--replace", _ => "--time" }.into()) },
        }
        st.blk.push(bytes.len(), &mut a);
        if st.style & 16 == 16 { a.push("--".into()) }
        a.push(src_arg);
        if let Some(d) = dst_arg { a.push(d.into()) }
        let o = huff(ctx, &s, &a, Opts { stdin: &st.answer, ..Default::default() })?;
        let what = format!("step {i}: huff {a:?} (answer {:?})", String::from_utf8_lossy(&st.answer));
        ensure!(!o.panicked() && o.sig.is_none(), "{what}: {}", o.how());
        if dst.file_name().unwrap().len() > 255 {
            ensure!(!o.ok(), "{what}: exit status 0, though there can be no file with a name of {} bytes", dst.file_name().unwrap().len());
            if let Some(m) = tree_diff(&model, &s.snapshot()) { return bad(format!("{what}: the destination's name is too long, but {m}")); }
            too_long += 1;
            continue;
        }
        let exists = model.get(&dst).cloned();
        let yes = st.answer.first().is_some_and(|b| b.eq_ignore_ascii_case(&b'y'));
        let consent = exists.is_none() || st.noask || yes;
        let now = s.snapshot();
        if !consent || matches!(exists, Some(Node::Dir)) {
            if let Some(m) = tree_diff(&model, &now) { return bad(format!("{what}: {} is {}, so nothing may change, but {m}", dst.display(), if consent { "a directory" } else { "already there and not to be replaced" })); }
            declined += 1;
            continue;
        }
        if exists.is_some() { replaced += 1 }
        let Some(result) = result else {
            // a malformed archive: an error; only the destination may have been touched
            ensure!(!o.ok(), "{what}: exit status 0 for a malformed archive");
            let mut m2 = model.clone();
            m2.remove(&dst);
            let mut n2 = now.clone();
            n2.remove(&dst);
            if let Some(m) = tree_diff(&m2, &n2) { return bad(format!("{what}: failed, but {m}")); }
            model = now;
            refused += 1;
            continue;
        };
        ensure!(o.ok(), "{what}: {}", o.how());
        match now.get(&dst) {
            Some(Node::File(b)) => {
                if st.dec { ensure!(*b == result, "{what}: {} holds the wrong bytes: {}", dst.display(), diff_bytes(&result, b)); }
                else { match ref_read(b) { Ok(d) => ensure!(d == result, "{what}: {} decodes wrongly", dst.display()), Err(e) => return bad(format!("{what}: {} is not an archive: {e}", dst.display())) } }
                model.insert(dst.clone(), Node::File(b.clone()));
            }
            other => {
                let new: Vec<_> = now.keys().filter(|k| !model.contains_key(*k)).collect();
                return bad(format!("{what}: the result should be in {}, but it is {other:?} (new: {new:?})", dst.display()));
            }
        }
        if st.replace { model.remove(&src); }
        if let Some(m) = tree_diff(&model, &now) { return bad(format!("{what}: {m}")); }
        if st.time { ensure!(!o.stdout.trim().is_empty(), "{what}: no time printed") }
        done += 1;
    }
    info.nontrivial = done + declined > 0;
    Ok(info.label(format!("done:{done}")).label_if(declined > 0, "declined").label_if(replaced > 0, "replaced an existing file").label_if(refused > 0, "malformed archive").label_if(linked > 0, "the source is a link").label_if(too_long > 0, "the name gets too long").label_if(case.steps.iter().any(|s| s.replace), "-r"))
}

/// Files beside the destination: what the tool touches besides source and destination (if
/// anything) is first learnt from an undisturbed run, then put there beforehand; and after a
/// failure nothing else may be left behind.
fn c18_beside(ctx: &Ctx, case: &FaultCase) -> Check {
    let s = Sbx::new(ctx);
    let j = Job::of(case, case.replace);
    let d = dry(ctx, &s, &j)?;
    let rel = |p: &Path, s: &Sbx| -> Option<PathBuf> {
        let r = p.strip_prefix(&s.top).ok()?;
        Some(r.components().collect())
    };
    let (src, dst) = (Path::new("work").join(j.src_name), Path::new("work").join(j.dst_name));
    let mut beside: Vec<PathBuf> = d.touched.iter().filter_map(|p| rel(p, &s)).filter(|p| *p != src && *p != dst).collect();
    beside.sort();
    beside.dedup();
    // names commonly taken for files of one's own
    for (n, k) in [("{}.tmp", 1), ("{}.part", 1), ("{}~", 1), ("{}.bak", 1), (".{}.tmp", 1), ("tmp", 0), ("{}.old", 1), ("{}.swp", 1)] {
        let stem = if k == 1 && case.soft.len() % 2 == 0 { "g" } else { j.dst_name };
        beside.push(Path::new("work").join(n.replace("{}", stem)));
    }
    let s = Sbx::new(ctx);
    j.prepare(&s);
    for (i, p) in beside.iter().enumerate() {
        let f = s.top.join(p);
        if !f.exists() { let _ = fs::write(&f, format!("precious {i}")); }
    }
    let strip = |mut m: std::collections::BTreeMap<PathBuf, Node>, src_too: bool| { m.remove(&dst); if src_too { m.remove(&src); } m };
    let before = strip(s.snapshot(), case.replace);
    let o = huff(ctx, &s, &j.args, Opts { shim: true, ..Default::default() })?;
    if let Some(m) = tree_diff(&before, &strip(s.snapshot(), case.replace)) { return bad(format!("huff {:?}: {m} ({})", j.args, o.how())); }
    // failures leave nothing behind but the destination
    let cap = if ctx.tier == Tier::Quick { 10 } else { 60 };
    let mut failed = 0;
    for i in points(d.calls.len(), cap) {
        let s = Sbx::new(ctx);
        j.prepare(&s);
        let before = strip(s.snapshot(), case.replace);
        let plan = format!("{i}=E{}", if i % 2 == 0 { 5 } else { 28 });
        let o = huff(ctx, &s, &j.args, Opts { shim: true, plan: &plan, ..Default::default() })?;
        if !o.ok() { failed += 1 }
        if let Some(m) = tree_diff(&before, &strip(s.snapshot(), case.replace)) { return bad(format!("huff {:?} with errors from file operation {i} on: {m} ({})", j.args, o.how())); }
    }
    Ok(Info::new(failed > 0).label(format!("{:?}", case.dir)).label_if(beside.len() > 8, "touches other files"))
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizeCase { text: Vec<u8>, long: bool }
/// Units spelled with letters that are not ASCII but become so when their case changes.
fn lookalikes() -> Vec<String> {
    let like: Vec<char> = ('\u{80}'..=char::MAX).filter(|c| c.to_lowercase().chain(c.to_uppercase()).any(|d| "kmgibKMGIB0123456789".contains(d))).collect();
    like.iter().flat_map(|c| [format!("{c}"), format!("{c}i"), format!("{c}I"), format!("K{c}"), format!("k{c}"), format!("m{c}"), format!("g{c}")]).collect()
}
fn size_text() -> impl Strategy<Value = SizeCase> {
    let num = prop_oneof![
        3 => (0u64..20).prop_map(|n| n.to_string()),
        2 => any::<u64>().prop_map(|n| n.to_string()),
        2 => (0u32..64, any::<u64>()).prop_map(|(s, n)| (n >> s).to_string()),
        // around what fits when multiplied
        4 => (0usize..7, -2i128..=2).prop_map(|(u, d)| ((u64::MAX as u128 / UNITS[u].1) as i128 + d).to_string()),
        1 => "[0-9]{18,24}".prop_map(|s| s),
        1 => "0{1,22}[1-9][0-9]{0,4}".prop_map(|s| s),
        1 => "0{1,5}".prop_map(|s| s),
        1 => Just(String::new()),
        2 => magic(u64::MAX).prop_map(|n| n.to_string()),
    ];
    let unit = prop_oneof![
        4 => prop::sample::select(&["", "K", "M", "G", "Ki", "Mi", "Gi", "k", "m", "g", "ki", "mi", "gi", "KI", "kI", "mI", "GI"][..]).prop_map(|s| s.as_bytes().to_vec()),
        2 => prop::sample::select(&["B", "KB", "KiB", "T", "Ti", "b", "kk", "ik", "i", " K", "K ", "\n", ".5", ".", "e3", "_0", "k1", "K0", "-", "+1", "x10", "\0", "٣", "Kib", "1K", "G1", "ı", "Kı", "mİ", "\u{212a}", "\u{212a}i", "k\u{0131}", "\u{ff2b}", "м"][..]).prop_filter("no NUL in arguments", |s| !s.contains('\0')).prop_map(|s| s.as_bytes().to_vec()),
        1 => "[KMGkmgiIbB0-9 ._-]{0,3}".prop_map(|s| s.into_bytes()),
        1 => prop::collection::vec(0x80u8..=0xff, 1..3),
        // letters that become one another when their case changes
        1 => prop::sample::select(lookalikes()).prop_map(|s| s.into_bytes()),
    ];
    let prefix = prop_oneof![12 => Just(vec![]), 1 => Just(b" ".to_vec()), 1 => Just(b"+".to_vec()), 1 => Just(b"-".to_vec()), 1 => Just(b"0x".to_vec()), 1 => Just(b"k".to_vec())];
    (prefix, num, unit, any::<bool>()).prop_map(|(mut p, n, u, long)| { p.extend(n.bytes()); p.extend(u); SizeCase { text: p, long } })
        .prop_filter("-- ends the options and is no value", |c| c.text != b"--")
}
/// The documented grammar.
pub fn size_value(t: &[u8]) -> Option<u64> {
    let t = std::str::from_utf8(t).ok()?;
    let cut = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
    let (num, unit) = t.split_at(cut);
    if num.is_empty() { return None; }
    let mult = UNITS.iter().find(|u| u.0.eq_ignore_ascii_case(unit))?.1;
    let mut v = 0u128;
    for d in num.bytes() { v = v * 10 + (d - b'0') as u128; if v > u64::MAX as u128 { return None; } }
    let v = v * mult;
    if v == 0 || v > u64::MAX as u128 { None } else { Some(v as u64) }
}
fn c19_size(ctx: &Ctx, case: &SizeCase) -> Check {
    let s = Sbx::new(ctx);
    let plain = b"block sizes, block sizes and more block sizes";
    s.put("f", plain);
    s.put("a.hff", &ref_write(plain, &[], 0, &Shape::Balanced, false));
    let before = s.snapshot();
    let t = ostr(&case.text);
    let opt = if case.long { "--block-size" } else { "-b" };
    let want = size_value(&case.text);
    for dec in [false, true] {
        let mut a = if dec { args(&["-d", "a.hff", "g"]) } else { args(&["f"]) };
        a.push(opt.into());
        a.push(t.clone());
        // a size wrongly taken may make the tool run forever; what it has done by then counts
        let o = huff(ctx, &s, &a, Opts { stdin: b"y\n", cpu: if want.is_none() { Some(2) } else { None }, ..Default::default() })?;
        match want {
            Some(n) => {
                ensure!(o.ok(), "huff {a:?}: block size {n} is valid, but: {}", o.how());
                if dec { ensure!(s.get("g").as_deref() == Some(&plain[..]), "huff {a:?}: wrong result"); }
                else { ensure!(s.get("f.hff").and_then(|d| ref_read(&d).ok()).as_deref() == Some(&plain[..]), "huff {a:?}: wrong result"); }
            }
            None => {
                if let Some(m) = tree_diff(&before, &s.snapshot()) { return bad(format!("huff {a:?}: the block size is not valid, but {m}")); }
                if o.endless { return Err(Fail::Inconclusive(format!("huff {a:?} did not finish in time"))); }
                if let Err(m) = o.clean_error() { return bad(format!("huff {a:?}: the block size is not valid, but the tool {m}")); }
            }
        }
    }
    Ok(Info::new(true).label(match want { Some(n) if n > u64::MAX / 2 => "valid:huge", Some(n) if n > 1 << 40 => "valid:large", Some(_) => "valid", None => "invalid" }))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BadSrc { Missing(Name), MissingIn(Name), Dir(u8), Empty, NoExt(Name), UnderFile, EmptyName, Dangling, DirLink }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InvCase { bad: BadSrc, dec: bool, dst: u8, flags: u8, answer: bool, blk: Blk, style: u8 }
fn inv_case() -> impl Strategy<Value = InvCase> {
    let b = prop_oneof![
        2 => name().prop_map(BadSrc::Missing), 1 => name().prop_map(BadSrc::MissingIn), 6 => (0u8..20).prop_map(BadSrc::Dir),
        2 => Just(BadSrc::Empty), 3 => name().prop_map(BadSrc::NoExt), 1 => Just(BadSrc::UnderFile), 1 => Just(BadSrc::EmptyName), 1 => Just(BadSrc::Dangling), 1 => Just(BadSrc::DirLink),
    ];
    (b, any::<bool>(), 0u8..5, 0u8..8, any::<bool>(), blk(), any::<u8>()).prop_map(|(bad, dec, dst, flags, answer, blk, style)| InvCase { bad, dec, dst, flags, answer, blk, style })
}
/// Usage errors (not a block size option without a value: clap takes the default), and asking for help or the version.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Usage { Unknown(String), NoArgs, Surplus(String), Help(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UsageCase { u: Usage, flags: u8, at: u8, dst: bool, existing: bool }
fn usage_case() -> impl Strategy<Value = UsageCase> {
    let u = prop_oneof![
        4 => prop_oneof![
            // neither flags of the tool nor made of them
            "-[acefgijklmopqsuwxyz]", "-[drnt]{0,3}[acefgijklmopqsuwxyz]", "--[a-z]{1,3}[0-9_][a-z]{0,6}", Just("--decompres_".to_string()), Just("--replaces".to_string()),
            Just("--no-ask".to_string()), Just("--blocksize".to_string()), Just("--block_size=3".to_string()), Just("--times".to_string()), Just("--compress".to_string()), Just("--force".to_string()), Just("-1".to_string()),
        ].prop_map(Usage::Unknown),
        1 => Just(Usage::NoArgs),
        2 => prop_oneof![Just("third".to_string()), Just("f".to_string()), "[a-z]{1,8}"].prop_map(Usage::Surplus),
        3 => (0u8..4).prop_map(Usage::Help),
    ];
    (u, 0u8..16, any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(u, flags, at, dst, existing)| UsageCase { u, flags, at, dst, existing })
}
fn c19_usage(ctx: &Ctx, case: &UsageCase) -> Check {
    let s = Sbx::new(ctx);
    let dec = case.flags & 8 == 8;
    s.put("f", b"some text to compress");
    s.put("a.hff", &ref_write(b"some text to compress", &[], 0, &Shape::Balanced, false));
    if case.existing { s.put("g", b"old"); s.put("g.hff", b"old too"); }
    let before = s.snapshot();
    let mut a: Vec<OsString> = vec![];
    if dec { a.push("-d".into()) }
    if case.flags & 1 == 1 { a.push("-n".into()) }
    if case.flags & 2 == 2 { a.push("-r".into()) }
    if case.flags & 4 == 4 { a.push("-t".into()) }
    let mut paths = vec![OsString::from(if dec { "a.hff" } else { "f" })];
    if case.dst || matches!(case.u, Usage::Surplus(_)) { paths.push("g".into()) }
    match &case.u {
        Usage::NoArgs => paths.clear(),
        Usage::Surplus(t) => paths.push(t.into()),
        _ => {}
    }
    a.extend(paths);
    let at = case.at as usize % (a.len() + 1);
    match &case.u {
        Usage::Unknown(t) => a.insert(at, t.into()),
        Usage::Help(k) => a.insert(at, ["-h", "--help", "-V", "--version"][*k as usize].into()),
        _ => {}
    }
    let o = huff(ctx, &s, &a, Opts { stdin: b"y\n", ..Default::default() })?;
    if let Some(m) = tree_diff(&before, &s.snapshot()) { return bad(format!("huff {a:?}: {m}")); }
    if let Usage::Help(k) = &case.u {
        ensure!(o.ok(), "huff {a:?}: {}", o.how());
        let want: &[&str] = if *k < 2 { &["block-size", "decompress", "noask", "replace", "time", "SRC_FILE"] } else { &["huff"] };
        for w in want { ensure!(o.stdout.contains(w), "huff {a:?}: prints {:?}, which does not mention {w}", o.stdout); }
    } else if let Err(m) = o.clean_error() {
        return bad(format!("huff {a:?}: the tool {m}"));
    }
    Ok(Info::new(true).label(format!("{:?}", case.u).split(['(']).next().unwrap().to_string()))
}
fn c19_src(ctx: &Ctx, case: &InvCase) -> Check {
    let s = Sbx::new(ctx);
    fs::create_dir_all(s.work.join("sub/deep")).unwrap();
    fs::create_dir_all(s.work.join("d.hff")).unwrap();
    s.put("keep", b"keep me");
    s.put("keep.hff", b"keep me too");
    let mut dec = case.dec;
    let src: OsString = match &case.bad {
        BadSrc::Missing(n) => { let p = s.work.join(ostr(&n.0)); if p.exists() { return Ok(Info::new(false).label("name taken")); } from_cwd(&s, &Path::new("work").join(ostr(&n.0)), case.style & 2 == 2, case.style).into() }
        BadSrc::MissingIn(n) => Path::new("nowhere").join(ostr(&n.0)).into(),
        BadSrc::Dir(k) => match k % 20 {
            0 => ".".into(), 1 => "..".into(), 2 => "/".into(), 3 => "./".into(), 4 => "sub".into(), 5 => "sub/".into(), 6 => "sub/.".into(), 7 => "sub/..".into(),
            8 => s.work.clone().into(), 9 => s.work.join("sub/deep/..").into(), 10 => "../work".into(), 11 => "d.hff".into(), 12 => "d.hff/".into(), 13 => "./d.hff/.".into(),
            14 => "../..".into(), 15 => "../".into(), 16 => "//".into(), 17 => "sub/deep/../..".into(), 18 => ".//.".into(), _ => "/..".into(),
        },
        BadSrc::Empty => { let n = if dec { "e.hff" } else { "e" }; s.put(n, b""); n.into() }
        BadSrc::NoExt(n) => {
            dec = true;
            let name = &n.0;
            // what counts as the extension of names that are nothing but it is not documented
            if name.ends_with(b".hff") { return Ok(Info::new(false).label("has the extension")); }
            let p = s.work.join(ostr(name));
            if p.exists() { return Ok(Info::new(false).label("name taken")); }
            fs::write(p, ref_write(b"abc", &[], 0, &Shape::Balanced, false)).unwrap();
            from_cwd(&s, &Path::new("work").join(ostr(name)), case.style & 2 == 2, case.style).into()
        }
        BadSrc::UnderFile => "keep/x.hff".into(),
        BadSrc::EmptyName => "".into(),
        BadSrc::Dangling => { std::os::unix::fs::symlink("gone.hff", s.work.join("l.hff")).unwrap(); "l.hff".into() }
        BadSrc::DirLink => { std::os::unix::fs::symlink("sub", s.work.join("l.hff")).unwrap(); "l.hff".into() }
    };
    let before = s.snapshot();
    let mut a = vec![];
    if dec { a.push("-d".into()) }
    if case.flags & 1 == 1 { a.push("-n".into()) }
    if case.flags & 2 == 2 { a.push("-r".into()) }
    if case.flags & 4 == 4 { a.push("-t".into()) }
    case.blk.push(100, &mut a);
    a.push(src);
    match case.dst { 0 | 1 => {} 2 => a.push("new".into()), 3 => a.push("keep".into()), _ => a.push("sub/new".into()) }
    let o = huff(ctx, &s, &a, Opts { stdin: if case.answer { b"y\n" } else { b"n\n" }, ..Default::default() })?;
    let after = s.snapshot();
    // decompressing an empty file fails on its contents, after the destination was opened: C15
    let contents_only = matches!(case.bad, BadSrc::Empty) && dec;
    if let Some(m) = tree_diff(&before, &after) {
        if !contents_only { return bad(format!("huff {a:?} ({:?}): {m}", case.bad)); }
    }
    // an existing destination that is not to be replaced ends the run before the source is looked at
    let asked = o.stdout.contains('?') || o.stdout.contains("[Y/N]");
    if asked && !case.answer && o.ok() { return Ok(Info::new(true).label("declined")); }
    if let Err(m) = o.clean_error() { return bad(format!("huff {a:?} ({:?}): the tool {m}", case.bad)); }
    Ok(Info::new(true).label(format!("{:?}{}", case.bad, if dec { " -d" } else { "" }).split(['(']).next().unwrap().to_string()).label_if(dec, "-d"))
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase { dir: Dir, blk: u32, unit: u8, small: u8, factor: u8, alpha: u16, skew: u8, seed: u64 }
fn mem_case() -> impl Strategy<Value = MemCase> {
    (prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], prop_oneof![1 => 1u32..100, 2 => 100u32..1000], 0u8..3, 2u8..5, 12u8..24, prop_oneof![Just(1u16), 2u16..20, 20u16..257], 0u8..5, any::<u64>())
        .prop_map(|(dir, blk, unit, small, factor, alpha, skew, seed)| MemCase { dir, blk, unit, small, factor, alpha, skew, seed })
}
const SLACK: usize = 64 << 10;
fn c20(ctx: &Ctx, case: &MemCase) -> Check {
    let s = Sbx::new(ctx);
    // block sizes from 100 kB (or 100 KiB) to about 1 MB, spelled in different units
    let (bs, text) = match case.unit { 0 => (case.blk.max(100) as usize * 1000, format!("{}K", case.blk.max(100))), 1 => (case.blk.max(100) as usize * 1024, format!("{}ki", case.blk.max(100))), _ => (case.blk.max(100) as usize * 1000 + 17, format!("{}", case.blk.max(100) * 1000 + 17)) };
    let make = |len: usize| -> Vec<u8> {
        let plain = Content::Mix { alpha: case.alpha, len: len as u32, skew: case.skew, seed: case.seed, base: 3 }.bytes();
        if case.dir == Dir::Comp { return plain; }
        // an archive of about that size: equal-length codes over all bytes
        let ls: Vec<u128> = (0..256).collect();
        let mut v = write_container(&build_shape(&ls, &Shape::Balanced), 8, &[]);
        v.extend(plain);
        v
    };
    let mut peak = vec![];
    let mut max_read = 0;
    for k in [case.small as usize, case.small as usize * case.factor as usize] {
        let data = make(bs * k + 11);
        let (name, a) = match case.dir { Dir::Comp => ("f", args(&["-n", "-b", &text, "f", "g"])), Dir::Dec => ("f.hff", args(&["-dn", "-b", &text, "f.hff", "g"])) };
        s.put(name, &data);
        let o = huff(ctx, &s, &a, Opts { shim: true, ..Default::default() })?;
        ensure!(o.ok(), "huff {a:?} on {} bytes: {}", data.len(), o.how());
        for c in &o.calls {
            if c.kind == "read" && c.res > 0 {
                max_read = max_read.max(c.res as usize);
                ensure!(c.res as usize <= bs.max(SLACK) , "huff {a:?}: {} bytes read at one time, the block size is {bs}", c.res);
            }
        }
        ensure!(o.calls.iter().any(|c| c.kind == "read"), "huff {a:?}: the source was not read");
        let Some(h) = o.hwm_kib else { return Err(Fail::Inconclusive("no peak memory reported".into())) };
        peak.push((data.len(), h as usize * 1024));
        let _ = fs::remove_file(s.work.join("g"));
        let _ = fs::remove_file(s.work.join("g.hff"));
    }
    let grown = peak[1].0 - peak[0].0;
    let more = peak[1].1.saturating_sub(peak[0].1);
    // the block and what is derived from it is the same in both runs; allow for allocator noise
    let allow = 8 * bs + (4 << 20);
    if grown > 2 * allow {
        ensure!(more <= allow.max(grown / 4), "block size {bs}: peak memory {} for {} bytes, {} for {} bytes", peak[0].1, peak[0].0, peak[1].1, peak[1].0);
    }
    Ok(Info::new(true).label(format!("{:?}", case.dir)).label_if(max_read * 2 > bs, "reads of a whole block").label_if(grown > 2 * allow, "memory compared"))
}
/// Blocks far smaller than the files, so that there are thousands of them.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TinyCase { dir: Dir, bs: u32, small: u32, large: u32, alpha: u16, skew: u8, seed: u64 }
fn tiny_case() -> impl Strategy<Value = TinyCase> {
    // counting a block takes a dozen threads, so there are fewer of them to compress
    let bs = prop_oneof![2 => (0u32..17, any::<u32>()).prop_map(|(s, n)| (1 << s) + n % (1 << s)), 1 => magic(100_000).prop_map(|n| n.max(1) as u32)];
    (prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], bs, 100_000u32..400_000, 4_000_000u32..7_000_000, prop_oneof![Just(1u16), 2u16..20, 20u16..257], 0u8..5, any::<u64>())
        .prop_map(|(dir, bs, small, large, alpha, skew, seed)| TinyCase { dir, bs: if dir == Dir::Comp { bs.max(3000) } else { bs }, small, large, alpha, skew, seed })
}
fn c20_tiny(ctx: &Ctx, case: &TinyCase) -> Check {
    let s = Sbx::new(ctx);
    let bs = case.bs as usize;
    let mut peak = vec![];
    for len in [case.small, case.large] {
        let mut data = Content::Mix { alpha: case.alpha, len, skew: case.skew, seed: case.seed, base: 3 }.bytes();
        if case.dir == Dir::Dec {
            let mut v = write_container(&build_shape(&(0..256).collect::<Vec<u128>>(), &Shape::Balanced), 8, &[]);
            v.extend(data);
            data = v;
        }
        let (name, mut a) = match case.dir { Dir::Comp => ("f", args(&["-n", "f", "g"])), Dir::Dec => ("f.hff", args(&["-dn", "f.hff", "g"])) };
        a.extend(args(&["-b", &bs.to_string()]));
        s.put(name, &data);
        let o = huff(ctx, &s, &a, Opts { shim: true, ..Default::default() })?;
        ensure!(o.ok(), "huff {a:?} on {} bytes: {}", data.len(), o.how());
        if let Some(c) = o.calls.iter().find(|c| c.kind == "read" && c.res > bs.max(SLACK) as i64) { return bad(format!("huff {a:?}: {} bytes read at one time, the block size is {bs}", c.res)); }
        let Some(h) = o.hwm_kib else { return Err(Fail::Inconclusive("no peak memory reported".into())) };
        peak.push(h as usize * 1024);
        let _ = fs::remove_file(s.work.join("g"));
        let _ = fs::remove_file(s.work.join("g.hff"));
    }
    let allow = 16 * bs + if case.dir == Dir::Comp { 512 << 10 } else { 256 << 10 };
    let more = peak[1].saturating_sub(peak[0]);
    ensure!(more <= allow, "block size {bs}: peak memory {} for {} bytes, {} for {} bytes", peak[0], case.small, peak[1], case.large);
    Ok(Info::new(true).label(format!("{:?}", case.dir)).label(block_label(case.large as usize / bs)))
}
/// Block sizes of gigabytes, on sparse files; the command is killed at its second read.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GigaCase { dir: Dir, text: String, bytes: u64 }
fn c20_giga(ctx: &Ctx, case: &GigaCase) -> Check {
    let s = Sbx::new(ctx);
    let name = if case.dir == Dir::Comp { "f" } else { "f.hff" };
    let p = s.work.join(name);
    if case.dir == Dir::Dec { fs::write(&p, write_container(&build_shape(&(0..256).collect::<Vec<u128>>(), &Shape::Balanced), 8, &[])).unwrap(); } else { fs::write(&p, b"x").unwrap(); }
    let f = fs::OpenOptions::new().write(true).open(&p).unwrap();
    f.set_len(case.bytes * 3 + 1000).unwrap();
    // every read transfers little, so that nothing big is really loaded
    let mut a = args(&["-n", name, "g"]);
    if case.dir == Dir::Dec { a.push("-d".into()) }
    if !case.text.is_empty() { a.extend(args(&["-b", &case.text])) }
    let o = huff(ctx, &s, &a, Opts { shim: true, plan: "*=s64,40=k", expect_kill: true, ..Default::default() })?;
    let mut worst = 0;
    for c in o.calls.iter().filter(|c| c.kind == "read") {
        worst = worst.max(c.len);
        ensure!(c.len as u64 <= case.bytes.max(SLACK as u64), "huff {a:?}: asks for {} bytes at one time, the block size is {}", c.len, case.bytes);
    }
    ensure!(worst > 0, "huff {a:?} on a large file reads nothing: {}", o.how());
    Ok(Info::new(true).label(format!("{:?} {}", case.dir, case.text)))
}

/// Files longer than 32 bits can tell, sparse. The command is killed early on (it must not have
/// finished by then), except in full runs.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VastCase { dir: Dir, len: u64, blk: String, kill: u16 }
fn vast_case() -> impl Strategy<Value = VastCase> {
    let len = (prop_oneof![4 => Just(32u32), 2 => Just(31), 1 => Just(33), 1 => Just(34)], prop_oneof![4 => 0i64..70, 1 => -3i64..0, 1 => 0i64..5000]).prop_map(|(b, d)| ((1i64 << b) + d) as u64);
    (prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], len, prop_oneof![1 => Just(String::new()), 2 => (100u32..5000).prop_map(|n| n.to_string()), 1 => Just("2G".to_string()), 1 => Just("5G".to_string())], 60u16..200)
        .prop_map(|(dir, len, blk, kill)| VastCase { dir, len, blk, kill })
}
fn c13_vast(ctx: &Ctx, case: &VastCase) -> Check {
    let s = Sbx::new(ctx);
    let (name, dst) = if case.dir == Dir::Comp { ("f", "g.hff") } else { ("f.hff", "g") };
    let p = s.work.join(name);
    // a lone letter: one bit for each
    let head = if case.dir == Dir::Dec { let mut v = write_container(&build_shape(&[0], &Shape::Balanced), 8, &[]); v[0] &= 0xf0; v } else { vec![] };
    fs::write(&p, &head).expect("scratch");
    fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(case.len)).expect("scratch");
    let mut a = args(&["-n", name, "g"]);
    if case.dir == Dir::Dec { a.push("-d".into()) }
    if !case.blk.is_empty() { a.extend(args(&["-b", &case.blk])) }
    let o = huff(ctx, &s, &a, Opts { shim: true, plan: &format!("*=s64,{}=k", case.kill), expect_kill: true, ..Default::default() })?;
    let read: i64 = o.calls.iter().filter(|c| c.kind == "read").map(|c| c.res.max(0)).sum();
    ensure!(o.sig == Some(libc::SIGKILL), "huff {a:?} on a file of {} bytes ends after reading {read} of them: {} (result: {:?} bytes)", case.len, o.how(), fs::metadata(s.work.join(dst)).map(|m| m.len()).ok());
    Ok(Info::new(true).label(format!("{:?}", case.dir)))
}

fn huge_blk() -> impl Strategy<Value = Blk> + Clone {
    prop_oneof![1 => Just(Blk::Default), 2 => (60_000u32..2_000_000).prop_map(Blk::Abs), 1 => (1u16..4, 4u8..7).prop_map(|(n, u)| Blk::Unit(n, u)), 2 => (1u8..9, -2i8..=2).prop_map(|(den, delta)| Blk::Of { den, delta })]
}
pub fn property(id: &str) -> Option<Property> {
    let c = |content: Content, comp: Blk, dec: Vec<Blk>| TripCase { content, comp, dec };
    let of = |den, delta| Blk::Of { den, delta };
    let text = Content::Bytes(b"abracadabra, a file of some letters for the tool".to_vec());
    let trips = || {
        let mut v = vec![];
        for n in 1..=20u32 { v.push(c(text.clone(), Blk::Abs(n), vec![Blk::Abs(n), Blk::Default, Blk::Abs(21 - n)])); }
        for len in [1u32, 2, 7, 8, 9, 16, 8191, 8192, 8193, 16_384, 24_577] {
            for comp in [Blk::Default, of(1, 0), of(2, 0), of(3, 1), Blk::Abs(8192)] {
                v.push(c(Content::Mix { alpha: 5, len, skew: 1, seed: len as u64, base: 0 }, comp, vec![of(1, 0), of(2, 0), Blk::Abs(8192)]));
            }
            v.push(c(Content::Rep(0, len), of(2, 0), vec![of(2, 0)]));
        }
        for n in [17u8, 20, 22] { v.push(c(Content::Fib { n, seed: n as u64 }, of(7, 0), vec![of(3, 0), of(5, 1)])); }
        v.push(c(Content::Mix { alpha: 256, len: 256, skew: 4, seed: 1, base: 0 }, of(3, 0), vec![of(3, 0), Blk::Abs(1)]));
        v
    };
    // past 2^20 bytes and 2^24 bits, blocks of up to some megabytes
    let mix = |alpha, len, skew| Content::Mix { alpha, len, skew, seed: 77, base: 9 };
    let huge = || vec![
        c(mix(250, 3_500_000, 0), Blk::Default, vec![Blk::Default, Blk::Unit(1, 6)]),
        c(mix(6, 9_000_000, 2), Blk::Unit(1, 6), vec![Blk::Abs(1_000_003)]),
        c(Content::Rep(200, 17_000_000), Blk::Unit(2, 6), vec![Blk::Default]),
        c(mix(256, 2_200_000, 1), Blk::Abs(65_537), vec![Blk::Abs(65_536)]),
        c(Content::Fib { n: 30, seed: 5 }, Blk::Abs(300_001), vec![of(2, 1)]),
    ];
    let huge_case = || (prop_oneof![3 => (2u16..257, 1_000_000u32..3_000_000, 0u8..4, any::<u64>()).prop_map(|(alpha, len, skew, seed)| Content::Mix { alpha, len, skew, seed, base: 5 }), 1 => (any::<u8>(), 1_000_000u32..20_000_000).prop_map(|(b, n)| Content::Rep(b, n))], huge_blk(), huge_blk())
        .prop_map(|(content, comp, dec)| TripCase { content, comp, dec: vec![dec] });
    let fc = |content: Content, dir: Dir, blk: Blk, replace: bool| FaultCase { content, dir, blk, shape: Shape::Balanced, replace, existing: None, soft: vec![Soft::ShortAll(1), Soft::EintrEvery(3)] };
    let faults = move |text: Content| {
        let mut v = vec![];
        for dir in [Dir::Comp, Dir::Dec] { for replace in [false, true] {
            v.push(fc(text.clone(), dir, Blk::Default, replace));
            v.push(fc(text.clone(), dir, Blk::Of { den: 3, delta: 0 }, replace));
            v.push(fc(Content::Mix { alpha: 30, len: 30_000, skew: 1, seed: 5, base: 0 }, dir, Blk::Of { den: 4, delta: 0 }, replace));
            v.push(fc(Content::Mix { alpha: 200, len: 20_000, skew: 0, seed: 6, base: 0 }, dir, Blk::Default, replace));
            v.push(fc(Content::Bytes(vec![7]), dir, Blk::Abs(1), replace));
        } }
        v
    };
    Some(match id {
        "C13" => Property { id: "C13", rule: "Cases are (file content, block size for compressing, 1-3 block sizes for decompressing); block sizes are small numbers, divisors of the file or archive length plus or minus two, units, or the default. Non-trivial: at least one side spans several blocks.", assumptions: vec!["files up to 100 kB (quick) and 500 kB (thorough); at most 500 blocks per run", "on files of 2 to 16 GiB only that the tool does not take them for shorter ones (it is killed after some hundred operations)"], families: vec![
            family("C13", "round-trip", 2_600, 60_000, trips(), || trip_case(20_000), c13),
            family("C13", "larger", 160, 4_000, vec![], || trip_case(100_000), c13),
            family("C13", "huge", 8, 200, huge(), huge_case, c13),
            family("C13", "vast", 48, 1_000, vec![], vast_case, c13_vast),
        ] },
        "C14" => Property { id: "C14", rule: "Cases are (file, block size) for what the tool writes, judged by an independent reader, the optimal cost and the library; and (file, writer, block sizes) for what it reads, writers being the library, the library with generated trees and the reference model with arbitrary shapes. Non-trivial: two or more distinct bytes (written), two or more bytes (read).", assumptions: vec!["padding bits have no specified value"], families: vec![
            family("C14", "written", 3_000, 80_000, trips(), || trip_case(20_000), c14_out),
            family("C14", "written-larger", 160, 4_000, vec![], || trip_case(100_000), c14_out),
            family("C14", "written-huge", 8, 200, huge(), huge_case, c14_out),
            family("C14", "read", 3_000, 80_000, [Shape::Left, Shape::Right, Shape::Zig].iter().map(|sh| InCase { content: Content::Mix { alpha: 256, len: 3000, skew: 4, seed: 3, base: 0 }, writer: Writer::Other { extra: (0..=255).collect(), rot: 1, shape: sh.clone(), dup: false }, dec: vec![Blk::Default, Blk::Abs(1000), Blk::Of { den: 2, delta: 0 }] }).collect(),
                || (content(3_000), writer(), prop::collection::vec(blk(), 1..3)).prop_map(|(content, writer, dec)| InCase { content, writer, dec }), c14_in),
        ] },
        "C15" => Property { id: "C15", rule: "Cases are archive contents: archives of the library, of the tool's format by other writers, and raw bytes, with up to three mutations (bytes, bits, cuts, insertions, tree length, paddings), and trees nested up to millions of levels. Non-trivial: mutated or not a made archive.", assumptions: vec!["trees nested deeper than 1000 levels and archives without data may be refused or decoded"], families: vec![
            family("C15", "mutated", 6_000, 150_000, (0..16u8).flat_map(|p| [vec![0x70 | p, 0, 0, 0, 2, 0x30, 0x80, 0x00], vec![0x70 | p, 0, 0, 0, 2, 0x30, 0x80], vec![p << 4, 0, 0, 0, 2, 0x30, 0x80, 0], vec![0x70 | p, 0, 0, 0, 0, 0x30, 0x80, 0]]).map(|v| ArchCase { base: ArchBase::Raw(v), muts: vec![], blk: Blk::Default }).chain((0..8usize).map(|n| ArchCase { base: ArchBase::Raw(vec![0x70, 0, 0, 0, 2, 0x30, 0x80][..n.min(7)].to_vec()), muts: vec![], blk: Blk::Abs(3) })).collect(), arch_case, c15),
            family("C15", "deep", 300, 6_000, [7000u32, 100_000, 5_000_000].iter().map(|n| ArchCase { base: ArchBase::Nested(*n), muts: vec![], blk: Blk::Default }).collect(), deep_case, c15),
        ] },
        "C16" => Property { id: "C16", rule: "For each case (file, direction, block size, flags, existing destination) the tool runs once undisturbed to list its file operations, then once per operation and fault: every open, read, write and seek failing once and for good (hard; at most 36 operations per case in the quick tier, first, last and a spread), every transfer interrupted or cut short (soft), and generated mixtures. Non-trivial: at least one fault was delivered.", assumptions: vec!["faults are injected at the C library interface, on files below the scratch directory only", "failing close, fstat and unlink are not injected, except that status 0 still requires a complete result"], families: vec![
            family("C16", "hard", 90, 2_000, faults(text.clone()), || fault_case(12_000), c16_hard),
            family("C16", "soft-each", 60, 1_200, faults(text.clone()), || fault_case(12_000), c16_soft_each),
            family("C16", "soft-mixed", 1_600, 40_000, faults(text), || fault_case(20_000), c16_soft),
        ] },
        "C17" => Property { id: "C17", rule: "For each case the tool is killed before, after and in the middle of every file operation and given one-time and lasting errors at each (at most 30 operations per case in the quick tier), with and without -r; and is run with destinations that are the source by another spelling, symbolic or hard link, and in ways it must refuse, with -r. Non-trivial: at least one disturbed run; a destination that is the source; a refused run.", assumptions: vec!["a kill is SIGKILL of the process; loss of data in the page cache (power failure) is not modelled"], families: vec![
            family("C17", "faults", 90, 2_000, faults(Content::Bytes(b"the source is never lost or altered".to_vec())), || fault_case(12_000), c17_faults),
            family("C17", "same-file", 2_500, 50_000, vec![], same_case, c17_same),
            family("C17", "refusals", 2_500, 50_000, vec![], refuse_case, c17_refuse),
        ] },
        "C18" => Property { id: "C18", rule: "Cases are a directory tree (files with unusual names, directories) and up to six invocations with generated sources, destinations, flags and answers; after each the whole tree is compared with a model. Non-trivial: at least one invocation did its work or was declined.", assumptions: vec!["-d with a source outside the current directory or given by absolute path needs an explicit destination (its default is not documented)", "a destination argument spelled ./SRC_FILE.hff means the default", "existing destinations that are links are left to C17"], families: vec![
            family("C18", "histories", 2_400, 60_000, vec![], world, c18),
            family("C18", "beside", 160, 4_000, vec![], || fault_case(3_000), c18_beside),
        ] },
        "C19" => Property { id: "C19", rule: "Cases are block size texts from a grammar around the documented one, tried in both directions, and invalid sources (missing, directories in many spellings, empty, wrong extension) with generated flags and destinations, and usage errors and requests for help. Every case that is not skipped for a name clash is non-trivial.", assumptions: vec!["letters whose lower case is an ASCII letter without being one (the Kelvin sign) are not generated", "an empty archive to decompress is C15's"], families: vec![
            family("C19", "block-size", 3_500, 80_000, vec![], size_text, c19_size),
            family("C19", "source", 3_500, 80_000, (0..20u8).flat_map(|k| [false, true].map(|dec| InvCase { bad: BadSrc::Dir(k), dec, dst: 0, flags: 0, answer: true, blk: Blk::Default, style: 0 })).collect(), inv_case, c19_src),
            family("C19", "usage", 1_200, 30_000, vec![], usage_case, c19_usage),
        ] },
        "C20" => Property { id: "C20", rule: "Cases are (direction, block size of 100 kB to 1 MB in different units, file of 2-4 blocks and one 12-24 times larger); every read's size and the peak resident memory are compared. Blocks of 1 byte to 100 kB are tried on files of up to 7 MB. Block sizes of gigabytes are tried on sparse files up to the first reads. Every case is non-trivial.", assumptions: vec!["a fixed buffer of up to 64 KiB is allowed", "peak memory is taken from VmHWM; a quarter of the growth of the file or 8 blocks + 4 MiB of noise is tolerated (small blocks: 16 blocks + 512 KiB)"], families: vec![
            family("C20", "memory", 24, 400, [Dir::Comp, Dir::Dec].iter().flat_map(|d| [0u8, 1, 2].map(|unit| MemCase { dir: *d, blk: 150, unit, small: 2, factor: 20, alpha: 40, skew: 0, seed: 9 })).collect(), mem_case, c20),
            family("C20", "tiny", 24, 300, vec![], tiny_case, c20_tiny),
            family("C20", "gigabytes", 0, 0, [Dir::Comp, Dir::Dec].iter().flat_map(|d| [("1G", 1_000_000_000u64), ("1g", 1_000_000_000), ("1Gi", 1 << 30), ("2gI", 2 << 30), ("", 2_000_000_000), ("700m", 700_000_000), ("700Mi", 700 << 20), ("3K", 3000), ("3Ki", 3072), ("5000000", 5_000_000), ("0007M", 7_000_000)].map(|(t, b)| GigaCase { dir: *d, text: t.into(), bytes: b })).collect(), || (Just(Dir::Comp), Just(String::new()), Just(0u64)).prop_map(|(dir, text, bytes)| GigaCase { dir, text, bytes }), c20_giga),
        ] },
        _ => return None,
    })
}
