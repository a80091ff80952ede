//! C25 (what surrounds a run does not matter) and C26 (work in proportion to the data).
use crate::cli::*;
use crate::dict::{magic, word};
use crate::engine::*;
use crate::{ensure, with_int, with_kind};
use crate::letters::*;
use crate::props_cli::Dir;
use crate::refimpl::*;
use huff_coding::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::fs;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ C25
/// One run of the tool on the same bytes in other circumstances.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Variant { blk: Blk, around: Around, name: String, cwd: u8, dst: u8, res: String, order: u8, old: Option<u16>, time: bool, stamp: Option<u32>, mode: u16, before: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AroundCase { content: Content, dir: Dir, shape: Shape, variants: Vec<Variant> }
fn around() -> impl Strategy<Value = Around> + Clone {
    // variables the sources mention, and some that tools tend to look at
    let key = prop_oneof![
        3 => word().prop_filter_map("a name", |w| if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !w.starts_with("LD_") && !w.starts_with("MALLOC") { Some(w) } else { None }),
        4 => prop::sample::select(&["HUFF", "HUFF_OPTS", "HUFF_BLOCK_SIZE", "HUFF_THREADS", "THREADS", "RAYON_NUM_THREADS", "RUST_BACKTRACE", "RUST_MIN_STACK", "NO_COLOR", "TERM", "COLUMNS", "LC_ALL", "LANG", "TZ", "USER", "SHELL", "SOURCE_DATE_EPOCH", "BLOCK_SIZE", "POSIXLY_CORRECT", "DEBUG", "VERBOSE", "CI"][..]).prop_map(String::from),
        4 => prop::sample::select(&["TMPDIR", "TMP", "TEMP", "HOME", "PWD", "OLDPWD", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR"][..]).prop_map(String::from),
    ];
    let value = prop_oneof![
        2 => prop::sample::select(&["", "0", "1", "7", "65536", "2G", "true", "x", "-d", "-r", "C", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "\u{e4}"][..]).prop_map(String::from),
        3 => prop::sample::select(&["@/tmp", "@/missing/dir", "@/t/out", "@/t", "@/stdin", "relative", ".", "/dev/null"][..]).prop_map(String::from),
        1 => (1u32..100_000).prop_map(|n| n.to_string()),
    ];
    let env = prop::collection::vec((key, value), 0..6).prop_map(|v| v.into_iter().map(|(k, v)| {
        // a minimal stack is the business of the standard library
        let v = if k == "RUST_MIN_STACK" && v.parse::<u64>().map_or(true, |n| n < 1 << 21) { "4194304".into() } else { v };
        (k, v)
    }).collect());
    (env, prop::bool::weighted(0.3), 0u8..5, 0u8..3, prop::option::weighted(0.3, prop::sample::select(&["huff", "", "x", "./huff", "-", "unhuff", "hff", "/nowhere/huff.exe", "dehuff", "huff-d"][..]).prop_map(String::from)),
        prop::option::weighted(0.3, prop::sample::select(&[0u16, 0o22, 0o77, 0o777, 0o222][..])), prop::option::weighted(0.3, 24u16..64), prop::option::weighted(0.6, 1u8..9))
        .prop_map(|(env, drop_env, stdin, stdout, arg0, umask, files, cpus)| Around { env, drop_env, stdin, stdout, arg0, umask, files, cpus })
}
/// Names of files: ordinary ones, with the usual extensions, with words of the sources, long ones.
fn file_name() -> impl Strategy<Value = String> + Clone {
    let ext = prop::sample::select(&["txt", "gz", "zip", "bz2", "xz", "zst", "7z", "rar", "tar", "tgz", "jpg", "jpeg", "png", "gif", "webp", "svg", "mp3", "mp4", "mkv", "avi", "ogg", "flac", "wav", "bmp", "pdf", "doc", "docx", "html", "xml", "json", "csv", "log", "md", "rs", "c", "h", "py", "js", "sh", "exe", "dll", "so", "o", "bin", "dat", "db", "iso", "img", "bak", "tmp", "old", "part", "huff", "hff", "HFF", "1", "0"][..]);
    prop_oneof![
        4 => prop::sample::select(&NAMES[..]).prop_map(String::from),
        3 => (prop::sample::select(&["a", "f", "archive", "X", "data.old", "1"][..]), ext).prop_map(|(s, e)| format!("{s}.{e}")),
        3 => (word(), 0u8..4).prop_map(|(w, k)| match k { 0 => w, 1 => format!("a.{w}"), 2 => format!("{w}.a"), _ => format!("{w}1") }),
        2 => "[A-Za-z0-9._ -]{1,12}",
        1 => (100usize..245).prop_map(|n| "n".repeat(n)),
    ].prop_map(|n| if [".", "..", "sub", "out", "work", "t", "tmp", "stdin", "earlier", "earlier.hff", "SRC_FILE", "SRC_FILE.hff"].contains(&&n[..]) || n.starts_with("res") { "f".into() } else { n })
}
fn variant() -> impl Strategy<Value = Variant> + Clone {
    ((blk(), around(), file_name(), 0u8..4, 0u8..4, any::<u8>()), (prop_oneof![2 => Just("res".to_string()), 2 => file_name()], prop::option::weighted(0.3, 0u16..3000), prop::bool::weighted(0.2), prop::option::of(any::<u32>()), prop::sample::select(&[0o644u16, 0o444, 0o600, 0o777, 0o755, 0o4755, 0o1644][..]), 0u8..8))
        .prop_map(|((blk, around, name, cwd, dst, order), (res, old, time, stamp, mode, before))| Variant { blk, around, name, cwd, dst, res, order, old, time, stamp, mode, before })
}
fn around_case() -> impl Strategy<Value = AroundCase> {
    (prop_oneof![5 => content(9_000).boxed(), 1 => content(60_000).boxed()], prop_oneof![2 => Just(Dir::Comp), 1 => Just(Dir::Dec)], shape_strategy(), prop::collection::vec(variant(), 2..6))
        .prop_map(|(content, dir, shape, variants)| AroundCase { content, dir, shape, variants })
}
const NAMES: [&str; 12] = ["f", "data.txt", "Z", "\u{e4} b", "a.b.c", ".hidden", "0", "x.hff", "SRC", "f.tmp", "loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong", "F"];
fn touch_times(p: &Path, t: u32) {
    let f = fs::OpenOptions::new().write(true).open(p).expect("scratch");
    let at = std::time::UNIX_EPOCH + std::time::Duration::from_secs(t as u64);
    let _ = f.set_times(fs::FileTimes::new().set_modified(at).set_accessed(at));
}
/// The result of a plain run on these bytes.
fn plain_run(ctx: &Ctx, dir: Dir, src: &[u8], plain: &[u8]) -> Result<Vec<u8>, Fail> {
    let s = Sbx::new(ctx);
    let (n, a) = match dir { Dir::Comp => ("f", args(&["f"])), Dir::Dec => ("f.hff", args(&["-d", "f.hff", "out"])) };
    s.put(n, src);
    let o = huff(ctx, &s, &a, Opts::default())?;
    ensure!(o.ok(), "huff {a:?} on {} bytes: {}", src.len(), o.how());
    let Some(r) = s.get(if dir == Dir::Comp { "f.hff" } else { "out" }) else { return bad(format!("huff {a:?}: no result")) };
    match dir {
        Dir::Dec => ensure!(r == plain, "huff {a:?}: {}", diff_bytes(plain, &r)),
        Dir::Comp => match ref_read(&r) { Ok(p) => ensure!(p == plain, "huff {a:?}: the archive decodes wrongly: {}", diff_bytes(plain, &p)), Err(e) => return bad(format!("huff {a:?}: not an archive: {e}")) },
    }
    Ok(r)
}
fn c25_around(ctx: &Ctx, case: &AroundCase) -> Check {
    let plain = case.content.bytes();
    let src = match case.dir { Dir::Comp => plain.clone(), Dir::Dec => ref_write(&plain, &[9, 8], 3, &case.shape, false) };
    let want = plain_run(ctx, case.dir, &src, &plain)?;
    let mut info = Info::new(true).label(format!("{:?}", case.dir));
    for (i, v) in case.variants.iter().enumerate() {
        let s = Sbx::new(ctx);
        for d in ["t/work/sub", "t/out", "tmp"] { fs::create_dir_all(s.base.join(d)).expect("scratch"); }
        // an earlier run on something else in the same place
        if v.before == 0 {
            s.put("earlier", b"what was compressed before does not matter any more");
            let o = huff(ctx, &s, &args(&["-n", "earlier", "earlier"]), Opts::default())?;
            ensure!(o.ok(), "huff -n earlier earlier: {}", o.how());
        }
        let mut name = v.name.clone();
        if case.dir == Dir::Dec && !name.ends_with(".hff") { name.push_str(".hff") }
        // by default the result would be the source
        let cwd = ["t/work", "t/work/sub", "t", "t/out"][v.cwd as usize % 4];
        let file = s.put(&name, &src);
        let _ = fs::set_permissions(&file, std::os::unix::fs::PermissionsExt::from_mode(v.mode as u32));
        let src_arg: PathBuf = match v.cwd { 0 => if name.starts_with('-') || v.order & 1 == 1 { Path::new(".").join(&name) } else { name.clone().into() }, 1 => Path::new("..").join(&name), 2 => Path::new("work").join(&name), _ => file.clone() };
        // named relative to the working directory, or left to the default
        let mut r = v.res.clone();
        if r.starts_with('-') || r == name || format!("{r}.hff") == name || r == format!("{name}.hff") { r = "res".into() }
        let r_hff = format!("{r}.hff");
        let (dst_arg, dst): (Option<OsString>, PathBuf) = match (v.dst, case.dir) {
            (0, Dir::Comp) => (None, s.base.join(cwd).join(format!("{name}.hff"))),
            (0 | 1, _) => (Some(r.clone().into()), s.base.join(cwd).join(if case.dir == Dir::Comp { r_hff } else { r.clone() })),
            (2, _) => (Some(s.top.join("out").join(&r).into()), s.top.join("out").join(if case.dir == Dir::Comp { &r_hff } else { &r })),
            _ => (Some("./res.1".into()), s.base.join(cwd).join(if case.dir == Dir::Comp { "res.1.hff" } else { "res.1" })),
        };
        let mut opts: Vec<Vec<OsString>> = vec![];
        if case.dir == Dir::Dec { opts.push(args(&["-d"])) }
        if let Some(n) = v.old { let mut st = n as u64; fs::write(&dst, (0..n).map(|_| splitmix(&mut st) as u8).collect::<Vec<_>>()).expect("scratch"); }
        if v.old.is_some() || v.order & 64 == 64 { opts.push(args(&["--noask"])) }
        let time = v.time && v.around.stdout == 0;
        if time { opts.push(args(&["-t"])) }
        let mut b = vec![];
        v.blk.push(src.len(), &mut b);
        if !b.is_empty() { opts.push(b) }
        opts.push(vec![src_arg.into()]);
        let path_at = opts.len() - 1;
        let k = opts.len();
        // the paths keep their order, the options stand anywhere
        if v.order & 2 == 2 { opts.swap(path_at, v.order as usize / 4 % k); }
        let mut a: Vec<OsString> = opts.concat();
        if let Some(d) = dst_arg { a.push(d) }
        if let Some(t) = v.stamp { touch_times(&file, t); }
        let before = s.snapshot();
        let o = huff(ctx, &s, &a, Opts { around: Some(&v.around), cwd: Some(&s.base.join(cwd)), ..Default::default() })?;
        let what = format!("variant {i}: huff {a:?} in {cwd} with {:?}", v.around);
        ensure!(o.ok(), "{what}: {}, while it works elsewhere", o.how());
        let Ok(got) = fs::read(&dst) else { return bad(format!("{what}: no result in {}", dst.display())) };
        ensure!(got == want, "{what}: another result than elsewhere (block size {:?}): {}", v.blk.size(src.len()), diff_bytes(&want, &got));
        let rel = dst.strip_prefix(&s.top).unwrap().to_path_buf();
        let strip = |mut m: std::collections::BTreeMap<PathBuf, Node>| { m.remove(&rel); m };
        if let Some(m) = tree_diff(&strip(before), &strip(s.snapshot())) { return bad(format!("{what}: {m}")); }
        let left: Vec<_> = fs::read_dir(s.base.join("tmp")).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
        ensure!(left.is_empty() && !s.base.join("missing").exists(), "{what}: left {left:?} in the directory for temporary files");
        info = info.label_if(!v.around.env.is_empty(), "environment").label_if(v.around.stdin != 0, "standard input").label_if(v.around.cpus.is_some(), "processors").label_if(v.blk.blocks(src.len()) > 1, "several blocks").label_if(v.around.files.is_some() && v.blk.blocks(src.len()) > 64, "more blocks than open files");
    }
    Ok(info)
}
/// Several runs at once on different files of one directory, held up at generated points.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item { content: Content, dir: Dir, blk: Blk, waits: Vec<(u8, u16)>, start: u16, old: bool, share: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AtOnceCase { items: Vec<Item>, names: u8, shape: Shape }
fn at_once_case() -> impl Strategy<Value = AtOnceCase> {
    let item = (content(6_000), prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], prop_oneof![2 => blk().boxed(), 3 => (2u8..7).prop_map(|den| Blk::Of { den, delta: 0 }).boxed()],
        prop::collection::vec((0u8..24, prop_oneof![1u16..3000, Just(20_000u16)]), 0..6), prop_oneof![Just(0u16), 0u16..8000], prop::bool::weighted(0.3), prop::bool::weighted(0.25))
        .prop_map(|(content, dir, blk, waits, start, old, share)| Item { content, dir, blk, waits, start, old, share });
    (prop::collection::vec(item, 2..6), any::<u8>(), shape_strategy()).prop_map(|(items, names, shape)| AtOnceCase { items, names, shape })
}
fn c25_at_once(ctx: &Ctx, case: &AtOnceCase) -> Check {
    let s = Sbx::new(ctx);
    fs::create_dir_all(s.base.join("tmp")).expect("scratch");
    struct Run { src: String, dst: String, bytes: Vec<u8>, want: Vec<u8>, args: Vec<OsString>, plan: String, tag: String }
    let mut runs: Vec<Run> = vec![];
    for (i, it) in case.items.iter().enumerate() {
        // the same source, another destination
        if let (true, Some(k)) = (it.share, (0..i).find(|k| case.items[*k].dir == it.dir)) {
            let (src, bytes, want) = (runs[k].src.clone(), runs[k].bytes.clone(), runs[k].want.clone());
            let named = format!("{i}.of.{src}");
            let mut a = args(&["-n", &src, &named]);
            if it.dir == Dir::Dec { a.push("-d".into()) }
            it.blk.push(bytes.len(), &mut a);
            let plan: Vec<String> = it.waits.iter().map(|(k, w)| format!("{k}=d{w}")).collect();
            runs.push(Run { src, dst: if it.dir == Dir::Comp { format!("{named}.hff") } else { named }, bytes, want, args: a, plan: plan.join(","), tag: format!(".{i}") });
            continue;
        }
        let plain = it.content.bytes();
        let bytes = match it.dir { Dir::Comp => plain.clone(), Dir::Dec => ref_write(&plain, &[1], i, &case.shape, false) };
        let want = plain_run(ctx, it.dir, &bytes, &plain)?;
        // names that only differ in what follows the stem, or in what precedes it
        let stem = match case.names % 3 { 0 => format!("s.{i}"), 1 => format!("{i}.s"), _ => format!("f{i}") };
        let (src, dst) = match it.dir { Dir::Comp => (stem.clone(), format!("{stem}.hff")), Dir::Dec => (format!("{stem}.hff"), stem) };
        let mut a = args(&["-n", &src]);
        if it.dir == Dir::Dec { a.push("-d".into()) }
        it.blk.push(bytes.len(), &mut a);
        s.put(&src, &bytes);
        if it.old { s.put(&dst, b"an old result that is longer than many a new one, and has no meaning"); }
        let plan: Vec<String> = it.waits.iter().map(|(k, w)| format!("{k}=d{w}")).collect();
        runs.push(Run { src, dst, bytes, want, args: a, plan: plan.join(","), tag: format!(".{i}") });
    }
    let before = s.snapshot();
    let ar = Around { env: vec![("TMPDIR".into(), "@/tmp".into())], ..Default::default() };
    let outs: Vec<Result<Out, Fail>> = std::thread::scope(|sc| {
        let hs: Vec<_> = runs.iter().zip(&case.items).map(|(r, it)| {
            let (s, ar) = (&s, &ar);
            sc.spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(it.start as u64));
                huff(ctx, s, &r.args, Opts { shim: true, plan: &r.plan, tag: &r.tag, around: Some(ar), ..Default::default() })
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Inconclusive("thread".into())))).collect()
    });
    for (r, o) in runs.iter().zip(outs) {
        let o = o?;
        let what = format!("huff {:?}, while {} other runs went on beside it", r.args, runs.len() - 1);
        ensure!(o.ok(), "{what}: {}", o.how());
        match s.get(&r.dst) {
            None => return bad(format!("{what}: no result in {}", r.dst)),
            Some(g) => ensure!(g == r.want, "{what}: another result than alone: {}", diff_bytes(&r.want, &g)),
        }
        ensure!(s.get(&r.src).as_deref() == Some(&r.bytes[..]), "{what}: the source has changed");
    }
    let strip = |mut m: std::collections::BTreeMap<PathBuf, Node>| { for r in &runs { m.remove(&Path::new("work").join(&r.dst)); } m };
    if let Some(m) = tree_diff(&strip(before), &strip(s.snapshot())) { return bad(format!("{} runs at once: {m}", runs.len())); }
    let left = fs::read_dir(s.base.join("tmp")).map(|d| d.count()).unwrap_or(0);
    ensure!(left == 0, "{} runs at once: {left} files left in the directory for temporary files", runs.len());
    Ok(Info::new(true).label(format!("runs:{}", runs.len())).label_if(case.items.iter().any(|i| !i.waits.is_empty()), "held up").label_if(runs.iter().enumerate().any(|(i, r)| runs[..i].iter().any(|q| q.src == r.src)), "one source for several"))
}

// ------------------------------------------------------------------ C26
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WorkCase { kind: Kind, alphabet: u32, small: u32, skew: u8, seed: u64, tree: bool }
fn work_case() -> impl Strategy<Value = WorkCase> {
    (kind_of(&ALL), prop_oneof![1 => Just(1u32), 3 => 2u32..20, 3 => 20u32..257, 1 => magic(3000).prop_map(|n| n as u32)], 10_000u32..20_000, 0u8..4, any::<u64>(), any::<bool>())
        .prop_map(|(kind, alphabet, small, skew, seed, tree)| WorkCase { kind, alphabet, small, skew, seed, tree })
}
fn thread_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t); }
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
const TIMES: u32 = 64;
/// Six times what is in proportion, and half a second.
fn in_proportion(what: &str, small: f64, large: f64) -> Result<(), Fail> {
    ensure!(large <= 0.5 + 6.0 * TIMES as f64 * small, "{what}: {:.1} ms for the small input, {:.1} ms for one {TIMES} times as long", small * 1e3, large * 1e3);
    Ok(())
}
fn c26_lib(_: &Ctx, case: &WorkCase) -> Check {
    /// The time of every step on `len` letters.
    fn steps<L: Lt>(case: &WorkCase, len: u32) -> Result<Vec<(&'static str, f64)>, Fail> {
        let letters: Vec<L> = expand_seq(&Seq::Expanded { alphabet: case.alphabet, len, skew: case.skew, seed: case.seed });
        let mut out = vec![];
        macro_rules! timed { ($name:expr, $e:expr) => {{ let t = thread_time(); let r = no_panic($name, || $e)?; out.push(($name, thread_time() - t)); r }} }
        let w = timed!("build_weights_map", build_weights_map(&letters));
        let c = if case.tree {
            let t = HuffTree::from_weights(w);
            match timed!("compress_with_tree", compress_with_tree(&letters, t)) { Ok(c) => c, Err(e) => return bad(format!("compress_with_tree: {e}")) }
        } else { timed!("compress", compress(&letters)) };
        let d = timed!("decompress", decompress(&c));
        ensure!(d == letters, "{} letters come back differently", letters.len());
        if case.kind == Kind::U8 {
            let bytes: Vec<u8> = letters.iter().map(|l| l.raw() as u8).collect();
            timed!("from_bytes", ByteWeights::from_bytes(&bytes));
        }
        Ok(out)
    }
    fn conv<L: LtInt>(case: &WorkCase, len: u32) -> Result<Vec<(&'static str, f64)>, Fail> {
        let mut out = steps::<L>(case, len)?;
        let letters: Vec<L> = expand_seq(&Seq::Expanded { alphabet: case.alphabet, len, skew: case.skew, seed: case.seed });
        let c = no_panic("compress", || compress(&letters))?;
        let t = thread_time();
        let b = no_panic("to_bytes", || c.to_bytes())?;
        out.push(("to_bytes", thread_time() - t));
        let t = thread_time();
        let r = no_panic("try_from_bytes", || CompressData::<L>::try_from_bytes(&b))?;
        out.push(("try_from_bytes", thread_time() - t));
        ensure!(r.is_ok(), "own byte form refused");
        Ok(out)
    }
    let run = |len: u32| match case.kind {
        Kind::Char | Kind::Str | Kind::String | Kind::Weird => with_kind!(case.kind, L => steps::<L>(case, len)),
        k => with_int!(k, L => conv::<L>(case, len)),
    };
    let (a, b) = (run(case.small)?, run(case.small * TIMES)?);
    for ((what, small), (_, large)) in a.iter().zip(&b) { in_proportion(what, *small, *large)?; }
    Ok(Info::new(case.alphabet > 1).label(format!("kind:{:?}", case.kind)).label(if case.tree { "own tree" } else { "no tree" }))
}
/// The number of different letters grows, not only the data.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideCase { small: u32, weights: u8, seed: u64, wide: bool }
fn wide_case() -> impl Strategy<Value = WideCase> {
    (500u32..1000, 0u8..5, any::<u64>(), any::<bool>()).prop_map(|(small, weights, seed, wide)| WideCase { small, weights, seed, wide })
}
fn c26_wide(_: &Ctx, case: &WideCase) -> Check {
    fn steps<L: HuffLetterAsBytes + Ord + std::fmt::Debug>(case: &WideCase, n: u32, letter: impl Fn(u32) -> L) -> Result<Vec<(&'static str, f64)>, Fail> {
        let mut st = case.seed;
        let weights: std::collections::HashMap<L, usize> = (0..n).map(|i| (letter(i), match case.weights {
            0 => 1, 1 => 1 + i as usize, 2 => 1 + splitmix(&mut st) as usize % 1000, 3 => 1 + (splitmix(&mut st) >> 30) as usize, _ => 1 << (i % 24),
        })).collect();
        let letters: Vec<L> = (0..n).map(|i| letter((i as u64 * 7919 % n as u64) as u32)).collect();
        let mut out = vec![];
        macro_rules! timed { ($name:expr, $e:expr) => {{ let t = thread_time(); let r = no_panic($name, || $e)?; out.push(($name, thread_time() - t)); r }} }
        let t = timed!("from_weights", HuffTree::from_weights(weights));
        let codes = timed!("read_codes", t.read_codes());
        ensure!(codes.len() == n as usize, "{} codes for {n} letters", codes.len());
        timed!("build_weights_map", build_weights_map(&letters));
        let c = match timed!("compress_with_tree", compress_with_tree(&letters, t)) { Ok(c) => c, Err(e) => return bad(format!("compress_with_tree: {e}")) };
        let d = timed!("decompress", decompress(&c));
        ensure!(d == letters, "{n} letters come back differently");
        let b = timed!("to_bytes", c.to_bytes());
        let r = timed!("try_from_bytes", CompressData::<L>::try_from_bytes(&b));
        ensure!(r.is_ok(), "own byte form refused");
        Ok(out)
    }
    let run = |n: u32| if case.wide { steps::<u64>(case, n, |i| i as u64 * 0x1_0000_0001 + 7) } else { steps::<u16>(case, n, |i| i as u16) };
    let (a, b) = (run(case.small)?, run(case.small * TIMES)?);
    for ((what, small), (_, large)) in a.iter().zip(&b) { in_proportion(&format!("{what} with {} different letters", case.small), *small, *large)?; }
    Ok(Info::new(true).label(format!("weights:{}", case.weights)))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileWorkCase { dir: Dir, alpha: u16, skew: u8, seed: u64, small: u32, blocks: (u16, u16), size: Option<u16> }
fn file_work_case() -> impl Strategy<Value = FileWorkCase> {
    (prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], prop_oneof![1 => Just(1u16), 2 => 2u16..20, 3 => 20u16..257], 0u8..5, any::<u64>(), 30_000u32..60_000, (prop_oneof![1 => Just(1u16), 2 => 1u16..32, 1 => 32u16..500], prop_oneof![1 => Just(1u16), 2 => 1u16..32, 1 => 32u16..1500]), prop::option::weighted(0.4, prop_oneof![150u16..600, 600u16..4000, Just(8192u16)]))
        .prop_map(|(dir, alpha, skew, seed, small, blocks, size)| FileWorkCase { dir, alpha, skew, seed, small, blocks, size })
}
fn c26_file(ctx: &Ctx, case: &FileWorkCase) -> Check {
    let mut times = vec![];
    let mut large_blocks = 0;
    // what starting the tool takes
    {
        let s = Sbx::new(ctx);
        let src = if case.dir == Dir::Comp { b"abc".to_vec() } else { compress(b"abc").to_bytes() };
        s.put("f.hff", &src);
        let o = huff(ctx, &s, &if case.dir == Dir::Comp { args(&["f.hff", "g"]) } else { args(&["-d", "f.hff", "g"]) }, Opts { shim: true, cpu: Some(30), ..Default::default() })?;
        times.push(o.cpu);
    }
    for (len, blocks) in [(case.small, case.blocks.0), (case.small * TIMES, case.blocks.1)] {
        let s = Sbx::new(ctx);
        let plain = Content::Mix { alpha: case.alpha, len, skew: case.skew, seed: case.seed, base: 7 }.bytes();
        let src = match case.dir { Dir::Comp => plain.clone(), Dir::Dec => no_panic("compress", || compress(&plain).to_bytes())? };
        let name = if case.dir == Dir::Comp { "f" } else { "f.hff" };
        s.put(name, &src);
        // blocks of one size, so that their number grows with the file; or given numbers of blocks.
        let bs = match case.size {
            Some(n) => if case.dir == Dir::Comp { n.max(1024) as usize } else { n as usize },
            None => src.len().div_ceil(blocks as usize).max(1),
        };
        let blocks = src.len().div_ceil(bs);
        let mut a = args(&["-n", name, "g", "-b", &bs.to_string()]);
        if case.dir == Dir::Dec { a.push("-d".into()) }
        // an hour of work would be as telling as half a minute
        let o = huff(ctx, &s, &a, Opts { shim: true, cpu: Some(30), ..Default::default() })?;
        ensure!(!o.endless, "huff {a:?} on {} bytes takes more than 30 s of processor time{}", src.len(), times.get(1).map(|t: &f64| format!(", and {t:.3} s on {} bytes", case.small)).unwrap_or_default());
        ensure!(o.ok(), "huff {a:?} on {} bytes: {}", src.len(), o.how());
        let dst = s.get(if case.dir == Dir::Comp { "g.hff" } else { "g" }).unwrap_or_default();
        let total = |k: &str| -> usize { o.calls.iter().filter(|c| c.kind == k && c.res > 0).map(|c| c.res as usize).sum() };
        let slack = (64 << 10) + 64 * blocks;
        ensure!(total("read") <= 4 * src.len() + slack, "huff {a:?}: {} bytes read, the file has {}", total("read"), src.len());
        ensure!(total("write") <= 3 * dst.len() + slack, "huff {a:?}: {} bytes written, the result has {}", total("write"), dst.len());
        let calls = o.calls.len();
        ensure!(calls <= 200 + 40 * blocks + (src.len() + dst.len()) / 256, "huff {a:?}: {calls} file operations for {} and {} bytes in {blocks} blocks", src.len(), dst.len());
        times.push(o.cpu);
        large_blocks = blocks;
    }
    // counting a block takes a dozen threads
    let per_block = if case.dir == Dir::Comp { 0.005 } else { 0.0003 };
    let most = 1.0 + per_block * large_blocks as f64 + 8.0 * TIMES as f64 * (times[1] - times[0]).max(0.0);
    ensure!(times[2] <= most, "huff ({:?}): {:.0} ms for {} bytes, {:.0} ms for {TIMES} times as many in {large_blocks} blocks; {:.0} ms for none", case.dir, times[1] * 1e3, case.small, times[2] * 1e3, times[0] * 1e3);
    Ok(Info::new(true).label(format!("{:?}", case.dir)).label(if case.size.is_some() { "blocks of one size" } else { block_label(case.blocks.1 as usize) }))
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SayCase { content: Content, dir: Dir, blk: Blk, time: bool, noask: bool, replace: bool, old: Option<u8>, answer: String, dst: u8, style: u8, waits: Vec<(u8, u32)>, bad: Option<u8>, #[serde(default)] fault: Option<(u8, u8)> }
fn say_case(slow: bool) -> impl Strategy<Value = SayCase> {
    let answer = prop_oneof![4 => prop::sample::select(&["y\n", "Y\n", "yes\n", "y"][..]).prop_map(String::from), 2 => prop::sample::select(&["n\n", "", "\n", "no\ny\n", "x"][..]).prop_map(String::from), 1 => word()];
    let waits = if slow { prop::collection::vec((0u8..9, 1_000_000u32..2_200_000), 1..2).boxed() } else { prop::collection::vec((0u8..20, prop_oneof![500u32..4000, 4000u32..40_000]), 0..3).boxed() };
    // long answers, and answers with more behind them
    let answer = prop_oneof![8 => answer.boxed(), 1 => (word(), 2_000u32..30_000, any::<bool>()).prop_map(|(w, n, line)| format!("{w}{}{w}", if line { "\n" } else { "-" }).repeat((n / (2 * w.len() as u32 + 1)) as usize)).boxed(), 1 => (word(), 10_000u32..30_000).prop_map(|(w, n)| format!("y\n{}", w.repeat(1 + n as usize / w.len().max(1)))).boxed()];
    ((prop_oneof![6 => content(3_000).boxed(), 1 => content(60_000).boxed()], prop_oneof![Just(Dir::Comp), Just(Dir::Dec)], blk(), prop::bool::weighted(0.6), prop::bool::weighted(0.35), prop::bool::weighted(0.25)),
        (prop::option::weighted(0.6, any::<u8>()), answer, 0u8..3, any::<u8>(), waits, prop::option::weighted(0.25, 0u8..5), prop::option::weighted(0.15, (0u8..14, 0u8..3))))
        .prop_map(move |((content, dir, blk, time, noask, replace), (old, answer, dst, style, waits, bad, fault))| SayCase { content, dir, blk, time: time || slow, noask, replace, old, answer, dst, style, waits, bad: if slow { None } else { bad }, fault: if slow { None } else { fault } })
}
/// The seconds in "1.5ms" and the like.
fn duration(t: &str) -> Option<f64> {
    let at = t.find(|c: char| !c.is_ascii_digit() && c != '.')?;
    let n: f64 = t[..at].parse().ok()?;
    Some(n * match t[at..].trim() { "ns" => 1e-9, "\u{b5}s" | "\u{3bc}s" | "us" => 1e-6, "ms" => 1e-3, "s" => 1.0, _ => return None })
}
fn c27(ctx: &Ctx, case: &SayCase) -> Check {
    let s = Sbx::new(ctx);
    let plain = case.content.bytes();
    let dec = case.dir == Dir::Dec;
    let mut src = if dec { ref_write(&plain, &[4], case.style as usize, &Shape::Balanced, false) } else { plain };
    let mut name = if dec { "source.hff" } else { "source" };
    let mut block = vec![];
    case.blk.push(src.len(), &mut block);
    // what is refused, and whether the question may come first
    let mut asks_first = false;
    match (case.bad, dec) {
        (None, _) => {}
        (Some(0), _) => name = if dec { "absent.hff" } else { "absent" },
        (Some(1), _) => name = if dec { "dir.hff" } else { "dir" },
        (Some(2), _) => block = args(&["-b", ["0", "1x", "", "99999999999999999999"][case.style as usize % 4]]),
        (Some(3), true) => name = "source",
        (Some(_), true) => { src.truncate(src.len().min(case.style as usize % 5)); asks_first = true }
        (Some(_), false) => { src.clear(); asks_first = true }
    }
    if case.bad == Some(0) { asks_first = true }
    if name.starts_with("dir") { fs::create_dir(s.work.join(name)).expect("scratch"); } else if !name.starts_with("absent") { s.put(name, &src); }
    let (dst_arg, dst) = match (case.dst, dec) {
        (0, false) => (None, format!("{name}.hff")),
        (0, true) => (None, name.trim_end_matches(".hff").to_string()),
        (1, _) => (Some("result".to_string()), if dec { "result".into() } else { "result.hff".into() }),
        _ => (Some("./re.sult".to_string()), if dec { "re.sult".into() } else { "re.sult.hff".into() }),
    };
    // to decompress it to its own name is another property's business
    if dst == name { return Ok(Info::new(false)); }
    if let Some(n) = case.old { s.put(&dst, &vec![n; n as usize]); }
    let mut flags = String::new();
    for (on, c) in [(dec, 'd'), (case.time, 't'), (case.noask, 'n'), (case.replace, 'r')] { if on { flags.push(c) } }
    let mut a: Vec<OsString> = match case.style % 3 {
        0 if !flags.is_empty() => vec![format!("-{flags}").into()],
        1 => flags.chars().map(|c| format!("-{c}").into()).collect(),
        _ => flags.chars().map(|c| match c { 'd' => "--decompress", 't' => "--time", 'n' => "--noask", _ => "--replace" }.into()).collect(),
    };
    a.extend(block);
    a.push(name.into());
    a.extend(dst_arg.map(OsString::from));
    if case.style & 64 == 64 { let k = a.len() - 1; if case.style & 128 == 0 && case.dst == 0 { let n = a.remove(k); a.insert(0, n); } }
    let mut plan = std::collections::BTreeMap::new();
    for (k, w) in &case.waits { plan.insert(*k, *w); }
    let mut text: Vec<String> = plan.iter().map(|(k, w)| format!("{k}=d{w}")).collect();
    if let Some((k, e)) = case.fault { text.push(format!("{k}=e{}", [libc::EIO, libc::ENOSPC, libc::EACCES][e as usize % 3])); }
    let t = std::time::Instant::now();
    let o = huff(ctx, &s, &a, Opts { stdin: case.answer.as_bytes(), shim: true, plan: &text.join(","), ..Default::default() })?;
    let wall = t.elapsed().as_secs_f64();
    let what = format!("huff {a:?} (answer {:?}, {} {})", case.answer, dst, if case.old.is_some() { "exists" } else { "does not exist" });
    let may_ask = case.old.is_some() && !case.noask;
    let yes = case.answer.starts_with(['y', 'Y']);
    let declined = may_ask && !yes;
    let mut lines: Vec<&str> = o.stdout.lines().filter(|l| !l.trim().is_empty()).collect();
    let mut info = Info::new(may_ask || case.time || case.bad.is_some());
    // what was put on standard input is left there unless something was asked
    if !may_ask { ensure!(o.stdin_read == 0, "{what}: nothing to ask, yet {} bytes of standard input were read", o.stdin_read); }
    // the question is out before the answer is awaited, and the end of its line is the end of the answer
    if let Some(k) = o.talk.iter().position(|t| t.0) {
        let before: i64 = o.talk[..k].iter().map(|t| t.1.max(0)).sum();
        ensure!(before as usize >= dst.len(), "{what}: waits for an answer when {before} bytes of the question are out");
        let line = case.answer.find('\n').map(|i| i + 1).unwrap_or(usize::MAX);
        let mut had = 0;
        for (i, (heard, n)) in o.talk.iter().enumerate() {
            if !heard { continue; }
            ensure!(had < line, "{what}: goes on reading standard input after the line with the answer");
            ensure!(i == k || o.talk[i - 1].0, "{what}: writes to standard output while the answer is read");
            had += (*n).max(0) as usize;
        }
    }
    let injected = o.calls.iter().any(|c| c.injected);
    if injected && !o.ok() {
        ensure!(!o.stderr.trim().is_empty(), "{what}: fails without a word on standard error (standard output: {:?})", o.stdout);
        ensure!(lines.len() <= may_ask as usize, "{what}: fails, yet writes {:?} to standard output", o.stdout);
        if let Some(l) = lines.first() { ensure!(l.contains(&dst), "{what}: fails, yet writes {:?} to standard output", o.stdout); }
        return Ok(info.label("failed at a file operation"));
    }
    if case.bad.is_some() && !(declined && asks_first) {
        ensure!(!o.ok() && o.sig.is_none(), "{what}: {}", o.how());
        ensure!(!o.stderr.trim().is_empty(), "{what}: fails without a word on standard error (standard output: {:?})", o.stdout);
        ensure!(lines.len() <= (may_ask && asks_first) as usize, "{what}: fails, yet writes {:?} to standard output", o.stdout);
        if let Some(l) = lines.first() { ensure!(l.contains(&dst), "{what}: fails, yet writes {:?} to standard output", o.stdout); }
        return Ok(info.label("refused"));
    }
    ensure!(o.ok(), "{what}: {}", o.how());
    ensure!(o.stderr.is_empty(), "{what}: succeeds, yet writes {:?} to standard error", o.stderr);
    if may_ask {
        ensure!(o.stdin_read > 0 || case.answer.is_empty(), "{what}: the answer was not read");
        ensure!(!lines.is_empty() && lines[0].contains(&dst), "{what}: writes {:?}, which is no question about {dst}", o.stdout);
        // the answer is not echoed: what follows the question may stand in its line
        if lines.len() == 1 && case.time { if let Some((q, rest)) = lines[0].rsplit_once(' ') { if duration(rest).is_some() { lines = vec![q, rest]; } } }
        lines.remove(0);
        info = info.label(if declined { "declined" } else { "consented" });
    }
    if declined {
        ensure!(lines.len() <= case.time as usize, "{what}: writes {:?}", o.stdout);
        return Ok(info);
    }
    if !case.time {
        ensure!(lines.is_empty(), "{what}: writes {:?} to standard output", o.stdout);
        return Ok(info);
    }
    ensure!(lines.len() == 1, "{what}: writes {:?} instead of just the time", o.stdout);
    let Some(d) = lines[0].split(|c: char| c == ' ' || c == ':').filter_map(duration).last().or_else(|| duration(lines[0].trim())) else { return bad(format!("{what}: writes {:?} instead of the time", o.stdout)) };
    let least = plan.iter().filter(|(k, _)| (**k as usize) < o.calls.len()).map(|(_, w)| *w as f64 / 1e6).fold(0.0, f64::max);
    ensure!(d >= least * 0.98 - 1e-5, "{what}: says it took {:.3} ms, though one file operation alone took {:.3} ms", d * 1e3, least * 1e3);
    ensure!(d <= wall + 1e-3, "{what}: says it took {:.3} ms, though it ran for {:.3} ms", d * 1e3, wall * 1e3);
    Ok(info.label("time").label_if(least > 0.0, "held up"))
}

pub fn property(id: &str) -> Option<Property> {
    let text = Content::Bytes(b"abracadabra, a file of some letters for the tool".to_vec());
    let v = |blk: Blk, around: Around| Variant { blk, around, name: "f".into(), cwd: 0, dst: 0, res: "res".into(), order: 0, old: None, time: false, stamp: None, mode: 0o644, before: 1 };
    Some(match id {
        "C25" => Property { id: "C25", rule: "Cases are a file (or archive) and two to five further runs on the same bytes with generated block sizes, environment variables (also those the sources mention), standard input and output, name of the program, umask, limit on open files, number of processors, working directory, file name, time stamp, mode, old destination, order of the options and earlier runs, each compared with a plain run; and two to five runs at once on different files of one directory, held up at generated file operations, each compared with the same run alone. Every case is non-trivial.", assumptions: vec!["the operating system schedules the runs that go on at once; generated delays only steer it", "standard output is closed or a file that can be written"], families: vec![
            family("C25", "around", 900, 24_000, [Dir::Comp, Dir::Dec].iter().map(|d| AroundCase { content: text.clone(), dir: *d, shape: Shape::Balanced, variants: vec![
                v(Blk::Abs(1), Around::default()), v(Blk::Abs(5), Around { drop_env: true, stdin: 1, stdout: 1, ..Default::default() }),
                v(Blk::Default, Around { env: vec![("TMPDIR".into(), "@/missing".into()), ("PWD".into(), "@/t/out".into()), ("HOME".into(), "".into())], stdin: 3, cpus: Some(1), ..Default::default() }),
                v(Blk::Of { den: 3, delta: 1 }, Around { arg0: Some("".into()), files: Some(24), umask: Some(0o777), ..Default::default() }),
            ] }).chain(["a.zip", "a.gz", "a.tar", "-x", "A.TXT"].iter().map(|n| AroundCase { content: text.clone(), dir: Dir::Comp, shape: Shape::Balanced, variants: vec![Variant { name: n.to_string(), ..v(Blk::Default, Around::default()) }, Variant { res: n.to_string(), dst: 1, ..v(Blk::Default, Around::default()) }] })).collect(), around_case, c25_around),
            family("C25", "at-once", 500, 12_000, vec![], at_once_case, c25_at_once),
        ] },
        "C26" => Property { id: "C26", rule: "Cases are (letter type, alphabet, distribution, length of 10-20 thousand letters): every step of counting, compressing, converting and decompressing is timed on it and on 64 times as many letters; (number of distinct letters, weights): the same for 64 times as many distinct letters; and (direction, distribution, numbers of blocks, file of 30-60 kB): processor time, bytes read and written and the number of file operations of the tool on it and on a file 64 times as long. Non-trivial: two or more distinct letters; every file and every number of distinct letters.", assumptions: vec!["processor time is that of the thread or process; six times what is in proportion plus half a second (the tool: one and a half) is tolerated", "bytes read: up to 4 times the file, written: up to 3 times the result, besides 64 KiB and 64 bytes per block"], families: vec![
            family("C26", "library", 96, 400, vec![], work_case, c26_lib),
            family("C26", "letters", 64, 300, vec![], wide_case, c26_wide),
            family("C26", "tool", 64, 400, vec![], file_work_case, c26_file),
        ] },
        "C27" => Property { id: "C27", rule: "A case is a file or archive (or something to be refused), block size, flags in any style, destination, old destination or none, answer, delays at up to two file operations (of 1 to 2.2 s in the family \"slow\"), and a failing one. Non-trivial: a question is due, -t is given, or the run has to be refused.", assumptions: vec!["the question may come before or after the source turns out to be missing or empty, or an archive to be malformed", "the time said is compared with the longest delay and with the time the run took seen from outside"], families: vec![
            family("C27", "words", 6_000, 100_000, vec![
                SayCase { content: text.clone(), dir: Dir::Comp, blk: Blk::Abs(7), time: true, noask: false, replace: true, old: Some(3), answer: "y\n".into(), dst: 0, style: 1, waits: vec![(0, 20_000)], bad: None, fault: None },
                SayCase { content: text.clone(), dir: Dir::Dec, blk: Blk::Default, time: true, noask: true, replace: true, old: Some(3), answer: "y\n".into(), dst: 1, style: 0, waits: vec![(3, 20_000)], bad: None, fault: None },
                SayCase { content: text.clone(), dir: Dir::Comp, blk: Blk::Default, time: false, noask: false, replace: false, old: Some(0), answer: "n\n".into(), dst: 2, style: 2, waits: vec![], bad: None, fault: None },
            ], || say_case(false), c27),
            family("C27", "slow", 24, 160, vec![], || say_case(true), c27),
        ] },
        _ => return None,
    })
}
