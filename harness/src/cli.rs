//! Running the built `huff` binary on generated scratch directories.
use crate::dict::magic;
use crate::engine::*;
use crate::refimpl::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Seek;
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::Ordering;

/// A scratch directory for one case: `<case>/t/work` is the working directory, everything
/// below `<case>/t` is watched, logs and the like live beside it.
pub struct Sbx { pub base: PathBuf, pub top: PathBuf, pub work: PathBuf }
impl Sbx {
    pub fn new(ctx: &Ctx) -> Sbx {
        let base = ctx.scratch.join(format!("c{}", ctx.counter.fetch_add(1, Ordering::Relaxed)));
        let top = base.join("t");
        let work = top.join("work");
        fs::create_dir_all(&work).expect("scratch");
        Sbx { base, top, work }
    }
    pub fn put(&self, rel: impl AsRef<Path>, bytes: &[u8]) -> PathBuf {
        let p = self.work.join(rel);
        fs::write(&p, bytes).expect("scratch file");
        p
    }
    pub fn get(&self, rel: impl AsRef<Path>) -> Option<Vec<u8>> { fs::read(self.work.join(rel)).ok() }
    pub fn snapshot(&self) -> BTreeMap<PathBuf, Node> { snapshot(&self.top) }
}
impl Drop for Sbx { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.base); } }

#[derive(Clone, PartialEq, Eq)]
pub enum Node { Dir, File(Vec<u8>), Link(PathBuf), Other }
impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Node::Dir => write!(f, "directory"),
            Node::File(b) => write!(f, "file of {} bytes", b.len()),
            Node::Link(p) => write!(f, "link to {p:?}"),
            Node::Other => write!(f, "special file"),
        }
    }
}
pub fn snapshot(top: &Path) -> BTreeMap<PathBuf, Node> {
    let mut out = BTreeMap::new();
    let mut todo = vec![top.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(top).unwrap().to_path_buf();
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            let n = if m.is_symlink() { Node::Link(fs::read_link(&p).unwrap_or_default()) }
                else if m.is_dir() { todo.push(p); Node::Dir }
                else if m.is_file() { Node::File(fs::read(&p).unwrap_or_default()) }
                else { Node::Other };
            out.insert(rel, n);
        }
    }
    out
}
pub fn tree_diff(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>) -> Option<String> {
    for (p, n) in a {
        match b.get(p) {
            None => return Some(format!("{p:?} ({n:?}) is gone")),
            Some(m) if m != n => return Some(format!("{p:?} changed from {n:?} to {m:?}")),
            _ => {}
        }
    }
    for (p, n) in b { if !a.contains_key(p) { return Some(format!("{p:?} ({n:?}) appeared")); } }
    None
}

#[derive(Debug, Clone)]
pub struct Call { pub kind: String, pub len: usize, pub res: i64, pub injected: bool }
pub struct Out {
    pub code: Option<i32>,
    pub sig: Option<i32>,
    pub stderr: String,
    pub stdout: String,
    pub calls: Vec<Call>,
    /// paths opened for writing, renamed or removed (with the shim only)
    pub touched: Vec<PathBuf>,
    /// what was read from standard input (true) and written to standard output, in order
    pub talk: Vec<(bool, i64)>,
    /// ended by the limit on processor time (only with `cpu`)
    pub endless: bool,
    pub hwm_kib: Option<u64>,
    /// processor time in seconds
    pub cpu: f64,
    /// how far the file given as standard input was read
    pub stdin_read: u64,
}
impl Out {
    pub fn how(&self) -> String {
        let e: String = self.stderr.chars().take(300).collect();
        match (self.code, self.sig) { (Some(c), _) => format!("exit status {c}, stderr {e:?}"), (_, s) => format!("killed by signal {s:?}, stderr {e:?}") }
    }
    pub fn panicked(&self) -> bool { self.code == Some(101) || self.stderr.contains("panicked at") || self.stderr.contains("overflowed its stack") || self.stderr.contains("memory allocation of") }
    pub fn ok(&self) -> bool { self.code == Some(0) }
    /// A refusal as the properties want it: a message, a non-zero status, no panic, no signal.
    pub fn clean_error(&self) -> Result<(), String> {
        if self.panicked() || self.sig.is_some() { return Err(format!("did not end cleanly: {}", self.how())); }
        if self.ok() { return Err("exited with status 0".into()); }
        if self.stderr.trim().is_empty() { return Err(format!("gave no message: {}", self.how())); }
        Ok(())
    }
}

/// What surrounds a run of the tool, apart from its arguments and files. The default is what
/// every check uses.
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Around {
    /// added to the environment; `@` stands for the scratch directory of the case
    pub env: Vec<(String, String)>,
    pub drop_env: bool,
    /// 0: what the check says, 1: closed, 2: /dev/null, 3: a pipe that stays open and silent, 4: some bytes
    pub stdin: u8,
    /// 0: a file, 1: closed, 2: /dev/null
    pub stdout: u8,
    pub arg0: Option<String>,
    pub umask: Option<u16>,
    /// how many files may be open
    pub files: Option<u16>,
    /// on how many processors it may run
    pub cpus: Option<u8>,
}
#[derive(Default, Clone)]
pub struct Opts<'a> {
    pub stdin: &'a [u8], pub shim: bool, pub plan: &'a str, pub expect_kill: bool, pub cpu: Option<u64>,
    pub mem: Option<u64>, pub around: Option<&'a Around>, pub cwd: Option<&'a Path>,
    /// sets apart the logs of runs that go on at the same time
    pub tag: &'a str,
}

pub fn huff(ctx: &Ctx, s: &Sbx, args: &[OsString], o: Opts) -> Result<Out, Fail> {
    let at = |n: &str| s.base.join(format!("{n}{}", o.tag));
    let log = at("log");
    let _ = fs::remove_file(&log);
    let none = Around::default();
    let ar = o.around.unwrap_or(&none);
    fs::write(at("stdin"), if ar.stdin == 4 { b"n\nsome\0bytes\xff that nobody asked for\n" } else { o.stdin }).expect("scratch");
    let open = |n: &str| fs::File::create(at(n)).expect("scratch");
    let mut c = Command::new(&ctx.huff);
    c.args(args).current_dir(o.cwd.unwrap_or(&s.work)).env_clear().stderr(open("stderr"));
    if let Some(n) = &ar.arg0 { c.arg0(n); }
    if !ar.drop_env { c.env("PATH", "/usr/bin:/bin").env("LANG", "C.UTF-8"); }
    for (k, v) in &ar.env { c.env(k, v.replace('@', s.base.to_str().unwrap_or("/"))); }
    // kept open until the run is over
    let mut pipe = None;
    let mut given = None;
    c.stdin(match ar.stdin {
        2 => Stdio::null(),
        3 => {
            let mut fd = [0; 2];
            if unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err(Fail::Inconclusive("no pipe".into())); }
            let (r, w) = unsafe { (OwnedFd::from_raw_fd(fd[0]), OwnedFd::from_raw_fd(fd[1])) };
            pipe = Some(w);
            Stdio::from(r)
        }
        _ => {
            let f = fs::File::open(at("stdin")).expect("scratch");
            // shares its position with what the tool gets
            given = f.try_clone().ok();
            Stdio::from(f)
        }
    });
    c.stdout(if ar.stdout == 2 { Stdio::null() } else { open("stdout").into() });
    if o.shim {
        c.env("LD_PRELOAD", &ctx.shim).env("HUFF_SHIM_ROOT", &s.top).env("HUFF_SHIM_LOG", &log).env("HUFF_SHIM_PLAN", o.plan);
    }
    // limits: only to keep a runaway command from hurting the sandbox
    let cpu = o.cpu.unwrap_or(60);
    let mem = o.mem.unwrap_or(16 << 30);
    if o.mem.is_some() { c.env("MALLOC_ARENA_MAX", "2"); }
    let (umask, files, cpus, close_in, close_out) = (ar.umask, ar.files, ar.cpus, ar.stdin == 1, ar.stdout == 1);
    unsafe {
        c.pre_exec(move || {
            let lim = |r, v: u64| { let l = libc::rlimit { rlim_cur: v, rlim_max: v }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_FSIZE, 1 << 30);
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_CPU, cpu);
            lim(libc::RLIMIT_AS, mem);
            libc::alarm(90);
            if let Some(m) = umask { libc::umask(m as libc::mode_t); }
            if let Some(n) = files { lim(libc::RLIMIT_NOFILE, n as u64); }
            if let Some(n) = cpus {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let size = std::mem::size_of::<libc::cpu_set_t>();
                if libc::sched_getaffinity(0, size, &mut set) == 0 {
                    let mut left = n.max(1);
                    for i in 0..8 * size {
                        if libc::CPU_ISSET(i, &set) { if left > 0 { left -= 1 } else { libc::CPU_CLR(i, &mut set) } }
                    }
                    libc::sched_setaffinity(0, size, &set);
                }
            }
            if close_in { libc::close(0); }
            if close_out { libc::close(1); }
            Ok(())
        });
    }
    let child = match c.spawn() { Ok(s) => s, Err(e) => return Err(Fail::Inconclusive(format!("cannot run {:?}: {e}", ctx.huff))) };
    let (mut status, mut ru) = (0, unsafe { std::mem::zeroed::<libc::rusage>() });
    loop {
        let r = unsafe { libc::wait4(child.id() as i32, &mut status, 0, &mut ru) };
        if r == child.id() as i32 { break }
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) { return Err(Fail::Inconclusive("cannot wait for huff".into())); }
    }
    drop(pipe);
    let st = ExitStatus::from_raw(status);
    let secs = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 / 1e6;
    let rd = |n: &str| String::from_utf8_lossy(&fs::read(at(n)).unwrap_or_default()).into_owned();
    let mut out = Out { code: st.code(), sig: st.signal(), stderr: rd("stderr"), stdout: rd("stdout"), calls: vec![], touched: vec![], talk: vec![], endless: false, hwm_kib: None, cpu: secs(ru.ru_utime) + secs(ru.ru_stime), stdin_read: given.and_then(|mut f| f.stream_position().ok()).unwrap_or(0) };
    match out.sig {
        // soft and hard limit are the same, so that it is SIGKILL which arrives
        Some(libc::SIGXCPU) | Some(libc::SIGKILL) if o.cpu.is_some() && !o.expect_kill => out.endless = true,
        Some(libc::SIGALRM) | Some(libc::SIGXCPU) => return Err(Fail::Inconclusive(format!("huff {args:?} did not finish in time"))),
        Some(libc::SIGKILL) if !o.expect_kill => return Err(Fail::Inconclusive(format!("huff {args:?} was killed from outside"))),
        _ => {}
    }
    if o.shim {
        let t = fs::read_to_string(&log).map_err(|e| Fail::Inconclusive(format!("the interposing library did not load: {e}")))?;
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "hwm" { out.hwm_kib = w[1].parse().ok(); continue; }
            if w[0] == "in" || w[0] == "out" { out.talk.push((w[0] == "in", w[1].parse().unwrap_or(0))); continue; }
            if w[0] == "touch" && w.len() == 3 {
                let b: Vec<u8> = (0..w[2].len() / 2).filter_map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).ok()).collect();
                out.touched.push(PathBuf::from(ostr(&b)));
                continue;
            }
            if w.len() < 5 { continue; }
            out.calls.push(Call { kind: w[1].into(), len: w[3].parse().unwrap_or(0), res: w[4].parse().unwrap_or(0), injected: w.get(5) == Some(&"!") });
        }
    }
    Ok(out)
}
pub fn args<S: AsRef<OsStr>>(v: &[S]) -> Vec<OsString> { v.iter().map(|s| s.as_ref().to_os_string()).collect() }

// ---------------------------------------------------------------- file contents
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Content {
    Bytes(Vec<u8>),
    Rep(u8, u32),
    /// `len` bytes over `alpha` values
    Mix { alpha: u16, len: u32, skew: u8, seed: u64, base: u8 },
    /// letter i occurs Fibonacci(i) times: codes of up to n-1 bits
    Fib { n: u8, seed: u64 },
}
impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Bytes(b) => b.clone(),
            Content::Rep(b, n) => vec![*b; *n as usize],
            Content::Mix { alpha, len, skew, seed, base } => {
                let mut st = *seed;
                let n = *alpha as u64;
                (0..*len as u64).map(|k| {
                    let r = splitmix(&mut st);
                    let i = match skew {
                        0 => r % n,
                        1 => { let a = (r & 0xffff) % n; let b = ((r >> 20) & 0xffff) % n; let c = (r >> 40) % n; a.min(b).min(c) }
                        2 => (r.trailing_zeros() as u64).min(n - 1),
                        3 => (k / 37) % n,
                        _ => if k < n { k } else { 0 },
                    };
                    base.wrapping_add(i as u8)
                }).collect()
            }
            Content::Fib { n, seed } => {
                let (mut a, mut b) = (1usize, 1usize);
                let mut v = vec![];
                for i in 0..*n { v.extend(std::iter::repeat_n(i.wrapping_mul(37), a)); let c = a + b; a = b; b = c; }
                // Fisher-Yates
                let mut st = *seed;
                for i in (1..v.len()).rev() { let j = (splitmix(&mut st) % (i as u64 + 1)) as usize; v.swap(i, j); }
                v
            }
        }
    }
}
pub fn content(max: u32) -> impl Strategy<Value = Content> + Clone {
    let mix = move |len: std::ops::Range<u32>| (prop_oneof![1u16..=6, 1u16..=256, Just(255u16), Just(256u16)], len, 0u8..5, any::<u64>(), any::<u8>())
        .prop_map(|(alpha, len, skew, seed, base)| Content::Mix { alpha, len, skew, seed, base });
    let big = 9_000.min(max);
    prop_oneof![
        5 => prop::collection::vec(any::<u8>(), 1..24).prop_map(Content::Bytes),
        5 => prop::collection::vec(prop_oneof![0u8..4, 252u8..=255], 1..60).prop_map(Content::Bytes),
        4 => prop::collection::vec(any::<u16>().prop_map(|x| x.trailing_zeros() as u8), 1..200).prop_map(Content::Bytes),
        2 => (any::<u8>(), 1u32..300).prop_map(|(b, n)| Content::Rep(b, n)),
        4 => mix(1..big.min(700)),
        3 => mix(1..big),
        // around the 8 KiB of a buffered reader or writer
        2 => mix(8_150.min(max - 1)..8_250.min(max)),
        2 => mix(1..max),
        1 => (2u8..18, any::<u64>()).prop_map(|(n, seed)| Content::Fib { n, seed }),
        // sizes that occur in the sources, and powers of two
        2 => (prop_oneof![1u16..=6, 1u16..=256, magic(256).prop_map(|n| n as u16)], magic(max as u64), 0u8..5, any::<u64>(), any::<u8>()).prop_map(|(alpha, len, skew, seed, base)| Content::Mix { alpha, len: len as u32, skew, seed, base }),
        1 => (any::<u8>(), magic(max as u64)).prop_map(|(b, n)| Content::Rep(b, n as u32)),
    ]
}

// ---------------------------------------------------------------- block sizes
/// A block size related to some length known at run time.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Blk { Default, Abs(u32), Unit(u16, u8), Of { den: u8, delta: i8 } }
pub fn blk() -> impl Strategy<Value = Blk> + Clone {
    prop_oneof![
        1 => Just(Blk::Default),
        3 => (1u32..=16).prop_map(Blk::Abs),
        2 => (1u32..400).prop_map(Blk::Abs),
        1 => (1u32..20_000).prop_map(Blk::Abs),
        2 => magic(20_000).prop_map(|n| Blk::Abs(n as u32)),
        1 => magic(u32::MAX as u64).prop_map(|n| Blk::Abs(n as u32)),
        1 => (1u16..6, 0u8..12).prop_map(|(n, u)| Blk::Unit(n, u)),
        6 => (1u8..9, -2i8..=2).prop_map(|(den, delta)| Blk::Of { den, delta }),
    ]
}
pub const UNITS: [(&str, u128); 7] = [("", 1), ("K", 1000), ("M", 1_000_000), ("G", 1_000_000_000), ("Ki", 1 << 10), ("Mi", 1 << 20), ("Gi", 1 << 30)];
impl Blk {
    /// `None`: the option is left out. `len` is the quantity the size relates to; the number
    /// of blocks is kept below 500 (every block costs the tool a dozen threads).
    pub fn size(&self, len: usize) -> Option<u128> {
        let least = (len / 500).max(1) as u128;
        Some(match self {
            Blk::Default => return None,
            Blk::Abs(n) => (*n as u128).max(least),
            Blk::Unit(n, u) => (*n as u128 * UNITS[*u as usize % 7].1).max(least),
            Blk::Of { den, delta } => ((len / *den as usize) as i128 + *delta as i128).max(least as i128) as u128,
        })
    }
    pub fn push(&self, len: usize, a: &mut Vec<OsString>) {
        let Some(n) = self.size(len) else { return };
        match self {
            Blk::Unit(k, u) if *k as u128 * UNITS[*u as usize % 7].1 == n => {
                let unit = UNITS[*u as usize % 7].0;
                a.push("--block-size".into());
                a.push(format!("{k}{}", if u % 2 == 0 { unit.to_lowercase() } else { unit.to_string() }).into());
            }
            Blk::Of { .. } => a.push(format!("-b{n}").into()),
            _ => { a.push("-b".into()); a.push(n.to_string().into()); }
        }
    }
    pub fn blocks(&self, len: usize) -> usize { match self.size(len) { None => 1, Some(n) => (len as u128).div_ceil(n) as usize } }
}
pub fn block_label(n: usize) -> &'static str { match n { 0..=1 => "blocks:1", 2 => "blocks:2", 3..=10 => "blocks:3-10", 11..=100 => "blocks:11-100", _ => "blocks:>100" } }

// ---------------------------------------------------------------- archives by the reference model
/// Reads an archive by the documented format alone.
pub fn ref_read(a: &[u8]) -> Result<Vec<u8>, String> {
    let c = split_container(a).map_err(|e| format!("{e:?}"))?;
    if c.tree_pad > 7 || c.data_pad > 7 { return Err(format!("padding {}/{}", c.tree_pad, c.data_pad)); }
    let t = RTree::parse(&c.tree_bits(), 8).map_err(|e| format!("tree: {e:?}"))?;
    let (d, complete) = t.decode(&c.data_bits());
    if !complete { return Err("data ends inside a code".into()); }
    Ok(d.into_iter().map(|x| x as u8).collect())
}
/// An archive of `bytes` written by the reference model with a tree of any shape.
pub fn ref_write(bytes: &[u8], extra: &[u8], rot: usize, shape: &crate::letters::Shape, dup: bool) -> Vec<u8> {
    let mut seen = [false; 256];
    let mut ls: Vec<u128> = bytes.iter().chain(extra).filter(|b| !std::mem::replace(&mut seen[**b as usize], true)).map(|b| *b as u128).collect();
    // a letter may also be listed twice: decoding is still well defined
    if dup { let x = ls[rot % ls.len()]; ls.push(x); }
    let n = ls.len();
    ls.rotate_left(rot % n);
    let t = crate::letters::build_shape(&ls, shape);
    let mut codes: Vec<Vec<Vec<bool>>> = vec![vec![]; 256];
    for (l, c) in t.codes() { codes[l as usize].push(c); }
    let mut bits = vec![];
    for (i, b) in bytes.iter().enumerate() { let c = &codes[*b as usize]; bits.extend(&c[i % c.len()]); }
    let mut out = write_container(&t, 8, &bits);
    // padding bits have no specified value
    if rot % 2 == 1 {
        let pad = out[0] & 15;
        let last = out.len() - 1;
        out[last] |= ((1u16 << pad) - 1) as u8;
        let tl = u32::from_be_bytes([out[1], out[2], out[3], out[4]]) as usize;
        let tp = out[0] >> 4;
        out[4 + tl] |= ((1u16 << tp) - 1) as u8;
    }
    out
}
pub fn ostr(b: &[u8]) -> OsString { OsString::from_vec(b.to_vec()) }
pub fn diff_bytes(want: &[u8], got: &[u8]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    format!("expected {} bytes, got {}, first difference at {i}", want.len(), got.len())
}
