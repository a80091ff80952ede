//! Drives generated-input search: seeded, sharded proptest runners, shrinking, replay
//! files, crash containment and evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// What a check says about a case on which the property held.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c { self.label(l) } else { self }
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken on this case
    Violation(String),
    /// the harness could not decide (timeout, missing tool, ...): an error of the check
    Inconclusive(String),
}
pub type Check = Result<Info, Fail>;
pub fn bad<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(m.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err($crate::engine::Fail::Violation(format!($($arg)*))); } };
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".into());
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}
pub fn forget_panic() { LAST_PANIC.with(|p| *p.borrow_mut() = String::new()); }
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }
/// Runs code under test; a panic is returned as an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail::Violation(format!("{what} panicked: {m}")))
        }
    }
}

pub struct Ctx {
    pub scratch: PathBuf,
    pub tier: Tier,
    pub seed: u64,
    pub huff: PathBuf,
    pub shim: PathBuf,
    pub root: PathBuf,
    pub counter: AtomicU64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

const SHARDS: usize = 8;

#[derive(Default)]
pub struct FamStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
}
pub struct Found {
    pub family: String,
    pub reason: String,
    pub case: serde_json::Value,
}
pub struct FamResult {
    pub stats: FamStats,
    pub found: Option<Found>,
    pub inconclusive: Option<String>,
}
pub struct Family {
    pub name: String,
    pub run: Box<dyn Fn(&Ctx) -> FamResult>,
    pub replay: Box<dyn Fn(&Ctx, &serde_json::Value) -> Check>,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

fn seed_bytes(seed: u64, fam: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, ch) in out.chunks_mut(8).enumerate() {
        // FNV-1a over (seed, family, shard, lane): stable across toolchains
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: u8| { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); };
        for b in seed.to_le_bytes() { eat(b) }
        for b in fam.bytes() { eat(b) }
        eat(shard as u8);
        eat(i as u8 + 1);
        ch.copy_from_slice(&h.to_le_bytes());
    }
    out
}
fn fnv(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
pub fn trunc(v: serde_json::Value, n: usize) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= n { v } else {
        let mut e = n;
        while !s.is_char_boundary(e) { e -= 1 }
        serde_json::Value::String(format!("{}... ({} chars)", &s[..e], s.len()))
    }
}

/// Cases are kept as JSON text: a `Value` cannot hold 128-bit letters.
fn case_json<T: Serialize>(t: &T) -> serde_json::Value { serde_json::Value::String(serde_json::to_string(t).expect("serialise")) }

struct CurFile(std::fs::File);
impl CurFile {
    fn new(p: &Path) -> Self { CurFile(std::fs::File::create(p).expect("scratch")) }
    fn put(&self, s: &str) {
        let mut b = (s.len() as u64).to_le_bytes().to_vec();
        b.extend_from_slice(s.as_bytes());
        let _ = self.0.write_all_at(&b, 0);
    }
}
pub fn read_cur(p: &Path) -> Option<serde_json::Value> {
    let b = std::fs::read(p).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    serde_json::from_slice(b.get(8..8 + n)?).ok()
}

/// How often the base counts of the families are taken: sets the time of a quick run to
/// about half a minute.
fn scale(prop: &str) -> u32 {
    match prop {
        "C09" | "C21" => 40,
        "C12" => 100,
        "C22" => 12,
        "C23" | "C29" => 2,
        "C24" => 20,
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => 12,
        "C07" => 8,
        "C08" => 5,
        "C11" => 8,
        "C10" | "C20" => 2,
        "C16" | "C17" | "C18" | "C19" => 3,
        _ => 1,
    }
}

/// A family of cases: a generator, fixed examples that are always included, and a check.
pub fn family<T, S, F, C>(prop: &'static str, name: &str, quick: u32, thorough: u32, examples: Vec<T>, strat: F, check: C) -> Family
where
    T: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    S: Strategy<Value = T> + 'static,
    F: Fn() -> S + Sync + Send + 'static,
    C: Fn(&Ctx, &T) -> Check + Sync + Send + Clone + 'static,
{
    let name = name.to_string();
    let check2 = check.clone();
    let fname = name.clone();
    let guarded = move |ctx: &Ctx, t: &T| -> Check {
        // a panic that escapes the check is a panic of the code under test reached
        // outside a no_panic block: still a violation, with the location in the message
        match catch_unwind(AssertUnwindSafe(|| check(ctx, t))) {
            Ok(r) => r,
            Err(_) => bad(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    };
    let run = move |ctx: &Ctx| -> FamResult {
        let total = scale(prop) * match ctx.tier { Tier::Quick => quick, Tier::Thorough => thorough };
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, FamStats, Option<Found>, Option<String>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (stop, results, strat, guarded, fname, examples) = (&stop, &results, &strat, &guarded, &fname, &examples);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                    crate::mem::ours();
                    let cases = total / SHARDS as u32 + u32::from((total as usize % SHARDS) > shard);
                    let cur = CurFile::new(&ctx.scratch.join(format!("cur-{prop}-{fname}-{shard}.json")));
                    let st = RefCell::new(FamStats::default());
                    let inc = RefCell::new(None::<String>);
                    let undecided = std::cell::Cell::new(0);
                    let failed = RefCell::new(None::<String>);
                    let one = |t: &T| -> Result<(), String> {
                        if failed.borrow().is_none() && stop.load(Ordering::Relaxed) { return Ok(()); }
                        // undecided cases (time limits) do not end the search for decided ones at once
                        if undecided.get() >= 3 { return Ok(()); }
                        let js = case_json(t);
                        let text = serde_json::json!({"family": fname, "case": js}).to_string();
                        cur.put(&text);
                        let r = guarded(ctx, t);
                        if failed.borrow().is_none() {
                            let mut s = st.borrow_mut();
                            s.evaluations += 1;
                            if let Ok(i) = &r {
                                for l in &i.labels { *s.labels.entry(l.clone()).or_default() += 1; }
                                if i.nontrivial {
                                    s.nontrivial += 1;
                                    s.distinct.insert(fnv(&text));
                                    if shard < 2 && s.samples.len() < 2 && s.evaluations > 3 {
                                        s.samples.push(serde_json::json!({"family": fname, "case": trunc(js.clone(), 600), "observed": i.labels}));
                                    }
                                }
                            }
                        }
                        match r {
                            Ok(_) => Ok(()),
                            Err(Fail::Violation(m)) => { *failed.borrow_mut() = Some(m.clone()); stop.store(true, Ordering::Relaxed); Err(m) }
                            Err(Fail::Inconclusive(m)) => { *inc.borrow_mut() = Some(m); undecided.set(undecided.get() + 1); Ok(()) }
                        }
                    };
                    let mut found = None;
                    for (i, e) in examples.iter().enumerate() {
                        if i % SHARDS != shard { continue; }
                        if let Err(m) = one(e) {
                            found = Some(Found { family: fname.clone(), reason: m, case: case_json(e) });
                            break;
                        }
                    }
                    if found.is_none() && cases > 0 {
                        let cfg = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: 1500,
                            max_shrink_time: 45_000,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, &format!("{prop}/{fname}"), shard));
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        match runner.run(&strat(), |t| one(&t).map_err(TestCaseError::fail)) {
                            Ok(()) => {}
                            Err(TestError::Fail(r, t)) => {
                                let m = match guarded(ctx, &t) { Err(Fail::Violation(m)) => m, _ => r.message().to_string() };
                                found = Some(Found { family: fname.clone(), reason: m, case: case_json(&t) });
                            }
                            Err(TestError::Abort(r)) => { *inc.borrow_mut() = Some(format!("generator gave up: {}", r.message())); }
                        }
                    }
                    results.lock().unwrap().push((shard, st.into_inner(), found, inc.into_inner()));
                }).expect("thread");
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut out = FamResult { stats: FamStats::default(), found: None, inconclusive: None };
        for (_, s, f, i) in rs {
            out.stats.evaluations += s.evaluations;
            out.stats.nontrivial += s.nontrivial;
            out.stats.distinct.extend(s.distinct);
            for (k, v) in s.labels { *out.stats.labels.entry(k).or_default() += v; }
            if out.stats.samples.len() < 3 { out.stats.samples.extend(s.samples); }
            if out.found.is_none() { out.found = f; }
            if out.inconclusive.is_none() { out.inconclusive = i; }
        }
        out
    };
    let replay = move |ctx: &Ctx, v: &serde_json::Value| -> Check {
        let t: T = serde_json::from_str(v.as_str().unwrap_or("")).map_err(|e| Fail::Inconclusive(format!("bad replay file: {e}")))?;
        match catch_unwind(AssertUnwindSafe(|| check2(ctx, &t))) {
            Ok(r) => r,
            Err(_) => bad(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    };
    Family { name, run: Box::new(run), replay: Box::new(replay) }
}
