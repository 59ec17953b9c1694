//! Sharded property runner: proptest generation and shrinking, crash containment, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

/// What a held case looked like
#[derive(Default, Clone)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Seen {
    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|x| x == l) {
            self.labels.push(l.to_string())
        }
    }
}
pub type Verdict = Result<Seen, String>;

pub struct Ctx {
    pub dir: PathBuf,
}
impl Ctx {
    pub fn file(&self, n: &str) -> String {
        self.dir.join(n).to_str().unwrap().to_string()
    }
    /// Empty the scratch directory of the case
    pub fn clean(&self) {
        if let Ok(rd) = std::fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
    fn id(&self) -> &'static str;
    /// cases per shard in the quick tier
    fn quick(&self) -> u32;
    /// factor for the thorough tier
    fn thorough_factor(&self) -> u32 {
        25
    }
    /// seconds after which a case counts as one that does not end
    fn patience(&self) -> u64 {
        100
    }
    /// steps of shrinking at most
    fn shrinks(&self) -> u32 {
        3000
    }
    /// memory a case may use, in MB of address space
    fn memory(&self) -> u64 {
        3500
    }
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case, ctx: &Ctx) -> Verdict;
    fn rule(&self) -> &'static str;
    /// Known findings: probes for exactly listed cases. Ok(None): holds, Ok(Some(text)): still fails
    fn findings(&self, _ctx: &Ctx) -> Vec<(String, bool)> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct ShardOut {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(serde_json::Value, String)>,
    pub aborted: Option<String>,
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", at, msg));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

thread_local! { static CHOICES: RefCell<u64> = const { RefCell::new(0) }; }
/// The next of the choices that do not matter to a case, made by its hash
pub fn choice() -> bool {
    CHOICES.with(|c| {
        let v = *c.borrow();
        *c.borrow_mut() = v.rotate_right(1);
        v & 1 == 1
    })
}

pub fn run_case<P: Prop>(p: &P, case: &P::Case, ctx: &Ctx) -> Verdict {
    ctx.clean();
    let h = serde_json::to_string(case).map(|s| hash64(&s)).unwrap_or(0);
    CHOICES.with(|c| *c.borrow_mut() = h);
    let r = match guarded(|| p.check(case, ctx)) {
        Ok(v) => v,
        // locations in the library are absolute, those in this crate are not
        Err(m) if m.starts_with("panic at src/") => Err(format!("HARNESS: {}", m)),
        Err(m) => Err(m),
    };
    ctx.clean();
    r
}

fn hash64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// One shard: deterministic in (seed, shard, cases)
pub fn shard<P: Prop>(p: &P, seed: u64, shard: u64, cases: u32, ctx: &Ctx, cur: &Path) -> ShardOut {
    let mut s32 = [0u8; 32];
    s32[..8].copy_from_slice(&seed.to_le_bytes());
    s32[8..16].copy_from_slice(&shard.to_le_bytes());
    s32[16..24].copy_from_slice(&hash64(p.id()).to_le_bytes());
    let cfg = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: if std::env::var_os("VH_NO_SHRINK").is_some() { 0 } else { p.shrinks() },
        max_shrink_time: 40_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s32));
    let out = RefCell::new(ShardOut::default());
    let seen_hash = RefCell::new(BTreeSet::new());
    let failed = RefCell::new(false);
    let strat = p.strategy();
    let res = runner.run(&strat, |case| {
        let js = serde_json::to_string(&case).unwrap();
        let _ = std::fs::write(cur, &js);
        // shrinking and replay work on the serialised form: they must agree
        let v = run_case(p, &case, ctx);
        match v {
            Ok(seen) => {
                if !*failed.borrow() {
                    let mut o = out.borrow_mut();
                    o.evaluations += 1;
                    for l in &seen.labels {
                        *o.labels.entry(l.clone()).or_insert(0) += 1;
                    }
                    if seen.nontrivial && seen_hash.borrow_mut().insert(hash64(&js)) && o.samples.len() < 2 && js.len() < 6000 {
                        o.samples.push(serde_json::from_str(&js).unwrap());
                    }
                }
                Ok(())
            }
            Err(m) => {
                *failed.borrow_mut() = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut o = out.into_inner();
    o.nontrivial = seen_hash.into_inner().into_iter().collect();
    match res {
        Ok(()) => {}
        Err(TestError::Fail(why, case)) => {
            o.evaluations += 1;
            let mut m = format!("{} (not on every run)", why.message());
            for _ in 0..20 {
                if let Err(x) = run_case(p, &case, ctx) {
                    m = x;
                    break;
                }
            }
            o.failure = Some((serde_json::to_value(&case).unwrap(), m));
        }
        Err(TestError::Abort(r)) => o.aborted = Some(r.to_string()),
    }
    o
}

/// Refused allocations end the process instead of the machine
pub fn limit_memory(mb: u64) {
    let l = libc::rlimit { rlim_cur: mb << 20, rlim_max: mb << 20 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

pub fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("vh-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory")
}

/// Object-safe face of a property
pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn quick(&self) -> u32;
    fn thorough_factor(&self) -> u32;
    fn patience(&self) -> u64;
    fn memory(&self) -> u64;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn assumptions(&self) -> Vec<String>;
    fn shard(&self, seed: u64, shard_no: u64, cases: u32, ctx: &Ctx, cur: &Path) -> ShardOut;
    fn replay(&self, v: &serde_json::Value, ctx: &Ctx) -> Result<Verdict, String>;
    fn findings(&self, ctx: &Ctx) -> Vec<(String, bool)>;
    fn gen(&self, seed: u64, n: u32) -> Vec<String>;
}
impl<P: Prop> DynProp for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }
    fn quick(&self) -> u32 {
        Prop::quick(self)
    }
    fn thorough_factor(&self) -> u32 {
        Prop::thorough_factor(self)
    }
    fn patience(&self) -> u64 {
        Prop::patience(self)
    }
    fn memory(&self) -> u64 {
        Prop::memory(self)
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn level(&self) -> &'static str {
        Prop::level(self)
    }
    fn assumptions(&self) -> Vec<String> {
        Prop::assumptions(self)
    }
    fn shard(&self, seed: u64, shard_no: u64, cases: u32, ctx: &Ctx, cur: &Path) -> ShardOut {
        shard(self, seed, shard_no, cases, ctx, cur)
    }
    fn replay(&self, v: &serde_json::Value, ctx: &Ctx) -> Result<Verdict, String> {
        let c: P::Case = serde_json::from_value(v.clone()).map_err(|e| format!("cannot read the case: {}", e))?;
        Ok(run_case(self, &c, ctx))
    }
    fn findings(&self, ctx: &Ctx) -> Vec<(String, bool)> {
        ctx.clean();
        let r = Prop::findings(self, ctx);
        ctx.clean();
        r
    }
    fn gen(&self, seed: u64, n: u32) -> Vec<String> {
        use proptest::strategy::{Strategy, ValueTree};
        let mut s32 = [7u8; 32];
        s32[..8].copy_from_slice(&seed.to_le_bytes());
        let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &s32));
        let st = self.strategy();
        (0..n).map(|_| serde_json::to_string(&st.new_tree(&mut r).unwrap().current()).unwrap()).collect()
    }
}
