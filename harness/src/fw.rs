//! Small framework around proptest: deterministic sharded case generation, shrinking,
//! statistics for the evidence file, replay files, regression inputs and known findings.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("ADVCHECK_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// What one executed case reports besides its verdict
#[derive(Default)]
pub struct Obs {
    pub discarded: Option<&'static str>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub sample: Option<String>,
    pub want_sample: bool,
    /// how often a nondeterministic (threaded) case is repeated when it is replayed
    pub replaying: bool,
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
    pub fn discard(&mut self, why: &'static str) -> Res {
        self.discarded = Some(why);
        Ok(())
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Silence the default panic output; remember the message for the report
pub fn install_panic_hook() {
    let verbose = std::env::var_os("ADVCHECK_PANICS").is_some();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        if let Ok(mut a) = ANY_PANIC.lock() {
            *a = Some(m);
        }
        if verbose {
            default(info);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .or_else(|| ANY_PANIC.lock().ok().and_then(|mut p| p.take()))
        .unwrap_or_else(|| "?".into())
}

/// Run `f`; a panic becomes None
pub fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Run `f` inside the domain: a panic is a failure
pub fn total<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(format!("{} panicked: {}", what, last_panic())),
    }
}

// ---- watchdog: a case that does not come back is reported as a violation ---------------------

/// Far beyond anything a case needs (they take milliseconds), even on a loaded machine
const CASE_LIMIT_S: u64 = 150;

struct Watched {
    since: Instant,
    prop: &'static str,
    sub: &'static str,
    case: Box<dyn Fn() -> serde_json::Value + Send>,
}

static WATCHED: Mutex<BTreeMap<u64, Watched>> = Mutex::new(BTreeMap::new());
static WATCH_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

struct WatchGuard(u64);
impl Drop for WatchGuard {
    fn drop(&mut self) {
        WATCHED.lock().unwrap().remove(&self.0);
    }
}

fn watch(
    prop: &'static str,
    sub: &'static str,
    case: Box<dyn Fn() -> serde_json::Value + Send>,
) -> WatchGuard {
    let id = WATCH_ID.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    WATCHED.lock().unwrap().insert(id, Watched { since: Instant::now(), prop, sub, case });
    WatchGuard(id)
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let w = WATCHED.lock().unwrap();
        if let Some(w) = w.values().find(|w| w.since.elapsed().as_secs() > CASE_LIMIT_S) {
            if std::env::var_os("ADVCHECK_CONFIRM").is_some() {
                std::process::exit(HANG);
            }
            let case = (w.case)();
            let msg = format!("no result after {} s, twice", CASE_LIMIT_S);
            let path = replay_file(w.prop, w.sub, "hang", &case, &msg);
            // only a case that hangs again, alone in a fresh process, is a violation
            let again = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("--replay")
                .arg(&path)
                .env("ADVCHECK_CONFIRM", "1")
                .stdout(std::process::Stdio::null())
                .status();
            match again.map(|s| s.code()) {
                Ok(Some(HANG)) | Ok(Some(1)) => {
                    eprintln!("[{} {}] FAILED: {}", w.prop, w.sub, msg);
                    println!("VIOLATION property={} replay={}", w.prop, path.display());
                    std::process::exit(1);
                }
                r => {
                    eprintln!("[{} {}] inconclusive: slow, but not again ({:?})", w.prop, w.sub, r);
                    std::process::exit(2);
                }
            }
        }
    });
}

const HANG: i32 = 9;

fn replay_file(prop: &str, sub: &str, tag: &str, case: &serde_json::Value, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", prop, sub, tag).replace(char::is_whitespace, "_"));
    let v = serde_json::json!({"property": prop, "sub": sub, "message": msg, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// Run the check in a child process. If the library brings the whole process down, the run is
/// repeated with every case in a process of its own, so that the case that crashes is found,
/// shrunk and reported like any other. Returns in the child.
pub fn supervise() {
    use std::os::unix::process::ExitStatusExt;
    if std::env::var_os("ADVCHECK_CHILD").is_some() {
        return;
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let at = std::env::temp_dir().join(format!("advcheck-{}", std::process::id()));
    let child = |fork: Option<&str>| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(&args).env("ADVCHECK_CHILD", "1").env("ADVCHECK_AT", &at);
        if let Some(part) = fork {
            c.env("ADVCHECK_FORK", part);
        }
        c.status().expect("child process")
    };
    let s = child(None);
    let part = std::fs::read_to_string(&at).unwrap_or_default();
    let _ = std::fs::remove_file(&at);
    if !matches!(s.signal(), Some(4 | 5 | 6 | 7 | 8 | 11)) {
        std::process::exit(s.code().unwrap_or(2));
    }
    eprintln!("the check crashed ({}), repeating it with a process per case", s);
    let code = child(Some(&part)).code();
    let _ = std::fs::remove_file(&at);
    if code != Some(1) {
        eprintln!("no single case crashes");
    }
    std::process::exit(if code == Some(1) { 1 } else { 2 });
}

fn forking() -> bool {
    static F: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *F.get_or_init(|| std::env::var_os("ADVCHECK_FORK").is_some())
}

/// Note which part of the check is running. False: it is not the one that crashes
fn enter(name: &str) -> bool {
    if forking() {
        let part = std::env::var("ADVCHECK_FORK").unwrap_or_default();
        return part.is_empty() || part == name;
    }
    if let Some(at) = std::env::var_os("ADVCHECK_AT") {
        let _ = std::fs::write(at, name);
    }
    true
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn run_case(check: impl FnOnce() -> Res) -> Res {
    let run = || match catch_unwind(AssertUnwindSafe(check)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    };
    if !forking() {
        return run();
    }
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            let r = run();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            if let Err(e) = &r {
                let _ = f.write_all(e.as_bytes());
            }
            drop(f);
            _exit(if r.is_ok() { 0 } else { 1 });
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut msg = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut msg);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        match (status & 0x7f, (status >> 8) & 0xff) {
            (0, 0) => Ok(()),
            (0, _) => Err(msg),
            (sig, _) => Err(format!("the process is killed by signal {}", sig)),
        }
    }
}

#[derive(Default)]
pub struct SubStats {
    pub evaluations: u64,
    pub discarded: BTreeMap<&'static str, u64>,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

pub struct Run {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub rule: &'static str,
    pub subs: BTreeMap<&'static str, SubStats>,
    pub violations: Vec<(String, PathBuf)>,
    pub extra: BTreeMap<&'static str, serde_json::Value>,
    pub start: Instant,
    pub replay: Option<(String, serde_json::Value)>,
    pub replay_failed: Option<bool>,
    pub assumptions: Vec<&'static str>,
    pub shards: u64,
    pub shrink_budget: u32,
    pub sequential: bool,
}

fn h64(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn rng_seed(seed: u64, prop: &str, sub: &str, shard: u64) -> [u8; 32] {
    // splitmix over a stable hash (FNV), so that the stream is a pure function of the inputs
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes().chain([0]).chain(sub.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ shard.wrapping_mul(0xD1B54A32D192ED03);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

pub fn runner(seed: [u8; 32]) -> TestRunner {
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
    )
}

impl Run {
    pub fn new(prop: &'static str, seed: u64, thorough: bool) -> Run {
        Run {
            prop,
            seed,
            thorough,
            rule: "",
            subs: BTreeMap::new(),
            violations: vec![],
            extra: BTreeMap::new(),
            start: Instant::now(),
            replay: None,
            replay_failed: None,
            assumptions: vec![],
            shards: 16,
            shrink_budget: 1500,
            sequential: false,
        }
    }

    /// Generate and check four times `cases.0` (quick) or `cases.1` (thorough) cases of one kind.
    pub fn sub<C, S>(
        &mut self,
        name: &'static str,
        cases: (u64, u64),
        strategy: impl Fn() -> S + Sync,
        check: impl Fn(&C, &mut Obs) -> Res + Sync,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
        S: Strategy<Value = C> + 'static,
    {
        let prop = self.prop;
        let exec = |c: &C, want_sample: bool, replaying: bool| -> (Res, Obs) {
            let mut obs = Obs { want_sample, replaying, ..Obs::default() };
            let shared = Arc::new(c.clone());
            let guard = watch(prop, name, Box::new(move || serde_json::to_value(&*shared).unwrap()));
            let r = run_case(|| check(c, &mut obs));
            drop(guard);
            (r, obs)
        };

        // Replay mode: only the named sub-check on the stored case
        if let Some((sub, case)) = &self.replay {
            if sub == name {
                let c: C = serde_json::from_value(case.clone()).expect("replay file does not fit");
                let (r, obs) = exec(&c, true, true);
                println!("case: {:#?}", c);
                if let Some(s) = obs.sample {
                    println!("{}", s);
                }
                match r {
                    Ok(()) => {
                        println!("PASS {} {}", self.prop, name);
                        self.replay_failed = Some(false);
                    }
                    Err(e) => {
                        println!("FAIL {} {}: {}", self.prop, name, e);
                        self.replay_failed = Some(true);
                    }
                }
            }
            return;
        }
        if !enter(name) {
            return;
        }

        let mut stats = SubStats::default();
        // Saved inputs first
        let dir = verif_dir().join("regress");
        let mut saved: Vec<PathBuf> = std::fs::read_dir(&dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        saved.sort();
        let prefix = format!("{}-{}-", self.prop, name);
        for p in saved {
            if !p.file_name().unwrap().to_string_lossy().starts_with(&prefix) {
                continue;
            }
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
            let c: C = serde_json::from_value(v["case"].clone()).expect("saved case does not fit");
            let (r, _) = exec(&c, false, false);
            stats.evaluations += 1;
            *stats.classes.entry("saved input").or_default() += 1;
            if let Err(e) = r {
                self.report(name, &c, &format!("saved input {}: {}", p.display(), e));
                self.subs.insert(name, stats);
                return;
            }
        }

        let total_cases = if self.thorough { cases.1 } else { 4 * cases.0 };
        let shards = self.shards.min(total_cases.max(1));
        let failed: Mutex<Option<(u64, C, String)>> = Mutex::new(None);
        let next = std::sync::atomic::AtomicU64::new(0);
        let all: Mutex<Vec<(u64, SubStats)>> = Mutex::new(vec![]);
        let workers = if self.sequential || forking() { 1 } else { 8 };
        std::thread::scope(|scope| {
            for _ in 0..workers {
                scope.spawn(|| loop {
                    let shard = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if shard >= shards {
                        break;
                    }
                    if let Some((s, _, _)) = &*failed.lock().unwrap() {
                        if *s < shard {
                            continue;
                        }
                    }
                    let mut st = SubStats::default();
                    let mut rn = runner(rng_seed(self.seed, self.prop, name, shard));
                    let strat = strategy();
                    let n = total_cases / shards + u64::from(shard < total_cases % shards);
                    for _ in 0..n {
                        let mut tree = strat.new_tree(&mut rn).expect("generator");
                        let c = tree.current();
                        let (r, obs) = exec(&c, shard == 0 && st.samples.len() < 3, false);
                        if let Some(d) = obs.discarded {
                            *st.discarded.entry(d).or_default() += 1;
                            if r.is_ok() {
                                continue;
                            }
                        }
                        st.evaluations += 1;
                        if obs.nontrivial {
                            st.nontrivial.insert(h64(format!("{:?}", c)));
                            if let Some(s) = obs.sample {
                                st.samples.push(s);
                            }
                        }
                        for k in obs.classes {
                            *st.classes.entry(k).or_default() += 1;
                        }
                        if let Err(e) = r {
                            // shrink
                            let mut best = (c, e);
                            let mut budget = self.shrink_budget;
                            let deadline = Instant::now();
                            let mut go = tree.simplify();
                            while go && budget > 0 && deadline.elapsed().as_secs() < 60 {
                                budget -= 1;
                                let c = tree.current();
                                go = match exec(&c, false, false).0 {
                                    Err(e) => {
                                        best = (c, e);
                                        tree.simplify()
                                    }
                                    Ok(()) => tree.complicate(),
                                };
                            }
                            let mut f = failed.lock().unwrap();
                            if f.as_ref().map_or(true, |(s, _, _)| *s > shard) {
                                *f = Some((shard, best.0, best.1));
                            }
                            break;
                        }
                    }
                    all.lock().unwrap().push((shard, st));
                });
            }
        });
        let mut all = all.into_inner().unwrap();
        all.sort_by_key(|(s, _)| *s);
        for (_, st) in all {
            stats.evaluations += st.evaluations;
            for (k, v) in st.discarded {
                *stats.discarded.entry(k).or_default() += v;
            }
            for (k, v) in st.classes {
                *stats.classes.entry(k).or_default() += v;
            }
            stats.nontrivial.extend(st.nontrivial);
            stats.samples.extend(st.samples);
        }
        eprintln!(
            "[{} {}] {} cases, {} distinct non-trivial, discarded {:?}, {:.1}s",
            self.prop,
            name,
            stats.evaluations,
            stats.nontrivial.len(),
            stats.discarded,
            self.start.elapsed().as_secs_f64()
        );
        self.subs.insert(name, stats);
        if let Some((_, c, e)) = failed.into_inner().unwrap() {
            self.report(name, &c, &e);
        }
    }

    /// Generate batches of `size.0` cases that are checked together; `size.1` batches if thorough
    pub fn batch<C, S>(
        &mut self,
        name: &'static str,
        size: (u64, u64),
        strategy: impl Fn() -> S,
        check: impl Fn(&[C]) -> Vec<Res>,
        describe: impl Fn(&C, &mut Obs),
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned,
        S: Strategy<Value = C> + 'static,
    {
        if let Some((sub, case)) = &self.replay {
            if sub == name {
                let c: C = serde_json::from_value(case.clone()).expect("replay file does not fit");
                println!("case: {:#?}", c);
                let r = check(&[c]).remove(0);
                match &r {
                    Ok(()) => println!("PASS {} {}", self.prop, name),
                    Err(e) => println!("FAIL {} {}: {}", self.prop, name, e),
                }
                self.replay_failed = Some(r.is_err());
            }
            return;
        }
        if !enter(name) {
            return;
        }
        let mut stats = SubStats::default();
        let mut found: Option<(C, String)> = None;
        for shard in 0..if self.thorough { size.1 } else { 1 } {
            let mut rn = runner(rng_seed(self.seed, self.prop, name, shard));
            let strat = strategy();
            let mut trees: Vec<_> = (0..size.0).map(|_| strat.new_tree(&mut rn).expect("generator")).collect();
            let cases: Vec<C> = trees.iter().map(|t| t.current()).collect();
            for (k, c) in cases.iter().enumerate() {
                let mut obs = Obs { want_sample: shard == 0 && k < 5, ..Obs::default() };
                describe(c, &mut obs);
                stats.evaluations += 1;
                if obs.nontrivial {
                    stats.nontrivial.insert(h64(format!("{:?}", c)));
                    stats.samples.extend(obs.sample);
                }
                for k in obs.classes {
                    *stats.classes.entry(k).or_default() += 1;
                }
            }
            let res = check(&cases);
            let first = res.into_iter().enumerate().find_map(|(k, r)| r.err().map(|e| (k, e)));
            if let Some((k, e)) = first {
                let mut best = (cases[k].clone(), e);
                let tree = &mut trees[k];
                let mut budget = 60;
                let deadline = Instant::now();
                let mut go = tree.simplify();
                while go && budget > 0 && deadline.elapsed().as_secs() < 120 {
                    budget -= 1;
                    let c = tree.current();
                    go = match check(&[c.clone()]).remove(0) {
                        Err(e) => {
                            best = (c, e);
                            tree.simplify()
                        }
                        Ok(()) => tree.complicate(),
                    };
                }
                found = Some(best);
                break;
            }
        }
        eprintln!(
            "[{} {}] {} cases, {} distinct non-trivial, {:.1}s",
            self.prop, name, stats.evaluations, stats.nontrivial.len(), self.start.elapsed().as_secs_f64()
        );
        self.subs.insert(name, stats);
        if let Some((c, e)) = found {
            self.report(name, &c, &e);
        }
    }

    /// Check every case of an enumerated list
    pub fn list<C>(&mut self, name: &'static str, cases: Vec<C>, check: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    {
        if self.replay.is_some() {
            // same as for generated cases
            return self.sub(name, (0, 0), || proptest::strategy::LazyJust::new(|| -> C { unreachable!() }), check);
        }
        if !enter(name) {
            return;
        }
        let next = std::sync::atomic::AtomicUsize::new(0);
        let failed: Mutex<Option<(usize, String)>> = Mutex::new(None);
        let stats = Mutex::new(SubStats::default());
        let prop = self.prop;
        let workers = if forking() { 1 } else { 8 };
        std::thread::scope(|scope| {
            for _ in 0..workers {
                scope.spawn(|| {
                    let mut st = SubStats::default();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= cases.len() || failed.lock().unwrap().as_ref().map_or(false, |f| f.0 < i) {
                            break;
                        }
                        let c = cases[i].clone();
                        let mut obs = Obs { want_sample: i == cases.len() / 2, ..Obs::default() };
                        let cc = c.clone();
                        let guard = watch(prop, name, Box::new(move || serde_json::to_value(&cc).unwrap()));
                        let r = run_case(|| check(&c, &mut obs));
                        drop(guard);
                        st.evaluations += 1;
                        if obs.nontrivial {
                            st.nontrivial.insert(i as u64);
                            st.samples.extend(obs.sample);
                        }
                        for k in obs.classes {
                            *st.classes.entry(k).or_default() += 1;
                        }
                        if let Err(e) = r {
                            let mut f = failed.lock().unwrap();
                            if f.as_ref().map_or(true, |f| f.0 > i) {
                                *f = Some((i, e));
                            }
                        }
                    }
                    let mut all = stats.lock().unwrap();
                    all.evaluations += st.evaluations;
                    all.nontrivial.extend(st.nontrivial);
                    all.samples.extend(st.samples);
                    for (k, v) in st.classes {
                        *all.classes.entry(k).or_default() += v;
                    }
                });
            }
        });
        let stats = stats.into_inner().unwrap();
        eprintln!(
            "[{} {}] {} cases (enumerated), {} non-trivial, {:.1}s",
            self.prop, name, stats.evaluations, stats.nontrivial.len(), self.start.elapsed().as_secs_f64()
        );
        self.subs.insert(name, stats);
        if let Some((i, e)) = failed.into_inner().unwrap() {
            self.report(name, &cases[i], &e);
        }
    }

    pub fn report<C: Serialize + Debug>(&mut self, sub: &str, c: &C, msg: &str) {
        let tag = format!("{:08x}", h64(format!("{:?}", c)) as u32);
        let path = replay_file(self.prop, sub, &tag, &serde_json::to_value(c).unwrap(), msg);
        eprintln!("[{} {}] FAILED: {}\n  minimal case: {:?}", self.prop, sub, msg, c);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        self.violations.push((msg.to_string(), path));
    }

    /// Write evidence and give the exit code
    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() {
            return match self.replay_failed {
                None => {
                    println!("no sub-check of that name");
                    2
                }
                Some(f) => f as i32,
            };
        }
        let evals: u64 = self.subs.values().map(|s| s.evaluations).sum();
        let nontriv: usize = self.subs.values().map(|s| s.nontrivial.len()).sum();
        let mut samples = vec![];
        let mut subs = serde_json::Map::new();
        for (n, s) in &self.subs {
            for x in s.samples.iter().take(2) {
                samples.push(serde_json::json!({ "sub": n, "case": x }));
            }
            subs.insert(
                n.to_string(),
                serde_json::json!({
                    "evaluations": s.evaluations,
                    "distinct_nontrivial": s.nontrivial.len(),
                    "discarded": s.discarded,
                    "classes": s.classes,
                }),
            );
        }
        let mut coverage = serde_json::json!({
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": self.rule,
            "samples": samples,
            "sub_checks": subs,
        });
        for (k, v) in std::mem::take(&mut self.extra) {
            coverage[k] = v;
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
        if self.violations.is_empty() {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={}",
                self.prop, evals, nontriv
            );
            0
        } else {
            1
        }
    }
}

/// The common part of `main`: run a check or replay a case
pub fn main_with(checks: Vec<(&'static str, fn(&mut Run))>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (id, replay) = if args.first().map(String::as_str) == Some("--replay") {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).unwrap();
        (
            v["property"].as_str().unwrap().to_string(),
            Some((v["sub"].as_str().unwrap().to_string(), v["case"].clone())),
        )
    } else {
        (args.first().cloned().unwrap_or_default(), None)
    };
    let Some((id, f)) = checks.into_iter().find(|(i, _)| *i == id) else {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2);
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut run = Run::new(id, seed, thorough);
    run.replay = replay;
    f(&mut run);
    std::process::exit(run.finish());
}
