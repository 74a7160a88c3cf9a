use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A generated case. `head` holds scalar draws (values, sizes, choices); `prog` holds a sequence of
/// instructions. Every check decodes the two deterministically; both shrink.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub head: Vec<u32>,
    pub prog: Vec<[u16; 6]>,
}

impl Case {
    pub fn to_json(&self) -> Value { json!({"head": self.head, "prog": self.prog}) }

    pub fn from_json(v: &Value) -> Case {
        let head = v["head"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let prog = v["prog"]
            .as_array()
            .unwrap()
            .iter()
            .map(|ins| {
                let mut out = [0u16; 6];
                for (o, x) in out.iter_mut().zip(ins.as_array().unwrap()) {
                    *o = x.as_u64().unwrap() as u16;
                }
                out
            })
            .collect();

        Case { head, prog }
    }
}

/// Counters of a run. Nothing is counted while a failure is being shrunk.
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<(u64, Value)>,
    pub labels: BTreeMap<String, u64>,
    pub frozen: bool,
    pub describe: bool,
    pub description: Option<Value>,
}

impl Stats {
    /// Count one evaluated case (or one evaluated input inside a batch).
    pub fn eval(&mut self) {
        if !self.frozen {
            self.evals += 1;
        }
    }

    pub fn evals(&mut self, n: u64) {
        if !self.frozen {
            self.evals += n;
        }
    }

    /// Record that the case identified by `key` was non-trivial.
    pub fn nontrivial<K: Hash>(&mut self, key: &K) {
        if !self.frozen {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.nontrivial.insert(h.finish());
        }
    }

    pub fn label<S: Into<String>>(&mut self, l: S) {
        if !self.frozen {
            *self.labels.entry(l.into()).or_insert(0) += 1;
        }
    }

    pub fn label_n<S: Into<String>>(&mut self, l: S, n: u64) {
        if !self.frozen && n > 0 {
            *self.labels.entry(l.into()).or_insert(0) += n;
        }
    }

    /// Offer a written-out case; a few per run are kept, and the one of a replay.
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.describe {
            self.description = Some(f());
        } else if !self.frozen {
            let want = self.evals < 3 || (self.evals % 977 == 0 && self.samples.len() < 12);

            if want {
                let n = self.evals;
                self.samples.push((n, f()));
            }
        }
    }

    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn fflush(f: *mut u8) -> i32;
    fn close(fd: i32) -> i32;
}

/// The real standard output while it is muted.
static SAVED: AtomicI32 = AtomicI32::new(1);

/// The cases being run, for detecting those that do not end.
type Running = BTreeMap<u64, (Instant, &'static str, Case)>;
static RUNNING: Mutex<Running> = Mutex::new(BTreeMap::new());
static TICKET: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static MINE: u64 = TICKET.fetch_add(1, Ordering::SeqCst);
}

/// How long a single case may take (ordinarily: microseconds to milliseconds).
const LIMIT_S: u64 = 60;

fn timed<R>(sub: &'static str, case: &Case, f: impl FnOnce() -> R) -> R {
    let me = MINE.with(|m| *m);
    RUNNING.lock().unwrap().insert(me, (Instant::now(), sub, case.clone()));
    let r = f();
    RUNNING.lock().unwrap().remove(&me);
    r
}

/// Report a case that does not end, and end the process.
fn watch(check: &Check, limit: u64) {
    let (id, known) = (check.id, check.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let late = RUNNING.lock().unwrap().values().find(|(t, ..)| t.elapsed().as_secs() >= limit).cloned();
        if let Some((_, sub, case)) = late {
            use std::io::Write;
            use std::os::fd::FromRawFd;
            let msg = format!("the evaluation does not end within {} s", limit);
            let path = write_replay(&known, sub, &case, &msg, "-hang");
            let body = json!({"property": id, "tier": if thorough() { "thorough" } else { "quick" }, "seed": seed() as i64, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": known.rule, "samples": [{"check": sub, "case": case.to_json()}]},
                "assumptions": known.assumptions, "wall_s": limit as f64, "violations": 1});
            std::fs::write(verif_dir().join("evidence").join(format!("{}.json", id)), body.to_string()).ok();
            let mut out = unsafe { std::fs::File::from_raw_fd(SAVED.load(Ordering::SeqCst)) };
            writeln!(out, "{} [{}]: {}", id, sub, msg).ok();
            writeln!(out, "VIOLATION property={} replay={}", id, path.display()).ok();
            out.flush().ok();
            std::process::exit(1);
        }
    });
}

/// The C library below the special functions reports range errors on the standard output: drop what
/// is written there while `f` runs.
fn muted<R>(f: impl FnOnce() -> R) -> R {
    use std::io::Write;
    use std::os::fd::AsRawFd;

    std::io::stdout().flush().ok();
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    let saved = unsafe { dup(1) };
    let outer = SAVED.swap(saved, Ordering::SeqCst);
    unsafe { dup2(null.as_raw_fd(), 1) };
    let r = f();
    unsafe {
        fflush(std::ptr::null_mut());
        dup2(saved, 1);
        close(saved);
    }
    SAVED.store(outer, Ordering::SeqCst);

    r
}

pub type CheckFn = fn(&Case, &mut Stats) -> Result<(), String>;

/// One generated check of a property.
#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    /// Number of generated cases in the quick and the thorough tier.
    pub quick: u32,
    pub thorough: u32,
    /// Sizes of the generated case.
    pub head: (usize, usize),
    pub prog: (usize, usize),
    pub f: CheckFn,
}

/// A defect that is recorded instead of repaired. `probe` returns a description of the failing input
/// when the defect is present.
#[derive(Clone)]
pub struct Known {
    pub key: &'static str,
    pub probe: fn() -> Option<String>,
}

#[derive(Clone)]
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
    pub known: Vec<Known>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub(crate) fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

pub(crate) fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

pub(crate) fn rng_seed(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut s = 0x9e3779b97f4a7c15u64;

    for p in parts {
        s = (s ^ p).wrapping_mul(0xbf58476d1ce4e5b9);
        s ^= s >> 29;
    }
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }

    out
}

pub(crate) fn str_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Run `f`, turning a panic into a failure message.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| format!("panicked: {}", p.borrow()))),
    }
}

/// Run `f` and report its panic message, if it panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub(crate) fn strategy_of(head: (usize, usize), prog: (usize, usize)) -> impl Strategy<Value = Case> {
    use proptest::array::uniform6;
    use proptest::collection::vec;
    use proptest::num::{u16, u32};

    (vec(u32::ANY, head.0..=head.1), vec(uniform6(u16::ANY), prog.0..=prog.1))
        .prop_map(|(head, prog)| Case { head, prog })
}

fn strategy(sub: &Sub) -> impl Strategy<Value = Case> { strategy_of(sub.head, sub.prog) }

struct Failure {
    order: usize,
    sub: &'static str,
    case: Case,
    message: String,
}

fn run_chunk(check: &Check, sub: &Sub, chunk: usize, cases: u32, order: usize, journal: Option<&std::path::Path>) -> (Stats, Option<Failure>) {
    let stats = RefCell::new(Stats::default());
    let seed = rng_seed(&[seed(), str_hash(check.id), str_hash(sub.name), chunk as u64]);
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 40_000,
        max_shrink_time: 60_000,
        max_global_rejects: u32::MAX,
        source_file: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let f = sub.f;

    let result = runner.run(&strategy(sub), |case| {
        let mut st = stats.borrow_mut();

        if let Some(dir) = journal {
            let body = json!({"property": check.id, "sub": sub.name, "case": case.to_json()});
            std::fs::write(dir.join(format!("{:?}.json", std::thread::current().id())), body.to_string()).ok();
        }

        match timed(sub.name, &case, || guarded(|| f(&case, &mut st))) {
            Ok(()) => Ok(()),
            Err(msg) => {
                st.frozen = true;
                Err(TestCaseError::fail(msg))
            },
        }
    });

    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(reason, case)) => Some(Failure {
            order,
            sub: sub.name,
            message: reason.message().to_string(),
            case,
        }),
        Err(TestError::Abort(reason)) => {
            eprintln!("error: generator aborted in {}/{}: {}", check.id, sub.name, reason);
            std::process::exit(4);
        },
    };

    (stats.into_inner(), failure)
}

fn describe(sub: &Sub, case: &Case) -> (Option<Value>, Result<(), String>) {
    let mut st = Stats { describe: true, frozen: true, ..Stats::default() };
    let r = guarded(|| (sub.f)(case, &mut st));

    (st.description, r)
}

fn write_replay(check: &Check, sub: &str, case: &Case, message: &str, tag: &str) -> std::path::PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{}{}.json", check.id, tag));
    let s = check.subs.iter().find(|s| s.name == sub);
    let description = s.and_then(|s| if tag.is_empty() { describe(s, case).0 } else { None });
    let body = json!({
        "property": check.id,
        "sub": sub,
        "case": case.to_json(),
        "seed": seed(),
        "message": message,
        "description": description,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();

    path
}

pub(crate) fn known_lines(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let prefix = format!("finding: property={} key=", id);

    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| {
            let mut it = l.splitn(2, ' ');
            (it.next().unwrap().to_string(), it.next().unwrap_or("").to_string())
        })
        .collect()
}

fn child(check: &Check, journal: Option<&std::path::Path>) -> i32 {
    let t0 = Instant::now();
    watch(check, LIMIT_S);
    let deep = thorough();
    let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("HARNESS_SUB").ok();
    let mut violations = 0;

    // Recorded defects:
    let listed = known_lines(check.id);
    for k in &check.known {
        match panics(k.probe) {
            Ok(None) => {},
            Ok(Some(what)) => match listed.iter().find(|(key, _)| key == k.key) {
                Some((_, text)) => println!("KNOWN-FINDING: property={} {} [{}]", check.id, text, what),
                None => {
                    let path = write_replay(check, k.key, &Case { head: vec![], prog: vec![] }, &what, "-known");
                    println!("unlisted finding {}: {}", k.key, what);
                    println!("VIOLATION property={} replay={}", check.id, path.display());
                    violations += 1;
                },
            },
            Err(p) => {
                println!("{}: probe of known finding {} panicked: {}", check.id, k.key, p);
                let path = write_replay(check, k.key, &Case { head: vec![], prog: vec![] }, &p, "-known");
                println!("VIOLATION property={} replay={}", check.id, path.display());
                violations += 1;
            },
        }
    }

    // Generated cases, in chunks of fixed work:
    let mut work = Vec::new();
    for sub in &check.subs {
        if only.as_ref().map(|o| o != sub.name).unwrap_or(false) {
            continue;
        }
        let total = (if deep { sub.thorough } else { sub.quick } as f64 * scale).max(1.0) as u32;
        let chunks = 16u32.min(total);
        for c in 0..chunks {
            let n = total / chunks + if c < total % chunks { 1 } else { 0 };
            work.push((sub.clone(), c as usize, n));
        }
    }

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Mutex<BTreeMap<&'static str, Stats>> = Mutex::new(BTreeMap::new());
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);

    muted(|| std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= work.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let (sub, chunk, n) = &work[i];
                    let (st, failure) = run_chunk(check, sub, *chunk, *n, i, journal);
                    stats.lock().unwrap().entry(sub.name).or_default().merge(st);
                    if let Some(f) = failure {
                        stop.store(true, Ordering::SeqCst);
                        failures.lock().unwrap().push(f);
                    }
                })
                .unwrap();
        }
    }));

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.order);

    if let Some(f) = failures.first() {
        let path = muted(|| write_replay(check, f.sub, &f.case, &f.message, ""));
        let sub = check.subs.iter().find(|s| s.name == f.sub).unwrap();
        if let (Some(d), _) = muted(|| describe(sub, &f.case)) {
            println!("case: {}", serde_json::to_string(&d).unwrap());
        }
        println!("{} [{}]: {}", check.id, f.sub, f.message);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        violations += 1;
    }

    // Evidence:
    let stats = stats.into_inner().unwrap();
    let evaluations: u64 = stats.values().map(|s| s.evals).sum();
    let nontrivial: usize = stats.values().map(|s| s.nontrivial.len()).sum();
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    for (name, st) in &stats {
        let mut ss: Vec<_> = st.samples.clone();
        ss.sort_by_key(|(n, _)| std::cmp::Reverse(*n));
        for (_, v) in ss.into_iter().take(3) {
            samples.push(json!({"check": name, "case": v}));
        }
        per.insert(
            name.to_string(),
            json!({"evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(), "classes": st.labels}),
        );
    }
    let evidence = json!({
        "property": check.id,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": check.rule,
            "samples": samples,
            "per_check": per,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let path = verif_dir().join("evidence").join(format!("{}.json", check.id));
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
        check.id,
        evaluations,
        nontrivial,
        violations,
        t0.elapsed().as_secs_f64()
    );

    if violations > 0 {
        1
    } else {
        0
    }
}

fn replay(check: &Check, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let name = v["sub"].as_str().unwrap().to_string();
    let case = Case::from_json(&v["case"]);

    if let Some(k) = check.known.iter().find(|k| k.key == name) {
        return match panics(k.probe) {
            Ok(None) => 0,
            _ => {
                println!("VIOLATION property={} replay={}", check.id, path);
                1
            },
        };
    }

    let sub = check.subs.iter().find(|s| s.name == name).expect("unknown check name").clone();
    watch(check, LIMIT_S);
    let (d, r) = muted(|| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || timed(sub.name, &case, || describe(&sub, &case)))
            .unwrap()
            .join()
            .unwrap()
    });

    if let Some(d) = d {
        println!("case: {}", serde_json::to_string_pretty(&d).unwrap());
    }

    match r {
        Ok(()) => {
            println!("{}: replayed case passes", check.id);
            0
        },
        Err(m) => {
            println!("{} [{}]: {}", check.id, name, m);
            println!("VIOLATION property={} replay={}", check.id, path);
            1
        },
    }
}

/// Signals by which the code under test can crash the process (not those sent by a resource limiter).
fn crash_signal(status: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;

    matches!(status.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11))
}

fn supervise(check: &Check) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new(&exe).arg("--child").status().unwrap();

    if let Some(code) = status.code() {
        return code;
    }
    if !crash_signal(&status) {
        eprintln!("error: {} was ended by {:?}", check.id, status);
        return 5;
    }

    // The code under test brought the process down: find the case that does it.
    let dir = verif_dir().join("scratch").join(format!("journal-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let status = std::process::Command::new(&exe).arg("--child").env("HARNESS_JOURNAL", &dir).status().unwrap();
    let mut found = None;
    if crash_signal(&status) {
        let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
        files.sort();
        for f in files {
            let st = std::process::Command::new(&exe).arg("replay").arg(&f).status().unwrap();
            if crash_signal(&st) {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                let case = Case::from_json(&v["case"]);
                let msg = format!("the process crashed ({:?})", st);
                found = Some(write_replay(check, v["sub"].as_str().unwrap(), &case, &msg, "-crash"));
                break;
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();

    match found {
        Some(path) => {
            println!("{}: the process crashed", check.id);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            1
        },
        None => {
            eprintln!("error: {} crashed ({:?}) and no single case reproduces it", check.id, status);
            6
        },
    }
}

pub fn main_check(check: Check) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));

    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--child") => {
            let j = std::env::var("HARNESS_JOURNAL").ok().map(std::path::PathBuf::from);
            child(&check, j.as_deref())
        },
        Some("replay") => replay(&check, args.get(2).expect("replay FILE")),
        Some("gen") => {
            // Print a few generated cases (for looking at the distribution).
            let sub = check.subs.iter().find(|s| Some(&s.name.to_string()) == args.get(2)).expect("gen SUB");
            let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(&[seed()])));
            for _ in 0..10 {
                let c = strategy(sub).new_tree(&mut r).unwrap().current();
                println!("{}", describe(sub, &c).0.map(|v| v.to_string()).unwrap_or_default());
            }
            0
        },
        _ => supervise(&check),
    };

    std::process::exit(code)
}
