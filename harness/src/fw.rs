//! Property-based testing framework: proptest strategies drive case generation and shrinking, every
//! case runs in a worker process (so aborts, signals and process exits of the code under test are
//! observed, not suffered), and everything is a pure function of VERIF_SEED and the code.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick(self, quick: u64, thorough: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// what a case reports about itself
#[derive(Default)]
pub struct Cov {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
}
impl Cov {
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.classes.entry(name.to_string()).or_insert(0) += n;
    }
}

pub type Outcome = Result<(), String>;

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const LEVEL: &'static str = "exploration";
    fn cases(tier: Tier) -> u64;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, cov: &mut Cov) -> Outcome;
    /// worker processes used
    fn workers() -> usize {
        8
    }
    /// rayon threads of each worker
    fn rayon_threads() -> usize {
        4
    }
    /// a judgement over all cases of the run (statistical properties)
    fn finish(_classes: &BTreeMap<String, u64>, _tier: Tier) -> Outcome {
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        Vec::new()
    }
    /// a listed finding: the specific case that fails (see known_findings.txt)
    fn known_case(_sig: &str) -> Option<Self::Case> {
        None
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) { return Err(format!("{}: {:?} != {:?}", format!($($arg)*), a, b)); }
    }};
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn verif_dir() -> PathBuf {
    match std::env::var("VERIF_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64
}
fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn tree_for<P: Prop>(seed: u64, idx: u64, tier: Tier) -> Box<dyn ValueTree<Value = P::Case>> {
    let mut bytes = [0u8; 32];
    let mut h = mix2(hash_str(P::ID), seed);
    for c in bytes.chunks_mut(8) {
        h = mix2(h, idx);
        c.copy_from_slice(&h.to_le_bytes());
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let tree = P::strategy(tier).new_tree(&mut runner).expect("strategy rejected too much");
    Box::new(tree)
}

// ------------------------------------------------------------------------------------------------
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("panicked at {}: {}", loc, msg);
        }
    }));
}
/// runs f, turning a panic into an Err with its message
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()),
    }
}

/// formats what is logged and forgets it
struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::io::Write;
        let _ = std::io::sink().write_fmt(*r.args());
    }
    fn flush(&self) {}
}
static NULL_LOG: NullLog = NullLog;

fn run_case<P: Prop>(case: &P::Case, cov: &mut Cov) -> Outcome {
    // a share of the cases runs with logging on: what is done to log must not matter
    let loud = hash_str(&serde_json::to_string(case).unwrap_or_default()) % 24 == 0;
    let _ = log::set_logger(&NULL_LOG);
    log::set_max_level(if loud { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    cov.class_if(loud, "logging on");
    match catch(|| P::run(case, cov)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    nontrivial_hashes: Vec<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, serde_json::Value)>,
    fail: Option<(u64, String)>,
}

fn pin_progress(f: &std::fs::File, idx: u64) {
    use std::os::unix::fs::FileExt;
    let _ = f.write_at(&idx.to_le_bytes(), 0);
}

type FailNow = Box<dyn Fn(&str) + Send>;
static FAIL_NOW: Mutex<Option<FailNow>> = Mutex::new(None);
/// the running case fails and its threads cannot be left otherwise than by ending the process
pub fn fail_now(m: &str) -> ! {
    if let Some(f) = FAIL_NOW.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
        f(m);
    }
    unsafe { libc::_exit(10) }
}

fn worker<P: Prop>(w: u64, nw: u64, dir: &Path) -> i32 {
    install_hook();
    let tier = env_tier();
    let seed = env_seed();
    let n = P::cases(tier);
    let progress = std::fs::File::create(dir.join(format!("progress{}", w))).unwrap();
    let mut out = WorkerOut::default();
    let mut hashes = HashSet::new();
    let mut idx = w;
    while idx < n {
        pin_progress(&progress, idx);
        let case = tree_for::<P>(seed, idx, tier).current();
        let mut cov = Cov::default();
        let outp = dir.join(format!("out{}", w));
        *FAIL_NOW.lock().unwrap() = Some(Box::new(move |m| {
            let out = WorkerOut { evaluations: 1, fail: Some((idx, m.to_string())), ..Default::default() };
            let _ = std::fs::write(&outp, serde_json::to_vec(&out).unwrap());
        }));
        let res = run_case::<P>(&case, &mut cov);
        out.evaluations += 1;
        for (k, v) in cov.classes {
            *out.classes.entry(k).or_insert(0) += v;
        }
        if cov.nontrivial {
            let js = serde_json::to_string(&case).unwrap();
            if hashes.insert(hash_str(&js)) && out.samples.len() < 2 {
                out.samples.push((idx, serde_json::from_str(&js).unwrap()));
            }
        }
        if let Err(m) = res {
            out.fail = Some((idx, m));
            break;
        }
        idx += nw;
    }
    out.nontrivial_hashes = hashes.into_iter().collect();
    let failed = out.fail.is_some();
    std::fs::write(dir.join(format!("out{}", w)), serde_json::to_vec(&out).unwrap()).unwrap();
    if failed {
        10
    } else {
        0
    }
}

/// evaluates one case file in this process: 0 held, 10 violated (message on stdout)
fn one<P: Prop>(path: &Path) -> i32 {
    install_hook();
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {:?}: {}", path, e);
            return 2;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&txt).unwrap();
    let case_v = v.get("case").cloned().unwrap_or(v);
    let case: P::Case = serde_json::from_value(case_v).unwrap();
    let mut cov = Cov::default();
    *FAIL_NOW.lock().unwrap() = Some(Box::new(|m| {
        use std::io::Write;
        println!("RESULT violated: {}", m);
        let _ = std::io::stdout().flush();
    }));
    match run_case::<P>(&case, &mut cov) {
        Ok(()) => {
            println!("RESULT held");
            0
        }
        Err(m) => {
            println!("RESULT violated: {}", m.replace('\n', " | "));
            10
        }
    }
}

enum Eval {
    Held,
    Violated(String),
    /// killed by the environment or hanging: says nothing
    Unknown(String),
}

fn wait_timeout(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

fn classify_death(st: std::process::ExitStatus) -> Result<String, String> {
    if let Some(sig) = st.signal() {
        if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT || sig == libc::SIGHUP {
            return Err(format!("killed by signal {}", sig));
        }
        Ok(format!("the process running the case died with signal {}", sig))
    } else {
        Ok(format!("the process running the case exited by itself with code {:?}", st.code()))
    }
}

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn self_cmd<P: Prop>(dir: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c.env("RAYON_NUM_THREADS", P::rayon_threads().to_string());
    c.env("HARNESS_SCRATCH", dir);
    c.env("RUST_BACKTRACE", "0");
    c.env_remove("RUST_LOG");
    c
}

fn eval_sub<P: Prop>(case: &P::Case, dir: &Path) -> Eval {
    let f = dir.join("one.json");
    std::fs::write(&f, serde_json::to_vec(case).unwrap()).unwrap();
    let outp = dir.join("one.out");
    let of = std::fs::File::create(&outp).unwrap();
    let mut child = self_cmd::<P>(dir).arg("--one").arg(&f).stdout(of).spawn().unwrap();
    match wait_timeout(&mut child, Duration::from_secs(120)) {
        None => Eval::Unknown("timeout".into()),
        Some(st) => {
            let text = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).to_string();
            match st.code() {
                Some(0) if text.lines().any(|l| l == "RESULT held") => Eval::Held,
                Some(10) => {
                    let m = text
                        .lines()
                        .rev()
                        .find_map(|l| l.strip_prefix("RESULT violated: "))
                        .unwrap_or("violated")
                        .to_string();
                    Eval::Violated(m)
                }
                _ => match classify_death(st) {
                    Ok(m) => Eval::Violated(m),
                    Err(m) => Eval::Unknown(m),
                },
            }
        }
    }
}

fn violation<P: Prop>(case: &P::Case, msg: &str, note: &str) -> PathBuf {
    let js = serde_json::to_value(case).unwrap();
    let h = hash_str(&js.to_string());
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", P::ID, h));
    let doc = serde_json::json!({
        "property": P::ID, "message": msg, "note": note, "seed": env_seed(),
        "replay": format!("./check {} --replay {}", P::ID, path.display()), "case": js });
    std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
    path
}

fn shrink<P: Prop>(idx: u64, seed: u64, tier: Tier, dir: &Path, first: String) -> (P::Case, String, u32) {
    let mut tree = tree_for::<P>(seed, idx, tier);
    let mut best = tree.current();
    let mut best_msg = first;
    let start = Instant::now();
    let mut steps = 0;
    let budget = Duration::from_secs(90);
    if tree.simplify() {
        loop {
            if steps >= 400 || start.elapsed() > budget {
                break;
            }
            steps += 1;
            match eval_sub::<P>(&tree.current(), dir) {
                Eval::Violated(m) => {
                    best = tree.current();
                    best_msg = m;
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    (best, best_msg, steps)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence<P: Prop>(
    tier: Tier, seed: u64, outs: &[WorkerOut], classes: &BTreeMap<String, u64>, wall: f64, violations: u64,
    known: &[String], note: &str,
) {
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ev = 0;
    let mut samples = Vec::new();
    for o in outs {
        ev += o.evaluations;
        hashes.extend(o.nontrivial_hashes.iter());
        samples.extend(o.samples.iter().cloned());
    }
    samples.sort_by_key(|s| s.0);
    samples.truncate(4);
    let samples: Vec<_> = samples.into_iter().map(|(i, v)| serde_json::json!({"index": i, "case": v})).collect();
    let doc = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": hashes.len(),
            "rule": P::RULE,
            "classes": classes,
            "known_findings": known,
            "note": note,
            "samples": samples,
        },
        "assumptions": P::assumptions(),
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
}

fn known_entries(id: &str) -> Vec<(String, String)> {
    // lines: "known: property=C09 sig=<sig> <what fails>"
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("sig=")?;
            let (sig, what) = rest.split_once(' ')?;
            (p == id).then(|| (sig.to_string(), what.to_string()))
        })
        .collect()
}

fn supervise<P: Prop>() -> i32 {
    let tier = env_tier();
    let seed = env_seed();
    let start = Instant::now();
    let base = std::env::temp_dir().join(format!("hnsw-verif-{}-{}", P::ID, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let tmp = Tmp(base);
    let dir = tmp.0.clone();

    let mut known_lines = Vec::new();
    for (sig, what) in known_entries(P::ID) {
        match P::known_case(&sig) {
            Some(case) => match eval_sub::<P>(&case, &dir) {
                Eval::Violated(_) => {
                    let line = format!("KNOWN-FINDING: property={} {}", P::ID, what);
                    println!("{}", line);
                    known_lines.push(line);
                }
                Eval::Held => println!("note: listed finding {} no longer fails", sig),
                Eval::Unknown(m) => {
                    eprintln!("ERROR {}: listed finding {}: {}", P::ID, sig, m);
                    return 3;
                }
            },
            None => println!("note: no case for listed finding {}", sig),
        }
    }

    let nw = P::workers().min(P::cases(tier) as usize).max(1);
    let mut kids: Vec<Option<Child>> = (0..nw)
        .map(|w| {
            let wd = dir.join(format!("w{}", w));
            std::fs::create_dir_all(&wd).unwrap();
            Some(
                self_cmd::<P>(&wd)
                    .arg("--worker")
                    .arg(w.to_string())
                    .arg(nw.to_string())
                    .arg(&dir)
                    .spawn()
                    .unwrap(),
            )
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); nw];
    let mut failure: Option<(u64, String, bool)> = None; // idx, message, died
    let mut error: Option<String> = None;
    let read_progress = |w: usize| -> u64 {
        let b = std::fs::read(dir.join(format!("progress{}", w))).unwrap_or_default();
        if b.len() == 8 {
            u64::from_le_bytes(b.try_into().unwrap())
        } else {
            u64::MAX
        }
    };
    let read_out = |w: usize| -> Option<WorkerOut> {
        serde_json::from_slice(&std::fs::read(dir.join(format!("out{}", w))).ok()?).ok()
    };
    while kids.iter().any(|k| k.is_some()) && failure.is_none() && error.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..nw {
            let Some(k) = kids[w].as_mut() else { continue };
            match k.try_wait() {
                Ok(Some(st)) => {
                    kids[w] = None;
                    let out = read_out(w);
                    match (st.code(), out) {
                        (Some(0), Some(_)) => {}
                        (Some(10), Some(o)) => {
                            let (i, m) = o.fail.clone().unwrap();
                            failure = Some((i, m, false));
                        }
                        _ => match classify_death(st) {
                            Ok(m) => failure = Some((read_progress(w), m, true)),
                            Err(m) => error = Some(m),
                        },
                    }
                }
                Ok(None) => {
                    let p = read_progress(w);
                    if p != last[w].0 {
                        last[w] = (p, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(300) {
                        error = Some(format!("case {} ran for over 300 s", p));
                    }
                }
                Err(e) => error = Some(e.to_string()),
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let outs: Vec<WorkerOut> = (0..nw).filter_map(read_out).collect();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    for o in &outs {
        for (k, v) in &o.classes {
            *classes.entry(k.clone()).or_insert(0) += v;
        }
    }
    let wall = |s: &Instant| s.elapsed().as_secs_f64();
    if let Some(e) = error {
        eprintln!("ERROR {}: {}", P::ID, e);
        write_evidence::<P>(tier, seed, &outs, &classes, wall(&start), 0, &known_lines, "aborted");
        return 3;
    }
    if let Some((idx, msg, died)) = failure {
        if idx == u64::MAX {
            eprintln!("ERROR {}: a worker died before its first case: {}", P::ID, msg);
            return 3;
        }
        // confirm in a fresh process, then shrink
        let case = tree_for::<P>(seed, idx, tier).current();
        let mut confirmed = None;
        for _ in 0..3 {
            if let Eval::Violated(m) = eval_sub::<P>(&case, &dir) {
                confirmed = Some(m);
                break;
            }
        }
        let (c, m, note) = match confirmed {
            Some(m) => {
                let (c, m, steps) = shrink::<P>(idx, seed, tier, &dir, m);
                (c, m, format!("case {} shrunk in {} steps", idx, steps))
            }
            None if !died => (case, msg, format!("case {}, depends on thread timing: not reproduced in 3 fresh runs", idx)),
            None => {
                eprintln!("ERROR {}: case {}: {} (not reproduced in a fresh process)", P::ID, idx, msg);
                return 3;
            }
        };
        let path = violation::<P>(&c, &m, &note);
        println!("{}: {} [{}]", P::ID, m, note);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        write_evidence::<P>(tier, seed, &outs, &classes, wall(&start), 1, &known_lines, &note);
        return 1;
    }
    if let Err(m) = P::finish(&classes, tier) {
        let dirp = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dirp);
        let path = dirp.join(format!("{}-aggregate-seed{}.json", P::ID, seed));
        std::fs::write(
            &path,
            serde_json::to_vec_pretty(&serde_json::json!({"property": P::ID, "message": m, "seed": seed,
                "note": "statistical judgement over the whole run: re-run the check with this VERIF_SEED", "classes": classes}))
            .unwrap(),
        )
        .unwrap();
        println!("{}: {}", P::ID, m);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        write_evidence::<P>(tier, seed, &outs, &classes, wall(&start), 1, &known_lines, "aggregate");
        return 1;
    }
    write_evidence::<P>(tier, seed, &outs, &classes, wall(&start), 0, &known_lines, "");
    let ev: u64 = outs.iter().map(|o| o.evaluations).sum();
    let nt: HashSet<u64> = outs.iter().flat_map(|o| o.nontrivial_hashes.iter().copied()).collect();
    println!(
        "{}: held on {} cases ({} distinct non-trivial), seed {}, {:.1} s",
        P::ID, ev, nt.len(), seed, wall(&start)
    );
    0
}

/// entry point of every check binary
pub fn main<P: Prop>() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker::<P>(
            args[2].parse().unwrap(),
            args[3].parse().unwrap(),
            Path::new(&args[4]),
        ),
        Some("--one") => one::<P>(Path::new(&args[2])),
        Some("--replay") => {
            let rc = one::<P>(Path::new(&args[2]));
            if std::env::var("HARNESS_SCRATCH").is_err() {
                let _ = std::env::set_current_dir("/");
                let _ = std::fs::remove_dir_all(own_scratch());
            }
            if rc == 10 {
                println!("VIOLATION property={} replay={}", P::ID, args[2]);
                1
            } else {
                rc
            }
        }
        Some("--show") => {
            let n: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(5);
            for i in 0..n {
                println!("{}", serde_json::to_string(&tree_for::<P>(env_seed(), i, env_tier()).current()).unwrap());
            }
            0
        }
        _ => supervise::<P>(),
    };
    std::process::exit(code);
}

fn own_scratch() -> PathBuf {
    std::env::temp_dir().join(format!("hnsw-verif-one-{}", std::process::id()))
}

/// a scratch directory for the running worker, emptied at every call
pub fn scratch(name: &str) -> PathBuf {
    let base = match std::env::var("HARNESS_SCRATCH") {
        Ok(d) => PathBuf::from(d),
        Err(_) => own_scratch(),
    };
    let d = base.join("scratch").join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
