//! The runner. The parent starts worker processes, each of which runs the cases that are its share;
//! a case is determined by the seed, the property, and its number. The parent watches them for
//! crashes and for cases that do not end, and merges what they saw.
use model::rng::{fnv, Rng};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Debug, Clone)]
pub struct Violation(pub String);
pub type Res = Result<(), Violation>;

pub fn fail<T>(m: impl Into<String>) -> Result<T, Violation> {
    Err(Violation(m.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err($crate::core::Violation(format!($($t)*)));
        }
    };
}

pub struct Cx {
    pub rng: Rng,
    pub case: u64,
    pub seed: u64,
    pub tier: Tier,
    /// what was observed
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// the input of the current case, for reports
    pub input: String,
    /// a folder of this worker's own
    pub scratch: PathBuf,
    pub skipped: u64,
    pub worker: usize,
    pub keep: BTreeMap<&'static str, Box<dyn Any>>,
}

impl Cx {
    pub fn see(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// A case that was decided: it counts once for each different content
    pub fn decided(&mut self, content: &[u8]) {
        self.distinct.insert(fnv(content));
    }
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        NOTE.with(|n| {
            if let Some(st) = &*n.borrow() {
                st.note(&self.input)
            }
        });
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut t = s();
            if t.len() > 600 {
                let mut n = 600;
                while !t.is_char_boundary(n) {
                    n -= 1
                }
                t.truncate(n);
                t.push_str("...");
            }
            self.samples.push(t);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// what has to be seen at least this often in a quick run, or the run says nothing
    pub need: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// 0 for as many as there are cores
    pub workers: usize,
    /// as an unprivileged user
    pub drop: bool,
    /// a case that waits without using the processor is a violation
    pub deadlock: bool,
}

thread_local! {
    /// where the parent finds the input, if the process dies
    static NOTE: RefCell<Option<Status>> = const { RefCell::new(None) };
    static GUARD: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let l = i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        if GUARD.with(|g| g.get()) == 0 {
            eprintln!("harness panic: {} at {}", m, l);
        }
        LAST.with(|x| *x.borrow_mut() = Some((m, l)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST.with(|x| x.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

/// Runs code of templito. A panic in there is a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Violation> {
    guard_raw(f).map_err(|(m, l)| Violation(format!("panic: {} at {}", m, l)))
}

/// message and place of the panic
pub fn guard_raw<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|_| last_panic())
}

const STATUS_LEN: usize = 1 << 14;
#[derive(Clone, Copy)]
struct Status {
    p: *const AtomicU64,
}
unsafe impl Send for Status {}
impl Status {
    fn open(path: &Path) -> Status {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("status file");
        f.set_len(STATUS_LEN as u64).expect("status file");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                STATUS_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Status { p: p as *const AtomicU64 }
    }
    /// 0: current case + 1, 1: cases done, 2: length of the input text, then the text
    fn at(&self, n: usize) -> &AtomicU64 {
        unsafe { &*self.p.add(n) }
    }
    fn note(&self, s: &str) {
        let n = s.len().min(STATUS_LEN - 24);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(3) as *mut u8, n) };
        self.at(2).store(n as u64, Ordering::SeqCst);
    }
    fn noted(&self) -> String {
        let n = (self.at(2).load(Ordering::SeqCst) as usize).min(STATUS_LEN - 24);
        let b = unsafe { std::slice::from_raw_parts(self.p.add(3) as *const u8, n) };
        String::from_utf8_lossy(b).to_string()
    }
}

fn is_scratch_ok(p: &Path) -> bool {
    p.to_str().map_or(false, |s| s.starts_with("/tmp/mon-") && !s.contains(".."))
}

pub fn root_dir() -> PathBuf {
    // /verif, from where this was built
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// ---- worker ----

pub fn worker(p: &'static Prop, seed: u64, tier: Tier, w: usize, n: usize, cases: u64, dir: &Path, only: Option<u64>) -> i32 {
    hook_panics();
    let st = Status::open(&dir.join(format!("status.{}", w)));
    let out_path = dir.join(format!("result.{}", w));
    let hash_path = dir.join(format!("hashes.{}", w));
    let mut out = std::fs::File::create(&out_path).expect("result file");
    let mut hashes = std::fs::File::create(&hash_path).expect("hash file");
    let scratch = dir.join(format!("w{}", w));
    std::fs::create_dir_all(&scratch).expect("scratch");
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        if p.drop {
            let c = std::ffi::CString::new(scratch.as_os_str().to_str().unwrap()).unwrap();
            assert_eq!(libc::chown(c.as_ptr(), 65534, 65534), 0);
            let _ = libc::setgroups(0, std::ptr::null());
            assert_eq!(libc::setgid(65534), 0, "setgid");
            assert_eq!(libc::setuid(65534), 0, "setuid");
            assert_ne!(libc::setuid(0), 0, "could get root back");
        }
    }
    std::env::set_current_dir(&scratch).expect("scratch");
    let th = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut cx = Cx {
                rng: Rng::new(0),
                case: 0,
                seed,
                tier,
                counts: BTreeMap::new(),
                distinct: HashSet::new(),
                samples: vec![],
                input: String::new(),
                scratch,
                skipped: 0,
                worker: w,
                keep: BTreeMap::new(),
            };
            NOTE.with(|n| *n.borrow_mut() = Some(st));
            let mut violation = None;
            let mut done = 0u64;
            let mut case = only.unwrap_or(w as u64);
            // where the machine is slow fewer cases are an answer as well
            let begin = Instant::now();
            let soft = Duration::from_secs(match tier {
                Tier::Quick => WALL_QUICK * 2 / 3,
                Tier::Thorough => WALL_THOROUGH * 4 / 5,
            });
            while case < cases || only.is_some() {
                st.at(0).store(case + 1, Ordering::SeqCst);
                cx.rng = Rng::for_case(seed, p.id, case);
                cx.case = case;
                cx.input.clear();
                st.at(2).store(0, Ordering::SeqCst);
                match catch_unwind(AssertUnwindSafe(|| (p.run)(&mut cx))) {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => {
                        violation = Some((case, v.0, cx.input.clone()));
                    }
                    Err(e) => {
                        // a panic outside of the calls that are guarded
                        let (m, l) = last_panic();
                        if !l.starts_with("/repo/") {
                            std::panic::resume_unwind(e);
                        }
                        violation = Some((case, format!("panic: {} at {}", m, l), cx.input.clone()));
                    }
                }
                done += 1;
                st.at(1).store(done, Ordering::SeqCst);
                if violation.is_some() || only.is_some() {
                    break;
                }
                case += n as u64;
                if done % 16 == 0 && begin.elapsed() > soft {
                    cx.see("workers that ran out of time");
                    break;
                }
            }
            st.at(0).store(0, Ordering::SeqCst);
            let v = json!({
                "done": done,
                "skipped": cx.skipped,
                "counts": cx.counts,
                "samples": cx.samples,
                "violation": violation.map(|(c, m, i)| json!({"case": c, "message": m, "input": i})),
            });
            let h: Vec<u8> = cx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            // (opened before privileges were dropped)
            hashes.write_all(&h).expect("hashes");
            out.write_all(v.to_string().as_bytes()).expect("result");
            0
        })
        .expect("thread");
    match th.join() {
        Ok(n) => n,
        Err(_) => 3,
    }
}

/// ---- parent ----

struct Run {
    child: Child,
    st: Status,
    last_case: u64,
    cpu_at: f64,
    since: Instant,
    over: bool,
}

/// processor seconds of a process and of its live descendants
fn cpu(pid: u32) -> f64 {
    let t = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    let s = match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => s,
        Err(_) => return 0.0,
    };
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    // utime stime cutime cstime
    (n(11) + n(12) + n(13) + n(14)) / t
}

const CPU_LIMIT: f64 = 40.0;
const IDLE_LIMIT: u64 = 45;
/// a safety net, which is inconclusive
const WALL_QUICK: u64 = 600;
const WALL_THOROUGH: u64 = 3 * 3600;

pub struct Outcome {
    pub violations: Vec<(u64, String, String)>,
    pub inconclusive: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
    pub skipped: u64,
    pub distinct: usize,
}

impl Outcome {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n
    }
}

pub fn temp_dir(id: &str) -> PathBuf {
    let d = PathBuf::from(format!("/tmp/mon-{}-{}", id, std::process::id()));
    assert!(is_scratch_ok(&d));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("temp dir");
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o711)).expect("temp dir");
    d
}

pub fn remove_temp(d: &Path) {
    if is_scratch_ok(d) {
        // what the checks made read only comes back
        let _ = Command::new("chmod").arg("-R").arg("u+rwX").arg(d).status();
        let _ = std::fs::remove_dir_all(d);
    }
}

pub fn run_all(p: &'static Prop, seed: u64, tier: Tier, cases: u64, only: Option<u64>) -> Outcome {
    let dir = temp_dir(p.id);
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get());
    let n = match (only, p.workers) {
        (Some(_), _) => 1,
        (_, 0) => cores.min(cases.max(1) as usize),
        (_, n) => n.min(cases.max(1) as usize),
    };
    let exe = std::env::current_exe().expect("exe");
    let mut runs: Vec<Run> = Vec::new();
    for w in 0..n {
        let mut c = Command::new(&exe);
        c.arg("worker")
            .arg(p.id)
            .arg(seed.to_string())
            .arg(tier.name())
            .arg(w.to_string())
            .arg(n.to_string())
            .arg(cases.to_string())
            .arg(&dir);
        if let Some(o) = only {
            c.arg(o.to_string());
        }
        c.stdin(Stdio::null());
        // or every error in there takes a backtrace
        c.env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0");
        let err = std::fs::File::create(dir.join(format!("stderr.{}", w))).expect("stderr");
        let outf = std::fs::File::create(dir.join(format!("stdout.{}", w))).expect("stdout");
        c.stderr(err).stdout(outf);
        let st = Status::open(&dir.join(format!("status.{}", w)));
        let child = c.spawn().expect("worker");
        runs.push(Run { child, st, last_case: 0, cpu_at: 0.0, since: Instant::now(), over: false });
    }
    let mut o = Outcome {
        violations: vec![],
        inconclusive: vec![],
        counts: BTreeMap::new(),
        samples: vec![],
        evaluations: 0,
        skipped: 0,
        distinct: 0,
    };
    let begin = Instant::now();
    let wall = Duration::from_secs(match tier {
        Tier::Quick => WALL_QUICK,
        Tier::Thorough => WALL_THOROUGH,
    });
    let stderr_of = |w: usize| {
        let s = std::fs::read(dir.join(format!("stderr.{}", w))).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).to_string();
        let mut n = s.len().saturating_sub(400);
        while !s.is_char_boundary(n) {
            n += 1
        }
        s[n..].trim().to_string()
    };
    loop {
        let mut live = false;
        for w in 0..runs.len() {
            let r = &mut runs[w];
            if r.over {
                continue;
            }
            let case = r.st.at(0).load(Ordering::SeqCst);
            match r.child.try_wait().expect("wait") {
                Some(s) => {
                    r.over = true;
                    if s.code() == Some(0) {
                        continue;
                    }
                    match s.signal() {
                        Some(libc::SIGKILL) => {
                            o.inconclusive.push(format!("worker {} was killed at case {}", w, case as i64 - 1))
                        }
                        Some(sig) if case > 0 => o.violations.push((
                            case - 1,
                            format!("the process died of signal {} ({})", sig, stderr_of(w)),
                            r.st.noted(),
                        )),
                        _ => o.inconclusive.push(format!(
                            "worker {} failed ({:?}) at case {}: {}",
                            w,
                            s,
                            case as i64 - 1,
                            stderr_of(w)
                        )),
                    }
                }
                None => {
                    live = true;
                    let c = cpu(r.child.id());
                    if case != r.last_case {
                        r.last_case = case;
                        r.cpu_at = c;
                        r.since = Instant::now();
                    } else if case > 0 && c - r.cpu_at > CPU_LIMIT {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        r.over = true;
                        o.violations.push((
                            case - 1,
                            format!("no end after {:.0} seconds of processor time", c - r.cpu_at),
                            r.st.noted(),
                        ));
                    } else if case > 0
                        && p.deadlock
                        && r.since.elapsed() > Duration::from_secs(IDLE_LIMIT)
                        && c - r.cpu_at < 1.0
                    {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        r.over = true;
                        o.violations.push((
                            case - 1,
                            format!("waits without end, after {:.2} seconds of processor time", c - r.cpu_at),
                            r.st.noted(),
                        ));
                    }
                }
            }
        }
        if !live {
            break;
        }
        let found = !o.violations.is_empty();
        if found || begin.elapsed() > wall {
            if !found {
                o.inconclusive.push("out of wall clock time".into());
            }
            // the others may have something as well, but they need not end
            std::thread::sleep(Duration::from_millis(300));
            for r in runs.iter_mut() {
                if !r.over {
                    let _ = r.child.kill();
                    let _ = r.child.wait();
                    r.over = true;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(if begin.elapsed().as_secs() < 2 { 10 } else { 50 }));
    }
    let mut all = HashSet::new();
    for w in 0..n {
        let s = std::fs::read_to_string(dir.join(format!("result.{}", w))).unwrap_or_default();
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            o.evaluations += v["done"].as_u64().unwrap_or(0);
            o.skipped += v["skipped"].as_u64().unwrap_or(0);
            if let Some(m) = v["counts"].as_object() {
                for (k, c) in m {
                    let c = c.as_u64().unwrap_or(0);
                    let e = o.counts.entry(k.clone()).or_insert(0);
                    if k.starts_with("max ") {
                        *e = (*e).max(c)
                    } else {
                        *e += c
                    }
                }
            }
            for x in v["samples"].as_array().into_iter().flatten() {
                if o.samples.len() < 6 {
                    o.samples.push(x.as_str().unwrap_or("").to_string());
                }
            }
            if let Some(x) = v.get("violation").filter(|x| !x.is_null()) {
                o.violations.push((
                    x["case"].as_u64().unwrap_or(0),
                    x["message"].as_str().unwrap_or("").to_string(),
                    x["input"].as_str().unwrap_or("").to_string(),
                ));
            }
        } else {
            o.evaluations += runs[w].st.at(1).load(Ordering::SeqCst);
        }
        let h = std::fs::read(dir.join(format!("hashes.{}", w))).unwrap_or_default();
        for c in h.chunks_exact(8) {
            all.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    o.distinct = all.len();
    o.violations.sort();
    drop(runs);
    remove_temp(&dir);
    o
}

pub fn evidence_dir() -> PathBuf {
    root_dir().join("evidence")
}

pub fn write_replay(p: &Prop, seed: u64, tier: Tier, v: &(u64, String, String)) -> PathBuf {
    let d = evidence_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}-{}-{}.json", p.id, seed, v.0));
    let j = json!({
        "property": p.id, "seed": seed, "tier": tier.name(), "case": v.0,
        "message": v.1, "input": v.2,
        "replay": format!("/verif/check.sh replay {}", f.display()),
    });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
    f
}

/// The entry of a check. Returns the exit code.
pub fn check(p: &'static Prop, seed: u64, tier: Tier, cases: Option<u64>, extra: &dyn Fn(&mut Outcome)) -> i32 {
    let begin = Instant::now();
    let cases = cases.unwrap_or(match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let mut o = run_all(p, seed, tier, cases, None);
    extra(&mut o);
    let mut missing = vec![];
    if cases >= p.quick {
        for (k, n) in p.need {
            let c = o.counts.get(*k).copied().unwrap_or(0);
            if c < *n {
                missing.push(format!("'{}' seen {} times, at least {} expected", k, c, n));
            }
        }
    }
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.push("says nothing about inputs the generators did not produce".into());
    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": o.evaluations,
            "distinct_nontrivial": o.distinct,
            "rule": p.rule,
            "samples": o.samples,
            "observed": o.counts,
            "skipped": o.skipped,
            "inconclusive": o.inconclusive,
        },
        "violations": o.violations.len(),
        "assumptions": assumptions,
        "wall_s": begin.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(evidence_dir());
    std::fs::write(
        evidence_dir().join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence");
    if let Some(v) = o.violations.first() {
        let f = write_replay(p, seed, tier, v);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  case {}: {}", v.0, v.1);
        if !v.2.is_empty() {
            println!("  input: {}", v.2);
        }
        return 1;
    }
    for m in o.inconclusive.iter().chain(&missing) {
        println!("INCONCLUSIVE property={} {}", p.id, m);
    }
    if !o.inconclusive.is_empty() || !missing.is_empty() {
        return 2;
    }
    println!(
        "{}: held on {} executions ({} distinct, {} set aside) in {:.1} s",
        p.id,
        o.evaluations,
        o.distinct,
        o.skipped,
        begin.elapsed().as_secs_f64()
    );
    0
}
