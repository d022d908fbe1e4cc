//! Supervisor: sharded, crash-isolated, replayable exhaustive enumeration.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Fail {
    pub key: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: String::new(), msg: msg.into() }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::sup::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err($crate::sup::Fail::from(format!($($a)*))) };
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// One operation executed on the real code and compared with the oracle.
    pub fn transition(&mut self) {
        self.add("transitions", 1);
    }
    pub fn transitions(&mut self, n: u64) {
        self.add("transitions", n);
    }
    /// A canonical state (hash) visited.
    pub fn state<H: std::hash::Hash>(&mut self, h: H) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish());
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) {
            *n += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
}

#[repr(C)]
struct Shared {
    current: AtomicU64,
    beat: AtomicU64,
}

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn map_shared(path: &Path) -> &'static Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    unsafe { &*(p as *const Shared) }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Message and place of the last panic.
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string payload".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MCX_LOUD").is_some() {
            eprintln!("panic: {m} @ {loc}");
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m} @ {loc}");
    }));
}

pub struct Viol {
    case: u64,
    key: String,
    desc: String,
    msg: String,
}

pub struct Cx {
    pub prop: &'static str,
    pub thorough: bool,
    pub stats: Stats,
    shard: u64,
    nshards: u64,
    counter: u64,
    only: Option<u64>,
    upto: Option<u64>,
    executed: u64,
    viols: Vec<Viol>,
    samples: Vec<String>,
    next_sample: u64,
    shared: Option<&'static Shared>,
    ended: bool,
    verbose: bool,
    desc_file: Option<PathBuf>,
}

impl Cx {
    /// Cases whose number is `.0` modulo `.1` run in this process.
    pub fn shard(&self) -> (u64, u64) {
        (self.shard, self.nshards)
    }
    /// Number `case`s in a fixed order; run those of this shard.
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce(&mut Stats) -> Res,
    {
        let me = self.counter;
        self.counter += 1;
        if let Some(only) = self.only {
            if me != only {
                return;
            }
        } else if me % self.nshards != self.shard || self.ended {
            return;
        }
        if let Some(s) = self.shared {
            s.current.store(me, Relaxed);
            s.beat.fetch_add(1, Relaxed);
        }
        if self.verbose {
            println!("case {me}: {}", desc());
        }
        if let Some(p) = &self.desc_file {
            let _ = std::fs::write(p, desc());
        }
        self.executed += 1;
        if self.executed >= self.next_sample && self.samples.len() < 6 {
            self.next_sample = self.next_sample * 7 + 1;
            self.samples.push(desc());
        }
        let broken = crate::alloc::broken();
        let stats = &mut self.stats;
        let t0 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(stats)));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(Fail { key: String::new(), msg: format!("unexpected panic: {}", last_panic()) }),
        };
        let r = r.and_then(|()| {
            if crate::alloc::broken() != broken {
                Err(Fail::from("write outside an allocation (allocator red zone overwritten)"))
            } else {
                Ok(())
            }
        });
        // where the time goes (for tuning the bounds): MCX_TIMES=file prefix
        if let Some(p) = std::env::var_os("MCX_TIMES") {
            use std::io::Write;
            let p = format!("{}.{}", p.to_string_lossy(), std::process::id());
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                let _ = writeln!(f, "{:.6}\t{me}\t{}", t0.elapsed().as_secs_f64(), desc());
            }
        }
        if let Err(fail) = r {
            if self.verbose {
                println!("  -> {}", fail.msg);
            }
            // the same known key is recorded once
            let n = self.viols.iter().filter(|v| v.key == fail.key).count();
            if n < 3 || (fail.key.is_empty() && n < 10) {
                self.viols.push(Viol { case: me, key: fail.key, desc: desc(), msg: fail.msg });
            }
            if self.viols.iter().filter(|v| v.key.is_empty()).count() >= 10 {
                self.ended = true;
            }
        }
        if let Some(upto) = self.upto {
            if me >= upto {
                self.ended = true;
            }
        }
    }
    /// A case whose running time need not be small for an implementation to be
    /// right (zero-sized matrices of 2^64 - 1 elements, say): it gets a while
    /// on a thread of its own; if it does not finish, nothing is concluded.
    pub fn soft<D, F>(&mut self, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce(&mut Stats) -> Res + Send + 'static,
    {
        static UNFINISHED: AtomicU64 = AtomicU64::new(0);
        self.case(desc, |s| {
            if UNFINISHED.load(Relaxed) >= 3 {
                s.add("open_ended_cases_not_finished", 1);
                return Ok(());
            }
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let mut own = Stats::default();
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut own)));
                let _ = tx.send((own, r.unwrap_or_else(|_| Err(Fail::from(format!("unexpected panic: {}", last_panic()))))));
            });
            match rx.recv_timeout(Duration::from_secs(15)) {
                Ok((own, r)) => {
                    for (k, v) in own.counters {
                        s.add(k, v);
                    }
                    for (k, v) in own.outcomes {
                        *s.outcomes.entry(k).or_insert(0) += v;
                    }
                    s.states.extend(own.states);
                    r
                }
                Err(_) => {
                    UNFINISHED.fetch_add(1, Relaxed);
                    s.add("open_ended_cases_not_finished", 1);
                    s.outcome("takes too long to tell");
                    Ok(())
                }
            }
        });
    }
    /// Long-running cases call this so that they are not taken for a hang.
    pub fn done(&self) -> bool {
        self.ended
    }
}

/// Keep-alive for long cases.
pub fn beat() {
    if let Some(s) = SHARED.get() {
        s.0.beat.fetch_add(1, Relaxed);
    }
}
struct SharedRef(&'static Shared);
static SHARED: std::sync::OnceLock<SharedRef> = std::sync::OnceLock::new();

/// Cases that run one shard each of a `mirip` mode under Miri. A verdict is
/// undefined behaviour or a failed comparison; if Miri cannot run here, that
/// is recorded as coverage not achieved, not as a verdict.
pub fn miri(cx: &mut Cx, mode: &'static str, flags: &'static str, shards: u64) {
    miri_bin(cx, "harness/Cargo.toml", "mirip", mode, flags, shards)
}
pub fn miri_bin(cx: &mut Cx, manifest: &'static str, bin: &'static str, mode: &'static str, flags: &'static str, shards: u64) {
    for i in 0..shards {
        cx.case(
            || format!("Miri {flags}: {mode} {i}/{shards}"),
            |s| {
                if !cfg!(debug_assertions) || cfg!(any(feature = "real", feature = "atomics")) {
                    return Ok(()); // once, from the debug build
                }
                let th = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
                let dir = root().join("target").join("run");
                std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
                let log = dir.join(format!("miri-{mode}-{i}-{}.log", std::process::id()));
                let f = std::fs::File::create(&log).map_err(|e| e.to_string())?;
                let g = f.try_clone().map_err(|e| e.to_string())?;
                let child = Command::new("cargo")
                    .args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path"])
                    .arg(root().join(manifest))
                    .args(["--bin", bin, "--", mode, &i.to_string(), &shards.to_string(), th])
                    .env("CARGO_TARGET_DIR", root().join("target/miri"))
                    .env("MIRIFLAGS", flags)
                    .env_remove("RUSTUP_TOOLCHAIN")
                    .env_remove("CARGO")
                    .env_remove("RUSTC")
                    .stdin(std::process::Stdio::null())
                    .stdout(f)
                    .stderr(g)
                    .spawn();
                let start = Instant::now();
                let mut code = None;
                if let Ok(mut c) = child {
                    let limit = if th == "quick" { 400 } else { 7200 };
                    loop {
                        beat();
                        if let Ok(Some(e)) = c.try_wait() {
                            code = e.code();
                            break;
                        }
                        if start.elapsed() > Duration::from_secs(limit) {
                            let _ = c.kill();
                            let _ = c.wait();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
                let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
                let _ = std::fs::remove_file(&log);
                let last = text.lines().filter(|l| l.starts_with("case ")).next_back().unwrap_or("").to_string();
                if let Some(l) = text.lines().find(|l| l.starts_with("MIRI-FAIL")) {
                    return Err(Fail::from(format!("under Miri: {l}")));
                }
                if let Some(l) = text.lines().find(|l| l.contains("Undefined Behavior")) {
                    let at = text.lines().find(|l| l.contains("/repo/src/") || l.contains("src/iter")).unwrap_or("").trim();
                    return Err(Fail::from(format!("Miri, in {last}: {l} {at}")));
                }
                if let Some(l) = text.lines().find(|l| l.starts_with("MIRI-OK")) {
                    let get = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse().ok()).unwrap_or(0);
                    s.add("miri_cases", get("cases="));
                    s.add("miri_steps", get("transitions="));
                    s.add("miri_patterns", get("states="));
                    s.transitions(get("transitions="));
                    return Ok(());
                }
                if code == Some(101) && text.contains("panicked at") && last != "" {
                    return Err(Fail::from(format!("under Miri, in {last}: panic")));
                }
                s.add("miri_shards_not_run", 1);
                s.outcome("Miri did not run to completion");
                Ok(())
            },
        );
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub struct Meta {
    pub prop: &'static str,
    /// exploration | fault_enumeration | model_checking
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: fn(bool) -> String,
    pub assumptions: &'static [&'static str],
    pub stall_s: u64,
}

struct KnownFinding {
    key: String,
    text: String,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MCX_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn known(prop: &str) -> Vec<KnownFinding> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            let Some(rest) = l.strip_prefix("finding: ") else { continue };
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let t = it.next().unwrap_or("");
            if p == format!("property={prop}") {
                if let Some(k) = k.strip_prefix("key=") {
                    v.push(KnownFinding { key: k.into(), text: t.into() });
                }
            }
        }
    }
    v
}

enum End {
    Ok,
    Died(String),
    Stalled,
}

struct Job {
    child: Child,
    dir: PathBuf,
    shared: &'static Shared,
    beat: u64,
    since: Instant,
    shard: u64,
}

/// Further builds of the same driver: without debug assertions and overflow
/// checks, on the real rayon-core, and with scheduling points at atomics.
const BUILDS: [(&str, &str); 3] = [("release", "MCX_REL"), ("atomics", "MCX_ATOM"), ("real-rayon", "MCX_REAL")];
fn other_build(name: &str) -> Option<PathBuf> {
    let (_, var) = BUILDS.iter().find(|b| b.0 == name)?;
    std::env::var_os(var).map(PathBuf::from)
}

fn launch(exe: &Path, dir: &Path, shard: u64, n: u64, extra: &[String]) -> Job {
    std::fs::create_dir_all(dir).unwrap();
    let shm = dir.join("shm");
    let shared = map_shared(&shm);
    let mut c = Command::new(exe);
    c.arg("--child").arg(shard.to_string()).arg(n.to_string()).arg(dir);
    c.args(extra);
    let out = std::fs::File::create(dir.join("out")).unwrap();
    let err = std::fs::File::create(dir.join("err")).unwrap();
    c.stdin(Stdio::null()).stdout(out).stderr(err);
    let child = c.spawn().unwrap();
    Job { child, dir: dir.into(), shared, beat: u64::MAX, since: Instant::now(), shard }
}

fn tail(p: &Path) -> String {
    let s = std::fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).into_owned();
    let n = s.len().saturating_sub(600);
    let mut n = n;
    while !s.is_char_boundary(n) {
        n += 1;
    }
    s[n..].trim().replace('\n', " | ")
}

fn poll(j: &mut Job, stall: u64) -> Option<End> {
    if let Some(st) = j.child.try_wait().unwrap() {
        return Some(if st.success() { End::Ok } else { End::Died(format!("{st}; {}", tail(&j.dir.join("err")))) });
    }
    let b = j.shared.beat.load(Relaxed);
    if b != j.beat {
        j.beat = b;
        j.since = Instant::now();
    } else if j.since.elapsed() > Duration::from_secs(stall) {
        let _ = j.child.kill();
        let _ = j.child.wait();
        return Some(End::Stalled);
    }
    None
}

fn wait(mut j: Job, stall: u64) -> End {
    loop {
        if let Some(e) = poll(&mut j, stall) {
            return e;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Default)]
struct Merged {
    counters: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<(u64, String, String, String)>,
    total: u64,
    executed: u64,
}

fn absorb(m: &mut Merged, dir: &Path) {
    let Ok(s) = std::fs::read_to_string(dir.join("result")) else { return };
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "c" => *m.counters.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "o" => *m.outcomes.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "s" => m.samples.push(unesc(f[1])),
            "v" => m.viols.push((f[1].parse().unwrap(), unesc(f[2]), unesc(f[3]), unesc(f[4]))),
            "t" => m.total = m.total.max(f[1].parse().unwrap()),
            "e" => m.executed += f[1].parse::<u64>().unwrap(),
            _ => {}
        }
    }
    if let Ok(b) = std::fs::read(dir.join("states")) {
        for c in b.chunks_exact(8) {
            m.states.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

fn child_main(meta: &Meta, thorough: bool, a: &[String], body: &dyn Fn(&mut Cx)) -> ! {
    unsafe {
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
    let shard: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    let dir = PathBuf::from(&a[2]);
    let mut only = None;
    let mut upto = None;
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--only" => only = Some(a[i + 1].parse().unwrap()),
            "--upto" => upto = Some(a[i + 1].parse().unwrap()),
            _ => {}
        }
        i += 2;
    }
    let shared = map_shared(&dir.join("shm"));
    let _ = SHARED.set(SharedRef(shared));
    quiet_panics();
    let mut cx = Cx {
        prop: meta.prop,
        thorough,
        stats: Stats::default(),
        shard,
        nshards: n,
        counter: 0,
        only,
        upto,
        executed: 0,
        viols: vec![],
        samples: vec![],
        next_sample: 2,
        shared: Some(shared),
        ended: false,
        verbose: false,
        desc_file: only.map(|_| dir.join("desc")),
    };
    body(&mut cx);
    let mut o = String::new();
    for (k, v) in &cx.stats.counters {
        o += &format!("c\t{k}\t{v}\n");
    }
    for (k, v) in &cx.stats.outcomes {
        o += &format!("o\t{}\t{v}\n", esc(k));
    }
    for s in &cx.samples {
        o += &format!("s\t{}\n", esc(s));
    }
    for v in &cx.viols {
        o += &format!("v\t{}\t{}\t{}\t{}\n", v.case, esc(&v.key), esc(&v.desc), esc(&v.msg));
    }
    o += &format!("t\t{}\ne\t{}\n", cx.counter, cx.executed);
    let mut b = Vec::with_capacity(cx.stats.states.len() * 8);
    for s in &cx.stats.states {
        b.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(dir.join("states"), b).unwrap();
    std::fs::write(dir.join("result"), o).unwrap();
    unsafe { _exit(0) }
}

struct Report {
    build: String,
    case: u64,
    key: String,
    desc: String,
    msg: String,
}

/// Run every case with one build of the driver; confirm what it reports.
#[allow(clippy::too_many_arguments)]
fn explore(
    meta: &Meta,
    build: &str,
    exe: &Path,
    work: &Path,
    n: u64,
    kf: &[KnownFinding],
    known_hit: &mut BTreeMap<String, (u64, String)>,
    errors: &mut Vec<String>,
    out: &mut Vec<Report>,
    crashed: &mut bool,
) -> Merged {
    let mut m = Merged::default();
    let mut jobs: Vec<Job> = (0..n).map(|i| launch(exe, &work.join(format!("s{i}")), i, n, &[])).collect();
    let mut crashes: Vec<(u64, u64, String)> = vec![]; // case, shard, text
    while !jobs.is_empty() {
        let mut i = 0;
        while i < jobs.len() {
            match poll(&mut jobs[i], meta.stall_s) {
                None => i += 1,
                Some(e) => {
                    let j = jobs.swap_remove(i);
                    match e {
                        End::Ok => absorb(&mut m, &j.dir),
                        End::Died(t) => crashes.push((j.shared.current.load(Relaxed), j.shard, format!("process died: {t}"))),
                        End::Stalled => crashes.push((j.shared.current.load(Relaxed), j.shard, "no progress: the call does not return".into())),
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    // Confirm crashes and violations by re-execution before reporting anything.
    let mut reports: Vec<(u64, String, String, String)> = vec![];
    crashes.sort();
    for (k, (case, shard, text)) in crashes.iter().enumerate() {
        if k >= 3 {
            break;
        }
        let d = work.join(format!("confirm-crash{k}"));
        let e = wait(launch(exe, &d, *shard, n, &["--only".into(), case.to_string()]), meta.stall_s);
        let mut one = Merged::default();
        let confirmed = match &e {
            End::Ok => {
                absorb(&mut one, &d);
                if let Some(v) = one.viols.pop() {
                    reports.push((v.0, v.1, v.2, v.3));
                    continue;
                }
                let d = work.join(format!("confirm-shard{k}"));
                let j = launch(exe, &d, *shard, n, &["--upto".into(), case.to_string()]);
                let sh = j.shared;
                match wait(j, meta.stall_s) {
                    End::Ok => false,
                    _ => sh.current.load(Relaxed) == *case,
                }
            }
            _ => true,
        };
        let t2 = match e {
            End::Died(t) => format!("process died: {t}"),
            _ => text.clone(),
        };
        if confirmed {
            let what = std::fs::read_to_string(d.join("desc")).unwrap_or_else(|_| format!("case {case}"));
            reports.push((*case, String::new(), what, t2));
        } else {
            errors.push(format!("case {case}: {text} - not reproduced"));
        }
    }
    m.viols.sort();
    let mut unknown = 0;
    for v in m.viols.clone() {
        if let Some(k) = kf.iter().find(|k| !v.1.is_empty() && k.key == v.1) {
            known_hit.entry(k.key.clone()).or_insert((0, k.text.clone())).0 += 1;
            continue;
        }
        unknown += 1;
        if unknown > 5 {
            continue;
        }
        let d = work.join(format!("confirm-v{unknown}"));
        let e = wait(launch(exe, &d, 0, n, &["--only".into(), v.0.to_string()]), meta.stall_s);
        let mut one = Merged::default();
        absorb(&mut one, &d);
        let ok = match e {
            End::Ok => !one.viols.is_empty(),
            _ => true,
        };
        if ok {
            reports.push(v);
        } else {
            let shard = v.0 % n;
            let d = work.join(format!("confirm-w{unknown}"));
            let e = wait(launch(exe, &d, shard, n, &["--upto".into(), v.0.to_string()]), meta.stall_s);
            let mut one = Merged::default();
            absorb(&mut one, &d);
            let ok = match e {
                End::Ok => one.viols.iter().any(|w| w.0 == v.0),
                _ => true,
            };
            if ok {
                reports.push(v);
            } else {
                errors.push(format!("case {}: {} - not reproduced", v.0, v.3));
            }
        }
    }
    *crashed |= !crashes.is_empty();
    for (case, key, desc, msg) in reports {
        out.push(Report { build: build.into(), case, key, desc, msg });
    }
    m
}

/// Entry point of a check binary.
pub fn run(meta: Meta, body: impl Fn(&mut Cx)) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut thorough = tier == "thorough";
    if let Some(i) = args.iter().position(|a| a == "--child") {
        child_main(&meta, thorough, &args[i + 1..], &body);
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(String::from));
        let case: u64 = get("case").expect("case").parse().unwrap();
        thorough = get("tier").as_deref() == Some("thorough");
        if std::env::var_os("MCX_REPLAYED").is_none() {
            if let Some(exe) = get("build").and_then(|b| other_build(&b)) {
                let st = Command::new(exe).args(&args).env("MCX_REPLAYED", "1").status().expect("other build");
                std::process::exit(st.code().unwrap_or(1));
            }
        }
        quiet_panics();
        let mut cx = Cx {
            prop: meta.prop,
            thorough,
            stats: Stats::default(),
            shard: 0,
            nshards: 1,
            counter: 0,
            only: Some(case),
            upto: None,
            executed: 0,
            viols: vec![],
            samples: vec![],
            next_sample: 2,
            shared: None,
            ended: false,
            verbose: true,
            desc_file: None,
        };
        body(&mut cx);
        let bad = !cx.viols.is_empty();
        println!("{}", if bad { "reproduced" } else { "did not fail" });
        let _ = std::io::stdout().flush();
        unsafe { _exit(bad as i32) }
    }

    let work = root().join("target").join("run").join(format!("{}-{}", meta.prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    let n: u64 = std::env::var("MCX_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
    });
    let kf = known(meta.prop);
    let mut known_hit: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut reports: Vec<Report> = vec![];
    let mut crashed = false;
    let mut ms: Vec<Merged> = vec![];
    let mut builds = vec![("debug", std::env::current_exe().unwrap())];
    for (name, _) in BUILDS {
        builds.extend(other_build(name).map(|e| (name, e)));
    }
    for (build, exe) in &builds {
        if !reports.is_empty() {
            break;
        }
        let m = explore(&meta, build, exe, &work.join(build), n, &kf, &mut known_hit, &mut errors, &mut reports, &mut crashed);
        ms.push(m);
    }
    let rel: Vec<(&str, Merged)> = builds.iter().map(|b| b.0).zip(ms).collect();
    let mut rel = rel.into_iter();
    let m = rel.next().unwrap().1;
    let rel: Vec<(&str, Merged)> = rel.collect();
    for (k, (n, t)) in &known_hit {
        println!("KNOWN-FINDING: property={} key={k} ({n} recorded occurrence(s) this run) {t}", meta.prop);
    }
    let rdir = root().join("replay");
    for (i, Report { build, case, key, desc, msg }) in reports.iter().enumerate().take(5) {
        std::fs::create_dir_all(&rdir).unwrap();
        let p = rdir.join(format!("{}-{}.txt", meta.prop, i));
        let d = desc.clone();
        let t = format!(
            "property: {}\ntier: {}\nbuild: {build}\ncase: {}\nkey: {}\nreplay: cd /verif && ./run.sh {} --replay {}\nwhat: {}\nfailure: {}\n",
            meta.prop, tier, case, key, meta.prop, p.display(), d, msg
        );
        std::fs::write(&p, t).unwrap();
        println!("VIOLATION property={} replay={}", meta.prop, p.display());
        println!("  case {case} ({build} build): {d}\n  {msg}");
    }
    let get = |k: &str| m.counters.get(k).copied().unwrap_or(0);
    let mut cov = String::new();
    if meta.level == "model_checking" {
        cov += &format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", m.states.len(), get("transitions"), m.executed);
    } else {
        cov += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"cases\": {}, ", get("transitions"), m.states.len(), m.executed);
    }
    for (k, v) in &m.counters {
        if k != "transitions" {
            cov += &format!("{}: {v}, ", jstr(k));
        }
    }
    if !m.outcomes.is_empty() {
        cov += "\"outcomes\": {";
        cov += &m.outcomes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
        cov += "}, ";
    }
    let mut samples: Vec<String> = m.samples.iter().filter(|s| !s.is_empty()).cloned().collect();
    samples.sort();
    samples.dedup();
    let step = (samples.len() / 8).max(1);
    let samples: Vec<String> = samples.iter().step_by(step).take(8).map(|s| jstr(s)).collect();
    for (name, r) in &rel {
        cov += &format!(
            "\"{}_build\": {{\"cases\": {}, \"enumerated_cases\": {}, \"states\": {}, \"transitions\": {}}}, ",
            name.replace('-', "_"),
            r.executed,
            r.total,
            r.states.len(),
            r.counters.get("transitions").copied().unwrap_or(0)
        );
    }
    let complete = errors.is_empty() && !crashed && reports.is_empty();
    cov += &format!(
        "\"rule\": {}, \"bounds\": {}, \"enumerated_cases\": {}, \"exhaustive\": {}, \"shards\": {n}, \"samples\": [{}]",
        jstr(meta.rule),
        jstr(&format!(
            "{}{}",
            (meta.bounds)(thorough),
            match rel.len() {
                0 => "",
                1 => "; all of it in two builds of the crate (with, and without, debug assertions and overflow checks)",
                _ => "; all of it in two builds of the crate (with, and without, debug assertions and overflow checks), and each case once more on the real rayon-core",
            }
        )),
        m.total,
        complete && m.total == m.executed && rel.iter().all(|(_, r)| r.total == r.executed),
        samples.join(", ")
    );
    let ass: Vec<String> = meta.assumptions.iter().map(|s| jstr(s)).collect();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"known_findings_hit\": {}, \"wall_s\": {:.3}, \"violations\": {}}}\n",
        jstr(meta.prop),
        jstr(if thorough { "thorough" } else { "quick" }),
        jstr(meta.level),
        ass.join(", "),
        known_hit.len(),
        start.elapsed().as_secs_f64(),
        reports.len()
    );
    let edir = root().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{}.json", meta.prop)), &ev).unwrap();
    let _ = std::fs::remove_dir_all(&work);
    println!(
        "{} {}: cases={} states={} transitions={} violations={} known={} wall={:.1}s",
        meta.prop,
        if thorough { "thorough" } else { "quick" },
        m.executed,
        m.states.len(),
        get("transitions"),
        reports.len(),
        known_hit.len(),
        start.elapsed().as_secs_f64()
    );
    for e in &errors {
        println!("ERROR: {e}");
    }
    let code = if !reports.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else if m.executed == 0 || m.executed != m.total || rel.iter().any(|(_, r)| r.executed != r.total) {
        println!("ERROR: {} of {} cases executed", m.executed, m.total);
        2
    } else {
        0
    };
    std::process::exit(code)
}
