//! Driver, worker processes, counters, evidence and verdicts shared by all checks.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::lazy::SyncLazy;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What one check is. A case is a self-contained, replayable piece of the bounded space.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// How the space is made and what counts as a state.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cases: fn(Tier) -> Vec<String>,
    pub run: fn(&str, &mut Ctx) -> Result<(), String>,
    /// seconds without a single execution or operation after which a case counts as hanging
    pub hang_s: u64,
    pub max_workers: usize,
}

pub struct Ctx {
    pub tier: Tier,
    /// executions of the code under test
    pub evaluations: u64,
    /// single operations applied to the code under test
    pub transitions: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    work: PathBuf,
    next_dir: u64,
    pub case: String,
}

impl Ctx {
    pub fn new(tier: Tier, work: &Path) -> Ctx {
        Ctx {
            tier,
            evaluations: 0,
            transitions: 0,
            states: HashSet::new(),
            outcomes: BTreeMap::new(),
            samples: vec![],
            work: work.to_path_buf(),
            next_dir: 0,
            case: String::new(),
        }
    }
    /// Records an observed state; true if it was new to this worker.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        self.states.insert(h.finish())
    }
    pub fn step(&mut self) {
        self.transitions += 1;
        self.beat();
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
        self.beat();
    }
    /// Tells the driver that this process is alive.
    pub fn beat(&self) {
        BEAT.fetch_add(1, Ordering::Relaxed);
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) {
            *n += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn work(&self) -> &Path {
        &self.work
    }
    /// A directory name nobody used before in this process (the caches under test key on paths).
    pub fn fresh(&mut self) -> PathBuf {
        self.next_dir += 1;
        let p = self.work.join(format!("d{}", self.next_dir));
        fs::create_dir_all(&p).expect("create work dir");
        p
    }
    pub fn drop_dir(&self, p: &Path) {
        if p.starts_with(&self.work) && p != self.work {
            let _ = fs::remove_dir_all(p);
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

static PANIC_MSG: SyncLazy<Mutex<Option<String>>> = SyncLazy::new(|| Mutex::new(None));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() {
            if g.is_none() {
                *g = Some(format!("{} at {}", msg, loc));
            }
        }
        if let Some(p) = std::env::var_os("MC_PANICS") {
            if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(p) {
                let _ = writeln!(f, "{:?} {:?}", std::thread::current().name(), info.to_string());
            }
        }
    }));
}

pub fn take_panic() -> String {
    PANIC_MSG
        .lock()
        .ok()
        .and_then(|mut g| g.take())
        .unwrap_or_else(|| "panic".to_string())
}

/// Runs code under test; a panic becomes an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if let Ok(mut g) = PANIC_MSG.lock() {
        *g = None;
    }
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", take_panic()))
}

fn run_case(c: &Check, case: &str, cx: &mut Ctx) -> Result<(), String> {
    cx.case = case.to_string();
    match guard(|| (c.run)(case, cx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

// ---------------------------------------------------------------- shared progress page

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Publishes the heartbeat of this process on the shared page.
fn publish_beat(sh: &'static Shared, k: usize) {
    std::thread::spawn(move || loop {
        sh.beat(k).store(BEAT.load(Ordering::Relaxed), Ordering::Relaxed);
        std::thread::sleep(Duration::from_millis(200));
    });
}

const SLOT: usize = 8;
/// heartbeat slot of a confirmation run
const CONFIRM: usize = 200;
struct Shared {
    ptr: *mut u64,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn open(path: &Path, create: bool) -> Shared {
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(path)
            .expect("open progress file");
        if create {
            f.set_len(4096).expect("size progress file");
        }
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { ptr: p as *mut u64 }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(i) as *const AtomicU64) }
    }
    fn next(&self) -> &AtomicU64 {
        self.at(0)
    }
    fn stop(&self) -> &AtomicU64 {
        self.at(1)
    }
    /// current case index + 1 of worker k
    fn cur(&self, k: usize) -> &AtomicU64 {
        self.at(SLOT + k)
    }
    fn beat(&self, k: usize) -> &AtomicU64 {
        self.at(256 + k)
    }
}

// ---------------------------------------------------------------- worker

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn limit_memory(gb: u64) {
    let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

fn no_core() {
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}

pub fn worker_main(c: &Check, tier: Tier, dir: &Path, k: usize) -> i32 {
    limit_memory(6);
    no_core();
    install_panic_hook();
    let sh: &'static Shared = Box::leak(Box::new(Shared::open(&dir.join("progress"), false)));
    publish_beat(sh, k);
    let known = known_findings(c.id);
    let cases = (c.cases)(tier);
    let work = dir.join(format!("w{}", k));
    fs::create_dir_all(&work).expect("worker dir");
    let mut cx = Ctx::new(tier, &work);
    let mut order = fs::File::create(dir.join(format!("order{}", k))).expect("order file");
    let mut viol: Vec<(usize, String)> = vec![];
    loop {
        if sh.stop().load(Ordering::SeqCst) != 0 {
            break;
        }
        let i = sh.next().fetch_add(1, Ordering::SeqCst) as usize;
        if i >= cases.len() {
            break;
        }
        let _ = order.write_all(format!("{}\n", i).as_bytes());
        sh.cur(k).store(i as u64 + 1, Ordering::SeqCst);
        if let Err(m) = run_case(c, &cases[i], &mut cx) {
            let is_known = known.iter().any(|f| f.matches(&m));
            viol.push((i, m));
            if !is_known {
                sh.stop().store(1, Ordering::SeqCst);
                break;
            }
        }
    }
    sh.cur(k).store(0, Ordering::SeqCst);
    let mut out = String::new();
    out.push_str(&format!("E {}\nT {}\n", cx.evaluations, cx.transitions));
    for (o, n) in &cx.outcomes {
        out.push_str(&format!("O {} {}\n", n, esc(o)));
    }
    for s in &cx.samples {
        out.push_str(&format!("S {}\n", esc(s)));
    }
    for (i, m) in &viol {
        out.push_str(&format!("V {} {}\n", i, esc(m)));
    }
    let mut bytes = Vec::with_capacity(cx.states.len() * 8);
    for s in &cx.states {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(dir.join(format!("states{}", k)), bytes).expect("states file");
    fs::write(dir.join(format!("result{}", k)), out).expect("result file");
    0
}

/// Runs the given cases one after another in this process. Exit 1 and the message on stdout if one fails.
pub fn cases_main(c: &Check, tier: Tier, list: &[usize]) -> i32 {
    limit_memory(6);
    no_core();
    install_panic_hook();
    let cases = (c.cases)(tier);
    let work = scratch_base().join(format!("mc-{}-one-{}", c.id, std::process::id()));
    fs::create_dir_all(&work).expect("work dir");
    if let Some(p) = std::env::var("MC_WORK").ok().map(|p| Path::new(&p).join("progress")).filter(|p| p.exists()) {
        publish_beat(Box::leak(Box::new(Shared::open(&p, false))), CONFIRM);
    }
    let mut cx = Ctx::new(tier, &work);
    let mut code = 0;
    let known = known_findings(c.id);
    for i in list {
        if *i >= cases.len() {
            println!("no case {}", i);
            code = 2;
            break;
        }
        if let Err(m) = run_case(c, &cases[*i], &mut cx) {
            println!("case {} [{}]: {}", i, cases[*i], m);
            if !known.iter().any(|f| f.matches(&m)) {
                code = 1;
                break;
            }
        }
    }
    let _ = fs::remove_dir_all(&work);
    code
}

pub fn case_text_main(c: &Check, tier: Tier, text: &str) -> i32 {
    install_panic_hook();
    let work = scratch_base().join(format!("mc-{}-one-{}", c.id, std::process::id()));
    fs::create_dir_all(&work).expect("work dir");
    let mut cx = Ctx::new(tier, &work);
    let r = run_case(c, text, &mut cx);
    let _ = fs::remove_dir_all(&work);
    match r {
        Ok(()) => {
            println!("held: {} executions, {} operations, {} states", cx.evaluations, cx.transitions, cx.states.len());
            0
        }
        Err(m) => {
            println!("VIOLATED: {}", m);
            1
        }
    }
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub property: String,
    pub key: String,
    pub text: String,
}
impl Known {
    fn matches(&self, msg: &str) -> bool {
        msg.contains(&self.key)
    }
}

/// Lines "finding: property=<id> key=<<...>> <description>"; "fixed:" lines suppress nothing.
pub fn known_findings(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(2, ' ');
                let p = it.next().unwrap_or("").to_string();
                let rest = it.next().unwrap_or("");
                if p != id {
                    continue;
                }
                if let (Some(a), Some(b)) = (rest.find("key=<<"), rest.find(">>")) {
                    v.push(Known {
                        property: p,
                        key: rest[a + 6..b].to_string(),
                        text: rest[b + 2..].trim().to_string(),
                    });
                }
            }
        }
    }
    v
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}

pub fn scratch_base() -> PathBuf {
    if let Ok(p) = std::env::var("MC_WORK") {
        return PathBuf::from(p);
    }
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("mc-probe-{}", std::process::id()));
    if fs::create_dir(&probe).is_ok() {
        let ok = fs::write(probe.join("x"), b"x").is_ok();
        let _ = fs::remove_dir_all(&probe);
        if ok {
            return shm;
        }
    }
    let p = root().join("work");
    let _ = fs::create_dir_all(&p);
    p
}

// ---------------------------------------------------------------- driver

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    cases: Vec<usize>,
    msg: String,
}

fn wait_timeout(ch: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn die_with_parent(cmd: &mut Command) {
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

/// Some(message) if running the cases in a fresh process fails (violation, crash or hang).
fn confirm(c: &Check, tier: Tier, list: &[usize], dir: &Path) -> Option<String> {
    let exe = std::env::current_exe().expect("exe");
    let outp = dir.join("confirm.out");
    let out = fs::File::create(&outp).expect("confirm out");
    let arg: Vec<String> = list.iter().map(|i| i.to_string()).collect();
    let argf = dir.join("confirm.cases");
    fs::write(&argf, arg.join("\n")).expect("confirm cases");
    let mut cmd = Command::new(exe);
    cmd.arg("cases").arg(c.id).arg(tier.name()).arg(&argf);
    cmd.stdout(Stdio::from(out)).stderr(Stdio::null()).stdin(Stdio::null());
    cmd.env("MC_WORK", dir);
    die_with_parent(&mut cmd);
    let mut ch = cmd.spawn().expect("spawn");
    let sh = Shared::open(&dir.join("progress"), false);
    let st = loop {
        let b = sh.beat(CONFIRM).load(Ordering::Relaxed);
        if let Some(s) = wait_timeout(&mut ch, Duration::from_secs(c.hang_s * 2)) {
            break Some(s);
        }
        if b == sh.beat(CONFIRM).load(Ordering::Relaxed) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    let text = fs::read_to_string(&outp).unwrap_or_default();
    match st {
        None => Some(format!("no progress within {} s (hang)", c.hang_s * 2)),
        Some(s) => match s.code() {
            Some(0) => None,
            Some(1) => Some(text.trim().to_string()),
            Some(n) => {
                eprintln!("confirmation run ended with exit {}: {}", n, text);
                None
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                Some(format!("the process died with signal {}", s.signal().unwrap_or(0)))
            }
        },
    }
}

pub fn run_main(c: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let cases = (c.cases)(tier);
    let n_cases = cases.len();
    let dir = scratch_base().join(format!("mc-{}-{}", c.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch dir");
    let code = run_inner(c, tier, &dir, &cases, t0);
    let _ = fs::remove_dir_all(&dir);
    if n_cases == 0 {
        eprintln!("no cases");
        return 2;
    }
    code
}

fn run_inner(c: &Check, tier: Tier, dir: &Path, cases: &[String], t0: Instant) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let sh = Shared::open(&dir.join("progress"), true);
    let cores = std::env::var("MC_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let n = cores.min(c.max_workers).min(cases.len()).max(1);
    let mut found: Vec<Found> = vec![];
    let mut broken: Option<String> = None;
    let mut kids: Vec<Option<Child>> = (0..n)
        .map(|k| {
            let mut cmd = Command::new(&exe);
            cmd.arg("worker").arg(c.id).arg(tier.name()).arg(dir).arg(k.to_string());
            cmd.stdin(Stdio::null());
            if std::env::var("MC_VERBOSE").is_err() {
                cmd.stdout(Stdio::null()).stderr(Stdio::null());
            }
            die_with_parent(&mut cmd);
            Some(cmd.spawn().expect("spawn worker"))
        })
        .collect();
    let mut seen: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); n];
    let mut suspects: Vec<(usize, usize, String)> = vec![];
    loop {
        let mut alive = false;
        for k in 0..n {
            let done = match kids[k].as_mut() {
                None => continue,
                Some(ch) => match ch.try_wait() {
                    Ok(Some(st)) => Some(st),
                    _ => None,
                },
            };
            if let Some(st) = done {
                kids[k] = None;
                if !st.success() {
                    let cur = sh.cur(k).load(Ordering::SeqCst);
                    sh.stop().store(1, Ordering::SeqCst);
                    if cur > 0 {
                        suspects.push((k, cur as usize - 1, format!("worker ended with {:?}", st)));
                    } else {
                        broken = Some(format!("worker {} ended with {:?} outside any case", k, st));
                    }
                }
                continue;
            }
            alive = true;
            let cur = sh.cur(k).load(Ordering::SeqCst);
            let beat = sh.beat(k).load(Ordering::Relaxed);
            if (cur, beat) != (seen[k].0, seen[k].1) {
                seen[k] = (cur, beat, Instant::now());
            } else if cur != 0 && seen[k].2.elapsed() > Duration::from_secs(c.hang_s) {
                if let Some(mut ch) = kids[k].take() {
                    let _ = ch.kill();
                    let _ = ch.wait();
                }
                sh.stop().store(1, Ordering::SeqCst);
                suspects.push((k, cur as usize - 1, format!("no progress for {} s", c.hang_s)));
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // collect
    let mut evals = 0u64;
    let mut trans = 0u64;
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let known = known_findings(c.id);
    let mut known_hit: BTreeMap<usize, u64> = BTreeMap::new();
    for k in 0..n {
        let r = match fs::read_to_string(dir.join(format!("result{}", k))) {
            Ok(r) => r,
            Err(_) => {
                if broken.is_none() && !suspects.iter().any(|s| s.0 == k) {
                    broken = Some(format!("worker {} left no result", k));
                }
                continue;
            }
        };
        for l in r.lines() {
            let (t, rest) = l.split_at(2.min(l.len()));
            match t {
                "E " => evals += rest.parse::<u64>().unwrap_or(0),
                "T " => trans += rest.parse::<u64>().unwrap_or(0),
                "O " => {
                    let mut it = rest.splitn(2, ' ');
                    let n: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
                    *outcomes.entry(unesc(it.next().unwrap_or(""))).or_insert(0) += n;
                }
                "S " => {
                    if samples.len() < 8 {
                        samples.push(unesc(rest))
                    }
                }
                "V " => {
                    let mut it = rest.splitn(2, ' ');
                    let i: usize = it.next().unwrap_or("0").parse().unwrap_or(0);
                    let m = unesc(it.next().unwrap_or(""));
                    if let Some(ix) = known.iter().position(|f| f.matches(&m)) {
                        *known_hit.entry(ix).or_insert(0) += 1;
                    } else {
                        suspects.push((k, i, m));
                    }
                }
                _ => {}
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("states{}", k))) {
            for ch in b.chunks_exact(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(ch);
                states.insert(u64::from_le_bytes(a));
            }
        }
    }
    suspects.sort_by_key(|s| s.1);
    for (k, i, why) in &suspects {
        if let Some(m) = confirm(c, tier, &[*i], dir) {
            found.push(Found { cases: vec![*i], msg: format!("{} ({})", m, why) });
            break;
        }
        // The failure may need what ran before it in the same process.
        let order: Vec<usize> = fs::read_to_string(dir.join(format!("order{}", k)))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.parse().ok())
            .collect();
        if let Some(p) = order.iter().position(|x| x == i) {
            if let Some(m) = confirm(c, tier, &order[..=p], dir) {
                found.push(Found { cases: order[..=p].to_vec(), msg: format!("{} ({})", m, why) });
                break;
            }
        }
        broken = Some(format!("case {} [{}] failed once but not again: {}", i, cases[*i], why));
    }
    let wall = t0.elapsed().as_secs_f64();
    let total_found = found.len();
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n", json_str(c.id)));
    ev.push_str(&format!(" \"tier\": {},\n", json_str(tier.name())));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    ev.push_str(&format!(" \"seed\": {},\n", seed));
    ev.push_str(&format!(" \"level\": {},\n", json_str(c.level)));
    ev.push_str(" \"coverage\": {\n");
    let complete = total_found == 0 && broken.is_none();
    ev.push_str(&format!("  \"cases\": {},\n", cases.len()));
    if c.level == "model_checking" {
        ev.push_str(&format!("  \"states\": {},\n", states.len()));
        ev.push_str(&format!("  \"transitions\": {},\n", trans));
        ev.push_str(&format!("  \"traces_validated_against_impl\": {},\n", evals));
    } else {
        ev.push_str(&format!("  \"evaluations\": {},\n", evals));
        ev.push_str(&format!("  \"distinct_nontrivial\": {},\n", states.len()));
        ev.push_str(&format!("  \"transitions\": {},\n", trans));
    }
    ev.push_str(&format!("  \"rule\": {},\n", json_str(c.rule)));
    ev.push_str(&format!("  \"exhaustive\": {},\n", complete));
    ev.push_str("  \"outcomes\": {");
    let o: Vec<String> = outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    ev.push_str(&o.join(", "));
    ev.push_str("},\n  \"samples\": [");
    let s: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    ev.push_str(&s.join(", "));
    ev.push_str("]\n },\n");
    let a: Vec<String> = c.assumptions.iter().map(|s| json_str(s)).collect();
    ev.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
    ev.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, total_found));
    let evdir = root().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", c.id)), ev).expect("write evidence");
    println!(
        "{} {}: cases={} executions={} states={} transitions={} outcomes={:?} workers={} wall={:.1}s",
        c.id,
        tier.name(),
        cases.len(),
        evals,
        states.len(),
        trans,
        outcomes,
        n,
        wall
    );
    for (ix, cnt) in &known_hit {
        println!("KNOWN-FINDING: property={} {} ({} cases)", c.id, known[*ix].text, cnt);
    }
    if let Some(f) = found.first() {
        let rd = root().join("replay");
        let _ = fs::create_dir_all(&rd);
        let rp = rd.join(format!("{}-{}.txt", c.id, tier.name()));
        let mut t = String::new();
        t.push_str(&format!("property {}\ntier {}\n", c.id, tier.name()));
        for i in &f.cases {
            t.push_str(&format!("case {} {}\n", i, esc(&cases[*i])));
        }
        t.push_str(&format!("message {}\n", esc(&f.msg)));
        t.push_str("# replay: /verif/check.sh replay <this file>\n");
        let _ = fs::write(&rp, t);
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", c.id, rp.display());
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("engine error: {}", b);
        println!("engine error: {}", b);
        return 2;
    }
    0
}

pub fn replay_main(checks: &[Check], file: &str) -> i32 {
    let t = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let mut id = String::new();
    let mut tier = Tier::Quick;
    let mut list: Vec<String> = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("property ") {
            id = r.to_string();
        } else if let Some(r) = l.strip_prefix("tier ") {
            tier = Tier::parse(r);
        } else if let Some(r) = l.strip_prefix("case ") {
            list.push(unesc(r.splitn(2, ' ').nth(1).unwrap_or("")));
        }
    }
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => return 2,
    };
    for case in list {
        let r = case_text_main(c, tier, &case);
        if r != 0 {
            return r;
        }
    }
    0
}
