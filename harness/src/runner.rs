//! Driver: proptest generates and shrinks choice sequences for each family of
//! cases; evidence, replay files and the supervision of crashing workers.

use crate::src::Src;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use proptest::prelude::Rng;
use serde_json::{json, Value as Json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};
use std::sync::atomic::{AtomicBool, Ordering};

pub const SHARDS: usize = 8;
/// Stack of the threads that run cases: what `std::thread` gives by default.
const STACK: usize = 2 << 20;

pub type R = Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub run: fn(&mut Src<'_>, &mut Ctx) -> R,
    /// number of cases: quick, thorough
    pub cases: (u32, u32),
    /// longest choice sequence
    pub max: usize,
    /// Ignores the choices and enumerates a finite space; `run` gets the index
    /// of the case as its first choices (u32, little endian).
    pub exhaustive: bool,
}

pub const fn fam(
    name: &'static str,
    run: fn(&mut Src<'_>, &mut Ctx) -> R,
    cases: (u32, u32),
    max: usize,
) -> Family {
    Family { name, run, cases, max, exhaustive: false }
}

pub const fn all(
    name: &'static str,
    run: fn(&mut Src<'_>, &mut Ctx) -> R,
    n: u32,
) -> Family {
    Family { name, run, cases: (n, n), max: 4, exhaustive: true }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

#[derive(Default)]
pub struct Ctx {
    /// The case is being replayed or sampled: describe it.
    pub wanted: bool,
    pub desc: Option<String>,
    pub bytes: Option<Vec<u8>>,
    labels: BTreeMap<&'static str, u64>,
    nontrivial: HashSet<u64>,
    evaluations: u64,
    known: BTreeMap<&'static str, u64>,
    is_nontrivial: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// This case, identified by `key`, is non-trivial by the rule.
    pub fn nontrivial(&mut self, key: &impl Hash) {
        self.is_nontrivial = true;
        self.nontrivial.insert(hash(key));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.wanted {
            self.desc = Some(f());
        }
    }
    pub fn input(&mut self, b: &[u8]) {
        if self.wanted {
            self.bytes = Some(b.to_vec());
        }
    }
    /// More evaluations than the one each case counts for.
    pub fn evaluations(&mut self, n: u64) {
        self.evaluations += n;
    }
    /// The case shows the known finding with this key.
    pub fn known(&mut self, key: &'static str) {
        *self.known.entry(key).or_default() += 1;
    }
    pub fn distinct(&self) -> usize {
        self.nontrivial.len()
    }
    fn absorb(&mut self, o: Ctx) {
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.nontrivial.extend(o.nontrivial);
        self.evaluations += o.evaluations;
    }
}

pub fn hash(key: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    key.hash(&mut h);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

/// Keep freed memory: mapping it anew for each case is what costs most.
/// Called before any thread exists.
pub fn memory() {
    // SAFETY: no other thread runs
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 64 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 512 << 20);
        libc::mallopt(libc::M_TOP_PAD, 8 << 20);
    }
}

// ------------------------------------------------------------------- panics

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg: String = msg.chars().take(300).collect();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} ({at})"));
    }));
}

/// Call into the code under test; a panic there is an error, not ours.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| format!("{what} panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

// ------------------------------------------------------- proptest strategy

#[derive(Clone, Debug)]
pub struct Choices {
    pub max: usize,
}

impl Strategy for Choices {
    type Tree = Shrink;
    type Value = Vec<u8>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        let cap = match rng.next_u32() % 8 {
            0 => self.max.min(32),
            1 | 2 => self.max.min(200),
            _ => self.max,
        };
        let n = rng.next_u32() as usize % (cap + 1);
        let mut v = vec![0; n];
        rng.fill_bytes(&mut v);
        Ok(Shrink::new(v))
    }
}

/// Shrinks a choice sequence: shorter first, then smaller bytes.
#[derive(Clone, Debug)]
pub struct Shrink {
    best: Vec<u8>,
    cur: Vec<u8>,
    pass: usize,
    pos: usize,
    improved: bool,
    rounds: usize,
}

const BLOCKS: [usize; 11] = [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1];

impl Shrink {
    pub fn new(v: Vec<u8>) -> Self {
        Shrink { best: v.clone(), cur: v, pass: 0, pos: 0, improved: false, rounds: 0 }
    }
    /// The next candidate, or None when nothing is left to try.
    fn next(&mut self) -> Option<Vec<u8>> {
        const PASSES: usize = 1 + 2 * BLOCKS.len() + 3;
        loop {
            if self.pass >= PASSES {
                if !self.improved || self.rounds > 6 {
                    return None;
                }
                self.improved = false;
                self.rounds += 1;
                self.pass = 0;
                self.pos = 0;
            }
            let n = self.best.len();
            let p = self.pass;
            let at = self.pos;
            self.pos += 1;
            let mut c = self.best.clone();
            if p == 0 {
                // cut the tail: halves, quarters, ...
                if at >= 24 {
                    self.step();
                    continue;
                }
                let keep = n - (n >> (at / 2 + 1)).max(1).min(n);
                c.truncate(keep);
            } else if p <= 2 * BLOCKS.len() {
                // delete (odd) or zero (even) blocks of falling size
                let b = BLOCKS[(p - 1) / 2];
                let off = at * b;
                if b > n || off + b > n {
                    self.step();
                    continue;
                }
                // from the end backwards
                let off = n - off - b;
                if p % 2 == 1 {
                    c.drain(off..off + b);
                } else {
                    c[off..off + b].iter_mut().for_each(|x| *x = 0);
                }
            } else {
                if at >= n {
                    self.step();
                    continue;
                }
                let x = c[at];
                c[at] = match p - 2 * BLOCKS.len() {
                    1 => x / 2,
                    2 => x.saturating_sub(1),
                    _ => x & (x.wrapping_sub(1)),
                };
            }
            if c != self.best {
                return Some(c);
            }
        }
    }
    fn step(&mut self) {
        self.pass += 1;
        self.pos = 0;
    }
    fn advance(&mut self) -> bool {
        match self.next() {
            Some(c) => {
                self.cur = c;
                true
            }
            None => {
                self.cur = self.best.clone();
                false
            }
        }
    }
}

impl ValueTree for Shrink {
    type Value = Vec<u8>;
    fn current(&self) -> Vec<u8> {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        if self.cur != self.best {
            self.best = self.cur.clone();
            self.improved = true;
            self.pos = self.pos.saturating_sub(1);
        }
        self.advance()
    }
    fn complicate(&mut self) -> bool {
        self.advance()
    }
}

// ------------------------------------------------------------------- traces

/// What a shard is working on, in a file mapped into memory so that it
/// survives the death of the process.
struct Trace {
    p: *mut u8,
}
const TRACE: usize = 1 << 16;

impl Trace {
    fn open(path: &Path) -> Option<Trace> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(TRACE as u64).ok()?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                TRACE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        let t = (p != libc::MAP_FAILED).then_some(Trace { p: p.cast() })?;
        t.clear();
        Some(t)
    }
    fn put(&self, family: usize, choices: &[u8]) {
        let n = choices.len().min(TRACE - 16);
        unsafe {
            let h = self.p.cast::<u32>();
            h.write_volatile(0);
            h.add(1).write_volatile(n as u32);
            h.add(2).write_volatile(h.add(2).read_volatile().wrapping_add(1));
            std::ptr::copy_nonoverlapping(choices.as_ptr(), self.p.add(16), n);
            h.write_volatile(family as u32 + 1);
        }
    }
    fn clear(&self) {
        unsafe { self.p.cast::<u32>().write_volatile(0) }
    }
}

impl Drop for Trace {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p.cast(), TRACE);
        }
    }
}

/// (family, choices, cases begun)
fn read_trace(path: &Path) -> Option<(usize, Vec<u8>, u64)> {
    let b = std::fs::read(path).ok().filter(|b| b.len() >= TRACE)?;
    let w = |i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as usize;
    let n = w(1).min(TRACE - 16);
    if w(0) == 0 {
        return Some((usize::MAX, vec![], w(2) as u64));
    }
    Some((w(0) - 1, b[16..16 + n].to_vec(), w(2) as u64))
}

// ------------------------------------------------------------------ worker

pub struct Settings {
    pub seed: u64,
    pub thorough: bool,
    pub trace: Option<PathBuf>,
    /// scale on the number of cases, in percent
    pub scale: u64,
    pub only: Option<String>,
}

pub struct Failure {
    pub family: &'static str,
    pub choices: Vec<u8>,
    pub message: String,
}

struct Shard {
    ctx: Ctx,
    samples: Vec<String>,
    failure: Option<Failure>,
    broken: Option<String>,
}

/// Run one case. Err(Ok(msg)): violation. Err(Err(msg)): the harness failed.
pub fn run_case(f: &Family, choices: &[u8], ctx: &mut Ctx) -> Result<(), Result<String, String>> {
    ctx.evaluations += 1;
    ctx.is_nontrivial = false;
    let mut src = Src::new(choices);
    if !f.exhaustive {
        src.focus();
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.run)(&mut src, ctx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(Ok(m)),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            // outside of `guard`, but in the code under test all the same
            Err(if m.contains("(/repo/src/") { Ok(format!("panicked: {m}")) } else { Err(m) })
        }
    }
}

fn run_shard(id: &str, fi: usize, f: &Family, shard: usize, s: &Settings, stop: &AtomicBool) -> Shard {
    let trace = s.trace.as_ref().and_then(|d| Trace::open(&d.join(format!("trace.{shard}"))));
    let total = u64::from(if s.thorough { f.cases.1 } else { f.cases.0 });
    let total = if f.exhaustive { total } else { (total * s.scale / 100).max(1) };
    let sh = shard as u64;
    let n = (total + SHARDS as u64 - 1 - sh) / SHARDS as u64;
    let state = RefCell::new(Shard { ctx: Ctx::default(), samples: vec![], failure: None, broken: None });
    let count = std::cell::Cell::new(0u64);
    let test = |choices: &[u8]| -> Result<(), String> {
        let mut st = state.borrow_mut();
        if st.broken.is_some() || stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        let i = count.get();
        count.set(i + 1);
        if let Some(t) = &trace {
            t.put(fi, choices);
        }
        // sample some cases spread over the run
        st.ctx.wanted = st.samples.len() < 2 && (i % 97 == 13 || n < 20);
        st.ctx.desc = None;
        let r = run_case(f, choices, &mut st.ctx);
        if st.ctx.wanted && st.ctx.is_nontrivial {
            if let Some(d) = st.ctx.desc.take() {
                let d: String = d.chars().take(700).collect();
                st.samples.push(format!("{}: {d}", f.name));
            }
        }
        st.ctx.bytes = None;
        if let Some(t) = &trace {
            t.clear();
        }
        match r {
            Ok(()) => Ok(()),
            Err(Ok(m)) => Err(m),
            Err(Err(m)) => {
                st.broken = Some(format!("family {} choices {}: {m}", f.name, hex(choices)));
                stop.store(true, Ordering::Relaxed);
                Ok(())
            }
        }
    };
    if f.exhaustive {
        for i in 0..n {
            let idx = (i * SHARDS as u64 + sh) as u32;
            let c = idx.to_le_bytes().to_vec();
            if let Err(m) = test(&c) {
                state.borrow_mut().failure = Some(Failure { family: f.name, choices: c, message: m });
                break;
            }
        }
        return state.into_inner();
    }
    if n == 0 {
        return state.into_inner();
    }
    let seed = hash(&(s.seed, id, f.name, shard));
    let config = Config {
        cases: n as u32,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 40_000,
        rng_seed: RngSeed::Fixed(seed),
        verbose: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new(config);
    let res = runner.run(&Choices { max: f.max }, |c| test(&c).map_err(TestCaseError::fail));
    match res {
        Ok(()) => {}
        Err(TestError::Fail(_, c)) => {
            let mut ctx = Ctx::default();
            let m = match run_case(f, &c, &mut ctx) {
                Err(Ok(m)) => m,
                Err(Err(m)) => format!("harness: {m}"),
                Ok(()) => "not reproduced on a second run".into(),
            };
            state.borrow_mut().failure = Some(Failure { family: f.name, choices: c, message: m });
        }
        Err(TestError::Abort(r)) => {
            state.borrow_mut().broken = Some(format!("family {}: proptest aborted: {r}", f.name))
        }
    }
    state.into_inner()
}

pub struct Outcome {
    pub ctx: Ctx,
    pub per_family: Vec<Json>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub broken: Option<String>,
    pub exhaustive: bool,
}

pub fn run_property(p: &Prop, s: &Settings) -> Outcome {
    let mut out = Outcome {
        ctx: Ctx::default(),
        per_family: vec![],
        samples: vec![],
        failures: vec![],
        broken: None,
        exhaustive: false,
    };
    for (fi, f) in p.families.iter().enumerate() {
        if s.only.as_deref().is_some_and(|o| if let Some(p) = o.strip_suffix("*") { !f.name.starts_with(p) } else { o != f.name }) {
            continue;
        }
        let t = std::time::Instant::now();
        let stop = AtomicBool::new(false);
        let shards: Vec<Shard> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(sc, move || run_shard(p.id, fi, f, i, s, stop))
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        let mut c = Ctx::default();
        let mut samples = vec![];
        let mut failed = false;
        for sh in shards {
            c.absorb(sh.ctx);
            samples.extend(sh.samples);
            if let Some(x) = sh.failure {
                if !failed {
                    out.failures.push(x);
                }
                failed = true;
            }
            out.broken = out.broken.or(sh.broken);
        }
        out.per_family.push(json!({
            "family": f.name,
            "evaluations": c.evaluations,
            "distinct_nontrivial": c.nontrivial.len(),
            "exhaustive": f.exhaustive,
            "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "classes": c.labels,
        }));
        samples.sort_by_key(|s| (s.len() < 60, hash(s)));
        samples.truncate(if p.families.len() > 4 { 2 } else { 4 });
        out.samples.extend(samples);
        out.ctx.absorb(c);
        if failed || out.broken.is_some() {
            break;
        }
    }
    out
}

// ------------------------------------------------------ evidence and replays

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn write_evidence(p: &Prop, s: &Settings, out: &Outcome, wall: f64, notes: Json) {
    let mut samples: Vec<String> = out.samples.clone();
    samples.truncate(24);
    let n: u64 = out.ctx.evaluations;
    let mut cov = json!({
        "evaluations": n,
        "distinct_nontrivial": out.ctx.nontrivial.len(),
        "rule": p.rule,
        "samples": samples,
        "families": out.per_family,
        "shards": SHARDS,
    });
    if let Json::Object(m) = notes {
        for (k, v) in m {
            cov[k] = v;
        }
    }
    if !out.ctx.known.is_empty() {
        cov["known_findings_hit"] = json!(out.ctx.known);
    }
    let e = json!({
        "property": p.id,
        "tier": if s.thorough { "thorough" } else { "quick" },
        "seed": s.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": out.failures.len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&e).unwrap() + "\n");
}

pub fn write_replay(p: &Prop, s: &Settings, f: &Failure, describe: bool) -> PathBuf {
    let mut ctx = Ctx { wanted: true, ..Ctx::default() };
    if describe {
        if let Some(fam) = p.families.iter().find(|x| x.name == f.family) {
            let _ = run_case(fam, &f.choices, &mut ctx);
        }
    }
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:08x}.json", p.id, f.family.replace(' ', "_"), hash(&f.choices) as u32));
    let bytes = ctx.bytes.as_deref().map(|b| if b.len() <= 200_000 { hex(b) } else { format!("{} bytes", b.len()) });
    let j = json!({
        "property": p.id,
        "family": f.family,
        "seed": s.seed,
        "message": f.message,
        "choices": hex(&f.choices),
        "case": ctx.desc,
        "input": bytes,
        "replay": format!("harness/target/release/harness replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n");
    path
}

fn report(p: &Prop, f: &Failure, path: &Path) {
    println!("family {}: {}", f.family, f.message);
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// What the known-findings file lists for this property: (key, text).
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, t) = l.split_once(' ')?;
            Some((k.to_string(), t.to_string()))
        })
        .collect()
}

/// The worker process: exit code 0, 1 (violation reported), 2 (harness broken).
pub fn worker(p: &Prop, s: &Settings) -> i32 {
    let t = std::time::Instant::now();
    install_hook();
    let mut out = run_property(p, s);
    // hits on findings that are not listed are violations
    let listed = known_findings(p.id);
    for (k, n) in out.ctx.known.clone() {
        match listed.iter().find(|(lk, _)| lk == k) {
            Some((_, t)) => println!("KNOWN-FINDING: property={} {t} ({n} cases)", p.id),
            None => out.failures.push(Failure {
                family: "unlisted-finding",
                choices: vec![],
                message: format!("finding {k} in {n} cases, not listed as known"),
            }),
        }
    }
    write_evidence(p, s, &out, t.elapsed().as_secs_f64(), json!({}));
    for f in &out.failures {
        let path = write_replay(p, s, f, true);
        report(p, f, &path);
    }
    if !out.failures.is_empty() {
        return 1;
    }
    if let Some(b) = out.broken {
        println!("harness error: {b}");
        return 2;
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        out.ctx.evaluations,
        out.ctx.nontrivial.len(),
        t.elapsed().as_secs_f64()
    );
    0
}

// -------------------------------------------------------------- supervision

fn signal(st: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn wait_limited(mut c: std::process::Child, secs: u64) -> Option<ExitStatus> {
    let t = std::time::Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t.elapsed().as_secs() >= secs => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Err(_) => return None,
        }
    }
}

fn crashed(st: &ExitStatus) -> bool {
    matches!(
        signal(st),
        Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)
    )
}

/// Does this case kill a process of its own?
fn kills(id: &str, family: &str, choices: &[u8], dir: &Path) -> bool {
    let file = dir.join("one.bin");
    if std::fs::write(&file, choices).is_err() {
        return false;
    }
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["one", id, family])
        .arg(&file)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    match child {
        Ok(c) => wait_limited(c, 60).is_some_and(|s| crashed(&s)),
        Err(_) => false,
    }
}

/// Does this case keep a process of its own computing beyond all measure, or
/// violate the property in the end? It is the processor time that counts,
/// which other load does not change.
fn hangs(id: &str, family: &str, choices: &[u8], dir: &Path) -> Option<String> {
    use std::os::unix::process::CommandExt;
    let file = dir.join("one.bin");
    std::fs::write(&file, choices).ok()?;
    let said = dir.join("one.out");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["one", id, family])
        .arg(&file)
        .stdout(std::fs::File::create(&said).ok()?)
        .stderr(std::process::Stdio::null());
    // SAFETY: setrlimit is async-signal-safe
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: HANG, rlim_max: HANG + 5 };
            match libc::setrlimit(libc::RLIMIT_CPU, &l) {
                0 => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            }
        });
    }
    let end = wait_limited(cmd.spawn().ok()?, 5 * HANG)?;
    if signal(&end) == Some(libc::SIGXCPU) {
        return Some(format!("a case does not end within {HANG} s"));
    }
    if end.code() == Some(1) {
        let text = std::fs::read_to_string(&said).unwrap_or_default();
        return Some(text.trim().chars().take(1000).collect());
    }
    None
}

/// Seconds after which a case counts as one that does not end. The longest
/// legitimate ones take a fraction of a second.
const HANG: u64 = 60;

enum End {
    Exit(ExitStatus),
    /// This case of a family does not end.
    Stuck(usize, Vec<u8>, u64, String),
    Late,
}

fn watch(mut c: std::process::Child, secs: u64, dir: &Path, p: &Prop) -> End {
    let t = std::time::Instant::now();
    let mut under_way: Vec<Option<(u64, std::time::Instant)>> = vec![None; SHARDS];
    let mut look = std::time::Instant::now();
    let mut patience = [HANG; SHARDS];
    let kill = |c: &mut std::process::Child, end| {
        let _ = c.kill();
        let _ = c.wait();
        end
    };
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return End::Exit(s),
            Ok(None) if t.elapsed().as_secs() >= secs => return kill(&mut c, End::Late),
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Err(_) => return End::Late,
        }
        if look.elapsed().as_secs() < 2 {
            continue;
        }
        look = std::time::Instant::now();
        for (i, u) in under_way.iter_mut().enumerate() {
            let now = read_trace(&dir.join(format!("trace.{i}"))).filter(|(fi, ..)| *fi != usize::MAX).map(|(_, _, n)| n);
            match (now, *u) {
                (Some(n), Some((m, since))) if n == m => {
                    if since.elapsed().as_secs() < patience[i] {
                        continue;
                    }
                    // hold everything and try this case on its own: the
                    // machine may be slow, and not the case
                    let signal = |sig| unsafe { libc::kill(c.id() as libc::pid_t, sig) };
                    signal(libc::SIGSTOP);
                    let case = read_trace(&dir.join(format!("trace.{i}"))).filter(|(fi, ..)| *fi < p.families.len());
                    let found = case.and_then(|(fi, choices, n)| {
                        let m = hangs(p.id, p.families[fi].name, &choices, dir)?;
                        Some(End::Stuck(fi, choices, n, m))
                    });
                    if let Some(end) = found {
                        return kill(&mut c, end);
                    }
                    patience[i] *= 3;
                    signal(libc::SIGCONT);
                    under_way = vec![None; SHARDS];
                    break;
                }
                (n, _) => *u = n.map(|n| (n, look)),
            }
        }
    }
}

/// The supervising process: runs the worker and turns its death by abort,
/// stack overflow or the like into a violation with a minimal replay.
pub fn supervise(p: &Prop, s: &Settings, args: &[String]) -> i32 {
    let t = std::time::Instant::now();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        println!("harness error: no scratch directory");
        return 2;
    }
    let code = (|| {
        let child = Command::new(std::env::current_exe().unwrap())
            .arg("worker")
            .args(args)
            .env("VERIF_TRACE", &dir)
            .spawn();
        let child = match child {
            Ok(c) => c,
            Err(e) => {
                println!("harness error: {e}");
                return 2;
            }
        };
        let limit = if s.thorough { 6 * 3600 } else { 840 };
        let st = match watch(child, limit, &dir, p) {
            End::Exit(st) => st,
            End::Late => {
                println!("harness error: time limit reached, no verdict");
                return 2;
            }
            End::Stuck(fi, choices, evaluations, message) => {
                let f = Failure { family: p.families[fi].name, choices, message };
                let out = Outcome {
                    ctx: Ctx { evaluations, ..Ctx::default() },
                    per_family: vec![],
                    samples: vec![format!("{}: choices {}", f.family, hex(&f.choices))],
                    failures: vec![],
                    broken: None,
                    exhaustive: false,
                };
                write_evidence(p, s, &out, t.elapsed().as_secs_f64(), json!({"hang": f.message}));
                let path = write_replay(p, s, &f, false);
                report(p, &f, &path);
                return 1;
            }
        };
        if let Some(c) = st.code() {
            return c;
        }
        if !crashed(&st) {
            println!("harness error: worker ended by signal {:?}", signal(&st));
            return 2;
        }
        // which of the cases under way kills a process?
        let mut evals = 0;
        let mut found = None;
        for i in 0..SHARDS {
            if let Some((fi, c, n)) = read_trace(&dir.join(format!("trace.{i}"))) {
                evals += n;
                if let Some(f) = p.families.get(fi) {
                    if found.is_none() && kills(p.id, f.name, &c, &dir) {
                        found = Some((f.name, c));
                    }
                }
            }
        }
        let Some((family, c)) = found else {
            println!("harness error: worker died of signal {:?}, not reproduced", signal(&st));
            return 2;
        };
        let mut tree = Shrink::new(c);
        let mut left = 400;
        let begun = std::time::Instant::now();
        let mut more = tree.simplify();
        while more && left > 0 && begun.elapsed().as_secs() < 90 {
            left -= 1;
            more = if kills(p.id, family, &tree.cur, &dir) { tree.simplify() } else { tree.complicate() };
        }
        let f = Failure {
            family,
            choices: tree.best.clone(),
            message: format!("the process died of signal {}", signal(&st).unwrap_or(0)),
        };
        let out = Outcome {
            ctx: Ctx { evaluations: evals, ..Ctx::default() },
            per_family: vec![],
            samples: vec![format!("{family}: choices {}", hex(&f.choices))],
            failures: vec![],
            broken: None,
            exhaustive: false,
        };
        write_evidence(p, s, &out, t.elapsed().as_secs_f64(), json!({"crash": f.message}));
        let path = write_replay(p, s, &f, false);
        report(p, &f, &path);
        1
    })();
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Run a single case in this process (the supervisor watches it die).
pub fn one(p: &Prop, family: &str, file: &str) -> i32 {
    install_hook();
    let Some(f) = p.families.iter().find(|f| f.name == family) else { return 2 };
    let Ok(c) = std::fs::read(file) else { return 2 };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut ctx = Ctx::default();
                match run_case(f, &c, &mut ctx) {
                    Ok(()) => 0,
                    Err(Ok(m)) => {
                        println!("{m}");
                        1
                    }
                    Err(Err(m)) => {
                        println!("harness: {m}");
                        2
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    })
}

/// Run the case of a replay file and show it.
pub fn replay(p: &Prop, family: &str, choices: &[u8]) -> i32 {
    install_hook();
    let Some(f) = p.families.iter().find(|f| f.name == family) else {
        println!("no family {family}");
        return 2;
    };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut ctx = Ctx { wanted: true, ..Ctx::default() };
                let r = run_case(f, choices, &mut ctx);
                if let Some(d) = &ctx.desc {
                    println!("case: {d}");
                }
                if let Some(b) = &ctx.bytes {
                    println!("input: {} bytes", b.len());
                }
                match r {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(Ok(m)) => {
                        println!("violated: {m}");
                        1
                    }
                    Err(Err(m)) => {
                        println!("harness: {m}");
                        2
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    })
}
