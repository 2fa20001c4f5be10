//! Case engine: choice tapes, worker processes, shrinking, evidence, replay.
use proptest::{
    collection::vec,
    prelude::*,
    strategy::ValueTree,
    test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner},
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fs,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{exit, Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

/// A sequence of recorded choices. Reading past the end yields 0, the simplest choice.
pub struct Tape<'a> {
    d: &'a [u32],
    p: usize,
}
impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Tape { d, p: 0 }
    }
    pub fn u32(&mut self) -> u32 {
        let v = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// Uniform in 0..n; monotone in the tape value so that shrinking the tape shrinks the choice.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u32() as u64 * n as u64) >> 32) as usize
    }
    /// Like `below`, sometimes up to three times as much.
    pub fn count(&mut self, n: usize) -> usize {
        if self.chance(1, 10) { self.below(3 * n) } else { self.below(n) }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.below(den as usize) as u32) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    pub fn pick_s(&mut self, xs: &[&str]) -> String {
        (*self.pick(xs)).to_string()
    }
    /// Weighted choice of an index.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn exhausted(&self) -> bool {
        self.p >= self.d.len()
    }
    pub fn remaining(&self) -> usize {
        self.d.len().saturating_sub(self.p)
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
pub type Res = Result<(), Fail>;

/// What a case reports besides its verdict.
#[derive(Default)]
pub struct Cx {
    pub desc: String,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub discarded: Option<String>,
    pub known: Vec<String>,
}
impl Cx {
    /// Describes the case before the code under test runs, so that a crash leaves the description behind.
    pub fn set_desc(&mut self, d: impl Into<String>) {
        self.desc = d.into();
        if let Some(p) = DESC_FILE.get() {
            let _ = fs::write(p, &self.desc);
        }
    }
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    pub fn discard(&mut self, why: impl Into<String>) -> Res {
        self.discarded = Some(why.into());
        Ok(())
    }
}

pub type CaseFn = fn(&mut Tape, &mut Cx) -> Res;
pub type EnumFn = fn(usize, &mut Cx) -> Res;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub tape_len: usize,
    pub quick: usize,
    pub thorough: usize,
    pub case: CaseFn,
    /// A finite space enumerated completely on every run.
    pub enumerate: Option<(fn() -> usize, EnumFn)>,
    /// Cases which are only prepared one by one and then evaluated many at a time.
    pub batch: Option<crate::native::Prep>,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct RunArgs {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub cases: usize,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub mode: String, // "tape" | "enum"
    pub tape: Vec<u32>,
    pub sig: String,
    pub msg: String,
    pub desc: String,
}
impl Failure {
    fn json(&self, id: &str) -> Value {
        json!({"property": id, "mode": self.mode, "tape": self.tape, "signature": self.sig, "message": self.msg, "case": self.desc})
    }
}

static DESC_FILE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs code under test; a panic becomes Err(message).
fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}
fn harness_panic(msg: &str) -> bool {
    msg.contains("panicked at src/") && !msg.contains("/repo/")
}
/// Runs code under test; panics of the harness itself are not caught.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch(f).map_err(|m| if harness_panic(&m) { panic!("{m}") } else { m })
}

fn run_case(p: &Prop, mode: &str, tape: &[u32], cx: &mut Cx) -> Res {
    let r = catch(|| match mode {
        "enum" => (p.enumerate.unwrap().1)(tape[0] as usize, cx),
        _ => (p.case)(&mut Tape::new(tape), cx),
    });
    match r {
        Ok(r) => r,
        Err(msg) => {
            if harness_panic(&msg) {
                // a panic of the harness itself is an error of the check, never a violation
                eprintln!("HARNESS PANIC {}: {msg}\ntape={tape:?}", p.id);
                exit(3);
            }
            fail("panic", msg)
        }
    }
}

pub const CPU_LIMIT_S: u64 = 40;
static CASES: AtomicU64 = AtomicU64::new(0);

fn cpu_ticks() -> u64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn start_watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut base) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = CASES.load(Ordering::Relaxed);
            let t = cpu_ticks();
            if n != last {
                last = n;
                base = t;
            } else if t.saturating_sub(base) > CPU_LIMIT_S * 100 {
                exit(87);
            }
        }
    });
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

struct Slot(fs::File);
impl Slot {
    fn put(&self, mode: &str, tape: &[u32]) {
        let mut b = Vec::with_capacity(8 + tape.len() * 4);
        b.extend_from_slice(&(if mode == "enum" { 1u32 } else { 0 }).to_le_bytes());
        b.extend_from_slice(&(tape.len() as u32).to_le_bytes());
        for v in tape {
            b.extend_from_slice(&v.to_le_bytes());
        }
        let _ = self.0.write_all_at(&b, 0);
    }
    fn get(path: &Path) -> Option<(String, Vec<u32>)> {
        let b = fs::read(path).ok()?;
        if b.len() < 8 {
            return None;
        }
        let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let n = w[1] as usize;
        Some((if w[0] == 1 { "enum" } else { "tape" }.to_string(), w[2..2 + n].to_vec()))
    }
}

/// Runs in its own process.
pub fn worker(p: &Prop, seed: u64, idx: usize, n: usize, cases: usize, dir: &Path) {
    install_panic_hook();
    limit_memory();
    start_watchdog();
    let p = *p;
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || worker_body(&p, seed, idx, n, cases, &dir))
        .unwrap();
    h.join().unwrap();
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: u64,
    classes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
}
impl Stats {
    fn add(&mut self, cx: &Cx) {
        self.evals += 1;
        if let Some(w) = &cx.discarded {
            self.discards += 1;
            *self.classes.entry(format!("discarded:{w}")).or_default() += 1;
            return;
        }
        for c in &cx.classes {
            *self.classes.entry(c.clone()).or_default() += 1;
        }
        for c in &cx.known {
            *self.classes.entry(format!("known:{c}")).or_default() += 1;
        }
        if cx.nontrivial && self.hashes.insert(hash(&cx.desc)) {
            let k = self.hashes.len();
            if self.samples.len() < 4 || (k.is_power_of_two() && self.samples.len() < 10) {
                self.samples.push(cx.desc.chars().take(1500).collect());
            }
        }
    }
}

fn worker_body(p: &Prop, seed: u64, idx: usize, n: usize, cases: usize, dir: &Path) {
    let slot = Slot(fs::File::create(dir.join(format!("slot{idx}"))).unwrap());
    let stats = RefCell::new(Stats::default());
    let mut failure: Option<Failure> = None;

    if let Some((count, f)) = p.enumerate {
        let total = count();
        let mut i = idx;
        while i < total {
            let mut cx = Cx::default();
            slot.put("enum", &[i as u32]);
            CASES.fetch_add(1, Ordering::Relaxed);
            let _ = f;
            if let Err(e) = run_case(p, "enum", &[i as u32], &mut cx) {
                failure = Some(Failure { mode: "enum".into(), tape: vec![i as u32], sig: e.sig, msg: e.msg, desc: cx.desc });
                break;
            }
            stats.borrow_mut().add(&cx);
            i += n;
        }
    }

    let per = cases / n + if idx < cases % n { 1 } else { 0 };
    if let Some(prep) = p.batch {
        let seed = seed.wrapping_mul(1_000_003).wrapping_add(idx as u64 * 7919 + hash(p.id) % 100_000);
        failure = batches(p, prep, seed, per, &slot, &stats);
    } else if failure.is_none() && per > 0 {
        let mut cfg = Config::default();
        cfg.cases = per as u32;
        cfg.failure_persistence = None;
        cfg.max_shrink_iters = 30_000;
        cfg.max_local_rejects = 1 << 30;
        cfg.max_global_rejects = 1 << 30;
        cfg.rng_seed = RngSeed::Fixed(seed.wrapping_mul(1_000_003).wrapping_add(idx as u64 * 7919 + hash(p.id) % 100_000));
        let mut runner = TestRunner::new(cfg);
        let strat = vec(any::<u32>(), 0..=p.tape_len);
        let failing = RefCell::new(None::<String>);
        let r = runner.run(&strat, |tape| {
            let mut cx = Cx::default();
            slot.put("tape", &tape);
            CASES.fetch_add(1, Ordering::Relaxed);
            match run_case(p, "tape", &tape, &mut cx) {
                Ok(()) => {
                    if failing.borrow().is_none() {
                        stats.borrow_mut().add(&cx);
                    }
                    Ok(())
                }
                Err(e) => {
                    // Shrink towards the same root cause only.
                    let mut f = failing.borrow_mut();
                    match &*f {
                        Some(s) if *s != e.sig => return Ok(()),
                        _ => *f = Some(e.sig.clone()),
                    }
                    Err(TestCaseError::fail(e.msg))
                }
            }
        });
        if let Err(TestError::Fail(_, tape)) = r {
            let mut cx = Cx::default();
            let e = run_case(p, "tape", &tape, &mut cx).err().unwrap_or(Fail { sig: "unstable".into(), msg: "did not reproduce".into() });
            if e.sig == "unstable" {
                eprintln!("unstable failure in {}", p.id);
                exit(3);
            }
            failure = Some(Failure { mode: "tape".into(), tape, sig: e.sig, msg: e.msg, desc: cx.desc });
        }
    }
    let s = stats.into_inner();
    let mut hb = Vec::new();
    for h in &s.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hash{idx}")), hb).unwrap();
    let out = json!({"evals": s.evals, "discards": s.discards, "classes": s.classes, "samples": s.samples,
        "failure": failure.map(|f| f.json(p.id))});
    fs::write(dir.join(format!("out{idx}")), out.to_string()).unwrap();
}

const BATCH: usize = 150;
fn batches(p: &Prop, prep: crate::native::Prep, seed: u64, per: usize, slot: &Slot, stats: &RefCell<Stats>) -> Option<Failure> {
    let mut cfg = Config::default();
    cfg.failure_persistence = None;
    cfg.rng_seed = RngSeed::Fixed(seed);
    let mut runner = TestRunner::new(cfg);
    let strat = vec(any::<u32>(), 0..=p.tape_len);
    let mut done = 0;
    while done < per {
        let mut pending = vec![];
        let mut failed = None;
        for _ in 0..BATCH.min(per - done) {
            done += 1;
            let tree = strat.new_tree(&mut runner).unwrap();
            let tape = tree.current();
            let mut cx = Cx::default();
            slot.put("tape", &tape);
            CASES.fetch_add(1, Ordering::Relaxed);
            match run_prep(prep, &tape, &mut cx) {
                Ok(None) => stats.borrow_mut().add(&cx),
                Ok(Some(item)) => pending.push((tree, cx, item)),
                Err(e) => {
                    failed = Some((tree, e));
                    break;
                }
            }
        }
        if failed.is_none() {
            let items: Vec<_> = pending.iter().map(|x| x.2.clone()).collect();
            if !items.is_empty() {
                let r = catch(|| crate::native::run(&items)).unwrap_or_else(|m| {
                    eprintln!("{}: {m}", p.id);
                    exit(3)
                });
                for ((tree, cx, _), r) in pending.into_iter().zip(r) {
                    match r {
                        Ok(()) => stats.borrow_mut().add(&cx),
                        Err(e) => {
                            failed = Some((tree, e));
                            break;
                        }
                    }
                }
            }
        }
        let Some((mut tree, e)) = failed else { continue };
        if std::env::var("CMV_SURVEY").is_ok() {
            eprintln!("SURVEY [{}] {}", e.sig, e.msg.replace('\n', "  "));
            continue;
        }
        // Shrink towards the same root cause only.
        let eval = |tape: &[u32]| {
            let mut cx = Cx::default();
            slot.put("tape", tape);
            CASES.fetch_add(1, Ordering::Relaxed);
            match run_case(p, "tape", tape, &mut cx) {
                Err(f) if f.sig == e.sig => Some((f, cx.desc)),
                _ => None,
            }
        };
        let mut best = match eval(&tree.current()) {
            Some((f, d)) => (tree.current(), f, d),
            None => {
                eprintln!("{} failed in a batch but not alone: {}", p.id, e.msg);
                exit(3);
            }
        };
        let t0 = Instant::now();
        let mut go = tree.simplify();
        while go && t0.elapsed().as_secs() < 40 {
            match eval(&tree.current()) {
                Some((f, d)) => {
                    best = (tree.current(), f, d);
                    go = tree.simplify();
                }
                None => go = tree.complicate(),
            }
        }
        return Some(Failure { mode: "tape".into(), tape: best.0, sig: best.1.sig, msg: best.1.msg, desc: best.2 });
    }
    None
}
fn run_prep(prep: crate::native::Prep, tape: &[u32], cx: &mut Cx) -> Result<Option<crate::native::Item>, Fail> {
    match catch(|| prep(&mut Tape::new(tape), cx)) {
        Ok(r) => r,
        Err(m) => {
            if harness_panic(&m) {
                eprintln!("harness panic: {m}");
                exit(3);
            }
            fail("panic", format!("panicked: {m}"))
        }
    }
}

/// Runs one tape in a child process: Ok(None)=passes, Ok(Some)=fails/crashes, Err=inconclusive.
fn run_isolated(id: &str, mode: &str, tape: &[u32], dir: &Path) -> Option<(String, String, String)> {
    let f = dir.join("iso.json");
    let o = dir.join("iso.out");
    let _ = fs::remove_file(&o);
    let df = o.with_extension("desc");
    let _ = fs::remove_file(&df);
    fs::write(&f, json!({"property": id, "mode": mode, "tape": tape}).to_string()).unwrap();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["one", f.to_str().unwrap(), o.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    if let Ok(s) = fs::read_to_string(&o) {
        let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
        let desc = v["case"].as_str().unwrap_or("").to_string();
        if v["ok"] == json!(true) {
            return None;
        }
        if v["ok"] == json!(false) {
            return Some((v["signature"].as_str().unwrap_or("").into(), v["message"].as_str().unwrap_or("").into(), desc));
        }
        if st.code() == Some(87) {
            return Some(("hang".into(), format!("no result within {CPU_LIMIT_S} s of CPU time"), desc));
        }
        if let Some(sig) = st.signal() {
            return Some(("crash".into(), format!("process died with signal {sig} (stack overflow, abort or out of memory)"), desc));
        }
    } else {
        let desc = fs::read_to_string(&df).unwrap_or_default();
        if st.code() == Some(87) {
            return Some(("hang".into(), format!("no result within {CPU_LIMIT_S} s of CPU time"), desc));
        }
        if let Some(sig) = st.signal() {
            return Some(("crash".into(), format!("process died with signal {sig} (stack overflow, abort or out of memory)"), desc));
        }
    }
    None
}

/// `one FILE OUT`: evaluate a single saved case in this process.
pub fn one(p: &Prop, v: &Value, out: &Path) -> ! {
    install_panic_hook();
    limit_memory();
    start_watchdog();
    let mode = v["mode"].as_str().unwrap_or("tape").to_string();
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let p = *p;
    let out = out.to_path_buf();
    let _ = DESC_FILE.set(out.with_extension("desc"));
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut cx = Cx::default();
            let r = run_case(&p, &mode, &tape, &mut cx);
            let o = match r {
                Ok(()) => json!({"ok": true, "case": cx.desc}),
                Err(e) => json!({"ok": false, "signature": e.sig, "message": e.msg, "case": cx.desc}),
            };
            fs::write(&out, o.to_string()).unwrap();
        })
        .unwrap();
    h.join().unwrap();
    exit(0)
}

fn shrink_isolated(id: &str, mode: &str, mut tape: Vec<u32>, dir: &Path, want: &str) -> Vec<u32> {
    if mode == "enum" || want == "hang" {
        return tape;
    }
    let mut budget = 400;
    let mut chunk = tape.len() / 2;
    let fails = |t: &[u32], budget: &mut i32| {
        *budget -= 1;
        matches!(run_isolated(id, mode, t, dir), Some((s, _, _)) if s == want)
    };
    while chunk >= 1 && budget > 0 {
        let mut i = 0;
        while i < tape.len() && budget > 0 {
            let mut t = tape.clone();
            t.drain(i..(i + chunk).min(t.len()));
            if fails(&t, &mut budget) {
                tape = t;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    for i in 0..tape.len() {
        if budget <= 0 {
            break;
        }
        if tape[i] != 0 {
            let mut t = tape.clone();
            t[i] = 0;
            if fails(&t, &mut budget) {
                tape = t;
            }
        }
    }
    tape
}

pub fn check(p: &Prop, a: &RunArgs) -> i32 {
    let t0 = Instant::now();
    let dir = a.root.join("target").join("run").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let (mut evals, mut discards, mut distinct) = (0u64, 0u64, 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<Failure> = None;

    {
        let n = 8;
        let mut kids = vec![];
        for i in 0..n {
            kids.push(
                Command::new(std::env::current_exe().unwrap())
                    .args(["worker", p.id, &a.seed.to_string(), &i.to_string(), &n.to_string(), &a.cases.to_string(), dir.to_str().unwrap()])
                    .stdout(Stdio::null())
                    .spawn()
                    .unwrap(),
            );
        }
        let mut hs: HashSet<u64> = HashSet::new();
        for (i, k) in kids.iter_mut().enumerate() {
            let st = k.wait().unwrap();
            let out = dir.join(format!("out{i}"));
            if let (true, Ok(s)) = (st.success(), fs::read_to_string(&out)) {
                let v: Value = serde_json::from_str(&s).unwrap();
                evals += v["evals"].as_u64().unwrap();
                discards += v["discards"].as_u64().unwrap();
                for (k, c) in v["classes"].as_object().unwrap() {
                    *classes.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
                for s in v["samples"].as_array().unwrap() {
                    if samples.len() < 12 {
                        samples.push(s.as_str().unwrap().to_string());
                    }
                }
                for c in fs::read(dir.join(format!("hash{i}"))).unwrap().chunks_exact(8) {
                    hs.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
                if failure.is_none() && !v["failure"].is_null() {
                    let f = &v["failure"];
                    failure = Some(Failure {
                        mode: f["mode"].as_str().unwrap().into(),
                        tape: f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
                        sig: f["signature"].as_str().unwrap().into(),
                        msg: f["message"].as_str().unwrap().into(),
                        desc: f["case"].as_str().unwrap().into(),
                    });
                }
            } else if failure.is_none() {
                // The worker died: find out on which case, and whether that reproduces.
                let (mode, tape) = match Slot::get(&dir.join(format!("slot{i}"))) {
                    Some(x) if st.signal().is_some() || st.code() == Some(87) => x,
                    _ => {
                        eprintln!("worker {i} of {} ended with {st:?} without a result", p.id);
                        return 3;
                    }
                };
                match run_isolated(p.id, &mode, &tape, &dir) {
                    Some((sig, msg, desc)) => {
                        let t = shrink_isolated(p.id, &mode, tape, &dir, &sig);
                        let (sig, msg, desc) = run_isolated(p.id, &mode, &t, &dir).unwrap_or((sig, msg, desc));
                        failure = Some(Failure { mode, tape: t, sig, msg, desc });
                    }
                    None => {
                        eprintln!("worker {i} of {} died ({st:?}) but its case does not reproduce", p.id);
                        return 3;
                    }
                }
            }
        }
        distinct = hs.len() as u64;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule, "samples": samples,
            "discarded": discards, "classes": classes,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    fs::create_dir_all(a.root.join("evidence")).unwrap();
    fs::write(a.root.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = fs::remove_dir_all(&dir);
    for l in fs::read_to_string(a.root.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(what) = l.strip_prefix(&format!("known: property={} ", p.id)) {
            println!("KNOWN-FINDING: property={} {what}", p.id);
        }
    }
    println!("{}: {} cases ({} discarded), {} distinct non-trivial, {:.1}s", p.id, evals, discards, distinct, wall);
    if let Some(f) = failure {
        let rd = a.root.join("replays");
        fs::create_dir_all(&rd).unwrap();
        let path = rd.join(format!("{}-{:08x}.json", p.id, hash(&format!("{:?}{}", f.tape, f.sig)) as u32));
        fs::write(&path, serde_json::to_string_pretty(&f.json(p.id)).unwrap()).unwrap();
        println!("case: {}", f.desc);
        println!("[{}] {}", f.sig, f.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    0
}

pub fn replay(p: &Prop, v: &Value, root: &Path) -> i32 {
    let mode = v["mode"].as_str().unwrap_or("tape").to_string();
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let dir = root.join("target").join("run").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = run_isolated(p.id, &mode, &tape, &dir);
    let _ = fs::remove_dir_all(&dir);
    match r {
        None => {
            println!("{}: the replayed case passes", p.id);
            0
        }
        Some((sig, msg, desc)) => {
            println!("case: {desc}\n[{sig}] {msg}");
            1
        }
    }
}
/// A panic caught by `guard`.
impl From<String> for Fail {
    fn from(m: String) -> Fail {
        Fail { sig: "panic".into(), msg: format!("panicked: {m}") }
    }
}
