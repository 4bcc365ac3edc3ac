//! The exploration driver: deterministic enumeration of cases, split over threads, with panic, hang,
//! abort and oversized-allocation detection; counters, known findings, replay files and evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ---------------------------------------------------------------- allocator

pub struct Alloc;

thread_local! {
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A single request above this ends the run with a violation: no case needs anything near it.
const HARD_LIMIT: usize = 1 << 30;

fn note_alloc(size: usize) {
    let _ = MAX_REQ.try_with(|m| {
        if size > m.get() {
            m.set(size)
        }
    });
    if size > HARD_LIMIT && IN_CASE.try_with(|c| c.get()).unwrap_or(false) {
        let _ = IN_CASE.try_with(|c| c.set(false));
        fatal(&format!("a single allocation of {} bytes was requested", size));
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 4096 {
            note_alloc(l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 4096 {
            note_alloc(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 4096 {
            note_alloc(n);
        }
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns the largest single allocation it requested.
pub fn max_alloc<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAX_REQ.with(|m| m.set(0));
    let r = f();
    (r, MAX_REQ.with(|m| m.get()))
}

// ---------------------------------------------------------------- globals

pub struct Global {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub known: Vec<Known>,
    pub verif: String,
    pub start: Instant,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone)]
pub struct Known { pub case: String, pub what: String, pub note: String }

thread_local! { static IN_ERR: Cell<bool> = const { Cell::new(false) }; }
static KNOWN_SEEN: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
static G: OnceLock<Global> = OnceLock::new();
pub fn g() -> &'static Global { G.get().expect("set in main") }

const SLOTS: usize = 64;
struct Slot { active: AtomicBool, since_ms: AtomicU64, id: Mutex<String> }
static SLOT: OnceLock<Vec<Slot>> = OnceLock::new();
fn slots() -> &'static Vec<Slot> {
    SLOT.get_or_init(|| {
        (0..SLOTS)
            .map(|_| Slot {
                active: AtomicBool::new(false),
                since_ms: AtomicU64::new(0),
                id: Mutex::new(String::new()),
            })
            .collect()
    })
}
thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(SLOTS) }; }
static DONE: AtomicBool = AtomicBool::new(false);
static FATAL: AtomicBool = AtomicBool::new(false);

/// Reports a violation for the case this thread is running and ends the process.
fn fatal(what: &str) -> ! {
    if FATAL.swap(true, Ordering::SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let s = MY_SLOT.try_with(|s| s.get()).unwrap_or(SLOTS);
    let id = if s < SLOTS {
        slots()[s].id.try_lock().map(|x| x.clone()).unwrap_or_default()
    } else {
        String::new()
    };
    report_and_exit(&id, what)
}

fn report_and_exit(id: &str, what: &str) -> ! {
    let path = write_replay(id, what);
    println!("case: {}\n  {}", clip(id), clip(what));
    println!("VIOLATION property={} replay={}", g().prop, path);
    let _ = std::io::stdout().flush();
    write_evidence_stub(id, what);
    unsafe { libc::_exit(1) }
}

extern "C" fn on_abort(_: libc::c_int) { fatal("the process aborted (stack overflow or failed allocation)"); }

/// Which configuration of the library this is.
pub const BUILD: &str = if cfg!(feature = "plain") { "plain" } else { "full" };

fn write_replay(id: &str, what: &str) -> String {
    let dir = format!("{}/replays", g().verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, g().prop);
    let v = serde_json::json!({
        "property": g().prop, "tier": format!("{:?}", g().tier).to_lowercase(),
        "case": id, "what": what, "build": BUILD,
        "how": "bash /verif/run.sh --replay <this file> re-runs exactly this case against /repo's working tree",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

// ---------------------------------------------------------------- context

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub transitions: u64,
    pub validated: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: BTreeMap<u64, String>,
    pub fails: BTreeMap<u64, (String, String)>,
    pub fail_total: u64,
    pub bounds: BTreeMap<String, String>,
}

pub struct Ctx {
    tid: usize,
    nthreads: usize,
    seq: Cell<u64>,
    pub st: RefCell<Stats>,
    /// Deep bounds; the enumerations E01 borrows always run with the quick ones.
    pub thorough: bool,
    /// Error-display mode (property E01): every error value seen is formatted and checked.
    pub errs: bool,
}

pub type Res = Result<(), String>;

/// Case ids are built lazily, only when needed.
impl Ctx {
    pub fn case(&self, id: impl Fn() -> String, f: impl FnOnce(&Ctx) -> Res) {
        let n = self.seq.get();
        self.seq.set(n + 1);
        if let Some(only) = &g().only {
            if self.tid != 0 || id() != *only {
                return;
            }
        } else if (n % self.nthreads as u64) as usize != self.tid {
            return;
        }
        // Stop early once there is plenty of evidence of breakage.
        if self.st.borrow().fail_total > 200 {
            return;
        }
        let ids = id();
        let slot = &slots()[self.tid];
        {
            let mut s = slot.id.lock().unwrap();
            s.clear();
            s.push_str(&ids);
        }
        slot.since_ms.store(g().start.elapsed().as_millis() as u64, Ordering::Relaxed);
        slot.active.store(true, Ordering::Relaxed);
        IN_CASE.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        IN_CASE.with(|c| c.set(false));
        slot.active.store(false, Ordering::Relaxed);
        let mut st = match self.st.try_borrow_mut() {
            Ok(s) => s,
            Err(_) => fatal("harness error: statistics still borrowed"),
        };
        st.cases += 1;
        if st.samples.len() < 3 || (n % 4099 == 0 && st.samples.len() < 8) {
            st.samples.insert(n, ids.clone());
        }
        // In error-display mode only what happened while an error was formatted counts: the rest is for the
        // properties whose enumerations are borrowed.
        let in_err = IN_ERR.with(|c| c.replace(false));
        let err = match r {
            Ok(Err(_)) | Err(_) if self.errs && !in_err => None,
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if let Some(e) = err {
            // Cases that only find what a listed finding already describes are not failures.
            let known = g().known.iter().position(|k| glob(&k.case, &ids) && e.contains(&k.what));
            if let Some(k) = known {
                *st.outcomes.entry("known finding".into()).or_default() += 1;
                *KNOWN_SEEN.lock().unwrap().entry(k).or_insert(0) += 1;
                return;
            }
            st.fail_total += 1;
            st.fails.insert(n, (ids, e));
            if st.fails.len() > 20 {
                let last = *st.fails.keys().next_back().unwrap();
                st.fails.remove(&last);
            }
        }
    }

    /// Counts one operation executed on the implementation.
    pub fn step(&self) { self.st.borrow_mut().transitions += 1; }
    pub fn steps(&self, n: u64) { self.st.borrow_mut().transitions += n; }
    /// Counts one comparison of an observed result with what the reference model predicts.
    pub fn validated(&self) { self.st.borrow_mut().validated += 1; }
    /// Records a distinct state of the implementation by its canonical bytes.
    pub fn state(&self, bytes: &[u8]) { self.st.borrow_mut().states.insert(fnv(bytes)); }
    pub fn state_new(&self, bytes: &[u8]) -> bool { self.st.borrow_mut().states.insert(fnv(bytes)) }
    pub fn state_h<T: std::hash::Hash>(&self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        let v = h.finish();
        self.st.borrow_mut().states.insert(v);
    }
    pub fn outcome(&self, o: &str) {
        let mut st = self.st.borrow_mut();
        if let Some(n) = st.outcomes.get_mut(o) {
            *n += 1;
        } else {
            st.outcomes.insert(o.to_string(), 1);
        }
    }
    pub fn bound(&self, k: &str, v: impl ToString) {
        self.st.borrow_mut().bounds.insert(k.into(), v.to_string());
    }

    /// Property E01: any error the library returned must format and chain without panicking.
    pub fn err<E: std::error::Error>(&self, e: &E) -> Res {
        if !self.errs {
            return Ok(());
        }
        IN_ERR.with(|c| c.set(true));
        let r = check_error(self, std::any::type_name::<E>(), e);
        IN_ERR.with(|c| c.set(r.is_err()));
        r
    }
    /// The rest of this case belongs to the error-display property itself.
    pub fn own(&self) { IN_ERR.with(|c| c.set(true)) }
    pub fn err_dbg<E: std::fmt::Debug>(&self, e: &E) -> Res {
        if !self.errs {
            return Ok(());
        }
        IN_ERR.with(|c| c.set(true));
        let d = format!("{:?}", e);
        self.outcome(&variant_path(&d));
        IN_ERR.with(|c| c.set(d.is_empty()));
        if d.is_empty() { Err("empty debug form".into()) } else { Ok(()) }
    }
}

/// The names of nested variants at the front of a debug form, e.g. `DecodeGlobal(InsertPair(Deser(..`.
fn variant_path(d: &str) -> String {
    let mut out = String::new();
    for c in d.chars() {
        if c.is_alphanumeric() || c == '_' || c == '(' {
            out.push(c)
        } else {
            break;
        }
        if out.len() > 90 {
            break;
        }
    }
    out.trim_end_matches(|c: char| c == '(' || c.is_numeric()).to_string()
}

pub fn check_error(ctx: &Ctx, ty: &str, e: &dyn std::error::Error) -> Res {
    let msg = e.to_string();
    ctx.validated();
    if msg.trim().is_empty() {
        return Err(format!("empty message for {:?}", e));
    }
    let dbg = format!("{:?}", e);
    if dbg.is_empty() {
        return Err("empty debug form".into());
    }
    // The alternate forms are made once per distinct value.
    let fresh = ctx.state_new(dbg.as_bytes());
    if fresh {
        let alt = format!("{:#} {:#?}", e, e);
        if alt.trim().is_empty() {
            return Err("empty alternate form".into());
        }
    }
    ctx.outcome(&format!("{} {}{}", ty.trim_start_matches("psbt_v2::"), variant_path(&dbg), if e.source().is_some() { " <- " } else { "" }));
    let mut depth = 0;
    let mut cur = e.source();
    while let Some(s) = cur {
        ctx.step();
        let m = s.to_string();
        if m.trim().is_empty() {
            return Err(format!("empty message for source {:?} of {}", s, dbg));
        }
        depth += 1;
        if depth > 20 {
            return Err(format!("source chain does not end for {}", dbg));
        }
        cur = s.source();
    }
    ctx.step();
    Ok(())
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 32;
    h.wrapping_mul(0x9E3779B97F4A7C15)
}

/// Long texts are cut; the replay file has them in full.
fn clip(s: &str) -> String {
    if s.chars().count() <= 500 {
        s.into()
    } else {
        format!("{}..", s.chars().take(500).collect::<String>())
    }
}

fn glob(p: &str, s: &str) -> bool {
    match p.find('*') {
        None => p == s,
        Some(i) => {
            if !s.starts_with(&p[..i]) {
                return false;
            }
            let rest = &p[i + 1..];
            if rest.is_empty() {
                return true;
            }
            (i..=s.len()).any(|j| s.is_char_boundary(j) && glob(rest, &s[j..]))
        }
    }
}

// ---------------------------------------------------------------- running

pub struct Outcome { pub stats: Stats, pub violations: u64 }

pub fn run(check: fn(&Ctx), errs: bool) -> Stats {
    let only = g().only.is_some();
    let n = if only {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    };
    let total = AtomicUsize::new(0);
    let mut merged = Stats::default();
    let results: Vec<Stats> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|tid| {
                let total = &total;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        MY_SLOT.with(|m| m.set(tid));
                        let ctx = Ctx {
                            tid,
                            nthreads: n,
                            seq: Cell::new(0),
                            st: RefCell::new(Stats::default()),
                            thorough: g().tier == Tier::Thorough && !errs,
                            errs,
                        };
                        check(&ctx);
                        total.fetch_max(ctx.seq.get() as usize, Ordering::Relaxed);
                        ctx.st.into_inner()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(s) => s,
                Err(_) => {
                    eprintln!("harness error outside a case: {}", LAST_PANIC.with(|p| p.borrow().clone()));
                    unsafe { libc::_exit(3) }
                }
            })
            .collect()
    });
    for r in results {
        merged.cases += r.cases;
        merged.transitions += r.transitions;
        merged.validated += r.validated;
        merged.states.extend(r.states);
        for (k, v) in r.outcomes {
            *merged.outcomes.entry(k).or_default() += v;
        }
        merged.samples.extend(r.samples);
        merged.fails.extend(r.fails);
        merged.fail_total += r.fail_total;
        merged.bounds.extend(r.bounds);
    }
    if !only && merged.fail_total == 0 && merged.cases != total.load(Ordering::Relaxed) as u64 {
        eprintln!("harness error: {} of {} cases ran", merged.cases, total.load(Ordering::Relaxed));
        std::process::exit(3);
    }
    merged
}

pub fn init(gl: Global) {
    let _ = G.set(gl);
    let _ = slots();
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inc = IN_CASE.try_with(|c| c.get()).unwrap_or(false);
        if !inc {
            eprintln!("panic outside a case: {} at {}", msg, loc);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
    unsafe {
        libc::signal(libc::SIGABRT, on_abort as *const () as libc::sighandler_t);
    }
    // Watchdog: no case takes anything near this long.
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        if DONE.load(Ordering::Relaxed) {
            return;
        }
        let now = g().start.elapsed().as_millis() as u64;
        for s in slots() {
            if s.active.load(Ordering::Relaxed) {
                let since = s.since_ms.load(Ordering::Relaxed);
                if now.saturating_sub(since) > (if g().tier == Tier::Thorough { 400_000 } else { 120_000 }) {
                    let id = s.id.try_lock().map(|x| x.clone()).unwrap_or_default();
                    if s.active.load(Ordering::Relaxed) && s.since_ms.load(Ordering::Relaxed) == since {
                        report_and_exit(&id, "the case did not finish within 120 s (thorough: 400 s)");
                    }
                }
            }
        }
    });
}

fn write_evidence_stub(id: &str, what: &str) {
    let v = serde_json::json!({
        "property": g().prop, "tier": format!("{:?}", g().tier).to_lowercase(), "seed": seed(),
        "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
            "samples": [id], "exhaustive": false, "explanation": format!("run ended by a violation: {}", what)},
        "wall_s": g().start.elapsed().as_secs_f64(), "violations": 1,
    });
    let dir = format!("{}/evidence", g().verif);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, g().prop), serde_json::to_string_pretty(&v).unwrap());
}

fn seed() -> i64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

pub fn finish(st: Stats, rule: &str, assumptions: &[&str]) -> i32 {
    DONE.store(true, Ordering::Relaxed);
    let replaying = g().only.is_some();
    if replaying {
        if st.cases == 0 {
            println!("replay: no such case");
            return 3;
        }
    } else {
        let samples: Vec<&String> = st.samples.values().take(12).collect();
        let v = serde_json::json!({
            "property": g().prop,
            "tier": format!("{:?}", g().tier).to_lowercase(),
            "seed": seed(),
            "level": "model_checking",
            "coverage": {
                "states": st.states.len(),
                "transitions": st.transitions,
                "traces_validated_against_impl": st.validated,
                "evaluations": st.cases,
                "distinct_outcomes": st.outcomes.len(),
                "outcomes": st.outcomes.iter().take(120).collect::<BTreeMap<_, _>>(),
                "rule": rule,
                "bounds": st.bounds,
                "samples": samples,
                "exhaustive": st.fail_total == 0,
            },
            "assumptions": assumptions,
            "wall_s": (g().start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": st.fail_total,
        });
        let mut v = v;
        // The other configuration ran before and left its part.
        let part = format!("{}/target/{}.part.json", g().verif, g().prop);
        if cfg!(feature = "plain") {
            std::fs::write(part, v.to_string()).expect("write evidence");
        } else {
            if let Ok(s) = std::fs::read_to_string(&part) {
                let o: serde_json::Value = serde_json::from_str(&s).expect("evidence of the other configuration");
                let c = &mut v["coverage"];
                for k in ["states", "transitions", "traces_validated_against_impl", "evaluations"] {
                    c[k] = (c[k].as_u64().unwrap_or(0) + o["coverage"][k].as_u64().unwrap_or(0)).into();
                }
                c["configurations"] = serde_json::json!([
                    "std, serde, base64, miniscript, silent-payments",
                    {"features": "std, rand, serde, base64, miniscript", "coverage": o["coverage"]},
                ]);
                v["violations"] = (st.fail_total as u64 + o["violations"].as_u64().unwrap_or(0)).into();
                let _ = std::fs::remove_file(&part);
            }
            let dir = format!("{}/evidence", g().verif);
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(format!("{}/{}.json", dir, g().prop), serde_json::to_string_pretty(&v).unwrap() + "\n")
                .expect("write evidence");
        }
    }
    println!(
        "{} {:?} ({}): cases={} states={} transitions={} validated={} outcomes={} in {:.1}s",
        g().prop, g().tier, BUILD, st.cases, st.states.len(), st.transitions, st.validated, st.outcomes.len(),
        g().start.elapsed().as_secs_f64()
    );
    if std::env::var("MC_OUTCOMES").is_ok() {
        for (k, v) in &st.outcomes {
            println!("  {:>10} {}", v, k);
        }
    }
    for (k, n) in KNOWN_SEEN.lock().unwrap().iter() {
        let k = &g().known[*k];
        println!("KNOWN-FINDING: property={} {} cases of \"{}\": {} - {}", g().prop, n, k.case, k.what, k.note);
    }
    if st.fail_total > 0 {
        let show = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        for (i, (id, what)) in st.fails.values().enumerate() {
            if i < show {
                println!("case: {}\n  {}", clip(id), clip(what));
            }
        }
        if st.fail_total > 8 {
            println!("({} failing cases in all)", st.fail_total);
        }
        let (id, what) = st.fails.values().next().unwrap();
        let path = write_replay(id, what);
        println!("VIOLATION property={} replay={}", g().prop, path);
        1
    } else {
        0
    }
}
