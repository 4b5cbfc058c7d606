//! Runs cases on all cores. A panic, an endless loop or a crash of the code
//! under test is a result, not an accident of the harness.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
}

const SLOTS: usize = 64;
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static KEY_A: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static KEY_B: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);
static JOURNAL_ON: AtomicBool = AtomicBool::new(false);

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness: {s}");
            std::process::exit(3);
        }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    if let Ok(p) = std::env::var("VH_JOURNAL") {
        *JOURNAL.lock().unwrap() = Some(std::fs::File::create(p).unwrap());
        JOURNAL_ON.store(true, Ordering::SeqCst);
    }
}

/// Calls the code under test. (a, b) identifies the case: scene and variant seed.
pub fn guard<T>(t0: Instant, a: u64, b: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| *s.borrow());
    KEY_A[slot].store(a, Ordering::Relaxed);
    KEY_B[slot].store(b, Ordering::Relaxed);
    if JOURNAL_ON.load(Ordering::Relaxed) {
        if let Some(file) = JOURNAL.lock().unwrap().as_mut() {
            let _ = file.seek(SeekFrom::Start(0));
            let _ = file.write_all(format!("{a:020} {b:020}\n").as_bytes());
        }
    }
    STARTED[slot].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Release);
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    STARTED[slot].store(0, Ordering::Release);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub struct Report {
    pub t0: Instant,
    pub out: String,
    pub violations: Mutex<Vec<Value>>,
    pub counts: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<Value>>,
    pub stop: AtomicBool,
}

pub const MAX_VIOLATIONS: usize = 2000;

impl Report {
    pub fn new(out: &str) -> Self {
        install();
        Report {
            t0: Instant::now(),
            out: out.to_string(),
            violations: Mutex::new(vec![]),
            counts: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
        }
    }
    pub fn violation(&self, v: Value) {
        let mut g = self.violations.lock().unwrap();
        if g.len() < MAX_VIOLATIONS {
            g.push(v);
        } else {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn count(&self, key: &str, n: u64) {
        *self.counts.lock().unwrap().entry(key.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 5 {
            s.push(v);
        }
    }
    pub fn finish(&self) {
        let v = self.violations.lock().unwrap();
        let res = json!({
            "violations": *v,
            "counts": *self.counts.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, serde_json::to_string(&res).unwrap()).unwrap();
    }
    fn hang(&self, slot: usize) -> ! {
        let a = KEY_A[slot].load(Ordering::Relaxed);
        let b = KEY_B[slot].load(Ordering::Relaxed);
        self.violation(json!({"case": a, "vseed": b, "what": "no answer: the call did not return in time"}));
        self.finish();
        std::process::exit(0);
    }
}

pub fn threads() -> usize {
    if std::env::var("VH_JOURNAL").is_ok() {
        return 1;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS - 1)
}

/// Largest time one call of the code under test may take.
pub const CALL_LIMIT: Duration = Duration::from_secs(40);

/// f(i) for i in 0..n, until time runs out.
pub fn run(rep: &Report, n: usize, budget_s: f64, f: impl Fn(usize) + Sync) -> usize {
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let live = AtomicUsize::new(threads());
    let start = Instant::now();
    std::thread::scope(|sc| {
        for w in 0..threads() {
            let (next, done, live, f) = (&next, &done, &live, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| *s.borrow_mut() = w);
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n
                            || rep.stop.load(Ordering::Relaxed)
                            || start.elapsed().as_secs_f64() > budget_s
                        {
                            break;
                        }
                        f(i);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    live.fetch_sub(1, Ordering::Release);
                })
                .unwrap();
        }
        while live.load(Ordering::Acquire) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let now = rep.t0.elapsed().as_millis() as u64;
            for slot in 0..threads() {
                let s = STARTED[slot].load(Ordering::Acquire);
                if s != 0 && now > s + CALL_LIMIT.as_millis() as u64 {
                    rep.hang(slot);
                }
            }
        }
    });
    done.load(Ordering::Relaxed)
}
