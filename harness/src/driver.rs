use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};
use std::time::{Duration, Instant};

/// One case: Ok(number of compared observations) or the first disagreement.
pub type CaseFn = fn(&Value, &mut Ctx) -> Result<u64, Value>;

#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub thread: usize,
    pub serial: u64,
    /// What the code answered, for drivers whose judge is outside.
    pub answers: Option<Value>,
}

impl Ctx {
    pub fn hit(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    /// A fresh directory of this case's own.
    pub fn dir(&mut self) -> std::path::PathBuf {
        self.serial += 1;
        let base = std::env::var("VH_SCRATCH").expect("VH_SCRATCH");
        let d = std::path::Path::new(&base).join(format!("t{}-{}", self.thread, self.serial));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static GLOBAL_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run(f: CaseFn, args: &[String]) {
    let input = &args[0];
    let output = &args[1];
    let mut threads = 8usize;
    let mut progress: Option<String> = None;
    let mut limit = 120u64;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--threads" => threads = args[i + 1].parse().unwrap(),
            "--progress" => progress = Some(args[i + 1].clone()),
            "--case-timeout" => limit = args[i + 1].parse().unwrap(),
            _ => {
                eprintln!("bad argument {}", args[i]);
                std::process::exit(3)
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m.clone());
        *GLOBAL_PANIC.lock().unwrap() = m;
    }));
    let cases: Vec<String> = std::io::BufReader::new(std::fs::File::open(input).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(3)
    }))
    .lines()
    .map(|l| l.unwrap())
    .collect();
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::fs::File::create(output).unwrap()));
    let prog = progress.map(|p| Arc::new(Mutex::new(std::fs::File::create(p).unwrap())));
    let steps = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let nfail = Arc::new(AtomicU64::new(0));
    let counts: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
    let started: Arc<Vec<Mutex<Option<(usize, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = Vec::new();
    for t in 0..threads {
        let (cases, next, out, prog, steps, done, nfail, counts, started) = (
            cases.clone(), next.clone(), out.clone(), prog.clone(), steps.clone(), done.clone(), nfail.clone(),
            counts.clone(), started.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut ctx = Ctx { thread: t, ..Default::default() };
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.len() {
                            break;
                        }
                        let v: Value = serde_json::from_str(&cases[i]).expect("case json");
                        if let Some(p) = &prog {
                            if cases.len() < 200_000 {
                                let _ = writeln!(p.lock().unwrap(), "{{\"i\":{i}}}");
                            }
                        }
                        *started[t].lock().unwrap() = Some((i, Instant::now()));
                        let r = catch_unwind(AssertUnwindSafe(|| f(&v, &mut ctx)));
                        *started[t].lock().unwrap() = None;
                        done.fetch_add(1, Ordering::Relaxed);
                        let fail = match r {
                            Ok(Ok(n)) => {
                                steps.fetch_add(n, Ordering::Relaxed);
                                if let Some(a) = ctx.answers.take() {
                                    let line = format!("{}\n", json!({"i": i, "answers": a}));
                                    let _ = out.lock().unwrap().write_all(line.as_bytes());
                                }
                                None
                            }
                            Ok(Err(d)) => Some(json!({"i": i, "disagreement": d})),
                            Err(_) => Some(json!({"i": i, "panic": LAST_PANIC.with(|p| p.borrow().clone())})),
                        };
                        if let Some(x) = fail {
                            if nfail.fetch_add(1, Ordering::Relaxed) < 200 {
                                let mut o = out.lock().unwrap();
                                let _ = writeln!(o, "{x}");
                            }
                        }
                    }
                    let mut c = counts.lock().unwrap();
                    for (k, n) in ctx.counts {
                        *c.entry(k).or_default() += n;
                    }
                })
                .unwrap(),
        );
    }
    // Watchdog: a case that does not finish is a hang of the code under test.
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for s in started.iter() {
            let g = *s.lock().unwrap();
            if let Some((i, at)) = g {
                if at.elapsed() > Duration::from_secs(limit) {
                    let mut o = out.lock().unwrap();
                    let _ = writeln!(o, "{}", json!({"i": i, "hang": format!("no answer after {limit}s"), "last_panic": *GLOBAL_PANIC.lock().unwrap()}));
                    let _ = writeln!(o, "{}", json!({"summary": true, "cases": done.load(Ordering::Relaxed), "steps": steps.load(Ordering::Relaxed)}));
                    let _ = o.flush();
                    std::process::exit(0);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread died: {}", GLOBAL_PANIC.lock().unwrap());
            std::process::exit(3);
        }
    }
    let mut o = out.lock().unwrap();
    let _ = writeln!(
        o,
        "{}",
        json!({"summary": true, "cases": done.load(Ordering::Relaxed), "steps": steps.load(Ordering::Relaxed),
               "failures": nfail.load(Ordering::Relaxed), "counts": *counts.lock().unwrap()})
    );
}

/// A waker that only remembers that it was woken: the executor of the manual
/// polling drivers.
pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Task<T> {
    pub fut: Option<std::pin::Pin<Box<dyn std::future::Future<Output = T>>>>,
    pub flag: Arc<Flag>,
    pub parked: bool,
}

impl<T> Task<T> {
    pub fn new(f: impl std::future::Future<Output = T> + 'static) -> Self {
        Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), parked: false }
    }
    pub fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    pub fn poll(&mut self) -> Option<T> {
        self.flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&waker);
        match self.fut.as_mut().expect("polled a finished task").as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => {
                self.fut = None;
                self.parked = false;
                Some(v)
            }
            std::task::Poll::Pending => {
                self.parked = true;
                None
            }
        }
    }
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("case field {k} in {v}"))
}
pub fn n(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or_else(|| panic!("case field {k} in {v}"))
}
