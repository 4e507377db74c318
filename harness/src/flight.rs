//! Single-flight caches: the shared async cache, the bounded and the ephemeral
//! one, and the blocking one (real threads).
use crate::driver::*;
use ruby_fast_lsp::single_flight::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Prod = (u64, u64); // production number, weight
#[derive(Clone, Debug)]
enum Cmd {
    Ok(u64),
    Err,
    Panic,
}
type Senders = Arc<Mutex<BTreeMap<String, tokio::sync::oneshot::Sender<Cmd>>>>;

enum Cache {
    Plain(SingleFlightCache<String, Prod>),
    Bounded(BoundedSingleFlightCache<String, Prod>),
}
impl Cache {
    fn snap(&self) -> SingleFlightSnapshot {
        match self {
            Cache::Plain(c) => c.snapshot(),
            Cache::Bounded(c) => c.snapshot(),
        }
    }
}

fn snap_json(p: &SingleFlightSnapshot) -> Value {
    json!({"lookups": p.lookups, "hits": p.hits, "joined": p.joined_flights, "misses": p.misses,
           "producers": p.producers, "failures": p.failures, "evictions": p.evictions})
}

fn cmd(o: &Value) -> Cmd {
    match s(o, "how") {
        "ok" => Cmd::Ok(n(o, "w")),
        "err" => Cmd::Err,
        _ => Cmd::Panic,
    }
}

/// What the callers have seen so far, in the specification's vocabulary.
fn calls_json(res: &[Option<Result<u64, String>>], left: &[bool], gens: &[u64]) -> Value {
    Value::Array(
        res.iter()
            .enumerate()
            .map(|(i, r)| {
                let (st, g) = if left[i] {
                    ("left", gens[i])
                } else {
                    match r {
                        None => ("waiting", gens[i]),
                        Some(Ok(g)) => ("ok", *g),
                        Some(Err(_)) => ("failed", gens[i]),
                    }
                };
                json!({"st": st, "g": g})
            })
            .collect(),
    )
}

pub fn asynchronous(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let steps = case["steps"].as_array().unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let cache = match s(case, "variant") {
        "plain" => Cache::Plain(SingleFlightCache::default()),
        "ephemeral" => Cache::Bounded(BoundedSingleFlightCache::ephemeral(|v: &Prod| v.1)),
        _ => Cache::Bounded(BoundedSingleFlightCache::new(n(case, "entries") as usize, n(case, "weight"), |v: &Prod| v.1)),
    };
    let cache = Arc::new(cache);
    let senders: Senders = Default::default();
    let productions = Arc::new(AtomicU64::new(0));
    let results: Arc<Mutex<Vec<Option<Result<u64, String>>>>> = Default::default();
    let mut handles: Vec<tokio::task::JoinHandle<()>> = vec![];
    let mut left = vec![];
    let mut gens = vec![];
    let mut compared = 0;
    for (i, st) in steps.iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        rt.block_on(async {
            match s(o, "a") {
                "call" => {
                    let key = s(o, "k").to_string();
                    results.lock().unwrap().push(None);
                    left.push(false);
                    gens.push(n(o, "g"));
                    let idx = left.len() - 1;
                    let (senders, productions, results, cache) =
                        (senders.clone(), productions.clone(), results.clone(), cache.clone());
                    handles.push(tokio::spawn(async move {
                        let k2 = key.clone();
                        let producer = move || -> Pin<Box<dyn Future<Output = Result<Prod, String>> + Send>> {
                            let g = productions.fetch_add(1, Ordering::SeqCst) + 1;
                            let (tx, rx) = tokio::sync::oneshot::channel();
                            senders.lock().unwrap().insert(k2, tx);
                            Box::pin(async move {
                                match rx.await {
                                    Ok(Cmd::Ok(w)) => Ok((g, w)),
                                    Ok(Cmd::Err) | Err(_) => Err(format!("failed {g}")),
                                    Ok(Cmd::Panic) => panic!("planned producer failure"),
                                }
                            })
                        };
                        let r = match &*cache {
                            Cache::Plain(c) => c.get_or_try_init(key, producer).await,
                            Cache::Bounded(c) => c.get_or_try_init(key, producer).await,
                        };
                        results.lock().unwrap()[idx] = Some(r.map(|v| v.0));
                    }));
                }
                "finish" => {
                    let tx = senders.lock().unwrap().remove(s(o, "k"));
                    if let Some(tx) = tx {
                        let _ = tx.send(cmd(o));
                    }
                }
                "leave" => {
                    let c = n(o, "c") as usize - 1;
                    handles[c].abort();
                    left[c] = true;
                }
                a => panic!("op {a}"),
            }
            for _ in 0..40 {
                tokio::task::yield_now().await;
            }
        });
        let snap = cache.snap();
        let mut got = json!({
            "calls": calls_json(&results.lock().unwrap(), &left, &gens),
            "cnt": snap_json(&snap), "entries": snap.entries,
        });
        if let Cache::Bounded(c) = &*cache {
            got["weight"] = json!(c.retained_weight());
            let present: Vec<&str> = ["k1", "k2", "k3", "k4"].into_iter().filter(|k| c.contains_key(&k.to_string())).collect();
            got["present"] = json!(present);
        }
        if productions.load(Ordering::SeqCst) != n(&x["cnt"], "producers") {
            return Err(json!({"step": i, "what": "producers run", "spec": x["cnt"]["producers"], "code": productions.load(Ordering::SeqCst), "op": o}));
        }
        for (k, v) in got.as_object().unwrap() {
            if &x[k] != v {
                return Err(json!({"step": i, "what": k, "spec": x[k], "code": v, "op": o}));
            }
        }
        ctx.hit(s(o, "a"));
        compared += 1;
    }
    Ok(compared)
}

pub fn blocking(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let steps = case["steps"].as_array().unwrap();
    let cache: BlockingBoundedSingleFlightCache<String, Prod, String> =
        BlockingBoundedSingleFlightCache::new(n(case, "entries") as usize, n(case, "weight"), |v: &Prod| v.1);
    let senders: Arc<Mutex<BTreeMap<String, mpsc::Sender<Cmd>>>> = Default::default();
    let productions = Arc::new(AtomicU64::new(0));
    let results: Arc<Mutex<Vec<Option<Result<u64, String>>>>> = Default::default();
    let mut left = vec![];
    let mut gens = vec![];
    let mut compared = 0;
    let mut handles = vec![];
    for (i, st) in steps.iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        match s(o, "a") {
            "call" => {
                let key = s(o, "k").to_string();
                results.lock().unwrap().push(None);
                left.push(false);
                gens.push(n(o, "g"));
                let idx = left.len() - 1;
                let (senders, productions, results, cache) =
                    (senders.clone(), productions.clone(), results.clone(), cache.clone());
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 10)
                        .spawn(move || {
                            let k2 = key.clone();
                            let r = quiet(|| {
                                cache.get_or_try_init(key, move || {
                                    let (tx, rx) = mpsc::channel();
                                    let g = {
                                        let mut m = senders.lock().unwrap();
                                        m.insert(k2, tx);
                                        productions.fetch_add(1, Ordering::SeqCst) + 1
                                    };
                                    match rx.recv() {
                                        Ok(Cmd::Ok(w)) => Ok((g, w)),
                                        Ok(Cmd::Err) | Err(_) => Err(format!("failed {g}")),
                                        Ok(Cmd::Panic) => panic!("planned producer failure"),
                                    }
                                })
                            });
                            let r = match r {
                                Ok(Ok(v)) => Ok(v.0),
                                Ok(Err(e)) => Err(e),
                                Err(p) => Err(p),
                            };
                            results.lock().unwrap()[idx] = Some(r);
                        })
                        .unwrap(),
                );
            }
            "finish" => {
                if let Some(tx) = senders.lock().unwrap().remove(s(o, "k")) {
                    let _ = tx.send(cmd(o));
                }
            }
            a => panic!("op {a}"),
        }
        // Wait for the code to reach the state the specification describes;
        // what has not been reached within the limit is a disagreement.
        let deadline = Instant::now() + Duration::from_secs(5);
        loop {
            let snap = cache.snapshot();
            let present: Vec<&str> = ["k1", "k2", "k3", "k4"].into_iter().filter(|k| cache.contains_key(&k.to_string())).collect();
            let got = json!({
                "calls": calls_json(&results.lock().unwrap(), &left, &gens),
                "cnt": snap_json(&snap), "entries": snap.entries, "weight": cache.retained_weight(), "present": present,
            });
            let bad = got.as_object().unwrap().iter().find(|(k, v)| &x[k.as_str()] != *v).map(|(k, v)| (k.clone(), v.clone()));
            let prods = productions.load(Ordering::SeqCst);
            let settled = bad.is_none() && prods == n(&x["cnt"], "producers");
            if settled {
                break;
            }
            if prods > n(&x["cnt"], "producers") || Instant::now() > deadline {
                let (k, v) = bad.unwrap_or(("producers run".into(), json!(prods)));
                // let the threads go
                senders.lock().unwrap().clear();
                return Err(json!({"step": i, "what": k, "spec": x[&k], "code": v, "op": o}));
            }
            std::thread::yield_now();
        }
        ctx.hit(s(o, "a"));
        compared += 1;
    }
    senders.lock().unwrap().clear();
    for h in handles {
        let _ = h.join();
    }
    Ok(compared)
}

/// Many real threads, few keys: at most one producer of a key at any moment,
/// everyone gets an outcome of a production that overlapped or preceded the
/// call, and a caller that has been told of a failure can retry at once.
pub fn stress(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let rounds = n(case, "rounds");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().unwrap();
    let plain: SingleFlightCache<u64, u64> = SingleFlightCache::default();
    let bounded: BoundedSingleFlightCache<u64, u64> = BoundedSingleFlightCache::new(2, 100, |_| 1);
    let which = s(case, "variant").to_string();
    let attempts = Arc::new(AtomicU64::new(0));
    let inflight = Arc::new(AtomicU64::new(0));
    let bad = Arc::new(Mutex::new(None::<Value>));
    let total = Arc::new(AtomicU64::new(0));
    rt.block_on(async {
        let mut hs = vec![];
        for _w in 0..4u64 {
            let (plain, bounded, which, attempts, inflight, bad, total) = (
                plain.clone(), bounded.clone(), which.clone(), attempts.clone(), inflight.clone(), bad.clone(), total.clone(),
            );
            hs.push(tokio::spawn(async move {
                let mut last_failed = 0u64;
                for _ in 0..rounds {
                    let (a2, i2, b2) = (attempts.clone(), inflight.clone(), bad.clone());
                    let producer = move || async move {
                        if i2.fetch_add(1, Ordering::SeqCst) != 0 {
                            *b2.lock().unwrap() = Some(json!({"what": "two producers of one key at once"}));
                        }
                        let a = a2.fetch_add(1, Ordering::SeqCst) + 1;
                        tokio::task::yield_now().await;
                        i2.fetch_sub(1, Ordering::SeqCst);
                        Err::<u64, String>(a.to_string())
                    };
                    let r = if which == "plain" {
                        plain.get_or_try_init(1, producer).await
                    } else {
                        bounded.get_or_try_init(1, producer).await
                    };
                    let e: u64 = r.unwrap_err().parse().unwrap_or(0);
                    // This call started after failure `last_failed` had been
                    // reported to this very caller, so it must not be served it.
                    if e <= last_failed {
                        *bad.lock().unwrap() = Some(json!({"what": "a failure already reported to the caller was served again without a new attempt", "attempt": e}));
                    }
                    last_failed = e;
                    total.fetch_add(1, Ordering::SeqCst);
                }
            }));
        }
        for h in hs {
            let _ = h.await;
        }
    });
    ctx.hit("stress");
    let b = bad.lock().unwrap().take();
    match b {
        Some(v) => Err(v),
        None => Ok(total.load(Ordering::SeqCst)),
    }
}
