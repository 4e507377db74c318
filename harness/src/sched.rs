//! Admission: the project scheduler and the resource governor, polled by hand
//! so that the specification decides which waiting task runs when.
use crate::driver::*;
use ruby_fast_lsp::indexing_resources::*;
use ruby_fast_lsp::indexing_scheduler::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tokio_util::sync::CancellationToken;

fn diff(step: usize, what: &str, want: impl serde::Serialize, got: impl serde::Serialize, o: &Value) -> Value {
    json!({"step": step, "what": what, "spec": want, "code": got, "op": o})
}

pub fn scheduler(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let steps = case["steps"].as_array().unwrap();
    if steps.is_empty() {
        return Ok(0);
    }
    let limit = n(&steps[0]["x"], "limit") as usize;
    let sched = IndexingScheduler::new(limit);
    let mut tasks: BTreeMap<u64, Task<Option<IndexingPermit>>> = BTreeMap::new();
    let mut permits: BTreeMap<u64, IndexingPermit> = BTreeMap::new();
    let mut tokens: BTreeMap<u64, CancellationToken> = BTreeMap::new();
    let mut compared = 0;
    for (i, st) in steps.iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        match s(o, "a") {
            "register" => {
                let id = n(o, "id");
                let prio = match n(o, "prio") {
                    1 => IndexingPriority::ActiveDocument,
                    2 => IndexingPriority::OpenDocument,
                    _ => IndexingPriority::Background,
                };
                let tok = CancellationToken::new();
                let adm = sched.register_cancellable(PathBuf::from(s(o, "root")), prio, tok.clone());
                tokens.insert(id, tok);
                tasks.insert(id, Task::new(adm.wait()));
            }
            "poll" => {
                let id = n(o, "id");
                let t = tasks.get_mut(&id).expect("task");
                let got = match t.poll() {
                    None => "pending",
                    Some(None) => {
                        tasks.remove(&id);
                        "cancelled"
                    }
                    Some(Some(p)) => {
                        tasks.remove(&id);
                        permits.insert(id, p);
                        "admitted"
                    }
                };
                ctx.hit(got);
                if got != s(o, "res") {
                    return Err(diff(i, "outcome of the waiting task", s(o, "res"), got, o));
                }
            }
            "release" => drop(permits.remove(&n(o, "id")).expect("permit")),
            "drop" => drop(tasks.remove(&n(o, "id")).expect("task")),
            "cancel" => tokens[&n(o, "id")].cancel(),
            "prioritize" => sched.prioritize_active_project(Path::new(s(o, "root"))),
            a => panic!("op {a}"),
        }
        let snap = sched.snapshot();
        let got = json!({
            "active": snap.active, "queued": snap.queued, "limit": snap.concurrency_limit,
            "focus": snap.active_project.as_ref().map(|p| p.display().to_string()).unwrap_or("none".into()),
            "reprio": snap.reprioritizations,
        });
        for (k, v) in got.as_object().unwrap() {
            if &x[k] != v {
                return Err(diff(i, k, &x[k], v, o));
            }
        }
        for id in x["mustwake"].as_array().unwrap() {
            let t = &tasks[&id.as_u64().unwrap()];
            if t.parked && !t.woken() {
                return Err(diff(i, "a waiting task that can proceed was not woken", id, "asleep", o));
            }
        }
        compared += 1;
    }
    Ok(compared)
}

enum Ctl {
    Complete,
    Panic,
}

/// The threads on which admitted blocking work runs.
fn workers() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).max_blocking_threads(512).build().unwrap())
}

/// Polls work on a thread until it has ended.
fn finish<T>(t: &mut Task<T>) -> Option<T> {
    let from = std::time::Instant::now();
    loop {
        if t.woken() {
            if let Some(r) = t.poll() {
                return Some(r);
            }
        }
        if from.elapsed().as_secs() > 20 {
            return None;
        }
        std::thread::sleep(std::time::Duration::from_micros(20));
    }
}

pub fn governor(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let steps = case["steps"].as_array().unwrap();
    let lim = &case["limits"];
    let gov = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(
        n(lim, "cpu") as usize,
        n(lim, "task") as usize,
        n(lim, "mem") as usize,
        n(lim, "io") as usize,
    ));
    let mut tasks: BTreeMap<u64, Task<Result<u64, String>>> = BTreeMap::new();
    let mut running: BTreeMap<u64, tokio::sync::oneshot::Sender<Ctl>> = BTreeMap::new();
    let mut started: BTreeMap<u64, Arc<std::sync::atomic::AtomicBool>> = BTreeMap::new();
    let mut tokens: BTreeMap<u64, CancellationToken> = BTreeMap::new();
    // Tickets whose work is on a thread of its own: what ends it, and the lanes it found there.
    let mut threads: BTreeMap<u64, (std::sync::mpsc::Sender<Ctl>, Arc<std::sync::atomic::AtomicUsize>, usize)> = BTreeMap::new();
    let _rt = steps.iter().any(|st| st["o"]["th"] == true).then(|| workers().enter());
    let mut compared = 0;
    for (i, st) in steps.iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        let a = s(o, "a");
        let mut settle = false;
        match a {
            "submit" | "poll" => {
                let id = n(o, "id");
                if a == "submit" {
                    let k = &o["k"];
                    let root = match s(k, "root") {
                        "none" => None,
                        r => Some(PathBuf::from(r)),
                    };
                    let prio = match n(k, "prio") {
                        1 => IndexingResourcePriority::ActiveDocument,
                        2 => IndexingResourcePriority::OpenDocument,
                        _ => IndexingResourcePriority::Background,
                    };
                    let mut spec = IndexingWorkSpec::new(root, prio, n(k, "cpu") as usize, n(k, "mem") as usize, n(k, "io") as usize);
                    if k["pp"].as_bool().unwrap() {
                        spec = spec.as_project_parallel();
                    }
                    let tok = CancellationToken::new();
                    if o["pre"].as_bool().unwrap() {
                        tok.cancel();
                    }
                    let (tx, rx) = tokio::sync::oneshot::channel::<Ctl>();
                    let flag = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let (g, f2, t2) = (gov.clone(), flag.clone(), tok.clone());
                    if o["th"] == true {
                        let (tx, rx) = std::sync::mpsc::channel::<Ctl>();
                        let (lanes, all, coop) = (spec.cpu_lanes(), gov.policy().cpu_lanes(), gov.policy().cooperative_parallel_cpu_lanes());
                        let mut ways = vec!["plain"];
                        if lanes == all {
                            ways.push("whole");
                        }
                        if lanes < all {
                            ways.push("part");
                        }
                        if lanes <= coop {
                            ways.push("coop");
                        }
                        let way = ways[(id as usize + i) % ways.len()];
                        ctx.hit(way);
                        let found = Arc::new(std::sync::atomic::AtomicUsize::new(0));
                        let n2 = found.clone();
                        threads.insert(id, (tx, found, if way == "plain" { 0 } else { lanes }));
                        let work = move || {
                            n2.store(rayon::current_num_threads(), std::sync::atomic::Ordering::SeqCst);
                            f2.store(true, std::sync::atomic::Ordering::SeqCst);
                            match rx.recv() {
                                Ok(Ctl::Panic) => std::panic::resume_unwind(Box::new("planned task failure")),
                                _ => id,
                            }
                        };
                        tasks.insert(
                            id,
                            Task::new(async move {
                                match way {
                                    "plain" => g.run_with_resources("vh", spec, Some(t2), work).await,
                                    "whole" => g.run_parallel_with_resources("vh", spec, Some(t2), work).await,
                                    "part" => g.run_partitioned_parallel_with_resources("vh", spec, Some(t2), work).await,
                                    _ => g.run_cooperative_parallel_with_resources("vh", spec, Some(t2), work).await,
                                }
                                .map_err(|e| e.to_string())
                            }),
                        );
                    } else {
                        tasks.insert(
                        id,
                        Task::new(async move {
                            g.run_async_with_resources("vh", spec, Some(t2), async move {
                                f2.store(true, std::sync::atomic::Ordering::SeqCst);
                                match rx.await {
                                    Ok(Ctl::Complete) => id,
                                    _ => panic!("planned task failure"),
                                }
                            })
                            .await
                            .map_err(|e| e.to_string())
                        }),
                    );
                    }
                    tokens.insert(id, tok);
                    running.insert(id, tx);
                    started.insert(id, flag);
                }
                let r = tasks.get_mut(&id).expect("task").poll();
                if let (Some((_, found, want)), "running", None) = (threads.get(&id), s(o, "res"), &r) {
                    let from = std::time::Instant::now();
                    while !started[&id].load(std::sync::atomic::Ordering::SeqCst) && from.elapsed().as_secs() < 20 {
                        std::thread::sleep(std::time::Duration::from_micros(20));
                    }
                    let found = found.load(std::sync::atomic::Ordering::SeqCst);
                    if *want > 0 && found != *want {
                        return Err(diff(i, "lanes of the pool the work runs on", want, found, o));
                    }
                }
                let got = match r {
                    Some(Ok(_)) => "completed",
                    Some(Err(_)) => {
                        tasks.remove(&id);
                        "cancelled"
                    }
                    None if started[&id].load(std::sync::atomic::Ordering::SeqCst) => "running",
                    None => "pending",
                };
                ctx.hit(got);
                if got != s(o, "res") {
                    return Err(diff(i, "outcome of the waiting task", s(o, "res"), got, o));
                }
            }
            "impossible" => {
                let (mut c, mut m, mut q) = (1usize, 1usize, 0usize);
                match s(o, "dim") {
                    "cpu" => c = n(lim, "cpu") as usize + 1,
                    "mem" => m = n(lim, "mem") as usize + 1,
                    _ => q = n(lim, "io") as usize + 1,
                }
                let g = gov.clone();
                let mut t = Task::new(async move {
                    g.run_async_with_resources(
                        "vh-impossible",
                        IndexingWorkSpec::new(None, IndexingResourcePriority::ActiveDocument, c, m, q),
                        None,
                        async {},
                    )
                    .await
                });
                let got = match quiet(|| t.poll()) {
                    Err(_) | Ok(Some(Err(_))) => "rejected",
                    Ok(Some(Ok(()))) => "ran",
                    Ok(None) => "queued",
                };
                std::mem::drop(t);
                if got != "rejected" {
                    return Err(diff(i, "request larger than the budget", "rejected", got, o));
                }
            }
            "complete" | "panic" if threads.contains_key(&n(o, "id")) => {
                let id = n(o, "id");
                let (tx, _, _) = threads.remove(&id).unwrap();
                let _ = tx.send(if a == "panic" { Ctl::Panic } else { Ctl::Complete });
                settle = true;
                if let Some(mut t) = tasks.remove(&id) {
                    let r = finish(&mut t);
                    let ok = match &r {
                        Some(Ok(v)) => a == "complete" && *v == id,
                        Some(Err(_)) => a == "panic",
                        None => false,
                    };
                    if !ok {
                        return Err(diff(i, "result of finished work", id, format!("{r:?}"), o));
                    }
                }
            }
            "complete" => {
                let id = n(o, "id");
                let _ = running.remove(&id).unwrap().send(Ctl::Complete);
                let r = tasks.get_mut(&id).unwrap().poll();
                tasks.remove(&id);
                if r != Some(Ok(id)) {
                    return Err(diff(i, "result of finished work", id, format!("{r:?}"), o));
                }
            }
            "panic" => {
                let id = n(o, "id");
                let _ = running.remove(&id).unwrap().send(Ctl::Panic);
                let mut t = tasks.remove(&id).unwrap();
                if quiet(|| t.poll()).is_ok() {
                    return Err(diff(i, "failed work", "propagates its panic", "swallowed", o));
                }
            }
            "leaverunning" | "droprunning" | "dropwaiter" => drop(tasks.remove(&n(o, "id")).unwrap()),
            "cancel" => tokens[&n(o, "id")].cancel(),
            "focus" => {
                let nav = o["nav"].as_bool().unwrap();
                if nav {
                    gov.prioritize_active_project_with_navigation_pending(Path::new(s(o, "root")), true)
                } else {
                    gov.prioritize_active_project(Path::new(s(o, "root")))
                }
            }
            "navpending" => gov.mark_project_navigation_pending_if_active(Path::new(s(o, "root"))),
            "navcomplete" => {
                if s(o, "how") == "call" {
                    gov.mark_project_navigation_complete_if_active(Path::new(s(o, "root")))
                } else {
                    drop(gov.project_navigation_reservation(PathBuf::from(s(o, "root"))))
                }
            }
            a => panic!("op {a}"),
        }
        let look = || -> Option<Value> {
        let p = gov.snapshot();
        let got = json!({
            "queued": p.queued_tasks, "task": p.active_tasks, "cpu": p.active_cpu_lanes,
            "mem": p.active_transient_memory_bytes, "io": p.active_io_slots,
            "focus": p.active_project.as_ref().map(|p| p.display().to_string()).unwrap_or("none".into()),
            "reprio": p.reprioritizations, "nav": p.active_project_navigation_pending,
            "done": p.completed_tasks, "panicked": p.panicked_tasks, "cbefore": p.cancelled_before_start,
            "cafter": p.cancelled_after_start,
            "peak": {"task": p.peak_active_tasks, "cpu": p.peak_active_cpu_lanes,
                     "mem": p.peak_active_transient_memory_bytes, "io": p.peak_active_io_slots},
            "lanes": {"/p/a": gov.project_parallel_cpu_lanes(Path::new("/p/a")),
                      "/p/b": gov.project_parallel_cpu_lanes(Path::new("/p/b"))},
        });
        for (k, v) in got.as_object().unwrap() {
            if x.get(k).is_some() && &x[k] != v {
                return Some(diff(i, k, &x[k], v, o));
            }
        }
        for id in x["mustwake"].as_array().unwrap() {
            let t = &tasks[&id.as_u64().unwrap()];
            if t.parked && !t.woken() {
                return Some(diff(i, "waiting work that fits the free budget was not woken", id, "asleep", o));
            }
        }
        None
        };
        let from = std::time::Instant::now();
        let mut bad = look();
        while settle && bad.is_some() && from.elapsed().as_secs() < 10 {
            std::thread::sleep(std::time::Duration::from_micros(50));
            bad = look();
        }
        if let Some(d) = bad {
            return Err(d);
        }
        compared += 1;
    }
    Ok(compared)
}
