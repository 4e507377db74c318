//! The on-disk cache of derived products.
use crate::driver::*;
use ruby_fast_lsp::persistent_cache::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const UNIT: u64 = 2000;

/// Keys that differ only in the module, or only in the compiler.
fn key(k: &str) -> CompiledWasmProductKey {
    match k {
        "k1" => CompiledWasmProductKey::new(b"\0asm module one", 7),
        "k2" => CompiledWasmProductKey::new(b"\0asm module one", 8),
        "k3" => CompiledWasmProductKey::new(b"\0asm module two", 7),
        "k4" => CompiledWasmProductKey::new(b"\0asm module one ", 7),
        other => CompiledWasmProductKey::new(other.as_bytes(), 9),
    }
}

/// Incompressible content that names its key and version.
pub fn artifact(k: &str, v: u64, len: u64) -> Vec<u8> {
    let mut out = format!("<{k} v{v}>").into_bytes();
    let mut x = v.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ k.bytes().fold(1u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    while (out.len() as u64) < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(len as usize);
    out
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else {
                out.push(p)
            }
        }
    }
}

/// The stored file of a product: the only non-lock file naming its identity.
fn file_of(root: &Path, k: &str) -> Option<PathBuf> {
    let id = key(k).cache_id().to_string();
    let mut all = vec![];
    walk(root, &mut all);
    all.into_iter().find(|p| {
        let n = p.to_string_lossy();
        n.contains(&id) && !n.ends_with(".lock") && !n.ends_with(".tmp")
    })
}

fn set_time(p: &Path, v: u64) {
    if let Ok(f) = std::fs::File::options().write(true).open(p) {
        let _ = f.set_modified(UNIX_EPOCH + Duration::from_secs(1_000_000_000 + v * 10));
    }
}

enum Look {
    Hit(Vec<u8>),
    Res(PersistentCompiledWasmReservation),
}

fn look(c: &PersistentDerivedProductCache, k: &str) -> Result<Look, String> {
    match c.lookup_compiled_wasm_or_reserve(&key(k)) {
        Ok(PersistentCompiledWasmLookup::Hit(b)) => Ok(Look::Hit(b.to_vec())),
        Ok(PersistentCompiledWasmLookup::Reservation(r)) => Ok(Look::Res(r)),
        Err(e) => Err(format!("{e:#}")),
    }
}

pub fn damage(bytes: &mut Vec<u8>, how: &str) {
    let l = bytes.len();
    match how {
        "truncate" => bytes.truncate(l / 2),
        "lastbyte" => bytes.truncate(l - 1),
        "empty" => bytes.clear(),
        "flip" => bytes[l / 2] ^= 1,
        "fliphead" => bytes[0] ^= 0x20,
        "fliplast" => bytes[l - 1] ^= 0x80,
        "grow" => bytes.push(0),
        "zero" => bytes.iter_mut().skip(l / 3).for_each(|b| *b = 0),
        other => panic!("damage {other}"),
    }
}

pub fn cache(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let dir = ctx.dir();
    let r = cache_in(case, ctx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn cache_in(case: &Value, ctx: &mut Ctx, root: &Path) -> Result<u64, Value> {
    let entries = n(case, "entries") as usize;
    let bytes = n(case, "bytes") * UNIT + UNIT - 1;
    let open = || PersistentDerivedProductCache::with_limits(root.to_path_buf(), entries, bytes);
    let mut procs: BTreeMap<u64, PersistentDerivedProductCache> = BTreeMap::new();
    let mut held: BTreeMap<(u64, String), PersistentCompiledWasmReservation> = BTreeMap::new();
    let mut waits: BTreeMap<String, std::thread::JoinHandle<Result<Look, String>>> = BTreeMap::new();
    // Versions of what was published: key -> (version, weight)
    let mut last: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let observer = open();
    let mut compared = 0;
    let expect_hit = |k: &str, v: u64, b: &[u8], last: &BTreeMap<String, (u64, u64)>| -> bool {
        last.get(k).is_some_and(|(lv, w)| *lv == v && b == artifact(k, v, w * UNIT))
    };
    for (i, st) in case["steps"].as_array().unwrap().iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        let k = o["k"].as_str().unwrap_or("");
        let p = o["p"].as_u64().unwrap_or(0);
        let fail = |what: String| Err(json!({"step": i, "op": o, "what": what}));
        if p > 0 {
            procs.entry(p).or_insert_with(open);
        }
        ctx.hit(s(o, "a"));
        let mut released = false;
        match s(o, "a") {
            "lookup" if s(o, "res") == "wait" => {
                let c = procs[&p].clone();
                let kk = k.to_string();
                let h = std::thread::spawn(move || look(&c, &kk));
                std::thread::sleep(Duration::from_millis(3));
                if h.is_finished() {
                    let got = match h.join() {
                        Ok(Ok(Look::Hit(_))) => "a product".to_string(),
                        Ok(Ok(Look::Res(_))) => "a second reservation".to_string(),
                        other => format!("{:?}", other.map(|r| r.err()).err().is_some()),
                    };
                    return fail(format!("a lookup did not wait for the producer that owns the key: got {got}"));
                }
                waits.insert(k.to_string(), h);
            }
            "lookup" => match (look(&procs[&p], k), s(o, "res")) {
                (Err(e), _) => return fail(format!("lookup failed: {e}")),
                (Ok(Look::Hit(b)), "hit") => {
                    if !expect_hit(k, n(o, "v"), &b, &last) {
                        return fail(format!("hit returned other bytes than were published: {:?}", String::from_utf8_lossy(&b[..b.len().min(16)])));
                    }
                }
                (Ok(Look::Res(r)), "reserve") => {
                    held.insert((p, k.to_string()), r);
                }
                (Ok(Look::Hit(b)), w) => return fail(format!("expected {w}, got a hit: {:?}", String::from_utf8_lossy(&b[..b.len().min(16)]))),
                (Ok(Look::Res(_)), w) => return fail(format!("expected {w}, got a reservation")),
            },
            "publish" => {
                let r = held.remove(&(p, k.to_string())).expect("held");
                let (v, w) = (n(o, "v"), n(o, "w"));
                let res = r.publish(&key(k), &artifact(k, v, w * UNIT));
                if let Err(e) = res {
                    return fail(format!("publication failed: {e:#}"));
                }
                last.insert(k.to_string(), (v, w));
                if let Some(f) = file_of(root, k) {
                    set_time(&f, v);
                }
                released = true;
            }
            "wrongpublish" => {
                let r = held.remove(&(p, k.to_string())).expect("held");
                if r.publish(&key(s(o, "other")), &artifact(s(o, "other"), 999, UNIT)).is_ok() {
                    return fail("a product of another identity was published".into());
                }
                released = true;
            }
            "drop" => {
                drop(held.remove(&(p, k.to_string())).expect("held"));
                released = true;
            }
            "damage" | "swap" => {
                let Some(f) = file_of(root, k) else { return fail("the product's file is gone".into()) };
                let t = std::fs::metadata(&f).and_then(|m| m.modified()).unwrap_or(SystemTime::now());
                let mut b = std::fs::read(&f).unwrap();
                if s(o, "a") == "swap" {
                    let Some(g) = file_of(root, s(o, "other")) else { return fail("the product's file is gone".into()) };
                    b = std::fs::read(g).unwrap();
                } else {
                    damage(&mut b, s(o, "how"));
                }
                std::fs::write(&f, b).unwrap();
                let _ = std::fs::File::options().write(true).open(&f).and_then(|h| h.set_modified(t));
            }
            "invalidate" => match procs[&p].invalidate_compiled_wasm(&key(k)) {
                Ok(b) if b == o["res"].as_bool().unwrap() => {}
                other => return fail(format!("invalidate: {other:?}")),
            },
            "clear" => match procs[&p].clear() {
                Ok(sm) if sm.entries as u64 == n(o, "res") => {}
                other => return fail(format!("clear: {other:?}")),
            },
            "restart" => {
                held.retain(|(q, _), _| *q != p);
                procs.remove(&p);
            }
            a => panic!("op {a}"),
        }
        if released && s(&o["woken"], "res") != "none" {
            let h = waits.remove(k).expect("waiter");
            let wp = n(&o["woken"], "p");
            match (h.join().unwrap_or(Err("panic".into())), s(&o["woken"], "res")) {
                (Ok(Look::Hit(b)), "hit") if expect_hit(k, n(&o["woken"], "v"), &b, &last) => {}
                (Ok(Look::Res(r)), "reserve") => {
                    held.insert((wp, k.to_string()), r);
                }
                (Ok(Look::Hit(_)), w) => return fail(format!("the waiting lookup should get {w}, got a hit")),
                (Ok(Look::Res(_)), w) => return fail(format!("the waiting lookup should get {w}, got a reservation")),
                (Err(e), w) => return fail(format!("the waiting lookup should get {w}, failed: {e}")),
            }
        }
        match observer.summary() {
            Ok(sm) if sm.entries as u64 == n(x, "entries") => {}
            other => return fail(format!("stored entries: expected {}, got {other:?}", x["entries"])),
        }
        compared += 1;
    }
    drop(held);
    for (_, h) in waits {
        if let Ok(Ok(Look::Res(r))) = h.join() {
            drop(r);
        }
    }
    let mut all = vec![];
    walk(root, &mut all);
    if let Some(t) = all.iter().find(|p| p.to_string_lossy().ends_with(".tmp")) {
        return Err(json!({"what": "a temporary file was left behind", "file": t.to_string_lossy()}));
    }
    Ok(compared)
}

/// Every single damaged byte (and every truncation) of a stored product: the
/// product is served unchanged or not at all.
pub fn bytes(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let root = ctx.dir();
    let c = PersistentDerivedProductCache::with_limits(root.clone(), 10, 1 << 30);
    let want = artifact("k1", 1, n(case, "len"));
    let put = |c: &PersistentDerivedProductCache| -> Result<(), Value> {
        match look(c, "k1") {
            Ok(Look::Res(r)) => r.publish(&key("k1"), &want).map_err(|e| json!({"what": format!("{e:#}")})),
            Ok(Look::Hit(_)) => Ok(()),
            Err(e) => Err(json!({"what": e})),
        }
    };
    put(&c)?;
    let f = file_of(&root, "k1").ok_or(json!({"what": "no file"}))?;
    let orig = std::fs::read(&f).unwrap();
    let (part, parts) = (n(case, "part") as usize, n(case, "parts") as usize);
    let mut done = 0;
    for at in (part..orig.len()).step_by(parts) {
        let masks: Vec<Option<u8>> = vec![Some(1), Some(0x80), Some(0xff), None];
        for m in masks {
            let mut b = orig.clone();
            match m {
                Some(m) => b[at] ^= m,
                None => b.truncate(at),
            }
            std::fs::write(&f, &b).unwrap();
            match look(&c, "k1") {
                Ok(Look::Hit(g)) => {
                    ctx.hit("served");
                    if g != want {
                        return Err(json!({"what": "a damaged product was served", "byte": at, "mask": m}));
                    }
                }
                Ok(Look::Res(r)) => {
                    ctx.hit("missed");
                    drop(r)
                }
                Err(e) => return Err(json!({"what": "a damaged product makes lookups fail", "byte": at, "error": e})),
            }
            done += 1;
        }
    }
    put(&c)?;
    match look(&c, "k1") {
        Ok(Look::Hit(g)) if g == want => {}
        _ => return Err(json!({"what": "republication after damage is not served"})),
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(done)
}

/// Child: publishes one product, to be killed on the way.
pub fn child(args: &[String]) {
    let c = PersistentDerivedProductCache::with_limits(PathBuf::from(&args[0]), 10, 1 << 30);
    match look(&c, &args[1]) {
        Ok(Look::Res(r)) => {
            let v: u64 = args[2].parse().unwrap();
            let a = artifact(&args[1], v, args[3].parse().unwrap());
            unsafe { std::env::set_var("VH_CRASH_ARMED", "1") };
            r.publish(&key(&args[1]), &a).unwrap();
            std::process::exit(10);
        }
        Ok(Look::Hit(_)) => std::process::exit(11),
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(12)
        }
    }
}

/// A publisher killed at its Nth file-system call: everything or nothing of the
/// product is there afterwards, other products are untouched, and the cache
/// goes on working at once (no lock outlives its owner).
pub fn crash(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    use std::os::unix::process::ExitStatusExt;
    let root = ctx.dir();
    let exe = std::env::current_exe().unwrap();
    let shim = std::env::var("VH_SHIM").expect("VH_SHIM");
    let len = n(case, "len");
    let c = PersistentDerivedProductCache::with_limits(root.clone(), 10, 1 << 30);
    if let Ok(Look::Res(r)) = look(&c, "k2") {
        r.publish(&key("k2"), &artifact("k2", 5, UNIT)).map_err(|e| json!({"what": format!("{e:#}")}))?;
    }
    let st = std::process::Command::new(&exe)
        .args(["cache_child", root.to_str().unwrap(), "k1", "1", &len.to_string()])
        .env("LD_PRELOAD", &shim)
        .env("VH_CRASH_AT", n(case, "at").to_string())
        .env("VH_CRASH_TORN", if case["torn"].as_bool().unwrap() { "1" } else { "0" })
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| json!({"what": e.to_string()}))?;
    match (st.code(), st.signal()) {
        (Some(10), _) => ctx.hit("completed"),
        (_, Some(9)) => ctx.hit("killed"),
        other => return Err(json!({"what": "the publisher failed by itself", "status": format!("{other:?}")})),
    }
    let t = std::time::Instant::now();
    for (inst, c) in [("running", c.clone()), ("fresh", PersistentDerivedProductCache::with_limits(root.clone(), 10, 1 << 30))] {
        match look(&c, "k2") {
            Ok(Look::Hit(b)) if b == artifact("k2", 5, UNIT) => {}
            _ => return Err(json!({"what": "another product was lost or changed", "instance": inst})),
        }
        match look(&c, "k1") {
            Ok(Look::Hit(b)) if b == artifact("k1", 1, len) => ctx.hit("after: whole"),
            Ok(Look::Hit(_)) => return Err(json!({"what": "a torn product is served after a crash"})),
            Ok(Look::Res(r)) => {
                if st.code() == Some(10) {
                    return Err(json!({"what": "a published product is gone"}));
                }
                ctx.hit("after: nothing");
                drop(r)
            }
            Err(e) => return Err(json!({"what": "the cache stopped working after a crash", "error": e})),
        }
    }
    if let Ok(Look::Res(r)) = look(&c, "k1") {
        r.publish(&key("k1"), &artifact("k1", 2, len)).map_err(|e| json!({"what": format!("publication after a crash: {e:#}")}))?;
        match look(&c, "k1") {
            Ok(Look::Hit(b)) if b == artifact("k1", 2, len) => {}
            _ => return Err(json!({"what": "publication after a crash is not served"})),
        }
    }
    if t.elapsed() > Duration::from_secs(60) {
        return Err(json!({"what": "a dead owner's lock blocked the cache", "seconds": t.elapsed().as_secs()}));
    }
    match c.clear() {
        Ok(_) => {}
        Err(e) => return Err(json!({"what": format!("clear: {e:#}")})),
    }
    let mut all = vec![];
    walk(&root, &mut all);
    if all.iter().any(|p| !p.to_string_lossy().ends_with(".lock")) {
        return Err(json!({"what": "clearing left files behind", "files": format!("{all:?}")}));
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(1)
}
