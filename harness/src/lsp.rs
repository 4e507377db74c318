//! An editor session against the real server, in process: the case is a list
//! of protocol messages and file-system events, the outcome is the list of
//! answers. Paths in cases and answers are relative to the case's own
//! directory (written `$`).
use crate::driver::*;
use futures::StreamExt;
use ruby_fast_lsp::server::RubyLanguageServer;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tower_lsp::jsonrpc::Request;
use tower_lsp::lsp_types::*;
use tower_lsp::LspService;

type Seen = Arc<Mutex<BTreeMap<String, (u64, Value)>>>;

struct Session {
    service: LspService<RubyLanguageServer>,
    seen: Seen,
    base: PathBuf,
    next_id: i64,
    versions: BTreeMap<String, i32>,
}

fn url(base: &Path, rel: &str) -> Url {
    if rel.contains("://") {
        return Url::parse(rel).unwrap();
    }
    let p = base.join(rel);
    if rel.ends_with('/') || rel.is_empty() {
        Url::from_directory_path(p).unwrap()
    } else {
        Url::from_file_path(p).unwrap()
    }
}

impl Session {
    async fn new(base: &Path, init: &Value) -> Session {
        let (service, socket) = LspService::build(|client| RubyLanguageServer::new(client).expect("server"))
            .custom_method("ruby/namespaceTree", RubyLanguageServer::handle_namespace_tree_request)
            .custom_method("ruby-fast-lsp/debug/lookup", RubyLanguageServer::handle_debug_lookup)
            .custom_method("ruby-fast-lsp/debug/ancestors", RubyLanguageServer::handle_debug_ancestors)
            .custom_method("ruby-fast-lsp/debug/methods", RubyLanguageServer::handle_debug_methods)
            .custom_method("ruby/exportGraph", RubyLanguageServer::handle_export_graph)
            .custom_method("ruby-fast-lsp/indexing/status", RubyLanguageServer::handle_indexing_status)
            .finish();
        let seen: Seen = Default::default();
        let s2 = seen.clone();
        tokio::spawn(async move {
            let (mut rx, mut tx) = socket.split();
            while let Some(req) = rx.next().await {
                if req.method() == "textDocument/publishDiagnostics" {
                    let p = req.params().cloned().unwrap_or(Value::Null);
                    let mut m = s2.lock().unwrap();
                    let e = m.entry(p["uri"].as_str().unwrap_or("").to_string()).or_insert((0, Value::Null));
                    e.0 += 1;
                    e.1 = p["diagnostics"].clone();
                }
                if let Some(id) = req.id() {
                    use futures::SinkExt;
                    let _ = tx.send(tower_lsp::jsonrpc::Response::from_ok(id.clone(), Value::Null)).await;
                }
            }
        });
        let mut s = Session { service, seen, base: base.to_path_buf(), next_id: 0, versions: BTreeMap::new() };
        let mut params = json!({"capabilities": {}});
        if let Some(o) = init.as_object() {
            for (k, v) in o {
                params[k] = v.clone();
            }
        }
        s.request("initialize", params).await;
        s
    }

    async fn call(&mut self, req: Request) -> Value {
        use tower::Service;
        let fut = self.service.call(req);
        match fut.await {
            Ok(Some(r)) => match r.result() {
                Some(v) => v.clone(),
                None => json!({"error": r.error().map(|e| e.message.to_string())}),
            },
            Ok(None) => Value::Null,
            Err(_) => json!({"error": "exited"}),
        }
    }

    async fn request(&mut self, method: &str, params: Value) -> Value {
        self.next_id += 1;
        let r = Request::build(method.to_string()).params(params).id(self.next_id).finish();
        self.call(r).await
    }

    async fn notify(&mut self, method: &str, params: Value) {
        let r = Request::build(method.to_string()).params(params).finish();
        self.call(r).await;
    }

    fn url(&self, rel: &str) -> Url {
        url(&self.base, rel)
    }

    /// The handler of a notification, not yet run.
    fn handler(&mut self, st: &Value) -> Pin<Box<dyn Future<Output = ()> + Send>> {
        use tower::Service;
        let f = st["f"].as_str().unwrap_or("");
        let uri = self.url(f);
        let (m, p) = match st["op"].as_str().unwrap() {
            "open" => {
                self.versions.insert(f.to_string(), 1);
                ("didOpen", json!({"textDocument": {"uri": uri, "languageId": "ruby", "version": 1, "text": st["t"]}}))
            }
            "change" => {
                let v = self.versions.entry(f.to_string()).or_insert(1);
                *v += 1;
                let v = *v;
                ("didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": st["t"]}]}))
            }
            "save" => ("didSave", json!({"textDocument": {"uri": uri}})),
            "close" => ("didClose", json!({"textDocument": {"uri": uri}})),
            "watch" => {
                let changes = st["changes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| FileEvent { uri: url(&self.base, c[0].as_str().unwrap()), typ: typ(c[1].as_str().unwrap()) })
                    .collect();
                let server = self.server().clone();
                return Box::pin(async move {
                    let p = DidChangeWatchedFilesParams { changes };
                    ruby_fast_lsp::capabilities::indexing::handle_watched_files_changed(&server, p).await;
                });
            }
            "watchn" => {
                let changes: Vec<_> = st["changes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| FileEvent { uri: url(&self.base, c[0].as_str().unwrap()), typ: typ(c[1].as_str().unwrap()) })
                    .collect();
                let fut = self.service.call(Request::build("workspace/didChangeWatchedFiles").params(json!({"changes": changes})).finish());
                return Box::pin(async move {
                    let _ = fut.await;
                });
            }
            o => panic!("handler {o}"),
        };
        let fut = self.service.call(Request::build(format!("textDocument/{m}")).params(p).finish());
        Box::pin(async move {
            let _ = fut.await;
        })
    }

    fn server(&self) -> &RubyLanguageServer {
        self.service.inner()
    }
}

/// Replaces `$/x` strings by URIs in request parameters, and the reverse in
/// answers.
fn inflate(v: &mut Value, prefix: &str) {
    match v {
        Value::String(s) if s.starts_with("$/") => *s = format!("{prefix}{}", &s[1..]),
        Value::Array(a) => a.iter_mut().for_each(|x| inflate(x, prefix)),
        Value::Object(o) => o.values_mut().for_each(|x| inflate(x, prefix)),
        _ => {}
    }
}
fn deflate(v: Value, prefix: &str, path: &str) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace(prefix, "$").replace(path, "$")),
        Value::Array(a) => Value::Array(a.into_iter().map(|x| deflate(x, prefix, path)).collect()),
        Value::Object(o) => Value::Object(
            o.into_iter().map(|(k, x)| (k.replace(prefix, "$").replace(path, "$"), deflate(x, prefix, path))).collect(),
        ),
        v => v,
    }
}

fn write(base: &Path, rel: &str, text: &str) {
    let p = base.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

fn typ(k: &str) -> FileChangeType {
    match k {
        "created" => FileChangeType::CREATED,
        "deleted" => FileChangeType::DELETED,
        _ => FileChangeType::CHANGED,
    }
}

pub fn session(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let base = std::fs::canonicalize(ctx.dir()).unwrap();
    if let Some(files) = case["files"].as_object() {
        for (k, v) in files {
            write(&base, k, v.as_str().unwrap());
        }
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let answers = rt.block_on(run(case, &base));
    rt.shutdown_background();
    let _ = std::fs::remove_dir_all(&base);
    let n = answers.len() as u64;
    let prefix = Url::from_file_path(&base).unwrap().to_string();
    ctx.answers = Some(deflate(Value::Array(answers), &prefix, base.to_str().unwrap()));
    Ok(n)
}

/// Gives a handler up to `n` turns; what it hands to other threads may finish
/// in between. True once it is done.
async fn advance(h: &mut Pin<Box<dyn Future<Output = ()> + Send>>, n: u64) -> bool {
    for k in 0..n {
        if k > 0 {
            tokio::time::sleep(std::time::Duration::from_micros(300)).await;
        }
        if futures::poll!(h.as_mut()).is_ready() {
            return true;
        }
    }
    false
}

async fn settle(s: &Session) {
    // Let queued diagnostics reach the client side.
    for _ in 0..200 {
        tokio::task::yield_now().await;
    }
    let _ = s;
}

async fn run(case: &Value, base: &Path) -> Vec<Value> {
    let prefix = Url::from_file_path(base).unwrap().to_string();
    let mut init = case["init"].clone();
    inflate(&mut init, &prefix);
    let mut s = Session::new(base, &init).await;
    for r in case["roots"].as_array().into_iter().flatten() {
        let u = s.url(r.as_str().unwrap());
        s.server().add_workspace(u);
    }
    let mut out = vec![];
    let mut flight: BTreeMap<u64, Pin<Box<dyn Future<Output = ()> + Send>>> = BTreeMap::new();
    for st in case["steps"].as_array().unwrap() {
        let f = st["f"].as_str().unwrap_or("");
        let uri = s.url(f);
        match st["op"].as_str().unwrap() {
            "open" => {
                s.versions.insert(f.to_string(), 1);
                s.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "ruby", "version": 1, "text": st["t"]}})).await;
            }
            "change" => {
                let v = s.versions.entry(f.to_string()).or_insert(1);
                *v += 1;
                let v = *v;
                s.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": st["t"]}]})).await;
            }
            "save" => s.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}})).await,
            "close" => s.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}})).await,
            "write" => write(base, f, st["t"].as_str().unwrap()),
            "delete" => {
                let _ = std::fs::remove_file(base.join(f));
            }
            "watch" => {
                let changes = st["changes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| FileEvent { uri: url(base, c[0].as_str().unwrap()), typ: typ(c[1].as_str().unwrap()) })
                    .collect();
                let p = DidChangeWatchedFilesParams { changes };
                ruby_fast_lsp::capabilities::indexing::handle_watched_files_changed(s.server(), p).await;
            }
            "watchn" => {
                let changes: Vec<_> = st["changes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| FileEvent { uri: url(base, c[0].as_str().unwrap()), typ: typ(c[1].as_str().unwrap()) })
                    .collect();
                s.notify("workspace/didChangeWatchedFiles", json!({"changes": changes})).await;
            }
            // Handlers in flight together: started in order, advanced in turns.
            "start" => {
                let mut h = s.handler(&st["do"]);
                if !advance(&mut h, 1).await {
                    flight.insert(st["h"].as_u64().unwrap(), h);
                }
            }
            "advance" => {
                let k = st["h"].as_u64().unwrap();
                if let Some(mut h) = flight.remove(&k) {
                    if !advance(&mut h, st["n"].as_u64().unwrap_or(1)).await {
                        flight.insert(k, h);
                    }
                }
            }
            "elapse" => tokio::time::sleep(std::time::Duration::from_millis(110)).await,
            "settle" => {
                let all: Vec<_> = std::mem::take(&mut flight).into_values().collect();
                futures::future::join_all(all).await;
                settle(&s).await;
            }
            "index" => {
                let r = ruby_fast_lsp::capabilities::indexing::init_workspace(s.server(), uri).await;
                out.push(json!(r.is_ok()));
            }
            "addroot" => {
                s.server().add_workspace(uri);
            }
            "addfolder" => {
                s.server().add_workspace_folder(uri).expect("folder");
            }
            // the settings on which files belong to a project
            "policy" => {
                let list = |k: &str| st[k].as_array().into_iter().flatten().map(|g| g.as_str().unwrap().to_string()).collect();
                let mut c = s.server().config.lock();
                (c.indexing.included_patterns, c.indexing.excluded_patterns) = (list("inc"), list("exc"));
            }
            // The editor's folders change; waits until what was added is indexed.
            "folders" => {
                let list = |k: &str| -> Vec<Value> {
                    st[k].as_array().into_iter().flatten().map(|f| json!({"uri": s.url(f.as_str().unwrap()), "name": f})).collect()
                };
                let ev = json!({"event": {"added": list("add"), "removed": list("rm")}});
                let old = s.server().list_workspaces();
                s.notify("workspace/didChangeWorkspaceFolders", ev).await;
                let phase = |w: &ruby_fast_lsp::server::Workspace| json!(w.indexing_status.snapshot())["phase"].clone();
                let fresh = |w: &ruby_fast_lsp::server::Workspace| !old.iter().any(|o| Arc::ptr_eq(&o.indexing_status, &w.indexing_status));
                for _ in 0..60_000 {
                    if s.server().list_workspaces().iter().all(|w| !fresh(w) || ["ready", "failed", "cancelled"].iter().any(|p| phase(w) == *p)) {
                        break;
                    }
                    tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                }
                let got: Vec<Value> = s.server().list_workspaces().iter().filter(|w| fresh(w)).map(|w| json!([w.root_uri, phase(w)])).collect();
                out.push(json!(got));
                settle(&s).await;
            }
            "rmroot" => {
                s.server().remove_workspace(&uri);
            }
            "req" => {
                let mut p = st["p"].clone();
                inflate(&mut p, &prefix);
                out.push(s.request(st["m"].as_str().unwrap(), p).await);
            }
            // a request about the first item of the last answer
            "then" => {
                let item = out.last().and_then(|a: &Value| a.get(0)).cloned().unwrap_or(Value::Null);
                let a = if item.is_null() { Value::Null } else { s.request(st["m"].as_str().unwrap(), json!({"item": item})).await };
                let at = out.len();
                // keep the item answer last, so that several requests can follow it
                out.insert(at - 1, a);
            }
            "note" => {
                let mut p = st["p"].clone();
                inflate(&mut p, &prefix);
                s.notify(st["m"].as_str().unwrap(), p).await;
            }
            "diags" => {
                settle(&s).await;
                let m = s.seen.lock().unwrap().clone();
                out.push(Value::Object(m.into_iter().map(|(k, (_, v))| (k, v)).collect()));
            }
            "diagreset" => {
                settle(&s).await;
                s.seen.lock().unwrap().clear();
            }
            o => panic!("op {o}"),
        }
    }
    out
}
