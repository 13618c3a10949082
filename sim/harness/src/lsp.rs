//! The simulated editor: a reader and a writer task per connection, a request log, answers to the
//! server's own requests, file-watch registrations, and the protocol checks made while a run proceeds.
use crate::model::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::sync::Monitor;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Caps {
    pub encodings: Vec<Enc>,
    pub no_general: bool,
    pub progress: bool,
    pub status: bool,
    pub refresh_diag: bool,
    pub refresh_sem: bool,
    pub refresh_lens: bool,
    pub refresh_inlay: bool,
    pub watch_dynamic: bool,
    pub watch_relative: bool,
    pub location_link: bool,
    pub hierarchical: bool,
    pub ca_literals: bool,
    pub ca_resolve: bool,
    pub inlay_resolve: bool,
    pub document_changes: bool,
    pub completion_resolve: bool,
    pub label_details: bool,
    pub snippets: bool,
    pub commands: bool,
    pub server_logs: bool,
    #[serde(default)]
    pub insert_replace: bool,
    #[serde(default)]
    pub sig_offsets: bool,
}
impl Caps {
    pub fn vscode() -> Caps { Caps { encodings: vec![Enc::Utf16], no_general: false, progress: true, status: true, refresh_diag: true, refresh_sem: true, refresh_lens: true, refresh_inlay: true, watch_dynamic: true, watch_relative: true, location_link: true, hierarchical: true, ca_literals: true, ca_resolve: true, inlay_resolve: true, document_changes: true, completion_resolve: true, label_details: true, snippets: true, commands: true, server_logs: true, insert_replace: true, sig_offsets: true } }
    pub fn enc(&self) -> Enc { if self.no_general { return Enc::Utf16; } self.encodings.iter().copied().find(|e| *e != Enc::Utf16).unwrap_or(Enc::Utf16) }
    pub fn json(&self) -> Value {
        let mut c = json!({
            "workspace": {
                "applyEdit": true, "configuration": true, "workspaceFolders": true,
                "workspaceEdit": {"documentChanges": self.document_changes, "resourceOperations": ["create", "rename", "delete"]},
                "didChangeConfiguration": {"dynamicRegistration": true},
                "didChangeWatchedFiles": {"dynamicRegistration": self.watch_dynamic, "relativePatternSupport": self.watch_relative},
                "semanticTokens": {"refreshSupport": self.refresh_sem},
                "codeLens": {"refreshSupport": self.refresh_lens},
                "inlayHint": {"refreshSupport": self.refresh_inlay},
                "diagnostics": {"refreshSupport": self.refresh_diag}
            },
            "textDocument": {
                "synchronization": {"dynamicRegistration": true, "willSave": true, "didSave": true},
                "completion": {"completionItem": {"snippetSupport": self.snippets, "labelDetailsSupport": self.label_details}},
                "definition": {"linkSupport": self.location_link},
                "documentSymbol": {"hierarchicalDocumentSymbolSupport": self.hierarchical},
                "codeAction": {"dynamicRegistration": true},
                "hover": {"contentFormat": ["markdown", "plaintext"]},
                "inlayHint": {"dynamicRegistration": true},
                "diagnostic": {"dynamicRegistration": true, "relatedDocumentSupport": false},
                "semanticTokens": {"requests": {"full": true, "range": true}, "tokenTypes": [], "tokenModifiers": [], "formats": ["relative"]}
            },
            "window": {"workDoneProgress": self.progress},
            "experimental": {"serverStatusNotification": self.status, "openServerLogs": self.server_logs}
        });
        if !self.no_general { c["general"] = json!({"positionEncodings": self.encodings.iter().map(|e| e.name()).collect::<Vec<_>>()}); }
        if self.ca_literals { c["textDocument"]["codeAction"]["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": ["", "quickfix", "refactor", "source"]}}); }
        if self.ca_resolve { c["textDocument"]["codeAction"]["resolveSupport"] = json!({"properties": ["edit"]}); c["textDocument"]["codeAction"]["dataSupport"] = json!(true); }
        if self.inlay_resolve { c["textDocument"]["inlayHint"]["resolveSupport"] = json!({"properties": ["tooltip", "textEdits", "label.tooltip", "label.location", "label.command"]}); }
        if self.completion_resolve { c["textDocument"]["completion"]["completionItem"]["resolveSupport"] = json!({"properties": ["documentation", "detail", "additionalTextEdits"]}); }
        if self.insert_replace { c["textDocument"]["completion"]["completionItem"]["insertReplaceSupport"] = json!(true); }
        if self.sig_offsets { c["textDocument"]["signatureHelp"] = json!({"signatureInformation": {"parameterInformation": {"labelOffsetSupport": true}}}); }
        if self.commands { c["experimental"]["commands"] = json!({"commands": ["move-on-aptos.runTest", "move-on-aptos.debugTest", "move-on-aptos.debugTransaction", "move-on-aptos.showReferences", "move-on-aptos.gotoLocation"]}); }
        c
    }
}

/// how the client treats the server's own requests
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct ClientSpec {
    /// simulated microseconds before a server request is answered
    pub reply_delay_us: u64,
    /// answer every n-th server request with an error (0: never)
    pub reply_error_every: u64,
    /// re-request views when told to (C16)
    pub pull: bool,
    /// the writer pauses this long before every message
    pub write_delay_us: u64,
    /// the reader pauses this long before every message
    pub read_delay_us: u64,
    /// every n-th answer to a server request is sent twice (0: never)
    #[serde(default)] pub dup_reply_every: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation { pub props: Vec<String>, pub kind: String, pub msg: String }

#[derive(Clone, Debug)]
pub struct Pending { pub method: String, pub params: Value, pub sent: u64, pub at_ns: u64, pub state: usize, pub loaded: bool }
#[derive(Clone, Debug)]
pub struct Answer { pub req: Pending, pub at: u64, pub at_ns: u64, pub state: usize, pub result: Value, pub error: Option<Value>, pub after_shutdown: bool }
impl Answer { pub fn code(&self) -> i64 { self.error.as_ref().map_or(0, |e| e["code"].as_i64().unwrap_or(0)) } }

#[derive(Clone, Debug)]
pub struct LogEntry { pub n: u64, pub now: u64, pub from_server: bool, pub msg: Value }

#[derive(Default)]
pub struct St {
    pub n: u64,
    pub next_id: i64,
    pub log: Vec<LogEntry>,
    pub pending: BTreeMap<String, Pending>,
    pub answers: BTreeMap<String, Answer>,
    pub extra: BTreeMap<String, u64>, pub violations: Vec<Violation>,
    pub config_answer: Value,
    /// what the server promised in the handshake
    pub server_caps: Value,
    pub config_queries: u64,
    pub statuses: Vec<Value>,
    pub messages: Vec<Value>,
    /// token -> (created and not begun, running)
    pub progress: BTreeMap<String, (u32, u32)>,
    pub progress_seen: u64,
    /// changes nobody asked to be told about when they happened: path, type, time
    pub missed: Vec<(String, u32, u64)>,
    pub watchers: Vec<(String, String)>, // (base or "", pattern)
    pub registrations: u64,
    pub refreshes: BTreeMap<String, u64>,
    pub server_ids: BTreeSet<String>,
    pub server_requests: u64,
    pub replies: u64,
    /// identifiers the client cancelled
    pub cancels: BTreeSet<String>,
    pub movefmt_notices: u64,
    pub other_notes: Vec<String>,
    /// number of state changes handed to the server so far
    pub state: usize,
    pub loaded: bool,
    pub pull_due: BTreeSet<(String, String)>,
    pub views: BTreeMap<(String, String), Value>,
    pub pull_ids: BTreeMap<String, (String, String)>,
    pub latest_pull: BTreeMap<(String, String), String>,
    pub effective_config: Option<Value>,
    pub eof: bool,
    pub open: BTreeSet<String>,
    pub view_lines: BTreeMap<String, u32>,
    pub shutdown_sent: bool,
    pub initialized: bool,
    pub malformed_sent: bool,
    pub stall_us: u64,
}
#[derive(Default)]
struct Out { q: VecDeque<Value>, closed: bool, written: u64 }
pub struct Inner { out: Monitor<Out>, pub st: Monitor<St>, pub caps: Caps, pub spec: ClientSpec }
#[derive(Clone)]
pub struct Client { pub i: Arc<Inner> }

pub const RETRIGGER: i64 = -32802;
pub const MODIFIED: i64 = -32801;
/// every third identifier is a string, some of those look like numbers
pub fn id_value(id: i64) -> Value { if id % 6 == 0 { json!(id.to_string()) } else if id % 3 == 0 { json!(format!("r{id}")) } else { json!(id) } }
pub const CANCELLED: i64 = -32800;

impl Client {
    pub fn start(conn: lsp_server::Connection, caps: Caps, spec: ClientSpec) -> Client {
        let c = Client { i: Arc::new(Inner { out: Monitor::default(), st: Monitor::default(), caps, spec }) };
        let lsp_server::Connection { sender, receiver } = conn;
        let w = c.clone();
        simrt::spawn("client-writer", move || {
            loop {
                let m = w.i.out.wait("client-outbox", None, |o| o.closed || !o.q.is_empty(), |o| o.q.pop_front()).unwrap();
                let Some(m) = m else { break };
                if w.i.spec.write_delay_us > 0 { simrt::sleep(Duration::from_micros(w.i.spec.write_delay_us)); }
                let msg: lsp_server::Message = match to_message(&m) { Some(m) => m, None => continue };
                if sender.send(msg).is_err() { break; }
                w.i.out.with(|o| o.written += 1);
            }
        });
        let r = c.clone();
        simrt::spawn("client-reader", move || {
            loop {
                match receiver.recv() {
                    Ok(m) => {
                        if r.i.spec.read_delay_us > 0 { simrt::sleep(Duration::from_micros(r.i.spec.read_delay_us)); }
                        r.on_message(serde_json::to_value(&m).unwrap())
                    }
                    Err(_) => { r.i.st.with(|s| s.eof = true); break }
                }
            }
        });
        c
    }
    pub fn count(&self, what: &str, n: u64) { self.i.st.with(|s| *s.extra.entry(what.into()).or_insert(0) += n); }
    pub fn violation(&self, props: &[&str], kind: &str, msg: String) {
        self.i.st.with(|s| s.violations.push(Violation { props: props.iter().map(|p| p.to_string()).collect(), kind: kind.into(), msg }));
    }
    fn push(&self, v: Value) {
        simrt::note(|| format!("client -> {}", brief(&v)));
        self.i.st.with(|s| { s.n += 1; if v["method"] == "$/cancelRequest" { s.cancels.insert(v["params"]["id"].to_string()); } let e = LogEntry { n: s.n, now: simrt::now(), from_server: false, msg: v.clone() }; s.log.push(e); });
        self.i.out.with(|o| o.q.push_back(v));
        simrt::yield_point("client-send");
    }
    /// everything written so far has been taken by the transport
    pub fn flushed(&self) -> bool { self.i.out.with(|o| o.q.is_empty()) }
    pub fn close(&self) { self.i.out.with(|o| o.closed = true); }
    pub fn notify(&self, method: &str, params: Value) { self.push(json!({"method": method, "params": params})); }
    /// a notification that changes what the server's answers describe
    pub fn notify_state(&self, method: &str, params: Value) { self.i.st.with(|s| s.state += 1); self.notify(method, params); }
    pub fn raw(&self, v: Value) {
        if let Some(id) = v.get("id") { if v.get("method").is_some() { let (m, p) = (v["method"].as_str().unwrap_or("").to_string(), v["params"].clone()); self.i.st.with(|s| { let pe = Pending { method: m, params: p, sent: s.n + 1, at_ns: simrt::now(), state: s.state, loaded: s.loaded }; s.pending.insert(id.to_string(), pe); }); } }
        self.push(v);
    }
    pub fn request(&self, method: &str, params: Value) -> String {
        let id = self.i.st.with(|s| { s.next_id += 1; s.next_id });
        let idv = id_value(id);
        let mut v = json!({"id": idv, "method": method});
        if !params.is_null() { v["params"] = params; }
        self.raw(v);
        idv.to_string()
    }
    pub fn cancel(&self, id: &str) { let v: Value = serde_json::from_str(id).unwrap(); self.notify("$/cancelRequest", json!({"id": v})); }
    pub fn answer(&self, id: &str) -> Option<Answer> { self.i.st.with(|s| s.answers.get(id).cloned()) }
    /// waits for an answer for up to `d` of simulated time
    pub fn wait(&self, id: &str, d: Duration) -> Option<Answer> {
        self.i.st.wait("client-await", Some(d), |s| s.answers.contains_key(id) || s.eof, |s| s.answers.get(id).cloned()).flatten()
    }
    /// waits until nothing in the system can make progress any more
    pub fn settle(&self) { simrt::wait_idle(Duration::from_secs(200)); }
    /// request at rest, following refusals that ask for a retry
    pub fn ask(&self, method: &str, params: Value) -> Answer {
        let mut last = None;
        for _ in 0..4 {
            let id = self.request(method, params.clone());
            match self.wait(&id, Duration::from_secs(120)) {
                Some(a) => { if a.code() != RETRIGGER && a.code() != MODIFIED { return a; } last = Some(a); self.settle(); }
                None => return Answer { req: Pending { method: method.into(), params: params.clone(), sent: 0, at_ns: 0, state: 0, loaded: true }, at: 0, at_ns: 0, state: 0, result: Value::Null, error: Some(json!({"code": -1, "message": "no answer"})), after_shutdown: false },
            }
        }
        last.unwrap()
    }
    pub fn reply(&self, id: Value, result: Result<Value, Value>) {
        self.i.st.with(|s| { s.server_ids.remove(&id.to_string()); });
        let v = match result { Ok(r) => json!({"id": id, "result": r}), Err(e) => json!({"id": id, "error": e}) };
        let every = self.i.spec.dup_reply_every;
        let twice = every > 0 && self.i.st.with(|s| { s.replies += 1; s.replies % every == 0 });
        self.push(v.clone());
        if twice { self.push(v); }
    }
    fn reply_later(&self, id: Value, result: Value) {
        let n = self.i.st.with(|s| { s.server_requests += 1; s.server_requests });
        let sp = &self.i.spec;
        let r = if sp.reply_error_every > 0 && n % sp.reply_error_every == 0 { Err(json!({"code": -32603, "message": "client refused"})) } else { Ok(result) };
        // settings are read when the answer is sent
        fn fill(c: &Client, r: Result<Value, Value>) -> Result<Value, Value> {
            if r != Ok(json!("configuration")) { return r; }
            Ok(c.i.st.with(|s| { let v = s.config_answer.clone(); if v[0].as_object().is_some_and(|o| !o.is_empty()) { s.effective_config = Some(v[0].clone()); } v }))
        }
        let extra = self.i.st.with(|s| s.stall_us);
        let base = sp.reply_delay_us + extra;
        if base == 0 { let _np = simrt::no_preempt(); let r = fill(self, r); self.reply(id, r); return; }
        let c = self.clone();
        let d = Duration::from_micros(base + (n * 7919) % (base + 1));
        simrt::spawn("client-late-reply", move || { simrt::sleep(d); let _np = simrt::no_preempt(); let r = fill(&c, r); c.reply(id, r); });
    }
    fn on_message(&self, v: Value) {
        simrt::note(|| format!("client <- {}", brief(&v)));
        self.i.st.with(|s| { s.n += 1; let e = LogEntry { n: s.n, now: simrt::now(), from_server: true, msg: v.clone() }; s.log.push(e); });
        let method = v.get("method").and_then(|m| m.as_str()).map(|s| s.to_string());
        match (v.get("id").cloned(), method) {
            (Some(id), None) => self.on_response(id, v),
            (Some(id), Some(m)) => self.on_server_request(id, &m, v["params"].clone()),
            (None, Some(m)) => self.on_notification(&m, v["params"].clone()),
            (None, None) => self.violation(&["C01"], "protocol", format!("message that is neither request, response nor notification: {v}")),
        }
    }
    fn on_response(&self, id: Value, v: Value) {
        let key = id.to_string();
        let (res, err) = (v.get("result").cloned(), v.get("error").cloned());
        let got = self.i.st.with(|s| match s.pending.remove(&key) {
            Some(req) => { let a = Answer { req, at: s.n, at_ns: simrt::now(), state: s.state, result: res.clone().unwrap_or(Value::Null), error: err.clone(), after_shutdown: s.shutdown_sent }; s.answers.insert(key.clone(), a.clone()); Ok(a) }
            None => Err(s.answers.get(&key).map(|a| a.req.method.clone())),
        });
        match got {
            Err(Some(m)) => { self.violation(&["C01"], "double-answer", format!("second response for request {key} ({m}): {}", brief(&v))); return }
            Err(None) => { self.violation(&["C01"], "stray-answer", format!("response for an id that was never requested: {}", brief(&v))); return }
            Ok(a) => {
                if a.code() == CANCELLED && !self.i.st.with(|s| s.cancels.contains(&key)) { self.violation(&["C01", "C13"], "uncancelled", format!("{} {key}: cancelled although the client never asked for that", a.req.method)); }
                if res.is_some() == err.is_some() { self.violation(&["C01"], "malformed-answer", format!("{} answered with {}", a.req.method, brief(&v))); }
                if a.code() == -32601 && advertised(&self.i.st.with(|s| s.server_caps.clone()), &a.req.method) { self.violation(&["C18"], "advertised", format!("{} is advertised but not served: {}", a.req.method, brief(&v))); }
                if a.error.is_none() { if let Some(b) = undeclared(&self.i.caps, &a.req.method, &a.result) { self.violation(&["C18"], "undeclared", format!("{} answered with {b}, the client did not declare support for that: {}", a.req.method, brief(&a.result))); } }
                if let Some(k) = self.i.st.with(|s| s.pull_ids.remove(&key).filter(|k| s.latest_pull.get(k) == Some(&key))) {
                    match a.code() {
                        0 => self.i.st.with(|s| { s.views.insert(k, a.result); }),
                        RETRIGGER if a.error.as_ref().unwrap()["data"]["retriggerRequest"] == json!(true) => {
                            let c = self.clone();
                            simrt::spawn("client-retrigger", move || { simrt::sleep(Duration::from_millis(5)); c.pull(k); });
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    /// (re-)requests one displayed view
    pub fn pull(&self, k: (String, String)) {
        if self.i.st.with(|s| !s.open.contains(&k.1) || s.shutdown_sent) { return; }
        let u = uri(&k.1);
        let p = match k.0.as_str() {
            "textDocument/inlayHint" => json!({"textDocument": {"uri": u}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}}),
            _ => json!({"textDocument": {"uri": u}}),
        };
        let _n = simrt::no_preempt();
        let id = self.i.st.with(|s| s.next_id + 1);
        let idk = id_value(id).to_string();
        self.i.st.with(|s| { s.latest_pull.insert(k.clone(), idk.clone()); s.pull_ids.insert(idk, k.clone()); });
        let p = if k.0 == "textDocument/inlayHint" { let mut p = p; p["range"]["end"] = json!({"line": self.i.st.with(|s| s.view_lines.get(&k.1).copied().unwrap_or(0)), "character": 0}); p } else { p };
        self.request(&k.0, p);
    }
    pub fn pull_all(&self, method: &str) { for p in self.i.st.with(|s| s.open.iter().cloned().collect::<Vec<_>>()) { self.pull((method.to_string(), p)); } }
    fn on_server_request(&self, id: Value, m: &str, p: Value) {
        let caps = &self.i.caps;
        let fresh = self.i.st.with(|s| s.server_ids.insert(id.to_string()));
        if !fresh { self.violation(&["C18"], "id-reuse", format!("server request id {id} used while pending ({m})")); }
        let gate = |ok: bool| if !ok { self.violation(&["C18"], "undeclared", format!("server sent {m} but the client did not declare the capability")); };
        let refresh = |ok: bool, view: &str| {
            gate(ok);
            self.i.st.with(|s| *s.refreshes.entry(m.to_string()).or_insert(0) += 1);
            if self.i.spec.pull { self.pull_all(view); }
        };
        let mut result = Value::Null;
        match m {
            "workspace/semanticTokens/refresh" => refresh(caps.refresh_sem, "textDocument/semanticTokens/full"),
            "workspace/codeLens/refresh" => refresh(caps.refresh_lens, "textDocument/codeLens"),
            "workspace/inlayHint/refresh" => refresh(caps.refresh_inlay, "textDocument/inlayHint"),
            "workspace/diagnostic/refresh" => refresh(caps.refresh_diag, "textDocument/diagnostic"),
            "window/workDoneProgress/create" => { gate(caps.progress); let t = p["token"].to_string(); self.i.st.with(|s| s.progress.entry(t).or_insert((0, 0)).0 = 1); }
            "workspace/configuration" => {
                self.i.st.with(|s| s.config_queries += 1);
                let items = p["items"].as_array().cloned().unwrap_or_default();
                if items.len() != 1 || items[0]["section"] != "move-on-aptos" { self.violation(&["C12"], "config-query", format!("unexpected configuration query {p}")); }
                result = json!("configuration");
            }
            "client/registerCapability" => {
                gate(caps.watch_dynamic);
                for r in p["registrations"].as_array().cloned().unwrap_or_default() {
                    if r["method"] != "workspace/didChangeWatchedFiles" { continue; }
                    let mut w = vec![];
                    for x in r["registerOptions"]["watchers"].as_array().cloned().unwrap_or_default() {
                        let g = &x["globPattern"];
                        if let Some(s) = g.as_str() { w.push((String::new(), s.to_string())); }
                        else {
                            if !caps.watch_relative { self.violation(&["C18"], "undeclared", "relative watch pattern sent to a client that did not declare support".into()); }
                            let base = g["baseUri"].as_str().or(g["baseUri"]["uri"].as_str()).and_then(unuri).unwrap_or_default();
                            w.push((base, g["pattern"].as_str().unwrap_or("").to_string()));
                        }
                    }
                    self.i.st.with(|s| { s.watchers = w; s.registrations += 1; });
                }
            }
            "client/unregisterCapability" => {}
            "window/showMessageRequest" => { self.i.st.with(|s| s.messages.push(p.clone())); }
            other => {
                self.i.st.with(|s| s.other_notes.push(format!("request {other}")));
                self.reply(id, Err(json!({"code": -32601, "message": "unhandled method"})));
                return;
            }
        }
        self.reply_later(id, result);
    }
    fn on_notification(&self, m: &str, p: Value) {
        match m {
            "$/progress" => {
                let t = p["token"].to_string();
                let kind = p["value"]["kind"].as_str().unwrap_or("?").to_string();
                let bad = self.i.st.with(|s| {
                    s.progress_seen += 1;
                    let known = s.progress.contains_key(&t);
                    let e = s.progress.entry(t.clone()).or_insert((0, 0));
                    match kind.as_str() {
                        "begin" => { if !known || e.0 == 0 { return Some("begun under a token that was not created") } e.0 = 0; e.1 += 1; if e.1 > 1 { return Some("begun twice"); } None }
                        "report" => if e.1 == 0 { Some("reported while not begun") } else { None },
                        "end" => { if e.1 == 0 { return Some("ended while not begun"); } e.1 -= 1; None }
                        _ => Some("malformed"),
                    }
                });
                if !self.i.caps.progress { self.violation(&["C18"], "undeclared", "progress sent to a client that did not declare support".into()); }
                if let Some(b) = bad { self.violation(&["C05", "C18"], "progress", format!("progress {t} {b}")); }
            }
            "experimental/serverStatus" => {
                if !self.i.caps.status { self.violation(&["C18"], "undeclared", "server status sent to a client that did not declare support".into()); }
                self.i.st.with(|s| s.statuses.push(p));
            }
            "window/showMessage" => self.i.st.with(|s| s.messages.push(p)),
            "window/logMessage" | "telemetry/event" => {}
            "aptos-language-server/movefmtVersionError" => self.i.st.with(|s| { s.movefmt_notices += 1; s.other_notes.push(m.to_string()) }),
            other => self.i.st.with(|s| s.other_notes.push(other.to_string())),
        }
    }
    /// does the latest registration cover this path?
    pub fn watches(&self, path: &str) -> bool {
        self.i.st.with(|s| s.watchers.iter().any(|(base, pat)| {
            if base.is_empty() { glob(pat, path) } else { path.strip_prefix(base.trim_end_matches('/')).and_then(|r| r.strip_prefix('/')).is_some_and(|r| glob(pat, r)) }
        }))
    }
}
pub fn to_message(v: &Value) -> Option<lsp_server::Message> { serde_json::from_value(v.clone()).ok() }
pub fn brief(v: &Value) -> String { let s = v.to_string(); if s.len() > 300 { let mut i = 300; while !s.is_char_boundary(i) { i -= 1; } format!("{}…", &s[..i]) } else { s } }

/// does the handshake promise that `method` is served?
pub fn advertised(caps: &Value, method: &str) -> bool {
    let ptr = match method {
        "textDocument/hover" => "/hoverProvider", "textDocument/completion" => "/completionProvider", "completionItem/resolve" => "/completionProvider/resolveProvider",
        "textDocument/signatureHelp" => "/signatureHelpProvider", "textDocument/definition" => "/definitionProvider", "textDocument/references" => "/referencesProvider",
        "textDocument/documentHighlight" => "/documentHighlightProvider", "textDocument/documentSymbol" => "/documentSymbolProvider", "workspace/symbol" => "/workspaceSymbolProvider",
        "textDocument/codeAction" => "/codeActionProvider", "codeAction/resolve" => "/codeActionProvider/resolveProvider", "textDocument/codeLens" => "/codeLensProvider", "codeLens/resolve" => "/codeLensProvider/resolveProvider",
        "textDocument/formatting" => "/documentFormattingProvider", "textDocument/rangeFormatting" => "/documentRangeFormattingProvider", "textDocument/onTypeFormatting" => "/documentOnTypeFormattingProvider",
        "textDocument/selectionRange" => "/selectionRangeProvider", "textDocument/rename" => "/renameProvider", "textDocument/prepareRename" => "/renameProvider/prepareProvider",
        "textDocument/semanticTokens/full" => "/semanticTokensProvider/full", "textDocument/semanticTokens/range" => "/semanticTokensProvider/range", "textDocument/semanticTokens/full/delta" => "/semanticTokensProvider/full/delta",
        "textDocument/inlayHint" => "/inlayHintProvider", "inlayHint/resolve" => "/inlayHintProvider/resolveProvider", "textDocument/diagnostic" => "/diagnosticProvider", "workspace/diagnostic" => "/diagnosticProvider/workspaceDiagnostics",
        "textDocument/foldingRange" => "/foldingRangeProvider", "textDocument/typeDefinition" => "/typeDefinitionProvider", "textDocument/implementation" => "/implementationProvider", "textDocument/declaration" => "/declarationProvider", "workspace/executeCommand" => "/executeCommandProvider",
        _ => return false,
    };
    caps.pointer(ptr).is_some_and(|v| !v.is_null() && *v != json!(false))
}
/// does an answer use a feature the client has not declared?
pub fn undeclared(caps: &Caps, method: &str, r: &Value) -> Option<&'static str> {
    let list = |r: &Value| r.as_array().cloned().unwrap_or_default();
    match method {
        "textDocument/definition" if !caps.location_link => list(r).iter().any(|x| !x["targetUri"].is_null()).then_some("location links"),
        "textDocument/documentSymbol" if !caps.hierarchical => list(r).iter().any(|x| !x["selectionRange"].is_null() || !x["children"].is_null() || x["location"].is_null()).then_some("a tree of symbols"),
        "textDocument/codeAction" => {
            if list(r).iter().any(|x| !caps.ca_literals && (x["command"].is_null() || x["command"].is_object())) { return Some("code action literals"); }
            if list(r).iter().any(|x| !caps.ca_resolve && x["edit"].is_null() && x["command"].is_null()) { return Some("an action whose edit is still to be resolved"); }
            list(r).iter().any(|x| !caps.document_changes && !x["edit"]["documentChanges"].is_null()).then_some("versioned document changes")
        }
        "textDocument/codeLens" if !caps.commands => list(r).iter().any(|x| x["command"]["command"].as_str().is_some_and(|c| c.starts_with("move-on-aptos."))).then_some("commands of the client"),
        "codeLens/resolve" if !caps.commands => r["command"]["command"].as_str().is_some_and(|c| c.starts_with("move-on-aptos.")).then_some("commands of the client"),
        "codeAction/resolve" => (!caps.document_changes && !r["edit"]["documentChanges"].is_null()).then_some("versioned document changes"),
        "textDocument/rename" => (!caps.document_changes && !r["documentChanges"].is_null()).then_some("versioned document changes"),
        "textDocument/completion" => {
            let items = r["items"].as_array().cloned().unwrap_or_else(|| list(r));
            for i in &items {
                if !caps.snippets && (i["insertTextFormat"] == json!(2) || i["textEdit"]["newText"].as_str().or(i["insertText"].as_str()).is_some_and(|t| t.contains("$0") || t.contains("$1") || t.contains("${"))) { return Some("snippets"); }
                if !caps.label_details && !i["labelDetails"].is_null() { return Some("label details"); }
                if !caps.insert_replace && !i["textEdit"].is_null() && i["textEdit"]["range"].is_null() { return Some("separate insert and replace ranges"); }
            }
            None
        }
        "textDocument/inlayHint" if !caps.inlay_resolve => list(r).iter().any(|x| !x["data"].is_null()).then_some("hints that are still to be resolved"),
        "textDocument/signatureHelp" if !caps.sig_offsets => list(&r["signatures"]).iter().any(|s| list(&s["parameters"]).iter().any(|p| p["label"].is_array())).then_some("label offsets"),
        _ => None,
    }
}
