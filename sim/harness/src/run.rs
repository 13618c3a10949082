//! Executes plans: one simulated execution of the whole server per call of `execute`.
use crate::lsp::*;
use crate::model::*;
use crate::plan::*;
use crate::sys;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Role { Main, Fresh, Serial }

/// what one executed request of the main run needs for later comparison
#[derive(Clone, Debug)]
pub struct Asked { pub id: String, pub kind: String, pub path: String, pub pos: Pos, pub arg: String, pub lo: usize, pub method: String, pub params: Value, pub cancelled: bool, pub resolve_of: Option<(Value, usize)> }

#[derive(Clone, Debug)]
pub struct Snapshot { pub model: Model, pub obs: BTreeMap<String, Value>, pub views: BTreeMap<String, (Value, Value)>, pub label: String, pub answered_config: Option<Value> }

#[derive(Clone, Debug, Default)]
pub struct FmtLog { pub input: Vec<u8>, pub mode: String, pub args: Vec<String>, pub cwd: String, pub end_ns: u64, pub start_ns: u64 }
pub static FMT: Mutex<Vec<FmtLog>> = Mutex::new(vec![]);
pub static FMT_MODE: Mutex<String> = Mutex::new(String::new());

#[derive(Default)]
pub struct Shared {
    pub violations: Vec<Violation>,
    pub snapshots: Vec<Snapshot>,
    pub asked: Vec<(Asked, Option<Answer>)>,
    pub hist: Vec<(Model, Option<usize>)>,
    pub hist_time: Vec<u64>,
    pub exit: Option<String>,
    pub main_done: bool,
    pub init: Value,
    pub counters: BTreeMap<String, u64>,
    pub log_tail: Vec<String>,
    pub out: (Vec<u8>, Vec<u8>),
    pub serial: BTreeMap<(String, usize), Value>,
    pub fmt: Vec<FmtLog>,
    pub faults: BTreeMap<&'static str, u64>,
    pub loaded_at: Option<usize>,
    pub changes: Vec<(&'static str, String, Option<Vec<u8>>)>,
    pub disk_after: BTreeMap<String, Vec<u8>>,
}
pub type Sh = Arc<Mutex<Shared>>;
fn sh<R>(s: &Sh, f: impl FnOnce(&mut Shared) -> R) -> R { f(&mut s.lock().unwrap_or_else(|e| e.into_inner())) }

pub const SCRATCH: &str = "scratch";
pub fn materialise(disk: &BTreeMap<String, Vec<u8>>) {
    let _b = sys::bypass();
    let real = sys::real_root();
    let _ = std::fs::remove_dir_all(&real);
    for d in ["w", "home", "bin"] { std::fs::create_dir_all(format!("{real}/{d}")).unwrap(); }
    for (p, c) in disk { write_file(p, Some(c)); }
}
/// what is on the virtual disk now
pub fn disk_now() -> BTreeMap<String, Vec<u8>> {
    fn walk(r: &str, v: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(r).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let (r, v) = (format!("{r}/{n}"), format!("{v}/{n}"));
            if e.file_type().is_ok_and(|t| t.is_dir()) { walk(&r, &v, out); } else { out.insert(v, std::fs::read(&r).unwrap_or_default()); }
        }
    }
    let _b = sys::bypass();
    let mut out = BTreeMap::new();
    for d in ["w", "w2", "ext", "home"] { walk(&format!("{}/{d}", sys::real_root()), &format!("/simws/{d}"), &mut out); }
    out
}
pub fn real_path(p: &str) -> String { format!("{}{}", sys::real_root(), p.strip_prefix("/simws").unwrap_or("/outside")) }
fn write_file(p: &str, c: Option<&Vec<u8>>) {
    let _b = sys::bypass();
    let r = real_path(p);
    match c {
        Some(c) => { if let Some(d) = std::path::Path::new(&r).parent() { let _ = std::fs::create_dir_all(d); } let _ = std::fs::write(&r, c); }
        None => { let _ = std::fs::remove_file(&r); }
    }
}
pub fn formatted(text: &str) -> String {
    // the stand-in formatter: header, trimmed lines, two-space indentation
    let t = text.replace("\r\n", "\n");
    let mut out = String::from("// formatted\n");
    for l in t.strip_prefix("// formatted\n").unwrap_or(&t).split('\n') { let body = l.trim_end(); let lead = body.len() - body.trim_start().len(); out.push_str(&" ".repeat(lead / 2)); out.push_str(body.trim_start()); out.push('\n'); }
    while out.ends_with("\n\n") { out.pop(); }
    out
}
fn install_formatter(mode: &str) {
    *FMT_MODE.lock().unwrap() = mode.to_string();
    FMT.lock().unwrap().clear();
    let prog: sys::Program = Arc::new(|c: &mut sys::Child| -> i32 {
        let mode = FMT_MODE.lock().unwrap().clone();
        let sleep = |us: u64| simrt::sleep(Duration::from_micros(us));
        if c.args.iter().any(|a| a == "--version") {
            match mode.as_str() {
                "old" => c.out(b"movefmt v1.0.9\n"),
                v if v.starts_with("ver_") => c.out(format!("movefmt v{}\n", &v[4..]).as_bytes()),
                "garbage_version" => c.out(b"segfault lol\n"),
                "no_version" => {}
                "killed_version" => return libc::SIGKILL,
                "nonutf8_version" => c.out(&[0xff, 0xfe, b'\n']),
                _ => c.out(b"movefmt v1.4.0\n"),
            }
            return 0;
        }
        let start_ns = simrt::now();
        let mut input = vec![];
        let mut log = |c: &sys::Child, input: &[u8]| FMT.lock().unwrap().push(FmtLog { input: input.to_vec(), mode: FMT_MODE.lock().unwrap().clone(), args: c.args.clone(), cwd: c.cwd.clone(), end_ns: simrt::now(), start_ns });
        let status = |code: i32| code << 8;
        match mode.as_str() {
            "noread" => { sleep(2000); return status(3); }
            "early_exit" => { let b = c.read(); let _ = b; return status(4); }
            "early_ok" => { c.out(b""); return 0; }
            "partial_crash" => { let b = c.read(); input.extend(b); c.out(b"module half"); return libc::SIGSEGV; }
            "out_first" => { let big = vec![b'x'; 300_000]; c.out(&big); c.out(b"\n"); }
            _ => {}
        }
        loop { let b = c.read(); if b.is_empty() { break; } input.extend(b); }
        let text = String::from_utf8_lossy(&input).into_owned();
        let f = formatted(&text);
        let st = match mode.as_str() {
            "identity" => { c.out(&input); 0 }
            "exit1" => { c.out(b"The input is not a valid move code\n"); status(1) }
            "exit1_other" => { c.out(b"boom"); status(1) }
            "exit2" => { c.out(f.as_bytes()); c.err(b"panicked at"); status(2) }
            "killed" => { c.out(f.as_bytes()); libc::SIGKILL }
            "nonutf8" => { c.out(&[b'/', b'/', 0xff, 0xfe, b'\n']); 0 }
            "slow" => { sleep(4_000_000); c.out(f.as_bytes()); 0 }
            "huge" => { let mut s = f.clone(); for i in 0..4000 { s.push_str(&format!("// filler line number {i}\n")); } c.out(s.as_bytes()); 0 }
            "stderr_flood" => { let big = vec![b'w'; 200_000]; c.err(&big); c.out(f.as_bytes()); 0 }
            "crlf_out" => { c.out(f.replace('\n', "\r\n").as_bytes()); 0 }
            "empty_out" => 0,
            "out_first" => 0,
            _ => { c.out(f.as_bytes()); 0 }
        };
        log(c, &input);
        st
    });
    let mut p = sys::PROGRAMS.lock().unwrap();
    p.clear();
    if mode != "missing" { p.insert("/simws/bin/movefmt".into(), prog); }
}
/// what a successful formatter run in `mode` prints for `text`; None: must not yield edits
pub fn fmt_output(mode: &str, text: &str) -> Option<String> {
    let lf = text.replace("\r\n", "\n");
    match mode {
        "transform" | "slow" | "stderr_flood" | "crlf_out" => Some(formatted(&lf)),
        "ver_1.2.1" | "ver_1.10.0" | "ver_2.0.0" => Some(formatted(&lf)),
        "identity" => Some(lf),
        "huge" => { let mut s = formatted(&lf); for i in 0..4000 { s.push_str(&format!("// filler line number {i}\n")); } Some(s) }
        "empty_out" | "early_ok" => Some(String::new()),
        "out_first" => Some(format!("{}\n", "x".repeat(300_000))),
        _ => None,
    }
}

pub fn sim_config(plan: &Plan, role: &Role, trace: bool, picks: Option<BTreeMap<u64, usize>>) -> simrt::Config {
    let policy = match (role, picks, &plan.policy) {
        (Role::Main, Some(picks), _) => simrt::Policy::Explicit { picks },
        (Role::Main, None, Pol::Random(g)) => simrt::Policy::Random { mean_gap: *g as u32 },
        (Role::Main, None, Pol::Pct(c, h)) => simrt::Policy::Pct { changes: *c as u32, horizon: *h },
        (Role::Main, None, Pol::Starve(v, g, b)) => simrt::Policy::Starve { victim: v.clone(), mean_gap: *g as u32, budget: *b },
        _ => simrt::Policy::Explicit { picks: BTreeMap::new() },
    };
    let salt = match role { Role::Main => 1, Role::Fresh => 0x5151, Role::Serial => 0x7373 };
    simrt::Config { seed: plan.seed.wrapping_mul(0x9E37_79B9) ^ salt, policy, max_steps: 60_000_000, max_time: Duration::from_secs(3600), trace }
}
pub fn setup(plan: &Plan, role: &Role, disk: &BTreeMap<String, Vec<u8>>) {
    vfs_notify::sim::reset();
    sys::reset();
    materialise(disk);
    num_cpus::COUNT.store(if *role == Role::Main { plan.cpus } else { 2 }, std::sync::atomic::Ordering::Relaxed);
    sys::set_pipe_cap(plan.pipe_cap);
    install_formatter(&plan.fmt);
    let salt = if *role == Role::Main { 11 } else { 13 };
    sys::faults(|f| {
        *f = sys::Faults::default();
        f.rng = Some(simrt::Rng::new(plan.seed ^ 0xfau64));
        f.dir_rng = Some(simrt::Rng::new(plan.seed ^ salt));
        f.unreadable = plan.unreadable.clone();
        if *role == Role::Main { f.space = plan.space; }
        f.on = plan.mode == "cli" && *role == Role::Main;
        if *role == Role::Main { f.open_err = plan.faults.open; f.read_err = plan.faults.read; f.short_read = plan.faults.short; f.dir_err = plan.faults.dir; f.stat_err = plan.faults.stat; }
    });
    sys::capture(true);
    crate::set_args(&if *role == Role::Main && plan.mode == "cli" { plan.cli.clone() } else { vec!["lsp-server".into()] });
}

pub struct Session { pub c: Client, pub m: Model, pub sh: Sh, pub plan: Arc<Plan>, pub enc: Enc, pub role: Role, pub server: Option<simrt::JoinHandle<String>>, pub touched: BTreeSet<String>, pub quiet_cfg: Option<Value>, pub init_cfg_bad: bool, pub answered_cfg: Option<Value>, pub faulty: bool, /** manifests and folders of the project that is being served, while that is certain */ pub good: Option<(BTreeMap<String, Vec<u8>>, Vec<String>)>, pub settled: bool }
impl Session {
    pub fn v(&self, props: &[&str], kind: &str, msg: String) { self.c.violation(props, kind, msg) }
    /// starts a server and performs the handshake
    pub fn start(plan: Arc<Plan>, role: Role, m: Model, sh_: Sh) -> Option<Session> {
        let conn = lsp_server::sim::install_stdio(if role == Role::Main { plan.chan_cap } else { None });
        let server = simrt::spawn("process-main", || crate::server_main::sim_entry());
        let caps = plan.caps.clone();
        let enc = caps.enc();
        let spec = if role == Role::Main { plan.client.clone() } else { ClientSpec::default() };
        let c = Client::start(conn, caps.clone(), spec);
        let cfg = m.config.clone();
        c.i.st.with(|s| s.config_answer = json!([cfg]));
        let mut s = Session { c, m, sh: sh_, plan: plan.clone(), enc, role, server: Some(server), touched: BTreeSet::new(), quiet_cfg: None, init_cfg_bad: false, answered_cfg: None, faulty: false, good: None, settled: false };
        let main = s.role == Role::Main;
        if main && plan.ending.starts_with("noinit_") { return s.finish_early(); }
        if main && plan.ending == "preinit" {
            let (me, pa) = params("hover", "/simws/w/x.move", (0, 0), "", 0);
            let ids: Vec<String> = vec![s.c.request(me, pa), s.c.request("shutdown", Value::Null), s.c.request("workspace/symbol", json!({"query": "f"}))];
            s.c.notify("textDocument/didOpen", json!({"textDocument": {"uri": "file:///simws/w/x.move", "languageId": "move", "version": 1, "text": "x"}}));
            for id in ids {
                match s.c.wait(&id, Duration::from_secs(100)) {
                    Some(a) if a.code() == -32002 => {}
                    Some(a) => s.v(&["C07"], "preinit", format!("{} before initialize answered with {}", a.req.method, brief(&a.error.unwrap_or(a.result)))),
                    None => s.v(&["C07", "C01"], "preinit", "request before initialize was not answered".into()),
                }
            }
        }
        let mut p = json!({"processId": 1, "rootUri": uri(s.m.folders.first().map_or(if main { "/simws/w" } else { "/simws/bin" }, |x| x.as_str())), "capabilities": caps.json(), "clientInfo": {"name": "Visual Studio Code", "version": "1.90"}, "initializationOptions": s.m.config});
        if !plan.no_folders_param { p["workspaceFolders"] = json!(s.m.folders.iter().map(|f| json!({"uri": uri(f), "name": f})).collect::<Vec<_>>()); }
        let id = s.c.request("initialize", p);
        let Some(a) = s.c.wait(&id, Duration::from_secs(600)) else { s.v(&["C07"], "initialize", format!("initialize not answered\n{}", simrt::describe())); s.fail_end(); return None };
        if let Some(e) = a.error { s.v(&["C07"], "initialize", format!("initialize refused: {e}")); s.fail_end(); return None; }
        s.c.i.st.with(|st| st.server_caps = a.result["capabilities"].clone());
        if main { s.check_init(&a.result); sh(&s.sh, |x| x.init = a.result.clone()); }
        s.c.notify("initialized", json!({}));
        s.c.i.st.with(|st| st.initialized = true);
        let h = (s.m.clone(), None);
        sh(&s.sh, |x| { x.hist.push(h); x.hist_time.push(simrt::now()); });
        Some(s)
    }
    fn check_init(&self, r: &Value) {
        let c = &r["capabilities"];
        let want = self.enc.name();
        let got = c["positionEncoding"].as_str().unwrap_or("utf-16");
        let offered: Vec<&str> = if self.c.i.caps.no_general { vec!["utf-16"] } else { self.c.i.caps.encodings.iter().map(|e| e.name()).collect() };
        if !offered.contains(&got) { self.v(&["C18", "C07", "C10"], "encoding", format!("server chose {got}, client offered {offered:?}")); }
        let _ = want;
        for k in ["textDocumentSync", "completionProvider", "hoverProvider", "definitionProvider", "referencesProvider", "documentSymbolProvider", "renameProvider"] { if c[k].is_null() { self.v(&["C07", "C18"], "capabilities", format!("{k} not advertised")); } }
        let lazy = |k: &str, want: bool| { let got = advertised(c, k); if got != want { self.v(&["C18"], "capabilities", format!("{k}: {} although the client {} resolving", if got { "advertised" } else { "not advertised" }, if want { "supports" } else { "does not support" })); } };
        lazy("inlayHint/resolve", self.c.i.caps.inlay_resolve);
        if c["inlayHintProvider"].is_null() { self.v(&["C18"], "capabilities", "inlayHintProvider not advertised".into()); }
    }
    fn fail_end(&mut self) { self.collect(); }
    fn finish_early(mut self) -> Option<Session> {
        let n = simrt::rand_u64() % 3;
        for _ in 0..n { self.c.notify("textDocument/didSave", json!({"textDocument": {"uri": "file:///simws/w/x.move"}})); }
        if self.plan.ending == "noinit_exit" { self.c.notify("exit", Value::Null); } else { self.c.close(); }
        self.await_exit(None);
        self.collect();
        None
    }
    // ------------------------------------------------------------------------ endings
    pub fn await_exit(&mut self, want_ok: Option<bool>) {
        let Some(h) = self.server.take() else { return };
        let deadline = simrt::now() + 200_000_000_000;
        let done = simrt::block_until("await-exit", Some(deadline), &mut || h.is_finished());
        let _ = done;
        if !h.is_finished() { self.v(&["C07"], "no-exit", format!("server did not end ({})\n{}", self.plan.ending, simrt::describe())); return; }
        let r = match h.join() { Ok(s) => s, Err(_) => "panic".to_string() };
        sh(&self.sh, |x| x.exit = Some(r.clone()));
        // main() returns Ok(ExitCode): the exit status is success
        let ok = r.starts_with("Ok");
        match want_ok { Some(w) if w != ok => self.v(&["C07"], "exit-status", format!("ending {}: server returned {r}", self.plan.ending)), _ => {} }
    }
    pub fn end(&mut self) {
        let busy = self.plan.ending.contains("busy");
        if busy {
            let files = self.m.move_files();
            for (i, p) in files.iter().take(4).enumerate() { for k in ["diag", "sem", "refs", "compl", "hover"] { let t = self.m.text(p).unwrap_or_default(); let ids = idents(&t); let pos = ids.get(i).map_or((0, 0), |x| to_pos(&t, self.enc, x.0)); let (me, pa) = params(k, p, pos, "", 0); self.c.request(me, pa); } }
            if let Some(p) = files.first() { let (me, pa) = params("fmt", p, (0, 0), "", 0); self.c.request(me, pa); }
        }
        let e = self.plan.ending.clone();
        let e = e.trim_end_matches("_busy");
        match e {
            "exit" => { self.c.i.st.with(|s| s.shutdown_sent = true); self.c.notify("exit", Value::Null); self.await_exit(Some(true)); }
            "eof" => { self.c.i.st.with(|s| s.shutdown_sent = true); self.c.close(); self.await_exit(Some(false)); }
            _ => {
                self.c.i.st.with(|s| s.shutdown_sent = true);
                let before: Vec<String> = self.c.i.st.with(|s| s.pending.keys().cloned().collect());
                let id = self.c.request("shutdown", Value::Null);
                match self.c.wait(&id, Duration::from_secs(600)) {
                    None => self.v(&["C07", "C01", "C05"], "shutdown", format!("shutdown not answered\n{}", simrt::describe())),
                    Some(a) if a.error.is_some() => self.v(&["C07"], "shutdown", format!("shutdown refused: {}", a.error.unwrap())),
                    Some(_) => {}
                }
                if e == "shutdown_late" {
                    let p = self.m.move_files().first().cloned().unwrap_or("/simws/w/a.move".into());
                    let mut ids = vec![];
                    for k in ["hover", "diag", "compl", "sem", "wsym", "fmt", "selrange", "tree"] { let (me, pa) = params(k, &p, (0, 0), "f", 0); ids.push(self.c.request(me, pa)); }
                    ids.push(self.c.request("no/such", json!({})));
                    ids.push(self.c.request("shutdown", Value::Null));
                    self.c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri("/simws/w/late.move"), "languageId": "move", "version": 1, "text": "module p0::late {}"}}));
                    for id in ids { match self.c.wait(&id, Duration::from_secs(100)) {
                        None => self.v(&["C07", "C01"], "after-shutdown", "request after shutdown was not answered".into()),
                        Some(a) if a.code() != -32600 && a.req.method != "shutdown" => self.v(&["C07"], "after-shutdown", format!("{} after shutdown answered with {}", a.req.method, brief(&a.error.unwrap_or(a.result)))),
                        _ => {}
                    } }
                    // requests sent before shutdown must be answered as well
                    self.c.settle();
                    let left: Vec<String> = self.c.i.st.with(|s| before.iter().filter(|k| s.pending.contains_key(*k)).map(|k| format!("{k} {}", s.pending[k].method)).collect());
                    if !left.is_empty() { self.v(&["C01"], "no-answer", format!("requests sent before shutdown were never answered: {left:?}")); }
                }
                if e == "shutdown_eof" { self.c.close(); self.await_exit(Some(false)); } else { self.c.notify("exit", Value::Null); self.await_exit(Some(true)); }
            }
        }
        // nothing may arrive after the server ended that was not owed
        self.c.close();
    }
    pub fn collect(&mut self) {
        let c = self.c.clone();
        let (vs, counters) = c.i.st.with(|s| (std::mem::take(&mut s.violations), [("client_messages", s.log.iter().filter(|e| !e.from_server).count() as u64), ("server_messages", s.log.iter().filter(|e| e.from_server).count() as u64), ("answers", s.answers.len() as u64), ("refusals_modified", s.answers.values().filter(|a| a.code() == MODIFIED).count() as u64), ("refusals_cancelled", s.answers.values().filter(|a| a.code() == CANCELLED).count() as u64), ("refusals_retrigger", s.answers.values().filter(|a| a.code() == RETRIGGER).count() as u64), ("errors", s.answers.values().filter(|a| a.error.is_some()).count() as u64), ("refreshes", s.refreshes.values().sum()), ("registrations", s.registrations), ("statuses", s.statuses.len() as u64), ("progress", s.progress_seen)]));
        let (answers, extra) = c.i.st.with(|s| (s.answers.clone(), std::mem::take(&mut s.extra)));
        sh(&self.sh, |x| {
            x.violations.extend(vs);
            for (k, n) in extra { *x.counters.entry(k).or_insert(0) += n; }
            for (k, n) in counters { *x.counters.entry(k.to_string()).or_insert(0) += n; }
            for (a, ans) in &mut x.asked { if ans.is_none() { *ans = answers.get(&a.id).cloned(); } }
            x.fmt = FMT.lock().unwrap().clone();
            x.faults = sys::faults(|f| f.counts.clone());
        });
    }
    // ------------------------------------------------------------------------ rest
    pub fn rest(&mut self, label: &str) {
        self.c.settle();
        for _ in 0..4 {
            // (files which the server has read since then are up to date)
            let faulty = self.plan_has_faults();
            let late: Vec<(String, u32, u64)> = self.c.i.st.with(|s| s.missed.clone()).into_iter().filter(|p| self.c.watches(&p.0) && (faulty || sys::OPENED.lock().unwrap().get(if p.1 == 3 { p.0.rsplit_once('/').unwrap().0 } else { &p.0 }).is_none_or(|t| *t <= p.2))).collect();
            if late.is_empty() { break; }
            self.c.i.st.with(|s| s.missed.retain(|m| !late.contains(m)));
            self.c.notify("workspace/didChangeWatchedFiles", json!({"changes": late.iter().map(|p| json!({"uri": uri(&p.0), "type": p.1})).collect::<Vec<_>>()}));
            self.c.settle();
        }
        if !self.c.flushed() && !self.c.i.st.with(|s| s.eof) { self.v(&["C05"], "stuck-input", format!("{label}: the server stopped reading\n{}", simrt::describe())); }
        if self.server.as_ref().is_some_and(|h| h.is_finished()) {
            let r = self.server.take().unwrap().join().unwrap_or("panic".into());
            let pan = simrt::panics();
            self.v(&["C06", "C05", "C01"], "server-died", format!("{label}: the server ended on its own: {r}; panics: {:?}", pan.iter().rev().take(2).collect::<Vec<_>>()));
            sh(&self.sh, |x| x.exit = Some(r));
            return;
        }
        let pend: Vec<String> = self.c.i.st.with(|s| s.pending.iter().map(|(k, p)| format!("{k} {}", p.method)).collect());
        if !pend.is_empty() { self.v(&["C01", "C05", "C13"], "no-answer", format!("{label}: at rest, never answered: {pend:?}\n{}", simrt::describe())); self.c.i.st.with(|s| s.pending.clear()); }
        let (bad, prog) = self.c.i.st.with(|s| (self.c.i.caps.status && s.statuses.last().is_some_and(|v| v["quiescent"] != json!(true)), s.progress.iter().filter(|(_, e)| e.1 > 0).map(|(t, _)| t.clone()).collect::<Vec<_>>()));
        if bad { let l = self.c.i.st.with(|s| s.statuses.last().cloned()); self.v(&["C05"], "not-quiescent", format!("{label}: nothing is running but the last status is {}", l.unwrap_or_default())); }
        if !prog.is_empty() { self.v(&["C05"], "progress-open", format!("{label}: at rest, progress never ended: {prog:?}")); }
        self.c.i.st.with(|s| s.loaded = true);
        if !self.faulty {
            if broken_manifests(&self.m).is_empty() { self.good = packages(&self.m).is_some_and(|p| !p.0.is_empty()).then(|| project_files(&self.m)); self.settled = true; }
            else if !self.settled { self.good = None; }
        }
        if self.role == Role::Main { let n = sh(&self.sh, |x| { let n = x.hist.len() - 1; if x.loaded_at.is_none() { x.loaded_at = Some(n); } n }); let _ = n; }
    }
    fn last_line(t: &str) -> u32 { lines(t).len() as u32 - 1 }
    pub fn is_dead(&self) -> bool { self.server.is_none() }
    /// state bookkeeping after an op changed the model
    fn record_state(&mut self, op: usize) {
        let m = self.m.clone();
        // a project that parsed for a moment may or may not have been loaded
        if self.good.as_ref().is_some_and(|g| *g != project_files(&m)) && broken_manifests(&m).is_empty() { self.settled = false; }
        sh(&self.sh, |x| { x.hist.push((m, Some(op))); x.hist_time.push(simrt::now()); });
        let (open, last): (BTreeSet<String>, BTreeMap<String, u32>) = (self.m.docs.keys().filter(|p| p.ends_with(".move")).cloned().collect(), self.m.docs.iter().map(|(p, d)| (p.clone(), Self::last_line(&d.text))).collect());
        self.c.i.st.with(|s| { s.views.retain(|k, _| open.contains(&k.1)); s.open = open; s.view_lines = last; });
    }
    fn pull_own(&self, path: &str) { if self.c.i.spec.pull && path.ends_with(".move") { for v in VIEWS { self.c.pull((v.to_string(), path.to_string())); } } }
    pub fn events(&self, paths: &[(String, u32)], _quiet: bool) { emit(&self.c, paths) }
    /// executes one op; returns false if it did not apply
    pub fn exec(&mut self, i: usize, op: &Op) -> bool {
        if self.is_dead() { return false; }
        match op {
            Op::Req { .. } | Op::Resolve { .. } | Op::Cancel { .. } | Op::Await | Op::Raw { .. } | Op::Sleep { .. } | Op::Settle | Op::Check | Op::Faults { .. } | Op::Fmt { .. } | Op::Stall { .. } => {}
            _ => {
                let was = self.m.clone();
                if !apply(&mut self.m, op, self.enc) { self.m = was; return false; }
                let c = self.c.clone();
                // the state counter and the message must advance together
                let _np = simrt::no_preempt();
                match op {
                    Op::Open { path, .. } => { let d = self.m.docs[path].clone(); self.record_state(i); c.notify_state("textDocument/didOpen", json!({"textDocument": {"uri": uri(path), "languageId": "move", "version": d.version, "text": d.text}})); self.pull_own(path);
                        // (a document the project does not have makes the server look at the project again, which interrupts)
                        if self.plan.serial && packages(&self.m).is_none_or(|p| owner(&p.0, path).is_none()) { drop(_np); self.c.settle(); }
                    }
                    Op::Edit { path, edits } => { let v = self.m.docs[path].version; self.record_state(i); c.notify_state("textDocument/didChange", json!({"textDocument": {"uri": uri(path), "version": v}, "contentChanges": edits.iter().map(|e| e.json()).collect::<Vec<_>>()})); self.pull_own(path); }
                    Op::Junk { path, range, text, apart } => {
                        let (v, full) = (self.m.docs[path].version, self.m.docs[path].text.clone());
                        self.record_state(i);
                        let change = json!({"range": {"start": pos_json(range.0), "end": pos_json(range.1)}, "text": text});
                        let td = |v: i32| json!({"uri": uri(path), "version": v});
                        if *apart { c.notify("textDocument/didChange", json!({"textDocument": td(v - 1), "contentChanges": [change]})); c.notify_state("textDocument/didChange", json!({"textDocument": td(v), "contentChanges": [{"text": full}]})); }
                        else { c.notify_state("textDocument/didChange", json!({"textDocument": td(v), "contentChanges": [change, {"text": full}]})); }
                        self.pull_own(path);
                    }
                    Op::Close { path } => { self.record_state(i); c.notify_state("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}})); }
                    Op::Save { path } => { let t = self.m.disk[path].clone(); write_file(path, Some(&t)); self.touched.insert(path.clone()); self.record_state(i); c.notify_state("textDocument/didSave", json!({"textDocument": {"uri": uri(path)}})); drop(_np); self.events(&[(path.clone(), 2)], false); }
                    Op::Disk { changes, delay_us, repeat } => {
                        let mut ev = vec![];
                        for (p, b) in changes { let existed = was.disk.contains_key(p); if b.is_none() && !existed { continue; } write_file(p, b.as_ref().map(|b| &b.0)); simrt::note(|| format!("{} {p}", if b.is_some() { "write" } else { "remove" })); self.touched.insert(p.clone()); ev.push((p.clone(), match (existed, b.is_some()) { (_, false) => 3, (false, true) => 1, _ => 2 })); }
                        self.record_state(i);
                        c.i.st.with(|s| s.state += 1);
                        drop(_np);
                        for _ in 0..*repeat {
                            if *delay_us == 0 { self.events(&ev, false); }
                            else {
                                let (c2, ev, d) = (self.c.clone(), ev.clone(), Duration::from_micros(*delay_us));
                                simrt::spawn("os-events", move || { simrt::sleep(d); emit(&c2, &ev); });
                            }
                        }
                    }
                    Op::Config { value } => { self.answered_cfg = Some(value.clone()); self.record_state(i); c.i.st.with(|s| s.config_answer = json!([value])); c.notify_state("workspace/didChangeConfiguration", json!({"settings": null})); }
                    Op::Folders { add, remove } => { self.record_state(i); let f = |v: &Vec<String>| v.iter().map(|f| json!({"uri": uri(f), "name": f})).collect::<Vec<_>>(); c.notify_state("workspace/didChangeWorkspaceFolders", json!({"event": {"added": f(add), "removed": f(remove)}})); }
                    _ => unreachable!(),
                }
                return true;
            }
        }
        match op {
            Op::Req { kind, path, pos, arg } => {
                let ll = self.m.text(path).map_or(0, |t| Self::last_line(&t));
                let (me, pa) = params(kind, path, *pos, arg, ll);
                let _np = simrt::no_preempt();
                let lo = self.c.i.st.with(|s| s.state);
                let id = self.c.request(me, pa.clone());
                sh(&self.sh, |x| x.asked.push((Asked { id, kind: kind.clone(), path: path.clone(), pos: *pos, arg: arg.clone(), lo, method: me.into(), params: pa, cancelled: false, resolve_of: None }, None)));
            }
            Op::Resolve { kind, n } => {
                let last = sh(&self.sh, |x| x.asked.iter().rev().find(|(a, _)| a.kind == *kind).map(|(a, _)| a.clone()));
                let Some(a) = last else { return false };
                let Some(ans) = self.c.answer(&a.id) else { return false };
                if ans.error.is_some() { return false; }
                let items = ans.result.get("items").and_then(|v| v.as_array()).or(ans.result.as_array()).cloned().unwrap_or_default();
                if items.is_empty() { return false; }
                let item = items[n % items.len()].clone();
                let me = match kind.as_str() { "action" => "codeAction/resolve", "inlay" => "inlayHint/resolve", "lens" => "codeLens/resolve", _ => "completionItem/resolve" };
                let _np = simrt::no_preempt();
                let lo = self.c.i.st.with(|s| s.state);
                let id = self.c.request(me, item.clone());
                sh(&self.sh, |x| x.asked.push((Asked { id, kind: format!("resolve-{kind}"), path: a.path.clone(), pos: a.pos, arg: String::new(), lo, method: me.into(), params: item.clone(), cancelled: false, resolve_of: Some((item, a.lo)) }, None)));
            }
            Op::Cancel { back, twin: true } => {
                let id = sh(&self.sh, |x| { let n = x.asked.len(); if n == 0 { return None; } Some(x.asked[n - 1 - (*back).min(n - 1)].0.id.clone()) });
                let Some(id) = id else { return false };
                let v: Value = serde_json::from_str(&id).unwrap();
                let other = match v.as_i64() { Some(n) => json!(n.to_string()), None => json!(v.as_str().and_then(|s| s.trim_start_matches('r').parse::<i64>().ok()).unwrap_or(0)) };
                self.c.cancel(&other.to_string());
            }
            Op::Cancel { back, .. } => {
                let id = sh(&self.sh, |x| { let n = x.asked.len(); if n == 0 { return None; } let k = n - 1 - (*back).min(n - 1); x.asked[k].0.cancelled = true; Some(x.asked[k].0.id.clone()) });
                let Some(id) = id else { return false };
                self.c.cancel(&id);
            }
            Op::Await => { let ids: Vec<String> = self.c.i.st.with(|s| s.pending.keys().cloned().collect()); for id in ids { self.c.wait(&id, Duration::from_secs(60)); } }
            Op::Raw { msg } => { self.c.raw(msg.clone()); }
            Op::Sleep { us } => simrt::sleep(Duration::from_micros(*us)),
            Op::Settle => self.rest("settle"),
            Op::Check => { self.rest("before the check"); if self.is_dead() { return true; } self.check() }
            Op::Faults { on } => {
                if *on { sys::faults(|f| f.on = true); self.faulty = true; }
                else if self.faulty {
                    sys::faults(|f| f.on = false);
                    self.faulty = false;
                    self.rest("after faults");
                    if self.is_dead() { return true; }
                    // the operating system reports every file again, as after a remount
                    let all: Vec<(String, u32)> = self.m.disk.keys().map(|p| (p.clone(), 2)).collect();
                    self.events(&all, false);
                    let f = self.m.folders.clone();
                    let fj = f.iter().map(|f| json!({"uri": uri(f), "name": f})).collect::<Vec<_>>();
                    self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": [], "removed": fj}}));
                    self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": fj, "removed": []}}));
                    self.rest("after faults, reloaded");
                    if self.is_dead() { return true; }
                    self.events(&all, false);
                }
            }
            Op::Fmt { mode } => { *FMT_MODE.lock().unwrap() = mode.clone(); }
            Op::Stall { us } => { let u = *us; self.c.i.st.with(|s| s.stall_us = u); }
            _ => {}
        }
        true
    }
    pub fn check(&mut self) {
        self.rest("check");
        if self.is_dead() { return; }
        self.status_check();
        let mut views = BTreeMap::new();
        if self.c.i.spec.pull {
            let held = self.c.i.st.with(|s| s.views.clone());
            for p in self.m.docs.keys().filter(|p| p.ends_with(".move")).cloned().collect::<Vec<_>>() {
                for v in VIEWS {
                    let kind = match v { "textDocument/diagnostic" => "diag", "textDocument/semanticTokens/full" => "sem", "textDocument/inlayHint" => "inlay", _ => "lens" };
                    let (me, pa) = params(kind, &p, (0, 0), "", Self::last_line(&self.m.docs[&p].text));
                    let a = self.c.ask(me, pa);
                    if a.error.is_some() { continue; }
                    let h = held.get(&(v.to_string(), p.clone())).cloned();
                    let (x, y) = (norm(h.clone().unwrap_or(Value::Null)), norm(a.result));
                    if h.is_none() { self.v(&["C16"], "view-missing", format!("{v} for {p}: the client was never given an answer, now it would be {}", brief(&y))); continue; }
                    if x != y { self.v(&["C16"], "view-stale", format!("{v} for {p}: the client displays {} but the server would now answer {}", diff_brief(&x, &y), "the other")); }
                    views.insert(format!("{v} {p}"), (x, y));
                }
            }
        }
        let obs = observe(&self.c, &self.m, self.enc, self.plan.seed);
        let mut model = self.m.clone();
        if !broken_manifests(&model).is_empty() {
            if let Some((files, folders)) = &self.good {
                model.disk.retain(|p, _| !p.ends_with("/Move.toml"));
                model.disk.extend(files.clone());
                model.folders = folders.clone();
                self.c.count("checks while a manifest is broken", 1);
            }
        }
        validate(&self.c, &model, self.enc, &obs);
        if let Some(e) = self.c.i.st.with(|s| s.effective_config.clone()) { model.config = e; } else { model.config = self.plan.config.clone(); }
        let s = Snapshot { model, obs, views, label: String::new(), answered_config: self.answered_cfg.clone() };
        sh(&self.sh, |x| x.snapshots.push(s));
    }
    fn status_check(&self) {
        if !self.c.i.caps.status { return; }
        let Some(st) = self.c.i.st.with(|s| s.statuses.last().cloned()) else { return };
        let msg = st["message"].as_str().unwrap_or("").to_string();
        let health = st["health"].as_str().unwrap_or("").to_string();
        // manifests that cannot be parsed
        let broken = broken_manifests(&self.m);
        if broken.is_empty() && health == "error" && !self.plan_has_faults() { self.v(&["C08", "C05"], "report-not-withdrawn", format!("no manifest is broken but the last status is {st}")); }
        if !broken.is_empty() && health != "error" { self.v(&["C08"], "broken-manifest-unreported", format!("{broken:?} cannot be parsed but the last status is {st}")); }
        if let Some(cfg) = &self.answered_cfg {
            let bad = bad_config(cfg);
            let noted = msg.to_lowercase().contains("config");
            if self.plan.client.reply_error_every == 0 && !cfg.is_null() && cfg.as_object().is_some_and(|o| !o.is_empty()) {
                if bad && !(noted && health != "ok") { self.v(&["C12"], "bad-config-unreported", format!("settings {cfg} are partly invalid but the last status is {st}")); }
                if !bad && noted { self.v(&["C12"], "config-report-not-withdrawn", format!("settings {cfg} are valid but the last status is {st}")); }
            }
        }
    }
    fn plan_has_faults(&self) -> bool { self.plan.faults != FaultSpec::default() }
}
fn project_files(m: &Model) -> (BTreeMap<String, Vec<u8>>, Vec<String>) { (m.disk.iter().filter(|(p, _)| p.ends_with("/Move.toml")).map(|(k, v)| (k.clone(), v.clone())).collect(), m.folders.clone()) }
fn emit(c: &Client, ev: &[(String, u32)]) {
    simrt::note(|| format!("change events {ev:?}"));
    let abs: Vec<paths::AbsPathBuf> = ev.iter().map(|p| paths::AbsPathBuf::assert(p.0.clone().into())).collect();
    vfs_notify::sim::emit(abs);
    let seen: Vec<Value> = ev.iter().filter(|p| c.watches(&p.0)).map(|p| json!({"uri": uri(&p.0), "type": p.1})).collect();
    // what the server has not asked to be told about yet is reported once it does
    c.i.st.with(|s| for p in ev { s.missed.retain(|m| m.0 != p.0); if !seen.iter().any(|x| x["uri"] == json!(uri(&p.0))) { s.missed.push((p.0.clone(), p.1, simrt::now())); } });
    if !seen.is_empty() { c.notify("workspace/didChangeWatchedFiles", json!({"changes": seen})); }
}
pub const VIEWS: [&str; 4] = ["textDocument/diagnostic", "textDocument/semanticTokens/full", "textDocument/inlayHint", "textDocument/codeLens"];

/// drops what may differ between two processes without the user noticing
pub fn norm(mut v: Value) -> Value {
    fn go(v: &mut Value) {
        match v {
            Value::Object(o) => { o.shift_remove("file_id"); o.shift_remove("hash"); o.shift_remove("resultId"); for (_, x) in o.iter_mut() { go(x); } }
            Value::Array(a) => for x in a { go(x) },
            _ => {}
        }
    }
    go(&mut v);
    v
}
pub fn outcome(a: &Answer) -> Value { match &a.error { Some(e) => json!({"error": e["code"]}), None => norm(a.result.clone()) } }
/// lists whose order carries no meaning
/// the parts of an answer whose order carries no meaning, sorted (lists are shown by their sort keys or by place)
pub fn unordered(kind: &str, mut v: Value) -> Value {
    let sort = |v: &mut Value| if let Some(a) = v.as_array_mut() { a.sort_by_cached_key(|x| x.to_string()); };
    match kind {
        "refs" | "hl" | "wsym" | "def" | "inlay" | "lens" | "organize" => sort(&mut v),
        "compl" => { if v.is_array() { sort(&mut v) } else if let Some(i) = v.get_mut("items") { sort(i) } }
        "diag" => { if let Some(i) = v.get_mut("items") { if let Some(a) = i.as_array_mut() { for d in a { if let Some(r) = d.get_mut("relatedInformation") { sort(r); } } } sort(i) } }
        "action" => {
            // actions are numbered by their place in the list
            if let Some(a) = v.as_array_mut() { for x in a { if let Some(id) = x.get("data").and_then(|d| d["id"].as_str()) { let keep: Vec<&str> = id.split(':').filter(|p| p.parse::<u32>().is_err()).collect(); x["data"]["id"] = json!(keep.join(":")); } } }
            sort(&mut v)
        }
        "rename" => {
            if let Some(d) = v.get_mut("documentChanges") { if let Some(a) = d.as_array_mut() { for x in a { if let Some(e) = x.get_mut("edits") { sort(e); } } } sort(d); }
            if let Some(o) = v.get_mut("changes").and_then(|c| c.as_object_mut()) { for x in o.values_mut() { sort(x); } }
        }
        _ => {}
    }
    v
}
/// more than one module of the same name: what a name refers to is then open
pub fn ambiguous(m: &Model) -> bool {
    // every address a name may stand for, in any manifest
    let mut named: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (p, b) in &m.disk { if let Some(d) = p.strip_suffix("/Move.toml") { for (n, v) in manifest_of(b, d).unwrap_or_default().addrs { if let Some(v) = address_value(&v) { named.entry(n).or_default().insert(v); } } } }
    let mut seen = BTreeSet::new();
    for p in m.move_files() {
        let t = blank(&m.text(&p).unwrap_or_default());
        let ids = idents(&t);
        for w in ids.windows(3) { if w[0].1 == "module" && !address_at(&t, w[0].0 + 6).is_some_and(|a| a.starts_with("0x")) && !seen.insert((w[1].1.clone(), w[2].1.clone())) { return true; } }
        for (o, _) in ids.iter().filter(|w| w.1 == "module") {
            let Some(a) = address_at(&t, o + 6) else { continue };
            let name = t[*o..].split_once("::").and_then(|x| idents(x.1).first().map(|y| y.1.clone())).unwrap_or_default();
            let values: BTreeSet<String> = named.get(&a).cloned().unwrap_or_default().into_iter().chain(address_value(&a)).collect();
            for v in values { if !seen.insert((format!("={v}"), name.clone())) { return true; } }
        }
    }
    false
}
fn address_at(t: &str, at: usize) -> Option<String> { let (h, _) = t.get(at..)?.split_once("::")?; Some(h.trim().to_string()) }
/// everything the server says about the current state
pub fn observe(c: &Client, m: &Model, enc: Enc, seed: u64) -> BTreeMap<String, Value> {
    let mut out = BTreeMap::new();
    let files: Vec<String> = m.move_files();
    let mut r = simrt::Rng::new(seed ^ 0x0b5e);
    for p in &files {
        let t = m.text(p).unwrap_or_default();
        let ll = lines(&t).len() as u32 - 1;
        for k in WHOLE.iter().chain(&["organize"]) { let (me, pa) = params(k, p, (0, 0), "", ll); out.insert(format!("{k} {p}"), unordered(k, outcome(&c.ask(me, pa)))); }
        let ids = idents(&t);
        if ids.is_empty() { continue; }
        for (o, _, _) in module_uses(&ids, &t).into_iter().take(5) { let pos = to_pos(&t, enc, o); let (me, pa) = params("def", p, pos, "", ll); let lab = to_pos(&t, Enc::Utf32, o); out.insert(format!("use {p} {}:{}", lab.0, lab.1), unordered("def", outcome(&c.ask(me, pa)))); }
        let n = (24 / files.len()).clamp(2, 8);
        for j in 0..n {
            let (o, w) = r.pick(&ids).clone();
            let pos = to_pos(&t, enc, o + match j % 4 { 0 | 2 => 0, 1 if n < 5 && w.len() % 2 == 0 || j == 5 => w.len() / 2, _ => w.len() });
            let kinds: &[&str] = match j % 4 { 0 => &["hover", "def", "refs", "hl"], 1 => &["compl", "sig"], 2 => &["prep", "rename", "def", "selrange"], _ => &["action", "semr", "hover"] };
            for k in kinds { let (me, pa) = params(k, p, pos, "", ll); let lab = to_pos(&t, Enc::Utf32, to_offset(&t, enc, pos).unwrap_or(0)); out.insert(format!("{k} {p} {}:{}", lab.0, lab.1), unordered(k, outcome(&c.ask(me, pa)))); }
        }
    }
    for q in ["f", "S", "m"] { let (me, pa) = params("wsym", "", (0, 0), q, 0); out.insert(format!("wsym {q}"), unordered("wsym", outcome(&c.ask(me, pa)))); }
    out
}
/// `use A::M` and `friend A::M`: (offset of M, A, M)
pub fn module_uses(ids: &[(usize, String)], t: &str) -> Vec<(usize, String, String)> {
    let mut v = vec![];
    let t = &blank(t);
    for (i, (o, w)) in ids.iter().enumerate() {
        if w != "use" && w != "friend" { continue; }
        if w == "friend" && t[..*o].trim_end().ends_with('(') { continue; }
        let rest = &t[o + w.len()..];
        let Some((head, tail)) = rest.split_once("::") else { continue };
        let a = head.trim();
        if a.is_empty() || !a.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') { continue; }
        let tail2 = tail.trim_start();
        let at = o + w.len() + head.len() + 2 + (tail.len() - tail2.len());
        if let Some((mo, m)) = ids[i..].iter().find(|x| x.0 == at) { if tail2.starts_with(m.as_str()) { v.push((*mo, a.to_string(), m.clone())); } }
    }
    v
}
/// (file, address, name, offset of the name) of the modules declared in a text
pub fn module_decls(t: &str) -> Vec<(String, String, usize)> {
    let t = &blank(t);
    let ids = idents(t);
    let mut v = vec![];
    for (o, w) in &ids {
        if w != "module" { continue; }
        let rest = &t[o + 6..];
        let Some((head, tail)) = rest.split_once("::") else { continue };
        let a = head.trim();
        if a.is_empty() || !a.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') { continue; }
        let at = o + 6 + head.len() + 2 + (tail.len() - tail.trim_start().len());
        if let Some((mo, m)) = ids.iter().find(|x| x.0 == at) { v.push((a.to_string(), m.clone(), *mo)); }
    }
    v
}
/// what the manifests on disk imply for the answers
/// downloaded, not written by the user
fn library(path: &str) -> bool { path.starts_with("/simws/home/.move/") }
fn project_check(c: &Client, m: &Model, enc: Enc, obs: &BTreeMap<String, Value>) {
    let Some((ps, addrs)) = packages(m) else { return };
    let clean = |p: &str| obs.get(&format!("tree {p}")).and_then(|v| v.as_str()).is_some_and(|t| !t.contains("\"kind\":\"ERROR\""));
    let mut mods: Vec<(String, String, String, usize, bool)> = vec![];
    for p in m.move_files() {
        if owner(&ps, &p).is_none() { continue; }
        let Some(t) = m.text(&p) else { continue };
        let ok = clean(&p);
        for (a, n, o) in module_decls(&t) { mods.push((p.clone(), a, n, o, ok)); }
    }
    let value = |a: &str| -> Vec<String> { if let Some(v) = address_value(a) { return vec![v]; } let mut v: Vec<String> = addrs.iter().filter(|x| x.0 == a).map(|x| address_value(&x.1).unwrap_or("_".into())).collect(); v.sort(); v.dedup(); v };
    // Some(true): the same address, None: depends on which declaration of a name counts
    let same = |a: &str, b: &str| -> Option<bool> {
        if a == b { return Some(true); }
        let (x, y) = (value(a), value(b));
        if x.is_empty() || y.is_empty() || x == ["_"] || y == ["_"] { return Some(false); }
        if x.len() > 1 || y.len() > 1 { if x.iter().any(|v| y.contains(v)) { return None; } return Some(false); }
        Some(x == y)
    };
    for (k, v) in obs {
        let mut it = k.splitn(3, ' ');
        let (kind, path, rest) = (it.next().unwrap(), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if kind == "use" && clean(path) {
            let (Some(pk), Some(t)) = (owner(&ps, path), m.text(path)) else { continue };
            if !pk.clear { continue; }
            let pos: Vec<u32> = rest.split(':').filter_map(|x| x.parse().ok()).collect();
            let Some(at) = to_offset(&t, Enc::Utf32, (pos[0], pos[1])) else { continue };
            let Some((_, a, n)) = module_uses(&idents(&t), &t).into_iter().find(|x| x.0 == at) else { continue };
            let (mut sure, mut maybe) = (vec![], vec![]);
            for (p, ma, mn, o, ok) in &mods {
                if *mn != n { continue; }
                if !owner(&ps, p).is_some_and(|q| pk.deps.contains(&q.dir)) { continue; }
                match (same(&a, ma), ok) { (Some(true), true) => sure.push((p, *o)), (Some(false), _) => {} _ => maybe.push(p) }
            }
            c.count("module uses resolved against the manifests", 1);
            if v.get("error").is_some() { continue; }
            let got: Vec<(String, Pos)> = v.as_array().cloned().unwrap_or_else(|| if v.is_object() { vec![v.clone()] } else { vec![] }).iter().filter_map(|l| { let u = l["uri"].as_str().or(l["targetUri"].as_str()).and_then(unuri)?; let r = if l["targetSelectionRange"].is_null() { &l["range"] } else { &l["targetSelectionRange"] }; Some((u, json_pos(&r["start"])?)) }).collect();
            if maybe.is_empty() && sure.is_empty() { if !got.is_empty() && got.iter().all(|g| clean(&g.0)) { c.violation(&["C08", "C03"], "unreachable-module", format!("{k}: {a}::{n} is in no package the manifests make {} depend on, yet it is found at {got:?}", pk.dir)); } }
            else if maybe.is_empty() && sure.len() == 1 {
                let (p, o) = sure[0];
                let want = (p.clone(), to_pos(&m.text(p).unwrap_or_default(), enc, o));
                if got != vec![want.clone()] { c.violation(&["C08", "C03", "C11"], "module-not-found", format!("{k}: {a}::{n} is declared at {want:?} in a package {} depends on, the server says {got:?}", pk.dir)); }
            }
        }
        if kind == "diag" && library(path) && v["items"].as_array().is_some_and(|i| !i.is_empty()) { c.violation(&["C08"], "library-diagnostics", format!("{k}: {path} is part of a downloaded dependency, its findings are reported: {}", brief(v))); }
        if kind == "rename" && v.is_object() && v.get("error").is_none() {
            let files: Vec<String> = v["changes"].as_object().into_iter().flatten().map(|x| x.0.clone()).chain(v["documentChanges"].as_array().into_iter().flatten().filter_map(|x| x["textDocument"]["uri"].as_str().map(String::from))).filter_map(|u| unuri(&u)).collect();
            c.count("renames checked for the packages they change", 1);
            if let Some(f) = files.iter().find(|f| library(f)) { c.violation(&["C08"], "library-renamed", format!("{k}: the rename changes {f}, part of a downloaded dependency")); }
        }
        if kind == "diag" {
            let Some(pk) = owner(&ps, path) else { continue };
            if !pk.clear { continue; }
            if restricted(m, &pk.dir) { c.count("findings of packages without dependencies checked", 1); if let Some(d) = v["items"].as_array().into_iter().flatten().find(|d| matches!(d["code"].as_str(), Some("type-error"))) { c.violation(&["C08"], "restricted", format!("{k}: the dependencies of {} are not resolved, yet {}", pk.dir, brief(d))); } }
            for d in v["items"].as_array().into_iter().flatten() {
                let msg = d["message"].as_str().unwrap_or("");
                let noted = msg.split_once("(note: `").and_then(|x| x.1.split_once("` declared dependency packages are not found")).map(|x| x.0.to_string());
                let want = pk.missing.join(", ");
                if let Some(n) = noted { if n != want { c.violation(&["C08"], "missing-dependencies", format!("{k}: the note names `{n}`, the manifests miss `{want}`")); } }
                else if d["code"] == "unresolved-reference" && msg.ends_with(": cannot resolve") && !want.is_empty() { c.violation(&["C08"], "missing-dependencies", format!("{k}: {msg:?} does not mention the missing packages `{want}`")); }
            }
        }
        if kind == "lens" {
            let Some(pk) = owner(&ps, path) else { continue };
            for l in v.as_array().into_iter().flatten() {
                let args = &l["command"]["arguments"][0]["args"];
                let Some(root) = args["packageRoot"].as_str() else { continue };
                c.count("runnable lenses checked against the manifests", 1);
                if root != pk.dir { c.violation(&["C08"], "lens-package", format!("{k}: {} would run in {root}, the file belongs to {}", l["command"]["title"], pk.dir)); }
                if l["command"]["command"].as_str().is_some_and(|s| s.ends_with("debugTransaction")) && pk.clear {
                    let mut got: Vec<String> = args["depRoots"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).filter(|d| *d != pk.dir).collect();
                    let mut want: Vec<String> = pk.deps.iter().filter(|d| **d != pk.dir).cloned().collect();
                    got.sort(); want.sort();
                    if got != want { c.violation(&["C08"], "lens-dependencies", format!("{k}: debugging would use the packages {got:?}, the manifests make it {want:?}")); }
                }
            }
        }
        if kind == "wsym" && path == "m" {
            let Some(list) = v.as_array() else { continue };
            if list.len() >= 128 { continue; }
            for (p, _, n, o, ok) in &mods {
                if !ok || !n.contains('m') || n.starts_with("__") { continue; }
                let want = pos_json(to_pos(&m.text(p).unwrap_or_default(), enc, *o));
                if !list.iter().any(|s| s["name"] == json!(n) && s["location"]["uri"].as_str().and_then(unuri).as_deref() == Some(p) && s["location"]["range"]["start"] == want) { c.violation(&["C08", "C03"], "symbol-missing", format!("{k}: module {n} of {p} is not listed")); }
            }
            for s in list {
                let (Some(u), Some(n)) = (s["location"]["uri"].as_str().and_then(unuri), s["name"].as_str()) else { continue };
                let (Some(t), Some(a), Some(b)) = (m.text(&u), json_pos(&s["location"]["range"]["start"]), json_pos(&s["location"]["range"]["end"])) else { continue };
                if owner(&ps, &u).is_none() { continue; }
                if let (Some(a), Some(b)) = (to_offset(&t, enc, a), to_offset(&t, enc, b)) { if a <= b && &t[a..b] != n { c.violation(&["C10", "C03"], "symbol-range", format!("{k}: symbol {n} is said to be at {:?} of {u}", &t[a..b])); } }
            }
        }
    }
}
pub fn diff_brief(a: &Value, b: &Value) -> String {
    let (x, y) = (a.to_string(), b.to_string());
    let i = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
    let cut = |s: &str| { let mut st = i.saturating_sub(60); while !s.is_char_boundary(st.min(s.len())) { st -= 1; } let st = st.min(s.len()); let mut e = (i + 160).min(s.len()); while !s.is_char_boundary(e) { e -= 1; } s[st..e.max(st)].to_string() };
    format!("…{}… / …{}…", cut(&x), cut(&y))
}
/// every position sent must exist in the client's text; names must be where the server says they are
pub fn validate(c: &Client, m: &Model, enc: Enc, obs: &BTreeMap<String, Value>) {
    // files of folders that are gone and of packages nobody depends on any more are no longer followed
    project_check(c, m, enc, obs);
    let clean = |p: &str| obs.get(&format!("tree {p}")).and_then(|v| v.as_str()).is_some_and(|t| !t.contains("\"kind\":\"ERROR\""));
    let dirs = project_dirs(m).unwrap_or_default();
    let mut followed = m.clone();
    followed.disk.retain(|p, _| !p.ends_with(".move") || member(&dirs, p));
    let m = &followed;
    for (k, v) in obs {
        let mut it = k.splitn(3, ' ');
        let (kind, path) = (it.next().unwrap(), it.next().unwrap_or(""));
        let mut bad = vec![];
        walk(v, path, m, enc, kind, &mut bad);
        if kind == "sem" || kind == "semr" { if let Some(t) = m.text(path) { tokens(&v["data"], &t, enc, &mut bad); } }
        if kind == "sem" && clean(path) { if let Some(t) = m.text(path) { if let Some(b) = legend_check(&c.i.st.with(|s| s.server_caps.clone()), &v["data"], &t, enc) { c.violation(&["C18"], "legend", format!("{k}: {b}")); } } }
        if kind == "compl" { if let (Some(t), Some(at)) = (m.text(path), label_pos(k)) { completion_edits(v, &t, enc, at, &mut bad); } }
        if let Some(b) = bad.first() { c.violation(&["C10"], "position", format!("{k}: {b}")); }
        if kind == "rename" { rename_check(c, k, path, v, m, enc); }
        if kind == "tree" { tree_check(c, path, v, m); }
    }
}
/// the leaves of the syntax tree the server holds must partition the document, and its positions must be the document's
fn tree_check(c: &Client, path: &str, v: &Value, m: &Model) {
    let (Some(dump), Some(t)) = (v.as_str(), m.text(path)) else { return };
    let Ok(v) = serde_json::from_str::<Value>(dump) else { return };
    let want = t.replace("\r\n", "\n");
    let end = v["end"][0].as_u64().or(v["end"].as_u64());
    if let Some(e) = end { if e as usize != want.len() { c.violation(&["C02", "C03"], "wrong-text", format!("{path}: the server works on a text of {e} bytes where the editor's has {}", want.len())); return; } }
    let mut starts = vec![0usize];
    for (i, b) in want.bytes().enumerate() { if b == b'\n' { starts.push(i + 1); } }
    let mut at = 0;
    let mut todo = vec![&v];
    while let Some(n) = todo.pop() {
        if let Some(ch) = n["children"].as_array() { todo.extend(ch.iter().rev()); continue; }
        let Some(kind) = n["kind"].as_str() else { continue };
        let p = |k: &str| n[k].as_array().map(|x| x.iter().map(|y| y.as_u64().unwrap_or(0) as usize).collect::<Vec<_>>()).filter(|x| x.len() == 3);
        let (Some(s), Some(e)) = (p("start"), p("end")) else { return };
        if s[0] != at || e[0] < s[0] || e[0] > want.len() { c.violation(&["C02", "C03"], "wrong-text", format!("{path}: the leaf {n} does not start where the one before it ends ({at})")); return; }
        at = e[0];
        for x in [&s, &e] {
            let l = starts.iter().rposition(|l| *l <= x[0]).unwrap_or(0);
            if (x[1], x[2]) != (l, x[0] - starts[l]) { c.violation(&["C10", "C04"], "line-table", format!("{path}: offset {} is said to be {}:{} but is {l}:{}", x[0], x[1], x[2], x[0] - starts[l])); return; }
        }
        let Some(text) = want.get(s[0]..e[0]) else { c.violation(&["C02", "C03"], "wrong-text", format!("{path}: {n} splits a character")); return };
        let fits = match kind {
            "WHITESPACE" => text.chars().all(|c| c.is_whitespace()),
            "COMMENT" => text.starts_with("//") || text.starts_with("/*"),
            "IDENT" => text.starts_with('`') || !text.is_empty() && text.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_'),
            "L_PAREN" => text == "(", "R_PAREN" => text == ")", "L_CURLY" => text == "{", "R_CURLY" => text == "}", "COMMA" => text == ",", "SEMICOLON" => text == ";", "COLON_COLON" => text == "::",
            "FUN_KW" => text == "fun", "STRUCT_KW" => text == "struct", "MODULE_KW" => text == "module", "LET_KW" => text == "let", "CONST_KW" => text == "const", "USE_KW" => text == "use",
            _ => true,
        };
        if !fits { c.violation(&["C02", "C03"], "wrong-text", format!("{path}: the server takes {text:?} of the editor's text for a {kind}")); return; }
    }
    if at != want.len() { c.violation(&["C02", "C03"], "wrong-text", format!("{path}: the leaves end at {at} of {}", want.len())); }
}
fn tokens(data: &Value, text: &str, enc: Enc, bad: &mut Vec<String>) {
    let Some(d) = data.as_array() else { return };
    let n: Vec<u32> = d.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    if n.len() % 5 != 0 { bad.push("semantic tokens not in groups of five".into()); return; }
    let (mut l, mut ch) = (0u32, 0u32);
    for t in n.chunks(5) {
        if t[0] > 0 { l += t[0]; ch = t[1]; } else { ch += t[1]; }
        if to_offset(text, enc, (l, ch)).is_none() || to_offset(text, enc, (l, ch + t[2])).is_none() { bad.push(format!("semantic token at {l}:{ch} length {} is not a stretch of the document's text", t[2])); return; }
    }
}
fn label_pos(key: &str) -> Option<(u32, u32)> { let (l, c) = key.rsplit(' ').next()?.split_once(':')?; Some((l.parse().ok()?, c.parse().ok()?)) }
/// the text an item replaces is the word the cursor is in, and the separate range to insert over is the part of it before the cursor
fn completion_edits(v: &Value, text: &str, enc: Enc, at: (u32, u32), bad: &mut Vec<String>) {
    let Some(at) = to_offset(text, Enc::Utf32, at) else { return };
    let off = |r: &Value| Some((to_offset(text, enc, json_pos(&r["start"])?)?, to_offset(text, enc, json_pos(&r["end"])?)?));
    for i in v["items"].as_array().or(v.as_array()).into_iter().flatten() {
        let e = &i["textEdit"];
        if e.is_null() { continue; }
        let rep = if e["range"].is_null() { &e["replace"] } else { &e["range"] };
        let Some((a, b)) = off(rep) else { bad.push(format!("completion edit {e} does not exist in the text")); return };
        if a > at || b < at || text[a..b].contains(|c: char| c.is_whitespace()) { bad.push(format!("completion {} replaces {:?}, which is not the word at the cursor", i["label"], &text[a.min(b)..b])); return; }
        if !e["insert"].is_null() && off(&e["insert"]) != Some((a, at)) { bad.push(format!("completion {}: inserting replaces {}, replacing {}", i["label"], e["insert"], rep)); return; }
    }
}
/// declared names carry the token type their declaration has by the advertised legend
fn legend_check(caps: &Value, data: &Value, text: &str, enc: Enc) -> Option<String> {
    let legend = &caps["semanticTokensProvider"]["legend"];
    let types: Vec<&str> = legend["tokenTypes"].as_array()?.iter().filter_map(|x| x.as_str()).collect();
    let mods = legend["tokenModifiers"].as_array().map_or(0, |a| a.len());
    let n: Vec<u32> = data.as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    let mut at = BTreeMap::new();
    let (mut l, mut ch) = (0u32, 0u32);
    for t in n.chunks_exact(5) {
        if t[0] > 0 { l += t[0]; ch = t[1]; } else { ch += t[1]; }
        let Some(ty) = types.get(t[3] as usize) else { return Some(format!("token type {} is not in the legend of {}", t[3], types.len())) };
        if t[4] >> mods != 0 { return Some(format!("token modifiers {} are not in the legend of {mods}", t[4])); }
        if let (Some(a), Some(b)) = (to_offset(text, enc, (l, ch)), to_offset(text, enc, (l, ch + t[2]))) { at.insert(a, (b, *ty)); }
    }
    let ids = idents(text);
    let shown = blank(text);
    if [('{', '}'), ('(', ')')].iter().any(|(a, b)| shown.matches(*a).count() != shown.matches(*b).count()) { return None; }
    for w in ids.windows(2) {
        let ((o, kw), (p, name)) = (&w[0], &w[1]);
        if shown[*o..*o + kw.len()].trim().is_empty() || !shown[o + kw.len()..*p].trim().is_empty() { continue; }
        if ["inline", "native", "public", "entry", "friend", "package", "spec", "fun", "struct", "const", "use", "enum", "module", "schema", "lemma", "has", "let", "copy", "acquires", "macro"].contains(&name.as_str()) { continue; }
        let want = match kw.as_str() { "struct" => "struct", "const" => "const", "enum" => "enum", "fun" => "function", _ => continue };
        if let Some((b, ty)) = at.get(p) { if *b == p + name.len() && *ty != want { return Some(format!("{kw} {name} is shown as a {ty}")); } }
        if let Some((b, ty)) = at.get(o) { if *b == o + kw.len() && *ty != "keyword" { return Some(format!("the word {kw} is shown as a {ty}")); } }
    }
    None
}
fn walk(v: &Value, path: &str, m: &Model, enc: Enc, kind: &str, bad: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            let mut p = path.to_string();
            for k in ["uri", "targetUri"] { if let Some(u) = o.get(k).and_then(|u| u.as_str()).and_then(unuri) { p = u; } }
            if let Some(u) = o.get("textDocument").and_then(|t| t["uri"].as_str()).and_then(unuri) { p = u; }
            for (k, x) in o {
                if k == "originSelectionRange" { walk(x, path, m, enc, kind, bad); continue; }
                if k == "changes" && x.is_object() { for (u, e) in x.as_object().unwrap() { walk(e, &unuri(u).unwrap_or_default(), m, enc, kind, bad); } continue; }
                if k == "data" { continue; }
                if let (Some(a), Some(b)) = (x.get("start").and_then(json_pos), x.get("end").and_then(json_pos)) {
                    if let Some(t) = m.text(&p) {
                        match (to_offset(&t, enc, a), to_offset(&t, enc, b)) { (Some(i), Some(j)) if i <= j => {
                            if k == "selectionRange" && kind == "symbols" { if let Some(n) = o.get("name").and_then(|n| n.as_str()) { if !t[i..j].contains(n) && !n.contains(&t[i..j]) { bad.push(format!("symbol {n} is said to be named by {:?}", &t[i..j])); } } }
                        } _ => bad.push(format!("range {x} does not exist in {p}")) }
                    }
                } else if k == "position" { if let (Some(a), Some(t)) = (json_pos(x), m.text(&p)) { if to_offset(&t, enc, a).is_none() { bad.push(format!("position {x} does not exist in {p}")); } } }
                else { walk(x, &p, m, enc, kind, bad); }
            }
        }
        Value::Array(a) => for x in a { if let (Some(s), Some(e)) = (x.get("start").and_then(json_pos), x.get("end").and_then(json_pos)) { if let Some(t) = m.text(path) { if to_offset(&t, enc, s).is_none() || to_offset(&t, enc, e).is_none() { bad.push(format!("range {x} does not exist in {path}")); } } } else { walk(x, path, m, enc, kind, bad) } },
        _ => {}
    }
}
/// (path, version, edits) of a workspace edit
pub fn doc_edits(w: &Value) -> Vec<(String, Value, Vec<Value>)> {
    let mut v = vec![];
    if let Some(dc) = w["documentChanges"].as_array() { for d in dc { if let Some(p) = d["textDocument"]["uri"].as_str().and_then(unuri) { v.push((p, d["textDocument"]["version"].clone(), d["edits"].as_array().cloned().unwrap_or_default())); } } }
    if let Some(ch) = w["changes"].as_object() { for (u, e) in ch { if let Some(p) = unuri(u) { v.push((p, Value::Null, e.as_array().cloned().unwrap_or_default())); } } }
    v
}
fn eol_ok(new: &str, text: &str) -> bool {
    if !new.contains('\n') { return true; }
    let crlf = text.contains("\r\n");
    let all_crlf = new.matches('\n').count() == new.matches("\r\n").count();
    if text.contains("\r\n") && text.matches('\n').count() != text.matches("\r\n").count() { return true; }
    if !text.contains('\n') { return true; }
    if crlf { all_crlf } else { !new.contains('\r') }
}
fn rename_check(c: &Client, key: &str, path: &str, v: &Value, m: &Model, enc: Enc) {
    if v.get("error").is_some() || v.is_null() { return; }
    let pos: Vec<u32> = key.rsplit(' ').next().unwrap_or("").split(':').filter_map(|x| x.parse().ok()).collect();
    let Some(t) = m.text(path) else { return };
    let Some(at) = to_offset(&t, Enc::Utf32, (pos[0], pos[1])) else { return };
    let Some((_, old)) = idents(&t).into_iter().find(|(o, w)| *o <= at && at <= o + w.len()) else { return };
    for (p, ver, edits) in doc_edits(v) {
        let Some(pt) = m.text(&p) else { continue };
        let want = m.docs.get(&p).map(|d| json!(d.version)).unwrap_or(Value::Null);
        if !v["documentChanges"].is_null() && ver != want { c.violation(&["C14"], "edit-version", format!("{key}: edit of {p} is addressed to version {ver}, the editor has {want}")); }
        for e in &edits {
            let (a, b) = (json_pos(&e["range"]["start"]).and_then(|x| to_offset(&pt, enc, x)), json_pos(&e["range"]["end"]).and_then(|x| to_offset(&pt, enc, x)));
            let (Some(a), Some(b)) = (a, b) else { c.violation(&["C10"], "position", format!("{key}: edit {e} does not exist in {p}")); continue };
            let seg = &pt[a..b.max(a)];
            if !seg.is_empty() && !seg.contains(old.as_str()) && seg != "Self" && !old.contains(seg) { c.violation(&["C10"], "rename-range", format!("{key}: renaming {old} replaces {seg:?} in {p}")); }
        }
        if apply_text_edits(&pt, enc, &edits).is_none() { c.violation(&["C10"], "rename-overlap", format!("{key}: edits of {p} overlap or do not exist")); }
    }
}
/// edits that fit `text` and keep its line endings
pub fn edits_fit(text: &str, enc: Enc, edits: &[Value]) -> Result<String, String> {
    for e in edits { if !eol_ok(e["newText"].as_str().unwrap_or(""), text) { return Err(format!("edit {} does not keep the document's line endings", brief(e))); } }
    apply_text_edits(text, enc, edits).ok_or_else(|| format!("edits {} do not exist in the text or overlap", brief(&json!(edits))))
}

// ---------------------------------------------------------------------------------- executions
pub struct Done { pub out: simrt::Outcome, pub sh: Sh }
pub fn main_run(plan: &Plan, trace: bool, picks: Option<BTreeMap<u64, usize>>) -> Done {
    let role = Role::Main;
    let disk: BTreeMap<String, Vec<u8>> = plan.disk.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    setup(plan, &role, &disk);
    let shd: Sh = Default::default();
    let (p, s2) = (Arc::new(plan.clone()), shd.clone());
    let m = Model { disk, docs: BTreeMap::new(), config: plan.config.clone(), folders: plan.folders.clone() };
    let out = simrt::run(sim_config(plan, &role, trace, picks), move || {
        if let Some(mut s) = Session::start(p.clone(), Role::Main, m, s2.clone()) {
            for (i, op) in p.ops.iter().enumerate() { if s.is_dead() { break; } s.exec(i, op); }
            if s.server.as_ref().is_some_and(|h| h.is_finished()) { s.rest("end"); }
            if !s.is_dead() { s.end(); }
            s.collect();
        }
        sh(&s2, |x| x.main_done = true);
    });
    let o = sys::capture(false);
    shd.lock().unwrap_or_else(|e| e.into_inner()).out = o;
    Done { out, sh: shd }
}
/// the answers of a server freshly started on `model`
pub fn fresh_run(plan: &Plan, model: &Model, obs_seed: u64) -> Result<(BTreeMap<String, Value>, simrt::Stats), String> {
    setup(plan, &Role::Fresh, &model.disk);
    let shd: Sh = Default::default();
    let (p, s2, m0) = (Arc::new(plan.clone()), shd.clone(), model.clone());
    let out = simrt::run(sim_config(plan, &Role::Fresh, false, None), move || {
        let docs = m0.docs.clone();
        let start = Model { docs: BTreeMap::new(), ..m0.clone() };
        if let Some(mut s) = Session::start(p.clone(), Role::Fresh, start, s2.clone()) {
            s.rest("fresh");
            let mut order: Vec<_> = docs.into_iter().collect();
            let mut r = simrt::Rng::new(p.seed ^ 77);
            for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
            for (path, d) in order { s.c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(&path), "languageId": "move", "version": d.version, "text": d.text}})); s.m.docs.insert(path, d); }
            s.rest("fresh, opened");
            if !s.is_dead() {
                let obs = observe(&s.c, &s.m, s.enc, obs_seed);
                let snap = Snapshot { model: s.m.clone(), obs, views: BTreeMap::new(), label: String::new(), answered_config: None };
                sh(&s.sh, |x| x.snapshots.push(snap));
                s.c.request("shutdown", Value::Null);
                s.c.notify("exit", Value::Null);
                s.await_exit(None);
            }
            s.c.close();
            s.collect();
        }
        sh(&s2, |x| x.main_done = true);
    });
    let g = shd.lock().unwrap_or_else(|e| e.into_inner());
    match g.snapshots.last() { Some(s) => Ok((s.obs.clone(), out.stats)), None => Err(format!("reference run gave no answers: {:?} {:?} {:?}", out.result, g.violations, out.panics)) }
}
/// replays the state changes one by one, at rest, and answers each request in every state it could describe
pub fn serial_run(plan: &Plan, hist: &[(Model, Option<usize>)], wants: &BTreeMap<usize, Vec<Asked>>) -> Result<(BTreeMap<(String, usize), Value>, simrt::Stats), String> {
    setup(plan, &Role::Serial, &hist[0].0.disk);
    let shd: Sh = Default::default();
    let (p, s2, hist, wants) = (Arc::new(plan.clone()), shd.clone(), hist.to_vec(), wants.clone());
    let out = simrt::run(sim_config(plan, &Role::Serial, false, None), move || {
        if let Some(mut s) = Session::start(p.clone(), Role::Serial, hist[0].0.clone(), s2.clone()) {
            s.rest("serial");
            for (k, (_, op)) in hist.iter().enumerate() {
                if let Some(i) = op { let ok = s.exec(*i, &p.ops[*i]); if !ok || s.is_dead() { break; } s.rest("serial step"); if s.is_dead() { break; } }
                for a in wants.get(&k).cloned().unwrap_or_default() {
                    let ans = s.c.ask(&a.method, a.params.clone());
                    let o = unordered(&a.kind, outcome(&ans));
                    sh(&s2, |x| x.serial.insert((a.id.clone(), k), o));
                }
            }
            if !s.is_dead() { s.c.request("shutdown", Value::Null); s.c.notify("exit", Value::Null); s.await_exit(None); }
            s.c.close();
            s.collect();
        }
        sh(&s2, |x| x.main_done = true);
    });
    let g = shd.lock().unwrap_or_else(|e| e.into_inner());
    if !g.main_done { return Err(format!("serial reference failed: {:?} {:?}", out.result, g.violations)); }
    Ok((g.serial.clone(), out.stats))
}

/// is `p` a source file of the package in directory `d`?
pub fn in_sources(d: &str, p: &str) -> bool { p.strip_prefix(d).and_then(|r| r.strip_prefix('/')).is_some_and(|r| ["sources/", "tests/", "scripts/"].iter().any(|s| r.starts_with(s))) }
/// the command-line batch check
pub fn cli_run(plan: &Plan, trace: bool, picks: Option<BTreeMap<u64, usize>>) -> Done {
    let disk: BTreeMap<String, Vec<u8>> = plan.disk.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    cli_once(plan, &Role::Main, &disk, trace, picks)
}
/// one run of the command line over `disk`
pub fn cli_once(plan: &Plan, role: &Role, disk: &BTreeMap<String, Vec<u8>>, trace: bool, picks: Option<BTreeMap<u64, usize>>) -> Done {
    setup(plan, role, disk);
    crate::set_args(&plan.cli);
    let shd: Sh = Default::default();
    let s2 = shd.clone();
    let out = simrt::run(sim_config(plan, role, trace, picks), move || {
        let h = simrt::spawn("process-main", || crate::server_main::sim_entry());
        simrt::block_until("await-exit", Some(2_000_000_000_000), &mut || h.is_finished());
        if h.is_finished() { let r = h.join().unwrap_or_else(|_| "panic".into()); sh(&s2, |x| x.exit = Some(r)); }
        sh(&s2, |x| { x.main_done = true; x.faults = sys::faults(|f| f.counts.clone()); });
    });
    let o = sys::capture(false);
    let changes = std::mem::take(&mut *sys::CHANGES.lock().unwrap_or_else(|e| e.into_inner()));
    let disk = disk_now();
    sh(&shd, |x| { x.out = o; x.changes = changes; x.disk_after = disk; });
    Done { out, sh: shd }
}
/// a language server's diagnostics of every file of a tree
pub fn diag_run(plan: &Plan, model: &Model) -> Result<(BTreeMap<String, Value>, simrt::Stats), String> {
    setup(plan, &Role::Fresh, &model.disk);
    let shd: Sh = Default::default();
    let (p, s2, m0) = (Arc::new(plan.clone()), shd.clone(), model.clone());
    let out = simrt::run(sim_config(plan, &Role::Fresh, false, None), move || {
        if let Some(mut s) = Session::start(p.clone(), Role::Fresh, m0, s2.clone()) {
            s.rest("fresh");
            if !s.is_dead() {
                let mut obs = BTreeMap::new();
                for f in s.m.move_files() { let (me, pa) = params("diag", &f, (0, 0), "", 0); let a = s.c.ask(me, pa); if a.error.is_none() { obs.insert(f, a.result); } }
                let snap = Snapshot { model: s.m.clone(), obs, views: BTreeMap::new(), label: String::new(), answered_config: None };
                sh(&s.sh, |x| x.snapshots.push(snap));
                s.c.request("shutdown", Value::Null);
                s.c.notify("exit", Value::Null);
                s.await_exit(None);
            }
            s.c.close();
            s.collect();
        }
        sh(&s2, |x| x.main_done = true);
    });
    let g = shd.lock().unwrap_or_else(|e| e.into_inner());
    match g.snapshots.last() { Some(s) => Ok((s.obs.clone(), out.stats)), None => Err(format!("reference run gave no answers: {:?} {:?} {:?}", out.result, g.violations, out.panics)) }
}
