//! Checks over the recorded history of a run, against reference executions of the same code.
use crate::lsp::*;
use crate::model::*;
use crate::plan::*;
use crate::run::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub struct Verdict { pub violations: Vec<Violation>, pub refs: u64, pub ref_steps: u64, pub ref_nanos: u64, pub compared: u64, pub inconclusive: Vec<String>, pub kinds: BTreeMap<String, u64> }
impl Verdict {
    fn v(&mut self, props: &[&str], kind: &str, msg: String) { self.violations.push(Violation { props: props.iter().map(|p| p.to_string()).collect(), kind: kind.into(), msg }); }
    fn seen(&mut self, k: &str, n: u64) { *self.kinds.entry(k.into()).or_insert(0) += n; }
    fn add(&mut self, s: &simrt::Stats) { self.refs += 1; self.ref_steps += s.steps; self.ref_nanos += s.sim_nanos; }
}

/// which guarantees a difference from a fresh server speaks about, by what the run did
fn touched(plan: &Plan) -> Vec<&'static str> {
    let mut t = BTreeSet::from(["C03"]);
    for o in &plan.ops { match o {
        Op::Config { .. } => { t.insert("C12"); }
        Op::Folders { .. } => { t.insert("C08"); }
        Op::Disk { changes, .. } => { t.insert("C11"); if changes.iter().any(|c| c.0.ends_with("Move.toml")) { t.insert("C08"); } }
        Op::Close { .. } | Op::Open { .. } | Op::Edit { .. } | Op::Junk { .. } => { t.insert("C02"); }
        Op::Raw { .. } | Op::Faults { .. } => { t.insert("C06"); }
        _ => {}
    } }
    t.into_iter().collect()
}

pub fn judge(plan: &Plan, done: &Done) -> Verdict {
    let mut vd = Verdict { violations: vec![], refs: 0, ref_steps: 0, ref_nanos: 0, compared: 0, inconclusive: vec![], kinds: BTreeMap::new() };
    let sh = done.sh.lock().unwrap_or_else(|e| e.into_inner());
    vd.violations.extend(sh.violations.clone());
    if !sh.main_done {
        let e = done.out.result.clone().err().unwrap_or("the run did not finish".into());
        let last: Vec<String> = done.out.panics.iter().map(|p| format!("{}: {}", p.0, p.1)).collect();
        if !done.out.panics.iter().any(|p| p.0 == "driver") { vd.v(&["C05", "C01", "C07"], "stuck", format!("{e}; panics {last:?}")); }
        else { vd.v(&[], "harness-panic", format!("{last:?}")); }
        return vd;
    }
    if plan.mode == "cli" { drop(sh); if plan.prop == "C23" { fixes(plan, done, &mut vd) } else { cli(plan, done, &mut vd) } return vd; }
    if !vd.violations.is_empty() { return vd; }
    formatting(plan, &sh, &mut vd);
    resolves(plan, &sh, &mut vd);
    if !vd.violations.is_empty() { return vd; }
    let snaps = sh.snapshots.clone();
    let (asked, hist, loaded_at) = (sh.asked.clone(), sh.hist.clone(), sh.loaded_at);
    drop(sh);
    for (i, s) in snaps.iter().enumerate() {
        // the last one always, earlier ones only sometimes
        if i + 1 != snaps.len() && (plan.seed + i as u64) % 2 == 0 && plan.prop != "C12" { continue; }
        fresh(plan, s, &mut vd, 0);
        if !vd.violations.is_empty() { return vd; }
    }
    if let Some(s) = snaps.last() {
        if plan.prop == "C15" { for salt in 1..3 { fresh(plan, s, &mut vd, salt); } }
        if plan.meta_enc { encodings(plan, s, &mut vd); }
        if plan.prop == "C12" || plan.seed % 3 == 0 && SETTINGS.iter().any(|k| setting_value(&s.model.config, k.0).is_some()) { settings(plan, s, &mut vd); }
    }
    if vd.violations.is_empty() && plan.serial { serial(plan, &asked, &hist, loaded_at, &mut vd); }
    vd
}

fn fresh(plan: &Plan, s: &Snapshot, vd: &mut Verdict, salt: u64) {
    // while a manifest cannot be read the server keeps what it had
    let Some(dirs) = project_dirs(&s.model) else { vd.seen("comparisons skipped, manifest unreadable", 1); return };
    let mut pl = plan.clone();
    pl.client = ClientSpec::default();
    pl.faults = FaultSpec::default();
    pl.no_folders_param = false;
    pl.ending = "shutdown".into();
    pl.seed = plan.seed.wrapping_add(salt << 40);
    if salt > 0 { pl.cpus = 1 + salt as usize * 3; }
    match fresh_run(&pl, &s.model, plan.seed) {
        Err(e) => vd.v(&["C07", "C06", "C15"], "reference-failed", e),
        Ok((obs, st)) => {
            vd.add(&st);
            let mut n = 0;
            let open_names = ambiguous(&s.model);
            if open_names { vd.seen("comparisons limited by modules of the same name", 1); }
            for (k, v) in &s.obs {
                let Some(w) = obs.get(k) else { continue };
                let path = k.split(' ').nth(1).unwrap_or("");
                let wsym = k.starts_with("wsym ");
                if !wsym && !member(&dirs, path) { continue; }
                let (v, w) = if wsym { (&in_project(v, &dirs), &in_project(w, &dirs)) } else { (v, w) };
                if open_names && !(k.starts_with("tree ") || k.starts_with("symbols ")) { continue; }
                if obs.get(&format!("tree {path}")).is_some_and(|t| t.get("error").is_some()) { continue; }
                vd.compared += 1;
                if v != w {
                    let mut t = touched(plan);
                    if salt > 0 { t.push("C15"); }
                    t.push("C15");
                    vd.v(&t, "differs-from-fresh", format!("{k}: the running server and a freshly started one say {}", diff_brief(v, w)));
                    n += 1;
                    if n >= 3 { break; }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------- C12
/// what a server with its settings out of the way says, changed the way the settings document
fn settings(plan: &Plan, s: &Snapshot, vd: &mut Verdict) {
    let (Some(dirs), e) = (project_dirs(&s.model), &s.model.config) else { return };
    if ambiguous(&s.model) || s.model.docs.is_empty() && s.obs.is_empty() { return; }
    let mut pl = plan.clone();
    pl.client = ClientSpec::default();
    pl.faults = FaultSpec::default();
    pl.no_folders_param = false;
    pl.ending = "shutdown".into();
    let mut open = s.model.clone();
    open.config = json!({"diagnostics": {"disabled": [], "needsTypeAnnotation": true}});
    for k in ["files", "movefmt"] { if let Some(v) = e.get(k) { open.config[k] = v.clone(); } }
    let (obs, st) = match fresh_run(&pl, &open, plan.seed) { Ok(x) => x, Err(m) => { vd.v(&["C07", "C06"], "reference-failed", m); return } };
    vd.add(&st);
    let on = |k: &str, d: bool| setting_value(e, k).and_then(|v| v.as_bool()).unwrap_or(d);
    let list = |k: &str| setting_value(e, k).map(|v| v.as_array().unwrap().iter().filter_map(|x| x.as_str().map(String::from)).collect::<Vec<_>>());
    let (disabled, only) = (list("diagnostics.disabled").unwrap_or(vec!["missing-const-doc-comment".into()]), list("diagnostics.enableOnly").unwrap_or_default());
    let shown = |c: &str| { if c == "needs-type-annotation" && !on("diagnostics.needsTypeAnnotation", false) { return false; } if only.is_empty() { !disabled.iter().any(|d| d == c) } else { only.iter().any(|d| d == c) } };
    let items = |v: &Value| -> Vec<Value> { v["items"].as_array().or(v.as_array()).cloned().unwrap_or_default() };
    let strings = |mut v: Vec<Value>| { v.sort_by_cached_key(|x| x.to_string()); json!(v) };
    for (k, v) in &s.obs {
        let Some(w) = obs.get(k) else { continue };
        let mut it = k.split(' ');
        let (kind, path) = (it.next().unwrap(), it.next().unwrap_or(""));
        if kind != "wsym" && !member(&dirs, path) { continue; }
        if v.get("error").is_some() || w.get("error").is_some() || obs.get(&format!("tree {path}")).is_some_and(|t| t.get("error").is_some()) { continue; }
        let text = s.model.text(path).unwrap_or_default();
        let (got, want) = match kind {
            "action" => continue,
            "diag" => { if !on("diagnostics.enable", true) { (json!(items(v)), json!([])) } else { (strings(items(v)), strings(items(w).into_iter().filter(|d| shown(d["code"].as_str().unwrap_or(""))).collect())) } }
            "inlay" => {
                let keep = |h: &Value| {
                    let kind = h["kind"].as_u64().unwrap_or(0);
                    if kind == 2 { return on("inlayHints.parameterHints.enable", true); }
                    if kind == 0 { return on("inlayHints.rangeExclusiveHints.enable", true); }
                    let (closure, tuple) = hinted(&text, plan.caps.enc(), &h["position"]);
                    on("inlayHints.typeHints.enable", true) && !(closure && on("inlayHints.typeHints.hideClosureParameter", false)) && !(tuple && !on("inlayHints.typeHints.showForTuples", true))
                };
                let colons = on("inlayHints.renderColons", true);
                let change = |mut h: Value, strip: bool| { h.as_object_mut().unwrap().shift_remove("data"); if strip { let ty = h["kind"] == 1; relabel(&mut h["label"], ty); if ty { h["paddingLeft"] = json!(true); } } h };
                (strings(items(v).into_iter().map(|h| change(h, false)).collect()), strings(items(w).into_iter().filter(|h| keep(h)).map(|h| change(h, !colons)).collect()))
            }
            "lens" => {
                let (all, run, spec) = (on("lens.enable", true), on("lens.run.enable", true), on("lens.specifications.enable", true));
                let whole = setting_value(e, "lens.location") == Some(json!("above_whole_item"));
                let extra = list("tests.extraArgs").unwrap_or_default();
                let change = |mut l: Value, add: bool| {
                    if whole && l["command"].is_null() { l.as_object_mut().unwrap().shift_remove("range"); }
                    if add { if let Some(a) = l.pointer_mut("/command/arguments").and_then(|a| a.as_array_mut()) { for x in a { if let Some(args) = x.get_mut("args").and_then(|x| x.get_mut("args")).and_then(|x| x.as_array_mut()) { if args.get(1).is_some_and(|x| x == "test") { for n in &extra { if !args.iter().any(|x| x == n) { args.push(json!(n)); } } } } } } }
                    l
                };
                (strings(items(v).into_iter().map(|l| change(l, false)).collect()), strings(items(w).into_iter().filter(|l| all && if l["command"].is_null() { spec } else { run }).map(|l| change(l, true)).collect()))
            }
            "compl" if on("completion.autoimport.enable", false) => continue,
            "wsym" => (in_project(v, &dirs), in_project(w, &dirs)),
            _ => (v.clone(), w.clone()),
        };
        vd.seen("answers derived from the settings", 1);
        if got != want { vd.v(&["C12"], "setting-without-effect", format!("{k}: under the settings {e} the server says {}", diff_brief(&got, &want))); return; }
    }
}
/// is a type hint at `pos` for a closure parameter, or for a name directly inside a tuple pattern?
fn hinted(text: &str, enc: Enc, pos: &Value) -> (bool, bool) {
    let t = blank(text);
    let Some(at) = json_pos(pos).and_then(|p| to_offset(text, enc, p)) else { return (false, false) };
    let head = &t[..at];
    let bar = head.rfind('|');
    let lets = head.match_indices("let").filter(|(i, _)| !head[..*i].ends_with(|c: char| c.is_alphanumeric() || c == '_') && !head[i + 3..].starts_with(|c: char| c.is_alphanumeric() || c == '_')).last().map(|x| x.0);
    if bar > lets { return (true, false); }
    let Some(l) = lets else { return (false, false) };
    let mut opened = vec![];
    let b = head.as_bytes();
    for i in l + 3..b.len() { match b[i] { b'(' | b'{' => opened.push(i), b')' | b'}' => { opened.pop(); } _ => {} } }
    let tuple = opened.last().is_some_and(|i| b[*i] == b'(' && !head[l + 3..*i].trim_end().ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '>'));
    (false, tuple)
}
/// a hint's label without its colon
fn relabel(l: &mut Value, ty: bool) {
    if let Some(s) = l.as_str() { *l = json!(if ty { s.strip_prefix(": ").unwrap_or(s) } else { s.strip_suffix(": ").unwrap_or(s) }); return; }
    let Some(a) = l.as_array_mut() else { return };
    if ty { if let Some(s) = a.first().and_then(|p| p["value"].as_str()).map(String::from) { match s.strip_prefix(": ") { Some("") => { a.remove(0); } Some(r) => a[0]["value"] = json!(r), None => {} } } }
    else if let Some(s) = a.last().and_then(|p| p["value"].as_str()).map(String::from) { match s.strip_suffix(": ") { Some("") => { a.pop(); } Some(r) => { let n = a.len() - 1; a[n]["value"] = json!(r); } None => {} } }
}

/// the symbols of the project's own files
fn in_project(v: &Value, dirs: &[String]) -> Value {
    match v.as_array() { Some(a) => json!(a.iter().filter(|x| x["location"]["uri"].as_str().and_then(unuri).is_none_or(|p| member(dirs, &p))).collect::<Vec<_>>()), None => v.clone() }
}
// ---------------------------------------------------------------------------------- C10
fn canon_pos(v: &Value, t: &str, enc: Enc) -> Value { match json_pos(v).and_then(|p| to_offset(t, enc, p)) { Some(o) => pos_json(to_pos(t, Enc::Utf32, o)), None => v.clone() } }
fn canon(v: &Value, path: &str, m: &Model, enc: Enc) -> Value {
    match v {
        Value::Object(o) => {
            if json_pos(v).is_some() && o.len() == 2 { return match m.text(path) { Some(t) => canon_pos(v, &t, enc), None => v.clone() }; }
            let mut p = path.to_string();
            for k in ["uri", "targetUri"] { if let Some(u) = o.get(k).and_then(|u| u.as_str()).and_then(unuri) { p = u; } }
            if let Some(u) = o.get("textDocument").and_then(|t| t["uri"].as_str()).and_then(unuri) { p = u; }
            let mut out = serde_json::Map::new();
            for (k, x) in o {
                let y = match k.as_str() {
                    "originSelectionRange" => canon(x, path, m, enc),
                    "changes" if x.is_object() => Value::Object(x.as_object().unwrap().iter().map(|(u, e)| (u.clone(), canon(e, &unuri(u).unwrap_or_default(), m, enc))).collect()),
                    "data" => Value::Null,
                    "newText" => json!(x.as_str().unwrap_or("").replace("\r\n", "\n")),
                    _ => canon(x, &p, m, enc),
                };
                out.insert(k.clone(), y);
            }
            Value::Object(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| canon(x, path, m, enc)).collect()),
        _ => v.clone(),
    }
}
fn canon_tokens(v: &Value, t: &str, enc: Enc) -> Value {
    let Some(d) = v["data"].as_array() else { return v.clone() };
    let n: Vec<u32> = d.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    let (mut l, mut ch) = (0, 0);
    let mut out = vec![];
    for x in n.chunks(5) {
        if x.len() < 5 { break; }
        if x[0] > 0 { l += x[0]; ch = x[1]; } else { ch += x[1]; }
        let (a, b) = (to_offset(t, enc, (l, ch)), to_offset(t, enc, (l, ch + x[2])));
        let f = |o: Option<usize>| o.map(|o| to_pos(t, Enc::Utf32, o)).map_or(json!("bad"), pos_json);
        out.push(json!([f(a), f(b), x[3], x[4]]));
    }
    json!(out)
}
fn canon_obs(obs: &BTreeMap<String, Value>, m: &Model, enc: Enc) -> BTreeMap<String, Value> {
    obs.iter().filter(|(k, _)| !k.starts_with("tree ")).map(|(k, v)| {
        let mut it = k.split(' ');
        let (kind, path) = (it.next().unwrap(), it.next().unwrap_or(""));
        let c = if kind == "sem" || kind == "semr" { m.text(path).map_or(v.clone(), |t| canon_tokens(v, &t, enc)) } else { canon(v, path, m, enc) };
        (k.clone(), unordered(kind, c))
    }).collect()
}
fn encodings(plan: &Plan, s: &Snapshot, vd: &mut Verdict) {
    let enc = plan.caps.enc();
    let mine = canon_obs(&s.obs, &s.model, enc);
    let others: Vec<Enc> = [Enc::Utf8, Enc::Utf16, Enc::Utf32].into_iter().filter(|e| *e != enc).collect();
    for (j, e) in others.into_iter().enumerate() {
        // the same project with the other line ending as well, in one of the two
        let flip = j == (plan.seed % 2) as usize;
        let conv = |t: &str| { let lf = t.replace("\r\n", "\n"); if t.contains("\r\n") { lf } else { lf.replace('\n', "\r\n") } };
        let mut m = s.model.clone();
        if flip {
            for (p, b) in m.disk.iter_mut() { if p.ends_with(".move") { if let Ok(t) = String::from_utf8(b.clone()) { *b = conv(&t).into_bytes(); } } }
            for d in m.docs.values_mut() { d.text = conv(&d.text); }
        }
        let mut pl = plan.clone();
        pl.client = ClientSpec::default(); pl.faults = FaultSpec::default(); pl.no_folders_param = false; pl.ending = "shutdown".into();
        pl.caps.no_general = false;
        pl.caps.encodings = vec![e];
        match fresh_run(&pl, &m, plan.seed) {
            Err(x) => vd.v(&["C10"], "reference-failed", x),
            Ok((obs, st)) => {
                vd.add(&st);
                let theirs = canon_obs(&obs, &m, e);
                let mut n = 0;
                for (k, v) in &mine {
                    let Some(w) = theirs.get(k) else { continue };
                    vd.compared += 1;
                    if v != w { vd.v(&["C10"], "encoding-dependent", format!("{k}: with {}{} the server says {} (columns in code points)", e.name(), if flip { " and the other line ending" } else { "" }, diff_brief(v, w))); n += 1; if n >= 2 { break; } }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------- C04, C13
fn serial(plan: &Plan, asked: &[(Asked, Option<Answer>)], hist: &[(Model, Option<usize>)], loaded_at: Option<usize>, vd: &mut Verdict) {
    let mut wants: BTreeMap<usize, Vec<Asked>> = BTreeMap::new();
    let mut n = 0;
    for (a, ans) in asked {
        let Some(ans) = ans else { continue };
        if a.kind.starts_with("resolve-") || a.kind == "fmt" || a.kind == "status" || !ans.req.loaded || loaded_at.is_none() { continue; }
        let hi = ans.state.min(hist.len() - 1);
        for k in a.lo..=hi { wants.entry(k).or_default().push(a.clone()); n += 1; }
    }
    if n == 0 { return; }
    let refs = match serial_run(plan, hist, &wants) { Ok((r, st)) => { vd.add(&st); r } Err(e) => { vd.v(&["C04", "C13"], "reference-failed", e); return } };
    for (a, ans) in asked {
        let Some(ans) = ans else { continue };
        if a.kind.starts_with("resolve-") || a.kind == "fmt" || a.kind == "status" || !ans.req.loaded || loaded_at.is_none() { continue; }
        let hi = ans.state.min(hist.len() - 1);
        vd.compared += 1;
        vd.seen(if hi > a.lo { "answers overlapping edits" } else { "answers within one state" }, 1);
        let what = format!("{} {} at {:?} (request {}, states {}..={})", a.kind, a.path, a.pos, a.id, a.lo, hi);
        match ans.code() {
            CANCELLED => { if !a.cancelled { vd.v(&["C13"], "uncancelled", format!("{what}: cancelled although the client did not ask")); } continue; }
            MODIFIED | RETRIGGER => {
                if hi == a.lo { vd.v(&["C13"], "refused-without-cause", format!("{what}: refused with {} although nothing changed", ans.code())); }
                if (ans.code() == RETRIGGER) != (a.kind == "diag") || (ans.code() == RETRIGGER && ans.error.as_ref().unwrap()["data"]["retriggerRequest"] != json!(true)) { vd.v(&["C13"], "wrong-refusal", format!("{what}: refused with {}", ans.error.clone().unwrap())); }
                continue;
            }
            // sent before shutdown, interrupted and tried again after it
            -32600 if ans.after_shutdown => continue,
            _ => {}
        }
        let got = unordered(&a.kind, outcome(ans));
        let cands: Vec<&Value> = (a.lo..=hi).filter_map(|k| refs.get(&(a.id.clone(), k))).collect();
        if cands.is_empty() { continue; }
        if !cands.iter().any(|c| **c == got) {
            let default = got.is_null() || got.as_array().is_some_and(|v| v.is_empty()) || got["items"].as_array().is_some_and(|v| v.is_empty()) || got["error"] == json!(-32603);
            let tags: &[&str] = if default { &["C13", "C04", "C10"] } else { &["C04", "C13", "C10"] };
            vd.v(tags, "no-such-state", format!("{what}: answered {} which holds in none of the states; nearest {}", brief(&got), diff_brief(&got, cands.last().unwrap())));
        }
    }
}

// ---------------------------------------------------------------------------------- C09
fn formatting(plan: &Plan, sh: &Shared, vd: &mut Verdict) {
    let enc = plan.caps.enc();
    let mode = plan.fmt.as_str();
    let mut inputs: BTreeSet<String> = BTreeSet::new();
    let mut any = false;
    for (a, ans) in &sh.asked {
        if a.kind != "fmt" { continue; }
        let Some(ans) = ans else { continue };
        any = true;
        vd.seen("formatting answers", 1);
        let hi = ans.state.min(sh.hist.len() - 1);
        // while files are being (re)scanned edits wait and answers are about the text before them
        let exact = plan.serial && ans.req.loaded;
        let lo = if exact { a.lo } else { 0 };
        let mut texts: Vec<String> = (lo..=hi).filter_map(|k| sh.hist[k].0.text(&a.path)).collect();
        // (and the file may have been scanned before the notification that opens it is acted on)
        if !exact { texts.extend((0..=hi).filter_map(|k| sh.hist[k].0.disk.get(&a.path).and_then(|b| String::from_utf8(b.clone()).ok()))); }
        for t in &texts { inputs.insert(t.clone()); inputs.insert(t.replace("\r\n", "\n")); }
        let cfgs: Vec<bool> = (lo..=hi).map(|k| !sh.hist[k].0.config["movefmt"]["path"].is_null()).collect();
        let what = format!("formatting {} (formatter {mode}, states {}..={hi})", a.path, a.lo);
        if let Some(e) = &ans.error {
            // refusals must be explicable
            let ok = a.cancelled && ans.code() == CANCELLED || (ans.code() == MODIFIED && (hi > a.lo || !plan.serial || !ans.req.loaded)) || (ans.code() == -32603 && !ans.req.loaded) || fmt_output(mode, "x").is_none() || plan.faults != FaultSpec::default() || (lo..=hi).any(|k| sh.hist[k].0.text(&a.path).is_none());
            if !ok { vd.v(&["C09"], "fmt-error", format!("{what}: error {e} although the formatter succeeded")); }
            continue;
        }
        if ans.result.is_null() || ans.result.as_array().is_some_and(|v| v.is_empty()) {
            let loading = !ans.req.loaded;
            let ok = loading || texts.is_empty() || (lo..=hi).any(|k| sh.hist[k].0.text(&a.path).is_none()) || cfgs.contains(&false) || texts.iter().any(|t| fmt_output(mode, t).is_none_or(|o| o == t.replace("\r\n", "\n"))) || plan.faults != FaultSpec::default();
            if !ok { vd.v(&["C09"], "fmt-nothing", format!("{what}: no edits although the formatter changes the text")); }
            continue;
        }
        let edits = ans.result.as_array().cloned().unwrap_or_default();
        // the line ending may be the one the document is getting
        let eols: BTreeSet<bool> = texts.iter().map(|t| t.contains("\r\n")).collect();
        let ok = texts.iter().any(|t| match (fmt_output(mode, t), if eols.len() > 1 { apply_text_edits(t, enc, &edits).ok_or(String::new()) } else { edits_fit(t, enc, &edits) }) {
            (Some(o), Ok(new)) if eols.len() > 1 => new.replace("\r\n", "\n") == o,
            (Some(o), Ok(new)) => { let want = if t.contains("\r\n") { o.replace('\n', "\r\n") } else { o.clone() }; new == want || (mixed(t) && new.replace("\r\n", "\n") == o) }
            _ => false,
        });
        if !ok { vd.v(&["C09", "C10"], "fmt-edits", format!("{what}: edits {} do not produce the formatter's output for the document; {:?}", brief(&ans.result), texts.first().map(|t| edits_fit(t, enc, &edits).map(|n| clip(&n, 200))))); }
        if fmt_output(mode, "x").is_none() { vd.v(&["C09"], "fmt-unsafe", format!("{what}: a failing formatter yielded edits")); }
    }
    for l in &sh.fmt {
        let t = String::from_utf8_lossy(&l.input).into_owned();
        if !inputs.contains(&t) && !sh.hist.iter().any(|h| h.0.docs.values().any(|d| d.text == t || d.text.replace("\r\n", "\n") == t) || h.0.disk.values().any(|b| b.as_slice() == t.as_bytes() || String::from_utf8_lossy(b).replace("\r\n", "\n") == t)) { vd.v(&["C09"], "fmt-input", format!("the formatter was given {:?}, which the document never was", clip(&t, 200))); }
        vd.seen("formatter runs", 1);
        // it runs where the document lies, so that it finds the `movefmt.toml` meant for it
        if plan.faults == FaultSpec::default() {
            let is = |t: &str| t.as_bytes() == l.input.as_slice() || t.replace("\r\n", "\n").as_bytes() == l.input.as_slice();
            let of: BTreeSet<&str> = sh.asked.iter().filter(|(a, _)| a.kind == "fmt" && sh.hist.iter().any(|h| h.0.text(&a.path).is_some_and(|t| is(&t)))).filter_map(|(a, _)| a.path.rsplit_once('/').map(|x| x.0)).collect();
            let there = |d: &str| sh.hist.iter().all(|h| h.0.disk.keys().any(|p| p.starts_with(&format!("{d}/"))));
            if !of.is_empty() && of.iter().all(|d| there(d)) { vd.seen("formatter runs whose folder is checked", 1); if !of.contains(l.cwd.as_str()) { vd.v(&["C09"], "fmt-folder", format!("the formatter ran in {:?}, the document lies in {of:?}", l.cwd)); } }
        }
        if let Some(x) = plan.config["movefmt"]["extraArgs"].as_array() {
            for a in x { if !sh.hist.iter().any(|h| h.0.config["movefmt"]["extraArgs"] != plan.config["movefmt"]["extraArgs"]) && !l.args.iter().any(|b| b == a.as_str().unwrap_or("")) { vd.v(&["C09", "C12"], "fmt-args", format!("configured argument {a} was not passed: {:?}", l.args)); } }
        }
    }
    if any && mode == "slow" {
        // the formatter sleeps four simulated seconds: nobody else may wait for it
        for (a, ans) in &sh.asked {
            if a.kind == "fmt" { continue; }
            let Some(ans) = ans else { continue };
            let d = ans.at_ns - ans.req.at_ns;
            if d > 3_500_000_000 && sh.fmt.iter().any(|l| l.start_ns < ans.at_ns && l.end_ns > ans.req.at_ns) { vd.v(&["C09", "C05"], "fmt-delays", format!("{} {} took {} simulated ms while a formatter was running", a.kind, a.path, d / 1_000_000)); }
        }
    }
}
fn mixed(t: &str) -> bool { t.contains("\r\n") && t.matches('\n').count() != t.matches("\r\n").count() }
fn clip(s: &str, n: usize) -> String { s.chars().take(n).collect() }

// ---------------------------------------------------------------------------------- C14
fn resolves(plan: &Plan, sh: &Shared, vd: &mut Verdict) {
    let enc = plan.caps.enc();
    for (a, ans) in &sh.asked {
        let (Some(ans), Some((item, lo0))) = (ans, &a.resolve_of) else { continue };
        let hi = ans.state.min(sh.hist.len() - 1);
        let ver = |k: usize| sh.hist[k].0.docs.get(&a.path).map(|d| d.version);
        let text0 = sh.hist[*lo0].0.text(&a.path);
        let stale = (a.lo..=hi).all(|k| sh.hist[k].0.text(&a.path) != text0) && text0.is_some();
        let same = (*lo0..=hi).all(|k| sh.hist[k].0 == sh.hist[*lo0].0) && ver(*lo0).is_some() && ans.req.loaded;
        vd.seen(&format!("{} {}", a.kind, if stale { "after the document changed" } else if same { "unchanged" } else { "other" }), 1);
        let r = &ans.result;
        let what = format!("{} of {} (states {}, {}..={hi})", a.kind, brief(item), lo0, a.lo);
        if ans.error.is_some() {
            if same && !a.cancelled && ans.code() != MODIFIED { vd.v(&["C14"], "resolve-refused", format!("{what}: refused with {} although the document is unchanged", ans.error.clone().unwrap())); }
            continue;
        }
        let kind = a.kind.strip_prefix("resolve-").unwrap_or("");
        // the original answer may itself be for a later state than lo0; only its own version counts
        let item_ver = item["data"]["version"].as_i64();
        let stale = match item_ver { Some(v) => stale && (a.lo..=hi).all(|k| ver(k).map(|x| x as i64) != Some(v)), None => false };
        match kind {
            "action" => {
                // (an edit the action came with is addressed to the version it was made for)
                let de = if r["edit"] == item["edit"] { vec![] } else { doc_edits(&r["edit"]) };
                if stale && !de.is_empty() && item["edit"].is_null() { vd.v(&["C14"], "stale-resolve", format!("{what}: resolved into {} although the document changed", brief(&r["edit"]))); }
                if same && item["edit"].is_null() && !item["data"].is_null() && de.is_empty() { vd.v(&["C14"], "unresolved", format!("{what}: not resolved although nothing changed: {}", brief(r))); }
                for (p, v, e) in &de {
                    let fits = (a.lo..=hi).any(|k| sh.hist[k].0.text(p).is_some_and(|t| edits_fit(&t, enc, e).is_ok()) && (sh.hist[k].0.docs.get(p).is_none_or(|d| *v == json!(d.version)) || r["edit"]["documentChanges"].is_null()))
                        || v.is_null() && (a.lo..=hi).any(|k| !sh.hist[k].0.docs.contains_key(p)) && (0..=hi).any(|k| sh.hist[k].0.text(p).is_some_and(|t| edits_fit(&t, enc, e).is_ok()));
                    if !fits { vd.v(&["C14", "C10"], "edit-misfit", format!("{what}: edit {} for version {v} of {p} fits no state", brief(&json!(e)))); }
                }
            }
            "inlay" => {
                let extra = ["tooltip", "textEdits"].iter().any(|k| item[*k].is_null() && !r[*k].is_null());
                let moved = r["position"] != item["position"];
                if stale && (extra || moved) { vd.v(&["C14"], "stale-resolve", format!("{what}: resolved into {} although the document changed", brief(r))); }
                if stale && label_locations(&r["label"]) > label_locations(&item["label"]) { vd.v(&["C14"], "stale-resolve", format!("{what}: given locations {} although the document changed", brief(&r["label"]))); }
                if moved && same { vd.v(&["C14"], "resolve-differs", format!("{what}: resolved into another position {}", brief(r))); }
            }
            "lens" => {
                if stale && item["command"].is_null() && !r["command"].is_null() && r["command"]["arguments"].as_array().is_some_and(|x| !x.is_empty()) { vd.v(&["C14"], "stale-resolve", format!("{what}: resolved into {} although the document changed", brief(r))); }
                if r["range"] != item["range"] { vd.v(&["C14"], "resolve-differs", format!("{what}: resolved with another range {}", brief(r))); }
                if same && item["command"].is_null() && !item["data"].is_null() && r["command"].is_null() { vd.v(&["C14"], "unresolved", format!("{what}: not resolved although nothing changed: {}", brief(r))); }
            }
            _ => {
                let ed = r["additionalTextEdits"].as_array().cloned().unwrap_or_default();
                if !ed.is_empty() && item["additionalTextEdits"].is_null() && !(a.lo..=hi).any(|k| sh.hist[k].0.text(&a.path).is_some_and(|t| apply_text_edits(&t, enc, &ed).is_some())) { vd.v(&["C14"], "edit-misfit", format!("{what}: {} fits no state", brief(&json!(ed)))); }
            }
        }
    }
    // edits in direct answers are addressed to a version of the window and fit it
    for (a, ans) in &sh.asked {
        let Some(ans) = ans else { continue };
        if ans.error.is_some() || !matches!(a.kind.as_str(), "rename" | "action" | "organize") { continue; }
        let hi = ans.state.min(sh.hist.len() - 1);
        let mut all = vec![];
        if a.kind == "action" { for x in ans.result.as_array().into_iter().flatten() { all.push(x["edit"].clone()); } } else { all.push(ans.result.clone()); }
        for e in all { for (p, v, ed) in doc_edits(&e) {
            vd.seen("document edits", 1);
            let fits = (a.lo..=hi).any(|k| sh.hist[k].0.text(&p).is_none_or(|t| edits_fit(&t, enc, &ed).is_ok()) && (e["documentChanges"].is_null() || sh.hist[k].0.docs.get(&p).map_or(v.is_null(), |d| v == json!(d.version))))
                // the disk text of a file that is not open arrives in its own time: until then the last text known counts
                || v.is_null() && (a.lo..=hi).any(|k| !sh.hist[k].0.docs.contains_key(&p)) && (0..=hi).any(|k| sh.hist[k].0.text(&p).is_some_and(|t| edits_fit(&t, enc, &ed).is_ok()));
            if !fits {
                let why = sh.hist[hi].0.text(&p).map(|t| edits_fit(&t, enc, &ed).err());
                vd.v(&["C14", "C10", "C04"], "edit-misfit", format!("{} {}: edit {} for version {v} of {p} fits no state {}..={hi}: {why:?}", a.kind, a.path, brief(&json!(ed)), a.lo)); }
        } }
    }
}
fn label_locations(v: &Value) -> usize { v.as_array().map_or(0, |a| a.iter().filter(|p| !p["location"].is_null() || !p["command"].is_null()).count()) }

// ---------------------------------------------------------------------------------- C17
type Finding = (String, String, String, String, usize, usize);
/// findings printed: (path, severity, code, message, start, end)
pub fn printed(err: &str) -> Vec<Finding> {
    let mut v: Vec<Finding> = vec![];
    let mut head: Option<(String, String, String)> = None;
    for l in err.lines() {
        if let Some(rest) = l.strip_prefix("  ") {
            if let (Some((s, c, m)), Some(i)) = (&head, rest.rfind(".move:")) {
                let (p, r) = (&rest[..i + 5], &rest[i + 6..]);
                let r = r.split(' ').next().unwrap_or("");
                if let Some((a, b)) = r.split_once("..") { if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) { v.push((p.to_string(), s.clone(), c.clone(), m.clone(), a, b)); head = None; continue; } }
            }
        }
        for s in ["Error", "Warning", "Note"] { if let Some(r) = l.strip_prefix(s).and_then(|r| r.strip_prefix('[')) { if let Some((c, m)) = r.split_once("]: ") { head = Some((s.to_string(), c.to_string(), m.to_string())); } } }
    }
    v.sort();
    v
}
fn cli(plan: &Plan, done: &Done, vd: &mut Verdict) {
    let (out, exit, panics) = { let s = done.sh.lock().unwrap_or_else(|e| e.into_inner()); (s.out.clone(), s.exit.clone(), done.out.panics.clone()) };
    let Some(exit) = exit else { vd.v(&["C17", "C05"], "cli-stuck", "the batch check did not end".into()); return };
    let err = String::from_utf8_lossy(&out.1).into_owned();
    let got = printed(&err);
    let root = cli_root(plan);
    let lost = |p: &str| plan.unreadable.iter().any(|u| u == p);
    if root.ends_with(".move") && (lost(&root) || panics.iter().any(|p| p.1.contains("cannot find file"))) && !exit.starts_with("Ok(ExitCode(unix_exit_status(0)") { vd.seen("the file to check cannot be read", 1); return }
    if exit.contains("panic") || !exit.starts_with("Ok") || !panics.is_empty() { vd.v(&["C17"], "cli-failed", format!("the batch check ended with {exit}; {panics:?}")); return; }
    let disk: BTreeMap<String, Vec<u8>> = plan.disk.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    // reference: what the language server reports for every file of the packages below the path
    let mut cfg = json!({"diagnostics": {"needsTypeAnnotation": true, "disabled": []}});
    for w in plan.cli.windows(2) { match w[0].as_str() { "--disable" => cfg["diagnostics"]["disabled"] = json!(w[1].split(',').collect::<Vec<_>>()), "--enable-only" => cfg["diagnostics"]["enableOnly"] = json!(w[1].split(',').collect::<Vec<_>>()), _ => {} } }
    let kinds: Option<Vec<String>> = plan.cli.windows(2).find(|w| w[0] == "--kinds").map(|w| w[1].split(',').map(|k| match k { "error" => "Error", "warn" => "Warning", _ => "Note" }.to_string()).collect());
    let dir = if root.ends_with(".move") { let mut d = root.clone(); while let Some((a, _)) = d.clone().rsplit_once('/') { d = a.to_string(); if disk.contains_key(&format!("{d}/Move.toml")) { break; } } d } else { root.clone() };
    // checking one file loads its package and the packages that depends on; an editor opened there would load nested packages too
    if root.ends_with(".move") && disk.keys().any(|p| p.ends_with("/Move.toml") && p.starts_with(&format!("{dir}/")) && *p != format!("{dir}/Move.toml")) { vd.seen("one file, nested packages: not compared", 1); return }
    let m = Model { disk: disk.clone(), docs: BTreeMap::new(), config: cfg, folders: vec![dir.clone()] };
    let mut pl = plan.clone();
    pl.mode = "lsp".into();
    pl.caps = Caps::vscode();
    pl.caps.encodings = vec![Enc::Utf8];
    let (diags, st) = match diag_run(&pl, &m) { Ok(x) => x, Err(e) => { vd.inconclusive.push(e); return } };
    vd.add(&st);
    let mut want: Vec<Finding> = vec![];
    let mut manifests: Vec<String> = disk.keys().filter(|p| p.ends_with("/Move.toml") && p.starts_with(&format!("{dir}/")) && !lost(p)).map(|p| p.trim_end_matches("/Move.toml").to_string()).collect();
    manifests.retain(|d| manifests_ok(&disk, d));
    for (p, v) in &diags {
        if root.ends_with(".move") { if *p != root { continue; } }
        else if !manifests.iter().any(|d| crate::run::in_sources(d, p)) { continue; }
        let Some(t) = m.text(p) else { continue };
        if lost(p) { continue; }
        let t = t.replace("\r\n", "\n");
        for d in v["items"].as_array().into_iter().flatten() {
            let sev = match d["severity"].as_u64() { Some(1) => "Error", Some(2) => "Warning", Some(3) => "Note", _ => continue }; // hints are for editors only
            if kinds.as_ref().is_some_and(|k| !k.iter().any(|x| x == sev)) { continue; }
            let (a, b) = (json_pos(&d["range"]["start"]).and_then(|x| to_offset(&t, Enc::Utf8, x)), json_pos(&d["range"]["end"]).and_then(|x| to_offset(&t, Enc::Utf8, x)));
            let code = d["code"].as_str().unwrap_or("").to_string();
            want.push((p.clone(), sev.into(), code, d["message"].as_str().unwrap_or("").lines().next().unwrap_or("").to_string(), a.unwrap_or(usize::MAX), b.unwrap_or(usize::MAX)));
        }
    }
    want.sort();
    vd.compared += want.len() as u64 + 1;
    vd.seen("batch findings", want.len() as u64);
    let missing: Vec<&Finding> = diff(&want, &got);
    let extra: Vec<&Finding> = diff(&got, &want);
    if !missing.is_empty() { vd.v(&["C17"], "finding-missing", format!("{:?}: {} of {} findings were not printed, first {:?}", plan.cli, missing.len(), want.len(), missing[0])); }
    // without a package graph the check of a directory leaves out the findings that need one, the check of a file does not
    let no_graph = root.ends_with(".move") && plan.unreadable.iter().any(|u| u.ends_with("Move.toml"));
    if !extra.is_empty() && !no_graph { vd.v(&["C17"], "finding-extra", format!("{:?}: {} findings are printed that the files do not have (or printed twice), first {:?}", plan.cli, extra.len(), extra[0])); }
    let errs = want.iter().any(|f| f.1 == "Error");
    let failed = exit.contains("unix_exit_status(1)") || exit.contains("ExitCode(1)") || exit.contains("(1)");
    if manifests.is_empty() && !root.ends_with(".move") { return; }
    if errs != failed && !no_graph { vd.v(&["C17"], "exit-status", format!("{:?}: exit {exit} although there {} an error among the findings", plan.cli, if errs { "is" } else { "is not" })); }
}
fn manifests_ok(disk: &BTreeMap<String, Vec<u8>>, d: &str) -> bool { disk.get(&format!("{d}/Move.toml")).is_some_and(|b| !b.starts_with(b"[package\n")) }
fn diff<'a>(a: &'a [Finding], b: &[Finding]) -> Vec<&'a Finding> {
    let mut left: BTreeMap<&Finding, i64> = BTreeMap::new();
    for x in b { *left.entry(x).or_insert(0) += 1; }
    a.iter().filter(|x| { let e = left.entry(x).or_insert(0); *e -= 1; *e < 0 }).collect()
}

fn cli_root(plan: &Plan) -> String { let r = &plan.cli[1]; let mut v: Vec<&str> = vec![]; let full = if r.starts_with('/') { r.clone() } else { format!("/simws/w/{r}") }; for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } } format!("/{}", v.join("/")) }

// ---------------------------------------------------------------------------------- C23
fn fixes(plan: &Plan, done: &Done, vd: &mut Verdict) {
    let (exit, panics, changes, after, full) = { let s = done.sh.lock().unwrap_or_else(|e| e.into_inner()); (s.exit.clone(), done.out.panics.clone(), s.changes.clone(), s.disk_after.clone(), s.faults.get("disk_full").copied().unwrap_or(0) > 0) };
    let Some(exit) = exit else { vd.v(&["C23"], "cli-stuck", "applying the fixes did not end".into()); return };
    let root = cli_root(plan);
    let lost = |p: &str| plan.unreadable.iter().any(|u| u == p);
    let disk: BTreeMap<String, Vec<u8>> = plan.disk.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    let manifests: Vec<String> = disk.keys().filter(|p| p.ends_with("/Move.toml") && p.starts_with(&format!("{root}/"))).map(|p| p.trim_end_matches("/Move.toml").to_string()).collect();
    let selected = |p: &str| if root.ends_with(".move") { p == root } else { p.ends_with(".move") && manifests.iter().any(|d| crate::run::in_sources(d, p)) };
    let what = &plan.cli;
    let endless = |d: &Done| d.sh.lock().unwrap_or_else(|e| e.into_inner()).faults.contains_key("endless");
    let last = |d: &Done| { let s = d.sh.lock().unwrap_or_else(|e| e.into_inner()); let e = String::from_utf8_lossy(&s.out.1).into_owned(); let l: Vec<&str> = e.lines().collect(); l[l.len().saturating_sub(3)..].join(" | ") };
    if endless(done) { vd.v(&["C23"], "endless", format!("{what:?}: thousands of fixes were applied and there was still one: {}", last(done))); return }
    let ok = exit.starts_with("Ok(ExitCode(unix_exit_status(0)");
    if full && ok { vd.v(&["C23"], "failure-hidden", format!("{what:?}: the disk was full, yet the exit status says success")); }
    if root.ends_with(".move") && (lost(&root) || plan.unreadable.iter().any(|u| u.ends_with("Move.toml")) || panics.iter().any(|p| p.1.contains("cannot find file")) || disk.iter().any(|(k, v)| k.ends_with("/Move.toml") && v.starts_with(b"[package\n\n") || v == b"[package\n")) && !ok { vd.seen("the file to fix cannot be read", 1); return }
    if !full && (!exit.starts_with("Ok") || !panics.is_empty()) { vd.v(&["C23"], "cli-failed", format!("{what:?} ended with {exit}; {panics:?}")); return; }
    // the same without faults, in another order of everything
    let mut pl = plan.clone();
    pl.space = None;
    let other = cli_once(&pl, &Role::Fresh, &disk, false, None);
    vd.add(&other.out.stats);
    if endless(&other) { vd.v(&["C23"], "endless", format!("{what:?}: thousands of fixes were applied and there was still one: {}", last(&other))); return }
    let (o_changes, o_after, o_exit) = { let s = other.sh.lock().unwrap_or_else(|e| e.into_inner()); (s.changes.clone(), s.disk_after.clone(), s.exit.clone()) };
    if !o_exit.as_ref().is_some_and(|e| e.starts_with("Ok")) { vd.v(&["C23"], "cli-failed", format!("{what:?} ended with {o_exit:?}; {:?}", other.out.panics)); return; }
    let mut whole: BTreeSet<(String, Option<Vec<u8>>)> = disk.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    for (call, p, c) in &o_changes { if matches!(*call, "close" | "rename") { whole.insert((p.clone(), c.clone())); } }
    vd.seen("crash points", changes.len() as u64);
    vd.seen("files rewritten", o_after.iter().filter(|(k, v)| disk.get(*k) != Some(*v)).count() as u64);
    for (call, p, c) in &changes {
        vd.compared += 1;
        if !disk.contains_key(p) { continue; }
        if !selected(p) { vd.v(&["C23"], "changed-outside", format!("{what:?}: {call} on {p}, which is not one of the selected files")); return; }
        if !whole.contains(&(p.clone(), c.clone())) { vd.v(&["C23"], "torn-file", format!("{what:?}: after {call} the file {p} holds {} of {} bytes: neither its old text nor a fixed one", c.as_ref().map_or(0, |c| c.len()), disk[p].len())); return; }
    }
    if !full {
        for (k, v) in &o_after { if after.get(k) != Some(v) { vd.v(&["C23"], "order-dependent", format!("{what:?}: {k} ends up different when directories are listed in another order")); return; } }
        for k in after.keys() { if !disk.contains_key(k) { vd.v(&["C23"], "left-behind", format!("{what:?}: {k} is left behind")); return; } }
    }
    // files that parsed still parse, and keep their line ending
    let mut lp = plan.clone();
    lp.mode = "lsp".into();
    lp.unreadable.clear();
    lp.caps = Caps::vscode();
    let dir = if root.ends_with(".move") { let mut d = root.clone(); while let Some((a, _)) = d.clone().rsplit_once('/') { d = a.to_string(); if disk.contains_key(&format!("{d}/Move.toml")) { break; } } d } else { root.clone() };
    let mut broken: Vec<BTreeMap<String, u64>> = vec![];
    for dk in [&disk, &o_after] {
        let m = Model { disk: dk.clone(), docs: BTreeMap::new(), config: json!({}), folders: vec![dir.clone()] };
        match diag_run(&lp, &m) {
            Ok((d, st)) => { vd.add(&st); broken.push(d.into_iter().map(|(p, v)| (p, v["items"].as_array().into_iter().flatten().filter(|x| x["code"] == "syntax-error").count() as u64)).collect()); }
            Err(e) => { vd.inconclusive.push(e); return }
        }
    }
    for (p, n) in &broken[1] { if *n > 0 && broken[0].get(p) == Some(&0) { vd.v(&["C23"], "broken-syntax", format!("{what:?}: {p} parsed before the fixes and does not afterwards: {}", brief(&json!(String::from_utf8_lossy(&o_after[p]))))); return; } }
    for (p, v) in &o_after { let crlf = |b: &[u8]| b.windows(2).any(|w| w == b"\r\n"); if let Some(o) = disk.get(p) { if v != o && crlf(o) && !crlf(v) && v.contains(&b'\n') { vd.v(&["C23"], "line-ending", format!("{what:?}: {p} had CRLF line ends and now has LF")); return; } } }
}
