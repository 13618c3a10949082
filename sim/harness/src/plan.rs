//! A plan is one fully resolved test case: everything except the schedule (which a seed decides) is in it.
use crate::r#gen::*;
use crate::lsp::{Caps, ClientSpec};
use crate::model::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) { Ok(t) => t.serialize(s), Err(_) => json!({"hex": self.0.iter().map(|b| format!("{b:02x}")).collect::<String>()}).serialize(s) }
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        if let Some(s) = v.as_str() { return Ok(Blob(s.as_bytes().to_vec())); }
        let h = v["hex"].as_str().unwrap_or("");
        Ok(Blob((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Op {
    Open { path: String, #[serde(default, skip_serializing_if = "Option::is_none")] text: Option<String> },
    Edit { path: String, edits: Vec<Edit> },
    /// a content change that fits no text, then the whole text (in the same notification, or in the next)
    Junk { path: String, range: ((u32, u32), (u32, u32)), text: String, apart: bool },
    Close { path: String },
    Save { path: String },
    /// files written (Some) or removed (None); events after `delay_us`, `repeat` times
    Disk { changes: Vec<(String, Option<Blob>)>, delay_us: u64, repeat: u32 },
    Req { kind: String, path: String, pos: (u32, u32), #[serde(default)] arg: String },
    /// resolve an item of the most recent answer of that kind
    Resolve { kind: String, n: usize },
    /// `twin`: not that identifier, but the one of the other type that reads the same
    Cancel { back: usize, #[serde(default)] twin: bool },
    Await,
    Config { value: Value },
    Folders { add: Vec<String>, remove: Vec<String> },
    Raw { msg: Value },
    Sleep { us: u64 },
    Settle,
    Check,
    Faults { on: bool },
    Fmt { mode: String },
    /// server requests answered only after this many microseconds from now on
    Stall { us: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct FaultSpec { pub open: u32, pub read: u32, pub short: u32, pub dir: u32, pub stat: u32, #[serde(default)] pub spawn: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pol { Random(u64), Pct(usize, u64), Starve(String, u64, u64), Explicit }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub mode: String,
    pub policy: Pol,
    pub cpus: usize,
    pub chan_cap: Option<usize>,
    pub pipe_cap: usize,
    pub faults: FaultSpec,
    pub caps: Caps,
    pub client: ClientSpec,
    pub config: Value,
    pub disk: BTreeMap<String, Blob>,
    pub folders: Vec<String>,
    pub no_folders_param: bool,
    pub fmt: String,
    pub ops: Vec<Op>,
    /// shutdown | exit | eof | shutdown_exit_busy | noinit ...
    pub ending: String,
    pub serial: bool,
    pub meta_enc: bool,
    pub cli: Vec<String>,
    #[serde(default)]
    pub reload_at_start: bool,
    /// files that cannot be opened, for the whole run
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub unreadable: Vec<String>,
    /// bytes that can be written before the disk is full
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub space: Option<u64>,
}

pub fn params(kind: &str, path: &str, pos: Pos, arg: &str, last_line: u32) -> (&'static str, Value) {
    let td = json!({"uri": uri(path)});
    let at = json!({"textDocument": td, "position": pos_json(pos)});
    let whole = json!({"start": {"line": 0, "character": 0}, "end": {"line": last_line, "character": 0}});
    match kind {
        "tree" => ("aptos-language-server/viewSyntaxTree", json!({"textDocument": td})),
        "symbols" => ("textDocument/documentSymbol", json!({"textDocument": td})),
        "diag" => ("textDocument/diagnostic", json!({"textDocument": td})),
        "sem" => ("textDocument/semanticTokens/full", json!({"textDocument": td})),
        "semr" => ("textDocument/semanticTokens/range", json!({"textDocument": td, "range": {"start": {"line": 0, "character": 0}, "end": pos_json(pos)}})),
        "inlay" => ("textDocument/inlayHint", json!({"textDocument": td, "range": whole})),
        "lens" => ("textDocument/codeLens", json!({"textDocument": td})),
        "hover" => ("textDocument/hover", at),
        "def" => ("textDocument/definition", at),
        "hl" => ("textDocument/documentHighlight", at),
        "prep" => ("textDocument/prepareRename", at),
        "sig" => ("textDocument/signatureHelp", at),
        "refs" => { let mut a = at; a["context"] = json!({"includeDeclaration": arg != "nodecl"}); ("textDocument/references", a) }
        "rename" => { let mut a = at; a["newName"] = json!(if arg.is_empty() { "renamed" } else { arg }); ("textDocument/rename", a) }
        "compl" => { let mut a = at; if !arg.is_empty() { a["context"] = json!({"triggerKind": 2, "triggerCharacter": arg}); } ("textDocument/completion", a) }
        "action" => ("textDocument/codeAction", json!({"textDocument": td, "range": {"start": pos_json(pos), "end": pos_json(pos)}, "context": {"diagnostics": []}})),
        "selrange" => ("textDocument/selectionRange", json!({"textDocument": td, "positions": [pos_json(pos)]})),
        "wsym" => ("workspace/symbol", json!({"query": arg})),
        "fmt" => ("textDocument/formatting", json!({"textDocument": td, "options": {"tabSize": 4, "insertSpaces": true}})),
        "organize" => ("experimental/organizeImports", json!({"textDocument": td})),
        "status" => ("aptos-language-server/analyzerStatus", json!({})),
        other => panic!("request kind {other}"),
    }
}
/// manifests that cannot be parsed
pub const BROKEN: [&[u8]; 5] = [b"[package\nname = ", b"[package\nname = ", b"[package]\nname = \"X\"\nname = \"Y\"\n", b"[package]\nname = \"X\xff\"\n", b"[package]\nname = \"X\"\n[dependencies]\nA = { local = \n"];
pub const POSITIONAL: [&str; 9] = ["hover", "def", "hl", "prep", "sig", "refs", "rename", "compl", "action"];
pub const WHOLE: [&str; 6] = ["tree", "symbols", "diag", "sem", "inlay", "lens"];

/// relative weights of what a profile does
#[derive(Clone, Default)]
pub struct Mix { pub edit: u32, pub open: u32, pub close: u32, pub save: u32, pub disk: u32, pub manifest: u32, pub folders: u32, pub req: u32, pub resolve: u32, pub cancel: u32, pub config: u32, pub raw: u32, pub settle: u32, pub check: u32, pub fmt: u32, pub sleep: u32, pub await_: u32, pub nonutf8: bool, pub broken_manifest: bool, pub keep_broken: bool }

pub struct Planner { pub r: Rng, pub pkgs: Vec<Pkg>, pub m: Model, pub st: Style, pub enc: Enc, pub ops: Vec<Op>, pub full_only: bool, pub git_pkg: Option<usize>, pub manifests: Vec<Option<Vec<usize>>>, pub broken: Vec<bool>, pub kinds: Vec<&'static str>, pub next_file: usize, pub cur_cfg: Value, pub serial: bool, pub watch: bool }
impl Planner {
    pub fn path(&mut self) -> Option<String> { let v = self.m.move_files(); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } }
    pub fn open_path(&mut self) -> Option<String> { let v: Vec<String> = self.m.docs.keys().filter(|p| p.ends_with(".move")).cloned().collect(); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } }
    pub fn push(&mut self, op: Op) { apply(&mut self.m, &op, self.enc); self.ops.push(op); }
    pub fn open(&mut self) {
        let Some(p) = self.path() else { return };
        if self.m.docs.contains_key(&p) && !self.r.chance(1, 20) { return; }
        let disk = self.m.text(&p);
        let text = match disk { Some(t) if !self.r.chance(1, 6) => t, Some(t) => { let pk = package_of(&self.pkgs, &p).unwrap_or(0); let e = edit(&mut self.r, &self.pkgs, pk, &t, self.enc, self.st, false); e.apply(&t, self.enc).unwrap_or(t) } None => "module p0::odd { fun f0() {} }\n".into() };
        let fresh = !self.m.disk.contains_key(&p);
        self.push(Op::Open { path: p, text: Some(text) });
        if fresh { self.quiet() }
    }
    pub fn edit(&mut self) {
        let Some(p) = self.open_path() else { return self.open() };
        let pk = package_of(&self.pkgs, &p).unwrap_or(0);
        let mut t = self.m.docs[&p].text.clone();
        let mut v = vec![];
        for _ in 0..if self.r.chance(1, 3) { self.r.range(2, 4) } else { 1 } {
            let e = edit(&mut self.r, &self.pkgs, pk, &t, self.enc, self.st, self.full_only);
            match e.apply(&t, self.enc) { Some(n) => { t = n; v.push(e) } None => {} }
        }
        if v.is_empty() { return; }
        self.push(Op::Edit { path: p, edits: v });
    }
    pub fn pos(&mut self, p: &str) -> Pos {
        let t = self.m.text(p).unwrap_or_default();
        let ids = idents(&t);
        if ids.is_empty() || self.r.chance(1, 10) { let l = lines(&t); let i = self.r.below(l.len()); return to_pos(&t, self.enc, l[i].1); }
        let marked: Vec<&(usize, String)> = ids.iter().filter(|x| MARKS.contains(&x.1.as_str())).collect();
        let (o, w) = if !marked.is_empty() && self.r.chance(3, 4) { (*self.r.pick(&marked)).clone() } else { self.r.pick(&ids).clone() };
        to_pos(&t, self.enc, o + self.r.below(w.len() + 1))
    }
    pub fn req(&mut self) {
        let k = *self.r.pick(&self.kinds.clone());
        // mostly the document being worked on
        let p = match (self.r.chance(3, 4), self.open_path()) { (true, Some(p)) => p, _ => match self.path() { Some(p) => p, None => return } };
        let pos = self.pos(&p);
        let arg = match k { "wsym" => ["f", "S", "C", "", "get", "m0"][self.r.below(6)].to_string(), "compl" => ["", "", ":", "."][self.r.below(4)].to_string(), "refs" => ["", "nodecl"][self.r.below(2)].into(), "rename" => ["renamed", "f9", "x"][self.r.below(3)].into(), _ => String::new() };
        self.push(Op::Req { kind: k.into(), path: p, pos, arg });
    }
    fn junk(&mut self) {
        let Some(path) = self.open_path() else { return };
        let t = self.m.docs[&path].text.clone();
        let n = lines(&t).len() as u32;
        let (a, b) = (self.r.below(n as usize) as u32, self.r.below(n as usize) as u32);
        let range = match self.r.below(4) { 0 => ((n + 3, 0), (n + 9, 4)), 1 => ((a.max(b), 0), (n + 1, 0)), 2 => ((a.max(b) + 1, 2), (a.min(b), 1)), _ => ((a, 4_000_000), (b, 0)) };
        let (text, apart) = (["", "fun x() {}", "\n\n"][self.r.below(3)].to_string(), self.r.chance(1, 2));
        self.push(Op::Junk { path, range, text, apart });
    }
    fn quiet(&mut self) { if self.serial { self.push(Op::Settle); } }
    /// the files of a downloaded dependency are replaced, and a manifest of the project is written: that rescans everything
    fn library(&mut self) -> bool {
        let libs: Vec<usize> = (0..self.pkgs.len()).filter(|i| self.pkgs[*i].git.is_some()).collect();
        let local: Vec<usize> = (0..self.pkgs.len()).filter(|i| self.pkgs[*i].git.is_none() && !self.m.docs.contains_key(&format!("{}/Move.toml", self.pkgs[*i].dir)) && self.m.folders.iter().any(|f| (self.pkgs[*i].dir == *f || self.pkgs[*i].dir.starts_with(&format!("{f}/"))))).collect();
        if libs.is_empty() || local.is_empty() || self.broken.iter().any(|b| *b) { return false; }
        let (l, i) = (*self.r.pick(&libs), *self.r.pick(&local));
        let mut ch: Vec<(String, Option<Blob>)> = vec![];
        let files: Vec<String> = self.m.disk.keys().filter(|p| p.ends_with(".move") && package_of(&self.pkgs, p) == Some(l)).cloned().collect();
        for p in &files {
            match self.r.below(4) {
                0 => ch.push((p.clone(), None)),
                1 => { let t = String::from_utf8(self.m.disk[p].clone()).unwrap_or_default(); let e = edit(&mut self.r, &self.pkgs, l, &t, self.enc, self.st, true); if let Some(s) = e.apply(&t, self.enc) { ch.push((p.clone(), Some(Blob(s.into_bytes())))); } }
                _ => {}
            }
        }
        if self.r.chance(1, 3) {
            self.next_file += 1;
            let m = format!("n{}", self.next_file);
            let t = Gen { r: &mut self.r, pkgs: &self.pkgs, pkg: l, st: self.st }.file(&m);
            ch.push((format!("{}/sources/{m}.move", self.pkgs[l].dir), Some(Blob(t.into_bytes()))));
        }
        if ch.is_empty() { return false; }
        let extra = format!("extra_{} = \"0x98\"\n", self.r.below(90));
        ch.push((format!("{}/Move.toml", self.pkgs[i].dir), Some(Blob(manifest(&self.pkgs, i, &extra, false).into_bytes()))));
        self.quiet();
        self.push(Op::Disk { changes: ch, delay_us: 0, repeat: 1 });
        self.quiet();
        true
    }
    pub fn disk(&mut self) {
        if self.r.chance(1, 8) && self.library() { return; }
        let mut ch: Vec<(String, Option<Blob>)> = vec![];
        let local: Vec<usize> = (0..self.pkgs.len()).filter(|i| self.pkgs[*i].git.is_none()).collect();
        for _ in 0..if self.r.chance(1, 3) { self.r.range(2, 3) } else { 1 } {
            let pk = *self.r.pick(&local);
            let files: Vec<String> = self.m.disk.keys().filter(|p| p.ends_with(".move") && package_of(&self.pkgs, p) == Some(pk)).cloned().collect();
            match self.r.below(6) {
                0 | 1 => { // create
                    self.next_file += 1;
                    let taken = |x: &str| self.m.disk.keys().any(|p| p.ends_with(&format!("/{x}.move")));
                    let k = format!("m{}", self.r.below(6));
                    let m = if !taken(&k) || self.r.chance(1, 10) { k } else { format!("n{}", self.next_file) };
                    let t = Gen { r: &mut self.r, pkgs: &self.pkgs, pkg: pk, st: self.st }.file(&m);
                    let sub = ["sources", "sources/nested", "sources/deep/er", "tests", "scripts"][self.r.below(5)];
                    ch.push((format!("{}/{sub}/{m}_{}.move", self.pkgs[pk].dir, self.next_file), Some(Blob(t.into_bytes()))));
                }
                2 if !files.is_empty() => ch.push((self.r.pick(&files).clone(), None)),
                3 if !files.is_empty() && self.r.chance(1, 3) => { // rename
                    let p = self.r.pick(&files).clone();
                    self.next_file += 1;
                    let c = self.m.disk[&p].clone();
                    ch.push((p.clone(), None));
                    ch.push((p.replace(".move", &format!("_{}.move", self.next_file)), Some(Blob(c))));
                }
                _ if !files.is_empty() => {
                    let p = self.r.pick(&files).clone();
                    let t = String::from_utf8(self.m.disk[&p].clone()).unwrap_or_else(|_| "module p0::back { fun f0() {} }\n".into());
                    let e = edit(&mut self.r, &self.pkgs, pk, &t, self.enc, self.st, true);
                    ch.push((p, e.apply(&t, self.enc).map(|s| Blob(s.into_bytes()))));
                }
                _ => {}
            }
        }
        // one change per path
        let mut seen = std::collections::BTreeSet::new();
        ch.retain(|c| seen.insert(c.0.clone()));
        if ch.is_empty() { return; }
        self.quiet();
        let delay_us = if self.serial { 0 } else { [0, 0, 300, 5_000, 60_000][self.r.below(5)] };
        let repeat = if self.r.chance(1, 8) { 2 } else { 1 };
        self.push(Op::Disk { changes: ch, delay_us, repeat });
        self.quiet();
    }
    pub fn non_utf8(&mut self) {
        let files: Vec<String> = self.m.disk.keys().filter(|p| p.ends_with(".move") && !p.starts_with("/simws/home/")).cloned().collect();
        if files.is_empty() { return; }
        let p = self.r.pick(&files).clone();
        self.quiet();
        self.push(Op::Disk { changes: vec![(p, Some(Blob(vec![b'm', 0xff, 0xfe, b'\n'])))], delay_us: 0, repeat: 1 });
        self.quiet();
    }
    /// rewrites a manifest
    pub fn manifest(&mut self, may_break: bool) {
        if may_break && self.r.chance(1, 8) && self.unread_dependency() { return; }
        let i = self.r.below(self.pkgs.len());
        if self.pkgs[i].git.is_some() { return; }
        let path = format!("{}/Move.toml", self.pkgs[i].dir);
        let mut pkgs = self.pkgs.clone();
        if may_break && self.r.chance(1, 3) {
            self.broken[i] = true;
            let k = self.r.below(BROKEN.len());
            self.quiet();
            self.push(Op::Disk { changes: vec![(path, Some(Blob(BROKEN[k].to_vec())))], delay_us: 0, repeat: 1 });
            self.quiet();
            return;
        }
        self.broken[i] = false;
        let extra = match self.r.below(5) {
            0 => { let mut all = vec![]; for j in i + 1..pkgs.len() { if self.r.chance(1, 2) { all.push(j); } } pkgs[i].deps = all; String::new() }
            1 => { pkgs[i].deps.clear(); String::new() }
            2 => format!("extra_{} = \"0x99\"\n", self.r.below(9)),
            3 => { pkgs[i].name = format!("P{i}x{}", self.r.below(5)); String::new() }
            _ => { pkgs[i].deps = (i + 1..pkgs.len()).collect(); String::new() }
        };
        if self.st.variety { if self.r.chance(1, 3) { pkgs[i].form = self.r.below(64) as u32; } if self.r.chance(1, 4) { pkgs[i].shared = [None, Some("0xa1".to_string()), Some(format!("0xa{i}"))][self.r.below(3)].clone(); } self.pkgs[i].form = pkgs[i].form; self.pkgs[i].shared = pkgs[i].shared.clone(); }
        let miss = self.r.chance(1, 4);
        let t = manifest(&pkgs, i, &extra, miss);
        self.pkgs[i].deps = pkgs[i].deps.clone();
        self.pkgs[i].name = pkgs[i].name.clone();
        self.quiet();
        if self.m.docs.contains_key(&path) || self.r.chance(1, 8) {
            // through the editor, then saved
            if !self.m.docs.contains_key(&path) { let cur = self.m.text(&path); if let Some(c) = cur { self.push(Op::Open { path: path.clone(), text: Some(c) }); } }
            if self.m.docs.contains_key(&path) { self.push(Op::Edit { path: path.clone(), edits: vec![Edit { range: None, text: t }] }); self.push(Op::Save { path }); }
        } else {
            let delay_us = if self.serial { 0 } else { [0, 500, 20_000][self.r.below(3)] };
            self.push(Op::Disk { changes: vec![(path, Some(Blob(t.into_bytes())))], delay_us, repeat: 1 });
        }
        self.quiet();
    }
    /// a package nobody depends on breaks and becomes a dependency after that
    fn unread_dependency(&mut self) -> bool {
        let n = self.pkgs.len();
        let free = |s: &Self, i: usize| s.pkgs[i].git.is_none() && !s.m.docs.contains_key(&format!("{}/Move.toml", s.pkgs[i].dir));
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|(i, j)| free(self, *i) && free(self, *j)).collect();
        if pairs.is_empty() || self.broken.iter().any(|b| *b) { return false; }
        let (i, j) = *self.r.pick(&pairs);
        for k in 0..n { if k != i && self.pkgs[k].deps.contains(&j) { return false; } }
        let path = |s: &Self, k: usize| format!("{}/Move.toml", s.pkgs[k].dir);
        let mut without = self.pkgs.clone();
        without[i].deps.retain(|d| *d != j);
        let put = |s: &mut Self, p: String, b: Vec<u8>| s.push(Op::Disk { changes: vec![(p, Some(Blob(b)))], delay_us: 0, repeat: 1 });
        let (pi, pj) = (path(self, i), path(self, j));
        put(self, pi.clone(), manifest(&without, i, "", false).into_bytes());
        self.push(Op::Settle);
        self.broken[j] = true;
        let b = BROKEN[self.r.below(BROKEN.len())].to_vec();
        put(self, pj, b);
        if self.r.chance(1, 2) { self.push(Op::Settle); }
        if !self.pkgs[i].deps.contains(&j) { self.pkgs[i].deps.push(j); }
        let t = manifest(&self.pkgs, i, "", false);
        put(self, pi, t.into_bytes());
        self.quiet();
        true
    }
    pub fn repair(&mut self) { self.repair_manifests(); self.save_manifests(); }
    fn repair_manifests(&mut self) {
        for i in 0..self.pkgs.len() {
            if !self.broken[i] { continue; }
            self.broken[i] = false;
            let path = format!("{}/Move.toml", self.pkgs[i].dir);
            let t = manifest(&self.pkgs, i, "", false);
            self.push(Op::Disk { changes: vec![(path, Some(Blob(t.into_bytes())))], delay_us: 0, repeat: 1 });
        }
    }
    /// unsaved manifests
    fn save_manifests(&mut self) {
        let dirty: Vec<String> = self.m.docs.iter().filter(|(p, d)| p.ends_with("Move.toml") && self.m.disk.get(*p).map(|b| b.as_slice()) != Some(d.text.as_bytes())).map(|x| x.0.clone()).collect();
        for p in dirty { self.push(Op::Save { path: p }); }
    }
    pub fn config_value(&mut self, allow_bad: bool) -> Value {
        let mut c = json!({});
        let bad = allow_bad && self.r.chance(1, 4);
        for _ in 0..self.r.range(1, 4) {
            let codes = |r: &mut Rng| -> Value { let n = r.range(1, 3); json!((0..n).map(|_| pick_s(&CODES, r.below(CODES.len()))).collect::<BTreeSet<_>>()) };
            match self.r.below(16) {
                0 => c["diagnostics"]["enable"] = json!(self.r.chance(2, 3)),
                1 | 2 => c["diagnostics"]["disabled"] = codes(&mut self.r),
                3 => c["diagnostics"]["enableOnly"] = codes(&mut self.r),
                4 => c["inlayHints"]["typeHints"]["enable"] = json!(self.r.chance(1, 2)),
                5 => c["inlayHints"]["parameterHints"]["enable"] = json!(self.r.chance(1, 2)),
                6 => c["inlayHints"]["renderColons"] = json!(self.r.chance(1, 2)),
                7 => c["lens"]["enable"] = json!(self.r.chance(1, 2)),
                8 => c["lens"]["location"] = json!(pick_s(&["above_name", "above_whole_item"], self.r.below(2))),
                9 => c["diagnostics"]["needsTypeAnnotation"] = json!(self.r.chance(1, 2)),
                10 => c["inlayHints"]["rangeExclusiveHints"]["enable"] = json!(self.r.chance(1, 3)),
                11 => c["inlayHints"]["typeHints"]["hideClosureParameter"] = json!(self.r.chance(2, 3)),
                12 => c["inlayHints"]["typeHints"]["showForTuples"] = json!(self.r.chance(1, 3)),
                13 => c["lens"][pick_s(&["run", "specifications"], self.r.below(2))]["enable"] = json!(self.r.chance(1, 3)),
                14 => c["tests"]["extraArgs"] = json!(["--override-std"]),
                _ => c["completion"]["autoimport"]["enable"] = json!(self.r.chance(1, 2)),
            }
        }
        // one value of the wrong kind
        if bad {
            let (k, t) = SETTINGS[self.r.below(SETTINGS.len())];
            let mut at = &mut c;
            for x in k.split('.') { at = &mut at[x]; }
            *at = match t { 'b' => [json!("yes"), json!(3), json!([true])][self.r.below(3)].clone(), 'l' => [json!({"a": 1}), json!("all"), json!([3])][self.r.below(3)].clone(), _ => [json!("sideways"), json!(1)][self.r.below(2)].clone() };
        }
        c
    }
    pub fn config(&mut self) {
        let v = match self.r.below(12) { 0 => Value::Null, 1 => json!({}), _ => self.config_value(true) };
        self.quiet();
        self.push(Op::Config { value: v });
        self.quiet();
    }
    pub fn folders(&mut self) {
        let cur = self.m.folders.clone();
        let cand = ["/simws/w", "/simws/w2", "/simws/ext"];
        let f = cand[self.r.below(3)].to_string();
        self.quiet();
        if cur.contains(&f) { if cur.len() > 1 || self.r.chance(1, 3) { self.push(Op::Folders { add: vec![], remove: vec![f] }); } }
        else if self.r.chance(1, 8) { let remove = if self.r.chance(1, 2) { cur } else { vec![] }; self.push(Op::Folders { add: vec![f], remove }); }
        else { self.push(Op::Folders { add: vec![f], remove: vec![] }); }
        self.quiet();
    }
    pub fn step(&mut self, x: &Mix) {
        let w = [x.edit, x.open, x.close, x.save, x.disk, x.manifest, x.folders, x.req, x.resolve, x.cancel, x.config, x.raw, x.settle, x.check, x.fmt, x.sleep, x.await_];
        let total: u32 = w.iter().sum();
        let mut k = self.r.below(total as usize) as u32;
        let mut i = 0;
        while k >= w[i] { k -= w[i]; i += 1; }
        match i {
            0 => self.edit(),
            1 => self.open(),
            2 => { if let Some(p) = self.open_path() { self.push(Op::Close { path: p }); self.quiet() } }
            3 => { let v: Vec<String> = self.m.docs.keys().cloned().collect(); if !v.is_empty() { let p = self.r.pick(&v).clone(); self.push(Op::Save { path: p }); self.quiet() } }
            4 => if x.nonutf8 && self.r.chance(1, 6) { self.non_utf8() } else { self.disk() },
            5 => self.manifest(x.broken_manifest),
            6 => self.folders(),
            7 => self.req(),
            8 => { let k = ["action", "inlay", "lens", "compl"][self.r.below(4)]; let n = self.r.below(6); self.push(Op::Resolve { kind: k.into(), n }) }
            9 => { let back = self.r.below(4); let twin = self.r.chance(1, 5); self.push(Op::Cancel { back, twin }) }
            10 => self.config(),
            11 => if !self.serial && self.r.chance(1, 6) { self.junk() } else { let msg = raw(&mut self.r, &self.m); self.push(Op::Raw { msg }) }
            12 => self.push(Op::Settle),
            13 => { if x.keep_broken { self.save_manifests(); } else { self.repair(); } self.push(Op::Settle); self.push(Op::Check) }
            14 => { if let Some(p) = self.open_path().or_else(|| None) { self.push(Op::Req { kind: "fmt".into(), path: p, pos: (0, 0), arg: String::new() }) } }
            15 => { let us = [10, 200, 3_000, 40_000, 500_000][self.r.below(5)]; self.push(Op::Sleep { us }) }
            _ => self.push(Op::Await),
        }
    }
}
/// hostile or pointless client messages
fn raw(r: &mut Rng, m: &Model) -> Value {
    let files = m.move_files();
    let p = if files.is_empty() { "/simws/w/none.move".into() } else { r.pick(&files).clone() };
    let u = uri(&p);
    let id = json!(format!("raw{}", r.next() % 1_000_000_000));
    let methods = ["textDocument/hover", "textDocument/definition", "textDocument/completion", "textDocument/codeAction", "textDocument/rename", "textDocument/documentSymbol", "textDocument/inlayHint", "textDocument/semanticTokens/range", "textDocument/diagnostic", "textDocument/references", "textDocument/selectionRange", "textDocument/signatureHelp", "textDocument/formatting", "textDocument/codeLens", "codeAction/resolve", "inlayHint/resolve", "codeLens/resolve", "completionItem/resolve", "workspace/symbol", "experimental/organizeImports"];
    let me = methods[r.below(methods.len())];
    let git = format!("git:{p}?x");
    let bad_uris = ["file:///simws/w/absent.move", "untitled:Untitled-1", "file:///simws/w/%FF%FE.move", "https://example.com/x.move", "file:///", "file:///simws/w/sources", "git:/simws/w/m0.move?x", git.as_str()];
    let bad = bad_uris[r.below(bad_uris.len())];
    match r.below(20) {
        0 => json!({"id": id, "method": me, "params": {"bogus": true}}),
        1 => json!({"id": id, "method": me, "params": [1, 2]}),
        2 => json!({"id": id, "method": me}),
        3 => json!({"id": id, "method": "no/suchMethod", "params": {}}),
        4 => json!({"method": "no/suchNotification", "params": {}}),
        5 => json!({"method": "$/unknown", "params": null}),
        6 => { let k = POSITIONAL[r.below(POSITIONAL.len())]; let (me, pa) = params(k, &p, (100_000, 7), "", 0); json!({"id": id, "method": me, "params": pa}) }
        7 => { let k = POSITIONAL[r.below(POSITIONAL.len())]; let (me, pa) = params(k, &p, (0, 4_000_000), "", 0); json!({"id": id, "method": me, "params": pa}) }
        8 => { let k = if r.chance(1, 2) { WHOLE[r.below(WHOLE.len())] } else { POSITIONAL[r.below(POSITIONAL.len())] }; let (me, mut pa) = params(k, "/simws/w/x.move", (0, 0), "", 0); pa["textDocument"]["uri"] = json!(bad); json!({"id": id, "method": me, "params": pa}) }
        9 => json!({"method": "textDocument/didChange", "params": {"textDocument": {"uri": "file:///simws/w/neveropened.move", "version": 3}, "contentChanges": [{"text": "x"}]}}),
        10 => json!({"method": "textDocument/didClose", "params": {"textDocument": {"uri": "file:///simws/w/neveropened.move"}}}),
        11 => json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": if bad.ends_with("/absent.move") { "file:///simws/elsewhere/absent.move" } else { bad }, "languageId": "move", "version": 1, "text": "module 0x1::odd {}"}}}),
        12 => json!({"method": "workspace/didChangeWatchedFiles", "params": {"changes": [{"uri": bad, "type": 2}, {"uri": u, "type": 2}, {"uri": u, "type": 1}]}}),
        13 => json!({"method": "workspace/didChangeWatchedFiles", "params": {"changes": [{"uri": "file:///simws/w/ghost.move", "type": 3}]}}),
        14 => json!({"method": "$/cancelRequest", "params": {"id": 999_999}}),
        17 => json!({"id": 1_000_000 + r.below(1000), "result": ([json!(null), json!([]), json!({"a": 1})][r.below(3)].clone())}),
        18 => if r.chance(1, 2) { json!({"id": id, "error": {"code": -32601, "message": "no such method"}}) } else { json!({"id": r.below(6).to_string(), "result": null}) },
        15 => json!({"id": id, "method": "textDocument/inlayHint", "params": {"textDocument": {"uri": u}, "range": {"start": {"line": 5, "character": 3}, "end": {"line": 0, "character": 0}}}}),
        16 => json!({"method": pick_s(&["textDocument/didChange", "textDocument/didOpen", "workspace/didChangeConfiguration", "workspace/didChangeWorkspaceFolders", "textDocument/didClose", "workspace/didChangeWatchedFiles"], r.below(6)), "params": (if r.chance(1, 2) { json!(["x"]) } else { json!({"a": 1}) })}),
        _ => json!({"method": "textDocument/didSave", "params": {"textDocument": {"uri": bad}}}),
    }
}
/// the effect of an op on what the editor knows; false: does not apply now
pub fn apply(m: &mut Model, op: &Op, enc: Enc) -> bool {
    match op {
        Op::Open { path, text } => { let t = match text.clone().or_else(|| m.text(path)) { Some(t) => t, None => return false }; let v = m.docs.get(path).map_or(1, |d| d.version + 1); m.docs.insert(path.clone(), Doc { text: t, version: v }); true }
        Op::Edit { path, edits } => {
            let Some(d) = m.docs.get_mut(path) else { return false };
            let mut t = d.text.clone();
            for e in edits { match e.apply(&t, enc) { Some(n) => t = n, None => return false } }
            if lone_cr(&t) { return false; }
            d.text = t; d.version += 1; true
        }
        Op::Junk { path, apart, .. } => { let Some(d) = m.docs.get_mut(path) else { return false }; d.version += if *apart { 2 } else { 1 }; true }
        Op::Close { path } => m.docs.remove(path).is_some(),
        Op::Save { path } => { let Some(d) = m.docs.get(path) else { return false }; m.disk.insert(path.clone(), d.text.clone().into_bytes()); true }
        Op::Disk { changes, .. } => { for (p, c) in changes { match c { Some(b) => { m.disk.insert(p.clone(), b.0.clone()); } None => { m.disk.remove(p); } } } true }
        Op::Config { value } => { if !(value.is_null() || value.as_object().is_some_and(|o| o.is_empty())) { m.config = value.clone(); } true }
        Op::Folders { add, remove } => { m.folders.retain(|f| !remove.contains(f)); for a in add { if !m.folders.contains(a) { m.folders.push(a.clone()); } } true }
        _ => true,
    }
}
/// `\r` not followed by `\n`: the protocol and the server disagree about what a line is; never generated
pub fn lone_cr(t: &str) -> bool { let b = t.as_bytes(); (0..b.len()).any(|i| b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) }

pub fn base(prop: &str, seed: u64) -> (Plan, Planner) {
    let mut r = Rng::new(seed ^ prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let st = Style { crlf: r.chance(1, 3), uni: r.chance(1, 2), broken: r.chance(1, 3), variety: r.chance(2, 5) };
    let size = if r.chance(1, 4) { 3 } else { r.range(1, 2) };
    let (pkgs, disk, folders) = project(&mut r, st, size);
    let mut caps = Caps::vscode();
    caps.encodings = match r.below(6) { 0 => vec![Enc::Utf8], 1 => vec![Enc::Utf32], 2 => vec![Enc::Utf16, Enc::Utf8], 3 => vec![Enc::Utf32, Enc::Utf8], _ => vec![Enc::Utf16] };
    if r.chance(1, 8) { caps.no_general = true; }
    let enc = caps.enc();
    let policy = match r.below(10) {
        0..=4 => Pol::Random([1, 2, 4, 10, 40, 200][r.below(6)]),
        5..=7 => Pol::Pct(r.range(1, 6), [300, 2000, 10_000][r.below(3)]),
        8 => Pol::Starve(["LspServer", "VfsLoader", "client-reader", "client-writer", "Worker"][r.below(5)].into(), 8, [50, 400, 3000][r.below(3)]),
        _ => Pol::Explicit,
    };
    let plan = Plan {
        prop: prop.into(), seed, mode: "lsp".into(), policy, cpus: r.range(1, 4), chan_cap: [None, None, Some(0), Some(1), Some(4)][r.below(5)], pipe_cap: 4096,
        faults: FaultSpec::default(), caps, client: ClientSpec::default(), config: json!({}), disk: disk.iter().map(|(k, v)| (k.clone(), Blob(v.clone()))).collect(), folders: folders.clone(), no_folders_param: false, fmt: "transform".into(), ops: vec![],
        ending: "shutdown".into(), serial: false, meta_enc: false, cli: vec![], reload_at_start: false, unreadable: vec![], space: None,
    };
    let n = pkgs.len();
    let m = Model { disk, docs: BTreeMap::new(), config: json!({}), folders };
    let pl = Planner { r, pkgs, m, st, enc, ops: vec![], full_only: false, git_pkg: None, manifests: vec![], broken: vec![false; n], kinds: ALL_KINDS.to_vec(), next_file: 0, cur_cfg: json!({}), serial: false, watch: true };
    (plan, pl)
}
/// settings and their kinds: b(oolean), l(ist of strings), p(lace)
pub const SETTINGS: [(&str, char); 16] = [("diagnostics.enable", 'b'), ("diagnostics.disabled", 'l'), ("diagnostics.enableOnly", 'l'), ("diagnostics.needsTypeAnnotation", 'b'), ("inlayHints.typeHints.enable", 'b'), ("inlayHints.parameterHints.enable", 'b'), ("inlayHints.renderColons", 'b'), ("inlayHints.rangeExclusiveHints.enable", 'b'), ("inlayHints.typeHints.hideClosureParameter", 'b'), ("inlayHints.typeHints.showForTuples", 'b'), ("lens.enable", 'b'), ("lens.run.enable", 'b'), ("lens.specifications.enable", 'b'), ("lens.location", 'p'), ("completion.autoimport.enable", 'b'), ("tests.extraArgs", 'l')];
pub const CODES: [&str; 12] = ["unused-variable", "unused-import", "unresolved-reference", "type-error", "syntax-error", "missing-const-doc-comment", "arguments-number-mismatch", "needs-type-annotation", "missing-lit-fields", "replace-with-method-call", "entry-fun-cannot-return-values", "no-such-code"];
fn setting<'a>(c: &'a Value, key: &str) -> &'a Value { key.split('.').fold(c, |v, k| &v[k]) }
pub fn setting_ok(v: &Value, t: char) -> bool { match t { 'b' => v.is_boolean(), 'l' => v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string())), _ => v == "above_name" || v == "above_whole_item" } }
/// what a setting is, a value of the wrong kind counting as absent
pub fn setting_value(c: &Value, key: &str) -> Option<Value> { let t = SETTINGS.iter().find(|s| s.0 == key)?.1; let v = setting(c, key); setting_ok(v, t).then(|| v.clone()) }
pub fn bad_config(c: &Value) -> bool { SETTINGS.iter().any(|(k, t)| { let v = setting(c, k); !v.is_null() && !setting_ok(v, *t) }) }
pub const ALL_KINDS: [&str; 18] = ["tree", "symbols", "diag", "sem", "semr", "inlay", "lens", "hover", "def", "hl", "prep", "sig", "refs", "rename", "compl", "action", "wsym", "organize"];

pub fn plan(prop: &str, seed: u64) -> Plan {
    let (mut p, mut g) = base(prop, seed);
    let mut x = Mix { edit: 10, open: 4, close: 2, save: 1, disk: 3, req: 10, settle: 1, sleep: 2, await_: 1, ..Default::default() };
    let mut n = g.r.range(8, 28);
    let mut settle_first = g.r.chance(1, 2);
    let mut final_check = true;
    match prop {
        "C01" => { x.cancel = 5; x.raw = 3; x.req = 18; x.manifest = 1; x.fmt = 1; x.resolve = 2; x.config = 1; n = g.r.range(15, 45); final_check = false; p.ending = ["shutdown", "shutdown_late", "shutdown_busy"][g.r.below(3)].into(); }
        "C02" => { x.edit = 16; x.open = 6; x.close = 4; x.save = 2; x.disk = 5; x.manifest = 2; x.req = 3; x.check = 1; x.nonutf8 = true; x.raw = 1; }
        "C03" => { x.disk = 8; x.close = 4; x.save = 3; x.manifest = 1; x.req = 5; x.check = 1; x.nonutf8 = true; }
        "C04" | "C13" => { p.serial = true; g.serial = true; settle_first = !(prop == "C13" && g.r.chance(1, 6)); x.edit = 9; x.req = 22; x.settle = 2; x.disk = 2; x.close = 1; x.save = 0; x.sleep = 1; x.config = if prop == "C04" { 1 } else { 0 }; x.manifest = 1; if prop == "C13" { x.cancel = 5; } n = g.r.range(15, 40); final_check = false; }
        "C05" => { x.manifest = 3; x.folders = 1; x.disk = 5; x.config = 2; x.cancel = 3; x.fmt = 1; x.req = 14; x.broken_manifest = true; p.chan_cap = [Some(0), Some(1), Some(2), None][g.r.below(4)]; p.client.reply_delay_us = [0, 1000, 200_000][g.r.below(3)]; p.client.read_delay_us = [0, 0, 300, 5000][g.r.below(4)]; p.client.write_delay_us = [0, 0, 500][g.r.below(3)]; p.client.reply_error_every = [0, 0, 2, 1][g.r.below(4)]; final_check = g.r.chance(1, 3); }
        "C06" => { x.raw = 14; p.client.dup_reply_every = [0, 0, 1, 3][g.r.below(4)]; x.disk = 5; x.nonutf8 = true; x.manifest = 2; x.broken_manifest = true; x.cancel = 2; x.resolve = 2; if g.r.chance(1, 2) { p.faults = FaultSpec { open: [0, 40, 150][g.r.below(3)], read: [0, 60][g.r.below(2)], short: [0, 200][g.r.below(2)], dir: [0, 80][g.r.below(2)], stat: [0, 30][g.r.below(2)], spawn: false }; } }
        "C07" => { p.ending = ["shutdown", "exit", "eof", "shutdown_eof", "shutdown_busy", "shutdown_late", "exit_busy", "eof_busy", "noinit_exit", "noinit_eof", "preinit", "noinitialized"][g.r.below(12)].into(); x.fmt = 2; p.fmt = ["transform", "slow", "hang_until_killed"][g.r.below(2)].into(); x.manifest = 1; x.req = 14; n = g.r.range(2, 20); final_check = false; if p.ending.starts_with("shutdown") { final_check = g.r.chance(1, 6); } }
        "C08" => { x.manifest = 10; x.broken_manifest = true; x.folders = 3; x.disk = 3; x.req = 3; x.edit = 4; x.check = 1; if g.r.chance(1, 3) { x.nonutf8 = true; } x.keep_broken = g.r.chance(1, 4); if x.keep_broken { x.settle = 2; x.check = 2; settle_first = g.r.chance(3, 4); } }
        "C09" => { x.fmt = 12; x.edit = 8; x.req = 4; x.disk = 1; x.settle = 2; p.fmt = ["transform", "transform", "identity", "old", ["ver_1.1.9", "ver_1.2.0", "ver_1.2.1", "ver_1.10.0", "ver_2.0.0", "ver_0.9.7"][g.r.below(6)], "garbage_version", "exit1", "exit2", "killed", "nonutf8", "noread", "early_exit", "slow", "huge", "partial_crash", "missing", "no_version", "stderr_flood", "crlf_out", "empty_out", "hang_version"][g.r.below(21)].into(); n = g.r.range(6, 20); if p.fmt == "hang_version" { p.fmt = "slow".into(); } if g.r.chance(1, 5) { x.config = 1; } if g.r.chance(2, 3) { p.serial = true; g.serial = true; } }
        "C10" => { g.st.uni = true; p.meta_enc = true; x.edit = 6; x.req = 6; x.disk = 2; x.config = 0; n = g.r.range(2, 10); }
        "C11" => { x.disk = 16; x.edit = 2; x.req = 3; x.manifest = 2; x.broken_manifest = g.r.chance(1, 3); x.folders = 2; x.check = 1; x.nonutf8 = true; p.caps.watch_relative = g.r.chance(1, 2); if g.r.chance(1, 3) { p.caps.watch_dynamic = false; } if g.r.chance(1, 4) { p.config["files"]["watcher"] = json!("server"); } }
        "C12" => { x.config = 12; x.manifest = 1; x.check = 1; p.client.reply_delay_us = [0, 0, 500, 30_000][g.r.below(4)]; p.client.reply_error_every = [0, 0, 3][g.r.below(3)]; }
        "C14" => { x.resolve = 16; x.req = 16; x.edit = 8; x.await_ = 8; x.settle = 2; x.disk = 1; g.kinds = vec!["action", "action", "inlay", "lens", "compl", "rename"]; p.serial = g.r.chance(1, 4); p.caps.ca_resolve = g.r.chance(5, 6); final_check = false; n = g.r.range(15, 40); g.serial = p.serial; }
        "C15" => { x.open = 8; x.edit = 3; x.disk = 2; x.close = 1; n = g.r.range(0, 10); p.cpus = g.r.range(1, 8); }
        "C16" => { p.client.pull = true; x.disk = 6; x.manifest = 2; x.config = 3; x.edit = 8; x.req = 2; x.close = 2; x.settle = 2; x.nonutf8 = false; p.client.reply_delay_us = [0, 0, 2000][g.r.below(3)]; settle_first = g.r.chance(1, 4); }
        "C18" => { for c in [&mut p.caps.progress, &mut p.caps.status, &mut p.caps.refresh_diag, &mut p.caps.refresh_sem, &mut p.caps.refresh_lens, &mut p.caps.refresh_inlay, &mut p.caps.watch_dynamic, &mut p.caps.watch_relative, &mut p.caps.location_link, &mut p.caps.hierarchical, &mut p.caps.ca_literals, &mut p.caps.ca_resolve, &mut p.caps.inlay_resolve, &mut p.caps.document_changes, &mut p.caps.completion_resolve, &mut p.caps.commands, &mut p.caps.server_logs, &mut p.caps.snippets, &mut p.caps.label_details, &mut p.caps.insert_replace, &mut p.caps.sig_offsets] { *c = g.r.chance(1, 2); } x.manifest = 3; x.config = 2; x.disk = 4; x.folders = 1; x.broken_manifest = true; p.client.reply_delay_us = [0, 1000, 100_000][g.r.below(3)]; final_check = g.r.chance(1, 4); }
        "C17" | "C23" => { return cli_plan(p, g); }
        _ => {}
    }
    if p.caps.enc() != g.enc { g.enc = p.caps.enc(); }
    if g.r.chance(1, 3) && prop != "C18" {
        // other editors: fewer capabilities
        let keep = p.caps.clone();
        p.caps = Caps { encodings: keep.encodings, no_general: keep.no_general, watch_dynamic: keep.watch_dynamic, watch_relative: keep.watch_relative, ..Caps::vscode() };
        if g.r.chance(1, 2) { p.caps.status = false; }
        if g.r.chance(1, 2) { p.caps.progress = false; }
        if g.r.chance(1, 2) { p.caps.location_link = false; }
        if g.r.chance(1, 3) { p.caps.inlay_resolve = false; }
        if g.r.chance(1, 3) { p.caps.hierarchical = false; }
        if g.r.chance(1, 3) { p.caps.snippets = false; }
        if g.r.chance(1, 3) { p.caps.insert_replace = false; }
    }
    if g.r.chance(1, 4) || prop == "C12" && g.r.chance(1, 2) { let w = p.config.get("files").cloned(); p.config = g.config_value(false); if let Some(w) = w { p.config["files"] = w; } }
    if prop == "C09" || x.fmt > 0 { p.config["movefmt"] = json!({"path": "/simws/bin/movefmt", "extraArgs": if g.r.chance(1, 2) { json!(["--config", "max_width=90"]) } else { json!([]) }}); if prop == "C09" && g.r.chance(1, 14) { p.config.as_object_mut().unwrap().remove("movefmt"); } }
    g.m.config = p.config.clone();
    p.no_folders_param = p.folders.len() == 1 && g.r.chance(1, 6);
    // manifests that cannot be read from the start
    if (x.broken_manifest || prop == "C11") && g.r.chance(1, 6) { for i in 0..g.pkgs.len() { if g.pkgs[i].git.is_none() && g.r.chance(1, 2) {
        let path = format!("{}/Move.toml", g.pkgs[i].dir);
        let b = BROKEN[g.r.below(BROKEN.len())].to_vec();
        if !g.m.disk.contains_key(&path) { continue; }
        p.disk.insert(path.clone(), Blob(b.clone()));
        g.m.disk.insert(path, b);
        g.broken[i] = true;
    } } }
    if settle_first { g.push(Op::Settle); }
    let fault_window = p.faults != FaultSpec::default();
    let (f0, f1) = (g.r.below(n / 2 + 1), n / 2 + g.r.below(n / 2 + 1));
    for _ in 0..g.r.range(1, 2) { g.open(); }
    for i in 0..n {
        if fault_window && i == f0 { g.push(Op::Faults { on: true }); }
        if fault_window && i == f1 { g.push(Op::Faults { on: false }); }
        let before = g.m.config.clone();
        g.step(&x);
        // settings the run relies on stay
        if let Some(Op::Config { value }) = g.ops.iter_mut().rev().find(|o| matches!(o, Op::Config { .. })) {
            if value.is_object() && !value.as_object().unwrap().is_empty() { for k in ["movefmt", "files"] { if let Some(v) = p.config.get(k) { value[k] = v.clone(); } } }
        }
        if before != g.m.config { for k in ["movefmt", "files"] { if let Some(v) = p.config.get(k) { g.m.config[k] = v.clone(); } } }
    }
    if fault_window { g.push(Op::Faults { on: false }); }
    if x.keep_broken { g.save_manifests(); } else { g.repair(); }
    if final_check { g.push(Op::Settle); g.push(Op::Check); }
    p.ops = std::mem::take(&mut g.ops);
    p
}
fn cli_plan(mut p: Plan, mut g: Planner) -> Plan {
    p.mode = "cli".into();
    let kinds = ["", "", "", "unreadable", "unreadable", "nonutf8", "broken_manifest", "missing_dep"];
    let k = kinds[g.r.below(kinds.len())];
    let files: Vec<String> = g.m.move_files();
    let n = g.pkgs.len();
    match k {
        "unreadable" => { for _ in 0..1 + g.r.below(2) { let f = if g.r.chance(1, 4) { format!("{}/Move.toml", g.pkgs[g.r.below(n)].dir) } else { g.r.pick(&files).clone() }; p.unreadable.push(f); } }
        "nonutf8" => { for _ in 0..1 + g.r.below(2) { let f = g.r.pick(&files).clone(); let mut b = p.disk[&f].0.clone(); let at = g.r.below(b.len() + 1); b.insert(at, 0xff); p.disk.insert(f, Blob(b)); } }
        "broken_manifest" if n > 1 => { let i = g.r.below(n); p.disk.insert(format!("{}/Move.toml", g.pkgs[i].dir), Blob(b"[package\n".to_vec())); }
        "missing_dep" => { let i = g.r.below(n); let t = manifest(&g.pkgs, i, "", true); p.disk.insert(format!("{}/Move.toml", g.pkgs[i].dir), Blob(t.into_bytes())); }
        _ => {}
    }
    p.fmt = k.into();
    // faults that must not change what is found
    if g.r.chance(1, 3) { p.faults.short = 200; }
    let dir = g.pkgs[g.r.below(n)].dir.clone();
    let mut roots: Vec<String> = vec![dir.clone(), "/simws/w".into(), "/simws/w".into(), ".".into()];
    if let Some(r) = dir.strip_prefix("/simws/w/") { roots.push(r.to_string()); roots.push(format!("./{r}/../{r}")); }
    if let Some(f) = files.iter().filter(|f| f.starts_with("/simws/w/")).nth(g.r.below(files.len())) { roots.push(f.clone()); }
    p.cli = vec!["diagnostics".into(), g.r.pick(&roots).clone()];
    const CODES: [&str; 12] = ["unresolved-reference", "type-error", "unused-variable", "unused-import", "missing-const-doc-comment", "replace-with-friend", "redundant-cast", "unused-acquires", "arguments-number-mismatch", "entry-fun-cannot-return-values", "syntax-error", "needs-type-annotation"];
    let mut some = |r: &mut Rng, v: &[&str]| -> String { let mut t: Vec<String> = (0..1 + r.below(3)).map(|_| r.pick(v).to_string()).collect(); t.sort(); t.dedup(); t.join(",") };
    if p.prop == "C23" && g.r.chance(1, 4) { // the user's own files beside the sources
        for _ in 0..1 + g.r.below(3) { let f = g.r.pick(&files).clone(); let e = [".tmp", ".tmp", ".bak", "~", ".0.tmp", ".orig", ".new"][g.r.below(7)]; p.disk.insert(format!("{f}{e}"), Blob(b"notes".to_vec())); }
    }
    if p.prop == "C23" {
        const FIXES: [&str; 12] = ["remove-redundant-cast", "replace-with-compound-expr", "replace-with-method-call", "replace-with-index-expr", "remove-unused-import", "remove-unused-acquires", "use-init-shorthand", "remove-redundant-coloncolon", "replace-with-friend", "rename-with-underscore-prefix", "remove-unused-variable", "replace-with-package"];
        let v = if g.r.chance(2, 3) { "all".to_string() } else { some(&mut g.r, &FIXES) };
        p.cli.extend(["--apply-fixes".to_string(), v]);
        if g.r.chance(1, 5) { p.cli = vec!["organize-imports".into(), p.cli[1].clone()]; p.space = g.r.chance(1, 3).then(|| g.r.below(1000) as u64); return p; }
        if g.r.chance(1, 3) { p.space = Some(g.r.below(3000) as u64); }
    }
    if g.r.chance(1, 3) { let v = some(&mut g.r, &["error", "warn", "note"]); p.cli.extend(["--kinds".to_string(), v]); }
    match g.r.below(4) { 0 => { let v = some(&mut g.r, &CODES); p.cli.extend(["--disable".to_string(), v]); } 1 => { let v = some(&mut g.r, &CODES); p.cli.extend(["--enable-only".to_string(), v]); } _ => {} }
    if g.r.chance(1, 4) { p.cli.push("--verbose".into()); }
    if g.r.chance(1, 4) { p.cli.push("--quiet".into()); }
    p.config = json!({});
    p
}

fn pick_s(v: &[&'static str], i: usize) -> &'static str { v[i] }
