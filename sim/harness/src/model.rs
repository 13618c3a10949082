//! What the editor knows: open documents, the disk, settings, workspace folders; LSP positions.
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Enc { Utf8, Utf16, Utf32 }
impl Enc {
    pub fn len(self, c: char) -> u32 { match self { Enc::Utf8 => c.len_utf8() as u32, Enc::Utf16 => c.len_utf16() as u32, Enc::Utf32 => 1 } }
    pub fn name(self) -> &'static str { match self { Enc::Utf8 => "utf-8", Enc::Utf16 => "utf-16", Enc::Utf32 => "utf-32" } }
}
pub type Pos = (u32, u32);
/// byte ranges of the lines' contents (terminator excluded)
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = 0;
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' { let end = if i > start && text.as_bytes()[i - 1] == b'\r' { i - 1 } else { i }; v.push((start, end)); start = i + 1; }
    }
    v.push((start, text.len()));
    v
}
pub fn to_offset(text: &str, enc: Enc, p: Pos) -> Option<usize> {
    let ls = lines(text);
    let (s, e) = *ls.get(p.0 as usize)?;
    let mut col = 0;
    for (i, c) in text[s..e].char_indices() {
        if col == p.1 { return Some(s + i); }
        col += enc.len(c);
        if col > p.1 { return None; }
    }
    if col == p.1 { Some(e) } else { None }
}
pub fn to_pos(text: &str, enc: Enc, off: usize) -> Pos {
    let ls = lines(text);
    let l = ls.iter().rposition(|(s, _)| *s <= off).unwrap_or(0);
    let (s, e) = ls[l];
    let col = text[s..off.min(e)].chars().map(|c| enc.len(c)).sum();
    (l as u32, col)
}
pub fn pos_json(p: Pos) -> Value { json!({"line": p.0, "character": p.1}) }
pub fn json_pos(v: &Value) -> Option<Pos> { Some((v["line"].as_u64()? as u32, v["character"].as_u64()? as u32)) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    /// None: the whole document
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub range: Option<(Pos, Pos)>,
    pub text: String,
}
impl Edit {
    pub fn apply(&self, text: &str, enc: Enc) -> Option<String> {
        match self.range {
            None => Some(self.text.clone()),
            Some((a, b)) => {
                let (a, b) = (to_offset(text, enc, a)?, to_offset(text, enc, b)?);
                if a > b { return None; }
                Some(format!("{}{}{}", &text[..a], self.text, &text[b..]))
            }
        }
    }
    pub fn json(&self) -> Value {
        match self.range { None => json!({"text": self.text}), Some((a, b)) => json!({"range": {"start": pos_json(a), "end": pos_json(b)}, "text": self.text}) }
    }
}
/// applies LSP `TextEdit`s (ranges refer to the original text); None if invalid or overlapping
pub fn apply_text_edits(text: &str, enc: Enc, edits: &[Value]) -> Option<String> {
    let mut v = vec![];
    for e in edits {
        let a = to_offset(text, enc, json_pos(&e["range"]["start"])?)?;
        let b = to_offset(text, enc, json_pos(&e["range"]["end"])?)?;
        if a > b { return None; }
        v.push((a, b, e["newText"].as_str()?.to_string()));
    }
    v.sort_by_key(|x| (x.0, x.1));
    for w in v.windows(2) { if w[0].1 > w[1].0 { return None; } }
    let mut out = String::new();
    let mut at = 0;
    for (a, b, t) in v { out.push_str(&text[at..a]); out.push_str(&t); at = b; }
    out.push_str(&text[at..]);
    Some(out)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Doc { pub text: String, pub version: i32 }

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Model {
    /// virtual path -> bytes
    pub disk: BTreeMap<String, Vec<u8>>,
    pub docs: BTreeMap<String, Doc>,
    pub config: Value,
    pub folders: Vec<String>,
}
impl Model {
    /// what the editor shows for a file
    pub fn text(&self, path: &str) -> Option<String> {
        if let Some(d) = self.docs.get(path) { return Some(d.text.clone()); }
        self.disk.get(path).and_then(|b| String::from_utf8(b.clone()).ok())
    }
    pub fn move_files(&self) -> Vec<String> {
        let mut v: Vec<String> = self.disk.keys().chain(self.docs.keys()).filter(|p| p.ends_with(".move")).cloned().collect();
        v.sort(); v.dedup();
        v
    }
}
/// a manifest as its author means it
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Manifest { pub name: Option<String>, pub deps: Vec<(String, String)>, pub addrs: Vec<(String, String)> }
/// reads the manifests the generator writes (a small part of TOML); None: not a manifest
pub fn manifest_of(bytes: &[u8], dir: &str) -> Option<Manifest> {
    let t = std::str::from_utf8(bytes).ok()?;
    let mut m = Manifest::default();
    let mut section = String::new();
    let mut tables: Vec<(String, Vec<(String, String)>)> = vec![];
    let mut seen: Vec<(String, String)> = vec![];
    let quoted = |v: &str| v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).filter(|v| !v.contains('"')).map(|v| v.to_string());
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some(h) = l.strip_prefix('[') { section = h.strip_suffix(']')?.to_string(); if let Some((_, n)) = section.split_once("dependencies.") { tables.push((n.to_string(), vec![])); } continue; }
        let (k, v) = l.split_once(" = ")?;
        if seen.contains(&(section.clone(), k.to_string())) { return None; }
        seen.push((section.clone(), k.to_string()));
        if let Some(inner) = v.strip_prefix('{') {
            let inner = inner.strip_suffix('}')?;
            let mut kv = vec![];
            for part in inner.split(',') { let (a, b) = part.trim().split_once(" = ")?; kv.push((a.to_string(), quoted(b)?)); }
            if section.ends_with("dependencies") { tables.push((k.to_string(), kv)); }
            continue;
        }
        let v = quoted(v)?;
        match section.as_str() {
            "package" if k == "name" => m.name = Some(v),
            "addresses" | "dev-addresses" => m.addrs.push((k.to_string(), v)),
            s if s.contains("dependencies.") => tables.last_mut()?.1.push((k.to_string(), v)),
            _ => {}
        }
    }
    for (n, kv) in tables {
        let field = |k: &str| kv.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let d = if let Some(rel) = field("local") {
            let mut parts: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
            for x in rel.split('/') { match x { ".." => { parts.pop(); } "." | "" => {} x => parts.push(x) } }
            format!("/{}", parts.join("/"))
        } else if let (Some(u), Some(r)) = (field("git"), field("rev")) {
            let clean: String = u.chars().map(|c| if matches!(c, ':' | '/' | '.' | '@') { '_' } else { c }).collect();
            let sub = field("subdir").unwrap_or_default();
            format!("/simws/home/.move/{clean}_{}{}{sub}", r.replace('/', "_"), if sub.is_empty() { "" } else { "/" })
        } else { continue };
        m.deps.push((n, d));
    }
    Some(m)
}
/// what the manifests say about one package: `deps` and `missing` are those of the package and everything it depends on
#[derive(Clone, Debug)]
pub struct PkgInfo { pub dir: String, pub name: Option<String>, pub deps: Vec<String>, pub missing: Vec<String>, pub clear: bool }
/// the packages a server started on this state works with; None: some manifest cannot be read
pub fn packages(m: &Model) -> Option<(Vec<PkgInfo>, Vec<(String, String)>)> {
    let mut todo: Vec<String> = m.disk.keys().filter(|p| p.ends_with("/Move.toml") && m.folders.iter().any(|f| p.starts_with(&format!("{f}/")))).map(|p| p.strip_suffix("/Move.toml").unwrap().to_string()).collect();
    let mut all: BTreeMap<String, Manifest> = BTreeMap::new();
    while let Some(dir) = todo.pop() {
        if all.contains_key(&dir) { continue; }
        let Some(b) = m.disk.get(&format!("{dir}/Move.toml")) else { continue };
        let mut mf = manifest_of(b, &dir)?;
        if restricted(m, &dir) { mf.deps.clear(); }
        todo.extend(mf.deps.iter().map(|d| d.1.clone()));
        all.insert(dir, mf);
    }
    let addrs = all.values().flat_map(|m| m.addrs.clone()).collect();
    let infos = all.iter().map(|(dir, mf)| {
        let (mut deps, mut missing, mut names) = (vec![dir.clone()], vec![], vec![]);
        let mut clear = true;
        let mut i = 0;
        while i < deps.len() {
            let d = &all[&deps[i]];
            if let Some(n) = &d.name { if names.contains(n) { clear = false; } names.push(n.clone()); }
            for (n, t) in d.deps.clone() { if !all.contains_key(&t) { missing.push(n); } else if !deps.contains(&t) { deps.push(t); } }
            i += 1;
        }
        missing.sort(); missing.dedup();
        PkgInfo { dir: dir.clone(), name: mf.name.clone(), deps, missing, clear }
    }).collect();
    Some((infos, addrs))
}
/// a package of the aptos-core repository outside the parts of it whose dependencies are resolved (no generated package of those parts depends on one outside)
pub fn restricted(m: &Model, dir: &str) -> bool {
    let below = |p: &str, d: &str| p == d || p.starts_with(&format!("{d}/"));
    let of: Vec<&String> = m.folders.iter().filter(|f| below(dir, f)).collect();
    !of.is_empty() && of.iter().all(|f| m.disk.keys().any(|p| below(p, &format!("{f}/aptos-move/framework"))) && !["aptos-move/framework", "aptos-move/move-examples", "testsuite/module-publish/src/packages"].iter().any(|d| below(dir, &format!("{f}/{d}"))))
}
/// directories of the packages a server started on this state works with; None: some manifest cannot be read
pub fn project_dirs(m: &Model) -> Option<Vec<String>> { Some(packages(m)?.0.into_iter().map(|p| p.dir).collect()) }
/// the package a source file belongs to
pub fn owner<'a>(ps: &'a [PkgInfo], path: &str) -> Option<&'a PkgInfo> { ps.iter().filter(|p| member(std::slice::from_ref(&p.dir), path)).max_by_key(|p| p.dir.len()) }
/// manifests below the workspace folders, or needed by those, that cannot be parsed
pub fn broken_manifests(m: &Model) -> Vec<String> {
    let mut todo: Vec<String> = m.disk.keys().filter(|p| p.ends_with("/Move.toml") && m.folders.iter().any(|f| p.starts_with(&format!("{f}/")))).map(|p| p.strip_suffix("/Move.toml").unwrap().to_string()).collect();
    let (mut seen, mut out) = (vec![], vec![]);
    while let Some(dir) = todo.pop() {
        if seen.contains(&dir) { continue; }
        seen.push(dir.clone());
        let p = format!("{dir}/Move.toml");
        let Some(b) = m.disk.get(&p) else { continue };
        match manifest_of(b, &dir) { Some(_) if restricted(m, &dir) => {} Some(mf) => todo.extend(mf.deps.into_iter().map(|d| d.1)), None => out.push(p) }
    }
    out.sort();
    out
}
/// `0x00af` and `0xaf` are the same address; None: not a number
pub fn address_value(a: &str) -> Option<String> { let h = a.strip_prefix("0x")?; let h = h.trim_start_matches('0'); Some(format!("0x{}", if h.is_empty() { "0" } else { h }).to_lowercase()) }
/// is `p` a source file of one of these packages?
pub fn member(dirs: &[String], p: &str) -> bool { dirs.iter().any(|d| p.strip_prefix(d.as_str()).and_then(|r| r.strip_prefix('/')).is_some_and(|r| ["sources/", "tests/", "scripts/"].iter().any(|s| r.starts_with(s)))) }
pub fn uri(path: &str) -> String {
    let mut s = String::from("file://");
    for b in path.bytes() { match b { b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'_' | b'-' | b'~' => s.push(b as char), _ => s.push_str(&format!("%{b:02X}")) } }
    s
}
pub fn unuri(u: &str) -> Option<String> {
    let p = u.strip_prefix("file://")?.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'%' { out.push(u8::from_str_radix(std::str::from_utf8(p.get(i + 1..i + 3)?).ok()?, 16).ok()?); i += 3 } else { out.push(p[i]); i += 1 }
    }
    String::from_utf8(out).ok()
}
/// block comments nest
fn comment_end(b: &[u8], mut i: usize) -> usize {
    let mut depth = 0;
    while i < b.len() {
        if b[i..].starts_with(b"/*") { depth += 1; i += 2; } else if b[i..].starts_with(b"*/") { depth -= 1; i += 2; if depth == 0 { return i; } } else { i += 1; }
    }
    b.len()
}
/// the same text with its comments blanked out, byte for byte
pub fn blank(text: &str) -> String {
    let mut b = text.as_bytes().to_vec();
    let mut i = 0;
    while i < b.len() {
        let e = if b[i..].starts_with(b"//") { b[i..].iter().position(|c| *c == b'\n').map_or(b.len(), |n| i + n) }
            else if b[i..].starts_with(b"/*") { comment_end(&b, i) }
            else if b[i] == b'"' { i += 1; while i < b.len() && b[i] != b'"' && b[i] != b'\n' { i += 1; } i += 1; continue; }
            else { i += 1; continue };
        for c in &mut b[i..e] { if !matches!(*c, b'\n' | b'\r') { *c = b' '; } }
        i = e;
    }
    String::from_utf8(b).unwrap_or_default()
}
/// identifiers of a Move source, comments skipped: (byte offset, text)
pub fn idents(text: &str) -> Vec<(usize, String)> {
    let b = text.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if b[i..].starts_with(b"/*") { i = comment_end(b, i); continue; }
        if b[i] == b'"' { i += 1; while i < b.len() && b[i] != b'"' && b[i] != b'\n' { i += 1; } i += 1; continue; }
        if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            v.push((s, text[s..i].to_string()));
            continue;
        }
        if b[i].is_ascii_digit() { while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; } continue; }
        i += 1;
    }
    v
}
/// VS Code style glob: `**` spans segments only as a whole segment, `*` and `?` stay inside one
pub fn glob(pat: &str, path: &str) -> bool {
    fn seg(p: &[u8], s: &[u8]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(b'*') => (0..=s.len()).any(|i| seg(&p[1..], &s[i..])),
            Some(b'?') => !s.is_empty() && seg(&p[1..], &s[1..]),
            Some(c) => s.first() == Some(c) && seg(&p[1..], &s[1..]),
        }
    }
    fn go(p: &[&str], s: &[&str]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(&"**") => (0..=s.len()).any(|i| go(&p[1..], &s[i..])),
            Some(x) => !s.is_empty() && seg(x.as_bytes(), s[0].as_bytes()) && go(&p[1..], &s[1..]),
        }
    }
    // brace alternatives
    if let (Some(o), Some(c)) = (pat.find('{'), pat.find('}')) {
        if o < c { return pat[o + 1..c].split(',').any(|alt| glob(&format!("{}{}{}", &pat[..o], alt, &pat[c + 1..]), path)); }
    }
    let p: Vec<&str> = pat.split('/').filter(|s| !s.is_empty()).collect();
    let s: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    go(&p, &s)
}
