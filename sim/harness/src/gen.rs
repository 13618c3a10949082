//! Seeded generator of Move packages, sources and edits.
use crate::model::*;
use simrt::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Pkg { pub name: String, pub dir: String, pub addr: String, pub mods: Vec<String>, pub deps: Vec<usize>, pub git: Option<(String, String, String)>, pub form: u32, pub shared: Option<String> }
#[derive(Clone, Copy, Debug)]
pub struct Style { pub crlf: bool, pub uni: bool, pub broken: bool, pub variety: bool }
impl Style { pub fn eol(&self) -> &'static str { if self.crlf { "\r\n" } else { "\n" } } }

const FNS: [&str; 7] = ["f0", "f1", "f2", "f3", "get", "put", "calc"];
const STRUCTS: [&str; 5] = ["S0", "S1", "S2", "Coin", "Item"];
const ENUMS: [&str; 2] = ["E0", "Shape"];
const CONSTS: [&str; 4] = ["C0", "C1", "E_BAD", "E_NOT_FOUND"];
const LOCALS: [&str; 8] = ["a", "b", "n", "idx", "val", "tmp", "owner", "total"];
const FIELDS: [&str; 4] = ["x", "y", "value", "count"];
const UNI: [&str; 8] = ["é", "😀", "中文", "ñandú", "𝒳", "—", "Ω", "👩‍🔬"];
pub const MARKS: &[&str] = &["f0", "f1", "f2", "f3", "get", "put", "calc", "S0", "S1", "S2", "Coin", "Item", "E0", "Shape", "C0", "C1", "E_BAD", "E_NOT_FOUND"];

pub struct Gen<'a> { pub r: &'a mut Rng, pub pkgs: &'a [Pkg], pub pkg: usize, pub st: Style }
impl Gen<'_> {
    fn uni(&mut self) -> String { if self.st.uni && self.r.chance(1, 3) { format!("/* {} */ ", self.r.pick(&UNI)) } else { String::new() } }
    fn local(&mut self) -> String { self.r.pick(&LOCALS).to_string() }
    fn modpath(&mut self) -> (String, String) {
        let mut c: Vec<usize> = vec![self.pkg, self.pkg];
        c.extend(&self.pkgs[self.pkg].deps);
        if self.r.chance(1, 12) { c = (0..self.pkgs.len()).collect(); }
        let p = &self.pkgs[*self.r.pick(&c)];
        let m = if p.mods.is_empty() { "m0".to_string() } else { self.r.pick(&p.mods).clone() };
        let (i, shared) = (c_index(self.pkgs, p), p.shared.is_some());
        let a = match if self.st.variety { self.r.below(10) } else { 9 } { 0 | 1 => format!("0x{:x}", i + 0x10), 2 => format!("0x00{:x}", i + 0x10), 3 if shared => "shared".into(), 4 => "0xa1".into(), _ => p.addr.clone() };
        (a, m)
    }
    fn callee(&mut self) -> String {
        let f = self.r.pick(&FNS).to_string();
        if self.r.chance(1, 3) { let (a, m) = self.modpath(); if self.r.chance(1, 2) { format!("{m}::{f}") } else { format!("{a}::{m}::{f}") } } else { f }
    }
    fn ty(&mut self, d: u32) -> String {
        match self.r.below(if d == 0 { 6 } else { 10 }) {
            0 | 1 => "u64".into(), 2 => "bool".into(), 3 => "address".into(), 4 => "u8".into(), 5 => self.r.pick(&STRUCTS).to_string(),
            6 => format!("vector<{}>", self.ty(d - 1)), 7 => format!("&{}", self.ty(0)), 8 => format!("&mut {}", self.ty(0)),
            _ => { let (a, m) = self.modpath(); format!("{a}::{m}::{}", self.r.pick(&STRUCTS)) }
        }
    }
    pub fn expr(&mut self, d: u32) -> String {
        let u = self.uni();
        let e = match self.r.below(if d == 0 { 4 } else { 16 }) {
            0 => self.r.below(1000).to_string(),
            1 => self.local(),
            2 => self.r.pick(&CONSTS).to_string(),
            3 => ["true", "false", "@0x1", "0xff", "7u8", "x\"0a\"", "b\"abc\""][self.r.below(7)].into(),
            4 | 5 => { let c = self.callee(); let n = self.r.below(3); let args: Vec<_> = (0..n).map(|_| self.expr(d - 1)).collect(); format!("{c}({})", args.join(", ")) }
            6 | 7 => { let op = ["+", "-", "*", "==", "<", "&&", "%"][self.r.below(7)]; format!("{} {op} {}", self.expr(d - 1), self.expr(d - 1)) }
            8 => format!("({} as u{})", self.expr(d - 1), [8, 64, 128][self.r.below(3)]),
            9 => format!("if ({}) {{ {} }} else {{ {} }}", self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)),
            10 => format!("{}.{}", self.local(), self.r.pick(&FIELDS)),
            11 => format!("{} {{ x: {}, y: {} }}", self.r.pick(&STRUCTS), self.expr(d - 1), self.expr(d - 1)),
            12 => format!("&{}", self.local()),
            13 => format!("vector[{}, {}]", self.expr(d - 1), self.expr(d - 1)),
            14 => format!("{}.{}({})", self.local(), self.r.pick(&FNS), self.expr(d - 1)),
            _ => format!("({})", self.expr(d - 1)),
        };
        format!("{u}{e}")
    }
    pub fn stmt(&mut self, d: u32) -> Vec<String> {
        if self.st.variety && self.r.chance(1, 10) {
            let (a, b, e) = (self.local(), self.local(), self.expr(1));
            return vec![match self.r.below(4) { 0 => format!("let ({a}, {b}) = (1, {e});"), 1 => format!("each(3, |{a}| {a} + 1);"), 2 => format!("let {a} = each(4, |{b}| {{ let ({a}, _) = (2u64, true); {a} + {b} }});"), _ => format!("let {a} = gen();") }];
        }
        match self.r.below(14) {
            0..=3 => { let (l, e) = (self.local(), self.expr(d)); vec![format!("let {l} = {e};")] }
            4 => { let (l, t, e) = (self.local(), self.ty(1), self.expr(d)); vec![format!("let {l}: {t} = {e};")] }
            5 => { let (l, e) = (self.local(), self.expr(d)); vec![format!("{l} = {e};")] }
            6 => { let e = self.expr(2); vec![format!("{e};")] }
            7 => { let e = self.expr(1); let mut v = vec![format!("while ({e}) {{")]; v.extend(self.stmt(0).into_iter().map(|l| format!("    {l}"))); v.push("};".into()); v }
            8 => { let (s, e) = (self.r.pick(&STRUCTS).to_string(), self.expr(1)); vec![format!("let {s} {{ x: x, y }} = {e};")] }
            9 => { let e = self.expr(1); vec![format!("assert!({e}, E_BAD);")] }
            10 => { let (l, e) = (self.local(), self.expr(1)); vec![format!("for ({l} in 0..{e}) {{"), format!("    {l};"), "};".into()] }
            11 => { let (l, e) = (self.local(), self.expr(1)); vec![format!("let {l} = {l} + {e};")] }
            12 => { let u = self.r.pick(&UNI).to_string(); let u = if self.st.uni { u } else { "note".into() }; vec![format!("// {u} {}", self.local())] }
            _ => { let (e, l) = (self.expr(1), self.local()); vec![format!("if ({e}) {{ return {l} }};")] }
        }
    }
    pub fn fun(&mut self) -> Vec<String> {
        let mut v = vec![];
        if self.r.chance(1, 4) { v.push(format!("/// doc of {}{}", self.local(), if self.st.uni { " 😀" } else { "" })); }
        let name = self.r.pick(&FNS).to_string();
        let test = self.r.chance(1, 6);
        if test { v.push("#[test]".into()); }
        let vis = ["", "", "public ", "public(friend) ", "public entry ", "inline "][self.r.below(6)];
        let n = if test { 0 } else { self.r.below(3) };
        let params: Vec<_> = (0..n).map(|_| format!("{}: {}", self.local(), self.ty(1))).collect();
        let ret = if self.r.chance(1, 2) { format!(": {}", self.ty(1)) } else { String::new() };
        let acq = if self.r.chance(1, 8) { " acquires S0" } else { "" };
        let u = self.uni();
        let tp = if self.r.chance(1, 6) { "<T: copy + drop>" } else { "" };
        v.push(format!("{vis}fun {u}{}{name}{tp}({}){ret}{acq} {{", if test { "test_" } else { "" }, params.join(", ")));
        for _ in 0..self.r.range(1, 3) { let s = self.stmt(2); v.extend(s.into_iter().map(|l| format!("    {l}"))); }
        let e = self.expr(1);
        v.push(format!("    {e}"));
        v.push("}".into());
        v
    }
    pub fn item(&mut self) -> Vec<String> {
        match self.r.below(16) {
            0 | 1 => { let (a, m) = self.modpath(); vec![match self.r.below(4) { 0 => format!("use {a}::{m};"), 1 => format!("use {a}::{m}::{{Self, {}}};", self.r.pick(&STRUCTS)), 2 => format!("use {a}::{m}::{};", self.r.pick(&FNS)), _ => format!("use {a}::{m}::{{{}, {}}};", self.r.pick(&FNS), self.r.pick(&STRUCTS)) }] }
            2 | 3 => { let (s, f, t) = (self.r.pick(&STRUCTS).to_string(), self.r.pick(&FIELDS).to_string(), self.ty(1)); let ab = ["", " has key", " has copy, drop", " has store, key"][self.r.below(4)]; let u = self.uni(); vec![format!("struct {u}{s}{ab} {{ x: u64, y: bool, {u}{f}2: {t} }}")] }
            4 => { let e = self.r.pick(&ENUMS).to_string(); vec![format!("enum {e} has drop {{"), "    A,".into(), "    B { v: u64 }".into(), "}".into()] }
            5 | 6 => { let c = self.r.pick(&CONSTS).to_string(); let d = self.r.below(90); let mut v = vec![]; if self.r.chance(1, 3) { v.push(format!("/// error {d}")); } v.push(format!("const {c}: u64 = {d};")); v }
            7 => { let f = self.r.pick(&FNS).to_string(); let e = self.expr(1); vec![format!("spec {f} {{"), format!("    ensures {e};"), "}".into()] }
            8 => { let (a, m) = self.modpath(); vec![format!("friend {a}::{m};")] }
            _ => self.fun(),
        }
    }
    pub fn module(&mut self, name: &str) -> Vec<String> {
        let mut addr = self.pkgs[self.pkg].addr.clone();
        if self.st.variety { match self.r.below(10) { 0 => addr = format!("0x{:x}", self.pkg + 0x10), 1 | 2 if self.pkgs[self.pkg].shared.is_some() => addr = "shared".into(), 3 => addr = "0xa1".into(), _ => {} } }
        let mut v = vec![];
        if self.r.chance(1, 4) { v.push(format!("/// module {name}{}", if self.st.uni { " Ω" } else { "" })); }
        v.push(format!("module {addr}::{name} {{"));
        for _ in 0..self.r.range(3, 7) { let it = self.item(); v.extend(it.into_iter().map(|l| format!("    {l}"))); if self.r.chance(1, 3) { v.push(String::new()); } }
        if self.st.variety && self.r.chance(1, 3) { v.push("    inline fun each(n: u64, f: |u64| u64): u64 { f(n) }".into()); v.push("    fun gen<Q>(): u64 { 1 }".into()); }
        if self.st.broken && self.r.chance(1, 6) { v.push("    fun broken(".into()); }
        v.push("}".into());
        v
    }
    pub fn file(&mut self, name: &str) -> String {
        let mut v = vec![];
        if self.st.uni && self.r.chance(1, 3) { v.push("// файл 😀".to_string()); }
        v.extend(self.module(name));
        if self.r.chance(1, 10) { let addr = self.pkgs[self.pkg].addr.clone(); v.push(format!("spec {addr}::{name} {{")); v.push("    spec f0 { ensures true; }".into()); v.push("}".into()); }
        if self.r.chance(1, 14) { v.push("script {".into()); let f = self.fun(); v.extend(f); v.push("}".into()); }
        let mut s = v.join(self.st.eol());
        if !self.r.chance(1, 10) { s.push_str(self.st.eol()); }
        s
    }
}
fn clamp(text: &str, mut i: usize) -> usize {
    i = i.min(text.len());
    while !text.is_char_boundary(i) { i -= 1; }
    // never inside \r\n
    if i > 0 && i < text.len() && text.as_bytes()[i - 1] == b'\r' && text.as_bytes()[i] == b'\n' { i -= 1; }
    i
}
/// a seeded single change of `text`, as an LSP content change in the client's encoding
pub fn edit(r: &mut Rng, pkgs: &[Pkg], pkg: usize, text: &str, enc: Enc, st: Style, full_only: bool) -> Edit {
    let st = Style { crlf: text.contains("\r\n"), ..st };
    let eol = st.eol();
    let ls = lines(text);
    let ids = idents(text);
    let (a, b, new): (usize, usize, String) = match r.below(14) {
        0 | 1 => { let l = ls[r.below(ls.len())]; (l.0, l.0, format!("// {}{eol}", if st.uni { *r.pick(&UNI) } else { "pad" })) }
        2 | 3 => { // statement after an opening brace
            let c: Vec<usize> = ls.iter().filter(|l| text[l.0..l.1].trim_end().ends_with('{')).map(|l| l.1).collect();
            if c.is_empty() { (text.len(), text.len(), format!("{eol}// end")) } else {
                let at = *r.pick(&c);
                let top = ls.iter().any(|l| l.1 == at && text[l.0..].starts_with("module"));
                let mut g = Gen { r, pkgs, pkg, st };
                let v = if top { g.item() } else { g.stmt(2) };
                (at, at, format!("{eol}        {}", v.join(&format!("{eol}        "))))
            }
        }
        4 => { let i = r.below(ls.len()); let e = if i + 1 < ls.len() { ls[i + 1].0 } else { ls[i].1 }; (ls[i].0, e, String::new()) }
        5..=8 if !ids.is_empty() => {
            let marked: Vec<&(usize, String)> = ids.iter().filter(|x| MARKS.contains(&x.1.as_str()) || LOCALS.contains(&x.1.as_str())).collect();
            let (o, w) = if marked.is_empty() { r.pick(&ids).clone() } else { (*r.pick(&marked)).clone() };
            let n = if r.chance(1, 4) { format!("{w}{}", r.below(10)) } else if STRUCTS.contains(&w.as_str()) { r.pick(&STRUCTS).to_string() } else if CONSTS.contains(&w.as_str()) { r.pick(&CONSTS).to_string() } else if LOCALS.contains(&w.as_str()) { r.pick(&LOCALS).to_string() } else { r.pick(&FNS).to_string() };
            (o, o + w.len(), n)
        }
        9 if !ids.is_empty() => { let (o, w) = r.pick(&ids).clone(); let at = if r.chance(1, 2) { o } else { o + w.len() }; (at, at, format!("/*{}*/", if st.uni { *r.pick(&UNI) } else { "c" })) }
        10 => { let at = clamp(text, r.below(text.len() + 1)); (at, at, ["x", " ", "}", "(", "f0", "::", ".", "\"", "é", "😀"][r.below(if st.uni { 10 } else { 8 })].to_string()) }
        11 => { let a = clamp(text, r.below(text.len() + 1)); let b = clamp(text, (a + r.below(40)).min(text.len())); (a, b.max(a), if r.chance(1, 2) { String::new() } else { format!("{eol}") }) }
        12 => { // whole function
            let mut g = Gen { r, pkgs, pkg, st };
            let f = g.fun();
            let at = ls.iter().rposition(|l| text[l.0..l.1].starts_with('}')).map_or(text.len(), |i| ls[i].0);
            (at, at, format!("    {}{eol}", f.join(&format!("{eol}    "))))
        }
        13 if r.chance(1, 2) => { // flip line endings, or regenerate
            let t = if text.contains("\r\n") { text.replace("\r\n", "\n") } else { text.replace('\n', "\r\n") };
            return Edit { range: None, text: t };
        }
        _ => { let (o, n) = { let at = clamp(text, r.below(text.len() + 1)); (at, format!("{}", r.below(10))) }; (o, o, n) }
    };
    if full_only || r.chance(1, 12) { return Edit { range: None, text: format!("{}{}{}", &text[..a], new, &text[b..]) }; }
    Edit { range: Some((to_pos(text, enc, a), to_pos(text, enc, b))), text: new }
}
pub fn manifest(pkgs: &[Pkg], i: usize, extra: &str, missing: bool) -> String {
    let p = &pkgs[i];
    let mut s = format!("[package]\nname = \"{}\"\nversion = \"1.0.0\"\n\n[addresses]\n{} = \"0x{:x}\"\n{}", p.name, p.addr, i + 0x10, extra);
    if let Some(v) = &p.shared { if p.form & 4 != 0 { s.push_str("\n[dev-addresses]\n"); } s.push_str(&format!("shared = \"{v}\"\n")); }
    let dev = if p.form & 2 != 0 { p.deps.last().copied() } else { None };
    s.push_str("\n[dependencies]\n");
    if missing { s.push_str("Missing = { local = \"../nowhere\" }\n"); }
    if p.git.is_some() && p.form & 32 != 0 { s.push_str("Unfetched = { local = \"../unfetched\" }\n"); }
    if missing && p.form & 8 != 0 { s.push_str("Absent = { git = \"https://example.com/gone.git\", rev = \"dev/x\" }\n"); }
    let table = p.form & 1 != 0;
    for d in p.deps.iter().filter(|d| Some(**d) != dev && !table) { s.push_str(&dep_line(pkgs, i, *d, None)); }
    if let Some(d) = dev { if !table { s.push_str("\n[dev-dependencies]\n"); s.push_str(&dep_line(pkgs, i, d, None)); } }
    if table { for d in &p.deps { s.push_str(&dep_line(pkgs, i, *d, Some(if Some(*d) == dev { "dev-dependencies" } else { "dependencies" }))); } }
    s
}
pub fn dep_line(pkgs: &[Pkg], i: usize, d: usize, table: Option<&str>) -> String {
    let q = &pkgs[d];
    let mut kv = match &q.git {
        // another package of the same repository
        Some((url, rev, _)) if p_git(pkgs, i).is_some_and(|g| g.0 == *url && g.1 == *rev) => vec![("local", relative(&pkgs[i].dir, &q.dir))],
        Some((url, rev, sub)) => { let mut v = vec![("git", url.clone()), ("rev", rev.clone())]; if !sub.is_empty() { v.push(("subdir", sub.clone())); } v }
        None => vec![("local", relative(&pkgs[i].dir, &q.dir))],
    };
    if q.form & 16 != 0 && q.git.is_none() { kv[0].1.push('/'); }
    match table {
        Some(t) => format!("\n[{t}.{}]\n{}", q.name, kv.iter().map(|(k, v)| format!("{k} = \"{v}\"\n")).collect::<String>()),
        None => format!("{} = {{ {} }}\n", q.name, kv.iter().map(|(k, v)| format!("{k} = \"{v}\"")).collect::<Vec<_>>().join(", ")),
    }
}
fn p_git(pkgs: &[Pkg], i: usize) -> Option<&(String, String, String)> { pkgs[i].git.as_ref() }
/// where a downloaded package lies
fn git_dir((url, rev, sub): &(String, String, String)) -> String {
    let clean: String = url.chars().map(|c| if matches!(c, ':' | '/' | '.' | '@') { '_' } else { c }).collect();
    format!("/simws/home/.move/{clean}_{}{}{sub}", rev.replace('/', "_"), if sub.is_empty() { "" } else { "/" })
}
fn c_index(pkgs: &[Pkg], p: &Pkg) -> usize { pkgs.iter().position(|q| q.addr == p.addr).unwrap_or(0) }
pub fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|s| !s.is_empty()).collect();
    let c = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut v: Vec<&str> = vec![".."; f.len() - c];
    v.extend(&t[c..]);
    if v.is_empty() { ".".into() } else { v.join("/") }
}
/// packages, files on disk and workspace folders
pub fn project(r: &mut Rng, st: Style, size: usize) -> (Vec<Pkg>, BTreeMap<String, Vec<u8>>, Vec<String>) {
    let shape = if r.chance(1, 12) { 5 } else { r.below(5) };
    let mut n = r.range(1, 3.min(size + 1));
    if shape == 3 && n < 3.min(size + 1) { n += 1; }
    let mut pkgs: Vec<Pkg> = vec![];
    // the packages downloaded: the last, or all but the first
    let first_git = if shape == 3 && n > 1 { if n > 2 && r.chance(1, 2) { 1 } else { n - 1 } } else { n };
    let url = r.pick(&["https://example.com/lib.git", "https://example.com/lib.git", "git@example.com:aptos/lib.git"]).to_string();
    let rev = r.pick(&["main", "main", "dev/x", "release/v1.0/a"]).to_string();
    let (inner, apart) = (r.pick(&["sub", "packages/core/sub", ""]).to_string(), r.chance(1, 3));
    for i in 0..n {
        let git = if i < first_git { None } else if i == first_git { Some((url.clone(), rev.clone(), inner.clone())) } else if apart { Some(("https://example.com/other".to_string(), rev.clone(), "sub".to_string())) } else { Some((url.clone(), rev.clone(), "more/sub2".to_string())) };
        let dir = match (shape, i) {
            _ if git.is_some() => git_dir(git.as_ref().unwrap()),
            (0, 0) => "/simws/w".into(),
            (0, i) => format!("/simws/w/libs/l{i}"),
            (2, i) if i > 0 => format!("/simws/ext/e{i}"),
            (4, i) if i > 0 => format!("/simws/w2/q{i}"),
            // the layout of the aptos-core repository
            (5, 0) => "/simws/w/third/p0".into(),
            (5, 1) => "/simws/w/aptos-move/framework/p1".into(),
            (5, i) => format!("/simws/w/aptos-move/move-examples/p{i}"),
            (_, i) => format!("/simws/w/p{i}"),
        };
        let nm = r.range(1, 1 + size);
        let mods = (0..nm).map(|k| format!("m{k}")).collect();
        pkgs.push(Pkg { name: format!("P{i}"), dir, addr: format!("p{i}"), mods, deps: vec![], git, form: 0, shared: None });
    }
    for i in 0..n { for j in i + 1..n { if r.chance(if shape == 3 { 1 } else { 2 }, 3) || (j == i + 1 && (shape == 2 || shape == 3)) { pkgs[i].deps.push(j); } } }
    if st.variety { for i in 0..n { pkgs[i].form = r.below(64) as u32; if r.chance(1, 2) { pkgs[i].shared = Some(["0xa1".to_string(), "0xa1".into(), format!("0xa{i}"), "_".into()][r.below(4)].clone()); } } }
    let mut disk = BTreeMap::new();
    for i in 0..n {
        disk.insert(format!("{}/Move.toml", pkgs[i].dir), manifest(&pkgs, i, "", false).into_bytes());
        for m in pkgs[i].mods.clone() {
            let st = Style { crlf: st.crlf != r.chance(1, 8), ..st };
            let t = Gen { r, pkgs: &pkgs, pkg: i, st }.file(&m);
            let sub = if r.chance(1, 4) { "sources/nested" } else if r.chance(1, 8) { "tests" } else { "sources" };
            disk.insert(format!("{}/{sub}/{m}.move", pkgs[i].dir), t.into_bytes());
        }
    }
    let mut folders = vec!["/simws/w".to_string()];
    if shape == 4 { folders.push("/simws/w2".into()); }
    (pkgs, disk, folders)
}
/// index of the package a path belongs to
pub fn package_of(pkgs: &[Pkg], path: &str) -> Option<usize> { pkgs.iter().enumerate().filter(|(_, p)| path.starts_with(&format!("{}/", p.dir))).max_by_key(|(_, p)| p.dir.len()).map(|x| x.0) }
