//! Minimal snapshot assertions.
use std::path::PathBuf;
#[derive(Debug)] pub struct Expect { pub data: &'static str, pub indent: bool, pub pos: &'static str }
#[derive(Debug)] pub struct ExpectFile { pub path: PathBuf }
#[macro_export] macro_rules! expect { [$d:literal] => { $crate::Expect { data: $d, indent: true, pos: concat!(file!(), ":", line!()) } }; [[$d:literal]] => { $crate::expect![$d] }; [] => { $crate::expect![[""]] }; [[]] => { $crate::expect![[""]] }; }
#[macro_export] macro_rules! expect_file { [$p:expr] => { $crate::ExpectFile { path: std::path::PathBuf::from($p) } }; }
fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') { text = &text[1..]; }
    let indent = text.lines().filter(|it| !it.trim().is_empty()).map(|it| it.len() - it.trim_start().len()).min().unwrap_or(0);
    text.split_inclusive('\n').map(|l| if l.len() <= indent { l.trim_start_matches(' ') } else { &l[indent..] }).collect()
}
impl Expect {
    pub fn data(&self) -> &str { self.data }
    pub fn indent(self, yes: bool) -> Self { Expect { indent: yes, ..self } }
    fn trimmed(&self) -> String { if !self.data.contains('\n') { return self.data.to_string(); } if self.indent { trim_indent(self.data) } else { self.data.strip_prefix('\n').unwrap_or(self.data).to_string() } }
    pub fn assert_eq(&self, actual: &str) { let t = self.trimmed(); if t != actual { panic!("snapshot mismatch at {}\n--- expected\n{t}\n--- actual\n{actual}\n---", self.pos) } }
    pub fn assert_debug_eq(&self, actual: &impl std::fmt::Debug) { self.assert_eq(&format!("{actual:#?}\n")) }
}
impl ExpectFile {
    pub fn data(&self) -> String { std::fs::read_to_string(&self.path).unwrap_or_default().replace("\r\n", "\n") }
    pub fn assert_eq(&self, actual: &str) { let t = self.data(); if t != actual { panic!("snapshot mismatch at {}\n--- expected\n{t}\n--- actual\n{actual}\n---", self.path.display()) } }
    pub fn assert_debug_eq(&self, actual: &impl std::fmt::Debug) { self.assert_eq(&format!("{actual:#?}\n")) }
}
