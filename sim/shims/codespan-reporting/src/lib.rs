//! Plain-text stand-in for `codespan-reporting` (only the command line interface renders with it).
pub mod diagnostic {
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum Severity { Help, Note, Warning, Error, Bug }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub enum LabelStyle { Primary, Secondary }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Label<FileId> { pub style: LabelStyle, pub file_id: FileId, pub range: std::ops::Range<usize>, pub message: String }
    impl<F> Label<F> {
        pub fn new(style: LabelStyle, file_id: F, range: impl Into<std::ops::Range<usize>>) -> Self { Label { style, file_id, range: range.into(), message: String::new() } }
        pub fn primary(f: F, r: impl Into<std::ops::Range<usize>>) -> Self { Self::new(LabelStyle::Primary, f, r) }
        pub fn secondary(f: F, r: impl Into<std::ops::Range<usize>>) -> Self { Self::new(LabelStyle::Secondary, f, r) }
        pub fn with_message(mut self, m: impl ToString) -> Self { self.message = m.to_string(); self }
    }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Diagnostic<FileId> { pub severity: Severity, pub code: Option<String>, pub message: String, pub labels: Vec<Label<FileId>>, pub notes: Vec<String> }
    impl<F> Diagnostic<F> {
        pub fn new(severity: Severity) -> Self { Diagnostic { severity, code: None, message: String::new(), labels: vec![], notes: vec![] } }
        pub fn error() -> Self { Self::new(Severity::Error) }
        pub fn warning() -> Self { Self::new(Severity::Warning) }
        pub fn with_code(mut self, c: impl ToString) -> Self { self.code = Some(c.to_string()); self }
        pub fn with_message(mut self, m: impl ToString) -> Self { self.message = m.to_string(); self }
        pub fn with_label(mut self, l: Label<F>) -> Self { self.labels.push(l); self }
        pub fn with_labels(mut self, mut l: Vec<Label<F>>) -> Self { self.labels.append(&mut l); self }
        pub fn with_labels_iter(mut self, l: impl IntoIterator<Item = Label<F>>) -> Self { self.labels.extend(l); self }
        pub fn with_notes(mut self, mut n: Vec<String>) -> Self { self.notes.append(&mut n); self }
        pub fn with_note(mut self, n: impl ToString) -> Self { self.notes.push(n.to_string()); self }
    }
}
pub mod files {
    #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("file missing") } } impl std::error::Error for Error {}
    pub trait Files<'a> { type FileId: Copy; fn text(&'a self, id: Self::FileId) -> Option<(String, String)>; }
    #[derive(Debug, Clone)] pub struct SimpleFiles<Name, Source> { files: Vec<(Name, Source)> }
    impl<N, S> SimpleFiles<N, S> { pub fn new() -> Self { SimpleFiles { files: vec![] } } pub fn add(&mut self, n: N, s: S) -> usize { self.files.push((n, s)); self.files.len() - 1 } }
    impl<'a, N: std::fmt::Display, S: AsRef<str>> Files<'a> for SimpleFiles<N, S> { type FileId = usize; fn text(&'a self, id: usize) -> Option<(String, String)> { self.files.get(id).map(|(n, s)| (n.to_string(), s.as_ref().to_string())) } }
}
pub mod term {
    pub mod termcolor {
        use std::io::{self, Write};
        #[derive(Copy, Clone, Debug, PartialEq, Eq)] pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
        pub trait WriteColor: Write {}
        pub struct StandardStream; impl StandardStream { pub fn stderr(_: ColorChoice) -> Self { StandardStream } pub fn stdout(_: ColorChoice) -> Self { StandardStream } pub fn lock(&self) -> StandardStream { StandardStream } }
        impl Write for StandardStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { io::stderr().write(b) } fn flush(&mut self) -> io::Result<()> { io::stderr().flush() } }
        impl WriteColor for StandardStream {}
    }
    use crate::{diagnostic::Diagnostic, files::{Error, Files}};
    use std::io::Write;
    #[derive(Clone, Debug, Default)] pub struct Config {}
    #[derive(Clone, Debug, Default)] pub struct Styles {}
    pub trait WriteStyle: Write {}
    pub struct StylesWriter<'a, W> { w: W, _s: &'a Styles }
    impl<'a, W> StylesWriter<'a, W> { pub fn new(w: W, s: &'a Styles) -> Self { StylesWriter { w, _s: s } } }
    impl<W: Write> Write for StylesWriter<'_, W> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.w.write(b) } fn flush(&mut self) -> std::io::Result<()> { self.w.flush() } }
    impl<W: Write> WriteStyle for StylesWriter<'_, W> {}
    pub fn emit<'f, F: Files<'f>>(w: &mut dyn Write, _: &Config, files: &'f F, d: &Diagnostic<F::FileId>) -> Result<(), Error> {
        let _ = writeln!(w, "{:?}[{}]: {}", d.severity, d.code.as_deref().unwrap_or(""), d.message);
        for l in &d.labels { if let Some((n, _)) = files.text(l.file_id) { let _ = writeln!(w, "  {n}:{:?} {}", l.range, l.message); } }
        Ok(())
    }
    pub fn emit_to_write_style<'f, F: Files<'f>>(w: &mut dyn Write, c: &Config, files: &'f F, d: &Diagnostic<F::FileId>) -> Result<(), Error> { emit(w, c, files, d) }
}
