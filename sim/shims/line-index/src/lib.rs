//! Re-implementation of the parts of `line-index` used by the workspace.
use std::collections::BTreeMap;
pub use text_size::{TextRange, TextSize};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum WideEncoding { Utf16, Utf32 }
impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize { match self { WideEncoding::Utf16 => text.encode_utf16().count(), WideEncoding::Utf32 => text.chars().count() } }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct WideChar { start: TextSize, end: TextSize }
impl WideChar {
    fn len(&self) -> u32 { u32::from(self.end) - u32::from(self.start) }
    fn wide_len(&self, enc: WideEncoding) -> u32 { match enc { WideEncoding::Utf16 => if self.len() == 4 { 2 } else { 1 }, WideEncoding::Utf32 => 1 } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex { newlines: Vec<TextSize>, wide: BTreeMap<u32, Vec<WideChar>>, len: TextSize }
impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![];
        let mut wide: BTreeMap<u32, Vec<WideChar>> = BTreeMap::new();
        let mut line_start = 0usize;
        for (i, c) in text.char_indices() {
            if c == '\n' { newlines.push(TextSize::new(i as u32 + 1)); line_start = i + 1; continue; }
            let n = c.len_utf8();
            if n > 1 {
                let s = (i - line_start) as u32;
                wide.entry(newlines.len() as u32).or_default().push(WideChar { start: TextSize::new(s), end: TextSize::new(s + n as u32) });
            }
        }
        LineIndex { newlines, wide, len: TextSize::of(text) }
    }
    fn start_offset(&self, line: usize) -> Option<TextSize> { match line.checked_sub(1) { None => Some(TextSize::new(0)), Some(p) => self.newlines.get(p).copied() } }
    pub fn line_col(&self, offset: TextSize) -> LineCol { self.try_line_col(offset).expect("invalid offset") }
    pub fn try_line_col(&self, offset: TextSize) -> Option<LineCol> {
        if offset > self.len { return None; }
        let line = self.newlines.partition_point(|&it| it <= offset);
        let start = self.start_offset(line)?;
        let col = offset - start;
        if let Some(chars) = self.wide.get(&(line as u32)) {
            if chars.iter().any(|c| c.start < col && col < c.end) { return None; }
        }
        Some(LineCol { line: line as u32, col: col.into() })
    }
    pub fn offset(&self, lc: LineCol) -> Option<TextSize> { self.start_offset(lc.line as usize).map(|s| s + TextSize::from(lc.col)) }
    pub fn to_wide(&self, enc: WideEncoding, lc: LineCol) -> Option<WideLineCol> {
        let mut col = lc.col;
        if let Some(chars) = self.wide.get(&lc.line) {
            for c in chars { if u32::from(c.end) <= lc.col { col = col.checked_sub(c.len() - c.wide_len(enc))?; } else { break; } }
        }
        Some(WideLineCol { line: lc.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, lc: WideLineCol) -> Option<LineCol> {
        let mut col = lc.col;
        if let Some(chars) = self.wide.get(&lc.line) {
            for c in chars { if col > u32::from(c.start) { col = col.checked_add(c.len() - c.wide_len(enc))?; } else { break; } }
        }
        Some(LineCol { line: lc.line, col })
    }
    pub fn line(&self, line: u32) -> Option<TextRange> {
        let start = self.start_offset(line as usize)?;
        let next = self.newlines.get(line as usize).copied().unwrap_or(self.len);
        Some(TextRange::new(start, next))
    }
    pub fn lines(&self, range: TextRange) -> impl Iterator<Item = TextRange> + '_ {
        let lo = self.newlines.partition_point(|&it| it < range.start());
        let hi = self.newlines.partition_point(|&it| it <= range.end());
        let all: Vec<TextSize> = std::iter::once(range.start()).chain(self.newlines[lo..hi].iter().copied()).chain(std::iter::once(range.end())).collect();
        let v: Vec<TextRange> = all.windows(2).map(|w| TextRange::new(w[0], w[1])).filter(|it| !it.is_empty()).collect();
        v.into_iter()
    }
    pub fn len(&self) -> TextSize { self.len }
    pub fn is_empty(&self) -> bool { self.len == TextSize::new(0) }
}
