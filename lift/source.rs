// typst's Source, as far as positions and edits go (typst-syntax 0.13, src/source.rs).
use std::ops::Range;
pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
}
#[derive(Clone, Debug, PartialEq)]
pub struct Source {
    text: String,
    /// byte and UTF-16 offset of each line
    lines: Vec<(usize, usize)>,
}
fn wide(s: &str) -> usize {
    s.chars().map(char::len_utf16).sum()
}
#[allow(dead_code)]
impl Source {
    pub fn detached(text: impl Into<String>) -> Self {
        let text = text.into();
        let mut lines = vec![(0, 0)];
        let mut w = 0;
        let mut it = text.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            w += c.len_utf16();
            let mut end = i + c.len_utf8();
            if c == '\r' && it.peek().map(|x| x.1) == Some('\n') {
                it.next();
                end += 1;
                w += 1;
            }
            if is_newline(c) {
                lines.push((end, w));
            }
        }
        Source { text, lines }
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn len_bytes(&self) -> usize {
        self.text.len()
    }
    pub fn len_utf16(&self) -> usize {
        wide(&self.text)
    }
    pub fn len_lines(&self) -> usize {
        self.lines.len()
    }
    pub fn get(&self, r: Range<usize>) -> Option<&str> {
        self.text.get(r)
    }
    pub fn byte_to_utf16(&self, b: usize) -> Option<usize> {
        let l = self.lines[self.byte_to_line(b)?];
        Some(l.1 + wide(self.text.get(l.0..b)?))
    }
    pub fn byte_to_line(&self, b: usize) -> Option<usize> {
        (b <= self.text.len()).then(|| self.lines.iter().rposition(|l| l.0 <= b).unwrap())
    }
    pub fn byte_to_column(&self, b: usize) -> Option<usize> {
        let l = self.line_to_byte(self.byte_to_line(b)?)?;
        Some(self.get(l..b)?.chars().count())
    }
    pub fn utf16_to_byte(&self, u: usize) -> Option<usize> {
        let l = self.lines[self.lines.iter().rposition(|l| l.1 <= u)?];
        let mut k = l.1;
        for (i, c) in self.text[l.0..].char_indices() {
            if k >= u {
                return Some(l.0 + i);
            }
            k += c.len_utf16();
        }
        (k == u).then_some(self.text.len())
    }
    pub fn line_to_byte(&self, l: usize) -> Option<usize> {
        self.lines.get(l).map(|x| x.0)
    }
    pub fn line_to_range(&self, l: usize) -> Option<Range<usize>> {
        let a = self.line_to_byte(l)?;
        Some(a..self.line_to_byte(l + 1).unwrap_or(self.text.len()))
    }
    pub fn line_column_to_byte(&self, l: usize, c: usize) -> Option<usize> {
        let r = self.line_to_range(l)?;
        let t = self.get(r.clone())?;
        Some(r.start + t.char_indices().nth(c).map_or(t.len(), |x| x.0))
    }
    pub fn edit(&mut self, r: Range<usize>, with: &str) -> Range<usize> {
        let mut t = self.text.clone();
        t.replace_range(r.clone(), with);
        *self = Source::detached(t);
        r.start..r.start + with.len()
    }
    pub fn replace(&mut self, t: &str) -> Range<usize> {
        *self = Source::detached(t);
        0..t.len()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct LspPosition {
    pub line: u32,
    pub character: u32,
}
impl LspPosition {
    pub fn new(line: u32, character: u32) -> Self {
        LspPosition { line, character }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
pub struct LspRange {
    pub start: LspPosition,
    pub end: LspPosition,
}
impl LspRange {
    pub fn new(start: LspPosition, end: LspPosition) -> Self {
        LspRange { start, end }
    }
}
