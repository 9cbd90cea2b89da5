//! LSP view of a text: lines end at LF, CRLF or CR; columns count UTF-16 code units.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rng2 {
    pub start: Pos,
    pub end: Pos,
}

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub struct Text {
    pub chars: Vec<char>,
    /// char offset of the first char of each line
    pub lines: Vec<usize>,
    /// char offset of the end of each line, without its line break
    pub ends: Vec<usize>,
}

impl Text {
    pub fn new(s: &str) -> Self {
        let chars: Vec<char> = s.chars().collect();
        let mut lines = vec![0];
        let mut ends = vec![];
        let mut i = 0;
        while i < chars.len() {
            match chars[i] {
                '\n' => {
                    ends.push(i);
                    i += 1;
                    lines.push(i);
                }
                '\r' => {
                    ends.push(i);
                    i += if chars.get(i + 1) == Some(&'\n') { 2 } else { 1 };
                    lines.push(i);
                }
                _ => i += 1,
            }
        }
        ends.push(chars.len());
        Text { chars, lines, ends }
    }
    pub fn line_of(&self, off: usize) -> usize {
        match self.lines.binary_search(&off) {
            Ok(l) => l,
            Err(l) => l - 1,
        }
    }
    pub fn pos(&self, off: usize) -> Pos {
        let line = self.line_of(off);
        let col: usize = self.chars[self.lines[line]..off].iter().map(|c| c.len_utf16()).sum();
        Pos { line: line as u32, col: col as u32 }
    }
    pub fn range(&self, s: Span) -> Rng2 {
        Rng2 { start: self.pos(s.0), end: self.pos(s.1) }
    }
    /// The char offset of a position; a column past the line end means the line end.
    /// None: no such line, or the column lies inside a surrogate pair.
    pub fn offset(&self, p: Pos) -> Option<usize> {
        let line = p.line as usize;
        if line >= self.lines.len() {
            return None;
        }
        let mut off = self.lines[line];
        let mut col = 0u64;
        while off < self.ends[line] {
            if col == u64::from(p.col) {
                return Some(off);
            }
            if col > u64::from(p.col) {
                return None;
            }
            col += self.chars[off].len_utf16() as u64;
            off += 1;
        }
        if col > u64::from(p.col) {
            return None;
        }
        Some(off)
    }
    /// Whether `p` is an existing position of the text (no clamping)
    pub fn valid(&self, p: Pos) -> bool {
        match self.offset(p) {
            Some(off) => self.pos(off) == p,
            None => false,
        }
    }
    /// Offset of a valid position
    pub fn exact(&self, p: Pos) -> Option<usize> {
        self.offset(p).filter(|o| self.pos(*o) == p)
    }
    pub fn slice(&self, s: Span) -> String {
        self.chars[s.0..s.1].iter().collect()
    }
    pub fn len(&self) -> usize {
        self.chars.len()
    }
    pub fn string(&self) -> String {
        self.chars.iter().collect()
    }
}
