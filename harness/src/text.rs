//! Independent LSP text model: zero-based lines, UTF-16 columns, LF / CRLF / CR line ends.
use serde_json::{json, Value};

pub struct TextMap {
    pub chars: Vec<char>,
    /// position of every char offset (and of the end of the text)
    pos: Vec<(u64, u64)>,
    /// per line: first char offset and offset of the end of its content (before the line end)
    lines: Vec<(usize, usize)>,
}

impl TextMap {
    pub fn new(text: &str) -> Self {
        let chars: Vec<char> = text.chars().collect();
        let mut pos = Vec::with_capacity(chars.len() + 1);
        let mut lines = vec![];
        let (mut line, mut col, mut start) = (0u64, 0u64, 0usize);
        for (i, c) in chars.iter().enumerate() {
            pos.push((line, col));
            let eol = *c == '\n' || (*c == '\r' && chars.get(i + 1) != Some(&'\n'));
            if eol {
                let mut e = i;
                if *c == '\n' && i > start && chars[i - 1] == '\r' {
                    e = i - 1;
                }
                lines.push((start, e));
                start = i + 1;
                line += 1;
                col = 0;
            } else {
                col += c.len_utf16() as u64;
            }
        }
        pos.push((line, col));
        lines.push((start, chars.len()));
        TextMap { chars, pos, lines }
    }
    pub fn pos(&self, off: usize) -> (u64, u64) {
        self.pos[off]
    }
    pub fn line_count(&self) -> usize {
        self.lines.len()
    }
    pub fn line_of(&self, off: usize) -> u64 {
        self.pos[off].0
    }
    /// offset of the end of the content of a line
    pub fn line_end(&self, line: usize) -> usize {
        self.lines[line].1
    }
    pub fn line_start(&self, line: usize) -> usize {
        self.lines[line].0
    }
    pub fn range(&self, span: (usize, usize)) -> Value {
        let (a, b) = (self.pos[span.0], self.pos[span.1]);
        json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}})
    }
    /// Char offset of an exact LSP position (None if it is not a char boundary inside a line).
    pub fn offset(&self, p: &Value) -> Option<usize> {
        let l = p["line"].as_u64()?;
        let c = p["character"].as_u64()?;
        let (s, e) = *self.lines.get(l as usize)?;
        // a position inside of a CRLF line end is tolerated as the end of the line
        let lim = if e < self.chars.len() && self.chars[e] == '\r' { e + 1 } else { e };
        (s..=lim).find(|o| self.pos[*o] == (l, c))
    }
    pub fn span(&self, r: &Value) -> Option<(usize, usize)> {
        let a = self.offset(&r["start"])?;
        let b = self.offset(&r["end"])?;
        if a <= b {
            Some((a, b))
        } else {
            None
        }
    }
    pub fn slice(&self, span: (usize, usize)) -> String {
        self.chars[span.0..span.1].iter().collect()
    }
    /// Text covered by a LSP range.
    pub fn read(&self, r: &Value) -> Option<String> {
        self.span(r).map(|s| self.slice(s))
    }
    /// Applies text edits; fails if ranges are invalid or overlap.
    pub fn apply(&self, edits: &[Value]) -> Result<String, String> {
        let mut es = vec![];
        for e in edits {
            let sp = self.span(&e["range"]).ok_or_else(|| format!("edit range is not valid: {e}"))?;
            let t = e["newText"].as_str().ok_or_else(|| format!("no newText: {e}"))?;
            es.push((sp, t.to_string()));
        }
        es.sort();
        for w in es.windows(2) {
            if w[0].0 .1 > w[1].0 .0 {
                return Err(format!("overlapping edits: {:?} and {:?}", w[0], w[1]));
            }
            if w[0].0 == w[1].0 {
                return Err(format!("duplicate edits: {:?}", w[0]));
            }
        }
        let mut out = String::new();
        let mut at = 0;
        for ((a, b), t) in es {
            out.extend(&self.chars[at..a]);
            out.push_str(&t);
            at = b;
        }
        out.extend(&self.chars[at..]);
        Ok(out)
    }
}
