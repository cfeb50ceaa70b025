//! Independent PDF syntax reader (ISO 32000 7.2-7.5), used as the oracle's eyes.
//! Shares no code with the library under test.

use pdf_writer::{Rect, Ref};

/// A PDF value. Used both for parsed values and for expectations.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    /// Parsed number token, verbatim.
    Num(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Arr(Vec<V>),
    Dict(Vec<(Vec<u8>, V)>),
    Ref(i64, i64),
    // Expectations only:
    Int(i64),
    F(f32),
    Text(String),
    Lang(Vec<([u8; 2], Option<[u8; 2]>, String)>),
    /// Number that must be written with a decimal point.
    Real(f32),
    /// One of several spellings with the same meaning.
    Any(Vec<V>),
}

impl From<i32> for V { fn from(v: i32) -> V { V::Int(v as i64) } }
impl From<f32> for V { fn from(v: f32) -> V { V::F(v) } }
impl From<bool> for V { fn from(v: bool) -> V { V::Bool(v) } }
impl From<Ref> for V { fn from(v: Ref) -> V { V::Ref(v.get() as i64, 0) } }
impl From<Rect> for V {
    fn from(r: Rect) -> V { V::Arr(vec![V::F(r.x1), V::F(r.y1), V::F(r.x2), V::F(r.y2)]) }
}
impl<T: Into<V> + Clone> From<&[T]> for V {
    fn from(v: &[T]) -> V { V::Arr(v.iter().cloned().map(Into::into).collect()) }
}
impl<T: Into<V>> From<Vec<T>> for V {
    fn from(v: Vec<T>) -> V { V::Arr(v.into_iter().map(Into::into).collect()) }
}
impl<T: Into<V>, const N: usize> From<[T; N]> for V {
    fn from(v: [T; N]) -> V { V::Arr(v.into_iter().map(Into::into).collect()) }
}
pub fn nm(s: &str) -> V { V::Name(s.as_bytes().to_vec()) }
pub fn nmb(s: &[u8]) -> V { V::Name(s.to_vec()) }
pub fn st(s: &[u8]) -> V { V::Str(s.to_vec()) }
pub fn tx(s: &str) -> V { V::Text(s.to_string()) }

/// Is this token a plain PDF number (optional sign, digits, at most one point)?
pub fn is_number(t: &str) -> bool {
    let b = t.as_bytes();
    let b = if !b.is_empty() && (b[0] == b'+' || b[0] == b'-') { &b[1..] } else { b };
    let digits = b.iter().filter(|c| c.is_ascii_digit()).count();
    let dots = b.iter().filter(|&&c| c == b'.').count();
    digits >= 1 && dots <= 1 && digits + dots == b.len()
}
pub fn is_integer(t: &str) -> bool {
    is_number(t) && !t.contains('.')
}
pub fn num_f32(t: &str) -> Option<f32> {
    if is_number(t) { t.parse::<f32>().ok() } else { None }
}

/// Decode a PDF text string (PDFDocEncoding restricted to its ASCII part, or UTF-16BE, or UTF-8
/// with byte order mark) into (language escapes, text) runs.
pub fn decode_text(b: &[u8]) -> Result<String, String> {
    if b.starts_with(&[0xfe, 0xff]) {
        let r = &b[2..];
        if r.len() % 2 != 0 { return Err("odd UTF-16 length".into()); }
        let u: Vec<u16> = r.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
        String::from_utf16(&u).map_err(|e| format!("bad UTF-16: {e}"))
    } else if b.starts_with(&[0xef, 0xbb, 0xbf]) {
        String::from_utf8(b[3..].to_vec()).map_err(|e| e.to_string())
    } else {
        let mut s = String::new();
        for &c in b {
            match c {
                // PDFDocEncoding coincides with ASCII here.
                0x20..=0x7e | b'\n' | b'\r' | b'\t' => s.push(c as char),
                0xa1..=0xac | 0xae..=0xff => s.push(c as char),
                0x18 => s.push('\u{2d8}'), 0x19 => s.push('\u{2c7}'), 0x1a => s.push('\u{2c6}'),
                0x1b => s.push('\u{2d9}'), 0x1c => s.push('\u{2dd}'), 0x1d => s.push('\u{2db}'),
                0x1e => s.push('\u{2da}'), 0x1f => s.push('\u{2dc}'),
                0x80..=0x9e | 0xa0 => {
                    const T: [char; 33] = ['\u{2022}','\u{2020}','\u{2021}','\u{2026}','\u{2014}','\u{2013}','\u{192}','\u{2044}','\u{2039}','\u{203a}','\u{2212}','\u{2030}','\u{201e}','\u{201c}','\u{201d}','\u{2018}','\u{2019}','\u{201a}','\u{2122}','\u{fb01}','\u{fb02}','\u{141}','\u{152}','\u{160}','\u{178}','\u{17d}','\u{131}','\u{142}','\u{153}','\u{161}','\u{17e}','\0','\u{20ac}'];
                    s.push(T[(c - 0x80) as usize]);
                }
                _ => return Err(format!("byte {c:#x} undefined in PDFDocEncoding")),
            }
        }
        Ok(s)
    }
}

/// Decode a UTF-16BE text string with language escapes.
pub fn decode_lang(b: &[u8]) -> Result<Vec<([u8; 2], Option<[u8; 2]>, String)>, String> {
    if !b.starts_with(&[0xfe, 0xff]) { return Err("language escapes need UTF-16BE".into()); }
    let r = &b[2..];
    if r.len() % 2 != 0 { return Err("odd UTF-16 length".into()); }
    let u: Vec<u16> = r.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
    let mut out = vec![];
    let mut i = 0;
    while i < u.len() {
        if u[i] != 0x1b { return Err("text before language escape".into()); }
        let e = (i + 1..u.len()).find(|&k| u[k] == 0x1b).ok_or("unterminated escape")?;
        let code: Vec<u8> = u[i + 1..e].iter().map(|&c| c as u8).collect();
        if u[i + 1..e].iter().any(|&c| c > 0x7f) { return Err("non-ASCII language code".into()); }
        let (l, reg) = match code.len() {
            2 => ([code[0], code[1]], None),
            4 => ([code[0], code[1]], Some([code[2], code[3]])),
            n => return Err(format!("language code of length {n}")),
        };
        let n = (e + 1..u.len()).find(|&k| u[k] == 0x1b).unwrap_or(u.len());
        out.push((l, reg, String::from_utf16(&u[e + 1..n]).map_err(|e| e.to_string())?));
        i = n;
    }
    Ok(out)
}

/// Compare an expectation (left) with a parsed value (right).
/// `ordered`: whether the order of entries with distinct keys matters.
pub fn diff(exp: &V, got: &V, ordered: bool) -> Option<String> {
    let bad = || Some(format!("expected {} but found {}", show(exp), show(got)));
    match (exp, got) {
        (V::Any(a), g) if a.iter().any(|x| diff(x, g, ordered).is_none()) => None,
        (V::Null, V::Null) => None,
        (V::Bool(a), V::Bool(b)) if a == b => None,
        (V::Str(a), V::Str(b)) if a == b => None,
        (V::Name(a), V::Name(b)) if a == b => None,
        (V::Ref(a, c), V::Ref(b, d)) if a == b && c == d => None,
        (V::Int(a), V::Num(t)) if is_integer(t) && t.parse::<i64>() == Ok(*a) => None,
        (V::F(a), V::Num(t)) if num_f32(t) == Some(*a) => None,
        (V::Real(a), V::Num(t)) if t.contains('.') && num_f32(t) == Some(*a) => None,
        (V::Num(a), V::Num(b))
            if a == b || (is_integer(a) == is_integer(b) && num_f32(a) == num_f32(b)
                && a.parse::<f64>().ok() == b.parse::<f64>().ok()) => None,
        (V::Text(a), V::Str(b)) => match decode_text(b) {
            Ok(t) if t == *a => None,
            Ok(t) => Some(format!("expected text {a:?} but found {t:?}")),
            Err(e) => Some(format!("expected text {a:?} but found {}: {e}", show(got))),
        },
        (V::Lang(a), V::Str(b)) => match decode_lang(b) {
            Ok(t) if t == *a => None,
            Ok(t) => Some(format!("expected tagged text {a:?} but found {t:?}")),
            Err(e) => Some(format!("expected tagged text {a:?} but found {}: {e}", show(got))),
        },
        (V::Arr(a), V::Arr(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = diff(x, y, ordered) { return Some(format!("[{i}]: {d}")); }
            }
            if a.len() != b.len() {
                return Some(format!("expected {} items but found {}: {} vs {}", a.len(), b.len(), show(exp), show(got)));
            }
            None
        }
        (V::Dict(a), V::Dict(b)) => {
            if ordered {
                for (i, ((k, x), (l, y))) in a.iter().zip(b).enumerate() {
                    if k != l { return Some(format!("entry {i}: expected key {} but found {}", show(&nmb(k)), show(&nmb(l)))); }
                    if let Some(d) = diff(x, y, ordered) { return Some(format!("{}: {d}", show(&nmb(k)))); }
                }
            } else {
                // entries grouped by key, order within a key preserved
                let mut used = vec![false; b.len()];
                for (k, x) in a {
                    match (0..b.len()).find(|&j| !used[j] && b[j].0 == *k) {
                        None => return Some(format!("missing entry {} {} in {}", show(&nmb(k)), show(x), show(got))),
                        Some(j) => {
                            used[j] = true;
                            if let Some(d) = diff(x, &b[j].1, ordered) { return Some(format!("{}: {d}", show(&nmb(k)))); }
                        }
                    }
                }
                if let Some(j) = (0..b.len()).find(|&j| !used[j]) {
                    return Some(format!("unexpected entry {} {}", show(&nmb(&b[j].0)), show(&b[j].1)));
                }
            }
            if a.len() != b.len() {
                return Some(format!("expected {} entries but found {}: {} vs {}", a.len(), b.len(), show(exp), show(got)));
            }
            None
        }
        _ => bad(),
    }
}

pub fn show(v: &V) -> String {
    let mut s = String::new();
    show_into(v, &mut s);
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) { e -= 1; }
        s.truncate(e);
        s.push_str("...");
    }
    s
}
fn show_into(v: &V, s: &mut String) {
    if s.len() > 700 { return; }
    match v {
        V::Null => s.push_str("null"),
        V::Any(a) => {
            for (i, x) in a.iter().enumerate() { if i > 0 { s.push_str(" or "); } show_into(x, s); }
        }
        V::Bool(b) => s.push_str(&b.to_string()),
        V::Num(t) => s.push_str(t),
        V::Int(i) => s.push_str(&format!("int:{i}")),
        V::F(f) => s.push_str(&format!("f32:{f:e}")),
        V::Real(f) => s.push_str(&format!("real:{f:e}")),
        V::Text(t) => s.push_str(&format!("text:{t:?}")),
        V::Lang(t) => s.push_str(&format!("lang:{t:?}")),
        V::Str(b) => s.push_str(&format!("({})", esc(b))),
        V::Name(b) => s.push_str(&format!("/{}", esc(b))),
        V::Ref(a, b) => s.push_str(&format!("{a} {b} R")),
        V::Arr(a) => {
            s.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { s.push(' '); } show_into(x, s); }
            s.push(']');
        }
        V::Dict(d) => {
            s.push_str("<<");
            for (k, x) in d { s.push_str(&format!("/{} ", esc(k))); show_into(x, s); s.push(' '); }
            s.push_str(">>");
        }
    }
}
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(300) {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 300 { s.push_str("..."); }
    s
}

pub fn is_ws(b: u8) -> bool { matches!(b, 0 | 9 | 10 | 12 | 13 | 32) }
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
pub fn is_regular(b: u8) -> bool { !is_ws(b) && !is_delim(b) }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(String),
    Word(Vec<u8>),
    Str(Vec<u8>),
    Name(Vec<u8>),
    ArrOpen,
    ArrClose,
    DictOpen,
    DictClose,
    BraceOpen,
    BraceClose,
    Eof,
}

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct P<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// Statistics about what was observed.
    pub st: Stats,
}

/// What a parse has actually seen; also the raw material of the limits oracle.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub max_int: i64,
    pub max_real: f32,
    pub max_name: usize,
    pub max_str: usize,
    /// Bytes of names and strings that should have been escaped.
    pub raw: usize,
    pub max_arr: usize,
    pub max_dict: usize,
    pub tokens: usize,
    pub max_depth: usize,
}

impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> Self { P { b, pos: 0, st: Stats::default() } }
    pub fn at(b: &'a [u8], pos: usize) -> Self { P { b, pos, st: Stats::default() } }
    pub fn err<T>(&self, m: &str) -> R<T> {
        let lo = self.pos.saturating_sub(40).min(self.b.len());
        let hi = (self.pos + 40).min(self.b.len());
        Err(format!("{m} at byte {} near {:?}", self.pos, esc(&self.b[lo..hi])))
    }
    pub fn peek(&self) -> Option<u8> { self.b.get(self.pos).copied() }
    pub fn rest(&self) -> &'a [u8] { &self.b[self.pos.min(self.b.len())..] }
    pub fn skip(&mut self) {
        while let Some(c) = self.peek() {
            if is_ws(c) { self.pos += 1; }
            else if c == b'%' {
                while let Some(c) = self.peek() {
                    if c == b'\n' || c == b'\r' { break; }
                    self.pos += 1;
                }
            } else { break; }
        }
    }
    pub fn tok(&mut self) -> R<Tok> {
        self.skip();
        self.st.tokens += 1;
        let Some(c) = self.peek() else { return Ok(Tok::Eof) };
        match c {
            b'(' => self.lit(),
            b'<' => {
                if self.b.get(self.pos + 1) == Some(&b'<') { self.pos += 2; Ok(Tok::DictOpen) }
                else { self.hex() }
            }
            b'>' => {
                if self.b.get(self.pos + 1) == Some(&b'>') { self.pos += 2; Ok(Tok::DictClose) }
                else { self.err("stray >") }
            }
            b'[' => { self.pos += 1; Ok(Tok::ArrOpen) }
            b']' => { self.pos += 1; Ok(Tok::ArrClose) }
            b'{' => { self.pos += 1; Ok(Tok::BraceOpen) }
            b'}' => { self.pos += 1; Ok(Tok::BraceClose) }
            b'/' => self.name(),
            b')' => self.err("stray )"),
            _ => {
                let s = self.pos;
                while self.peek().is_some_and(is_regular) { self.pos += 1; }
                let w = &self.b[s..self.pos];
                let txt = String::from_utf8_lossy(w).into_owned();
                if is_number(&txt) {
                    if is_integer(&txt) {
                        let v = txt.parse::<i64>().unwrap_or(i64::MAX).unsigned_abs() as i64;
                        // What does not fit an integer is a real written without a fraction.
                        if v <= 1 << 31 { self.st.max_int = self.st.max_int.max(v); }
                        else { self.st.max_real = self.st.max_real.max(num_f32(&txt).unwrap().abs()); }
                    } else {
                        let v = num_f32(&txt).unwrap().abs();
                        if v > self.st.max_real { self.st.max_real = v; }
                    }
                    return Ok(Tok::Num(txt));
                }
                Ok(Tok::Word(w.to_vec()))
            }
        }
    }
    fn name(&mut self) -> R<Tok> {
        self.pos += 1;
        let mut out = vec![];
        while let Some(c) = self.peek() {
            if !is_regular(c) { break; }
            if c == b'#' {
                let h = self.b.get(self.pos + 1..self.pos + 3).and_then(|h| {
                    let a = (h[0] as char).to_digit(16)?;
                    let b = (h[1] as char).to_digit(16)?;
                    Some((a * 16 + b) as u8)
                });
                match h {
                    Some(v) => { out.push(v); self.pos += 3; }
                    None => return self.err("bad # escape in name"),
                }
            } else {
                if !(b'!'..=b'~').contains(&c) { self.st.raw += 1; }
                out.push(c);
                self.pos += 1;
            }
        }
        self.st.max_name = self.st.max_name.max(out.len());
        Ok(Tok::Name(out))
    }
    fn lit(&mut self) -> R<Tok> {
        self.pos += 1;
        let mut depth = 1;
        let mut out = vec![];
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated literal string") };
            self.pos += 1;
            match c {
                b'(' => { depth += 1; out.push(c); }
                b')' => {
                    depth -= 1;
                    if depth == 0 { break; }
                    out.push(c);
                }
                b'\r' => {
                    if self.peek() == Some(b'\n') { self.pos += 1; }
                    out.push(b'\n');
                }
                b'\\' => {
                    let Some(e) = self.peek() else { return self.err("unterminated escape") };
                    self.pos += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.peek() {
                                    Some(d @ b'0'..=b'7') => { v = v * 8 + (d - b'0') as u32; self.pos += 1; }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        b'\r' => { if self.peek() == Some(b'\n') { self.pos += 1; } }
                        b'\n' => {}
                        other => out.push(other),
                    }
                }
                _ => {
                    if !c.is_ascii() { self.st.raw += 1; }
                    out.push(c)
                }
            }
        }
        self.st.max_str = self.st.max_str.max(out.len());
        Ok(Tok::Str(out))
    }
    fn hex(&mut self) -> R<Tok> {
        self.pos += 1;
        let mut nib = vec![];
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated hex string") };
            self.pos += 1;
            match c {
                b'>' => break,
                c if is_ws(c) => {}
                c => match (c as char).to_digit(16) {
                    Some(d) => nib.push(d as u8),
                    None => return self.err("bad hex digit"),
                },
            }
        }
        if nib.len() % 2 == 1 { nib.push(0); }
        let out: Vec<u8> = nib.chunks(2).map(|c| c[0] * 16 + c[1]).collect();
        self.st.max_str = self.st.max_str.max(out.len());
        Ok(Tok::Str(out))
    }
    /// Parse one object (with reference lookahead).
    pub fn obj(&mut self) -> R<V> {
        let t = self.tok()?;
        self.obj_from(t, 0, true)
    }
    pub fn obj_from(&mut self, t: Tok, depth: usize, refs: bool) -> R<V> {
        self.st.max_depth = self.st.max_depth.max(depth);
        Ok(match t {
            Tok::Num(n) => {
                if refs && is_integer(&n) && n.as_bytes()[0].is_ascii_digit() {
                    let save = self.clone_pos();
                    let stats = self.st.clone();
                    if let Ok(Tok::Num(g)) = self.tok() {
                        if is_integer(&g) && g.as_bytes()[0].is_ascii_digit() {
                            if let Ok(Tok::Word(w)) = self.tok() {
                                if w == b"R" {
                                    let (a, b) = (n.parse().unwrap_or(-1), g.parse().unwrap_or(-1));
                                    return Ok(V::Ref(a, b));
                                }
                            }
                        }
                    }
                    self.pos = save;
                    self.st = stats;
                }
                V::Num(n)
            }
            Tok::Str(s) => V::Str(s),
            Tok::Name(s) => V::Name(s),
            Tok::Word(w) => match &w[..] {
                b"true" => V::Bool(true),
                b"false" => V::Bool(false),
                b"null" => V::Null,
                _ => return self.err(&format!("unexpected token {:?}", esc(&w))),
            },
            Tok::ArrOpen => {
                let mut v = vec![];
                loop {
                    let t = self.tok()?;
                    if t == Tok::ArrClose { break; }
                    v.push(self.obj_from(t, depth + 1, refs)?);
                }
                self.st.max_arr = self.st.max_arr.max(v.len());
                V::Arr(v)
            }
            Tok::DictOpen => {
                let mut v = vec![];
                loop {
                    match self.tok()? {
                        Tok::DictClose => break,
                        Tok::Name(k) => {
                            let t = self.tok()?;
                            let x = self.obj_from(t, depth + 1, refs)?;
                            v.push((k, x));
                        }
                        t => return self.err(&format!("expected a dictionary key, found {t:?}")),
                    }
                }
                self.st.max_dict = self.st.max_dict.max(v.len());
                V::Dict(v)
            }
            t => return self.err(&format!("unexpected token {t:?}")),
        })
    }
    fn clone_pos(&self) -> usize { self.pos }
    pub fn word(&mut self, w: &[u8]) -> R<()> {
        self.skip();
        let s = self.pos;
        match self.tok()? {
            Tok::Word(x) if x == w => Ok(()),
            _ => { self.pos = s; self.err(&format!("expected {:?}", esc(w))) }
        }
    }
}

impl V {
    pub fn get(&self, k: &[u8]) -> Option<&V> {
        match self { V::Dict(d) => d.iter().find(|e| e.0 == k).map(|e| &e.1), _ => None }
    }
    pub fn int(&self) -> Option<i64> {
        match self { V::Num(t) if is_integer(t) => t.parse().ok(), V::Int(i) => Some(*i), _ => None }
    }
}

/// An indirect object as found in the bytes.
#[derive(Clone, Debug)]
pub struct IObj {
    pub id: i64,
    pub gen: i64,
    pub start: usize,
    pub end: usize,
    pub v: V,
    pub data: Option<Vec<u8>>,
    /// byte range of the stream data
    pub data_at: Option<(usize, usize)>,
}

/// Parse one `N G obj ... endobj`.
pub fn parse_iobj(p: &mut P) -> R<IObj> {
    p.skip();
    let start = p.pos;
    let head = |p: &mut P| -> R<i64> {
        match p.tok()? {
            Tok::Num(t) if is_integer(&t) && t.as_bytes()[0].is_ascii_digit() => Ok(t.parse().unwrap_or(-1)),
            t => p.err(&format!("expected an object header, found {t:?}")),
        }
    };
    let id = head(p)?;
    let gen = head(p)?;
    p.word(b"obj")?;
    let v = p.obj()?;
    p.skip();
    let mut data = None;
    let mut data_at = None;
    if p.rest().starts_with(b"stream") {
        if !matches!(v, V::Dict(_)) { return p.err("stream without dictionary"); }
        p.pos += 6;
        match p.rest() {
            [b'\r', b'\n', ..] => p.pos += 2,
            [b'\n', ..] => p.pos += 1,
            _ => return p.err("stream keyword not followed by line end"),
        }
        let Some(len) = v.get(b"Length").and_then(V::int) else { return p.err("stream without integer /Length") };
        let V::Dict(d) = &v else { unreachable!() };
        if d.iter().filter(|e| e.0 == b"Length").count() != 1 { return p.err("repeated /Length"); }
        let end = p.pos + len as usize;
        if len < 0 || end > p.b.len() { return p.err("stream longer than file"); }
        data = Some(p.b[p.pos..end].to_vec());
        data_at = Some((p.pos, end));
        p.pos = end;
        match p.rest() {
            [b'\r', b'\n', ..] => p.pos += 2,
            [b'\n', ..] | [b'\r', ..] => p.pos += 1,
            _ => {}
        }
        if !p.rest().starts_with(b"endstream") { return p.err("no endstream after /Length bytes"); }
        p.pos += 9;
    }
    p.word(b"endobj")?;
    Ok(IObj { id, gen, start, end: p.pos, v, data, data_at })
}

/// Parse a run of indirect objects covering the whole slice.
pub fn parse_body(b: &[u8]) -> R<(Vec<IObj>, Stats)> {
    let mut p = P::new(b);
    let mut out = vec![];
    loop {
        p.skip();
        if p.pos >= b.len() { break; }
        out.push(parse_iobj(&mut p)?);
    }
    Ok((out, p.st))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum XE { Free { next: u64, gen: u64 }, Used { off: u64, gen: u64 } }

#[derive(Clone, Debug)]
pub struct PdfFile {
    pub version: (u8, u8),
    pub marker: [u8; 4],
    pub objs: Vec<IObj>,
    pub xref_at: usize,
    pub xref: Vec<(u64, XE)>,
    pub trailer: V,
    /// The xref stream object, if that form was used, with its raw (undecoded) data.
    pub xref_stream: Option<IObj>,
    pub w: Option<[usize; 3]>,
}

/// Parse a complete file. `decode` undoes the xref stream filter.
pub fn parse_file(b: &[u8], decode: &dyn Fn(&V, &[u8]) -> R<Vec<u8>>) -> R<PdfFile> {
    // header
    if b.len() < 15 || !b.starts_with(b"%PDF-") { return Err("no %PDF- header".into()); }
    let (ma, mi) = (b[5], b[7]);
    if !ma.is_ascii_digit() || b[6] != b'.' || !mi.is_ascii_digit() || b[8] != b'\n' {
        return Err(format!("bad header {:?}", esc(&b[..9])));
    }
    if b[9] != b'%' || b[14] != b'\n' { return Err(format!("bad binary marker line {:?}", esc(&b[9..15]))); }
    let marker = [b[10], b[11], b[12], b[13]];
    // tail
    let mut t = b;
    while t.last().is_some_and(|&c| c == b'\n' || c == b'\r') { t = &t[..t.len() - 1]; }
    let Some(t) = t.strip_suffix(b"%%EOF") else { return Err("no %%EOF at the end".into()) };
    let Some(t) = t.strip_suffix(b"\n") else { return Err("%%EOF not on its own line".into()) };
    let nd = t.iter().rev().take_while(|c| c.is_ascii_digit()).count();
    let digits = &t[t.len() - nd..];
    let t = &t[..t.len() - nd];
    let Some(t) = t.strip_suffix(b"startxref\n") else { return Err("no startxref line".into()) };
    let before_startxref = t.len();
    if !t.ends_with(b"\n") { return Err("startxref not on its own line".into()); }
    let xref_at: usize = std::str::from_utf8(digits).unwrap().parse().map_err(|_| "bad startxref number")?;
    if xref_at >= before_startxref { return Err(format!("startxref {xref_at} points outside")); }
    // body
    let mut p = P::new(&b[..xref_at]);
    p.pos = 15;
    let mut objs = vec![];
    loop {
        p.skip();
        if p.pos >= xref_at { break; }
        objs.push(parse_iobj(&mut p)?);
    }
    let mut p = P::new(&b[..before_startxref]);
    p.pos = xref_at;
    let mut xref = vec![];
    if p.rest().starts_with(b"xref") {
        p.pos += 4;
        if p.rest().starts_with(b"\r\n") { p.pos += 2 } else if p.rest().starts_with(b"\n") { p.pos += 1 } else { return p.err("xref keyword line"); }
        loop {
            if p.rest().starts_with(b"trailer") { break; }
            // subsection header
            let line_end = p.rest().iter().position(|&c| c == b'\n').ok_or("unterminated subsection header")?;
            let line = std::str::from_utf8(&p.rest()[..line_end]).map_err(|_| "bad subsection header")?.trim_end_matches('\r').to_string();
            let mut it = line.split(' ');
            let (Some(a), Some(n), None) = (it.next(), it.next(), it.next()) else { return p.err("bad subsection header") };
            let (Ok(first), Ok(n)) = (a.parse::<u64>(), n.parse::<u64>()) else { return p.err("bad subsection numbers") };
            p.pos += line_end + 1;
            for i in 0..n {
                let Some(e) = p.rest().get(..20) else { return p.err("truncated entry") };
                let ok = e[..10].iter().all(u8::is_ascii_digit) && e[10] == b' ' && e[11..16].iter().all(u8::is_ascii_digit)
                    && e[16] == b' ' && (e[17] == b'n' || e[17] == b'f') && matches!(&e[18..20], b" \r" | b" \n" | b"\r\n");
                if !ok { return p.err(&format!("malformed 20-byte entry {:?}", esc(e))); }
                let a: u64 = std::str::from_utf8(&e[..10]).unwrap().parse().unwrap();
                let g: u64 = std::str::from_utf8(&e[11..16]).unwrap().parse().unwrap();
                xref.push((first + i, if e[17] == b'n' { XE::Used { off: a, gen: g } } else { XE::Free { next: a, gen: g } }));
                p.pos += 20;
            }
        }
        p.pos += 7;
        let trailer = p.obj()?;
        p.skip();
        if p.pos < before_startxref { return p.err("garbage after trailer"); }
        if !matches!(trailer, V::Dict(_)) { return Err("trailer is not a dictionary".into()); }
        Ok(PdfFile { version: (ma - b'0', mi - b'0'), marker, objs, xref_at, xref, trailer, xref_stream: None, w: None })
    } else {
        let o = parse_iobj(&mut p)?;
        if o.start != xref_at { return Err("startxref does not point at the stream object".into()); }
        p.skip();
        if p.pos < before_startxref { return p.err("garbage after xref stream"); }
        if o.v.get(b"Type") != Some(&nm("XRef")) { return Err("xref stream without /Type /XRef".into()); }
        let Some(raw) = &o.data else { return Err("xref object is not a stream".into()) };
        let dec = decode(&o.v, raw)?;
        let w: Vec<usize> = match o.v.get(b"W") {
            Some(V::Arr(a)) if a.len() == 3 => a.iter().map(|x| x.int().map_or(usize::MAX, |i| i as usize)).collect(),
            _ => return Err("bad /W".into()),
        };
        if w.iter().any(|&x| x > 8) { return Err("bad /W widths".into()); }
        let size = o.v.get(b"Size").and_then(V::int).ok_or("no /Size")? as u64;
        let index: Vec<(u64, u64)> = match o.v.get(b"Index") {
            None => vec![(0, size)],
            Some(V::Arr(a)) => a.chunks(2).map(|c| (c[0].int().unwrap_or(0) as u64, c.get(1).and_then(V::int).unwrap_or(0) as u64)).collect(),
            _ => return Err("bad /Index".into()),
        };
        let total: u64 = index.iter().map(|i| i.1).sum();
        let rec = w[0] + w[1] + w[2];
        if dec.len() as u64 != total * rec as u64 { return Err(format!("xref stream has {} bytes, expected {} entries of {}", dec.len(), total, rec)); }
        let mut q = 0;
        for (first, n) in index {
            for i in 0..n {
                let mut f = [1u64, 0, 0];
                for k in 0..3 {
                    if w[k] > 0 {
                        f[k] = dec[q..q + w[k]].iter().fold(0u64, |a, &x| (a << 8) | x as u64);
                        q += w[k];
                    }
                }
                xref.push((first + i, match f[0] {
                    0 => XE::Free { next: f[1], gen: f[2] },
                    1 => XE::Used { off: f[1], gen: f[2] },
                    t => return Err(format!("xref entry type {t}")),
                }));
            }
        }
        let trailer = o.v.clone();
        Ok(PdfFile { version: (ma - b'0', mi - b'0'), marker, objs, xref_at, xref, trailer, xref_stream: Some(o), w: Some([w[0], w[1], w[2]]) })
    }
}

/// One content-stream operation.
#[derive(Clone, Debug)]
pub struct Op { pub operands: Vec<V>, pub op: Vec<u8> }

/// Parse a content stream into operations (no indirect references in there, but `R` sequences are
/// still reported as references so that they can be compared).
pub fn parse_content(b: &[u8]) -> R<(Vec<Op>, Stats)> {
    let mut p = P::new(b);
    let mut out = vec![];
    let mut stack = vec![];
    loop {
        match p.tok()? {
            Tok::Eof => break,
            Tok::Word(w) if !matches!(&w[..], b"true" | b"false" | b"null") => {
                out.push(Op { operands: std::mem::take(&mut stack), op: w });
            }
            t => stack.push(p.obj_from(t, 0, true)?),
        }
    }
    if !stack.is_empty() { return p.err(&format!("{} operands without operator at the end", stack.len())); }
    Ok((out, p.st))
}
