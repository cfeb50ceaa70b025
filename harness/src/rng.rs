//! Deterministic random source and value generators (all randomness derives from VERIF_SEED).

use pdf_writer::{Date, LanguageIdentifier, Rect, Ref};

use crate::dict;

#[derive(Clone)]
pub struct Rng {
    state: u64,
    memo: Memo,
}

/// Values given out recently: related arguments (equal, opposite, repeated) are given on purpose.
#[derive(Default, Clone)]
struct Memo {
    f: [f32; 4],
    i: [i32; 4],
    rf: [i32; 4],
    at: usize,
    names: Vec<Vec<u8>>,
    bytes: Vec<Vec<u8>>,
    texts: Vec<String>,
}

fn keep<T>(v: &mut Vec<T>, at: usize, x: T) {
    if v.len() < 3 {
        v.push(x);
    } else {
        v[at % 3] = x;
    }
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { state: seed ^ 0x9E37_79B9_7F4A_7C15, memo: Memo::default() }
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A length: mostly below `n`, now and then around a power of two or another likely threshold.
    pub fn len(&mut self, n: usize) -> usize {
        // A number the code names may be a length it treats specially.
        if let 0..=59 = self.below(1800) {
            let v = dict::ints(true);
            if !v.is_empty() {
                let k = self.pick(v).saturating_add(self.range(-1, 1));
                if (0..=300).contains(&k) || ((0..=5000).contains(&k) && self.below(20) == 0) || ((0..=70_000).contains(&k) && self.below(400) == 0) {
                    return k as usize;
                }
            }
        }
        match self.below(3000) {
            0 if self.below(30) == 0 => *self.pick(&[8191, 8192, 8193, 9999, 10_000, 10_001, 16_383, 16_384, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 66_000]),
            0 => *self.pick(&[511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097]),
            1..=20 => *self.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300]),
            21..=24 => self.below(400),
            _ => self.below(n),
        }
    }
    /// Whether to use a value of the dictionary, and if so whether one the base does not know.
    fn dict(&mut self) -> Option<bool> {
        match self.below(120) {
            0..=11 => Some(true),
            12..=14 => Some(false),
            _ => None,
        }
    }
    fn dict_int(&mut self) -> Option<i64> {
        let new = self.dict()?;
        let v = dict::ints(new);
        (!v.is_empty()).then(|| *self.pick(v))
    }
    fn dict_word(&mut self) -> Option<&'static [u8]> {
        let v = match self.dict()? {
            false if self.bool() => dict::STANDARD,
            new => dict::words(new),
        };
        (!v.is_empty()).then(|| *self.pick(v))
    }
    /// A word, also as part of a longer one, twice, or with one byte changed.
    fn dict_bytes(&mut self) -> Option<Vec<u8>> {
        let mut w = self.dict_word()?.to_vec();
        match self.below(9) {
            0 => w.push(self.next() as u8),
            1 => w.insert(0, self.next() as u8),
            2 => {
                let (n, b) = (w.len(), self.next() as u8);
                w = [vec![b; self.below(4)], w, vec![b'x'; self.below(4)]].concat();
                w.truncate(n + 6);
            }
            3 => w = w.repeat(2),
            4 if !w.is_empty() => {
                let k = self.below(w.len());
                w[k] ^= *self.pick(&[0x20, 1, 0x80]);
            }
            5 => w = [w, self.dict_word().unwrap_or(b"").to_vec()].concat(),
            _ => {}
        }
        Some(w)
    }
    /// A word that lives forever.
    pub fn fixed(&mut self, list: &[&'static [u8]]) -> &'static [u8] {
        self.dict_word().unwrap_or_else(|| *self.pick(list))
    }
    /// Any byte; edges, repetitions and values of the dictionary more often than others.
    pub fn u8(&mut self) -> u8 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, 9, 10, 31, 32, 33, 99, 100, 126, 127, 128, 254, 255]),
            1 => self.int() as u8,
            _ => self.next() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535]),
            1 => self.int() as u16,
            2 => self.u8() as u16,
            _ => self.next() as u16,
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }

    // ---- values -------------------------------------------------------

    pub fn int(&mut self) -> i32 {
        if self.chance(1, 12) {
            let k = self.below(4);
            let v = self.memo.i[k];
            return match self.below(4) {
                0 => v.wrapping_neg(),
                1 => v.wrapping_add(1),
                _ => v,
            };
        }
        let v = self.new_int();
        self.memo.at += 1;
        self.memo.i[self.memo.at % 4] = v;
        v
    }
    fn new_int(&mut self) -> i32 {
        if let Some(v) = self.dict_int() {
            let v = v as i32;
            return match self.below(8) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v.wrapping_neg(),
                _ => v,
            };
        }
        match self.below(8) {
            0 | 1 => self.range(-20, 20) as i32,
            2 => self.range(0, 70000) as i32,
            3 if self.chance(1, 3) => *self.pick(&INT_DEFAULTS),
            3 => *self.pick(&INT_EDGES),
            4 => {
                let p = self.below(31) as u32;
                let v = (1i64 << p) + self.range(-1, 1);
                (if self.bool() { v } else { -v }) as i32
            }
            5 => {
                let p = self.below(10) as u32;
                let v = 10i64.pow(p) + self.range(-1, 1);
                (if self.bool() { v } else { -v }) as i32
            }
            _ => self.next() as i32,
        }
    }
    /// A small non-negative integer (counts, indices).
    pub fn small(&mut self) -> i32 {
        self.range(0, 300) as i32
    }
    pub fn f(&mut self) -> f32 {
        if self.chance(1, 8) {
            let k = self.below(4);
            let v = self.memo.f[k];
            return if self.chance(1, 3) { -v } else { v };
        }
        let v = self.new_f();
        self.memo.at += 1;
        self.memo.f[self.memo.at % 4] = v;
        v
    }
    fn new_f(&mut self) -> f32 {
        if let Some(new) = self.dict() {
            if let Some(v) = dict::float(self.below(1 << 20), new).filter(|v| v.is_finite()) {
                let w = match self.below(8) {
                    0 => f32::from_bits(v.to_bits().wrapping_add(1)),
                    1 => f32::from_bits(v.to_bits().wrapping_sub(1)),
                    2 | 3 => -v,
                    _ => v,
                };
                return if w.is_finite() { w } else { v };
            }
        }
        let v = match self.below(10) {
            0 | 1 => self.range(-1000, 1000) as f32,
            2 => self.range(-99999, 99999) as f32 / 100.0,
            3 => self.range(0, 1000) as f32 / 1000.0,
            4 if self.chance(1, 4) => *self.pick(&FLOAT_DEFAULTS),
            4 => *self.pick(&FLOAT_EDGES),
            5 => {
                // neighbours of the edges
                let e = *self.pick(&FLOAT_EDGES);
                let d = self.range(-3, 3) as i32;
                f32::from_bits((e.to_bits() as i32).wrapping_add(d) as u32)
            }
            6 => {
                let m = self.range(1, 9999999) as f64;
                let e = self.range(-45, 32) as i32;
                (m * pow10(e)) as f32 * if self.bool() { 1.0 } else { -1.0 }
            }
            _ => f32::from_bits(self.next() as u32),
        };
        if v.is_finite() {
            v
        } else {
            self.range(-50, 50) as f32 * 0.25
        }
    }
    pub fn floats(&mut self, max: usize) -> Vec<f32> {
        if let Some(new) = self.dict() {
            let v = dict::seqs(new);
            if !v.is_empty() {
                let mut a: Vec<f32> = self.pick(v).iter().map(|&x| x as f32).collect();
                if self.chance(1, 4) {
                    let x = self.f();
                    a.push(x);
                }
                return a;
            }
        }
        let n = self.len(max + 1);
        // Now and then a regular list, like the defaults of the standard.
        let (a, b) = (self.f(), self.f());
        match self.below(24) {
            0 => (0..n).map(|i| (i % 2) as f32).collect(),
            1 => vec![a; n],
            2 => (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect(),
            3 => vec![*self.pick(&[0.0, 1.0]); n],
            4 => {
                let mut v: Vec<f32> = (0..n).map(|_| self.f()).collect();
                v.sort_by(f32::total_cmp);
                v
            }
            5 => {
                // regular at one end only
                let k = self.below(n + 1);
                let head = self.bool();
                (0..n).map(|i| if (i < k) == head { (i % 2) as f32 } else { self.f() }).collect()
            }
            6 => (0..n).map(|i| i as f32 / n as f32).collect(),
            _ => (0..n).map(|_| self.f()).collect(),
        }
    }
    pub fn f6(&mut self) -> [f32; 6] {
        self.fs()
    }
    /// Numbers that belong together: now and then equal, symmetric, or a default of the standard.
    pub fn fs<const N: usize>(&mut self) -> [f32; N] {
        if let Some(new) = self.dict() {
            let v: Vec<&&[f64]> = dict::seqs(new).iter().filter(|v| v.len() == N).collect();
            if !v.is_empty() {
                let s = *self.pick(&v);
                let mut a = std::array::from_fn(|i| s[i] as f32);
                if self.chance(1, 4) {
                    let k = self.below(N);
                    a[k] = self.f();
                }
                return a;
            }
        }
        let (a, b) = (self.f(), self.f());
        match self.below(40) {
            0 => [a; N],
            1 => std::array::from_fn(|i| if i % 2 == 0 { -a } else { a }),
            2 => std::array::from_fn(|i| (if i < 2 { a } else { b }) * (if i % 2 == 0 { -1.0 } else { 1.0 })),
            3 => std::array::from_fn(|i| (i % 2) as f32),
            4 => std::array::from_fn(|i| if i % 2 == 0 { a } else { b }),
            5 => [*self.pick(&[0.0, 1.0, 100.0, -100.0]); N],
            6 => std::array::from_fn(|i| if i % 2 == 0 { -100.0 } else { 100.0 }),
            // identity matrices
            7 => std::array::from_fn(|i| match N { 6 => (i == 0 || i == 3) as u8, _ => (i % 4 == 0) as u8 } as f32),
            8 => { let k = self.below(N); std::array::from_fn(|i| if i == k { a } else { b }) }
            _ => std::array::from_fn(|_| self.f()),
        }
    }
    pub fn name(&mut self) -> Vec<u8> {
        if !self.memo.names.is_empty() && self.chance(1, 12) {
            let k = self.below(self.memo.names.len());
            return self.memo.names[k].clone();
        }
        let v = self.new_name();
        self.memo.at += 1;
        keep(&mut self.memo.names, self.memo.at, v.clone());
        v
    }
    fn new_name(&mut self) -> Vec<u8> {
        // Names serve as keys too, and a stream must not have a second /Length.
        if let Some(w) = self.dict_bytes().filter(|w| w != b"Length") {
            return w;
        }
        match self.below(12) {
            0 => vec![],
            1 | 2 | 3 | 4 => {
                let n = 1 + self.len(8);
                (0..n).map(|_| *self.pick(b"ABCDEFabcdefXYZxyz0123456789")).collect()
            }
            5 => self.pick(HOSTILE_NAMES).to_vec(),
            6 | 7 => {
                let n = 1 + self.len(6);
                (0..n).map(|_| *self.pick(b"()<>[]{}/% #\t\n\r\x0c\0~!\x7f\x80\xffR0 ")).collect()
            }
            8 => {
                let n = self.below(130);
                (0..n).map(|_| self.next() as u8).collect()
            }
            9 => vec![self.next() as u8],
            _ => {
                let n = 1 + self.below(12);
                (0..n).map(|_| self.range(33, 126) as u8).collect()
            }
        }
    }
    /// A key for a dictionary that cannot collide with keys the library writes itself.
    pub fn key(&mut self) -> Vec<u8> {
        let mut n = self.name();
        n.push(b'~');
        n
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        if !self.memo.bytes.is_empty() && self.chance(1, 12) {
            let k = self.below(self.memo.bytes.len());
            return self.memo.bytes[k].clone();
        }
        let v = self.new_bytes();
        self.memo.at += 1;
        keep(&mut self.memo.bytes, self.memo.at, v.clone());
        v
    }
    fn new_bytes(&mut self) -> Vec<u8> {
        if let Some(w) = self.dict_bytes() {
            return w;
        }
        if let Some(v) = self.dict_int().and_then(|v| u8::try_from(v).ok()) {
            // a byte the code names, among others
            let n = 1 + self.below(8);
            return (0..n).map(|_| if self.bool() { v } else { self.next() as u8 }).collect();
        }
        match self.below(12) {
            0 => vec![],
            1 | 2 => {
                let n = self.len(20);
                (0..n).map(|_| self.range(32, 126) as u8).collect()
            }
            3 | 4 => {
                let n = self.len(10);
                let m = self.below(8);
                (0..n).map(|_| if m < 3 { b"()\\"[m] } else { *self.pick(b"()\\") }).collect()
            }
            5 => {
                let n = self.len(12);
                (0..n).map(|_| *self.pick(b"()\\nrtbf01237 89\n\r\t\x08\x0c%<>/")).collect()
            }
            6 => {
                let n = self.len(12);
                (0..n).map(|_| (self.next() as u8) & 0x7f).collect()
            }
            7 => {
                let n = self.len(30);
                (0..n).map(|_| self.next() as u8).collect()
            }
            8 => self.pick(HOSTILE_STRINGS).to_vec(),
            9 => vec![self.next() as u8],
            10 => {
                // concatenation of hostile pieces
                let n = 1 + self.below(4);
                let mut v = vec![];
                for _ in 0..n {
                    v.extend_from_slice(*self.pick(HOSTILE_STRINGS));
                }
                v
            }
            _ => {
                // nested balanced parentheses around text
                let d = self.len(12);
                let mut v = vec![b'('; d];
                v.extend(b"x 1 0 R y");
                v.extend(vec![b')'; d]);
                v
            }
        }
    }
    /// Unicode text without U+001B (documented as unrepresentable).
    pub fn text(&mut self) -> String {
        if !self.memo.texts.is_empty() && self.chance(1, 12) {
            let k = self.below(self.memo.texts.len());
            return self.memo.texts[k].clone();
        }
        let v = self.new_text();
        self.memo.at += 1;
        keep(&mut self.memo.texts, self.memo.at, v.clone());
        v
    }
    fn new_text(&mut self) -> String {
        if let Some(w) = self.dict_bytes() {
            if let Ok(s) = String::from_utf8(w) {
                if !s.contains('\u{1b}') {
                    return s;
                }
            }
        }
        if let Some(c) = self.dict_int().and_then(|v| char::from_u32(v as u32)).filter(|&c| c != '\u{1b}') {
            let mut s = String::from(c);
            for _ in 0..self.below(4) {
                let d = if self.bool() { c } else { self.scalar() };
                s.insert(self.below(2) * s.len(), d);
            }
            return s;
        }
        let n = self.len(14);
        let mode = self.below(8);
        let mut s = String::new();
        if mode == 0 {
            return String::from_utf8(self.ascii_bytes()).unwrap();
        }
        for _ in 0..n {
            let m = if mode >= 6 { self.below(6) } else { mode };
            let c = match m {
                0 | 1 => self.range(32, 126) as u8 as char,
                2 => *self.pick(&['(', ')', '\\', '<', '>', '%', 'R', '\u{7f}', '\n', '\r', '\t', '\0', '\u{8}', '\u{c}', ' ', '0']),
                3 => char::from_u32(self.range(0x80, 0x7ff) as u32).unwrap(),
                4 => self.scalar(),
                _ => *self.pick(&['\u{feff}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{10ffff}', '\u{1f600}', '\u{2022}', '\u{a0}', '\u{ad}', '\u{fffd}', '\u{80}', '\u{9f}', '\u{ff}', '\u{100}']),
            };
            if c != '\u{1b}' {
                s.push(c);
            }
        }
        s
    }
    fn ascii_bytes(&mut self) -> Vec<u8> {
        self.bytes().into_iter().map(|b| b & 0x7f).filter(|&b| b != 0x1b).collect()
    }
    pub fn scalar(&mut self) -> char {
        if self.chance(1, 4) {
            if let Some(c) = self.dict_int().and_then(|v| char::from_u32(v as u32)).filter(|&c| c as u32 >= 0x20) {
                return c;
            }
        }
        loop {
            let v = match self.below(3) {
                0 => self.range(0x20, 0xffff),
                1 => self.range(0x10000, 0x10ffff),
                _ => self.range(0x80, 0x2fff),
            };
            if let Some(c) = char::from_u32(v as u32) {
                return c;
            }
        }
    }
    pub fn rf(&mut self) -> Ref {
        let k = self.below(4);
        let old = self.memo.rf[k];
        if old > 0 && self.chance(1, 8) {
            return Ref::new(if self.chance(1, 4) && old < i32::MAX { old + 1 } else { old });
        }
        let v = self.new_rf();
        self.memo.at += 1;
        self.memo.rf[self.memo.at % 4] = v.get();
        v
    }
    fn new_rf(&mut self) -> Ref {
        if let Some(v) = self.dict_int().and_then(|v| i32::try_from(v).ok()) {
            let v = v.saturating_add(self.range(-1, 1) as i32);
            if v > 0 {
                return Ref::new(v);
            }
        }
        Ref::new(match self.below(6) {
            0 | 1 | 2 => self.range(1, 20) as i32,
            3 => self.range(1, 5000) as i32,
            4 => *self.pick(&[1, 9, 10, 99, 100, 255, 256, 65535, 65536, i32::MAX - 1, i32::MAX]),
            _ => self.range(1, i32::MAX as i64) as i32,
        })
    }
    pub fn rect(&mut self) -> Rect {
        let [a, b, c, d] = self.fs();
        Rect::new(a, b, c, d)
    }
    pub fn lang(&mut self) -> LanguageIdentifier {
        let (l, r) = self.lang_parts();
        LanguageIdentifier::new(l, r)
    }
    pub fn lang_parts(&mut self) -> ([u8; 2], Option<[u8; 2]>) {
        let c = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        if let Some(w) = self.dict_word() {
            match *w {
                [a, b] if a.is_ascii_alphanumeric() && b.is_ascii_alphanumeric() => return ([a, b], None),
                [a, b, b'-', x, y] if [a, b, x, y].iter().all(u8::is_ascii_alphanumeric) => return ([a, b], Some([x, y])),
                _ => {}
            }
        }
        let l = [*self.pick(c), *self.pick(c)];
        let r = if self.bool() { Some([*self.pick(c), *self.pick(c)]) } else { None };
        (l, r)
    }
    /// A date together with the exact bytes the PDF date format prescribes for it.
    pub fn date(&mut self) -> (Date, Vec<u8>) {
        let year = match self.below(4) {
            0 => self.u16(),
            1 => *self.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535]),
            _ => self.range(1900, 2100) as u16,
        };
        let mut d = Date::new(year);
        let byte = |r: &mut Rng, lo: i64, hi: i64| -> u8 {
            match r.below(5) {
                0 => r.u8(),
                1 => *r.pick(&[0, 1, 9, 10, 11, 12, 13, 22, 23, 24, 25, 30, 31, 32, 58, 59, 60, 61, 127, 128, 255]),
                _ => r.range(lo, hi) as u8,
            }
        };
        let p = self.below(4); // how likely fields are present
        let present = |r: &mut Rng| p == 0 || r.below(8) != 0;
        let month = present(self).then(|| byte(self, 1, 12));
        let day = present(self).then(|| byte(self, 1, 31));
        let hour = present(self).then(|| byte(self, 0, 23));
        let minute = present(self).then(|| byte(self, 0, 59));
        let second = present(self).then(|| byte(self, 0, 59));
        let uh: Option<i8> = present(self).then(|| match self.below(4) {
            0 => self.u8() as i8,
            1 => *self.pick(&[-128i8, -127, -24, -23, -22, -10, -9, -1, 0, 1, 9, 10, 22, 23, 24, 127]),
            _ => self.range(-14, 14) as i8,
        });
        let um: Option<u8> = self.bool().then(|| byte(self, 0, 59));
        // set in random order: setters are independent
        let mut order = [0, 1, 2, 3, 4, 5, 6];
        self.shuffle(&mut order);
        for o in order {
            d = match o {
                0 => month.map_or(d, |v| d.month(v)),
                1 => day.map_or(d, |v| d.day(v)),
                2 => hour.map_or(d, |v| d.hour(v)),
                3 => minute.map_or(d, |v| d.minute(v)),
                4 => second.map_or(d, |v| d.second(v)),
                5 => uh.map_or(d, |v| d.utc_offset_hour(v)),
                _ => um.map_or(d, |v| d.utc_offset_minute(v)),
            };
        }
        (d, expected_date(year, month, day, hour, minute, second, uh, um))
    }
}

pub fn expected_date(
    year: u16,
    month: Option<u8>,
    day: Option<u8>,
    hour: Option<u8>,
    minute: Option<u8>,
    second: Option<u8>,
    uh: Option<i8>,
    um: Option<u8>,
) -> Vec<u8> {
    let two = |v: i32| -> String { format!("{}{}", v / 10, v % 10) };
    let y = (year as i32).min(9999);
    let mut s = format!("D:{}{}", two(y / 100), two(y % 100));
    let fields = [(month, 1, 12), (day, 1, 31), (hour, 0, 23), (minute, 0, 59), (second, 0, 59)];
    for (v, lo, hi) in fields {
        match v {
            Some(v) => s.push_str(&two((v as i32).max(lo).min(hi))),
            None => return s.into_bytes(),
        }
    }
    if let Some(h) = uh {
        let h = (h as i32).max(-23).min(23);
        let m = (um.unwrap_or(0) as i32).min(59);
        if h == 0 && m == 0 {
            s.push('Z');
        } else {
            s.push(if h < 0 { '-' } else { '+' });
            s.push_str(&two(h.abs()));
            s.push('\'');
            s.push_str(&two(m));
        }
    }
    s.into_bytes()
}

/// Powers of ten by plain multiplication, the same on every platform.
pub fn pow10(e: i32) -> f64 {
    let p = (0..e.abs()).fold(1.0f64, |p, _| p * 10.0);
    if e < 0 { 1.0 / p } else { p }
}

/// Values the standard gives a special meaning or uses as defaults.
pub const INT_DEFAULTS: [i32; 20] = [
    2, 4, 8, 10, 12, 15, 16, 72, 90, 180, 270, 360, -90, 100, 400, 700, 500, 1000, 1728, 254,
];

pub const INT_EDGES: [i32; 24] = [
    0, 1, -1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 16777216,
    999999999, 1000000000, -1000000000, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1,
];

/// Values the standard gives a special meaning or uses as defaults.
pub const FLOAT_DEFAULTS: [f32; 24] = [
    1000.0, -1000.0, 880.0, 100.0, -100.0, 255.0, 72.0, 90.0, 180.0, 270.0, 360.0, -90.0, 10.0, 12.0, 0.001, 0.01, 0.25, 0.75,
    400.0, 700.0, 500.0, 2.0, 3.0, 14400.0,
];

pub const FLOAT_EDGES: [f32; 42] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 0.3, 1e-6, -1e-6, 1e-5, 1e-7, 1e12, -1e12, 1e11, 1e13,
    16777216.0, 16777217.0, 8388608.5, 2147483520.0, 2147483648.0, -2147483648.0, -2147483904.0,
    4294967296.0, 9.999999e11, 1.0000001e12, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45,
    1.1754942e-38, 3.4e38, 1e20, 1e-20, 123456.79, 0.000123456, 99999.99, 1e9, 1e10, 33554432.0, 0.99999994,
];

pub const HOSTILE_NAMES: &[&[u8]] = &[
    b"R", b"obj", b"endobj", b"stream", b"endstream", b"0 R", b"1 0 R", b"5", b"true", b"null", b"#",
    b"#41", b"A#42", b"##", b"a/b", b"a%b", b"a b", b"xref", b"trailer", b"startxref", b"-1", b"1.5",
    b"A.B-C_D", b"Lime Green", b"(x)", b"<<>>", b"\xc3\xa9", b"\0", b"BT", b"0", b"Name;@$+*'\"",
];

pub const HOSTILE_STRINGS: &[&[u8]] = &[
    b"1 0 R", b"(1 0 R", b") 1 0 R (", b"\\", b"\\)", b"\\(", b"\\\\)", b"(()", b"())", b")(", b"endobj",
    b"endobj\n", b"stream\n1 0 R\nendstream", b">>\nstream\n", b"%comment 3 0 R\n", b"3 0 obj", b"\n",
    b"\r\n", b"\r", b"\\\n", b"\\0", b"\\053", b"\x00", b"\xfe\xff", b"\xef\xbb\xbf", b"<41>", b"/Name",
    b"x\x80", b"xref", b"trailer", b"\xfe\xff\x00\x1b", b"7 0 R)", b"8 0\nR", b"\\\r", b" ", b"\x7f",
];

/// The same items from an iterator that knows its length, knows bounds of it, or knows nothing:
/// what is written must not depend on it. The kind follows from the case (see `iterators`).
pub fn it<I: IntoIterator>(v: I) -> It<I::IntoIter> {
    let kind = KIND.with(|k| {
        let x = k.get().wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
        k.set(x);
        (x >> 40) as usize % 8
    });
    It { inner: v.into_iter(), kind }
}
thread_local!(static KIND: std::cell::Cell<u64> = const { std::cell::Cell::new(1) });
/// Makes the iterators of this thread follow from `seed`.
/// A copy that begins and ends at any address, inside of other bytes.
pub struct Un(Vec<u8>, usize, usize);
pub fn un(b: &[u8]) -> Un {
    let k = KIND.with(|k| {
        let x = k.get().wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
        k.set(x);
        (x >> 40) as usize % 16
    });
    let mut v = Vec::with_capacity(b.len() + k + 3);
    v.resize(k, b'(');
    v.extend_from_slice(b);
    v.extend_from_slice(b"0\xff\n");
    Un(v, k, b.len())
}
impl std::ops::Deref for Un {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.0[self.1..self.1 + self.2] }
}
impl Un { pub fn text(&self) -> &str { std::str::from_utf8(self).unwrap() } }

pub fn iterators(seed: u64) {
    KIND.with(|k| k.set(seed));
}
pub struct It<I> {
    inner: I,
    kind: usize,
}
impl<I: Iterator> Iterator for It<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.inner.size_hint();
        match self.kind {
            0..=2 => (lo, hi),
            3 | 4 => (0, None),
            5 => (lo / 2, None),
            6 => (0, hi.map(|h| h.saturating_mul(2).saturating_add(7))),
            _ => (lo.min(1), Some(usize::MAX)),
        }
    }
}
