//! A dictionary for the workload generators: the literals of the code under test.
//!
//! Values a program treats specially nearly always stand in its source as literals, so the
//! generators mix them into their inputs (the automatic dictionary of coverage-guided fuzzers).
//! Literals that are not in `dict-base.txt` (those of the tree the harness was made for) are
//! preferred. This only guides which inputs are tried: no verdict depends on it.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed=dict-base.txt");
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let manifest = std::fs::read_to_string(here.join("Cargo.toml")).unwrap_or_default();
    let src = manifest
        .lines()
        .find(|l| l.starts_with("pdf-writer") && l.contains("path"))
        .and_then(|l| l.split('"').nth(1))
        .map(|p| here.join(p).join("src"));
    let mut found: BTreeMap<(String, Lit), usize> = BTreeMap::new();
    if let Some(src) = src {
        println!("cargo:rerun-if-changed={}", src.display());
        let mut files = vec![];
        walk(&src, &mut files);
        files.sort();
        for f in files {
            println!("cargo:rerun-if-changed={}", f.display());
            let text = std::fs::read(&f).unwrap_or_default();
            let name = f.strip_prefix(&src).unwrap_or(&f).display().to_string();
            for l in literals(&text) {
                *found.entry((name.clone(), l)).or_insert(0) += 1;
            }
        }
    }
    let mut listing = String::new();
    for ((f, l), n) in &found {
        writeln!(listing, "{f} {l:?} {n}").unwrap();
    }
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("dict-base.txt"), &listing).unwrap();
    let base = std::fs::read_to_string(here.join("dict-base.txt")).unwrap_or_default();
    let base: BTreeMap<&str, usize> =
        base.lines().filter_map(|l| l.rsplit_once(' ')).filter_map(|(k, n)| Some((k, n.parse().ok()?))).collect();
    let (mut old, mut new) = (vec![], vec![]);
    for ((f, l), n) in found {
        let known = base.get(format!("{f} {l:?}").as_str()).copied().unwrap_or(0);
        (if n > known { &mut new } else { &mut old }).push(l);
    }
    // Were the whole source new, nothing would be worth preferring.
    if new.len() > 400 {
        old.append(&mut new);
    }
    let mut code = String::new();
    for (suffix, mut v) in [("", old), ("_NEW", new)] {
        v.sort();
        v.dedup();
        let (mut w, mut i, mut x, mut s) = (vec![], vec![], vec![], vec![]);
        for l in v {
            match l {
                Lit::Word(b) => w.push(format!("&{b:?}")),
                Lit::Int(v) => i.push(v.to_string()),
                Lit::Float(v) => x.push(format!("{v:?}")),
                Lit::Seq(v) => s.push(format!("&{:?}", v.iter().map(|&b| f64::from_bits(b as u64)).collect::<Vec<_>>())),
            }
        }
        writeln!(code, "pub static WORDS{suffix}: &[&[u8]] = &[{}];", w.join(", ")).unwrap();
        writeln!(code, "pub static INTS{suffix}: &[i64] = &[{}];", i.join(", ")).unwrap();
        writeln!(code, "pub static FLOATS{suffix}: &[&str] = &[{}];", x.join(", ")).unwrap();
        writeln!(code, "pub static SEQS{suffix}: &[&[f64]] = &[{}];", s.join(", ")).unwrap();
    }
    std::fs::write(out.join("dict.rs"), code).unwrap();
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Lit {
    Word(Vec<u8>),
    Int(i64),
    Float(String),
    /// A bracketed list of numbers (bits of f64).
    Seq(Vec<i64>),
}

#[derive(Clone)]
enum Tok {
    Lit(Lit),
    P(u8),
    Other,
}

fn literals(s: &[u8]) -> Vec<Lit> {
    let toks = tokens(s);
    let mut out = vec![];
    for (k, t) in toks.iter().enumerate() {
        match t {
            Tok::Lit(l) => {
                out.push(l.clone());
                // 1 << n
                if let (Lit::Int(a), Some([Tok::P(b'<'), Tok::P(b'<'), Tok::Lit(Lit::Int(n))])) = (l, toks.get(k + 1..k + 4)) {
                    if (0..62).contains(n) && (1..256).contains(a) {
                        out.push(Lit::Int(a << n));
                    }
                }
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                let mut neg = false;
                for t in &toks[k + 1..] {
                    match t {
                        Tok::P(b'-') => neg = true,
                        Tok::P(b',') => {}
                        Tok::Lit(Lit::Int(_) | Lit::Float(_)) => {
                            let x = match t {
                                Tok::Lit(Lit::Int(i)) => *i as f64,
                                Tok::Lit(Lit::Float(f)) => f.parse().unwrap_or(0.0),
                                _ => 0.0,
                            };
                            v.push((if neg { -x } else { x }).to_bits() as i64);
                            neg = false;
                        }
                        Tok::P(b']') if v.len() > 1 && v.len() < 20 => {
                            out.push(Lit::Seq(v));
                            break;
                        }
                        _ => break,
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn tokens(s: &[u8]) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let ident = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b >= 0x80;
    while i < s.len() {
        let b = s[i];
        if b == b'/' && at(i + 1) == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if b == b'/' && at(i + 1) == b'*' {
            let mut depth = 0;
            while i < s.len() {
                if s[i] == b'/' && at(i + 1) == b'*' {
                    depth += 1;
                    i += 2;
                } else if s[i] == b'*' && at(i + 1) == b'/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if b == b'"' || (b == b'b' && at(i + 1) == b'"') {
            i += if b == b'"' { 1 } else { 2 };
            let mut v = vec![];
            while i < s.len() && s[i] != b'"' {
                unescape(s, &mut i, &mut v);
            }
            i += 1;
            out.push(Tok::Lit(Lit::Word(v)));
        } else if (b == b'r' || (b == b'b' && at(i + 1) == b'r')) && {
            let mut j = i + if b == b'r' { 1 } else { 2 };
            while at(j) == b'#' {
                j += 1;
            }
            at(j) == b'"'
        } {
            i += if b == b'r' { 1 } else { 2 };
            let mut n = 0;
            while at(i) == b'#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let start = i;
            while i < s.len() && !(s[i] == b'"' && (1..=n).all(|k| at(i + k) == b'#')) {
                i += 1;
            }
            out.push(Tok::Lit(Lit::Word(s[start..i.min(s.len())].to_vec())));
            i += 1 + n;
        } else if b == b'\'' || (b == b'b' && at(i + 1) == b'\'') {
            let j = i + if b == b'\'' { 1 } else { 2 };
            // A lifetime has no closing quote right behind its first character.
            let mut k = j;
            let mut v = vec![];
            if at(j) != b'\'' && j < s.len() {
                unescape(s, &mut k, &mut v);
                while k < s.len() && s[k] & 0xc0 == 0x80 {
                    v.push(s[k]);
                    k += 1;
                }
            }
            if at(k) == b'\'' && k > j {
                if b == b'\'' {
                    if let Some(c) = std::str::from_utf8(&v).ok().and_then(|t| t.chars().next()) {
                        out.push(Tok::Lit(Lit::Int(c as i64)));
                    }
                } else if v.len() == 1 {
                    out.push(Tok::Lit(Lit::Int(v[0] as i64)));
                }
                out.push(Tok::Lit(Lit::Word(v)));
                i = k + 1;
            } else {
                i = j;
                out.push(Tok::Other);
            }
        } else if b.is_ascii_digit() {
            let start = i;
            let radix = match (b, at(i + 1)) {
                (b'0', b'x') => 16,
                (b'0', b'o') => 8,
                (b'0', b'b') => 2,
                _ => 10,
            };
            let mut float = false;
            if radix == 10 {
                while at(i).is_ascii_digit() || at(i) == b'_' {
                    i += 1;
                }
                if at(i) == b'.' && at(i + 1) != b'.' && !at(i + 1).is_ascii_alphabetic() && at(i + 1) != b'_' {
                    float = true;
                    i += 1;
                    while at(i).is_ascii_digit() || at(i) == b'_' {
                        i += 1;
                    }
                }
                if matches!(at(i), b'e' | b'E') && (at(i + 1).is_ascii_digit() || at(i + 2).is_ascii_digit()) {
                    float = true;
                    i += 2;
                    while at(i).is_ascii_digit() || at(i) == b'_' {
                        i += 1;
                    }
                }
            }
            let mut end = i;
            while ident(at(i)) && i < s.len() {
                i += 1;
            }
            if radix != 10 {
                end = i;
            }
            let text: String = s[start..end].iter().map(|&b| b as char).filter(|c| *c != '_').collect();
            let suffix: String = s[end..i].iter().map(|&b| b as char).collect();
            if float || suffix.contains("f32") || suffix.contains("f64") {
                out.push(Tok::Lit(Lit::Float(text)));
            } else if radix == 10 {
                if let Ok(v) = text.parse::<i64>() {
                    out.push(Tok::Lit(Lit::Int(v)));
                }
            } else {
                let t = text[2..].split(['i', 'u']).next().unwrap_or("");
                if let Ok(v) = u64::from_str_radix(t, radix) {
                    out.push(Tok::Lit(Lit::Int(v as i64)));
                }
            }
        } else if ident(b) {
            while i < s.len() && ident(s[i]) {
                i += 1;
            }
            out.push(Tok::Other);
        } else {
            if !b.is_ascii_whitespace() {
                out.push(Tok::P(b));
            }
            i += 1;
        }
    }
    out
}

/// Reads one (possibly escaped) byte or character of a literal.
fn unescape(s: &[u8], i: &mut usize, out: &mut Vec<u8>) {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    if s[*i] != b'\\' {
        out.push(s[*i]);
        *i += 1;
        return;
    }
    let e = at(*i + 1);
    *i += 2;
    match e {
        b'n' => out.push(b'\n'),
        b'r' => out.push(b'\r'),
        b't' => out.push(b'\t'),
        b'0' => out.push(0),
        b'x' => {
            let h: String = s[(*i).min(s.len())..(*i + 2).min(s.len())].iter().map(|&b| b as char).collect();
            out.push(u8::from_str_radix(&h, 16).unwrap_or(0));
            *i += 2;
        }
        b'u' => {
            let mut h = String::new();
            while *i < s.len() && s[*i] != b'}' {
                if s[*i].is_ascii_hexdigit() {
                    h.push(s[*i] as char);
                }
                *i += 1;
            }
            *i += 1;
            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                out.extend(c.to_string().bytes());
            }
        }
        b'\n' => {
            while at(*i).is_ascii_whitespace() {
                *i += 1;
            }
        }
        other => out.push(other),
    }
}
