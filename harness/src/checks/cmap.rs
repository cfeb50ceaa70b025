//! C16: to-Unicode character maps, executed by a small interpreter.

use crate::mon::{hash, Ctx, R};
use crate::pdf::*;
use crate::rng::*;
use pdf_writer::types::*;
use pdf_writer::*;
use std::collections::HashMap;

#[derive(Debug, Default)]
pub struct Map {
    pub defs: HashMap<Vec<u8>, V>,
    pub codespace: Vec<(Vec<u8>, Vec<u8>)>,
    pub pairs: Vec<(Vec<u8>, String)>,
    pub blocks: Vec<usize>,
    pub defined: bool,
}

fn utf16(b: &[u8]) -> R<String> {
    if b.len() % 2 != 0 { return Err(format!("odd number of bytes in target {}", esc(b))); }
    let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
    String::from_utf16(&u).map_err(|_| format!("target {} is not UTF-16", esc(b)))
}

/// Execute a character map file. Comments are skipped, as the language demands.
pub fn run(b: &[u8]) -> R<Map> {
    if !b.starts_with(b"%!PS-Adobe-3.0 Resource-CMap") { return Err("header comment missing".into()); }
    let mut p = P::new(b);
    let mut m = Map::default();
    let mut st: Vec<V> = vec![];
    let mut open = 0i32;
    let mut in_map = false;
    let word = |w: &str| V::Name(format!("-{w}-").into_bytes());
    let hex_lists = |p: &mut P, n: usize, end: &[u8]| -> R<Vec<(Vec<u8>, Vec<u8>)>> {
        let mut v = vec![];
        loop {
            match p.tok()? {
                Tok::Word(w) if w == end => break,
                Tok::Str(a) => match p.tok()? { Tok::Str(b) => v.push((a, b)), t => return p.err(&format!("expected a string, found {t:?}")) },
                t => return p.err(&format!("unexpected {t:?} in a block")),
            }
        }
        if v.len() != n { return Err(format!("block announces {n} entries and holds {}", v.len())); }
        Ok(v)
    };
    loop {
        let pop = |st: &mut Vec<V>| st.pop().ok_or_else(|| "stack underflow".to_string());
        match p.tok()? {
            Tok::Eof => break,
            Tok::Word(w) => match &w[..] {
                b"findresource" => { pop(&mut st)?; pop(&mut st)?; st.push(word("resource")); }
                b"dict" => { pop(&mut st)?; st.push(word("dict")); }
                b"dup" => { let x = pop(&mut st)?; st.push(x.clone()); st.push(x); }
                b"begin" => { pop(&mut st)?; open += 1; }
                b"end" => { open -= 1; if open < 0 { return Err("end without begin".into()); } }
                b"def" => {
                    let (v, k) = (pop(&mut st)?, pop(&mut st)?);
                    let V::Name(k) = k else { return Err(format!("def of a key that is {k:?}")) };
                    if m.defs.insert(k.clone(), v).is_some() { return Err(format!("{} defined twice", esc(&k))); }
                }
                b"begincmap" => { if in_map { return Err("begincmap twice".into()); } in_map = true; }
                b"endcmap" => { if !in_map { return Err("endcmap without begincmap".into()); } in_map = false; }
                b"CMapName" => { let x = m.defs.get(&b"CMapName"[..]).cloned().ok_or("CMapName used before its definition")?; st.push(x); }
                b"currentdict" => st.push(word("dict")),
                b"defineresource" => { pop(&mut st)?; pop(&mut st)?; pop(&mut st)?; st.push(word("resource")); m.defined = true; }
                b"pop" => { pop(&mut st)?; }
                b"begincodespacerange" | b"beginbfchar" => {
                    if !in_map { return Err("block outside of the map".into()); }
                    let n = match pop(&mut st)? { V::Num(t) => t.parse::<usize>().map_err(|_| format!("count {t}"))?, x => return Err(format!("count {x:?}")) };
                    if w == b"beginbfchar" {
                        if n == 0 || n > 100 { return Err(format!("block of {n} entries")); }
                        for (a, b) in hex_lists(&mut p, n, b"endbfchar")? { m.pairs.push((a, utf16(&b)?)); }
                        m.blocks.push(n);
                    } else { m.codespace.extend(hex_lists(&mut p, n, b"endcodespacerange")?); }
                }
                _ => return p.err(&format!("unknown operator {}", esc(&w))),
            },
            Tok::Num(t) => st.push(V::Num(t)),
            Tok::Str(s) => st.push(V::Str(s)),
            Tok::Name(n) => st.push(V::Name(n)),
            t => return p.err(&format!("unexpected {t:?}")),
        }
    }
    if open != 0 || !st.is_empty() || in_map { return Err(format!("{open} dictionaries and {} operands left over", st.len())); }
    Ok(m)
}

fn def<'a>(m: &'a Map, k: &str) -> R<&'a V> { m.defs.get(k.as_bytes()).ok_or_else(|| format!("{k} is not defined")) }

fn judge(b: &[u8], width: usize, name: &[u8], info: &SystemInfo, mode: i64, pairs: &[(u16, String)]) -> R<Map> {
    let m = run(b)?;
    for (k, want) in [("CMapName", V::Name(name.to_vec())), ("Registry", V::Str(info.registry.0.to_vec())), ("Ordering", V::Str(info.ordering.0.to_vec())), ("Supplement", V::Int(info.supplement as i64)), ("WMode", V::Int(mode))] {
        if let Some(d) = diff(&want, def(&m, k)?, true) { return Err(format!("{k}: {d}")); }
    }
    if !matches!(def(&m, "CMapType")?, V::Num(t) if t == "0" || t == "2") { return Err("CMapType".into()); }
    if !m.defined { return Err("the map is never defined as a resource".into()); }
    if m.codespace != [(vec![0; width], vec![0xFF; width])] { return Err(format!("codespace is {:?}", m.codespace)); }
    if m.pairs.len() != pairs.len() { return Err(format!("{} mappings added, {} found", pairs.len(), m.pairs.len())); }
    for (i, ((code, text), (g, t))) in m.pairs.iter().zip(pairs).enumerate() {
        let want = &g.to_be_bytes()[2 - width..];
        if code != want { return Err(format!("mapping {i}: code {code:02X?} instead of {want:02X?}")); }
        if text != t { return Err(format!("mapping {i}: text {text:?} instead of {t:?}")); }
    }
    Ok(m)
}

fn build<G: GlyphId>(r: &mut Rng, conv: impl Fn(u16) -> G, name: &[u8], info: SystemInfo, pairs: &[(u16, String)]) -> (Vec<u8>, i64) {
    let k = r.below(3);
    let mut c = match k {
        0 => UnicodeCmap::<G>::new(Name(name), info),
        1 => UnicodeCmap::<G>::with_writing_mode(Name(name), info, writers::WMode::Horizontal),
        _ => UnicodeCmap::<G>::with_writing_mode(Name(name), info, writers::WMode::Vertical),
    };
    for (g, t) in pairs {
        let mut it = t.chars();
        match (it.next(), it.next()) {
            (Some(ch), None) if r.bool() => c.pair(conv(*g), ch),
            _ => c.pair_with_multiple(conv(*g), crate::rng::it(t.chars())),
        }
    }
    (c.finish().into_vec(), (k == 2) as i64)
}

/// A random map, for other monitors.
pub fn random(r: &mut Rng) -> (Vec<u8>, usize) {
    let (name, reg, ord) = (r.name(), r.bytes(), r.bytes());
    let info = SystemInfo { registry: Str(&reg), ordering: Str(&ord), supplement: r.int() };
    let n = match r.below(4) { 0 => r.below(250), _ => r.below(12) };
    let pairs: Vec<(u16, String)> = (0..n).map(|_| (r.u16(), if r.bool() { r.scalar().to_string() } else { r.text() })).collect();
    (if r.bool() { build::<u16>(r, |g| g, &name, info, &pairs).0 } else { build::<u8>(r, |g| g as u8, &name, info, &pairs).0 }, n)
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("the map held at least one mapping");
    // Every number of mappings around the block size, and every character once.
    ctx.exhaust("every map size", 2 * 420, |i, r, o| case(r, o, Some((i / 2) as usize), i % 2 == 0, None));
    // Uniform texts of every length, so that the size of what is pending takes every likely value.
    ctx.exhaust("text sizes", 70 * 6, |i, r, o| {
        let len = match i / 6 { k @ 0..=63 => k as usize, k => [100, 127, 128, 255, 256, 300][k as usize - 64] };
        let unit = ["a", "\u{7ff}", "\u{10000}"][i as usize % 3];
        let pairs: Vec<(u16, String)> = (0..98 + r.below(210)).map(|g| (g as u16, unit.repeat(len))).collect();
        given(r, o, pairs, i % 6 < 3)
    });
    // One hundred mappings that take any number of bytes, and then some more.
    ctx.exhaust("block sizes", 2 * 2100, |i, r, o| {
        let extra = match i / 2 { k @ 0..=2000 => k as usize, k => [2048, 3800, 3846, 3900, 4000, 7942, 8000, 8192, 16_134][k as usize % 9] + k as usize % 4 };
        let mut units = vec![extra / 100; 100];
        for _ in 0..extra % 100 { let k = r.below(100); units[k] += 1; }
        let pairs: Vec<(u16, String)> = (0..100 + r.below(12)).map(|g| (g as u16, "x".repeat(units.get(g).copied().unwrap_or(1)))).collect();
        given(r, o, pairs, i % 2 == 0)
    });
    // Few mappings with huge texts.
    ctx.cases("huge texts", 60, 600, |i, r, o| {
        let pairs: Vec<(u16, String)> = (0..1 + r.below(6)).map(|g| (g as u16, (0..[200, 2000, 40_000][i as usize % 3] + r.below(100)).map(|_| r.scalar()).collect())).collect();
        given(r, o, pairs, i % 2 == 0)
    });
    let block = 512u64;
    ctx.exhaust("every character", 0x110000 / block, |i, r, o| {
        let chars: Vec<char> = (i * block..(i + 1) * block).filter_map(|c| char::from_u32(c as u32)).collect();
        o.count("characters covered", chars.len() as u64);
        case(r, o, None, true, Some(chars))
    });
    // More mappings than there are codes, and than a narrow counter of mappings or blocks holds.
    ctx.cases("large maps", 6, 30, |i, r, o| case(r, o, Some([25_600, 25_700, 65_536, 65_537, 70_000, 131_100][i as usize % 6]), i % 2 == 0, None));
    ctx.cases("random maps", 6_000, 200_000, |i, r, o| { let n = if i % 40 == 0 { r.below(3000) } else { r.below(260) }; case(r, o, Some(n), i % 3 != 0, None) });
    ctx.require("characters covered", 0x110000 - 0x800);
    ctx.require("maps with a full block", 20);
    ctx.require("one-byte maps", 100);
    ctx.require("surrogate pairs", 1000);
}

fn case(r: &mut Rng, o: &mut crate::mon::Obs, n: Option<usize>, wide: bool, chars: Option<Vec<char>>) -> R<()> {
    let (name, reg, ord) = (r.name(), r.bytes(), r.bytes());
    let info = SystemInfo { registry: Str(&reg), ordering: Str(&ord), supplement: r.int() };
    let glyph = |r: &mut Rng| if wide { *r.pick(&[0u16, 1, 0xFF, 0x100, 0x101, 0xABCD, 0xFFFE, 0xFFFF, 0x0A0D, 0x2829]) ^ (r.u16() * (r.below(3) > 0) as u16) } else { r.u8() as u16 };
    let pairs: Vec<(u16, String)> = match chars {
        Some(c) => c.into_iter().map(|c| (glyph(r), c.to_string())).collect(),
        None => (0..n.unwrap_or(0)).map(|_| {
            let t: String = match r.below(8) { 0 => r.text(), 1 => (0..r.below(12)).map(|_| r.scalar()).collect(), _ => r.scalar().to_string() };
            (glyph(r), t)
        }).collect(),
    };
    judged(r, o, pairs, wide, name, info)
}

fn given(r: &mut Rng, o: &mut crate::mon::Obs, pairs: Vec<(u16, String)>, wide: bool) -> R<()> {
    let (name, reg, ord) = (r.name(), r.bytes(), r.bytes());
    let pairs = if wide { pairs } else { pairs.into_iter().map(|(g, t)| (g & 0xFF, t)).collect() };
    let info = SystemInfo { registry: Str(&reg), ordering: Str(&ord), supplement: r.int() };
    judged(r, o, pairs, wide, name, info)
}

fn judged(r: &mut Rng, o: &mut crate::mon::Obs, pairs: Vec<(u16, String)>, wide: bool, name: Vec<u8>, info: SystemInfo) -> R<()> {
    let (b, mode) = if wide { build::<u16>(r, |g| g, &name, info, &pairs) } else { build::<u8>(r, |g| g as u8, &name, info, &pairs) };
    let m = judge(&b, if wide { 2 } else { 1 }, &name, &info, mode, &pairs).map_err(|e| format!("{e}\nin {}", esc(&b[..b.len().min(1500)])))?;
    o.count(if wide { "two-byte maps" } else { "one-byte maps" }, 1);
    if m.blocks.contains(&100) { o.count("maps with a full block", 1); }
    o.max("blocks", m.blocks.len() as u64);
    o.count("mappings", pairs.len() as u64);
    o.count("surrogate pairs", pairs.iter().flat_map(|p| p.1.chars()).filter(|c| *c as u32 > 0xFFFF).count() as u64);
    o.seen("block shapes", hash(&m.blocks));
    o.sample(|| esc(&b));
    o.eval(hash(&b), !pairs.is_empty());
    Ok(())
}
