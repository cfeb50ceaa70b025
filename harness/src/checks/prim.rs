//! C05, C06, C07: primitive values.

use crate::mon::{hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;

const RULE_TAIL: &str = "Every value is written in several positions (own object, array item, dictionary value, content operand, by value and by reference) between random neighbours in a random layout; non-trivial = distinct value. The written bytes are read back by an independent PDF parser.";

/// Write `v` in every position among random neighbours and check what comes back.
pub fn embed(v: &Prim, r: &mut Rng, o: &mut Obs) -> R<()> {
    let pretty = r.bool();
    let st = settings(pretty);
    let mut c = Chunk::with_settings(st);
    // 1: own indirect object
    v.put(IntoObj(c.indirect(Ref::new(1))));
    // 2: in an array
    let n = r.below(3);
    let before: Vec<Prim> = (0..n).map(|_| Prim::random(r)).collect();
    let m = r.below(3);
    let after: Vec<Prim> = (0..m).map(|_| Prim::random(r)).collect();
    {
        let mut a = c.indirect(Ref::new(2)).array();
        for p in &before { p.put(Item(&mut a)); }
        v.put(IntoObjRef(a.push()));
        for p in &after { p.put(IntoObj(a.push())); }
    }
    let key = r.name();
    let key2 = r.name();
    {
        let mut d = c.indirect(Ref::new(3)).dict();
        v.put(Pair(&mut d, &key));
        for p in &after { p.put(Pair(&mut d, &key2)); }
        v.put(IntoObj(d.insert(Name(&key2))));
    }
    // 4: in a stream dictionary
    {
        let mut s = c.stream(Ref::new(4), b"x");
        v.put(Pair(&mut s, b"K"));
    }
    let (objs, stats) = parse_body(c.as_bytes()).map_err(|e| format!("{v:?} (pretty={pretty}): {e}"))?;
    if matches!(v, Prim::Str(_) | Prim::Name(_)) { visible(&stats, c.as_bytes())?; }
    if objs.len() != 4 { return Err(format!("{v:?}: wrote 4 objects, found {}", objs.len())); }
    let e = v.exp();
    let mut arr: Vec<V> = before.iter().map(Prim::exp).collect();
    arr.push(e.clone());
    arr.extend(after.iter().map(Prim::exp));
    let mut dict = vec![(key.clone(), e.clone())];
    dict.extend(after.iter().map(|p| (key2.clone(), p.exp())));
    dict.push((key2.clone(), e.clone()));
    let exps = [e.clone(), V::Arr(arr), V::Dict(dict), V::Dict(vec![(b"Length".to_vec(), V::Int(1)), (b"K".to_vec(), e.clone())])];
    for (i, (x, ob)) in exps.iter().zip(&objs).enumerate() {
        if ob.id != i as i64 + 1 || ob.gen != 0 { return Err(format!("object {} came back as {} {}", i + 1, ob.id, ob.gen)); }
        if let Some(d) = diff(x, &ob.v, true) {
            return Err(format!("{v:?} in position {i} (pretty={pretty}): {d}; written {:?}", esc(&c.as_bytes()[ob.start..ob.end])));
        }
    }
    // 5: as content operand
    let mut ct = Content::with_settings(st);
    let use_op = *r.pick(&["Do", "q", "'", "\"", "T*", "x"]);
    {
        if r.bool() { ct.save_state(); }
        let mut op = ct.op(use_op);
        for p in &before { p.put(Operand(&mut op)); }
        v.put(Operand(&mut op));
    }
    {
        let mut op = ct.op("gs");
        v.put(IntoObj(op.obj()));
        for p in &after { p.put(Operand(&mut op)); }
    }
    let buf = ct.finish();
    let (ops, _) = parse_content(buf.as_slice()).map_err(|e| format!("{v:?} in content (pretty={pretty}): {e}"))?;
    let k = ops.len();
    if k < 2 || ops[k - 2].op != use_op.as_bytes() || ops[k - 1].op != b"gs" {
        return Err(format!("{v:?} in content (pretty={pretty}): operators lost in {:?}", esc(buf.as_slice())));
    }
    let mut x1: Vec<V> = before.iter().map(Prim::exp).collect();
    x1.push(e.clone());
    let mut x2 = vec![e];
    x2.extend(after.iter().map(Prim::exp));
    for (x, g) in [(x1, &ops[k - 2]), (x2, &ops[k - 1])] {
        if let Some(d) = diff(&V::Arr(x), &V::Arr(g.operands.clone()), true) {
            return Err(format!("{v:?} as operand (pretty={pretty}): {d}; written {:?}", esc(buf.as_slice())));
        }
    }
    o.count("positions judged", 6);
    o.count(&format!("kind {}", v.kind()), 1);
    for w in before.iter().chain(std::iter::once(v)).chain(after.iter()).collect::<Vec<_>>().windows(2) {
        o.seen("adjacent kind pairs", hash(&(w[0].kind(), w[1].kind(), pretty)));
    }
    o.eval(hash(&format!("{v:?}")), true);
    o.sample(|| format!("{v:?} -> {}", esc(&c.as_bytes()[..objs[0].end])));
    Ok(())
}

/// Names consist of the characters from ! to ~ (ISO 32000-1, 7.3.5), and nothing but the binary
/// marker and stream data makes a file non-ASCII (documented at `Pdf::set_binary_marker`).
fn visible(st: &Stats, b: &[u8]) -> R<()> {
    if st.raw == 0 { return Ok(()) }
    Err(format!("{} bytes of names or strings are not escaped, in {}", st.raw, esc(&b[..b.len().min(2000)])))
}

/// Write a block of numbers as one array and check each token.
fn number_block<T: Primitive + Copy>(vals: &[T], pretty: bool, ok: impl Fn(T, &str) -> bool, sh: impl Fn(T) -> String, o: &mut Obs) -> R<()> {
    let mut c = Chunk::with_settings_and_capacity(settings(pretty), vals.len() * 12);
    c.indirect(Ref::new(1)).array().items(it(vals.iter().copied()));
    let b = c.as_bytes();
    let Some(b) = b.strip_prefix(b"1 0 obj") else { return Err("object header".into()) };
    let s = b.iter().position(|&x| x == b'[').ok_or("no array")?;
    let e = b.iter().rposition(|&x| x == b']').ok_or("no array end")?;
    let body = std::str::from_utf8(&b[s + 1..e]).map_err(|_| "non-ASCII number")?;
    let mut toks = body.split_ascii_whitespace();
    for &v in vals {
        match toks.next() {
            Some(t) if ok(v, t) => {}
            t => return Err(format!("{} written as {:?}", sh(v), t)),
        }
    }
    if toks.next().is_some() { return Err("more numbers than written".into()); }
    o.evals += vals.len() as u64;
    o.count("numbers checked", vals.len() as u64);
    Ok(())
}

fn int_ok(v: i32, t: &str) -> bool { is_integer(t) && t.parse::<i64>() == Ok(v as i64) }
fn f_ok(v: f32, t: &str) -> bool { is_number(t) && t.parse::<f32>() == Ok(v) }

pub fn c05(x: &Ctx) {
    x.rule(&format!("Integers, floats, booleans, null, references, rectangles from edge values, every exponent, decimal fractions and random bits. {RULE_TAIL} Blocks of numbers are additionally checked token by token; thorough covers all 2^32 integers and all finite floats that way."));
    x.assume("floats are finite: PDF has no notation for NaN or infinities");
    x.assume("std's f32 parser rounds correctly");
    // edges, one by one
    let edges: Vec<Prim> = INT_EDGES.iter().map(|&i| Prim::Int(i))
        .chain(INT_EDGES.iter().filter(|i| **i > 0).map(|&i| Prim::Ref(Ref::new(i))))
        .chain(FLOAT_EDGES.iter().flat_map(|&f| (-4..=4).map(move |d| f32::from_bits((f.to_bits() as i32).wrapping_add(d) as u32))).filter(|f| f.is_finite()).map(Prim::F))
        .chain([Prim::Bool(true), Prim::Bool(false), Prim::Null]).collect();
    x.exhaust("edges", edges.len() as u64 * 8, |c, r, o| embed(&edges[c as usize / 8], r, o));
    x.cases("random", 300_000, 6_000_000, |_, r, o| {
        let k = *r.pick(&[0, 1, 1, 2, 2, 2, 5, 6, 6, 7]);
        let p = Prim::of_kind(r, k);
        embed(&p, r, o)
    });
    const B: u64 = 1 << 16;
    if x.thorough {
        x.exhaust("all-ints", 1 << 16, |c, r, o| {
            let vals: Vec<i32> = (0..B).map(|i| (c * B + i) as u32 as i32).collect();
            o.eval(hash(&("i", c)), true);
            number_block(&vals, r.bool(), int_ok, |v| v.to_string(), o)
        });
        x.exhaust("all-floats", 1 << 16, |c, r, o| {
            let vals: Vec<f32> = (0..B).map(|i| f32::from_bits((c * B + i) as u32)).filter(|f| f.is_finite()).collect();
            o.eval(hash(&("f", c)), true);
            number_block(&vals, r.bool(), f_ok, |v| format!("{v:e}"), o)
        });
    } else {
        x.cases("int-blocks", 200, 0, |c, r, o| {
            let vals: Vec<i32> = match c % 4 {
                0 => { let base = *r.pick(&INT_EDGES); (0..4096).map(|i| base.wrapping_add(i - 2048)).collect() }
                1 => (0..20000).map(|_| r.next() as i32).collect(),
                2 => { let base = r.next() as i32; (0..8000).map(|i| base.wrapping_add((i as i32).wrapping_mul(537_911))).collect() }
                _ => (0..8000).map(|_| r.int()).collect(),
            };
            o.eval(hash(&vals), true);
            number_block(&vals, r.bool(), int_ok, |v| v.to_string(), o)
        });
        x.cases("float-blocks", 600, 0, |c, r, o| {
            // case c: exponent c%256, dense and random mantissas; otherwise decimals
            let vals: Vec<f32> = if c < 512 {
                let e = (c % 256) as u32;
                (0..12000u32).map(|i| {
                    let m = match i % 4 { 0 => i / 4, 1 => 0x7f_ffff - i / 4, _ => r.next() as u32 & 0x7f_ffff };
                    f32::from_bits((e << 23) | m | if r.bool() { 1 << 31 } else { 0 })
                }).filter(|f| f.is_finite()).collect()
            } else if c < 560 {
                let d = 10f64.powi(r.range(0, 7) as i32);
                (0..12000).map(|_| (r.range(-99_999_999, 99_999_999) as f64 / d) as f32).collect()
            } else {
                let e = *r.pick(&FLOAT_EDGES);
                (0..4000).map(|i| f32::from_bits((e.to_bits() as i32).wrapping_add(i - 2000) as u32)).filter(|f| f.is_finite()).collect()
            };
            o.eval(hash(&(c, vals.len())), true);
            number_block(&vals, r.bool(), f_ok, |v| format!("{v:e}"), o)
        });
    }
    // references in blocks, every digit length
    x.cases("refs", 100, 3000, |_, r, o| {
        let rs: Vec<Ref> = (0..500).map(|_| { let d = r.range(1, 31); Ref::new(((r.next() & ((1u64 << d) - 1)) as i32).max(1)) }).collect();
        let mut c = Chunk::with_settings(settings(r.bool()));
        c.indirect(Ref::new(1)).array().typed().items(it(rs.iter().copied()));
        let (ob, _) = parse_body(c.as_bytes())?;
        let exp: V = rs.clone().into();
        if let Some(d) = diff(&exp, &ob[0].v, true) { return Err(d); }
        for r in &rs { if r.get() != Ref::new(r.get()).get() { return Err("Ref::get".into()); } }
        o.eval(hash(&format!("{rs:?}")), true);
        o.count("references checked", 500);
        Ok(())
    });
    x.require("numbers checked", 1_000_000);
    x.require("positions judged", 50_000);
    x.require("adjacent kind pairs", 200);
}

/// Write many byte strings/names in one array and compare.
fn str_block(vals: &[Vec<u8>], names: bool, pretty: bool, o: &mut Obs) -> R<()> {
    let mut c = Chunk::with_settings(settings(pretty));
    {
        let mut a = c.indirect(Ref::new(1)).array();
        for v in vals { if names { a.item(Name(v)); } else { a.item(Str(v)); } }
    }
    let exp = V::Arr(vals.iter().map(|v| if names { nmb(v) } else { st(v) }).collect());
    let (ob, stats) = parse_body(c.as_bytes())?;
    visible(&stats, c.as_bytes())?;
    if ob.len() != 1 { return Err(format!("one object written, {} found", ob.len())); }
    if let Some(d) = diff(&exp, &ob[0].v, true) { return Err(format!("pretty={pretty}: {d}")); }
    o.evals += vals.len() as u64;
    o.count(if names { "names checked" } else { "strings checked" }, vals.len() as u64);
    Ok(())
}

pub fn c06(x: &Ctx) {
    x.rule(&format!("All one- and two-byte sequences and all sequences over small alphabets of quoting characters, as strings and as names; random and hostile longer ones. {RULE_TAIL} Blocks put thousands of values next to each other in one array."));
    x.exhaust("bytes1", 256 * 8, |c, r, o| {
        let v = vec![(c / 8) as u8];
        embed(&if c % 2 == 0 { Prim::Str(v) } else { Prim::Name(v) }, r, o)
    });
    x.exhaust("bytes2", 256 * 2, |c, r, o| {
        let vals: Vec<Vec<u8>> = (0..256).map(|b| vec![(c / 2) as u8, b as u8]).collect();
        o.eval(hash(&vals), true);
        str_block(&vals, c % 2 == 0, r.bool(), o)
    });
    // all words over the quoting alphabet
    let enumerate = |alpha: &'static [u8], len: u32| -> Vec<Vec<u8>> {
        let n = (alpha.len() as u64).pow(len);
        (0..n).map(|mut i| (0..len).map(|_| { let b = alpha[(i % alpha.len() as u64) as usize]; i /= alpha.len() as u64; b }).collect()).collect()
    };
    x.exhaust("words", 2 * 10, |c, r, o| {
        let names = c % 2 == 1;
        let words = match c / 2 {
            0 => enumerate(b"()\\", 1), 1 => enumerate(b"()\\a", 3), 2 => enumerate(b"()\\n0", 4), 3 => enumerate(b"()\\", 7),
            4 => enumerate(b"()", 12), 5 => enumerate(b"#/A4 (", 5), 6 => enumerate(b"\\\n\r017", 5), 7 => enumerate(b"<>\x80(", 5),
            8 => enumerate(b"%R 0#", 5), _ => enumerate(b"#2F", 6),
        };
        for ch in words.chunks(2000) { o.eval(hash(ch), true); str_block(ch, names, r.bool(), o)?; }
        Ok(())
    });
    x.cases("random", 300_000, 6_000_000, |_, r, o| {
        let p = if r.bool() { Prim::Str(r.bytes()) } else { Prim::Name(r.name()) };
        embed(&p, r, o)
    });
    x.cases("long", 60, 1200, |c, r, o| {
        let n = match c % 4 { 0 => 70_000, 1 => 33_000, 2 => r.below(5000), _ => 128 + r.below(200) };
        let m = r.below(5);
        let v: Vec<u8> = (0..n).map(|_| match m { 0 => b'(', 1 => r.next() as u8, 2 => *r.pick(b"()\\"), 3 => r.next() as u8 & 0x7f, _ => b'a' }).collect();
        o.max("longest value", n as u64);
        embed(&Prim::Str(v.clone()), r, o)?;
        embed(&Prim::Name(v), r, o)
    });
    // Long runs: every count of openings and closings around the likely thresholds.
    x.exhaust("runs", 1100 + 40, |c, r, o| {
        let big = [2047usize, 2048, 4095, 4096, 8191, 16384, 32767, 32768, 65535, 65536, 65537, 131072];
        let n = if c < 1100 { c as usize } else { big[c as usize % big.len()] + r.below(2) };
        let rep = |b: &[u8], n: usize| b.repeat(n);
        let mut vals = vec![rep(b"(", n), rep(b")", n), rep(b"\\", n), rep(b"()", n), rep(b"\x00", n), rep(b"#", n), rep(b"\xff", n)];
        for (a, b) in [(n, n), (n, n + 1), (n + 1, n), (n, 1), (1, n), (n, r.below(n + 1))] {
            vals.push([rep(b"(", a), rep(b")", b)].concat());
            vals.push([rep(b")", a), rep(b"(", b)].concat());
            vals.push([rep(b"(", a), b"x".to_vec(), rep(b")", b), b"y".to_vec()].concat());
            vals.push([rep(b"(", a), b"\x80".to_vec(), rep(b")", b)].concat());
        }
        // A hostile byte at the end and in the middle of something long.
        for b in [b'(', b')', b'\\', b'\r', b'\n', 0, 0x80, b'#', b' '] {
            let mut v = rep(b"a", n);
            v.push(b);
            vals.push(v.clone());
            let at = r.below(n + 1);
            v.insert(at, b);
            vals.push(v);
        }
        o.eval(hash(&n), true);
        o.max("longest value", n as u64 * 2);
        str_block(&vals, false, r.bool(), o)?;
        str_block(&vals, true, r.bool(), o)
    });
    // every kind of neighbour on both sides, including the empty name
    x.exhaust("neighbours", (KINDS * 2 * 40) as u64, |c, r, o| {
        let k = (c as usize / 2) % KINDS;
        let other = Prim::of_kind(r, k);
        let me = if r.bool() { Prim::Name(if r.bool() { vec![] } else { r.name() }) } else { Prim::Str(if r.bool() { vec![] } else { r.bytes() }) };
        let seq = if c % 2 == 0 { vec![me, other] } else { vec![other, me] };
        for pretty in [false, true] {
            let mut c = Chunk::with_settings(settings(pretty));
            { let mut a = c.indirect(Ref::new(1)).array(); for p in &seq { p.put(Item(&mut a)); } }
            { let mut d = c.indirect(Ref::new(2)).dict(); for p in &seq { p.put(Pair(&mut d, b"")); } }
            let mut ct = Content::with_settings(settings(pretty));
            { let mut op = ct.op("Do"); for p in &seq { p.put(Operand(&mut op)); } }
            let (ob, _) = parse_body(c.as_bytes()).map_err(|e| format!("{seq:?}: {e}"))?;
            let ex: Vec<V> = seq.iter().map(Prim::exp).collect();
            let exps = [V::Arr(ex.clone()), V::Dict(ex.iter().map(|v| (vec![], v.clone())).collect())];
            if ob.len() != 2 { return Err(format!("{seq:?}: {} objects", ob.len())); }
            for (e, g) in exps.iter().zip(&ob) {
                if let Some(d) = diff(e, &g.v, true) { return Err(format!("{seq:?} pretty={pretty}: {d}; written {}", esc(c.as_bytes()))); }
            }
            let b = ct.finish();
            let (ops, _) = parse_content(b.as_slice())?;
            if ops.len() != 1 || ops[0].op != b"Do" { return Err(format!("{seq:?} pretty={pretty}: content {}", esc(b.as_slice()))); }
            if let Some(d) = diff(&V::Arr(ex), &V::Arr(ops[0].operands.clone()), true) { return Err(format!("{seq:?} pretty={pretty}: {d}")); }
            o.seen("adjacent kind pairs", hash(&(seq[0].kind(), seq[1].kind(), pretty)));
        }
        o.eval(hash(&format!("{seq:?}")), true);
        Ok(())
    });
    x.require("strings checked", 50_000);
    x.require("names checked", 50_000);
    x.require("adjacent kind pairs", 200);
}

pub fn c07(x: &Ctx) {
    x.rule(&format!("Every Unicode scalar value (alone, quick: in blocks), random texts mixing ASCII, controls, BMP and astral characters, random language-tagged sequences, and dates over all presence patterns and in/out-of-range fields. {RULE_TAIL}"));
    x.assume("U+001B is excluded: the format reserves it for language escapes (documented)");
    x.cases("text", 200_000, 5_000_000, |_, r, o| embed(&Prim::Text(r.text()), r, o));
    x.cases("lang", 60_000, 2_000_000, |_, r, o| embed(&Prim::of_kind(&mut r.fork(), 9), r, o));
    x.cases("date", 200_000, 5_000_000, |_, r, o| embed(&Prim::of_kind(&mut r.fork(), 10), r, o));
    // every scalar value, alone and surrounded
    x.exhaust("scalars", 0x110000 / 0x400, |c, r, o| {
        let lo = c as u32 * 0x400;
        let chars: Vec<char> = (lo..lo + 0x400).filter_map(char::from_u32).filter(|&c| c != '\u{1b}').collect();
        let (a, b) = (*r.pick(&["", "a", "é", "(", "\u{10ffff}"]), *r.pick(&["", "a", "\\", ")", "é"]));
        let texts: Vec<String> = chars.iter().flat_map(|ch| [ch.to_string(), format!("{a}{ch}{b}")]).collect();
        let mut k = Chunk::with_settings(settings(r.bool()));
        { let mut arr = k.indirect(Ref::new(1)).array(); for t in &texts { arr.item(TextStr(t)); } }
        let (ob, _) = parse_body(k.as_bytes())?;
        if let Some(d) = diff(&V::Arr(texts.iter().map(|t| tx(t)).collect()), &ob[0].v, true) { return Err(d); }
        o.evals += texts.len() as u64;
        o.eval(hash(&("s", c)), true);
        o.count("scalar values checked", chars.len() as u64);
        Ok(())
    });
    // Texts of every length up to some hundreds, and around larger thresholds.
    x.exhaust("text lengths", 700 + 30, |c, r, o| {
        let big = [1023usize, 2047, 4095, 8191, 16383, 32767, 65534];
        let n = if c < 700 { c as usize } else { big[c as usize % big.len()] + r.below(3) };
        let texts: Vec<String> = ["a", "\u{7f}", "(", "é", "\u{ffff}", "\u{10ffff}", "\\"].iter().flat_map(|s| {
            let t = s.repeat(n);
            let (mut u, mut v) = (t.clone(), "b".repeat(n));
            u.push('Z');
            v.push_str(s);
            [t, u, v]
        }).collect();
        let mut k = Chunk::with_settings(settings(r.bool()));
        { let mut arr = k.indirect(Ref::new(1)).array(); for t in &texts { arr.item(TextStr(t)); } }
        let langs: Vec<Vec<([u8; 2], Option<[u8; 2]>, String)>> = texts.iter().map(|t| { let (l, g) = r.lang_parts(); vec![(l, g, t.clone()), (*b"en", None, "x".into())] }).collect();
        { let mut arr = k.indirect(Ref::new(2)).array(); for l in &langs { Prim::Lang(l.clone()).put(Item(&mut arr)); } }
        let (ob, _) = parse_body(k.as_bytes())?;
        if ob.len() != 2 { return Err(format!("{} objects", ob.len())); }
        if let Some(d) = diff(&V::Arr(texts.iter().map(|t| tx(t)).collect()), &ob[0].v, true) { return Err(d); }
        if let Some(d) = diff(&V::Arr(langs.into_iter().map(V::Lang).collect()), &ob[1].v, true) { return Err(d); }
        o.evals += 2 * texts.len() as u64;
        o.max("longest text", n as u64 + 1);
        o.eval(hash(&("t", n)), true);
        Ok(())
    });
    // many language runs in one text
    x.exhaust("language runs", 320, |c, r, o| {
        let v: Vec<_> = (0..c).map(|_| { let (l, g) = r.lang_parts(); (l, g, if r.bool() { r.text() } else { String::new() }) }).collect();
        embed(&Prim::Lang(v), r, o)
    });
    // dates: every value of every field, every presence pattern
    x.exhaust("date-fields", 256 * 7, |c, r, o| {
        let (f, v) = ((c / 256) as usize, (c % 256) as u8);
        for mask in 0..128u32 {
            let has = |i: u32| mask & (1 << i) != 0;
            let base = |r: &mut Rng, lo: i64, hi: i64| r.range(lo, hi) as u8;
            let mut fl = [base(r, 1, 12), base(r, 1, 31), base(r, 0, 23), base(r, 0, 59), base(r, 0, 59), base(r, 0, 14), base(r, 0, 59)];
            fl[f] = v;
            let y = if r.chance(1, 4) { r.next() as u16 } else { 2024 };
            let mut d = Date::new(y);
            if has(0) { d = d.month(fl[0]); }
            if has(1) { d = d.day(fl[1]); }
            if has(2) { d = d.hour(fl[2]); }
            if has(3) { d = d.minute(fl[3]); }
            if has(4) { d = d.second(fl[4]); }
            if has(5) { d = d.utc_offset_hour(fl[5] as i8); }
            if has(6) { d = d.utc_offset_minute(fl[6]); }
            let opt = |i: usize| if has(i as u32) { Some(fl[i]) } else { None };
            let exp = expected_date(y, opt(0), opt(1), opt(2), opt(3), opt(4), opt(5).map(|x| x as i8), opt(6));
            let mut k = Chunk::with_settings(settings(r.bool()));
            k.indirect(Ref::new(1)).primitive(d);
            let (ob, _) = parse_body(k.as_bytes())?;
            if let Some(df) = diff(&V::Str(exp), &ob[0].v, true) { return Err(format!("year {y} fields {fl:?} present {mask:07b}: {df}")); }
            o.evals += 1;
        }
        o.eval(hash(&("d", c)), true);
        o.count("dates checked", 128);
        Ok(())
    });
    // every year
    x.exhaust("years", 64, |c, _, o| {
        for y in (c as u32 * 1024)..(c as u32 + 1) * 1024 {
            let mut k = Chunk::new();
            k.indirect(Ref::new(1)).primitive(Date::new(y as u16));
            let (ob, _) = parse_body(k.as_bytes())?;
            if let Some(df) = diff(&V::Str(expected_date(y as u16, None, None, None, None, None, None, None)), &ob[0].v, true) { return Err(df); }
        }
        o.eval(hash(&("y", c)), true);
        o.count("dates checked", 1024);
        Ok(())
    });
    // language identifiers: validation of the string constructors
    x.cases("lang-ids", 4000, 100_000, |_, r, o| {
        let pool = ["", "e", "en", "EN", "e1", "eng", "é", "éé", "e-", "  ", "de", "0x", "\u{1f600}", "Z9", "a\u{301}", "en "];
        let (l, g) = (*r.pick(&pool), *r.pick(&pool));
        let valid = |s: &str| s.len() == 2 && s.bytes().all(|b| b.is_ascii_alphanumeric());
        if LanguageIdentifier::from_lang(l).is_some() != valid(l) { return Err(format!("from_lang({l:?})")); }
        if LanguageIdentifier::from_lang_region(l, g).is_some() != (valid(l) && valid(g)) { return Err(format!("from_lang_region({l:?},{g:?})")); }
        let two = |s: &str| { let b = s.as_bytes(); [b[0], b[1]] };
        let t = r.text();
        if let Some(id) = LanguageIdentifier::from_lang(l) {
            let mut k = Chunk::new();
            k.indirect(Ref::new(1)).primitive(TextStrWithLang(&[(id, &t)]));
            let (ob, _) = parse_body(k.as_bytes())?;
            if let Some(d) = diff(&V::Lang(vec![(two(l), None, t.clone())]), &ob[0].v, true) { return Err(d); }
        }
        if let Some(id) = LanguageIdentifier::from_lang_region(l, g) {
            let mut k = Chunk::new();
            k.indirect(Ref::new(1)).primitive(TextStrWithLang(&[(id, &t)]));
            let (ob, _) = parse_body(k.as_bytes())?;
            if let Some(d) = diff(&V::Lang(vec![(two(l), Some(two(g)), t.clone())]), &ob[0].v, true) { return Err(d); }
        }
        o.eval(hash(&(l, g, &t)), true);
        Ok(())
    });
    x.require("scalar values checked", 1_000_000);
    x.require("dates checked", 200_000);
    x.require("positions judged", 100_000);
}
