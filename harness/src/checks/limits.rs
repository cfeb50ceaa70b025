//! C15: the reported limits against the maxima found by parsing what was written.

use crate::checks::content;
use crate::checks::typed;
use crate::mon::{hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;

/// What the parser found.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Lim { int_lo: i64, int_hi: i64, real: f32, name: usize, str: usize, arr: usize, dict: usize }

fn clamp(x: i64) -> i64 { x.min(i32::MAX as i64) }
/// The largest integer among the values themselves (without references and object numbers).
fn ints(v: &V) -> i64 {
    match v {
        V::Num(t) if is_integer(t) => { let x = t.parse::<i64>().unwrap_or(i64::MAX).unsigned_abs() as i64; if x <= 1 << 31 { x } else { 0 } }
        V::Arr(a) => a.iter().map(ints).max().unwrap_or(0),
        V::Dict(d) => d.iter().map(|x| ints(&x.1)).max().unwrap_or(0),
        _ => 0,
    }
}
fn of(st: &Stats, int_lo: i64) -> Lim {
    // Whether the numbers inside references and object headers count as integers is not specified:
    // the reported value may or may not include them.
    Lim { int_lo: clamp(int_lo), int_hi: clamp(st.max_int), real: st.max_real, name: st.max_name, str: st.max_str, arr: st.max_arr, dict: st.max_dict }
}
fn max(a: Lim, b: Lim) -> Lim {
    Lim { int_lo: a.int_lo.max(b.int_lo), int_hi: a.int_hi.max(b.int_hi), real: a.real.max(b.real), name: a.name.max(b.name), str: a.str.max(b.str), arr: a.arr.max(b.arr), dict: a.dict.max(b.dict) }
}
fn exact(l: &Limits) -> Lim {
    Lim { int_lo: l.int() as i64, int_hi: l.int() as i64, real: l.real(), name: l.name_len(), str: l.str_len(), arr: l.array_len(), dict: l.dict_entries() }
}
fn agree(what: &str, l: &Limits, w: Lim) -> R<()> {
    let bad = |f: &str, got: String, want: String| Err(format!("{what}: {f} is reported as {got}, but the largest written is {want}"));
    if (l.int() as i64) < w.int_lo || l.int() as i64 > w.int_hi { return bad("int", l.int().to_string(), format!("{} (up to {} with object numbers)", w.int_lo, w.int_hi)); }
    if l.real() != w.real { return bad("real", l.real().to_string(), w.real.to_string()); }
    if l.name_len() != w.name { return bad("name_len", l.name_len().to_string(), w.name.to_string()); }
    if l.str_len() != w.str { return bad("str_len", l.str_len().to_string(), w.str.to_string()); }
    if l.array_len() != w.arr { return bad("array_len", l.array_len().to_string(), w.arr.to_string()); }
    if l.dict_entries() != w.dict { return bad("dict_entries", l.dict_entries().to_string(), w.dict.to_string()); }
    Ok(())
}
/// Every field at least that of `w`, at most that of `hi`.
fn between(what: &str, l: &Limits, lo: Lim, hi: Lim) -> R<()> {
    let g = exact(l);
    let ok = g.int_lo >= lo.int_lo && g.int_lo <= hi.int_hi && g.real >= lo.real && g.real <= hi.real && g.name >= lo.name && g.name <= hi.name
        && g.str >= lo.str && g.str <= hi.str && g.arr >= lo.arr && g.arr <= hi.arr && g.dict >= lo.dict && g.dict <= hi.dict;
    if ok { Ok(()) } else { Err(format!("{what}: {g:?} is not between {lo:?} and {hi:?}")) }
}

fn chunk_limits(bytes: &[u8]) -> R<Lim> {
    let (objs, st) = parse_body(bytes)?;
    Ok(of(&st, objs.iter().map(|o| ints(&o.v)).max().unwrap_or(0)))
}
fn content_limits(bytes: &[u8]) -> R<Lim> {
    let (ops, st) = parse_content(bytes)?;
    Ok(of(&st, ops.iter().flat_map(|o| &o.operands).map(ints).max().unwrap_or(0)))
}

/// A chunk of random object trees, primitives and typed writers; now and then with something long.
fn random_chunk(r: &mut Rng) -> Chunk {
    let pretty = r.bool();
    let mut c = match r.below(3) { 0 => typed::random_chunk(r, pretty), _ => Chunk::with_settings(settings(pretty)) };
    for i in 0..r.len(4) {
        let id = Ref::new(1000 + i as i32);
        match r.below(6) {
            0 => { let p = Prim::random(r); p.put(IntoObj(c.indirect(id))); }
            1 => { let d = r.bytes(); let mut s = c.stream(id, &d); for _ in 0..r.len(6) { let k = r.name(); let p = Prim::random(r); p.put(Pair(&mut s, &k)); } }
            2 => { let n = r.below(300); let x = r.f(); c.indirect(id).array().items(it((0..n).map(|_| x))); }
            3 => { let n = r.below(200); let k = r.name(); let mut d = c.indirect(id).dict(); for i in 0..n { d.pair(Name(&k), i as i32); } }
            _ => { let mut b = 12; let t = Tree::random(r, &mut b, 5); t.put(c.indirect(id)); }
        }
    }
    c
}
fn note(o: &mut Obs, l: Lim) {
    o.seen("distinct limits", hash(&format!("{l:?}")));
    o.max("int", l.int_hi as u64);
    o.max("name length", l.name as u64);
    o.max("string length", l.str as u64);
    o.max("array length", l.arr as u64);
    o.max("dictionary entries", l.dict as u64);
    if l.real > 1e30 { o.count("reals above 1e30", 1); }
}
fn random_content(r: &mut Rng) -> R<(Vec<u8>, Limits, Lim)> {
    let mut c = Content::with_settings(settings(r.bool()));
    let n = r.len(12);
    content::program(&mut c, &mut content::env(r), n, |_, _, _, _| Ok(()))?;
    let b = c.finish();
    let l = content_limits(b.as_slice())?;
    let lim = b.limits().clone();
    Ok((b.into_vec(), lim, l))
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("at least one of the six limits was not zero");
    ctx.assume("object numbers, in references and object headers, may or may not count as integers");
    ctx.assume("after renumbering, limits may still cover the old object numbers");
    // Each kind of primitive alone: nothing else can hide a missing registration.
    ctx.cases("single values", 60_000, 1_000_000, |i, r, o| {
        let p = Prim::of_kind(r, i as usize % KINDS);
        let pretty = r.bool();
        if r.bool() {
            let mut c = Chunk::with_settings(settings(pretty));
            p.put(IntoObj(c.indirect(Ref::new(1))));
            let l = chunk_limits(c.as_bytes())?;
            agree(&format!("chunk with {p:?}"), c.limits(), l)?;
            note(o, l);
        } else {
            let mut c = Content::with_settings(settings(pretty));
            p.put(Operand(&mut c.op("x")));
            let b = c.finish();
            let l = content_limits(b.as_slice())?;
            agree(&format!("content with {p:?}"), b.limits(), l)?;
            note(o, l);
        }
        o.seen("kinds", hash(p.kind()));
        o.eval(hash(&format!("{p:?}")), true);
        Ok(())
    });
    ctx.cases("chunks", 40_000, 1_000_000, |_, r, o| {
        let c = random_chunk(r);
        let l = chunk_limits(c.as_bytes())?;
        agree("chunk", c.limits(), l).map_err(|m| format!("{m}\nin {}", esc(c.as_bytes())))?;
        note(o, l);
        o.count("chunks", 1);
        o.eval(hash(c.as_bytes()), l != Lim::default());
        Ok(())
    });
    // Containers that end because a panic unwinds count, too.
    ctx.cases("unwinding", 10_000, 200_000, |_, r, o| {
        let c = super::tree::unwound_chunk(r, o);
        let l = chunk_limits(c.as_bytes())?;
        agree("chunk after unwinding", c.limits(), l).map_err(|m| format!("{m}\nin {}", esc(c.as_bytes())))?;
        o.count("unwound chunks", 1);
        o.eval(hash(c.as_bytes()), l != Lim::default());
        Ok(())
    });
    ctx.cases("content streams", 40_000, 1_000_000, |_, r, o| {
        let (b, lim, l) = random_content(r)?;
        agree("content stream", &lim, l).map_err(|m| format!("{m}\nin {}", esc(&b)))?;
        note(o, l);
        o.count("content streams", 1);
        o.eval(hash(&b), l != Lim::default());
        Ok(())
    });
    ctx.cases("merging, extending, renumbering", 30_000, 600_000, |_, r, o| {
        let (a, b) = (random_chunk(r), random_chunk(r));
        let (la, lb) = (exact(a.limits()), exact(b.limits()));
        let both = max(la, lb);
        // Merging limit records.
        let mut m = a.limits().clone();
        m.merge(b.limits());
        agree("Limits::merge", &m, both)?;
        let mut m = Limits::new();
        agree("Limits::new", &m, Lim::default())?;
        m.merge(a.limits());
        if m != *a.limits() { return Err(format!("merging into empty limits gives {m:?} from {:?}", a.limits())); }
        m.merge(&Limits::default());
        if m != *a.limits() { return Err("merging empty limits changed the limits".into()); }
        // Merging into a chunk, a content stream's for instance.
        let (_, lc, _) = random_content(r)?;
        let mut c = a.clone();
        c.merge_limits(&lc);
        agree("Chunk::merge_limits", c.limits(), max(la, exact(&lc)))?;
        if c.as_bytes() != a.as_bytes() { return Err("merge_limits changed the bytes".into()); }
        // Extending.
        let mut c = a.clone();
        if exact(c.limits()) != la { return Err("a clone has other limits".into()); }
        c.extend(&b);
        agree("Chunk::extend", c.limits(), both)?;
        if exact(b.limits()) != lb { return Err("extend changed the limits of its argument".into()); }
        // A document is a chunk.
        let mut pdf = Pdf::with_settings(settings(r.bool()));
        pdf.extend(&a);
        agree("Pdf::extend", pdf.limits(), la)?;
        pdf.merge_limits(b.limits());
        agree("Pdf::merge_limits", pdf.limits(), both)?;
        // Renumbering: at least everything that is in the result, at most that and what was involved.
        let shift = r.range(0, 1_000_000) as i32;
        let f = |x: Ref| Ref::new(x.get().saturating_add(shift));
        let c = b.renumber(f);
        let found = chunk_limits(c.as_bytes())?;
        between("Chunk::renumber", c.limits(), max(Lim { int_lo: found.int_lo, ..found }, lb), max(found, lb))?;
        let mut c = a.clone();
        b.renumber_into(&mut c, f);
        let found = chunk_limits(&c.as_bytes()[a.len()..])?;
        between("Chunk::renumber_into", c.limits(), max(found, both), max(found, both))?;
        o.count("combinations", 1);
        o.eval(hash(&(a.as_bytes(), b.as_bytes())), both != Lim::default());
        Ok(())
    });
    // Histories over a pool of chunks, some of them without objects but with limits.
    ctx.cases("histories", 30_000, 500_000, |_, r, o| {
        let mut pool: Vec<(Chunk, Lim)> = (0..2 + r.below(3)).map(|_| (Chunk::with_settings(settings(r.bool())), Lim::default())).collect();
        let mut log: Vec<(usize, usize, usize)> = vec![];
        for step in 0..2 + r.len(12) {
            let (i, j, what) = (r.below(pool.len()), r.below(pool.len()), r.below(8));
            log.push((what, i, j));
            match what {
                0..=2 => {
                    let (c, m) = &mut pool[i];
                    let old = c.len();
                    let id = Ref::new(step as i32 + 1);
                    if what == 0 { let p = Prim::random(r); p.put(IntoObj(c.indirect(id))) } else { let mut b = 3; Tree::random(r, &mut b, 3).put(c.indirect(id)) }
                    *m = max(*m, chunk_limits(&c.as_bytes()[old..])?);
                }
                3 | 4 => {
                    let (_, lim, l) = random_content(r)?;
                    pool[i].0.merge_limits(&lim);
                    pool[i].1 = max(pool[i].1, l);
                    o.count("merged content limits", 1);
                }
                5 | 6 => {
                    if pool[i].0.len() + pool[j].0.len() > 40_000 { continue; }
                    let (src, l) = pool[j].clone();
                    if src.refs().len() == 0 && l != Lim::default() { o.count("extensions by limits alone", 1); }
                    pool[i].0.extend(&src);
                    pool[i].1 = max(pool[i].1, l);
                }
                _ => {
                    if pool[i].0.len() + pool[j].0.len() > 40_000 { continue; }
                    let (src, l) = pool[j].clone();
                    src.renumber_into(&mut pool[i].0, |x| x);
                    pool[i].1 = max(pool[i].1, l);
                }
            }
            for (k, (c, m)) in pool.iter().enumerate() { agree(&format!("chunk {k}"), c.limits(), *m).map_err(|e| format!("{e}: {log:?}"))?; }
        }
        let mut pdf = Pdf::new();
        let mut all = Lim::default();
        for (c, m) in &pool { pdf.extend(c); all = max(all, *m); }
        agree("document", pdf.limits(), all)?;
        o.count("histories", 1);
        o.eval(hash(&(&log, pdf.as_bytes())), all != Lim::default());
        Ok(())
    });
    // Each limit alone, at and around every likely threshold.
    ctx.exhaust("sizes", 30 * 12, |i, r, o| {
        let n = [1usize, 2, 10, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8191, 8192, 8193, 10_000, 16_384, 32_766, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072, 200_001][i as usize / 12];
        let pretty = r.bool();
        let fill = vec![*r.pick(b"x \xff"); n];
        let text: String = std::iter::repeat(*r.pick(&['x', '\u{e4}', '\u{10000}'])).take(n).collect();
        let put = |obj: Obj| match i % 6 {
            0 => obj.primitive(Str(&fill)),
            1 => obj.primitive(Name(&fill)),
            2 => { obj.array().items((0..n).map(|_| Null)); }
            3 => { let mut d = obj.dict(); for _ in 0..n { d.pair(Name(b"K"), Null); } }
            4 => obj.primitive(TextStr(&text)),
            _ => { let mut a = obj.array(); for k in 0..n.min(3000) { a.push().array().items((0..k % 7).map(|_| true)); } }
        };
        let (lim, l) = if i % 12 < 6 {
            let mut c = Chunk::with_settings(settings(pretty));
            put(c.indirect(Ref::new(1)));
            (c.limits().clone(), chunk_limits(c.as_bytes())?)
        } else {
            let mut c = Content::with_settings(settings(pretty));
            put(c.op("x").obj());
            let b = c.finish();
            (b.limits().clone(), content_limits(b.as_slice())?)
        };
        agree(&format!("{n} of kind {}", i % 6), &lim, l)?;
        note(o, l);
        o.max("size", n as u64);
        o.eval(hash(&("size", i)), l != Lim::default());
        Ok(())
    });
    ctx.require("unwound chunks", 1000);
    ctx.require("extensions by limits alone", 100);
    ctx.require("kinds", KINDS as u64);
    ctx.require("distinct limits", 10_000);
    ctx.require("reals above 1e30", 10);
}
