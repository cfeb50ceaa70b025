//! C12, C13: renumbering.

use crate::checks::doc::{finish, gen_ids, stream_data, Doc, Fin, What, STREAM_WRITERS};
use crate::mon::{hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;
use std::collections::BTreeMap;

/// A token of the source or result, verbatim.
#[derive(Debug, PartialEq, Clone)]
enum Raw { Tok(Vec<u8>), Ref(i64, i64), Data(Vec<u8>) }

/// Verbatim tokens of every object (id, tokens), found independently of the library's scanner.
fn raw_objects(b: &[u8]) -> R<Vec<(i64, Vec<Raw>)>> {
    let (obs, _) = parse_body(b)?;
    let mut out = vec![];
    for (i, ob) in obs.iter().enumerate() {
        let end = match ob.data_at { Some((s, _)) => s, None => obs.get(i + 1).map_or(b.len(), |n| n.start) };
        let mut p = P::at(&b[..end], ob.start);
        let mut toks: Vec<Raw> = vec![];
        let mut n = 0;
        loop {
            p.skip();
            let s = p.pos;
            let t = p.tok()?;
            if t == Tok::Eof { break; }
            n += 1;
            if n <= 3 { continue; } // header
            let raw = b[s..p.pos].to_vec();
            if t == Tok::Word(b"R".to_vec()) {
                let (Some(Raw::Tok(g)), Some(Raw::Tok(id))) = (toks.pop(), toks.pop()) else { return Err("R without numbers".into()) };
                let f = |x: &[u8]| String::from_utf8_lossy(x).parse::<i64>().map_err(|_| format!("reference with {:?}", esc(x)));
                toks.push(Raw::Ref(f(&id)?, f(&g)?));
            } else {
                toks.push(Raw::Tok(raw));
            }
        }
        if let Some(d) = &ob.data { toks.push(Raw::Data(d.clone())); }
        out.push((ob.id, toks));
    }
    Ok(out)
}

fn occurrences(raw: &[(i64, Vec<Raw>)]) -> Vec<i64> {
    let mut v = vec![];
    for (id, t) in raw {
        v.push(*id);
        v.extend(t.iter().filter_map(|t| if let Raw::Ref(i, _) = t { Some(*i) } else { None }));
    }
    v
}

/// A source chunk full of material that looks like references but is not.
pub fn source(r: &mut Rng, pretty: bool) -> Chunk {
    let mut c = Chunk::with_settings(settings(pretty));
    let n = match r.below(6) { 0 => 0, 1 => 1, _ => 1 + r.len(8) };
    let ids = gen_ids(r, n);
    for id in ids {
        let rid = Ref::new(id);
        match r.below(12) {
            0 => { let p = Prim::random(r); p.put(IntoObj(c.indirect(rid))) }
            1 => c.indirect(rid).primitive(r.rf()),
            2 | 3 => {
                let d = stream_data(r);
                let k = r.len(4);
                let e: Vec<(Vec<u8>, Prim)> = (0..k).map(|_| (r.key(), Prim::random(r))).collect();
                STREAM_WRITERS[r.below(STREAM_WRITERS.len())].1(&mut c, rid, &d, &e);
            }
            4 => { let d = stream_data(r); Doc::write_item(&mut c, id, &What::Stream(d, vec![(r.name(), Tree::random(r, &mut 4, 4)), (b"K".to_vec(), Tree::Dict(vec![(b"stream".to_vec(), Tree::Prim(Prim::Ref(r.rf())))]))])) }
            5 => {
                // dense arrays of numbers, names and references
                let mut a = c.indirect(rid).array();
                for _ in 0..r.len(14) {
                    match r.below(8) {
                        0..=2 => { a.item(r.rf()); }
                        3 => { a.item(r.range(-3, 70000) as i32); }
                        4 => { a.item(Name(*r.pick(&[&b"R"[..], b"", b"1", b"obj", b"endobj", b"stream", b"5 0 R", b"a b", b"7"]))); }
                        5 => { a.item(Str(*r.pick(HOSTILE_STRINGS))); }
                        6 => { a.push().dict().pair(Name(b"R"), r.rf()).pair(Name(b""), r.rf()); }
                        _ => { a.item(r.f()); }
                    }
                }
            }
            6 => {
                let mut d = c.indirect(rid).dict();
                for _ in 0..r.len(9) {
                    let k = match r.below(3) { 0 => r.pick(HOSTILE_NAMES).to_vec(), _ => r.name() };
                    match r.below(6) {
                        0 | 1 => { d.pair(Name(&k), r.rf()); }
                        2 => { let b = r.bytes(); d.pair(Name(&k), Str(&b)); }
                        3 => { d.pair(Name(&k), TextStr(&format!("{} 0 R", r.small()))); }
                        4 => { let n = r.name(); d.pair(Name(&k), Name(&n)); }
                        _ => { d.insert(Name(&k)).array().items([r.int(), r.int()]); }
                    }
                }
            }
            _ => Tree::random(r, &mut 8, 5).put(c.indirect(rid)),
        }
    }
    match r.below(6) {
        // merged from several chunks, possibly of the other layout
        0 => { let other = source(&mut r.fork(), r.bool()); c.extend(&other); c }
        1 => { let mut e = Chunk::with_settings(settings(pretty)); e.extend(&c); e }
        _ => c,
    }
}

/// A writer for anything: see the typed monitors.
fn any_source(r: &mut Rng, pretty: bool) -> Chunk {
    if r.chance(1, 3) { crate::checks::typed::random_chunk(r, pretty) } else { source(r, pretty) }
}

/// Documents are chunks, too: their header, wherever it ends up, belongs to no object.
fn maybe_document(src: Chunk, r: &mut Rng) -> Chunk {
    if !r.chance(1, 8) { return src; }
    let p = r.bool();
    let mut pdf = Pdf::with_settings(settings(p));
    pdf.set_version(1, r.below(10) as u8);
    if r.bool() { pdf.set_binary_marker(b"R(\xff\x80"); }
    pdf.extend(&src);
    match r.below(3) {
        0 => pdf.clone(),
        1 => { let mut c = Chunk::with_settings(settings(p)); c.indirect(Ref::new(1)).primitive(Ref::new(2)); c.extend(&pdf); c }
        _ => { let mut c = pdf.clone(); c.extend(&pdf); c.indirect(Ref::new(9)).array().item(Ref::new(8)); c }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Map { Identity, Offset(i32), Const(i32), Fresh(i32), Memo(i32, i32), Reverse, Big }

fn apply(m: Map, state: &mut (i32, BTreeMap<i32, i32>), id: i32) -> i32 {
    match m {
        Map::Identity => id,
        Map::Offset(o) => id.checked_add(o).unwrap_or(id),
        Map::Const(c) => c,
        // every call gives a new number, so that the result shows which call landed where
        Map::Fresh(s) => { state.0 += 1; s + state.0 }
        Map::Memo(s, step) => { if let Some(v) = state.1.get(&id) { *v } else { state.0 += step; let v = s + state.0; state.1.insert(id, v); v } }
        Map::Reverse => i32::MAX - id + 1,
        Map::Big => i32::MAX - (id % 3),
    }
}
fn random_map(r: &mut Rng) -> Map {
    match r.below(8) {
        0 => Map::Identity,
        1 => Map::Offset(*r.pick(&[1, 9, 90, 1000, 99_999, 2_000_000_000])),
        2 => Map::Const(r.range(1, 3000) as i32),
        3 | 4 => Map::Fresh(*r.pick(&[0, 0, 5, 95, 1_000_000])),
        5 => Map::Memo(*r.pick(&[0, 8, 98, 500]), 1 + r.below(3) as i32),
        6 => Map::Reverse,
        _ => Map::Big,
    }
}

struct Run { log: Vec<i32>, out: Vec<i32> }

fn renumber_logged(src: &Chunk, target: Option<&mut Chunk>, m: Map) -> (Option<Chunk>, Run) {
    let mut run = Run { log: vec![], out: vec![] };
    let mut st = (0, BTreeMap::new());
    let f = |id: Ref| {
        let n = apply(m, &mut st, id.get());
        run.log.push(id.get());
        run.out.push(n);
        Ref::new(n)
    };
    let res = match target { Some(t) => { src.renumber_into(t, f); None } None => Some(src.renumber(f)) };
    (res, run)
}

/// Judge `added` (the bytes appended) against the source and the recorded calls.
fn judge(src: &Chunk, added: &[u8], run: &Run, refs: &[Ref], o: &mut Obs) -> R<()> {
    let raw = raw_objects(src.as_bytes()).map_err(|e| format!("source: {e}"))?;
    let occ = occurrences(&raw);
    let log: Vec<i64> = run.log.iter().map(|&i| i as i64).collect();
    if log != occ { return Err(format!("mapping consulted for {log:?}, but the occurrences are {occ:?}; source {:?}", esc(src.as_bytes()))); }
    let got = raw_objects(added).map_err(|e| format!("result: {e}; source {:?}", esc(src.as_bytes())))?;
    if got.len() != raw.len() { return Err(format!("{} objects became {}", raw.len(), got.len())); }
    let mut k = 0;
    for (i, ((_, st), (gid, gt))) in raw.iter().zip(&got).enumerate() {
        if *gid != run.out[k] as i64 { return Err(format!("object {i} has number {gid}, mapping said {}", run.out[k])); }
        if refs.get(i).map(|r| r.get() as i64) != Some(*gid) { return Err(format!("object list {refs:?} does not name object {gid}")); }
        k += 1;
        if st.len() != gt.len() { return Err(format!("object {i}: {} tokens became {}: {:?}", st.len(), gt.len(), esc(added))); }
        for (a, b) in st.iter().zip(gt) {
            match (a, b) {
                (Raw::Ref(_, g), Raw::Ref(n, h)) => {
                    if *n != run.out[k] as i64 || g != h { return Err(format!("reference became {n} {h}, mapping said {}", run.out[k])); }
                    k += 1;
                    o.count("references compared", 1);
                }
                (Raw::Tok(a), Raw::Tok(b)) if a == b => o.count("other tokens compared verbatim", 1),
                (Raw::Data(a), Raw::Data(b)) if a == b => o.count("stream data compared verbatim", 1),
                (a, b) => return Err(format!("object {i}: {a:?} became {b:?}")),
            }
        }
    }
    if refs.len() != got.len() { return Err(format!("object list has {} entries for {} objects", refs.len(), got.len())); }
    o.count("objects compared", got.len() as u64);
    Ok(())
}

fn ctx_of(src: &Chunk, m: Map) -> String { format!("{m:?}; source {:?}", esc(src.as_bytes())) }

pub fn c12(x: &Ctx) {
    x.rule("Random chunks (trees, dense reference arrays, streams, every typed writer, merged and already renumbered chunks) renumbered by identity, offset, constant, memoised, order-reversing and always-fresh mappings into new and existing targets; every mapping call is logged. Oracle: independent tokenizer finds all reference occurrences; log, object list, every reference and offsets must match. Non-trivial: distinct source with at least one reference.");
    x.cases("renumber", 30_000, 1_000_000, |_, r, o| {
        let src = { let p = r.bool(); let s = any_source(r, p); maybe_document(s, r) };
        let m = random_map(r);
        let nrefs;
        if r.bool() {
            let (c, run) = renumber_logged(&src, None, m);
            let c = c.unwrap();
            judge(&src, c.as_bytes(), &run, &c.refs().collect::<Vec<_>>(), o).map_err(|e| format!("{e}; {}", ctx_of(&src, m)))?;
            nrefs = run.log.len() - c.refs().len();
        } else {
            let p = r.bool();
            let mut t = if r.bool() { Chunk::with_settings(settings(p)) } else { source(r, p) };
            let (old, oldrefs) = (t.as_bytes().to_vec(), t.refs().collect::<Vec<_>>());
            let (_, run) = renumber_logged(&src, Some(&mut t), m);
            let refs: Vec<Ref> = t.refs().collect();
            if refs[..oldrefs.len().min(refs.len())] != oldrefs[..] { return Err("object list of the target was changed".into()); }
            judge(&src, &t.as_bytes()[old.len()..], &run, &refs[oldrefs.len()..], o).map_err(|e| format!("{e}; {}", ctx_of(&src, m)))?;
            nrefs = run.log.len() - (refs.len() - oldrefs.len());
        }
        o.count("mapping calls for references", nrefs as u64);
        o.eval(hash(&(src.as_bytes(), format!("{m:?}"))), nrefs > 0);
        o.max("references in one chunk", nrefs as u64);
        o.sample(|| ctx_of(&src, m));
        Ok(())
    });
    // chains: renumbering twice equals renumbering with the composition
    x.cases("chains", 10_000, 200_000, |_, r, o| {
        let src = { let p = r.bool(); any_source(r, p) };
        let (a, b) = (*r.pick(&[1, 9, 93, 99_999]), *r.pick(&[1, 7, 905]));
        let f = |id: Ref, k: i32| Ref::new(id.get().checked_add(k).unwrap_or(id.get()));
        let two = src.renumber(|i| f(i, a)).renumber(|i| f(i, b));
        let one = src.renumber(|i| f(f(i, a), b));
        if two.as_bytes() != one.as_bytes() || two.refs().collect::<Vec<_>>() != one.refs().collect::<Vec<_>>() {
            return Err(format!("renumbering by {a} then {b} differs from renumbering once: {:?}", esc(src.as_bytes())));
        }
        let run = { let (c, run) = renumber_logged(&two, None, Map::Fresh(0)); judge(&two, c.as_ref().unwrap().as_bytes(), &run, &c.as_ref().unwrap().refs().collect::<Vec<_>>(), o)?; run };
        o.eval(hash(&(src.as_bytes(), a, b)), run.log.len() > two.refs().len());
        Ok(())
    });
    // offsets stay exact: the renumbered chunk becomes a document
    x.cases("documents", 10_000, 200_000, |_, r, o| {
        let p = r.bool();
        let src = any_source(r, p);
        let mut pdf = Pdf::with_settings(settings(p));
        let mut next = 1;
        let mut map = BTreeMap::new();
        // objects get distinct numbers however often a number was used
        let mut seen = std::collections::BTreeSet::new();
        if !src.refs().all(|i| seen.insert(i)) { return Ok(()); }
        if r.bool() { pdf.indirect(Ref::new(next)).primitive(Null); next += 1; }
        let mut f = |i: Ref| Ref::new(*map.entry(i.get()).or_insert_with(|| { next += 1; next }));
        if r.bool() { src.renumber_into(&mut pdf, &mut f) } else { let c = src.renumber(&mut f); pdf.extend(&c) }
        let n = pdf.refs().len();
        let top = next + 5;
        let fin = if r.bool() { Fin::Table } else { Fin::Stream(top) };
        let (b, _) = finish(pdf, &fin);
        let file = parse_file(&b, &super::doc::decode_filters)?;
        if file.objs.len() != n { return Err("objects lost".into()); }
        let at: BTreeMap<i64, usize> = file.objs.iter().map(|o| (o.id, o.start)).collect();
        let mut used = 0;
        for (k, e) in &file.xref {
            if let XE::Used { off, .. } = e {
                if file.xref_stream.as_ref().is_some_and(|x| x.id == *k as i64) { continue; }
                used += 1;
                if at.get(&(*k as i64)).map(|&p| p as u64) != Some(*off) { return Err(format!("offset of renumbered object {k} is wrong: {}", esc(src.as_bytes()))); }
                o.count("offsets verified", 1);
            }
        }
        if used != n { return Err(format!("{used} cross-reference entries for {n} objects")); }
        o.eval(hash(&b), n > 0);
        Ok(())
    });
    // every decimal width of old and new numbers in every neighbourhood
    x.exhaust("widths", 10 * 10, |c, r, o| {
        let (a, b) = (10i64.pow(c as u32 / 10), 10i64.pow(c as u32 % 10));
        for da in -1..=1i64 { for db in -1..=1i64 {
            let (Ok(old), Ok(new)) = (i32::try_from((a + da).max(1)), i32::try_from((b + db).max(1))) else { continue };
            for pretty in [false, true] {
                let mut src = Chunk::with_settings(settings(pretty));
                let ro = Ref::new(old);
                src.indirect(ro).array().item(ro).item(1).item(ro).item(0).item(0).item(ro).item(Name(b"R")).item(ro).item(Str(b"R")).item(ro);
                src.indirect(ro).primitive(ro);
                src.indirect(ro).dict().pair(Name(b"R"), ro).pair(Name(b"0"), ro).pair(Name(b""), ro);
                src.stream(ro, b"1 0 R").pair(Name(b"X"), ro);
                let m = Map::Const(new);
                let (c, run) = renumber_logged(&src, None, m);
                let c = c.unwrap();
                judge(&src, c.as_bytes(), &run, &c.refs().collect::<Vec<_>>(), o).map_err(|e| format!("{e}; {}", ctx_of(&src, m)))?;
                o.eval(hash(&(old, new, pretty)), true);
                let _ = r.next();
            }
        } }
        Ok(())
    });
    x.cases("large sources", 18, 80, |i, r, o| {
        let src = large(r, i);
        let m = [Map::Identity, Map::Fresh(0), Map::Offset(90_000), random_map(r)][i as usize % 4];
        let (c, run) = renumber_logged(&src, None, m);
        let c = c.unwrap();
        judge(&src, c.as_bytes(), &run, &c.refs().collect::<Vec<_>>(), o).map_err(|e| format!("{e}; large source {i}, {m:?}"))?;
        o.max("mapping calls for one chunk", run.log.len() as u64);
        o.eval(hash(&("large", i)), true);
        Ok(())
    });
    x.require("mapping calls for one chunk", 130_000);
    x.require("references compared", 50_000);
    x.require("offsets verified", 20_000);
}

pub fn c13(x: &Ctx) {
    x.rule("Sources dense in strings, names and stream data that look like references, headers, keywords or comments; identity copies in both layouts, non-identity mappings with verbatim token comparison, and renumbering into targets that already hold data; source and target snapshots before and after. Non-trivial: distinct source.");
    x.cases("identity", 30_000, 1_000_000, |_, r, o| {
        let p = r.bool();
        let src = loop { let s = any_source(r, p); let mut probe = Chunk::with_settings(settings(p)); if same_layout(&s, p) { break s } probe.reserve(0); };
        let before = (src.as_bytes().to_vec(), src.refs().collect::<Vec<_>>(), src.limits().clone(), src.len());
        let mut t = Chunk::with_settings(settings(p));
        src.renumber_into(&mut t, |i| i);
        if t.as_bytes() != &before.0[..] { return Err(format!("identity copy differs (pretty={p}): {:?} became {:?}", esc(&before.0), esc(t.as_bytes()))); }
        if t.refs().collect::<Vec<_>>() != before.1 { return Err("identity copy has another object list".into()); }
        if p {
            let c = src.renumber(|i| i);
            if c.as_bytes() != &before.0[..] || c.refs().collect::<Vec<_>>() != before.1 { return Err("identity renumber() differs".into()); }
        }
        if src.as_bytes() != &before.0[..] || src.refs().collect::<Vec<_>>() != before.1 || *src.limits() != before.2 || src.len() != before.3 { return Err("source changed".into()); }
        o.count("identity copies", 1);
        o.eval(hash(&before.0), !before.0.is_empty());
        o.sample(|| esc(&before.0));
        Ok(())
    });
    x.cases("verbatim", 30_000, 1_000_000, |_, r, o| {
        let src = { let p = r.bool(); let s = any_source(r, p); maybe_document(s, r) };
        let before = (src.as_bytes().to_vec(), src.refs().collect::<Vec<_>>(), src.limits().clone());
        let m = random_map(r);
        let p = r.bool();
        let mut t = source(r, p);
        let k = if r.chance(1, 400) { r.below(80) } else { r.below(3) };
        for _ in 0..k {
            let (old, oldrefs) = (t.as_bytes().to_vec(), t.refs().collect::<Vec<_>>());
            let (_, run) = renumber_logged(&src, Some(&mut t), m);
            if !t.as_bytes().starts_with(&old) { return Err("bytes of the target changed".into()); }
            let refs: Vec<Ref> = t.refs().collect();
            if refs.len() < oldrefs.len() || refs[..oldrefs.len()] != oldrefs[..] { return Err("object list of the target changed".into()); }
            judge(&src, &t.as_bytes()[old.len()..], &run, &refs[oldrefs.len()..], o).map_err(|e| format!("{e}; {}", ctx_of(&src, m)))?;
        }
        if src.as_bytes() != &before.0[..] || src.refs().collect::<Vec<_>>() != before.1 || *src.limits() != before.2 { return Err("source changed".into()); }
        o.eval(hash(&(&before.0, k, format!("{m:?}"))), k > 0 && !before.0.is_empty());
        Ok(())
    });
    // every hostile string and name in every position, between references
    let n = HOSTILE_STRINGS.len() as u64;
    x.exhaust("hostile", n * n, |c, r, o| {
        let (a, b) = (HOSTILE_STRINGS[c as usize / n as usize], HOSTILE_STRINGS[c as usize % n as usize]);
        let rf = Ref::new(12);
        for pretty in [false, true] {
            let mut src = Chunk::with_settings(settings(pretty));
            src.indirect(rf).array().item(rf).item(Str(a)).item(rf).item(Str(b)).item(rf);
            src.indirect(rf).dict().pair(Name(a), rf).pair(Name(b), Name(a)).pair(Name(b"X"), rf);
            let data: Vec<u8> = [a, b, b" 12 0 R ", a].concat();
            src.stream(rf, &data).pair(Name(b"K"), Str(a)).pair(Name(b"L"), rf).insert(Name(b"stream")).dict().pair(Name(b), rf);
            src.indirect(rf).primitive(Str(&data));
            src.indirect(rf).primitive(Name(&data));
            for m in [Map::Fresh(0), Map::Const(7), Map::Offset(1_000_000)] {
                let (c, run) = renumber_logged(&src, None, m);
                let c = c.unwrap();
                judge(&src, c.as_bytes(), &run, &c.refs().collect::<Vec<_>>(), o).map_err(|e| format!("{e}; {}", ctx_of(&src, m)))?;
            }
            o.eval(hash(&(c, pretty)), true);
        }
        let _ = r.next();
        Ok(())
    });
    x.cases("large sources", 18, 80, |i, r, o| {
        let src = large(r, i);
        let before = (src.as_bytes().to_vec(), src.refs().collect::<Vec<_>>());
        let p = i % 2 == 0;
        let mut t = Chunk::with_settings(settings(p));
        src.renumber_into(&mut t, |x| x);
        if t.as_bytes() != &before.0[..] || t.refs().collect::<Vec<_>>() != before.1 { return Err(format!("identity copy of large source {i} differs")); }
        let mut t = source(r, p);
        let (old, n) = (t.as_bytes().to_vec(), t.refs().len());
        let (_, run) = renumber_logged(&src, Some(&mut t), Map::Offset(1 + r.below(2000) as i32));
        if !t.as_bytes().starts_with(&old) { return Err("bytes of the target changed".into()); }
        let refs: Vec<Ref> = t.refs().collect();
        judge(&src, &t.as_bytes()[old.len()..], &run, &refs[n..], o).map_err(|e| format!("{e}; large source {i}"))?;
        if src.as_bytes() != &before.0[..] || src.refs().collect::<Vec<_>>() != before.1 { return Err("source changed".into()); }
        o.max("bytes in a source", before.0.len() as u64);
        o.eval(hash(&("large", i)), true);
        Ok(())
    });
    x.require("bytes in a source", 1_000_000);
    x.require("stream data compared verbatim", 10_000);
    x.require("identity copies", 20_000);
}

/// Does the chunk consist of objects of one layout only (sources may be merged from both)?
fn same_layout(c: &Chunk, pretty: bool) -> bool {
    let Ok((obs, _)) = parse_body(c.as_bytes()) else { return true };
    let b = c.as_bytes();
    obs.iter().enumerate().all(|(i, _)| {
        let end = obs.get(i + 1).map_or(b.len(), |n| n.start);
        b[..end].ends_with(b"\n\n") == pretty
    })
}

/// Sources that are large in one respect: objects, references, stream data, strings, names, nesting.
/// Even ones are pretty.
fn large(r: &mut Rng, i: u64) -> Chunk {
    let mut c = Chunk::with_settings(settings(i % 2 == 0));
    let id = |k: i32| Ref::new(k + 1);
    match i / 2 % 9 {
        0 => for k in 0..66_000 { c.indirect(id(k)).array().item(id(65_999 - k)).item(k).item(Str(b"1 0 R")); },
        1 => { c.indirect(id(0)).array().items((0..70_000).map(|k| id(k * 7))); c.indirect(id(1)).primitive(id(5)); }
        2 => { let mut d = c.indirect(id(0)).dict(); for k in 0..66_000 { d.pair(Name(b"1 0 R"), id(k)); } }
        3 => { let data: Vec<u8> = (0..1_100_000).map(|_| *r.pick(b"1 0 Rendstream obj\n>>()")).collect(); c.stream(id(0), &data).pair(Name(b"X"), id(3)); c.stream(id(1), &data[..70_000]).pair(Name(b"X"), id(4)); c.indirect(id(2)).primitive(id(0)); }
        4 => { let t: Vec<u8> = (0..140_000).map(|_| *r.pick(b"1 0 R()\\\n<")).collect(); let mut a = c.indirect(id(0)).array(); a.item(Str(&t)).item(id(1)).item(Name(&t)).item(id(2)); let bin: Vec<u8> = (0..140_000).map(|_| r.next() as u8 | 0x80).collect(); a.item(Str(&bin)).item(id(3)).item(TextStr(&"\u{3b1}".repeat(70_000))).item(id(4)); }
        5 => { fn go(o: Obj, d: i32) { let mut a = o.array(); a.item(Ref::new(d + 1)); if d > 0 { go(a.push(), d - 1); } a.item(Ref::new(d + 2)).item(d); } go(c.indirect(id(0)), 800); go(c.indirect(id(1)), 130); }
        6 => { c.indirect(id(0)).array().item(Str(&[b'('; 66_000])).item(id(3)).item(Str(&[[b'('; 33_000], [b')'; 33_000]].concat())).item(id(4)); }
        7 => { for k in 0..3_000 { c.stream(id(k), format!("{k} 0 obj {k} 0 R endobj").as_bytes()).pair(Name(b"K"), id(k + 1)); } }
        _ => { let mut a = c.indirect(id(0)).array(); for k in 0..70_000 { match k % 4 { 0 => a.item(k), 1 => a.item(0), 2 => a.item(id(k)), _ => a.item(Name(b"R")) }; } }
    }
    c
}
