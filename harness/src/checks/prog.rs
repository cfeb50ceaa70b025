//! Whole programs of calls, replayable from a seed under different layouts, buffer capacities,
//! reservations and threads. Used by C09, C26 and C27.

use crate::checks::{calc, cmap, content, doc, renum, typed};
use crate::mon::R;
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;

/// How a program is laid out. With `vary`, capacities and reservations are drawn from it; nothing
/// else may depend on it, and the program itself draws from another source.
pub struct Lay { pub pretty: bool, pub vary: Option<Rng> }

impl Lay {
    pub fn plain(pretty: bool) -> Lay { Lay { pretty, vary: None } }
    pub fn varied(pretty: bool, r: Rng) -> Lay { Lay { pretty, vary: Some(r) } }
    fn cap(&mut self) -> Option<usize> {
        let r = self.vary.as_mut()?;
        Some(match r.below(5) { 0 => 0, 1 => r.below(16), 2 => r.below(300), 3 => r.below(4096), _ => 1 << r.below(18) })
    }
    pub fn chunk(&mut self) -> Chunk {
        let s = settings(self.pretty);
        match self.cap() { Some(c) if self.pretty && c % 2 == 0 => Chunk::with_capacity(c), Some(c) => Chunk::with_settings_and_capacity(s, c), None => Chunk::with_settings(s) }
    }
    pub fn content(&mut self) -> Content {
        let s = settings(self.pretty);
        match self.cap() { Some(c) if self.pretty && c % 2 == 0 => Content::with_capacity(c), Some(c) => Content::with_settings_and_capacity(s, c), None => Content::with_settings(s) }
    }
    pub fn pdf(&mut self) -> Pdf {
        let s = settings(self.pretty);
        match self.cap() { Some(c) if self.pretty && c % 2 == 0 => Pdf::with_capacity(c), Some(c) => Pdf::with_settings_and_capacity(s, c), None => Pdf::with_settings(s) }
    }
    /// Maybe reserve; never changes what is written.
    pub fn poke(&mut self, c: &mut Chunk) {
        if let Some(r) = &mut self.vary { if r.bool() { let n = match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(2000), _ => 70_000 }; c.reserve(n); } }
    }
    fn poke_content(&mut self, c: &mut Content) {
        if let Some(r) = &mut self.vary { if r.bool() { let n = match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(2000), _ => 70_000 }; c.reserve(n); } }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { File, Body, Content, Text }

/// `sized`: the length says something about the layout (not so after compression).
pub struct Out { pub kind: Kind, pub bytes: Vec<u8>, pub calls: usize, pub sized: bool }

pub const PROGRAMS: &[(&str, fn(&mut Rng, &mut Lay) -> R<Out>)] = &[
    ("document", document),
    ("typed objects", typed_objects),
    ("typed document", typed_document),
    ("content stream", content_stream),
    ("page content", page_content),
    ("character map", character_map),
    ("renumbered", renumbered),
    ("calculator", calculator),
    ("merged chunks", merged),
];

fn fresh(c: &Chunk, r: &mut Rng) -> Ref {
    let used: std::collections::HashSet<i32> = c.refs().map(|x| x.get()).collect();
    loop { let i = r.range(1, 300) as i32; if !used.contains(&i) { return Ref::new(i); } }
}

fn finish(pdf: Pdf, r: &mut Rng) -> Vec<u8> {
    let id = fresh(&pdf, r);
    let fin = match r.below(3) { 0 => doc::Fin::Table, 1 => doc::Fin::Stream(id.get()), _ => doc::Fin::Filter(id.get(), doc::FilterKind::Hex) };
    doc::finish(pdf, &fin).0
}

fn document(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut d = doc::Doc::random(r);
    d.capacity = l.cap();
    let fin = doc::random_fin(r, &d);
    let mut pdf = d.build(l.pretty);
    l.poke(&mut pdf);
    let sized = !matches!(fin, doc::Fin::Filter(_, doc::FilterKind::Flate | doc::FilterKind::HexFlate));
    Ok(Out { kind: Kind::File, sized, calls: d.items.len() + 1, bytes: doc::finish(pdf, &fin).0 })
}

/// Typed objects with small ids, so that they may be part of a document.
fn typed_into(c: &mut Chunk, r: &mut Rng, l: &mut Lay, n: usize, budget: usize) -> usize {
    let roots: Vec<&typed::Root> = typed::ROOTS.iter().collect();
    let mut calls = 0;
    for _ in 0..n {
        let id = fresh(c, r).get();
        let data = vec![r.bytes()];
        l.poke(c);
        let mut g = typed::G::new(r, budget);
        typed::program(c, &mut g, &roots, None, &[id], &data);
        calls += g.steps + 1;
    }
    calls
}

fn typed_objects(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut c = l.chunk();
    let n = 1 + r.below(4);
    let calls = typed_into(&mut c, r, l, n, 16);
    Ok(Out { kind: Kind::Body, sized: true, calls, bytes: c.as_bytes().to_vec() })
}

fn typed_document(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut pdf = l.pdf();
    let n = 1 + r.below(3);
    let mut calls = typed_into(&mut pdf, r, l, n, 8);
    if r.bool() { let id = fresh(&pdf, r); pdf.catalog(id).pages(Ref::new(1)); calls += 2; }
    if r.bool() { let id = fresh(&pdf, r); let t = r.text(); pdf.document_info(id).title(TextStr(&t)); calls += 2; }
    if r.bool() { pdf.set_file_id((r.bytes(), r.bytes())); }
    if r.bool() { pdf.set_version(2, 0); }
    Ok(Out { kind: Kind::File, sized: true, calls, bytes: finish(pdf, r) })
}

pub fn content_ops(r: &mut Rng, l: &mut Lay, n: usize) -> R<Vec<u8>> {
    let mut c = l.content();
    for _ in 0..n {
        let mut e = content::env(r);
        let i = e.r.below(content::OPS.len());
        (content::OPS[i].1)(&mut c, &mut e);
        l.poke_content(&mut c);
    }
    Ok(c.finish().into_vec())
}

fn content_stream(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let n = match r.below(10) { 0 => r.below(200), _ => r.len(20) };
    Ok(Out { kind: Kind::Content, sized: true, calls: n, bytes: content_ops(r, l, n)? })
}

/// A page whose content stream is another program, merged from its own chunk.
fn page_content(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut pdf = l.pdf();
    let n = r.len(12);
    let data = content_ops(r, l, n)?;
    pdf.catalog(Ref::new(1)).pages(Ref::new(2));
    l.poke(&mut pdf);
    pdf.pages(Ref::new(2)).kids([Ref::new(3)]).count(1);
    let mut p = pdf.page(Ref::new(3));
    p.parent(Ref::new(2)).media_box(r.rect()).contents(Ref::new(4));
    let nm = r.name();
    p.resources().fonts().pair(Name(&nm), Ref::new(5));
    drop(p);
    let mut c = l.chunk();
    c.stream(Ref::new(4), &data).filter(Filter::FlateDecode);
    l.poke(&mut c);
    c.type1_font(Ref::new(5)).base_font(Name(&nm));
    pdf.extend(&c);
    Ok(Out { kind: Kind::File, sized: true, calls: n + 14, bytes: finish(pdf, r) })
}

fn character_map(r: &mut Rng, _l: &mut Lay) -> R<Out> {
    let (bytes, calls) = cmap::random(r);
    Ok(Out { kind: Kind::Text, sized: true, calls, bytes })
}

fn renumbered(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let src = if r.bool() { renum::source(r, l.pretty) } else { let mut c = l.chunk(); let n = 1 + r.below(3); typed_into(&mut c, r, l, n, 8); c };
    let mut c = l.chunk();
    if r.bool() { c.indirect(Ref::new(4000)).primitive(r.rf()); }
    l.poke(&mut c);
    let (step, start) = (r.range(1, 3) as i32, r.range(1, 1000) as i32);
    let mut next = start;
    src.renumber_into(&mut c, |_| { next += step; Ref::new(next) });
    let calls = src.refs().len();
    Ok(Out { kind: Kind::Body, sized: true, calls, bytes: c.as_bytes().to_vec() })
}

fn calculator(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let (code, calls) = calc::random(r);
    let mut c = l.chunk();
    c.post_script_function(Ref::new(1), &code).domain([r.f(), r.f()]).range(r.floats(4));
    Ok(Out { kind: Kind::Body, sized: true, calls: calls + 3, bytes: c.as_bytes().to_vec() })
}

fn merged(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut all = l.chunk();
    let mut calls = 0;
    for _ in 0..r.len(5) {
        let mut c = l.chunk();
        for _ in 0..r.len(4) {
            let id = Ref::new(r.range(1, 1 << 20) as i32);
            let mut b = 6;
            Tree::random(r, &mut b, 5).put(c.indirect(id));
            l.poke(&mut c);
            calls += 6 - b + 1;
        }
        if r.bool() { all.extend(&c); } else { all.extend(&c.clone()); }
        l.poke(&mut all);
    }
    Ok(Out { kind: Kind::Body, sized: true, calls, bytes: all.as_bytes().to_vec() })
}

/// Run program `p` from its own random source.
pub fn run(p: usize, seed: u64, lay: &mut Lay) -> R<Out> {
    let mut r = Rng::new(seed);
    (PROGRAMS[p % PROGRAMS.len()].1)(&mut r, lay)
}

/// What an output means, apart from the positions of objects.
#[derive(Debug)]
pub enum Meaning { File(Box<PdfFile>), Body(Vec<IObj>), Ops(Vec<Op>), Text(Vec<u8>) }

pub fn read(o: &Out) -> R<Meaning> {
    Ok(match o.kind {
        Kind::File => Meaning::File(Box::new(parse_file(&o.bytes, &doc::decode_filters)?)),
        Kind::Body => Meaning::Body(parse_body(&o.bytes)?.0),
        Kind::Content => Meaning::Ops(parse_content(&o.bytes)?.0),
        Kind::Text => Meaning::Text(o.bytes.clone()),
    })
}

/// Equal values; numbers by what they denote.
pub fn same(a: &V, b: &V) -> R<()> {
    let bad = || Err(format!("{} against {}", show(a), show(b)));
    match (a, b) {
        (V::Num(x), V::Num(y)) => if x == y || (is_integer(x) == is_integer(y) && x.parse::<f64>().is_ok() && x.parse::<f64>() == y.parse::<f64>()) { Ok(()) } else { bad() },
        (V::Arr(x), V::Arr(y)) => if x.len() != y.len() { bad() } else { x.iter().zip(y).try_for_each(|(p, q)| same(p, q)) },
        (V::Dict(x), V::Dict(y)) => if x.len() != y.len() { bad() } else { x.iter().zip(y).try_for_each(|(p, q)| if p.0 != q.0 { bad() } else { same(&p.1, &q.1) }) },
        _ => if a == b { Ok(()) } else { bad() },
    }
}
fn same_objs(a: &[IObj], b: &[IObj], data: bool) -> R<()> {
    if a.len() != b.len() { return Err(format!("{} objects against {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(b) {
        if (x.id, x.gen) != (y.id, y.gen) { return Err(format!("object {} {} against {} {}", x.id, x.gen, y.id, y.gen)); }
        let strip = |v: &V| match v { V::Dict(d) if !data && x.data.is_some() => V::Dict(d.iter().filter(|e| e.0 != b"Length").cloned().collect()), v => v.clone() };
        same(&strip(&x.v), &strip(&y.v)).map_err(|m| format!("object {}: {m}", x.id))?;
        if data && x.data != y.data { return Err(format!("object {}: stream data differ", x.id)); }
    }
    Ok(())
}
/// Do a pretty and a compact output mean the same? Content streams inside files are compared as
/// operations, since they are laid out, too.
pub fn same_meaning(a: &Meaning, b: &Meaning, content: bool) -> R<()> {
    match (a, b) {
        (Meaning::File(a), Meaning::File(b)) => {
            if a.version != b.version || a.marker != b.marker { return Err("header differs".into()); }
            same_objs(&a.objs, &b.objs, !content)?;
            if content {
                for (x, y) in a.objs.iter().zip(&b.objs) {
                    if let (Some(x), Some(y)) = (&x.data, &y.data) {
                        let (x, y) = (parse_content(x)?.0, parse_content(y)?.0);
                        same_ops(&x, &y)?;
                    } else if x.data.is_some() != y.data.is_some() { return Err("stream against non-stream".into()); }
                }
            }
            let used = |f: &PdfFile| -> Vec<(u64, Option<u64>)> { f.xref.iter().map(|(n, e)| (*n, match e { XE::Used { gen, .. } => Some(*gen), XE::Free { .. } => None })).collect() };
            if used(a) != used(b) { return Err("cross-reference entries differ".into()); }
            let free = |f: &PdfFile| -> Vec<(u64, XE)> { f.xref.iter().filter(|x| matches!(x.1, XE::Free { .. })).cloned().collect() };
            if free(a) != free(b) { return Err("free entries differ".into()); }
            let key = |f: &PdfFile| V::Dict(match &f.trailer { V::Dict(d) => d.iter().filter(|e| e.0 != b"Length" && e.0 != b"W").cloned().collect(), _ => vec![] });
            same(&key(a), &key(b)).map_err(|m| format!("trailer: {m}"))?;
            if a.xref_stream.is_some() != b.xref_stream.is_some() { return Err("different kinds of cross-reference section".into()); }
            Ok(())
        }
        (Meaning::Body(a), Meaning::Body(b)) => same_objs(a, b, true),
        (Meaning::Ops(a), Meaning::Ops(b)) => same_ops(a, b),
        (Meaning::Text(a), Meaning::Text(b)) => if a == b { Ok(()) } else { Err("text differs".into()) },
        _ => Err("different kinds".into()),
    }
}
pub fn same_ops(a: &[Op], b: &[Op]) -> R<()> {
    if a.len() != b.len() { return Err(format!("{} operations against {}", a.len(), b.len())); }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.op != y.op || x.operands.len() != y.operands.len() { return Err(format!("operation {i}: {} against {}", esc(&x.op), esc(&y.op))); }
        for (p, q) in x.operands.iter().zip(&y.operands) { same(p, q).map_err(|m| format!("operation {i}: {m}"))?; }
    }
    Ok(())
}
