//! C01-C04, C10, C11: documents, cross-reference data, streams, chunks.

use crate::mon::{guarded, hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum What {
    Tree(Tree),
    Stream(Vec<u8>, Vec<(Vec<u8>, Tree)>),
    Catalog(Option<Ref>),
    Info(Option<String>),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub pretty: bool,
    pub capacity: Option<usize>,
    pub versions: Vec<(u8, u8)>,
    pub markers: Vec<[u8; 4]>,
    pub file_ids: Vec<(Vec<u8>, Vec<u8>)>,
    pub items: Vec<(i32, What)>,
    /// for each item: write through a chunk (grouped with neighbours) or directly
    pub via_chunk: Vec<bool>,
    /// positions (by item index) at which header setters run
    pub late_header: bool,
}

/// Distinct ids in writing order.
pub fn gen_ids(r: &mut Rng, n: usize) -> Vec<i32> {
    let mut set = BTreeSet::new();
    let mode = r.below(7);
    let mut cur = 0i64;
    match mode {
        0 => { for i in 1..=n as i32 { set.insert(i); } }
        1 => { let off = r.range(1, 400) as i32; for i in 0..n as i32 { set.insert(off + i); } }
        2 => { while set.len() < n { set.insert(r.range(1, 2 * n as i64 + 2) as i32); } }
        3 => { while set.len() < n { cur += *r.pick(&[1, 1, 1, 2, 3, 10]); set.insert(cur as i32); } }
        4 => { while set.len() < n { cur += if r.chance(1, 8) { r.range(1, 3000) } else { 1 }; set.insert(cur as i32); } }
        5 => { let mut k = 0; while set.len() < n { k += 1; if k > 3 * n { set.insert(r.range(1, 80_000) as i32); } let e = *r.pick(&[1, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 65535, 65536, 65537, 70000]); set.insert((e + r.range(-2, 2)).max(1) as i32); if set.len() < n && r.chance(1, 3) { set.insert(r.range(1, 50) as i32); } } }
        _ => { while set.len() < n { cur += r.range(1, 6); set.insert(cur as i32); } }
    }
    while set.len() > n { let l = *set.iter().next_back().unwrap(); set.remove(&l); }
    let mut v: Vec<i32> = set.into_iter().collect();
    match r.below(4) { 0 => {} 1 => v.reverse(), _ => r.shuffle(&mut v) }
    v
}

pub fn stream_data(r: &mut Rng) -> Vec<u8> {
    const PIECES: &[&[u8]] = &[
        b"endstream", b"\nendstream\nendobj\n", b"endobj", b"stream\n", b"\n", b"\r", b"\r\n", b"1 0 R", b"5 0 obj\n", b">>", b"<<", b"(", b")",
        b"%", b"xref\n0 1\n", b"trailer", b"startxref\n0\n%%EOF", b"\0", b" ", b"\xff\xfe", b"3 0 obj\n<<>>\nendobj\n", b"/Length 5", b"q 1 0 0 1 0 0 cm Q",
    ];
    match r.below(6) {
        0 => vec![],
        1 => { let n = r.below(40); (0..n).map(|_| r.next() as u8).collect() }
        2 => { let n = r.below(3000); (0..n).map(|_| r.next() as u8).collect() }
        3 => r.pick(PIECES).to_vec(),
        _ => { let n = r.below(8); let mut v = vec![]; for _ in 0..n { v.extend_from_slice(*r.pick(PIECES)); if r.chance(1, 4) { v.push(r.next() as u8); } } v }
    }
}

impl Doc {
    pub fn random(r: &mut Rng) -> Doc {
        let n = match r.below(8) { 0 => 0, 1 => 1, 2..=5 => r.len(12), 6 => r.below(60), _ => r.below(200) };
        let ids = gen_ids(r, n);
        let small = r.bool();
        let mut items: Vec<(i32, What)> = ids.iter().map(|&id| {
            let w = match r.below(5) {
                0 => What::Stream(stream_data(r), { let k = r.len(4); (0..k).map(|_| (r.key(), Tree::random(r, &mut 2, 2))).collect() }),
                _ => What::Tree(if small { Tree::Prim(Prim::Int(1)) } else { Tree::random(r, &mut 6, 4) }),
            };
            (id, w)
        }).collect();
        if n > 0 {
            if r.chance(2, 3) { let i = r.below(n); items[i].1 = What::Catalog(r.bool().then(|| r.rf())); }
            if r.chance(1, 2) { let i = r.below(n); items[i].1 = What::Info(r.bool().then(|| r.text())); }
            if r.chance(1, 20) { let i = r.below(n); items[i].1 = What::Catalog(None); }
            if r.chance(1, 12) { let i = r.below(n); items[i].1 = What::Info(Some(r.text())); }
        }
        let k = r.len(3);
        let via = r.below(3);
        Doc {
            pretty: r.bool(),
            capacity: match r.below(4) { 0 => Some(0), 1 => Some(r.below(300)), 2 => Some(100_000), _ => None },
            versions: (0..k).map(|_| match r.below(3) { 0 => (1, r.range(0, 9) as u8), 1 => (2, 0), _ => (r.below(14) as u8, r.u8()) }).collect(),
            markers: (0..r.len(3)).map(|_| { let b = r.next(); [b, b >> 8, b >> 16, b >> 24].map(|x| { let x = x as u8; if x == b'\n' || x == b'\r' { b'A' } else { x } }) }).collect(),
            file_ids: (0..r.len(3)).map(|_| (r.bytes(), r.bytes())).collect(),
            via_chunk: (0..n).map(|_| via == 1 || (via == 2 && r.bool())).collect(),
            items,
            late_header: r.bool(),
        }
    }

    pub fn header(&self, pdf: &mut Pdf) {
        for &(a, b) in &self.versions { pdf.set_version(a, b); }
        for m in &self.markers { pdf.set_binary_marker(m); }
        for f in &self.file_ids { pdf.set_file_id(f.clone()); }
    }

    pub fn write_item(c: &mut Chunk, id: i32, w: &What) {
        match w {
            What::Tree(t) => t.put(c.indirect(Ref::new(id))),
            What::Stream(d, e) => {
                let mut s = c.stream(Ref::new(id), d);
                for (k, t) in e { t.put(s.insert(Name(k))); }
            }
            _ => panic!("HARNESS: pdf only"),
        }
    }

    pub fn build(&self, pretty: bool) -> Pdf {
        let st = settings(pretty);
        let mut pdf = match self.capacity {
            Some(c) => Pdf::with_settings_and_capacity(st, c),
            None if pretty => Pdf::new(),
            None => Pdf::with_settings(st),
        };
        if !self.late_header { self.header(&mut pdf); }
        let mut pending: Option<Chunk> = None;
        for (i, (id, w)) in self.items.iter().enumerate() {
            let rid = Ref::new(*id);
            let chunked = self.via_chunk[i] && matches!(w, What::Tree(_) | What::Stream(..));
            if chunked {
                let c = pending.get_or_insert_with(|| Chunk::with_settings(st));
                Self::write_item(c, *id, w);
                continue;
            }
            if let Some(c) = pending.take() { pdf.extend(&c); }
            match w {
                What::Catalog(p) => { let mut c = pdf.catalog(rid); if let Some(p) = p { c.pages(*p); } }
                What::Info(t) => { let mut c = pdf.document_info(rid); if let Some(t) = t { c.title(TextStr(t)); } }
                w => Self::write_item(&mut pdf, *id, w),
            }
        }
        if let Some(c) = pending.take() { pdf.extend(&c); }
        if self.late_header { self.header(&mut pdf); }
        pdf
    }

    pub fn exp_version(&self) -> (u8, u8) {
        let mut v = (1, 7);
        for &(a, b) in &self.versions {
            if a < 10 { v.0 = a; }
            if b < 10 { v.1 = b; }
        }
        v
    }

    pub fn exp_value(w: &What) -> V {
        match w {
            What::Tree(t) => t.exp(),
            What::Stream(d, e) => {
                let mut v = vec![(b"Length".to_vec(), V::Int(d.len() as i64))];
                v.extend(e.iter().map(|(k, t)| (k.clone(), t.exp())));
                V::Dict(v)
            }
            What::Catalog(p) => {
                let mut v = vec![(b"Type".to_vec(), nm("Catalog"))];
                if let Some(p) = p { v.push((b"Pages".to_vec(), (*p).into())); }
                V::Dict(v)
            }
            What::Info(t) => V::Dict(t.iter().map(|t| (b"Title".to_vec(), tx(t))).collect()),
        }
    }
    pub fn max_id(&self) -> i32 { self.items.iter().map(|i| i.0).max().unwrap_or(0) }
    pub fn root(&self) -> Option<i32> {
        self.items.iter().rev().find(|i| matches!(i.1, What::Catalog(_))).map(|i| i.0)
    }
    pub fn info(&self) -> Option<i32> {
        self.items.iter().rev().find(|i| matches!(i.1, What::Info(_))).map(|i| i.0)
    }
}

#[derive(Clone, Debug)]
pub enum Fin { Table, Stream(i32), Filter(i32, FilterKind) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FilterKind { Flate, Hex, HexFlate, Empty, Garbage(usize) }

pub const FILTERS: [(Filter, &str); 10] = [
    (Filter::AsciiHexDecode, "ASCIIHexDecode"), (Filter::Ascii85Decode, "ASCII85Decode"), (Filter::LzwDecode, "LZWDecode"),
    (Filter::FlateDecode, "FlateDecode"), (Filter::RunLengthDecode, "RunLengthDecode"), (Filter::CcittFaxDecode, "CCITTFaxDecode"),
    (Filter::Jbig2Decode, "JBIG2Decode"), (Filter::DctDecode, "DCTDecode"), (Filter::JpxDecode, "JPXDecode"), (Filter::Crypt, "Crypt"),
];

fn hex_enc(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().flat_map(|x| format!("{x:02x}").into_bytes()).collect();
    v.push(b'>');
    v
}
fn hex_dec(b: &[u8]) -> R<Vec<u8>> {
    let n: Vec<u8> = b.iter().take_while(|&&c| c != b'>').map(|c| (*c as char).to_digit(16).map(|d| d as u8).ok_or("bad hex".to_string())).collect::<R<_>>()?;
    Ok(n.chunks(2).map(|c| c[0] * 16 + c.get(1).copied().unwrap_or(0)).collect())
}

/// Undo the filters declared in an xref stream dictionary.
pub fn decode_filters(d: &V, data: &[u8]) -> R<Vec<u8>> {
    let list: Vec<V> = match d.get(b"Filter") {
        None => vec![],
        Some(V::Arr(a)) => a.clone(),
        Some(n) => vec![n.clone()],
    };
    let mut cur = data.to_vec();
    for f in list {
        cur = match f {
            V::Name(n) if n == b"FlateDecode" => miniz_oxide::inflate::decompress_to_vec_zlib(&cur).map_err(|e| format!("inflate: {e:?}"))?,
            V::Name(n) if n == b"ASCIIHexDecode" => hex_dec(&cur)?,
            f => return Err(format!("unknown filter {}", show(&f))),
        };
    }
    Ok(cur)
}

/// Up to four filters, some of them repeated.
fn many_filters(i: usize) -> impl Iterator<Item = usize> {
    [i % 10, i / 10 % 10, i % 7, i / 3 % 2 * 5].into_iter().take(i / 12 % 5)
}

/// Finish in the given way. Returns the bytes and, for filters, (raw entries seen, data returned).
pub fn finish(pdf: Pdf, fin: &Fin) -> (Vec<u8>, Option<(Vec<u8>, Vec<u8>)>) {
    match fin {
        Fin::Table => (pdf.finish(), None),
        Fin::Stream(id) => (pdf.finish_with_xref_stream(Ref::new(*id)), None),
        Fin::Filter(id, k) => {
            let mut seen = None;
            let k = *k;
            let b = pdf.finish_with_xref_stream_and_filter(Ref::new(*id), |raw| {
                let z = |b: &[u8]| miniz_oxide::deflate::compress_to_vec_zlib(b, 3);
                let (data, f) = match k {
                    FilterKind::Flate => (z(raw), XRefFilter::Single(Filter::FlateDecode)),
                    FilterKind::Hex => (hex_enc(raw), XRefFilter::Single(Filter::AsciiHexDecode)),
                    FilterKind::HexFlate => (hex_enc(&z(raw)), XRefFilter::Multiple(vec![Filter::AsciiHexDecode, Filter::FlateDecode])),
                    FilterKind::Empty => (raw.to_vec(), XRefFilter::Multiple(vec![])),
                    FilterKind::Garbage(i) => {
                        let d = [&b"\nendstream\nendobj\nstartxref\n0\n%%EOF"[..], b"", b"\r\n", b"\0\xff"][i % 4].to_vec();
                        let f = if i % 3 == 0 { XRefFilter::Multiple(many_filters(i).map(|k| FILTERS[k].0).collect()) } else { XRefFilter::Single(FILTERS[i % 10].0) };
                        (d, f)
                    }
                };
                seen = Some((raw.to_vec(), data.clone()));
                (data, f)
            });
            (b, seen)
        }
    }
}

pub fn fresh_xref_id(r: &mut Rng, d: &Doc) -> i32 {
    let used: BTreeSet<i32> = d.items.iter().map(|i| i.0).collect();
    let max = d.max_id();
    loop {
        let c = match r.below(4) { 0 => max + 1, 1 => max + r.range(1, 300) as i32, 2 => r.range(1, max as i64 + 1) as i32, _ => r.range(1, 70_000.max(max as i64)) as i32 };
        if !used.contains(&c) { return c; }
    }
}
pub fn random_fin(r: &mut Rng, d: &Doc) -> Fin {
    match r.below(4) {
        0 | 1 => Fin::Table,
        2 => Fin::Stream(fresh_xref_id(r, d)),
        _ => { let k = *r.pick(&[FilterKind::Flate, FilterKind::Hex, FilterKind::HexFlate, FilterKind::Empty]); Fin::Filter(fresh_xref_id(r, d), k) }
    }
}

/// Entries must cover 0..size exactly, used/free as expected, free chain well formed.
pub fn check_entries(f: &PdfFile, used: &BTreeSet<i64>, o: &mut Obs) -> R<()> {
    let max = used.iter().next_back().copied().unwrap_or(0);
    let size = f.trailer.get(b"Size").and_then(V::int).ok_or("no /Size")?;
    if size != max + 1 { return Err(format!("/Size {size} but largest object number is {max}")); }
    let mut map: BTreeMap<u64, XE> = BTreeMap::new();
    for &(n, e) in &f.xref {
        if map.insert(n, e).is_some() { return Err(format!("object {n} has two entries")); }
    }
    if map.len() as i64 != size || map.keys().next_back().copied() != Some(size as u64 - 1) {
        return Err(format!("{} entries for /Size {size}", map.len()));
    }
    let mut free = 0u64;
    for (&n, e) in &map {
        let is_used = used.contains(&(n as i64));
        match e {
            XE::Used { gen, .. } => {
                if !is_used { return Err(format!("object {n} was never written but is marked in use")); }
                if *gen != 0 { return Err(format!("object {n} in use with generation {gen}")); }
            }
            XE::Free { gen, .. } => {
                if is_used { return Err(format!("object {n} was written but is marked free")); }
                free += 1;
                if (n == 0) != (*gen == 65535) { return Err(format!("free object {n} has generation {gen}")); }
            }
        }
    }
    let mut cur = 0u64;
    let mut steps = 0u64;
    let mut visited = BTreeSet::new();
    loop {
        let Some(XE::Free { next, .. }) = map.get(&cur) else { return Err(format!("free list leads to {cur}, which is not free")) };
        if !visited.insert(cur) { return Err(format!("free list visits {cur} twice")); }
        steps += 1;
        cur = *next;
        if cur == 0 { break; }
        if steps > free { return Err("free list does not end".into()); }
    }
    if steps != free { return Err(format!("free list has {steps} of {free} free objects")); }
    o.count("free entries checked", free);
    o.count("used entries checked", used.len() as u64);
    o.max("object number", max as u64);
    Ok(())
}

/// The complete file oracle.
pub fn check_file(d: &Doc, pretty: bool, body: &[u8], bytes: &[u8], fin: &Fin, o: &mut Obs) -> R<PdfFile> {
    let f = parse_file(bytes, &decode_filters)?;
    if f.version != d.exp_version() { return Err(format!("version {:?}, expected {:?}", f.version, d.exp_version())); }
    let m = d.markers.last().copied().unwrap_or([0x80; 4]);
    if f.marker != m { return Err(format!("binary marker {:?}, expected {m:?}", f.marker)); }
    if !bytes.starts_with(body) { return Err("finishing changed bytes written earlier".into()); }
    if f.objs.len() != d.items.len() { return Err(format!("{} objects written, {} found", d.items.len(), f.objs.len())); }
    for ((id, w), ob) in d.items.iter().zip(&f.objs) {
        if ob.id != *id as i64 || ob.gen != 0 { return Err(format!("object {id} came back as {} {}", ob.id, ob.gen)); }
        if let Some(df) = diff(&Doc::exp_value(w), &ob.v, true) { return Err(format!("object {id} (pretty={pretty}): {df}")); }
        let data = if let What::Stream(x, _) = w { Some(x) } else { None };
        if data != ob.data.as_ref() { return Err(format!("object {id}: stream data differs")); }
    }
    // offsets
    let mut starts: BTreeMap<i64, usize> = f.objs.iter().map(|o| (o.id, o.start)).collect();
    if let Some(x) = &f.xref_stream { starts.insert(x.id, x.start); }
    for (n, e) in &f.xref {
        if let XE::Used { off, .. } = e {
            let Some(&at) = starts.get(&(*n as i64)) else { return Err(format!("entry for object {n}, which is not in the file")) };
            if at as u64 != *off { return Err(format!("object {n} starts at {at} but its entry says {off}")); }
            if !bytes[at..].starts_with(format!("{n} 0 obj").as_bytes()) { return Err(format!("no header of object {n} at {off}")); }
            starts.remove(&(*n as i64));
            o.count("offsets verified", 1);
        }
    }
    if let Some((n, _)) = starts.into_iter().next() { return Err(format!("object {n} has no in-use entry")); }
    // trailer
    let mut t: Vec<(Vec<u8>, V)> = vec![];
    let size = d.max_id().max(match fin { Fin::Table => 0, Fin::Stream(i) | Fin::Filter(i, _) => *i }) + 1;
    t.push((b"Size".to_vec(), V::Int(size as i64)));
    if let Some(i) = d.root() { t.push((b"Root".to_vec(), V::Ref(i as i64, 0))); }
    if let Some(i) = d.info() { t.push((b"Info".to_vec(), V::Ref(i as i64, 0))); }
    if let Some((a, b)) = d.file_ids.last() { t.push((b"ID".to_vec(), V::Arr(vec![st(a), st(b)]))); }
    let got: Vec<(Vec<u8>, V)> = match &f.trailer { V::Dict(e) => e.iter().filter(|e| f.xref_stream.is_none() || ![&b"Type"[..], b"W", b"Length", b"Filter", b"Index", b"DecodeParms"].contains(&&e.0[..])).cloned().collect(), _ => vec![] };
    if let Some(df) = diff(&V::Dict(t), &V::Dict(got), false) { return Err(format!("trailer: {df}")); }
    match (fin, &f.xref_stream) {
        (Fin::Table, None) => {}
        (Fin::Stream(i) | Fin::Filter(i, _), Some(x)) if x.id == *i as i64 && x.gen == 0 => {}
        _ => return Err("wrong form of cross-reference section".into()),
    }
    Ok(f)
}

fn sig_doc(d: &Doc) -> u64 { hash(&format!("{d:?}")) }

pub fn c01(x: &Ctx) {
    x.rule("Random document histories (header setters before or after the writes, several versions/markers/ids, catalog and info, 0-200 objects with dense, sparse and shuffled numbers, trees and streams, directly or through chunks, several capacities, both layouts), finished as table, xref stream or filtered xref stream; the file is parsed back. Non-trivial: distinct history.");
    x.assume("binary markers contain no line ends (they would end the comment line)");
    let run = |d: &Doc, fin: Fin, o: &mut Obs| -> R<()> {
        let pdf = d.build(d.pretty);
        let body = pdf.as_bytes().to_vec();
        let (b, _) = finish(pdf, &fin);
        let f = check_file(d, d.pretty, &body, &b, &fin, o).map_err(|e| format!("{e}; fin={fin:?} doc={}", clip(&format!("{d:?}"))))?;
        o.eval(sig_doc(d), !d.items.is_empty());
        o.count(match fin { Fin::Table => "files with table", Fin::Stream(_) => "files with xref stream", _ => "files with filtered xref stream" }, 1);
        o.max("file size", b.len() as u64);
        o.seen("file-size digits x width", hash(&(b.len().to_string().len(), f.w)));
        o.sample(|| format!("{} objects, {} bytes, {fin:?}, xref at {}", d.items.len(), b.len(), f.xref_at));
        Ok(())
    };
    x.cases("histories", 40_000, 1_000_000, |_, r, o| {
        let d = Doc::random(r);
        let fin = random_fin(r, &d);
        run(&d, fin, o)
    });
    // all versions
    x.exhaust("versions", 256, |c, r, o| {
        for minor in 0..=255u8 {
            let mut d = Doc::random(&mut Rng::new(7));
            d.items.truncate(1);
            d.via_chunk.truncate(1);
            d.versions = vec![(c as u8, minor)];
            if r.bool() { d.versions.insert(0, (2, 0)); }
            let pdf = d.build(d.pretty);
            let b = pdf.as_bytes();
            let (ma, mi) = d.exp_version();
            if b[..9] != *format!("%PDF-{ma}.{mi}\n").as_bytes() { return Err(format!("set_version {:?}: {:?}", d.versions, esc(&b[..9]))); }
            o.evals += 1;
        }
        Ok(())
    });
    // files crossing size boundaries
    x.cases("sizes", 60, 200, |c, r, o| {
        let target = match c % 6 { 0 => 200, 1 => 65_000, 2 => 65_530, 3 => 999_000, 4 => 16_777_000, _ => 9_000 } as usize;
        if target > 10_000_000 && c > 10 && !x.thorough { return Ok(()); }
        let mut d = Doc::random(r);
        d.items.truncate(8);
        let id = d.max_id() + 1;
        d.items.push((id, What::Stream(vec![b'z'; target - r.below(200.min(target))], vec![])));
        let n = r.below(30);
        for i in 0..n { d.items.push((id + 1 + i as i32, What::Tree(Tree::Prim(Prim::Int(i as i32))))); }
        d.via_chunk = vec![r.bool(); d.items.len()];
        let fin = random_fin(r, &d);
        run(&d, fin, o)
    });
    // more objects than a narrow counter holds, in every form and through chunks
    x.cases("many objects", 6, 24, |c, r, o| {
        let mut d = Doc::random(r);
        d.items.truncate(4);
        let n = 65_600 + r.below(3000) as i32;
        let first = d.max_id() + 1;
        let step = 1 + (c as i32 / 3) % 2;
        d.items.extend((0..n).map(|i| (first + i * step, What::Tree(Tree::Prim(Prim::Int(i))))));
        if c % 2 == 1 { d.items.reverse(); }
        d.via_chunk = vec![r.bool(); d.items.len()];
        let xid = first + n * step + 3;
        let fin = match c % 3 { 0 => Fin::Table, 1 => Fin::Stream(xid), _ => Fin::Filter(xid, FilterKind::Flate) };
        o.max("objects in a file", d.items.len() as u64);
        run(&d, fin, o)
    });
    x.require("objects in a file", 65_600);
    x.require("offsets verified", 100_000);
    x.require("files with table", 1000);
    x.require("files with xref stream", 1000);
    x.require("files with filtered xref stream", 1000);
}

pub fn clip(s: &str) -> String {
    let mut e = s.len().min(900);
    while !s.is_char_boundary(e) { e -= 1; }
    s[..e].to_string()
}

/// Tiny document with the given ids; returns the parsed file.
fn tiny(ids: &[i32], pretty: bool, fin: &Fin, o: &mut Obs) -> R<()> {
    let mut pdf = Pdf::with_settings(settings(pretty));
    for &i in ids { pdf.indirect(Ref::new(i)).primitive(i); }
    let (b, _) = finish(pdf, fin);
    let f = parse_file(&b, &decode_filters).map_err(|e| format!("ids {}: {e}", clip(&format!("{ids:?}"))))?;
    let mut used: BTreeSet<i64> = ids.iter().map(|&i| i as i64).collect();
    if let Fin::Stream(i) | Fin::Filter(i, _) = fin { used.insert(*i as i64); }
    check_entries(&f, &used, o).map_err(|e| format!("{e}; ids {} {fin:?} W={:?}", clip(&format!("{ids:?}")), f.w))?;
    for (n, e) in &f.xref {
        if let XE::Used { off, .. } = e {
            if !b.get(*off as usize..).is_some_and(|s| s.starts_with(format!("{n} 0 obj").as_bytes())) { return Err(format!("ids {}: entry of {n} points to {off}", clip(&format!("{ids:?}")))); }
        }
    }
    if let Some(w) = f.w { o.seen("field widths", hash(&w)); o.max("field width", w[1] as u64); }
    Ok(())
}

/// As `tiny`, for sections of millions of entries: judged in place, with a reader of its own.
fn wide(ids: &[i32], xid: Option<i32>, pretty: bool, o: &mut Obs) -> R<()> {
    let mut pdf = Pdf::with_settings(settings(pretty));
    for &i in ids { pdf.indirect(Ref::new(i)).primitive(i); }
    let b = match xid { None => pdf.finish(), Some(x) => pdf.finish_with_xref_stream(Ref::new(x)) };
    let err = |m: String| Err(format!("{m}; ids {} xref {xid:?}", clip(&format!("{ids:?}"))));
    let used: BTreeSet<i64> = ids.iter().copied().chain(xid).map(i64::from).collect();
    let size = used.iter().next_back().map_or(1, |m| m + 1) as usize;
    let num = |b: &[u8]| -> Option<u64> { if b.is_empty() || b.len() > 19 || !b.iter().all(u8::is_ascii_digit) { None } else { Some(b.iter().fold(0, |a, d| a * 10 + (d - b'0') as u64)) } };
    let tail = &b[b.len().saturating_sub(60)..];
    let at = tail.windows(10).rposition(|w| w == b"startxref\n").map(|k| k + 10);
    let start = at.and_then(|k| num(tail[k..].split(|&c| c == b'\n').next().unwrap())).unwrap_or(u64::MAX) as usize;
    let Some(sec) = b.get(start..) else { return err("startxref leads nowhere".into()) };
    // kind 0: free, 1: used, 9: no entry
    let mut kind = vec![9u8; size];
    let mut field = vec![0u64; size];
    let dict;
    if xid.is_none() {
        if !sec.starts_with(b"xref\n") { return err("no table at startxref".into()); }
        let mut p = 5;
        while !sec[p..].starts_with(b"trailer") {
            let e = sec[p..].iter().position(|&c| c == b'\n').unwrap_or(0);
            let h: Vec<Option<u64>> = sec[p..p + e].split(|&c| c == b' ').map(num).collect();
            let &[Some(first), Some(n)] = &h[..] else { return err(format!("bad subsection header {:?}", esc(&sec[p..p + e]))) };
            p += e + 1;
            for k in first as usize..(first + n) as usize {
                let Some(l) = sec.get(p..p + 20) else { return err("the table is cut off".into()) };
                let (Some(f), Some(g)) = (num(&l[..10]), num(&l[11..16])) else { return err(format!("bad entry {k}: {:?}", esc(l))) };
                if l[10] != b' ' || l[16] != b' ' || !matches!(l[17], b'n' | b'f') || !matches!(&l[18..], b"\r\n" | b" \n" | b" \r") { return err(format!("bad entry {k}: {:?}", esc(l))); }
                if kind.get(k) != Some(&9) { return err(format!("entry {k} is one too many (Size should be {size})")); }
                kind[k] = (l[17] == b'n') as u8;
                field[k] = f;
                if if kind[k] == 1 { g != 0 } else { (g == 65535) != (k == 0) } { return err(format!("object {k} has generation {g}")); }
                p += 20;
            }
        }
        dict = P::at(&sec[..sec.len().min(p + 2000)], p + 7).obj()?;
    } else {
        let x = xid.unwrap();
        let h = format!("{x} 0 obj\n");
        if !sec.starts_with(h.as_bytes()) { return err("no cross-reference stream at startxref".into()); }
        dict = P::at(&sec[..sec.len().min(2000)], h.len()).obj()?;
        let w: Vec<usize> = match dict.get(b"W") { Some(V::Arr(a)) => a.iter().map(|v| v.int().unwrap_or(-1) as usize).collect(), _ => vec![] };
        if w.len() != 3 || w.iter().any(|&w| w > 8) { return err(format!("/W {w:?}")); }
        let row: usize = w.iter().sum();
        let Some(s) = sec[..2000.min(sec.len())].windows(7).position(|w| w == b"stream\n") else { return err("no data".into()) };
        let len = dict.get(b"Length").and_then(V::int).unwrap_or(-1) as usize;
        if len != row * size { return err(format!("{len} bytes for {size} entries of {row}")); }
        let Some(d) = sec.get(s + 7..s + 7 + len) else { return err("the data is cut off".into()) };
        let be = |b: &[u8]| b.iter().fold(0u64, |a, &x| a << 8 | x as u64);
        for (k, l) in d.chunks_exact(row).enumerate() {
            let (t, f, g) = (if w[0] == 0 { 1 } else { be(&l[..w[0]]) }, be(&l[w[0]..w[0] + w[1]]), be(&l[w[0] + w[1]..]));
            if t > 1 { return err(format!("object {k} has type {t}")); }
            kind[k] = t as u8;
            field[k] = f;
            if if t == 1 { g != 0 } else { (g == 65535) != (k == 0) } { return err(format!("object {k} has generation {g}")); }
        }
        o.max("field width", w[1] as u64);
    }
    if dict.get(b"Size").and_then(V::int) != Some(size as i64) { return err(format!("/Size {:?} for {size}", dict.get(b"Size"))); }
    let mut free = 0u64;
    for k in 0..size {
        if kind[k] == 9 { return err(format!("object {k} has no entry")); }
        free += (kind[k] == 0) as u64;
    }
    if size as u64 - free != used.len() as u64 { return err(format!("{} entries in use, {} objects", size as u64 - free, used.len())); }
    for &n in &used {
        if kind[n as usize] != 1 || !b.get(field[n as usize] as usize..).is_some_and(|s| s.starts_with(format!("{n} 0 obj").as_bytes())) { return err(format!("entry of {n}: kind {}, {}", kind[n as usize], field[n as usize])); }
    }
    let (mut cur, mut steps) = (0usize, 0u64);
    loop {
        if kind.get(cur) != Some(&0) { return err(format!("the free list leads to {cur}: {:?}", kind.get(cur))); }
        kind[cur] = 2;
        steps += 1;
        cur = field[cur] as usize;
        if cur == 0 { break; }
    }
    if steps != free { return err(format!("free list has {steps} of {free} free objects")); }
    o.count("free entries checked", free);
    o.max("object number in a wide section", size as u64 - 1);
    Ok(())
}

pub fn c02(x: &Ctx) {
    x.rule("All subsets of the numbers 1..12 in a random writing order, both forms, plus random sparse/dense/boundary id sets (numbers up to 16.8 million quick, 33 million thorough) in small and large files; the whole section is decoded and every entry and the free chain judged. Non-trivial: distinct id set.");
    x.exhaust("subsets", 1 << 12, |c, r, o| {
        let mut ids: Vec<i32> = (1..=12).filter(|i| c >> (i - 1) & 1 == 1).collect();
        r.shuffle(&mut ids);
        tiny(&ids, r.bool(), &Fin::Table, o)?;
        for xid in 1..=15 {
            if !ids.contains(&xid) {
                let fin = if r.bool() { Fin::Stream(xid) } else { Fin::Filter(xid, FilterKind::Flate) };
                tiny(&ids, r.bool(), &fin, o)?;
                o.eval(hash(&(&ids, xid)), true);
            }
        }
        o.eval(hash(&ids), true);
        o.seen("id sets", c);
        o.sample(|| format!("{ids:?}"));
        Ok(())
    });
    x.cases("random", 20_000, 300_000, |_, r, o| {
        let n = match r.below(4) { 0 => r.below(4), 1 => r.below(20), 2 => r.below(100), _ => r.below(400) };
        let ids = gen_ids(r, n);
        let max = ids.iter().copied().max().unwrap_or(0);
        let xid = loop { let c = if r.bool() { max + 1 + if r.bool() { 0 } else { r.range(0, 700) as i32 } } else { r.range(1, max.max(1) as i64) as i32 }; if !ids.contains(&c) { break c } };
        let fin = match r.below(3) { 0 => Fin::Table, 1 => Fin::Stream(xid), _ => Fin::Filter(xid, FilterKind::HexFlate) };
        tiny(&ids, r.bool(), &fin, o)?;
        o.eval(hash(&(&ids, format!("{fin:?}"))), true);
        o.seen("id sets", hash(&ids));
        Ok(())
    });
    // full documents from the C01 generator, judged for entries
    x.cases("documents", 5_000, 100_000, |_, r, o| {
        let d = Doc::random(r);
        let fin = random_fin(r, &d);
        let (b, _) = finish(d.build(d.pretty), &fin);
        let f = parse_file(&b, &decode_filters)?;
        let mut used: BTreeSet<i64> = d.items.iter().map(|i| i.0 as i64).collect();
        if let Fin::Stream(i) | Fin::Filter(i, _) = fin { used.insert(i as i64); }
        check_entries(&f, &used, o).map_err(|e| format!("{e}; {}", clip(&format!("{d:?}"))))?;
        o.eval(sig_doc(&d), true);
        Ok(())
    });
    // width boundaries: largest number vs file size
    let big: &[i32] = if x.thorough { &[255, 256, 257, 65535, 65536, 65537, 1_000_000, 16_777_215, 16_777_216, 16_777_217] } else { &[127, 128, 200, 254, 255, 256, 257, 1000, 32767, 65534, 65535, 65536, 65537, 100_000, 300_000] };
    x.exhaust("widths", big.len() as u64 * 8, |c, r, o| {
        let m = big[c as usize / 8];
        let mut ids = match c % 4 { 0 => vec![m], 1 => vec![1, m], 2 => vec![m, m - 1, 3, 1], _ => (1..40).chain([m]).collect() };
        ids.dedup();
        let x2 = if c % 8 < 4 { m + 1 } else { 50.min(m - 2) };
        let fin = match c % 3 { 0 => Fin::Table, _ if ids.contains(&x2) => Fin::Stream(m + 2), _ => Fin::Stream(x2) };
        tiny(&ids, r.bool(), &fin, o)?;
        // the largest number is the stream itself
        tiny(&[1, 5], r.bool(), &Fin::Stream(m), o)?;
        o.eval(hash(&("w", c)), true);
        Ok(())
    });
    // many used numbers, with and without gaps, and widths of four bytes
    x.cases("many objects", 8, 32, |c, r, o| {
        let n = 65_600 + r.below(2000) as i32;
        let mut ids: Vec<i32> = match c % 4 { 0 => (1..=n).collect(), 1 => (1..=n).filter(|i| i % 17 != 3).collect(), 2 => (1..=n).map(|i| i * 2).collect(), _ => (1..=n).map(|i| i + (i > 300) as i32 * 66_000).collect() };
        if r.bool() { r.shuffle(&mut ids); }
        let top = ids.iter().copied().max().unwrap();
        tiny(&ids, r.bool(), &if c % 8 < 4 { Fin::Table } else { Fin::Stream(top + 1 + r.below(3) as i32) }, o)?;
        o.max("used numbers in a section", n as u64);
        o.eval(hash(&("many", c)), true);
        Ok(())
    });
    // numbers of every width
    static ROOM: std::sync::Mutex<()> = std::sync::Mutex::new(());
    x.cases("wide numbers", 90, 600, |c, r, o| {
        let (lo, hi) = match c { 0..=3 => (24, 24), 4..=9 => (22, 23), 10..=29 => (19, 21), _ => (16, 18) };
        let (lo, hi) = if x.thorough && c < 2 { (25, 25) } else { (lo, hi) };
        let m = match r.below(3) { 0 if hi == 24 => 16_777_215 + r.range(0, 3) as i32, 0 if hi == 23 => 10_000_000 - 1 + r.range(0, 2) as i32, 0 if hi == 21 => 1_000_000 - 1 + r.range(0, 2) as i32, _ => (1 << r.range(lo, hi)) + r.range(-2, 40) as i32 };
        let mut set: BTreeSet<i32> = [m].into();
        for _ in 0..r.len(6) {
            let v = match r.below(4) { 0 => m - r.range(0, 9) as i32, 1 => r.range(1, 9) as i32, 2 => (1 << r.range(0, hi)) + r.range(-2, 2) as i32, _ => r.range(1, m as i64) as i32 };
            if (1..=m).contains(&v) { set.insert(v); }
        }
        let mut ids: Vec<i32> = set.into_iter().collect();
        let xid = match c % 3 { 0 => None, 1 => Some(m + 1), _ => (1..9).find(|k| !ids.contains(k)) };
        r.shuffle(&mut ids);
        let _room = (hi > 21).then(|| ROOM.lock().unwrap_or_else(|e| e.into_inner()));
        wide(&ids, xid, r.bool(), o)?;
        o.eval(hash(&(&ids, xid)), true);
        Ok(())
    });
    x.require("object number in a wide section", 1 << 20);
    x.exhaust("large files", 4, |c, _r, o| {
        let data = vec![b'z'; [65_500, 70_000, 16_777_200, 16_900_000][c as usize]];
        for fin in [Fin::Table, Fin::Stream(2), Fin::Stream(9)] {
            let mut pdf = Pdf::with_settings(settings(c % 2 == 0));
            pdf.indirect(Ref::new(6)).primitive(1);
            pdf.stream(Ref::new(3), &data);
            pdf.indirect(Ref::new(4)).primitive(1);
            let (b, _) = finish(pdf, &fin);
            let f = parse_file(&b, &decode_filters)?;
            let mut used: BTreeSet<i64> = [3, 4, 6].into();
            if let Fin::Stream(i) = fin { used.insert(i as i64); }
            check_entries(&f, &used, o)?;
            for (n, e) in &f.xref { if let XE::Used { off, .. } = e { if !b[*off as usize..].starts_with(format!("{n} 0 obj").as_bytes()) { return Err(format!("entry of {n} points to {off} in a file of {} bytes", b.len())); } } }
            o.eval(hash(&(c, format!("{fin:?}"))), true);
        }
        o.max("file size", data.len() as u64);
        Ok(())
    });
    x.require("used numbers in a section", 65_600);
    x.require("free entries checked", 100_000);
    x.require("used entries checked", 100_000);
    x.require("id sets", 4096);
    x.require("field width", 3);
}

pub fn c03(x: &Ctx) {
    x.rule("The same random document finished with a table, an xref stream and a filtered xref stream (single, multiple, empty list of filters, arbitrary data); the three results are compared entry by entry. Non-trivial: distinct document and filter.");
    x.cases("agreement", 20_000, 400_000, |i, r, o| {
        let mut d = Doc::random(r);
        if i < 6 {
            // more objects, or larger offsets, than narrow fields hold
            let first = d.max_id() + 1;
            if i < 3 { d.items.extend((0..65_700).map(|k| (first + k + (k > 500) as i32, What::Tree(Tree::Prim(Prim::Int(k)))))); }
            else { d.items.push((first, What::Stream(vec![b'z'; [65_600, 16_777_300, 17_000_000][i as usize - 3]], vec![]))); d.items.push((first + 2, What::Tree(Tree::Prim(Prim::Null)))); }
            d.via_chunk = vec![r.bool(); d.items.len()];
            o.max("objects in a document", d.items.len() as u64);
        }
        let xid = fresh_xref_id(r, &d);
        let (t, _) = finish(d.build(d.pretty), &Fin::Table);
        let (s, _) = finish(d.build(d.pretty), &Fin::Stream(xid));
        let kind = *r.pick(&[FilterKind::Flate, FilterKind::Hex, FilterKind::HexFlate, FilterKind::Empty]);
        let (z, seen) = finish(d.build(d.pretty), &Fin::Filter(xid, kind));
        let ctx = |e: String| format!("{e}; xref id {xid} {kind:?} doc {}", clip(&format!("{d:?}")));
        let ft = parse_file(&t, &decode_filters).map_err(ctx)?;
        let fs = parse_file(&s, &decode_filters).map_err(ctx)?;
        let fz = parse_file(&z, &decode_filters).map_err(ctx)?;
        let Some((raw, out)) = seen else { return Err(ctx("the filter callback was not called".into())) };
        let (sx, zx) = (fs.xref_stream.as_ref().ok_or("no xref stream")?, fz.xref_stream.as_ref().ok_or("no xref stream")?);
        if sx.data.as_deref() != Some(&raw[..]) { return Err(ctx("the filter callback did not get the unfiltered entries".into())); }
        if zx.data.as_deref() != Some(&out[..]) { return Err(ctx("the filtered data was not stored verbatim".into())); }
        if decode_filters(&zx.v, zx.data.as_ref().unwrap()).map_err(ctx)? != raw { return Err(ctx("decoding does not give the entries back".into())); }
        if fs.xref != fz.xref { return Err(ctx("filtering changed the entries".into())); }
        let expf = match kind {
            FilterKind::Flate => Some(nm("FlateDecode")), FilterKind::Hex => Some(nm("ASCIIHexDecode")),
            FilterKind::HexFlate => Some(V::Arr(vec![nm("ASCIIHexDecode"), nm("FlateDecode")])), _ => None,
        };
        match (&expf, zx.v.get(b"Filter")) {
            (Some(a), Some(b)) if diff(a, b, true).is_none() => {}
            (None, None) => {}
            (None, Some(V::Arr(a))) if a.is_empty() => {}
            (_, g) => return Err(ctx(format!("declared filter {:?}", g.map(show)))),
        }
        if sx.v.get(b"Filter").is_some() { return Err(ctx("unfiltered stream declares a filter".into())); }
        if sx.id != xid as i64 || zx.id != xid as i64 { return Err(ctx("wrong id of the xref stream".into())); }
        // objects and offsets
        if ft.objs.len() != fs.objs.len() || ft.objs.iter().zip(&fs.objs).any(|(a, b)| a.id != b.id || a.v != b.v || a.data != b.data || a.start != b.start) { return Err(ctx("the two forms contain different objects".into())); }
        let ut: BTreeSet<(u64, u64)> = ft.xref.iter().filter_map(|e| if let XE::Used { off, .. } = e.1 { Some((e.0, off)) } else { None }).collect();
        let mut us: BTreeSet<(u64, u64)> = fs.xref.iter().filter_map(|e| if let XE::Used { off, .. } = e.1 { Some((e.0, off)) } else { None }).collect();
        if !us.remove(&(xid as u64, fs.xref_at as u64)) { return Err(ctx("the xref stream does not list itself".into())); }
        if ut != us { return Err(ctx(format!("in-use entries differ: table {ut:?} stream {us:?}"))); }
        let fr = |f: &PdfFile| -> BTreeSet<u64> { f.xref.iter().filter(|e| matches!(e.1, XE::Free { .. })).map(|e| e.0).collect() };
        let size = fs.trailer.get(b"Size").and_then(V::int).unwrap_or(0) as u64;
        let mut want = fr(&ft);
        want.extend((ft.xref.len() as u64)..size);
        want.remove(&(xid as u64));
        if fr(&fs) != want { return Err(ctx(format!("free numbers differ: {:?} vs {want:?}", fr(&fs)))); }
        for k in [&b"Root"[..], b"Info", b"ID"] {
            if ft.trailer.get(k) != fs.trailer.get(k) || ft.trailer.get(k) != fz.trailer.get(k) { return Err(ctx(format!("trailer entry {} differs", esc(k)))); }
        }
        o.count("documents compared", 1);
        o.count("entries compared", ut.len() as u64 + want.len() as u64);
        o.eval(hash(&(sig_doc(&d), xid, format!("{kind:?}"))), true);
        o.sample(|| format!("{} objects, xref stream {xid}, {kind:?}: {} raw bytes, {} stored", d.items.len(), raw.len(), out.len()));
        Ok(())
    });
    // arbitrary callback results: stored verbatim and declared in order, nothing else assumed
    x.cases("callbacks", 4000, 60_000, |c, r, o| {
        let d = Doc::random(r);
        let xid = fresh_xref_id(r, &d);
        let (z, seen) = finish(d.build(d.pretty), &Fin::Filter(xid, FilterKind::Garbage(c as usize)));
        let (s, _) = finish(d.build(d.pretty), &Fin::Stream(xid));
        let (raw, out) = seen.ok_or("the filter callback was not called")?;
        // the decoder is told the answer: it only checks the stored bytes
        let got: std::cell::RefCell<Option<Vec<u8>>> = Default::default();
        let fz = parse_file(&z, &|_, data| { *got.borrow_mut() = Some(data.to_vec()); Ok(raw.clone()) })?;
        if got.borrow().as_deref() != Some(&out[..]) { return Err("callback output not stored verbatim".into()); }
        let fs = parse_file(&s, &decode_filters)?;
        if fs.xref_stream.unwrap().data.as_deref() != Some(&raw[..]) { return Err("callback input differs from the unfiltered entries".into()); }
        let i = c as usize;
        let exp = if i % 3 == 0 { V::Arr(many_filters(i).map(|k| nm(FILTERS[k].1)).collect()) } else { nm(FILTERS[i % 10].1) };
        match fz.xref_stream.as_ref().unwrap().v.get(b"Filter") {
            Some(g) if diff(&exp, g, true).is_none() => {}
            g => return Err(format!("declared filter {:?}, expected {}", g.map(show), show(&exp))),
        }
        o.count("callbacks observed", 1);
        o.eval(hash(&(sig_doc(&d), c)), true);
        Ok(())
    });
    x.require("documents compared", 1000);
    x.require("callbacks observed", 1000);
}

/// Numbers mentioned in a message.
fn numbers(s: &str) -> Vec<i64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}

pub fn c04(x: &Ctx) {
    x.rule("All id sequences of length 0..5 over 1..5 (both forms), random longer ones with 0, 1 or many repetitions whose copies come from direct writes, chunks, renumbering, catalog/info or the xref stream id. Oracle: set arithmetic on the written ids; panic iff repeated, and the message names a repeated number. Non-trivial: distinct id sequence and form.");
    fn judge(ids: &[i64], res: Result<(), String>, o: &mut Obs, what: &dyn Fn() -> String) -> R<()> {
        let mut seen = BTreeSet::new();
        let dups: BTreeSet<i64> = ids.iter().copied().filter(|i| !seen.insert(*i)).collect();
        match res {
            Ok(()) => {
                o.count("accepted", 1);
                if !dups.is_empty() { return Err(format!("repeated numbers {dups:?} were accepted: {}", what())); }
            }
            Err(m) => {
                o.count("rejected", 1);
                let msg = m.rsplit_once(" @ ").map_or(&m[..], |x| x.0);
                if dups.is_empty() { return Err(format!("distinct numbers were rejected ({m}): {}", what())); }
                if !numbers(msg).iter().any(|n| dups.contains(n)) { return Err(format!("the message {msg:?} names no repeated number {dups:?}: {}", what())); }
            }
        }
        Ok(())
    }
    x.exhaust("small", 5u64.pow(5) * 6, |c, r, o| {
        let len = (c / 3125) as usize;
        if len > 5 { return Ok(()); }
        let mut k = c % 3125;
        if k >= 5u64.pow(len as u32) { return Ok(()); }
        let ids: Vec<i32> = (0..len).map(|_| { let d = k % 5 + 1; k /= 5; d as i32 }).collect();
        for xid in 0..=6 {
            let pretty = r.bool();
            let res = guarded(|| {
                let mut p = Pdf::with_settings(settings(pretty));
                for &i in &ids { p.indirect(Ref::new(i)).primitive(i); }
                if xid == 0 { p.finish() } else { p.finish_with_xref_stream(Ref::new(xid)) };
            });
            let mut all: Vec<i64> = ids.iter().map(|&i| i as i64).collect();
            if xid > 0 { all.push(xid as i64); }
            judge(&all, res, o, &|| format!("{ids:?}, xref stream {xid}"))?;
            o.eval(hash(&(&ids, xid)), len > 0);
        }
        Ok(())
    });
    // Numbers that agree in their low bits (or are far apart) are distinct all the same.
    x.exhaust("far apart", 24 * if x.thorough { 16 } else { 4 }, |c, r, o| {
        let bit = 1i32 << (c % 24);
        let low = r.range(1, 40) as i32;
        let mut ids = vec![low, low + bit];
        for _ in 0..r.below(4) { let y = r.range(1, 40) as i32 + if r.bool() { bit } else { 0 }; if !ids.contains(&y) { ids.push(y); } }
        if bit > 2 { ids.push(low ^ (bit >> 1)); ids.dedup(); }
        if ids[ids.len() - 1] < 1 || ids[..ids.len() - 1].contains(&ids[ids.len() - 1]) { ids.pop(); }
        r.shuffle(&mut ids);
        if c / 24 % 4 == 3 { let y = *r.pick(&ids); ids.push(y); }
        let (pretty, stream) = (r.bool(), c / 24 % 2 == 1);
        let xid = ids.iter().max().unwrap() + 1;
        let res = guarded(|| {
            let mut p = Pdf::with_settings(settings(pretty));
            for &i in &ids { p.indirect(Ref::new(i)).primitive(i); }
            if stream { p.finish_with_xref_stream(Ref::new(xid)) } else { p.finish() };
        });
        let all: Vec<i64> = ids.iter().map(|&i| i as i64).collect();
        judge(&all, res, o, &|| format!("{ids:?}"))?;
        o.max("number", xid as u64);
        o.eval(hash(&(&ids, stream)), true);
        Ok(())
    });
    x.cases("random", 20_000, 400_000, |_, r, o| {
        let n = match r.below(3) { 0 => r.below(6), 1 => r.below(30), _ => r.below(300) };
        let mut ids = gen_ids(r, n);
        let dup = r.below(3);
        let mut copies = vec![];
        if n > 0 && dup > 0 {
            let k = if dup == 1 { 1 } else { 1 + r.below(5) };
            for _ in 0..k {
                // bias towards the extremes
                let mut sorted = ids.clone();
                sorted.sort();
                let id = match r.below(4) { 0 => sorted[0], 1 => *sorted.last().unwrap(), _ => *r.pick(&ids) };
                copies.push(id);
            }
        }
        for &c in &copies { let at = r.below(ids.len() + 1); ids.insert(at, c); }
        let route: Vec<u8> = ids.iter().map(|_| r.below(5) as u8).collect();
        let pretty = r.bool();
        let shape = r.below(4);
        let max = ids.iter().copied().max().unwrap_or(0);
        let xid = match r.below(3) { 0 => max + 1, 1 if !ids.is_empty() => *r.pick(&ids), _ => r.range(1, max as i64 + 5) as i32 };
        let res = guarded(|| {
            let mut p = Pdf::with_settings(settings(pretty));
            let mut chunk = Chunk::with_settings(settings(pretty));
            for (&i, &w) in ids.iter().zip(&route) {
                match w {
                    0 => { p.indirect(Ref::new(i)).dict(); }
                    1 => { chunk.indirect(Ref::new(i)).array(); }
                    2 => { let mut c = Chunk::new(); c.stream(Ref::new(1), b"abc"); p.extend(&c.renumber(|_| Ref::new(i))); }
                    3 => { let mut c = Chunk::new(); c.indirect(Ref::new(i)).primitive(Null); c.renumber_into(&mut chunk, |x| x); }
                    _ => { if i % 2 == 0 { p.catalog(Ref::new(i)); } else { p.document_info(Ref::new(i)); } }
                }
            }
            p.extend(&chunk);
            match shape {
                0 | 1 => p.finish(),
                2 => p.finish_with_xref_stream(Ref::new(xid)),
                _ => p.finish_with_xref_stream_and_filter(Ref::new(xid), |b| (b.to_vec(), XRefFilter::Multiple(vec![]))),
            };
        });
        let mut all: Vec<i64> = ids.iter().map(|&i| i as i64).collect();
        if shape >= 2 { all.push(xid as i64); }
        judge(&all, res, o, &|| clip(&format!("{ids:?} routes {route:?} shape {shape} xref {xid}")))?;
        o.eval(hash(&(&ids, &route, shape, xid)), n > 0);
        o.sample(|| clip(&format!("{ids:?} shape {shape} xref {xid}")));
        Ok(())
    });
    // documents with more objects than a narrow counter holds, with one repetition or none
    x.cases("many objects", 48, 400, |c, r, o| {
        let n = [70_000, 66_000, 33_000, 5_000][c as usize % 4] + r.below(500) as i32;
        let mut ids: Vec<i32> = (1..=n).map(|i| if c % 3 == 0 { i * 3 } else { i }).collect();
        if r.bool() { r.shuffle(&mut ids); }
        let dup = match r.below(4) { 0 => None, 1 => Some(n), 2 => Some(*r.pick(&ids)), _ => Some(ids[ids.len() - 1]) }.filter(|d| ids.contains(d));
        if let Some(d) = dup { let at = if r.bool() { ids.len() } else { r.below(ids.len() + 1) }; ids.insert(at, d); }
        let free = ids.iter().max().unwrap() + 1;
        let xid = match r.below(4) { 0 => None, 1 if dup.is_none() => Some(*r.pick(&ids)), _ => Some(free) };
        let res = guarded(|| {
            let mut p = Pdf::with_settings(settings(c % 2 == 0));
            let mut k = Chunk::with_settings(settings(c % 2 == 0));
            let half = ids.len() / 2;
            for &i in &ids[..half] { p.indirect(Ref::new(i)).primitive(Null); }
            for &i in &ids[half..] { k.indirect(Ref::new(i)).primitive(Null); }
            p.extend(&k);
            match xid { None => { p.finish(); } Some(x) => { p.finish_with_xref_stream(Ref::new(x)); } }
        });
        let all: Vec<i64> = ids.iter().copied().chain(xid).map(|i| i as i64).collect();
        judge(&all, res, o, &|| format!("{n} objects, repeated {dup:?}, xref {xid:?}"))?;
        o.max("objects in a document", n as u64);
        o.eval(hash(&(c, n, dup, xid)), true);
        Ok(())
    });
    x.require("objects in a document", 70_000);
    x.require("accepted", 2000);
    x.require("rejected", 2000);
}

type StreamWriter = fn(&mut Chunk, Ref, &[u8], &[(Vec<u8>, Prim)]);
macro_rules! sw {
    ($name:literal, $m:ident) => {
        ($name, |c, id, data, extra| {
            let data = un(data);
            let mut s = c.$m(id, &data);
            for (k, p) in extra { p.put(IntoObj(s.insert(Name(k)))); }
        })
    };
}
pub const STREAM_WRITERS: &[(&str, StreamWriter)] = &[
    sw!("stream", stream), sw!("embedded_file", embedded_file), sw!("metadata", metadata), sw!("image_xobject", image_xobject),
    sw!("form_xobject", form_xobject), sw!("cmap", cmap), sw!("stream_shading", stream_shading), sw!("tiling_pattern", tiling_pattern),
    sw!("icc_profile", icc_profile), sw!("sampled_function", sampled_function), sw!("post_script_function", post_script_function),
];

pub fn c10(x: &Ctx) {
    x.rule("Hostile and random data (keywords, delimiters, line ends, binary, empty, up to 1 MB quick / 64 MB thorough) in every stream writer with random extra dictionary entries and filters, several streams per chunk, both layouts. Non-trivial: distinct data and writer.");
    x.cases("data", 40_000, 1_500_000, |_, r, o| {
        let pretty = r.bool();
        let mut c = Chunk::with_settings(settings(pretty));
        let n = 1 + r.below(3);
        let mut exp = vec![];
        for i in 0..n {
            let w = r.below(STREAM_WRITERS.len());
            let data = stream_data(r);
            let k = r.len(4);
            let extra: Vec<(Vec<u8>, Prim)> = (0..k).map(|_| (r.key(), Prim::random(r))).collect();
            STREAM_WRITERS[w].1(&mut c, Ref::new(i as i32 + 1), &data, &extra);
            exp.push((w, data, extra));
        }
        let (obs, _) = parse_body(c.as_bytes()).map_err(|e| format!("{e}; {exp:?}"))?;
        if obs.len() != n { return Err(format!("{n} streams written, {} objects found: {exp:?}", obs.len())); }
        for ((w, data, extra), ob) in exp.iter().zip(&obs) {
            let name = STREAM_WRITERS[*w].0;
            if ob.data.as_ref() != Some(data) { return Err(format!("{name}: data {:?} came back as {:?}", esc(data), ob.data.as_ref().map(|d| esc(d)))); }
            // exactly the keyword lines around the data
            let (s, e) = ob.data_at.unwrap();
            let b = c.as_bytes();
            if !b[..s].ends_with(b"stream\n") && !b[..s].ends_with(b"stream\r\n") { return Err(format!("{name}: bad stream keyword line")); }
            if !b[e..].starts_with(b"\nendstream") && !b[e..].starts_with(b"\r\nendstream") { return Err(format!("{name}: no line end before endstream")); }
            let V::Dict(d) = &ob.v else { return Err("no dictionary".into()) };
            let lens: Vec<&V> = d.iter().filter(|e| e.0 == b"Length").map(|e| &e.1).collect();
            if lens.len() != 1 || lens[0].int() != Some(data.len() as i64) { return Err(format!("{name}: /Length {lens:?} for {} bytes", data.len())); }
            // the entries added by us, in order, at the end of what the writer itself wrote
            let fixed = d.len() - extra.len().min(d.len());
            let ours: Vec<(Vec<u8>, V)> = d[fixed..].to_vec();
            let want = V::Dict(extra.iter().map(|(k, p)| (k.clone(), p.exp())).collect());
            if let Some(df) = diff(&want, &V::Dict(ours), true) { return Err(format!("{name}: {df}")); }
            if name == "stream" && fixed != 1 { return Err(format!("plain stream has {} entries of its own", fixed)); }
            o.count("streams checked", 1);
            o.count(&format!("via {name}"), 1);
            o.eval(hash(&(data, w)), !data.is_empty());
            o.max("data length", data.len() as u64);
        }
        o.sample(|| format!("{} {}", STREAM_WRITERS[exp[0].0].0, esc(&exp[0].1)));
        Ok(())
    });
    // all boundary bytes: every first/last byte pair
    x.exhaust("boundary-bytes", 256, |c, r, o| {
        for l in 0..=255u8 {
            let data = if l == 0 { vec![c as u8] } else { vec![c as u8, l] };
            let mut k = Chunk::with_settings(settings(r.bool()));
            let (_, w) = *r.pick(STREAM_WRITERS);
            w(&mut k, Ref::new(3), &data, &[]);
            let (obs, _) = parse_body(k.as_bytes())?;
            if obs.len() != 1 || obs[0].data.as_ref() != Some(&data) { return Err(format!("{data:?}: {:?}", esc(k.as_bytes()))); }
            o.evals += 1;
            o.count("streams checked", 1);
        }
        Ok(())
    });
    // filters on plain streams, and big data
    x.cases("filters", 2000, 20_000, |c, r, o| {
        let (f, n) = FILTERS[c as usize % 10];
        let data = stream_data(r);
        let mut k = Chunk::with_settings(settings(r.bool()));
        { let mut s = k.stream(Ref::new(1), &data); s.filter(f); s.decode_parms().columns(5); s.pair(Name(b"X"), Null); }
        let (obs, _) = parse_body(k.as_bytes())?;
        let want = V::Dict(vec![(b"Length".to_vec(), V::Int(data.len() as i64)), (b"Filter".to_vec(), nm(n)), (b"DecodeParms".to_vec(), V::Dict(vec![(b"Columns".to_vec(), V::Int(5))])), (b"X".to_vec(), V::Null)]);
        if obs.len() != 1 || obs[0].data.as_ref() != Some(&data) { return Err("data differs".into()); }
        if let Some(d) = diff(&want, &obs[0].v, true) { return Err(d); }
        o.eval(hash(&(&data, n)), true);
        o.seen("filters", hash(n));
        Ok(())
    });
    // how long data ends, and what else its dictionary holds
    fn dress(r: &mut Rng, data: &mut Vec<u8>) -> Vec<(Vec<u8>, Prim)> {
        let tail: &[u8] = *r.pick(&[&b""[..], b"\0", b"\0\0\0\0", b"\n", b"\r\n", b"\r", b" ", b"endstream", b"\nendstream", b"endstream\nendobj\n", b"\xff", b">>", b"%"]);
        let (n, k) = (data.len(), tail.len().min(data.len()));
        data[n - k..].copy_from_slice(&tail[tail.len() - k..]);
        if r.chance(1, 4) && n > 0 { data[0] = *r.pick(b"\0\n\r \xff%"); }
        (0..r.len(4)).map(|_| (r.key(), Prim::random(r))).collect()
    }
    x.cases("big", 55, 110, |c, r, o| {
        let small = [1 << 20, 1_000_000, 3 << 19, 2 << 20, 4 << 20];
        let n = match c {
            0..=7 if !x.thorough => [8 << 20, 10_000_000, 16 << 20, 16_777_216][c as usize % 4],
            0..=7 => [8 << 20, 10_000_000, 16 << 20, 64 << 20][c as usize % 4],
            c => small[c as usize % 5],
        } as i64 + r.range(-2, 2);
        let mut data: Vec<u8> = (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes()[7]).collect();
        let extra = dress(r, &mut data);
        let mut k = Chunk::with_settings(settings(r.bool()));
        STREAM_WRITERS[c as usize % STREAM_WRITERS.len()].1(&mut k, Ref::new(1), &data, &extra);
        let (obs, _) = parse_body(k.as_bytes())?;
        if obs.len() != 1 || obs[0].data.as_ref() != Some(&data) { return Err("big data differs".into()); }
        if obs[0].v.get(b"Length").and_then(V::int) != Some(n) { return Err(format!("/Length of {n} bytes")); }
        o.max("data length", n as u64);
        o.eval(c, true);
        Ok(())
    });
    // lengths around every likely threshold, in every writer
    x.exhaust("lengths", 11 * 40 * 4, |c, r, o| {
        let c = c / 4;
        let n = [15usize, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 9999, 10_000, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 99_999, 100_000, 131_072, 199_999, 262_144, 3, 5, 7, 0][c as usize / 11];
        let fill = r.next() as u8;
        let mut data: Vec<u8> = (0..n).map(|i| if i % 7 == 0 { r.next() as u8 } else { fill }).collect();
        let extra = dress(r, &mut data);
        let mut k = Chunk::with_settings(settings(r.bool()));
        STREAM_WRITERS[c as usize % 11].1(&mut k, Ref::new(1), &data, &extra);
        STREAM_WRITERS[(c as usize + 3) % 11].1(&mut k, Ref::new(2), &data, &[]);
        let (obs, _) = parse_body(k.as_bytes())?;
        for ob in &obs {
            if ob.data.as_ref() != Some(&data) { return Err(format!("{n} bytes of data differ")); }
            if ob.v.get(b"Length").and_then(V::int) != Some(n as i64) { return Err(format!("/Length of {n} bytes")); }
        }
        if obs.len() != 2 { return Err(format!("{} objects", obs.len())); }
        o.count("streams checked", 2);
        o.eval(hash(&(c, &data)), n > 0);
        Ok(())
    });
    x.require("streams checked", 50_000);
    x.require("filters", 10);
}

struct CModel { bytes: Vec<u8>, refs: Vec<i32>, objs: Vec<(i32, What)> }

fn same(c: &Chunk, m: &CModel, what: &str) -> R<()> {
    if c.as_bytes() != &m.bytes[..] { return Err(format!("{what}: byte view differs from what was written")); }
    if c.len() != m.bytes.len() { return Err(format!("{what}: len() {} but {} bytes", c.len(), m.bytes.len())); }
    let it = c.refs();
    let n = it.len();
    let got: Vec<i32> = it.map(|r| r.get()).collect();
    if got != m.refs || n != m.refs.len() { return Err(format!("{what}: refs {got:?} (len {n}), expected {:?}", m.refs)); }
    Ok(())
}

pub fn c11(x: &Ctx) {
    x.rule("Random programs over a pool of chunks: writes, extensions (empty, self copies, repeated), clones, queries after every step; finally everything is merged into a document whose offsets are verified. Oracle: each chunk is the concatenation of what was written and merged. Non-trivial: distinct program.");
    x.cases("programs", 30_000, 800_000, |_, r, o| {
        let pretty = r.bool();
        let st = settings(pretty);
        // chunks of both layouts may be merged; each keeps writing in its own
        let mixed = r.chance(1, 3);
        let mk = |r: &mut Rng| match r.below(4) { 0 if pretty => Chunk::new(), 1 if pretty => Chunk::with_capacity(r.below(100)), 2 => Chunk::with_settings_and_capacity(st, r.below(5000)), _ => Chunk::with_settings(st) };
        let mut sts: Vec<Settings> = vec![];
        let mut pool: Vec<(Chunk, CModel)> = (0..2 + r.below(3)).map(|_| {
            let own = if mixed { settings(r.bool()) } else { st };
            sts.push(own);
            (if mixed { Chunk::with_settings(own) } else { mk(r) }, CModel { bytes: vec![], refs: vec![], objs: vec![] })
        }).collect();
        let steps = 2 + r.below(14);
        let mut log: Vec<(usize, usize, usize)> = vec![];
        let mut next = 1;
        for _ in 0..steps {
            let (i, j) = (r.below(pool.len()), r.below(pool.len()));
            let action = r.below(9);
            log.push((action, i, j));
            match action {
                0..=3 => {
                    let id = if r.chance(1, 5) { r.range(1, 400) as i32 } else { next += 1; next };
                    let w = if r.chance(1, 4) { What::Stream(stream_data(r), vec![]) } else { What::Tree(Tree::random(r, &mut 4, 3)) };
                    let (c, m) = &mut pool[i];
                    let old = c.len();
                    Doc::write_item(c, id, &w);
                    if c.as_bytes()[..old] != m.bytes[..] { return Err(format!("writing changed earlier bytes: {log:?}")); }
                    // the appended part is one complete object with the right content
                    let add = c.as_bytes()[old..].to_vec();
                    let (ob, _) = parse_body(&add)?;
                    if ob.len() != 1 || ob[0].id != id as i64 { return Err(format!("writing object {id} appended {:?}", esc(&add))); }
                    if let Some(d) = diff(&Doc::exp_value(&w), &ob[0].v, true) { return Err(d); }
                    // the same write into a fresh chunk gives the same bytes
                    let mut solo = Chunk::with_settings(sts[i]);
                    Doc::write_item(&mut solo, id, &w);
                    if solo.as_bytes() != &add[..] { return Err(format!("object {id} is written differently depending on what came before: {log:?}")); }
                    m.bytes.extend(add);
                    m.refs.push(id);
                    m.objs.push((id, w));
                    same(&pool[i].0, &pool[i].1, "after write")?;
                    o.count("writes", 1);
                }
                4..=6 => {
                    let src = if r.chance(1, 8) { Chunk::with_settings(if mixed { settings(r.bool()) } else { st }) } else { pool[j].0.clone() };
                    let empty = src.len() == 0;
                    let sm = if empty { (vec![], vec![], vec![]) } else { (pool[j].1.bytes.clone(), pool[j].1.refs.clone(), pool[j].1.objs.clone()) };
                    if pool[i].1.bytes.len() + sm.0.len() > 60_000 { continue; }
                    if i != j && !empty {
                        let (a, b) = if i < j { let (x, y) = pool.split_at_mut(j); (&mut x[i], &mut y[0]) } else { let (x, y) = pool.split_at_mut(i); (&mut y[0], &mut x[j]) };
                        a.0.extend(&b.0);
                    } else {
                        pool[i].0.extend(&src);
                    }
                    let m = &mut pool[i].1;
                    m.bytes.extend(sm.0);
                    m.refs.extend(sm.1);
                    m.objs.extend(sm.2);
                    same(&pool[i].0, &pool[i].1, "target of extend").map_err(|e| format!("{e}: {log:?}"))?;
                    same(&pool[j].0, &pool[j].1, "source of extend").map_err(|e| format!("{e}: {log:?}"))?;
                    o.count("extensions", 1);
                }
                7 => {
                    let c = pool[i].0.clone();
                    let m = &pool[i].1;
                    let m = CModel { bytes: m.bytes.clone(), refs: m.refs.clone(), objs: m.objs.clone() };
                    same(&c, &m, "clone")?;
                    if pool.len() < 6 { pool.push((c, m)); sts.push(sts[i]); }
                    else if i != j && !log.is_empty() {
                        let c = c.clone();
                        pool[j].0.clone_from(&c);
                        same(&pool[j].0, &m, "clone_from")?;
                        pool[j].1 = m;
                        sts[j] = sts[i];
                    }
                    o.count("clones", 1);
                }
                _ => {
                    pool[i].0.reserve(r.below(2000));
                    for (c, m) in &pool { same(c, m, "query")?; }
                }
            }
        }
        for (c, m) in &pool { same(c, m, "at the end").map_err(|e| format!("{e}: {log:?}"))?; }
        // Merge everything into a document. Repeated numbers are renumbered away by picking only
        // chunks whose objects are new.
        let mut pdf = Pdf::with_settings(st);
        let mut used = BTreeSet::new();
        let mut direct = Pdf::with_settings(st);
        let mut bytes = pdf.as_bytes().to_vec();
        for (c, m) in &pool {
            let s: BTreeSet<i32> = m.refs.iter().copied().collect();
            if s.len() != m.refs.len() || s.iter().any(|i| used.contains(i)) { continue; }
            used.extend(s);
            pdf.extend(c);
            bytes.extend(&m.bytes);
            for (id, w) in &m.objs { Doc::write_item(&mut direct, *id, w); }
        }
        if pdf.as_bytes() != &bytes[..] { return Err("document is not the concatenation of its chunks".into()); }
        let fin = match r.below(2) { 0 => Fin::Table, _ => Fin::Stream(used.iter().next_back().copied().unwrap_or(0) + 1) };
        let (a, _) = finish(pdf, &fin);
        let (b, _) = finish(direct, &fin);
        if a != b && !mixed { return Err(format!("merging chunks and writing directly give different files: {log:?}")); }
        let f = parse_file(&a, &decode_filters)?;
        if f.objs.len() != used.len() { return Err("objects lost in the merged document".into()); }
        let at: BTreeMap<i64, usize> = f.objs.iter().map(|o| (o.id, o.start)).collect();
        for (n, e) in &f.xref {
            if let XE::Used { off, .. } = e {
                if f.xref_stream.as_ref().is_some_and(|x| x.id == *n as i64) { continue; }
                if at.get(&(*n as i64)).map(|&p| p as u64) != Some(*off) { return Err(format!("offset of object {n} wrong after merging: {log:?}")); }
                o.count("offsets verified", 1);
            }
        }
        o.eval(hash(&(log.clone(), bytes)), true);
        o.sample(|| format!("{log:?}"));
        Ok(())
    });
    // exhaustive small merge trees: partition of k objects, folded left or right
    x.exhaust("partitions", 1 << 9, |c, r, o| {
        // c encodes for each of 9 objects whether a new chunk starts before it
        for mode in 0..3 {
            let st = settings(r.bool());
            let mut direct = Pdf::with_settings(st);
            let mut parts: Vec<Chunk> = vec![Chunk::with_settings(st)];
            for k in 0..9 {
                if c >> k & 1 == 1 { parts.push(Chunk::with_settings(st)); }
                let id = Ref::new(20 - 2 * k as i32);
                direct.indirect(id).dict().pair(Name(b"K"), k as i32);
                parts.last_mut().unwrap().indirect(id).dict().pair(Name(b"K"), k as i32);
            }
            let mut pdf = Pdf::with_settings(st);
            match mode {
                0 => for p in &parts { pdf.extend(p); },
                1 => { let mut acc = parts[0].clone(); for p in &parts[1..] { acc.extend(p); } pdf.extend(&acc); }
                _ => { let mut acc = parts.last().unwrap().clone(); for p in parts[..parts.len() - 1].iter().rev() { let mut q = p.clone(); q.extend(&acc); acc = q; } pdf.extend(&acc); }
            }
            if pdf.refs().collect::<Vec<_>>() != direct.refs().collect::<Vec<_>>() { return Err("object list differs".into()); }
            if pdf.finish() != direct.finish() { return Err(format!("partition {c:b} mode {mode}: different files")); }
            o.eval(hash(&(c, mode)), true);
        }
        Ok(())
    });
    // documents are chunks: merged into others and cloned, header and all
    x.cases("documents as chunks", 4_000, 100_000, |_, r, o| {
        let st = settings(r.bool());
        let mut all: Vec<u8> = vec![];
        let mut ids: Vec<i32> = vec![];
        let mut main = Pdf::with_settings(st);
        main.set_version(1, r.below(8) as u8);
        all.extend(main.as_bytes());
        let mut next = 1;
        let mut want: Vec<(i32, Vec<u8>)> = vec![];
        for _ in 0..r.range(1, 4) {
            let mut part = Pdf::with_settings(settings(r.bool()));
            if r.bool() { part.set_binary_marker(b"(\xe2)%"); }
            if r.bool() { part.set_file_id((vec![1], vec![2])); }
            for _ in 0..r.below(4) {
                let id = next;
                next += 1 + r.below(3) as i32;
                let from = part.len();
                if r.bool() { part.stream(Ref::new(id), b"endobj 1 0 obj"); } else { part.catalog(Ref::new(id)).pages(Ref::new(1)); }
                want.push((id, part.as_bytes()[from..].to_vec()));
                ids.push(id);
            }
            all.extend(part.as_bytes());
            let before = (part.as_bytes().to_vec(), part.refs().collect::<Vec<_>>());
            if r.bool() { main.extend(&part); } else { main.extend(&part.clone()); }
            if (part.as_bytes().to_vec(), part.refs().collect::<Vec<_>>()) != before { return Err("source changed".into()); }
            if main.as_bytes() != &all[..] { return Err("the document is not the concatenation".into()); }
        }
        if main.refs().map(|x| x.get()).collect::<Vec<_>>() != ids { return Err("object list differs".into()); }
        let table = r.bool();
        let bytes = if table { main.finish() } else { main.finish_with_xref_stream(Ref::new(next)) };
        if !bytes.starts_with(&all) { return Err("finishing changed what was written".into()); }
        let tail = &bytes[all.len()..];
        // The catalog was set in another document: this one has none.
        if tail.windows(5).any(|w| w == b"/Root" || &w[..3] == b"/ID") { return Err("the trailer names what belongs to another document".into()); }
        if table {
            let text = String::from_utf8_lossy(tail).to_string();
            for (id, w) in &want {
                let e: usize = text.lines().nth(2 + *id as usize).and_then(|l| l.get(..10)).and_then(|l| l.parse().ok()).ok_or("no entry")?;
                if !bytes[e..].starts_with(w) { return Err(format!("entry {e} of object {id} points elsewhere")); }
                o.count("offsets verified", 1);
            }
        } else {
            let f = parse_file(&bytes, &decode_filters)?;
            for (id, w) in &want {
                match f.xref.get(*id as usize) {
                    Some((n, XE::Used { off, .. })) if *n == *id as u64 => if !bytes[*off as usize..].starts_with(w) { return Err(format!("entry {off} of object {id} points elsewhere")); },
                    x => return Err(format!("object {id}: {x:?}")),
                }
                o.count("offsets verified", 1);
            }
        }
        o.eval(hash(&all), !ids.is_empty());
        Ok(())
    });
    // chunks with many objects and many bytes
    x.cases("large", 12, 60, |c, r, o| {
        let st = settings(c % 2 == 0);
        let (mut a, mut b) = (Chunk::with_settings(st), Chunk::with_settings(st));
        let mut direct = Pdf::with_settings(st);
        let n = if c < 6 { 66_000 } else { 40 };
        let pad = if c < 6 { vec![b'.'; 5] } else { vec![b'.'; [1000, 70_000, 600_000][c as usize % 3]] };
        let cut = match c % 3 { 0 => 3, 1 => n / 2, _ => n - 1 };
        for i in 0..n {
            let id = Ref::new(if c % 4 < 2 { i + 1 } else { n - i });
            for w in [if i < cut { &mut a } else { &mut b }, &mut *direct] { if i % 5 == 0 { w.stream(id, &pad); } else { w.indirect(id).array().item(Str(&pad)).item(id); } }
        }
        let (ab, bb) = (a.as_bytes().to_vec(), b.as_bytes().to_vec());
        let mut pdf = Pdf::with_settings(st);
        let head = pdf.len();
        if r.bool() { pdf.extend(&a); pdf.extend(&b); } else { let mut k = a.clone(); k.extend(&b); pdf.extend(&k); if k.as_bytes() != [&ab[..], &bb].concat() { return Err("the merged chunk is not the concatenation".into()); } }
        if pdf.as_bytes()[head..] != [&ab[..], &bb].concat() || a.as_bytes() != &ab[..] || b.as_bytes() != &bb[..] { return Err("merging large chunks changed bytes".into()); }
        if pdf.refs().collect::<Vec<_>>() != direct.refs().collect::<Vec<_>>() || pdf.refs().len() != n as usize { return Err("object list differs".into()); }
        let (x1, x2) = if c % 2 == 0 { (pdf.finish(), direct.finish()) } else { (pdf.finish_with_xref_stream(Ref::new(n + 1)), direct.finish_with_xref_stream(Ref::new(n + 1))) };
        if x1 != x2 { return Err("merging large chunks and writing directly give different files".into()); }
        let f = parse_file(&x1, &decode_filters)?;
        for (i, e) in &f.xref { if let XE::Used { off, .. } = e { if !x1[*off as usize..].starts_with(format!("{i} 0 obj").as_bytes()) { return Err(format!("offset of object {i} is wrong after merging")); } o.count("offsets verified", 1); } }
        o.max("objects merged", n as u64);
        o.max("bytes merged", (ab.len() + bb.len()) as u64);
        o.eval(hash(&("large", c)), true);
        Ok(())
    });
    x.require("objects merged", 66_000);
    x.require("bytes merged", 4_000_000);
    x.require("extensions", 5000);
    x.require("offsets verified", 20_000);
    x.require("clones", 1000);
}
