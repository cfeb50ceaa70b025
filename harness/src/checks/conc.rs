//! C27: builders on different threads never influence each other.

use crate::checks::prog::{self, *};
use crate::checks::{content, doc, renum, typed};
use crate::mon::{hash, Ctx, R};
use crate::pdf::esc;
use crate::rng::*;
use crate::val::*;
use pdf_writer::types::{SystemInfo, UnicodeCmap};
use pdf_writer::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

/// A builder that advances one call (or one object) at a time.
pub enum Builder { Content(Content), Chunk(Chunk, i32), Cmap(UnicodeCmap<u16>), Pdf(Box<Pdf>, i32) }

pub struct Work { b: Option<Builder>, r: Rng, pub left: usize }

impl Work {
    pub fn new(seed: u64) -> Work {
        let mut r = Rng::new(seed);
        let s = settings(r.bool());
        let b = match r.below(4) {
            0 => Builder::Content(Content::with_settings(s)),
            1 => Builder::Chunk(Chunk::with_settings(s), 0),
            2 => { let n = r.name(); Builder::Cmap(UnicodeCmap::new(Name(&n), SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"UCS"), supplement: 0 })) }
            _ => Builder::Pdf(Box::new(Pdf::with_settings(s)), 0),
        };
        let left = 1 + r.below(7);
        Work { b: Some(b), r, left }
    }
    pub fn step(&mut self) {
        if self.left == 0 { return; }
        self.left -= 1;
        let r = &mut self.r;
        match self.b.as_mut().expect("HARNESS: finished") {
            Builder::Content(c) => {
                let n = bulk(r);
                let mut e = content::env(r);
                for _ in 0..n { let i = e.r.below(content::OPS.len()); (content::OPS[i].1)(c, &mut e); }
            }
            Builder::Chunk(c, id) => { *id += 1; object(c, r, *id); }
            Builder::Cmap(c) => for _ in 0..bulk(r) { let g = r.u16(); if r.bool() { c.pair(g, r.scalar()); } else { let t = r.text(); c.pair_with_multiple(g, t.chars()); } },
            Builder::Pdf(p, id) => { *id += 1; object(p, r, *id); }
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        while self.left > 0 { self.step(); }
        match self.b.take().expect("HARNESS: finished") {
            Builder::Content(c) => c.finish().into_vec(),
            Builder::Chunk(c, _) => full(&c),
            Builder::Cmap(c) => c.finish().into_vec(),
            Builder::Pdf(p, _) => if self.r.bool() { (*p).finish() } else { (*p).finish_with_xref_stream(Ref::new(1000)) },
        }
    }
    pub fn alone(seed: u64) -> Vec<u8> { Work::new(seed).finish() }
}
/// How many calls in one turn: mostly one, now and then up to a likely threshold.
fn bulk(r: &mut Rng) -> usize {
    if cfg!(miri) { return 1; }
    match r.below(12) {
        0 => 98 + r.below(4),
        1 => r.below(100),
        2 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        _ => 1,
    }
}
fn object(c: &mut Chunk, r: &mut Rng, id: i32) {
    if r.bool() {
        let roots: Vec<&typed::Root> = typed::ROOTS.iter().collect();
        let d = vec![r.bytes()];
        let mut g = typed::G::new(r, 6);
        typed::program(c, &mut g, &roots, None, &[id], &d);
    } else {
        let mut b = 5;
        Tree::random(r, &mut b, 4).put(c.indirect(Ref::new(id)));
    }
}

/// Do the guarantees of the type system hold? (Decided without failing the build when they do not.)
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T> No for Probe<T> {}
#[allow(dead_code)]
struct ProbeSend<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> No for ProbeSend<T> {}
impl<T> No for ProbeSync<T> {}
impl<T: Send> ProbeSend<T> { #[allow(dead_code)] const SEND: bool = true; }
impl<T: Sync> ProbeSync<T> { #[allow(dead_code)] const SYNC: bool = true; }

/// Passes between threads whatever the compiler thinks; the probes report it.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> { fn get(&self) -> &T { &self.0 } fn get_mut(&mut self) -> &mut T { &mut self.0 } fn into(self) -> T { self.0 } }

fn differ(what: &str, a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| esc(&v[i.saturating_sub(40)..(i + 40).min(v.len())]);
    format!("{what}: lengths {} and {}, first difference at {i}: {} alone, {} here", a.len(), b.len(), cut(a), cut(b))
}

/// Writes a tree, calling `hook` while the builders are open.
fn put_hooked(t: &Tree, obj: Obj, hook: &mut dyn FnMut()) {
    hook();
    match t {
        Tree::Prim(p) => p.put(IntoObj(obj)),
        Tree::Arr(v) => {
            let mut a = obj.array();
            for t in v { put_hooked(t, a.push(), hook); hook(); }
        }
        Tree::Dict(v) => {
            let mut d = obj.dict();
            for (k, t) in v { let o = d.insert(Name(k)); hook(); put_hooked(t, o, hook); }
            hook();
        }
    }
}

/// Calls that run foreign code (iterators, mappings, filters) while a builder is in use.
pub fn callbacks(r: &mut Rng, hook: &mut dyn FnMut()) -> Vec<u8> {
    let mut c = Chunk::with_settings(settings(r.bool()));
    let f = r.floats(6);
    let n: Vec<Vec<u8>> = (0..r.below(5)).map(|_| r.name()).collect();
    let ids: Vec<Ref> = (0..r.below(6)).map(|_| r.rf()).collect();
    c.indirect(Ref::new(1)).array().items(f.iter().map(|&x| { hook(); x }));
    c.indirect(Ref::new(2)).dict().pairs(n.iter().map(|k| { hook(); (Name(k), 3) }));
    c.pages(Ref::new(3)).kids(ids.iter().map(|&x| { hook(); x }));
    let mut out = vec![];
    let mut con = Content::with_settings(settings(r.bool()));
    con.set_dash_pattern(f.iter().map(|&x| { hook(); x }), 1.0);
    con.set_fill_color(f.iter().map(|&x| { hook(); x }));
    con.set_stroke_pattern(f.iter().map(|&x| { hook(); x }), Name(b"P"));
    out.extend(con.finish().into_vec());
    let mut m = UnicodeCmap::<u16>::new(Name(b"M"), SystemInfo { registry: Str(b"A"), ordering: Str(b"B"), supplement: 1 });
    let t = r.text();
    m.pair_with_multiple(7, t.chars().map(|x| { hook(); x }));
    out.extend(m.finish().into_vec());
    let mut k = 0;
    let c2 = c.renumber(|_| { hook(); k += 1; Ref::new(k) });
    out.extend(full(&c2));
    out.extend(full(&c));
    let mut pdf = Pdf::with_settings(settings(r.bool()));
    pdf.extend(&c);
    out.extend(pdf.finish_with_xref_stream_and_filter(Ref::new(9), |b| { hook(); (b.to_vec(), XRefFilter::Multiple(vec![])) }));
    out
}

/// Small fixed pieces of work that exercise single calls, for hot loops.
fn tiny(k: usize, i: usize) -> Vec<u8> {
    let v = (k * 31 + i) as i32;
    let mut c = Chunk::with_settings(settings(k % 2 == 0));
    let nm = [b'N', b'a' + (k % 26) as u8, b' ', b'#', b'(', (k * 7) as u8 | 1];
    let st = [b'(', b'\\', k as u8, 0x80 | k as u8, b')', b'x'];
    {
        let mut d = c.indirect(Ref::new(1 + k as i32)).dict();
        d.pair(Name(&nm), Str(&st)).pair(Name(b"F"), v as f32 + 0.25).pair(Name(b"I"), v).pair(Name(b"T"), TextStr(if k % 2 == 0 { "plain" } else { "\u{3b1}\u{1f600}" }));
        d.insert(Name(b"A")).array().items([v as f32 * 0.5, 1e-9, 3e20]).item(Ref::new(1 + v)).item(Date::new(1990 + k as u16).month(k as u8).day(3));
        d.insert(Name(b"D")).dict().pair(Name(b"X"), Null);
    }
    c.stream(Ref::new(500), &nm).filter(Filter::FlateDecode);
    let mut con = Content::with_settings(settings(k % 3 == 0));
    con.save_state().set_fill_rgb(0.5, k as f32, 1.0).set_dash_pattern([1.0, v as f32], 2.0).show(Str(&st)).restore_state();
    let mut out = con.finish().into_vec();
    let mut m = UnicodeCmap::<u8>::new(Name(&nm), SystemInfo { registry: Str(&st), ordering: Str(b"B"), supplement: v });
    m.pair(k as u8, 'x');
    m.pair_with_multiple(i as u8, ['\u{1f600}', 'y']);
    out.extend(m.finish().into_vec());
    out.extend(pdf_writer::types::PostScriptOp::encode(&[pdf_writer::types::PostScriptOp::Integer(v), pdf_writer::types::PostScriptOp::Real(k as f32)]).iter());
    let n = c.renumber(|x| Ref::new(x.get() + k as i32));
    out.extend(full(&n));
    let mut pdf = Pdf::with_settings(settings(k % 2 == 1));
    pdf.set_version(1, (k % 10) as u8);
    pdf.extend(&c);
    let _ = pdf.catalog(Ref::new(700 + k as i32));
    out.extend(if i % 2 == 0 { pdf.finish() } else { pdf.finish_with_xref_stream(Ref::new(900 + k as i32)) });
    out
}

/// Single calls whose very first use in a process is worth racing for.
const FIRSTS: usize = 24;
fn first(k: usize, t: usize, c: &mut Chunk) -> Vec<u8> {
    let id = Ref::new(1 + (k * 10 + t) as i32);
    let from = c.len();
    match k {
        0 => c.indirect(id).primitive(Str(&[0xFF, 0x12, 0xAE, t as u8])),
        1 => c.indirect(id).primitive(Str(&[7, 8, 9, 127, t as u8])),
        2 => c.indirect(id).primitive(Str(b"a(b)(c\\")),
        3 => c.indirect(id).primitive(Name(&[b'#', 0xE4, b' ', b'A' + t as u8, 255])),
        4 => c.indirect(id).primitive(TextStr(["plain", "\u{3b1}", "\u{1f600}x", ""][t % 4])),
        5 => c.indirect(id).primitive(TextStrWithLang(&[(LanguageIdentifier::new(*b"de", Some(*b"CH")), "\u{e4}")])),
        6 => c.indirect(id).primitive([0.1f32, -2.5e5, 1e-5, 0.333][t % 4]),
        7 => c.indirect(id).primitive([1e-9f32, 3e30, -1e-30, 7.5e12][t % 4]),
        8 => c.indirect(id).primitive([i32::MIN, i32::MAX, 0, -1][t % 4]),
        9 => c.indirect(id).primitive(Date::new(2020).month(2).day(3).hour(4).minute(5).second(6).utc_offset_hour(-3).utc_offset_minute(t as u8)),
        10 => { c.indirect(id).array().items([1.5f32, 2.0]).item(true).push().dict().pair(Name(b"A"), Null); }
        11 => { c.indirect(id).dict().pair(Name(b"A"), Rect::new(0.5, 1.0, t as f32, 9.0)).insert(Name(b"B")).array().push().array().item(Ref::new(5)); }
        12 => { c.stream(id, &[t as u8; 40]).filter(Filter::Crypt); }
        13 => { let mut p = Pdf::new(); p.set_version(2, t as u8); p.catalog(id).pages(Ref::new(3)); return p.finish(); }
        14 => { let mut p = Pdf::with_settings(settings(false)); p.document_info(id).title(TextStr("x")); return p.finish_with_xref_stream(Ref::new(2)); }
        15 => { let mut p = Pdf::new(); p.indirect(id).primitive(1); return p.finish_with_xref_stream_and_filter(Ref::new(2), |b| (b.iter().rev().copied().collect(), XRefFilter::Multiple(vec![Filter::LzwDecode, Filter::AsciiHexDecode]))); }
        16 => { let mut m = UnicodeCmap::<u16>::new(Name(b"M"), SystemInfo { registry: Str(b"A"), ordering: Str(b"B"), supplement: t as i32 }); m.pair(0xABCD, '\u{1f600}'); m.pair(t as u16, 'x'); return m.finish().into_vec(); }
        17 => { use pdf_writer::types::PostScriptOp as P; return P::encode(&[P::Real(t as f32), P::IfElse(&[P::Dup, P::Mul], &[P::Atan])]).into_vec(); }
        18 => { let mut o = Content::new(); o.save_state().set_fill_rgb(0.5, t as f32, 1.0).restore_state(); return o.finish().into_vec(); }
        19 => { let mut o = Content::with_settings(settings(false)); o.begin_text().set_font(Name(b"F"), 12.5).show(Str(b"(\xff")).end_text(); return o.finish().into_vec(); }
        20 => { let mut d = Chunk::new(); d.extend(c); return full(&d); }
        21 => { let mut n = 0; return full(&c.renumber(|_| { n += 1; Ref::new(n) })); }
        22 => { let mut d = Chunk::with_settings(settings(false)); d.stream(id, b"1 0 R").pair(Name(b"K"), Ref::new(4)); return full(&d.renumber(|r| Ref::new(r.get() + t as i32))); }
        _ => { let d = c.clone(); return full(&d); }
    }
    let mut out = c.as_bytes()[from..].to_vec();
    out.extend(format!("{:?}", c.limits()).bytes());
    out
}

/// The child process of the stage "first use": each kind of call is used by several threads at the
/// same moment, and never before.
pub fn firsts(args: &[String]) -> i32 {
    let mut r = Rng::new(args[0].parse().expect("HARNESS: seed"));
    let mut order: Vec<usize> = (0..FIRSTS).collect();
    r.shuffle(&mut order);
    let threads = 3;
    crate::mon::install_hook();
    let skew: Vec<usize> = (0..FIRSTS * threads).map(|_| if r.bool() { 0 } else { r.below(60) }).collect();
    let gate: Vec<AtomicUsize> = order.iter().map(|_| AtomicUsize::new(0)).collect();
    let chunk = || Chunk::with_settings_and_capacity(settings(args[0].len() % 2 == 0), 1 << 14);
    let got: Vec<Vec<Vec<u8>>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..threads).map(|t| { let (order, skew, gate, chunk) = (&order, &skew, &gate, &chunk); s.spawn(move || {
            let mut c = chunk();
            order.iter().enumerate().map(|(i, &k)| {
                gate[i].fetch_add(1, Ordering::SeqCst);
                let mut spins = 0;
                while gate[i].load(Ordering::SeqCst) < threads { spins += 1; if spins > 3000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                for _ in 0..skew[i * threads + t] { std::hint::spin_loop() }
                crate::mon::guarded(|| first(k, t, &mut c)).unwrap_or_else(|e| format!("panic: {e}").into_bytes())
            }).collect::<Vec<_>>()
        }) }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, got) in got.iter().enumerate() {
        let mut c = chunk();
        for (i, &k) in order.iter().enumerate() {
            let alone = first(k, t, &mut c);
            match got.get(i) {
                None => { println!("the thread panicked"); return 1; }
                Some(g) if *g != alone => { println!("{}", differ(&format!("first use, call {k}, thread {t}"), &alone, g)); return 1; }
                _ => {}
            }
        }
    }
    0
}

/// All that a chunk holds: bytes, object list and limits.
fn full(c: &Chunk) -> Vec<u8> {
    let mut out = c.as_bytes().to_vec();
    for r in c.refs() { out.extend(r.get().to_be_bytes()); }
    out.extend(format!("{:?}{}", c.limits(), c.len()).bytes());
    out
}

/// Everything a reader of a shared chunk can observe.
fn observe(c: &Chunk, how: usize) -> Vec<u8> {
    let mut out = vec![];
    match how % 6 {
        0 => out.extend_from_slice(c.as_bytes()),
        1 => { for r in c.refs() { out.extend(r.get().to_be_bytes()); } out.extend(c.len().to_be_bytes()); }
        2 => { let d = c.clone(); out.extend_from_slice(d.as_bytes()); out.extend(format!("{:?}", d.limits()).bytes()); }
        3 => { let mut n = 0; let d = c.renumber(|_| { n += 1; Ref::new(n) }); out.extend_from_slice(d.as_bytes()); for r in d.refs() { out.extend(r.get().to_be_bytes()); } }
        4 => { let mut d = Chunk::new(); d.indirect(Ref::new(77)).primitive(1); d.extend(c); c.renumber_into(&mut d, |r| Ref::new(r.get() / 2 + 1)); d.merge_limits(c.limits()); out.extend_from_slice(d.as_bytes()); }
        _ => { let mut p = Pdf::new(); p.extend(&c.renumber({ let mut n = 0; move |_| { n += 1; Ref::new(n) } })); if p.refs().map(|r| r.get()).collect::<BTreeSet<_>>().len() == p.refs().len() { out.extend(p.finish()); } }
    }
    out
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("at least two builders (or readers) were active at the same time and every result was compared with the sequential one");
    let sub = ctx.sub.as_str();
    let (few, threads) = match sub { "miri" => (true, 3), _ => (false, 8) };
    // Not a workload: what the type system promises. Reported, not assumed.
    ctx.exhaust("sending and sharing", 1, |_, _r, o| {
        let t: &[(&str, bool, bool)] = &[
            ("Chunk", ProbeSend::<Chunk>::SEND, ProbeSync::<Chunk>::SYNC), ("Content", ProbeSend::<Content>::SEND, ProbeSync::<Content>::SYNC),
            ("Pdf", ProbeSend::<Pdf>::SEND, ProbeSync::<Pdf>::SYNC), ("Buf", ProbeSend::<Buf>::SEND, ProbeSync::<Buf>::SYNC),
            ("UnicodeCmap", ProbeSend::<UnicodeCmap<u16>>::SEND, ProbeSync::<UnicodeCmap<u16>>::SYNC), ("Limits", ProbeSend::<Limits>::SEND, ProbeSync::<Limits>::SYNC),
        ];
        for (n, send, sync) in t {
            if !send { return Err(format!("{n} cannot be sent to another thread")); }
            if !sync { return Err(format!("{n} cannot be shared between threads")); }
            o.count("types that are Send and Sync", 1);
        }
        let _ = Probe::<u8>(std::marker::PhantomData);
        o.eval(1, true);
        Ok(())
    });
    // Several builders taking turns on one thread, in every kind of order.
    let n = |full: u64, miri: u64| if few { miri } else { full };
    ctx.cases("taking turns", n(12_000, 3), n(300_000, 6), |_, r, o| {
        let k = 2 + r.below(3);
        let seeds: Vec<u64> = (0..k).map(|_| r.next()).collect();
        let alone: Vec<Vec<u8>> = seeds.iter().map(|&s| Work::alone(s)).collect();
        let mut w: Vec<Work> = seeds.iter().map(|&s| Work::new(s)).collect();
        let mut trace = vec![];
        while w.iter().any(|x| x.left > 0) { let i = r.below(k); trace.push(i as u8); w[i].step(); }
        for (i, (x, a)) in w.into_iter().zip(&alone).enumerate() { let b = x.finish(); if b != *a { return Err(differ(&format!("builder {i} of {k}, turns {trace:?}"), a, &b)); } }
        o.sample(|| format!("{k} builders, turns {trace:?}"));
        o.seen("schedules", hash(&trace));
        o.count("builders that took turns", k as u64);
        o.eval(hash(&(&seeds, &trace)), true);
        Ok(())
    });
    // Other builders advance while one has open writers or is inside a callback.
    ctx.cases("inside of each other", n(8_000, 2), n(200_000, 4), |i, r, o| {
        let s = r.next();
        let outer = |hook: &mut dyn FnMut()| -> Vec<u8> {
            let mut r = Rng::new(s);
            if i % 2 == 0 { return callbacks(&mut r, hook); }
            let mut c = Chunk::with_settings(settings(r.bool()));
            let mut b = 6;
            put_hooked(&Tree::random(&mut r, &mut b, 4), c.indirect(Ref::new(1)), hook);
            { let d = r.bytes(); let mut b = 3; let t = Tree::random(&mut r, &mut b, 3); let mut s = c.stream(Ref::new(2), &d); put_hooked(&t, s.insert(Name(b"V")), hook); hook(); }
            full(&c)
        };
        let alone = outer(&mut || {});
        let (mut inner, mut inner_alone, mut calls) = (vec![], vec![], 0u64);
        let mut r2 = r.fork();
        let mut tinies = vec![];
        let mut cur: Option<(Work, u64)> = None;
        let got = outer(&mut || {
            calls += 1;
            if cur.is_none() { let s = r2.next(); cur = Some((Work::new(s), s)); }
            let (w, s) = cur.as_mut().unwrap();
            w.step();
            if r2.chance(1, 4) {
                let (k, j) = (r2.below(64), r2.below(9));
                inner.push(tiny(k, j));
                inner_alone.push(vec![]);
                tinies.push((inner.len() - 1, k, j));
            }
            if w.left == 0 { inner_alone.push(Work::alone(*s)); inner.push(cur.take().unwrap().0.finish()); }
        });
        if let Some((w, s)) = cur { inner_alone.push(Work::alone(s)); inner.push(w.finish()); }
        if got != alone { return Err(differ("outer builder", &alone, &got)); }
        for (at, k, j) in tinies { inner_alone[at] = tiny(k, j); }
        for (a, b) in inner_alone.iter().zip(&inner) { if a != b { return Err(differ("inner builder", a, b)); } }
        o.count("steps of other builders inside of open ones", calls);
        o.count(if i % 2 == 0 { "callbacks" } else { "open writers" }, calls);
        o.eval(hash(&(s, i % 2)), calls > 0);
        Ok(())
    });
    // Callbacks (and open writers) that wait for work done on other threads: nothing that another
    // builder needs may be held meanwhile.
    ctx.cases("waiting for each other", n(160, 1), n(3_000, 2), |i, r, o| {
        let s = r.next();
        let outer = |hook: &mut dyn FnMut()| -> Vec<u8> {
            let mut r = Rng::new(s);
            if i % 2 == 0 { return callbacks(&mut r, hook); }
            let mut c = Chunk::with_settings(settings(r.bool()));
            let mut b = 4;
            put_hooked(&Tree::random(&mut r, &mut b, 3), c.indirect(Ref::new(1)), hook);
            { let d = r.bytes(); let mut b = 2; let t = Tree::random(&mut r, &mut b, 2); let mut s = c.stream(Ref::new(2), &d); put_hooked(&t, s.insert(Name(b"V")), hook); hook(); }
            full(&c)
        };
        let other = |s: u64| { let mut v = callbacks(&mut Rng::new(s), &mut || {}); v.extend(tiny(s as usize % 64, 1)); v.extend(observe(&{ let mut c = Chunk::new(); c.indirect(Ref::new(1)).primitive(Ref::new(2)); c }, s as usize)); v };
        let alone = outer(&mut || {});
        let mut bad = None;
        let mut calls = 0u64;
        let mut r2 = r.fork();
        let got = outer(&mut || {
            calls += 1;
            if few && calls > 2 { return; }
            let s = r2.next() % 64;
            let want = other(s);
            match std::thread::scope(|sc| sc.spawn(move || other(s)).join()) {
                Ok(v) if v == want => {}
                Ok(v) => { bad.get_or_insert(differ("work on another thread that a callback waits for", &want, &v)); }
                Err(_) => { bad.get_or_insert("work on another thread that a callback waits for panicked".to_string()); }
            }
        });
        if let Some(b) = bad { return Err(b); }
        if got != alone { return Err(differ("outer builder", &alone, &got)); }
        o.count("callbacks and open writers that waited for other threads", calls);
        o.eval(hash(&(s, i % 2, "wait")), calls > 0);
        Ok(())
    });
    // Building goes on while a thread ends (in destructors of its local variables).
    ctx.cases("while a thread ends", n(400, 1), n(4_000, 2), |i, r, o| {
        type Slot = std::sync::Arc<Mutex<Option<Vec<u8>>>>;
        struct Last(std::cell::RefCell<Option<(u64, Slot)>>);
        impl Drop for Last {
            fn drop(&mut self) {
                if let Some((s, slot)) = self.0.take() {
                    let mut v = tiny(s as usize % 64, 1);
                    v.extend(Work::alone(s));
                    *slot.lock().unwrap() = Some(v);
                }
            }
        }
        thread_local!(static LAST: Last = const { Last(std::cell::RefCell::new(None)) });
        let s = r.next();
        let mut alone = tiny(s as usize % 64, 1);
        alone.extend(Work::alone(s));
        let slot: Slot = Default::default();
        let theirs = slot.clone();
        std::thread::spawn(move || {
            if i % 2 == 0 { LAST.with(|l| *l.0.borrow_mut() = Some((s, theirs.clone()))); }
            Work::alone(s ^ 1);
            tiny(s as usize % 64, 1);
            if i % 2 == 1 { LAST.with(|l| *l.0.borrow_mut() = Some((s, theirs.clone()))); }
        }).join().map_err(|_| "building panicked on another thread")?;
        let got = slot.lock().unwrap().take();
        let Some(got) = got else { return Err("building while a thread ends panicked".into()) };
        if got != alone { return Err(differ("while a thread ends", &alone, &got)); }
        o.count("builders used while a thread ends", 1);
        o.eval(hash(&(s, "end")), true);
        Ok(())
    });
    // A builder that moves to another thread after every call.
    ctx.cases("moving between threads", n(400, 1), n(4_000, 2), |_, r, o| {
        let s = r.next();
        let alone = Work::alone(s);
        let mut w = Force(Work::new(s));
        let mut moves = 0;
        while w.get().left > 0 {
            w = std::thread::scope(|sc| sc.spawn(move || { let mut w = w; w.get_mut().step(); w }).join()).map_err(|_| "a step panicked on another thread")?;
            moves += 1;
        }
        let got = std::thread::scope(|sc| sc.spawn(move || { let w = w; w.into().finish() }).join()).map_err(|_| "finishing panicked on another thread")?;
        if got != alone { return Err(differ("moved builder", &alone, &got)); }
        o.count("moves between threads", moves + 1);
        o.eval(hash(&s), moves > 0);
        Ok(())
    });
    // The same programs on many threads at once, each starting elsewhere.
    ctx.cases("at the same time", n(60, 1), n(600, 2), |_, r, o| {
        let k = if few { 2 } else { 40 };
        let jobs: Vec<(usize, u64, bool)> = (0..k).map(|i| (if few { [1, 3, 5, 7][r.below(4)] } else { i % prog::PROGRAMS.len() }, r.next(), r.bool())).collect();
        let want: Vec<Vec<u8>> = jobs.iter().map(|j| prog::run(j.0, j.1, &mut Lay::plain(j.2)).map(|o| o.bytes)).collect::<R<_>>()?;
        let bar = Barrier::new(threads);
        let bad = Mutex::new(None);
        let started = AtomicUsize::new(0);
        let overlap = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (jobs, want, bar, bad, started, overlap) = (&jobs, &want, &bar, &bad, &started, &overlap);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    bar.wait();
                    for i in 0..jobs.len() {
                        let j = (i + t * 5) % jobs.len();
                        let active = started.fetch_add(1, Ordering::Relaxed) + 1;
                        overlap.fetch_max(active, Ordering::Relaxed);
                        let res = crate::mon::guarded(|| prog::run(jobs[j].0, jobs[j].1, &mut Lay::plain(jobs[j].2)));
                        started.fetch_sub(1, Ordering::Relaxed);
                        let m = match res { Err(e) => format!("panic: {e}"), Ok(Err(e)) => e, Ok(Ok(o)) if o.bytes == want[j] => continue, Ok(Ok(o)) => differ(prog::PROGRAMS[jobs[j].0].0, &want[j], &o.bytes) };
                        bad.lock().unwrap().get_or_insert(format!("thread {t}: {m}"));
                    }
                }).unwrap();
            }
        });
        if let Some(m) = bad.into_inner().unwrap() { return Err(m); }
        o.count("programs run concurrently", (jobs.len() * threads) as u64);
        o.max("programs active at once", overlap.load(Ordering::Relaxed) as u64);
        o.eval(hash(&jobs.iter().map(|j| j.1).collect::<Vec<_>>()), true);
        Ok(())
    });
    // Tight loops over single calls: the shortest windows, hit as often as possible.
    ctx.cases("tight loops", n(8, 1), n(100, 2), |_, r, o| {
        let rounds = match sub { "miri" => 1, "tsan" => 60, _ => 1500 };
        let off = r.below(100);
        let want: Vec<Vec<Vec<u8>>> = (0..threads).map(|t| (0..2).map(|i| tiny(off + t, i)).collect()).collect();
        let bar = Barrier::new(threads);
        let bad = Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (want, bar, bad) = (&want, &bar, &bad);
                s.spawn(move || {
                    bar.wait();
                    for i in 0..rounds {
                        match crate::mon::guarded(|| tiny(off + t, i % 2)) {
                            Ok(b) if b == want[t][i % 2] => {}
                            Ok(b) => { bad.lock().unwrap().get_or_insert(differ(&format!("thread {t} round {i}"), &want[t][i % 2], &b)); break; }
                            Err(e) => { bad.lock().unwrap().get_or_insert(format!("thread {t} round {i}: panic: {e}")); break; }
                        }
                    }
                });
            }
        });
        if let Some(m) = bad.into_inner().unwrap() { return Err(m); }
        o.count("tight loop rounds", (rounds * threads) as u64);
        o.eval(hash(&off), true);
        Ok(())
    });
    // What is set up on first use: fresh processes in which threads meet at every first call.
    static ROOM: Mutex<()> = Mutex::new(());
    if sub.is_empty() {
        ctx.cases("first use", 400, 8_000, |_, r, o| {
            let s = r.next() >> 8;
            let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
            let _room = ROOM.lock().unwrap_or_else(|e| e.into_inner());
            let mut child = std::process::Command::new(exe).args(["firsts", &s.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null())
                .spawn().map_err(|e| format!("HARNESS: {e}"))?;
            let t0 = std::time::Instant::now();
            let status = loop {
                if let Some(s) = child.try_wait().map_err(|e| format!("HARNESS: {e}"))? { break s; }
                if t0.elapsed().as_secs() > 100 { let _ = child.kill(); let _ = child.wait(); return Err("a first call never returned".into()); }
                std::thread::sleep(std::time::Duration::from_micros(300));
            };
            let mut text = String::new();
            let _ = std::io::Read::read_to_string(&mut child.stdout.take().unwrap(), &mut text);
            if !status.success() { return Err(format!("process with concurrent first calls: {status:?}: {}", text.trim())); }
            o.count("first calls made by several threads at once", FIRSTS as u64);
            o.eval(hash(&(s, "first")), true);
            Ok(())
        });
    }
    // One finished chunk, read, cloned, merged and renumbered by everyone.
    ctx.cases("shared chunk", n(300, 2), n(6_000, 4), |_, r, o| {
        let p = r.bool();
        let c = if r.bool() && !few { renum::source(r, p) } else { let (mut c, k) = (Chunk::with_settings(settings(p)), if few { 1 } else { 4 }); for id in 0..k { object(&mut c, r, id + 1); } c };
        let before = (c.as_bytes().to_vec(), c.refs().collect::<Vec<_>>(), format!("{:?}", c.limits()));
        let want: Vec<Vec<u8>> = (0..6).map(|h| observe(&c, h)).collect();
        let c = Force(c);
        let bar = Barrier::new(threads);
        let bad = Mutex::new(None);
        let off = r.below(6);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (c, want, bar, bad) = (&c, &want, &bar, &bad);
                s.spawn(move || {
                    bar.wait();
                    for i in 0..6 {
                        let h = (i + t + off) % 6;
                        match crate::mon::guarded(|| observe(c.get(), h)) {
                            Ok(b) if b == want[h] => {}
                            Ok(b) => { bad.lock().unwrap().get_or_insert(differ(&format!("reader {t}, kind {h}"), &want[h], &b)); }
                            Err(e) => { bad.lock().unwrap().get_or_insert(format!("reader {t}, kind {h}: panic: {e}")); }
                        }
                    }
                });
            }
        });
        if let Some(m) = bad.into_inner().unwrap() { return Err(m); }
        let c = c.into();
        if before != (c.as_bytes().to_vec(), c.refs().collect::<Vec<_>>(), format!("{:?}", c.limits())) { return Err("reading changed the shared chunk".into()); }
        o.count("concurrent observations of a shared chunk", 6 * threads as u64);
        o.eval(hash(&before.0), !before.1.is_empty());
        Ok(())
    });
    let _ = doc::FILTERS;
    if sub.is_empty() {
        ctx.require("schedules", 500);
        ctx.require("steps of other builders inside of open ones", 5_000);
        ctx.require("programs active at once", 2);
        crate::checks::sanitized(ctx, "tsan");
        if ctx.thorough { crate::checks::sanitized(ctx, "miri-threads"); }
    }
}
