//! C08: nesting, container lengths and the ways a builder can end.

use crate::mon::{hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Thrown to unwind through open builders.
struct Boom;

/// Writes a tree using randomly chosen API forms and, if asked, unwinds after `fuse` steps.
/// `done` mirrors what has been completed so far, so that the expectation survives the unwinding.
struct Wr<'a> {
    r: &'a mut Rng,
    fuse: Option<usize>,
    o: &'a mut Obs,
    bad: Vec<String>,
    steps: usize,
    depth: u64,
}

/// What was actually written (shared with the unwinding path through a raw log).
#[derive(Clone, Debug)]
enum Ev { ArrOpen, DictOpen, Key(Vec<u8>), Val(Prim), Close }

impl Wr<'_> {
    fn tick(&mut self, log: &mut Vec<Ev>) {
        let _ = log;
        self.steps += 1;
        if self.fuse == Some(self.steps) { resume_unwind(Box::new(Boom)); }
    }
    fn len(&mut self, got: i32, empty: bool, want: usize, what: &str) {
        self.o.count("len() observations", 1);
        if got != want as i32 || empty != (want == 0) {
            self.bad.push(format!("{what}: len() {got}, is_empty() {empty} after {want} entries"));
        }
    }
    fn put(&mut self, t: &Tree, obj: Obj, log: &mut Vec<Ev>) {
        self.depth += 1;
        self.o.max("depth", self.depth);
        match t {
            Tree::Prim(p) => {
                match self.r.below(2) { 0 => p.put(IntoObj(obj)), _ => p.put(IntoObjRef(obj)) }
                log.push(Ev::Val(p.clone()));
            }
            Tree::Arr(v) => {
                let mut a = if self.r.bool() { obj.array() } else { obj.start::<Array>() };
                log.push(Ev::ArrOpen);
                self.len(a.len(), a.is_empty(), 0, "array");
                self.tick(log);
                for (i, t) in v.iter().enumerate() {
                    match t {
                        Tree::Prim(p) if self.r.bool() => { p.put(Item(&mut a)); log.push(Ev::Val(p.clone())); }
                        t => self.put(t, a.push(), log),
                    }
                    self.len(a.len(), a.is_empty(), i + 1, "array");
                    self.tick(log);
                }
                log.push(Ev::Close);
                match self.r.below(3) { 0 => a.finish(), 1 => drop(a), _ => { let _moved = a; } }
            }
            Tree::Dict(v) => {
                let mut d = if self.r.bool() { obj.dict() } else { obj.start::<Dict>() };
                log.push(Ev::DictOpen);
                self.len(d.len(), d.is_empty(), 0, "dict");
                self.tick(log);
                for (i, (k, t)) in v.iter().enumerate() {
                    match t {
                        Tree::Prim(p) if self.r.bool() => { p.put(Pair(&mut d, k)); log.push(Ev::Key(k.clone())); log.push(Ev::Val(p.clone())); }
                        t => { let ob = d.insert(Name(k)); log.push(Ev::Key(k.clone())); self.put(t, ob, log); }
                    }
                    self.len(d.len(), d.is_empty(), i + 1, "dict");
                    self.tick(log);
                }
                log.push(Ev::Close);
                match self.r.below(3) { 0 => d.finish(), 1 => drop(d), _ => { let _moved = d; } }
            }
        }
        self.depth -= 1;
    }
}

/// The structure a (possibly cut off) log describes: unclosed containers are closed at the end.
fn build(log: &[Ev]) -> V {
    enum F { A(Vec<V>), D(Vec<(Vec<u8>, V)>, Option<Vec<u8>>) }
    let mut st: Vec<F> = vec![F::A(vec![])];
    fn add(st: &mut [F], v: V) {
        match st.last_mut().unwrap() { F::A(a) => a.push(v), F::D(d, k) => d.push((k.take().unwrap(), v)) }
    }
    fn close(st: &mut Vec<F>) {
        let v = match st.pop().unwrap() { F::A(a) => V::Arr(a), F::D(d, _) => V::Dict(d) };
        add(st, v);
    }
    for e in log {
        match e {
            Ev::ArrOpen => st.push(F::A(vec![])),
            Ev::DictOpen => st.push(F::D(vec![], None)),
            Ev::Key(k) => if let F::D(_, s) = st.last_mut().unwrap() { *s = Some(k.clone()) },
            Ev::Val(p) => add(&mut st, p.exp()),
            Ev::Close => close(&mut st),
        }
    }
    while st.len() > 1 { close(&mut st); }
    match st.pop().unwrap() { F::A(mut a) => a.pop().unwrap_or(V::Null), _ => V::Null }
}

/// Homogeneous typed containers: written through the typed API, by item, items(), pairs() and nested push/insert.
macro_rules! typed_case {
    ($r:ident, $o:ident, $chunk:ident, $exp:ident, $bad:ident, $T:ty, $gen:expr, $wrap:expr, $val:expr) => {{
        let n = $r.len(6);
        let vals: Vec<_> = (0..n).map(|_| $gen).collect();
        let id = Ref::new($exp.len() as i32 + 1);
        let check = |n: usize, l: i32, e: bool| n as i32 == l && e == (n == 0);
        if $r.bool() {
            let obj = $chunk.indirect(id);
            let mut a: TypedArray<$T> = match $r.below(3) { 0 => obj.array().typed(), 1 => obj.start(), _ => TypedArray::wrap(obj.array()) };
            if !check(0, a.len(), a.is_empty()) { $bad.push("typed array starts non-empty".to_string()); }
            if $r.bool() {
                for (i, v) in vals.iter().enumerate() {
                    a.item($wrap(v));
                    if !check(i + 1, a.len(), a.is_empty()) { $bad.push(format!("typed array of {}: len {} after {}", stringify!($T), a.len(), i + 1)); }
                }
            } else {
                let k = if n > 0 { $r.below(n + 1) } else { 0 };
                a.items(it(vals[..k].iter().map($wrap))).items(it(vals[k..].iter().map($wrap)));
                if !check(n, a.len(), a.is_empty()) { $bad.push(format!("typed array items: len {} after {n}", a.len())); }
            }
            if $r.bool() { a.finish() }
            $exp.push(V::Arr(vals.iter().map($val).collect()));
        } else {
            let keys: Vec<Vec<u8>> = (0..n).map(|_| $r.name()).collect();
            let obj = $chunk.indirect(id);
            let mut d: TypedDict<$T> = match $r.below(3) { 0 => obj.dict().typed(), 1 => obj.start(), _ => TypedDict::wrap(obj.dict()) };
            if !check(0, d.len(), d.is_empty()) { $bad.push("typed dict starts non-empty".to_string()); }
            if $r.bool() {
                for i in 0..n {
                    d.pair(Name(&keys[i]), $wrap(&vals[i]));
                    if !check(i + 1, d.len(), d.is_empty()) { $bad.push(format!("typed dict: len {} after {}", d.len(), i + 1)); }
                }
            } else {
                d.pairs(it(keys.iter().zip(&vals).map(|(k, v)| (Name(k), $wrap(v)))));
                if !check(n, d.len(), d.is_empty()) { $bad.push(format!("typed dict pairs: len {} after {n}", d.len())); }
            }
            if $r.bool() { d.finish() }
            $exp.push(V::Dict(keys.iter().cloned().zip(vals.iter().map($val)).collect()));
        }
        $o.count("typed containers", 1);
        $o.seen("typed item types", hash(stringify!($T)));
    }};
}

fn deep(o: Obj, d: usize, kind: &dyn Fn(usize) -> u8) {
    if d == 0 { o.primitive(7); return; }
    match kind(d) {
        0 => { let mut a = o.array(); deep(a.push(), d - 1, kind); }
        1 => { let mut a = o.dict(); deep(a.insert(Name(b"K")), d - 1, kind); }
        2 => { let mut a = o.array(); a.item(1); deep(a.push(), d - 1, kind); a.item(2); }
        _ => { let mut a = o.dict(); a.pair(Name(b"A"), 1); deep(a.insert(Name(b"K")), d - 1, kind); a.pair(Name(b"B"), 2); }
    }
}

/// A chunk whose last object was being written when a panic unwound through the open builders.
pub fn unwound_chunk(r: &mut Rng, o: &mut Obs) -> Chunk {
    let (mut budget, depth) = (*r.pick(&[3, 10, 60]), 2 + r.below(8));
    let t = loop { let t = Tree::random(r, &mut budget, depth); if !matches!(t, Tree::Prim(_)) { break t } };
    let mut chunk = Chunk::with_settings(settings(r.bool()));
    let fuse = Some(1 + r.len(25));
    let mut rr = r.fork();
    let mut w = Wr { r: &mut rr, fuse, o, bad: vec![], steps: 0, depth: 0 };
    let how = w.r.below(2);
    let res = catch_unwind(AssertUnwindSafe(|| match how {
        0 => { let mut s = chunk.stream(Ref::new(4), b"data"); w.put(&t, s.insert(Name(b"V")), &mut vec![]); resume_unwind(Box::new(Boom)) }
        _ => w.put(&t, chunk.indirect(Ref::new(4)), &mut vec![]),
    }));
    if let Err(p) = res { if !p.is::<Boom>() { resume_unwind(p) } }
    chunk
}

/// Around powers of two and the implementation limits of Annex C.
const WIDE: &[usize] = &[0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 100_001];

pub fn c08(x: &Ctx) {
    x.rule("Random trees (depth to 14, up to 60 containers) of all primitive kinds written through every construction form (array/dict/start, item/push, pair/insert, typed, items/pairs), as direct objects and stream dictionaries, ended by finish, drop, scope exit or an unwinding panic at every step; len()/is_empty() read after every addition; nesting to tens of thousands. Oracle: an event log of what was added, re-read by an independent parser. Non-trivial: distinct tree and way of ending.");
    x.cases("trees", 60_000, 2_000_000, |_, r, o| {
        let (mut budget, depth) = (*r.pick(&[3, 10, 60]), 2 + r.below(13));
        let t = loop { let t = Tree::random(r, &mut budget, depth); if !matches!(t, Tree::Prim(_)) || r.chance(1, 10) { break t } };
        let pretty = r.bool();
        let steps = { let mut s = 0; fn c(t: &Tree, s: &mut usize) { match t { Tree::Prim(_) => {} Tree::Arr(v) => { *s += 1; for t in v { c(t, s); *s += 1; } } Tree::Dict(v) => { *s += 1; for t in v { c(&t.1, s); *s += 1; } } } } c(&t, &mut s); s };
        // 0: complete, 1: unwind at a random step, 2: unwind at every step
        let fuses: Vec<Option<usize>> = match r.below(3) {
            0 => vec![None],
            1 if steps > 0 => vec![Some(1 + r.below(steps))],
            _ if steps < 40 => (1..=steps).map(Some).collect(),
            _ => vec![None],
        };
        for fuse in fuses {
            let mut chunk = Chunk::with_settings(settings(pretty));
            let mut log = vec![];
            let mut rr = r.fork();
            let mut w = Wr { r: &mut rr, fuse, o, bad: vec![], steps: 0, depth: 0 };
            let how = w.r.below(3);
            let res = catch_unwind(AssertUnwindSafe(|| {
                match how {
                    // as a value in a stream dictionary; the stream must be closed by the unwinding, too
                    0 => { let mut s = chunk.stream(Ref::new(4), b"data"); let ob = s.insert(Name(b"V")); w.put(&t, ob, &mut log); s.pair(Name(b"W"), 1); if w.r.bool() { s.finish() } }
                    _ => w.put(&t, chunk.indirect(Ref::new(4)), &mut log),
                }
            }));
            let unwound = match res { Ok(()) => false, Err(p) if p.is::<Boom>() => true, Err(p) => resume_unwind(p) };
            let steps_seen = w.steps;
            if let Some(b) = w.bad.first() { return Err(b.clone()); }
            if unwound { w.o.count("unwound through open builders", 1); }
            if unwound != fuse.is_some() { return Err(format!("HARNESS: fuse {fuse:?}, steps {steps_seen}")); }
            // whatever happened, the chunk can be continued
            chunk.indirect(Ref::new(5)).primitive(true);
            let mut want = build(&log);
            if how == 0 {
                let mut e = vec![(b"Length".to_vec(), V::Int(4)), (b"V".to_vec(), want)];
                if !unwound { e.push((b"W".to_vec(), V::Int(1))); }
                want = V::Dict(e);
            }
            let (obs, _) = parse_body(chunk.as_bytes()).map_err(|e| format!("{e} (unwound: {unwound})"))?;
            if obs.len() != 2 { return Err(format!("{} objects instead of 2 (unwound: {unwound}): {}", obs.len(), esc(chunk.as_bytes()))); }
            if let Some(d) = diff(&want, &obs[0].v, true) { return Err(format!("{d} (pretty={pretty}, unwound: {unwound})")); }
            if (obs[0].data.is_some()) != (how == 0) { return Err("stream not closed".into()); }
            if obs[1].v != V::Bool(true) { return Err("following object damaged".into()); }
            o.eval(hash(&(format!("{t:?}"), fuse, how, pretty)), steps > 0);
            o.sample(|| format!("fuse {fuse:?} {t:?}"));
        }
        Ok(())
    });
    x.cases("typed", 20_000, 500_000, |_, r, o| {
        let mut chunk = Chunk::with_settings(settings(r.bool()));
        let mut exp: Vec<V> = vec![];
        let mut bad: Vec<String> = vec![];
        for _ in 0..1 + r.len(5) {
            match r.below(9) {
                0 => typed_case!(r, o, chunk, exp, bad, i32, r.int(), |v: &i32| *v, |v: &i32| V::Int(*v as i64)),
                1 => typed_case!(r, o, chunk, exp, bad, f32, r.f(), |v: &f32| *v, |v: &f32| V::F(*v)),
                2 => typed_case!(r, o, chunk, exp, bad, bool, r.bool(), |v: &bool| *v, |v: &bool| V::Bool(*v)),
                3 => typed_case!(r, o, chunk, exp, bad, Ref, r.rf(), |v: &Ref| *v, |v: &Ref| V::from(*v)),
                4 => typed_case!(r, o, chunk, exp, bad, Rect, r.rect(), |v: &Rect| *v, |v: &Rect| V::from(*v)),
                5 => {
                    let pool: Vec<Vec<u8>> = (0..6).map(|_| r.name()).collect();
                    typed_case!(r, o, chunk, exp, bad, Name, r.below(6), |v: &usize| Name(&pool[*v]), |v: &usize| nmb(&pool[*v]))
                }
                6 => {
                    let pool: Vec<Vec<u8>> = (0..6).map(|_| r.bytes()).collect();
                    typed_case!(r, o, chunk, exp, bad, Str, r.below(6), |v: &usize| Str(&pool[*v]), |v: &usize| st(&pool[*v]))
                }
                7 => {
                    let pool: Vec<String> = (0..6).map(|_| r.text()).collect();
                    typed_case!(r, o, chunk, exp, bad, TextStr, r.below(6), |v: &usize| TextStr(&pool[*v]), |v: &usize| tx(&pool[*v]))
                }
                _ => {
                    // nested typed writers
                    let id = Ref::new(exp.len() as i32 + 1);
                    if r.bool() {
                        let mut a: TypedArray<TypedArray<Ref>> = chunk.indirect(id).array().typed();
                        let mut e = vec![];
                        for i in 0..r.len(4) {
                            let v: Vec<Ref> = (0..r.len(4)).map(|_| r.rf()).collect();
                            a.push().items(it(v.iter().copied()));
                            e.push(V::from(v));
                            if a.len() != i as i32 + 1 { bad.push("nested typed array len".into()); }
                        }
                        drop(a);
                        exp.push(V::Arr(e));
                    } else {
                        let mut d: TypedDict<Dict> = chunk.indirect(id).dict().typed();
                        let mut e = vec![];
                        for i in 0..r.len(4) {
                            let (k, k2, v) = (r.name(), r.name(), r.int());
                            d.insert(Name(&k)).pair(Name(&k2), v);
                            e.push((k, V::Dict(vec![(k2, V::Int(v as i64))])));
                            if d.len() != i as i32 + 1 { bad.push("nested typed dict len".into()); }
                        }
                        d.finish();
                        exp.push(V::Dict(e));
                    }
                    o.count("typed containers", 1);
                }
            }
        }
        if let Some(b) = bad.first() { return Err(b.clone()); }
        let (obs, _) = parse_body(chunk.as_bytes())?;
        if obs.len() != exp.len() { return Err(format!("{} objects, expected {}", obs.len(), exp.len())); }
        for (e, g) in exp.iter().zip(&obs) { if let Some(d) = diff(e, &g.v, true) { return Err(d); } }
        o.eval(hash(chunk.as_bytes()), true);
        Ok(())
    });
    // nesting depth: every depth up to 700 and some very deep ones
    let extra: &[usize] = if x.thorough { &[1000, 3000, 10_000, 30_000, 60_000] } else { &[1000, 3000, 10_000] };
    x.exhaust("deep", 700 + extra.len() as u64, |c, r, o| {
        let d = if c < 700 { c as usize } else { extra[c as usize - 700] };
        for mode in 0..4u8 {
            let seed = r.next();
            let kind = move |i: usize| -> u8 { match mode { 0 => 0, 1 => 1, _ => (hash(&(seed, i)) % 4) as u8 } };
            for pretty in [false, true] {
                let mut chunk = Chunk::with_settings(settings(pretty));
                if r.bool() { deep(chunk.indirect(Ref::new(1)), d, &kind); } else { let mut s = chunk.stream(Ref::new(1), b""); deep(s.insert(Name(b"V")), d, &kind); }
                let (obs, _) = parse_body(chunk.as_bytes()).map_err(|e| format!("depth {d}: {e}"))?;
                if obs.len() != 1 { return Err(format!("depth {d}: {} objects", obs.len())); }
                let mut v = &obs[0].v;
                if obs[0].data.is_some() { v = v.get(b"V").ok_or("no V")?; }
                for i in (1..=d).rev() {
                    let want = kind(i);
                    v = match (want, v) {
                        (0, V::Arr(a)) if a.len() == 1 => &a[0],
                        (1, V::Dict(a)) if a.len() == 1 => &a[0].1,
                        (2, V::Arr(a)) if a.len() == 3 && a[0].int() == Some(1) && a[2].int() == Some(2) => &a[1],
                        (3, V::Dict(a)) if a.len() == 3 && a[0].0 == b"A" && a[2].0 == b"B" && a[2].1.int() == Some(2) => &a[1].1,
                        _ => return Err(format!("depth {d} pretty {pretty}: wrong structure at level {i}: {}", show(v))),
                    };
                }
                if v.int() != Some(7) { return Err(format!("depth {d}: wrong leaf")); }
                o.eval(hash(&(d, mode, pretty)), d > 0);
                o.max("depth", d as u64);
            }
        }
        Ok(())
    });
    x.cases("wide", 8, 40, |c, r, o| {
        let n = if x.thorough { 1_000_000 } else { 100_000 } + r.below(7);
        let mut chunk = Chunk::with_settings(settings(c % 2 == 0));
        {
            let mut d = chunk.indirect(Ref::new(1)).dict();
            let mut a = d.insert(Name(b"A")).array();
            for i in 0..n { a.item(i as i32); if a.len() != i as i32 + 1 { return Err(format!("len {} after {}", a.len(), i + 1)); } }
            a.finish();
            let mut e = d.insert(Name(b"D")).dict();
            for i in 0..n / 4 { e.pair(Name(format!("K{i}").as_bytes()), i as i32); if e.len() != i as i32 + 1 { return Err("dict len".into()); } }
        }
        let (obs, _) = parse_body(chunk.as_bytes())?;
        let (Some(V::Arr(a)), Some(V::Dict(e))) = (obs[0].v.get(b"A"), obs[0].v.get(b"D")) else { return Err("structure".into()) };
        if a.len() != n || e.len() != n / 4 { return Err("lost entries".into()); }
        if a.iter().enumerate().any(|(i, v)| v.int() != Some(i as i64)) { return Err("items differ".into()); }
        if e.iter().enumerate().any(|(i, v)| v.1.int() != Some(i as i64) || v.0 != format!("K{i}").into_bytes()) { return Err("pairs differ".into()); }
        o.max("entries in one container", n as u64);
        o.eval(hash(&(c, n)), true);
        Ok(())
    });
    // many entries in one call
    x.exhaust("one call", 4 * WIDE.len() as u64, |c, r, o| {
        let n = WIDE[c as usize / 4];
        let mut chunk = Chunk::with_settings(settings(r.bool()));
        let vals: Vec<i32> = (0..n).map(|_| r.range(-9, 9) as i32).collect();
        let keys: Vec<Vec<u8>> = (0..n).map(|i| format!("k{i}").into_bytes()).collect();
        let pairs = || keys.iter().zip(&vals).map(|(k, v)| (Name(k), *v));
        let mut lens = vec![];
        match c % 4 {
            0 => { let mut a = chunk.indirect(Ref::new(1)).array(); a.items(vals.iter().copied()); lens.push(a.len()); a.item(1); lens.push(a.len() - 1); }
            1 => { let mut a = chunk.indirect(Ref::new(1)).array().typed::<i32>(); a.items(it(vals.clone())); lens.push(a.len()); a.item(1); lens.push(a.len() - 1); }
            2 => { let mut d = chunk.indirect(Ref::new(1)).dict(); d.pairs(pairs()); lens.push(d.len()); d.pair(Name(b"Z"), 1); lens.push(d.len() - 1); }
            _ => { let mut d = chunk.indirect(Ref::new(1)).dict().typed::<i32>(); d.pairs(pairs()); lens.push(d.len()); d.pair(Name(b"Z"), 1); lens.push(d.len() - 1); }
        }
        if lens != [n as i32, n as i32] { return Err(format!("len() {lens:?} around {n} entries")); }
        let (obs, _) = parse_body(chunk.as_bytes())?;
        let want = |v: i32| V::Int(v as i64);
        let exp = if c % 4 < 2 { V::Arr(vals.iter().copied().chain([1]).map(want).collect()) } else { V::Dict(keys.iter().cloned().chain([b"Z".to_vec()]).zip(vals.iter().copied().chain([1]).map(want)).collect()) };
        if obs.len() != 1 { return Err(format!("{} objects", obs.len())); }
        if let Some(d) = diff(&exp, &obs[0].v, true) { return Err(format!("{n} entries: {}", &d[..d.len().min(300)])); }
        o.max("entries in one call", n as u64);
        o.eval(hash(&c), true);
        Ok(())
    });
    x.require("unwound through open builders", 20_000);
    x.require("len() observations", 100_000);
    x.require("typed item types", 8);
    x.require("depth", 10_000);
}

/// Used by other monitors: the bytes of a tree as an indirect object.
pub fn tree_bytes(t: &Tree, id: i32, pretty: bool) -> R<Vec<u8>> {
    let mut c = Chunk::with_settings(settings(pretty));
    t.put(c.indirect(Ref::new(id)));
    Ok(c.as_bytes().to_vec())
}
