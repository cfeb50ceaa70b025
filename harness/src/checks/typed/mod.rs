//! Typed writers (C18-C23): every method of every typed writer is an operation of a random program;
//! the monitor predicts the value that must be found in the file from tables written down from
//! ISO 32000 (not from the library's own conversions) and compares it with what the parser reads.

use crate::mon::*;
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::writers::*;
use pdf_writer::*;
use std::collections::{HashMap, HashSet};

pub type E = Vec<(Vec<u8>, V)>;
pub type Data = Vec<u8>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tag {
    /// plain attribute
    P,
    /// starts a nested writer
    S,
    /// takes an enumerated value
    N,
}
pub use Tag::{N, P, S};

/// What a program may do, and a record of what it did.
pub struct G<'r> {
    pub r: &'r mut Rng,
    pub budget: usize,
    pub depth: usize,
    pub only_enums: bool,
    pub all_ops: bool,
    pub hits: HashSet<(&'static str, &'static str)>,
    pub known: HashMap<&'static str, Vec<&'static str>>,
    pub variants: HashSet<(&'static str, &'static str, usize)>,
    pub variants_known: HashMap<(&'static str, &'static str), usize>,
    cur: (&'static str, &'static str),
    pub steps: usize,
}

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, budget: usize) -> Self {
        G { r, budget, depth: 0, only_enums: false, all_ops: false, hits: HashSet::new(), known: HashMap::new(), variants: HashSet::new(), variants_known: HashMap::new(), cur: ("", ""), steps: 0 }
    }
    pub fn enter(&mut self) -> bool {
        if self.depth >= 5 || self.budget == 0 { return false; }
        self.depth += 1;
        self.budget -= 1;
        true
    }
    pub fn leave(&mut self) { self.depth -= 1; }
    /// End a writer, in one of the ways a caller may.
    pub fn end<W>(&mut self, w: W) {
        if self.r.bool() { w.finish(); } else { drop(w); }
    }
    /// For hand-written writers: choose one of the named operations.
    pub fn choose(&mut self, ty: &'static str, names: &[&'static str]) -> usize {
        if !self.known.contains_key(ty) { self.known.insert(ty, names.to_vec()); }
        let i = self.r.below(names.len());
        self.hits.insert((ty, names[i]));
        self.cur = (ty, names[i]);
        self.steps += 1;
        i
    }
    /// Pick variant `i` of `n`, recording it.
    pub fn variant(&mut self, n: usize) -> usize {
        let i = self.r.below(n);
        self.hit_variant(i, n);
        i
    }
    pub fn hit_variant(&mut self, i: usize, n: usize) {
        self.variants.insert((self.cur.0, self.cur.1, i));
        self.variants_known.insert(self.cur, n);
    }
    pub fn flush(&self, o: &mut Obs) {
        for (t, v) in &self.known { for n in v { o.seen("operations known", hash(&(t, n))); } o.seen("writer types", hash(t)); }
        for h in &self.hits { o.seen("operations exercised", hash(h)); }
        for (k, n) in &self.variants_known { for i in 0..*n { o.seen("variants known", hash(&(k.0, k.1, i))); } }
        for v in &self.variants { o.seen("variants exercised", hash(v)); }
        o.count("operations executed", self.steps as u64);
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> { if self.r.bool() { Some(f(self)) } else { None } }
    pub fn f3(&mut self) -> [f32; 3] { self.r.fs() }
    pub fn f4(&mut self) -> [f32; 4] { self.r.fs() }
    pub fn f9(&mut self) -> [f32; 9] { self.r.fs() }
    pub fn refs(&mut self) -> Vec<Ref> { let n = self.r.len(5); (0..n).map(|_| self.r.rf()).collect() }
    pub fn ints(&mut self) -> Vec<i32> { let n = self.r.len(6); (0..n).map(|_| self.r.int()).collect() }
    pub fn names(&mut self) -> Vec<Vec<u8>> { let n = self.r.len(4); (0..n).map(|_| self.r.name()).collect() }
    pub fn texts(&mut self) -> Vec<String> { let n = self.r.len(4); (0..n).map(|_| self.r.text()).collect() }
    pub fn strs(&mut self) -> Vec<Vec<u8>> { let n = self.r.len(4); (0..n).map(|_| self.r.bytes()).collect() }
    pub fn langs(&mut self) -> Vec<([u8; 2], Option<[u8; 2]>, String)> {
        let n = self.r.len(3);
        (0..n).map(|_| { let (l, g) = self.r.lang_parts(); (l, g, self.r.text()) }).collect()
    }
}

pub fn lang_pairs(v: &[([u8; 2], Option<[u8; 2]>, String)]) -> Vec<(LanguageIdentifier, &str)> {
    v.iter().map(|(l, r, t)| (LanguageIdentifier::new(*l, *r), t.as_str())).collect()
}
pub fn names_v(v: &[Vec<u8>]) -> V { V::Arr(v.iter().map(|x| nmb(x)).collect()) }
pub fn strs_v(v: &[Vec<u8>]) -> V { V::Arr(v.iter().map(|x| st(x)).collect()) }
pub fn texts_v(v: &[String]) -> V { V::Arr(v.iter().map(|x| tx(x)).collect()) }

/// A table value: a name, an integer or a byte string.
pub trait Ev { fn ev(&self) -> V; }
impl Ev for &str { fn ev(&self) -> V { nm(self) } }
impl Ev for i32 { fn ev(&self) -> V { V::Int(*self as i64) } }
impl Ev for &[u8] { fn ev(&self) -> V { st(self) } }

/// Run a random selection of the operations in random order, each at most once; sometimes one of
/// them is repeated with the same arguments or with others.
pub fn run<W>(ty: &'static str, w: &mut W, ops: &[(&'static str, Tag, fn(&mut W, &mut G, &mut E))], g: &mut G, e: &mut E) {
    if !g.known.contains_key(ty) { g.known.insert(ty, ops.iter().map(|o| o.0).collect()); }
    let mut order: Vec<usize> = (0..ops.len()).filter(|&i| !g.only_enums || ops[i].1 == N).collect();
    g.r.shuffle(&mut order);
    let k = if g.all_ops { order.len() } else { match g.r.below(4) { 0 => order.len().min(1), 1 => order.len(), _ => g.r.below(order.len() + 1) } };
    let again = if k > 0 && !g.all_ops && g.r.chance(1, 6) { Some((g.r.below(k), g.r.below(k), g.r.bool())) } else { None };
    let mut saved = None;
    for (at, &i) in order[..k].iter().enumerate() {
        if again.is_some_and(|a| a.0.min(a.1) == at) { saved = Some((i, g.r.clone())); }
        step(ty, &ops[i], w, g, e);
        if let (Some((_, _, same)), Some((j, r))) = (again, &saved) {
            if again.map(|a| a.0.max(a.1)) == Some(at) {
                let after = g.r.clone();
                if same { *g.r = r.clone(); }
                step(ty, &ops[*j], w, g, e);
                if same { *g.r = after; }
            }
        }
    }
}
/// Run a random sequence of operations, with repetition.
pub fn run_seq<W>(ty: &'static str, w: &mut W, ops: &[(&'static str, Tag, fn(&mut W, &mut G, &mut E))], g: &mut G, e: &mut E) {
    if !g.known.contains_key(ty) { g.known.insert(ty, ops.iter().map(|o| o.0).collect()); }
    if ops.is_empty() { return; }
    for _ in 0..g.r.len(7) { let i = g.r.below(ops.len()); step(ty, &ops[i], w, g, e); }
}
fn step<W>(ty: &'static str, op: &(&'static str, Tag, fn(&mut W, &mut G, &mut E)), w: &mut W, g: &mut G, e: &mut E) {
    if op.1 == S && (g.depth >= 5 || g.budget == 0) { return; }
    g.hits.insert((ty, op.0));
    g.cur = (ty, op.0);
    g.steps += 1;
    (op.2)(w, g, e);
}

/// A dictionary writer: the fixed entries and the operations.
macro_rules! ops {
    ($f:ident, $W:ident, [$(($fk:expr, $fv:expr)),* $(,)?], { $($op:expr),* $(,)? }) => {
        pub mod $f {
            #[allow(unused_imports)]
            use super::*;
            #[allow(clippy::type_complexity)]
            pub const OPS: &[(&'static str, Tag, fn(&mut $W<'_>, &mut G<'_>, &mut E))] = &[$($op,)* raw!()];
            pub fn fixed() -> E { vec![$(($fk.as_bytes().to_vec(), $fv)),*] }
            pub fn fill(w: &mut $W<'_>, g: &mut G, e: &mut E) { run(stringify!($W), w, OPS, g, e); }
            #[allow(dead_code)]
            pub fn write(mut w: $W<'_>, g: &mut G) -> V {
                let mut e = fixed();
                fill(&mut w, g, &mut e);
                g.end(w);
                V::Dict(e)
            }
        }
    };
}
/// As `ops`, for the writers that do not give access to the underlying dictionary.
macro_rules! ops_plain {
    ($f:ident, $W:ident, [$(($fk:expr, $fv:expr)),* $(,)?], { $($op:expr),* $(,)? }) => {
        pub mod $f {
            #[allow(unused_imports)]
            use super::*;
            #[allow(clippy::type_complexity)]
            pub const OPS: &[(&'static str, Tag, fn(&mut $W<'_>, &mut G<'_>, &mut E))] = &[$($op),*];
            pub fn fixed() -> E { vec![$(($fk.as_bytes().to_vec(), $fv)),*] }
            pub fn fill(w: &mut $W<'_>, g: &mut G, e: &mut E) { run(stringify!($W), w, OPS, g, e); }
            #[allow(dead_code)]
            pub fn write(mut w: $W<'_>, g: &mut G) -> V {
                let mut e = fixed();
                fill(&mut w, g, &mut e);
                g.end(w);
                V::Dict(e)
            }
        }
    };
}
/// An array writer: every operation appends to the expectation.
macro_rules! seq {
    ($f:ident, $W:ident, { $($op:expr),* $(,)? }) => {
        pub mod $f {
            #[allow(unused_imports)]
            use super::*;
            #[allow(clippy::type_complexity)]
            pub const OPS: &[(&'static str, Tag, fn(&mut $W<'_>, &mut G<'_>, &mut E))] = &[$($op),*];
            pub fn write(mut w: $W<'_>, g: &mut G) -> V {
                let mut e = E::new();
                run_seq(stringify!($W), &mut w, OPS, g, &mut e);
                g.end(w);
                V::Arr(e.into_iter().map(|x| x.1).collect())
            }
        }
    };
}
/// Custom entries through the underlying dictionary.
macro_rules! raw {
    () => {
        ("(custom entry)", P, |w, g, e| {
            let k = g.r.key();
            if g.r.bool() {
                let i = g.r.int();
                w.pair(Name(&k), i);
                e.push((k, i.into()));
            } else {
                let n = g.r.name();
                w.insert(Name(&k)).primitive(Name(&n));
                e.push((k, V::Name(n)));
            }
        })
    };
}
macro_rules! put { ($e:ident, $k:literal, $v:expr) => { $e.push(($k.as_bytes().to_vec(), $v)) }; }
macro_rules! k {
    (@v $m:ident, $k:literal, |$g:ident| $a:expr) => { (stringify!($m), P, |w, $g, e| { let a = $a; w.$m(a.clone()); put!(e, $k, a.into()); }) };
    (@i $m:ident, $k:literal, |$g:ident| $a:expr) => { (stringify!($m), P, |w, $g, e| { let a = $a; w.$m(it(a.clone())); put!(e, $k, a.into()); }) };
    ($m:ident, $k:literal, int) => { k!(@v $m, $k, |g| g.r.int()) };
    ($m:ident, $k:literal, f) => { k!(@v $m, $k, |g| g.r.f()) };
    ($m:ident, $k:literal, bool) => { k!(@v $m, $k, |g| g.r.bool()) };
    ($m:ident, $k:literal, rf) => { k!(@v $m, $k, |g| g.r.rf()) };
    ($m:ident, $k:literal, rect) => { k!(@v $m, $k, |g| g.r.rect()) };
    ($m:ident, $k:literal, f6) => { k!(@v $m, $k, |g| g.r.f6()) };
    ($m:ident, $k:literal, f3) => { k!(@v $m, $k, |g| g.f3()) };
    ($m:ident, $k:literal, f4) => { k!(@v $m, $k, |g| g.f4()) };
    ($m:ident, $k:literal, floats) => { k!(@i $m, $k, |g| g.r.floats(9)) };
    ($m:ident, $k:literal, refs) => { k!(@i $m, $k, |g| g.refs()) };
    ($m:ident, $k:literal, ints) => { k!(@i $m, $k, |g| g.ints()) };
    ($m:ident, $k:literal, u8v) => { (stringify!($m), P, |w, g, e| { let a = g.r.u8(); w.$m(a); put!(e, $k, V::Int(a as i64)); }) };
    ($m:ident, $k:literal, u16v) => { (stringify!($m), P, |w, g, e| { let a = g.r.u16(); w.$m(a); put!(e, $k, V::Int(a as i64)); }) };
    ($m:ident, $k:literal, name) => { (stringify!($m), P, |w, g, e| { let a = g.r.name(); w.$m(Name(&a)); put!(e, $k, V::Name(a)); }) };
    ($m:ident, $k:literal, bstr) => { (stringify!($m), P, |w, g, e| { let a = g.r.bytes(); w.$m(Str(&a)); put!(e, $k, V::Str(a)); }) };
    ($m:ident, $k:literal, textstr) => { (stringify!($m), P, |w, g, e| { let a = g.r.text(); w.$m(TextStr(&a)); put!(e, $k, V::Text(a)); }) };
    ($m:ident, $k:literal, text) => { (stringify!($m), P, |w, g, e| {
        if g.r.chance(2, 3) { let a = g.r.text(); w.$m(TextStr(&a)); put!(e, $k, V::Text(a)); }
        else { let a = g.langs(); w.$m(TextStrWithLang(&lang_pairs(&a))); put!(e, $k, V::Lang(a)); }
    }) };
    ($m:ident, $k:literal, date) => { (stringify!($m), P, |w, g, e| { let (d, b) = g.r.date(); w.$m(d); put!(e, $k, V::Str(b)); }) };
    ($m:ident, $k:literal, names) => { (stringify!($m), P, |w, g, e| { let a = g.names(); w.$m(it(a.iter().map(|x| Name(x)))); put!(e, $k, names_v(&a)); }) };
    ($m:ident, $k:literal, bstrs) => { (stringify!($m), P, |w, g, e| { let a = g.strs(); w.$m(it(a.iter().map(|x| Str(x)))); put!(e, $k, strs_v(&a)); }) };
    ($m:ident, $k:literal, textstrs) => { (stringify!($m), P, |w, g, e| { let a = g.texts(); w.$m(it(a.iter().map(|x| TextStr(x)))); put!(e, $k, texts_v(&a)); }) };
    ($m:ident, $k:literal, rgb) => { (stringify!($m), P, |w, g, e| { let a = g.f3(); w.$m(a[0], a[1], a[2]); put!(e, $k, a.into()); }) };
    ($m:ident, $k:literal, cmyk) => { (stringify!($m), P, |w, g, e| { let a = g.f4(); w.$m(a[0], a[1], a[2], a[3]); put!(e, $k, a.into()); }) };
    ($m:ident, $k:literal, gray) => { (stringify!($m), P, |w, g, e| { let a = g.r.f(); w.$m(a); put!(e, $k, [a].into()); }) };
    ($m:ident, $k:literal, none) => { (stringify!($m), P, |w, _g, e| { w.$m(); put!(e, $k, V::Arr(vec![])); }) };
    ($m:ident, $k:literal, = $v:expr) => { (stringify!($m), P, |w, _g, e| { w.$m(); put!(e, $k, $v); }) };
}
/// Some enumerations are not `Copy`; the tables hold plain variants without owned data.
pub fn dup<T>(x: &'static T) -> T {
    assert!(!std::mem::needs_drop::<T>());
    // Safety: the value lives in a constant and has no drop glue, so a bitwise copy is a value.
    unsafe { std::ptr::read(x) }
}
/// One value of an enumeration.
macro_rules! en {
    ($m:ident, $k:literal, $t:expr) => { (stringify!($m), N, |w, g, e| { let i = g.variant($t.len()); w.$m(dup(&$t[i].0)); put!(e, $k, $t[i].1.ev()); }) };
}
/// As `en`, with an additional variant carrying a name.
macro_rules! enc {
    ($m:ident, $k:literal, $t:expr, $c:expr) => { (stringify!($m), N, |w, g, e| {
        let i = g.variant($t.len() + 1);
        if i == $t.len() { let a = g.r.name(); w.$m($c(Name(&a))); put!(e, $k, V::Name(a)); }
        else { w.$m(dup(&$t[i].0)); put!(e, $k, $t[i].1.ev()); }
    }) };
}
/// A set of flags.
macro_rules! fl {
    ($m:ident, $k:literal, $T:ident, $t:expr) => { (stringify!($m), N, |w, g, e| {
        let mut f = $T::empty();
        let mut bits: u32 = 0;
        // one, none, all, all but one, two, or any
        let some = g.r.below(10);
        let (one, two) = (g.r.below($t.len()), g.r.below($t.len()));
        for (i, (flag, bit)) in $t.iter().enumerate() {
            let put = match some { 0 | 1 => i == one, 2 => false, 3 => true, 4 => i != one, 5 => i == one || i == two, _ => g.r.bool() };
            if put { f.insert($T::from_bits_truncate(flag.bits())); bits |= 1u32 << (bit - 1); g.hit_variant(i, $t.len()); }
        }
        w.$m(f);
        put!(e, $k, V::Int(bits as i64));
    }) };
}
/// A nested writer.
macro_rules! sub {
    ($m:ident, $k:literal, $f:ident) => { (stringify!($m), S, |w, g, e| { if g.enter() { let v = $f::write(w.$m(), g); g.leave(); put!(e, $k, v); } }) };
}
/// A typed array of nested writers.
macro_rules! suba {
    ($m:ident, $k:literal, $f:ident) => { (stringify!($m), S, |w, g, e| { if g.enter() {
        let mut a = w.$m();
        let n = g.r.len(4);
        let v: Vec<V> = (0..n).map(|_| $f::write(a.push(), g)).collect();
        g.end(a); g.leave();
        put!(e, $k, V::Arr(v));
    } }) };
}
/// A typed dictionary of nested writers.
macro_rules! subd {
    ($m:ident, $k:literal, $f:ident) => { (stringify!($m), S, |w, g, e| { if g.enter() {
        let mut a = w.$m();
        let n = g.r.len(4);
        let v: E = (0..n).map(|_| { let k = g.r.name(); let x = $f::write(a.insert(Name(&k)), g); (k, x) }).collect();
        g.end(a); g.leave();
        put!(e, $k, V::Dict(v));
    } }) };
}
/// A typed array of primitives, produced by an expression from the random source.
macro_rules! subp {
    ($m:ident, $k:literal, |$g:ident| $x:expr) => { (stringify!($m), S, |w, $g, e| { if $g.enter() {
        let mut a = w.$m();
        let n = $g.r.len(5);
        let mut v: Vec<V> = vec![];
        if $g.r.bool() { for _ in 0..n { let x = $x; a.item(x); v.push(x.into()); } }
        else { let xs: Vec<_> = (0..n).map(|_| $x).collect(); a.items(it(xs.clone())); v = xs.into_iter().map(Into::into).collect(); }
        $g.end(a); $g.leave();
        put!(e, $k, V::Arr(v));
    } }) };
}
/// A typed dictionary of primitives.
macro_rules! subdp {
    ($m:ident, $k:literal, |$g:ident| $x:expr) => { (stringify!($m), S, |w, $g, e| { if $g.enter() {
        let mut a = w.$m();
        let n = $g.r.len(5);
        let xs: Vec<(Vec<u8>, _)> = (0..n).map(|_| ($g.r.name(), $x)).collect();
        if $g.r.bool() { for (k, x) in &xs { a.pair(Name(k), *x); } }
        else { a.pairs(it(xs.iter().map(|(k, x)| (Name(k), *x)))); }
        $g.end(a); $g.leave();
        put!(e, $k, V::Dict(xs.into_iter().map(|(k, x)| (k, x.into())).collect()));
    } }) };
}
/// An untyped dictionary of references and nested values.
macro_rules! subraw {
    ($m:ident, $k:literal) => { (stringify!($m), S, |w, g, e| { if g.enter() {
        let mut a = w.$m();
        let n = g.r.len(5);
        let v: E = (0..n).map(|_| { let k = g.r.name(); let mut b = 2; let t = Tree::random(g.r, &mut b, 2); t.put(a.insert(Name(&k))); (k, t.exp()) }).collect();
        g.end(a); g.leave();
        put!(e, $k, V::Dict(v));
    } }) };
}
/// Anything else: the closure writes and extends the expectation.
macro_rules! c { ($m:ident, $f:expr) => { (stringify!($m), P, $f) }; }
macro_rules! ce { ($m:ident, $f:expr) => { (stringify!($m), N, $f) }; }
macro_rules! cs { ($m:ident, $f:expr) => { (stringify!($m), S, $f) }; }

pub mod doc;
pub mod fonts;
pub mod graphics;
pub mod interactive;
pub mod tagged;

use doc::*;
use fonts::*;
use graphics::*;
use interactive::*;
use tagged::*;

/// How a root writes itself: under the given id, with the given stream data.
/// Returns the expected object and whether it is a stream.
pub type RootFn = for<'a> fn(&'a mut Chunk, Ref, &'a [u8], &mut G) -> (V, bool);
pub struct Root { pub label: &'static str, pub prop: &'static str, pub f: RootFn }

macro_rules! direct { ($p:literal, $f:ident, $W:ty) => { Root { label: concat!("Obj::start::<", stringify!($W), ">"), prop: $p, f: |c, id, _d, g| ($f::write(c.indirect(id).start::<$W>(), g), false) } }; }
macro_rules! method { ($p:literal, $m:ident, $f:ident) => { Root { label: concat!("Chunk::", stringify!($m)), prop: $p, f: |c, id, _d, g| ($f::write(c.$m(id), g), false) } }; }
/// Stream writers: `Length` comes first, then the fixed entries.
macro_rules! stream { ($p:literal, $m:ident, $f:ident) => { Root { label: concat!("Chunk::", stringify!($m)), prop: $p, f: |c, id, d, g| {
    let mut w = c.$m(id, d);
    let mut e: E = vec![(b"Length".to_vec(), V::Int(d.len() as i64))];
    e.extend($f::fixed());
    $f::fill(&mut w, g, &mut e);
    g.end(w);
    (V::Dict(e), true)
} } }; }

pub const ROOTS: &[Root] = &[
    // C18: document structure
    method!("C18", pages, pages), method!("C18", page, page), method!("C18", outline, outline), method!("C18", outline_item, outline_item),
    method!("C18", destination, destination), method!("C18", destinations, destinations),
    stream!("C18", metadata, metadata),
    direct!("C18", catalog, Catalog), direct!("C18", pages, Pages), direct!("C18", page, Page), direct!("C18", outline, Outline),
    direct!("C18", outline_item, OutlineItem), direct!("C18", destination, Destination), direct!("C18", document_info, DocumentInfo),
    direct!("C18", developer_extension, DeveloperExtension), direct!("C18", viewer_preferences, ViewerPreferences), direct!("C18", names, Names),
    direct!("C18", page_label, PageLabel),
    Root { label: "Chunk::name_tree", prop: "C18", f: |c, id, _d, g| (doc::any_name_tree(c, id, g), false) },
    Root { label: "Chunk::number_tree", prop: "C18", f: |c, id, _d, g| (doc::any_number_tree(c, id, g), false) },
    // C19: interactive features
    method!("C19", annotation, annotation), method!("C19", form_field, field), method!("C19", signature_field_lock, signature_field_lock),
    method!("C19", signature_seed_value, signature_seed_value), method!("C19", file_spec, file_spec), stream!("C19", embedded_file, embedded_file),
    direct!("C19", annotation, Annotation), direct!("C19", field, Field), direct!("C19", action, Action), direct!("C19", fields, Fields),
    direct!("C19", additional_actions, AdditionalActions), direct!("C19", appearance, Appearance), direct!("C19", appearance_entry, AppearanceEntry),
    direct!("C19", appearance_characteristics, AppearanceCharacteristics), direct!("C19", border_style, BorderStyle), direct!("C19", icon_fit, IconFit),
    direct!("C19", form, Form), direct!("C19", choice_options, ChoiceOptions), direct!("C19", signature_field_lock, SignatureFieldLock),
    direct!("C19", signature_seed_value, SignatureSeedValue), direct!("C19", mdp, SignatureModificationDetectionPrevention),
    direct!("C19", signature_time_stamp, SignatureTimeStamp), direct!("C19", certificate_seed_value, CertificateSeedValue),
    direct!("C19", rendition, Rendition), direct!("C19", media_clip, MediaClip), direct!("C19", media_play_params, MediaPlayParams),
    direct!("C19", media_permissions, MediaPermissions), direct!("C19", file_spec, FileSpec), direct!("C19", embedding_params, EmbeddingParams),
    // C20: fonts
    method!("C20", type1_font, type1_font), method!("C20", type3_font, type3_font), method!("C20", type0_font, type0_font),
    method!("C20", cid_font, cid_font), method!("C20", font_descriptor, font_descriptor), stream!("C20", cmap, cmap),
    direct!("C20", type1_font, Type1Font), direct!("C20", type3_font, Type3Font), direct!("C20", type0_font, Type0Font), direct!("C20", cid_font, CidFont),
    direct!("C20", font_descriptor, FontDescriptor), direct!("C20", font_descriptor_override, FontDescriptorOverride), direct!("C20", encoding, Encoding),
    direct!("C20", differences, Differences), direct!("C20", widths, Widths),
    // C21: graphics
    method!("C21", ext_graphics, ext_graphics_state), method!("C21", color_space, color_space), method!("C21", function_shading, function_shading),
    method!("C21", shading_pattern, shading_pattern), method!("C21", exponential_function, exponential_function), method!("C21", stitching_function, stitching_function),
    stream!("C21", stream_shading, stream_shading), stream!("C21", tiling_pattern, tiling_pattern), stream!("C21", icc_profile, icc_profile),
    stream!("C21", sampled_function, sampled_function), stream!("C21", post_script_function, post_script_function),
    stream!("C21", image_xobject, image_xobject), stream!("C21", form_xobject, form_xobject),
    Root { label: "Stream::filter and decode_parms", prop: "C21", f: |c, id, d, g| {
        let mut w = c.stream(id, d);
        let mut e: E = vec![(b"Length".to_vec(), V::Int(d.len() as i64))];
        graphics::plain_stream::fill(&mut w, g, &mut e);
        g.end(w);
        (V::Dict(e), true)
    } },
    direct!("C21", ext_graphics_state, ExtGraphicsState), direct!("C21", soft_mask, SoftMask), direct!("C21", color_space, ColorSpace),
    direct!("C21", function_shading, FunctionShading), direct!("C21", shading_pattern, ShadingPattern), direct!("C21", exponential_function, ExponentialFunction),
    direct!("C21", stitching_function, StitchingFunction), direct!("C21", group, Group), direct!("C21", reference, Reference),
    direct!("C21", resources, Resources), direct!("C21", decode_parms, DecodeParms), direct!("C21", transition, Transition),
    direct!("C21", output_intent, OutputIntent), direct!("C21", separation_info, SeparationInfo), direct!("C21", device_n_attrs, DeviceNAttrs),
    direct!("C21", device_n_process, DeviceNProcess), direct!("C21", device_n_mixing_hints, DeviceNMixingHints),
    // C22: tagged PDF
    method!("C22", struct_element, struct_element), method!("C22", namespace, namespace),
    direct!("C22", struct_tree_root, StructTreeRoot), direct!("C22", struct_element, StructElement), direct!("C22", struct_children, StructChildren),
    direct!("C22", marked_ref, MarkedRef), direct!("C22", object_ref, ObjectRef), direct!("C22", role_map, RoleMap), direct!("C22", class_map, ClassMap),
    direct!("C22", namespace, Namespace), direct!("C22", namespace_role_map, NamespaceRoleMap), direct!("C22", mark_info, MarkInfo),
    direct!("C22", attributes, Attributes), direct!("C22", user_property, UserProperty), direct!("C22", layout_attributes, LayoutAttributes),
    direct!("C22", list_attributes, ListAttributes), direct!("C22", field_attributes, FieldAttributes), direct!("C22", table_attributes, TableAttributes),
    direct!("C22", artifact_attributes, ArtifactAttributes), direct!("C22", fe_note_attributes, FENoteAttributes), direct!("C22", track_sizes, TrackSizes),
    direct!("C22", property_list, PropertyList), direct!("C22", artifact, Artifact),
];

/// One expected object.
pub struct Item { pub id: i32, pub exp: V, pub data: Option<Data>, pub label: &'static str }

/// Write `n` random typed objects into `c`; ids are taken from `ids`.
pub fn program(c: &mut Chunk, g: &mut G, roots: &[&Root], first: Option<usize>, ids: &[i32], data: &[Data]) -> Vec<Item> {
    let mut out = vec![];
    for (n, (&id, d)) in ids.iter().zip(data).enumerate() {
        let root = match (n, first) { (0, Some(i)) => roots[i], _ => *g.r.pick(roots) };
        let (exp, stream) = (root.f)(c, Ref::new(id), d, g);
        out.push(Item { id, exp, data: stream.then(|| d.clone()), label: root.label });
    }
    out
}
/// Distinct ids and stream contents for a program of `n` objects.
pub fn inputs(r: &mut Rng, n: usize) -> (Vec<i32>, Vec<Data>) {
    let mut ids: Vec<i32> = vec![];
    while ids.len() < n {
        let i = if r.bool() { r.range(1, 40) as i32 } else { r.rf().get() };
        if !ids.contains(&i) { ids.push(i); }
    }
    let data = (0..n).map(|_| r.bytes()).collect();
    (ids, data)
}

/// Compare what was written with what was expected.
pub fn compare(bytes: &[u8], items: &[Item]) -> crate::pdf::R<crate::pdf::Stats> {
    let (objs, stats) = parse_body(bytes)?;
    if objs.len() != items.len() { return Err(format!("{} objects written, {} found", items.len(), objs.len())); }
    for (o, x) in objs.iter().zip(items) {
        if o.id != x.id as i64 || o.gen != 0 { return Err(format!("{}: object header {} {} instead of {} 0", x.label, o.id, o.gen, x.id)); }
        if let Some(m) = diff(&x.exp, &o.v, false) { return Err(format!("{}: {m}\nin {}", x.label, esc(&bytes[o.start..]))); }
        if o.data != x.data { return Err(format!("{}: stream data differ: {:?} instead of {:?}", x.label, o.data, x.data)); }
    }
    Ok(stats)
}

fn writers_check(ctx: &Ctx, prop: &str, quick: u64, thorough: u64) {
    ctx.rule("the program wrote at least one attribute whose presence and value the oracle predicted");
    let roots: Vec<&Root> = ROOTS.iter().filter(|x| x.prop == prop).collect();
    let n = roots.len() as u64;
    ctx.exhaust("every operation of every writer", n * 40, |i, r, o| {
        one(r, o, &roots, (i % n) as usize, (i / n) % 2 == 0, true, 1, false)
    });
    ctx.cases("random programs", quick, thorough, |i, r, o| {
        let k = 1 + r.len(4);
        let pretty = r.bool();
        one(r, o, &roots, (i % n) as usize, pretty, false, k, false)
    });
    if !ctx.replaying() {
        ctx.require("operations known", 5);
        let (a, b) = (ctx.set_len("operations known"), ctx.set_len("operations exercised"));
        if a != b { ctx.error(format!("only {b} of {a} known operations were exercised")); }
        let (a, b) = (ctx.set_len("variants known"), ctx.set_len("variants exercised"));
        if a != b { ctx.error(format!("only {b} of {a} known enumeration values were exercised")); }
    }
}

#[allow(clippy::too_many_arguments)]
fn one(r: &mut Rng, o: &mut Obs, roots: &[&Root], first: usize, pretty: bool, all: bool, k: usize, enums: bool) -> crate::pdf::R<()> {
    let (ids, data) = inputs(r, k);
    let mut c = Chunk::with_settings(settings(pretty));
    let budget = [0, 2, 8, 24][r.below(4)];
    let mut g = G::new(r, if all { 24 } else { budget });
    g.all_ops = all;
    g.only_enums = enums;
    let items = program(&mut c, &mut g, roots, Some(first), &ids, &data);
    g.flush(o);
    let steps = g.steps;
    let got: Vec<i32> = c.refs().map(|x| x.get()).collect();
    if got != ids { return Err(format!("refs() is {got:?}, expected {ids:?}")); }
    compare(c.as_bytes(), &items)?;
    o.seen("roots", hash(items[0].label));
    o.max("bytes written", c.len() as u64);
    o.count(if pretty { "pretty programs" } else { "compact programs" }, 1);
    o.sample(|| format!("{}: {}", items[0].label, esc(c.as_bytes())));
    o.eval(hash(c.as_bytes()), steps > 0);
    Ok(())
}

pub fn c18(ctx: &Ctx) { writers_check(ctx, "C18", 60_000, 2_000_000) }
pub fn c19(ctx: &Ctx) { writers_check(ctx, "C19", 60_000, 2_000_000) }
pub fn c20(ctx: &Ctx) { writers_check(ctx, "C20", 60_000, 2_000_000) }
pub fn c21(ctx: &Ctx) { writers_check(ctx, "C21", 60_000, 2_000_000) }
pub fn c22(ctx: &Ctx) { writers_check(ctx, "C22", 60_000, 2_000_000) }

/// C23: every value of every enumeration and flag set, through every writer method that takes it.
pub fn c23(ctx: &Ctx) {
    ctx.rule("the program wrote at least one enumerated value or flag set");
    let roots: Vec<&Root> = ROOTS.iter().collect();
    let n = roots.len() as u64;
    ctx.exhaust("every enumerated value", n * 2000, |i, r, o| {
        one(r, o, &roots, (i % n) as usize, (i / n) % 2 == 0, (i / n) % 2 == 0, 1, true)
    });
    ctx.cases("random programs", 200_000, 4_000_000, |i, r, o| {
        let all = r.bool();
        let pretty = r.bool();
        one(r, o, &roots, (i % n) as usize, pretty, all, 1, true)
    });
    crate::checks::content::enum_stage(ctx);
    ctx.exhaust("defaults", 1, |_, _, o| {
        use pdf_writer::types::*;
        // The default values of the standard for the entries these options are written to.
        macro_rules! is { ($($T:ident => $p:pat),* $(,)?) => { $(
            let d = $T::default();
            if !matches!(d, $p) { return Err(format!("{}::default() is {d:?}", stringify!($T))); }
            o.count("defaults of options", 1);
        )* } }
        is! {
            AnnotationIcon => AnnotationIcon::Note, TextPosition => TextPosition::CaptionOnly, IconScale => IconScale::Always,
            IconScaleType => IconScaleType::Proportional, HighlightEffect => HighlightEffect::Invert,
            WritingMode => WritingMode::LtrTtb, LayoutBorderStyle => LayoutBorderStyle::None, TextAlign => TextAlign::Start,
            BlockAlign => BlockAlign::Before, InlineAlign => InlineAlign::Start, LineHeight => LineHeight::Normal,
            LayoutTextPosition => LayoutTextPosition::Normal, TextDecorationType => TextDecorationType::None,
            GlyphOrientationVertical => GlyphOrientationVertical::Auto, RubyAlign => RubyAlign::Distribute, RubyPosition => RubyPosition::Before,
            ListNumbering => ListNumbering::None, FieldState => FieldState::Unchecked, RenderingIntent => RenderingIntent::RelativeColorimetric,
            TextRenderingMode => TextRenderingMode::Fill, BlendMode => BlendMode::Normal, OverprintMode => OverprintMode::OverrideAllColorants,
            AssociationKind => AssociationKind::Unspecified, WMode => WMode::Horizontal, Quadding => Quadding::Left, PageLayout => PageLayout::SinglePage,
            PageMode => PageMode::UseNone, PhoneticAlphabet => PhoneticAlphabet::Ipa, Direction => Direction::L2R, TrappingStatus => TrappingStatus::Unknown,
            TransitionStyle => TransitionStyle::R, TransitionAngle => TransitionAngle::LeftToRight, SMaskInData => SMaskInData::Ignore,
            InterpolationOrder => InterpolationOrder::Linear, TempFileType => TempFileType::Never,
            CertificateKeyUsage => CertificateKeyUsage { digital_signature: None, non_repudiation: None, key_encipherment: None, data_encipherment: None, key_agreement: None, key_cert_sign: None, crl_sign: None, encipher_only: None, decipher_only: None },
            Settings => Settings { pretty: true },
        }
        if !RoleMapOpts::default().is_empty() { return Err("RoleMapOpts::default() sets options".into()); }
        o.eval(hash(&"defaults"), true);
        Ok(())
    });
    if !ctx.replaying() {
        ctx.require("variants known", 250);
        let (a, b) = (ctx.set_len("variants known"), ctx.set_len("variants exercised"));
        if a != b { ctx.error(format!("only {b} of {a} known enumeration values were exercised")); }
    }
}

/// A chunk of random typed objects, for the monitors that need realistic input.
pub fn random_chunk(r: &mut Rng, pretty: bool) -> Chunk {
    let n = 1 + r.below(4);
    let (ids, data) = inputs(r, n);
    let roots: Vec<&Root> = ROOTS.iter().collect();
    let mut c = Chunk::with_settings(settings(pretty));
    let mut g = G::new(r, 12);
    program(&mut c, &mut g, &roots, None, &ids, &data);
    c
}
