//! C29: time and memory stay proportional to what is written; nothing is kept afterwards.

use crate::checks::{guards, prog::{self, Lay, PROGRAMS}, tree};
use crate::rng::Rng;
use crate::mon::{hash, Ctx, Obs, R};
use crate::val::settings;
use pdf_writer::types::*;
use pdf_writer::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what each thread allocates.
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
fn grown(n: usize) {
    let _ = LIVE.try_with(|l| { let v = l.get() + n as i64; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}
fn shrunk(n: usize) { let _ = LIVE.try_with(|l| l.set(l.get() - n as i64)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grown(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { shrunk(l.size()); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { grown(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Counted as a copy: both blocks may exist for a moment.
        grown(n);
        let q = System.realloc(p, l, n);
        shrunk(if q.is_null() { n } else { l.size() });
        q
    }
}

/// CPU time of this thread: unlike elapsed time, it does not depend on what else is running.
fn cpu() -> u64 {
    #[repr(C)]
    struct Spec { s: i64, n: i64 }
    extern "C" { fn clock_gettime(clock: i32, t: *mut Spec) -> i32; }
    let mut t = Spec { s: 0, n: 0 };
    if unsafe { clock_gettime(3, &mut t) } != 0 { panic!("HARNESS: no thread clock"); }
    t.s as u64 * 1_000_000_000 + t.n as u64
}

/// What a run cost.
#[derive(Clone, Copy, Debug)]
struct Cost { units: u64, ns: u64, total: u64, peak: u64 }
impl Cost {
    fn per(&self, x: u64) -> f64 { x as f64 / self.units.max(1) as f64 }
}

/// `f` returns what was written; the input is measured, too, as it is written at least once.
fn measure(f: &Family, n: usize, pretty: bool) -> Cost {
    let (live, total) = (LIVE.get(), TOTAL.get());
    PEAK.set(live);
    let t = cpu();
    let out = (f.run)(n, pretty);
    let ns = cpu() - t;
    Cost { units: out as u64 + n as u64, ns, total: TOTAL.get() - total, peak: (PEAK.get() - live) as u64 }
}

struct Family { name: &'static str, base: usize, run: fn(usize, bool) -> usize }

fn chunk(p: bool) -> Chunk { Chunk::with_settings(settings(p)) }
fn content(p: bool) -> Content { Content::with_settings(settings(p)) }
fn id(n: usize) -> Ref { Ref::new(n as i32 + 1) }
/// A permutation of 0..n, for n that is not a multiple of 7919.
fn scattered(k: usize, n: usize) -> usize { (k * 7919) % n }
fn array(c: &mut Chunk, n: usize, mut f: impl FnMut(&mut Array, usize)) {
    let mut a = c.indirect(id(0)).array();
    for k in 0..n { f(&mut a, k); }
}
fn nest(o: Obj, d: usize) {
    if d == 0 { o.primitive(1); return; }
    if d % 2 == 0 { nest(o.array().push(), d - 1) } else { nest(o.dict().insert(Name(b"K")), d - 1) }
}
fn small(k: usize, p: bool) -> Chunk {
    let mut c = chunk(p);
    c.indirect(id(k)).array().item(id(k)).item(0.5).item(Str(b"(1 0 R")).item(Ref::new(k as i32 / 2 + 1));
    c
}
fn many(n: usize, p: bool) -> Chunk {
    let mut c = chunk(p);
    for k in 0..n { c.indirect(id(k)).array().item(id(n - k)).item(id(k)); }
    c
}
/// One object with the given value, renumbered.
fn renumbered(p: bool, f: impl FnOnce(&mut Chunk)) -> usize {
    let mut c = chunk(p);
    f(&mut c);
    let mut t = chunk(p);
    c.renumber_into(&mut t, |r| Ref::new(r.get() ^ 1 | 2));
    t.len()
}
fn finished(n: usize, p: bool, stream: bool, ids: impl Fn(usize) -> usize) -> usize {
    let mut pdf = Pdf::with_settings(settings(p));
    let mut max = 0;
    for k in 0..n { let i = ids(k); max = max.max(i); pdf.indirect(id(i)).primitive(true); }
    if stream { pdf.finish_with_xref_stream(id(max + 1)).len() } else { pdf.finish().len() }
}
const FILL: [&[u8]; 8] = [b"a", b"(", b")", b"()", b"\\", b"\0", b"\xff", b"#"];
fn fill(k: usize, n: usize) -> Vec<u8> { let f = FILL[k]; f.iter().cycle().take(n).copied().collect() }
fn one_string(k: usize, n: usize, p: bool) -> usize { let s = fill(k, n); let mut c = chunk(p); c.indirect(id(0)).primitive(Str(&s)); c.len() }
fn one_name(k: usize, n: usize, p: bool) -> usize { let s = fill(k, n); let mut c = chunk(p); c.indirect(id(0)).primitive(Name(&s)); c.len() }
fn one_text(t: &str, n: usize, p: bool) -> usize { let s = t.repeat(n); let mut c = chunk(p); c.indirect(id(0)).primitive(TextStr(&s)); c.len() }
fn map() -> UnicodeCmap<u16> { UnicodeCmap::new(Name(b"M"), SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"UCS"), supplement: 0 }) }

#[rustfmt::skip]
const FAMILIES: &[Family] = &[
    Family { name: "integers in an array", base: 2_000, run: |n, p| { let mut c = chunk(p); array(&mut c, n, |a, k| { a.item(k as i32); }); c.len() } },
    Family { name: "reals in an array", base: 2_000, run: |n, p| { let mut c = chunk(p); array(&mut c, n, |a, k| { a.item(k as f32 * 0.37); }); c.len() } },
    Family { name: "items of one call", base: 2_000, run: |n, p| { let mut c = chunk(p); c.indirect(id(0)).array().items((0..n).map(|k| k as f32 * 0.5)); c.len() } },
    Family { name: "typed items", base: 2_000, run: |n, p| { let mut c = chunk(p); { let mut a = c.indirect(id(0)).array().typed::<Ref>(); for k in 0..n { a.item(id(k)); } } c.len() } },
    Family { name: "names and strings in an array", base: 2_000, run: |n, p| { let mut c = chunk(p); array(&mut c, n, |a, _| { a.item(Name(b"N#")).item(Str(b"(a")).item(TextStr("\u{e9}")); }); c.len() } },
    Family { name: "arrays in an array", base: 2_000, run: |n, p| { let mut c = chunk(p); array(&mut c, n, |a, k| { a.push().array().item(k as i32); }); c.len() } },
    Family { name: "pairs in a dictionary", base: 2_000, run: |n, p| { let mut c = chunk(p); { let mut d = c.indirect(id(0)).dict(); for k in 0..n { d.pair(Name(b"K"), k as i32); } } c.len() } },
    Family { name: "dictionaries in a dictionary", base: 2_000, run: |n, p| { let mut c = chunk(p); { let mut d = c.indirect(id(0)).dict(); for _ in 0..n { d.insert(Name(b"K")).dict().pair(Name(b"A"), Null); } } c.len() } },
    Family { name: "nested containers", base: 500, run: |n, p| { let mut c = chunk(p); nest(c.indirect(id(0)), n); c.len() } },
    Family { name: "string of letters", base: 4_000, run: |n, p| one_string(0, n, p) },
    Family { name: "string of opening parentheses", base: 4_000, run: |n, p| one_string(1, n, p) },
    Family { name: "string of closing parentheses", base: 4_000, run: |n, p| one_string(2, n, p) },
    Family { name: "string of pairs of parentheses", base: 4_000, run: |n, p| one_string(3, n, p) },
    Family { name: "string of backslashes", base: 4_000, run: |n, p| one_string(4, n, p) },
    Family { name: "string of zeros", base: 4_000, run: |n, p| one_string(5, n, p) },
    Family { name: "string of high bytes", base: 4_000, run: |n, p| one_string(6, n, p) },
    Family { name: "name of letters", base: 4_000, run: |n, p| one_name(0, n, p) },
    Family { name: "name of number signs", base: 4_000, run: |n, p| one_name(7, n, p) },
    Family { name: "name of high bytes", base: 4_000, run: |n, p| one_name(6, n, p) },
    Family { name: "text of letters", base: 4_000, run: |n, p| one_text("a", n, p) },
    Family { name: "text of accents", base: 4_000, run: |n, p| one_text("\u{e9}", n, p) },
    Family { name: "text of supplementary characters", base: 4_000, run: |n, p| one_text("\u{10ffff}", n, p) },
    Family { name: "text that is not plain at its end", base: 4_000, run: |n, p| { let s = "a".repeat(n) + "\u{e9}"; let mut c = chunk(p); c.indirect(id(0)).primitive(TextStr(&s)); c.len() } },
    Family { name: "text in many languages", base: 2_000, run: |n, p| { let l: Vec<_> = (0..n).map(|k| (LanguageIdentifier::from_lang(["de", "fr", "it"][k % 3]).unwrap(), "x\u{e9}")).collect(); let mut c = chunk(p); c.indirect(id(0)).primitive(TextStrWithLang(&l)); c.len() } },
    Family { name: "one stream", base: 100_000, run: |n, p| { let d = vec![b'e'; n]; let mut c = chunk(p); c.stream(id(0), &d); c.len() } },
    Family { name: "many streams", base: 1_000, run: |n, p| { let mut c = chunk(p); for k in 0..n { c.stream(id(k), b"endstream").filter(Filter::LzwDecode); } c.len() } },
    Family { name: "document of ascending numbers", base: 2_000, run: |n, p| finished(n, p, false, |k| k) },
    Family { name: "document of descending numbers", base: 2_000, run: |n, p| finished(n, p, false, |k| n - k) },
    Family { name: "document of scattered numbers", base: 2_000, run: |n, p| finished(n, p, false, |k| scattered(k, n)) },
    Family { name: "document of two blocks in the wrong order", base: 2_000, run: |n, p| finished(n, p, false, |k| (k + n / 2) % n) },
    Family { name: "document with the largest number first", base: 2_000, run: |n, p| finished(n, p, false, |k| (k + n - 1) % n) },
    Family { name: "document with the smallest number last", base: 2_000, run: |n, p| finished(n, p, false, |k| (k + 1) % n) },
    Family { name: "document of two interleaved sequences", base: 2_000, run: |n, p| finished(n, p, false, |k| if k % 2 == 0 { k / 2 } else { n + k / 2 }) },
    Family { name: "document of opposed sequences", base: 2_000, run: |n, p| finished(n, p, false, |k| if k % 2 == 0 { k } else { 2 * n - k }) },
    Family { name: "document of descending pairs", base: 2_000, run: |n, p| finished(n, p, false, |k| k ^ 1) },
    Family { name: "document of ascending numbers, then descending ones", base: 2_000, run: |n, p| finished(n, p, false, |k| if k < n / 2 { k } else { 2 * n - k }) },
    Family { name: "document of descending blocks", base: 2_000, run: |n, p| finished(n, p, false, |k| k / 64 * 64 + 63 - k % 64) },
    Family { name: "document with every second number", base: 2_000, run: |n, p| finished(n, p, false, |k| 2 * k + 1) },
    Family { name: "document with free numbers at its start", base: 2_000, run: |n, p| finished(n, p, false, |k| n + k) },
    Family { name: "document with few numbers", base: 500, run: |n, p| finished(n, p, false, |k| 37 * k) },
    Family { name: "one free number, then many used ones", base: 2_000, run: |n, p| finished(n, p, false, |k| if k == 0 { 0 } else { k + 1 }) },
    Family { name: "xref stream of ascending numbers", base: 2_000, run: |n, p| finished(n, p, true, |k| k) },
    Family { name: "xref stream of scattered numbers", base: 2_000, run: |n, p| finished(n, p, true, |k| 2 * scattered(k, n)) },
    Family { name: "xref stream with few numbers", base: 500, run: |n, p| finished(n, p, true, |k| 37 * k) },
    Family { name: "filtered xref stream", base: 2_000, run: |n, p| { let mut pdf = Pdf::with_settings(settings(p)); for k in 0..n { pdf.indirect(id(k)).primitive(Null); } pdf.finish_with_xref_stream_and_filter(id(n), |d| (d.to_vec(), XRefFilter::Single(Filter::LzwDecode))).len() } },
    Family { name: "many chunks into one", base: 1_000, run: |n, p| { let mut t = chunk(p); let c = small(3, !p); for _ in 0..n { t.extend(&c); } t.len() } },
    Family { name: "many chunks into a document", base: 1_000, run: |n, p| { let mut t = Pdf::with_settings(settings(p)); for k in 0..n { t.extend(&small(k, p)); } t.finish().len() } },
    Family { name: "a large chunk into another", base: 2_000, run: |n, p| { let c = many(n, p); let mut t = chunk(p); t.extend(&c); t.len() } },
    Family { name: "limits merged many times", base: 2_000, run: |n, p| { let mut t = chunk(p); let c = small(3, p); for _ in 0..n { t.merge_limits(c.limits()); } t.len() } },
    Family { name: "references of a chunk", base: 2_000, run: |n, p| { let c = many(n, p); c.refs().count() + c.len() } },
    Family { name: "clone", base: 2_000, run: |n, p| many(n, p).clone().len() },
    Family { name: "looking at the bytes", base: 2_000, run: |n, p| { let mut c = chunk(p); let mut s = 0; for k in 0..n { c.indirect(id(k)).primitive(1); s += c.as_bytes().len() - c.len() + c.limits().array_len() + usize::from(c.refs().next().is_none()); } c.len() + s } },
    Family { name: "renumbering many objects", base: 2_000, run: |n, p| many(n, p).renumber(|r| Ref::new(r.get() + 5)).len() },
    Family { name: "renumbering to one number", base: 2_000, run: |n, p| many(n, p).renumber(|_| Ref::new(7)).len() },
    Family { name: "renumbering many references", base: 2_000, run: |n, p| renumbered(p, |c| array(c, n, |a, k| { a.item(id(k)); })) },
    Family { name: "renumbering integers", base: 2_000, run: |n, p| renumbered(p, |c| array(c, n, |a, _| { a.item(0); })) },
    Family { name: "renumbering names of R", base: 2_000, run: |n, p| renumbered(p, |c| array(c, n, |a, _| { a.item(1).item(0).item(Name(b"RRRR")); })) },
    Family { name: "renumbering a name of R", base: 4_000, run: |n, p| { let s = vec![b'R'; n]; renumbered(p, |c| c.indirect(id(0)).primitive(Name(&s))) } },
    Family { name: "renumbering a name of s", base: 4_000, run: |n, p| { let s = b"stream".repeat(n / 6); renumbered(p, |c| c.indirect(id(0)).primitive(Name(&s))) } },
    Family { name: "renumbering strings", base: 2_000, run: |n, p| renumbered(p, |c| array(c, n, |a, _| { a.item(Str(b"(1 0 R")).item(Str(b"endobj stream")); })) },
    Family { name: "renumbering a string of parentheses", base: 4_000, run: |n, p| { let s = fill(1, n); renumbered(p, |c| c.indirect(id(0)).primitive(Str(&s))) } },
    Family { name: "renumbering a string of backslashes", base: 4_000, run: |n, p| { let s = fill(4, n); renumbered(p, |c| c.indirect(id(0)).primitive(Str(&s))) } },
    Family { name: "renumbering streams", base: 1_000, run: |n, p| renumbered(p, |c| for k in 0..n { c.stream(id(k), b"endobj 1 0 R").pair(Name(b"R"), id(k)); }) },
    Family { name: "renumbering a stream of keywords", base: 2_000, run: |n, p| { let d = b"endobj 1 0 obj stream 7 0 R (".repeat(n); renumbered(p, |c| { c.stream(id(0), &d); }) } },
    Family { name: "renumbering a stream of digits", base: 8_000, run: |n, p| { let d = vec![b'0'; n]; renumbered(p, |c| { c.stream(id(0), &d); }) } },
    Family { name: "renumbering many chunks into one", base: 1_000, run: |n, p| { let mut t = chunk(p); for k in 0..n { small(k, !p).renumber_into(&mut t, |r| r); } t.len() } },
    Family { name: "content operations", base: 2_000, run: |n, p| { let mut c = content(p); for k in 0..n { c.move_to(k as f32, 0.5).line_to(1.0, -2.25).stroke(); } c.finish().len() } },
    Family { name: "saved states", base: 2_000, run: |n, p| { let mut c = content(p); for _ in 0..n { c.save_state(); } let mut s = 0; for _ in 0..n { c.restore_state(); s |= c.state_nesting_depth(); } c.finish().len() + s / n } },
    Family { name: "glyph positions of one operation", base: 2_000, run: |n, p| { let mut c = content(p); { let mut s = c.show_positioned(); let mut i = s.items(); for k in 0..n { i.show(Str(b"a(")).adjust(k as f32 * 0.1); } } c.finish().len() } },
    Family { name: "operands of one operation", base: 2_000, run: |n, p| { let mut c = content(p); c.set_dash_pattern((0..n).map(|k| k as f32 * 0.1), 0.5); c.finish().len() } },
    Family { name: "marked content properties", base: 1_000, run: |n, p| { let mut c = content(p); for k in 0..n { c.begin_marked_content_with_properties(Name(b"P")).properties().identify(k as i32); } for _ in 0..n { c.end_marked_content(); } c.finish().len() } },
    Family { name: "shown text", base: 4_000, run: |n, p| { let s = fill(3, n); let mut c = content(p); c.begin_text().show(Str(&s)).end_text(); c.finish().len() } },
    Family { name: "mappings of one character", base: 1_000, run: |n, _| { let mut m = map(); for k in 0..n { m.pair(k as u16, 'x'); } m.finish().len() } },
    Family { name: "mappings of several characters", base: 1_000, run: |n, _| { let mut m = map(); for k in 0..n { m.pair_with_multiple(k as u16, ['f', 'i', '\u{10ffff}']); } m.finish().len() } },
    Family { name: "a mapping of many characters", base: 4_000, run: |n, _| { let mut m = map(); m.pair_with_multiple(1, (0..n).map(|_| 'x')); m.finish().len() } },
    Family { name: "a long map name", base: 4_000, run: |n, _| { let s = fill(7, n); let mut m: UnicodeCmap<u16> = UnicodeCmap::new(Name(&s), SystemInfo { registry: Str(&s), ordering: Str(&s), supplement: 0 }); m.pair(1, 'x'); m.finish().len() } },
    Family { name: "calculator operations", base: 2_000, run: |n, _| { let ops: Vec<_> = (0..n).map(|k| if k % 2 == 0 { PostScriptOp::Real(k as f32 * 0.3) } else { PostScriptOp::Roll }).collect(); PostScriptOp::encode(&ops).len() } },
    Family { name: "calculator conditionals", base: 2_000, run: |n, _| { let s = [PostScriptOp::Pop, PostScriptOp::Integer(4)]; let ops: Vec<_> = (0..n).map(|k| if k % 2 == 0 { PostScriptOp::If(&s) } else { PostScriptOp::IfElse(&s, &s) }).collect(); PostScriptOp::encode(&ops).len() } },
    Family { name: "pages and their kids", base: 500, run: |n, p| { let mut c = chunk(p); c.pages(id(0)).kids((1..=n).map(id)).count(n as i32); for k in 1..=n { let mut g = c.page(id(k)); g.parent(id(0)).media_box(Rect::new(0.0, 0.0, 595.0, 842.0)); g.resources().fonts().pair(Name(b"F"), id(0)); g.annotations((0..3).map(id)); } c.len() } },
    Family { name: "fonts on a page", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut g = c.page(id(0)); let mut r = g.resources(); let mut f = r.fonts(); for k in 0..n { f.pair(Name(b"F"), id(k)); } } c.len() } },
    Family { name: "annotations", base: 500, run: |n, p| { let mut c = chunk(p); for k in 0..n { let mut a = c.annotation(id(k)); a.subtype(AnnotationType::Link).rect(Rect::new(0.0, 0.0, 1.0, k as f32)); a.action().action_type(ActionType::Uri).uri(Str(b"http://a/(")); } c.len() } },
    Family { name: "names of a tree", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut t = c.indirect(id(0)).start::<writers::NameTree<Ref>>(); let mut e = t.names(); for k in 0..n { e.insert(Str(b"key"), id(k)); } } c.len() } },
    Family { name: "numbers of a tree", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut t = c.indirect(id(0)).start::<writers::NumberTree<Ref>>(); let mut e = t.nums(); for k in 0..n { e.insert(k as i32, id(k)); } } c.len() } },
    Family { name: "children of a structure element", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut e = c.struct_element(id(0)); e.kind(StructRole::P); let mut k = e.children(); for i in 0..n { k.struct_element(id(i)); k.marked_content_ref().marked_content_id(i as i32); } } c.len() } },
    Family { name: "mapped roles", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut t = c.indirect(id(0)).start::<writers::StructTreeRoot>(); let mut m = t.role_map(); for _ in 0..n { m.insert(Name(b"Mine"), StructRole::Span); } } c.len() } },
    Family { name: "widths of a font", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut f = c.cid_font(id(0)); let mut w = f.widths(); for k in 0..n { w.consecutive(k as u16, [0.5, 600.0]).same(1, 2, 3.0); } } c.len() } },
    Family { name: "differences of an encoding", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut f = c.type1_font(id(0)); let mut e = f.encoding_custom(); let mut d = e.differences(); for k in 0..n { d.consecutive(k as u8, [Name(b"A"), Name(b"B")]); } } c.len() } },
    Family { name: "functions of a stitching function", base: 1_000, run: |n, p| { let mut c = chunk(p); c.stitching_function(id(0)).domain([0.0, 1.0]).functions((0..n).map(id)).bounds((0..n).map(|k| k as f32)).encode((0..n).map(|_| 0.5)); c.len() } },
    Family { name: "outline items", base: 500, run: |n, p| { let mut c = chunk(p); for k in 0..n { c.outline_item(id(k)).title(TextStr("Chapter \u{201c}1\u{201d}")).parent(id(n)).dest().page(id(0)).xyz(1.0, 2.0, None); } c.len() } },
    Family { name: "form fields", base: 500, run: |n, p| { let mut c = chunk(p); for k in 0..n { let mut f = c.form_field(id(k)); f.field_type(FieldType::Choice).partial_name(TextStr("n")); f.choice_options().export(TextStr("a"), TextStr("b")).option(TextStr("\u{e9}")); } c.len() } },
    Family { name: "options of a choice", base: 1_000, run: |n, p| { let mut c = chunk(p); { let mut f = c.form_field(id(0)); f.field_type(FieldType::Choice); let mut o = f.choice_options(); o.options((0..n).map(|_| TextStr("b"))); } c.len() } },
];

/// The cost per unit at 4, 16, ... `scale` times the base size, against the base size.
fn grows(f: &Family, scale: usize, pretty: bool, o: &mut Obs) -> R<()> {
    let n0 = f.base;
    let cheapest = |n: usize, times: usize| (0..times).map(|_| measure(f, n, pretty)).min_by_key(|c| c.ns).unwrap();
    let mut base = cheapest(n0, 5);
    for k in [4, 16, 64, 256, 1024] {
        if k > scale { break; }
        let n = n0 * k;
        if f.name == "nested containers" && n > 60_000 { break; }
        let mut c = measure(f, n, pretty);
        // A busy machine slows everything down, but not again and again tenfold.
        let slow = |b: &Cost, c: &Cost| c.per(c.ns) > 60.0 && c.per(c.ns) > 10.0 * b.per(b.ns).max(2.0);
        for _ in 0..4 {
            if !slow(&base, &c) || c.ns > 1_000_000_000 && c.per(c.ns) > 15.0 * base.per(base.ns).max(2.0) { break; }
            let b = cheapest(n0, 5);
            if b.ns < base.ns || slow(&b, &c) { base = b; }
            let again = measure(f, n, pretty);
            if again.ns < c.ns { c = again; }
        }
        let what = |m: &str| Err(format!("{} (pretty={pretty}): {m} grows faster than the output: {base:?} for size {n0}, {c:?} for size {n}", f.name));
        if slow(&base, &c) { return what("time"); }
        if c.per(c.total) > 6.0 * base.per(base.total) + 8.0 { return what("allocated memory"); }
        if c.per(c.peak) > 4.0 * base.per(base.peak) + 8.0 { return what("memory in use"); }
        if c.per(c.peak) > 64.0 { return Err(format!("{} (pretty={pretty}): {:.0} bytes in use per unit written: {c:?} for size {n}", f.name, c.per(c.peak))); }
        o.max("nanoseconds per unit", c.per(c.ns) as u64);
        o.max("times the cost per unit of the base size, in percent", (100.0 * c.per(c.ns) / base.per(base.ns).max(0.01)) as u64);
        o.max("bytes allocated per unit", c.per(c.total) as u64);
        o.max("bytes in use per unit", c.per(c.peak) as u64);
        o.max("units of one output", c.units);
        o.count("cost comparisons", 1);
        o.eval(hash(&(f.name, pretty, n)), true);
    }
    o.sample(|| format!("{}: {base:?}", f.name));
    Ok(())
}

/// The same program again and again must not keep anything.
fn leaks(k: usize, seed: u64, pretty: bool, o: &mut Obs) -> R<()> {
    let mut live = vec![];
    for _ in 0..9 {
        let before = LIVE.get();
        let out = crate::mon::guarded(|| { let mut lay = Lay::plain(pretty); prog::run(k, seed, &mut lay) });
        let n = match &out { Ok(Ok(x)) => x.bytes.len(), _ => 0 };
        drop(out);
        live.push((LIVE.get() - before, n));
    }
    let n = live[0].1;
    if live.iter().any(|l| l.1 != n) { return Err(format!("lengths {live:?}")); }
    if live[3..].iter().all(|l| l.0 > 0) {
        return Err(format!("{} keeps memory every time: bytes {:?} (seed {seed})", PROGRAMS[k].0, live.iter().map(|l| l.0).collect::<Vec<_>>()));
    }
    o.count("repeated programs", 1);
    o.eval(hash(&(k, seed, n)), n > 0);
    Ok(())
}

/// Work that is refused or interrupted must not keep anything either.
fn refused(k: usize, seed: u64, pretty: bool, o: &mut Obs) -> R<()> {
    let mut live = vec![];
    let mut text = vec![];
    for i in 0..9 {
        let before = LIVE.get();
        let out = crate::mon::guarded(|| {
            let mut r = Rng::new(seed);
            match k {
                0 => guards::refusals(&mut r, pretty),
                1 => { let mut no = Obs::default(); tree::unwound_chunk(&mut r, &mut no).as_bytes().to_vec() }
                // A document whose numbers are used twice.
                2..=4 => {
                    let n = 1 + r.below(60);
                    let mut pdf = Pdf::with_settings(settings(pretty));
                    for i in 0..n { pdf.indirect(Ref::new(1 + i as i32)).primitive(1); }
                    if r.bool() { pdf.set_file_id((r.bytes(), r.bytes())); }
                    let again = Ref::new(1 + r.below(n) as i32);
                    if k != 3 { pdf.indirect(again).primitive(2); }
                    let hook = |b: &[u8]| { let v = b.to_vec(); if k == 4 { panic!("callback") } (v, XRefFilter::Multiple(vec![Filter::Crypt; 3])) };
                    let res = crate::mon::guarded(|| match k { 2 => pdf.finish(), 3 => pdf.finish_with_xref_stream(again), _ => pdf.finish_with_xref_stream_and_filter(Ref::new(1000), hook) });
                    assert!(res.is_err());
                    vec![]
                }
                // A callback that panics, in all calls that take one.
                _ => {
                    let mut left = r.below(40);
                    let res = crate::mon::guarded(|| crate::checks::conc::callbacks(&mut r, &mut || { if left == 0 { panic!("callback") } left -= 1; }));
                    res.unwrap_or_default()
                }
            }
        });
        text.push(match &out { Ok(v) => hash(v), Err(e) => return Err(format!("HARNESS: {e}")) });
        drop(out);
        // The first round may set up what the process keeps once.
        if i > 0 { live.push(LIVE.get() - before); }
    }
    if text.iter().any(|t| *t != text[0]) { return Err("repetitions differ".into()); }
    if live[2..].iter().all(|l| *l > 0) { return Err(format!("refused work of kind {k} keeps memory every time: bytes {live:?} (seed {seed})")); }
    o.count("repeated refusals", 1);
    o.eval(hash(&(k, seed, "refused")), true);
    Ok(())
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("the costs of two sizes of the same program were compared, or a program was repeated and the memory it kept was observed");
    ctx.assume("time is the CPU time of the thread, memory what the allocator was asked for; only growth by more than the constant factors in the oracle is a violation");
    let f = FAMILIES.len() as u64;
    let scale = if ctx.thorough { 1024 } else { 256 };
    ctx.exhaust("growth", f * 2, |i, _, o| grows(&FAMILIES[(i / 2) as usize], scale, i % 2 == 0, o));
    ctx.cases("memory kept", 12_000, 200_000, |i, r, o| { let s = r.next(); leaks(i as usize % PROGRAMS.len(), s, r.bool(), o) });
    ctx.cases("memory kept after refusals", 6_000, 100_000, |i, r, o| { let s = r.next(); refused(i as usize % 6, s, r.bool(), o) });
    ctx.require("cost comparisons", 300);
    ctx.require("repeated programs", 1_000);
    ctx.require("repeated refusals", 1_000);
}
