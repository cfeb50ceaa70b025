//! C14: content streams contain exactly the operations issued; also the content part of C23.

use crate::checks::typed::graphics::{LINE_CAP_STYLE, LINE_JOIN_STYLE, RENDERING_INTENT};
use crate::checks::typed::{dup, Ev, G};
use crate::checks::typed::tagged::property_list;
use crate::mon::{hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::types::*;
use pdf_writer::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const TEXT_RENDERING_MODE: &[(TextRenderingMode, i32)] = &[
    (TextRenderingMode::Fill, 0), (TextRenderingMode::Stroke, 1), (TextRenderingMode::FillStroke, 2), (TextRenderingMode::Invisible, 3),
    (TextRenderingMode::FillClip, 4), (TextRenderingMode::StrokeClip, 5), (TextRenderingMode::FillStrokeClip, 6), (TextRenderingMode::Clip, 7),
];
pub const COLOR_SPACE_OPERAND: &[(ColorSpaceOperand<'static>, &str)] = &[
    (ColorSpaceOperand::DeviceGray, "DeviceGray"), (ColorSpaceOperand::DeviceRgb, "DeviceRGB"),
    (ColorSpaceOperand::DeviceCmyk, "DeviceCMYK"), (ColorSpaceOperand::Pattern, "Pattern"),
];

/// What the program is allowed to use and what it has seen.
pub struct Env<'r> {
    pub r: &'r mut Rng,
    pub depth: usize,
    pub variants: HashMap<(&'static str, usize), usize>,
}
impl Env<'_> {
    fn variant(&mut self, what: &'static str, n: usize) -> usize {
        let i = self.r.below(n);
        self.variants.insert((what, i), n);
        i
    }
}
type Act = fn(&mut Content, &mut Env) -> Op;

fn op(o: &str, operands: Vec<V>) -> Op { Op { operands, op: o.as_bytes().to_vec() } }
fn fs(v: &[f32]) -> Vec<V> { v.iter().map(|&x| x.into()).collect() }

macro_rules! plain { ($m:ident, $o:literal) => { (stringify!($m), |c, _e| { c.$m(); op($o, vec![]) }) }; }
macro_rules! nums {
    ($m:ident, $o:literal, $($x:ident)*) => { (stringify!($m), |c, e| { $(let $x = e.r.f();)* c.$m($($x),*); op($o, fs(&[$($x),*])) }) };
}
macro_rules! name { ($m:ident, $o:literal) => { (stringify!($m), |c, e| { let n = e.r.name(); c.$m(Name(&n)); op($o, vec![V::Name(n)]) }) }; }
macro_rules! text { ($m:ident, $o:literal) => { (stringify!($m), |c, e| { let n = e.r.bytes(); c.$m(Str(&n)); op($o, vec![V::Str(n)]) }) }; }
macro_rules! en { ($m:ident, $o:literal, $t:ident) => { (stringify!($m), |c, e| { let i = e.variant(stringify!($m), $t.len()); c.$m(dup(&$t[i].0)); op($o, vec![$t[i].1.ev()]) }) }; }
macro_rules! cso { ($m:ident, $o:literal) => { (stringify!($m), |c, e| {
    let i = e.variant(stringify!($m), COLOR_SPACE_OPERAND.len() + 2);
    if i < COLOR_SPACE_OPERAND.len() { c.$m(dup(&COLOR_SPACE_OPERAND[i].0)); return op($o, vec![COLOR_SPACE_OPERAND[i].1.ev()]); }
    let n = e.r.name();
    if i == COLOR_SPACE_OPERAND.len() { c.$m(ColorSpaceOperand::Named(Name(&n))); } else { c.$m(Name(&n)); }
    op($o, vec![V::Name(n)])
}) }; }
macro_rules! list { ($m:ident, $o:literal) => { (stringify!($m), |c, e| { let a = e.r.floats(6); c.$m(it(a.clone())); op($o, fs(&a)) }) }; }
macro_rules! pattern { ($m:ident, $o:literal) => { (stringify!($m), |c, e| {
    let a = e.r.floats(5);
    let n = e.r.name();
    c.$m(it(a.iter().copied()), Name(&n));
    let mut v = fs(&a);
    v.push(V::Name(n));
    op($o, v)
}) }; }
macro_rules! marked { ($m:ident, $o:literal) => { (stringify!($m), |c, e| {
    let tag = e.r.name();
    let mut w = c.$m(Name(&tag));
    match e.r.below(3) {
        0 => { let n = e.r.name(); w.properties_named(Name(&n)); op($o, vec![V::Name(tag), V::Name(n)]) }
        1 => { let mut g = G::new(e.r, 6); let v = property_list::write(w.properties(), &mut g); drop(w); op($o, vec![V::Name(tag), v]) }
        // The properties through the operation it derefs to.
        _ => { let mut b = 4; let t = Tree::random(e.r, &mut b, 3); t.put(w.obj()); w.finish(); op($o, vec![V::Name(tag), t.exp()]) }
    }
}) }; }

pub const OPS: &[(&str, Act)] = &[
    ("set_line_width", |c, e| { let x = e.r.f().abs(); c.set_line_width(x); op("w", fs(&[x])) }),
    en!(set_line_cap, "J", LINE_CAP_STYLE),
    en!(set_line_join, "j", LINE_JOIN_STYLE),
    nums!(set_miter_limit, "M", x),
    ("set_dash_pattern", |c, e| { let a = e.r.floats(5); let p = e.r.f(); c.set_dash_pattern(it(a.iter().copied()), p); op("d", vec![V::Arr(fs(&a)), p.into()]) }),
    en!(set_rendering_intent, "ri", RENDERING_INTENT),
    ("set_flatness", |c, e| { let x = e.r.range(0, 100) as i32; c.set_flatness(x); op("i", vec![x.into()]) }),
    name!(set_parameters, "gs"),
    ("save_state", |c, e| { c.save_state(); e.depth += 1; op("q", vec![]) }),
    ("restore_state", |c, e| { c.restore_state(); e.depth = e.depth.saturating_sub(1); op("Q", vec![]) }),
    ("transform", |c, e| { let a = e.r.f6(); c.transform(a); op("cm", fs(&a)) }),
    nums!(move_to, "m", x y),
    nums!(line_to, "l", x y),
    nums!(cubic_to, "c", a b c1 d x y),
    nums!(cubic_to_initial, "v", a b x y),
    nums!(cubic_to_final, "y", a b x y),
    plain!(close_path, "h"),
    nums!(rect, "re", x y w h),
    plain!(stroke, "S"),
    plain!(close_and_stroke, "s"),
    plain!(fill_nonzero, "f"),
    plain!(fill_even_odd, "f*"),
    plain!(fill_nonzero_and_stroke, "B"),
    plain!(fill_even_odd_and_stroke, "B*"),
    plain!(close_fill_nonzero_and_stroke, "b"),
    plain!(close_fill_even_odd_and_stroke, "b*"),
    plain!(end_path, "n"),
    plain!(clip_nonzero, "W"),
    plain!(clip_even_odd, "W*"),
    plain!(begin_text, "BT"),
    plain!(end_text, "ET"),
    nums!(set_char_spacing, "Tc", x),
    nums!(set_word_spacing, "Tw", x),
    nums!(set_horizontal_scaling, "Tz", x),
    nums!(set_leading, "TL", x),
    ("set_font", |c, e| { let n = e.r.name(); let x = e.r.f(); c.set_font(Name(&n), x); op("Tf", vec![V::Name(n), x.into()]) }),
    en!(set_text_rendering_mode, "Tr", TEXT_RENDERING_MODE),
    nums!(set_rise, "Ts", x),
    nums!(next_line, "Td", x y),
    nums!(next_line_and_set_leading, "TD", x y),
    ("set_text_matrix", |c, e| { let a = e.r.f6(); c.set_text_matrix(a); op("Tm", fs(&a)) }),
    plain!(next_line_using_leading, "T*"),
    text!(show, "Tj"),
    text!(next_line_show, "'"),
    ("next_line_show_and_set_word_and_char_spacing", |c, e| {
        let (a, b, t) = (e.r.f(), e.r.f(), e.r.bytes());
        c.next_line_show_and_set_word_and_char_spacing(a, b, Str(&t));
        op("\"", vec![a.into(), b.into(), V::Str(t)])
    }),
    ("show_positioned", |c, e| {
        let mut v = vec![];
        let mut w = c.show_positioned();
        let mut items = w.items();
        for _ in 0..e.r.len(7) {
            match e.r.below(5) {
                0 | 1 => { let t = e.r.bytes(); items.show(Str(&t)); v.push(V::Str(t)); }
                2 | 3 => { let x = e.r.f(); items.adjust(x); v.push(x.into()); }
                _ => { let p = Prim::random(e.r); p.put(Item(&mut items)); v.push(p.exp()); }
            }
        }
        if e.r.bool() { items.finish(); w.finish(); }
        op("TJ", vec![V::Arr(v)])
    }),
    ("start_color_glyph", |c, e| { let x = e.r.f(); c.start_color_glyph(x); op("d0", fs(&[x, 0.0])) }),
    ("start_shape_glyph", |c, e| {
        let a = e.r.f6();
        c.start_shape_glyph(a[0], a[1], a[2], a[3], a[4]);
        op("d1", fs(&[a[0], 0.0, a[1], a[2], a[3], a[4]]))
    }),
    cso!(set_stroke_color_space, "CS"),
    cso!(set_fill_color_space, "cs"),
    list!(set_stroke_color, "SCN"),
    list!(set_fill_color, "scn"),
    pattern!(set_stroke_pattern, "SCN"),
    pattern!(set_fill_pattern, "scn"),
    nums!(set_stroke_gray, "G", x),
    nums!(set_fill_gray, "g", x),
    nums!(set_stroke_rgb, "RG", x y z),
    nums!(set_fill_rgb, "rg", x y z),
    nums!(set_stroke_cmyk, "K", x y z w),
    nums!(set_fill_cmyk, "k", x y z w),
    name!(shading, "sh"),
    name!(x_object, "Do"),
    name!(marked_content_point, "MP"),
    name!(begin_marked_content, "BMC"),
    marked!(marked_content_point_with_properties, "DP"),
    marked!(begin_marked_content_with_properties, "BDC"),
    plain!(end_marked_content, "EMC"),
    plain!(begin_compat, "BX"),
    plain!(end_compat, "EX"),
    ("op", |c, e| {
        const NAMES: &[&str] = &["w", "f*", "'", "\"", "T*", "BT", "xyz", "Q", "cm", "d1", "BI", "true1", "nullx", "a-b", "R2", "obj"];
        let o = *e.r.pick(NAMES);
        let mut w = c.op(o);
        let mut v = vec![];
        for _ in 0..e.r.len(6) {
            match e.r.below(4) {
                0 => { let p = Prim::random(e.r); p.put(Operand(&mut w)); v.push(p.exp()); }
                1 => { let a = e.r.floats(4); w.operands(it(a.iter().copied())); v.extend(fs(&a)); }
                2 => { let a: Vec<i32> = (0..e.r.len(4)).map(|_| e.r.int()).collect(); w.operands(it(a.clone())); v.extend(a.into_iter().map(V::from)); }
                _ => { let mut b = 5; let t = Tree::random(e.r, &mut b, 4); t.put(w.obj()); v.push(t.exp()); }
            }
        }
        if e.r.bool() { w.finish(); }
        op(o, v)
    }),
];

pub fn same_ops(exp: &[Op], got: &[Op]) -> R<()> {
    for (i, (a, b)) in exp.iter().zip(got).enumerate() {
        if a.op != b.op { return Err(format!("operation {i} is {} instead of {}", esc(&b.op), esc(&a.op))); }
        if a.operands.len() != b.operands.len() { return Err(format!("operation {i} ({}) has {} operands instead of {}", esc(&a.op), b.operands.len(), a.operands.len())); }
        for (x, y) in a.operands.iter().zip(&b.operands) {
            if let Some(m) = diff(x, y, true) { return Err(format!("operation {i} ({}): {m}", esc(&a.op))); }
        }
    }
    if exp.len() != got.len() { return Err(format!("{} operations issued, {} found", exp.len(), got.len())); }
    Ok(())
}

/// Issue `n` random operations; returns what must be found.
pub fn program(c: &mut Content, e: &mut Env, n: usize, mut after: impl FnMut(&Content, &Env, usize, &Op) -> R<()>) -> R<Vec<Op>> {
    let mut exp = vec![];
    for _ in 0..n {
        let i = e.r.below(OPS.len());
        let x = (OPS[i].1)(c, e);
        after(c, e, i, &x)?;
        exp.push(x);
    }
    Ok(exp)
}
pub fn env(r: &mut Rng) -> Env<'_> { Env { r, depth: 0, variants: HashMap::new() } }

struct Boom;

fn create(r: &mut Rng, pretty: bool) -> Content {
    match r.below(4) {
        0 if pretty => Content::new(),
        1 if pretty => Content::with_capacity(*r.pick(&[0, 1, 7, 4096])),
        2 => Content::with_settings_and_capacity(settings(pretty), *r.pick(&[0, 1, 3, 100, 5000])),
        _ => Content::with_settings(settings(pretty)),
    }
}

fn whole(c: Content, exp: &[Op], pretty: bool, o: &mut Obs, nontrivial: bool) -> R<()> {
    let view = c.as_bytes().to_vec();
    if c.len() != view.len() { return Err(format!("len() {} but {} bytes", c.len(), view.len())); }
    let buf = c.finish();
    let bytes: &[u8] = buf.as_slice();
    let mut want = view.as_slice();
    if let [x @ .., b'\n'] = want { want = x; }
    if bytes != want { return Err(format!("finish() gives {} after as_bytes() gave {}", esc(bytes), esc(&view))); }
    let (got, st) = parse_content(bytes)?;
    same_ops(exp, &got).map_err(|m| format!("{m}\nin {}", esc(bytes)))?;
    let (got, _) = parse_content(&view)?;
    same_ops(exp, &got)?;
    o.count(if pretty { "pretty streams" } else { "compact streams" }, 1);
    o.count("operations parsed", got.len() as u64);
    o.count("operands parsed", got.iter().map(|x| x.operands.len() as u64).sum());
    o.max("operand nesting", st.max_depth as u64);
    o.max("operations in a stream", got.len() as u64);
    o.max("bytes", bytes.len() as u64);
    o.sample(|| esc(bytes));
    o.eval(hash(bytes), nontrivial);
    Ok(())
}
fn flush(e: &Env, o: &mut Obs) {
    for (k, n) in &e.variants {
        o.seen("variants exercised", hash(&("content", k.0, k.1)));
        for i in 0..*n { o.seen("variants known", hash(&("content", k.0, i))); }
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("the stream held at least two operations, one of them with operands");
    ctx.assume("custom operator names are regular characters and not the keywords true, false, null or R");
    let n = OPS.len() as u64;
    // Every ordered pair of operations in both layouts: what separates them depends on both.
    ctx.exhaust("every pair of operations", n * n * 2, |i, r, o| {
        let pretty = i % 2 == 0;
        let (a, b) = ((i / 2 / n) as usize, (i / 2 % n) as usize);
        let mut c = create(r, pretty);
        let mut e = env(r);
        let x = (OPS[a].1)(&mut c, &mut e);
        let y = (OPS[b].1)(&mut c, &mut e);
        o.seen("operation pairs", i / 2);
        flush(&e, o);
        whole(c, &[x, y], pretty, o, true)
    });
    ctx.cases("programs", 200_000, 1_500_000, |i, r, o| {
        let pretty = r.bool();
        let k = match i % 50 { 0 => r.below(600), 1 => 0, 2 => 1, _ => r.below(24) };
        let mut c = create(r, pretty);
        let mut e = env(r);
        let mut prev: Vec<u8> = vec![];
        let mut depth = 0u64;
        let exp = program(&mut c, &mut e, k, |c, e, _i, x| {
            let now = c.as_bytes();
            if c.len() != now.len() { return Err(format!("len() {} but {} bytes after {}", c.len(), now.len(), esc(&x.op))); }
            if !now.starts_with(&prev) || now.len() <= prev.len() { return Err(format!("{} changed earlier bytes or wrote nothing", esc(&x.op))); }
            prev = now.to_vec();
            if c.state_nesting_depth() != e.depth { return Err(format!("state_nesting_depth() {} after {}, expected {}", c.state_nesting_depth(), esc(&x.op), e.depth)); }
            depth = depth.max(e.depth as u64);
            Ok(())
        })?;
        for x in &exp { o.seen("operators", hash(&x.op)); }
        o.max("state nesting", depth);
        flush(&e, o);
        if e.r.bool() { c.reserve(e.r.below(3000)); }
        let nt = exp.len() > 1 && exp.iter().any(|x| !x.operands.is_empty());
        whole(c, &exp, pretty, o, nt)
    });
    // Long streams, where positions and counts pass every likely threshold.
    ctx.cases("long streams", 64, 1000, |i, r, o| {
        let pretty = i % 2 == 0;
        let mut c = create(r, pretty);
        let mut e = env(r);
        let k = 2000 + e.r.below(if i < 4 { 40_000 } else { 6000 });
        // Half of them from few operations, so that the lengths are regular.
        let few: Vec<usize> = (0..3).map(|_| e.r.below(OPS.len())).collect();
        let mut exp = vec![];
        for _ in 0..k {
            let j = if i % 4 < 2 { *e.r.pick(&few) } else { e.r.below(OPS.len()) };
            exp.push((OPS[j].1)(&mut c, &mut e));
        }
        flush(&e, o);
        whole(c, &exp, pretty, o, true)
    });
    // Graphics state nesting: long walks of saves and restores, also below zero.
    ctx.cases("state nesting", 400, 5_000, |i, r, o| {
        let pretty = r.bool();
        let mut c = create(r, pretty);
        let mut d = 0usize;
        let (mut exp, mut low) = (vec![], 0u64);
        let bias = r.below(4) as u32;
        let steps = match i { 0 | 1 => 140_000, _ if i % 8 == 0 => r.below(4000), _ => r.below(400) };
        for k in 0..steps {
            match () {
                // The first two climb far beyond any narrow counter before they come back.
                _ if (i < 2 && k < steps / 2) || (i >= 2 && r.chance(1 + bias, 5)) => { c.save_state(); d += 1; exp.push(op("q", vec![])); }
                _ => { c.restore_state(); if d == 0 { low += 1; } d = d.saturating_sub(1); exp.push(op("Q", vec![])); }
            }
            if c.state_nesting_depth() != d { return Err(format!("depth {} expected {d}", c.state_nesting_depth())); }
        }
        o.count("restores at depth zero", low);
        o.max("state nesting", d as u64);
        whole(c, &exp, pretty, o, !exp.is_empty())
    });
    // An operation interrupted by a panic is still terminated by its operator.
    ctx.cases("unwinding", 3_000, 60_000, |_, r, o| {
        let pretty = r.bool();
        let mut c = create(r, pretty);
        let mut e = env(r);
        let n = e.r.below(4);
        let mut exp = program(&mut c, &mut e, n, |_, _, _, _| Ok(()))?;
        let mut v: Vec<V> = vec![];
        let mut open: Option<Vec<V>> = None;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut w = c.op("zz");
            for _ in 0..e.r.below(4) { let p = Prim::random(e.r); p.put(Operand(&mut w)); v.push(p.exp()); }
            if e.r.bool() {
                open = Some(vec![]);
                let mut a = w.obj().array();
                for _ in 0..e.r.below(4) { let p = Prim::random(e.r); p.put(Item(&mut a)); open.as_mut().unwrap().push(p.exp()); }
                resume_unwind(Box::new(Boom));
            }
            resume_unwind(Box::new(Boom));
        }));
        if let Err(p) = res { if !p.is::<Boom>() { resume_unwind(p); } }
        if let Some(a) = open { v.push(V::Arr(a)); }
        exp.push(op("zz", v));
        o.count("operations ended by unwinding", 1);
        let n = e.r.below(3);
        exp.extend(program(&mut c, &mut e, n, |_, _, _, _| Ok(()))?);
        whole(c, &exp, pretty, o, true)
    });
    ctx.cases("finished buffers", 4_000, 100_000, |_, r, o| {
        let pretty = r.bool();
        let mut c = Content::with_settings(settings(pretty));
        let mut e = env(r);
        let n = e.r.below(12);
        program(&mut c, &mut e, n, |_, _, _, _| Ok(()))?;
        let mut b = c.finish();
        let limits = format!("{:?}", b.limits());
        let first = b.clone();
        let mut want = b.to_vec();
        for _ in 0..1 + r.below(4) {
            let add = r.bytes();
            match r.below(3) { 0 => b.extend(&add), 1 => b.extend(it(add.iter().copied())), _ => Extend::<u8>::extend(&mut b, it(add.clone())) }
            want.extend(add);
            if b.as_slice() != want || b[..] != want[..] || b.len() != want.len() { return Err(format!("a buffer extended by bytes holds {} instead of {}", esc(&b), esc(&want))); }
        }
        if format!("{:?}", b.limits()) != limits { return Err("extending a buffer by bytes changes its limits".into()); }
        if (b == first) != (want.len() == first.len()) || first.clone() != first { return Err("buffers compare wrongly".into()); }
        o.eval(hash(&want), want.len() > first.len());
        if first[..] != want[..first.len()] { return Err("a clone follows its original".into()); }
        if b.into_vec() != want { return Err("into_vec gives other bytes".into()); }
        Ok(())
    });
    ctx.require("operation pairs", n * n);
    ctx.require("operators", 70);
    ctx.require("restores at depth zero", 100);
    let (a, b) = (ctx.set_len("variants known"), ctx.set_len("variants exercised"));
    if !ctx.replaying() && (a != b || a < 20) { ctx.error(format!("only {b} of {a} known operand values were exercised")); }
}

/// The enumerated operands of content operators (part of C23).
pub fn enum_stage(ctx: &Ctx) {
    const OF: &[&str] = &["set_line_cap", "set_line_join", "set_rendering_intent", "set_text_rendering_mode", "set_stroke_color_space", "set_fill_color_space"];
    let acts: Vec<Act> = OPS.iter().filter(|x| OF.contains(&x.0)).map(|x| x.1).collect();
    ctx.exhaust("content operands", acts.len() as u64 * 400, |i, r, o| {
        let pretty = r.bool();
        let mut c = create(r, pretty);
        let mut e = env(r);
        let x = acts[i as usize % acts.len()](&mut c, &mut e);
        flush(&e, o);
        whole(c, &[x], pretty, o, true)
    });
}
