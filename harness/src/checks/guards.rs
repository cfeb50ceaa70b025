//! C25: documented argument restrictions.

use crate::checks::typed::doc::PAGE_MODE;
use crate::mon::{guarded, hash, Ctx, Obs, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

/// Calls that are tried on a writer in the middle of a valid program: returns whether it panicked.
fn attempt(f: impl FnOnce()) -> bool { guarded(f).is_err() }

/// A guarded method: `run` writes a valid program into a chunk, with the attempt somewhere in it.
/// The attempt reports whether it was rejected.
type Run = fn(&mut Chunk, &mut Rng, Arg, bool) -> bool;
#[derive(Clone, Copy, Debug)]
enum Arg { I(i32), F(f32), M(usize) }

struct Guard { name: &'static str, valid: fn(Arg) -> bool, run: Run, exp: fn(Arg) -> (&'static [u8], V) }

fn i(a: Arg) -> i32 { match a { Arg::I(i) => i, _ => panic!("HARNESS: argument") } }
fn f(a: Arg) -> f32 { match a { Arg::F(f) => f, _ => panic!("HARNESS: argument") } }
fn m(a: Arg) -> usize { match a { Arg::M(i) => i, _ => panic!("HARNESS: argument") } }

macro_rules! extra { ($w:ident, $r:ident) => { if $r.bool() { let k = $r.key(); let v = $r.int(); $w.pair(Name(&k), v); } } }

const DICT_GUARDS: &[Guard] = &[
    Guard { name: "DecodeParms::colors", valid: |a| i(a) > 0, exp: |a| (b"Colors", i(a).into()), run: |c, r, a, on| {
        let mut s = c.stream(Ref::new(3), b"data");
        let mut w = s.decode_parms();
        extra!(w, r);
        let bad = on && attempt(|| { w.colors(i(a)); });
        extra!(w, r);
        bad
    } },
    Guard { name: "DecodeParms::bits_per_component", valid: |a| matches!(i(a), 1 | 2 | 4 | 8 | 16), exp: |a| (b"BitsPerComponent", i(a).into()), run: |c, r, a, on| {
        let mut s = c.stream(Ref::new(3), b"data");
        let mut w = s.decode_parms();
        extra!(w, r);
        let bad = on && attempt(|| { w.bits_per_component(i(a)); });
        extra!(w, r);
        bad
    } },
    Guard { name: "IccProfile::n", valid: |a| matches!(i(a), 1 | 3 | 4), exp: |a| (b"N", i(a).into()), run: |c, r, a, on| {
        let mut w = c.icc_profile(Ref::new(3), b"profile");
        extra!(w, r);
        let bad = on && attempt(|| { w.n(i(a)); });
        if r.bool() { w.alternate().device_rgb(); }
        extra!(w, r);
        bad
    } },
    Guard { name: "TilingPattern::x_step", valid: |a| f(a) != 0.0, exp: |a| (b"XStep", f(a).into()), run: |c, r, a, on| {
        let mut w = c.tiling_pattern(Ref::new(3), b"q Q");
        extra!(w, r);
        let bad = on && attempt(|| { w.x_step(f(a)); });
        if r.bool() { w.tiling_type(TilingType::NoDistortion); }
        extra!(w, r);
        bad
    } },
    Guard { name: "TilingPattern::y_step", valid: |a| f(a) != 0.0, exp: |a| (b"YStep", f(a).into()), run: |c, r, a, on| {
        let mut w = c.tiling_pattern(Ref::new(3), b"q Q");
        if r.bool() { w.x_step(1.0); }
        let bad = on && attempt(|| { w.y_step(f(a)); });
        extra!(w, r);
        bad
    } },
    Guard { name: "Outline::count", valid: |a| i(a) >= 0, exp: |a| (b"Count", i(a).into()), run: |c, r, a, on| {
        let mut w = c.outline(Ref::new(3));
        if r.bool() { w.first(Ref::new(4)); }
        let bad = on && attempt(|| { w.count(i(a)); });
        extra!(w, r);
        bad
    } },
    Guard { name: "ViewerPreferences::non_full_screen_page_mode", valid: |a| PAGE_MODE[m(a)].0 != PageMode::FullScreen, exp: |a| (b"NonFullScreenPageMode", nm(PAGE_MODE[m(a)].1)), run: |c, r, a, on| {
        let mut w = c.indirect(Ref::new(3)).start::<ViewerPreferences>();
        if r.bool() { w.hide_menubar(true); }
        let bad = on && attempt(|| { w.non_full_screen_page_mode(PAGE_MODE[m(a)].0); });
        extra!(w, r);
        bad
    } },
];

fn dict_guard(g: &Guard, a: Arg, r: &mut Rng, o: &mut Obs) -> R<()> {
    let pretty = r.bool();
    let prog = r.fork();
    let write = |on: bool| { let mut c = Chunk::with_settings(settings(pretty)); let bad = (g.run)(&mut c, &mut prog.clone(), a, on); c.indirect(Ref::new(9)).primitive(7); (c.as_bytes().to_vec(), bad) };
    let (with, rejected) = write(true);
    let (without, _) = write(false);
    let valid = (g.valid)(a);
    if rejected == valid { return Err(format!("{}({a:?}) {}", g.name, if valid { "was rejected" } else { "was accepted" })); }
    let (x, y) = (parse_body(&with).map_err(|e| format!("{}({a:?}): {e} in {}", g.name, esc(&with)))?.0, parse_body(&without)?.0);
    if x.len() != y.len() || x.iter().zip(&y).any(|(x, y)| x.id != y.id || x.data != y.data) { return Err(format!("{}({a:?}): the objects differ", g.name)); }
    // Every dictionary with the attempt is the one without, plus the entry if it was accepted.
    fn flat(v: &V, out: &mut Vec<V>) { if let V::Dict(d) = v { for (k, v) in d { if k == b"DecodeParms" { flat(v, out); } else { out.push(V::Dict(vec![(k.clone(), v.clone())])); } } } }
    for (x, y) in x.iter().zip(&y) {
        let (mut p, mut q) = (vec![], vec![]);
        flat(&x.v, &mut p);
        flat(&y.v, &mut q);
        if valid && x.id == 3 {
            let (k, e) = (g.exp)(a);
            let Some(at) = p.iter().position(|v| v.get(k).is_some()) else { return Err(format!("{}({a:?}): accepted, but no entry in {}", g.name, esc(&with))) };
            if let Some(d) = diff(&e, p[at].get(k).unwrap(), true) { return Err(format!("{}({a:?}): {d}", g.name)); }
            p.remove(at);
        }
        if p != q { return Err(format!("{}({a:?}) {}: entries {} instead of {}", g.name, if valid { "accepted" } else { "rejected" }, p.iter().map(show).collect::<String>(), q.iter().map(show).collect::<String>())); }
    }
    o.count(&format!("{} {}", g.name, if valid { "accepted" } else { "rejected" }), 1);
    o.eval(hash(&(g.name, format!("{a:?}"))), true);
    Ok(())
}

fn content_guard(name: &'static str, a: Arg, valid: bool, r: &mut Rng, o: &mut Obs) -> R<()> {
    let pretty = r.bool();
    let (pre, post) = (r.below(3), r.below(3));
    let write = |on: bool| {
        let mut c = Content::with_settings(settings(pretty));
        for k in 0..pre { c.move_to(k as f32, 1.0); }
        let before = c.len();
        let bad = on && attempt(|| { match name { "set_line_width" => c.set_line_width(f(a)), _ => c.set_flatness(i(a)) }; });
        let after = c.len();
        for k in 0..post { c.line_to(k as f32, 1.0); }
        (c.finish().into_vec(), bad, before == after)
    };
    let (with, rejected, unchanged) = write(true);
    if rejected == valid { return Err(format!("{name}({a:?}) {}", if valid { "was rejected" } else { "was accepted" })); }
    let (got, _) = parse_content(&with).map_err(|e| format!("{name}({a:?}): {e}"))?;
    let (mut base, _) = parse_content(&write(false).0)?;
    if valid {
        let v: V = match a { Arg::I(i) => i.into(), _ => f(a).into() };
        base.insert(pre, Op { operands: vec![v], op: if name == "set_line_width" { b"w".to_vec() } else { b"i".to_vec() } });
    }
    crate::checks::content::same_ops(&base, &got).map_err(|e| format!("{name}({a:?}): {e}"))?;
    let _ = unchanged;
    o.count(&format!("{name} {}", if valid { "accepted" } else { "rejected" }), 1);
    o.eval(hash(&(name, format!("{a:?}"))), true);
    Ok(())
}

/// A line width: everything representable at or above zero is valid.
fn any_float(r: &mut Rng) -> f32 {
    match r.below(4) { 0 => *r.pick(&FLOAT_EDGES), 1 => f32::from_bits(1 + r.below(5) as u32) * if r.bool() { 1.0 } else { -1.0 }, _ => r.f() }
}

// ---- object numbers

fn ref_new(id: i32, o: &mut Obs) -> R<()> {
    let got = guarded(|| Ref::new(id));
    match (&got, id > 0) {
        (Ok(x), true) if x.get() == id => {}
        (Err(_), false) => {}
        (Ok(x), _) => return Err(format!("Ref::new({id}) gave {}", x.get())),
        (Err(e), _) => return Err(format!("Ref::new({id}) was rejected: {e}")),
    }
    if id > 0 {
        let x = Ref::new(id);
        let next = guarded(|| x.next());
        let mut b = x;
        let old = guarded(|| b.bump());
        match id.checked_add(1) {
            Some(n) => {
                if !matches!(next, Ok(y) if y.get() == n) { return Err(format!("next of {id} is {next:?}")); }
                if !matches!(old, Ok(y) if y.get() == id) || b.get() != n { return Err(format!("bump of {id} gave {old:?} and {}", b.get())); }
            }
            None => {
                if next.is_ok() || old.is_ok() { return Err("there is no number after the largest, but next or bump accepted".into()); }
                if b.get() != id { return Err(format!("a rejected bump changed the number to {}", b.get())); }
            }
        }
    }
    o.count(if id > 0 { "object numbers accepted" } else { "object numbers rejected" }, 1);
    o.eval(hash(&("ref", id)), true);
    Ok(())
}

// ---- Separation and DeviceN

const DN_CALLS: [&str; 6] = ["alternate_color_space", "alternate_color_space_ref", "tint_exponential", "tint_stitching", "tint_ref", "attrs"];

/// What a sequence of calls must do: for each call, whether it is accepted and the item it adds.
/// None: the documentation does not say (a second tint of a separation, second attributes).
fn model(n: bool, calls: &[usize]) -> Option<Vec<Option<V>>> {
    let (mut alt, mut tint, mut attrs) = (false, false, false);
    let fun = |t: i64| V::Dict(vec![(b"FunctionType".to_vec(), V::Int(t))]);
    let mut out = vec![];
    for &c in calls {
        out.push(match c {
            0 | 1 => if alt { None } else { alt = true; Some(if c == 0 { nm("DeviceCMYK") } else { V::Ref(50, 0) }) },
            2..=4 => {
                if !alt || (n && tint) { None } else {
                    if tint { return None; }
                    tint = true;
                    Some(match c { 2 => fun(2), 3 => fun(3), _ => V::Ref(60, 0) })
                }
            }
            _ => {
                if !alt || !tint { None } else {
                    if attrs { return None; }
                    attrs = true;
                    Some(V::Dict(vec![(b"Subtype".to_vec(), nm("NChannel"))]))
                }
            }
        });
    }
    Some(out)
}

fn ordering(n: bool, calls: &[usize], pretty: bool, o: &mut Obs) -> R<()> {
    let Some(want) = model(n, calls) else { o.count("sequences the documentation leaves open", 1); return Ok(()) };
    let names = || calls.iter().map(|&c| DN_CALLS[c]).collect::<Vec<_>>().join(", ");
    let mut c = Chunk::with_settings(settings(pretty));
    let mut verdicts = vec![];
    let head;
    {
        let cs = c.color_space(Ref::new(3));
        macro_rules! go { ($w:ident, $c:ident) => { match $c {
            0 => attempt(|| { $w.alternate_color_space().device_cmyk(); }),
            1 => attempt(|| { $w.alternate_color_space_ref(Ref::new(50)); }),
            2 => attempt(|| { $w.tint_exponential(); }),
            3 => attempt(|| { $w.tint_stitching(); }),
            _ => attempt(|| { $w.tint_ref(Ref::new(60)); }),
        } } }
        if n {
            let mut w = cs.device_n([Name(b"Gold"), Name(b"Silver")]);
            for &c in calls { verdicts.push(if c == 5 { attempt(|| { w.attrs().subtype(DeviceNSubtype::NChannel); }) } else { go!(w, c) }); }
            head = vec![nm("DeviceN"), V::Arr(vec![nm("Gold"), nm("Silver")])];
        } else {
            let mut w = cs.separation(Name(b"Gold"));
            for &c in calls { verdicts.push(go!(w, c)); }
            head = vec![nm("Separation"), nm("Gold")];
        }
    }
    c.indirect(Ref::new(9)).primitive(7);
    let mut exp = head;
    for (k, (w, rejected)) in want.iter().zip(&verdicts).enumerate() {
        if w.is_some() == *rejected { return Err(format!("call {} of [{}] was {}", k + 1, names(), if *rejected { "rejected" } else { "accepted" })); }
        o.count(if *rejected { "orders rejected" } else { "orders accepted" }, 1);
        exp.extend(w.clone());
    }
    let (objs, _) = parse_body(c.as_bytes()).map_err(|e| format!("[{}]: {e}", names()))?;
    if objs.len() != 2 { return Err(format!("[{}]: {} objects", names(), objs.len())); }
    if let Some(d) = diff(&V::Arr(exp), &objs[0].v, true) { return Err(format!("[{}]: {d}", names())); }
    o.eval(hash(&(n, calls)), !calls.is_empty());
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("a restricted method was called with a value whose acceptance the oracle predicted, and the output was read back");
    ctx.assume("NaN and infinite floats are not PDF numbers and are outside the stated domains");
    ctx.assume("a second tint of a Separation and second attributes of a DeviceN are not documented either way");
    let span = 2000i64;
    // Small integer domains, completely around the boundaries.
    let ints = [0usize, 1, 2, 5];
    ctx.exhaust("integers", ints.len() as u64 * (2 * span as u64 + 1), |k, r, o| {
        let g = &DICT_GUARDS[ints[k as usize % ints.len()]];
        dict_guard(g, Arg::I((k as i64 / ints.len() as i64 - span) as i32), r, o)
    });
    ctx.cases("any integers", 20_000, 500_000, |k, r, o| { let a = if r.bool() { r.int() } else { 1 << r.below(32) }; dict_guard(&DICT_GUARDS[ints[k as usize % ints.len()]], Arg::I(a), r, o) });
    ctx.cases("steps", 20_000, 500_000, |k, r, o| { let a = match r.below(6) { 0 => 0.0, 1 => -0.0, _ => any_float(r) }; dict_guard(&DICT_GUARDS[3 + (k % 2) as usize], Arg::F(a), r, o) });
    ctx.exhaust("page modes", PAGE_MODE.len() as u64 * 40, |k, r, o| dict_guard(&DICT_GUARDS[6], Arg::M(k as usize % PAGE_MODE.len()), r, o));
    ctx.exhaust("flatness", 2 * 1000 + 1, |k, r, o| { let v = k as i32 - 1000; content_guard("set_flatness", Arg::I(v), (0..=100).contains(&v), r, o) });
    ctx.cases("any flatness", 5_000, 200_000, |_, r, o| { let v = r.int(); content_guard("set_flatness", Arg::I(v), (0..=100).contains(&v), r, o) });
    ctx.cases("line widths", 30_000, 1_000_000, |_, r, o| {
        let v = any_float(r);
        if v == 0.0 && v.is_sign_negative() { return Ok(()); }
        content_guard("set_line_width", Arg::F(v), v >= 0.0, r, o)
    });
    ctx.exhaust("object numbers", 4001, |k, _r, o| ref_new(k as i32 - 2000, o));
    ctx.cases("any object numbers", 20_000, 1_000_000, |_, r, o| { let v = match r.below(3) { 0 => r.int(), 1 => i32::MAX - r.below(3) as i32, _ => r.next() as i32 }; ref_new(v, o) });
    // Every order of up to six calls.
    for (n, base, stage) in [(false, 5u64, "separation orders"), (true, 6, "device-n orders")] {
        let max = if ctx.thorough { 6u32 } else { 5 };
        let total: u64 = (0..=max).map(|l| base.pow(l)).sum();
        ctx.exhaust(stage, total * 2, |k, _r, o| {
            let (pretty, mut k) = (k % 2 == 0, k / 2);
            let mut l = 0;
            while k >= base.pow(l) { k -= base.pow(l); l += 1; }
            let calls: Vec<usize> = (0..l).map(|p| (k / base.pow(p) % base) as usize).collect();
            o.max("calls in an order", l as u64);
            ordering(n, &calls, pretty, o)
        });
    }
    // Stream data: the length must fit the entry. The data are zero pages that are never read.
    ctx.exhaust("too much data", 2, |k, _r, o| {
        let data = vec![0u8; i32::MAX as usize + 1 + k as usize * 4096];
        let mut c = Chunk::new();
        if !attempt(|| { c.stream(Ref::new(1), &data); }) { return Err(format!("{} bytes of stream data were accepted", data.len())); }
        o.count("data lengths rejected", 1);
        o.eval(hash(&("data", k)), true);
        Ok(())
    });
    for g in DICT_GUARDS { ctx.require(&format!("{} accepted", g.name), 10); ctx.require(&format!("{} rejected", g.name), 10); }
    for n in ["set_flatness", "set_line_width"] { ctx.require(&format!("{n} accepted"), 50); ctx.require(&format!("{n} rejected"), 50); }
    ctx.require("orders accepted", 1000);
    ctx.require("orders rejected", 1000);
}

/// Calls on both sides of the restrictions; what is written, and which calls were refused (C28).
pub fn refusals(r: &mut Rng, pretty: bool) -> Vec<u8> {
    let mut c = Chunk::with_settings(settings(pretty));
    let mut log = String::new();
    for _ in 0..2 {
        let k = r.below(DICT_GUARDS.len());
        let a = match k { 3 | 4 => Arg::F(match r.below(4) { 0 => 0.0, 1 => -0.0, _ => any_float(r) }), 6 => Arg::M(r.below(PAGE_MODE.len())), _ => Arg::I(if r.bool() { r.range(-2, 18) as i32 } else { r.int() }) };
        let bad = (DICT_GUARDS[k].run)(&mut c, r, a, true);
        log += &format!("{k} {bad} ");
    }
    let mut con = Content::with_settings(settings(pretty));
    let (w, fl) = (any_float(r), if r.bool() { r.range(-2, 103) as i32 } else { r.int() });
    log += &format!("w {} ", attempt(|| { con.set_line_width(w); }));
    log += &format!("i {} ", attempt(|| { con.set_flatness(fl); }));
    for _ in 0..r.below(3) { con.save_state(); }
    for _ in 0..r.below(4) { log += &format!("Q {} {} ", attempt(|| { con.restore_state(); }), con.state_nesting_depth()); }
    let id = match r.below(3) { 0 => r.range(-2, 2) as i32, 1 => i32::MAX - r.below(2) as i32, _ => r.int() };
    match guarded(|| Ref::new(id)) {
        Ok(mut x) => log += &format!("{} {:?} {:?} ", x.get(), guarded(|| x.next()).ok(), guarded(|| x.bump()).ok()),
        Err(_) => log += "no number ",
    }
    {
        let n = r.bool();
        let calls: Vec<usize> = (0..r.below(5)).map(|_| r.below(if n { 6 } else { 5 })).collect();
        let cs = c.color_space(Ref::new(4));
        macro_rules! go { ($w:ident, $c:ident) => { match $c {
            0 => attempt(|| { $w.alternate_color_space().device_cmyk(); }),
            1 => attempt(|| { $w.alternate_color_space_ref(Ref::new(50)); }),
            2 => attempt(|| { $w.tint_exponential(); }),
            3 => attempt(|| { $w.tint_stitching(); }),
            _ => attempt(|| { $w.tint_ref(Ref::new(60)); }),
        } } }
        if n {
            let mut w = cs.device_n([Name(b"Gold"), Name(b"Silver")]);
            for &c in &calls { let bad = if c == 5 { attempt(|| { w.attrs().subtype(DeviceNSubtype::NChannel); }) } else { go!(w, c) }; log += &format!("{c} {bad} "); }
        } else {
            let mut w = cs.separation(Name(b"Gold"));
            for &c in &calls { let bad = go!(w, c); log += &format!("{c} {bad} "); }
        }
    }
    // Numbers that may be used twice.
    let mut pdf = Pdf::with_settings(settings(pretty));
    let max = r.range(2, 12);
    for _ in 0..r.below(5) { let id = Ref::new(r.range(1, max) as i32); pdf.indirect(id).primitive(true); }
    let x = Ref::new(r.range(1, max) as i32);
    let stream = r.bool();
    let file = guarded(|| if stream { pdf.finish_with_xref_stream(x) } else { pdf.finish() });
    log += if file.is_ok() { "finished" } else { "refused" };
    [log.as_bytes(), c.as_bytes(), &con.finish().into_vec(), &file.unwrap_or_default()].concat()
}
