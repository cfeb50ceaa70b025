//! C26: no accepted sequence of calls panics, overflows, aborts or touches invalid memory.

use crate::checks::prog::{self, *};
use crate::checks::{content, doc, renum};
use crate::mon::{hash, Ctx, R};
use crate::pdf::*;
use crate::rng::*;
use crate::val::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

/// Run on a thread with an ordinary stack: the library must not need a deep one.
fn small_stack<T>(f: impl FnOnce() -> T) -> R<T> {
    struct Force<T>(T);
    unsafe impl<T> Send for Force<T> {}
    impl<T> Force<T> { fn into(self) -> T { self.0 } }
    let f = Force(f);
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || { let f = f; Force(crate::mon::guarded(f.into())) }).unwrap().join());
    match r { Ok(x) => x.into().map_err(|e| format!("panic: {e}")), Err(_) => Err("thread died".into()) }
}

/// Nest containers to depth `d`, iteratively in the oracle, recursively in the builders.
fn nest(o: Obj, d: usize, r: &mut Rng) {
    if d == 0 { o.primitive(r.rf()); return; }
    match r.below(3) {
        0 => { let mut a = o.array(); nest(a.push(), d - 1, r); }
        1 => { let mut a = o.dict(); nest(a.insert(Name(b"K")), d - 1, r); }
        _ => { let mut a = o.array(); a.item(Ref::new(5)); nest(a.push(), d - 1, r); a.item(Name(b"")).item(0.5); }
    }
}
fn resources(mut e: Resources, d: usize) {
    e.proc_sets([ProcSet::Pdf]);
    let mut p = e.properties();
    p.insert(Name(b"X")).pair(Name(b"MCID"), i32::MIN);
    if d > 0 { resources(p.insert(Name(b"R")).insert(Name(b"S")).start(), d - 1); }
}
fn next_action(mut a: Action, d: usize) {
    a.action_type(ActionType::JavaScript).js_string(TextStr("\u{10ffff}"));
    if d > 0 { next_action(a.insert(Name(b"Next")).start(), d - 1); }
}
fn color(cs: ColorSpace, d: usize) {
    if d == 0 { cs.device_gray(); return; }
    let mut s = cs.separation(Name(b"\xff\0"));
    color(s.alternate_color_space(), d - 1);
    s.tint_ref(Ref::new(i32::MAX));
}

/// Balanced brackets, counted without recursion: enough to see that the structure survived.
fn depth_of(b: &[u8]) -> R<usize> {
    let mut p = P::new(b);
    let (mut d, mut max) = (0usize, 0usize);
    loop {
        match p.tok()? {
            Tok::Eof => break,
            Tok::ArrOpen | Tok::DictOpen => { d += 1; max = max.max(d); }
            Tok::ArrClose | Tok::DictClose => { if d == 0 { return Err("closed too often".into()); } d -= 1; }
            _ => {}
        }
    }
    if d != 0 { return Err(format!("{d} containers left open")); }
    Ok(max)
}

fn judged(o: Out, ob: &mut crate::mon::Obs) -> R<()> {
    prog::read(&o).map_err(|e| format!("output not readable: {e}\n{}", esc(&o.bytes[..o.bytes.len().min(2000)])))?;
    ob.count("calls", o.calls as u64);
    ob.max("bytes", o.bytes.len() as u64);
    ob.count(&format!("{:?} outputs", o.kind), 1);
    ob.sample(|| esc(&o.bytes));
    ob.eval(hash(&o.bytes), o.calls > 0);
    Ok(())
}

/// Runs large but flat work on a stack of ordinary size: the depth of the stack must not grow with
/// the length of the data.
fn lean<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("HARNESS: no thread");
        t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("the program made at least one call; every call returned and the output could be read back");
    ctx.assume("built with overflow checks; arguments are inside their documented domains (finite numbers)");
    let sub = ctx.sub.as_str();
    let n = |full: u64, asan: u64, miri: u64| match sub { "miri" => miri, "asan" => asan, _ => full };
    let np = PROGRAMS.len();
    ctx.cases("programs", n(60_000, 12_000, 12), n(1_200_000, 60_000, 60), |i, r, o| {
        let mut lay = Lay::varied(r.bool(), r.fork());
        let s = r.next();
        // Miri is four orders of magnitude slower; compression in the harness is left out there.
        let p = if sub == "miri" { [1, 3, 5, 7, 8, 2][i as usize % 6] } else { i as usize % np };
        let out = prog::run(p, s, &mut lay)?;
        judged(out, o)
    });
    // Every operation and every root at least once under the sanitizers, too.
    ctx.exhaust("every content operation", content::OPS.len() as u64 * n(20, 8, 1), |i, r, o| {
        let mut c = Content::with_settings(settings(r.bool()));
        let mut e = content::env(r);
        (content::OPS[i as usize % content::OPS.len()].1)(&mut c, &mut e);
        let b = c.finish().into_vec();
        judged(Out { kind: Kind::Content, bytes: b, calls: 1, sized: true }, o)
    });
    ctx.exhaust("every root", if sub == "miri" && !ctx.thorough { 24 } else { crate::checks::typed::ROOTS.len() as u64 * n(10, 4, 1) }, |i, r, o| {
        let roots = crate::checks::typed::ROOTS;
        let mut c = Chunk::with_capacity(0);
        let mut g = crate::checks::typed::G::new(r, if sub == "miri" { 1 } else { 20 });
        g.all_ops = true;
        let d = vec![b"data".to_vec()];
        crate::checks::typed::program(&mut c, &mut g, &[&roots[(i as usize * if sub == "miri" { 5 } else { 1 }) % roots.len()]], Some(0), &[i32::MAX], &d);
        let calls = g.steps;
        judged(Out { kind: Kind::Body, bytes: c.as_bytes().to_vec(), calls: calls + 1, sized: true }, o)
    });
    ctx.cases("renumbering", n(10_000, 3_000, 6), n(300_000, 30_000, 20), |_, r, o| {
        let p = r.bool();
        let src = if sub == "miri" { let mut c = Chunk::new(); let mut b = 3; Tree::random(r, &mut b, 3).put(c.indirect(Ref::new(i32::MAX))); c } else { renum::source(r, p) };
        let k = r.below(3);
        let out = src.renumber(|x| Ref::new(match k { 0 => i32::MAX, 1 => 1, _ => i32::MAX - x.get() + 1 }));
        let (a, b) = (src.refs().len(), out.refs().len());
        if a != b { return Err(format!("{a} objects became {b}")); }
        judged(Out { kind: Kind::Body, bytes: out.as_bytes().to_vec(), calls: a + 1, sized: true }, o)
    });
    // Depth: containers, typed writers, calculator blocks, graphics states.
    let depth: &[usize] = match (sub, ctx.thorough) { ("miri", _) => &[40], ("asan", _) => &[130, 300, 3_000], (_, true) => &[126, 127, 128, 129, 255, 256, 257, 1_000, 20_000, 70_000, 150_000, 300_000], _ => &[126, 127, 128, 129, 255, 256, 257, 1_000, 20_000, 70_000] };
    ctx.exhaust("depth", depth.len() as u64 * 2, |i, r, o| {
        let d = depth[i as usize / 2];
        let mut c = Chunk::with_settings(settings(i % 2 == 0));
        nest(c.indirect(Ref::new(1)), d, r);
        let src = c.clone();
        let out = small_stack(|| {
            let n = src.renumber(|x| Ref::new(x.get() / 2 + 1));
            let mut p = Pdf::new();
            p.extend(&n);
            p.finish()
        })?;
        for b in [c.as_bytes(), &out[..]] { let got = depth_of(b)?; if got < d || got > d + 1 { return Err(format!("depth {got} instead of {d}")); } }
        if c.limits().array_len() > 4 || c.limits().dict_entries() > 1 { return Err(format!("limits {:?}", c.limits())); }
        o.max("depth", d as u64);
        o.eval(hash(&("depth", i)), true);
        Ok(())
    });
    ctx.exhaust("typed depth", n(12, 6, 3), |i, _r, o| {
        let d = if sub == "miri" { 7 } else { [10, 100, 140, 2_500][i as usize / 3] };
        let mut c = Chunk::with_settings(settings(i % 2 == 0));
        match i % 3 { 0 => resources(c.indirect(Ref::new(1)).start(), d), 1 => next_action(c.indirect(Ref::new(1)).start(), d), _ => color(c.color_space(Ref::new(1)), d) }
        let got = depth_of(c.as_bytes())?;
        if got < d { return Err(format!("depth {got} instead of {d}")); }
        o.max("typed depth", d as u64);
        o.eval(hash(&("typed", i)), true);
        Ok(())
    });
    ctx.exhaust("calculator depth", n(12, 6, 3), |i, _r, o| {
        let d = if sub == "miri" { 10 } else { [1, 10, 100, 500, 2_000, 5_000][i as usize % 6] };
        // Every level holds one conditional, so that the text stays linear in the depth.
        fn go(d: usize, inner: &[PostScriptOp], f: &mut dyn FnMut(&[PostScriptOp])) {
            if d == 0 { return f(inner); }
            let small = [PostScriptOp::Real(f32::MAX)];
            match d % 3 {
                0 => go(d - 1, &[PostScriptOp::True, PostScriptOp::If(inner)], f),
                1 => go(d - 1, &[PostScriptOp::False, PostScriptOp::IfElse(inner, &small)], f),
                _ => go(d - 1, &[PostScriptOp::IfElse(&small, inner), PostScriptOp::Pop], f),
            }
        }
        let mut out = vec![];
        go(d, &[PostScriptOp::Integer(i32::MIN)], &mut |ops| out = PostScriptOp::encode(ops).into_vec());
        let (mut open, mut max) = (0usize, 0);
        for &b in &out { match b { b'{' => { open += 1; max = max.max(open); } b'}' => open = open.checked_sub(1).ok_or("closed too often")?, _ => {} } }
        if open != 0 || max != d + 1 { return Err(format!("{open} braces left open, depth {max} instead of {}", d + 1)); }
        o.max("calculator depth", d as u64);
        o.eval(hash(&("calc", i)), true);
        Ok(())
    });
    ctx.exhaust("states", n(4, 2, 1), |i, r, o| {
        let k = if sub == "miri" { 30 } else { 1 << (14 + i * 2) };
        let mut c = Content::with_settings(settings(i % 2 == 0));
        for _ in 0..k { c.save_state(); }
        if c.state_nesting_depth() != k { return Err(format!("depth {} after {k} saves", c.state_nesting_depth())); }
        for _ in 0..k + r.below(50) { c.restore_state(); }
        if c.state_nesting_depth() != 0 { return Err("states left".into()); }
        let b = c.finish().into_vec();
        judged(Out { kind: Kind::Content, bytes: b, calls: 2 * k, sized: true }, o)
    });
    if sub == "miri" { return; }
    // Size.
    let big = ctx.thorough && sub.is_empty();
    ctx.exhaust("large strings and names", 10, |i, r, o| { lean(|| {
        let k = if big { 24 << 20 } else { 1 << 20 };
        let fill: Vec<u8> = match i { 0 => vec![b'('; k], 1 => vec![b')'; k], 2 => vec![b'\\'; k], 3 => vec![0; k], 4 => vec![0xff; k], 5 => [vec![b'('; k / 2], vec![b')'; k / 2]].concat(), 6 => b"() ".repeat(k / 3), 7 => vec![b'#'; k], _ => (0..k).map(|_| r.next() as u8).collect() };
        let mut c = Chunk::with_settings(settings(i % 2 == 0));
        c.indirect(Ref::new(1)).primitive(Str(&fill));
        c.indirect(Ref::new(2)).dict().pair(Name(&fill), Name(&fill));
        let t: String = "\u{10ffff}a".repeat(k / 16);
        c.indirect(Ref::new(3)).array().item(TextStr(&t)).item(TextStr(&t[4..5]));
        if c.limits().str_len() < fill.len() || c.limits().name_len() < fill.len() { return Err(format!("limits {:?}", c.limits())); }
        let (objs, _) = parse_body(c.as_bytes())?;
        if objs[0].v != V::Str(fill.clone()) { return Err("string changed".into()); }
        if objs[1].v != V::Dict(vec![(fill.clone(), V::Name(fill.clone()))]) { return Err("name changed".into()); }
        let d = c.renumber(|r| r);
        if d.len() < c.len().min(k) { return Err("renumbering lost bytes".into()); }
        o.max("bytes in a string or name", fill.len() as u64);
        o.eval(hash(&("large", i)), true);
        Ok(())
    }) });
    ctx.exhaust("large streams", if big { 4 } else { 2 }, |i, _r, o| { lean(|| {
        // Offsets beyond the two-, three- and (thorough) four-byte field widths.
        let k = [70_000usize, 17 << 20, 200 << 20, 0][i as usize];
        let data = if i == 3 { vec![0u8; i32::MAX as usize] } else { vec![b'z'; k] };
        let reps = if i == 3 { 3 } else { 1 };
        for stream in [false, true] {
            let mut pdf = Pdf::new();
            for n in 0..reps { pdf.stream(Ref::new(n + 1), &data); }
            pdf.indirect(Ref::new(reps + 1)).primitive(true);
            let body = pdf.len();
            let out = if stream { pdf.finish_with_xref_stream(Ref::new(reps + 2)) } else { pdf.finish() };
            if i == 3 {
                // More than 4 GiB: read the tail only.
                let tail = &out[body..];
                let at = format!("startxref\n{body}\n%%EOF");
                if !tail.ends_with(at.as_bytes()) { return Err(format!("startxref is not {body}")); }
                let last = out[..body].windows(8).rposition(|w| w == b"\n4 0 obj").ok_or("object lost")? + 1;
                if stream {
                    let want = (last as u64).to_be_bytes();
                    if !tail.windows(6).any(|w| w[0] == 1 && w[1..] == want[3..]) { return Err(format!("no entry for offset {last}")); }
                } else if !tail.windows(20).any(|w| w == format!("{last:010} 00000 n\r\n").as_bytes()) { return Err(format!("no entry for offset {last}")); }
            } else { parse_file(&out, &doc::decode_filters)?; }
            o.max("bytes in a file", out.len() as u64);
        }
        o.eval(hash(&("streams", i)), true);
        Ok(())
    }) });
    ctx.exhaust("many objects", 4, |i, r, o| { lean(|| {
        let k = if big { 400_000 } else { 70_000 };
        let mut ids: Vec<i32> = (0..k).map(|x| if i % 2 == 0 { x + 1 } else { x * 3 + 1 }).collect();
        if i >= 2 { r.shuffle(&mut ids); }
        let mut pdf = Pdf::with_settings(settings(i % 2 == 0));
        for &id in &ids { pdf.indirect(Ref::new(id)).primitive(id); }
        let used = ids.len();
        let out = if i % 2 == 0 { pdf.finish() } else { pdf.finish_with_xref_stream(Ref::new(k * 3 + 9)) };
        let f = parse_file(&out, &doc::decode_filters)?;
        if f.objs.len() != used { return Err(format!("{} objects of {used}", f.objs.len())); }
        o.max("objects", used as u64);
        o.eval(hash(&("many", i)), true);
        Ok(())
    }) });
    ctx.exhaust("wide containers and operands", 3, |i, r, o| { lean(|| {
        let k = if big { 2_000_000 } else { 150_000 };
        let mut c = Chunk::with_settings(settings(i % 2 == 0));
        match i {
            0 => { c.indirect(Ref::new(1)).array().items((0..k).map(|x| x as f32 * 0.37)); }
            1 => { let mut w = c.indirect(Ref::new(1)).dict(); for x in 0..k { w.pair(Name(format!("{x}").as_bytes()), x as i32); } }
            _ => { let mut con = Content::new(); { let mut op = con.show_positioned(); let mut it = op.items(); for _ in 0..k { it.show(Str(b"(")).adjust(r.f()); } } let b = con.finish(); c.stream(Ref::new(1), &b); c.merge_limits(b.limits()); }
        }
        let want = if i == 2 { 2 * k as usize } else { k as usize };
        let got = if i == 1 { c.limits().dict_entries() } else { c.limits().array_len() };
        if got != want { return Err(format!("limits say {got} of {want}")); }
        judged(Out { kind: Kind::Body, bytes: c.as_bytes().to_vec(), calls: want, sized: true }, o)
    }) });
    ctx.exhaust("large character maps", 3, |i, r, o| { lean(|| {
        let info = SystemInfo { registry: Str(&[0xff; 400]), ordering: Str(b""), supplement: i32::MIN };
        let bytes = if i == 0 { let mut m = UnicodeCmap::<u8>::new(Name(b""), info); for g in 0..=255u8 { m.pair(g, r.scalar()); m.pair_with_multiple(g, []); } m.finish() }
        else { let mut m = UnicodeCmap::<u16>::new(Name(b""), info); for g in 0..=u16::MAX { m.pair(g, r.scalar()); } m.pair_with_multiple(0, (0..if big { 3_000_000 } else { 100_000 }).map(|_| '\u{10ffff}')); m.finish() };
        let m = crate::checks::cmap::run(&bytes)?;
        let want = if i == 0 { 512 } else { 65537 };
        if m.pairs.len() != want { return Err(format!("{} mappings of {want}", m.pairs.len())); }
        o.max("mappings", want as u64);
        o.eval(hash(&("cmap", i)), true);
        Ok(())
    }) });
    ctx.cases("capacities", 200, 2_000, |_, r, o| {
        let cap = *r.pick(&[0usize, 1, 2, 3, 7, 14, 15, 16, 64, 1 << 20, 1 << 28]);
        let mut p = Pdf::with_capacity(cap);
        p.set_version(255, 255);
        p.set_binary_marker(&[0xff, 0, 0x80, 1]);
        p.reserve(*r.pick(&[0, 1, 1 << 20, 1 << 28]));
        let mut c = Content::with_capacity(cap);
        c.reserve(1);
        let x = r.f();
        c.set_leading(x);
        let mut k = Chunk::with_capacity(cap);
        k.reserve(cap);
        k.stream(Ref::new(1), &c.finish());
        p.extend(&k);
        judged(Out { kind: Kind::File, bytes: p.finish(), calls: 9, sized: true }, o)
    });
    if sub.is_empty() {
        ctx.require("depth", 70_000);
        ctx.require("objects", 70_000);
        crate::checks::sanitized(ctx, "asan");
        crate::checks::sanitized(ctx, "miri");
    }
}
