//! C17: calculator functions: the encoded text is read back and executed.

use crate::mon::{hash, Ctx, R};
use crate::pdf::{esc, is_ws};
use crate::rng::*;
use pdf_writer::types::PostScriptOp as Op;

#[derive(Clone, Debug)]
pub enum Node { Real(f32), Int(i32), Op(usize), If(Vec<Node>), IfElse(Vec<Node>, Vec<Node>) }

const OPS: &[(Op<'static>, &str)] = &[
    (Op::Abs, "abs"), (Op::Add, "add"), (Op::Atan, "atan"), (Op::Ceiling, "ceiling"), (Op::Cos, "cos"), (Op::Cvi, "cvi"), (Op::Cvr, "cvr"),
    (Op::Div, "div"), (Op::Exp, "exp"), (Op::Floor, "floor"), (Op::Idiv, "idiv"), (Op::Ln, "ln"), (Op::Log, "log"), (Op::Mod, "mod"),
    (Op::Mul, "mul"), (Op::Neg, "neg"), (Op::Round, "round"), (Op::Sin, "sin"), (Op::Sqrt, "sqrt"), (Op::Sub, "sub"), (Op::Truncate, "truncate"),
    (Op::And, "and"), (Op::Bitshift, "bitshift"), (Op::Eq, "eq"), (Op::False, "false"), (Op::Ge, "ge"), (Op::Gt, "gt"), (Op::Le, "le"),
    (Op::Lt, "lt"), (Op::Ne, "ne"), (Op::Not, "not"), (Op::Or, "or"), (Op::True, "true"), (Op::Xor, "xor"),
    (Op::Copy, "copy"), (Op::Dup, "dup"), (Op::Exch, "exch"), (Op::Index, "index"), (Op::Pop, "pop"), (Op::Roll, "roll"),
];
fn ix(name: &str) -> usize { OPS.iter().position(|x| x.1 == name).unwrap_or_else(|| panic!("HARNESS: {name}")) }

/// The library's form of a program. The slices must outlive it, so the program is passed on.
fn with_ops<T>(p: &[Node], f: &mut dyn FnMut(&[Op]) -> T) -> T {
    fn go<'a, T>(p: &'a [Node], done: &mut Vec<Op<'a>>, arena: &'a Arena, f: &mut dyn FnMut(&[Op]) -> T) -> T {
        for n in p { done.push(conv(n, arena)); }
        f(done)
    }
    let arena = Arena::default();
    go(p, &mut vec![], &arena, f)
}
/// Owns the operand slices of conditionals.
#[derive(Default)]
struct Arena(std::cell::RefCell<Vec<*mut [Op<'static>]>>);
impl Arena {
    fn keep<'a>(&'a self, v: Vec<Op<'a>>) -> &'a [Op<'a>] {
        let raw = Box::into_raw(v.into_boxed_slice());
        self.0.borrow_mut().push(raw as *mut [Op<'static>]);
        // Safety: freed only when the arena is dropped, which the returned lifetime precedes.
        unsafe { &*raw }
    }
}
impl Drop for Arena {
    fn drop(&mut self) { for p in self.0.borrow_mut().drain(..) { unsafe { drop(Box::from_raw(p)); } } }
}
fn conv<'a>(n: &'a Node, a: &'a Arena) -> Op<'a> {
    let list = |v: &'a [Node]| a.keep(v.iter().map(|n| conv(n, a)).collect());
    match n {
        Node::Real(x) => Op::Real(*x),
        Node::Int(x) => Op::Integer(*x),
        Node::Op(i) => OPS[*i].0,
        Node::If(v) => Op::If(list(v)),
        Node::IfElse(v, w) => Op::IfElse(list(v), list(w)),
    }
}

/// Read an encoded program back.
fn parse(b: &[u8]) -> R<Vec<Node>> {
    let mut toks: Vec<&str> = vec![];
    let s = std::str::from_utf8(b).map_err(|_| "not ASCII")?;
    let mut i = 0;
    while i < b.len() {
        if is_ws(b[i]) { i += 1; continue; }
        if matches!(b[i], b'{' | b'}') { toks.push(&s[i..i + 1]); i += 1; continue; }
        let j = i;
        while i < b.len() && !is_ws(b[i]) && !matches!(b[i], b'{' | b'}') { i += 1; }
        toks.push(&s[j..i]);
    }
    enum Item { N(Node), Block(Vec<Node>) }
    let mut stack: Vec<Vec<Item>> = vec![];
    let mut result = None;
    for t in toks {
        if result.is_some() { return Err(format!("{t} after the end of the procedure")); }
        if t == "{" { stack.push(vec![]); continue; }
        let Some(top) = stack.last_mut() else { return Err(format!("{t} outside of the procedure")) };
        match t {
            "}" => {
                let items = stack.pop().unwrap();
                let mut v = vec![];
                for it in items { match it { Item::N(n) => v.push(n), Item::Block(_) => return Err("a block that no conditional uses".into()) } }
                match stack.last_mut() { Some(o) => o.push(Item::Block(v)), None => result = Some(v) }
            }
            "if" => match top.pop() { Some(Item::Block(v)) => top.push(Item::N(Node::If(v))), _ => return Err("if without a block".into()) },
            "ifelse" => match (top.pop(), top.pop()) { (Some(Item::Block(w)), Some(Item::Block(v))) => top.push(Item::N(Node::IfElse(v, w))), _ => return Err("ifelse without two blocks".into()) },
            t => {
                let n = if let Some(i) = OPS.iter().position(|x| x.1 == t) { Node::Op(i) } else if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit() || matches!(c, b'+' | b'-' | b'.')) {
                    if t.contains('.') { Node::Real(t.parse().map_err(|_| format!("number {t}"))?) } else { Node::Int(t.parse().map_err(|_| format!("{t} is no 32-bit integer"))?) }
                } else { return Err(format!("unknown token {t}")) };
                top.push(Item::N(n));
            }
        }
    }
    result.ok_or_else(|| "the procedure is not closed".to_string())
}

fn same(a: &[Node], b: &[Node]) -> R<()> {
    if a.len() != b.len() { return Err(format!("{} tokens instead of {}", b.len(), a.len())); }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Node::Real(p), Node::Real(q)) if p.to_bits() == q.to_bits() => {}
            (Node::Int(p), Node::Int(q)) if p == q => {}
            (Node::Op(p), Node::Op(q)) if p == q => {}
            (Node::If(p), Node::If(q)) => same(p, q)?,
            (Node::IfElse(p, p2), Node::IfElse(q, q2)) => { same(p, q)?; same(p2, q2)?; }
            _ => return Err(format!("{y:?} instead of {x:?}")),
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val { I(i32), R(f32), B(bool) }

/// The machine of ISO 32000 7.10.5; None when the program is not executable (stack, types).
fn exec(p: &[Node], st: &mut Vec<Val>, fuel: &mut u32) -> Option<()> {
    use Val::*;
    for n in p {
        *fuel = fuel.checked_sub(1)?;
        match n {
            Node::Real(x) => st.push(R(*x)),
            Node::Int(x) => st.push(I(*x)),
            Node::If(v) => { let B(c) = st.pop()? else { return None }; if c { exec(v, st, fuel)?; } }
            Node::IfElse(v, w) => { let B(c) = st.pop()? else { return None }; exec(if c { v } else { w }, st, fuel)?; }
            Node::Op(i) => {
                let name = OPS[*i].1;
                let num = |v: Val| match v { I(x) => Some(x as f32), R(x) => Some(x), B(_) => None };
                match name {
                    "true" => st.push(B(true)), "false" => st.push(B(false)),
                    "pop" => { st.pop()?; }
                    "dup" => { let x = *st.last()?; st.push(x); }
                    "exch" => { let (b, a) = (st.pop()?, st.pop()?); st.push(b); st.push(a); }
                    "copy" => { let I(n) = st.pop()? else { return None }; let n = usize::try_from(n).ok()?; if n > st.len() { return None; } let k = st.len() - n; st.extend_from_within(k..); }
                    "index" => { let I(n) = st.pop()? else { return None }; let n = usize::try_from(n).ok()?; if n >= st.len() { return None; } let x = st[st.len() - 1 - n]; st.push(x); }
                    "roll" => {
                        let I(j) = st.pop()? else { return None };
                        let I(n) = st.pop()? else { return None };
                        let n = usize::try_from(n).ok()?;
                        if n > st.len() { return None; }
                        if n > 0 { let k = st.len() - n; st[k..].rotate_right(j.rem_euclid(n as i32) as usize); }
                    }
                    "not" => { let x = st.pop()?; st.push(match x { I(x) => I(!x), B(x) => B(!x), R(_) => return None }); }
                    "abs" | "neg" | "ceiling" | "floor" | "round" | "truncate" => {
                        let x = st.pop()?;
                        st.push(match (name, x) {
                            ("abs", I(x)) => I(x.checked_abs()?), ("neg", I(x)) => I(x.checked_neg()?), (_, I(x)) => I(x),
                            ("abs", R(x)) => R(x.abs()), ("neg", R(x)) => R(-x), ("ceiling", R(x)) => R(x.ceil()), ("floor", R(x)) => R(x.floor()),
                            ("round", R(x)) => R((x + 0.5).floor()), (_, R(x)) => R(x.trunc()), _ => return None,
                        });
                    }
                    "cos" | "sin" | "sqrt" | "ln" | "log" | "cvr" => { let x = num(st.pop()?)?; st.push(R(match name { "cos" => x.to_radians().cos(), "sin" => x.to_radians().sin(), "sqrt" => x.sqrt(), "ln" => x.ln(), "log" => x.log10(), _ => x })); }
                    "cvi" => { let x = st.pop()?; st.push(match x { I(x) => I(x), R(x) => I(x as i32), B(_) => return None }); }
                    "atan" | "div" | "exp" => { let (b, a) = (num(st.pop()?)?, num(st.pop()?)?); st.push(R(match name { "atan" => a.atan2(b).to_degrees(), "div" => a / b, _ => a.powf(b) })); }
                    "idiv" | "mod" | "bitshift" => {
                        let (I(b), I(a)) = (st.pop()?, st.pop()?) else { return None };
                        st.push(I(match name { "idiv" => a.checked_div(b)?, "mod" => a.checked_rem(b)?, _ => if b >= 0 { a.checked_shl(b as u32)? } else { a.checked_shr(b.checked_neg()? as u32)? } }));
                    }
                    "add" | "sub" | "mul" => {
                        let (b, a) = (st.pop()?, st.pop()?);
                        st.push(match (a, b) {
                            (I(a), I(b)) => { let x = match name { "add" => a.checked_add(b), "sub" => a.checked_sub(b), _ => a.checked_mul(b) }; match x { Some(x) => I(x), None => R(match name { "add" => a as f32 + b as f32, "sub" => a as f32 - b as f32, _ => a as f32 * b as f32 }) } }
                            _ => { let (a, b) = (num(a)?, num(b)?); R(match name { "add" => a + b, "sub" => a - b, _ => a * b }) }
                        });
                    }
                    "and" | "or" | "xor" => {
                        let (b, a) = (st.pop()?, st.pop()?);
                        st.push(match (a, b) { (I(a), I(b)) => I(match name { "and" => a & b, "or" => a | b, _ => a ^ b }), (B(a), B(b)) => B(match name { "and" => a & b, "or" => a | b, _ => a ^ b }), _ => return None });
                    }
                    "eq" | "ne" => { let (b, a) = (st.pop()?, st.pop()?); let e = match (a, b) { (B(a), B(b)) => a == b, (a, b) => num(a)? == num(b)? }; st.push(B(e == (name == "eq"))); }
                    _ => { let (b, a) = (num(st.pop()?)?, num(st.pop()?)?); st.push(B(match name { "ge" => a >= b, "gt" => a > b, "le" => a <= b, _ => a < b })); }
                }
            }
        }
        if st.len() > 100 { return None; }
    }
    Some(())
}
fn bits(st: &[Val]) -> Vec<(u8, u32)> {
    st.iter().map(|v| match v { Val::I(x) => (0, *x as u32), Val::R(x) => (1, x.to_bits()), Val::B(x) => (2, *x as u32) }).collect()
}

fn literal(r: &mut Rng) -> Node {
    match r.below(4) {
        0 => Node::Int(r.int()),
        1 => Node::Int(r.range(-9, 9) as i32),
        2 => Node::Real(r.f()),
        _ => Node::Real(*r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 3.0, 100.0, 1e-6, 1e-7, 1e6, 16777216.0, 2147483648.0, -2147483648.0, 4294967296.0, 1e11, 1e12, 1e13, 1e20, -1e20, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 999999.9])),
    }
}
/// Anything goes: the encoding does not depend on the program being meaningful.
fn wild(r: &mut Rng, n: usize, depth: usize) -> Vec<Node> {
    (0..n).map(|_| match r.below(8) {
        0 | 1 | 2 => literal(r),
        3 if depth > 0 => { let n = r.below(5); Node::If(wild(r, n, depth - 1)) }
        4 if depth > 0 => { let (n, m) = (r.below(5), r.below(5)); Node::IfElse(wild(r, n, depth - 1), wild(r, m, depth - 1)) }
        _ => Node::Op(r.below(OPS.len())),
    }).collect()
}
/// Programs that mostly run: every step keeps track of what is on the stack.
fn sane(r: &mut Rng, n: usize, depth: usize) -> Vec<Node> {
    let op = |s: &str| Node::Op(ix(s));
    let mut v = vec![];
    for _ in 0..n {
        match r.below(9) {
            0 | 1 => v.push(literal(r)),
            2 => { v.push(literal(r)); v.push(op(*r.pick(&["add", "sub", "mul", "div", "exp", "atan"]))); }
            3 => v.push(op(*r.pick(&["abs", "neg", "ceiling", "floor", "round", "truncate", "sin", "cos", "sqrt", "ln", "log", "cvi", "cvr", "dup"]))),
            4 => { v.push(op("cvi")); v.push(Node::Int(*r.pick(&[1, 2, 3, 7, -3]))); v.push(op(*r.pick(&["idiv", "mod", "bitshift", "and", "or", "xor"]))); }
            5 => { v.push(literal(r)); v.push(op("exch")); }
            6 => { let k = r.range(1, 2) as i32; v.push(literal(r)); v.push(literal(r)); if r.bool() { v.push(Node::Int(3)); v.push(Node::Int(r.range(-4, 4) as i32)); v.push(op("roll")); } else { v.push(Node::Int(k)); v.push(op(*r.pick(&["copy", "index"]))); } }
            _ if depth > 0 => {
                v.push(op("dup"));
                v.push(literal(r));
                v.push(op(*r.pick(&["eq", "ne", "ge", "gt", "le", "lt"])));
                if r.chance(1, 4) { v.push(op(*r.pick(&["true", "false"]))); v.push(op(*r.pick(&["and", "or", "xor"]))); }
                if r.chance(1, 4) { v.push(op("not")); }
                let (n, m) = (r.below(4), r.below(4));
                v.push(if r.bool() { Node::If(sane(r, n, depth - 1)) } else { Node::IfElse(sane(r, n, depth - 1), sane(r, m, depth - 1)) });
            }
            _ => v.push(literal(r)),
        }
    }
    v
}
fn size(p: &[Node]) -> usize { p.iter().map(|n| match n { Node::If(v) => 1 + size(v), Node::IfElse(v, w) => 1 + size(v) + size(w), _ => 1 }).sum() }

fn judge(p: &[Node], inputs: &[Val], o: &mut crate::mon::Obs) -> R<()> {
    let b = with_ops(p, &mut |ops| Op::encode(ops).into_vec());
    let got = parse(&b).map_err(|m| format!("{m}\nin {}", esc(&b)))?;
    same(p, &got).map_err(|m| format!("{m}\nin {}", esc(&b)))?;
    let run = |p: &[Node]| { let mut st = inputs.to_vec(); let mut fuel = 5000; exec(p, &mut st, &mut fuel).map(|_| bits(&st)) };
    let (a, c) = (run(p), run(&got));
    if a != c { return Err(format!("running the encoded program gives {c:?}, the program defines {a:?}\nin {}", esc(&b))); }
    o.count(if a.is_some() { "programs executed to the end" } else { "programs that stop" }, 1);
    o.count("tokens", size(p) as u64);
    o.max("tokens in a program", size(p) as u64);
    o.sample(|| esc(&b));
    o.eval(hash(&b), !p.is_empty());
    Ok(())
}

/// A random program, encoded, for other monitors.
pub fn random(r: &mut Rng) -> (Vec<u8>, usize) {
    let n = r.below(14);
    let p = wild(r, n, 3);
    (with_ops(&p, &mut |ops| Op::encode(ops).into_vec()), size(&p))
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("the program was not empty");
    ctx.assume("real literals are finite");
    let n = OPS.len() as u64;
    ctx.exhaust("every pair of operators", (n + 4) * (n + 4), |i, r, o| {
        let mut node = |k: u64| match k { k if k < n => Node::Op(k as usize), k if k == n => Node::Int(r.int()), k if k == n + 1 => Node::Real(r.f()), k if k == n + 2 => { let m = r.below(3); Node::If(wild(r, m, 1)) } _ => { let (m, q) = (r.below(3), r.below(3)); Node::IfElse(wild(r, m, 1), wild(r, q, 1)) } };
        let p = vec![node(i / (n + 4)), node(i % (n + 4))];
        o.seen("operator pairs", i);
        judge(&p, &[Val::I(3), Val::R(2.5), Val::B(true)], o)?;
        judge(&p[..1], &[], o)
    });
    ctx.exhaust("empty and nested", 60, |i, _r, o| {
        // Deeper and deeper conditionals, with empty and one-element blocks.
        let mut p: Vec<Node> = if i % 2 == 0 { vec![] } else { vec![Node::Int(1)] };
        for k in 0..i / 2 { p = if k % 3 == 0 { vec![Node::IfElse(p.clone(), vec![])] } else if k % 3 == 1 { vec![Node::If(p)] } else { vec![Node::Op(ix("true")), Node::IfElse(vec![Node::Real(0.5)], p)] }; if size(&p) > 4000 { break; } }
        o.max("nesting", i / 2);
        judge(&p, &[Val::B(true), Val::B(true)], o)
    });
    ctx.cases("any programs", 60_000, 2_000_000, |_, r, o| { let n = r.below(14); let p = wild(r, n, 4); judge(&p, &[Val::I(1), Val::R(0.5)], o) });
    ctx.cases("executable programs", 60_000, 2_000_000, |_, r, o| {
        let n = r.below(16);
        let p = sane(r, n, 3);
        let x = match r.below(3) { 0 => Val::I(r.int()), _ => Val::R(r.f()) };
        judge(&p, &[Val::R(r.f()), x], o)
    });
    ctx.cases("real literals", 100_000, 20_000_000, |_, r, o| {
        let x = loop { let x = f32::from_bits(r.next() as u32); if x.is_finite() { break x; } };
        o.seen("exponents", (x.to_bits() >> 23 & 0xFF) as u64);
        judge(&[Node::Real(x)], &[], o)
    });
    ctx.cases("long programs", 120, 2_000, |i, r, o| {
        let k = [300, 3_000, 70_000, 260][i as usize % 4] + r.below(40);
        let mut p = match i % 3 { 0 => wild(r, k, 1), 1 => (0..k).map(|_| literal(r)).collect(), _ => wild(r, k, 0) };
        if i % 5 == 0 { p = vec![Node::Op(ix("true")), Node::IfElse(p, vec![Node::Real(1.0)])]; }
        judge(&p, &[Val::I(1), Val::R(0.5)], o)
    });
    ctx.cases("deep programs", 60, 600, |i, r, o| {
        let mut p = wild(r, 2, 0);
        for _ in 0..[20, 100, 140, 260, 300, 400][i as usize % 6] {
            let (a, b) = (r.below(3), r.below(2));
            let mut q = wild(r, a, 0);
            q.push(match r.below(3) { 0 => Node::If(p), 1 => Node::IfElse(p, wild(r, b, 0)), _ => Node::IfElse(wild(r, b, 0), p) });
            let t = r.below(2);
            q.extend(wild(r, t, 0));
            p = q;
        }
        judge(&p, &[Val::B(true), Val::B(true)], o)
    });
    ctx.require("tokens in a program", 70_000);
    ctx.require("operator pairs", (n + 4) * (n + 4));
    ctx.require("programs executed to the end", 10_000);
    ctx.require("exponents", 250);
}
