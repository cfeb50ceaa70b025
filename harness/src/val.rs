//! Primitive values of every kind, how to write them through the library and what must come back.

use crate::pdf::V;
use crate::rng::{un, Rng};
use pdf_writer::*;

#[derive(Clone, Debug)]
pub enum Prim {
    Bool(bool),
    Int(i32),
    F(f32),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Null,
    Ref(Ref),
    Rect(Rect),
    Text(String),
    Lang(Vec<([u8; 2], Option<[u8; 2]>, String)>),
    Date(Date, Vec<u8>),
}

/// Hands the concrete primitive to a generic action.
pub trait Sink {
    fn take<T: Primitive + Copy>(self, v: T);
}

pub struct IntoObj<'a>(pub Obj<'a>);
impl Sink for IntoObj<'_> {
    fn take<T: Primitive + Copy>(self, v: T) { self.0.primitive(v) }
}
/// Same, by reference (references to primitives are primitives too).
pub struct IntoObjRef<'a>(pub Obj<'a>);
impl Sink for IntoObjRef<'_> {
    fn take<T: Primitive + Copy>(self, v: T) { self.0.primitive(&v) }
}
pub struct Item<'a, 'b>(pub &'a mut Array<'b>);
impl Sink for Item<'_, '_> {
    fn take<T: Primitive + Copy>(self, v: T) { self.0.item(v); }
}
pub struct Pair<'a, 'b>(pub &'a mut Dict<'b>, pub &'a [u8]);
impl Sink for Pair<'_, '_> {
    fn take<T: Primitive + Copy>(self, v: T) { self.0.pair(Name(self.1), v); }
}
pub struct Operand<'a, 'b>(pub &'a mut writers::Operation<'b>);
impl Sink for Operand<'_, '_> {
    fn take<T: Primitive + Copy>(self, v: T) { self.0.operand(v); }
}

pub const KINDS: usize = 11;

impl Prim {
    pub fn random(r: &mut Rng) -> Prim {
        let k = r.below(KINDS);
        Prim::of_kind(r, k)
    }
    pub fn of_kind(r: &mut Rng, k: usize) -> Prim {
        match k {
            0 => Prim::Bool(r.bool()),
            1 => Prim::Int(r.int()),
            2 => Prim::F(r.f()),
            3 => Prim::Str(r.bytes()),
            4 => Prim::Name(r.name()),
            5 => Prim::Null,
            6 => Prim::Ref(r.rf()),
            7 => Prim::Rect(r.rect()),
            8 => Prim::Text(r.text()),
            9 => {
                let n = r.below(4);
                Prim::Lang((0..n).map(|_| { let (l, g) = r.lang_parts(); (l, g, r.text()) }).collect())
            }
            _ => { let (d, b) = r.date(); Prim::Date(d, b) }
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Prim::Bool(_) => "bool", Prim::Int(_) => "int", Prim::F(_) => "real", Prim::Str(_) => "string",
            Prim::Name(n) if n.is_empty() => "empty name", Prim::Name(_) => "name", Prim::Null => "null",
            Prim::Ref(_) => "ref", Prim::Rect(_) => "rect", Prim::Text(_) => "text", Prim::Lang(_) => "lang text", Prim::Date(..) => "date",
        }
    }
    pub fn put<S: Sink>(&self, s: S) {
        match self {
            Prim::Bool(v) => s.take(*v),
            Prim::Int(v) => s.take(*v),
            Prim::F(v) => s.take(*v),
            Prim::Str(v) => s.take(Str(&un(v))),
            Prim::Name(v) => s.take(Name(&un(v))),
            Prim::Null => s.take(Null),
            Prim::Ref(v) => s.take(*v),
            Prim::Rect(v) => s.take(*v),
            Prim::Text(v) => s.take(TextStr(un(v.as_bytes()).text())),
            Prim::Lang(v) => {
                let x: Vec<(LanguageIdentifier, &str)> = v.iter().map(|(l, r, t)| (LanguageIdentifier::new(*l, *r), t.as_str())).collect();
                s.take(TextStrWithLang(&x))
            }
            Prim::Date(v, _) => s.take(*v),
        }
    }
    pub fn exp(&self) -> V {
        match self {
            Prim::Bool(v) => V::Bool(*v),
            Prim::Int(v) => V::Int(*v as i64),
            Prim::F(v) => V::F(*v),
            Prim::Str(v) => V::Str(v.clone()),
            Prim::Name(v) => V::Name(v.clone()),
            Prim::Null => V::Null,
            Prim::Ref(v) => V::Ref(v.get() as i64, 0),
            Prim::Rect(v) => (*v).into(),
            Prim::Text(v) => V::Text(v.clone()),
            Prim::Lang(v) => V::Lang(v.clone()),
            Prim::Date(_, b) => V::Str(b.clone()),
        }
    }
}

/// A random object tree.
#[derive(Clone, Debug)]
pub enum Tree {
    Prim(Prim),
    Arr(Vec<Tree>),
    Dict(Vec<(Vec<u8>, Tree)>),
}

impl Tree {
    pub fn random(r: &mut Rng, budget: &mut usize, depth: usize) -> Tree {
        if *budget == 0 || depth == 0 || r.chance(1, 3) {
            return Tree::Prim(Prim::random(r));
        }
        *budget -= 1;
        let n = r.len(6);
        if r.bool() {
            Tree::Arr((0..n).map(|_| Tree::random(r, budget, depth - 1)).collect())
        } else {
            Tree::Dict((0..n).map(|_| (r.name(), Tree::random(r, budget, depth - 1))).collect())
        }
    }
    pub fn exp(&self) -> V {
        match self {
            Tree::Prim(p) => p.exp(),
            Tree::Arr(v) => V::Arr(v.iter().map(Tree::exp).collect()),
            Tree::Dict(v) => V::Dict(v.iter().map(|(k, t)| (k.clone(), t.exp())).collect()),
        }
    }
    pub fn put(&self, o: Obj) {
        match self {
            Tree::Prim(p) => p.put(IntoObj(o)),
            Tree::Arr(v) => {
                let mut a = o.array();
                for t in v { t.put(a.push()); }
            }
            Tree::Dict(v) => {
                let mut d = o.dict();
                for (k, t) in v { t.put(d.insert(Name(k))); }
            }
        }
    }
    pub fn refs(&self, out: &mut Vec<i32>) {
        match self {
            Tree::Prim(Prim::Ref(r)) => out.push(r.get()),
            Tree::Prim(_) => {}
            Tree::Arr(v) => v.iter().for_each(|t| t.refs(out)),
            Tree::Dict(v) => v.iter().for_each(|t| t.1.refs(out)),
        }
    }
}

pub fn settings(pretty: bool) -> Settings { Settings { pretty } }
