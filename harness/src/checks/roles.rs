//! C24: structure roles, their names, classifications and conversions between the two standards.
//! The tables are written down from ISO 32000-1 14.8.4 and ISO 32000-2 14.8.4 and the documented
//! options, not from the library.

use crate::mon::{hash, Ctx, R};
use crate::pdf::*;
use crate::val::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;
use std::num::NonZeroU16;

use BlockLevelRoleSubtype as B;
use InlineLevelRoleSubtype as I;
use InlineLevelRoleSubtype2 as I2;
use StructRole as A;
use StructRole2 as N;
use StructRoleType as T;
use StructRoleType2 as T2;

const fn h(n: u16) -> N { match NonZeroU16::new(n) { Some(n) => N::Heading(n), None => panic!() } }

/// Role, standard name, classification, PDF 2.0 counterpart.
const OLD: &[(A, &str, T, Option<N>)] = &[
    (A::Document, "Document", T::Grouping, Some(N::Document)),
    (A::Part, "Part", T::Grouping, Some(N::Part)),
    (A::Art, "Art", T::Grouping, None),
    (A::Sect, "Sect", T::Grouping, Some(N::Sect)),
    (A::Div, "Div", T::Grouping, Some(N::Div)),
    (A::BlockQuote, "BlockQuote", T::Grouping, None),
    (A::Caption, "Caption", T::Grouping, Some(N::Caption)),
    (A::TOC, "TOC", T::Grouping, None),
    (A::TOCI, "TOCI", T::Grouping, None),
    (A::Index, "Index", T::Grouping, None),
    (A::NonStruct, "NonStruct", T::Grouping, Some(N::NonStruct)),
    (A::Private, "Private", T::Grouping, None),
    (A::P, "P", T::BlockLevel(B::ParagraphLike), Some(N::P)),
    (A::StructuredHeading, "H", T::BlockLevel(B::ParagraphLike), Some(N::StructuredHeading)),
    (A::H1, "H1", T::BlockLevel(B::ParagraphLike), Some(h(1))),
    (A::H2, "H2", T::BlockLevel(B::ParagraphLike), Some(h(2))),
    (A::H3, "H3", T::BlockLevel(B::ParagraphLike), Some(h(3))),
    (A::H4, "H4", T::BlockLevel(B::ParagraphLike), Some(h(4))),
    (A::H5, "H5", T::BlockLevel(B::ParagraphLike), Some(h(5))),
    (A::H6, "H6", T::BlockLevel(B::ParagraphLike), Some(h(6))),
    (A::L, "L", T::BlockLevel(B::List), Some(N::L)),
    (A::LI, "LI", T::BlockLevel(B::List), Some(N::LI)),
    (A::Lbl, "Lbl", T::BlockLevel(B::List), Some(N::Lbl)),
    (A::LBody, "LBody", T::BlockLevel(B::List), Some(N::LBody)),
    (A::Table, "Table", T::BlockLevel(B::Table), Some(N::Table)),
    (A::TR, "TR", T::Table, Some(N::TR)),
    (A::TH, "TH", T::Table, Some(N::TH)),
    (A::TD, "TD", T::Table, Some(N::TD)),
    (A::THead, "THead", T::Table, Some(N::THead)),
    (A::TBody, "TBody", T::Table, Some(N::TBody)),
    (A::TFoot, "TFoot", T::Table, Some(N::TFoot)),
    (A::Span, "Span", T::InlineLevel(I::Generic), Some(N::Span)),
    (A::Quote, "Quote", T::InlineLevel(I::Generic), Some(N::Em)),
    (A::Note, "Note", T::InlineLevel(I::Generic), Some(N::FENote)),
    (A::Reference, "Reference", T::InlineLevel(I::Generic), Some(N::Link)),
    (A::BibEntry, "BibEntry", T::InlineLevel(I::Generic), None),
    (A::Code, "Code", T::InlineLevel(I::Generic), Some(N::Strong)),
    (A::Link, "Link", T::InlineLevel(I::Link), Some(N::Link)),
    (A::Annot, "Annot", T::InlineLevel(I::Annotation), Some(N::Annot)),
    (A::Ruby, "Ruby", T::InlineLevel(I::Generic), Some(N::Ruby)),
    (A::Warichu, "Warichu", T::InlineLevel(I::Generic), Some(N::Warichu)),
    (A::RB, "RB", T::InlineLevel(I::RubyWarichu), Some(N::RB)),
    (A::RT, "RT", T::InlineLevel(I::RubyWarichu), Some(N::RT)),
    (A::RP, "RP", T::InlineLevel(I::RubyWarichu), Some(N::RP)),
    (A::WT, "WT", T::InlineLevel(I::RubyWarichu), Some(N::WT)),
    (A::WP, "WP", T::InlineLevel(I::RubyWarichu), Some(N::WP)),
    (A::Figure, "Figure", T::Illustration, Some(N::Figure)),
    (A::Formula, "Formula", T::Illustration, Some(N::Formula)),
    (A::Form, "Form", T::Illustration, Some(N::Form)),
];

/// How a PDF 2.0 role is represented in PDF 1.7.
#[derive(Copy, Clone)]
enum C {
    /// It is the same role.
    Same(A),
    /// It is mapped.
    Map(A),
    /// It is mapped as the option says (set, unset).
    Opt(Opt, A, A),
}
#[derive(Copy, Clone)]
enum Opt { Hn, Title, Sub }

const NEW: &[(N, &str, T2, C)] = &[
    (N::Document, "Document", T2::Document, C::Same(A::Document)),
    (N::DocumentFragment, "DocumentFragment", T2::Document, C::Map(A::Div)),
    (N::Part, "Part", T2::Grouping, C::Same(A::Part)),
    (N::Sect, "Sect", T2::Grouping, C::Same(A::Sect)),
    (N::Div, "Div", T2::Grouping, C::Same(A::Div)),
    (N::Aside, "Aside", T2::Grouping, C::Map(A::Div)),
    (N::NonStruct, "NonStruct", T2::Grouping, C::Same(A::NonStruct)),
    (N::P, "P", T2::BlockLevel, C::Same(A::P)),
    (N::StructuredHeading, "H", T2::BlockLevel, C::Same(A::StructuredHeading)),
    (N::Title, "Title", T2::BlockLevel, C::Opt(Opt::Title, A::H1, A::P)),
    (N::FENote, "FENote", T2::BlockLevel, C::Map(A::Note)),
    (N::Sub, "Sub", T2::SubBlockLevel, C::Opt(Opt::Sub, A::Span, A::Div)),
    (N::Lbl, "Lbl", T2::InlineLevel(I2::Generic), C::Same(A::Lbl)),
    (N::Span, "Span", T2::InlineLevel(I2::Generic), C::Same(A::Span)),
    (N::Em, "Em", T2::InlineLevel(I2::Generic), C::Map(A::Span)),
    (N::Strong, "Strong", T2::InlineLevel(I2::Generic), C::Map(A::Span)),
    (N::Link, "Link", T2::InlineLevel(I2::Generic), C::Same(A::Link)),
    (N::Annot, "Annot", T2::InlineLevel(I2::Generic), C::Same(A::Annot)),
    (N::Form, "Form", T2::InlineLevel(I2::Generic), C::Same(A::Form)),
    (N::Ruby, "Ruby", T2::InlineLevel(I2::RubyWarichu), C::Same(A::Ruby)),
    (N::RB, "RB", T2::InlineLevel(I2::RubyWarichu), C::Same(A::RB)),
    (N::RT, "RT", T2::InlineLevel(I2::RubyWarichu), C::Same(A::RT)),
    (N::RP, "RP", T2::InlineLevel(I2::RubyWarichu), C::Same(A::RP)),
    (N::Warichu, "Warichu", T2::InlineLevel(I2::RubyWarichu), C::Same(A::Warichu)),
    (N::WT, "WT", T2::InlineLevel(I2::RubyWarichu), C::Same(A::WT)),
    (N::WP, "WP", T2::InlineLevel(I2::RubyWarichu), C::Same(A::WP)),
    (N::L, "L", T2::List, C::Same(A::L)),
    (N::LI, "LI", T2::List, C::Same(A::LI)),
    (N::LBody, "LBody", T2::List, C::Same(A::LBody)),
    (N::Table, "Table", T2::Table, C::Same(A::Table)),
    (N::TR, "TR", T2::Table, C::Same(A::TR)),
    (N::TH, "TH", T2::Table, C::Same(A::TH)),
    (N::TD, "TD", T2::Table, C::Same(A::TD)),
    (N::THead, "THead", T2::Table, C::Same(A::THead)),
    (N::TBody, "TBody", T2::Table, C::Same(A::TBody)),
    (N::TFoot, "TFoot", T2::Table, C::Same(A::TFoot)),
    (N::Caption, "Caption", T2::Caption, C::Same(A::Caption)),
    (N::Figure, "Figure", T2::Figure, C::Same(A::Figure)),
    (N::Formula, "Formula", T2::Formula, C::Same(A::Formula)),
    (N::Artifact, "Artifact", T2::Artifact, C::Map(A::Private)),
];

/// Any PDF 2.0 role: the listed ones, then headings by level.
fn new_role(i: usize) -> (N, String, T2, C) {
    if let Some(&(n, s, t, c)) = NEW.get(i) { return (n, s.to_string(), t, c); }
    let level = (i - NEW.len() + 1) as u16;
    const H: [A; 6] = [A::H1, A::H2, A::H3, A::H4, A::H5, A::H6];
    let c = match H.get(level as usize - 1) { Some(&a) => C::Same(a), None => C::Opt(Opt::Hn, A::H6, A::P) };
    (h(level), format!("H{level}"), T2::BlockLevel, c)
}
fn old_name(a: A) -> &'static str { OLD.iter().find(|x| x.0 == a).map_or("(not in the table)", |x| x.1) }

fn eq<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> R<()> {
    if got == want { Ok(()) } else { Err(format!("{what} is {got:?}, expected {want:?}")) }
}
/// The options for a bit pattern, in the order Hn, Title, Sub.
fn opts(bits: usize) -> RoleMapOpts {
    let mut o = RoleMapOpts::empty();
    if bits & 1 != 0 { o.insert(RoleMapOpts::MAP_HN_TO_H6); }
    if bits & 2 != 0 { o.insert(RoleMapOpts::MAP_TITLE_TO_H1); }
    if bits & 4 != 0 { o.insert(RoleMapOpts::MAP_SUB_TO_SPAN); }
    o
}
fn expected(c: C, bits: usize) -> (A, bool) {
    match c {
        C::Same(a) => (a, true),
        C::Map(a) => (a, false),
        C::Opt(o, yes, no) => {
            let bit = match o { Opt::Hn => 1, Opt::Title => 2, Opt::Sub => 4 };
            (if bits & bit != 0 { yes } else { no }, false)
        }
    }
}
fn parsed(c: &Chunk) -> R<V> {
    let (mut objs, _) = parse_body(c.as_bytes())?;
    if objs.len() != 1 { return Err(format!("{} objects", objs.len())); }
    Ok(objs.remove(0).v)
}
fn name_at(v: &V, k: &str) -> R<Vec<u8>> {
    match v.get(k.as_bytes()) { Some(V::Name(n)) => Ok(n.clone()), x => Err(format!("/{k} is {x:?}")) }
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("a role was named, classified and converted and every answer compared with the standard's tables");
    ctx.exhaust("roles of PDF 1.7", OLD.len() as u64, |i, _r, o| {
        let (a, name, ty, new) = OLD[i as usize];
        eq(&format!("{name}: to_name()"), a.to_name().0, name.as_bytes())?;
        eq(&format!("{name}: role_type()"), a.role_type(), ty)?;
        eq(&format!("{name}: into_pdf_2_0()"), a.into_pdf_2_0(), new)?;
        eq(&format!("{name}: StructRole2::try_from()"), N::try_from(a).ok(), new)?;
        for pretty in [false, true] {
            let mut c = Chunk::with_settings(settings(pretty));
            c.struct_element(Ref::new(1)).kind(a);
            eq(&format!("{name}: written by StructElement::kind"), name_at(&parsed(&c)?, "S")?, name.as_bytes().to_vec())?;
            let mut c = Chunk::with_settings(settings(pretty));
            c.indirect(Ref::new(1)).start::<RoleMap>().insert(Name(b"Mine"), a);
            eq(&format!("{name}: written by RoleMap::insert"), name_at(&parsed(&c)?, "Mine")?, name.as_bytes().to_vec())?;
            let mut c = Chunk::with_settings(settings(pretty));
            c.indirect(Ref::new(1)).start::<NamespaceRoleMap>().to_pdf_1_7(Name(b"Mine"), a);
            eq(&format!("{name}: written by NamespaceRoleMap::to_pdf_1_7"), name_at(&parsed(&c)?, "Mine")?, name.as_bytes().to_vec())?;
        }
        // A role the newer standard still has keeps its name, and comes back as itself.
        if let Some(n) = new {
            let mut buf = [0; 6];
            let nn = n.to_name(&mut buf).0.to_vec();
            let kept = NEW.iter().any(|x| x.1 == name) || a.to_name().0.len() == 2 && name.starts_with('H');
            if kept { eq(&format!("{name}: name after conversion"), &nn[..], name.as_bytes())?; }
            if kept { eq(&format!("{name}: back from PDF 2.0"), n.compatibility_1_7(RoleMapOpts::default()).into_pdf_1_7(), Some(a))?; }
            o.count(if kept { "roles kept" } else { "roles renamed" }, 1);
        } else { o.count("roles retired", 1); }
        o.seen("roles", hash(&("1.7", name)));
        o.seen("classifications", hash(&format!("{ty:?}")));
        o.sample(|| format!("{name}: {ty:?}, {new:?}"));
        o.eval(hash(&("1.7", name)), true);
        Ok(())
    });
    // Every role, every heading level there is, under every combination of options.
    let n = NEW.len() as u64 + u16::MAX as u64;
    ctx.exhaust("roles of PDF 2.0", n, |i, _r, o| {
        let (role, name, ty, c) = new_role(i as usize);
        let mut buf = [0xAA; 6];
        eq(&format!("{name}: to_name()"), role.to_name(&mut buf).0, name.as_bytes())?;
        eq(&format!("{name}: role_type()"), role.role_type(), ty)?;
        for bits in 0..8 {
            let got = role.compatibility_1_7(opts(bits));
            let (a, same) = expected(c, bits);
            let want = if same { StructRole2Compat::Compatible(a) } else { StructRole2Compat::RoleMapping(a) };
            eq(&format!("{name}: compatibility_1_7 with options {bits:03b}"), got, want)?;
            eq(&format!("{name}: into_pdf_1_7 with options {bits:03b}"), got.into_pdf_1_7(), same.then_some(a))?;
            eq(&format!("{name}: role_mapped_1_7 with options {bits:03b}"), got.role_mapped_1_7(), (!same).then_some(a))?;
            eq(&format!("{name}: role with options {bits:03b}"), got.role(), a)?;
            if same { eq(&format!("{name}: name in PDF 1.7"), old_name(a), &name)?; }
            o.count("conversions", 1);
        }
        let (a, same) = expected(c, 0);
        eq(&format!("{name}: StructRole::try_from()"), A::try_from(role).ok(), same.then_some(a))?;
        if i < NEW.len() as u64 + 20 || i % 97 == 0 || i + 1 == n {
            let pretty = i % 2 == 0;
            let ns = Ref::new(7);
            let mut ch = Chunk::with_settings(settings(pretty));
            ch.struct_element(Ref::new(1)).kind_2(role, ns);
            let v = parsed(&ch)?;
            eq(&format!("{name}: written by StructElement::kind_2"), name_at(&v, "S")?, name.as_bytes().to_vec())?;
            if !matches!(v.get(b"NS"), Some(V::Ref(7, 0))) { return Err(format!("{name}: /NS is {:?}", v.get(b"NS"))); }
            let mut ch = Chunk::with_settings(settings(pretty));
            ch.indirect(Ref::new(1)).start::<NamespaceRoleMap>().to_pdf_2_0(Name(b"Mine"), role, ns);
            let v = parsed(&ch)?;
            if let Some(m) = diff(&V::Arr(vec![nm(&name), V::Ref(7, 0)]), v.get(b"Mine").unwrap_or(&V::Null), true) { return Err(format!("{name}: NamespaceRoleMap::to_pdf_2_0: {m}")); }
            o.count("roles written", 1);
        }
        o.seen("roles", hash(&("2.0", &name)));
        o.seen("classifications", hash(&format!("{ty:?}")));
        o.eval(hash(&("2.0", &name)), true);
        Ok(())
    });
    ctx.extra("roles_1_7", OLD.len().to_string());
    ctx.extra("roles_2_0", n.to_string());
    ctx.require("roles", OLD.len() as u64 + n);
}
