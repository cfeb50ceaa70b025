//! Tagged PDF (C22).
use super::*;
use pdf_writer::types::*;

pub const STRUCT_ROLE: &[(StructRole, &str)] = &[(StructRole::Document, "Document"), (StructRole::Part, "Part"), (StructRole::Art, "Art"), (StructRole::Sect, "Sect"), (StructRole::Div, "Div"), (StructRole::BlockQuote, "BlockQuote"), (StructRole::Caption, "Caption"), (StructRole::TOC, "TOC"), (StructRole::TOCI, "TOCI"), (StructRole::Index, "Index"), (StructRole::NonStruct, "NonStruct"), (StructRole::Private, "Private"), (StructRole::P, "P"), (StructRole::StructuredHeading, "H"), (StructRole::H1, "H1"), (StructRole::H2, "H2"), (StructRole::H3, "H3"), (StructRole::H4, "H4"), (StructRole::H5, "H5"), (StructRole::H6, "H6"), (StructRole::L, "L"), (StructRole::LI, "LI"), (StructRole::Lbl, "Lbl"), (StructRole::LBody, "LBody"), (StructRole::Table, "Table"), (StructRole::TR, "TR"), (StructRole::TH, "TH"), (StructRole::TD, "TD"), (StructRole::THead, "THead"), (StructRole::TBody, "TBody"), (StructRole::TFoot, "TFoot"), (StructRole::Span, "Span"), (StructRole::Quote, "Quote"), (StructRole::Note, "Note"), (StructRole::Reference, "Reference"), (StructRole::BibEntry, "BibEntry"), (StructRole::Code, "Code"), (StructRole::Link, "Link"), (StructRole::Annot, "Annot"), (StructRole::Ruby, "Ruby"), (StructRole::Warichu, "Warichu"), (StructRole::RB, "RB"), (StructRole::RT, "RT"), (StructRole::RP, "RP"), (StructRole::WT, "WT"), (StructRole::WP, "WP"), (StructRole::Figure, "Figure"), (StructRole::Formula, "Formula"), (StructRole::Form, "Form")];
pub const STRUCT_ROLE_2: &[(StructRole2, &str)] = &[(StructRole2::Document, "Document"), (StructRole2::DocumentFragment, "DocumentFragment"), (StructRole2::Part, "Part"), (StructRole2::Sect, "Sect"), (StructRole2::Div, "Div"), (StructRole2::Aside, "Aside"), (StructRole2::NonStruct, "NonStruct"), (StructRole2::P, "P"), (StructRole2::StructuredHeading, "H"), (StructRole2::Title, "Title"), (StructRole2::FENote, "FENote"), (StructRole2::Sub, "Sub"), (StructRole2::Lbl, "Lbl"), (StructRole2::Span, "Span"), (StructRole2::Em, "Em"), (StructRole2::Strong, "Strong"), (StructRole2::Link, "Link"), (StructRole2::Annot, "Annot"), (StructRole2::Form, "Form"), (StructRole2::Ruby, "Ruby"), (StructRole2::RB, "RB"), (StructRole2::RT, "RT"), (StructRole2::RP, "RP"), (StructRole2::Warichu, "Warichu"), (StructRole2::WT, "WT"), (StructRole2::WP, "WP"), (StructRole2::L, "L"), (StructRole2::LI, "LI"), (StructRole2::LBody, "LBody"), (StructRole2::Table, "Table"), (StructRole2::TR, "TR"), (StructRole2::TH, "TH"), (StructRole2::TD, "TD"), (StructRole2::THead, "THead"), (StructRole2::TBody, "TBody"), (StructRole2::TFoot, "TFoot"), (StructRole2::Caption, "Caption"), (StructRole2::Figure, "Figure"), (StructRole2::Formula, "Formula"), (StructRole2::Artifact, "Artifact")];
/// Attribute owners: names before and after ISO 32000-2:2020.
pub const ATTRIBUTE_OWNER: &[(AttributeOwner, &str, &str)] = &[(AttributeOwner::Layout, "Layout", "Layout"), (AttributeOwner::List, "List", "List"), (AttributeOwner::PrintField, "PrintField", "PrintField"), (AttributeOwner::Table, "Table", "Table"), (AttributeOwner::Artifact, "Artifact", "Artifact"), (AttributeOwner::Xml, "XML-1.00", "XML-1.00"), (AttributeOwner::Html3_2, "HTML-3.20", "HTML-3.20"), (AttributeOwner::Html4, "HTML-4.01", "HTML-4.01"), (AttributeOwner::Html5, "HTML-5.00", "HTML-5.00"), (AttributeOwner::Oeb, "OEB-1.00", "OEB-1.00"), (AttributeOwner::Rtf1_05, "RTF-1.05", "RTF-1.05"), (AttributeOwner::Css1, "CSS-1.00", "CSS-1"), (AttributeOwner::Css2, "CSS-2.00", "CSS-2"), (AttributeOwner::Css3, "CSS-3", "CSS-3"), (AttributeOwner::Rdfa1_1, "RDFa-1.10", "RDFa-1.10"), (AttributeOwner::Aria1_1, "ARIA-1.1", "ARIA-1.1"), (AttributeOwner::FENote, "FENote", "FENote"), (AttributeOwner::NSO, "NSO", "NSO"), (AttributeOwner::User, "UserProperties", "UserProperties")];
pub const PHONETIC_ALPHABET: &[(PhoneticAlphabet<'static>, &str)] = &[(PhoneticAlphabet::Ipa, "ipa"), (PhoneticAlphabet::XSampa, "x-sampa"), (PhoneticAlphabet::Pinyin, "zh-Latn-pinyin"), (PhoneticAlphabet::WadeGiles, "zh-Latn-wadegile")];
pub const ARTIFACT_TYPE: &[(ArtifactType, &str)] = &[(ArtifactType::Pagination, "Pagination"), (ArtifactType::Layout, "Layout"), (ArtifactType::Page, "Page"), (ArtifactType::Background, "Background"), (ArtifactType::Inline, "Inline")];
pub const ARTIFACT_SUBTYPE: &[(ArtifactSubtype<'static>, &str)] = &[(ArtifactSubtype::Header, "Header"), (ArtifactSubtype::Footer, "Footer"), (ArtifactSubtype::Watermark, "Watermark"), (ArtifactSubtype::PageNumber, "PageNum"), (ArtifactSubtype::Bates, "Bates"), (ArtifactSubtype::LineNumber, "LineNum"), (ArtifactSubtype::Redaction, "Redaction")];
pub const ARTIFACT_ATTACHMENT: &[(ArtifactAttachment, &str)] = &[(ArtifactAttachment::Left, "Left"), (ArtifactAttachment::Top, "Top"), (ArtifactAttachment::Right, "Right"), (ArtifactAttachment::Bottom, "Bottom")];

/// A heading level, small or large.
pub fn heading(g: &mut G) -> std::num::NonZeroU16 {
    let n = if g.r.bool() { g.r.range(1, 12) as u16 } else if g.r.bool() { g.r.u16().max(1) } else { *g.r.pick(&[1u16, 6, 7, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535]) };
    std::num::NonZeroU16::new(n).unwrap()
}
ops!(struct_tree_root, StructTreeRoot, [("Type", nm("StructTreeRoot"))], {
    k!(child, "K", rf),
    subp!(children, "K", |g| g.r.rf()),
    sub!(id_tree, "IDTree", name_tree_ref),
    sub!(parent_tree, "ParentTree", number_tree_ref),
    k!(parent_tree_next_key, "ParentTreeNextKey", int),
    sub!(role_map, "RoleMap", role_map),
    sub!(class_map, "ClassMap", class_map),
    subp!(namespaces, "Namespaces", |g| g.r.rf()),
    subp!(pronunciation_lexicon, "PronunciationLexicon", |g| g.r.rf()),
    suba!(associated_files, "AF", file_spec),
});
ops!(struct_element, StructElement, [("Type", nm("StructElem"))], {
    en!(kind, "S", STRUCT_ROLE),
    ce!(kind_2, |w, g, e| {
        let i = g.variant(STRUCT_ROLE_2.len() + 1);
        let ns = g.r.rf();
        let (role, name) = if i < STRUCT_ROLE_2.len() { (STRUCT_ROLE_2[i].0, STRUCT_ROLE_2[i].1.to_string()) } else { let n = heading(g); (StructRole2::Heading(n), format!("H{n}")) };
        w.kind_2(role, ns);
        put!(e, "S", nm(&name));
        put!(e, "NS", ns.into());
    }),
    k!(custom_kind, "S", name),
    k!(parent, "P", rf),
    k!(id, "ID", bstr),
    k!(refs, "Ref", refs),
    k!(page, "Pg", rf),
    k!(child, "K", rf),
    sub!(marked_content_child, "K", marked_ref),
    sub!(object_child, "K", object_ref),
    sub!(children, "K", struct_children),
    suba!(attributes, "A", attributes),
    cs!(attribute_class, |w, g, e| { if g.enter() {
        let mut a = w.attribute_class();
        let v = g.names();
        if g.r.bool() { for x in &v { a.item(Name(x)); } } else { a.items(it(v.iter().map(|x| Name(x)))); }
        g.end(a); g.leave();
        put!(e, "C", names_v(&v));
    } }),
    k!(revision, "R", int),
    k!(title, "T", text),
    k!(lang, "Lang", textstr),
    k!(alt, "Alt", text),
    k!(expanded, "E", text),
    k!(actual_text, "ActualText", text),
    suba!(associated_files, "AF", file_spec),
    k!(namespace, "NS", rf),
    enc!(phonetic_alphabet, "PhoneticAlphabet", PHONETIC_ALPHABET, PhoneticAlphabet::Custom),
    k!(phoneme, "Phoneme", textstr),
});
seq!(struct_children, StructChildren, {
    c!(struct_element, |w, g, e| { let a = g.r.rf(); w.struct_element(a); e.push((vec![], a.into())); }),
    c!(marked_content_id, |w, g, e| { let a = g.r.int(); w.marked_content_id(a); e.push((vec![], a.into())); }),
    cs!(marked_content_ref, |w, g, e| { if g.enter() { let v = marked_ref::write(w.marked_content_ref(), g); g.leave(); e.push((vec![], v)); } }),
    cs!(object_ref, |w, g, e| { if g.enter() { let v = object_ref::write(w.object_ref(), g); g.leave(); e.push((vec![], v)); } }),
});
ops!(marked_ref, MarkedRef, [("Type", nm("MCR"))], {
    k!(page, "Pg", rf),
    k!(stream, "Stm", rf),
    k!(stream_owner, "StmOwn", rf),
    k!(marked_content_id, "MCID", int),
});
ops!(object_ref, ObjectRef, [("Type", nm("OBJR"))], {
    k!(page, "Pg", rf),
    k!(object, "Obj", rf),
});
pub mod role_map {
    use super::*;
    pub fn write(mut w: RoleMap<'_>, g: &mut G) -> V {
        let mut e = E::new();
        for _ in 0..g.r.len(6) {
            g.choose("RoleMap", &["insert"]);
            let k = g.r.name();
            let i = g.variant(STRUCT_ROLE.len());
            w.insert(Name(&k), STRUCT_ROLE[i].0);
            e.push((k, STRUCT_ROLE[i].1.ev()));
        }
        g.end(w);
        V::Dict(e)
    }
}
pub mod class_map {
    use super::*;
    pub fn write(mut w: ClassMap<'_>, g: &mut G) -> V {
        let mut e = E::new();
        for _ in 0..g.r.len(5) {
            let k = g.r.name();
            match g.choose("ClassMap", &["single", "multiple"]) {
                0 => { if g.enter() { let v = attributes::write(w.single(Name(&k)), g); g.leave(); e.push((k, v)); } }
                _ => { if g.enter() {
                    let mut a = w.multiple(Name(&k));
                    let n = g.r.len(4);
                    let v = (0..n).map(|_| attributes::write(a.push(), g)).collect();
                    g.end(a); g.leave();
                    e.push((k, V::Arr(v)));
                } }
            }
        }
        g.end(w);
        V::Dict(e)
    }
}
ops!(namespace_dict, Namespace, [("Type", nm("Namespace"))], {
    k!(ns, "NS", textstr),
    sub!(schema, "Schema", file_spec),
    sub!(role_map_ns, "RoleMapNS", namespace_role_map),
});
/// A namespace, possibly ended by one of the methods that name a standard namespace.
pub mod namespace {
    use super::*;
    pub fn write(mut w: Namespace<'_>, g: &mut G) -> V {
        let mut e = namespace_dict::fixed();
        namespace_dict::fill(&mut w, g, &mut e);
        match g.choose("Namespace (end)", &["finish", "pdf_2_ns", "pdf_1_7_ns", "mathml_3_0_ns"]) {
            0 => g.end(w),
            1 => { w.pdf_2_ns(); put!(e, "NS", tx("http://iso.org/pdf2/ssn")); }
            2 => { w.pdf_1_7_ns(); put!(e, "NS", tx("http://iso.org/pdf/ssn")); }
            _ => { w.mathml_3_0_ns(); put!(e, "NS", tx("http://www.w3.org/1998/Math/MathML")); }
        }
        V::Dict(e)
    }
}
pub mod namespace_role_map {
    use super::*;
    pub fn write(mut w: NamespaceRoleMap<'_>, g: &mut G) -> V {
        let mut e = E::new();
        for _ in 0..g.r.len(6) {
            let k = g.r.name();
            match g.choose("NamespaceRoleMap", &["to_pdf_1_7", "to_namespace", "to_pdf_2_0", "(custom entry)"]) {
                0 => { let i = g.variant(STRUCT_ROLE.len()); w.to_pdf_1_7(Name(&k), STRUCT_ROLE[i].0); e.push((k, STRUCT_ROLE[i].1.ev())); }
                1 => { let (n, r) = (g.r.name(), g.r.rf()); w.to_namespace(Name(&k), Name(&n), r); e.push((k, V::Arr(vec![V::Name(n), r.into()]))); }
                2 => {
                    let i = g.variant(STRUCT_ROLE_2.len() + 1);
                    let ns = g.r.rf();
                    let (role, name) = if i < STRUCT_ROLE_2.len() { (STRUCT_ROLE_2[i].0, STRUCT_ROLE_2[i].1.to_string()) } else { let n = heading(g); (StructRole2::Heading(n), format!("H{n}")) };
                    w.to_pdf_2_0(Name(&k), role, ns);
                    e.push((k, V::Arr(vec![nm(&name), ns.into()])));
                }
                _ => { let r = g.r.rf(); w.pair(Name(&k), r); e.push((k, r.into())); }
            }
        }
        g.end(w);
        V::Dict(e)
    }
}
ops!(mark_info, MarkInfo, [], {
    k!(marked, "Marked", bool),
    k!(user_properties, "UserProperties", bool),
    k!(suspects, "Suspects", bool),
});
// attributes
pub const PLACEMENT: &[(Placement, &str)] = &[(Placement::Block, "Block"), (Placement::Inline, "Inline"), (Placement::Before, "Before"), (Placement::Start, "Start"), (Placement::End, "End")];
pub const WRITING_MODE: &[(WritingMode, &str)] = &[(WritingMode::LtrTtb, "LrTb"), (WritingMode::RtlTtb, "RlTb"), (WritingMode::TtbRtl, "TbRl")];
pub const LAYOUT_BORDER_STYLE: &[(LayoutBorderStyle, &str)] = &[(LayoutBorderStyle::None, "None"), (LayoutBorderStyle::Hidden, "Hidden"), (LayoutBorderStyle::Solid, "Solid"), (LayoutBorderStyle::Dashed, "Dashed"), (LayoutBorderStyle::Dotted, "Dotted"), (LayoutBorderStyle::Double, "Double"), (LayoutBorderStyle::Groove, "Groove"), (LayoutBorderStyle::Ridge, "Ridge"), (LayoutBorderStyle::Inset, "Inset"), (LayoutBorderStyle::Outset, "Outset")];
pub const TEXT_ALIGN: &[(TextAlign, &str)] = &[(TextAlign::Start, "Start"), (TextAlign::Center, "Center"), (TextAlign::End, "End"), (TextAlign::Justify, "Justify")];
pub const BLOCK_ALIGN: &[(BlockAlign, &str)] = &[(BlockAlign::Before, "Before"), (BlockAlign::Middle, "Middle"), (BlockAlign::After, "After"), (BlockAlign::Justify, "Justify")];
pub const INLINE_ALIGN: &[(InlineAlign, &str)] = &[(InlineAlign::Start, "Start"), (InlineAlign::Center, "Center"), (InlineAlign::End, "End")];
pub const LAYOUT_TEXT_POSITION: &[(LayoutTextPosition, &str)] = &[(LayoutTextPosition::Normal, "Normal"), (LayoutTextPosition::Superscript, "Sup"), (LayoutTextPosition::Subscript, "Sub")];
pub const TEXT_DECORATION_TYPE: &[(TextDecorationType, &str)] = &[(TextDecorationType::None, "None"), (TextDecorationType::Underline, "Underline"), (TextDecorationType::Overline, "Overline"), (TextDecorationType::LineThrough, "LineThrough")];
pub const RUBY_ALIGN: &[(RubyAlign, &str)] = &[(RubyAlign::Start, "Start"), (RubyAlign::Center, "Center"), (RubyAlign::End, "End"), (RubyAlign::Justify, "Justify"), (RubyAlign::Distribute, "Distribute")];
pub const RUBY_POSITION: &[(RubyPosition, &str)] = &[(RubyPosition::Before, "Before"), (RubyPosition::After, "After"), (RubyPosition::Warichu, "Warichu"), (RubyPosition::Inline, "Inline")];
pub const LIST_NUMBERING: &[(ListNumbering, &str)] = &[(ListNumbering::None, "None"), (ListNumbering::Unordered, "Unordered"), (ListNumbering::Ordered, "Ordered"), (ListNumbering::Description, "Description"), (ListNumbering::Disc, "Disc"), (ListNumbering::Circle, "Circle"), (ListNumbering::Square, "Square"), (ListNumbering::Decimal, "Decimal"), (ListNumbering::LowerRoman, "LowerRoman"), (ListNumbering::UpperRoman, "UpperRoman"), (ListNumbering::LowerAlpha, "LowerAlpha"), (ListNumbering::UpperAlpha, "UpperAlpha")];
pub const FIELD_ROLE: &[(FieldRole, &str)] = &[(FieldRole::Button, "pb"), (FieldRole::CheckBox, "cb"), (FieldRole::RadioButton, "rb"), (FieldRole::TextField, "tv"), (FieldRole::ListBox, "lb")];
pub const FIELD_STATE: &[(FieldState, &str)] = &[(FieldState::Unchecked, "off"), (FieldState::Checked, "on"), (FieldState::Neutral, "neutral")];
pub const TABLE_HEADER_SCOPE: &[(TableHeaderScope, &str)] = &[(TableHeaderScope::Row, "Row"), (TableHeaderScope::Column, "Column"), (TableHeaderScope::Both, "Both")];
pub const NOTE_TYPE: &[(NoteType, &str)] = &[(NoteType::Footnote, "Footnote"), (NoteType::Endnote, "Endnote"), (NoteType::None, "None")];
pub mod attributes {
    use super::*;
    pub fn write(mut w: Attributes<'_>, g: &mut G) -> V {
        let mut e = E::new();
        for _ in 0..g.r.len(3) {
            match g.choose("Attributes", &["owner", "user", "(custom entry)"]) {
                0 => {
                    let i = g.variant(ATTRIBUTE_OWNER.len() * 2);
                    let (o, a, b) = ATTRIBUTE_OWNER[i / 2];
                    w.owner(o, i % 2 == 1);
                    put!(e, "O", nm(if i % 2 == 1 { b } else { a }));
                }
                1 => {
                    if g.enter() {
                        let mut a = w.user();
                        let n = g.r.len(4);
                        let v = (0..n).map(|_| user_property::write(a.push(), g)).collect();
                        g.end(a); g.leave();
                        put!(e, "O", nm("UserProperties"));
                        put!(e, "P", V::Arr(v));
                    }
                }
                _ => { let k = g.r.key(); let x = g.r.int(); w.pair(Name(&k), x); e.push((k, x.into())); }
            }
        }
        match g.choose("Attributes (continuation)", &["finish", "layout", "list", "field", "table", "artifact", "note", "namespace"]) {
            0 => g.end(w),
            1 => { e.extend(layout_attributes::fixed()); let mut x = w.layout(); layout_attributes::fill(&mut x, g, &mut e); g.end(x); }
            2 => { e.extend(list_attributes::fixed()); let mut x = w.list(); list_attributes::fill(&mut x, g, &mut e); g.end(x); }
            3 => { e.extend(field_attributes::fixed()); let mut x = w.field(); field_attributes::fill(&mut x, g, &mut e); g.end(x); }
            4 => { e.extend(table_attributes::fixed()); let mut x = w.table(); table_attributes::fill(&mut x, g, &mut e); g.end(x); }
            5 => { e.extend(artifact_attributes::fixed()); let mut x = w.artifact(); artifact_attributes::fill(&mut x, g, &mut e); g.end(x); }
            6 => { e.extend(fe_note_attributes::fixed()); let mut x = w.note(); fe_note_attributes::fill(&mut x, g, &mut e); g.end(x); }
            _ => {
                let ns = g.r.rf();
                let mut x = w.namespace(ns);
                put!(e, "O", nm("NSO"));
                put!(e, "NS", ns.into());
                for _ in 0..g.r.len(3) { let k = g.r.name(); let i = g.r.int(); x.pair(Name(&k), i); e.push((k, i.into())); }
                g.end(x);
            }
        }
        V::Dict(e)
    }
}
ops!(user_property, UserProperty, [], {
    k!(name, "N", text),
    c!(value, |w, g, e| { let mut b = 3; let t = Tree::random(g.r, &mut b, 2); t.put(w.value()); put!(e, "V", t.exp()); }),
    k!(format, "F", text),
    k!(hidden, "H", bool),
});
ops!(layout_attributes, LayoutAttributes, [("O", nm("Layout"))], {
    en!(placement, "Placement", PLACEMENT),
    en!(writing_mode, "WritingMode", WRITING_MODE),
    k!(background_color, "BackgroundColor", f3),
    c!(border_color, |w, g, e| { let (s, v) = sides(g, |g| { let a = g.f3(); (a, a.into()) }); w.border_color(s); put!(e, "BorderColor", v); }),
    ce!(border_style, |w, g, e| { let (s, v) = sides(g, |g| { let i = g.variant(LAYOUT_BORDER_STYLE.len()); (LAYOUT_BORDER_STYLE[i].0, LAYOUT_BORDER_STYLE[i].1.ev()) }); w.border_style(s); put!(e, "BorderStyle", v); }),
    c!(border_thickness, |w, g, e| { let (s, v) = sides(g, |g| { let a = g.r.f(); (a, a.into()) }); w.border_thickness(s); put!(e, "BorderThickness", v); }),
    c!(padding, |w, g, e| { let (s, v) = sides(g, |g| { let a = g.r.f(); (a, a.into()) }); w.padding(s); put!(e, "Padding", v); }),
    k!(color, "Color", f3),
    k!(space_before, "SpaceBefore", f),
    k!(space_after, "SpaceAfter", f),
    k!(start_indent, "StartIndent", f),
    k!(end_indent, "EndIndent", f),
    k!(text_indent, "TextIndent", f),
    en!(text_align, "TextAlign", TEXT_ALIGN),
    k!(width, "Width", f),
    k!(height, "Height", f),
    k!(bbox, "BBox", rect),
    en!(block_align, "BlockAlign", BLOCK_ALIGN),
    en!(inline_align, "InlineAlign", INLINE_ALIGN),
    ce!(table_border_style, |w, g, e| { let (s, v) = sides(g, |g| { let i = g.variant(LAYOUT_BORDER_STYLE.len()); (LAYOUT_BORDER_STYLE[i].0, LAYOUT_BORDER_STYLE[i].1.ev()) }); w.table_border_style(s); put!(e, "TBorderStyle", v); }),
    c!(table_padding, |w, g, e| { let (s, v) = sides(g, |g| { let a = g.r.f(); (a, a.into()) }); w.table_padding(s); put!(e, "TPadding", v); }),
    k!(column_count, "ColumnCount", int),
    sub!(column_widths, "ColumnWidths", track_sizes),
    sub!(column_gap, "ColumnGap", track_sizes),
    ce!(line_height, |w, g, e| match g.variant(3) {
        0 => { w.line_height(LineHeight::Normal); put!(e, "LineHeight", nm("Normal")); }
        1 => { w.line_height(LineHeight::Auto); put!(e, "LineHeight", nm("Auto")); }
        _ => { let a = g.r.f(); w.line_height(LineHeight::Custom(a)); put!(e, "LineHeight", a.into()); }
    }),
    k!(baseline_shift, "BaselineShift", f),
    en!(text_position, "TextPosition", LAYOUT_TEXT_POSITION),
    en!(text_decoration_type, "TextDecorationType", TEXT_DECORATION_TYPE),
    k!(text_decoration_color, "TextDecorationColor", f3),
    k!(text_decoration_thickness, "TextDecorationThickness", f),
    ce!(glyph_orientation_vertical, |w, g, e| match g.variant(2) {
        0 => { w.glyph_orientation_vertical(GlyphOrientationVertical::Auto); put!(e, "GlyphOrientationVertical", nm("Auto")); }
        _ => { let a = g.r.int(); w.glyph_orientation_vertical(GlyphOrientationVertical::Angle(a)); put!(e, "GlyphOrientationVertical", a.into()); }
    }),
    en!(ruby_align, "RubyAlign", RUBY_ALIGN),
    en!(ruby_position, "RubyPosition", RUBY_POSITION),
});
/// Values for the four sides: equal values may be written once.
fn sides<T: PartialEq + Clone>(g: &mut G, mut f: impl FnMut(&mut G) -> (T, V)) -> (Sides<T>, V) {
    if g.r.chance(1, 3) {
        let (x, v) = f(g);
        let s = if g.r.bool() { Sides::uniform(x) } else { Sides::from_array([x.clone(), x.clone(), x.clone(), x]) };
        return (s, V::Any(vec![v.clone(), V::Arr(vec![v.clone(), v.clone(), v.clone(), v])]));
    }
    let mut x: Vec<(T, V)> = (0..4).map(|_| f(g)).collect();
    if g.r.bool() { // all but one or two equal
        let (i, j) = (g.r.below(4), g.r.below(4));
        for k in 0..4 { if k != i && k != j { x[k] = x[(i + 1) % 4].clone(); } }
    }
    let arr = V::Arr(x.iter().map(|y| y.1.clone()).collect());
    let v = if x.iter().all(|y| y.0 == x[0].0) { V::Any(vec![x[0].1.clone(), arr]) } else { arr };
    let [a, b, c, d]: [T; 4] = std::array::from_fn(|i| x[i].0.clone());
    let s = match g.r.below(3) { 0 => Sides::new(a, b, c, d), 1 => Sides::from_array([a, b, c, d]), _ => Sides { before: a, after: b, start: c, end: d } };
    (s, v)
}
pub mod track_sizes {
    use super::*;
    pub fn write(w: TrackSizes<'_>, g: &mut G) -> V {
        match g.choose("TrackSizes", &["uniform", "individual"]) {
            0 => { let a = g.r.f(); w.uniform(a); a.into() }
            _ => { let v = g.r.floats(5); let mut a = w.individual(); if g.r.bool() { a.items(it(v.iter().copied())); } else { for x in &v { a.item(*x); } } g.end(a); v.into() }
        }
    }
}
ops!(list_attributes, ListAttributes, [("O", nm("List"))], {
    en!(list_numbering, "ListNumbering", LIST_NUMBERING),
    k!(continued_list, "ContinuedList", bool),
    k!(continued_from, "ContinuedFrom", bstr),
});
ops!(field_attributes, FieldAttributes, [("O", nm("PrintField"))], {
    en!(role, "Role", FIELD_ROLE),
    ce!(checked, |w, g, e| {
        let i = g.variant(FIELD_STATE.len() * 2);
        w.checked(FIELD_STATE[i / 2].0, i % 2 == 1);
        e.push((if i % 2 == 1 { b"Checked".to_vec() } else { b"checked".to_vec() }, FIELD_STATE[i / 2].1.ev()));
    }),
    k!(description, "Desc", text),
});
ops!(table_attributes, TableAttributes, [("O", nm("Table"))], {
    k!(row_span, "RowSpan", int),
    k!(col_span, "ColSpan", int),
    cs!(headers, |w, g, e| { if g.enter() {
        let mut a = w.headers();
        let v = g.strs();
        if g.r.bool() { for x in &v { a.item(Str(x)); } } else { a.items(it(v.iter().map(|x| Str(x)))); }
        g.end(a); g.leave();
        put!(e, "Headers", strs_v(&v));
    } }),
    en!(scope, "Scope", TABLE_HEADER_SCOPE),
    k!(summary, "Summary", text),
    k!(short, "Short", text),
});
ops!(artifact_attributes, ArtifactAttributes, [("O", nm("Artifact"))], {
    en!(artifact_type, "Type", ARTIFACT_TYPE),
    k!(bbox, "BBox", rect),
    enc!(subtype, "Subtype", ARTIFACT_SUBTYPE, ArtifactSubtype::Custom),
});
ops!(fe_note_attributes, FENoteAttributes, [("O", nm("FENote"))], {
    en!(note_type, "NoteType", NOTE_TYPE),
});

ops!(property_list_dict, PropertyList, [], {
    k!(identify, "MCID", int),
    k!(actual_text, "ActualText", text),
});
/// A property list, possibly continued as an artifact's.
pub mod property_list {
    use super::*;
    pub fn write(mut w: PropertyList<'_>, g: &mut G) -> V {
        let mut e = E::new();
        property_list_dict::fill(&mut w, g, &mut e);
        if g.choose("PropertyList (continuation)", &["finish", "artifact"]) == 0 { g.end(w); return V::Dict(e); }
        let mut a = w.artifact();
        artifact::fill(&mut a, g, &mut e);
        g.end(a);
        V::Dict(e)
    }
}
ops!(artifact, Artifact, [], {
    en!(kind, "Type", ARTIFACT_TYPE),
    enc!(subtype, "Subtype", ARTIFACT_SUBTYPE, ArtifactSubtype::Custom),
    k!(bounding_box, "BBox", rect),
    ce!(attached, |w, g, e| {
        let n = g.r.len(5);
        let a: Vec<usize> = (0..n).map(|_| g.variant(ARTIFACT_ATTACHMENT.len())).collect();
        w.attached(it(a.iter().map(|&i| ARTIFACT_ATTACHMENT[i].0)));
        put!(e, "Attached", V::Arr(a.iter().map(|&i| ARTIFACT_ATTACHMENT[i].1.ev()).collect()));
    }),
});
