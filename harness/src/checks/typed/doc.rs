//! Document structure writers (C18).
use super::*;
use pdf_writer::types::*;

pub const PAGE_LAYOUT: &[(PageLayout, &str)] = &[(PageLayout::SinglePage, "SinglePage"), (PageLayout::OneColumn, "OneColumn"), (PageLayout::TwoColumnLeft, "TwoColumnLeft"), (PageLayout::TwoColumnRight, "TwoColumnRight"), (PageLayout::TwoPageLeft, "TwoPageLeft"), (PageLayout::TwoPageRight, "TwoPageRight")];
pub const PAGE_MODE: &[(PageMode, &str)] = &[(PageMode::UseNone, "UseNone"), (PageMode::UseOutlines, "UseOutlines"), (PageMode::UseThumbs, "UseThumbs"), (PageMode::FullScreen, "FullScreen"), (PageMode::UseOC, "UseOC"), (PageMode::UseAttachments, "UseAttachments")];
pub const NFS_PAGE_MODE: &[(PageMode, &str)] = &[(PageMode::UseNone, "UseNone"), (PageMode::UseOutlines, "UseOutlines"), (PageMode::UseThumbs, "UseThumbs"), (PageMode::UseOC, "UseOC"), (PageMode::UseAttachments, "UseAttachments")];
pub const DIRECTION: &[(Direction, &str)] = &[(Direction::L2R, "L2R"), (Direction::R2L, "R2L")];
pub const NUMBERING_STYLE: &[(NumberingStyle, &str)] = &[(NumberingStyle::Arabic, "D"), (NumberingStyle::LowerRoman, "r"), (NumberingStyle::UpperRoman, "R"), (NumberingStyle::LowerAlpha, "a"), (NumberingStyle::UpperAlpha, "A")];
pub const TRAPPING_STATUS: &[(TrappingStatus, &str)] = &[(TrappingStatus::Trapped, "True"), (TrappingStatus::NotTrapped, "False"), (TrappingStatus::Unknown, "Unknown")];
pub const TAB_ORDER: &[(TabOrder, &str)] = &[(TabOrder::RowOrder, "R"), (TabOrder::ColumnOrder, "C"), (TabOrder::StructureOrder, "S")];
/// Flag tables give the bit position as ISO 32000 numbers it, from 1.
pub const OUTLINE_ITEM_FLAGS: &[(OutlineItemFlags, u32)] = &[(OutlineItemFlags::ITALIC, 1), (OutlineItemFlags::BOLD, 2)];

ops!(catalog, Catalog, [("Type", nm("Catalog"))], {
    k!(pages, "Pages", rf),
    en!(page_layout, "PageLayout", PAGE_LAYOUT),
    sub!(page_labels, "PageLabels", number_tree_ref),
    en!(page_mode, "PageMode", PAGE_MODE),
    sub!(viewer_preferences, "ViewerPreferences", viewer_preferences),
    sub!(names, "Names", names),
    k!(destinations, "Dests", rf),
    k!(outlines, "Outlines", rf),
    sub!(struct_tree_root, "StructTreeRoot", struct_tree_root),
    sub!(mark_info, "MarkInfo", mark_info),
    k!(lang, "Lang", textstr),
    c!(version, |w, g, e| { let (a, b) = version(g); w.version(a, b); put!(e, "Version", nm(&format!("{a}.{b}"))); }),
    sub!(additional_actions, "AA", additional_actions),
    sub!(form, "AcroForm", form),
    k!(metadata, "Metadata", rf),
    subd!(extensions, "Extensions", developer_extension),
    sub!(separation_info, "SeparationInfo", separation_info),
    suba!(output_intents, "OutputIntents", output_intent),
    suba!(associated_files, "AF", file_spec),
});
pub fn version(g: &mut G) -> (u8, u8) {
    if g.r.bool() { *g.r.pick(&[(1, 4), (1, 7), (2, 0)]) } else { (g.r.u8(), g.r.u8()) }
}
ops!(developer_extension, DeveloperExtension, [("Type", nm("DeveloperExtensions"))], {
    c!(base_version, |w, g, e| { let (a, b) = version(g); w.base_version(a, b); put!(e, "BaseVersion", nm(&format!("{a}.{b}"))); }),
    k!(extension_level, "ExtensionLevel", int),
});
ops!(viewer_preferences, ViewerPreferences, [], {
    k!(hide_toolbar, "HideToolbar", bool),
    k!(hide_menubar, "HideMenubar", bool),
    k!(fit_window, "FitWindow", bool),
    k!(center_window, "CenterWindow", bool),
    k!(display_doc_title, "DisplayDocTitle", bool),
    en!(non_full_screen_page_mode, "NonFullScreenPageMode", NFS_PAGE_MODE),
    en!(direction, "Direction", DIRECTION),
});
ops!(page_label, PageLabel, [("Type", nm("PageLabel"))], {
    en!(style, "S", NUMBERING_STYLE),
    k!(prefix, "P", text),
    k!(offset, "St", int),
});
ops!(document_info, DocumentInfo, [], {
    k!(title, "Title", text),
    k!(author, "Author", text),
    k!(subject, "Subject", text),
    k!(keywords, "Keywords", text),
    k!(creator, "Creator", text),
    k!(producer, "Producer", text),
    k!(creation_date, "CreationDate", date),
    k!(modified_date, "ModDate", date),
    en!(trapped, "Trapped", TRAPPING_STATUS),
});
ops!(pages, Pages, [("Type", nm("Pages"))], {
    k!(parent, "Parent", rf),
    k!(kids, "Kids", refs),
    k!(count, "Count", int),
    k!(media_box, "MediaBox", rect),
    sub!(resources, "Resources", resources),
});
ops!(page, Page, [("Type", nm("Page"))], {
    k!(parent, "Parent", rf),
    k!(last_modified, "LastModified", date),
    k!(media_box, "MediaBox", rect),
    k!(crop_box, "CropBox", rect),
    k!(bleed_box, "BleedBox", rect),
    k!(trim_box, "TrimBox", rect),
    k!(art_box, "ArtBox", rect),
    sub!(resources, "Resources", resources),
    k!(contents, "Contents", rf),
    k!(contents_array, "Contents", refs),
    k!(rotate, "Rotate", int),
    sub!(group, "Group", group),
    k!(thumbnail, "Thumb", rf),
    k!(duration, "Dur", f),
    sub!(transition, "Trans", transition),
    k!(annotations, "Annots", refs),
    k!(struct_parents, "StructParents", int),
    en!(tab_order, "Tabs", TAB_ORDER),
    k!(user_unit, "UserUnit", f),
    sub!(additional_actions, "AA", additional_actions),
    k!(metadata, "Metadata", rf),
    suba!(associated_files, "AF", file_spec),
});
ops!(outline, Outline, [("Type", nm("Outlines"))], {
    k!(first, "First", rf),
    k!(last, "Last", rf),
    c!(count, |w, g, e| { let a = g.r.int().max(0); w.count(a); put!(e, "Count", a.into()); }),
});
ops!(outline_item, OutlineItem, [], {
    k!(title, "Title", text),
    k!(parent, "Parent", rf),
    k!(prev, "Prev", rf),
    k!(next, "Next", rf),
    k!(first, "First", rf),
    k!(last, "Last", rf),
    k!(count, "Count", int),
    sub!(dest, "Dest", destination),
    k!(dest_name, "Dest", name),
    k!(color_rgb, "C", rgb),
    fl!(flags, "F", OutlineItemFlags, OUTLINE_ITEM_FLAGS),
});
ops!(names, Names, [], {
    sub!(destinations, "Dests", name_tree_ref),
    sub!(appearances, "AP", name_tree_ref),
    sub!(javascript, "JavaScript", name_tree_ref),
    sub!(pages, "Pages", name_tree_ref),
    sub!(templates, "Templates", name_tree_ref),
    sub!(capture_ids, "IDS", name_tree_ref),
    sub!(capture_urls, "URLS", name_tree_ref),
    sub!(embedded_files, "EmbeddedFiles", name_tree_ref),
    sub!(alternate_presentations, "AlternatePresentations", name_tree_ref),
    sub!(renditions, "Renditions", name_tree_ref),
});
ops!(metadata, Metadata, [("Type", nm("Metadata")), ("Subtype", nm("XML"))], {
    c!(filter, |w, g, e| { let i = g.r.below(graphics::FILTER.len()); w.filter(graphics::FILTER[i].0); put!(e, "Filter", graphics::FILTER[i].1.ev()); }),
});

pub mod destination {
    use super::*;
    pub fn write(w: Destination<'_>, g: &mut G) -> V {
        let mut w = w;
        let mut v: Vec<V> = vec![];
        // A target page: an object, or (for remote destinations) a page index written by hand.
        if g.r.chance(3, 4) { let p = g.r.rf(); w = w.page(p); v.push(p.into()); } else { let p = g.r.int(); w.item(p); v.push(p.into()); }
        let r = match g.choose("Destination", &["xyz", "fit", "fit_horizontal", "fit_vertical", "fit_rect", "fit_bounding_box", "fit_bounding_box_horizontal", "fit_bounding_box_vertical"]) {
            0 => {
                let (l, t) = (g.r.f(), g.r.f());
                let z = g.opt(|g| g.r.f());
                w.xyz(l, t, z);
                // No zoom is written as 0, which means "unchanged" (ISO 32000 Table 149).
                let z = match z { Some(z) => z.into(), None => V::Any(vec![V::Int(0), V::Null]) };
                vec![nm("XYZ"), l.into(), t.into(), z]
            }
            1 => { w.fit(); vec![nm("Fit")] }
            2 => { let a = g.r.f(); w.fit_horizontal(a); vec![nm("FitH"), a.into()] }
            3 => { let a = g.r.f(); w.fit_vertical(a); vec![nm("FitV"), a.into()] }
            4 => { let a = g.r.rect(); w.fit_rect(a); vec![nm("FitR"), a.x1.into(), a.y1.into(), a.x2.into(), a.y2.into()] }
            5 => { w.fit_bounding_box(); vec![nm("FitB")] }
            6 => { let a = g.r.f(); w.fit_bounding_box_horizontal(a); vec![nm("FitBH"), a.into()] }
            _ => { let a = g.r.f(); w.fit_bounding_box_vertical(a); vec![nm("FitBV"), a.into()] }
        };
        v.extend(r);
        V::Arr(v)
    }
}
/// The named destination dictionary.
pub mod destinations {
    use super::*;
    pub fn write<'a>(mut w: TypedDict<'a, Destination<'a>>, g: &mut G) -> V {
        let n = g.r.len(5);
        let v = (0..n).map(|_| { let k = g.r.name(); let d = destination::write(w.insert(Name(&k)), g); (k, d) }).collect();
        g.end(w);
        V::Dict(v)
    }
}

/// Primitive kinds a tree may be typed with.
pub trait TreeVal: Primitive + Sized { fn gen(r: &mut Rng) -> (Self, V); }
impl TreeVal for Ref { fn gen(r: &mut Rng) -> (Self, V) { let a = r.rf(); (a, a.into()) } }
impl TreeVal for i32 { fn gen(r: &mut Rng) -> (Self, V) { let a = r.int(); (a, a.into()) } }
impl TreeVal for bool { fn gen(r: &mut Rng) -> (Self, V) { let a = r.bool(); (a, a.into()) } }
impl TreeVal for f32 { fn gen(r: &mut Rng) -> (Self, V) { let a = r.f(); (a, a.into()) } }
impl TreeVal for Rect { fn gen(r: &mut Rng) -> (Self, V) { let a = r.rect(); (a, a.into()) } }
impl TreeVal for Null { fn gen(_: &mut Rng) -> (Self, V) { (Null, V::Null) } }
impl TreeVal for Date { fn gen(r: &mut Rng) -> (Self, V) { let (a, b) = r.date(); (a, V::Str(b)) } }
impl TreeVal for Name<'static> { fn gen(r: &mut Rng) -> (Self, V) { let a = r.fixed(HOSTILE_NAMES); (Name(a), nmb(a)) } }
impl TreeVal for Str<'static> { fn gen(r: &mut Rng) -> (Self, V) { let a = r.fixed(HOSTILE_STRINGS); (Str(a), st(a)) } }

pub fn name_tree<T: TreeVal>(mut w: NameTree<'_, T>, g: &mut G) -> V {
    let mut e = E::new();
    for _ in 0..g.r.len(4) {
        match g.choose("NameTree", &["kids", "names", "limits"]) {
            0 => {
                let a = g.refs();
                let mut k = w.kids();
                if g.r.bool() { k.items(it(a.iter().copied())); } else { for x in &a { k.item(*x); } }
                g.end(k);
                put!(e, "Kids", a.into());
            }
            1 => {
                let mut v = vec![];
                let mut n = w.names();
                for _ in 0..g.r.len(5) {
                    let k = g.r.bytes();
                    let (x, y) = T::gen(g.r);
                    n.insert(Str(&k), x);
                    v.push(st(&k));
                    v.push(y);
                }
                g.end(n);
                put!(e, "Names", V::Arr(v));
            }
            _ => {
                let (a, b) = (g.r.name(), g.r.name());
                w.limits(Name(&a), Name(&b));
                put!(e, "Limits", V::Arr(vec![st(&a), st(&b)]));
            }
        }
    }
    g.end(w);
    V::Dict(e)
}
pub fn number_tree<T: TreeVal>(mut w: NumberTree<'_, T>, g: &mut G) -> V {
    let mut e = E::new();
    for _ in 0..g.r.len(4) {
        match g.choose("NumberTree", &["kids", "nums", "limits"]) {
            0 => {
                let a = g.refs();
                let mut k = w.kids();
                if g.r.bool() { k.items(it(a.iter().copied())); } else { for x in &a { k.item(*x); } }
                g.end(k);
                put!(e, "Kids", a.into());
            }
            1 => {
                let mut v = vec![];
                let mut n = w.nums();
                for _ in 0..g.r.len(5) {
                    let k = g.r.int();
                    let (x, y) = T::gen(g.r);
                    n.insert(k, x);
                    v.push(k.into());
                    v.push(y);
                }
                g.end(n);
                put!(e, "Nums", V::Arr(v));
            }
            _ => { let (a, b) = (g.r.int(), g.r.int()); w.limits(a, b); put!(e, "Limits", [a, b].into()); }
        }
    }
    g.end(w);
    V::Dict(e)
}
pub mod name_tree_ref {
    use super::*;
    pub fn write(w: NameTree<'_, Ref>, g: &mut G) -> V { name_tree(w, g) }
}
pub mod number_tree_ref {
    use super::*;
    pub fn write(w: NumberTree<'_, Ref>, g: &mut G) -> V { number_tree(w, g) }
}
pub fn any_name_tree(c: &mut Chunk, id: Ref, g: &mut G) -> V {
    match g.r.below(9) {
        0 => name_tree::<Ref>(c.name_tree(id), g),
        1 => name_tree::<i32>(c.name_tree(id), g),
        2 => name_tree::<bool>(c.name_tree(id), g),
        3 => name_tree::<f32>(c.name_tree(id), g),
        4 => name_tree::<Rect>(c.name_tree(id), g),
        5 => name_tree::<Null>(c.name_tree(id), g),
        6 => name_tree::<Date>(c.name_tree(id), g),
        7 => name_tree::<Name<'static>>(c.name_tree(id), g),
        _ => name_tree::<Str<'static>>(c.name_tree(id), g),
    }
}
pub fn any_number_tree(c: &mut Chunk, id: Ref, g: &mut G) -> V {
    match g.r.below(9) {
        0 => number_tree::<Ref>(c.number_tree(id), g),
        1 => number_tree::<i32>(c.number_tree(id), g),
        2 => number_tree::<bool>(c.number_tree(id), g),
        3 => number_tree::<f32>(c.number_tree(id), g),
        4 => number_tree::<Rect>(c.number_tree(id), g),
        5 => number_tree::<Null>(c.number_tree(id), g),
        6 => number_tree::<Date>(c.number_tree(id), g),
        7 => number_tree::<Name<'static>>(c.number_tree(id), g),
        _ => number_tree::<Str<'static>>(c.number_tree(id), g),
    }
}
