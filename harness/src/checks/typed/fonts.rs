//! Font writers (C20).
use super::*;
use pdf_writer::types::*;

pub const FONT_FLAGS: &[(FontFlags, u32)] = &[(FontFlags::FIXED_PITCH, 1), (FontFlags::SERIF, 2), (FontFlags::SYMBOLIC, 3), (FontFlags::SCRIPT, 4), (FontFlags::NON_SYMBOLIC, 6), (FontFlags::ITALIC, 7), (FontFlags::ALL_CAP, 17), (FontFlags::SMALL_CAP, 18), (FontFlags::FORCE_BOLD, 19)];
// font
pub const CID_FONT_TYPE: &[(CidFontType, &str)] = &[(CidFontType::Type0, "CIDFontType0"), (CidFontType::Type2, "CIDFontType2")];
pub const CJK_CLASS: &[(CjkClass, &str)] = &[(CjkClass::Alphabetic, "Alphabetic"), (CjkClass::AlphaNum, "AlphaNum"), (CjkClass::Dingbats, "Dingbats"), (CjkClass::DingbatsRot, "DingbatsRot"), (CjkClass::Generic, "Generic"), (CjkClass::GenericRot, "GenericRot"), (CjkClass::Hangul, "Hangul"), (CjkClass::Hanja, "Hanja"), (CjkClass::Hanzi, "Hanzi"), (CjkClass::HRoman, "HRoman"), (CjkClass::HRomanRot, "HRomanRot"), (CjkClass::HKana, "HKana"), (CjkClass::HKanaRot, "HKanaRot"), (CjkClass::HojoKanji, "HojoKanji"), (CjkClass::Kana, "Kana"), (CjkClass::Kanji, "Kanji"), (CjkClass::Proportional, "Proportional"), (CjkClass::ProportionalRot, "ProportionalRot"), (CjkClass::Ruby, "Ruby")];
pub const FONT_STRETCH: &[(FontStretch, &str)] = &[(FontStretch::UltraCondensed, "UltraCondensed"), (FontStretch::ExtraCondensed, "ExtraCondensed"), (FontStretch::Condensed, "Condensed"), (FontStretch::SemiCondensed, "SemiCondensed"), (FontStretch::Normal, "Normal"), (FontStretch::SemiExpanded, "SemiExpanded"), (FontStretch::Expanded, "Expanded"), (FontStretch::ExtraExpanded, "ExtraExpanded"), (FontStretch::UltraExpanded, "UltraExpanded")];
pub const W_MODE: &[(WMode, i32)] = &[(WMode::Horizontal, 0), (WMode::Vertical, 1)];
ops!(type1_font, Type1Font, [("Type", nm("Font")), ("Subtype", nm("Type1"))], {
    k!(name, "Name", name),
    k!(base_font, "BaseFont", name),
    k!(first_char, "FirstChar", u8v),
    k!(last_char, "LastChar", u8v),
    k!(widths, "Widths", floats),
    k!(font_descriptor, "FontDescriptor", rf),
    k!(encoding_predefined, "Encoding", name),
    sub!(encoding_custom, "Encoding", encoding),
    k!(to_unicode, "ToUnicode", rf),
});
ops!(type3_font, Type3Font, [("Type", nm("Font")), ("Subtype", nm("Type3"))], {
    k!(name, "Name", name),
    k!(bbox, "FontBBox", rect),
    k!(matrix, "FontMatrix", f6),
    subdp!(char_procs, "CharProcs", |g| g.r.rf()),
    k!(encoding_predefined, "Encoding", name),
    sub!(encoding_custom, "Encoding", encoding),
    k!(first_char, "FirstChar", u8v),
    k!(last_char, "LastChar", u8v),
    k!(widths, "Widths", floats),
    k!(font_descriptor, "FontDescriptor", rf),
    sub!(resources, "Resources", resources),
    k!(to_unicode, "ToUnicode", rf),
});
ops!(encoding, Encoding, [("Type", nm("Encoding"))], {
    k!(base_encoding, "BaseEncoding", name),
    sub!(differences, "Differences", differences),
});
seq!(differences, Differences, {
    c!(consecutive, |w, g, e| {
        let s = g.r.u8();
        let a = g.names();
        w.consecutive(s, it(a.iter().map(|x| Name(x))));
        e.push((vec![], V::Int(s as i64)));
        e.extend(a.into_iter().map(|x| (vec![], V::Name(x))));
    }),
});
ops!(type0_font, Type0Font, [("Type", nm("Font")), ("Subtype", nm("Type0"))], {
    k!(base_font, "BaseFont", name),
    k!(encoding_predefined, "Encoding", name),
    k!(encoding_cmap, "Encoding", rf),
    c!(descendant_font, |w, g, e| { let a = g.r.rf(); w.descendant_font(a); put!(e, "DescendantFonts", V::Arr(vec![a.into()])); }),
    k!(to_unicode, "ToUnicode", rf),
});
ops!(cid_font, CidFont, [("Type", nm("Font"))], {
    en!(subtype, "Subtype", CID_FONT_TYPE),
    k!(base_font, "BaseFont", name),
    c!(system_info, |w, g, e| {
        let (a, b, s) = (g.r.bytes(), g.r.bytes(), g.r.int());
        w.system_info(SystemInfo { registry: Str(&a), ordering: Str(&b), supplement: s });
        put!(e, "CIDSystemInfo", V::Dict(vec![(b"Registry".to_vec(), V::Str(a)), (b"Ordering".to_vec(), V::Str(b)), (b"Supplement".to_vec(), s.into())]));
    }),
    k!(font_descriptor, "FontDescriptor", rf),
    k!(default_width, "DW", f),
    sub!(widths, "W", widths),
    k!(cid_to_gid_map_predefined, "CIDToGIDMap", name),
    k!(cid_to_gid_map_stream, "CIDToGIDMap", rf),
});
seq!(widths, Widths, {
    c!(consecutive, |w, g, e| {
        let s = g.r.u16();
        let a = g.r.floats(5);
        w.consecutive(s, it(a.iter().copied()));
        e.push((vec![], V::Int(s as i64)));
        e.push((vec![], a.into()));
    }),
    c!(same, |w, g, e| {
        let (a, b, x) = (g.r.u16(), g.r.u16(), g.r.f());
        w.same(a, b, x);
        e.extend([V::Int(a as i64), V::Int(b as i64), x.into()].map(|v| (vec![], v)));
    }),
});
ops!(font_descriptor, FontDescriptor, [("Type", nm("FontDescriptor"))], {
    k!(name, "FontName", name),
    k!(family, "FontFamily", bstr),
    en!(stretch, "FontStretch", FONT_STRETCH),
    k!(weight, "FontWeight", u16v),
    fl!(flags, "Flags", FontFlags, FONT_FLAGS),
    k!(bbox, "FontBBox", rect),
    k!(italic_angle, "ItalicAngle", f),
    k!(ascent, "Ascent", f),
    k!(descent, "Descent", f),
    k!(leading, "Leading", f),
    k!(cap_height, "CapHeight", f),
    k!(x_height, "XHeight", f),
    k!(stem_v, "StemV", f),
    k!(stem_h, "StemH", f),
    k!(avg_width, "AvgWidth", f),
    k!(max_width, "MaxWidth", f),
    k!(missing_width, "MissingWidth", f),
    k!(font_file, "FontFile", rf),
    k!(font_file2, "FontFile2", rf),
    k!(font_file3, "FontFile3", rf),
    k!(char_set, "CharSet", bstr),
    c!(style, |w, g, e| {
        let (c, s) = (g.r.u8(), g.r.u8());
        let p: [u8; 10] = std::array::from_fn(|_| g.r.u8());
        w.style(c, s, p);
        let mut b = vec![c, s];
        b.extend(p);
        put!(e, "Style", V::Dict(vec![(b"Panose".to_vec(), V::Str(b))]));
    }),
    sub!(descriptor_override, "FD", font_descriptor_override),
    k!(cid_set, "CIDSet", rf),
});
pub mod font_descriptor_override {
    use super::*;
    pub fn write(mut w: FontDescriptorOverride<'_>, g: &mut G) -> V {
        let mut e = E::new();
        for _ in 0..g.r.len(4) {
            match g.choose("FontDescriptorOverride", &["custom_class", "custom_class_ref", "cjk_class", "cjk_class_ref"]) {
                0 => { let k = g.r.name(); if g.enter() { let v = font_descriptor::write(w.custom_class(Name(&k)), g); g.leave(); e.push((k, v)); } }
                1 => { let k = g.r.name(); let a = g.r.rf(); w.custom_class_ref(Name(&k), a); e.push((k, a.into())); }
                2 => { let i = g.variant(CJK_CLASS.len()); if g.enter() { let v = font_descriptor::write(w.cjk_class(CJK_CLASS[i].0), g); g.leave(); e.push((CJK_CLASS[i].1.as_bytes().to_vec(), v)); } }
                _ => { let i = g.variant(CJK_CLASS.len()); let a = g.r.rf(); w.cjk_class_ref(CJK_CLASS[i].0, a); e.push((CJK_CLASS[i].1.as_bytes().to_vec(), a.into())); }
            }
        }
        g.end(w);
        V::Dict(e)
    }
}
ops!(cmap, Cmap, [("Type", nm("CMap"))], {
    k!(name, "CMapName", name),
    c!(system_info, |w, g, e| {
        let (a, b, s) = (g.r.bytes(), g.r.bytes(), g.r.int());
        w.system_info(SystemInfo { registry: Str(&a), ordering: Str(&b), supplement: s });
        put!(e, "CIDSystemInfo", V::Dict(vec![(b"Registry".to_vec(), V::Str(a)), (b"Ordering".to_vec(), V::Str(b)), (b"Supplement".to_vec(), s.into())]));
    }),
    en!(writing_mode, "WMode", W_MODE),
    k!(use_cmap_stream, "UseCMap", rf),
    k!(use_cmap_predefined, "UseCMap", name),
});
