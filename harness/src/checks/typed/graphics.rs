//! Graphics writers (C21).
use super::*;
use pdf_writer::types::*;
pub const LINE_CAP_STYLE: &[(LineCapStyle, i32)] = &[(LineCapStyle::ButtCap, 0), (LineCapStyle::RoundCap, 1), (LineCapStyle::ProjectingSquareCap, 2)];
pub const LINE_JOIN_STYLE: &[(LineJoinStyle, i32)] = &[(LineJoinStyle::MiterJoin, 0), (LineJoinStyle::RoundJoin, 1), (LineJoinStyle::BevelJoin, 2)];
pub const RENDERING_INTENT: &[(RenderingIntent, &str)] = &[(RenderingIntent::AbsoluteColorimetric, "AbsoluteColorimetric"), (RenderingIntent::RelativeColorimetric, "RelativeColorimetric"), (RenderingIntent::Saturation, "Saturation"), (RenderingIntent::Perceptual, "Perceptual")];
pub const TEXT_RENDERING_MODE: &[(TextRenderingMode, i32)] = &[(TextRenderingMode::Fill, 0), (TextRenderingMode::Stroke, 1), (TextRenderingMode::FillStroke, 2), (TextRenderingMode::Invisible, 3), (TextRenderingMode::FillClip, 4), (TextRenderingMode::StrokeClip, 5), (TextRenderingMode::FillStrokeClip, 6), (TextRenderingMode::Clip, 7)];
pub const PROC_SET: &[(ProcSet, &str)] = &[(ProcSet::Pdf, "PDF"), (ProcSet::Text, "Text"), (ProcSet::ImageGrayscale, "ImageB"), (ProcSet::ImageColor, "ImageC"), (ProcSet::ImageIndexed, "ImageI")];
pub const BLEND_MODE: &[(BlendMode, &str)] = &[(BlendMode::Normal, "Normal"), (BlendMode::Multiply, "Multiply"), (BlendMode::Screen, "Screen"), (BlendMode::Overlay, "Overlay"), (BlendMode::Darken, "Darken"), (BlendMode::Lighten, "Lighten"), (BlendMode::ColorDodge, "ColorDodge"), (BlendMode::ColorBurn, "ColorBurn"), (BlendMode::HardLight, "HardLight"), (BlendMode::SoftLight, "SoftLight"), (BlendMode::Difference, "Difference"), (BlendMode::Exclusion, "Exclusion"), (BlendMode::Hue, "Hue"), (BlendMode::Saturation, "Saturation"), (BlendMode::Color, "Color"), (BlendMode::Luminosity, "Luminosity")];
pub const OVERPRINT_MODE: &[(OverprintMode, i32)] = &[(OverprintMode::OverrideAllColorants, 0), (OverprintMode::IgnoreZeroChannel, 1)];
pub const MASK_TYPE: &[(MaskType, &str)] = &[(MaskType::Alpha, "Alpha"), (MaskType::Luminosity, "Luminosity")];
ops!(resources, Resources, [], {
    subraw!(x_objects, "XObject"),
    subraw!(fonts, "Font"),
    subraw!(color_spaces, "ColorSpace"),
    subraw!(patterns, "Pattern"),
    subraw!(shadings, "Shading"),
    subraw!(ext_g_states, "ExtGState"),
    ce!(proc_sets, |w, g, e| {
        let n = g.r.len(6);
        let a: Vec<usize> = (0..n).map(|_| g.variant(PROC_SET.len())).collect();
        w.proc_sets(it(a.iter().map(|&i| PROC_SET[i].0)));
        put!(e, "ProcSet", V::Arr(a.iter().map(|&i| PROC_SET[i].1.ev()).collect()));
    }),
    k!(proc_sets_all, "ProcSet", = V::Arr(["PDF", "Text", "ImageB", "ImageC", "ImageI"].iter().map(|x| nm(x)).collect())),
    subd!(properties, "Properties", property_list),
});
ops!(ext_graphics_state, ExtGraphicsState, [("Type", nm("ExtGState"))], {
    k!(line_width, "LW", f),
    en!(line_cap, "LC", LINE_CAP_STYLE),
    en!(line_join, "LJ", LINE_JOIN_STYLE),
    k!(miter_limit, "ML", f),
    c!(dash_pattern, |w, g, e| { let (a, p) = (g.r.floats(5), g.r.f()); w.dash_pattern(it(a.iter().copied()), p); put!(e, "D", V::Arr(vec![a.into(), p.into()])); }),
    en!(rendering_intent, "RI", RENDERING_INTENT),
    k!(overprint, "OP", bool),
    k!(overprint_fill, "op", bool),
    en!(overprint_mode, "OPM", OVERPRINT_MODE),
    c!(font, |w, g, e| { let (a, s) = (g.r.name(), g.r.f()); w.font(Name(&a), s); put!(e, "Font", V::Arr(vec![V::Name(a), s.into()])); }),
    k!(black_generation, "BG", rf),
    k!(black_generation_default, "BG2", = nm("Default")),
    k!(undercolor_removal, "UCR", rf),
    k!(undercolor_removal_default, "UCR2", = nm("Default")),
    k!(transfer, "TR", rf),
    k!(transfer_default, "TR2", = nm("Default")),
    k!(halftone, "HT", rf),
    k!(halftone_default, "HT", = nm("Default")),
    k!(flatness, "FL", f),
    k!(smoothness, "SM", f),
    k!(stroke_adjustment, "SA", bool),
    en!(blend_mode, "BM", BLEND_MODE),
    sub!(soft_mask, "SMask", soft_mask),
    k!(soft_mask_name, "SMask", name),
    k!(stroking_alpha, "CA", f),
    k!(non_stroking_alpha, "ca", f),
    k!(alpha_source, "AIS", bool),
    k!(text_knockout, "TK", bool),
});
ops!(soft_mask, SoftMask, [("Type", nm("Mask"))], {
    en!(subtype, "S", MASK_TYPE),
    k!(group, "G", rf),
    k!(backdrop, "BC", floats),
    k!(transfer_function, "TR", rf),
});
pub const TRANSITION_ANGLE: &[(TransitionAngle, i32)] = &[(TransitionAngle::LeftToRight, 0), (TransitionAngle::BottomToTop, 90), (TransitionAngle::RightToLeft, 180), (TransitionAngle::TopToBottom, 270), (TransitionAngle::TopLeftToBottomRight, 315)];
// transitions
pub const TRANSITION_STYLE: &[(TransitionStyle, &str)] = &[(TransitionStyle::Split, "Split"), (TransitionStyle::Blinds, "Blinds"), (TransitionStyle::Box, "Box"), (TransitionStyle::Wipe, "Wipe"), (TransitionStyle::Dissolve, "Dissolve"), (TransitionStyle::Glitter, "Glitter"), (TransitionStyle::R, "R"), (TransitionStyle::Fly, "Fly"), (TransitionStyle::Push, "Push"), (TransitionStyle::Cover, "Cover"), (TransitionStyle::Uncover, "Uncover"), (TransitionStyle::Fade, "Fade")];
ops!(transition, Transition, [("Type", nm("Trans"))], {
    en!(style, "S", TRANSITION_STYLE),
    k!(duration, "D", f),
    c!(dimension, |w, g, e| { let a = g.r.bool(); w.dimension(a); put!(e, "Dm", nm(if a { "V" } else { "H" })); }),
    c!(direction, |w, g, e| { let a = g.r.bool(); w.direction(a); put!(e, "M", nm(if a { "O" } else { "I" })); }),
    ce!(angle, |w, g, e| {
        let i = g.variant(TRANSITION_ANGLE.len() + 1);
        if i < TRANSITION_ANGLE.len() { w.angle(TRANSITION_ANGLE[i].0); put!(e, "Di", TRANSITION_ANGLE[i].1.ev()); }
        else { w.angle(TransitionAngle::None); put!(e, "Di", nm("None")); }
    }),
    k!(scale, "SS", f),
    k!(opaque, "B", f),
});
// xobject
pub const S_MASK_IN_DATA: &[(SMaskInData, i32)] = &[(SMaskInData::Ignore, 0), (SMaskInData::Use, 1), (SMaskInData::Preblended, 2)];
ops!(image_xobject, ImageXObject, [("Type", nm("XObject")), ("Subtype", nm("Image"))], {
    k!(width, "Width", int),
    k!(height, "Height", int),
    sub!(color_space, "ColorSpace", color_space),
    k!(color_space_name, "ColorSpace", name),
    k!(bits_per_component, "BitsPerComponent", int),
    en!(intent, "Intent", RENDERING_INTENT),
    k!(image_mask, "ImageMask", bool),
    k!(color_mask, "Mask", ints),
    k!(stencil_mask, "Mask", rf),
    k!(decode, "Decode", floats),
    k!(interpolate, "Interpolate", bool),
    k!(alternates, "Alternates", refs),
    k!(s_mask, "SMask", rf),
    en!(s_mask_in_data, "SMaskInData", S_MASK_IN_DATA),
    k!(struct_parent, "StructParent", int),
    k!(matte, "Matte", floats),
    k!(metadata, "Metadata", rf),
    suba!(associated_files, "AF", file_spec),
});
ops!(form_xobject, FormXObject, [("Type", nm("XObject")), ("Subtype", nm("Form"))], {
    k!(bbox, "BBox", rect),
    k!(matrix, "Matrix", f6),
    sub!(resources, "Resources", resources),
    sub!(group, "Group", group),
    k!(struct_parent, "StructParent", int),
    k!(struct_parents, "StructParents", int),
    sub!(reference, "Ref", reference),
    k!(metadata, "Metadata", rf),
    k!(last_modified, "LastModified", date),
    suba!(associated_files, "AF", file_spec),
});
ops!(group, Group, [("Type", nm("Group"))], {
    k!(transparency, "S", = nm("Transparency")),
    sub!(color_space, "CS", color_space),
    k!(isolated, "I", bool),
    k!(knockout, "K", bool),
});
ops!(reference, Reference, [], {
    sub!(file_spec, "F", file_spec),
    k!(page_number, "Page", int),
    k!(page_label, "Page", text),
    c!(id, |w, g, e| { let (a, b) = (g.r.bytes(), g.r.bytes()); w.id([Str(&a), Str(&b)]); put!(e, "ID", V::Arr(vec![V::Str(a), V::Str(b)])); }),
});
// functions
pub const INTERPOLATION_ORDER: &[(InterpolationOrder, i32)] = &[(InterpolationOrder::Linear, 1), (InterpolationOrder::Cubic, 3)];
ops!(sampled_function, SampledFunction, [("FunctionType", V::Int(0))], {
    k!(domain, "Domain", floats),
    k!(range, "Range", floats),
    k!(size, "Size", ints),
    k!(bits_per_sample, "BitsPerSample", int),
    en!(order, "Order", INTERPOLATION_ORDER),
    k!(encode, "Encode", floats),
    k!(decode, "Decode", floats),
});
ops!(exponential_function, ExponentialFunction, [("FunctionType", V::Int(2))], {
    k!(domain, "Domain", floats),
    k!(range, "Range", floats),
    k!(c0, "C0", floats),
    k!(c1, "C1", floats),
    k!(n, "N", f),
});
ops!(stitching_function, StitchingFunction, [("FunctionType", V::Int(3))], {
    k!(domain, "Domain", floats),
    k!(range, "Range", floats),
    k!(functions, "Functions", refs),
    k!(bounds, "Bounds", floats),
    k!(encode, "Encode", floats),
});
ops!(post_script_function, PostScriptFunction, [("FunctionType", V::Int(4))], {
    k!(domain, "Domain", floats),
    k!(range, "Range", floats),
});
// color
pub const DEVICE_N_SUBTYPE: &[(DeviceNSubtype, &str)] = &[(DeviceNSubtype::DeviceN, "DeviceN"), (DeviceNSubtype::NChannel, "NChannel")];
pub const PAINT_TYPE: &[(PaintType, i32)] = &[(PaintType::Colored, 1), (PaintType::Uncolored, 2)];
pub const TILING_TYPE: &[(TilingType, i32)] = &[(TilingType::ConstantSpacing, 1), (TilingType::NoDistortion, 2), (TilingType::FastConstantSpacing, 3)];
pub const FUNCTION_SHADING_TYPE: &[(FunctionShadingType, i32)] = &[(FunctionShadingType::Function, 1), (FunctionShadingType::Axial, 2), (FunctionShadingType::Radial, 3)];
pub const STREAM_SHADING_TYPE: &[(StreamShadingType, i32)] = &[(StreamShadingType::FreeformGouraud, 4), (StreamShadingType::LatticeGouraud, 5), (StreamShadingType::CoonsPatch, 6), (StreamShadingType::TensorProductPatch, 7)];
pub const OUTPUT_INTENT_SUBTYPE: &[(OutputIntentSubtype<'static>, &str)] = &[(OutputIntentSubtype::PDFX, "GTS_PDFX"), (OutputIntentSubtype::PDFA, "GTS_PDFA1"), (OutputIntentSubtype::PDFE, "ISO_PDFE1")];

const D65: [f32; 3] = [0.9505, 1.0, 1.0888];
const D50: [f32; 3] = [0.9642, 1.0, 0.82489];
const EQ: [f32; 3] = [1.0, 1.0, 1.0];
const CC: [f32; 3] = [0.9807, 1.0, 1.1822];
/// (white point, gamma, matrix) of the predefined RGB spaces.
type Rgb = ([f32; 3], f32, [f32; 9]);
const SRGB: Rgb = (D65, 2.2, [0.4124, 0.2126, 0.0193, 0.3576, 0.715, 0.1192, 0.1805, 0.0722, 0.9505]);
const ADOBE: Rgb = (D65, 2.1992188, [0.57667, 0.29734, 0.02703, 0.18556, 0.62736, 0.07069, 0.18823, 0.07529, 0.99134]);
const P3: Rgb = (D65, 2.6, [0.48657, 0.2297, 0.0, 0.26567, 0.69174, 0.04511, 0.19822, 0.07929, 1.04394]);
const PROPHOTO: Rgb = (D50, 1.8, [0.7976749, 0.2880402, 0.0, 0.1351917, 0.7118741, 0.0, 0.0313534, 0.0000857, 0.82521]);
const ECI: Rgb = (D50, 1.8, [0.6502043, 0.3202499, 0.0, 0.1780774, 0.6020711, 0.0678390, 0.1359384, 0.0776791, 0.757371]);
const NTSC: Rgb = (CC, 2.2, [0.6068909, 0.2989164, 0.0, 0.1735011, 0.586599, 0.0660957, 0.200348, 0.1144845, 1.1162243]);
const PAL: Rgb = (D65, 2.2, [0.430619, 0.2220379, 0.0201853, 0.3415419, 0.7066384, 0.1295504, 0.1783091, 0.0713236, 0.9390944]);

fn cal_rgb(wp: [f32; 3], bp: Option<[f32; 3]>, gamma: Option<[f32; 3]>, m: Option<[f32; 9]>) -> V {
    let mut d: E = vec![(b"WhitePoint".to_vec(), wp.into())];
    if let Some(x) = bp { put!(d, "BlackPoint", x.into()); }
    if let Some(x) = gamma { put!(d, "Gamma", x.into()); }
    if let Some(x) = m { put!(d, "Matrix", x.into()); }
    V::Arr(vec![nm("CalRGB"), V::Dict(d)])
}
fn cal_gray(wp: [f32; 3], bp: Option<[f32; 3]>, gamma: Option<f32>) -> V {
    let mut d: E = vec![(b"WhitePoint".to_vec(), wp.into())];
    if let Some(x) = bp { put!(d, "BlackPoint", x.into()); }
    if let Some(x) = gamma { put!(d, "Gamma", x.into()); }
    V::Arr(vec![nm("CalGray"), V::Dict(d)])
}
pub mod color_space {
    use super::*;
    pub const OPS: &[&str] = &["cal_rgb", "cal_gray", "lab", "icc_based", "srgb", "adobe_rgb", "display_p3", "pro_photo", "eci_rgb", "ntsc", "pal", "d65_gray", "d50_gray", "c_gray", "e_gray",
        "device_rgb", "device_cmyk", "device_gray", "separation", "device_n", "indexed", "pattern"];
    pub fn write(w: ColorSpace<'_>, g: &mut G) -> V {
        let rgb = |(wp, gm, m): Rgb| cal_rgb(wp, None, Some([gm; 3]), Some(m));
        let n = if g.budget == 0 || g.depth >= 5 { [0, 1, 2, 3, 4, 11, 15, 16, 17, 20, 21][g.r.below(11)] } else { usize::MAX };
        let n = if n == usize::MAX { g.choose("ColorSpace", OPS) } else { n };
        match n {
            0 => { let (a, b, c, d) = (g.f3(), g.opt(G::f3), g.opt(G::f3), g.opt(G::f9)); w.cal_rgb(a, b, c, d); cal_rgb(a, b, c, d) }
            1 => { let (a, b, c) = (g.f3(), g.opt(G::f3), g.opt(|g| g.r.f())); w.cal_gray(a, b, c); cal_gray(a, b, c) }
            2 => {
                let (a, b, c) = (g.f3(), g.opt(G::f3), g.opt(G::f4));
                w.lab(a, b, c);
                let mut d: E = vec![(b"WhitePoint".to_vec(), a.into())];
                if let Some(x) = b { put!(d, "BlackPoint", x.into()); }
                if let Some(x) = c { put!(d, "Range", x.into()); }
                V::Arr(vec![nm("Lab"), V::Dict(d)])
            }
            3 => { let a = g.r.rf(); w.icc_based(a); V::Arr(vec![nm("ICCBased"), a.into()]) }
            4 => { w.srgb(); rgb(SRGB) }
            5 => { w.adobe_rgb(); rgb(ADOBE) }
            6 => { w.display_p3(); rgb(P3) }
            7 => { w.pro_photo(); rgb(PROPHOTO) }
            8 => { w.eci_rgb(); rgb(ECI) }
            9 => { w.ntsc(); rgb(NTSC) }
            10 => { w.pal(); rgb(PAL) }
            11 => { w.d65_gray(); cal_gray(D65, None, Some(2.2)) }
            12 => { let a = g.opt(|g| g.r.f()); w.d50_gray(a); cal_gray(D50, None, a) }
            13 => { w.c_gray(); cal_gray(CC, None, Some(2.2)) }
            14 => { let a = g.opt(|g| g.r.f()); w.e_gray(a); cal_gray(EQ, None, a) }
            15 => { w.device_rgb(); nm("DeviceRGB") }
            16 => { w.device_cmyk(); nm("DeviceCMYK") }
            17 => { w.device_gray(); nm("DeviceGray") }
            18 => {
                let a = g.r.name();
                let mut s = w.separation(Name(&a));
                let mut v = vec![nm("Separation"), V::Name(a)];
                let on = g.enter();
                match g.choose("Separation", &["alternate_color_space", "alternate_color_space_ref"]) {
                    0 => v.push(write(s.alternate_color_space(), g)),
                    _ => { let a = g.r.rf(); s.alternate_color_space_ref(a); v.push(a.into()) }
                }
                match g.choose("Separation (tint)", &["tint_exponential", "tint_stitching", "tint_ref", "(no tint)"]) {
                    0 => v.push(exponential_function::write(s.tint_exponential(), g)),
                    1 => v.push(stitching_function::write(s.tint_stitching(), g)),
                    2 => { let a = g.r.rf(); s.tint_ref(a); v.push(a.into()) }
                    _ => {}
                }
                if on { g.leave(); }
                V::Arr(v)
            }
            19 => {
                let a = g.names();
                let mut s = w.device_n(it(a.iter().map(|x| Name(x))));
                let mut v = vec![nm("DeviceN"), names_v(&a)];
                let on = g.enter();
                match g.choose("DeviceN", &["alternate_color_space", "alternate_color_space_ref"]) {
                    0 => v.push(write(s.alternate_color_space(), g)),
                    _ => { let a = g.r.rf(); s.alternate_color_space_ref(a); v.push(a.into()) }
                }
                match g.choose("DeviceN (tint)", &["tint_exponential", "tint_stitching", "tint_ref"]) {
                    0 => v.push(exponential_function::write(s.tint_exponential(), g)),
                    1 => v.push(stitching_function::write(s.tint_stitching(), g)),
                    _ => { let a = g.r.rf(); s.tint_ref(a); v.push(a.into()) }
                }
                if g.choose("DeviceN (attributes)", &["attrs", "(no attributes)"]) == 0 { v.push(device_n_attrs::write(s.attrs(), g)); }
                if on { g.leave(); }
                V::Arr(v)
            }
            20 => { let (a, h, t) = (g.r.name(), g.r.int(), g.r.bytes()); w.indexed(Name(&a), h, &t); V::Arr(vec![nm("Indexed"), V::Name(a), h.into(), V::Str(t)]) }
            _ => { let a = g.r.name(); w.pattern(Name(&a)); V::Arr(vec![nm("Pattern"), V::Name(a)]) }
        }
    }
}
ops!(icc_profile, IccProfile, [], {
    c!(n, |w, g, e| { let a = *g.r.pick(&[1, 3, 4]); w.n(a); put!(e, "N", a.into()); }),
    sub!(alternate, "Alternate", color_space),
    k!(alternate_name, "Alternate", name),
    k!(range, "Range", floats),
    k!(metadata, "Metadata", rf),
});
ops_plain!(device_n_attrs, DeviceNAttrs, [], {
    en!(subtype, "Subtype", DEVICE_N_SUBTYPE),
    cs!(colorants, |w, g, e| { if g.enter() {
        let mut a = w.colorants();
        let n = g.r.len(4);
        let v: E = (0..n).map(|_| {
            let k = g.r.name();
            let (x, y) = (g.r.name(), g.r.int());
            let mut d: Dict = a.insert(Name(&k));
            d.pair(Name(b"A"), Name(&x)).pair(Name(b"B"), y);
            g.end(d);
            (k, V::Dict(vec![(b"A".to_vec(), V::Name(x)), (b"B".to_vec(), y.into())]))
        }).collect();
        g.end(a); g.leave();
        put!(e, "Colorants", V::Dict(v));
    } }),
    sub!(process, "Process", device_n_process),
    sub!(mixing_hints, "MixingHints", device_n_mixing_hints),
});
ops_plain!(device_n_process, DeviceNProcess, [], {
    k!(color_space, "ColorSpace", name),
    sub!(color_space_array, "ColorSpace", color_space),
    k!(components, "Components", names),
});
ops_plain!(device_n_mixing_hints, DeviceNMixingHints, [], {
    subdp!(solidities, "Solidities", |g| g.r.f()),
    k!(printing_order, "PrintingOrder", names),
    subdp!(dot_gain, "DotGain", |g| g.r.f()),
});
ops!(tiling_pattern, TilingPattern, [("Type", nm("Pattern")), ("PatternType", V::Int(1))], {
    en!(paint_type, "PaintType", PAINT_TYPE),
    en!(tiling_type, "TilingType", TILING_TYPE),
    k!(bbox, "BBox", rect),
    c!(x_step, |w, g, e| { let mut a = g.r.f(); if a == 0.0 { a = 1.5; } w.x_step(a); put!(e, "XStep", a.into()); }),
    c!(y_step, |w, g, e| { let mut a = g.r.f(); if a == 0.0 { a = 1.5; } w.y_step(a); put!(e, "YStep", a.into()); }),
    sub!(resources, "Resources", resources),
    k!(matrix, "Matrix", f6),
});
ops!(shading_pattern, ShadingPattern, [("Type", nm("Pattern")), ("PatternType", V::Int(2))], {
    sub!(function_shading, "Shading", function_shading),
    k!(shading_ref, "Shading", rf),
    k!(matrix, "Matrix", f6),
    sub!(ext_graphics, "ExtGState", ext_graphics_state),
});
ops!(function_shading, FunctionShading, [], {
    en!(shading_type, "ShadingType", FUNCTION_SHADING_TYPE),
    sub!(color_space, "ColorSpace", color_space),
    k!(background, "Background", floats),
    k!(bbox, "BBox", rect),
    k!(anti_alias, "AntiAlias", bool),
    k!(domain, "Domain", f4),
    k!(matrix, "Matrix", f6),
    k!(function, "Function", rf),
    k!(coords, "Coords", floats),
    c!(extend, |w, g, e| { let a = [g.r.bool(), g.r.bool()]; w.extend(a); put!(e, "Extend", a.into()); }),
});
ops!(stream_shading, StreamShading, [], {
    en!(shading_type, "ShadingType", STREAM_SHADING_TYPE),
    sub!(color_space, "ColorSpace", color_space),
    k!(background, "Background", floats),
    k!(bbox, "BBox", rect),
    k!(anti_alias, "AntiAlias", bool),
    k!(function, "Function", rf),
    k!(bits_per_coordinate, "BitsPerCoordinate", int),
    k!(bits_per_component, "BitsPerComponent", int),
    k!(bits_per_flag, "BitsPerFlag", int),
    k!(decode, "Decode", floats),
    k!(vertices_per_row, "VerticesPerRow", int),
});
ops_plain!(separation_info, SeparationInfo, [], {
    k!(pages, "Pages", refs),
    k!(device_colorant, "DeviceColorant", name),
    c!(device_colorant_str, |w, g, e| { let a = g.r.text(); w.device_colorant_str(&a); put!(e, "DeviceColorant", V::Text(a)); }),
    sub!(color_space, "ColorSpace", color_space),
});
ops_plain!(output_intent, OutputIntent, [("Type", nm("OutputIntent"))], {
    enc!(subtype, "S", OUTPUT_INTENT_SUBTYPE, OutputIntentSubtype::Custom),
    k!(output_condition, "OutputCondition", text),
    k!(output_condition_identifier, "OutputConditionIdentifier", text),
    k!(registry_name, "RegistryName", textstr),
    k!(info, "Info", text),
    k!(dest_output_profile, "DestOutputProfile", rf),
});

pub const FILTER: &[(Filter, &str)] = &[(Filter::AsciiHexDecode, "ASCIIHexDecode"), (Filter::Ascii85Decode, "ASCII85Decode"), (Filter::LzwDecode, "LZWDecode"), (Filter::FlateDecode, "FlateDecode"), (Filter::RunLengthDecode, "RunLengthDecode"), (Filter::CcittFaxDecode, "CCITTFaxDecode"), (Filter::Jbig2Decode, "JBIG2Decode"), (Filter::DctDecode, "DCTDecode"), (Filter::JpxDecode, "JPXDecode"), (Filter::Crypt, "Crypt")];
pub const PREDICTOR: &[(Predictor, i32)] = &[(Predictor::None, 1), (Predictor::Tiff, 2), (Predictor::PngNone, 10), (Predictor::PngSub, 11), (Predictor::PngUp, 12), (Predictor::PngAverage, 13), (Predictor::PngPaeth, 14), (Predictor::PngOptimum, 15)];
ops!(plain_stream, Stream, [], {
    en!(filter, "Filter", FILTER),
    sub!(decode_parms, "DecodeParms", decode_parms),
});
ops!(decode_parms, DecodeParms, [], {
    en!(predictor, "Predictor", PREDICTOR),
    c!(colors, |w, g, e| { let a = g.r.int().max(1); w.colors(a); put!(e, "Colors", a.into()); }),
    c!(bits_per_component, |w, g, e| { let a = *g.r.pick(&[1, 2, 4, 8, 16]); w.bits_per_component(a); put!(e, "BitsPerComponent", a.into()); }),
    k!(columns, "Columns", int),
    c!(early_change, |w, g, e| { let a = g.r.bool(); w.early_change(a); put!(e, "EarlyChange", V::Int(a as i64)); }),
    k!(k, "K", int),
    k!(end_of_line, "EndOfLine", bool),
    k!(encoded_byte_align, "EncodedByteAlign", bool),
    k!(rows, "Rows", int),
    k!(end_of_block, "EndOfBlock", bool),
    k!(black_is_1, "BlackIs1", bool),
    k!(damaged_rows_before_error, "DamagedRowsBeforeError", int),
    k!(jbig2_globals, "JBIG2Globals", rf),
    c!(color_transform, |w, g, e| { let a = g.r.bool(); w.color_transform(a); put!(e, "ColorTransform", V::Int(a as i64)); }),
    k!(crypt_type, "Type", = nm("CryptFilterDecodeParms")),
    k!(name, "Name", name),
});
