//! Interactive features (C19): annotations, actions, forms, signatures, renditions, file specifications.
use super::*;
use pdf_writer::types::*;

pub const RENDITION_OPERATION: &[(RenditionOperation, i32)] = &[(RenditionOperation::Play, 0), (RenditionOperation::Stop, 1), (RenditionOperation::Pause, 2), (RenditionOperation::Resume, 3), (RenditionOperation::PlayOrResume, 4)];
pub const TEXT_POSITION: &[(TextPosition, i32)] = &[(TextPosition::CaptionOnly, 0), (TextPosition::IconOnly, 1), (TextPosition::Below, 2), (TextPosition::Above, 3), (TextPosition::Right, 4), (TextPosition::Left, 5), (TextPosition::Overlaid, 6)];
pub const QUADDING: &[(Quadding, i32)] = &[(Quadding::Left, 0), (Quadding::Center, 1), (Quadding::Right, 2)];
pub const ANNOTATION_FLAGS: &[(AnnotationFlags, u32)] = &[(AnnotationFlags::INVISIBLE, 1), (AnnotationFlags::HIDDEN, 2), (AnnotationFlags::PRINT, 3), (AnnotationFlags::NO_ZOOM, 4), (AnnotationFlags::NO_ROTATE, 5), (AnnotationFlags::NO_VIEW, 6), (AnnotationFlags::READ_ONLY, 7), (AnnotationFlags::LOCKED, 8), (AnnotationFlags::TOGGLE_NO_VIEW, 9), (AnnotationFlags::LOCKED_CONTENTS, 10)];
pub const FORM_ACTION_FLAGS: &[(FormActionFlags, u32)] = &[(FormActionFlags::INCLUDE_EXCLUDE, 1), (FormActionFlags::INCLUDE_NO_VALUE_FIELDS, 2), (FormActionFlags::EXPORT_FORMAT, 3), (FormActionFlags::GET_METHOD, 4), (FormActionFlags::SUBMIT_COORDINATES, 5), (FormActionFlags::XFDF, 6), (FormActionFlags::INCLUDE_APPEND_SAVES, 7), (FormActionFlags::INCLUDE_ANNOTATIONS, 8), (FormActionFlags::SUBMIT_PDF, 9), (FormActionFlags::CANONICAL_FORMAT, 10), (FormActionFlags::EXCLUDE_NON_USER_ANNOTS, 11), (FormActionFlags::EXCLUDE_F_KEY, 12), (FormActionFlags::EMBED_FORM, 14)];
pub const SIG_FLAGS: &[(SigFlags, u32)] = &[(SigFlags::SIGNATURES_EXIST, 1), (SigFlags::APPEND_ONLY, 2)];
pub const SIGNATURE_SEED_VALUE_FLAGS: &[(SignatureSeedValueFlags, u32)] = &[(SignatureSeedValueFlags::FILTER, 1), (SignatureSeedValueFlags::SUB_FILTER, 2), (SignatureSeedValueFlags::VERSION, 3), (SignatureSeedValueFlags::REASONS, 4), (SignatureSeedValueFlags::LEGAL_ATTESTATION, 5), (SignatureSeedValueFlags::ADD_REV_INFO, 6), (SignatureSeedValueFlags::DIGEST_METHOD, 7), (SignatureSeedValueFlags::LOCK_DOCUMENT, 8), (SignatureSeedValueFlags::APPEARANCE_FILTER, 9)];
pub const CERTIFICATE_SEED_VALUE_FLAGS: &[(CertificateSeedValueFlags, u32)] = &[(CertificateSeedValueFlags::SUBJECT, 1), (CertificateSeedValueFlags::ISSUER, 2), (CertificateSeedValueFlags::OID, 3), (CertificateSeedValueFlags::SUBJECT_DN, 4), (CertificateSeedValueFlags::KEY_USAGE, 6), (CertificateSeedValueFlags::URL, 7)];
pub const FIELD_FLAGS: &[(FieldFlags, u32)] = &[(FieldFlags::READ_ONLY, 1), (FieldFlags::REQUIRED, 2), (FieldFlags::NO_EXPORT, 3), (FieldFlags::MULTILINE, 13), (FieldFlags::PASSWORD, 14), (FieldFlags::NO_TOGGLE_TO_OFF, 15), (FieldFlags::RADIO, 16), (FieldFlags::PUSHBUTTON, 17), (FieldFlags::COMBO, 18), (FieldFlags::EDIT, 19), (FieldFlags::SORT, 20), (FieldFlags::FILE_SELECT, 21), (FieldFlags::MULTI_SELECT, 22), (FieldFlags::DO_NOT_SPELL_CHECK, 23), (FieldFlags::DO_NOT_SCROLL, 24), (FieldFlags::COMB, 25), (FieldFlags::RADIOS_IN_UNISON, 26), (FieldFlags::RICH_TEXT, 26), (FieldFlags::COMMIT_ON_SEL_CHANGE, 27)];
// actions
pub const ACTION_TYPE: &[(ActionType, &str)] = &[(ActionType::GoTo, "GoTo"), (ActionType::RemoteGoTo, "GoToR"), (ActionType::Launch, "Launch"), (ActionType::Uri, "URI"), (ActionType::SubmitForm, "SubmitForm"), (ActionType::ResetForm, "ResetForm"), (ActionType::ImportData, "ImportData"), (ActionType::JavaScript, "JavaScript"), (ActionType::Rendition, "Rendition")];
ops!(action, Action, [("Type", nm("Action"))], {
    en!(action_type, "S", ACTION_TYPE),
    sub!(destination, "D", destination),
    k!(destination_named, "D", name),
    sub!(file_spec, "F", file_spec),
    k!(new_window, "NewWindow", bool),
    k!(uri, "URI", bstr),
    k!(is_map, "IsMap", bool),
    k!(js_string, "JS", textstr),
    k!(js_stream, "JS", rf),
    sub!(fields, "Fields", fields),
    fl!(form_flags, "Flags", FormActionFlags, FORM_ACTION_FLAGS),
    en!(operation, "OP", RENDITION_OPERATION),
    k!(annotation, "AN", rf),
    sub!(rendition, "R", rendition),
});
seq!(fields, Fields, {
    c!(id, |w, g, e| { let a = g.r.rf(); w.id(a); e.push((vec![], a.into())); }),
    c!(ids, |w, g, e| { let a = g.refs(); w.ids(it(a.iter().copied())); e.extend(a.iter().map(|&x| (vec![], x.into()))); }),
    c!(name, |w, g, e| { let a = g.r.text(); w.name(TextStr(&a)); e.push((vec![], V::Text(a))); }),
    c!(names, |w, g, e| { let a = g.texts(); w.names(it(a.iter().map(|x| TextStr(x)))); e.extend(a.iter().map(|x| (vec![], tx(x)))); }),
});
ops!(additional_actions, AdditionalActions, [], {
    sub!(annot_curser_enter, "E", action),
    sub!(annot_cursor_exit, "X", action),
    sub!(annot_mouse_press, "D", action),
    sub!(annot_mouse_release, "U", action),
    sub!(annot_page_open, "PO", action),
    sub!(annot_page_close, "PC", action),
    sub!(annot_page_visible, "PV", action),
    sub!(annot_page_invisible, "PI", action),
    sub!(widget_focus, "Fo", action),
    sub!(widget_focus_loss, "Bl", action),
    sub!(page_open, "O", action),
    sub!(page_close, "C", action),
    sub!(form_calculate_partial, "K", action),
    sub!(form_format, "F", action),
    sub!(form_validate, "V", action),
    sub!(form_calculate, "C", action),
    sub!(cat_before_close, "WC", action),
    sub!(cat_before_save, "WS", action),
    sub!(cat_after_save, "DS", action),
    sub!(cat_before_print, "WP", action),
    sub!(cat_after_print, "DP", action),
});
// annotations
pub const ANNOTATION_TYPE: &[(AnnotationType, &str)] = &[(AnnotationType::Text, "Text"), (AnnotationType::Link, "Link"), (AnnotationType::Line, "Line"), (AnnotationType::Square, "Square"), (AnnotationType::Circle, "Circle"), (AnnotationType::Highlight, "Highlight"), (AnnotationType::Underline, "Underline"), (AnnotationType::Squiggly, "Squiggly"), (AnnotationType::StrikeOut, "StrikeOut"), (AnnotationType::FileAttachment, "FileAttachment"), (AnnotationType::Widget, "Widget"), (AnnotationType::Screen, "Screen")];
pub const ANNOTATION_ICON: &[(AnnotationIcon<'static>, &str)] = &[(AnnotationIcon::Comment, "Comment"), (AnnotationIcon::Key, "Key"), (AnnotationIcon::Note, "Note"), (AnnotationIcon::Help, "Help"), (AnnotationIcon::NewParagraph, "NewParagraph"), (AnnotationIcon::Paragraph, "Paragraph"), (AnnotationIcon::Insert, "Insert"), (AnnotationIcon::Graph, "Graph"), (AnnotationIcon::PushPin, "PushPin"), (AnnotationIcon::Paperclip, "Paperclip"), (AnnotationIcon::Tag, "Tag")];
pub const ICON_SCALE: &[(IconScale, &str)] = &[(IconScale::Always, "A"), (IconScale::Bigger, "B"), (IconScale::Smaller, "S"), (IconScale::Never, "N")];
pub const ICON_SCALE_TYPE: &[(IconScaleType, &str)] = &[(IconScaleType::Anamorphic, "A"), (IconScaleType::Proportional, "P")];
pub const HIGHLIGHT_EFFECT: &[(HighlightEffect, &str)] = &[(HighlightEffect::None, "N"), (HighlightEffect::Invert, "I"), (HighlightEffect::Outline, "O"), (HighlightEffect::Push, "P")];
pub const BORDER_TYPE: &[(BorderType, &str)] = &[(BorderType::Solid, "S"), (BorderType::Dashed, "D"), (BorderType::Beveled, "B"), (BorderType::Inset, "I"), (BorderType::Underline, "U")];
ops!(annotation, Annotation, [("Type", nm("Annot"))], {
    en!(subtype, "Subtype", ANNOTATION_TYPE),
    k!(rect, "Rect", rect),
    k!(contents, "Contents", text),
    k!(page, "P", rf),
    k!(name, "NM", text),
    k!(modified, "M", date),
    fl!(flags, "F", AnnotationFlags, ANNOTATION_FLAGS),
    sub!(appearance, "AP", appearance),
    k!(appearance_state, "AS", name),
    c!(border, |w, g, e| {
        let a = g.f3();
        let d = g.opt(|g| g.r.floats(5));
        w.border(a[0], a[1], a[2], d.as_deref());
        let mut v: Vec<V> = a.iter().map(|&x| x.into()).collect();
        if let Some(d) = d { v.push(d.into()); }
        put!(e, "Border", V::Arr(v));
    }),
    sub!(border_style, "BS", border_style),
    k!(color_transparent, "C", none),
    k!(color_gray, "C", gray),
    k!(color_rgb, "C", rgb),
    k!(color_cmyk, "C", cmyk),
    k!(struct_parent, "StructParent", int),
    sub!(action, "A", action),
    sub!(additional_actions, "AA", additional_actions),
    en!(highlight, "H", HIGHLIGHT_EFFECT),
    k!(author, "T", text),
    k!(subject, "Subj", text),
    k!(quad_points, "QuadPoints", floats),
    c!(quad_points, |w, g, e| {
        let q: Vec<[f32; 4]> = (0..1 + g.r.len(3)).map(|_| g.f4()).collect();
        w.quad_points(it(q.iter().flat_map(|q| Rect::new(q[0], q[1], q[2], q[3]).to_quad_points())));
        let v: Vec<V> = q.iter().flat_map(|q| [q[0], q[1], q[2], q[1], q[2], q[3], q[0], q[3]]).map(|x| x.into()).collect();
        put!(e, "QuadPoints", V::Arr(v));
    }),
    c!(line_to, |w, g, e| { let a = g.f4(); w.line_to(a[0], a[1], a[2], a[3]); put!(e, "L", a.into()); }),
    sub!(file_spec, "FS", file_spec),
    enc!(icon, "Name", ANNOTATION_ICON, AnnotationIcon::Custom),
    sub!(appearance_characteristics, "MK", appearance_characteristics),
    k!(parent, "Parent", rf),
    suba!(associated_files, "AF", file_spec),
});
ops!(appearance_characteristics, AppearanceCharacteristics, [], {
    k!(rotate, "R", int),
    k!(border_color_transparent, "BC", none),
    k!(border_color_gray, "BC", gray),
    k!(border_color_rgb, "BC", rgb),
    k!(border_color_cymk, "BC", cmyk),
    k!(background_color_transparent, "BG", none),
    k!(background_color_gray, "BG", gray),
    k!(background_color_rgb, "BG", rgb),
    k!(background_color_cymk, "BG", cmyk),
    k!(normal_caption, "CA", text),
    k!(rollover_caption, "RC", text),
    k!(alternate_caption, "AC", text),
    k!(normal_icon, "I", rf),
    k!(rollover_icon, "RI", rf),
    k!(alternate_icon, "IX", rf),
    sub!(icon_fit, "IF", icon_fit),
    en!(text_position, "TP", TEXT_POSITION),
});
ops!(icon_fit, IconFit, [], {
    en!(scale, "SW", ICON_SCALE),
    en!(scale_type, "S", ICON_SCALE_TYPE),
    c!(leftover_space, |w, g, e| { let a = [g.r.f(), g.r.f()]; w.leftover_space(a[0], a[1]); put!(e, "A", a.into()); }),
    k!(fit_bounds, "FB", bool),
});
ops!(appearance, Appearance, [], {
    sub!(normal, "N", appearance_entry),
    sub!(rollover, "R", appearance_entry),
    sub!(alternate, "D", appearance_entry),
});
pub mod appearance_entry {
    use super::*;
    pub fn write(w: AppearanceEntry<'_>, g: &mut G) -> V {
        match g.choose("AppearanceEntry", &["stream", "streams"]) {
            0 => { let a = g.r.rf(); w.stream(a); a.into() }
            _ => {
                let mut d = w.streams();
                let n = g.r.len(4);
                let v: Vec<(Vec<u8>, Ref)> = (0..n).map(|_| (g.r.name(), g.r.rf())).collect();
                if g.r.bool() { for (k, x) in &v { d.pair(Name(k), *x); } } else { d.pairs(it(v.iter().map(|(k, x)| (Name(k), *x)))); }
                g.end(d);
                V::Dict(v.into_iter().map(|(k, x)| (k, x.into())).collect())
            }
        }
    }
}
ops!(border_style, BorderStyle, [("Type", nm("Border"))], {
    k!(width, "W", f),
    en!(style, "S", BORDER_TYPE),
    k!(dashes, "D", floats),
});
// renditions
pub const TEMP_FILE_TYPE: &[(TempFileType, &[u8])] = &[(TempFileType::Never, b"TEMPNEVER"), (TempFileType::Extract, b"TEMPEXTRACT"), (TempFileType::Access, b"TEMPACCESS"), (TempFileType::Always, b"TEMPALWAYS")];
pub const RENDITION_TYPE: &[(RenditionType, &str)] = &[(RenditionType::Media, "MR"), (RenditionType::Selector, "SR")];
pub const MEDIA_CLIP_TYPE: &[(MediaClipType, &str)] = &[(MediaClipType::Data, "MCD"), (MediaClipType::Section, "MCS")];
ops!(rendition, Rendition, [("Type", nm("Rendition"))], {
    en!(subtype, "S", RENDITION_TYPE),
    k!(name, "N", text),
    sub!(media_clip, "C", media_clip),
    sub!(media_play_params, "P", media_play_params),
});
ops!(media_clip, MediaClip, [("Type", nm("MediaClip"))], {
    en!(subtype, "S", MEDIA_CLIP_TYPE),
    k!(name, "N", text),
    sub!(data, "D", file_spec),
    k!(data_type, "CT", bstr),
    sub!(permissions, "P", media_permissions),
    k!(alt_texts, "Alt", textstrs),
});
ops!(media_play_params, MediaPlayParams, [("Type", nm("MediaPlayParams"))], {
    c!(controls, |w, g, e| { let a = g.r.bool(); w.controls(a); put!(e, "BE", V::Dict(vec![(b"C".to_vec(), a.into())])); }),
});
ops!(media_permissions, MediaPermissions, [("Type", nm("MediaPermissions"))], {
    en!(temp_file, "TF", TEMP_FILE_TYPE),
});
// files
pub const ASSOCIATION_KIND: &[(AssociationKind, &str)] = &[(AssociationKind::Source, "Source"), (AssociationKind::Data, "Data"), (AssociationKind::Alternative, "Alternative"), (AssociationKind::Supplement, "Supplement"), (AssociationKind::EncryptedPayload, "EncryptedPayload"), (AssociationKind::FormData, "FormData"), (AssociationKind::Schema, "Schema"), (AssociationKind::Unspecified, "Unspecified")];
ops!(file_spec, FileSpec, [("Type", nm("Filespec"))], {
    k!(file_system, "FS", name),
    k!(path, "F", bstr),
    k!(unic_file, "UF", textstr),
    k!(volatile, "V", bool),
    k!(description, "Desc", text),
    c!(embedded_file, |w, g, e| { let a = g.r.rf(); w.embedded_file(a); put!(e, "EF", V::Dict(vec![(b"F".to_vec(), a.into())])); }),
    c!(embedded_file_with_unicode, |w, g, e| { let a = g.r.rf(); w.embedded_file_with_unicode(a); put!(e, "EF", V::Dict(vec![(b"F".to_vec(), a.into()), (b"UF".to_vec(), a.into())])); }),
    en!(association_kind, "AFRelationship", ASSOCIATION_KIND),
});
ops!(embedded_file, EmbeddedFile, [("Type", nm("EmbeddedFile"))], {
    k!(subtype, "Subtype", name),
    sub!(params, "Params", embedding_params),
});
ops!(embedding_params, EmbeddingParams, [], {
    k!(size, "Size", int),
    k!(creation_date, "CreationDate", date),
    k!(modification_date, "ModDate", date),
    k!(checksum, "CheckSum", bstr),
});
// forms
pub const FIELD_TYPE: &[(FieldType, &str)] = &[(FieldType::Button, "Btn"), (FieldType::Text, "Tx"), (FieldType::Choice, "Ch"), (FieldType::Signature, "Sig")];
fn check_box_state(i: usize) -> (CheckBoxState, V) { if i == 0 { (CheckBoxState::Yes, nm("Yes")) } else { (CheckBoxState::Off, nm("Off")) } }
pub const SIGNATURE_LOCK_ACTION: &[(SignatureLockAction, &str)] = &[(SignatureLockAction::All, "All"), (SignatureLockAction::Include, "Include"), (SignatureLockAction::Exclude, "Exclude")];
pub const SIGNATURE_DIGEST_METHOD: &[(SignatureDigestMethod, &str)] = &[(SignatureDigestMethod::SHA1, "SHA1"), (SignatureDigestMethod::SHA256, "SHA256"), (SignatureDigestMethod::SHA384, "SHA384"), (SignatureDigestMethod::SHA512, "SHA512"), (SignatureDigestMethod::RIPEMD160, "RIPEMD160")];
pub const SEED_VALUE_PARSER_VERSION: &[(SeedValueParserVersion, i32)] = &[(SeedValueParserVersion::Pdf15, 1), (SeedValueParserVersion::Pdf17, 2), (SeedValueParserVersion::Pdf20, 3)];
pub const ACCESS_PERMISSIONS: &[(AccessPermissions, i32)] = &[(AccessPermissions::NoChanges, 1), (AccessPermissions::FillAndSign, 2), (AccessPermissions::Annotations, 3)];
pub const MDP_SIGNATURE_TYPE: &[(MdpSignatureType, i32)] = &[(MdpSignatureType::ApprovalSignature, 0), (MdpSignatureType::CertificationSignature(AccessPermissions::NoChanges), 1), (MdpSignatureType::CertificationSignature(AccessPermissions::FillAndSign), 2), (MdpSignatureType::CertificationSignature(AccessPermissions::Annotations), 3)];
pub const LOCKING_INTENT: &[(LockingIntent, &str)] = &[(LockingIntent::Lock, "true"), (LockingIntent::DoNotLock, "false"), (LockingIntent::Auto, "auto")];
pub const CERTIFICATE_URL_TYPE: &[(CertificateUrlType<'static>, &str)] = &[(CertificateUrlType::Browser, "Browser")];
ops!(form, Form, [], {
    k!(fields, "Fields", refs),
    fl!(sig_flags, "SigFlags", SigFlags, SIG_FLAGS),
    k!(calculation_order, "CO", refs),
    sub!(default_resources, "DR", resources),
    k!(default_appearance, "DA", bstr),
    en!(quadding, "Q", QUADDING),
});
ops!(field_dict, Field, [], {
    en!(field_type, "FT", FIELD_TYPE),
    k!(parent, "Parent", rf),
    k!(children, "Kids", refs),
    k!(partial_name, "T", textstr),
    k!(alternate_name, "TU", text),
    k!(mapping_name, "TM", textstr),
    fl!(field_flags, "Ff", FieldFlags, FIELD_FLAGS),
    sub!(additional_actions, "AA", additional_actions),
    k!(button_options, "Opt", textstrs),
    ce!(checkbox_value, |w, g, e| { let (a, v) = check_box_state(g.variant(2)); w.checkbox_value(a); put!(e, "V", v); }),
    ce!(checkbox_default_value, |w, g, e| { let (a, v) = check_box_state(g.variant(2)); w.checkbox_default_value(a); put!(e, "DV", v); }),
    k!(radio_value, "V", name),
    k!(radio_default_value, "DV", name),
    k!(text_max_len, "MaxLen", int),
    k!(text_value, "V", text),
    k!(text_default_value, "DV", text),
    k!(vartext_default_appearance, "DA", bstr),
    en!(vartext_quadding, "Q", QUADDING),
    k!(vartext_default_style, "DS", textstr),
    k!(vartext_rich_value, "RV", text),
    sub!(choice_options, "Opt", choice_options),
    k!(choice_top_index, "TI", int),
    k!(choice_indices, "I", ints),
    c!(choice_value, |w, g, e| { let a = g.opt(|g| g.r.text()); w.choice_value(a.as_deref().map(TextStr)); put!(e, "V", a.map_or(V::Null, V::Text)); }),
    k!(choice_values, "V", textstrs),
    c!(choice_default_value, |w, g, e| { let a = g.opt(|g| g.r.text()); w.choice_default_value(a.as_deref().map(TextStr)); put!(e, "DV", a.map_or(V::Null, V::Text)); }),
    k!(choice_default_values, "DV", textstrs),
    k!(signature_field_lock, "Lock", rf),
    k!(signature_seed_value, "SV", rf),
});
/// A field, possibly merged with its widget annotation.
pub mod field {
    use super::*;
    pub fn write(mut w: Field<'_>, g: &mut G) -> V {
        let mut e = E::new();
        field_dict::fill(&mut w, g, &mut e);
        if g.choose("Field (continuation)", &["finish", "into_annotation"]) == 0 { g.end(w); return V::Dict(e); }
        let mut a = w.into_annotation();
        put!(e, "Type", nm("Annot"));
        put!(e, "Subtype", nm("Widget"));
        annotation::fill(&mut a, g, &mut e);
        g.end(a);
        V::Dict(e)
    }
}
seq!(choice_options, ChoiceOptions, {
    c!(option, |w, g, e| {
        if g.r.bool() { let a = g.r.text(); w.option(TextStr(&a)); e.push((vec![], V::Text(a))); }
        else { let a = g.langs(); w.option(TextStrWithLang(&lang_pairs(&a))); e.push((vec![], V::Lang(a))); }
    }),
    c!(options, |w, g, e| { let a = g.texts(); w.options(it(a.iter().map(|x| TextStr(x)))); e.extend(a.iter().map(|x| (vec![], tx(x)))); }),
    c!(export, |w, g, e| {
        let x = g.r.text();
        if g.r.bool() { let a = g.r.text(); w.export(TextStr(&a), TextStr(&x)); e.push((vec![], V::Arr(vec![V::Text(x), V::Text(a)]))); }
        else { let a = g.langs(); w.export(TextStrWithLang(&lang_pairs(&a)), TextStr(&x)); e.push((vec![], V::Arr(vec![V::Text(x), V::Lang(a)]))); }
    }),
    c!(exports, |w, g, e| {
        let n = g.r.len(4);
        let a: Vec<(String, String)> = (0..n).map(|_| (g.r.text(), g.r.text())).collect();
        w.exports(it(a.iter().map(|(x, y)| (TextStr(x), TextStr(y)))));
        e.extend(a.iter().map(|(x, y)| (vec![], V::Arr(vec![tx(y), tx(x)]))));
    }),
});
ops!(signature_field_lock, SignatureFieldLock, [("Type", nm("SigFieldLock"))], {
    en!(action, "Action", SIGNATURE_LOCK_ACTION),
    k!(fields, "Fields", textstrs),
    en!(access_permissions, "P", ACCESS_PERMISSIONS),
});
ops!(signature_seed_value, SignatureSeedValue, [("Type", nm("SV"))], {
    fl!(constraint_flags, "Ff", SignatureSeedValueFlags, SIGNATURE_SEED_VALUE_FLAGS),
    k!(filter, "Filter", name),
    k!(sub_filter, "SubFilter", names),
    ce!(digest_method, |w, g, e| {
        let n = g.r.len(5);
        let a: Vec<usize> = (0..n).map(|_| g.variant(SIGNATURE_DIGEST_METHOD.len())).collect();
        w.digest_method(it(a.iter().map(|&i| SIGNATURE_DIGEST_METHOD[i].0)));
        put!(e, "DigestMethod", V::Arr(a.iter().map(|&i| SIGNATURE_DIGEST_METHOD[i].1.ev()).collect()));
    }),
    en!(version, "V", SEED_VALUE_PARSER_VERSION),
    sub!(certificate, "Cert", certificate_seed_value),
    k!(reasons, "Reasons", textstrs),
    sub!(modification_detection_prevention, "MDP", mdp),
    sub!(timestamp, "TimeStamp", signature_time_stamp),
    k!(legal_attestation, "LegalAttestation", textstrs),
    k!(add_rev_info, "AddRevInfo", bool),
    en!(lock_document, "LockDocument", LOCKING_INTENT),
    k!(appearance_filter, "AppearanceFilter", textstr),
});
ops!(mdp, SignatureModificationDetectionPrevention, [], {
    en!(signature_type, "P", MDP_SIGNATURE_TYPE),
});
ops!(signature_time_stamp, SignatureTimeStamp, [], {
    k!(url, "URL", bstr),
    c!(required, |w, g, e| { let a = g.r.bool(); w.required(a); put!(e, "Ff", V::Int(a as i64)); }),
});
ops!(certificate_seed_value, CertificateSeedValue, [("Type", nm("SVCert"))], {
    fl!(constraint_flags, "Ff", CertificateSeedValueFlags, CERTIFICATE_SEED_VALUE_FLAGS),
    k!(subject, "Subject", bstrs),
    k!(signature_policy_oid, "SignaturePolicyOID", bstr),
    k!(signature_policy_hash_value, "SignaturePolicyHashValue", bstr),
    k!(signature_policy_hash_algorithm, "SignaturePolicyHashAlgorithm", name),
    k!(signature_policy_commitment_type, "SignaturePolicyCommitmentType", bstrs),
    cs!(subject_dn, |w, g, e| { if g.enter() {
        let mut a = w.subject_dn();
        let n = g.r.len(4);
        let mut v = vec![];
        for _ in 0..n {
            let mut d = a.push();
            let m = g.r.below(3);
            let x: Vec<(Vec<u8>, String)> = (0..m).map(|_| (g.r.name(), g.r.text())).collect();
            for (k, t) in &x { d.pair(Name(k), TextStr(t)); }
            v.push(V::Dict(x.into_iter().map(|(k, t)| (k, V::Text(t))).collect()));
        }
        g.end(a);
        g.leave();
        put!(e, "SubjectDN", V::Arr(v));
    } }),
    ce!(key_usage, |w, g, e| {
        let n = g.r.len(4);
        let t = [(None, b'X'), (Some(true), b'1'), (Some(false), b'0')];
        let a: Vec<[usize; 9]> = (0..n).map(|_| { let base = g.variant(3); let any = g.r.below(4); std::array::from_fn(|_| if any == 0 || any == 1 && g.r.chance(1, 6) { g.variant(3) } else { base }) }).collect();
        w.key_usage(it(a.iter()).map(|u| CertificateKeyUsage {
            digital_signature: t[u[0]].0, non_repudiation: t[u[1]].0, key_encipherment: t[u[2]].0, data_encipherment: t[u[3]].0, key_agreement: t[u[4]].0,
            key_cert_sign: t[u[5]].0, crl_sign: t[u[6]].0, encipher_only: t[u[7]].0, decipher_only: t[u[8]].0,
        }));
        put!(e, "KeyUsage", V::Arr(a.iter().map(|u| V::Str(u.iter().map(|&i| t[i].1).collect())).collect()));
    }),
    k!(issuer, "Issuer", bstrs),
    k!(oid, "OID", bstrs),
    k!(url, "URL", bstr),
    enc!(url_type, "URLType", CERTIFICATE_URL_TYPE, CertificateUrlType::Custom),
});
