//! The literals of the code under test (see build.rs) and of the standard, as inputs to try.
//! They only guide the workload: no verdict depends on them.

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// Names and strings with a meaning in the standard, some of which the library never writes itself.
pub static STANDARD: &[&[u8]] = &[
    b".notdef", b".null", b"Identity", b"Identity-H", b"Identity-V", b"Adobe-Identity-UCS", b"Default", b"DeviceGray",
    b"DeviceRGB", b"DeviceCMYK", b"Pattern", b"WinAnsiEncoding", b"MacRomanEncoding", b"MacExpertEncoding",
    b"StandardEncoding", b"PDFDocEncoding", b"Off", b"On", b"Yes", b"None", b"All", b"space", b"Helvetica", b"Symbol",
    b"ZapfDingbats", b"Courier", b"Times-Roman", b"Type", b"Subtype", b"Length", b"Filter", b"FlateDecode", b"Crypt",
    b"Page", b"Pages", b"Catalog", b"Parent", b"Kids", b"Count", b"Root", b"Size", b"Prev", b"ID", b"Contents", b"Resources",
    b"Limits", b"Names", b"Nums", b"A", b"B", b"I", b"K", b"P", b"S", b"ON", b"OFF", b"Document", b"Figure", b"Artifact",
    b"H", b"H1", b"Span", b"en-US", b"de", b"sRGB", b"sRGB IEC61966-2.1", b"http://www.color.org", b"mailto:a@b.c", b"\xef\xbb\xbfx",
    b"\xff\xfe", b"2.2", b"1.7", b"UTF-8", b"endbfchar", b"beginbfchar", b"EI", b"ID ", b"~>", b"0000000016 00000 n \n", b"65535 f",
    b"%%EOF", b"startxref\n0", b"\0\0", b"sbix", b"UseCMap", b"usecmap", b"Adobe", b"UCS", b"Japan1", b"Suspects", b"StructTreeRoot",
];

pub fn words(new: bool) -> &'static [&'static [u8]] { if new { WORDS_NEW } else { WORDS } }
pub fn ints(new: bool) -> &'static [i64] { if new { INTS_NEW } else { INTS } }
pub fn seqs(new: bool) -> &'static [&'static [f64]] { if new { SEQS_NEW } else { SEQS } }

/// A literal of a number as the nearest `f32`.
pub fn float(k: usize, new: bool) -> Option<f32> {
    let (x, i) = if new { (FLOATS_NEW, INTS_NEW) } else { (FLOATS, INTS) };
    match (x.len(), i.len()) {
        (0, 0) => None,
        (n, m) => {
            let k = k % (n + m);
            if k < n { x[k].parse().ok() } else { Some(i[k - n] as f32) }
        }
    }
}
