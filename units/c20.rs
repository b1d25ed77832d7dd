// C20: image headers.  Extracted from /repo/src/image.rs on every run.
use vstd::prelude::*;
verus! {
//@item src/image.rs enum XlsxImageType derive=
//@item src/image.rs struct Image keep=height,width,width_dpi,height_dpi,has_default_dpi,image_type,hash,data derive=
pub enum XlsxError { UnknownImageType, ImageDimensionError, Other }

// ---------------------------------------------------------------- specification (the file formats)
pub open spec fn byte(d: Seq<u8>, i: int) -> int { d[i] as int }
pub open spec fn be16(d: Seq<u8>, i: int) -> int { if 0 <= i && i + 2 <= d.len() { byte(d, i) * 256 + byte(d, i + 1) } else { 0 } }
pub open spec fn le16(d: Seq<u8>, i: int) -> int { if 0 <= i && i + 2 <= d.len() { byte(d, i) + 256 * byte(d, i + 1) } else { 0 } }
pub open spec fn be32(d: Seq<u8>, i: int) -> int { if 0 <= i && i + 4 <= d.len() { 65536 * (byte(d, i) * 256 + byte(d, i + 1)) + byte(d, i + 2) * 256 + byte(d, i + 3) } else { 0 } }
pub open spec fn le32(d: Seq<u8>, i: int) -> int { if 0 <= i && i + 4 <= d.len() { byte(d, i) + 256 * byte(d, i + 1) + 65536 * (byte(d, i + 2) + 256 * byte(d, i + 3)) } else { 0 } }
pub open spec fn at8(d: Seq<u8>, i: int) -> int { if 0 <= i && i < d.len() { d[i] as int } else { 0 } }
/// the four letters at i
pub open spec fn tag4(d: Seq<u8>, i: int, a: char, b: char, c: char, e: char) -> bool { 0 <= i && i + 4 <= d.len() && is_bytes(d.subrange(i, i + 4), seq![a, b, c, e]) }
pub open spec fn is_bytes(d: Seq<u8>, s: Seq<char>) -> bool { d.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] d[k] as int == s[k] as int }
/// what a header says: a size, and a resolution in the units of the file
pub struct Size { pub w: int, pub h: int }
pub enum Res { Default, PerMetre(int, int), PerInch(int, int), PerCm(int, int) }
pub struct Head { pub size: Size, pub res: Res }
/// how much is left to read
pub open spec fn left(d: Seq<u8>, at: int) -> int { if at < d.len() { d.len() - at } else { 0 } }
/// PNG: chunks of length, name, data and checksum after an 8 byte signature, up to IEND; IHDR has the size, pHYs the resolution
pub open spec fn png(d: Seq<u8>, at: int, h: Head) -> Head decreases left(d, at) {
    if at < 0 || at >= d.len() { h } else {
        let h1 = if tag4(d, at + 4, 'I', 'H', 'D', 'R') { Head { size: Size { w: be32(d, at + 8), h: be32(d, at + 12) }, ..h } } else { h };
        let h2 = if tag4(d, at + 4, 'p', 'H', 'Y', 's') && at8(d, at + 16) == 1 && be32(d, at + 8) > 0 && be32(d, at + 12) > 0 { Head { res: Res::PerMetre(be32(d, at + 8), be32(d, at + 12)), ..h1 } } else { h1 };
        if tag4(d, at + 4, 'I', 'E', 'N', 'D') { h2 } else if be32(d, at) < 0 { h2 } else { png(d, at + be32(d, at) + 12, h2) }
    }
}
/// a start of frame marker: FFC0 to FFCF except DHT, JPG and DAC
pub open spec fn sof(m: int) -> bool { 0xFFC0 <= m <= 0xFFCF && m != 0xFFC4 && m != 0xFFC8 && m != 0xFFCC }
/// JPEG: segments of marker, length and data after FFD8, up to the scan FFDA; fill bytes FF may come before a marker
pub open spec fn jpg(d: Seq<u8>, at: int, h: Head) -> Head decreases left(d, at) {
    if at < 0 || at >= d.len() { h } else {
        let m = be16(d, at);
        if m == 0xFFFF { jpg(d, at + 1, h) } else {
            let h1 = if sof(m) { Head { size: Size { w: be16(d, at + 7), h: be16(d, at + 5) }, ..h } } else { h };
            let u = at8(d, at + 11);
            let h2 = if m != 0xFFE0 { h1 } else if u == 1 { Head { res: Res::PerInch(be16(d, at + 12), be16(d, at + 14)), ..h1 } } else if u == 2 { Head { res: Res::PerCm(be16(d, at + 12), be16(d, at + 14)), ..h1 } } else { h1 };
            if m == 0xFFDA || be16(d, at + 2) < 0 { h2 } else { jpg(d, at + be16(d, at + 2) + 2, h2) }
        }
    }
}
pub open spec fn none() -> Head { Head { size: Size { w: 0, h: 0 }, res: Res::Default } }
pub open spec fn png_head(d: Seq<u8>) -> Head { png(d, 8, none()) }
pub open spec fn jpg_head(d: Seq<u8>) -> Head { jpg(d, 2, none()) }
pub open spec fn gif_head(d: Seq<u8>) -> Head { Head { size: Size { w: le16(d, 6), h: le16(d, 8) }, res: Res::Default } }
pub open spec fn magnitude(x: int) -> int { if x < 0x8000_0000 { x } else { 0x1_0000_0000 - x } }
pub open spec fn bmp_head(d: Seq<u8>) -> Head {
    Head { size: if le32(d, 14) == 12 { Size { w: le16(d, 18), h: le16(d, 20) } } else { Size { w: le32(d, 18), h: magnitude(le32(d, 22)) } }, res: Res::Default }
}
// ---- floats: trusted, uninterpreted
pub uninterp spec fn flt(x: int) -> f64;
pub uninterp spec fn fmul(x: f64, k: f64) -> f64;
pub uninterp spec fn feq(x: f64, y: f64) -> bool;
/// trusted: converting an integer to a float
#[verifier::external_body] pub fn vp_f64(x: u32) -> (r: f64) ensures r == flt(x as int) { unimplemented!() }
/// trusted: a float multiplication
#[verifier::external_body] pub fn vp_mul(x: f64, k: f64) -> (r: f64) ensures r == fmul(x, k) { unimplemented!() }
/// trusted: a float comparison
#[verifier::external_body] pub fn vp_eq(x: f64, k: f64) -> (r: bool) ensures r == feq(x, k) { unimplemented!() }
/// trusted: a float is equal to itself unless it is NaN, and integers convert to distinct floats
#[verifier::external_body] pub broadcast proof fn flt_zero(x: int) requires 0 <= x <= 0xFFFF_FFFF ensures #[trigger] feq(flt(x), 0.0) == (x == 0) {}
pub open spec fn usable(x: f64) -> f64 { if feq(x, 0.0) || feq(x, 1.0) { 96.0 } else { x } }
pub open spec fn dpi_x(r: Res) -> f64 { match r { Res::Default => 96.0, Res::PerMetre(x, y) => fmul(flt(x), 0.0254), Res::PerInch(x, y) => usable(flt(x)), Res::PerCm(x, y) => usable(fmul(flt(x), 2.54)) } }
pub open spec fn dpi_y(r: Res) -> f64 { match r { Res::Default => 96.0, Res::PerMetre(x, y) => fmul(flt(y), 0.0254), Res::PerInch(x, y) => usable(flt(y)), Res::PerCm(x, y) => usable(fmul(flt(y), 2.54)) } }
/// trusted: the default resolution is not one of those that stand for none
#[verifier::external_body] pub broadcast proof fn usable_default() ensures #[trigger] usable(96.0) == 96.0f64 {}
/// trusted: replacing an unusable resolution twice is replacing it once
#[verifier::external_body] pub broadcast proof fn usable_twice(x: f64) ensures #[trigger] usable(usable(x)) == usable(x) {}
/// trusted: zero is zero
#[verifier::external_body] pub proof fn zero() ensures feq(0.0, 0.0) {}
/// the extension of the media part
pub open spec fn ext(t: XlsxImageType) -> Seq<char> { match t { XlsxImageType::Png => "png"@, XlsxImageType::Jpg => "jpeg"@, XlsxImageType::Gif => "gif"@, XlsxImageType::Bmp => "bmp"@, XlsxImageType::Unknown => "unknown"@ } }
/// the image measures what the header says
pub open spec fn measures(i: Image, h: Head) -> bool {
    i.width == flt(h.size.w) && i.height == flt(h.size.h) && i.width_dpi == dpi_x(h.res) && i.height_dpi == dpi_y(h.res)
}
pub open spec fn same_rest(a: Image, b: Image) -> bool { a.data == b.data && a.hash == b.hash }
/// which format the first bytes are of
pub open spec fn format_of(d: Seq<u8>) -> XlsxImageType {
    if d.len() >= 4 && is_bytes(d.subrange(1, 4), seq!['P', 'N', 'G']) { XlsxImageType::Png }
    else if be16(d, 0) == 0xFFD8 { XlsxImageType::Jpg }
    else if d.len() >= 2 && is_bytes(d.subrange(0, 2), seq!['B', 'M']) { XlsxImageType::Bmp }
    else if d.len() >= 4 && is_bytes(d.subrange(0, 4), seq!['G', 'I', 'F', '8']) { XlsxImageType::Gif }
    else { XlsxImageType::Unknown }
}
pub open spec fn head_of(d: Seq<u8>) -> Head {
    match format_of(d) { XlsxImageType::Png => png_head(d), XlsxImageType::Jpg => jpg_head(d), XlsxImageType::Bmp => bmp_head(d), XlsxImageType::Gif => gif_head(d), XlsxImageType::Unknown => none() }
}
/// an image is made of every file of a known format whose header gives a size, and of nothing else
pub open spec fn accepted(d: Seq<u8>) -> bool { format_of(d) != XlsxImageType::Unknown && head_of(d).size.w != 0 && head_of(d).size.h != 0 }

// ---------------------------------------------------------------- trusted standard library
/// trusted: a slice is at most isize::MAX bytes
#[verifier::external_body] pub proof fn slice_bound(d: &[u8]) ensures d@.len() <= isize::MAX as int {}
/// trusted: `[u8]::get(a..b)`; the range of indices must be in order
#[verifier::external_body] pub fn vp_get(d: &[u8], a: usize, b: usize) -> (r: Option<&[u8]>) requires a <= b
    ensures (b <= d@.len()) == r.is_some(), r matches Some(s) ==> s@ == d@.subrange(a as int, b as int) { d.get(a..b) }
/// trusted: the same, empty when out of range
#[verifier::external_body] pub fn vp_get_or_empty(d: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b
    ensures r@ == (if b <= d@.len() { d@.subrange(a as int, b as int) } else { Seq::empty() }) { d.get(a..b).unwrap_or_default() }
/// trusted: `[u8]::get(i)`
#[verifier::external_body] pub fn vp_byte(d: &[u8], i: usize) -> (r: u8) ensures r as int == at8(d@, i as int) { *d.get(i).unwrap_or(&0) }
/// trusted: comparing bytes with those of an ASCII string
#[verifier::external_body] pub fn vp_is(d: &[u8], s: &str) -> (r: bool) ensures r == is_bytes(d@, s@) { d == s.as_bytes() }
#[verifier::external_body] pub fn vp_u16_be(b: &[u8]) -> (r: u16) requires b@.len() == 2 ensures r as int == be16(b@, 0) { u16::from_be_bytes(b.try_into().unwrap()) }
#[verifier::external_body] pub fn vp_u16_le(b: &[u8]) -> (r: u16) requires b@.len() == 2 ensures r as int == le16(b@, 0) { u16::from_le_bytes(b.try_into().unwrap()) }
#[verifier::external_body] pub fn vp_u32_be(b: &[u8]) -> (r: u32) requires b@.len() == 4 ensures r as int == be32(b@, 0) { u32::from_be_bytes(b.try_into().unwrap()) }
#[verifier::external_body] pub fn vp_u32_le(b: &[u8]) -> (r: u32) requires b@.len() == 4 ensures r as int == le32(b@, 0) { u32::from_le_bytes(b.try_into().unwrap()) }
/// trusted: the magnitude of a 32 bit signed value
#[verifier::external_body] pub fn vp_i32_abs(x: u32) -> (r: u32) ensures r as int == magnitude(x as int) { (x as i32).unsigned_abs() }
/// trusted: a hash of the bytes
#[verifier::external_body] pub fn vp_hash(d: &Vec<u8>) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vp_sat_add(a: usize, b: usize) -> (r: usize) ensures r as int == (if a + b > usize::MAX { usize::MAX as int } else { a + b }) { a.saturating_add(b) }
/// trusted: cloning bytes
#[verifier::external_body] pub fn vp_clone(d: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == d@ { d.clone() }
#[verifier::external_body] pub fn vp_to_vec(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@ { d.to_vec() }
proof fn sof_bits(m: u16) ensures ((m & 0xFFF0) == 0xFFC0) == (0xFFC0 <= m <= 0xFFCF) { assert(((m & 0xFFF0) == 0xFFC0) == (0xFFC0 <= m <= 0xFFCF)) by(bit_vector); }

// ---------------------------------------------------------------- the code
//@fn src/image.rs unpack_u16_from_be_bytes ret=r
| requires offset + 2 <= usize::MAX,
| ensures r as int == be16(data@, offset as int),
//@rewrite data\.get\(offset\.\.offset \+ (\d)\) => vp_get(data, offset, offset + \1)
//@rewrite (u\d+)::from_(be|le)_bytes\(bytes\.try_into\(\)\.unwrap\(\)\) => vp_\1_\2(bytes)
//@end
//@fn src/image.rs unpack_u16_from_le_bytes ret=r
| requires offset + 2 <= usize::MAX,
| ensures r as int == le16(data@, offset as int),
//@rewrite data\.get\(offset\.\.offset \+ (\d)\) => vp_get(data, offset, offset + \1)
//@rewrite (u\d+)::from_(be|le)_bytes\(bytes\.try_into\(\)\.unwrap\(\)\) => vp_\1_\2(bytes)
//@end
//@fn src/image.rs unpack_u32_from_be_bytes ret=r
| requires offset + 4 <= usize::MAX,
| ensures r as int == be32(data@, offset as int),
//@rewrite data\.get\(offset\.\.offset \+ (\d)\) => vp_get(data, offset, offset + \1)
//@rewrite (u\d+)::from_(be|le)_bytes\(bytes\.try_into\(\)\.unwrap\(\)\) => vp_\1_\2(bytes)
//@end
//@fn src/image.rs unpack_u32_from_le_bytes ret=r
| requires offset + 4 <= usize::MAX,
| ensures r as int == le32(data@, offset as int),
//@rewrite data\.get\(offset\.\.offset \+ (\d)\) => vp_get(data, offset, offset + \1)
//@rewrite (u\d+)::from_(be|le)_bytes\(bytes\.try_into\(\)\.unwrap\(\)\) => vp_\1_\2(bytes)
//@end
impl XlsxImageType {
//@fn src/image.rs extension impl="impl XlsxImageType" ret=r
| ensures r@ == ext(*self),
//@end
}
impl Image {
//@fn src/image.rs new_from_buffer impl="impl Image" ret=r
| ensures r is Ok <==> accepted(buffer@), r matches Ok(i) ==> i.data@ == buffer@ && i.image_type == format_of(buffer@) && measures(i, head_of(buffer@)),
//@rewrite (?#opt)(scale_width|scale_height|x_offset|y_offset|name|alt_text|vml_name|header_position|object_movement|is_header|decorative|drawing_type|url): [^,]*, => 
//@rewrite buffer\.to_vec\(\) => vp_to_vec(buffer)
//@rewrite Self::process_image\(&mut image\)\? => image.process_image()?
//@at body-start
| broadcast use flt_zero;
| proof { zero(); }
//@end
//@fn src/image.rs process_image impl="impl Image" ret=r
| requires old(self).image_type is Unknown, feq(old(self).width, 0.0),
| ensures
|     final(self).data == old(self).data,
|     r is Ok <==> accepted(old(self).data@),
|     r is Ok ==> final(self).image_type == format_of(old(self).data@) && measures(*final(self), head_of(old(self).data@)),
//@rewrite self\.data\.clone\(\) => vp_clone(&self.data)
//@rewrite data\.get\((\d)\.\.(\d)\)\.unwrap_or_default\(\) => vp_get_or_empty(data.as_slice(), \1, \2)
//@rewrite (\w+_marker) == ("\w+")\.as_bytes\(\) => vp_is(\1, \2)
//@rewrite \(&data\) => (data.as_slice())
//@rewrite \(&data, 0\) => (data.as_slice(), 0)
//@rewrite self\.(width|height) == 0\.0 => vp_eq(self.\1, 0.0)
//@rewrite let mut hasher = DefaultHasher::new\(\);\s*data\.hash\(&mut hasher\);\s*self\.hash = hasher\.finish\(\)\.to_string\(\) => self.hash = vp_hash(&data)
//@at body-start
| broadcast use {flt_zero, usable_default, usable_twice};
| proof { lits(); heads(old(self).data@); }
//@end
//@fn src/image.rs process_png impl="impl Image"
| ensures same_rest(*old(self), *final(self)), final(self).image_type is Png, measures(*final(self), png_head(data@)),
//@rewrite data\.get\(offset \+ 4\.\.offset \+ 8\)\.unwrap_or_default\(\) => vp_get_or_empty(data, offset + 4, offset + 8)
//@rewrite marker == ("\w+")\.as_bytes\(\) => vp_is(marker, \1)
//@rewrite data\.get\(offset \+ 16\)\.unwrap_or\(&0\) => vp_byte(data, offset + 16)
//@rewrite \*units => units
//@rewrite f64::from\((\w+)\) => vp_f64(\1 as u32)
//@rewrite (vp_f64\(\w+ as u32\)) \* ([0-9.]+) => vp_mul(\1, \2)
//@rewrite offset\.saturating_add\(length as usize\)\.saturating_add\((\d+)\) => vp_sat_add(vp_sat_add(offset, length as usize), \1)
//@at body-start
| broadcast use {flt_zero, usable_default, usable_twice};
| proof { lits(); slice_bound(data); }
| let ghost mut vp_h: Head = none();
//@loop 1
| invariant_except_break png(data@, offset as int, vp_h) == png_head(data@),
| invariant
|     same_rest(*old(self), *self), data_length == data@.len(), data@.len() <= isize::MAX as int,
|     width as int == vp_h.size.w, height as int == vp_h.size.h, width_dpi == dpi_x(vp_h.res), height_dpi == dpi_y(vp_h.res),
| ensures vp_h == png_head(data@),
| decreases left(data@, offset as int),
//@at loop 1 start
| let ghost vp_o = offset as int;
| let ghost vp_hh = vp_h;
| proof { lits(); vp_h = png_step(data@, vp_o, vp_h); png_unfold(data@, vp_o, vp_hh); }
//@end
//@fn src/image.rs process_jpg impl="impl Image"
| ensures same_rest(*old(self), *final(self)), final(self).image_type is Jpg, measures(*final(self), jpg_head(data@)),
//@rewrite data\.get\(offset \+ 11\)\.unwrap_or\(&0\) => vp_byte(data, offset + 11)
//@rewrite \*units => units
//@rewrite u32::from\((unpack_\w+\(data, offset \+ \d+\))\) => \1 as u32
//@rewrite f64::from\((\w+)\) => vp_f64(\1 as u32)
//@rewrite (vp_f64\(\w+ as u32\)) \* ([0-9.]+) => vp_mul(\1, \2)
//@rewrite (\w+_dpi) == ([0-9.]+) => vp_eq(\1, \2)
//@at body-start
| broadcast use {flt_zero, usable_default, usable_twice};
| proof { slice_bound(data); }
| let ghost mut vp_h: Head = none();
//@loop 1
| invariant_except_break jpg(data@, offset as int, vp_h) == jpg_head(data@),
| invariant
|     same_rest(*old(self), *self), data_length == data@.len(), data@.len() <= isize::MAX as int,
|     width as int == vp_h.size.w, height as int == vp_h.size.h, width_dpi == dpi_x(vp_h.res), height_dpi == dpi_y(vp_h.res), !(vp_h.res is PerMetre),
| ensures vp_h == jpg_head(data@),
| decreases left(data@, offset as int),
//@at loop 1 start
| let ghost vp_o = offset as int;
| proof { assert(usable(width_dpi) == width_dpi); assert(usable(height_dpi) == height_dpi); if be16(data@, vp_o) != 0xFFFF { vp_h = jpg_step(data@, vp_o, vp_h); } sof_bits(be16(data@, vp_o) as u16); }
//@end
//@fn src/image.rs process_bmp impl="impl Image"
| ensures same_rest(*old(self), *final(self)), final(self).image_type is Bmp, measures(*final(self), bmp_head(data@)),
//@rewrite \(height as i32\)\.unsigned_abs\(\) => vp_i32_abs(height)
//@rewrite u32::from\((unpack_\w+\(data, \d+\))\) => \1 as u32
//@rewrite f64::from\((\w+)\) => vp_f64(\1 as u32)
//@end
//@fn src/image.rs process_gif impl="impl Image"
| ensures same_rest(*old(self), *final(self)), final(self).image_type is Gif, measures(*final(self), gif_head(data@)),
//@rewrite u32::from\((unpack_\w+\(data, \d+\))\) => \1 as u32
//@rewrite f64::from\((\w+)\) => vp_f64(\1 as u32)
//@end
}
// ---------------------------------------------------------------- proofs
/// the reading of a header is defined
proof fn heads(d: Seq<u8>) ensures 0 <= head_of(d).size.w <= 0xFFFF_FFFF, 0 <= head_of(d).size.h <= 0xFFFF_FFFF { png_range(d, 8, none()); jpg_range(d, 2, none()); }
pub open spec fn in_range(h: Head) -> bool { 0 <= h.size.w <= 0xFFFF_FFFF && 0 <= h.size.h <= 0xFFFF_FFFF }
proof fn png_range(d: Seq<u8>, at: int, h: Head) requires in_range(h) ensures in_range(png(d, at, h)) decreases left(d, at) { if 0 <= at < d.len() { png_range(d, at + be32(d, at) + 12, png_step(d, at, h)); } }
proof fn jpg_range(d: Seq<u8>, at: int, h: Head) requires in_range(h) ensures in_range(jpg(d, at, h)) decreases left(d, at) { if 0 <= at < d.len() { if be16(d, at) == 0xFFFF { jpg_range(d, at + 1, h); } else { jpg_range(d, at + be16(d, at + 2) + 2, jpg_step(d, at, h)); } } }
/// the string literals of the code
proof fn lits() ensures
    "IHDR"@ == seq!['I', 'H', 'D', 'R'], "pHYs"@ == seq!['p', 'H', 'Y', 's'], "IEND"@ == seq!['I', 'E', 'N', 'D'], "PNG"@ == seq!['P', 'N', 'G'], "BM"@ == seq!['B', 'M'], "GIF8"@ == seq!['G', 'I', 'F', '8'],
{
    reveal_strlit("IHDR"); reveal_strlit("pHYs"); reveal_strlit("IEND"); reveal_strlit("PNG"); reveal_strlit("BM"); reveal_strlit("GIF8");
    assert("IHDR"@ =~= seq!['I', 'H', 'D', 'R']); assert("pHYs"@ =~= seq!['p', 'H', 'Y', 's']); assert("IEND"@ =~= seq!['I', 'E', 'N', 'D']);
    assert("PNG"@ =~= seq!['P', 'N', 'G']); assert("BM"@ =~= seq!['B', 'M']); assert("GIF8"@ =~= seq!['G', 'I', 'F', '8']);
}
pub open spec fn png_step(d: Seq<u8>, at: int, h: Head) -> Head {
    let h1 = if tag4(d, at + 4, 'I', 'H', 'D', 'R') { Head { size: Size { w: be32(d, at + 8), h: be32(d, at + 12) }, ..h } } else { h };
    if tag4(d, at + 4, 'p', 'H', 'Y', 's') && at8(d, at + 16) == 1 && be32(d, at + 8) > 0 && be32(d, at + 12) > 0 { Head { res: Res::PerMetre(be32(d, at + 8), be32(d, at + 12)), ..h1 } } else { h1 }
}
proof fn png_unfold(d: Seq<u8>, at: int, h: Head) requires 0 <= at < d.len()
    ensures png(d, at, h) == if tag4(d, at + 4, 'I', 'E', 'N', 'D') { png_step(d, at, h) } else { png(d, at + be32(d, at) + 12, png_step(d, at, h)) } {}
pub open spec fn jpg_step(d: Seq<u8>, at: int, h: Head) -> Head {
    let m = be16(d, at);
    let h1 = if sof(m) { Head { size: Size { w: be16(d, at + 7), h: be16(d, at + 5) }, ..h } } else { h };
    let u = at8(d, at + 11);
    if m != 0xFFE0 { h1 } else if u == 1 { Head { res: Res::PerInch(be16(d, at + 12), be16(d, at + 14)), ..h1 } } else if u == 2 { Head { res: Res::PerCm(be16(d, at + 12), be16(d, at + 14)), ..h1 } } else { h1 }
}
}
fn main() {}
