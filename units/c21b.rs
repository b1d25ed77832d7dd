// C21: margins, headers and footers.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@item src/image.rs enum HeaderImagePosition derive=Clone,Copy
//@item src/image.rs struct Image keep=header_position,is_header,width,height derive=
//@item src/worksheet.rs struct Worksheet keep=writer,page_setup_changed,header_footer_images,header,footer,head_footer_changed,header_footer_scale_with_doc,header_footer_align_with_page,margin_left,margin_right,margin_top,margin_bottom,margin_header,margin_footer derive= sub=Cursor<Vec<u8>>=>Writer
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, ParameterError(String) }

// ---------------------------------------------------------------- specification
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
/// the control codes a header or footer is written with
#[verifier::opaque] pub open spec fn codes(s: Seq<char>) -> Seq<char> {
    replaced(replaced(replaced(replaced(replaced(replaced(replaced(replaced(s, "&[Tab]"@, "&A"@), "&[Date]"@, "&D"@), "&[File]"@, "&F"@), "&[Page]"@, "&P"@), "&[Path]"@, "&Z"@), "&[Time]"@, "&T"@), "&[Pages]"@, "&N"@), "&[Picture]"@, "&G"@)
}
/// whether the section of the header at the position has a picture code (split/contains)
pub uninterp spec fn has_picture(s: Seq<char>, p: HeaderImagePosition) -> bool;
pub open spec fn slot(p: HeaderImagePosition) -> int { match p { HeaderImagePosition::Left => 0, HeaderImagePosition::Center => 1, HeaderImagePosition::Right => 2 } }
pub uninterp spec fn not_negative(v: f64) -> bool;
pub open spec fn margin(old: f64, v: f64) -> f64 { if not_negative(v) { v } else { old } }
pub open spec fn margins(w: Worksheet) -> Attrs {
    seq![("left"@, f_text(w.margin_left)), ("right"@, f_text(w.margin_right)), ("top"@, f_text(w.margin_top)), ("bottom"@, f_text(w.margin_bottom)), ("header"@, f_text(w.margin_header)), ("footer"@, f_text(w.margin_footer))]
}
pub open spec fn hf_attrs(w: Worksheet) -> Attrs { add(add(Seq::empty(), !w.header_footer_scale_with_doc, "scaleWithDoc"@, "0"@), !w.header_footer_align_with_page, "alignWithMargins"@, "0"@) }
pub open spec fn hf_text(tag: Seq<char>, s: Seq<char>) -> Seq<Tag> { if s.len() == 0 { seq![] } else { seq![Tag::Data(tag, seq![], codes(s))] } }
pub open spec fn hf_tags(w: Worksheet) -> Seq<Tag> {
    if w.header@.len() == 0 && w.footer@.len() == 0 { seq![Tag::Empty("headerFooter"@, hf_attrs(w))] }
    else { seq![Tag::Open("headerFooter"@, hf_attrs(w))] + hf_text("oddHeader"@, w.header@) + hf_text("oddFooter"@, w.footer@) + seq![Tag::Close("headerFooter"@)] }
}
/// nothing is left unwritten: the <pageSetup>, <printOptions> and <headerFooter> elements are written when any of their settings is not the default
pub open spec fn complete(w: Worksheet) -> bool {
    &&& !w.head_footer_changed ==> w.header_footer_scale_with_doc && w.header_footer_align_with_page && w.header@.len() == 0 && w.footer@.len() == 0
}
// ---------------------------------------------------------------- trusted: std collections, strings and floats
pub trait VpStr { spec fn vs(&self) -> Seq<char>; fn vp_replace(&self, a: &str, b: &str) -> (r: String) ensures r@ == replaced(self.vs(), a@, b@); fn vp_none(&self) -> (r: bool) ensures r == (self.vs().len() == 0); }
impl VpStr for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) } #[verifier::external_body] fn vp_none(&self) -> (r: bool) { self.is_empty() } }
#[verifier::external_body] pub fn vp_chars(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vp_ge0(v: f64) -> (r: bool) ensures r == not_negative(v) { v >= 0.0 }
#[verifier::external_body] pub fn vp_image(i: &Image) -> (r: Image) ensures r == *i { unimplemented!() }
pub fn vp_slot_of(p: HeaderImagePosition) -> (r: usize) ensures r == slot(p), r < 3 { match p { HeaderImagePosition::Left => 0, HeaderImagePosition::Center => 1, HeaderImagePosition::Right => 2 } }
/// the extracted statement `if v >= 0.0 { self.margin_x = v; self.page_setup_changed = true; }` of set_margins
pub fn vp_margin(m: &mut f64, changed: &mut bool, v: f64, x: f64) ensures *final(m) == (if not_negative(v) { x } else { *old(m) }), *final(changed) == (*old(changed) || not_negative(v)) { if vp_ge0(v) { *m = x; *changed = true; } }
pub fn vp_flag(a: &mut Vec<(&'static str, String)>, b: bool, k: &'static str, v: &'static str) ensures av(final(a)@) == add(av(old(a)@), b, k@, v@) { broadcast use av_push; if b { a.push((k, v.vp_text())); } }
/// the images after one of them is set
pub open spec fn images_set(a: [Option<Image>; 6], b: [Option<Image>; 6], k: int, i: Image) -> bool { b@[k] == Some(i) && forall|j: int| 0 <= j < 6 && j != k ==> #[trigger] b@[j] == a@[j] }
#[verifier::external_body] pub fn vp_put(a: &mut [Option<Image>; 6], k: usize, i: Image) requires k < 6 ensures images_set(*old(a), *final(a), k as int, i) { a[k] = Some(i) }

impl Worksheet {
#[verifier::external_body] fn verify_header_footer_image(s: &String, p: &HeaderImagePosition) -> (r: bool) ensures r == has_picture(s@, *p) { unimplemented!() }
//@fn src/worksheet.rs set_header impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if codes(header@).len() <= 255 { Worksheet { header: r.header, page_setup_changed: true, head_footer_changed: true, ..*old(self) } } else { *old(self) }), complete(*old(self)) ==> complete(*r),
| codes(header@).len() <= 255 ==> r.header@ == header@,
//@rewrite sig:impl Into<String> => String
//@rewrite let header = header\.into\(\); =>
//@rewrite \.replace\( => .vp_replace(
//@at body-start
| proof { reveal(codes); }
//@rewrite header_expanded\.chars\(\)\.count\(\) => vp_chars(&header_expanded)
//@rewrite eprintln!\([^;]*\); =>
//@end
//@fn src/worksheet.rs set_footer impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (if codes(footer@).len() <= 255 { Worksheet { footer: r.footer, page_setup_changed: true, head_footer_changed: true, ..*old(self) } } else { *old(self) }), complete(*old(self)) ==> complete(*r),
| codes(footer@).len() <= 255 ==> r.footer@ == footer@,
//@rewrite sig:impl Into<String> => String
//@rewrite let footer = footer\.into\(\); =>
//@rewrite \.replace\( => .vp_replace(
//@at body-start
| proof { reveal(codes); }
//@rewrite footer_expanded\.chars\(\)\.count\(\) => vp_chars(&footer_expanded)
//@rewrite eprintln!\([^;]*\); =>
//@end
//@fn src/worksheet.rs set_header_image impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => *final(self) == *final(p) && has_picture(old(self).header@, position) && images_set(old(self).header_footer_images, p.header_footer_images, 0 + slot(position), Image { header_position: position, is_header: true, ..*image }) && *p == (Worksheet { header_footer_images: p.header_footer_images, ..*old(self) }), Err(_) => !has_picture(old(self).header@, position) && *final(self) == *old(self) },
//@rewrite (?s)let error = format!\(.*?\);\n => let error = "".vp_text();
//@rewrite image\.clone\(\) => vp_image(image)
//@rewrite position\.clone\(\) => position
//@rewrite self\.header_footer_images\[(3 \+ )?position as usize\] = Some\(image\); => vp_put(&mut self.header_footer_images, \1vp_slot_of(position), image);
//@end
//@fn src/worksheet.rs set_footer_image impl="impl Worksheet" ret=r
| ensures match r { Ok(p) => *final(self) == *final(p) && has_picture(old(self).footer@, position) && images_set(old(self).header_footer_images, p.header_footer_images, 3 + slot(position), Image { header_position: position, is_header: false, ..*image }) && *p == (Worksheet { header_footer_images: p.header_footer_images, ..*old(self) }), Err(_) => !has_picture(old(self).footer@, position) && *final(self) == *old(self) },
//@rewrite (?s)let error = format!\(.*?\);\n => let error = "".vp_text();
//@rewrite image\.clone\(\) => vp_image(image)
//@rewrite position\.clone\(\) => position
//@rewrite self\.header_footer_images\[(3 \+ )?position as usize\] = Some\(image\); => vp_put(&mut self.header_footer_images, \1vp_slot_of(position), image);
//@end
//@fn src/worksheet.rs set_header_footer_scale_with_doc impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { header_footer_scale_with_doc: enable, page_setup_changed: old(self).page_setup_changed || !enable, head_footer_changed: old(self).head_footer_changed || !enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_header_footer_align_with_page impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { header_footer_align_with_page: enable, page_setup_changed: old(self).page_setup_changed || !enable, head_footer_changed: old(self).head_footer_changed || !enable, ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@end
//@fn src/worksheet.rs set_margins impl="impl Worksheet" ret=r
| ensures *final(self) == *final(r), *r == (Worksheet { margin_left: margin(old(self).margin_left, left), margin_right: margin(old(self).margin_right, right), margin_top: margin(old(self).margin_top, top), margin_bottom: margin(old(self).margin_bottom, bottom), margin_header: margin(old(self).margin_header, header), margin_footer: margin(old(self).margin_footer, footer), page_setup_changed: old(self).page_setup_changed || not_negative(left) || not_negative(right) || not_negative(top) || not_negative(bottom) || not_negative(header) || not_negative(footer), ..*old(self) }), complete(*old(self)) ==> complete(*r),
//@rewrite if (\w+) >= 0\.0 \{\s*self\.(\w+) = (\w+);\s*self\.page_setup_changed = true;\s*\} => vp_margin(&mut self.\2, &mut self.page_setup_changed, \1, \3);
//@end
//@fn src/worksheet.rs write_page_margins impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Empty("pageMargins"@, margins(*old(self)))], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@before /xml_empty_tag/
| assert(av(attributes@) =~= margins(*old(self)));
//@end
//@fn src/worksheet.rs write_odd_header impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Data("oddHeader"@, seq![], codes(old(self).header@))], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite \.replace\( => .vp_replace(
//@at body-start
| proof { reveal(codes); }
//@end
//@fn src/worksheet.rs write_odd_footer impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + seq![Tag::Data("oddFooter"@, seq![], codes(old(self).footer@))], *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite \.replace\( => .vp_replace(
//@at body-start
| proof { reveal(codes); }
//@end
/// the extracted statement `if !self.header.is_empty() { self.write_odd_header(); }`
fn vp_odd_header(&mut self, b: bool) ensures final(self).writer.log() =~= old(self).writer.log() + (if b { seq![Tag::Data("oddHeader"@, seq![], codes(old(self).header@))] } else { seq![] }), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { if b { self.write_odd_header(); } }
/// the extracted statement `if !self.footer.is_empty() { self.write_odd_footer(); }`
fn vp_odd_footer(&mut self, b: bool) ensures final(self).writer.log() =~= old(self).writer.log() + (if b { seq![Tag::Data("oddFooter"@, seq![], codes(old(self).footer@))] } else { seq![] }), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }) { if b { self.write_odd_footer(); } }
//@fn src/worksheet.rs write_header_footer impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + hf_tags(*old(self)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite self\.(header|footer)\.is_empty\(\) => self.\1.vp_none()
//@rewrite if (!self\.\w+) \{\s*attributes\.push\(\(("\w+"), ("\w+")\.vp_text\(\)\)\);\s*\} => vp_flag(&mut attributes, \1, \2, \3);
//@rewrite if (!self\.\w+\.vp_none\(\)) \{\s*self\.write_(odd_\w+)\(\);\s*\} => self.vp_\2(\1);
//@at body-start
| broadcast use av_none;
//@after /self\.vp_odd_footer\([^;]*;/
| assert(self.writer.log() =~= old(self).writer.log() + (seq![Tag::Open("headerFooter"@, hf_attrs(*old(self)))] + hf_text("oddHeader"@, old(self).header@) + hf_text("oddFooter"@, old(self).footer@)));
//@end
}
} // verus!
fn main() {}
