// the XML writer seen as the sequence of the tags and texts written to it (unit c02 proves the bytes of a tag)
pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
pub enum Tag { Open(Seq<char>, Attrs), Empty(Seq<char>, Attrs), Close(Seq<char>), Data(Seq<char>, Attrs, Seq<char>), Raw(Seq<char>) }
#[verifier::external_body] pub struct Writer { }
impl Writer { pub uninterp spec fn log(&self) -> Seq<Tag>; }
pub open spec fn av(v: Seq<(&'static str, String)>) -> Attrs { v.map_values(|p: (&'static str, String)| (p.0@, p.1@)) }
pub open spec fn add(a: Attrs, b: bool, k: Seq<char>, v: Seq<char>) -> Attrs { if b { a.push((k, v)) } else { a } }
pub broadcast proof fn av_push(s: Seq<(&'static str, String)>, x: (&'static str, String)) ensures #[trigger] av(s.push(x)) == av(s).push((x.0@, x.1@)) { assert(av(s.push(x)) =~= av(s).push((x.0@, x.1@))); }
pub broadcast proof fn av_none(s: Seq<(&'static str, String)>) requires s.len() == 0 ensures #[trigger] av(s) == Seq::<(Seq<char>, Seq<char>)>::empty() { assert(av(s) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); }
#[verifier::external_body] pub fn xml_declaration(w: &mut Writer) ensures final(w).log() == old(w).log() { }
#[verifier::external_body] pub fn xml_empty_tag(w: &mut Writer, tag: &str, attributes: &[(&'static str, String)]) ensures final(w).log() == old(w).log().push(Tag::Empty(tag@, av(attributes@))) { }
#[verifier::external_body] pub fn xml_empty_tag_only(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(Tag::Empty(tag@, seq![])) { }
#[verifier::external_body] pub fn xml_start_tag(w: &mut Writer, tag: &str, attributes: &[(&'static str, String)]) ensures final(w).log() == old(w).log().push(Tag::Open(tag@, av(attributes@))) { }
#[verifier::external_body] pub fn xml_start_tag_only(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(Tag::Open(tag@, seq![])) { }
#[verifier::external_body] pub fn xml_end_tag(w: &mut Writer, tag: &str) ensures final(w).log() == old(w).log().push(Tag::Close(tag@)) { }
#[verifier::external_body] pub fn xml_data_element(w: &mut Writer, tag: &str, data: &str, attributes: &[(&'static str, String)]) ensures final(w).log() == old(w).log().push(Tag::Data(tag@, av(attributes@), data@)) { }
#[verifier::external_body] pub fn xml_data_element_only(w: &mut Writer, tag: &str, data: &str) ensures final(w).log() == old(w).log().push(Tag::Data(tag@, seq![], data@)) { }
#[verifier::external_body] pub fn xml_raw_string(w: &mut Writer, data: &str) ensures final(w).log() == old(w).log().push(Tag::Raw(data@)) { }
// trusted: std Display/ToString of the types whose text is written
pub uninterp spec fn f_text(a: f64) -> Seq<char>;
pub trait VpText { spec fn text(&self) -> Seq<char>; fn vp_text(&self) -> (r: String) ensures r@ == self.text(); }
impl VpText for u8 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for u16 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for u32 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for usize { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for f64 { open spec fn text(&self) -> Seq<char> { f_text(*self) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl VpText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.clone() } }
// trusted: std::fmt::Formatter as the text written to it
#[verifier::external_body] pub struct VpF { s: String }
impl VpF {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: VpF) ensures r.out() == Seq::<char>::empty() { VpF { s: String::new() } }
    #[verifier::external_body] pub fn take(self) -> (r: String) ensures r@ == self.out() { self.s }
}
pub struct VpOk {}
pub fn vp_ok() -> VpOk { VpOk {} }
#[verifier::external_body] pub fn vp_w_str(f: &mut VpF, s: &str) ensures final(f).out() == old(f).out() + s@ { f.s.push_str(s) }
