// C11: relationships, media files and content types.  Extracted from /repo/src/{worksheet,workbook,packager,relationship,content_types,image,url}.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/image.rs enum XlsxImageType derive=
//@item src/url.rs enum HyperlinkType derive=
//@item src/url.rs struct Url keep=relationship_link,link_type,rel_id derive=
//@item src/image.rs struct Image keep=image_type,hash,data,url derive=
//@item src/drawing.rs enum DrawingType derive=
//@item src/drawing.rs struct DrawingInfo keep=rel_id,drawing_type,url,is_portrait derive=
//@item src/drawing.rs struct Drawing keep=drawings,shapes derive=
//@item src/shape.rs struct Shape keep=url derive=
//@item src/vml.rs struct VmlInfo keep=rel_id derive=
//@item src/chart.rs struct Chart keep=id derive=
//@item src/worksheet.rs struct Worksheet keep=writer,images,charts,shapes,tables,background_image,header_footer_images,drawing,image_types,is_chartsheet,is_portrait,has_drawing_object_linkage,hyperlink_relationships,drawing_object_relationships,drawing_relationships,background_relationships,table_relationships,comment_relationships,vml_drawing_relationships,drawing_rel_ids,header_footer_vml_info,rel_count derive= sub=Cursor<Vec<u8>>=>Writer;HashMap<String,\s*u32>=>VpIds;BTreeMap<\(RowNum,\s*ColNum,\s*u32,\s*u32\),\s*(\w+)>=>VpAt<\1>;\[bool.\sNUM_IMAGE_FORMATS\]=>VpFlags;Vec<Table>=>Vec<u8>
//@item src/workbook.rs struct Workbook keep=worksheets,embedded_images derive=
//@item src/relationship.rs struct Relationship derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/content_types.rs struct ContentTypes derive= sub=Cursor<Vec<u8>>=>Writer
//@item src/packager.rs struct PackagerOptions keep=has_sst_table,has_metadata,has_embedded_images,has_vml,is_xlsm_file,has_vba_signature,num_worksheets,num_chartsheets,num_drawings,num_charts,num_tables,num_comments,image_types,properties,feature_property_bags derive= sub=\[bool.\sNUM_IMAGE_FORMATS\]=>VpFlags;DocProperties=>Props;HashSet<FeaturePropertyBagTypes>=>Vec<u8>
pub type VpFlags = [bool; 5];
pub struct Props { pub custom_properties: Vec<u8> }
pub enum XlsxError { Zip, Other }
// ---------------------------------------------------------------- specification
pub type Triple = (Seq<char>, Seq<char>, Seq<char>);
pub open spec fn tv(v: Seq<(String, String, String)>) -> Seq<Triple> { v.map_values(|p: (String, String, String)| (p.0@, p.1@, p.2@)) }
pub open spec fn pv(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub broadcast proof fn tv_push(s: Seq<(String, String, String)>, x: (String, String, String)) ensures #[trigger] tv(s.push(x)) == tv(s).push((x.0@, x.1@, x.2@)) { assert(tv(s.push(x)) =~= tv(s).push((x.0@, x.1@, x.2@))); }
pub broadcast proof fn pv_push(s: Seq<(String, String)>, x: (String, String)) ensures #[trigger] pv(s.push(x)) == pv(s).push((x.0@, x.1@)) { assert(pv(s.push(x)) =~= pv(s).push((x.0@, x.1@))); }
// ---- numbering of the media files: each kind of image has its own table of the hashes seen, the numbers run on
pub type M = Map<Seq<char>, u32>;
pub struct Ids { pub b: M, pub i: M, pub h: M, pub n: int }
pub open spec fn take(m: M, n: int, k: Seq<char>) -> (M, int) { if m.dom().contains(k) { (m, n) } else { (m.insert(k, (n + 1) as u32), n + 1) } }
pub open spec fn take_all(m: M, n: int, s: Seq<Image>) -> (M, int) decreases s.len() { if s.len() == 0 { (m, n) } else { let (m, n) = take_all(m, n, s.drop_last()); take(m, n, s.last().hash@) } }
pub open spec fn with_background(d: Ids, w: Worksheet) -> Ids { match w.background_image { Some(im) => { let (m, n) = take(d.b, d.n, im.hash@); Ids { b: m, n: n, ..d } } None => d } }
pub open spec fn with_images(d: Ids, w: Worksheet) -> Ids { let (m, n) = take_all(d.i, d.n, seconds(w.images.items())); Ids { i: m, n: n, ..d } }
pub open spec fn with_headers(d: Ids, w: Worksheet) -> Ids { let (m, n) = take_all(d.h, d.n, headers(w.header_footer_images)); Ids { h: m, n: n, ..d } }
pub open spec fn with_sheet(d: Ids, w: Worksheet) -> Ids { with_headers(with_images(with_background(d, w), w), w) }
pub open spec fn sheets_ids(s: Seq<Worksheet>, k: int, n: int) -> Ids decreases k { if k <= 0 { Ids { b: Map::empty(), i: Map::empty(), h: Map::empty(), n: n } } else { with_sheet(sheets_ids(s, k - 1, n), s[k - 1]) } }
pub open spec fn seconds<T>(s: Seq<((u32, u16, u32, u32), T)>) -> Seq<T> { s.map_values(|p: ((u32, u16, u32, u32), T)| p.1) }
pub open spec fn same_media(a: Worksheet, b: Worksheet) -> bool { a.background_image == b.background_image && a.images == b.images && a.header_footer_images == b.header_footer_images && a.charts.items().len() == b.charts.items().len() && a.shapes == b.shapes && a.tables == b.tables }
pub open spec fn ext(t: XlsxImageType) -> Seq<char> { match t { XlsxImageType::Unknown => "unknown"@, XlsxImageType::Png => "png"@, XlsxImageType::Jpg => "jpeg"@, XlsxImageType::Gif => "gif"@, XlsxImageType::Bmp => "bmp"@ } }
pub open spec fn kind(t: XlsxImageType) -> int { match t { XlsxImageType::Unknown => 0, XlsxImageType::Png => 1, XlsxImageType::Jpg => 2, XlsxImageType::Gif => 3, XlsxImageType::Bmp => 4 } }
/// trusted: the hash of an image stands for its bytes and type, and no hyperlink target equals a hash
pub uninterp spec fn is_hash(k: Seq<char>) -> bool;
pub uninterp spec fn hash_ext(k: Seq<char>) -> Seq<char>;
pub uninterp spec fn hash_data(k: Seq<char>) -> Seq<u8>;
/// a link in the workbook has no target mode
pub uninterp spec fn inner(k: Seq<char>) -> bool;
pub open spec fn img_ok(im: Image) -> bool { is_hash(im.hash@) && ext(im.image_type) == hash_ext(im.hash@) && im.data@ == hash_data(im.hash@) && (match im.url { Some(u) => url_ok(u), None => true }) }
pub open spec fn url_ok(u: Url) -> bool { !is_hash(u.relationship_link@) && inner(u.relationship_link@) == (u.link_type is Internal) }
pub open spec fn imgs_ok(s: Seq<Image>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] img_ok(s[i]) }
/// what is there already is only added to: drawings, relationships and their numbers
pub open spec fn adds(a: Worksheet, b: Worksheet) -> bool {
    same_media(a, b) && prefix(tv(a.drawing_relationships@), tv(b.drawing_relationships@)) && a.drawing.drawings@.len() <= b.drawing.drawings@.len() && (forall|i: int| 0 <= i < a.drawing.drawings@.len() ==> #[trigger] b.drawing.drawings@[i] == a.drawing.drawings@[i])
    && a.background_relationships == b.background_relationships && a.vml_drawing_relationships == b.vml_drawing_relationships && a.header_footer_vml_info == b.header_footer_vml_info && a.image_types == b.image_types
}
pub open spec fn sheet_ok(w: Worksheet) -> bool {
    imgs_ok(seconds(w.images.items())) && imgs_ok(headers(w.header_footer_images)) && (match w.background_image { Some(im) => img_ok(im), None => true })
    && (forall|i: int| 0 <= i < w.shapes.items().len() ==> (match (#[trigger] w.shapes.items()[i]).1.url { Some(u) => url_ok(u), None => true }))
}
/// the part of media file n, and the target that names it (a path from the folder of the part that refers to it)
pub open spec fn media(n: int, k: Seq<char>) -> Seq<char> { "xl/media/image"@ + dec(n as nat) + "."@ + hash_ext(k) }
pub open spec fn media_target(n: int, k: Seq<char>) -> Seq<char> { "../media/image"@ + dec(n as nat) + "."@ + hash_ext(k) }
pub open spec fn image_rel(n: int, k: Seq<char>) -> Triple { ("image"@, media_target(n, k), ""@) }
pub open spec fn link_rel(k: Seq<char>) -> Triple { ("hyperlink"@, k, if inner(k) { ""@ } else { "External"@ }) }
/// every id in the table of a drawing is the number of the relationship for its key: an image file, or a link
pub open spec fn rel_for(r: Seq<Triple>, g: M, k: Seq<char>, id: int) -> bool { 1 <= id <= r.len() && r[id - 1] == (if is_hash(k) { image_rel(g[k] as int, k) } else { link_rel(k) }) && (is_hash(k) ==> g.dom().contains(k)) }
pub open spec fn rels_ok(r: Seq<Triple>, g: M, m: M) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> rel_for(r, g, k, m[k] as int) }
pub open spec fn link_ok(r: Seq<Triple>, u: Option<Url>, had: Option<Url>) -> bool { match had { Some(h) => u is Some && 1 <= u->0.rel_id <= r.len() && r[u->0.rel_id - 1] == link_rel(h.relationship_link@), None => u is None } }
/// the drawing of an image shows the image's own file and leads to the image's own link
pub open spec fn shows(r: Seq<Triple>, g: M, d: DrawingInfo, im: Image) -> bool { 1 <= d.rel_id <= r.len() && g.dom().contains(im.hash@) && r[d.rel_id - 1] == image_rel(g[im.hash@] as int, im.hash@) && link_ok(r, d.url, im.url) }
pub open spec fn bounded(m: M, n: int) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> 1 <= m[k] <= n }
pub proof fn take_grows(m: M, n: int, s: Seq<Image>)
    requires 0 <= n, n + s.len() <= u32::MAX
    ensures n <= take_all(m, n, s).1 <= n + s.len(), forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] take_all(m, n, s).0.dom().contains(k) && take_all(m, n, s).0[k] == m[k],
    decreases s.len()
{ if s.len() > 0 { take_grows(m, n, s.drop_last()); } }
pub proof fn take_next(m: M, n: int, s: Seq<Image>, k: int)
    requires 0 <= k < s.len()
    ensures take_all(m, n, s.take(k + 1)) == take(take_all(m, n, s.take(k)).0, take_all(m, n, s.take(k)).1, s[k].hash@)
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
// ---------------------------------------------------------------- trusted
/// trusted: HashMap<String, u32> as a map from texts
#[verifier::external_body] pub struct VpIds { }
impl VpIds {
    pub uninterp spec fn m(&self) -> M;
    #[verifier::external_body] pub fn new() -> (r: VpIds) ensures r.m() == Map::<Seq<char>, u32>::empty() { VpIds { } }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&u32>) ensures r is Some <==> self.m().dom().contains(k@), r is Some ==> *r->0 == self.m()[k@] { None }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: u32) ensures final(self).m() == old(self).m().insert(k@, v) { }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.m().dom().len() { 0 }
}
/// trusted: HashSet<String> as a set of texts
#[verifier::external_body] pub struct VpSet { }
impl VpSet {
    pub uninterp spec fn s(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: VpSet) ensures r.s() == Set::<Seq<char>>::empty() { VpSet { } }
    #[verifier::external_body] pub fn contains(&self, k: &String) -> (r: bool) ensures r == self.s().contains(k@) { true }
    #[verifier::external_body] pub fn insert(&mut self, k: String) ensures final(self).s() == old(self).s().insert(k@) { }
}
/// trusted: a BTreeMap of inserted objects as its entries in order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VpAt<T> { t: T }
impl<T> VpAt<T> {
    pub uninterp spec fn items(&self) -> Seq<((u32, u16, u32, u32), T)>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.items().len() == 0) { true }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.items().len() { 0 }
}
#[verifier::external_body] pub fn vp_items<T>(m: &VpAt<T>) -> (r: Vec<((u32, u16, u32, u32), T)>) ensures r@ == m.items() { vec![] }
#[verifier::external_body] pub fn vp_values<T>(m: &VpAt<T>) -> (r: Vec<T>) ensures r@ == seconds(m.items()) { vec![] }
pub uninterp spec fn headers(h: [Option<Image>; 6]) -> Seq<Image>;
#[verifier::external_body] pub fn vp_headers(h: &[Option<Image>; 6]) -> (r: Vec<Image>) ensures r@ == headers(*h), (r@.len() == 0) == (forall|i: int| 0 <= i < 6 ==> h@[i] is None) { vec![] }
#[verifier::external_body] pub proof fn headers_none(h: [Option<Image>; 6]) ensures (headers(h).len() == 0) == (forall|i: int| 0 <= i < 6 ==> h@[i] is None), headers(h).len() <= 6 { }
pub trait VpCopy: Sized { #[verifier::external_body] fn vp_copy(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VpCopy for Image {} impl VpCopy for Url {} impl VpCopy for String {} impl VpCopy for Shape {} impl VpCopy for XlsxImageType {} impl VpCopy for Option<Url> {}
impl VpCopy for Vec<(String, String)> {} impl VpCopy for Vec<(String, String, String)> {} impl VpCopy for (String, String) {} impl VpCopy for (String, String, String) {}
#[verifier::external_body] pub fn vp_kind(t: &XlsxImageType) -> (r: usize) ensures r == kind(*t) { 0 }
#[verifier::external_body] pub fn vp_mark(a: &mut [bool; 5], i: usize) requires i < 5 ensures final(a)@ == old(a)@.update(i as int, true) { a[i] = true; }
impl Image { #[verifier::external_body] fn vml_info(&self) -> VmlInfo { unimplemented!() } }
impl Url { #[verifier::external_body] fn object(&self) { } }
/// the number of images in the tables seen so far
pub open spec fn room(r: int, n: int) -> bool { 0 <= r && 0 <= n && r + n < u32::MAX }
// ---------------------------------------------------------------- the relationships part
pub open spec fn rel_tag(i: int, t: Triple) -> Tag {
    let a = seq![("Id"@, "rId"@ + dec((i + 1) as nat)), ("Type"@, t.0), ("Target"@, t.1)];
    Tag::Empty("Relationship"@, add(a, t.2.len() != 0, "TargetMode"@, t.2))
}
/// entry i of the list is the relationship rId(i + 1)
pub open spec fn rel_tags(v: Seq<Triple>) -> Seq<Tag> { Seq::new(v.len(), |i: int| rel_tag(i, v[i])) }
pub open spec fn rel_file(v: Seq<Triple>) -> Seq<Tag> { seq![Tag::Open("Relationships"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/relationships"@)])] + rel_tags(v) + seq![Tag::Close("Relationships"@)] }
pub open spec fn doc(t: Triple) -> Triple { ("http://schemas.openxmlformats.org/officeDocument/2006/relationships"@ + "/"@ + t.0, t.1, t.2) }
pub open spec fn docs(v: Seq<Triple>) -> Seq<Triple> { v.map_values(|t: Triple| doc(t)) }
impl Relationship {
//@fn src/relationship.rs new impl="impl Relationship" ret=r
| ensures r.relationships@.len() == 0, r.id_num == 1, r.writer.log() == Seq::<Tag>::empty(),
//@rewrite Cursor::new\(Vec::with_capacity\(2048\)\) => Writer::new()
//@end
//@fn src/relationship.rs add_document_relationship impl="impl Relationship"
| ensures tv(final(self).relationships@) == tv(old(self).relationships@).push(doc((rel_type@, target@, target_mode@))), final(self).id_num == old(self).id_num, final(self).writer == old(self).writer,
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use tv_push;
//@end
//@fn src/relationship.rs assemble_xml_file impl="impl Relationship"
| requires old(self).id_num == 1, old(self).relationships@.len() < 0xffff,
| ensures final(self).writer.log() == old(self).writer.log() + rel_file(tv(old(self).relationships@)),
//@at body-end
| proof { assert(self.writer.log() =~= old(self).writer.log() + rel_file(tv(old(self).relationships@))); }
//@end
//@fn src/relationship.rs write_relationships impl="impl Relationship"
| requires old(self).id_num == 1, old(self).relationships@.len() < 0xffff,
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Open("Relationships"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/relationships"@)])) + rel_tags(tv(old(self).relationships@)),
//@rewrite \[\("xmlns", xmlns\)\] => [("xmlns", xmlns.vp_text())]
//@rewrite for relationship in self\.relationships\.clone\(\) \{ => let vp_v = self.relationships.vp_copy(); for vp_i in 0..vp_v.len() { let relationship = vp_v[vp_i].vp_copy();
//@at body-start
| broadcast use av_push, av_none; let ghost l0 = self.writer.log().push(Tag::Open("Relationships"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/relationships"@)]));
//@loop 1
| invariant self.id_num == 1 + vp_i, vp_v@.len() < 0xffff, self.writer.log() == l0 + rel_tags(tv(vp_v@)).take(vp_i as int),
//@at before-loop 1
| proof { assert(av(attributes@) =~= seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/relationships"@)]); assert(self.writer.log() =~= l0 + rel_tags(tv(vp_v@)).take(0)); }
//@at loop 1 end
| proof { assert(rel_tags(tv(vp_v@)).take(vp_i + 1) =~= rel_tags(tv(vp_v@)).take(vp_i as int).push(rel_tag(vp_i as int, tv(vp_v@)[vp_i as int]))); assert(self.writer.log() =~= l0 + rel_tags(tv(vp_v@)).take(vp_i + 1)); }
//@at after-loop 1
| proof { assert(rel_tags(tv(vp_v@)).take(vp_v@.len() as int) =~= rel_tags(tv(vp_v@))); }
//@end
//@fn src/relationship.rs write_relationship impl="impl Relationship"
| requires 1 <= old(self).id_num < 0xffff,
| ensures final(self).id_num == old(self).id_num + 1, final(self).relationships == old(self).relationships,
|   final(self).writer.log() == old(self).writer.log().push(rel_tag(old(self).id_num - 1, (relationship.0@, relationship.1@, relationship.2@))),
//@at body-start
| broadcast use av_push, av_none;
//@at body-end
| proof { let t = (relationship.0@, relationship.1@, relationship.2@); let a = seq![("Id"@, "rId"@ + dec(old(self).id_num as nat)), ("Type"@, t.0), ("Target"@, t.1)]; assert(av(attributes@) =~= add(a, t.2.len() != 0, "TargetMode"@, t.2)); }
//@end
}

// ---------------------------------------------------------------- the drawing of a worksheet
impl XlsxImageType {
//@fn src/image.rs extension impl="impl XlsxImageType" ret=r
| ensures r@ == ext(*self),
//@rewrite \.to_string\(\) => .vp_text()
//@end
}
impl Url {
//@fn src/url.rs target impl="impl Url" ret=r
| ensures r@ == self.relationship_link@,
//@rewrite self\.relationship_link\.clone\(\) => self.relationship_link.vp_copy()
//@end
//@fn src/url.rs target_mode impl="impl Url" ret=r
| ensures r@ == (if self.link_type is Internal { ""@ } else { "External"@ }),
//@rewrite self\.link_type == HyperlinkType::Internal => matches!(self.link_type, HyperlinkType::Internal)
//@rewrite String::new\(\) => "".vp_text()
//@rewrite String::from\("External"\) => "External".vp_text()
//@end
}
pub open spec fn w_ok(w: Worksheet, g: M) -> bool { rels_ok(tv(w.drawing_relationships@), g, w.drawing_rel_ids.m()) }
/// the drawings made from the first k images
pub open spec fn shown(w: Worksheet, g: M, d0: int, its: Seq<((u32, u16, u32, u32), Image)>, k: int) -> bool {
    w.drawing.drawings@.len() == d0 + k && forall|i: int| 0 <= i < k ==> shows(tv(w.drawing_relationships@), g, #[trigger] w.drawing.drawings@[d0 + i], its[i].1)
}
/// entries stay where they are when more are added, and numbers given stay given
pub open spec fn prefix(a: Seq<Triple>, b: Seq<Triple>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn extends(a: M, b: M) -> bool { forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
pub proof fn shows_kept(a: Seq<Triple>, b: Seq<Triple>, g: M, h: M, d: DrawingInfo, im: Image) requires shows(a, g, d, im), prefix(a, b), extends(g, h) ensures shows(b, h, d, im) { }
pub proof fn rels_kept(a: Seq<Triple>, b: Seq<Triple>, g: M, h: M, m: M) requires rels_ok(a, g, m), prefix(a, b), extends(g, h) ensures rels_ok(b, h, m)
{ assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies rel_for(b, h, k, m[k] as int) by { assert(rel_for(a, g, k, m[k] as int)); } }
impl Worksheet {
#[verifier::external_body] fn position_object_emus<T>(&mut self, row: RowNum, col: ColNum, object: &T) -> (r: DrawingInfo) ensures *final(self) == *old(self) { unimplemented!() }
//@fn src/worksheet.rs prepare_worksheet_images impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires sheet_ok(*old(self)), w_ok(*old(self), old(image_ids).m()), room(*old(image_id) as int, old(self).images.items().len() as int),
|   old(self).drawing_rel_ids.m().dom().len() == old(self).drawing_relationships@.len(), old(self).drawing_relationships@.len() + 2 * old(self).images.items().len() < u32::MAX,
|   old(self).drawing_object_relationships@.len() < 0xffff,
| ensures same_media(*old(self), *final(self)), w_ok(*final(self), final(image_ids).m()),
|   (final(image_ids).m(), *final(image_id) as int) == take_all(old(image_ids).m(), *old(image_id) as int, seconds(old(self).images.items())),
|   shown(*final(self), final(image_ids).m(), old(self).drawing.drawings@.len() as int, old(self).images.items(), old(self).images.items().len() as int),
|   forall|i: int| 0 <= i < old(self).images.items().len() ==> final(self).image_types@[kind((#[trigger] old(self).images.items()[i]).1.image_type)],
|   tv(final(self).drawing_object_relationships@) == tv(old(self).drawing_object_relationships@).push(("drawing"@, "../drawings/drawing"@ + dec(drawing_id as nat) + ".xml"@, ""@)), final(self).has_drawing_object_linkage,
|   final(self).background_relationships == old(self).background_relationships, final(self).vml_drawing_relationships == old(self).vml_drawing_relationships,
|   prefix(tv(old(self).drawing_relationships@), tv(final(self).drawing_relationships@)), final(self).drawing_relationships@.len() <= old(self).drawing_relationships@.len() + 2 * old(self).images.items().len(), final(self).header_footer_vml_info == old(self).header_footer_vml_info,
//@rewrite for \(cell, image\) in &self\.images\.clone\(\) \{ => let vp_v = vp_items(&self.images); for vp_i in 0..vp_v.len() { let cell = &vp_v[vp_i].0; let image = &vp_v[vp_i].1;
//@rewrite hyperlink\.clone\(\) => hyperlink.vp_copy()
//@rewrite \.relationship_link\.clone\(\) => .relationship_link.vp_copy()
//@rewrite \.hash\.clone\(\) => .hash.vp_copy()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@rewrite drawing_info\.url\.clone_from\(&drawing_hyperlink\); => drawing_info.url = drawing_hyperlink.vp_copy();
//@rewrite self\.image_types\[image\.image_type\.clone\(\) as usize\] = true; => vp_mark(&mut self.image_types, vp_kind(&image.image_type));
//@rewrite sig:HashMap<String, u32> => VpIds
//@at body-start
| broadcast use tv_push; let ghost its = self.images.items(); let ghost m0 = image_ids.m(); let ghost n0 = *image_id as int; let ghost ims = seconds(its); let ghost d0 = self.drawing.drawings@.len() as int; let ghost r0 = tv(self.drawing_relationships@);
| proof { take_grows(m0, n0, ims); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(ims.take(0) =~= Seq::<Image>::empty()); }
//@loop 1
| invariant same_media(*old(self), *self), its == vp_v@, w_ok(*self, image_ids.m()), (image_ids.m(), *image_id as int) == take_all(m0, n0, ims.take(vp_i as int)),
|   self.drawing_rel_ids.m().dom().len() == self.drawing_relationships@.len(), self.drawing_relationships@.len() <= old(self).drawing_relationships@.len() + 2 * vp_i,
|   shown(*self, image_ids.m(), d0, its, vp_i as int), forall|i: int| 0 <= i < vp_i ==> self.image_types@[kind((#[trigger] its[i]).1.image_type)],
|   self.drawing_object_relationships == old(self).drawing_object_relationships, self.background_relationships == old(self).background_relationships, self.vml_drawing_relationships == old(self).vml_drawing_relationships,
|   prefix(r0, tv(self.drawing_relationships@)), self.header_footer_vml_info == old(self).header_footer_vml_info,
//@at loop 1 start
| let ghost g0 = image_ids.m(); let ghost w0 = *self; let ghost a0 = tv(self.drawing_relationships@);
| proof { take_next(m0, n0, ims, vp_i as int); take_grows(m0, n0, ims.take(vp_i as int)); assert(img_ok(ims[vp_i as int])); }
//@after /let mut drawing_hyperlink = None;/
| let ghost had = image.url;
//@before /let rel_id = match self.drawing_rel_ids.get\(&image.hash\)/
| let ghost a1 = tv(self.drawing_relationships@);
| proof { rels_kept(a0, a0, g0, image_ids.m(), w0.drawing_rel_ids.m()); assert(w_ok(*self, image_ids.m())); assert(link_ok(a1, drawing_hyperlink, image.url)); }
//@at loop 1 end
| proof { assert(prefix(a0, tv(self.drawing_relationships@))); assert forall|i: int| 0 <= i < vp_i implies shows(tv(self.drawing_relationships@), image_ids.m(), #[trigger] self.drawing.drawings@[d0 + i], its[i].1) by { shows_kept(a0, tv(self.drawing_relationships@), g0, image_ids.m(), w0.drawing.drawings@[d0 + i], its[i].1); } }
//@at loop 1 end
| proof { let r = tv(self.drawing_relationships@); let d = self.drawing.drawings@[d0 + vp_i]; assert(d.rel_id == rel_id); assert(prefix(a1, r)); assert(link_ok(r, d.url, image.url));
|   assert(self.drawing_rel_ids.m().dom().contains(image.hash@)); assert(rel_for(r, image_ids.m(), image.hash@, rel_id as int)); }
//@at body-end
| proof { assert(ims.take(ims.len() as int) =~= ims); }
//@end
//@fn src/worksheet.rs prepare_background_image impl="impl Worksheet"
| requires img_ok(*image), old(self).background_relationships@.len() == 0,
| ensures tv(final(self).background_relationships@) == seq![("image"@, media_target(image_id as int, image.hash@), ""@)], final(self).image_types@ == old(self).image_types@.update(kind(image.image_type), true),
|   *final(self) == (Worksheet { background_relationships: final(self).background_relationships, image_types: final(self).image_types, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@rewrite self\.image_types\[image\.image_type\.clone\(\) as usize\] = true; => vp_mark(&mut self.image_types, vp_kind(&image.image_type));
//@at body-end
| proof { assert(tv(self.background_relationships@) =~= seq![("image"@, media_target(image_id as int, image.hash@), ""@)]); }
//@end
//@fn src/worksheet.rs prepare_worksheet_shapes impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires sheet_ok(*old(self)), exists|g: M| w_ok(*old(self), g), shape_id + old(self).shapes.items().len() < u32::MAX, old(self).drawing_relationships@.len() + old(self).shapes.items().len() < u32::MAX,
| ensures adds(*old(self), *final(self)), forall|g: M| w_ok(*old(self), g) ==> w_ok(*final(self), g), final(self).drawing.drawings@.len() == old(self).drawing.drawings@.len() + old(self).shapes.items().len(), final(self).drawing_relationships@.len() <= old(self).drawing_relationships@.len() + old(self).shapes.items().len(),
|   forall|i: int| 0 <= i < old(self).shapes.items().len() ==> link_ok(tv(final(self).drawing_relationships@), (#[trigger] final(self).drawing.drawings@[old(self).drawing.drawings@.len() + i]).url, old(self).shapes.items()[i].1.url),
|   old(self).drawing_object_relationships@.len() != 0 ==> final(self).drawing_object_relationships == old(self).drawing_object_relationships,
|   old(self).drawing_object_relationships@.len() == 0 ==> tv(final(self).drawing_object_relationships@) == seq![("drawing"@, "../drawings/drawing"@ + dec(drawing_id as nat) + ".xml"@, ""@)],
//@rewrite for \(cell, shape\) in &self\.shapes\.clone\(\) \{ => let vp_v = vp_items(&self.shapes); for vp_i in 0..vp_v.len() { let cell = &vp_v[vp_i].0; let shape = &vp_v[vp_i].1;
//@rewrite hyperlink\.clone\(\) => hyperlink.vp_copy()
//@rewrite shape\.clone\(\) => shape.vp_copy()
//@rewrite \.relationship_link\.clone\(\) => .relationship_link.vp_copy()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@rewrite drawing_info\.url\.clone_from\(&drawing_hyperlink\); => drawing_info.url = drawing_hyperlink.vp_copy();
//@rewrite self\.drawing_object_relationships\.is_empty\(\) => (self.drawing_object_relationships.len() == 0)
//@at body-start
| broadcast use tv_push; let ghost w00 = *self; let ghost its = self.shapes.items(); let ghost d0 = self.drawing.drawings@.len() as int;
| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@loop 1
| invariant adds(w00, *self), its == vp_v@, forall|g: M| w_ok(w00, g) ==> w_ok(*self, g), shape_id <= old(self).shapes.items().len() + vp_s0, shape_id == vp_s0 + vp_i,
|   self.drawing_relationships@.len() <= w00.drawing_relationships@.len() + vp_i, self.drawing.drawings@.len() == d0 + vp_i, self.drawing_object_relationships == w00.drawing_object_relationships,
|   forall|i: int| 0 <= i < vp_i ==> link_ok(tv(self.drawing_relationships@), (#[trigger] self.drawing.drawings@[d0 + i]).url, its[i].1.url),
//@at before-loop 1
| let ghost vp_s0 = shape_id as int;
//@at loop 1 start
| let ghost w0 = *self; let ghost a0 = tv(self.drawing_relationships@); let ghost sh = vp_v@[vp_i as int].1;
//@before /let mut drawing_info/
| proof { let a1 = tv(self.drawing_relationships@); assert(link_ok(a1, drawing_hyperlink, sh.url)); assert(prefix(a0, a1)); assert forall|g: M| w_ok(w00, g) implies w_ok(*self, g) by { rels_kept(a0, a1, g, g, w0.drawing_rel_ids.m()); } }
//@at loop 1 end
| proof { assert(link_ok(tv(self.drawing_relationships@), self.drawing.drawings@[d0 + vp_i].url, sh.url)); }
//@at body-end
| proof { if old(self).drawing_object_relationships@.len() == 0 { assert(tv(self.drawing_object_relationships@) =~= seq![("drawing"@, "../drawings/drawing"@ + dec(drawing_id as nat) + ".xml"@, ""@)]); } }
//@end
//@fn src/worksheet.rs prepare_header_footer_images impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires sheet_ok(*old(self)), old(self).vml_drawing_relationships@.len() == 0, old(self).header_footer_vml_info@.len() == 0, room(*old(image_id) as int, 6),
| ensures final(self).background_relationships == old(self).background_relationships, final(self).drawing == old(self).drawing, final(self).drawing_relationships == old(self).drawing_relationships, final(self).drawing_rel_ids == old(self).drawing_rel_ids, same_media(*old(self), *final(self)), final(self).drawing_object_relationships == old(self).drawing_object_relationships,
|   (final(image_ids).m(), *final(image_id) as int) == take_all(old(image_ids).m(), *old(image_id) as int, headers(old(self).header_footer_images)),
|   heads(*final(self), final(image_ids).m(), headers(old(self).header_footer_images).len() as int),
|   forall|t: int| 0 <= t < 5 && old(self).image_types@[t] ==> final(self).image_types@[t], forall|i: int| 0 <= i < headers(old(self).header_footer_images).len() ==> final(self).image_types@[kind((#[trigger] headers(old(self).header_footer_images)[i]).image_type)],
//@rewrite sig:HashMap<String, u32> => VpIds
//@rewrite let mut rel_ids: HashMap<String, u32> = HashMap::new\(\); => let mut rel_ids = VpIds::new();
//@rewrite for image in self\.header_footer_images\.clone\(\)\.into_iter\(\)\.flatten\(\) \{ => let vp_v = vp_headers(&self.header_footer_images); for vp_i in 0..vp_v.len() { let image = vp_v[vp_i].vp_copy();
//@rewrite \.hash\.clone\(\) => .hash.vp_copy()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@rewrite self\.image_types\[image\.image_type as usize\] = true; => vp_mark(&mut self.image_types, vp_kind(&image.image_type));
//@at body-start
| broadcast use tv_push; let ghost m0 = image_ids.m(); let ghost n0 = *image_id as int; let ghost ims = headers(self.header_footer_images);
| proof { headers_none(self.header_footer_images); take_grows(m0, n0, ims); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(ims.take(0) =~= Seq::<Image>::empty()); }
//@loop 1
| invariant same_media(*old(self), *self), ims == vp_v@, ims.len() <= 6, (image_ids.m(), *image_id as int) == take_all(m0, n0, ims.take(vp_i as int)),
|   rel_ids.m().dom().len() == self.vml_drawing_relationships@.len(), self.vml_drawing_relationships@.len() <= vp_i, rels_ok(tv(self.vml_drawing_relationships@), image_ids.m(), rel_ids.m()), heads(*self, image_ids.m(), vp_i as int),
|   self.background_relationships == old(self).background_relationships, self.drawing == old(self).drawing, self.drawing_relationships == old(self).drawing_relationships, self.drawing_rel_ids == old(self).drawing_rel_ids, self.drawing_object_relationships == old(self).drawing_object_relationships,
|   forall|t: int| 0 <= t < 5 && old(self).image_types@[t] ==> self.image_types@[t], forall|i: int| 0 <= i < vp_i ==> self.image_types@[kind((#[trigger] ims[i]).image_type)],
//@at loop 1 start
| let ghost g0 = image_ids.m(); let ghost w0 = *self; let ghost a0 = tv(self.vml_drawing_relationships@); let ghost im = vp_v@[vp_i as int]; let ghost rm = rel_ids.m();
| proof { take_next(m0, n0, ims, vp_i as int); take_grows(m0, n0, ims.take(vp_i as int)); assert(img_ok(ims[vp_i as int])); }
//@before /let rel_id = match rel_ids/
| proof { rels_kept(a0, a0, g0, image_ids.m(), rm); }
//@at loop 1 end
| proof { let r = tv(self.vml_drawing_relationships@); assert(prefix(a0, r)); assert(rel_ids.m().dom().contains(im.hash@)); assert(rel_for(r, image_ids.m(), im.hash@, rel_id as int));
|   assert(heads(w0, g0, vp_i as int)); assert(self.header_footer_vml_info@.last().rel_id == rel_id); }
//@at body-end
| proof { assert(ims.take(ims.len() as int) =~= ims); }
//@end
}
impl Chart { #[verifier::external_body] fn add_axis_ids(&mut self, id: u32) ensures final(self).id == old(self).id { } }
/// trusted: values_mut() of a BTreeMap: its values taken out in order, changed, and put back under their keys
#[verifier::external_body] pub fn vp_take_values<T>(m: &mut VpAt<T>) -> (r: Vec<T>) ensures r@ == seconds(old(m).items()), final(m).items() == old(m).items() { vec![] }
#[verifier::external_body] pub fn vp_put_values<T>(m: &mut VpAt<T>, v: Vec<T>) requires v@.len() == old(m).items().len() ensures seconds(final(m).items()) == v@, final(m).items().len() == old(m).items().len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] final(m).items()[i]).0 == old(m).items()[i].0 { }
/// chart i of the sheet is drawn with the relationship to its own file
pub open spec fn charts_done(a: Worksheet, b: Worksheet, chart_id: int) -> bool {
    let n = a.charts.items().len(); let r0 = a.drawing_relationships@.len(); let d0 = a.drawing.drawings@.len();
    b.charts.items().len() == n && b.drawing_relationships@.len() == r0 + n && b.drawing.drawings@.len() == d0 + n
    && forall|i: int| 0 <= i < n ==> (#[trigger] b.charts.items()[i]).1.id == chart_id + i && b.drawing.drawings@[d0 + i].rel_id == r0 + i + 1
        && tv(b.drawing_relationships@)[r0 + i] == ("chart"@, "../charts/chart"@ + dec((chart_id + i) as nat) + ".xml"@, ""@)
}
impl Worksheet {
//@fn src/worksheet.rs prepare_worksheet_charts impl="impl Worksheet" attr=#[verifier::loop_isolation(false)]
| requires exists|g: M| w_ok(*old(self), g), chart_id + old(self).charts.items().len() < u32::MAX, old(self).drawing_relationships@.len() + old(self).charts.items().len() < u32::MAX,
| ensures adds(*old(self), *final(self)), forall|g: M| w_ok(*old(self), g) ==> w_ok(*final(self), g), charts_done(*old(self), *final(self), chart_id as int),
|   old(self).has_drawing_object_linkage ==> final(self).drawing_object_relationships == old(self).drawing_object_relationships,
|   !old(self).has_drawing_object_linkage ==> tv(final(self).drawing_object_relationships@) == tv(old(self).drawing_object_relationships@).push(("drawing"@, "../drawings/drawing"@ + dec(drawing_id as nat) + ".xml"@, ""@)),
//@rewrite for chart in self\.charts\.values_mut\(\) \{ => let mut vp_c = vp_take_values(&mut self.charts); let vp_n = vp_c.len(); for vp_i in 0..vp_n { let chart = &mut vp_c[vp_i];
//@rewrite let mut rel_id = => vp_put_values(&mut self.charts, vp_c); let mut rel_id =
//@rewrite for \(cell, chart\) in &mut self\.charts\.clone\(\) \{ => let vp_v = vp_items(&self.charts); for vp_j in 0..vp_v.len() { let cell = &vp_v[vp_j].0; let chart = &vp_v[vp_j].1;
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@rewrite if self\.is_chartsheet && self\.protection_on \{\s*if let Some\(chart\) = self\.charts\.get_mut\(&\(0, 0, 0, 0\)\) \{\s*chart\.protection_on = true;\s*\}\s*\} => 
//@at body-start
| broadcast use tv_push; let ghost w0 = *self; let ghost c0 = seconds(self.charts.items()); let ghost id0 = chart_id as int; let ghost d0 = self.drawing.drawings@.len() as int; let ghost r0 = self.drawing_relationships@.len() as int; let ghost p0 = tv(self.drawing_relationships@);
| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@loop 1
| invariant vp_n == vp_c@.len(), vp_n == c0.len(), chart_id == id0 + vp_i, forall|i: int| 0 <= i < vp_i ==> (#[trigger] vp_c@[i]).id == id0 + i,
//@before /let mut rel_id =/
| let ghost cs = self.charts;
//@loop 2
| invariant vp_v@ == self.charts.items(), vp_v@.len() == vp_n, forall|i: int| 0 <= i < vp_n ==> (#[trigger] vp_v@[i]).1.id == id0 + i, rel_id == r0 + vp_j, self.drawing_relationships@.len() == r0 + vp_j, self.drawing.drawings@.len() == d0 + vp_j,
|   same_media(w0, *self), prefix(p0, tv(self.drawing_relationships@)), forall|i: int| 0 <= i < d0 ==> #[trigger] self.drawing.drawings@[i] == w0.drawing.drawings@[i], self.drawing_rel_ids == w0.drawing_rel_ids,
|   self.background_relationships == w0.background_relationships, self.vml_drawing_relationships == w0.vml_drawing_relationships, self.header_footer_vml_info == w0.header_footer_vml_info, self.image_types == w0.image_types,
|   self.drawing_object_relationships == w0.drawing_object_relationships, self.has_drawing_object_linkage == w0.has_drawing_object_linkage,
|   forall|i: int| 0 <= i < vp_j ==> (#[trigger] vp_v@[i]).1.id == id0 + i && self.drawing.drawings@[d0 + i].rel_id == r0 + i + 1 && tv(self.drawing_relationships@)[r0 + i] == ("chart"@, "../charts/chart"@ + dec((id0 + i) as nat) + ".xml"@, ""@),
//@at before-loop 2
| proof { assert forall|i: int| 0 <= i < vp_n implies (#[trigger] self.charts.items()[i]).1.id == id0 + i by { assert(seconds(self.charts.items())[i] == self.charts.items()[i].1); assert(vp_c@[i].id == id0 + i); } }
//@at loop 2 start
| proof { assert(vp_v@[vp_j as int].1.id == id0 + vp_j); } let ghost ra = tv(self.drawing_relationships@); let ghost da = self.drawing.drawings@;
| proof { assert forall|i: int| 0 <= i < vp_j implies #[trigger] da[d0 + i].rel_id == r0 + i + 1 by { assert(vp_v@[i].1.id == id0 + i); } }
//@at loop 2 end
| proof { let rb = tv(self.drawing_relationships@); assert(rb == ra.push(("chart"@, "../charts/chart"@ + dec((id0 + vp_j) as nat) + ".xml"@, ""@))); assert(rb[r0 + vp_j] == ("chart"@, "../charts/chart"@ + dec((id0 + vp_j) as nat) + ".xml"@, ""@));
|   assert forall|i: int| 0 <= i < vp_j implies #[trigger] rb[r0 + i] == ra[r0 + i] by { }
|   assert forall|i: int| 0 <= i < vp_j + 1 implies (#[trigger] vp_v@[i]).1.id == id0 + i && self.drawing.drawings@[d0 + i].rel_id == r0 + i + 1 && rb[r0 + i] == ("chart"@, "../charts/chart"@ + dec((id0 + i) as nat) + ".xml"@, ""@) by { if i < vp_j { assert(rb[r0 + i] == ra[r0 + i]); assert(da[d0 + i] == self.drawing.drawings@[d0 + i]); assert(vp_v@[i].1.id == id0 + i); assert(da[d0 + i].rel_id == r0 + i + 1); } else { assert(self.drawing.drawings@[d0 + i].rel_id == rel_id); assert(rel_id == r0 + i + 1); assert(vp_v@[i].1.id == id0 + i); } } }
//@at after-loop 2
| proof { let its = self.charts.items(); assert forall|i: int| 0 <= i < vp_n implies (#[trigger] its[i]).1.id == id0 + i && self.drawing.drawings@[d0 + i].rel_id == r0 + i + 1 && tv(self.drawing_relationships@)[r0 + i] == ("chart"@, "../charts/chart"@ + dec((id0 + i) as nat) + ".xml"@, ""@) by { assert(vp_v@[i].1.id == id0 + i); } assert(charts_done(w0, *self, id0)); }
//@at body-end
| proof { assert forall|g: M| w_ok(w0, g) implies w_ok(*self, g) by { rels_kept(p0, tv(self.drawing_relationships@), g, g, w0.drawing_rel_ids.m()); } }
//@end
//@fn src/worksheet.rs has_header_footer_images impl="impl Worksheet" ret=r
| ensures r == (headers(self.header_footer_images).len() != 0),
//@at body-start
| proof { headers_none(self.header_footer_images); }
//@end
//@fn src/worksheet.rs add_vml_drawing_rel_link impl="impl Worksheet"
| ensures tv(final(self).drawing_object_relationships@) == tv(old(self).drawing_object_relationships@).push(("vmlDrawing"@, "../drawings/vmlDrawing"@ + dec(drawing_id as nat) + ".vml"@, ""@)), *final(self) == (Worksheet { drawing_object_relationships: final(self).drawing_object_relationships, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@at body-start
| broadcast use tv_push;
//@end
//@fn src/worksheet.rs add_comment_rel_link impl="impl Worksheet"
| ensures tv(final(self).comment_relationships@) == tv(old(self).comment_relationships@).push(("comments"@, "../comments"@ + dec(comment_id as nat) + ".xml"@, ""@)), *final(self) == (Worksheet { comment_relationships: final(self).comment_relationships, ..*old(self) }),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite String::new\(\) => "".vp_text()
//@at body-start
| broadcast use tv_push;
//@end
}
/// everything a sheet draws or shows has the relationship to its own file
pub open spec fn done(w: Worksheet, d: Ids) -> bool {
    w.drawing.drawings@.len() >= w.images.items().len() && (forall|i: int| 0 <= i < w.images.items().len() ==> shows(tv(w.drawing_relationships@), d.i, #[trigger] w.drawing.drawings@[i], w.images.items()[i].1))
    && (match w.background_image { Some(im) => d.b.dom().contains(im.hash@) && tv(w.background_relationships@) == seq![image_rel(d.b[im.hash@] as int, im.hash@)], None => true })
    && heads(w, d.h, headers(w.header_footer_images).len() as int)
}
pub open spec fn ids_extend(a: Ids, b: Ids) -> bool { extends(a.b, b.b) && extends(a.i, b.i) && extends(a.h, b.h) }
pub proof fn done_kept(w: Worksheet, a: Ids, b: Ids) requires done(w, a), ids_extend(a, b) ensures done(w, b) {
    assert forall|i: int| 0 <= i < w.images.items().len() implies shows(tv(w.drawing_relationships@), b.i, #[trigger] w.drawing.drawings@[i], w.images.items()[i].1) by { shows_kept(tv(w.drawing_relationships@), tv(w.drawing_relationships@), a.i, b.i, w.drawing.drawings@[i], w.images.items()[i].1); }
    let hs = headers(w.header_footer_images);
    assert forall|i: int| 0 <= i < hs.len() implies head(tv(w.vml_drawing_relationships@), b.h, #[trigger] w.header_footer_vml_info@[i], hs[i].hash@) by { assert(head(tv(w.vml_drawing_relationships@), a.h, w.header_footer_vml_info@[i], hs[i].hash@)); }
}
pub open spec fn clean(w: Worksheet) -> bool {
    w.drawing_relationships@.len() == 0 && w.drawing_rel_ids.m() == M::empty() && w.vml_drawing_relationships@.len() == 0 && w.header_footer_vml_info@.len() == 0 && w.background_relationships@.len() == 0 && w.drawing.drawings@.len() == 0 && w.drawing_object_relationships@.len() == 0
}
/// how many numbers a sheet can take
pub open spec fn need(w: Worksheet) -> int { 8 + 2 * (w.images.items().len() as int) + (w.charts.items().len() as int) + (w.shapes.items().len() as int) }
pub open spec fn needs(s: Seq<Worksheet>, k: int) -> int decreases k { if k <= 0 { 0 } else { needs(s, k - 1) + need(s[k - 1]) } }
pub proof fn needs_grow(s: Seq<Worksheet>, k: int, n: int) requires 0 <= k <= n ensures 0 <= needs(s, k) <= needs(s, n) decreases n { if k < n { needs_grow(s, k, n - 1); } else if n > 0 { needs_grow(s, n - 1, n - 1); } }
/// adding never renumbers, and uses at most one number per image
pub proof fn sheet_grows(d: Ids, w: Worksheet) requires 0 <= d.n, d.n + need(w) < u32::MAX
    ensures ids_extend(d, with_sheet(d, w)), d.n <= with_sheet(d, w).n <= d.n + need(w), d.n <= with_background(d, w).n <= d.n + 1, with_background(d, w).n <= with_images(with_background(d, w), w).n <= with_background(d, w).n + w.images.items().len()
{
    let x = with_background(d, w); take_grows(x.i, x.n, seconds(w.images.items())); let y = with_images(x, w); headers_none(w.header_footer_images); take_grows(y.h, y.n, headers(w.header_footer_images));
    let z = with_headers(y, w); assert(z == with_sheet(d, w)); assert(extends(d.b, x.b)); assert(x.b == z.b); assert(extends(x.i, y.i)); assert(d.i == x.i && y.i == z.i); assert(extends(y.h, z.h));
}
pub proof fn ids_grow(s: Seq<Worksheet>, k: int, n: int) requires 0 <= n, 0 <= k <= s.len(), n + needs(s, k) < u32::MAX ensures n <= sheets_ids(s, k, n).n <= n + needs(s, k) decreases k
{ if k > 0 { needs_grow(s, k - 1, k); ids_grow(s, k - 1, n); sheet_grows(sheets_ids(s, k - 1, n), s[k - 1]); } }
impl Workbook {
//@fn src/workbook.rs prepare_drawings impl="impl Workbook" attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(80)]
| requires forall|i: int| 0 <= i < old(self).worksheets@.len() ==> sheet_ok(#[trigger] old(self).worksheets@[i]) && clean(old(self).worksheets@[i]), old(self).embedded_images@.len() + needs(old(self).worksheets@, old(self).worksheets@.len() as int) < 0x7fff_ffff,
| ensures final(self).worksheets@.len() == old(self).worksheets@.len(), forall|i: int| 0 <= i < old(self).worksheets@.len() ==> same_media(old(self).worksheets@[i], #[trigger] final(self).worksheets@[i])
|   && done(final(self).worksheets@[i], sheets_ids(old(self).worksheets@, old(self).worksheets@.len() as int, old(self).embedded_images@.len() as int)),
//@rewrite for worksheet in &mut self\.worksheets \{ => let vp_n = self.worksheets.len(); for vp_i in 0..vp_n { let worksheet = &mut self.worksheets[vp_i];
//@rewrite image\.clone\(\) => image.vp_copy()
//@rewrite \.hash\.clone\(\) => .hash.vp_copy()
//@rewrite let mut (\w+): HashMap<String, u32> = HashMap::new\(\); => let mut \1 = VpIds::new();
//@at body-start
| let ghost ss = self.worksheets@; let ghost e = self.embedded_images@.len() as int; let ghost n = ss.len() as int;
| proof { needs_grow(ss, 0, n); }
//@loop 1
| invariant vp_n == n, self.worksheets@.len() == n, self.embedded_images@.len() == e, sheets_ids(ss, vp_i as int, e) == (Ids { b: background_image_ids.m(), i: worksheet_image_ids.m(), h: header_footer_image_ids.m(), n: image_id as int }),
|   chart_id <= 1 + needs(ss, vp_i as int), shape_id <= 1 + needs(ss, vp_i as int), drawing_id <= 1 + needs(ss, vp_i as int), image_id <= e + needs(ss, vp_i as int),
|   forall|i: int| vp_i <= i < n ==> #[trigger] self.worksheets@[i] == ss[i], forall|i: int| 0 <= i < vp_i ==> same_media(ss[i], #[trigger] self.worksheets@[i]) && done(self.worksheets@[i], sheets_ids(ss, vp_i as int, e)),
//@at loop 1 start
| let ghost d = sheets_ids(ss, vp_i as int, e); let ghost w = ss[vp_i as int]; let ghost v0 = self.worksheets@;
| proof { needs_grow(ss, vp_i + 1, n); needs_grow(ss, vp_i as int, vp_i + 1); sheet_grows(d, w); assert(self.worksheets@[vp_i as int] == w); assert(sheet_ok(w)); assert(clean(w)); headers_none(w.header_footer_images); }
//@before /if !worksheet\.images\.is_empty\(\) \{/
| let ghost w1 = *worksheet; let ghost d1 = with_background(d, w);
| proof { assert(w_ok(w1, d1.i)); assert(d1 == (Ids { b: background_image_ids.m(), i: worksheet_image_ids.m(), h: header_footer_image_ids.m(), n: image_id as int })); assert(same_media(w, w1)); }
//@before /if !worksheet\.charts\.is_empty\(\) \{/
| let ghost w2 = *worksheet; let ghost d2 = with_images(d1, w);
| proof { assert(d2 == (Ids { b: background_image_ids.m(), i: worksheet_image_ids.m(), h: header_footer_image_ids.m(), n: image_id as int })); assert(w_ok(w2, d2.i)); }
//@before /if worksheet\.has_header_footer_images\(\)/
| let ghost w3 = *worksheet;
| proof { assert(adds(w2, w3)); }
//@at loop 1 end
| proof { let w4 = self.worksheets@[vp_i as int]; let d4 = sheets_ids(ss, vp_i + 1, e); assert(d4 == with_sheet(d, w)); let r4 = tv(w4.drawing_relationships@); let r2 = tv(w2.drawing_relationships@); assert(prefix(r2, r4)); assert(extends(d2.i, d4.i));
|   assert forall|i: int| 0 <= i < w4.images.items().len() implies shows(r4, d4.i, #[trigger] w4.drawing.drawings@[i], w4.images.items()[i].1) by { assert(w4.drawing.drawings@[i] == w2.drawing.drawings@[i]); assert(shows(r2, d2.i, w2.drawing.drawings@[0 + i], w.images.items()[i].1)); shows_kept(r2, r4, d2.i, d4.i, w2.drawing.drawings@[i], w.images.items()[i].1); }
|   assert(w4.background_relationships == w1.background_relationships); assert(heads(w4, d4.h, headers(w.header_footer_images).len() as int)); assert(done(w4, d4)); assert(same_media(w, w4)); }
| proof { assert forall|i: int| 0 <= i < vp_i implies done(#[trigger] self.worksheets@[i], sheets_ids(ss, vp_i + 1, e)) by { assert(self.worksheets@[i] == v0[i]); done_kept(v0[i], d, sheets_ids(ss, vp_i + 1, e)); } }
//@end
}
// ---------------------------------------------------------------- the package
pub enum Content { Empty, Bytes(Seq<u8>), Xml(Seq<Tag>) }
pub type Part = (Seq<char>, Content);
/// trusted: the zip writer as the parts written to it
#[verifier::external_body] pub struct Zip { }
#[derive(Clone, Copy)] pub struct Opt { pub o: u8 }
pub trait VpName { spec fn nm(&self) -> Seq<char>; }
impl VpName for String { open spec fn nm(&self) -> Seq<char> { self@ } }
impl<'a> VpName for &'a str { open spec fn nm(&self) -> Seq<char> { (**self)@ } }
pub trait VpData { spec fn content(&self) -> Content; }
impl VpData for Vec<u8> { open spec fn content(&self) -> Content { Content::Bytes(self@) } }
impl VpData for Writer { open spec fn content(&self) -> Content { Content::Xml(self.log()) } }
impl Zip {
    pub uninterp spec fn parts(&self) -> Seq<Part>;
    #[verifier::external_body] pub fn start_file<N: VpName>(&mut self, name: N, o: Opt) -> (r: Result<(), XlsxError>) ensures r is Ok ==> final(self).parts() == old(self).parts().push((name.nm(), Content::Empty)) { Ok(()) }
    #[verifier::external_body] pub fn write_all<D: VpData>(&mut self, d: &D) -> (r: Result<(), XlsxError>) ensures r is Ok && old(self).parts().len() > 0 && old(self).parts().last().1 is Empty ==> final(self).parts() == old(self).parts().drop_last().push((old(self).parts().last().0, d.content())) { Ok(()) }
}
impl Writer { #[verifier::external_body] pub fn get_ref(&self) -> (r: &Writer) ensures *r == *self { self } }
impl VpFmt for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
pub struct Packager { pub zip: Zip, pub zip_options: Opt, pub zip_options_for_binary_files: Opt }
/// the file with the number of hash k is in the package, with the bytes that k stands for
pub open spec fn filed(p: Seq<Part>, base: int, n: int, m: M) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> 1 <= m[k] <= n && p[base + m[k] - 1] == (media(m[k] as int, k), Content::Bytes(hash_data(k))) }
pub open spec fn embedded(p: Seq<Part>, base: int, s: Seq<Image>, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] p[base + i] == (media(i + 1, s[i].hash@), Content::Bytes(s[i].data@)) }
pub open spec fn new_file(n: int, k: Seq<char>) -> Part { (media(n, k), Content::Bytes(hash_data(k))) }
pub proof fn filed_push(p: Seq<Part>, base: int, n: int, m: M, k: Seq<char>)
    requires filed(p, base, n, m), p.len() == base + n, 0 <= base, 0 <= n < u32::MAX
    ensures filed(p.push(new_file(n + 1, k)), base, n + 1, m), filed(p.push(new_file(n + 1, k)), base, n + 1, m.insert(k, (n + 1) as u32))
{ }
pub proof fn files_push(p: Seq<Part>, base: int, s: Seq<Image>, d: Ids, k: Seq<char>)
    requires files(p, base, s, d), 0 <= d.n < u32::MAX
    ensures files(p.push(new_file(d.n + 1, k)), base, s, Ids { b: d.b.insert(k, (d.n + 1) as u32), n: d.n + 1, ..d }), files(p.push(new_file(d.n + 1, k)), base, s, Ids { i: d.i.insert(k, (d.n + 1) as u32), n: d.n + 1, ..d }), files(p.push(new_file(d.n + 1, k)), base, s, Ids { h: d.h.insert(k, (d.n + 1) as u32), n: d.n + 1, ..d })
{ reveal(files); filed_push(p, base, d.n, d.b, k); filed_push(p, base, d.n, d.i, k); filed_push(p, base, d.n, d.h, k); }
#[verifier::opaque] pub open spec fn at_image(d: Ids, s: Seq<Image>, k: int) -> Ids { let (m, n) = take_all(d.i, d.n, s.take(k)); Ids { i: m, n: n, ..d } }
#[verifier::opaque] pub open spec fn at_head(d: Ids, s: Seq<Image>, k: int) -> Ids { let (m, n) = take_all(d.h, d.n, s.take(k)); Ids { h: m, n: n, ..d } }
pub proof fn at_none(d: Ids, s: Seq<Image>) ensures at_image(d, s, 0) == d, at_head(d, s, 0) == d { reveal(at_image); reveal(at_head); assert(s.take(0) =~= Seq::<Image>::empty()); }
pub proof fn at_step(p: Seq<Part>, base: int, em: Seq<Image>, d: Ids, s: Seq<Image>, j: int)
    requires 0 <= j < s.len(), 0 <= d.n, d.n + s.len() < u32::MAX
    ensures d.n <= at_image(d, s, j).n <= d.n + j, d.n <= at_head(d, s, j).n <= d.n + j,
        ({ let e = at_image(d, s, j); let f = at_image(d, s, j + 1); let k = s[j].hash@; if e.i.dom().contains(k) { f == e } else { f.n == e.n + 1 && f.b == e.b && f.h == e.h && f.i.dom() == e.i.dom().insert(k) && (files(p, base, em, e) ==> files(p.push(new_file(e.n + 1, k)), base, em, f)) } }),
        ({ let e = at_head(d, s, j); let f = at_head(d, s, j + 1); let k = s[j].hash@; if e.h.dom().contains(k) { f == e } else { f.n == e.n + 1 && f.b == e.b && f.i == e.i && f.h.dom() == e.h.dom().insert(k) && (files(p, base, em, e) ==> files(p.push(new_file(e.n + 1, k)), base, em, f)) } }),
{
    reveal(at_image); reveal(at_head); take_next(d.i, d.n, s, j); take_next(d.h, d.n, s, j); take_grows(d.i, d.n, s.take(j)); take_grows(d.h, d.n, s.take(j));
    let k = s[j].hash@; let e = at_image(d, s, j); let h = at_head(d, s, j);
    if files(p, base, em, e) { files_push(p, base, em, e, k); } if files(p, base, em, h) { files_push(p, base, em, h, k); }
    assert(e.i.insert(k, (e.n + 1) as u32).dom() =~= e.i.dom().insert(k)); assert(h.h.insert(k, (h.n + 1) as u32).dom() =~= h.h.dom().insert(k));
}
pub proof fn at_end(d: Ids, w: Worksheet) ensures at_image(d, seconds(w.images.items()), seconds(w.images.items()).len() as int) == with_images(d, w), at_head(d, headers(w.header_footer_images), headers(w.header_footer_images).len() as int) == with_headers(d, w)
{ reveal(at_image); reveal(at_head); let a = seconds(w.images.items()); let b = headers(w.header_footer_images); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); }
#[verifier::opaque] pub open spec fn files(p: Seq<Part>, base: int, s: Seq<Image>, d: Ids) -> bool { p.len() == base + d.n && 0 <= base && s.len() <= d.n && embedded(p, base, s, s.len() as int) && filed(p, base, d.n, d.b) && filed(p, base, d.n, d.i) && filed(p, base, d.n, d.h) }
pub proof fn back_step(p: Seq<Part>, base: int, em: Seq<Image>, d: Ids, w: Worksheet)
    requires files(p, base, em, d), 0 <= d.n < u32::MAX
    ensures w.background_image is None ==> with_background(d, w) == d,
        w.background_image is Some ==> ({ let e = with_background(d, w); let k = w.background_image->0.hash@; if d.b.dom().contains(k) { e == d } else { e.n == d.n + 1 && e.i == d.i && e.h == d.h && e.b.dom() == d.b.dom().insert(k) && files(p.push(new_file(d.n + 1, k)), base, em, e) } }),
{ match w.background_image { Some(im) => { files_push(p, base, em, d, im.hash@); assert(d.b.insert(im.hash@, (d.n + 1) as u32).dom() =~= d.b.dom().insert(im.hash@)); } None => { } } }
pub open spec fn sets(b: VpSet, i: VpSet, h: VpSet, d: Ids) -> bool { b.s() == d.b.dom() && i.s() == d.i.dom() && h.s() == d.h.dom() }
impl Packager {
//@fn src/packager.rs write_image_files impl="Packager<W>" ret=r attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| requires forall|i: int| 0 <= i < old(workbook).worksheets@.len() ==> sheet_ok(#[trigger] old(workbook).worksheets@[i]), imgs_ok(old(workbook).embedded_images@), old(workbook).embedded_images@.len() + needs(old(workbook).worksheets@, old(workbook).worksheets@.len() as int) < 0x7fff_ffff,
| ensures *final(workbook) == *old(workbook), r is Ok ==> files(final(self).zip.parts(), old(self).zip.parts().len() as int, old(workbook).embedded_images@, sheets_ids(old(workbook).worksheets@, old(workbook).worksheets@.len() as int, old(workbook).embedded_images@.len() as int)),
//@rewrite HashSet::new\(\) => VpSet::new()
//@rewrite for image in &workbook\.embedded_images \{ => for vp_e in 0..workbook.embedded_images.len() { let image = &workbook.embedded_images[vp_e];
//@rewrite for worksheet in &mut workbook\.worksheets \{ => for vp_i in 0..workbook.worksheets.len() { let worksheet = &workbook.worksheets[vp_i];
//@rewrite for image in worksheet\.images\.values\(\) \{ => let vp_v = vp_values(&worksheet.images); for vp_j in 0..vp_v.len() { let image = &vp_v[vp_j];
//@rewrite for image in worksheet\.header_footer_images\.clone\(\)\.into_iter\(\)\.flatten\(\) \{ => let vp_h = vp_headers(&worksheet.header_footer_images); for vp_k in 0..vp_h.len() { let image = vp_h[vp_k].vp_copy();
//@rewrite \.hash\.clone\(\) => .hash.vp_copy()
//@at body-start
| let ghost ss = workbook.worksheets@; let ghost em = workbook.embedded_images@; let ghost n = ss.len() as int; let ghost p0 = self.zip.parts(); let ghost base = p0.len() as int;
| proof { needs_grow(ss, 0, n); }
//@loop 1
| invariant *workbook == *old(workbook), index == 1 + vp_e, self.zip.parts().len() == base + vp_e, embedded(self.zip.parts(), base, em, vp_e as int), unique_worksheet_images.s() == Set::<Seq<char>>::empty(), unique_header_footer_images.s() == Set::<Seq<char>>::empty(), unique_background_images.s() == Set::<Seq<char>>::empty(),
//@at loop 1 start
| let ghost pa = self.zip.parts(); proof { assert(img_ok(em[vp_e as int])); }
//@at loop 1 end
| proof { assert(self.zip.parts() =~= pa.push((media(vp_e + 1, image.hash@), Content::Bytes(image.data@)))); }
//@at before-loop 2
| proof { reveal(files); assert(Map::<Seq<char>, u32>::empty().dom() =~= Set::<Seq<char>>::empty()); assert(files(self.zip.parts(), base, em, sheets_ids(ss, 0, em.len() as int))); }
//@loop 2
| invariant *workbook == *old(workbook), files(self.zip.parts(), base, em, sheets_ids(ss, vp_i as int, em.len() as int)), index == 1 + sheets_ids(ss, vp_i as int, em.len() as int).n, em.len() <= sheets_ids(ss, vp_i as int, em.len() as int).n <= em.len() + needs(ss, vp_i as int),
|   sets(unique_background_images, unique_worksheet_images, unique_header_footer_images, sheets_ids(ss, vp_i as int, em.len() as int)),
//@at loop 2 start
| let ghost d = sheets_ids(ss, vp_i as int, em.len() as int); let ghost w = ss[vp_i as int]; let ghost pa = self.zip.parts();
| proof { needs_grow(ss, vp_i + 1, n); needs_grow(ss, vp_i as int, vp_i + 1); sheet_grows(d, w); assert(sheet_ok(w)); headers_none(w.header_footer_images); back_step(pa, base, em, d, w); }
| let ghost d1 = with_background(d, w); let ghost d2 = with_images(d1, w); let ghost ims = seconds(w.images.items()); let ghost hs = headers(w.header_footer_images);
//@at before-loop 3
| proof { match w.background_image { Some(im) => { if !d.b.dom().contains(im.hash@) { assert(self.zip.parts() =~= pa.push(new_file(d.n + 1, im.hash@))); } }, None => { } }
|   assert(files(self.zip.parts(), base, em, d1)); at_none(d1, ims); at_end(d1, w); at_end(d2, w); at_none(d2, hs); }
//@loop 3
| invariant vp_v@ == ims, *workbook == *old(workbook), files(self.zip.parts(), base, em, at_image(d1, ims, vp_j as int)), index == 1 + at_image(d1, ims, vp_j as int).n, sets(unique_background_images, unique_worksheet_images, unique_header_footer_images, at_image(d1, ims, vp_j as int)),
//@at loop 3 start
| let ghost pb = self.zip.parts(); let ghost e = at_image(d1, ims, vp_j as int); let ghost k = ims[vp_j as int].hash@;
| proof { assert(img_ok(ims[vp_j as int])); at_step(pb, base, em, d1, ims, vp_j as int); }
//@at loop 3 end
| proof { if !e.i.dom().contains(k) { assert(self.zip.parts() =~= pb.push(new_file(e.n + 1, k))); } }
//@loop 4
| invariant vp_h@ == hs, *workbook == *old(workbook), files(self.zip.parts(), base, em, at_head(d2, hs, vp_k as int)), index == 1 + at_head(d2, hs, vp_k as int).n, sets(unique_background_images, unique_worksheet_images, unique_header_footer_images, at_head(d2, hs, vp_k as int)),
//@at loop 4 start
| let ghost pb = self.zip.parts(); let ghost e = at_head(d2, hs, vp_k as int); let ghost k = hs[vp_k as int].hash@;
| proof { assert(img_ok(hs[vp_k as int])); at_step(pb, base, em, d2, hs, vp_k as int); }
//@at loop 4 end
| proof { if !e.h.dom().contains(k) { assert(self.zip.parts() =~= pb.push(new_file(e.n + 1, k))); } }
//@at loop 2 end
| proof { assert(with_headers(d2, w) == sheets_ids(ss, vp_i + 1, em.len() as int)); }
//@end
}
#[verifier::external_body] pub fn vp_name(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
impl Packager {
//@fn src/packager.rs write_worksheet_rels_file impl="Packager<W>" ret=r
| requires worksheet.hyperlink_relationships@.len() + worksheet.drawing_object_relationships@.len() + worksheet.background_relationships@.len() + worksheet.table_relationships@.len() + worksheet.comment_relationships@.len() < 0xffff,
| ensures r is Ok ==> final(self).zip.parts() == old(self).zip.parts().push(("xl/worksheets/_rels/sheet"@ + dec(index as nat) + ".xml.rels"@, Content::Xml(rel_file(docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@)))))),
//@rewrite for relationship in &?worksheet[.]hyperlink_relationships \{ => for vp_i0 in 0..worksheet.hyperlink_relationships.len() { let relationship = &worksheet.hyperlink_relationships[vp_i0];
//@rewrite for relationship in &?worksheet[.]drawing_object_relationships \{ => for vp_i1 in 0..worksheet.drawing_object_relationships.len() { let relationship = &worksheet.drawing_object_relationships[vp_i1];
//@rewrite for relationship in &?worksheet[.]background_relationships \{ => for vp_i2 in 0..worksheet.background_relationships.len() { let relationship = &worksheet.background_relationships[vp_i2];
//@rewrite for relationship in &?worksheet[.]table_relationships \{ => for vp_i3 in 0..worksheet.table_relationships.len() { let relationship = &worksheet.table_relationships[vp_i3];
//@rewrite for relationship in &?worksheet[.]comment_relationships \{ => for vp_i4 in 0..worksheet.comment_relationships.len() { let relationship = &worksheet.comment_relationships[vp_i4];
//@at body-start
| let ghost p0 = self.zip.parts();
//@at before-loop 1
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.hyperlink_relationships@).take(0))); }
//@loop 1
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@).take(vp_i0 as int)),
//@at loop 1 end
| proof { assert(docs(tv(worksheet.hyperlink_relationships@).take(vp_i0 + 1)) =~= docs(tv(worksheet.hyperlink_relationships@).take(vp_i0 as int)).push(doc(tv(worksheet.hyperlink_relationships@)[vp_i0 as int]))); }
//@at after-loop 1
| proof { assert(tv(worksheet.hyperlink_relationships@).take(worksheet.hyperlink_relationships@.len() as int) =~= tv(worksheet.hyperlink_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@))); }
//@at before-loop 2
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@).take(0))); }
//@loop 2
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@).take(vp_i1 as int)),
//@at loop 2 end
| proof { assert(docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@).take(vp_i1 + 1)) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@).take(vp_i1 as int)).push(doc(tv(worksheet.drawing_object_relationships@)[vp_i1 as int]))); }
//@at after-loop 2
| proof { assert(tv(worksheet.drawing_object_relationships@).take(worksheet.drawing_object_relationships@.len() as int) =~= tv(worksheet.drawing_object_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@))); }
//@at before-loop 3
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@).take(0))); }
//@loop 3
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@).take(vp_i2 as int)),
//@at loop 3 end
| proof { assert(docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@).take(vp_i2 + 1)) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@).take(vp_i2 as int)).push(doc(tv(worksheet.background_relationships@)[vp_i2 as int]))); }
//@at after-loop 3
| proof { assert(tv(worksheet.background_relationships@).take(worksheet.background_relationships@.len() as int) =~= tv(worksheet.background_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@))); }
//@at before-loop 4
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@).take(0))); }
//@loop 4
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@).take(vp_i3 as int)),
//@at loop 4 end
| proof { assert(docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@).take(vp_i3 + 1)) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@).take(vp_i3 as int)).push(doc(tv(worksheet.table_relationships@)[vp_i3 as int]))); }
//@at after-loop 4
| proof { assert(tv(worksheet.table_relationships@).take(worksheet.table_relationships@.len() as int) =~= tv(worksheet.table_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@))); }
//@at before-loop 5
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@).take(0))); }
//@loop 5
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@).take(vp_i4 as int)),
//@at loop 5 end
| proof { assert(docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@).take(vp_i4 + 1)) =~= docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@).take(vp_i4 as int)).push(doc(tv(worksheet.comment_relationships@)[vp_i4 as int]))); }
//@at after-loop 5
| proof { assert(tv(worksheet.comment_relationships@).take(worksheet.comment_relationships@.len() as int) =~= tv(worksheet.comment_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.hyperlink_relationships@) + tv(worksheet.drawing_object_relationships@) + tv(worksheet.background_relationships@) + tv(worksheet.table_relationships@) + tv(worksheet.comment_relationships@))); }
//@before /rels\.assemble_xml_file/
| let ghost rr = tv(rels.relationships@);
//@before /Ok\(\(\)\)/
| proof { assert(Seq::<Tag>::empty() + rel_file(rr) =~= rel_file(rr)); assert(self.zip.parts() =~= p0.push((filename.nm(), Content::Xml(rel_file(rr))))); }
//@rewrite start_file\(filename, => start_file(vp_name(&filename),
//@end
//@fn src/packager.rs write_chartsheet_rels_file impl="Packager<W>" ret=r
| requires worksheet.drawing_object_relationships@.len() < 0xffff,
| ensures r is Ok ==> final(self).zip.parts() == old(self).zip.parts().push(("xl/chartsheets/_rels/sheet"@ + dec(index as nat) + ".xml.rels"@, Content::Xml(rel_file(docs(tv(worksheet.drawing_object_relationships@)))))),
//@rewrite for relationship in &?worksheet[.]drawing_object_relationships \{ => for vp_i0 in 0..worksheet.drawing_object_relationships.len() { let relationship = &worksheet.drawing_object_relationships[vp_i0];
//@at body-start
| let ghost p0 = self.zip.parts();
//@at before-loop 1
| proof { assert(tv(rels.relationships@) =~= docs(tv(worksheet.drawing_object_relationships@).take(0))); }
//@loop 1
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(worksheet.drawing_object_relationships@).take(vp_i0 as int)),
//@at loop 1 end
| proof { assert(docs(tv(worksheet.drawing_object_relationships@).take(vp_i0 + 1)) =~= docs(tv(worksheet.drawing_object_relationships@).take(vp_i0 as int)).push(doc(tv(worksheet.drawing_object_relationships@)[vp_i0 as int]))); }
//@at after-loop 1
| proof { assert(tv(worksheet.drawing_object_relationships@).take(worksheet.drawing_object_relationships@.len() as int) =~= tv(worksheet.drawing_object_relationships@)); assert(tv(rels.relationships@) == docs(tv(worksheet.drawing_object_relationships@))); }
//@before /rels\.assemble_xml_file/
| let ghost rr = tv(rels.relationships@);
//@before /Ok\(\(\)\)/
| proof { assert(Seq::<Tag>::empty() + rel_file(rr) =~= rel_file(rr)); assert(self.zip.parts() =~= p0.push((filename.nm(), Content::Xml(rel_file(rr))))); }
//@rewrite start_file\(filename, => start_file(vp_name(&filename),
//@end
//@fn src/packager.rs write_drawing_rels_file impl="Packager<W>" ret=r
| requires relationships@.len() < 0xffff,
| ensures r is Ok ==> final(self).zip.parts() == old(self).zip.parts().push(("xl/drawings/_rels/drawing"@ + dec(index as nat) + ".xml.rels"@, Content::Xml(rel_file(docs(tv(relationships@)))))),
//@rewrite for relationship in &?relationships \{ => for vp_i0 in 0..relationships.len() { let relationship = &relationships[vp_i0];
//@at body-start
| let ghost p0 = self.zip.parts();
//@at before-loop 1
| proof { assert(tv(rels.relationships@) =~= docs(tv(relationships@).take(0))); }
//@loop 1
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(relationships@).take(vp_i0 as int)),
//@at loop 1 end
| proof { assert(docs(tv(relationships@).take(vp_i0 + 1)) =~= docs(tv(relationships@).take(vp_i0 as int)).push(doc(tv(relationships@)[vp_i0 as int]))); }
//@at after-loop 1
| proof { assert(tv(relationships@).take(relationships@.len() as int) =~= tv(relationships@)); assert(tv(rels.relationships@) == docs(tv(relationships@))); }
//@before /rels\.assemble_xml_file/
| let ghost rr = tv(rels.relationships@);
//@before /Ok\(\(\)\)/
| proof { assert(Seq::<Tag>::empty() + rel_file(rr) =~= rel_file(rr)); assert(self.zip.parts() =~= p0.push((filename.nm(), Content::Xml(rel_file(rr))))); }
//@rewrite start_file\(filename, => start_file(vp_name(&filename),
//@end
//@fn src/packager.rs write_vml_drawing_rels_file impl="Packager<W>" ret=r
| requires relationships@.len() < 0xffff,
| ensures r is Ok ==> final(self).zip.parts() == old(self).zip.parts().push(("xl/drawings/_rels/vmlDrawing"@ + dec(index as nat) + ".vml.rels"@, Content::Xml(rel_file(docs(tv(relationships@)))))),
//@rewrite for relationship in &?relationships \{ => for vp_i0 in 0..relationships.len() { let relationship = &relationships[vp_i0];
//@at body-start
| let ghost p0 = self.zip.parts();
//@at before-loop 1
| proof { assert(tv(rels.relationships@) =~= docs(tv(relationships@).take(0))); }
//@loop 1
| invariant rels.id_num == 1, rels.writer.log() == Seq::<Tag>::empty(), tv(rels.relationships@) == docs(tv(relationships@).take(vp_i0 as int)),
//@at loop 1 end
| proof { assert(docs(tv(relationships@).take(vp_i0 + 1)) =~= docs(tv(relationships@).take(vp_i0 as int)).push(doc(tv(relationships@)[vp_i0 as int]))); }
//@at after-loop 1
| proof { assert(tv(relationships@).take(relationships@.len() as int) =~= tv(relationships@)); assert(tv(rels.relationships@) == docs(tv(relationships@))); }
//@before /rels\.assemble_xml_file/
| let ghost rr = tv(rels.relationships@);
//@before /Ok\(\(\)\)/
| proof { assert(Seq::<Tag>::empty() + rel_file(rr) =~= rel_file(rr)); assert(self.zip.parts() =~= p0.push((filename.nm(), Content::Xml(rel_file(rr))))); }
//@rewrite start_file\(filename, => start_file(vp_name(&filename),
//@end
}
// ---------------------------------------------------------------- content types
pub type Pairs = Seq<(Seq<char>, Seq<char>)>;
/// the first n numbered parts of a kind, all with the type of that kind
#[verifier::opaque] pub open spec fn numbered(a: Seq<char>, b: Seq<char>, t: Seq<char>, n: int) -> Pairs decreases n { if n <= 0 { seq![] } else { numbered(a, b, t, n - 1).push((a + dec(n as nat) + b, t)) } }
pub open spec fn opt(c: bool, a: Pairs, n: Seq<char>, t: Seq<char>) -> Pairs { if c { a.push((n, t)) } else { a } }
pub open spec fn first_defaults() -> Pairs { seq![("rels"@, "application/vnd.openxmlformats-package.relationships+xml"@), ("xml"@, "application/xml"@)] }
pub open spec fn first_overrides() -> Pairs { seq![("/docProps/app.xml"@, "application/vnd.openxmlformats-officedocument.extended-properties+xml"@), ("/docProps/core.xml"@, "application/vnd.openxmlformats-package.core-properties+xml"@), ("/xl/styles.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"@), ("/xl/theme/theme1.xml"@, "application/vnd.openxmlformats-officedocument.theme+xml"@)] }
/// every extension in use has a default type
pub open spec fn the_defaults(o: PackagerOptions) -> Pairs {
    let a = opt(o.has_vml, first_defaults(), "vml"@, "application/vnd.openxmlformats-officedocument.vmlDrawing"@);
    let a = opt(o.image_types@[1], a, "png"@, "image/png"@); let a = opt(o.image_types@[2], a, "jpeg"@, "image/jpeg"@); let a = opt(o.image_types@[3], a, "gif"@, "image/gif"@); let a = opt(o.image_types@[4], a, "bmp"@, "image/bmp"@);
    opt(o.is_xlsm_file, a, "bin"@, "application/vnd.ms-office.vbaProject"@)
}
/// every numbered part and every optional part has a type of its own
pub open spec fn the_overrides(o: PackagerOptions) -> Pairs {
    let a = if o.is_xlsm_file { opt(o.has_vba_signature, first_overrides().push(("/xl/workbook.xml"@, "application/vnd.ms-excel.sheet.macroEnabled.main+xml"@)), "/xl/vbaProjectSignature.bin"@, "application/vnd.ms-office.vbaProjectSignature"@) }
        else { first_overrides().push(("/xl/workbook.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"@)) };
    let a = a + sheets_t(o.num_worksheets as int) + chartsheets_t(o.num_chartsheets as int) + drawings_t(o.num_drawings as int) + charts_t(o.num_charts as int) + tables_t(o.num_tables as int) + comments_t(o.num_comments as int);
    let a = opt(o.has_sst_table, a, "/xl/sharedStrings.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"@);
    let a = opt(o.has_metadata, a, "/xl/metadata.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml"@);
    let a = if o.has_embedded_images { a + rich() } else { a };
    let a = opt(o.feature_property_bags@.len() != 0, a, "/xl/featurePropertyBag/featurePropertyBag.xml"@, "application/vnd.ms-excel.featurepropertybag+xml"@);
    opt(o.properties.custom_properties@.len() != 0, a, "/docProps/custom.xml"@, "application/vnd.openxmlformats-officedocument.custom-properties+xml"@)
}
pub open spec fn rich() -> Pairs { seq![("/xl/richData/rdRichValueTypes.xml"@, "application/vnd.ms-excel.rdrichvaluetypes+xml"@), ("/xl/richData/rdrichvalue.xml"@, "application/vnd.ms-excel.rdrichvalue+xml"@), ("/xl/richData/rdrichvaluestructure.xml"@, "application/vnd.ms-excel.rdrichvaluestructure+xml"@), ("/xl/richData/richValueRel.xml"@, "application/vnd.ms-excel.richvaluerel+xml"@)] }
pub open spec fn sheets_t(n: int) -> Pairs { numbered("/xl/worksheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"@, n) }
pub open spec fn chartsheets_t(n: int) -> Pairs { numbered("/xl/chartsheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"@, n) }
pub open spec fn drawings_t(n: int) -> Pairs { numbered("/xl/drawings/drawing"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawing+xml"@, n) }
pub open spec fn charts_t(n: int) -> Pairs { numbered("/xl/charts/chart"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"@, n) }
pub open spec fn tables_t(n: int) -> Pairs { numbered("/xl/tables/table"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"@, n) }
pub open spec fn comments_t(n: int) -> Pairs { numbered("/xl/comments"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"@, n) }
pub open spec fn pair_tags(name: Seq<char>, k: Seq<char>, v: Pairs) -> Seq<Tag> { Seq::new(v.len(), |i: int| Tag::Empty(name, seq![(k, v[i].0), ("ContentType"@, v[i].1)])) }
pub open spec fn types_file(d: Pairs, o: Pairs) -> Seq<Tag> { seq![Tag::Open("Types"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/content-types"@)])] + pair_tags("Default"@, "Extension"@, d) + pair_tags("Override"@, "PartName"@, o) + seq![Tag::Close("Types"@)] }
pub proof fn number_next(a: Seq<char>, b: Seq<char>, t: Seq<char>, n: int) requires n >= 0 ensures numbered(a, b, t, n + 1) == numbered(a, b, t, n).push((a + dec((n + 1) as nat) + b, t)), numbered(a, b, t, 0) == Pairs::empty() { reveal_with_fuel(numbered, 2); }
impl ContentTypes {
//@fn src/content_types.rs new impl="impl ContentTypes" ret=r
| ensures r.writer.log() == Seq::<Tag>::empty(), pv(r.defaults@) == first_defaults(), pv(r.overrides@) == first_overrides(),
//@rewrite Cursor::new\(Vec::with_capacity\(2048\)\) => Writer::new()
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite ContentTypes \{ => let vp_r = ContentTypes {
//@at body-end
| ; proof { assert(pv(vp_r.defaults@) =~= first_defaults()); assert(pv(vp_r.overrides@) =~= first_overrides()); } vp_r
//@end
//@fn src/content_types.rs add_default impl="impl ContentTypes"
| ensures pv(final(self).defaults@) == pv(old(self).defaults@).push((extension@, content_type@)), final(self).writer == old(self).writer, final(self).overrides == old(self).overrides,
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use pv_push;
//@end
//@fn src/content_types.rs add_override impl="impl ContentTypes"
| ensures pv(final(self).overrides@) == pv(old(self).overrides@).push((part_name@, content_type@)), final(self).writer == old(self).writer, final(self).defaults == old(self).defaults,
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| broadcast use pv_push;
//@end
//@fn src/content_types.rs add_worksheet_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/worksheets/sheet"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"@)),
//@end
//@fn src/content_types.rs add_chartsheet_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/chartsheets/sheet"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"@)),
//@end
//@fn src/content_types.rs add_drawing_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/drawings/drawing"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.drawing+xml"@)),
//@end
//@fn src/content_types.rs add_chart_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/charts/chart"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"@)),
//@end
//@fn src/content_types.rs add_table_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/tables/table"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"@)),
//@end
//@fn src/content_types.rs add_comments_name impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/comments"@ + dec(index as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"@)),
//@end
//@fn src/content_types.rs add_share_strings impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/sharedStrings.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"@)),
//@end
//@fn src/content_types.rs add_metadata impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/metadata.xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml"@)),
//@end
//@fn src/content_types.rs add_custom_properties impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/docProps/custom.xml"@, "application/vnd.openxmlformats-officedocument.custom-properties+xml"@)),
//@end
//@fn src/content_types.rs add_feature_bag_property impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@).push(("/xl/featurePropertyBag/featurePropertyBag.xml"@, "application/vnd.ms-excel.featurepropertybag+xml"@)),
//@end
//@fn src/content_types.rs add_rich_value impl="impl ContentTypes"
| ensures final(self).writer == old(self).writer, final(self).defaults == old(self).defaults, pv(final(self).overrides@) == pv(old(self).overrides@) + rich(),
//@at body-end
| proof { assert(pv(self.overrides@) =~= pv(old(self).overrides@) + rich()); }
//@end
//@fn src/content_types.rs write_default impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("Default"@, seq![("Extension"@, extension@), ("ContentType"@, content_type@)])), final(self).defaults == old(self).defaults, final(self).overrides == old(self).overrides,
//@at body-end
| proof { assert(av(attributes@) =~= seq![("Extension"@, extension@), ("ContentType"@, content_type@)]); }
//@end
//@fn src/content_types.rs write_defaults impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log() + pair_tags("Default"@, "Extension"@, pv(old(self).defaults@)), final(self).defaults == old(self).defaults, final(self).overrides == old(self).overrides,
//@rewrite for pair in self\.defaults\.clone\(\) \{ => let vp_v = self.defaults.vp_copy(); for vp_i in 0..vp_v.len() { let pair = vp_v[vp_i].vp_copy();
//@at body-start
| let ghost l0 = self.writer.log(); let ghost ts = pair_tags("Default"@, "Extension"@, pv(self.defaults@));
//@at before-loop 1
| proof { assert(l0 + ts.take(0) =~= l0); }
//@loop 1
| invariant ts == pair_tags("Default"@, "Extension"@, pv(vp_v@)), self.writer.log() == l0 + ts.take(vp_i as int), self.defaults == old(self).defaults, self.overrides == old(self).overrides,
//@at loop 1 end
| proof { assert(ts.take(vp_i + 1) =~= ts.take(vp_i as int).push(ts[vp_i as int])); assert(l0 + ts.take(vp_i + 1) =~= (l0 + ts.take(vp_i as int)).push(ts[vp_i as int])); }
//@at after-loop 1
| proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end
//@fn src/content_types.rs write_override impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Empty("Override"@, seq![("PartName"@, part_name@), ("ContentType"@, content_type@)])), final(self).defaults == old(self).defaults, final(self).overrides == old(self).overrides,
//@at body-end
| proof { assert(av(attributes@) =~= seq![("PartName"@, part_name@), ("ContentType"@, content_type@)]); }
//@end
//@fn src/content_types.rs write_overrides impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log() + pair_tags("Override"@, "PartName"@, pv(old(self).overrides@)), final(self).defaults == old(self).defaults, final(self).overrides == old(self).overrides,
//@rewrite for pair in self\.overrides\.clone\(\) \{ => let vp_v = self.overrides.vp_copy(); for vp_i in 0..vp_v.len() { let pair = vp_v[vp_i].vp_copy();
//@at body-start
| let ghost l0 = self.writer.log(); let ghost ts = pair_tags("Override"@, "PartName"@, pv(self.overrides@));
//@at before-loop 1
| proof { assert(l0 + ts.take(0) =~= l0); }
//@loop 1
| invariant ts == pair_tags("Override"@, "PartName"@, pv(vp_v@)), self.writer.log() == l0 + ts.take(vp_i as int), self.defaults == old(self).defaults, self.overrides == old(self).overrides,
//@at loop 1 end
| proof { assert(ts.take(vp_i + 1) =~= ts.take(vp_i as int).push(ts[vp_i as int])); assert(l0 + ts.take(vp_i + 1) =~= (l0 + ts.take(vp_i as int)).push(ts[vp_i as int])); }
//@at after-loop 1
| proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end
//@fn src/content_types.rs write_types impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log().push(Tag::Open("Types"@, seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/content-types"@)])), final(self).defaults == old(self).defaults, final(self).overrides == old(self).overrides,
//@rewrite \[\("xmlns", xmlns\)\] => [("xmlns", xmlns.vp_text())]
//@at body-end
| proof { assert(av(attributes@) =~= seq![("xmlns"@, "http://schemas.openxmlformats.org/package/2006/content-types"@)]); }
//@end
//@fn src/content_types.rs assemble_xml_file impl="impl ContentTypes"
| ensures final(self).writer.log() == old(self).writer.log() + types_file(pv(old(self).defaults@), pv(old(self).overrides@)),
//@at body-end
| proof { assert(self.writer.log() =~= old(self).writer.log() + types_file(pv(old(self).defaults@), pv(old(self).overrides@))); }
//@end
}
impl Packager {
//@fn src/packager.rs write_content_types_file impl="Packager<W>" ret=r attr=#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]
| ensures r is Ok ==> final(self).zip.parts() == old(self).zip.parts().push(("[Content_Types].xml"@, Content::Xml(types_file(the_defaults(*options), the_overrides(*options))))),
//@rewrite !options\.feature_property_bags\.is_empty\(\) => (options.feature_property_bags.len() != 0)
//@rewrite !options\.properties\.custom_properties\.is_empty\(\) => (options.properties.custom_properties.len() != 0)
//@at body-start
| let ghost p0 = self.zip.parts();
//@at before-loop 1
| let ghost a0 = pv(content_types.overrides@);
| proof { number_next("/xl/worksheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"@, 0); assert(a0 + sheets_t(0) =~= a0); }
//@loop 1
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a0 + sheets_t(i as int),
//@at loop 1 end
| proof { number_next("/xl/worksheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"@, i as int); assert(a0 + sheets_t(i + 1) =~= (a0 + sheets_t(i as int)).push(("/xl/worksheets/sheet"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"@))); }
//@at before-loop 2
| let ghost a1 = pv(content_types.overrides@);
| proof { number_next("/xl/chartsheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"@, 0); assert(a1 + chartsheets_t(0) =~= a1); }
//@loop 2
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a1 + chartsheets_t(i as int),
//@at loop 2 end
| proof { number_next("/xl/chartsheets/sheet"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"@, i as int); assert(a1 + chartsheets_t(i + 1) =~= (a1 + chartsheets_t(i as int)).push(("/xl/chartsheets/sheet"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"@))); }
//@at before-loop 3
| let ghost a2 = pv(content_types.overrides@);
| proof { number_next("/xl/drawings/drawing"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawing+xml"@, 0); assert(a2 + drawings_t(0) =~= a2); }
//@loop 3
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a2 + drawings_t(i as int),
//@at loop 3 end
| proof { number_next("/xl/drawings/drawing"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawing+xml"@, i as int); assert(a2 + drawings_t(i + 1) =~= (a2 + drawings_t(i as int)).push(("/xl/drawings/drawing"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.drawing+xml"@))); }
//@at before-loop 4
| let ghost a3 = pv(content_types.overrides@);
| proof { number_next("/xl/charts/chart"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"@, 0); assert(a3 + charts_t(0) =~= a3); }
//@loop 4
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a3 + charts_t(i as int),
//@at loop 4 end
| proof { number_next("/xl/charts/chart"@, ".xml"@, "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"@, i as int); assert(a3 + charts_t(i + 1) =~= (a3 + charts_t(i as int)).push(("/xl/charts/chart"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"@))); }
//@at before-loop 5
| let ghost a4 = pv(content_types.overrides@);
| proof { number_next("/xl/tables/table"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"@, 0); assert(a4 + tables_t(0) =~= a4); }
//@loop 5
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a4 + tables_t(i as int),
//@at loop 5 end
| proof { number_next("/xl/tables/table"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"@, i as int); assert(a4 + tables_t(i + 1) =~= (a4 + tables_t(i as int)).push(("/xl/tables/table"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"@))); }
//@at before-loop 6
| let ghost a5 = pv(content_types.overrides@);
| proof { number_next("/xl/comments"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"@, 0); assert(a5 + comments_t(0) =~= a5); }
//@loop 6
| invariant content_types.writer.log() == Seq::<Tag>::empty(), pv(content_types.defaults@) == first_defaults(), pv(content_types.overrides@) == a5 + comments_t(i as int),
//@at loop 6 end
| proof { number_next("/xl/comments"@, ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"@, i as int); assert(a5 + comments_t(i + 1) =~= (a5 + comments_t(i as int)).push(("/xl/comments"@ + dec((i + 1) as nat) + ".xml"@, "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"@))); }
//@before /self\.zip\s*\.start_file/
| proof { assert(pv(content_types.overrides@) =~= the_overrides(*options)); assert(pv(content_types.defaults@) =~= the_defaults(*options)); }
//@before /Ok\(\(\)\)/
| proof { let t = types_file(the_defaults(*options), the_overrides(*options)); assert(Seq::<Tag>::empty() + t =~= t); assert(self.zip.parts() =~= p0.push(("[Content_Types].xml"@, Content::Xml(t)))); }
//@end
}
/// the element refers to the relationship after those used so far
pub open spec fn ref_tag(name: Seq<char>, n: int) -> Tag { Tag::Empty(name, seq![("r:id"@, "rId"@ + dec(n as nat))]) }
pub open spec fn refs(name: Seq<char>, first: int, k: int) -> Seq<Tag> { Seq::new(k as nat, |i: int| ref_tag(name, first + i)) }
impl Worksheet {
//@fn src/worksheet.rs write_drawing impl="impl Worksheet"
| requires old(self).rel_count < u32::MAX,
| ensures final(self).rel_count == old(self).rel_count + 1, final(self).writer.log() == old(self).writer.log().push(ref_tag("drawing"@, old(self).rel_count + 1)), *final(self) == (Worksheet { rel_count: final(self).rel_count, writer: final(self).writer, ..*old(self) }),
//@at body-end
| proof { assert(av(attributes@) =~= seq![("r:id"@, "rId"@ + dec((old(self).rel_count + 1) as nat))]); }
//@end
//@fn src/worksheet.rs write_legacy_drawing impl="impl Worksheet"
| requires old(self).rel_count < u32::MAX,
| ensures final(self).rel_count == old(self).rel_count + 1, final(self).writer.log() == old(self).writer.log().push(ref_tag("legacyDrawing"@, old(self).rel_count + 1)), *final(self) == (Worksheet { rel_count: final(self).rel_count, writer: final(self).writer, ..*old(self) }),
//@at body-end
| proof { assert(av(attributes@) =~= seq![("r:id"@, "rId"@ + dec((old(self).rel_count + 1) as nat))]); }
//@end
//@fn src/worksheet.rs write_legacy_drawing_hf impl="impl Worksheet"
| requires old(self).rel_count < u32::MAX,
| ensures final(self).rel_count == old(self).rel_count + 1, final(self).writer.log() == old(self).writer.log().push(ref_tag("legacyDrawingHF"@, old(self).rel_count + 1)), *final(self) == (Worksheet { rel_count: final(self).rel_count, writer: final(self).writer, ..*old(self) }),
//@at body-end
| proof { assert(av(attributes@) =~= seq![("r:id"@, "rId"@ + dec((old(self).rel_count + 1) as nat))]); }
//@end
//@fn src/worksheet.rs write_picture impl="impl Worksheet"
| requires old(self).rel_count < u32::MAX,
| ensures final(self).rel_count == old(self).rel_count + 1, final(self).writer.log() == old(self).writer.log().push(ref_tag("picture"@, old(self).rel_count + 1)), *final(self) == (Worksheet { rel_count: final(self).rel_count, writer: final(self).writer, ..*old(self) }),
//@at body-end
| proof { assert(av(attributes@) =~= seq![("r:id"@, "rId"@ + dec((old(self).rel_count + 1) as nat))]); }
//@end
//@fn src/worksheet.rs write_table_part impl="impl Worksheet"
| ensures final(self).writer.log() == old(self).writer.log().push(ref_tag("tablePart"@, index as int)), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@at body-end
| proof { assert(av(attributes@) =~= seq![("r:id"@, "rId"@ + dec(index as nat))]); }
//@end
//@fn src/worksheet.rs write_table_parts impl="impl Worksheet"
| requires old(self).rel_count + old(self).tables@.len() < u32::MAX,
| ensures final(self).rel_count == old(self).rel_count + old(self).tables@.len(),
|   final(self).writer.log() == old(self).writer.log().push(Tag::Open("tableParts"@, seq![("count"@, dec(old(self).tables@.len()))])) + refs("tablePart"@, old(self).rel_count + 1, old(self).tables@.len() as int).push(Tag::Close("tableParts"@)),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite for _ in 1\.\.=num_tables => for vp_i in 0..num_tables
//@at before-loop 1
| let ghost l0 = self.writer.log(); let ghost n0 = self.rel_count as int;
| proof { assert(av(attributes@) =~= seq![("count"@, dec(self.tables@.len()))]); assert(l0 + refs("tablePart"@, n0 + 1, 0) =~= l0); }
//@loop 1
| invariant self.rel_count == n0 + vp_i, n0 + num_tables < u32::MAX, self.writer.log() == l0 + refs("tablePart"@, n0 + 1, vp_i as int),
//@at loop 1 end
| proof { assert(refs("tablePart"@, n0 + 1, vp_i + 1) =~= refs("tablePart"@, n0 + 1, vp_i as int).push(ref_tag("tablePart"@, n0 + 1 + vp_i))); }
//@at body-end
| proof { assert(self.writer.log() =~= l0 + refs("tablePart"@, n0 + 1, num_tables as int).push(Tag::Close("tableParts"@))); }
//@end
//@fn src/worksheet.rs has_relationships impl="impl Worksheet" ret=r
| ensures r == (self.hyperlink_relationships@.len() + self.drawing_object_relationships@.len() + self.table_relationships@.len() + self.background_relationships@.len() > 0),
//@rewrite self\.(\w+)\.is_empty\(\) => (self.\1.len() == 0)
//@end
}
/// header image i refers to its own file
pub open spec fn heads(w: Worksheet, g: M, k: int) -> bool {
    w.header_footer_vml_info@.len() == k && forall|i: int| 0 <= i < k ==> head(tv(w.vml_drawing_relationships@), g, #[trigger] w.header_footer_vml_info@[i], headers(w.header_footer_images)[i].hash@)
}
pub open spec fn head(r: Seq<Triple>, g: M, v: VmlInfo, k: Seq<char>) -> bool { 1 <= v.rel_id <= r.len() && g.dom().contains(k) && r[v.rel_id - 1] == image_rel(g[k] as int, k) }
impl Writer { #[verifier::external_body] pub fn new() -> (r: Writer) ensures r.log() == Seq::<Tag>::empty() { Writer { } } }
}
fn main() {}
