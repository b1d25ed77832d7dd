// C19: hyperlinks.  Extracted from /repo/src/{url,xmlwriter,worksheet,image,shape}.rs on every run.
use vstd::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@include escape_prelude.rs
//@const src/url.rs MAX_URL_LEN
//@const src/worksheet.rs MAX_PARAMETER_LEN
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/url.rs enum HyperlinkType derive=PartialEq,Structural
//@item src/url.rs struct Url derive=
//@item src/worksheet.rs struct Worksheet keep=writer,hyperlinks,hyperlink_relationships,rel_count,data_table derive= sub=Cursor<Vec<u8>>=>Writer;BTreeMap<\(RowNum,\s*ColNum\),\s*Url>=>VpLinks
//@item src/worksheet.rs enum CellType derive=
//@item src/image.rs struct Image keep=url derive=
//@item src/shape.rs struct Shape keep=url derive=
pub open spec fn at(t: Map<u32, BTreeMap<u16, CellType>>, r: u32, c: u16) -> Option<CellType> { if t.dom().contains(r) && t[r]@.dom().contains(c) { Some(t[r]@[c]) } else { None } }
pub enum XlsxError { MaxUrlLengthExceeded, ParameterError, UnknownUrlType(String), Other }
#[verifier::external_body] pub struct Format { }
impl Format { #[verifier::external_body] pub fn new() -> Format { Format {} } #[verifier::external_body] pub fn set_hyperlink(self) -> Format { self } }
// ---------------------------------------------------------------- specification
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn hash_at(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == '#' { 0 } else { 1 + hash_at(s.skip(1)) } }
/// the parts before and after the first #
pub open spec fn before(s: Seq<char>) -> Seq<char> { s.take(hash_at(s)) }
pub open spec fn after(s: Seq<char>) -> Seq<char> { if hash_at(s) < s.len() { s.skip(hash_at(s) + 1) } else { seq![] } }
pub open spec fn is_web(s: Seq<char>) -> bool { starts(s, "http://"@) || starts(s, "https://"@) || starts(s, "ftp://"@) || starts(s, "ftps://"@) }
pub open spec fn kind(s: Seq<char>) -> HyperlinkType {
    if is_web(s) || starts(s, "mailto:"@) { HyperlinkType::Url } else if starts(s, "internal:"@) { HyperlinkType::Internal } else if starts(s, "file://"@) { HyperlinkType::File } else { HyperlinkType::Unknown }
}
/// the path of a file link, and whether it is relative: not a network share and not on a drive
pub open spec fn path(s: Seq<char>) -> Seq<char> { if starts(s, "file:///"@) { s.skip(8) } else { s.skip(7) } }
pub open spec fn relative(p: Seq<char>) -> bool { !starts(p, "\\\\"@) && !(p.len() > 1 && (p[0] as u32) < 128 && p[0] != ':' && p[1] == ':') }
pub open spec fn file_link(s: Seq<char>) -> Seq<char> { if relative(path(s)) { path(s) } else { s } }
/// the text shown when the user gives none
pub open spec fn shown(s: Seq<char>) -> Seq<char> {
    if is_web(s) { s } else if starts(s, "mailto:"@) { s.skip(7) } else if starts(s, "internal:"@) { s.skip(9) } else { path(s) }
}
/// the place in the target, after the #
pub open spec fn place(s: Seq<char>) -> Seq<char> { if is_web(s) { after(s) } else if starts(s, "mailto:"@) { seq![] } else if starts(s, "internal:"@) { s.skip(9) } else { after(file_link(s)) } }
/// what the link of a cell leads to without the place
pub open spec fn goal(s: Seq<char>) -> Seq<char> { if is_web(s) { before(s) } else if starts(s, "mailto:"@) { s } else if starts(s, "internal:"@) { s } else { before(file_link(s)) } }
/// what the relationship names: with the place when the link is that of an object
pub open spec fn aim(s: Seq<char>, object: bool) -> Seq<char> {
    if kind(s) is Internal { "#"@ + s.skip(9) } else if !object { goal(s) } else if is_web(s) || starts(s, "mailto:"@) { s }
    else if relative(path(s)) { ({ let p = slashes(before(path(s))); if after(path(s)).len() > 0 { p + "#"@ + after(path(s)) } else { p } }) } else { s }
}
pub open spec fn slashes(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == '\\' { '/' } else { c }) }
/// Excel keeps # in the path of a file as %23
pub open spec fn no_hash(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { no_hash(s.drop_last()) + (if s.last() == '#' { "%23"@ } else { seq![s.last()] }) } }
// ---- the characters of a URL: those not allowed in one are escaped, unless the user escaped already
pub open spec fn hex(c: char) -> bool { ('0' <= c && c <= '9') || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f') }
pub open spec fn val(c: char) -> int { if c <= '9' { c as int - 48 } else if c <= 'F' { c as int - 55 } else { c as int - 87 } }
pub open spec fn escape_here(s: Seq<char>, i: int) -> bool { 0 <= i && i + 2 < s.len() && s[i] == '%' && hex(s[i + 1]) && hex(s[i + 2]) }
pub open spec fn escaped(s: Seq<char>) -> bool { exists|i: int| escape_here(s, i) }
pub open spec fn not_allowed(c: char) -> bool { c == '%' || c == '"' || c == ' ' || c == '<' || c == '>' || c == '[' || c == ']' || c == '^' || c == '`' || c == '{' || c == '}' }
pub open spec fn low_hex(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (87 + d) as u8 as char } }
pub open spec fn enc(c: char) -> Seq<char> { if not_allowed(c) { seq!['%', low_hex(c as int / 16), low_hex(c as int % 16)] } else { seq![c] } }
pub open spec fn h_url() -> spec_fn(char) -> Seq<char> { |c: char| enc(c) }
pub open spec fn enc_all(s: Seq<char>) -> Seq<char> { map_all(h_url(), s) }
pub open spec fn once(s: Seq<char>) -> Seq<char> { if escaped(s) { s } else { enc_all(s) } }
/// what the reader makes of it
pub open spec fn unescape(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if escape_here(s, 0) { seq![(16 * val(s[1]) + val(s[2])) as u8 as char] + unescape(s.skip(3)) } else { seq![s[0]] + unescape(s.skip(1)) }
}
/// the target of the relationship
pub open spec fn target(s: Seq<char>, object: bool) -> Seq<char> {
    let t = if kind(s) is Internal { aim(s, object) } else { once(aim(s, object)) };
    if kind(s) is File { no_hash(t) } else { t }
}
// ---- what is proved of the escapes
proof fn enc_prefix(c: char, t: Seq<char>)
    ensures unescape(enc(c) + t) == seq![c] + unescape(t) || (c == '%' && false) || !not_allowed(c)
{
    if not_allowed(c) {
        let s = enc(c) + t;
        assert(s[0] == '%' && s[1] == low_hex(c as int / 16) && s[2] == low_hex(c as int % 16));
        assert(escape_here(s, 0));
        assert((16 * val(s[1]) + val(s[2])) == c as int);
        assert(s.skip(3) =~= t);
    }
}
proof fn map_cons(h: spec_fn(char) -> Seq<char>, s: Seq<char>)
    requires s.len() > 0
    ensures map_all(h, s) == h(s[0]) + map_all(h, s.skip(1))
{
    assert(s =~= seq![s[0]] + s.skip(1));
    map_append(h, seq![s[0]], s.skip(1));
    assert(seq![s[0]].drop_last() =~= seq![]); assert(seq![s[0]].last() == s[0]);
    assert(map_all(h, seq![s[0]]) == map_all(h, seq![s[0]].drop_last()) + h(s[0]));
    assert(map_all(h, seq![s[0]]) =~= h(s[0]));
}
/// every text reads back as it was, whatever it holds
pub proof fn escapes_read_back(s: Seq<char>)
    ensures unescape(enc_all(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        map_cons(h_url(), s);
        escapes_read_back(t);
        let e = enc(s[0]) + enc_all(t);
        assert(enc_all(s) == e);
        if not_allowed(s[0]) { enc_prefix(s[0], enc_all(t)); }
        else { assert(e[0] == s[0]); assert(s[0] != '%'); assert(!escape_here(e, 0)); assert(e.skip(1) =~= enc_all(t)); }
        assert(seq![s[0]] + t =~= s);
    } else { assert(enc_all(s) =~= s); assert(unescape(s) =~= s); }
}
/// nothing that a URL must not hold is left, and nothing else is touched
pub proof fn only_what_is_needed(s: Seq<char>)
    ensures forall|i: int| 0 <= i < enc_all(s).len() ==> !not_allowed(#[trigger] enc_all(s)[i]) || (enc_all(s)[i] == '%' && escape_here(enc_all(s), i)),
        (forall|i: int| 0 <= i < s.len() ==> !not_allowed(#[trigger] s[i])) ==> enc_all(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = enc(s.last()); let all = enc_all(s);
        only_what_is_needed(p);
        assert(all == enc_all(p) + e);
        assert forall|i: int| 0 <= i < all.len() implies !not_allowed(#[trigger] all[i]) || (all[i] == '%' && escape_here(all, i)) by {
            if i < enc_all(p).len() {
                assert(all[i] == enc_all(p)[i]);
                if not_allowed(all[i]) { assert(escape_here(enc_all(p), i)); assert(all[i + 1] == enc_all(p)[i + 1] && all[i + 2] == enc_all(p)[i + 2]); assert(escape_here(all, i)); }
            } else {
                let k = enc_all(p).len() as int;
                assert(all[i] == e[i - k]);
                if not_allowed(s.last()) {
                    if i == k { assert(all[k + 1] == e[1] && all[k + 2] == e[2]); assert(escape_here(all, k)); }
                }
            }
        }
        if forall|i: int| 0 <= i < s.len() ==> !not_allowed(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < p.len() implies !not_allowed(#[trigger] p[i]) by { assert(p[i] == s[i]); }
            assert(!not_allowed(s[s.len() - 1]));
            assert(p + seq![s.last()] =~= s);
        }
    } else { assert(enc_all(s) =~= s); }
}
/// escaping an escaped text again leaves it alone
pub proof fn never_twice(s: Seq<char>) ensures once(once(s)) == once(s) {
    if !escaped(s) {
        if exists|i: int| 0 <= i < s.len() && not_allowed(#[trigger] s[i]) {
            let i = choose|i: int| 0 <= i < s.len() && not_allowed(#[trigger] s[i]);
            assert(s =~= s.take(i) + s.skip(i));
            map_append(h_url(), s.take(i), s.skip(i));
            map_cons(h_url(), s.skip(i));
            assert(s.skip(i)[0] == s[i]);
            let k = map_all(h_url(), s.take(i)).len() as int;
            assert(enc_all(s)[k] == '%' && enc_all(s)[k + 1] == enc(s[i])[1] && enc_all(s)[k + 2] == enc(s[i])[2]);
            assert(escape_here(enc_all(s), k));
        } else { only_what_is_needed(s); }
    }
}
// ---------------------------------------------------------------- trusted: std str
#[verifier::external_body] pub fn vp_starts(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { s.starts_with(p) }
#[verifier::external_body] pub fn vp_has_percent(s: &str) -> (r: bool) ensures r == s@.contains('%') { s.contains('%') }
#[verifier::external_body] pub fn vp_strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(t) => starts(s@, p@) && t@ == s@.skip(p@.len() as int), None => !starts(s@, p@) } { s.strip_prefix(p) }
/// the first occurrence of p is the prefix if there is one
#[verifier::external_body] pub fn vp_replace_first(s: &str, p: &str, q: &str) -> (r: String) ensures starts(s@, p@) ==> r@ == q@ + s@.skip(p@.len() as int) { s.replacen(p, q, 1) }
#[verifier::external_body] pub fn vp_slashes(s: &str) -> (r: String) ensures r@ == slashes(s@) { s.replace('\\', "/") }
#[verifier::external_body] pub fn vp_no_hash(s: &str) -> (r: String) ensures r@ == no_hash(s@) { s.replace('#', "%23") }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn vp_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vp_split2(s: &str) -> (r: Vec<String>) ensures hash_at(s@) < s@.len() ==> r@.len() == 2 && r@[0]@ == before(s@) && r@[1]@ == after(s@), hash_at(s@) >= s@.len() ==> r@.len() == 1 && r@[0]@ == s@ { s.splitn(2, '#').map(|t| t.to_string()).collect() }
/// the byte of the first colon; it is 1 exactly if the second character is the first colon and the first takes one byte
#[verifier::external_body] pub fn vp_find_colon(s: &str) -> (r: Option<usize>) ensures (r == Some(1usize)) == (s@.len() > 1 && (s@[0] as u32) < 128 && s@[0] != ':' && s@[1] == ':') { s.find(':') }
#[verifier::external_body] pub fn vp_first_ascii(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && (s@[0] as u32) < 128) { s.starts_with(|c: char| c.is_ascii()) }
/// ASCII bytes in a row are characters in a row
pub open spec fn trio(s: Seq<char>, i: int, w: [u8; 3]) -> bool { 0 <= i && i + 2 < s.len() && s[i] == w[0] as char && s[i + 1] == w[1] as char && s[i + 2] == w[2] as char && w[0] < 128 && w[1] < 128 && w[2] < 128 }
pub open spec fn ascii(w: [u8; 3]) -> bool { w[0] < 128 && w[1] < 128 && w[2] < 128 }
pub open spec fn in_text(s: Seq<char>, w: [u8; 3]) -> bool { exists|i: int| trio(s, i, w) }
pub open spec fn in_list(s: Seq<char>, i: int, w: Seq<[u8; 3]>) -> bool { exists|k: int| 0 <= k < w.len() && trio(s, i, #[trigger] w[k]) }
#[verifier::external_body] pub fn vp_windows3(s: &str) -> (r: Vec<[u8; 3]>)
    ensures windows_of(s@, r@)
{ s.as_bytes().windows(3).map(|w| [w[0], w[1], w[2]]).collect() }
pub assume_specification [u8::is_ascii_hexdigit] (c: &u8) -> (r: bool) ensures r == (('0' as u8 <= *c && *c <= '9' as u8) || ('A' as u8 <= *c && *c <= 'F' as u8) || ('a' as u8 <= *c && *c <= 'f' as u8));
// ---- trusted: the maps of links and cells
pub type Link = ((u32, u16), Url);
#[verifier::external_body] pub struct VpLinks { }
impl VpLinks {
    pub uninterp spec fn view(&self) -> Map<(u32, u16), Url>;
    #[verifier::external_body] pub fn insert(&mut self, k: (u32, u16), u: Url) ensures final(self)@ == old(self)@.insert(k, u) { }
}
pub open spec fn same_url(a: Url, b: Url) -> bool { a.original_url@ == b.original_url@ && a.link@ == b.link@ && a.relationship_link@ == b.relationship_link@ && a.text@ == b.text@ && a.tool_tip@ == b.tool_tip@ && a.anchor@ == b.anchor@ && a.link_type == b.link_type && a.is_object_link == b.is_object_link && a.rel_id == b.rel_id }
impl Url { #[verifier::external_body] fn vp_clone(&self) -> (r: Url) ensures same_url(r, *self), r == *self { unimplemented!() } }
/// BTreeMap: the entries in the order of their keys
pub uninterp spec fn entries(m: Map<(u32, u16), Url>) -> Seq<Link>;
pub broadcast axiom fn entries_are(m: Map<(u32, u16), Url>)
    ensures (#[trigger] entries(m)).len() == m.dom().len(),
        forall|k: (u32, u16)| m.dom().contains(k) <==> exists|i: int| 0 <= i < entries(m).len() && (#[trigger] entries(m)[i]).0 == k,
        forall|i: int| 0 <= i < entries(m).len() ==> m.dom().contains((#[trigger] entries(m)[i]).0) && m[entries(m)[i].0] == entries(m)[i].1;
#[verifier::external_body] pub fn vp_entries(m: &VpLinks) -> (r: Vec<Link>) ensures r@.len() == entries(m@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == entries(m@)[i].0 && same_url(r@[i].1, entries(m@)[i].1) { unimplemented!() }
/// the cell shows the text (an empty text is a blank cell)
pub open spec fn shows(x: Option<CellType>, t: Seq<char>) -> bool { match x { Some(CellType::String { string, .. }) => string@ == t, Some(CellType::InlineString { string, .. }) => string@ == t, Some(CellType::Blank { .. }) => t.len() == 0, _ => false } }
/// three bytes that are an escape
pub open spec fn pct(w: [u8; 3]) -> bool { ascii(w) && w[0] == '%' as u8 && hex(w[1] as char) && hex(w[2] as char) }
#[verifier::opaque] pub open spec fn any_pct(w: Seq<[u8; 3]>, n: int) -> bool { exists|k: int| 0 <= k < n && pct(#[trigger] w[k]) }
proof fn any_none() ensures forall|w: Seq<[u8; 3]>| !#[trigger] any_pct(w, 0) { reveal(any_pct); }
proof fn any_step(w: Seq<[u8; 3]>, k: int) requires 0 <= k < w.len() ensures any_pct(w, k + 1) == (any_pct(w, k) || pct(w[k])) { reveal(any_pct); }
proof fn no_percent(s: Seq<char>) ensures !s.contains('%') ==> !escaped(s) { if escaped(s) { let i = choose|i: int| escape_here(s, i); assert(s.contains(s[i])); } }
pub open spec fn ascii_at(s: Seq<char>, i: int) -> bool { 0 <= i && i + 2 < s.len() && (s[i] as u32) < 128 && (s[i + 1] as u32) < 128 && (s[i + 2] as u32) < 128 }
pub open spec fn windows_of(s: Seq<char>, w: Seq<[u8; 3]>) -> bool {
    (forall|k: int| 0 <= k < w.len() && ascii(#[trigger] w[k]) ==> in_text(s, w[k]))
    && (forall|i: int| ascii_at(s, i) ==> #[trigger] in_list(s, i, w))
}
proof fn any_is(s: Seq<char>, w: Seq<[u8; 3]>) requires windows_of(s, w) ensures any_pct(w, w.len() as int) == escaped(s) {
    reveal(any_pct);
    if any_pct(w, w.len() as int) { let k = choose|k: int| 0 <= k < w.len() && pct(#[trigger] w[k]); assert(in_text(s, w[k])); let i = choose|i: int| trio(s, i, w[k]); assert(escape_here(s, i)); }
    if escaped(s) { let i = choose|i: int| escape_here(s, i); assert(s[i] == '%'); assert(in_list(s, i, w)); let k = choose|k: int| 0 <= k < w.len() && trio(s, i, #[trigger] w[k]); assert(pct(w[k])); }
}
proof fn lits() ensures "file:///"@ =~= seq!['f', 'i', 'l', 'e', ':', '/', '/', '/'], "file://"@ =~= seq!['f', 'i', 'l', 'e', ':', '/', '/'], "mailto:"@ =~= seq!['m', 'a', 'i', 'l', 't', 'o', ':'], "internal:"@ =~= seq!['i', 'n', 't', 'e', 'r', 'n', 'a', 'l', ':'], "#"@ =~= seq!['#'], ""@ =~= seq![], "#"@.len() == 1 {
    reveal_strlit("file:///"); reveal_strlit("file://"); reveal_strlit("mailto:"); reveal_strlit("internal:"); reveal_strlit("#"); reveal_strlit("");
}
proof fn hash_bounds(s: Seq<char>) ensures 0 <= hash_at(s) <= s.len() decreases s.len() { if s.len() > 0 && s[0] != '#' { hash_bounds(s.skip(1)); } }
pub uninterp spec fn a1(r: int, c: int) -> Seq<char>;
/// unit c01
#[verifier::external_body] pub fn row_col_to_cell(r: u32, c: u16) -> (t: String) ensures t@ == a1(r as int, c as int), t@.len() > 0 { String::new() }
/// links that need a relationship
pub open spec fn by_rel(u: Url) -> bool { u.link_type is Url || u.link_type is File }
pub open spec fn mode(t: HyperlinkType) -> Seq<char> { if t is Internal { seq![] } else { "External"@ } }
impl Worksheet {
    /// trusted (unit c07): a string cell is stored, or an error leaves the worksheet as it was
    #[verifier::external_body] pub fn vp_write_string(&mut self, row: RowNum, col: ColNum, string: &str, format: &Format) -> (r: Result<(), XlsxError>)
        ensures match r { Ok(_) => row < 1048576 && col < 16384 && string@.len() <= 32767 && shows(at(final(self).data_table@, row, col), string@) && final(self).hyperlinks == old(self).hyperlinks && final(self).hyperlink_relationships == old(self).hyperlink_relationships, Err(_) => *final(self) == *old(self) && !(row < 1048576 && col < 16384 && string@.len() <= 32767) }
    { unimplemented!() }
}
// ---------------------------------------------------------------- code under contract
//@fn src/xmlwriter.rs match_url_char ret=r strlits
| ensures match r { Some(t) => t@ =~= enc(ch), None => enc(ch) =~= seq![ch] }
//@end
//@fn src/xmlwriter.rs escape_url ret=r
| ensures r@ == enc_all(data@)
//@rewrite sig:-> Cow<str> => -> String
//@rewrite match_url_char\) => match_url_char, Ghost(h_url()))
//@end

/// a Url as the user makes it
pub open spec fn raw(u: Url, s: Seq<char>) -> bool { u.link@ == s && u.original_url@ == s && u.relationship_link@ == s && u.anchor@.len() == 0 }
/// the fields after parsing
pub open spec fn parsed(a: Url, b: Url, s: Seq<char>) -> bool {
    &&& b.link_type == kind(s) && b.anchor@ == place(s) && b.link@ == goal(s) && b.relationship_link@ == aim(s, a.is_object_link)
    &&& b.text@ == (if a.text@.len() == 0 { shown(s) } else { a.text@ })
    &&& b.tool_tip == a.tool_tip && b.is_object_link == a.is_object_link && b.rel_id == a.rel_id && b.original_url == a.original_url
}
/// and after the escapes
pub open spec fn ready(a: Url, b: Url, s: Seq<char>) -> bool {
    &&& b.link_type == kind(s) && !(kind(s) is Unknown) && b.anchor@ == place(s) && b.link@ == once(goal(s)) && b.relationship_link@ == target(s, a.is_object_link)
    &&& b.text@ == (if a.text@.len() == 0 { shown(s) } else { a.text@ })
    &&& b.tool_tip == a.tool_tip && b.is_object_link == a.is_object_link && b.rel_id == a.rel_id && b.original_url == a.original_url
}
/// the limits of a link
pub open spec fn allowed(u: Url, s: Seq<char>) -> bool { !(kind(s) is Unknown) && goal(s).len() <= 2080 && place(s).len() <= 2080 && u.tool_tip@.len() <= 255 }
impl Url {
//@fn src/url.rs relative_path impl="impl Url" ret=r
| ensures r == relative(url@)
//@rewrite url\.starts_with\(r"\\\\"\) => vp_starts(url, "\\\\\\\\")
//@rewrite url\.find\(':'\) => vp_find_colon(url)
//@rewrite url\.starts_with\(\|c: char\| c\.is_ascii\(\)\) => vp_first_ascii(url)
//@end
//@fn src/url.rs is_escaped impl="impl Url" ret=r loops
| ensures r == escaped(url@)
//@rewrite url\.contains\('%'\) => vp_has_percent(url)
//@rewrite url\s*\.as_bytes\(\)\s*\.windows\(3\)\s*\.any\(\|w\| ([^;{}]+?)\)\n => let vp_w = vp_windows3(url); let mut vp_any = false; let mut vp_i: usize = 0; while vp_i < vp_w.len() { let w = &vp_w[vp_i]; if \1 { vp_any = true; } vp_i = vp_i + 1; } vp_any\n
//@loop 1
| invariant vp_i <= vp_w@.len(), vp_any == any_pct(vp_w@, vp_i as int),
| decreases vp_w@.len() - vp_i
//@at loop 1 start
| proof { any_step(vp_w@, vp_i as int); }
//@at after-loop 1
| proof { any_is(url@, vp_w@); }
//@at body-start
| proof { no_percent(url@); any_none(); }
//@end
//@fn src/url.rs escape_strings impl="impl Url"
| ensures final(self).link@ == once(old(self).link@),
|    final(self).relationship_link@ == ({ let t = if old(self).link_type is Internal { old(self).relationship_link@ } else { once(old(self).relationship_link@) }; if old(self).link_type is File { no_hash(t) } else { t } }),
|    *final(self) == (Url { link: final(self).link, relationship_link: final(self).relationship_link, ..*old(self) })
//@rewrite crate::xmlwriter::escape_url\(([^()]*)\)\.into\(\) => escape_url(\1)
//@rewrite self\.relationship_link\.replace\('#', "%23"\) => vp_no_hash(&self.relationship_link)
//@end
//@fn src/url.rs target impl="impl Url" ret=r
| ensures r@ == self.relationship_link@
//@rewrite self\.relationship_link\.clone\(\) => vp_copy(&self.relationship_link)
//@end
//@fn src/url.rs target_mode impl="impl Url" ret=r strlits
| ensures r@ == mode(self.link_type)
//@rewrite String::from\("External"\) => vp_string("External")
//@end
//@fn src/url.rs increment_rel_id impl="impl Url" ret=r
| requires rel_id < u32::MAX
| ensures r == rel_id + (if by_rel(*old(self)) { 1int } else { 0 }), *final(self) == (if by_rel(*old(self)) { Url { rel_id: rel_id, ..*old(self) } } else { *old(self) })
//@end
//@fn src/url.rs parse_url impl="impl Url" ret=r strlits attr=#[verifier::rlimit(60)]
| requires raw(*old(self), old(self).link@)
| ensures r is Err <==> kind(old(self).link@) is Unknown,
|    r is Ok ==> parsed(*old(self), *final(self), old(self).link@)
//@rewrite self\.link\.starts_with\( => vp_starts(self.link.as_str(), 
//@rewrite self\.text\.is_empty\(\) => vp_empty(self.text.as_str())
//@rewrite self\.anchor\.is_empty\(\) => vp_empty(self.anchor.as_str())
//@rewrite self\.(\w+)\.clone_from\(&([\w.]+)\); => self.\1 = vp_copy(&\2);
//@rewrite let parts: Vec<&str> = self\.link\.splitn\(2, '#'\)\.collect\(\); => let parts = vp_split2(self.link.as_str());
//@rewrite parts\[(\d)\]\.to_string\(\) => vp_copy(&parts[\1])
//@rewrite self\.link\.replacen\(("[^"]*"), ("[^"]*"), 1\) => vp_replace_first(self.link.as_str(), \1, \2)
//@rewrite self\.link\.strip_prefix\("file:///"\) => vp_strip(self.link.as_str(), "file:///")
//@rewrite link_path\.to_string\(\) => vp_string(link_path)
//@rewrite self\.link\.replace\('\\\\', "/"\) => vp_slashes(self.link.as_str())
//@rewrite XlsxError::UnknownUrlType\(self\.original_url\.clone\(\)\) => XlsxError::UnknownUrlType(vp_copy(&self.original_url))
//@at body-start
| let ghost s = self.link@;
| proof { lits(); hash_bounds(s); hash_bounds(path(s)); assert(starts(s, "file:///"@) ==> s.take(7) =~= s.take(8).take(7)); assert("file:///"@.take(7) =~= "file://"@); assert(seq![] + s.skip(7) =~= s.skip(7)); assert(seq![] + s.skip(9) =~= s.skip(9)); assert("#"@ + s.skip(9) =~= "#"@ + s.skip(9)); assert(s.take(s.len() as int) =~= s); assert(path(s).take(path(s).len() as int) =~= path(s));  }
//@before /Ok\(\(\)\)/
| proof { if is_web(s) { assert(self.anchor@ =~= place(s)); assert(parsed(*old(self), *self, s)); } else if starts(s, "mailto:"@) { assert(self.link_type == kind(s)); assert(self.anchor@ =~= place(s)); assert(self.link@ == goal(s)); assert(self.relationship_link@ == aim(s, self.is_object_link)); assert(parsed(*old(self), *self, s)); } else if starts(s, "internal:"@) { assert(parsed(*old(self), *self, s)); } else {
|  assert(self.link_type == kind(s)); assert(self.anchor@ =~= place(s)); assert(self.link@ == goal(s)); assert(self.relationship_link@ == aim(s, self.is_object_link)); } }
//@end
//@fn src/url.rs initialize impl="impl Url" ret=r
| requires raw(*old(self), old(self).link@)
| ensures r is Ok <==> allowed(*old(self), old(self).link@),
|    r is Ok ==> ready(*old(self), *final(self), old(self).link@)
//@rewrite self\.(\w+)\.chars\(\)\.count\(\) => vp_count(self.\1.as_str())
//@rewrite XlsxError::ParameterError\([^;]*?to_string\(\),?\s*\) => XlsxError::ParameterError
//@end
}
proof fn same_attrs(v: Worksheet, w: Worksheet, r: u32, c: u16, a: Url, b: Url, id: int) requires same_url(a, b), v.data_table == w.data_table ensures link_attrs(w, r, c, a, id) == link_attrs(v, r, c, b, id), link_rel(a) == link_rel(b), by_rel(a) == by_rel(b) { }
impl Image {
//@fn src/image.rs set_url impl="impl Image" ret=r
| requires raw(link, link.link@)
| ensures r is Ok <==> allowed(link, link.link@),
|    r matches Ok(im) ==> im.url matches Some(u) && ready(Url { is_object_link: true, ..link }, u, link.link@)
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<Url> => Url
//@rewrite let mut url = link\.into\(\); => let mut url = link; let mut vp_self = self;
//@rewrite self\.url => vp_self.url
//@rewrite Ok\(self\) => Ok(vp_self)
//@end
}
impl Shape {
//@fn src/shape.rs set_url impl="impl Shape" ret=r
| requires raw(link, link.link@)
| ensures r is Ok <==> allowed(link, link.link@),
|    r matches Ok(im) ==> im.url matches Some(u) && ready(Url { is_object_link: true, ..link }, u, link.link@)
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<Url> => Url
//@rewrite let mut url = link\.into\(\); => let mut url = link; let mut vp_self = self;
//@rewrite self\.url => vp_self.url
//@rewrite Ok\(self\) => Ok(vp_self)
//@end
}
/// a link in a cell: it is stored for that cell only, and the cell shows its text
pub open spec fn linked(a: Worksheet, b: Worksheet, row: u32, col: u16, u: Url) -> bool {
    &&& b.hyperlinks@.dom().contains((row, col)) && ready(u, b.hyperlinks@[(row, col)], u.link@) && b.hyperlinks@ == a.hyperlinks@.insert((row, col), b.hyperlinks@[(row, col)])
    &&& shows(at(b.data_table@, row, col), if u.text@.len() == 0 { shown(u.link@) } else { u.text@ })
}
/// one hyperlink element; a cell that does not show a text of its own gets the link as its text
pub open spec fn alone(w: Worksheet, row: u32, col: u16, u: Url) -> bool { u.is_object_link || match at(w.data_table@, row, col) { Some(c) => !(c is String), None => false } }
pub open spec fn link_attrs(w: Worksheet, row: u32, col: u16, u: Url, id: int) -> Attrs {
    let a = seq![("ref"@, a1(row as int, col as int))];
    if by_rel(u) {
        let a = add(a.push(("r:id"@, "rId"@ + dec(id as nat))), u.anchor@.len() > 0, "location"@, u.anchor@);
        add(add(a, alone(w, row, col, u), "display"@, u.link@), u.tool_tip@.len() > 0, "tooltip"@, u.tool_tip@)
    } else if u.link_type is Internal { add(a.push(("location"@, u.anchor@)), u.tool_tip@.len() > 0, "tooltip"@, u.tool_tip@).push(("display"@, u.text@)) } else { a }
}
pub type Triple = (Seq<char>, Seq<char>, Seq<char>);
pub open spec fn tv(v: Seq<(String, String, String)>) -> Seq<Triple> { v.map_values(|p: (String, String, String)| (p.0@, p.1@, p.2@)) }
pub broadcast proof fn tv_push(s: Seq<(String, String, String)>, x: (String, String, String)) ensures #[trigger] tv(s.push(x)) == tv(s).push((x.0@, x.1@, x.2@)) { assert(tv(s.push(x)) =~= tv(s).push((x.0@, x.1@, x.2@))); }
pub open spec fn link_rel(u: Url) -> Triple { ("hyperlink"@, u.relationship_link@, mode(u.link_type)) }
pub open spec fn rels_of(r: Seq<Triple>, u: Url) -> Seq<Triple> { if by_rel(u) { r.push(link_rel(u)) } else { r } }
/// the relationships and the elements of the first n links
pub open spec fn all_rels(l: Seq<Link>, n: int, r: Seq<Triple>) -> Seq<Triple> decreases n { if n <= 0 { r } else { rels_of(all_rels(l, n - 1, r), l[n - 1].1) } }
pub open spec fn all_tags(w: Worksheet, l: Seq<Link>, n: int, t: Seq<Tag>) -> Seq<Tag> decreases n {
    if n <= 0 { t } else { all_tags(w, l, n - 1, t).push(Tag::Empty("hyperlink"@, link_attrs(w, l[n - 1].0.0, l[n - 1].0.1, l[n - 1].1, all_rels(l, n - 1, seq![]).len() as int + 1))) }
}
proof fn rels_len(l: Seq<Link>, n: int, r: Seq<Triple>) ensures all_rels(l, n, r).len() == r.len() + all_rels(l, n, seq![]).len(), all_rels(l, n, seq![]).len() <= (if n < 0 { 0 } else { n }) decreases n { if n > 0 { rels_len(l, n - 1, r); } }
/// each link's id is the number of the relationship with its target, when the list was empty before
pub proof fn ids_match(l: Seq<Link>, n: int, k: int)
    requires 0 <= k < n, by_rel(l[k].1)
    ensures all_rels(l, n, seq![]).len() > all_rels(l, k, seq![]).len(), all_rels(l, n, seq![])[all_rels(l, k, seq![]).len() as int] == link_rel(l[k].1)
    decreases n
{ if n - 1 > k { ids_match(l, n - 1, k); } }
impl Worksheet {
//@fn src/worksheet.rs store_url impl="impl Worksheet" ret=r
| requires raw(*url, url.link@)
| ensures r matches Ok(p) ==> *final(self) == *final(p) && allowed(*url, url.link@) && linked(*old(self), *p, row, col, *url) && p.hyperlink_relationships == old(self).hyperlink_relationships,
|    r is Err ==> *final(self) == *old(self),
|    r is Err <==> !(allowed(*url, url.link@) && row < 1048576 && col < 16384 && (if url.text@.len() == 0 { shown(url.link@) } else { url.text@ }).len() <= 32767)
//@rewrite url\.clone\(\) => url.vp_clone()
//@rewrite self\.write_string_with_format\( => self.vp_write_string(
//@rewrite &hyperlink\.text => hyperlink.text.as_str()
//@end
//@fn src/worksheet.rs write_hyperlink impl="impl Worksheet" strlits
| ensures *final(self) == (Worksheet { writer: final(self).writer, hyperlink_relationships: final(self).hyperlink_relationships, ..*old(self) }),
|    final(self).writer.log() == old(self).writer.log().push(Tag::Empty("hyperlink"@, link_attrs(*old(self), row, col, *old(hyperlink), old(hyperlink).rel_id as int))),
|    tv(final(self).hyperlink_relationships@) == rels_of(tv(old(self).hyperlink_relationships@), *old(hyperlink))
//@rewrite utility::row_col_to_cell => row_col_to_cell
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite !hyperlink\.(\w+)\.is_empty\(\) => !vp_empty(hyperlink.\1.as_str())
//@at body-start
| broadcast use av_push, av_none, tv_push, vstd::std_specs::btree::group_btree_axioms;
//@before /match hyperlink.link_type/
| proof { assert(av(attributes@) =~= seq![("ref"@, a1(row as int, col as int))]); assert(hyperlink.is_object_link == alone(*old(self), row, col, *old(hyperlink))); }
//@end
//@fn src/worksheet.rs write_hyperlinks impl="impl Worksheet" strlits
| requires entries(old(self).hyperlinks@).len() < 0xFFFF_FFFE
| ensures *final(self) == (Worksheet { writer: final(self).writer, hyperlink_relationships: final(self).hyperlink_relationships, rel_count: final(self).rel_count, ..*old(self) }),
|    ({ let l = entries(old(self).hyperlinks@); let n = l.len() as int;
|       final(self).writer.log() == all_tags(*old(self), l, n, old(self).writer.log().push(Tag::Open("hyperlinks"@, seq![]))).push(Tag::Close("hyperlinks"@))
|       && tv(final(self).hyperlink_relationships@) == all_rels(l, n, tv(old(self).hyperlink_relationships@)) && final(self).rel_count == all_rels(l, n, seq![]).len() })
//@rewrite for \(cell, hyperlink\) in &mut self\.hyperlinks\.clone\(\) \{ => let mut vp_l = vp_entries(&self.hyperlinks); for vp_i in 0..vp_l.len() { let cell = (vp_l[vp_i].0.0, vp_l[vp_i].0.1); let mut hyperlink = vp_l[vp_i].1.vp_clone();
//@rewrite self\.write_hyperlink\(cell\.0, cell\.1, hyperlink\); => self.write_hyperlink(cell.0, cell.1, &mut hyperlink);
//@loop 1
| invariant vp_l@.len() == entries(old(self).hyperlinks@).len(), entries(old(self).hyperlinks@).len() < 0xFFFF_FFFE,
|    forall|i: int| 0 <= i < vp_l@.len() ==> (#[trigger] vp_l@[i]).0 == entries(old(self).hyperlinks@)[i].0 && same_url(vp_l@[i].1, entries(old(self).hyperlinks@)[i].1),
|    *self == (Worksheet { writer: self.writer, hyperlink_relationships: self.hyperlink_relationships, ..*old(self) }),
|    rel_id == all_rels(entries(old(self).hyperlinks@), vp_i as int, seq![]).len() + 1, rel_id <= vp_i + 1,
|    tv(self.hyperlink_relationships@) == all_rels(entries(old(self).hyperlinks@), vp_i as int, tv(old(self).hyperlink_relationships@)),
|    self.writer.log() == all_tags(*old(self), entries(old(self).hyperlinks@), vp_i as int, old(self).writer.log().push(Tag::Open("hyperlinks"@, seq![]))),
//@at loop 1 start
| proof { let l = entries(old(self).hyperlinks@); let k = vp_i as int; same_attrs(*old(self), *self, l[k].0.0, l[k].0.1, vp_l@[k].1, l[k].1, rel_id as int); }
//@end
}

}
fn main() {}
