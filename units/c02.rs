// C02: XML escaping.  Extracted from /repo/src/xmlwriter.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include write_prelude.rs
//@const src/xmlwriter.rs XML_WRITE_ERROR

// ---------------------------------------------------------------- specification, from the XML 1.0 rules
/// XML 1.0 production Char
pub open spec fn xml_char(c: char) -> bool {
    c == '\t' || c == '\n' || c == '\r' || ('\u{20}' <= c && c <= '\u{D7FF}') || ('\u{E000}' <= c && c <= '\u{FFFD}') || ('\u{10000}' <= c && c <= '\u{10FFFF}')
}
pub open spec fn hex_digit(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (55 + d) as u8 as char } }
pub open spec fn xesc(c: char) -> Seq<char> {
    let n = c as u32 as int;
    seq!['_', 'x', hex_digit(n / 4096), hex_digit(n / 256 % 16), hex_digit(n / 16 % 16), hex_digit(n % 16), '_']
}
pub open spec fn amp() -> Seq<char> { seq!['&', 'a', 'm', 'p', ';'] }
pub open spec fn lt() -> Seq<char> { seq!['&', 'l', 't', ';'] }
pub open spec fn gt() -> Seq<char> { seq!['&', 'g', 't', ';'] }
pub open spec fn quot() -> Seq<char> { seq!['&', 'q', 'u', 'o', 't', ';'] }
pub open spec fn ref_nl() -> Seq<char> { seq!['&', '#', 'x', 'A', ';'] }
pub open spec fn ref_tab() -> Seq<char> { seq!['&', '#', 'x', '9', ';'] }
pub open spec fn ref_cr() -> Seq<char> { seq!['&', '#', 'x', 'D', ';'] }
/// what an attribute value has to contain for the character c
pub open spec fn enc_attr(c: char) -> Seq<char> {
    if c == '&' { amp() } else if c == '<' { lt() } else if c == '>' { gt() } else if c == '"' { quot() }
    else if c == '\n' { ref_nl() } else if c == '\t' { ref_tab() } else if c == '\r' { ref_cr() }
    else if !xml_char(c) { xesc(c) } else { seq![c] }
}
/// what element text has to contain for the character c (a literal CR would be read as LF)
pub open spec fn enc_text(c: char) -> Seq<char> {
    if c == '&' { amp() } else if c == '<' { lt() } else if c == '>' { gt() }
    else if c == '\r' || !xml_char(c) { xesc(c) } else { seq![c] }
}
pub open spec fn enc_attr_all(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { enc_attr_all(s.drop_last()) + enc_attr(s.last()) }
}
pub open spec fn enc_text_all(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { enc_text_all(s.drop_last()) + enc_text(s.last()) }
}
/// what the reader gets: every character, those XML cannot carry as their _xHHHH_ escape
pub open spec fn carried(s: Seq<char>, text: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        let c = s.last();
        carried(s.drop_last(), text) + (if !xml_char(c) || (text && c == '\r') { xesc(c) } else { seq![c] })
    }
}
// ---- the reader: XML entity decoding, written independently, from the left
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn xml_decode(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if starts(s, amp()) { seq!['&'] + xml_decode(s.skip(5)) }
    else if starts(s, lt()) { seq!['<'] + xml_decode(s.skip(4)) }
    else if starts(s, gt()) { seq!['>'] + xml_decode(s.skip(4)) }
    else if starts(s, quot()) { seq!['"'] + xml_decode(s.skip(6)) }
    else if starts(s, ref_nl()) { seq!['\n'] + xml_decode(s.skip(5)) }
    else if starts(s, ref_tab()) { seq!['\t'] + xml_decode(s.skip(5)) }
    else if starts(s, ref_cr()) { seq!['\r'] + xml_decode(s.skip(5)) }
    else { seq![s[0]] + xml_decode(s.skip(1)) }
}
/// characters that may appear verbatim in a double-quoted attribute value / in element text
pub open spec fn attr_safe(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_char(#[trigger] s[i]) && s[i] != '<' && s[i] != '"' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r' }
pub open spec fn text_safe(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_char(#[trigger] s[i]) && s[i] != '<' && s[i] != '>' && s[i] != '\r' }
/// every & starts one of the entities above
pub open spec fn amps_ok(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if starts(s, amp()) { amps_ok(s.skip(5)) }
    else if starts(s, lt()) || starts(s, gt()) { amps_ok(s.skip(4)) }
    else if starts(s, quot()) { amps_ok(s.skip(6)) }
    else if starts(s, ref_nl()) || starts(s, ref_tab()) || starts(s, ref_cr()) { amps_ok(s.skip(5)) }
    else { s[0] != '&' && amps_ok(s.skip(1)) }
}
// ---------------------------------------------------------------- lemmas
proof fn hex_facts(d: int)
    requires 0 <= d < 16
    ensures ('0' <= hex_digit(d) && hex_digit(d) <= '9') || ('A' <= hex_digit(d) && hex_digit(d) <= 'F')
{ }
proof fn xesc_facts(c: char)
    requires !xml_char(c) || c == '\r'
    ensures xesc(c).len() == 7, forall|i: int| 0 <= i < 7 ==> xml_char(#[trigger] xesc(c)[i]) && xesc(c)[i] != '&' && xesc(c)[i] != '<' && xesc(c)[i] != '>' && xesc(c)[i] != '"' && xesc(c)[i] != '\n' && xesc(c)[i] != '\t' && xesc(c)[i] != '\r'
{
    let n = c as u32 as int;
    assert(n <= 0xFFFF);
    hex_facts(n / 4096); hex_facts(n / 256 % 16); hex_facts(n / 16 % 16); hex_facts(n % 16);
}
/// a run of characters without & decodes to itself
proof fn plain_prefix(p: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < p.len() ==> p[i] != '&'
    ensures xml_decode(p + t) == p + xml_decode(t), amps_ok(p + t) == amps_ok(t)
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); assert(p + xml_decode(t) =~= xml_decode(t)); }
    else {
        let s = p + t;
        assert(s[0] != '&');
        assert forall|q: Seq<char>| q.len() > 0 && q[0] == '&' implies !starts(s, q) by { if starts(s, q) { assert(s.take(q.len() as int)[0] == q[0]); } }
        assert(s.skip(1) =~= p.skip(1) + t);
        plain_prefix(p.skip(1), t);
        assert(seq![s[0]] + (p.skip(1) + xml_decode(t)) =~= p + xml_decode(t));
    }
}
spec fn is_ent(e: Seq<char>, c: char) -> bool {
    (e == amp() && c == '&') || (e == lt() && c == '<') || (e == gt() && c == '>') || (e == quot() && c == '"') || (e == ref_nl() && c == '\n') || (e == ref_tab() && c == '\t') || (e == ref_cr() && c == '\r')
}
proof fn ent_prefix(e: Seq<char>, c: char, t: Seq<char>)
    requires is_ent(e, c)
    ensures xml_decode(e + t) == seq![c] + xml_decode(t), amps_ok(e + t) == amps_ok(t)
{
    let s = e + t;
    assert(s.take(e.len() as int) =~= e);
    assert(s.skip(e.len() as int) =~= t);
    assert forall|q: Seq<char>| #[trigger] starts(s, q) implies forall|i: int| 0 <= i < q.len() && i < e.len() ==> q[i] == e[i] by {
        if starts(s, q) { assert forall|i: int| 0 <= i < q.len() && i < e.len() implies q[i] == e[i] by { assert(s.take(q.len() as int)[i] == q[i]); assert(s[i] == e[i]); } }
    }
    assert(starts(s, e));
    if e != amp() { if starts(s, amp()) { assert(amp()[1] == e[1]); assert(amp()[2] == e[2]); } }
    if e != lt() { if starts(s, lt()) { assert(lt()[1] == e[1]); } }
    if e != gt() { if starts(s, gt()) { assert(gt()[1] == e[1]); } }
    if e != quot() { if starts(s, quot()) { assert(quot()[1] == e[1]); } }
    if e != ref_nl() { if starts(s, ref_nl()) { assert(ref_nl()[1] == e[1]); assert(ref_nl()[3] == e[3]); } }
    if e != ref_tab() { if starts(s, ref_tab()) { assert(ref_tab()[1] == e[1]); assert(ref_tab()[3] == e[3]); } }
    if e != ref_cr() { if starts(s, ref_cr()) { assert(ref_cr()[1] == e[1]); assert(ref_cr()[3] == e[3]); } }
}
proof fn attr_step(s: Seq<char>, t: Seq<char>)
    ensures xml_decode(enc_attr_all(s) + t) == carried(s, false) + xml_decode(t),
        amps_ok(enc_attr_all(s) + t) == amps_ok(t),
        attr_safe(enc_attr_all(s))
    decreases s.len()
{
    if s.len() == 0 { assert(enc_attr_all(s) + t =~= t); assert(carried(s, false) + xml_decode(t) =~= xml_decode(t)); }
    else {
        let c = s.last(); let e = enc_attr(c); let p = s.drop_last();
        attr_step(p, e + t);
        assert(enc_attr_all(s) + t =~= enc_attr_all(p) + (e + t));
        if !xml_char(c) { xesc_facts(c); plain_prefix(e, t); }
        else if is_ent(e, c) { ent_prefix(e, c, t); }
        else { plain_prefix(e, t); }
        let w = if !xml_char(c) { xesc(c) } else { seq![c] };
        assert(carried(p, false) + (w + xml_decode(t)) =~= carried(s, false) + xml_decode(t));
    }
}
proof fn text_step(s: Seq<char>, t: Seq<char>)
    ensures xml_decode(enc_text_all(s) + t) == carried(s, true) + xml_decode(t),
        amps_ok(enc_text_all(s) + t) == amps_ok(t),
        text_safe(enc_text_all(s))
    decreases s.len()
{
    if s.len() == 0 { assert(enc_text_all(s) + t =~= t); assert(carried(s, true) + xml_decode(t) =~= xml_decode(t)); }
    else {
        let c = s.last(); let e = enc_text(c); let p = s.drop_last();
        text_step(p, e + t);
        assert(enc_text_all(s) + t =~= enc_text_all(p) + (e + t));
        if !xml_char(c) || c == '\r' { xesc_facts(c); plain_prefix(e, t); }
        else if is_ent(e, c) { ent_prefix(e, c, t); }
        else { plain_prefix(e, t); }
        let w = if !xml_char(c) || c == '\r' { xesc(c) } else { seq![c] };
        assert(carried(p, true) + (w + xml_decode(t)) =~= carried(s, true) + xml_decode(t));
    }
}
/// the property: whatever the text, its escaped form is safe inside the markup and reads back as the text
proof fn attribute_text_reads_back(s: Seq<char>)
    ensures attr_safe(enc_attr_all(s)), amps_ok(enc_attr_all(s)), xml_decode(enc_attr_all(s)) == carried(s, false)
{ attr_step(s, seq![]); assert(enc_attr_all(s) + Seq::<char>::empty() =~= enc_attr_all(s)); assert(carried(s, false) + xml_decode(seq![]) =~= carried(s, false)); }
proof fn element_text_reads_back(s: Seq<char>)
    ensures text_safe(enc_text_all(s)), amps_ok(enc_text_all(s)), xml_decode(enc_text_all(s)) == carried(s, true)
{ text_step(s, seq![]); assert(enc_text_all(s) + Seq::<char>::empty() =~= enc_text_all(s)); assert(carried(s, true) + xml_decode(seq![]) =~= carried(s, true)); }

//@include escape_prelude.rs

// ---------------------------------------------------------------- code under contract
//@fn src/xmlwriter.rs match_xml_char ret=r strlits
| ensures match r { Some(t) => t@ =~= enc_text(ch), None => enc_text(ch) =~= seq![ch] }
//@end
//@fn src/xmlwriter.rs match_attribute_html_char ret=r strlits
| ensures match r { Some(t) => t@ =~= enc_attr(ch), None => enc_attr(ch) =~= seq![ch] }
//@end
pub open spec fn h_attr() -> spec_fn(char) -> Seq<char> { |c: char| enc_attr(c) }
pub open spec fn h_text() -> spec_fn(char) -> Seq<char> { |c: char| enc_text(c) }
proof fn map_attr(s: Seq<char>) ensures map_all(h_attr(), s) == enc_attr_all(s) decreases s.len() { if s.len() > 0 { map_attr(s.drop_last()); } }
proof fn map_text(s: Seq<char>) ensures map_all(h_text(), s) == enc_text_all(s) decreases s.len() { if s.len() > 0 { map_text(s.drop_last()); } }

//@fn src/xmlwriter.rs escape_attributes ret=r
| ensures r@ == enc_attr_all(attribute@)
//@rewrite sig:-> Cow<str> => -> String
//@rewrite match_attribute_html_char\) => match_attribute_html_char, Ghost(h_attr()))
//@at body-start
| proof { map_attr(attribute@); }
//@end
//@fn src/xmlwriter.rs escape_xml_data ret=r
| ensures r@ == enc_text_all(data@)
//@rewrite sig:-> Cow<str> => -> String
//@rewrite match_xml_char\) => match_xml_char, Ghost(h_text()))
//@at body-start
| proof { map_text(data@); }
//@end

// ---- the element writers: markup comes out exactly, with the text escaped
pub open spec fn tag_open(t: Seq<char>) -> Seq<char> { seq!['<'] + t + seq!['>'] }
pub open spec fn tag_close(t: Seq<char>) -> Seq<char> { seq!['<', '/'] + t + seq!['>'] }
//@fn src/xmlwriter.rs xml_start_tag_only
| ensures final(writer).out() =~= old(writer).out() + tag_open(tag@)
//@end
//@fn src/xmlwriter.rs xml_end_tag
| ensures final(writer).out() =~= old(writer).out() + tag_close(tag@)
//@end
//@fn src/xmlwriter.rs xml_empty_tag_only
| ensures final(writer).out() =~= old(writer).out() + (seq!['<'] + tag@ + seq!['/', '>'])
//@end
//@fn src/xmlwriter.rs xml_data_element_only
| ensures final(writer).out() =~= old(writer).out() + (tag_open(tag@) + enc_text_all(data@) + tag_close(tag@))
//@end
/// one attribute as the standard wants it
pub open spec fn attr_text(k: Seq<char>, v: Seq<char>) -> Seq<char> { seq![' '] + k + seq!['=', '"'] + enc_attr_all(v) + seq!['"'] }
pub trait IntoAttribute {
    spec fn a_text(&self) -> Seq<char>;
    fn write_to<W: Write>(&self, writer: &mut W)
        ensures final(writer).out() == old(writer).out() + self.a_text();
}
impl IntoAttribute for (&str, &str) {
    open spec fn a_text(&self) -> Seq<char> { attr_text(self.0@, self.1@) }
//@fn src/xmlwriter.rs write_to impl="IntoAttribute for \(&str, &str\)" nopub
//@at body-end
| proof { assert(writer.out() =~= old(writer).out() + attr_text(self.0@, self.1@)); }
//@end
}
impl IntoAttribute for (&str, String) {
    open spec fn a_text(&self) -> Seq<char> { attr_text(self.0@, self.1@) }
//@fn src/xmlwriter.rs write_to impl="IntoAttribute for \(&str, String\)" nopub
//@at body-end
| proof { assert(writer.out() =~= old(writer).out() + attr_text(self.0@, self.1@)); }
//@end
}
pub open spec fn attrs_text<T: IntoAttribute>(a: Seq<T>) -> Seq<char> decreases a.len() {
    if a.len() == 0 { seq![] } else { attrs_text(a.drop_last()) + a.last().a_text() }
}
pub trait VpWriteAll { fn write_all_str(&mut self, s: &str) -> (r: VpOk); }
//@fn src/xmlwriter.rs xml_start_tag
| ensures final(writer).out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@) + seq!['>'])
//@rewrite writer\.write_all\(b(">")\) => { vp_w_str(writer, \1); vp_ok() }
//@loop 1 iter=it
| invariant it.seq().len() == attributes@.len(), forall|k: int| 0 <= k < attributes@.len() ==> *it.seq()[k] == attributes@[k],
|   writer.out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@.take(it.index@ as int))),
//@at loop 1 start
| proof { let i = it.index@ as int; assert(attributes@.take(i + 1).drop_last() =~= attributes@.take(i)); assert(attributes@.take(i + 1).last() == attributes@[i]); }
//@at after-loop 1
| proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); reveal_strlit(">"); }
//@end
//@fn src/xmlwriter.rs xml_empty_tag
| ensures final(writer).out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@) + seq!['/', '>'])
//@rewrite writer\.write_all\(b("/>")\) => { vp_w_str(writer, \1); vp_ok() }
//@loop 1 iter=it
| invariant it.seq().len() == attributes@.len(), forall|k: int| 0 <= k < attributes@.len() ==> *it.seq()[k] == attributes@[k],
|   writer.out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@.take(it.index@ as int))),
//@at loop 1 start
| proof { let i = it.index@ as int; assert(attributes@.take(i + 1).drop_last() =~= attributes@.take(i)); assert(attributes@.take(i + 1).last() == attributes@[i]); }
//@at after-loop 1
| proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); reveal_strlit("/>"); }
//@end
//@fn src/xmlwriter.rs xml_data_element
| ensures final(writer).out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@) + seq!['>'] + enc_text_all(data@) + tag_close(tag@))
//@loop 1 iter=it
| invariant it.seq().len() == attributes@.len(), forall|k: int| 0 <= k < attributes@.len() ==> *it.seq()[k] == attributes@[k],
|   writer.out() =~= old(writer).out() + (seq!['<'] + tag@ + attrs_text(attributes@.take(it.index@ as int))),
//@at loop 1 start
| proof { let i = it.index@ as int; assert(attributes@.take(i + 1).drop_last() =~= attributes@.take(i)); assert(attributes@.take(i + 1).last() == attributes@[i]); }
//@at after-loop 1
| proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); }
//@end
} // verus!
fn main() {}
