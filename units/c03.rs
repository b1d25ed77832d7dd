// C03: shared strings.  Extracted from /repo/src/{xmlwriter,shared_strings_table}.rs on every run.
use vstd::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;
verus! {
//@include fmt_prelude.rs
//@include write_prelude.rs
//@const src/xmlwriter.rs XML_WRITE_ERROR
//@const src/xmlwriter.rs UNICODE_ESCAPE_LENGTH

// ---------------------------------------------------------------- specification: the reader's side
pub open spec fn hex(c: char) -> bool { ('0' <= c && c <= '9') || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f') }
pub open spec fn hexval(c: char) -> int { if c <= '9' { c as u32 - 48 } else if c <= 'F' { c as u32 - 55 } else { c as u32 - 87 } }
/// an _xHHHH_ escape starts here
pub open spec fn pat(s: Seq<char>) -> bool {
    s.len() >= 7 && s[0] == '_' && s[1] == 'x' && hex(s[2]) && hex(s[3]) && hex(s[4]) && hex(s[5]) && s[6] == '_'
}
pub open spec fn pat_value(s: Seq<char>) -> char { (hexval(s[2]) * 4096 + hexval(s[3]) * 256 + hexval(s[4]) * 16 + hexval(s[5])) as u32 as char }
/// how a spreadsheet reads the text of a string (ST_Xstring)
pub open spec fn xdecode(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if pat(s) { seq![pat_value(s)] + xdecode(s.skip(7)) } else { seq![s[0]] + xdecode(s.skip(1)) }
}
// ---- the writer's side
pub open spec fn xml_char(c: char) -> bool {
    c == '\t' || c == '\n' || c == '\r' || ('\u{20}' <= c && c <= '\u{D7FF}') || ('\u{E000}' <= c && c <= '\u{FFFD}') || ('\u{10000}' <= c && c <= '\u{10FFFF}')
}
pub open spec fn hex_digit(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (55 + d) as u8 as char } }
pub open spec fn xesc(c: char) -> Seq<char> {
    let n = c as u32 as int;
    seq!['_', 'x', hex_digit(n / 4096), hex_digit(n / 256 % 16), hex_digit(n / 16 % 16), hex_digit(n % 16), '_']
}
/// what XML cannot carry in text (C02: the text writer emits exactly `carried` after entity decoding)
pub open spec fn ctl(c: char) -> bool { !xml_char(c) || c == '\r' }
pub open spec fn carried(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { carried(s.drop_last()) + (if ctl(s.last()) { xesc(s.last()) } else { seq![s.last()] }) }
}
pub open spec fn car(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { (if ctl(s[0]) { xesc(s[0]) } else { seq![s[0]] }) + car(s.skip(1)) }
}
proof fn car_append(a: Seq<char>, c: char)
    ensures car(a.push(c)) == car(a) + (if ctl(c) { xesc(c) } else { seq![c] })
    decreases a.len()
{
    let e = if ctl(c) { xesc(c) } else { seq![c] };
    if a.len() == 0 { assert(a.push(c).skip(1) =~= seq![]); reveal_with_fuel(car, 3); assert(car(a.push(c)) =~= e + car(seq![])); assert(car(a.push(c)) =~= e); assert(car(a) + e =~= e); }
    else {
        car_append(a.skip(1), c);
        assert(a.push(c).skip(1) =~= a.skip(1).push(c));
        let f = if ctl(a[0]) { xesc(a[0]) } else { seq![a[0]] };
        assert(f + (car(a.skip(1)) + e) =~= (f + car(a.skip(1))) + e);
    }
}
proof fn car_is_carried(s: Seq<char>) ensures car(s) == carried(s) decreases s.len()
{ if s.len() > 0 { car_is_carried(s.drop_last()); car_append(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); } }
/// literal text that a reader could take for an escape
pub open spec fn trig(s: Seq<char>) -> bool { s.len() >= 7 && s[0] == '_' && s[1] == 'x' && hex(s[2]) && hex(s[3]) && hex(s[4]) && hex(s[5]) }
pub open spec fn x5f() -> Seq<char> { seq!['_', 'x', '0', '0', '5', 'F'] }
/// the leading underscore of such text is written as its own escape
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if trig(s) { x5f() + (seq![s[0]] + esc(s.skip(1))) } else { seq![s[0]] + esc(s.skip(1)) }
}
/// both steps in one
pub open spec fn enc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if trig(s) { x5f() + (seq!['_'] + enc(s.skip(1))) }
    else if ctl(s[0]) { xesc(s[0]) + enc(s.skip(1)) }
    else { seq![s[0]] + enc(s.skip(1)) }
}
proof fn enc_is_car_esc(s: Seq<char>) ensures car(esc(s)) == enc(s) decreases s.len()
{
    if s.len() > 0 {
        let r = esc(s.skip(1));
        enc_is_car_esc(s.skip(1));
        let u = seq![s[0]] + r;
        assert(u.skip(1) =~= r);
        if trig(s) {
            let w = x5f() + u;
            assert(w.skip(1) =~= seq!['x', '0', '0', '5', 'F'] + u);
            assert(w.skip(1).skip(1) =~= seq!['0', '0', '5', 'F'] + u);
            assert(w.skip(1).skip(1).skip(1) =~= seq!['0', '5', 'F'] + u);
            assert(w.skip(1).skip(1).skip(1).skip(1) =~= seq!['5', 'F'] + u);
            assert(w.skip(1).skip(1).skip(1).skip(1).skip(1) =~= seq!['F'] + u);
            assert(w.skip(1).skip(1).skip(1).skip(1).skip(1).skip(1) =~= u);
            reveal_with_fuel(car, 8);
            assert(car(u) =~= seq!['_'] + car(r));
            assert(car(w) =~= x5f() + car(u));
        }
    }
}
/// a first character that is no underscore is a plain one
proof fn enc_plain_head(s: Seq<char>)
    requires enc(s).len() > 0, enc(s)[0] != '_'
    ensures s.len() > 0, s[0] == enc(s)[0], enc(s).skip(1) == enc(s.skip(1))
{ assert(enc(s).skip(1) =~= enc(s.skip(1))); }
proof fn hex_of(n: int) requires 0 <= n < 16 ensures hex(hex_digit(n)), hexval(hex_digit(n)) == n {}
proof fn one_escape(c: char, t: Seq<char>)
    requires c as u32 <= 0xFFFF
    ensures xdecode(xesc(c) + t) == seq![c] + xdecode(t)
{
    let n = c as u32 as int; let e = xesc(c) + t;
    hex_of(n / 4096); hex_of(n / 256 % 16); hex_of(n / 16 % 16); hex_of(n % 16);
    assert(e.skip(7) =~= t);
    assert(e[0] == '_' && e[1] == 'x' && e[6] == '_');
    assert(e[2] == hex_digit(n / 4096) && e[3] == hex_digit(n / 256 % 16) && e[4] == hex_digit(n / 16 % 16) && e[5] == hex_digit(n % 16));
    assert(n / 4096 * 4096 + n / 256 % 16 * 256 + n / 16 % 16 * 16 + n % 16 == n);
    assert(pat_value(e) == c);
}
/// a plain character does not become the start of an escape
proof fn no_accident(s: Seq<char>)
    requires s.len() > 0, !trig(s), !ctl(s[0])
    ensures !pat(seq![s[0]] + enc(s.skip(1)))
{
    let e = seq![s[0]] + enc(s.skip(1));
    if pat(e) {
        let s1 = s.skip(1); let t1 = enc(s1); assert(t1[0] == e[1]); enc_plain_head(s1);
        let s2 = s1.skip(1); let t2 = enc(s2); assert(t2[0] == t1.skip(1)[0] && t2[0] == e[2]); enc_plain_head(s2);
        let s3 = s2.skip(1); let t3 = enc(s3); assert(t3[0] == t2.skip(1)[0] && t3[0] == e[3]); enc_plain_head(s3);
        let s4 = s3.skip(1); let t4 = enc(s4); assert(t4[0] == t3.skip(1)[0] && t4[0] == e[4]); enc_plain_head(s4);
        let s5 = s4.skip(1); let t5 = enc(s5); assert(t5[0] == t4.skip(1)[0] && t5[0] == e[5]); enc_plain_head(s5);
        let s6 = s5.skip(1);
        assert(t5.len() == e.len() - 5);
        assert(enc(s6).len() == e.len() - 6);
        assert(s6.len() > 0);
        assert(s[1] == s1[0] && s[2] == s2[0] && s[3] == s3[0] && s[4] == s4[0] && s[5] == s5[0]);
        assert(trig(s));
    }
}
/// the property: what is written reads back as the text
proof fn reads_back(s: Seq<char>) ensures xdecode(enc(s)) == s decreases s.len()
{
    if s.len() > 0 {
        let t = enc(s.skip(1));
        reads_back(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
        let e = enc(s);
        if trig(s) {
            assert(xesc('_') =~= seq!['_', 'x', '0', '0', '5', 'F', '_']);
            assert(e =~= xesc('_') + t);
            one_escape('_', t);
        } else if ctl(s[0]) {
            one_escape(s[0], t);
        } else {
            no_accident(s);
            assert(e.skip(1) =~= t);
        }
    }
}
proof fn string_cell_text_reads_back(s: Seq<char>) ensures xdecode(carried(esc(s))) == s
{ car_is_carried(esc(s)); enc_is_car_esc(s); reads_back(s); }
proof fn esc_step(s: Seq<char>, p: int, q: int)
    requires 0 <= p <= q <= s.len(), forall|i: int| p <= i < q ==> !trig(#[trigger] s.skip(i))
    ensures esc(s.skip(p)) == s.subrange(p, q) + esc(s.skip(q))
    decreases q - p
{
    if p < q {
        esc_step(s, p + 1, q);
        assert(s.skip(p).skip(1) =~= s.skip(p + 1));
        assert(!trig(s.skip(p)));
        assert(s.subrange(p, q) =~= seq![s[p]] + s.subrange(p + 1, q));
        assert(seq![s[p]] + (s.subrange(p + 1, q) + esc(s.skip(q))) =~= s.subrange(p, q) + esc(s.skip(q)));
    } else { assert(s.subrange(p, q) + esc(s.skip(q)) =~= esc(s.skip(q))); }
}
// ---------------------------------------------------------------- trusted string plumbing: UTF-8 offsets
pub open spec fn utf8(c: char) -> int { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
/// the byte offset of character k
pub open spec fn off(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + utf8(s[k - 1]) } }
proof fn off_mono(s: Seq<char>, a: int, b: int) requires 0 <= a <= b ensures off(s, b) - off(s, a) >= b - a decreases b
{ if a < b { off_mono(s, a, b - 1); } }
proof fn off_same(s: Seq<char>, t: Seq<char>, k: int) requires 0 <= k <= s.len(), k <= t.len(), s.take(k) == t.take(k) ensures off(s, k) == off(t, k) decreases k
{ if k > 0 { assert(s.take(k - 1) =~= s.take(k).take(k - 1)); assert(t.take(k - 1) =~= t.take(k).take(k - 1)); off_same(s, t, k - 1); assert(s[k - 1] == s.take(k)[k - 1]); assert(t[k - 1] == t.take(k)[k - 1]); } }
pub open spec fn occ(s: Seq<char>, k: int) -> bool { 0 <= k && k + 1 < s.len() && s[k] == '_' && s[k + 1] == 'x' }
#[verifier::external_body]
pub fn vp_contains(s: &str) -> (r: bool) ensures !r ==> forall|k: int| !occ(s@, k) { s.contains("_x") }
#[verifier::external_body]
pub fn vp_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int), r <= isize::MAX { s.len() }
/// trusted: rmatch_indices yields the byte offset of every occurrence, from the right
pub uninterp spec fn rpos(s: Seq<char>) -> Seq<int>;
#[verifier::external_body]
pub proof fn rpos_ax(s: Seq<char>)
    ensures forall|i: int| 0 <= i < rpos(s).len() ==> occ(s, #[trigger] rpos(s)[i]),
      forall|i: int, j: int| 0 <= i < j < rpos(s).len() ==> rpos(s)[j] < rpos(s)[i],
      forall|k: int| occ(s, k) ==> rpos(s).contains(k)
{}
#[verifier::external_body]
pub fn vp_rmatches<'a>(s: &'a str) -> (r: Vec<(usize, &'a str)>)
    ensures r@.len() == rpos(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == off(s@, rpos(s@)[i])
{ s.rmatch_indices("_x").collect() }
#[verifier::external_body]
pub fn vp_boundary(s: &str, i: usize) -> (r: bool) ensures r == exists|k: int| 0 <= k <= s@.len() && #[trigger] off(s@, k) == i { s.is_char_boundary(i) }
/// trusted: slicing at character offsets, all characters hexadecimal
#[verifier::external_body]
pub fn vp_all_hex(s: &str, i: usize, j: usize) -> (r: bool)
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] off(s@, k) == i, exists|k: int| 0 <= k <= s@.len() && #[trigger] off(s@, k) == j, i <= j
    ensures forall|a: int, b: int| 0 <= a <= b <= s@.len() && #[trigger] off(s@, a) == i && #[trigger] off(s@, b) == j ==> r == forall|k: int| a <= k < b ==> hex(#[trigger] s@[k])
{ s[i..j].chars().all(|c| c.is_ascii_hexdigit()) }
#[verifier::external_body]
pub fn vp_insert(s: &mut String, i: usize, t: &str)
    requires exists|k: int| 0 <= k <= old(s)@.len() && #[trigger] off(old(s)@, k) == i
    ensures forall|k: int| 0 <= k <= old(s)@.len() && #[trigger] off(old(s)@, k) == i ==> final(s)@ == old(s)@.take(k) + t@ + old(s)@.skip(k)
{ s.replace_range(i..i, t) }
#[verifier::external_body]
pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vp_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

pub open spec fn last(s: Seq<char>, i: int) -> int { if i <= 0 { s.len() as int } else { rpos(s)[i - 1] } }
proof fn hex_run(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> hex(#[trigger] s[k])
    ensures off(s, b) == off(s, a) + (b - a)
    decreases b - a
{ if a < b { hex_run(s, a, b - 1); } }
/// what one occurrence means
proof fn occurrence(s: Seq<char>, k: int)
    requires occ(s, k)
    ensures off(s, k + 2) == off(s, k) + 2,
      trig(s.skip(k)) == (k + 6 < s.len() && forall|j: int| k + 2 <= j < k + 6 ==> hex(#[trigger] s[j])),
      trig(s.skip(k)) ==> off(s, k + 6) == off(s, k) + 6 && off(s, k) + 7 <= off(s, s.len() as int),
{
    let t = s.skip(k);
    assert(off(s, k + 1) == off(s, k) + 1);
    if k + 6 < s.len() {
        assert(t[2] == s[k + 2] && t[3] == s[k + 3] && t[4] == s[k + 4] && t[5] == s[k + 5]);
        if trig(t) { assert forall|j: int| k + 2 <= j < k + 6 implies hex(#[trigger] s[j]) by { assert(t[j - k] == s[j]); }
            hex_run(s, k + 2, k + 6); off_mono(s, k + 6, s.len() as int); }
    }
}
proof fn chunk_hex(s: Seq<char>, k: int, b: int)
    requires occ(s, k), 0 <= b <= s.len(), off(s, b) == off(s, k) + 6, forall|j: int| k + 2 <= j < b ==> hex(#[trigger] s[j])
    ensures b == k + 6
{
    occurrence(s, k);
    if b < k + 2 { off_mono(s, b, k + 2); } else { hex_run(s, k + 2, b); }
}
proof fn advance(s: Seq<char>, i: int, e: Seq<char>)
    requires 0 <= i < rpos(s).len(), e == s.take(last(s, i)) + esc(s.skip(last(s, i))),
    ensures ({ let k = rpos(s)[i];
        &&& occ(s, k)
        &&& !trig(s.skip(k)) ==> e == s.take(k) + esc(s.skip(k))
        &&& trig(s.skip(k)) ==> e.take(k) + x5f() + e.skip(k) == s.take(k) + esc(s.skip(k))
        &&& off(e, k) == off(s, k) && k <= e.len() })
{
    rpos_ax(s);
    let k = rpos(s)[i]; let p = last(s, i);
    assert forall|j: int| k + 1 <= j < p implies !trig(#[trigger] s.skip(j)) by {
        if trig(s.skip(j)) { assert(s.skip(j)[0] == s[j] && s.skip(j)[1] == s[j + 1]); assert(occ(s, j)); let q = choose|q: int| 0 <= q < rpos(s).len() && rpos(s)[q] == j; if q < i { if i > 0 && q < i - 1 { } } else { } }
    }
    esc_step(s, k + 1, p);
    assert(s.take(p) =~= s.take(k + 1) + s.subrange(k + 1, p));
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    let r = esc(s.skip(k + 1));
    assert(s.take(p) + esc(s.skip(p)) =~= s.take(k + 1) + (s.subrange(k + 1, p) + esc(s.skip(p))));
    assert(e =~= s.take(k) + (seq![s[k]] + r));
    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
    assert(e.take(k) =~= s.take(k)); assert(e.skip(k) =~= seq![s[k]] + r);
    assert(e.take(k) + x5f() + e.skip(k) =~= s.take(k) + (x5f() + (seq![s[k]] + r)));
    off_same(s, e, k);
}
proof fn whole(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> !trig(#[trigger] s.skip(k))
    ensures esc(s) == s
{ esc_step(s, 0, s.len() as int); assert(s.skip(0) =~= s); assert(s.subrange(0, s.len() as int) + esc(s.skip(s.len() as int)) =~= s); }
proof fn ending(s: Seq<char>)
    ensures esc(s) == s.take(last(s, rpos(s).len() as int)) + esc(s.skip(last(s, rpos(s).len() as int)))
{
    rpos_ax(s);
    let p = last(s, rpos(s).len() as int);
    assert forall|j: int| 0 <= j < p implies !trig(#[trigger] s.skip(j)) by {
        if trig(s.skip(j)) { assert(s.skip(j)[0] == s[j] && s.skip(j)[1] == s[j + 1]); assert(occ(s, j)); let q = choose|q: int| 0 <= q < rpos(s).len() && rpos(s)[q] == j; }
    }
    esc_step(s, 0, p); assert(s.skip(0) =~= s); assert(s.subrange(0, p) =~= s.take(p));
}
// ---------------------------------------------------------------- code under contract
//@fn src/xmlwriter.rs escape_xml_escapes ret=r
| ensures r@ == esc(original@)
//@rewrite sig:-> Cow<str> => -> String
//@rewrite original\.contains\("_x"\) => vp_contains(original)
//@rewrite original\.len\(\) => vp_len(original)
//@rewrite original\.to_string\(\) => vp_string(original)
//@rewrite let matches: Vec<_> = original\.rmatch_indices\("_x"\)\.collect\(\); => let matches = vp_rmatches(original);
//@rewrite original\.is_char_boundary\(index \+ 6\) => vp_boundary(original, index + 6)
//@rewrite original\[index \+ 2\.\.index \+ 6\]\s*\.chars\(\)\s*\.all\(\|c\| c\.is_ascii_hexdigit\(\)\) => vp_all_hex(original, index + 2, index + 6)
//@rewrite escaped_string\.replace_range\(index\.\.index, "_x005F"\); => let esc_lit = "_x005F"; proof { reveal_strlit("_x005F"); assert(esc_lit@ =~= x5f()); } vp_insert(&mut escaped_string, index, esc_lit);
//@rewrite escaped_string == original => vp_eq(&escaped_string, original)
//@rewrite Cow::Owned\(escaped_string\) => escaped_string
//@rewrite Cow::Borrowed\(original\) => vp_string(original)
//@rewrite for \(index, _\) in matches \{ => let mut vp_i: usize = 0; while vp_i < matches.len() { let (index, _) = matches[vp_i]; vp_i += 1;
//@rewrite continue; => { proof { assert(!trig(original@.skip(k))); } continue; }
//@at body-start
| proof {
|   assert forall|k: int| 0 <= k < original@.len() && trig(#[trigger] original@.skip(k)) implies occ(original@, k) by { assert(original@.skip(k)[0] == original@[k] && original@.skip(k)[1] == original@[k + 1]); }
|   if (forall|k: int| !occ(original@, k)) { whole(original@); }
| }
//@before /let matches/
| proof { assert(original@.take(original@.len() as int) + esc(original@.skip(original@.len() as int)) =~= original@); }
//@loop 1
| invariant
|   vp_i <= matches@.len(), string_end == off(original@, original@.len() as int), string_end <= isize::MAX,
|   matches@.len() == rpos(original@).len(), forall|i: int| 0 <= i < matches@.len() ==> (#[trigger] matches@[i]).0 == off(original@, rpos(original@)[i]),
|   escaped_string@ == original@.take(last(original@, vp_i as int)) + esc(original@.skip(last(original@, vp_i as int))),
| decreases matches@.len() - vp_i
//@at loop 1 start
| let ghost k = rpos(original@)[vp_i as int]; let ghost e0 = escaped_string@;
| proof { advance(original@, vp_i as int, e0); occurrence(original@, k); off_mono(original@, k, original@.len() as int); off_mono(original@, k + 2, original@.len() as int);
| }
//@before /if vp_all_hex/
| proof {
|   let b = choose|b: int| 0 <= b <= original@.len() && #[trigger] off(original@, b) == index + 6;
|   if b < k + 2 { off_mono(original@, b, k + 2); }
|   if (forall|j: int| k + 2 <= j < b ==> hex(#[trigger] original@[j])) { chunk_hex(original@, k, b); }
|   assert(off(original@, k + 2) == index + 2);
|   if k + 6 >= original@.len() && b == k + 6 { assert(false); }
| }
//@at after-loop 1
| proof { ending(original@); }
//@end

//@fn src/xmlwriter.rs xml_si_element
| ensures final(writer).out() == old(writer).out() + si_open(preserve_whitespace) + enc_text(esc(string@)) + si_close(),
//@end
pub uninterp spec fn enc_text(s: Seq<char>) -> Seq<char>;
/// contract of escape_xml_data, discharged in unit c02: entity encoding whose XML decoding is `carried`
#[verifier::external_body] pub fn escape_xml_data(data: &str) -> (r: String) ensures r@ == enc_text(data@) { String::new() }
pub open spec fn si_open(p: bool) -> Seq<char> { if p { "<si><t xml:space=\"preserve\">"@ } else { "<si><t>"@ } }
pub open spec fn si_close() -> Seq<char> { "</t></si>"@ }

// ---------------------------------------------------------------- the shared string table
//@item src/shared_strings_table.rs struct SharedStringsTable derive=
/// every entry has an index of its own, below the entry count
pub open spec fn wf(t: SharedStringsTable) -> bool {
    &&& t.unique_count == t.strings@.dom().len() + t.rich_strings@.dom().len()
    &&& forall|k: Arc<str>| t.strings@.dom().contains(k) ==> #[trigger] t.strings@[k] < t.unique_count
    &&& forall|k: Arc<str>| t.rich_strings@.dom().contains(k) ==> #[trigger] t.rich_strings@[k] < t.unique_count
    &&& forall|k: Arc<str>, l: Arc<str>| t.strings@.dom().contains(k) && t.strings@.dom().contains(l) && #[trigger] t.strings@[k] == #[trigger] t.strings@[l] ==> k == l
    &&& forall|k: Arc<str>, l: Arc<str>| t.rich_strings@.dom().contains(k) && t.rich_strings@.dom().contains(l) && #[trigger] t.rich_strings@[k] == #[trigger] t.rich_strings@[l] ==> k == l
    &&& forall|k: Arc<str>, l: Arc<str>| t.strings@.dom().contains(k) && t.rich_strings@.dom().contains(l) ==> #[trigger] t.strings@[k] != #[trigger] t.rich_strings@[l]
}
impl SharedStringsTable {
//@fn src/shared_strings_table.rs shared_string_index impl="impl SharedStringsTable" ret=r
| requires wf(*old(self)), old(self).unique_count < u32::MAX, old(self).count < u32::MAX, vstd::std_specs::hash::obeys_key_model::<Arc<str>>()
| ensures wf(*final(self)), final(self).count == old(self).count + 1, final(self).rich_strings == old(self).rich_strings,
|   final(self).strings@.dom() == old(self).strings@.dom().insert(key), final(self).strings@[key] == r,
|   forall|k: Arc<str>| old(self).strings@.dom().contains(k) ==> #[trigger] final(self).strings@[k] == old(self).strings@[k],
//@rewrite \*self\.(strings)\.entry\(key\)\.or_insert_with\(\|\| \{(.*?)index\s*\}\) => match self.\1.get(&key) { Some(i) => *i, None => {\2 self.\1.insert(key, index); index } }
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
//@fn src/shared_strings_table.rs shared_rich_string_index impl="impl SharedStringsTable" ret=r
| requires wf(*old(self)), old(self).unique_count < u32::MAX, old(self).count < u32::MAX, vstd::std_specs::hash::obeys_key_model::<Arc<str>>()
| ensures wf(*final(self)), final(self).count == old(self).count + 1, final(self).strings == old(self).strings,
|   final(self).rich_strings@.dom() == old(self).rich_strings@.dom().insert(key), final(self).rich_strings@[key] == r,
|   forall|k: Arc<str>| old(self).rich_strings@.dom().contains(k) ==> #[trigger] final(self).rich_strings@[k] == old(self).rich_strings@[k],
//@rewrite \*self\.(rich_strings)\.entry\(key\)\.or_insert_with\(\|\| \{(.*?)index\s*\}\) => match self.\1.get(&key) { Some(i) => *i, None => {\2 self.\1.insert(key, index); index } }
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
}
fn main() {}
}
