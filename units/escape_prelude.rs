// ---------------------------------------------------------------- trusted string plumbing
pub uninterp spec fn byte_offset(s: Seq<char>, k: int) -> int;
/// trusted: str::char_indices yields every character in order, with its byte offset
#[verifier::external_body]
pub fn vp_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && r@[k].0 == byte_offset(s@, k)
{ s.char_indices().collect() }
/// trusted: slicing at the byte offset of character k splits there (offsets are strictly increasing)
#[verifier::external_body]
pub fn vp_upto(s: &str, i: usize) -> (r: &str)
    ensures forall|k: int| 0 <= k < s@.len() && #[trigger] byte_offset(s@, k) == i ==> r@ == s@.take(k)
{ &s[..i] }
#[verifier::external_body]
pub fn vp_from(s: &str, i: usize) -> (r: &str)
    ensures forall|k: int| 0 <= k < s@.len() && #[trigger] byte_offset(s@, k) == i ==> r@ == s@.skip(k)
{ &s[i..] }
#[verifier::external_body]
pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub assume_specification [String::reserve] (s: &mut String, n: usize) ensures final(s)@ == old(s)@;
#[verifier::external_body]
pub fn vp_byte_len(s: &str) -> usize { s.len() }

/// the characters a handler makes of c
pub open spec fn of(r: Option<&'static str>, c: char) -> Seq<char> { match r { Some(t) => t@, None => seq![c] } }
pub open spec fn map_all(h: spec_fn(char) -> Seq<char>, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { map_all(h, s.drop_last()) + h(s.last()) }
}
proof fn map_same(h: spec_fn(char) -> Seq<char>, s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]) == seq![s[i]]
    ensures map_all(h, s) == s
    decreases s.len()
{ if s.len() > 0 { map_same(h, s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } }
proof fn map_append(h: spec_fn(char) -> Seq<char>, a: Seq<char>, b: Seq<char>)
    ensures map_all(h, a + b) == map_all(h, a) + map_all(h, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(map_all(h, a) + map_all(h, b) =~= map_all(h, a)); }
    else { map_append(h, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        assert(map_all(h, a) + map_all(h, b.drop_last()) + h(b.last()) =~= map_all(h, a) + (map_all(h, b.drop_last()) + h(b.last()))); }
}

//@fn src/xmlwriter.rs escape_string ret=r
| requires forall|c: char| call_requires(char_handler, (c,)),
|   forall|c: char, q: Option<&'static str>| #[trigger] call_ensures(char_handler, (c,), q) ==> of(q, c) == vp_h(c),
| ensures r@ == map_all(vp_h, original@)
//@rewrite sig:-> Cow<str> => -> String
//@rewrite sig:char_handler: F\) => char_handler: F, Ghost(vp_h): Ghost<spec_fn(char) -> Seq<char>>)
//@rewrite original\.char_indices\(\) => vp_char_indices(original)
//@rewrite original\[\.\.i\]\.to_string\(\) => vp_string(vp_upto(original, i))
//@rewrite &original\[i\.\.\] => vp_from(original, i)
//@rewrite remaining\.len\(\) => vp_byte_len(remaining)
//@rewrite Cow::Owned\(escaped_string\) => escaped_string
//@rewrite Cow::Borrowed\(original\) => vp_string(original)
//@loop 1 iter=it
| invariant it.seq().len() == original@.len(),
|   forall|k: int| 0 <= k < original@.len() ==> (#[trigger] it.seq()[k]).1 == original@[k] && it.seq()[k].0 == byte_offset(original@, k),
|   forall|c: char| call_requires(char_handler, (c,)),
|   forall|c: char, q: Option<&'static str>| #[trigger] call_ensures(char_handler, (c,), q) ==> of(q, c) == vp_h(c),
|   forall|k: int| 0 <= k < it.index@ ==> vp_h(#[trigger] original@[k]) == seq![original@[k]],
//@at loop 1 start
| let ghost vp_k = it.index@ as int;
|  proof { assert(it.seq()[vp_k].1 == original@[vp_k]); }
//@loop 2 iter=it2
| invariant it2.seq() == remaining@,
|   forall|c: char| call_requires(char_handler, (c,)),
|   forall|c: char, q: Option<&'static str>| #[trigger] call_ensures(char_handler, (c,), q) ==> of(q, c) == vp_h(c),
|   escaped_string@ == map_all(vp_h, original@.take(vp_k)) + map_all(vp_h, remaining@.take(it2.index@ as int)),
//@at before-loop 2
| proof { map_same(vp_h, original@.take(vp_k)); assert(remaining@.take(0) =~= seq![]); assert(escaped_string@ =~= escaped_string@ + map_all(vp_h, seq![]));  }
//@at loop 2 start
| let ghost vp_i = it2.index@ as int; let ghost vp_e = escaped_string@;
| proof { assert(remaining@.take(vp_i + 1).drop_last() =~= remaining@.take(vp_i)); assert(remaining@.take(vp_i + 1).last() == remaining@[vp_i]); }
//@at loop 2 end
| proof { assert(escaped_string@ =~= vp_e + vp_h(ch)); assert(escaped_string@ =~= map_all(vp_h, original@.take(vp_k)) + map_all(vp_h, remaining@.take(vp_i + 1))); }
//@at after-loop 2
| proof { map_append(vp_h, original@.take(vp_k), remaining@); assert(original@.take(vp_k) + remaining@ =~= original@); assert(remaining@.take(remaining@.len() as int) =~= remaining@); }
//@at after-loop 1
| proof { map_same(vp_h, original@); }
//@end
