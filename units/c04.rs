// C04: sheet names.  Extracted from /repo/src/utility.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
pub enum XlsxError { SheetnameCannotBeBlank(String), SheetnameLengthExceeded(String), SheetnameContainsInvalidCharacter(String), SheetnameStartsOrEndsWithApostrophe(String) }

// ---------------------------------------------------------------- specification
pub open spec fn forbidden(c: char) -> bool { c == '*' || c == '?' || c == ':' || c == '[' || c == ']' || c == '\\' || c == '/' }
pub open spec fn name_ok(s: Seq<char>) -> bool {
    0 < s.len() <= 31 && (forall|i: int| 0 <= i < s.len() ==> !forbidden(#[trigger] s[i])) && s[0] != '\'' && s[s.len() - 1] != '\''
}
pub open spec fn is_dig(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_up(c: char) -> bool { 'A' <= c <= 'Z' }
/// apostrophes doubled
pub open spec fn doubled(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == '\'' { seq!['\'', '\''] + doubled(s.drop_first()) } else { seq![s[0]] + doubled(s.drop_first()) }
}
/// pairs of apostrophes, from the left, made one
pub open spec fn halved(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if s.len() >= 2 && s[0] == '\'' && s[1] == '\'' { seq!['\''] + halved(s.skip(2)) }
    else { seq![s[0]] + halved(s.drop_first()) }
}
pub open spec fn enclosed(s: Seq<char>) -> Seq<char> { seq!['\''] + doubled(s) + seq!['\''] }
proof fn halve_double(s: Seq<char>)
    ensures halved(doubled(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        halve_double(s.drop_first());
        let d = doubled(s);
        let r = doubled(s.drop_first());
        if s[0] == '\'' {
            assert(d.skip(2) =~= r);
            assert(halved(d) =~= seq!['\''] + s.drop_first());
        } else {
            assert(d.drop_first() =~= r);
            assert(d[0] == s[0]);
            assert(halved(d) =~= seq![s[0]] + s.drop_first());
        }
        assert(s =~= seq![s[0]] + s.drop_first());
    }
}
/// the first character that is not a digit, from i on
pub open spec fn digits_to(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && is_dig(s[i]) { digits_to(s, i + 1) } else { i }
}
pub open spec fn first_digit(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || is_dig(s[i]) { i } else { first_digit(s, i + 1) }
}
pub open spec fn value(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
/// the number of a column written in capital letters, A = 1
pub open spec fn col_value(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { col_value(s.drop_last()) * 26 + (s.last() as int - 'A' as int + 1) }
}
/// what parse::<u64>().unwrap_or_default() makes of a run of digits
pub open spec fn parsed(s: Seq<char>) -> int {
    if s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i])) && value(s) <= u64::MAX { value(s) } else { 0 }
}
/// the letters in front of the first digit, in capitals, and the rest
pub open spec fn head(s: Seq<char>) -> Seq<char> { let k = first_digit(s, 0); if k < s.len() { upper(s.take(k)) } else { Seq::empty() } }
pub open spec fn tail(s: Seq<char>) -> Seq<char> { let k = first_digit(s, 0); if k < s.len() { upper(s.skip(k)) } else { Seq::empty() } }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub open spec fn all_upper(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_up(#[trigger] s[i]) }
pub open spec fn word(c: char) -> bool { alnum(c) || c == '_' || c == '.' || emoji(c) }
/// an A1 reference inside the limits
pub open spec fn a1(s: Seq<char>) -> bool {
    1 <= head(s).len() <= 3 && all_upper(head(s)) && all_digits(tail(s)) && 1 <= parsed(tail(s)) <= 1048576 && col_value(head(s)) <= 16384
}
/// starts with an R1C1 reference inside the limits
pub open spec fn r1c1(s: Seq<char>) -> bool {
    let n = parsed(tail(s).take(digits_to(tail(s), 0)));
    (head(s) == seq!['R'] && 1 <= n <= 1048576) || ((head(s) == seq!['C'] || head(s) == seq!['R', 'C']) && 1 <= n <= 16384)
    || (first_digit(s, 0) >= s.len() && (upper(s) == seq!['R'] || upper(s) == seq!['C'] || upper(s) == seq!['R', 'C']))
}
/// not readable as a bare sheet name
pub open spec fn special(s: Seq<char>) -> bool {
    (exists|i: int| 0 <= i < s.len() && !word(#[trigger] s[i])) || (s.len() > 0 && (is_dig(s[0]) || s[0] == '.' || emoji(s[0]))) || a1(s) || r1c1(s)
}
// ---------------------------------------------------------------- trusted
pub uninterp spec fn alnum(c: char) -> bool;
pub uninterp spec fn emoji(c: char) -> bool;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
/// UTF-8 length: at least one byte per character, exactly one for ASCII text
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body] proof fn bytes_ascii(s: Seq<char>) ensures bytes(s) >= s.len(), (forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) as int) < 128) ==> bytes(s) == s.len() { }
/// to_uppercase leaves digits as they are
#[verifier::external_body] proof fn upper_digits(s: Seq<char>) ensures first_digit(s, 0) < s.len() ==> exists|i: int| 0 <= i < upper(s).len() && is_dig(#[trigger] upper(s)[i]) { }
#[verifier::external_body] pub fn vp_same(s: &String, t: &String) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] pub fn vp_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vp_contains(s: &str, cs: [char; 7]) -> (r: bool) ensures r == exists|i: int, j: int| 0 <= i < s@.len() && 0 <= j < 7 && #[trigger] s@[i] == #[trigger] cs@[j] { s.contains(cs) }
#[verifier::external_body] pub fn vp_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] pub fn vp_ends(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[s@.len() - 1] == c) { s.ends_with(c) }
#[verifier::external_body] pub fn vp_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { s.to_uppercase() }
#[verifier::external_body] pub fn vp_parse(s: &str) -> (r: u64) ensures r == parsed(s@) { s.parse::<u64>().unwrap_or_default() }
#[verifier::external_body] pub fn vp_first_digits(s: &String) -> (r: &str) ensures r@ == s@.take(digits_to(s@, 0)) { s.split(|c: char| !c.is_ascii_digit()).next().unwrap_or_default() }
#[verifier::external_body] pub fn vp_all_digits(s: &String) -> (r: bool) ensures r == all_digits(s@) { s.chars().all(|c| c.is_ascii_digit()) }
#[verifier::external_body] pub fn vp_all_upper(s: &String) -> (r: bool) ensures r == all_upper(s@) { s.chars().all(|c| c.is_ascii_uppercase()) }
#[verifier::external_body] pub fn vp_all_words(s: &String) -> (r: bool) ensures r == forall|i: int| 0 <= i < s@.len() ==> word(#[trigger] s@[i]) { true }
#[verifier::external_body] pub fn vp_starts_number(s: &String) -> (r: bool) ensures r == (s@.len() > 0 && (is_dig(s@[0]) || s@[0] == '.' || emoji(s@[0]))) { true }
#[verifier::external_body] pub fn vp_len(s: &String) -> (r: usize) ensures r == bytes(s@) { s.len() }
#[verifier::external_body] pub fn vp_double(s: &String) -> (r: String) ensures r@ == doubled(s@) { s.replace('\'', "''") }
#[verifier::external_body] pub fn vp_halve(s: &String) -> (r: String) ensures r@ == halved(s@) { s.replace("''", "'") }
#[verifier::external_body] pub fn vp_enclose(s: &String) -> (r: String) ensures r@ == seq!['\''] + s@ + seq!['\''] { format!("'{s}'") }
#[verifier::external_body] pub fn vp_inner(s: &str) -> (r: String) requires s@.len() >= 2, s@[0] == '\'', s@.last() == '\'' ensures r@ == s@.subrange(1, s@.len() - 1) { s[1..s.len() - 1].to_string() }
#[verifier::external_body] pub fn vp_str_len(s: &str) -> (r: usize) ensures r == bytes(s@) { s.len() }
#[verifier::external_body] pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn vp_eq(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] pub fn split_cell_reference(s: &str) -> (r: (String, String)) ensures r.0@ == head(s@), r.1@ == tail(s@) { (String::new(), String::new()) }
/// unit c01 proves this contract of the real function
#[verifier::external_body] pub fn column_name_to_number(s: &str) -> (r: ColNum) requires 1 <= s@.len() <= 3, all_upper(s@) ensures r == col_value(s@) - 1 { 0 }
proof fn col_value_small(s: Seq<char>)
    requires 1 <= s.len() <= 3, all_upper(s)
    ensures 1 <= col_value(s) <= 18278
{
    reveal_with_fuel(col_value, 4);
    assert(is_up(s.last()));
    if s.len() >= 2 { assert(is_up(s.drop_last().last())); assert(is_up(s[s.len() - 2])); }
    if s.len() >= 3 { assert(is_up(s[0])); assert(s.drop_last().drop_last().last() == s[0]); }
}

proof fn digits_all(s: Seq<char>, i: int)
    requires all_digits(s), 0 <= i <= s.len()
    ensures digits_to(s, i) == s.len()
    decreases s.len() - i
{
    if i < s.len() { assert(is_dig(s[i])); digits_all(s, i + 1); }
}
proof fn literals()
    ensures "R"@ == seq!['R'], "C"@ == seq!['C'], "RC"@ == seq!['R', 'C']
{
    reveal_strlit("R"); reveal_strlit("C"); reveal_strlit("RC");
    assert("R"@ =~= seq!['R']); assert("C"@ =~= seq!['C']); assert("RC"@ =~= seq!['R', 'C']);
}
proof fn rc_cols()
    ensures col_value(seq!['R']) == 18, col_value(seq!['C']) == 3, col_value(seq!['R', 'C']) == 471
{
    reveal_with_fuel(col_value, 3);
    assert(seq!['R', 'C'].drop_last() =~= seq!['R']);
    assert(seq!['R'].drop_last() =~= Seq::<char>::empty());
    assert(seq!['C'].drop_last() =~= Seq::<char>::empty());
}
proof fn prefix_ok(s: Seq<char>)
    requires all_digits(s)
    ensures s.take(digits_to(s, 0)) == s
{
    digits_all(s, 0);
    assert(s.take(s.len() as int) =~= s);
}

//@fn src/utility.rs validate_sheetname ret=r
| ensures r is Ok <==> name_ok(name@)
//@rewrite name\.chars\(\)\.count\(\) => vp_count(name)
//@rewrite name\.is_empty\(\) => (vp_count(name) == 0)
//@rewrite name\.contains\((\[[^\]]*'\]'[^)]*\])\) => vp_contains(name, \1)
//@rewrite name\.starts_with\('\\''\) => vp_starts(name, '\\'')
//@rewrite name\.ends_with\('\\''\) => vp_ends(name, '\\'')
//@rewrite message\.to_string\(\) => vp_string(message)
//@end

//@fn src/utility.rs quote_sheet_name ret=r
| ensures
|   // a bare name is one that can be read as nothing else; the reader gets the name back either way
|   r@ == sheetname@ || r@ == enclosed(sheetname@),
|   sheetname@.len() > 0 && sheetname@[0] != '\'' && special(sheetname@) ==> r@ == enclosed(sheetname@),
|   // a name that has nothing special in it stays bare
|   !special(sheetname@) ==> r@ == sheetname@,
//@rewrite let mut sheetname = sheetname\.to_string\(\); => let vp_in = sheetname; let mut sheetname = vp_string(sheetname);
//@rewrite sheetname\.to_uppercase\(\) => vp_upper(&sheetname)
//@rewrite let mut number_parts = number_part\.split\([^;]*\);\s*let rc_number_part = number_parts\.next\(\)\.unwrap_or_default\(\); => let rc_number_part = vp_first_digits(&number_part);
//@rewrite sheetname\.starts_with\('\\''\) => vp_starts(&sheetname, '\'')
//@rewrite sheetname\s*\.chars\(\)\s*\.all\(\|c\| c\.is_alphanumeric\(\) \|\| c == '_' \|\| c == '\.' \|\| is_emoji\(c\)\) => vp_all_words(&sheetname)
//@rewrite sheetname\.starts_with\(\|c: char\| c\.is_ascii_digit\(\) \|\| c == '\.' \|\| is_emoji\(c\)\) => vp_starts_number(&sheetname)
//@rewrite \(1\.\.=3\)\.contains\(&string_part\.len\(\)\) => (1 <= vp_len(&string_part) && vp_len(&string_part) <= 3)
//@rewrite string_part\.chars\(\)\.all\(\|c\| c\.is_ascii_uppercase\(\)\) => vp_all_upper(&string_part)
//@rewrite number_part\.chars\(\)\.all\(\|c\| c\.is_ascii_digit\(\)\) => vp_all_digits(&number_part)
//@rewrite \bnumber_part\.parse::<u64>\(\)\.unwrap_or_default\(\) => vp_parse(&number_part)
//@rewrite \brc_number_part\.parse::<u64>\(\)\.unwrap_or_default\(\) => vp_parse(rc_number_part)
//@rewrite (string_part|uppercase_sheetname) == ("[RC]+") => vp_eq(&\1, \2)
//@rewrite sheetname\.replace\('\\'', "''"\) => vp_double(&sheetname)
//@rewrite format!\("'\{sheetname\}'"\) => vp_enclose(&sheetname)
//@at body-start
| proof {
|     literals();
|     rc_cols();
|     upper_digits(sheetname@);
|     bytes_ascii(head(sheetname@));
|     if all_digits(tail(sheetname@)) { prefix_ok(tail(sheetname@)); }
|     if 1 <= head(sheetname@).len() <= 3 && all_upper(head(sheetname@)) {
|         col_value_small(head(sheetname@));
|         assert forall|i: int| 0 <= i < head(sheetname@).len() implies ((#[trigger] head(sheetname@)[i]) as int) < 128 by { assert(is_up(head(sheetname@)[i])); }
|     }
| }
//@end

//@fn src/utility.rs unquote_sheetname ret=r
| ensures sheetname@.len() > 1 && sheetname@[0] == '\'' && sheetname@.last() == '\'' ==> r@ == halved(sheetname@.subrange(1, sheetname@.len() - 1)),
|   !(sheetname@.len() > 1 && sheetname@[0] == '\'' && sheetname@.last() == '\'') ==> r@ == sheetname@,
//@rewrite sheetname\.starts_with\('\\''\) => vp_starts(sheetname, '\'')
//@rewrite sheetname\.ends_with\('\\''\) => vp_ends(sheetname, '\'')
//@rewrite sheetname\.len\(\) > 1 => vp_str_len(sheetname) > 1
//@rewrite sheetname\[1\.\.sheetname\.len\(\) - 1\]\.to_string\(\) => vp_inner(sheetname)
//@rewrite sheetname\.replace\("''", "'"\) => vp_halve(&sheetname)
//@rewrite sheetname\.to_string\(\) => vp_string(sheetname)
//@at body-start
| proof { bytes_ascii(sheetname@); }
//@end
/// the text of a cell reference: unit c01 proves what it is
pub uninterp spec fn cell(r: RowNum, c: ColNum) -> Seq<char>;
pub uninterp spec fn cell_abs(r: RowNum, c: ColNum) -> Seq<char>;
#[verifier::external_body] pub fn row_col_to_cell(r: RowNum, c: ColNum) -> (t: String) ensures t@ == cell(r, c) { String::new() }
#[verifier::external_body] pub fn row_col_to_cell_absolute(r: RowNum, c: ColNum) -> (t: String) ensures t@ == cell_abs(r, c) { String::new() }
/// sheet!first or sheet!first:last, the sheet quoted where it has to be
pub open spec fn qualified(r: Seq<char>, s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    let t = if a == b { a } else { a + seq![':'] + b };
    if s.len() > 0 && s[0] != '\'' && special(s) { r =~= enclosed(s) + seq!['!'] + t } else { r =~= s + seq!['!'] + t }
}
//@fn src/utility.rs chart_range ret=r
| requires name_ok(sheet_name@)
| ensures qualified(r@, sheet_name@, cell(first_row, first_col), cell(last_row, last_col))
//@rewrite range1 == range2 => vp_same(&range1, &range2)
//@end
//@fn src/utility.rs chart_range_abs ret=r
| requires name_ok(sheet_name@)
| ensures qualified(r@, sheet_name@, cell_abs(first_row, first_col), cell_abs(last_row, last_col))
//@rewrite range1 == range2 => vp_same(&range1, &range2)
//@end
/// reading a quoted sheet name gives the name
proof fn round_trip(s: Seq<char>, q: Seq<char>)
    requires s.len() > 0, s[0] != '\'', q == s || q == enclosed(s)
    ensures (if q.len() > 1 && q[0] == '\'' && q.last() == '\'' { halved(q.subrange(1, q.len() - 1)) } else { q }) == s
{
    halve_double(s);
    let e = enclosed(s);
    assert(e.subrange(1, e.len() - 1) =~= doubled(s));
}
fn main() {}
}
