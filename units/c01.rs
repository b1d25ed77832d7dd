// C01: A1 references.  Extracted from /repo/src/utility.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs ROW_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum

// ---------------------------------------------------------------- specification
/// bijective base-26 numeral of n >= 1 over 'A'..'Z' (the empty string stands for 0)
pub open spec fn letter(d: nat) -> char { (65 + d) as u8 as char }
pub open spec fn spec_col(n: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { spec_col(((n - 1) / 26) as nat).push(letter(((n - 1) % 26) as nat)) }
}
pub open spec fn is_letters(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 'A' <= s[i] && s[i] <= 'Z' }
pub open spec fn col_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { (col_value(s.drop_last()) * 26 + (s.last() as u32 - 65 + 1)) as nat }
}
pub open spec fn a1(row: nat, col: nat) -> Seq<char> { spec_col(col + 1) + dec(row + 1) }
pub open spec fn a1_abs(row: nat, col: nat) -> Seq<char> { seq!['$'] + spec_col(col + 1) + seq!['$'] + dec(row + 1) }
pub open spec fn range_of(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a == b { a } else { a + seq![':'] + b } }

// ---------------------------------------------------------------- lemmas
proof fn col_name_letters(n: nat)
    ensures is_letters(spec_col(n)), n > 0 ==> spec_col(n).len() > 0
    decreases n
{ if n > 0 { col_name_letters(((n - 1) / 26) as nat); } }

/// decoding inverts encoding, for every n (no bound)
proof fn col_roundtrip(n: nat)
    ensures col_value(spec_col(n)) == n
    decreases n
{
    if n > 0 {
        let p = ((n - 1) / 26) as nat; let d = ((n - 1) % 26) as nat;
        col_roundtrip(p);
        assert(spec_col(n).drop_last() =~= spec_col(p));
        assert(spec_col(n).last() == letter(d));
        assert(d < 26);
        assert((letter(d) as u32) == 65 + d);
    }
}
proof fn dec_digits(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> '0' <= dec(n)[i] && dec(n)[i] <= '9'
    decreases n
{ if n >= 10 { dec_digits(n / 10); } }
pub open spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { (dec_value(s.drop_last()) * 10 + (s.last() as u32 - 48)) as nat }
}
proof fn dec_roundtrip(n: nat)
    ensures dec_value(dec(n)) == n
    decreases n
{
    if n >= 10 {
        dec_roundtrip(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(n % 10 < 10);
        assert((digit_char(n % 10) as u32) == 48 + n % 10);
    } else {
        assert(dec(n).drop_last() =~= seq![]);
        assert((digit_char(n) as u32) == 48 + n);
        assert(dec_value(seq![]) == 0);
        reveal_with_fuel(dec_value, 2);
    }
}
/// two different cells never get the same reference: the headline lemma
proof fn a1_injective(r1: nat, c1: nat, r2: nat, c2: nat)
    requires a1(r1, c1) == a1(r2, c2)
    ensures r1 == r2, c1 == c2
{
    let (x1, y1, x2, y2) = (spec_col(c1 + 1), dec(r1 + 1), spec_col(c2 + 1), dec(r2 + 1));
    col_name_letters(c1 + 1); col_name_letters(c2 + 1); dec_digits(r1 + 1); dec_digits(r2 + 1);
    let s = x1 + y1; let t = x2 + y2;
    if x1.len() < x2.len() { assert(s[x1.len() as int] == y1[0]); assert(t[x1.len() as int] == x2[x1.len() as int]); assert(false); }
    if x2.len() < x1.len() { assert(t[x2.len() as int] == y2[0]); assert(s[x2.len() as int] == x1[x2.len() as int]); assert(false); }
    assert(s.subrange(0, x1.len() as int) =~= x1); assert(t.subrange(0, x2.len() as int) =~= x2);
    assert(s.subrange(x1.len() as int, s.len() as int) =~= y1); assert(t.subrange(x2.len() as int, t.len() as int) =~= y2);
    assert(x1 == x2); assert(y1 == y2);
    col_roundtrip(c1 + 1); col_roundtrip(c2 + 1); dec_roundtrip(r1 + 1); dec_roundtrip(r2 + 1);
}
proof fn lemma_step(n: nat, s: Seq<char>)
    requires n > 0
    ensures spec_col(n) + s == spec_col(((n - 1) / 26) as nat) + (seq![letter(((n - 1) % 26) as nat)] + s)
{
    let p = spec_col(((n - 1) / 26) as nat); let c = letter(((n - 1) % 26) as nat);
    assert(p.push(c) + s =~= p + (seq![c] + s));
}
proof fn value_bound(s: Seq<char>)
    requires is_letters(s), s.len() <= 3
    ensures col_value(s) <= 18278, s.len() == 2 ==> col_value(s) <= 702, s.len() == 1 ==> col_value(s) <= 26,
            s.len() > 0 ==> col_value(s) >= 1
    decreases s.len()
{ if s.len() > 0 { value_bound(s.drop_last()); assert(s.drop_last().len() == s.len() - 1); } }

// ---------------------------------------------------------------- code under contract
//@fn src/utility.rs column_number_to_name ret=r
| requires col_num < u16::MAX
| ensures r@ == spec_col(col_num as nat + 1)
//@at body-start
| let ghost vp_goal = spec_col(col_num as nat + 1);
//@loop 1
| invariant spec_col(col_num as nat) + col_name@ == vp_goal,
| decreases col_num
//@at loop 1 end
| proof { lemma_step(vp_n0 as nat, vp_s0); assert(col_name@ =~= seq![letter(((vp_n0 - 1) % 26) as nat)] + vp_s0); }
//@at loop 1 start
| let ghost vp_n0 = col_num; let ghost vp_s0 = col_name@;
//@end

//@fn src/utility.rs column_name_to_number ret=r
| requires is_letters(column@), column@.len() <= 3
| ensures column@.len() == 0 ==> r == 0, column@.len() > 0 ==> r as nat == col_value(column@) - 1
//@at body-start
| proof { value_bound(column@); }
//@loop 1 iter=it
| invariant column@.len() <= 3, is_letters(column@), column@.len() > 0, it.seq() == column@,
|   col_num as nat == col_value(column@.take(it.index@ as int)),
//@at loop 1 start
| proof { let i = it.index@ as int; value_bound(column@.take(i)); value_bound(column@.take(i + 1));
|   assert(column@.take(i + 1).drop_last() =~= column@.take(i)); assert(column@.take(i + 1).last() == column@[i]);  }
//@at after-loop 1
| proof { assert(column@.take(column@.len() as int) =~= column@); }
//@end

//@fn src/utility.rs row_col_to_cell ret=r
| requires row < u32::MAX, col < u16::MAX
| ensures r@ =~= a1(row as nat, col as nat)
//@end
//@fn src/utility.rs row_col_to_cell_absolute ret=r
| requires row < u32::MAX, col < u16::MAX
| ensures r@ =~= a1_abs(row as nat, col as nat)
//@end
//@fn src/utility.rs cell_range ret=r
| requires first_row < u32::MAX, first_col < u16::MAX, last_row < u32::MAX, last_col < u16::MAX
| ensures r@ =~= range_of(a1(first_row as nat, first_col as nat), a1(last_row as nat, last_col as nat))
//@end
//@fn src/utility.rs cell_range_absolute ret=r
| requires first_row < u32::MAX, first_col < u16::MAX, last_row < u32::MAX, last_col < u16::MAX
| ensures r@ =~= range_of(a1_abs(first_row as nat, first_col as nat), a1_abs(last_row as nat, last_col as nat))
//@end

} // verus!
fn main() {}
