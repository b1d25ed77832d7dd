// ---- trusted: std::fmt Display of the types that the extracted code formats ----
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit_char(n)] } else { dec(n / 10).push(digit_char(n % 10)) }
}
pub open spec fn digit_char(d: nat) -> char { (48 + d) as u8 as char }

pub trait VpFmt {
    spec fn disp(&self) -> Seq<char>;
    fn vp_fmt(&self, s: &mut String)
        ensures final(s)@ == old(s)@ + self.disp();
}
impl VpFmt for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(self) }
}
impl VpFmt for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(self) }
}
impl VpFmt for char {
    open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push(*self) }
}
impl VpFmt for u8 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) }
}
impl VpFmt for u16 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) }
}
impl VpFmt for u32 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) }
}
impl VpFmt for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) }
}
// ---- trusted: std char/str functions vstd has no contract for ----
pub assume_specification [char::from_u32] (i: u32) -> (r: Option<char>)
    ensures (i < 0xD800 || (0xE000 <= i && i <= 0x10FFFF)) ==> r == Some(i as char),
            !(i < 0xD800 || (0xE000 <= i && i <= 0x10FFFF)) ==> r is None;
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool)
    ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool)
    ensures r == (('0' <= *c && *c <= '9') || ('A' <= *c && *c <= 'F') || ('a' <= *c && *c <= 'f'));
