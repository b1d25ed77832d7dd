// ---- trusted: an output sink; what has been written so far, as characters ----
pub trait Write { spec fn out(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vp_w_str<W: Write>(w: &mut W, s: &str)
    ensures final(w).out() == old(w).out() + s@
{ }
#[verifier::external_body]
pub fn vp_w_seq<W: Write, T: VpFmt + ?Sized>(w: &mut W, x: &T)
    ensures final(w).out() == old(w).out() + x.disp()
{ }
pub trait VpWrite: VpFmt {
    fn vp_write<W: Write>(&self, w: &mut W)
        ensures final(w).out() == old(w).out() + self.disp();
}
impl VpWrite for str { fn vp_write<W: Write>(&self, w: &mut W) { vp_w_seq(w, self) } }
impl VpWrite for String { fn vp_write<W: Write>(&self, w: &mut W) { vp_w_seq(w, self) } }
impl VpWrite for u32 { fn vp_write<W: Write>(&self, w: &mut W) { vp_w_seq(w, self) } }
impl VpWrite for usize { fn vp_write<W: Write>(&self, w: &mut W) { vp_w_seq(w, self) } }
pub struct VpOk { }
impl VpOk { pub fn expect(&self, _m: &str) { } }
pub fn vp_ok() -> VpOk { VpOk { } }
