// C08: which style record each format gets.  Extracted from /repo/src on every run.
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/format.rs struct Format keep=dxf_index,font_index,fill_index,border_index,has_font,has_fill,has_border,num_format,num_format_index,font,alignment,borders,fill,hidden,locked,checkbox,quote_prefix,is_dxf_format derive=
//@item src/worksheet.rs struct RowOptions keep=format,xf_index derive=
//@item src/worksheet.rs struct ColOptions keep=format,xf_index derive=
//@item src/worksheet.rs struct Worksheet keep=xf_formats,xf_indices,dxf_formats,dxf_indices,global_xf_indices,global_dxf_indices,has_workbook_global_xfs,has_hyperlink_style,workbook_xf_indices,changed_cols,changed_rows derive= sub=BTreeMap=>HashMap sub="(Arc<RwLock<)?HashMap<Format, u32>(>>)?=>FormatMap<u32>"
//@item src/workbook.rs struct Workbook keep=xf_formats,dxf_formats,dxf_indices,font_count,border_count derive= sub="(Arc<RwLock<)?HashMap<Format, u32>(>>)?=>FormatMap<u32>"
#[verifier::external_body] #[derive(PartialEq, Eq, Hash)] pub struct Alignment { x: u8 }
#[verifier::external_body] #[derive(PartialEq, Eq, Hash)] pub struct Border { x: u8 }
impl Border { #[verifier::external_body] pub fn is_default(&self) -> bool { true } }
#[verifier::external_body] #[derive(PartialEq, Eq, Hash)] pub struct Fill { x: u8 }
#[verifier::external_body] #[derive(PartialEq, Eq, Hash)] pub struct FontText { x: u8 }
#[derive(PartialEq, Eq, Hash)]
pub struct Font { pub is_hyperlink: bool, pub rest: FontText }

// ---------------------------------------------------------------- trusted
/// derived equality of the field types is equality of their values
#[verifier::external_body] pub fn vp_same<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { a == b }
#[verifier::external_body] pub fn vp_same_text(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vp_clone_format(a: &Format) -> (r: Format) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn vp_clone_key<K>(a: &K) -> (r: K) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn vp_to_vec(a: &[u32]) -> (r: Vec<u32>) ensures r@ == a@ { a.to_vec() }
/// assumed: derived Eq and Hash make a lawful key
#[verifier::external_body] proof fn key_model<K>() ensures vstd::std_specs::hash::obeys_key_model::<K>() { }
/// a hasher that collects what it is fed
pub struct VpHasher { pub fed: Ghost<Seq<Tok>> }
pub enum Tok { Font(Font), Alignment(Alignment), Borders(Border), Fill(Fill), Text(Seq<char>), Index(u16), Flag(bool), Other(int) }
pub trait VpFeed { spec fn tok(&self) -> Tok; }
impl VpFeed for Font { open spec fn tok(&self) -> Tok { Tok::Font(*self) } }
impl VpFeed for Alignment { open spec fn tok(&self) -> Tok { Tok::Alignment(*self) } }
impl VpFeed for Border { open spec fn tok(&self) -> Tok { Tok::Borders(*self) } }
impl VpFeed for Fill { open spec fn tok(&self) -> Tok { Tok::Fill(*self) } }
impl VpFeed for String { open spec fn tok(&self) -> Tok { Tok::Text(self@) } }
impl VpFeed for u16 { open spec fn tok(&self) -> Tok { Tok::Index(*self) } }
impl VpFeed for u32 { open spec fn tok(&self) -> Tok { Tok::Other(*self as int) } }
impl VpFeed for bool { open spec fn tok(&self) -> Tok { Tok::Flag(*self) } }
/// only something equal formats have in common may be fed to the hasher
#[verifier::external_body] pub fn vp_feed<T: VpFeed>(x: &T, state: &mut VpHasher, f: Ghost<Format>)
    requires in_key(f@, x.tok()) ensures final(state).fed@ == old(state).fed@.push(x.tok()) { }
pub open spec fn in_key(f: Format, t: Tok) -> bool {
    t == Tok::Font(f.font) || t == Tok::Alignment(f.alignment) || t == Tok::Borders(f.borders) || t == Tok::Fill(f.fill) || t == Tok::Text(f.num_format@)
    || t == Tok::Index(f.num_format_index) || t == Tok::Flag(f.hidden) || t == Tok::Flag(f.locked) || t == Tok::Flag(f.checkbox) || t == Tok::Flag(f.quote_prefix)
}
/// what the user sees of a format
pub open spec fn same_look(a: Format, b: Format) -> bool {
    a.font == b.font && a.alignment == b.alignment && a.borders == b.borders && a.fill == b.fill && a.num_format@ == b.num_format@
    && a.num_format_index == b.num_format_index && a.hidden == b.hidden && a.locked == b.locked && a.checkbox == b.checkbox && a.quote_prefix == b.quote_prefix
}
/// assumed: HashMap with Format keys finds a key exactly when an equal one is present (Eq is same_look, proved below; Hash agrees, proved below)
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct FormatMap<V> { m: HashMap<u8, V> }
impl<V: Copy> FormatMap<V> {
    /// keyed by look
    pub uninterp spec fn view(&self) -> Map<Look, V>;
    #[verifier::external_body] pub fn find(&self, f: &Format) -> (r: Option<V>)
        ensures match r { Some(v) => self@.dom().contains(look(*f)) && v == self@[look(*f)], None => !self@.dom().contains(look(*f)) } { None }
    #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self@.dom().len() { 0 }
    #[verifier::external_body] pub fn put(&mut self, f: Format, v: V) ensures final(self)@ == old(self)@.insert(look(f), v) { }
}
pub struct Look { pub font: Font, pub alignment: Alignment, pub borders: Border, pub fill: Fill, pub nf: Seq<char>, pub ni: u16, pub hidden: bool, pub locked: bool, pub checkbox: bool, pub quote: bool }
pub open spec fn look(f: Format) -> Look {
    Look { font: f.font, alignment: f.alignment, borders: f.borders, fill: f.fill, nf: f.num_format@, ni: f.num_format_index, hidden: f.hidden, locked: f.locked, checkbox: f.checkbox, quote: f.quote_prefix }
}
proof fn look_is_key(a: Format, b: Format) ensures same_look(a, b) <==> look(a) == look(b) { }

impl Format {
//@fn src/format.rs eq impl="impl PartialEq for Format" ret=r
| ensures r == same_look(*self, *other)
//@rewrite self\.num_format == other\.num_format\b => vp_same_text(&self.num_format, &other.num_format)
//@rewrite self\.(\w+) == other\.(\w+) => vp_same(&self.\1, &other.\2)
//@end
//@fn src/format.rs hash impl="impl Hash for Format"
//@rewrite sig:<H: std::hash::Hasher> =>
//@rewrite sig:&mut H => &mut VpHasher
//@rewrite self\.(\w+)\.hash\(state\) => vp_feed(&self.\1, state, Ghost(*self))
//@end
//@fn src/format.rs set_font_index impl="impl Format"
| ensures *final(self) == (Format { font_index: font_index, has_font: has_font, ..*old(self) })
//@end
//@fn src/format.rs set_fill_index impl="impl Format"
| ensures *final(self) == (Format { fill_index: fill_index, has_fill: has_fill, ..*old(self) })
//@end
//@fn src/format.rs set_border_index impl="impl Format"
| ensures *final(self) == (Format { border_index: border_index, has_border: has_border, ..*old(self) })
//@end
}

/// a format table: entry i is the look of the i-th format, no look twice
pub open spec fn table_ok(m: Map<Look, u32>, v: Seq<Format>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> m.dom().contains(look(v[i])) && m[look(v[i])] == i
    &&& forall|k: Look| #[trigger] m.dom().contains(k) ==> m[k] < v.len() && look(v[m[k] as int]) == k
}
impl Worksheet {
//@fn src/worksheet.rs format_xf_index_local impl="impl Worksheet" ret=r
| requires table_ok(old(self).xf_indices@, old(self).xf_formats@), old(self).xf_formats@.len() < 0xffff_ffff
| ensures table_ok(final(self).xf_indices@, final(self).xf_formats@),
|   r < final(self).xf_formats@.len(), same_look(final(self).xf_formats@[r as int], *format),
|   old(self).xf_formats@.is_prefix_of(final(self).xf_formats@), final(self).xf_formats@.len() <= old(self).xf_formats@.len() + 1,
|   final(self).changed_rows == old(self).changed_rows, final(self).changed_cols == old(self).changed_cols,
|   final(self).has_workbook_global_xfs == old(self).has_workbook_global_xfs, final(self).dxf_formats == old(self).dxf_formats, final(self).dxf_indices == old(self).dxf_indices,
|   final(self).global_xf_indices == old(self).global_xf_indices, final(self).global_dxf_indices == old(self).global_dxf_indices,
//@rewrite self\.xf_indices\.get_mut\(format\) => self.xf_indices.find(format)
//@rewrite self\.xf_indices\.insert\( => self.xf_indices.put(
//@rewrite Some\(xf_index\) => Some(ref xf_index)
//@rewrite format\.clone\(\) => vp_clone_format(format)
//@end
//@fn src/worksheet.rs format_dxf_index impl="impl Worksheet" ret=r
| requires table_ok(old(self).dxf_indices@, old(self).dxf_formats@), old(self).dxf_formats@.len() < 0xffff_ffff
| ensures table_ok(final(self).dxf_indices@, final(self).dxf_formats@),
|   r < final(self).dxf_formats@.len(), same_look(final(self).dxf_formats@[r as int], *format),
|   old(self).dxf_formats@.is_prefix_of(final(self).dxf_formats@),
|   final(self).xf_formats == old(self).xf_formats, final(self).xf_indices == old(self).xf_indices, final(self).changed_rows == old(self).changed_rows, final(self).changed_cols == old(self).changed_cols,
//@rewrite self\.dxf_indices\.get_mut\(format\) => self.dxf_indices.find(format)
//@rewrite self\.dxf_indices\.insert\( => self.dxf_indices.put(
//@rewrite Some\(dxf_index\) => Some(ref dxf_index)
//@rewrite (dxf_)?format\.clone\(\) => vp_clone_format(&\1format)
//@end
//@fn src/worksheet.rs format_xf_index_global impl="impl Worksheet" ret=r
| requires dense(old(self).workbook_xf_indices@), old(self).workbook_xf_indices@.dom().len() < 0xffff_ffff
| ensures dense(final(self).workbook_xf_indices@), final(self).workbook_xf_indices@.dom().contains(look(*format)), final(self).workbook_xf_indices@[look(*format)] == r,
|   forall|k: Look| #[trigger] old(self).workbook_xf_indices@.dom().contains(k) ==> final(self).workbook_xf_indices@.dom().contains(k) && final(self).workbook_xf_indices@[k] == old(self).workbook_xf_indices@[k],
|   *final(self) == (Worksheet { workbook_xf_indices: final(self).workbook_xf_indices, ..*old(self) }),
//@rewrite let (mut )?xf_indices = self\.workbook_xf_indices\.(read|write)\(\)\.expect\("[^"]*"\); =>
//@rewrite drop\(xf_indices\); =>
//@rewrite return \*xf_index => return xf_index
//@rewrite xf_indices\.get\(format\) => self.workbook_xf_indices.find(format)
//@rewrite xf_indices\.len\(\) => self.workbook_xf_indices.count()
//@rewrite xf_indices\.insert\(format\.clone\(\), => self.workbook_xf_indices.put(vp_clone_format(format),
//@end
//@fn src/worksheet.rs format_xf_index impl="impl Worksheet" ret=r
| requires dense(old(self).workbook_xf_indices@), old(self).workbook_xf_indices@.dom().len() < 0xffff_ffff, table_ok(old(self).xf_indices@, old(self).xf_formats@), old(self).xf_formats@.len() < 0xffff_ffff
| ensures table_ok(final(self).xf_indices@, final(self).xf_formats@), denotes(*final(self), r, look(*format)),
|   old(self).xf_formats@.is_prefix_of(final(self).xf_formats@),
|   final(self).changed_rows == old(self).changed_rows, final(self).changed_cols == old(self).changed_cols,
//@end
//@fn src/worksheet.rs set_global_xf_indices impl="impl Worksheet"
| ensures final(self).global_xf_indices@ == workbook_xf_indices@, final(self).xf_formats == old(self).xf_formats, final(self).global_dxf_indices == old(self).global_dxf_indices,
//@rewrite (\w+)\.to_vec\(\) => vp_to_vec(\1)
//@end
//@fn src/worksheet.rs set_global_dxf_indices impl="impl Worksheet"
| ensures final(self).global_dxf_indices@ == workbook_dxf_indices@, final(self).xf_formats == old(self).xf_formats, final(self).global_xf_indices == old(self).global_xf_indices,
//@rewrite (\w+)\.to_vec\(\) => vp_to_vec(\1)
//@end
//@fn src/worksheet.rs get_global_xf_index impl="impl Worksheet" ret=r
| requires self.has_workbook_global_xfs || xf_index < self.global_xf_indices@.len()
| ensures r == to_global(*self, xf_index)
//@end
//@fn src/worksheet.rs get_cell_xf_index impl="impl Worksheet" ret=r
| requires old(self).has_workbook_global_xfs || (xf_index < old(self).global_xf_indices@.len() && (row_options matches Some(o) ==> o.xf_index < old(self).global_xf_indices@.len()) && (old(self).changed_cols@.dom().contains(col_num) ==> old(self).changed_cols@[col_num].xf_index < old(self).global_xf_indices@.len())),
| ensures *final(self) == *old(self),
|   // the cell's own format, else the row's, else the column's, else the default
|   r == chosen(*old(self), xf_index, match row_options { Some(o) => o.xf_index, None => 0 }, if old(self).changed_cols@.dom().contains(col_num) { old(self).changed_cols@[col_num].xf_index } else { 0 })
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
    pub uninterp spec fn merged(a: Format, b: Format) -> Format;
//@fn src/worksheet.rs row_col_format impl="impl Worksheet" ret=r
| requires dense(old(self).workbook_xf_indices@), old(self).workbook_xf_indices@.dom().len() < 0xffff_ffff, table_ok(old(self).xf_indices@, old(self).xf_formats@), old(self).xf_formats@.len() < 0xffff_ffff
| ensures final(self).changed_rows == old(self).changed_rows, final(self).changed_cols == old(self).changed_cols,
|   old(self).xf_formats@.is_prefix_of(final(self).xf_formats@),
|   // a cell at a crossing of a formatted row and a formatted column takes the two formats merged; others are left to get_cell_xf_index
|   match (row_fmt(*old(self), row), col_fmt(*old(self), col)) {
|     (Some(rf), Some(cf)) => denotes(*final(self), r, look(Worksheet::merged(rf, cf))),
|     _ => r == 0 && *final(self) == *old(self) },
//@rewrite Format::merge\( => vp_merge(
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
}
/// trusted: Format::merge (its own property is checked by execution)
#[verifier::external_body] pub fn vp_merge(a: &Format, b: &Format) -> (r: Format) ensures r == Worksheet::merged(*a, *b) { unimplemented!() }
/// the workbook's format table: no index is given twice, all are below the size
pub open spec fn dense(m: Map<Look, u32>) -> bool {
    (forall|k: Look| #[trigger] m.dom().contains(k) ==> m[k] < m.dom().len()) && (forall|k: Look, l: Look| #[trigger] m.dom().contains(k) && #[trigger] m.dom().contains(l) && m[k] == m[l] ==> k == l)
}
pub open spec fn row_fmt(w: Worksheet, row: u32) -> Option<Format> { if w.changed_rows@.dom().contains(row) { w.changed_rows@[row].format } else { None } }
pub open spec fn col_fmt(w: Worksheet, col: u16) -> Option<Format> { if w.changed_cols@.dom().contains(col) { w.changed_cols@[col].format } else { None } }
/// an index of the sheet denotes a look
pub open spec fn denotes(w: Worksheet, r: u32, k: Look) -> bool {
    if w.has_workbook_global_xfs { w.workbook_xf_indices@.dom().contains(k) && w.workbook_xf_indices@[k] == r } else { r < w.xf_formats@.len() && look(w.xf_formats@[r as int]) == k }
}
pub open spec fn to_global(w: Worksheet, x: u32) -> u32 { if w.has_workbook_global_xfs { x } else { w.global_xf_indices@[x as int] } }
pub open spec fn chosen(w: Worksheet, cell: u32, row: u32, col: u32) -> u32 {
    let x = if cell != 0 { cell } else if row != 0 { row } else { col };
    if x == 0 { 0 } else { to_global(w, x) }
}

// ---------------------------------------------------------------- record tables of the style part
pub struct Rec<K> { pub k: K, pub ix: u16, pub has: bool }
/// how many records the first n formats bring along
pub open spec fn cnt<K>(s: Seq<Rec<K>>, n: nat) -> nat decreases n { if n == 0 { 0 } else { cnt(s, (n - 1) as nat) + if s[n - 1].has { 1nat } else { 0nat } } }
pub open spec fn first_at<K>(s: Seq<Rec<K>>, p: int, k: K) -> bool { s[p].has && s[p].k == k }
/// format i brings the record it refers to and no earlier one has it, or it refers to an equal one brought earlier
#[verifier::opaque]
pub open spec fn good<K>(s: Seq<Rec<K>>, i: int) -> bool {
    if s[i].has { s[i].ix == cnt(s, i as nat) && forall|p: int| 0 <= p < i ==> !#[trigger] same_k(s, p, s[i].k) }
    else { exists|p: int| 0 <= p < i && #[trigger] first_at(s, p, s[i].k) && s[p].ix == s[i].ix }
}
pub open spec fn same_k<K>(s: Seq<Rec<K>>, p: int, k: K) -> bool { s[p].k == k }
/// each of the first n formats brings the record it refers to, or refers to an equal one brought earlier; and nothing is brought twice
pub open spec fn recs_ok<K>(s: Seq<Rec<K>>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] good(s, i) }
pub open spec fn mapped<K>(s: Seq<Rec<K>>, i: int, m: Map<K, u16>) -> bool { m.dom().contains(s[i].k) && m[s[i].k] == s[i].ix }
#[verifier::opaque]
pub open spec fn map_ok<K>(s: Seq<Rec<K>>, n: nat, m: Map<K, u16>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] mapped(s, i, m)
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|p: int| 0 <= p < n && #[trigger] first_at(s, p, k)
}
proof fn empty_map<K>(s: Seq<Rec<K>>) ensures map_ok(s, 0, Map::<K, u16>::empty()) { reveal(map_ok); }
proof fn cnt_prefix<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures cnt(a, n) == cnt(b, n) decreases n
{ if n > 0 { cnt_prefix(a, b, (n - 1) as nat); } }
proof fn cnt_le<K>(a: Seq<Rec<K>>, n: nat) requires n <= a.len() ensures cnt(a, n) <= n decreases n { if n > 0 { cnt_le(a, (n - 1) as nat); } }
/// the n-th format gets its record
pub open spec fn step<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat, m: Map<K, u16>, m2: Map<K, u16>, c: u16, c2: u16) -> bool {
    n < a.len() && b.len() == a.len() && (forall|i: int| 0 <= i < n ==> a[i] == b[i]) && a[n as int].k == b[n as int].k && recs_ok(a, n) && map_ok(a, n, m) && c == cnt(a, n)
    && (if m.dom().contains(a[n as int].k) { !b[n as int].has && b[n as int].ix == m[a[n as int].k] && m2 == m && c2 == c }
        else { b[n as int].has && b[n as int].ix == c && m2 == m.insert(a[n as int].k, c) && c2 == c + 1 })
}
proof fn rec_step1<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat, i: int)
    requires (forall|i: int| 0 <= i < n ==> a[i] == b[i]), n <= a.len(), n <= b.len(), 0 <= i < n, good(a, i)
    ensures good(b, i)
{
    reveal(good);
    assert(b[i] == a[i]); cnt_prefix(a, b, i as nat);
    if b[i].has { assert forall|p: int| 0 <= p < i implies !#[trigger] same_k(b, p, b[i].k) by { assert(b[p] == a[p]); assert(!same_k(a, p, a[i].k)); } }
    else { let p = choose|p: int| 0 <= p < i && #[trigger] first_at(a, p, a[i].k) && a[p].ix == a[i].ix; assert(b[p] == a[p]); assert(first_at(b, p, b[i].k)); }
}
proof fn rec_step2<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat, m: Map<K, u16>, m2: Map<K, u16>, c: u16, c2: u16)
    requires step(a, b, n, m, m2, c, c2),
    ensures good(b, n as int), c2 == cnt(b, n + 1)
{
    reveal(good); reveal(map_ok);
    cnt_prefix(a, b, n);
    let k = a[n as int].k;
    if b[n as int].has { assert forall|p: int| 0 <= p < n implies !#[trigger] same_k(b, p, b[n as int].k) by { assert(b[p] == a[p]); assert(mapped(a, p, m)); } }
    else {
        assert(m.dom().contains(k));
        let p = choose|p: int| 0 <= p < n && #[trigger] first_at(a, p, k);
        assert(b[p] == a[p]); assert(mapped(a, p, m)); assert(first_at(b, p, k));
    }
}
proof fn rec_step3<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat, m: Map<K, u16>, m2: Map<K, u16>, c: u16, c2: u16)
    requires step(a, b, n, m, m2, c, c2),
    ensures map_ok(b, n + 1, m2)
{
    reveal(map_ok);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] mapped(b, i, m2) by { if i < n { assert(b[i] == a[i]); assert(mapped(a, i, m)); } }
    assert forall|k: K| #[trigger] m2.dom().contains(k) implies exists|p: int| 0 <= p < n + 1 && #[trigger] first_at(b, p, k) by {
        if m.dom().contains(k) { let p = choose|p: int| 0 <= p < n && #[trigger] first_at(a, p, k); assert(b[p] == a[p]); assert(first_at(b, p, k)); } else { assert(first_at(b, n as int, k)); }
    }
}
proof fn rec_step<K>(a: Seq<Rec<K>>, b: Seq<Rec<K>>, n: nat, m: Map<K, u16>, m2: Map<K, u16>, c: u16, c2: u16)
    requires step(a, b, n, m, m2, c, c2),
    ensures recs_ok(b, n + 1), map_ok(b, n + 1, m2), c2 == cnt(b, n + 1),
{
    rec_step2(a, b, n, m, m2, c, c2); rec_step3(a, b, n, m, m2, c, c2);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] good(b, i) by { if i < n { rec_step1(a, b, n, i); } }
}
/// two formats refer to one record exactly when they agree
proof fn rec_meaning<K>(s: Seq<Rec<K>>, n: nat, i: int, j: int)
    requires recs_ok(s, n), n <= s.len(), 0 <= i < n, 0 <= j < n ensures s[i].ix == s[j].ix <==> s[i].k == s[j].k
{
    reveal(good);
    assert(good(s, i) && good(s, j));
    let p = if s[i].has { i } else { choose|p: int| 0 <= p < i && #[trigger] first_at(s, p, s[i].k) && s[p].ix == s[i].ix };
    let q = if s[j].has { j } else { choose|p: int| 0 <= p < j && #[trigger] first_at(s, p, s[j].k) && s[p].ix == s[j].ix };
    assert(s[p].has && s[q].has); assert(good(s, p) && good(s, q));
    if p < q { cnt_mono(s, p as nat, q as nat); assert(!same_k(s, p, s[q].k)); } else if q < p { cnt_mono(s, q as nat, p as nat); assert(!same_k(s, q, s[p].k)); }
}
proof fn cnt_mono<K>(s: Seq<Rec<K>>, p: nat, q: nat) requires p < q <= s.len(), s[p as int].has ensures cnt(s, p) < cnt(s, q) decreases q
{ if q > p + 1 { cnt_mono(s, p, (q - 1) as nat); } }
pub open spec fn fonts(v: Seq<Format>) -> Seq<Rec<Font>> { v.map_values(|f: Format| Rec { k: f.font, ix: f.font_index, has: f.has_font }) }
pub open spec fn borders(v: Seq<Format>) -> Seq<Rec<Border>> { v.map_values(|f: Format| Rec { k: f.borders, ix: f.border_index, has: f.has_border }) }

impl Workbook {
//@fn src/workbook.rs format_dxf_index impl="impl Workbook" ret=r
| requires table_ok(old(self).dxf_indices@, old(self).dxf_formats@), old(self).dxf_formats@.len() < 0xffff_ffff
| ensures table_ok(final(self).dxf_indices@, final(self).dxf_formats@),
|   r < final(self).dxf_formats@.len(), same_look(final(self).dxf_formats@[r as int], *format),
|   old(self).dxf_formats@.is_prefix_of(final(self).dxf_formats@), final(self).xf_formats == old(self).xf_formats,
//@rewrite self\.dxf_indices\.get_mut\(format\) => self.dxf_indices.find(format)
//@rewrite self\.dxf_indices\.insert\( => self.dxf_indices.put(
//@rewrite Some\(dxf_index\) => Some(ref dxf_index)
//@rewrite format\.clone\(\) => vp_clone_format(format)
//@end
//@fn src/workbook.rs prepare_fonts impl="impl Workbook"
| requires old(self).xf_formats@.len() < 65536
| ensures recs_ok(fonts(final(self).xf_formats@), final(self).xf_formats@.len()), final(self).font_count == cnt(fonts(final(self).xf_formats@), final(self).xf_formats@.len()),
|   final(self).xf_formats@.len() == old(self).xf_formats@.len(),
|   forall|i: int| #![trigger final(self).xf_formats@[i]] 0 <= i < old(self).xf_formats@.len() ==> final(self).xf_formats@[i] == (Format { font_index: final(self).xf_formats@[i].font_index, has_font: final(self).xf_formats@[i].has_font, ..old(self).xf_formats@[i] }),
//@rewrite for xf_format in &mut self\.xf_formats \{ => let vp_n = self.xf_formats.len(); for vp_i in 0..vp_n { let xf_format = &mut self.xf_formats[vp_i];
//@rewrite xf_format\.font\.clone\(\) => vp_clone_key(&xf_format.font)
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { key_model::<Font>(); }
| let ghost v0 = self.xf_formats@;
| proof { reveal(map_ok); }
//@loop 1
| invariant vp_n == v0.len(), self.xf_formats@.len() == vp_n, vp_n < 65536, vstd::std_specs::hash::obeys_key_model::<Font>(),
|   recs_ok(fonts(self.xf_formats@), vp_i as nat), map_ok(fonts(self.xf_formats@), vp_i as nat, font_indices@), font_count == cnt(fonts(self.xf_formats@), vp_i as nat),
|   forall|i: int| #![trigger self.xf_formats@[i]] 0 <= i < vp_n ==> self.xf_formats@[i] == (Format { font_index: self.xf_formats@[i].font_index, has_font: self.xf_formats@[i].has_font, ..v0[i] }),
//@at loop 1 start
| let ghost v1 = self.xf_formats@; let ghost m1 = font_indices@; let ghost c1 = font_count;
| proof { cnt_le(fonts(v1), vp_i as nat); }
//@at loop 1 end
| proof { let v2 = self.xf_formats@; assert(fonts(v2) =~= fonts(v1).update(vp_i as int, fonts(v2)[vp_i as int])); rec_step(fonts(v1), fonts(v2), vp_i as nat, m1, font_indices@, c1, font_count); }
//@end
//@fn src/workbook.rs prepare_borders impl="impl Workbook"
| requires old(self).xf_formats@.len() < 65536
| ensures recs_ok(borders(final(self).xf_formats@), final(self).xf_formats@.len()), final(self).border_count == cnt(borders(final(self).xf_formats@), final(self).xf_formats@.len()),
|   final(self).xf_formats@.len() == old(self).xf_formats@.len(),
|   forall|i: int| #![trigger final(self).xf_formats@[i]] 0 <= i < old(self).xf_formats@.len() ==> final(self).xf_formats@[i] == (Format { border_index: final(self).xf_formats@[i].border_index, has_border: final(self).xf_formats@[i].has_border, ..old(self).xf_formats@[i] }),
//@rewrite for xf_format in &mut self\.xf_formats \{ => let vp_n = self.xf_formats.len(); for vp_i in 0..vp_n { let xf_format = &mut self.xf_formats[vp_i];
//@rewrite xf_format\.borders\.clone\(\) => vp_clone_key(&xf_format.borders)
//@rewrite for dxf_format in &mut self\.dxf_formats \{ => let vp_m = self.dxf_formats.len(); for vp_j in 0..vp_m { let dxf_format = &mut self.dxf_formats[vp_j];
//@at body-start
| broadcast use vstd::std_specs::hash::group_hash_axioms;
| proof { key_model::<Border>(); }
| let ghost v0 = self.xf_formats@;
| proof { reveal(map_ok); }
//@loop 1
| invariant vp_n == v0.len(), self.xf_formats@.len() == vp_n, vp_n < 65536, vstd::std_specs::hash::obeys_key_model::<Border>(),
|   recs_ok(borders(self.xf_formats@), vp_i as nat), map_ok(borders(self.xf_formats@), vp_i as nat, border_indices@), border_count == cnt(borders(self.xf_formats@), vp_i as nat),
|   forall|i: int| #![trigger self.xf_formats@[i]] 0 <= i < vp_n ==> self.xf_formats@[i] == (Format { border_index: self.xf_formats@[i].border_index, has_border: self.xf_formats@[i].has_border, ..v0[i] }),
//@at loop 1 start
| let ghost v1 = self.xf_formats@; let ghost m1 = border_indices@; let ghost c1 = border_count;
| proof { cnt_le(borders(v1), vp_i as nat); }
//@at loop 1 end
| proof { let v2 = self.xf_formats@; assert(borders(v2) =~= borders(v1).update(vp_i as int, borders(v2)[vp_i as int])); rec_step(borders(v1), borders(v2), vp_i as nat, m1, border_indices@, c1, border_count); }
//@loop 2
| invariant vp_m == self.dxf_formats@.len(), recs_ok(borders(self.xf_formats@), self.xf_formats@.len()), self.border_count == cnt(borders(self.xf_formats@), self.xf_formats@.len()),
|   self.xf_formats@.len() == v0.len(), v0 == old(self).xf_formats@,
|   forall|i: int| #![trigger self.xf_formats@[i]] 0 <= i < v0.len() ==> self.xf_formats@[i] == (Format { border_index: self.xf_formats@[i].border_index, has_border: self.xf_formats@[i].has_border, ..v0[i] }),
//@end
}
fn main() {}
}
