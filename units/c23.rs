// C23: defined names.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs ROW_MAX
//@const src/worksheet.rs COL_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/worksheet.rs enum DefinedNameType derive=Clone,Copy
//@item src/worksheet.rs struct DefinedName derive=
//@item src/worksheet.rs struct Worksheet keep=name,autofilter_defined_name,print_area_defined_name,repeat_row_cols_defined_name derive=
//@item src/packager.rs struct PackagerOptions keep=defined_names derive=
//@item src/workbook.rs struct Workbook keep=writer,worksheets,user_defined_names,defined_names derive= sub=Cursor<Vec<u8>>=>Writer
pub enum XlsxError { ParameterError(String) }
type Text = Seq<char>;
// ---------------------------------------------------------------- specification
pub open spec fn last_bang(s: Text) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == '!' { s.len() - 1 } else { last_bang(s.drop_last()) } }
pub proof fn bang_in(s: Text) ensures -1 <= last_bang(s) < s.len(), last_bang(s) >= 0 ==> s[last_bang(s)] == '!' decreases s.len() { if s.len() > 0 && s.last() != '!' { bang_in(s.drop_last()); } }
/// std's Unicode tables
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn lower(s: Text) -> Text;
pub open spec fn bad(c: char) -> bool { c == ' ' || c == ',' || c == '/' || c == '*' || c == '[' || c == ']' || c == ':' || c == '"' || c == '\'' }
pub open spec fn name_ok(n: Text) -> bool { n.len() > 0 && (alpha(n[0]) || n[0] == '_' || n[0] == '\\') && forall|i: int| 0 <= i < n.len() ==> !bad(#[trigger] n[i]) }
pub open spec fn unequal(f: Text) -> Text { if f.len() > 0 && f[0] == '=' { f.skip(1) } else { f } }
pub open spec fn scope_of(s: Text) -> Text { if last_bang(s) >= 0 { s.take(last_bang(s)) } else { seq![] } }
pub open spec fn base_of(s: Text) -> Text { if last_bang(s) >= 0 { s.skip(last_bang(s) + 1) } else { s } }
/// unit c04 proves what these are, and the third line
pub uninterp spec fn quoted(s: Text) -> Text;
pub uninterp spec fn unquoted(s: Text) -> Text;
#[verifier::external_body] pub proof fn read_back(s: Text) requires s.len() > 0, s[0] != '\'' ensures unquoted(quoted(s)) == s { }
pub uninterp spec fn no_quotes(s: Text) -> Text;
pub uninterp spec fn col_letters(c: int) -> Text;
pub uninterp spec fn abs_range(r: int, c: int, r2: int, c2: int) -> Text;
pub open spec fn rows_ref(r: int, r2: int) -> Text { "$"@ + dec((r + 1) as nat) + ":$"@ + dec((r2 + 1) as nat) }
pub open spec fn cols_ref(c: int, c2: int) -> Text { "$"@ + col_letters(c) + ":$"@ + col_letters(c2) }
pub open spec fn area_ref(d: DefinedName) -> Text {
    if d.first_col == 0 && d.last_col == COL_MAX - 1 { rows_ref(d.first_row as int, d.last_row as int) }
    else if d.first_row == 0 && d.last_row == ROW_MAX - 1 { cols_ref(d.first_col as int, d.last_col as int) }
    else { abs_range(d.first_row as int, d.first_col as int, d.last_row as int, d.last_col as int) }
}
pub open spec fn titles_ref(d: DefinedName) -> Text {
    let c = d.quoted_sheet_name@ + "!"@ + cols_ref(d.first_col as int, d.last_col as int);
    let r = d.quoted_sheet_name@ + "!"@ + rows_ref(d.first_row as int, d.last_row as int);
    let (hc, hr) = (d.first_col != COL_MAX || d.last_col != 0, d.first_row != ROW_MAX || d.last_row != 0);
    if hc && hr { c + ","@ + r } else if hc { c } else if hr { r } else { seq![] }
}
pub open spec fn range_of(d: DefinedName) -> Text {
    match d.name_type { DefinedNameType::Autofilter | DefinedNameType::PrintArea => d.quoted_sheet_name@ + "!"@ + area_ref(d), DefinedNameType::PrintTitles => titles_ref(d), _ => d.range@ }
}
pub open spec fn built_in(d: DefinedName) -> Text { match d.name_type { DefinedNameType::PrintArea => "Print_Area"@, DefinedNameType::Autofilter => "_FilterDatabase"@, DefinedNameType::PrintTitles => "Print_Titles"@, _ => d.name@ } }
pub open spec fn xml_name(d: DefinedName) -> Text { match d.name_type { DefinedNameType::PrintArea => "_xlnm.Print_Area"@, DefinedNameType::Autofilter => "_xlnm._FilterDatabase"@, DefinedNameType::PrintTitles => "_xlnm.Print_Titles"@, _ => d.name@ } }
pub open spec fn sort_key(d: DefinedName) -> Text { lower(no_quotes(built_in(d))) }
/// the entry of docProps/app.xml
pub open spec fn app_text(d: DefinedName) -> Text {
    match d.name_type {
        DefinedNameType::Local => d.quoted_sheet_name@ + "!"@ + d.name@,
        DefinedNameType::PrintArea => d.quoted_sheet_name@ + "!Print_Area"@,
        DefinedNameType::PrintTitles => d.quoted_sheet_name@ + "!Print_Titles"@,
        DefinedNameType::Autofilter => seq![],
        DefinedNameType::Global => if d.range@.contains('!') { d.name@ } else { seq![] },
    }
}
/// a name as the user gave it
pub open spec fn given(d: DefinedName, name: Text, formula: Text) -> bool {
    &&& d.name@ == base_of(name) && d.range@ == unequal(formula) && d.sort_name@ == sort_key(d)
    &&& if last_bang(name) >= 0 { d.name_type is Local && d.quoted_sheet_name@ == scope_of(name) } else { d.name_type is Global }
}
/// what identifies and describes an entry, apart from the index of its sheet
pub struct Entry { pub name: Text, pub kind: DefinedNameType, pub range: Text, pub sheet: Text, pub key: Text, pub index: u16 }
pub open spec fn entry(d: DefinedName) -> Entry { Entry { name: d.name@, kind: d.name_type, range: d.range@, sheet: d.quoted_sheet_name@, key: d.sort_name@, index: d.index } }
pub open spec fn entries(v: Seq<DefinedName>) -> Seq<Entry> { v.map_values(|d: DefinedName| entry(d)) }
/// the entry made of a sheet's area
pub open spec fn of_sheet(d: DefinedName, sheet: Text) -> Entry {
    let q = quoted(sheet);
    Entry { name: d.name@, kind: d.name_type, range: placed(d, q), sheet: q, key: sort_key(d), index: d.index }
}
pub uninterp spec fn str_of(t: Text) -> String;
#[verifier::external_body] pub proof fn str_of_ok(t: Text) ensures str_of(t)@ == t { }
pub open spec fn placed(d: DefinedName, q: Text) -> Text { range_of(DefinedName { quoted_sheet_name: str_of(q), ..d }) }
pub open spec fn grow(a: Seq<Entry>, d: DefinedName, sheet: Text) -> Seq<Entry> { if d.in_use { a.push(of_sheet(d, sheet)) } else { a } }
/// all the names of the workbook: the user's, then those of each sheet
#[verifier::opaque] pub open spec fn collected(a: Seq<Entry>, s: Seq<Worksheet>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { a } else { let w = s[n - 1]; grow(grow(grow(collected(a, s, n - 1), w.autofilter_defined_name, w.name@), w.print_area_defined_name, w.name@), w.repeat_row_cols_defined_name, w.name@) }
}
/// the index of each sheet by its name
#[verifier::opaque] pub open spec fn sheet_map(s: Seq<Worksheet>, n: int) -> Map<Text, u16> decreases n { if n <= 0 { Map::empty() } else { sheet_map(s, n - 1).insert(s[n - 1].name@, (n - 1) as u16) } }
pub proof fn sheet_known(s: Seq<Worksheet>, n: int, i: int)
    requires 0 <= i < n <= s.len(), n <= 65536, forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a].name@ != #[trigger] s[b].name@
    ensures sheet_map(s, n).dom().contains(s[i].name@), sheet_map(s, n)[s[i].name@] == i
    decreases n
{ reveal(sheet_map); if i < n - 1 { sheet_known(s, n - 1, i); assert(s[i].name@ != s[n - 1].name@); } }
pub proof fn sheet_unknown(s: Seq<Worksheet>, n: int, t: Text)
    requires 0 <= n <= s.len(), sheet_map(s, n).dom().contains(t) ensures exists|i: int| 0 <= i < n && (#[trigger] s[i]).name@ == t
    decreases n
{ reveal(sheet_map); if n > 0 { if s[n - 1].name@ == t { assert(s[n - 1].name@ == t); } else { sheet_unknown(s, n - 1, t); } } }
pub open spec fn known(e: Entry, m: Map<Text, u16>) -> bool { e.kind is Global || m.dom().contains(unquoted(e.sheet)) }
/// the entry with the index of its sheet
pub open spec fn indexed(e: Entry, m: Map<Text, u16>) -> Entry { if e.kind is Global { e } else { Entry { index: m[unquoted(e.sheet)], ..e } } }
/// an area of sheet i is a name of sheet i, and so is a name the user gave with the sheet's name, quoted or not
pub proof fn own_sheet(s: Seq<Worksheet>, i: int, d: DefinedName)
    requires 0 <= i < s.len() <= 65536, forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a].name@ != #[trigger] s[b].name@, s[i].name@.len() > 0, s[i].name@[0] != '\'', !(d.name_type is Global)
    ensures known(of_sheet(d, s[i].name@), sheet_map(s, s.len() as int)), indexed(of_sheet(d, s[i].name@), sheet_map(s, s.len() as int)).index == i,
        forall|e: Entry| unquoted(e.sheet) == s[i].name@ && !(e.kind is Global) ==> #[trigger] indexed(e, sheet_map(s, s.len() as int)).index == i,
        forall|e: Entry| !(e.kind is Global) && #[trigger] known(e, sheet_map(s, s.len() as int)) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).name@ == unquoted(e.sheet)
{
    sheet_known(s, s.len() as int, i); read_back(s[i].name@);
    assert forall|e: Entry| !(e.kind is Global) && #[trigger] known(e, sheet_map(s, s.len() as int)) implies exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).name@ == unquoted(e.sheet) by { sheet_unknown(s, s.len() as int, unquoted(e.sheet)); }
}
pub open spec fn all_known(s: Seq<Entry>, m: Map<Text, u16>) -> bool { forall|i: int| 0 <= i < s.len() ==> known(#[trigger] s[i], m) }
pub open spec fn all_indexed(s: Seq<Entry>, m: Map<Text, u16>) -> Seq<Entry> { s.map_values(|e: Entry| indexed(e, m)) }
/// std's order of texts
pub uninterp spec fn text_le(a: Text, b: Text) -> bool;
pub open spec fn entry_le(a: Entry, b: Entry) -> bool { if a.key == b.key { text_le(a.range, b.range) } else { text_le(a.key, b.key) } }
pub open spec fn in_order(v: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> entry_le(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn app_names(v: Seq<DefinedName>, n: int) -> Seq<Text> decreases n { if n <= 0 { seq![] } else if app_text(v[n - 1]).len() == 0 { app_names(v, n - 1) } else { app_names(v, n - 1).push(app_text(v[n - 1])) } }
pub open spec fn texts(v: Seq<String>) -> Seq<Text> { v.map_values(|s: String| s@) }
pub open spec fn name_tag(d: DefinedName) -> Tag {
    let a = add(seq![("name"@, xml_name(d))], !(d.name_type is Global), "localSheetId"@, dec(d.index as nat));
    Tag::Data("definedName"@, add(a, d.name_type is Autofilter, "hidden"@, "1"@), d.range@)
}
pub open spec fn name_tags(v: Seq<DefinedName>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { name_tags(v, n - 1).push(name_tag(v[n - 1])) } }
// ---------------------------------------------------------------- trusted: std strings and collections
/// the number of characters in the first p bytes
pub uninterp spec fn chars_in(s: Text, p: int) -> int;
pub trait VpStr {
    spec fn vs(&self) -> Text;
    fn vp_rfind_bang(&self) -> (r: Option<usize>) ensures r is Some <==> last_bang(self.vs()) >= 0, r is Some ==> r->0 < usize::MAX && chars_in(self.vs(), r->0 as int) == last_bang(self.vs()) && chars_in(self.vs(), r->0 as int + 1) == last_bang(self.vs()) + 1;
    fn vp_to(&self, p: usize) -> (r: String) requires 0 <= chars_in(self.vs(), p as int) <= self.vs().len() ensures r@ == self.vs().take(chars_in(self.vs(), p as int));
    fn vp_from(&self, p: usize) -> (r: String) requires 0 <= chars_in(self.vs(), p as int) <= self.vs().len() ensures r@ == self.vs().skip(chars_in(self.vs(), p as int));
    fn vp_alpha(&self) -> (r: bool) ensures r == (self.vs().len() > 0 && alpha(self.vs()[0]));
    fn vp_starts(&self, c: char) -> (r: bool) ensures r == (self.vs().len() > 0 && self.vs()[0] == c);
    fn vp_has(&self, v: &[char]) -> (r: bool) ensures r == exists|i: int| 0 <= i < self.vs().len() && v@.contains(#[trigger] self.vs()[i]);
    fn vp_has_one(&self, c: char) -> (r: bool) ensures r == self.vs().contains(c);
    fn vp_none(&self) -> (r: bool) ensures r == (self.vs().len() == 0);
    fn vp_no_quotes(&self) -> (r: String) ensures r@ == no_quotes(self.vs());
    fn vp_lower(&self) -> (r: String) ensures r@ == lower(self.vs());
}
impl VpStr for String {
    open spec fn vs(&self) -> Text { self@ }
    #[verifier::external_body] fn vp_rfind_bang(&self) -> (r: Option<usize>) { self.rfind('!') }
    #[verifier::external_body] fn vp_to(&self, p: usize) -> (r: String) { self[0..p].to_string() }
    #[verifier::external_body] fn vp_from(&self, p: usize) -> (r: String) { self[p..].to_string() }
    #[verifier::external_body] fn vp_alpha(&self) -> (r: bool) { self.starts_with(char::is_alphabetic) }
    #[verifier::external_body] fn vp_starts(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn vp_has(&self, v: &[char]) -> (r: bool) { self.contains(v) }
    #[verifier::external_body] fn vp_has_one(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body] fn vp_none(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vp_no_quotes(&self) -> (r: String) { self.replace('\'', "") }
    #[verifier::external_body] fn vp_lower(&self) -> (r: String) { self.to_lowercase() }
}
#[verifier::external_body] pub fn vp_remove_first(s: &mut String) requires old(s)@.len() > 0, (old(s)@[0] as int) < 128 ensures final(s)@ == old(s)@.skip(1) { s.remove(0); }
#[verifier::external_body] pub fn column_number_to_name(c: u16) -> (r: String) ensures r@ == col_letters(c as int) { String::new() }
#[verifier::external_body] pub fn cell_range_absolute(r: u32, c: u16, r2: u32, c2: u16) -> (t: String) ensures t@ == abs_range(r as int, c as int, r2 as int, c2 as int) { String::new() }
/// contracts proved in unit c04
#[verifier::external_body] pub fn quote_sheet_name(s: &str) -> (r: String) ensures r@ == quoted(s@) { String::new() }
#[verifier::external_body] pub fn unquote_sheetname(s: &str) -> (r: String) ensures r@ == unquoted(s@) { String::new() }
/// trusted: derived Clone copies every field
#[verifier::external_body] pub fn vp_copy_names(v: &Vec<DefinedName>) -> (r: Vec<DefinedName>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vp_copy_name(d: &DefinedName) -> (r: DefinedName) ensures r == *d { unimplemented!() }
/// trusted: HashMap<String, u16> as a map from texts
#[verifier::external_body] pub struct VpSheets { }
impl VpSheets {
    pub uninterp spec fn m(&self) -> Map<Text, u16>;
    #[verifier::external_body] pub fn new() -> (r: VpSheets) ensures r.m() == Map::<Text, u16>::empty() { VpSheets { } }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&u16>) ensures r is Some <==> self.m().dom().contains(k@), r is Some ==> *r->0 == self.m()[k@] { None }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: u16) ensures final(self).m() == old(self).m().insert(k@, v) { }
}
/// trusted: slice::sort_by_key by (sort_name, range): a permutation in that order
#[verifier::external_body] pub fn vp_sort_by_sort_name_range(v: &mut Vec<DefinedName>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), entries(final(v)@).to_multiset() == entries(old(v)@).to_multiset(), in_order(entries(final(v)@)) { }
pub proof fn range_only(a: DefinedName, b: DefinedName)
    requires a.name_type == b.name_type, a.range@ == b.range@, a.quoted_sheet_name@ == b.quoted_sheet_name@, a.first_row == b.first_row, a.first_col == b.first_col, a.last_row == b.last_row, a.last_col == b.last_col
    ensures range_of(a) == range_of(b) { }
//@fn src/utility.rs formula_to_string ret=r
| ensures r@ == unequal(formula@),
//@rewrite formula\.to_string\(\) => formula.vp_text()
//@rewrite formula\.starts_with\('='\) => formula.vp_starts('=')
//@rewrite formula\.remove\(0\) => vp_remove_first(&mut formula)
//@end
impl DefinedName {
//@fn src/worksheet.rs new impl="impl DefinedName" ret=r
| ensures !r.in_use, r.name@.len() == 0, r.range@.len() == 0, r.quoted_sheet_name@.len() == 0, r.name_type is Global, r.index == 0,
//@rewrite String::new\(\) => "".vp_text()
//@before /DefinedName \{/
| proof { reveal_strlit(""); }
//@end
//@fn src/worksheet.rs initialize impl="impl DefinedName"
| requires old(self).first_row < 0xffff_ffff, old(self).last_row < 0xffff_ffff,
| ensures final(self).quoted_sheet_name@ == sheet_name@, final(self).range@ == placed(*old(self), sheet_name@), final(self).sort_name@ == sort_key(*old(self)),
|  *final(self) == (DefinedName { range: final(self).range, quoted_sheet_name: final(self).quoted_sheet_name, sort_name: final(self).sort_name, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@at body-start
| proof { str_of_ok(sheet_name@); }
//@before /self\.set_range\(\)/
| proof { range_only(*self, DefinedName { quoted_sheet_name: str_of(sheet_name@), ..*old(self) }); }
//@end
//@fn src/worksheet.rs app_name impl="impl DefinedName" ret=r
| ensures r@ =~= app_text(*self),
//@rewrite String::new\(\) => "".vp_text()
//@rewrite self\.(\w+)\.contains\(('.')\) => self.\1.vp_has_one(\2)
//@rewrite \.clone\(\) => .vp_text()
//@at body-start
| proof { lits(); }
//@end
//@fn src/worksheet.rs name impl="impl DefinedName" ret=r
| ensures r@ == xml_name(*self),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite \.clone\(\) => .vp_text()
//@end
//@fn src/worksheet.rs set_sort_name impl="impl DefinedName"
| ensures final(self).sort_name@ == sort_key(*old(self)), *final(self) == (DefinedName { sort_name: final(self).sort_name, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite \.clone\(\) => .vp_text()
//@rewrite \.replace\('\\'', ""\) => .vp_no_quotes()
//@rewrite \.to_lowercase\(\) => .vp_lower()
//@end
//@fn src/worksheet.rs set_range impl="impl DefinedName"
| requires old(self).first_row < 0xffff_ffff, old(self).last_row < 0xffff_ffff,
| ensures final(self).range@ == range_of(*old(self)), *final(self) == (DefinedName { range: final(self).range, ..*old(self) }),
//@rewrite utility:: =>
//@rewrite String::new\(\) => "".vp_text()
//@rewrite range\.is_empty\(\) => range.vp_none()
//@at body-start
| proof { lits(); }
//@at body-end
| assert(self.range@ =~= range_of(*old(self)));
//@end
}
pub proof fn lits() ensures ""@ == Seq::<char>::empty(), "$"@ == seq!['$'], ":$"@ == seq![':', '$'], "!"@ == seq!['!'], "!$"@ == seq!['!', '$'], ","@ == seq![','] { reveal_strlit(""); reveal_strlit("$"); reveal_strlit(":$"); reveal_strlit("!"); reveal_strlit("!$"); reveal_strlit(",");
 assert(""@ =~= Seq::<char>::empty()); assert("$"@ =~= seq!['$']); assert(":$"@ =~= seq![':', '$']); assert("!"@ =~= seq!['!']); assert("!$"@ =~= seq!['!', '$']); assert(","@ =~= seq![',']); }
/// a character is one of the characters refused
pub proof fn bad_list(n: Text, v: Seq<char>)
    requires v =~= seq![' ', ',', '/', '*', '[', ']', ':', '"', '\'']
    ensures (exists|i: int| 0 <= i < n.len() && v.contains(#[trigger] n[i])) == !(forall|i: int| 0 <= i < n.len() ==> !bad(#[trigger] n[i]))
{
    assert forall|c: char| #[trigger] v.contains(c) == bad(c) by {
        if c == ' ' { assert(v[0] == c); } if c == ',' { assert(v[1] == c); } if c == '/' { assert(v[2] == c); } if c == '*' { assert(v[3] == c); } if c == '[' { assert(v[4] == c); }
        if c == ']' { assert(v[5] == c); } if c == ':' { assert(v[6] == c); } if c == '"' { assert(v[7] == c); } if c == '\'' { assert(v[8] == c); }
    }
}
pub open spec fn area_ok(d: DefinedName) -> bool { d.first_row < 0xffff_ffff && d.last_row < 0xffff_ffff }
pub open spec fn areas_ok(w: Worksheet) -> bool { area_ok(w.autofilter_defined_name) && area_ok(w.print_area_defined_name) && area_ok(w.repeat_row_cols_defined_name) }
pub proof fn entries_push(v: Seq<DefinedName>, d: DefinedName) ensures entries(v.push(d)) == entries(v).push(entry(d)) { assert(entries(v.push(d)) =~= entries(v).push(entry(d))); }
impl Workbook {
//@fn src/workbook.rs define_name impl="impl Workbook" ret=r
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && name_ok(base_of(name@)) && p.user_defined_names@.len() == old(self).user_defined_names@.len() + 1 && p.user_defined_names@.drop_last() == old(self).user_defined_names@ && given(p.user_defined_names@.last(), name@, formula@) && *p == (Workbook { user_defined_names: p.user_defined_names, ..*old(self) }),
|   Err(_) => !name_ok(base_of(name@)) && *final(self) == *old(self) },
//@rewrite sig:impl Into<String> => String
//@rewrite let name = name\.into\(\); =>
//@rewrite utility:: =>
//@rewrite name\.rfind\('!'\) => name.vp_rfind_bang()
//@rewrite name\[0\.\.position\]\.to_string\(\) => name.vp_to(position)
//@rewrite name\[position \+ 1\.\.\]\.to_string\(\) => name.vp_from(position + 1)
//@rewrite name\.to_string\(\) => name.vp_text()
//@rewrite \.starts_with\(char::is_alphabetic\) => .vp_alpha()
//@rewrite \.starts_with\(' => .vp_starts('
//@rewrite (?s)\.contains\(\[(.*?)\]\)\s*\{ => .vp_has(&[\1]) {
//@rewrite (?s)format!\(\s*"Name.*?defined_name\.name\s*\) => "".vp_text()
//@at body-start
| proof { bang_in(name@); }
//@before /defined_name\.range =/
| proof { bad_list(defined_name.name@, [' ', ',', '/', '*', '[', ']', ':', '"', '\'']@); }
//@before /Ok\(self\)/
| assert(self.user_defined_names@.drop_last() =~= old(self).user_defined_names@);
//@end
//@fn src/workbook.rs set_package_options impl="impl Workbook" ret=r attr=#[verifier::rlimit(60)]
| requires old(self).worksheets@.len() <= 65536, forall|i: int| 0 <= i < old(self).worksheets@.len() ==> areas_ok(#[trigger] old(self).worksheets@[i]), package_options.defined_names@.len() == 0,
| ensures ({
|   let all = collected(entries(old(self).user_defined_names@), old(self).worksheets@, old(self).worksheets@.len() as int);
|   let m = sheet_map(old(self).worksheets@, old(self).worksheets@.len() as int);
|   match r {
|     Ok(o) => all_known(all, m) && entries(final(self).defined_names@).to_multiset() == all_indexed(all, m).to_multiset() && in_order(entries(final(self).defined_names@)) && texts(o.defined_names@) == app_names(final(self).defined_names@, final(self).defined_names@.len() as int),
|     Err(_) => !all_known(all, m) }
| }), *final(self) == (Workbook { defined_names: final(self).defined_names, ..*old(self) }),
//@rewrite utility:: =>
//@rewrite (?s)package_options\.doc_security.*?let mut defined_names => let mut defined_names
//@rewrite (?s)package_options\.is_xlsm_file.*?for \(sheet_index => for (sheet_index
//@rewrite (?s)if worksheet\.is_chartsheet \{.*?if worksheet\.autofilter_defined_name\.in_use => if worksheet.autofilter_defined_name.in_use
//@rewrite (?s)for i in 0\.\.NUM_IMAGE_FORMATS \{.*?for defined_name in &mut defined_names \{ => } let vp_n = defined_names.len(); for k in 0..vp_n { let defined_name = &mut defined_names[k];
//@rewrite self\.user_defined_names\.clone\(\) => vp_copy_names(&self.user_defined_names)
//@rewrite HashMap<String, u16> = HashMap::new\(\) => VpSheets = VpSheets::new()
//@rewrite for \(sheet_index, worksheet\) in self\.worksheets\.iter\(\)\.enumerate\(\) \{ => for sheet_index in 0..self.worksheets.len() { let worksheet = &self.worksheets[sheet_index];
//@rewrite worksheet\.(\w+_defined_name)\.clone\(\) => vp_copy_name(&worksheet.\1)
//@rewrite worksheet\.name\.clone\(\) => worksheet.name.vp_text()
//@rewrite sheet_name\.clone\(\) => sheet_name.vp_text()
//@rewrite (?s)format!\(\s*"Unknown.*?defined_name\.name\s*\) => "".vp_text()
//@rewrite (?s)defined_names\.sort_by_key\(\|n\| \(n\.(\w+)\.clone\(\), n\.(\w+)\.clone\(\)\)\) => vp_sort_by_\1_\2(&mut defined_names)
//@rewrite for defined_name in &defined_names \{ => for j in 0..defined_names.len() { let defined_name = &defined_names[j];
//@rewrite app_name\.is_empty\(\) => app_name.vp_none()
//@before /let mut sheet_names/
| let ghost user = entries(self.user_defined_names@); let ghost ws = self.worksheets@;
| proof { reveal(collected); reveal(sheet_map); }
//@loop 1
| invariant self.worksheets@ == ws, *self == *old(self), ws.len() <= 65536, forall|i: int| 0 <= i < ws.len() ==> areas_ok(#[trigger] ws[i]), entries(defined_names@) == collected(user, ws, sheet_index as int), sheet_names.m() == sheet_map(ws, sheet_index as int)
//@at loop 1 start
| proof { assert(areas_ok(ws[sheet_index as int])); reveal(collected); reveal(sheet_map); broadcast_push(defined_names@); }
//@loop 2
| invariant *self == *old(self), ws == old(self).worksheets@, user == entries(old(self).user_defined_names@), sheet_names.m() == m, all == collected(user, ws, ws.len() as int), m == sheet_map(ws, ws.len() as int), defined_names@.len() == all.len(), vp_n == all.len(), forall|i: int| 0 <= i < k ==> known(#[trigger] all[i], m), forall|i: int| 0 <= i < k ==> entry(#[trigger] defined_names@[i]) == indexed(all[i], m), forall|i: int| k <= i < all.len() ==> entry(#[trigger] defined_names@[i]) == all[i]
//@at before-loop 2
| let ghost all = entries(defined_names@); let ghost m = sheet_names.m();
//@at loop 2 start
| let ghost here = all[k as int]; assert(entry(defined_names@[k as int]) == here);
//@at after-loop 2
| assert(entries(defined_names@) =~= all_indexed(all, m));
//@loop 3
| invariant texts(package_options.defined_names@) == app_names(defined_names@, j as int)
//@at before-loop 3
| assert(texts(package_options.defined_names@) =~= app_names(defined_names@, 0));
//@after /package_options\.defined_names\.push\(app_name\);/
| assert(texts(package_options.defined_names@) =~= app_names(defined_names@, j as int).push(app_text(defined_names@[j as int])));
//@end
//@fn src/workbook.rs write_defined_names impl="impl Workbook"
| ensures final(self).writer.log() == (old(self).writer.log().push(Tag::Open("definedNames"@, seq![])) + name_tags(old(self).defined_names@, old(self).defined_names@.len() as int)).push(Tag::Close("definedNames"@)), *final(self) == (Workbook { writer: final(self).writer, ..*old(self) }),
//@rewrite for defined_name in &self\.defined_names \{ => for j in 0..self.defined_names.len() { let defined_name = &self.defined_names[j];
//@rewrite \.to_string\(\) => .vp_text()
//@at before-loop 1
| let ghost l0 = self.writer.log(); broadcast use av_push; broadcast use av_none;
| assert(l0 + name_tags(self.defined_names@, 0) =~= l0);
//@loop 1
| invariant self.defined_names@ == old(self).defined_names@, *self == (Workbook { writer: self.writer, ..*old(self) }), self.writer.log() == l0 + name_tags(old(self).defined_names@, j as int)
//@after /let mut attributes[^;]*;/
| broadcast use av_push; assert(av(attributes@) =~= seq![("name"@, xml_name(*defined_name))]);
//@at loop 1 end
| assert(self.writer.log() =~= l0 + name_tags(old(self).defined_names@, j as int + 1));
//@end
}
pub proof fn broadcast_push(v: Seq<DefinedName>) ensures forall|w: Seq<DefinedName>, d: DefinedName| entries(#[trigger] w.push(d)) == entries(w).push(entry(d))
{ assert forall|w: Seq<DefinedName>, d: DefinedName| entries(#[trigger] w.push(d)) == entries(w).push(entry(d)) by { entries_push(w, d); } }
fn main() {}
}
