// C24: data validations.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@const src/worksheet.rs COL_MAX
//@const src/worksheet.rs ROW_MAX
//@type src/worksheet.rs RowNum
//@type src/worksheet.rs ColNum
//@item src/formula.rs struct Formula keep=formula_string derive=
//@item src/data_validation.rs enum DataValidationType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/data_validation.rs enum DataValidationErrorStyle derive=Clone,Copy
//@item src/data_validation.rs enum DataValidationRuleInternal derive=
//@item src/data_validation.rs enum DataValidationRule derive=
//@item src/data_validation.rs struct DataValidation keep=validation_type,rule,ignore_blank,show_input_message,show_error_message,show_dropdown,multi_range,input_title,error_title,input_message,error_message,error_style derive=
//@item src/worksheet.rs struct Worksheet keep=writer,data_validations derive= sub=Cursor<Vec<u8>>=>Writer;BTreeMap<String,\s*DataValidation>=>VpRules
pub enum XlsxError { RowColumnLimitError, RowColumnOrderError, DataValidationError(String) }

// ---------------------------------------------------------------- specification
pub open spec fn legal(r: u32, c: u16) -> bool { r < 1048576 && c < 16384 }
pub uninterp spec fn range_text(r: u32, c: u16, r2: u32, c2: u16) -> Seq<char>;
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
/// the text of a list: the entries with their quotes doubled, with commas between
pub open spec fn joined(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { seq![] } else if l.len() == 1 { replaced(l[0], "\""@, "\"\""@) } else { joined(l.drop_last()) + ","@ + replaced(l.last(), "\""@, "\"\""@) } }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { "\""@ + s + "\""@ }
pub open spec fn texts(l: Seq<String>) -> Seq<Seq<char>> { l.map_values(|s: String| s@) }
/// the element of a rule: its operator and operands
pub enum Op { Eq, Ne, Gt, Ge, Lt, Le, Between, NotBetween, Custom, List }
pub open spec fn op(r: DataValidationRuleInternal) -> (Op, Seq<char>, Seq<char>) {
    match r {
        DataValidationRuleInternal::EqualTo(a) => (Op::Eq, a@, seq![]), DataValidationRuleInternal::NotEqualTo(a) => (Op::Ne, a@, seq![]),
        DataValidationRuleInternal::GreaterThan(a) => (Op::Gt, a@, seq![]), DataValidationRuleInternal::GreaterThanOrEqualTo(a) => (Op::Ge, a@, seq![]),
        DataValidationRuleInternal::LessThan(a) => (Op::Lt, a@, seq![]), DataValidationRuleInternal::LessThanOrEqualTo(a) => (Op::Le, a@, seq![]),
        DataValidationRuleInternal::Between(a, b) => (Op::Between, a@, b@), DataValidationRuleInternal::NotBetween(a, b) => (Op::NotBetween, a@, b@),
        DataValidationRuleInternal::CustomFormula(a) => (Op::Custom, a@, seq![]), DataValidationRuleInternal::ListSource(a) => (Op::List, a@, seq![]),
    }
}
/// the same for the rule the user gives
pub open spec fn given<T: IntoDataValidationValue>(r: DataValidationRule<T>) -> (Op, Seq<char>, Seq<char>) {
    match r {
        DataValidationRule::EqualTo(a) => (Op::Eq, a.value(), seq![]), DataValidationRule::NotEqualTo(a) => (Op::Ne, a.value(), seq![]),
        DataValidationRule::GreaterThan(a) => (Op::Gt, a.value(), seq![]), DataValidationRule::GreaterThanOrEqualTo(a) => (Op::Ge, a.value(), seq![]),
        DataValidationRule::LessThan(a) => (Op::Lt, a.value(), seq![]), DataValidationRule::LessThanOrEqualTo(a) => (Op::Le, a.value(), seq![]),
        DataValidationRule::Between(a, b) => (Op::Between, a.value(), b.value()), DataValidationRule::NotBetween(a, b) => (Op::NotBetween, a.value(), b.value()),
    }
}
pub open spec fn op_text(o: Op) -> Seq<char> { match o { Op::Eq => "equal"@, Op::Ne => "notEqual"@, Op::Gt => "greaterThan"@, Op::Ge => "greaterThanOrEqual"@, Op::Lt => "lessThan"@, Op::Le => "lessThanOrEqual"@, Op::Between => "between"@, Op::NotBetween => "notBetween"@, Op::Custom => seq![], Op::List => "list"@ } }
/// the operator attribute: "between" is the default and lists and formulas have none
pub open spec fn has_op(o: Op) -> bool { !(o is Between || o is Custom || o is List) }
pub open spec fn type_text(t: DataValidationType) -> Seq<char> { match t { DataValidationType::Whole => "whole"@, DataValidationType::Decimal => "decimal"@, DataValidationType::Date => "date"@, DataValidationType::Time => "time"@, DataValidationType::TextLength => "textLength"@, DataValidationType::Custom => "custom"@, DataValidationType::List => "list"@, DataValidationType::Any => "any"@ } }
pub open spec fn style_text(s: DataValidationErrorStyle) -> Seq<char> { match s { DataValidationErrorStyle::Stop => "stop"@, DataValidationErrorStyle::Warning => "warning"@, DataValidationErrorStyle::Information => "information"@ } }
/// within the limits of the application
pub open spec fn within(d: DataValidation) -> bool {
    d.input_title@.len() <= 32 && d.error_title@.len() <= 32 && d.input_message@.len() <= 255 && d.error_message@.len() <= 255
}
#[verifier::opaque] pub open spec fn flags(a: Attrs, d: DataValidation) -> Attrs {
    add(add(add(add(a, d.ignore_blank, "allowBlank"@, "1"@), !d.show_dropdown, "showDropDown"@, "1"@), d.show_input_message, "showInputMessage"@, "1"@), d.show_error_message, "showErrorMessage"@, "1"@)
}
#[verifier::opaque] pub open spec fn messages(a: Attrs, d: DataValidation) -> Attrs {
    add(add(add(add(a, d.error_title@.len() > 0, "errorTitle"@, d.error_title@), d.error_message@.len() > 0, "error"@, d.error_message@), d.input_title@.len() > 0, "promptTitle"@, d.input_title@), d.input_message@.len() > 0, "prompt"@, d.input_message@)
}
pub open spec fn kind(d: DataValidation) -> Attrs {
    add(add(seq![("type"@, type_text(d.validation_type))], !(d.error_style is Stop), "errorStyle"@, style_text(d.error_style)), has_op(op(d.rule).0), "operator"@, op_text(op(d.rule).0))
}
pub open spec fn operands(d: DataValidation) -> Seq<Tag> {
    if op(d.rule).0 is Between || op(d.rule).0 is NotBetween { seq![Tag::Data("formula1"@, seq![], op(d.rule).1), Tag::Data("formula2"@, seq![], op(d.rule).2)] } else { seq![Tag::Data("formula1"@, seq![], op(d.rule).1)] }
}
/// the element of a data validation
pub open spec fn element(range: Seq<char>, d: DataValidation) -> Seq<Tag> {
    if d.validation_type is Any { seq![Tag::Empty("dataValidation"@, messages(flags(seq![], d), d).push(("sqref"@, range)))] }
    else { seq![Tag::Open("dataValidation"@, messages(flags(kind(d), d), d).push(("sqref"@, range)))] + operands(d) + seq![Tag::Close("dataValidation"@)] }
}
#[verifier::opaque] pub open spec fn elements(l: Seq<(Seq<char>, DataValidation)>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { elements(l, n - 1) + element(l[n - 1].0, l[n - 1].1) } }
proof fn elements_0(l: Seq<(Seq<char>, DataValidation)>) ensures elements(l, 0) =~= Seq::<Tag>::empty() { reveal(elements); }
proof fn elements_step(l: Seq<(Seq<char>, DataValidation)>, n: int) requires 0 <= n < l.len() ensures elements(l, n + 1) == elements(l, n) + element(l[n].0, l[n].1) { reveal(elements); }
// ---------------------------------------------------------------- trusted: std collections and strings
/// BTreeMap<String, DataValidation>
#[verifier::external_body] pub struct VpRules {}
impl VpRules {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, DataValidation>;
    pub uninterp spec fn entries(&self) -> Seq<(Seq<char>, DataValidation)>;
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: DataValidation) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { unimplemented!() }
    #[verifier::external_body] pub fn vp_entries(&self) -> (r: Vec<(String, DataValidation)>) ensures r@.map_values(|e: (String, DataValidation)| (e.0@, e.1)) == self.entries() { unimplemented!() }
}
/// each entry of the map is listed once
#[verifier::external_body] pub proof fn entries_of_map(m: VpRules) ensures
    forall|k: Seq<char>| m.map().contains_key(k) ==> exists|i: int| 0 <= i < m.entries().len() && #[trigger] m.entries()[i] == (k, m.map()[k]),
    forall|i: int| 0 <= i < m.entries().len() ==> m.map().contains_pair((#[trigger] m.entries()[i]).0, m.entries()[i].1),
    forall|i: int, j: int| 0 <= i < j < m.entries().len() ==> (#[trigger] m.entries()[i]).0 != (#[trigger] m.entries()[j]).0 {}
pub trait VpStr { spec fn vs(&self) -> Seq<char>; fn vp_replace(&self, a: char, b: &str) -> (r: String) ensures r@ == replaced(self.vs(), seq![a], b@); fn vp_none(&self) -> (r: bool) ensures r == (self.vs().len() == 0); }
impl VpStr for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_replace(&self, a: char, b: &str) -> (r: String) { self.replace(a, b) } #[verifier::external_body] fn vp_none(&self) -> (r: bool) { self.is_empty() } }
#[verifier::external_body] pub fn vp_chars(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r == *s { s.clone() }
#[verifier::external_body] pub fn vp_join(l: &[String]) -> (r: String) ensures r@ == joined(texts(l@)) { String::new() }
#[verifier::external_body] pub fn vp_cell_range(r: u32, c: u16, r2: u32, c2: u16) -> (s: String) ensures s@ == range_text(r, c, r2, c2) { String::new() }
pub fn vp_put(a: &mut Vec<(&'static str, String)>, b: bool, k: &'static str, v: String) ensures av(final(a)@) == add(av(old(a)@), b, k@, v@) { broadcast use av_push; if b { a.push((k, v)); } }
/// the values of the operands: their text as std or a formula writes it
pub trait IntoDataValidationValue { spec fn value(&self) -> Seq<char>; fn to_string_value(&self) -> (r: String) ensures r@ == self.value(); }
pub open spec fn signed(i: int) -> Seq<char> { if i < 0 { "-"@ + dec((-i) as nat) } else { dec(i as nat) } }
impl VpText for i32 { open spec fn text(&self) -> Seq<char> { signed(*self as int) } #[verifier::external_body] fn vp_text(&self) -> (r: String) { self.to_string() } }
impl IntoDataValidationValue for i32 {
    open spec fn value(&self) -> Seq<char> { signed(*self as int) }
//@fn src/data_validation.rs to_string_value impl="impl IntoDataValidationValue for i32" ret=r nopub
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@end
}
impl IntoDataValidationValue for u32 {
    open spec fn value(&self) -> Seq<char> { dec(*self as nat) }
//@fn src/data_validation.rs to_string_value impl="impl IntoDataValidationValue for u32" ret=r nopub
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@end
}
impl IntoDataValidationValue for f64 {
    open spec fn value(&self) -> Seq<char> { f_text(*self) }
//@fn src/data_validation.rs to_string_value impl="impl IntoDataValidationValue for f64" ret=r nopub
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@end
}
impl IntoDataValidationValue for Formula {
    open spec fn value(&self) -> Seq<char> { self.formula_string@ }
//@fn src/data_validation.rs to_string_value impl="impl IntoDataValidationValue for Formula" ret=r nopub
//@rewrite (?#opt)self\.formula_string\.clone\(\) => vp_copy(&self.formula_string)
//@end
}
impl<T: IntoDataValidationValue> DataValidationRule<T> {
//@fn src/data_validation.rs to_internal_rule impl="impl<T: IntoDataValidationValue> DataValidationRule<T>" ret=r
| ensures op(r) == given(*self), !(op(r).0 is Custom), !(op(r).0 is List),
//@end
}
impl DataValidationType {
//@fn src/data_validation.rs fmt impl="impl fmt::Display for DataValidationType" ret=r
| ensures final(f).out() =~= old(f).out() + type_text(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => DataValidationType::
//@end
}
impl DataValidationErrorStyle {
//@fn src/data_validation.rs fmt impl="impl fmt::Display for DataValidationErrorStyle" ret=r
| ensures final(f).out() =~= old(f).out() + style_text(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => DataValidationErrorStyle::
//@end
}
impl DataValidationRuleInternal {
//@fn src/data_validation.rs fmt impl="impl fmt::Display for DataValidationRuleInternal" ret=r
| ensures !(op(*self).0 is Custom) ==> final(f).out() =~= old(f).out() + op_text(op(*self).0)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => DataValidationRuleInternal::
//@end
}
impl VpText for DataValidationType { open spec fn text(&self) -> Seq<char> { type_text(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + type_text(*self) =~= type_text(*self)); f.take() } }
impl VpText for DataValidationErrorStyle { open spec fn text(&self) -> Seq<char> { style_text(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + style_text(*self) =~= style_text(*self)); f.take() } }
impl DataValidationRuleInternal { fn vp_text(&self) -> (r: String) ensures !(op(*self).0 is Custom) ==> r@ == op_text(op(*self).0) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + op_text(op(*self).0) =~= op_text(op(*self).0)); f.take() } }

impl DataValidation {
#[verifier::external_body] pub fn clone(&self) -> (r: DataValidation) ensures r == *self { unimplemented!() }
//@fn src/data_validation.rs new impl="impl DataValidation" ret=r
| ensures r.validation_type is Any, op(r.rule) == (Op::Eq, Seq::<char>::empty(), Seq::<char>::empty()), r.ignore_blank, r.show_input_message, r.show_error_message, r.show_dropdown, r.multi_range@.len() == 0, r.input_title@.len() == 0, r.error_title@.len() == 0, r.input_message@.len() == 0, r.error_message@.len() == 0, r.error_style is Stop, within(r),
//@end
//@fn src/data_validation.rs allow_whole_number impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Whole, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_whole_number_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Whole, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_decimal_number impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Decimal, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_decimal_number_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Decimal, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_date impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Date, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@rewrite sig:impl IntoExcelDateTime \+ IntoDataValidationValue => impl IntoDataValidationValue
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_date_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Date, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_time impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Time, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@rewrite sig:impl IntoExcelDateTime \+ IntoDataValidationValue => impl IntoDataValidationValue
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_time_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Time, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_text_length impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::TextLength, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_text_length_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::TextLength, ..self }), op(r.rule) == given(rule), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_list_strings impl="impl DataValidation" ret=r
| ensures match r {
|     Ok(d) => joined(texts(list@)).len() <= 255 && d == (DataValidation { rule: d.rule, validation_type: DataValidationType::List, ..self }) && op(d.rule) == (Op::List, quoted(joined(texts(list@))), Seq::<char>::empty()) && (within(self) ==> within(d)),
|     Err(_) => joined(texts(list@)).len() > 255 },
//@rewrite sig:mut self => self
//@rewrite sig:impl AsRef<str> => String
//@rewrite (?s)list\s*\.iter\(\)\s*\.map\(\|s\| s\.as_ref\(\)\.to_string\(\)\.replace\('"', "\\"\\""\)\)\s*\.collect::<Vec<String>>\(\)\s*\.join\(","\) => vp_join(list)
//@rewrite (?s)DataValidationError\(\s*format!\(.*?\)\s*\)\); => DataValidationError("".vp_text()));
//@rewrite joined_list\.chars\(\)\.count\(\) => vp_chars(&joined_list)
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@at body-start
| let mut vp_s = self;
//@before /self\.rule = |vp_s\.rule = /
| assert(joined_list@ =~= quoted(joined(texts(list@))));
//@end
//@fn src/data_validation.rs allow_list_formula impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::List, ..self }), op(r.rule) == (Op::List, list.formula_string@, Seq::<char>::empty()), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@rewrite (\w+)\.formula_string\.clone\(\) => vp_copy(&\1.formula_string)
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_custom impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Custom, ..self }), op(r.rule) == (Op::Custom, rule.formula_string@, Seq::<char>::empty()), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@rewrite (\w+)\.formula_string\.clone\(\) => vp_copy(&\1.formula_string)
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs allow_any_value impl="impl DataValidation" ret=r
| ensures r == (DataValidation { rule: r.rule, validation_type: DataValidationType::Any, ..self }), op(r.rule) == (Op::Eq, Seq::<char>::empty(), Seq::<char>::empty()), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs ignore_blank impl="impl DataValidation" ret=r
| ensures r == (DataValidation { ignore_blank: enable, ..self }), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs show_dropdown impl="impl DataValidation" ret=r
| ensures r == (DataValidation { show_dropdown: enable, ..self }), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs show_input_message impl="impl DataValidation" ret=r
| ensures r == (DataValidation { show_input_message: enable, ..self }), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs show_error_message impl="impl DataValidation" ret=r
| ensures r == (DataValidation { show_error_message: enable, ..self }), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_error_style impl="impl DataValidation" ret=r
| ensures r == (DataValidation { error_style, ..self }), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_input_title impl="impl DataValidation" ret=r
| ensures match r { Ok(d) => text@.len() <= 32 && d == (DataValidation { input_title: text, ..self }) && (within(self) ==> within(d)), Err(_) => text@.len() > 32 },
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite let text = text\.into\(\); => 
//@rewrite text\.chars\(\)\.count\(\) => vp_chars(&text)
//@rewrite (?s)DataValidationError\(\s*format!\(.*?\)\s*\)\); => DataValidationError("".vp_text()));
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_error_title impl="impl DataValidation" ret=r
| ensures match r { Ok(d) => text@.len() <= 32 && d == (DataValidation { error_title: text, ..self }) && (within(self) ==> within(d)), Err(_) => text@.len() > 32 },
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite let text = text\.into\(\); => 
//@rewrite text\.chars\(\)\.count\(\) => vp_chars(&text)
//@rewrite (?s)DataValidationError\(\s*format!\(.*?\)\s*\)\); => DataValidationError("".vp_text()));
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_input_message impl="impl DataValidation" ret=r
| ensures match r { Ok(d) => text@.len() <= 255 && d == (DataValidation { input_message: text, ..self }) && (within(self) ==> within(d)), Err(_) => text@.len() > 255 },
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite let text = text\.into\(\); => 
//@rewrite text\.chars\(\)\.count\(\) => vp_chars(&text)
//@rewrite (?s)DataValidationError\(\s*format!\(.*?\)\s*\)\); => DataValidationError("".vp_text()));
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_error_message impl="impl DataValidation" ret=r
| ensures match r { Ok(d) => text@.len() <= 255 && d == (DataValidation { error_message: text, ..self }) && (within(self) ==> within(d)), Err(_) => text@.len() > 255 },
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite let text = text\.into\(\); => 
//@rewrite text\.chars\(\)\.count\(\) => vp_chars(&text)
//@rewrite (?s)DataValidationError\(\s*format!\(.*?\)\s*\)\); => DataValidationError("".vp_text()));
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs set_multi_range impl="impl DataValidation" ret=r
| ensures r == (DataValidation { multi_range: r.multi_range, ..self }), r.multi_range@ == replaced(replaced(range@, seq!['$'], ""@), seq![','], " "@), within(self) ==> within(r),
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite \.replace\( => .vp_replace(
//@rewrite range\.into\(\) => range
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\. => vp_s.
//@rewrite \bself\b(?!\.) => vp_s
//@end
//@fn src/data_validation.rs is_invalid_any impl="impl DataValidation" ret=r
| ensures *final(self) == *old(self), r == (old(self).validation_type is Any && old(self).input_title@.len() == 0 && old(self).input_message@.len() == 0 && old(self).error_title@.len() == 0 && old(self).error_message@.len() == 0),
//@rewrite \.is_empty\(\) => .vp_none()
//@end
}
pub open spec fn silent(d: DataValidation) -> bool { d.validation_type is Any && d.input_title@.len() == 0 && d.input_message@.len() == 0 && d.error_title@.len() == 0 && d.error_message@.len() == 0 }

impl Worksheet {
//@fn src/worksheet.rs check_dimensions_only impl="impl Worksheet" ret=r
| ensures r == legal(row, col), *final(self) == *old(self),
//@end
//@fn src/worksheet.rs add_data_validation impl="impl Worksheet" ret=r
| ensures match r {
|   Ok(p) => *final(self) == *final(p) && legal(last_row, last_col) && first_row <= last_row && first_col <= last_col
|     && *p == (Worksheet { data_validations: p.data_validations, ..*old(self) })
|     && p.data_validations.map() == (if silent(*data_validation) { old(self).data_validations.map() } else { old(self).data_validations.map().insert(if data_validation.multi_range@.len() > 0 { data_validation.multi_range@ } else { range_text(first_row, first_col, last_row, last_col) }, *data_validation) }),
|   Err(_) => *final(self) == *old(self) && !(legal(last_row, last_col) && first_row <= last_row && first_col <= last_col) },
//@rewrite utility::cell_range => vp_cell_range
//@rewrite \.is_empty\(\) => .vp_none()
//@rewrite cell_range\.clone_from\(&data_validation\.multi_range\) => cell_range = vp_copy(&data_validation.multi_range)
//@end
//@fn src/worksheet.rs write_data_validation_any impl="impl Worksheet"
| ensures data_validation.validation_type is Any ==> final(self).writer.log() =~= old(self).writer.log() + element(range@, *data_validation), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.is_empty\(\) => .vp_none()
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite data_validation\.(\w+)\.clone\(\) => vp_copy(&data_validation.\1)
//@rewrite if ([^{;]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push; broadcast use av_none; proof { reveal(flags); reveal(messages); }
//@end
//@fn src/worksheet.rs write_data_validation impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + element(range@, *data_validation), *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.is_empty\(\) => .vp_none()
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite &DataValidationRuleInternal::Between => DataValidationRuleInternal::Between
//@rewrite data_validation\.(\w+)\.clone\(\) => vp_copy(&data_validation.\1)
//@rewrite if ([^{;=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push; broadcast use av_none; proof { reveal(flags); reveal(messages); }
//@before /match data_validation\.error_style/
| assert(av(attributes@) =~= seq![("type"@, type_text(data_validation.validation_type))]);
//@before /vp_put\(&mut attributes, data_validation\.ignore_blank/
| assert(av(attributes@) =~= kind(*data_validation));
//@before /xml_start_tag\(/
| assert(av(attributes@) =~= messages(flags(kind(*data_validation), *data_validation), *data_validation).push(("sqref"@, range@)));
//@before /xml_end_tag\(/
| assert(self.writer.log() =~= old(self).writer.log() + seq![Tag::Open("dataValidation"@, messages(flags(kind(*data_validation), *data_validation), *data_validation).push(("sqref"@, range@)))] + operands(*data_validation));
//@end
//@fn src/worksheet.rs write_data_validations impl="impl Worksheet"
| ensures final(self).writer.log() =~= old(self).writer.log() + (seq![Tag::Open("dataValidations"@, seq![("count"@, dec(old(self).data_validations.entries().len()))])] + elements(old(self).data_validations.entries(), old(self).data_validations.entries().len() as int) + seq![Tag::Close("dataValidations"@)]),
|   *final(self) == (Worksheet { writer: final(self).writer, ..*old(self) }),
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite for \(range, data_validation\) in &self\.data_validations\.clone\(\) \{ => let vp_l = self.data_validations.vp_entries(); let vp_n = vp_l.len(); for vp_k in 0..vp_n { let range = &vp_l[vp_k].0; let data_validation = &vp_l[vp_k].1;
//@loop 1
| invariant vp_n == vp_l.len(), *self == (Worksheet { writer: self.writer, ..*old(self) }), vp_l@.map_values(|e: (String, DataValidation)| (e.0@, e.1)) == old(self).data_validations.entries(),
|   self.writer.log() =~= old(self).writer.log() + (seq![Tag::Open("dataValidations"@, seq![("count"@, dec(old(self).data_validations.entries().len()))])] + elements(old(self).data_validations.entries(), vp_k as int)),
//@at loop 1 start
| proof { elements_step(old(self).data_validations.entries(), vp_k as int); assert(vp_l@.map_values(|e: (String, DataValidation)| (e.0@, e.1))[vp_k as int] == (vp_l@[vp_k as int].0@, vp_l@[vp_k as int].1)); }
//@before /let vp_l = /
| proof { elements_0(self.data_validations.entries()); }
//@after /let attributes = [^;]*;/
| assert(av(attributes@) =~= seq![("count"@, dec(old(self).data_validations.entries().len()))]);
//@end
}
} // verus!
fn main() {}
