// C14: what becomes of a formula's text.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@item src/formula.rs struct Formula keep=formula_string,result,has_dynamic_function derive= sub=Box<str>=>String
//@item src/formula.rs struct FormulaScanner derive=
//@item src/table.rs struct TableColumn keep=name,total_function,formula derive=
//@item src/table.rs enum TableFunction derive=
// ---------------------------------------------------------------- trusted string plumbing
/// letters and digits of every alphabet
pub uninterp spec fn alnum(c: char) -> bool;
pub axiom fn alnum_ascii(c: char) ensures (c as u32) < 128 ==> alnum(c) == (('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z'));
#[verifier::external_body] pub fn vp_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
#[verifier::external_body] pub fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] pub fn vp_has(s: &String, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body] pub fn vp_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { s.clear() }
#[verifier::external_body] pub fn vp_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] pub fn vp_str(s: &String) -> (r: &str) ensures r@ == s@ { s.as_str() }
#[verifier::external_body] pub fn vp_strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(t) => s@ == p@ + t@, None => !p@.is_prefix_of(s@) } { s.strip_prefix(p) }
#[verifier::external_body] pub fn vp_strip_or<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures if p@.is_prefix_of(s@) { s@ == p@ + r@ } else { r@ == s@ } { s.strip_prefix(p).unwrap_or(s) }
#[verifier::external_body] pub fn vp_strip_char(s: &str, c: char) -> (r: Option<&str>) ensures match r { Some(t) => s@ == seq![c] + t@, None => s@.len() == 0 || s@[0] != c } { s.strip_prefix(c) }
#[verifier::external_body] pub fn vp_strip_end(s: &str, c: char) -> (r: &str) ensures if s@.len() > 0 && s@.last() == c { r@ == s@.drop_last() } else { r@ == s@ } { s.strip_suffix(c).unwrap_or(s) }
/// trusted: the derived default is all false and zero
#[verifier::external_body] pub fn vp_start() -> (r: FormulaScanner) ensures place(r) == Where::Plain, good(r) { unimplemented!() }

// ---------------------------------------------------------------- specification
/// where a character of a formula can be: among functions, names and operators, in a text, in a quoted sheet name, or in a bracketed reference
pub enum Where { Plain, Text, Sheet, Ref(int, bool) }
pub open spec fn place(s: FormulaScanner) -> Where { if s.in_string_literal { Where::Text } else if s.in_sheet_name { Where::Sheet } else if s.bracket_depth > 0 { Where::Ref(s.bracket_depth as int, s.is_escaped) } else { Where::Plain } }
pub open spec fn good(s: FormulaScanner) -> bool { !(s.in_string_literal && s.in_sheet_name) && ((s.in_string_literal || s.in_sheet_name) ==> s.bracket_depth == 0) && (s.is_escaped ==> s.bracket_depth > 0) }
pub open spec fn next(w: Where, c: char) -> Where {
    match w {
        Where::Plain => if c == '"' { Where::Text } else if c == '\'' { Where::Sheet } else if c == '[' { Where::Ref(1, false) } else { Where::Plain },
        Where::Text => if c == '"' { Where::Plain } else { Where::Text },
        Where::Sheet => if c == '\'' { Where::Plain } else { Where::Sheet },
        // in a reference a single quote takes the meaning of the next character
        Where::Ref(d, e) => if e { Where::Ref(d, false) } else if c == '\'' { Where::Ref(d, true) } else if c == '[' { Where::Ref(d + 1, false) } else if c == ']' { if d > 1 { Where::Ref(d - 1, false) } else { Where::Plain } } else { w },
    }
}
/// where the formula is before character k
pub open spec fn at(f: Seq<char>, k: int) -> Where decreases k { if k <= 0 { Where::Plain } else { next(at(f, k - 1), f[k - 1]) } }
/// character k is part of a text, a sheet name or a reference, or its first or last character
pub open spec fn quoted(f: Seq<char>, k: int) -> bool { !(at(f, k) is Plain) || !(at(f, k + 1) is Plain) }
pub open spec fn name_char(c: char) -> bool { alnum(c) || c == '.' || c == '_' || c == '\\' || c == '?' }
pub open spec fn in_name(f: Seq<char>, k: int) -> bool { !quoted(f, k) && name_char(f[k]) }
/// the name that ends before character k
pub open spec fn word(f: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 || !in_name(f, k - 1) { seq![] } else { word(f, k - 1).push(f[k - 1]) } }

/// functions that need a prefix
pub open spec fn future(n: Seq<char>) -> bool {
        n == "ACOTH"@ || n == "ACOT"@ || n == "AGGREGATE"@ || n == "ARABIC"@ || n == "ARRAYTOTEXT"@ || n == "BASE"@
        || n == "BETA.DIST"@ || n == "BETA.INV"@ || n == "BINOM.DIST.RANGE"@ || n == "BINOM.DIST"@ || n == "BINOM.INV"@ || n == "BITAND"@
        || n == "BITLSHIFT"@ || n == "BITOR"@ || n == "BITRSHIFT"@ || n == "BITXOR"@ || n == "CEILING.MATH"@ || n == "CEILING.PRECISE"@
        || n == "CHISQ.DIST.RT"@ || n == "CHISQ.DIST"@ || n == "CHISQ.INV.RT"@ || n == "CHISQ.INV"@ || n == "CHISQ.TEST"@ || n == "COMBINA"@
        || n == "CONCAT"@ || n == "CONFIDENCE.NORM"@ || n == "CONFIDENCE.T"@ || n == "COTH"@ || n == "COT"@ || n == "COVARIANCE.P"@
        || n == "COVARIANCE.S"@ || n == "CSCH"@ || n == "CSC"@ || n == "DAYS"@ || n == "DECIMAL"@ || n == "ERF.PRECISE"@
        || n == "ERFC.PRECISE"@ || n == "EXPON.DIST"@ || n == "F.DIST.RT"@ || n == "F.DIST"@ || n == "F.INV.RT"@ || n == "F.INV"@
        || n == "F.TEST"@ || n == "FIELDVALUE"@ || n == "FILTERXML"@ || n == "FLOOR.MATH"@ || n == "FLOOR.PRECISE"@ || n == "FORECAST.ETS.CONFINT"@
        || n == "FORECAST.ETS.SEASONALITY"@ || n == "FORECAST.ETS.STAT"@ || n == "FORECAST.ETS"@ || n == "FORECAST.LINEAR"@ || n == "FORMULATEXT"@ || n == "GAMMA.DIST"@
        || n == "GAMMA.INV"@ || n == "GAMMALN.PRECISE"@ || n == "GAMMA"@ || n == "GAUSS"@ || n == "HYPGEOM.DIST"@ || n == "IFNA"@
        || n == "IFS"@ || n == "IMAGE"@ || n == "IMCOSH"@ || n == "IMCOT"@ || n == "IMCSCH"@ || n == "IMCSC"@
        || n == "IMSECH"@ || n == "IMSEC"@ || n == "IMSINH"@ || n == "IMTAN"@ || n == "ISFORMULA"@ || n == "ISOMITTED"@
        || n == "ISOWEEKNUM"@ || n == "LET"@ || n == "LOGNORM.DIST"@ || n == "LOGNORM.INV"@ || n == "MAXIFS"@ || n == "MINIFS"@
        || n == "MODE.MULT"@ || n == "MODE.SNGL"@ || n == "MUNIT"@ || n == "NEGBINOM.DIST"@ || n == "NORM.DIST"@ || n == "NORM.INV"@
        || n == "NORM.S.DIST"@ || n == "NORM.S.INV"@ || n == "NUMBERVALUE"@ || n == "PDURATION"@ || n == "PERCENTILE.EXC"@ || n == "PERCENTILE.INC"@
        || n == "PERCENTRANK.EXC"@ || n == "PERCENTRANK.INC"@ || n == "PERMUTATIONA"@ || n == "PHI"@ || n == "POISSON.DIST"@ || n == "PQSOURCE"@
        || n == "PYTHON_STR"@ || n == "PYTHON_TYPE"@ || n == "PYTHON_TYPENAME"@ || n == "QUARTILE.EXC"@ || n == "QUARTILE.INC"@ || n == "QUERYSTRING"@
        || n == "RANK.AVG"@ || n == "RANK.EQ"@ || n == "RRI"@ || n == "SECH"@ || n == "SEC"@ || n == "SHEETS"@
        || n == "SHEET"@ || n == "SKEW.P"@ || n == "STDEV.P"@ || n == "STDEV.S"@ || n == "T.DIST.2T"@ || n == "T.DIST.RT"@
        || n == "T.DIST"@ || n == "T.INV.2T"@ || n == "T.INV"@ || n == "T.TEST"@ || n == "TEXTAFTER"@ || n == "TEXTBEFORE"@
        || n == "TEXTJOIN"@ || n == "UNICHAR"@ || n == "UNICODE"@ || n == "VALUETOTEXT"@ || n == "VAR.P"@ || n == "VAR.S"@
        || n == "WEBSERVICE"@ || n == "WEIBULL.DIST"@ || n == "XMATCH"@ || n == "XOR"@ || n == "Z.TEST"@
}
/// functions that need a prefix and give arrays
pub open spec fn dynamic(n: Seq<char>) -> bool {
        n == "ANCHORARRAY"@ || n == "BYCOL"@ || n == "BYROW"@ || n == "CHOOSECOLS"@ || n == "CHOOSEROWS"@ || n == "DROP"@
        || n == "EXPAND"@ || n == "HSTACK"@ || n == "LAMBDA"@ || n == "MAKEARRAY"@ || n == "MAP"@ || n == "RANDARRAY"@
        || n == "REDUCE"@ || n == "SCAN"@ || n == "SEQUENCE"@ || n == "SINGLE"@ || n == "SORTBY"@ || n == "SWITCH"@
        || n == "TAKE"@ || n == "TEXTSPLIT"@ || n == "TOCOL"@ || n == "TOROW"@ || n == "UNIQUE"@ || n == "VSTACK"@
        || n == "WRAPCOLS"@ || n == "WRAPROWS"@ || n == "XLOOKUP"@
}
/// functions that need two prefixes and give arrays
pub open spec fn special(n: Seq<char>) -> bool {
        n == "FILTER"@ || n == "SORT"@ || n == "PY"@
}
pub open spec fn kind(n: Seq<char>) -> Option<u8> { if future(n) { Some(0) } else if dynamic(n) { Some(1) } else if special(n) { Some(2) } else { None } }
/// a name that has its prefix already
pub open spec fn prefixed(n: Seq<char>) -> bool { "_xlfn."@.is_prefix_of(n) }
pub open spec fn bare(n: Seq<char>) -> Seq<char> { let m = n.skip(6); if "_xlws."@.is_prefix_of(m) { m.skip(6) } else { m } }
pub open spec fn prefix(n: Seq<char>) -> Seq<char> { if prefixed(n) { seq![] } else { match kind(n) { Some(k) => if k == 2 { "_xlfn."@ + "_xlws."@ } else { "_xlfn."@ }, None => seq![] } } }
pub open spec fn gives_array(n: Seq<char>) -> bool { match kind(if prefixed(n) { bare(n) } else { n }) { Some(k) => k > 0, None => false } }
/// a function is called at character k
pub open spec fn called(f: Seq<char>, k: int) -> bool { f[k] == '(' && !quoted(f, k) }
/// the prefix of the function called at character k
pub open spec fn before(f: Seq<char>, k: int) -> Seq<char> { if called(f, k) { prefix(word(f, k)) } else { seq![] } }
/// what is stored of the first k characters, without a name at the end
pub open spec fn out(f: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { seq![] } else if in_name(f, k - 1) { out(f, k - 1) } else { out(f, k - 1) + before(f, k - 1) + word(f, k - 1) + seq![f[k - 1]] } }
pub open spec fn arrays(f: Seq<char>, k: int) -> bool decreases k { k > 0 && (arrays(f, k - 1) || (called(f, k - 1) && gives_array(word(f, k - 1)))) }
pub open spec fn stored(f: Seq<char>) -> Seq<char> { out(f, f.len() as int) + word(f, f.len() as int) }
/// the formula without braces of an array formula and the equals sign
pub open spec fn inner(f: Seq<char>) -> Seq<char> { let f = if f.len() > 0 && f[0] == '{' { let g = f.skip(1); if g.len() > 0 && g.last() == '}' { g.drop_last() } else { g } } else { f }; if f.len() > 0 && f[0] == '=' { f.skip(1) } else { f } }
/// an @ among names and in references stands for this row
pub open spec fn this_row(f: Seq<char>, k: int) -> bool { f[k] == '@' && !(at(f, k) is Text) && !(at(f, k) is Sheet) && (match at(f, k) { Where::Ref(_, e) => !e, _ => true }) }
pub open spec fn with_rows(f: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { seq![] } else { with_rows(f, k - 1) + if this_row(f, k - 1) { "[#This Row],"@ } else { seq![f[k - 1]] } } }
/// nothing but prefixes of called functions is added
pub proof fn only_prefixes(f: Seq<char>, k: int) requires 0 <= k <= f.len(), forall|i: int| 0 <= i < k ==> (#[trigger] before(f, i)).len() == 0 ensures out(f, k) + word(f, k) == f.take(k) decreases k {
    if k > 0 {
        only_prefixes(f, k - 1);
        assert(f.take(k) =~= f.take(k - 1).push(f[k - 1]));
        assert(before(f, k - 1) =~= seq![]);
        if in_name(f, k - 1) { assert(out(f, k) + word(f, k) =~= (out(f, k - 1) + word(f, k - 1)).push(f[k - 1])); }
        else { assert(out(f, k) + word(f, k) =~= (out(f, k - 1) + word(f, k - 1)).push(f[k - 1])); }
    } else { assert(f.take(0) =~= seq![]); assert(out(f, 0) + word(f, 0) =~= seq![]); }
}
pub proof fn no_calls(f: Seq<char>) requires forall|i: int| 0 <= i < f.len() ==> !called(f, i) || prefixed(word(f, i)) || kind(word(f, i)) is None ensures stored(f) == f { 
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] before(f, i)).len() == 0 by { assert(called(f, i) || before(f, i).len() == 0); }
    only_prefixes(f, f.len() as int); assert(f.take(f.len() as int) =~= f); }
pub proof fn no_rows(f: Seq<char>, k: int) requires 0 <= k <= f.len(), !f.contains('@') ensures with_rows(f, k) == f.take(k) decreases k { if k > 0 { no_rows(f, k - 1); assert(f.contains(f[k - 1])); assert(with_rows(f, k) =~= f.take(k)); } else { assert(f.take(0) =~= with_rows(f, 0)); } }
pub proof fn strip_is(p: Seq<char>, n: Seq<char>, m: Seq<char>) ensures n == p + m ==> p.is_prefix_of(n) && n.skip(p.len() as int) == m { if n == p + m { assert(n.take(p.len() as int) =~= p); assert(n.skip(p.len() as int) =~= m); } }
pub proof fn lits() ensures "_xlfn."@.len() == 6, "_xlws."@.len() == 6 { reveal_strlit("_xlfn."); reveal_strlit("_xlws."); }

// ---------------------------------------------------------------- the code
impl FormulaScanner {
//@fn src/formula.rs is_quoted impl="impl FormulaScanner" ret=r
| requires good(*old(self)), old(self).bracket_depth < usize::MAX,
| ensures good(*final(self)), place(*final(self)) == next(place(*old(self)), char), r == (!(place(*old(self)) is Plain) || !(place(*final(self)) is Plain)),
|   final(self).bracket_depth <= old(self).bracket_depth + 1,
//@end
}
impl Formula {
//@fn src/formula.rs is_name_char impl="impl Formula" ret=r
| ensures r == name_char(char),
//@rewrite char\.is_alphanumeric\(\) => vp_alnum(char)
//@end

//@fn src/formula.rs future_functions impl="impl Formula" ret=r
| ensures (match r { Some(k) => Some(*k), None => None::<u8> }) == kind(function@),
//@rewrite (?s)static FUTURE_FUNCTIONS.*?HashMap::from\(\[ => 
//@rewrite \(("[^"]*"), (\d)\), => if vp_is(function, \1) { return Some(&\2); }
//@rewrite (?s)\]\)\s*\}\)\s*\.get\(function\) => None
//@end

//@fn src/formula.rs escape_formula impl="impl Formula" ret=r
| requires formula@.len() < usize::MAX,
| ensures r.0@ == stored(formula@), r.1 == arrays(formula@, formula@.len() as int),
//@rewrite FormulaScanner::default\(\) => vp_start()
//@rewrite String::with_capacity\(formula\.len\(\)\) => String::new()
//@rewrite for char in formula\.chars\(\) \{ => let vp_c = vp_chars(formula); let mut vp_i: usize = 0; while vp_i < vp_c.len() { let char = vp_c[vp_i]; vp_i = vp_i + 1;
//@rewrite token\.strip_prefix\(("[^"]*")\) => vp_strip(vp_str(&token), \1)
//@rewrite function\.strip_prefix\(("[^"]*")\)\.unwrap_or\(function\) => vp_strip_or(function, \1)
//@rewrite has_dynamic_function \|= \*function_type > 0; => has_dynamic_function = has_dynamic_function || *function_type > 0;
//@rewrite token\.clear\(\) => vp_clear(&mut token)
//@rewrite push_str\(&token\) => push_str(vp_str(&token))
//@rewrite future_functions\(&token\) => future_functions(vp_str(&token))
//@at body-start
| let ghost f = formula@;
//@loop 1
| invariant vp_c@ == f, f == formula@, f.len() < usize::MAX, vp_i <= f.len(), good(scanner), place(scanner) == at(f, vp_i as int), scanner.bracket_depth <= vp_i,
|   token@ =~= word(f, vp_i as int), escaped_formula@ =~= out(f, vp_i as int), has_dynamic_function == arrays(f, vp_i as int),
| decreases f.len() - vp_i,
//@at loop 1 start
| proof { lits(); alnum_ascii('('); }
//@after /let is_quoted = scanner\.is_quoted\(char\);/
| proof { assert(f[vp_i - 1] == char); assert(is_quoted == quoted(f, vp_i - 1)); assert(token@ == word(f, vp_i - 1)); }
//@after /if let Some\(function\) = [^{]*\{/
| proof { strip_is("_xlfn."@, token@, function@); }
//@after /let function = [^;]*;/
| proof { let m = token@.skip(6); if "_xlws."@.is_prefix_of(m) { strip_is("_xlws."@, m, function@); } assert(function@ == bare(token@)); }
//@end

//@fn src/formula.rs escape_table_functions impl="impl Formula" ret=r
| requires self.formula_string@.len() < usize::MAX,
| ensures r == (Formula { formula_string: r.formula_string, ..self }), r.formula_string@ == with_rows(self.formula_string@, self.formula_string@.len() as int),
//@rewrite sig:mut self => self
//@rewrite \bself\b => vp_s
//@rewrite !vp_s\.formula_string\.contains\('@'\) => !vp_has(&vp_s.formula_string, '@')
//@rewrite FormulaScanner::default\(\) => vp_start()
//@rewrite String::with_capacity\(vp_s\.formula_string\.len\(\)\) => String::new()
//@rewrite for char in vp_s\.formula_string\.chars\(\) \{ => let vp_c = vp_chars(vp_str(&vp_s.formula_string)); for vp_i in 0..vp_c.len() { let char = vp_c[vp_i];
//@at body-start
| let mut vp_s = self; let ghost f = self.formula_string@; proof { if !f.contains('@') { no_rows(f, f.len() as int); assert(f.take(f.len() as int) =~= f); } }
//@loop 1
| invariant vp_s == self, vp_c@ == f, f == self.formula_string@, f.len() < usize::MAX, good(scanner), place(scanner) == at(f, vp_i as int), scanner.bracket_depth <= vp_i, escaped_formula@ =~= with_rows(f, vp_i as int),
//@end

//@fn src/formula.rs new impl="impl Formula" ret=r
| requires formula@.len() < usize::MAX,
| ensures r.formula_string@ == stored(inner(formula@)), r.has_dynamic_function == arrays(inner(formula@), inner(formula@).len() as int), r.result@ == Seq::<char>::empty(),
//@rewrite sig:impl AsRef<str> => &str
//@rewrite formula\.as_ref\(\) => formula
//@rewrite formula\.strip_prefix\(('.')\) => vp_strip_char(formula, \1)
//@rewrite stripped\.strip_suffix\(('.')\)\.unwrap_or\(stripped\) => vp_strip_end(stripped, \1)
//@rewrite Box::from\(""\) => String::new()
//@rewrite expand_\w+: false, => 
//@at body-start
| let ghost f0 = formula@;
//@after /formula = vp_strip_end\(stripped, '.'\);/
| proof { assert(f0.skip(1) =~= stripped@); }
//@before /let \(formula_string, has_dynamic_function\) =/
| proof { assert(formula@ =~= inner(f0)); }
//@end

//@fn src/formula.rs set_result impl="impl Formula" ret=r
| ensures r == (Formula { result: r.result, ..self }), r.result@ == result@,
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<String> => String
//@rewrite Box::from\(result\.into\(\)\) => result
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end
}
impl Formula {
#[verifier::external_body] pub fn clone(&self) -> (r: Formula) ensures r == *self { unimplemented!() }
}
/// the name of a column as a formula refers to it: brackets, # and single quotes follow a quote
pub uninterp spec fn swapped(s: Seq<char>, a: char, b: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vp_swap(s: &String, a: char, b: &str) -> (r: String) ensures r@ == swapped(s@, a, b@) { s.replace(a, b) }
pub open spec fn column_ref(n: Seq<char>) -> Seq<char> { swapped(swapped(swapped(swapped(n, '\'', "''"@), '#', "'#"@), ']', "']"@), '[', "'["@) }
pub open spec fn subtotal(k: Seq<char>, n: Seq<char>) -> Seq<char> { "SUBTOTAL("@ + k + ",["@ + column_ref(n) + "])"@ }
pub open spec fn total_text(c: TableColumn) -> Seq<char> {
    match c.total_function {
        TableFunction::Max => stored(inner(subtotal("104"@, c.name@))), TableFunction::Min => stored(inner(subtotal("105"@, c.name@))), TableFunction::Sum => stored(inner(subtotal("109"@, c.name@))),
        TableFunction::Var => stored(inner(subtotal("110"@, c.name@))), TableFunction::Count => stored(inner(subtotal("103"@, c.name@))), TableFunction::StdDev => stored(inner(subtotal("107"@, c.name@))),
        TableFunction::Average => stored(inner(subtotal("101"@, c.name@))), TableFunction::CountNumbers => stored(inner(subtotal("102"@, c.name@))), TableFunction::Custom(f) => f.formula_string@, TableFunction::None => stored(inner(""@)),
    }
}
/// Formula::new for a String
pub fn vp_new(s: String) -> (r: Formula) requires s@.len() < usize::MAX ensures r.formula_string@ == stored(inner(s@)) { Formula::new(vp_str(&s)) }
impl TableColumn {
//@fn src/table.rs set_formula impl="impl TableColumn$" ret=r
| requires formula.formula_string@.len() < usize::MAX,
| ensures r.name == self.name, r.total_function == self.total_function, r.formula matches Some(g) && g == (Formula { formula_string: g.formula_string, ..formula }) && g.formula_string@ == with_rows(formula.formula_string@, formula.formula_string@.len() as int),
//@rewrite sig:mut self => self
//@rewrite sig:impl Into<Formula> => Formula
//@rewrite formula\.into\(\) => formula
//@rewrite \bself\b => vp_s
//@at body-start
| let mut vp_s = self;
//@end

//@fn src/table.rs total_function impl="impl TableColumn$" ret=r strlits
| requires column_ref(self.name@).len() < 1_000_000_000,
| ensures r.formula_string@ == total_text(*self),
//@rewrite let column_name = self\s*\.name\s*\.replace\(('[^,]*'), ("[^"]*")\)\s*\.replace\(('[^,]*'), ("[^"]*")\)\s*\.replace\(('[^,]*'), ("[^"]*")\)\s*\.replace\(('[^,]*'), ("[^"]*")\); => let column_name = vp_swap(&self.name, \1, \2); let column_name = vp_swap(&column_name, \3, \4); let column_name = vp_swap(&column_name, \5, \6); let column_name = vp_swap(&column_name, \7, \8);
//@rewrite Formula::new\(format!\("(SUBTOTAL\()(\d+),\[\{column_name\}\]\)"\)\) => { let vp_t = format!("\1\2,[{column_name}])"); proof { reveal_strlit("\2"); assert(vp_t@ =~= subtotal("\2"@, self.name@)); } vp_new(vp_t) }
//@rewrite Formula::new\(""\) => { proof { reveal_strlit(""); assert(""@ =~= seq![]); } Formula::new("") }
//@at body-start
| proof { reveal_strlit("SUBTOTAL("); reveal_strlit("])"); reveal_strlit(",["); }
//@end
}
} // verus!
fn main() {}
