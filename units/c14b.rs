// Cells as they are written, with what they hold.  Extracted from /repo/src/worksheet.rs on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include write_prelude.rs
//@type src/worksheet.rs RowNum
pub const XML_WRITE_ERROR: &'static str = "";
// ---------------------------------------------------------------- trusted string plumbing
pub uninterp spec fn num_text(x: f64) -> Seq<char>;
impl VpFmt for f64 { open spec fn disp(&self) -> Seq<char> { num_text(*self) } #[verifier::external_body] fn vp_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VpWrite for f64 { fn vp_write<W: Write>(&self, w: &mut W) { vp_w_seq(w, self) } }
/// a finite number
pub uninterp spec fn number(t: Seq<char>) -> bool;
#[verifier::external_body] pub fn vp_number(t: &str) -> (r: bool) ensures r == number(t@) { t.parse::<f64>().is_ok_and(f64::is_finite) }
#[verifier::external_body] pub fn vp_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body] pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn vp_str(s: &String) -> (r: &str) ensures r@ == s@ { s.as_str() }
pub open spec fn space(c: char) -> bool { c == '\t' || c == '\n' || c == ' ' }
pub open spec fn edge_space(s: Seq<char>) -> bool { s.len() > 0 && (space(s[0]) || space(s.last())) }
#[verifier::external_body] pub fn vp_starts(s: &str, w: [char; 3]) -> (r: bool) ensures w@ == seq!['\t', '\n', ' '] ==> r == (s@.len() > 0 && space(s@[0])) { s.starts_with(w) }
#[verifier::external_body] pub fn vp_ends(s: &str, w: [char; 3]) -> (r: bool) ensures w@ == seq!['\t', '\n', ' '] ==> r == (s@.len() > 0 && space(s@.last())) { s.ends_with(w) }
/// text as XML data, and with what looks like an escape sequence escaped (units c02 and c03 prove both)
pub uninterp spec fn data(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn escape_xml_data(s: &str) -> (r: String) ensures r@ == data(s@) { unimplemented!() }
#[verifier::external_body] pub fn escape_xml_escapes(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
/// trusted: texts with the same characters are the same; words of letters are left as they are, and nothing else becomes one
pub axiom fn same(s: &str, l: &str) ensures (s == l) == (s@ == l@);
pub axiom fn words(s: Seq<char>) ensures (data(esc(s)) == "TRUE"@) == (s == "TRUE"@), (data(esc(s)) == "FALSE"@) == (s == "FALSE"@);

// ---------------------------------------------------------------- specification
pub open spec fn style(xf: u32) -> Seq<char> { if xf > 0 { " s=\""@ + dec(xf as nat) + "\""@ } else { ""@ } }
pub open spec fn head(col: Seq<char>, row: u32, xf: u32) -> Seq<char> { "<c r=\""@ + col + dec(row as nat) + "\""@ + style(xf) }
pub open spec fn cell(col: Seq<char>, row: u32, xf: u32, attrs: Seq<char>, inside: Seq<char>) -> Seq<char> { head(col, row, xf) + attrs + ">"@ + inside + "</c>"@ }
pub open spec fn value(v: Seq<char>) -> Seq<char> { "<v>"@ + v + "</v>"@ }
pub open spec fn error(t: Seq<char>) -> bool { t == "#DIV/0!"@ || t == "#N/A"@ || t == "#NAME?"@ || t == "#NULL!"@ || t == "#NUM!"@ || t == "#REF!"@ || t == "#VALUE!"@ || t == "#GETTING_DATA"@ }
/// the type of a formula's result
pub open spec fn res_type(t: Seq<char>) -> Seq<char> { if number(t) { ""@ } else if error(t) { " t=\"e\""@ } else if t == "TRUE"@ || t == "FALSE"@ { " t=\"b\""@ } else { " t=\"str\""@ } }
pub open spec fn res_value(t: Seq<char>) -> Seq<char> { if t == "TRUE"@ { "1"@ } else if t == "FALSE"@ { "0"@ } else { data(esc(t)) } }

pub struct Worksheet { }
impl Worksheet {
//@fn src/worksheet.rs write_number_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, ""@, value(num_text(number))),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@rewrite let mut buffer = ryu::[^;]*; => 
//@rewrite let number = buffer\.[^;]*; => 
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_string_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, " t=\"s\""@, value(dec(string_index as nat))),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_inline_string_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, " t=\"inlineStr\""@, "<is><t"@ + (if edge_space(string@) { " xml:space=\"preserve\""@ } else { ""@ }) + ">"@ + data(esc(string@)) + "</t></is>"@),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@rewrite string\.starts_with\(whitespace\) => vp_starts(string, whitespace)
//@rewrite string\.ends_with\(whitespace\) => vp_ends(string, whitespace)
//@rewrite let string = escape_xml_escapes\(string\);\s*let string = escape_xml_data\(&string\); => let string = escape_xml_escapes(string); let string = escape_xml_data(vp_str(&string));
//@at body-start
| let ghost t = string@; proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_inline_rich_string_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, " t=\"inlineStr\""@, "<is>"@ + string@ + "</is>"@),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_formula_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, res_type(result@), "<f>"@ + data(formula@) + "</f>"@ + value(res_value(result@))),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@rewrite !result\.parse::<f64>\(\)\.is_ok_and\(f64::is_finite\) => !vp_number(result)
//@rewrite let result = escape_xml_escapes\(result\);\s*let mut result = escape_xml_data\(&result\); => let result = escape_xml_escapes(result); let mut result = escape_xml_data(vp_str(&result));
//@rewrite result == ("\w+") => vp_is(vp_str(&result), \1)
//@rewrite Cow::Owned\(("\d")\.to_string\(\)\) => vp_string(\1)
//@at body-start
| let ghost t = result@; proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); same(result, "#DIV/0!"); same(result, "#N/A"); same(result, "#NAME?"); same(result, "#NULL!"); same(result, "#NUM!"); same(result, "#REF!"); same(result, "#VALUE!"); same(result, "#GETTING_DATA"); same(result, "TRUE"); same(result, "FALSE"); words(t); }
//@end
//@fn src/worksheet.rs write_array_formula_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, (if is_dynamic { " cm=\"1\""@ } else { ""@ }) + res_type(result@), "<f t=\"array\" ref=\""@ + range@ + "\">"@ + data(formula@) + "</f>"@ + value(res_value(result@))),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@rewrite !result\.parse::<f64>\(\)\.is_ok_and\(f64::is_finite\) => !vp_number(result)
//@rewrite let result = escape_xml_escapes\(result\);\s*let mut result = escape_xml_data\(&result\); => let result = escape_xml_escapes(result); let mut result = escape_xml_data(vp_str(&result));
//@rewrite result == ("\w+") => vp_is(vp_str(&result), \1)
//@rewrite Cow::Owned\(("\d")\.to_string\(\)\) => vp_string(\1)
//@at body-start
| let ghost t = result@; proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); same(result, "#DIV/0!"); same(result, "#N/A"); same(result, "#NAME?"); same(result, "#NULL!"); same(result, "#NUM!"); same(result, "#REF!"); same(result, "#VALUE!"); same(result, "#GETTING_DATA"); same(result, "TRUE"); same(result, "FALSE"); words(t); }
//@end
//@fn src/worksheet.rs write_blank_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + (if xf_index > 0 { head(col_name@, row, xf_index) + "/>"@ } else { ""@ }),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_boolean_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, " t=\"b\""@, value(if boolean { "1"@ } else { "0"@ })),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@rewrite i32::from\(boolean\) => if boolean { 1u32 } else { 0u32 }
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
//@fn src/worksheet.rs write_error_cell impl="impl Worksheet$" attr=#[verifier::rlimit(60)] strlits
| ensures final(writer).out() =~= old(writer).out() + cell(col_name@, row, xf_index, " t=\"e\" vm=\""@ + dec(value as nat) + "\""@, "<v>#VALUE!</v>"@),
//@rewrite (?#opt)crate::xmlwriter:: => 
//@at body-start
| proof { reveal_strlit("<c r=\""); reveal_strlit(" s=\""); reveal_strlit("\""); reveal_strlit(">"); reveal_strlit("</c>"); reveal_strlit("<v>"); reveal_strlit("</v>"); reveal_strlit(""); reveal_strlit("/>"); reveal_strlit("<f>"); reveal_strlit("</f>"); reveal_strlit(" t=\"str\""); reveal_strlit(" t=\"e\""); reveal_strlit(" t=\"b\""); reveal_strlit(" t=\"s\""); reveal_strlit(" t=\"inlineStr\""); reveal_strlit("<is>"); reveal_strlit("</is>"); reveal_strlit("<is><t"); reveal_strlit("</t></is>"); reveal_strlit(" xml:space=\"preserve\""); reveal_strlit(" cm=\"1\""); reveal_strlit("<f t=\"array\" ref=\""); reveal_strlit("\">"); reveal_strlit(" t=\"e\" vm=\""); reveal_strlit("<v>#VALUE!</v>"); reveal_strlit("0"); reveal_strlit("1"); }
//@end
}
} // verus!
fn main() {}
