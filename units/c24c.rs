// C24: the rules of conditional formats.  Extracted from /repo/src on every run.
use vstd::prelude::*;
verus! {
//@include fmt_prelude.rs
//@include tag_prelude.rs
//@item src/color.rs enum Color derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/formula.rs struct Formula keep=formula_string derive=
//@item src/conditional_format.rs struct ConditionalFormatValue derive=
//@item src/conditional_format.rs enum ConditionalFormatCellRule derive= sub=<T:\s*IntoConditionalFormatValue>=><T>
//@item src/conditional_format.rs enum ConditionalFormatTopRule derive=
//@item src/conditional_format.rs enum ConditionalFormatAverageRule derive=
//@item src/conditional_format.rs enum ConditionalFormatTextRule derive=
//@item src/conditional_format.rs enum ConditionalFormatDateRule derive=
//@item src/conditional_format.rs enum ConditionalFormatType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/conditional_format.rs enum ConditionalFormatDataBarDirection derive=
//@item src/conditional_format.rs enum ConditionalFormatDataBarAxisPosition derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/conditional_format.rs enum ConditionalFormatIconType derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/conditional_format.rs struct ConditionalFormatCustomIcon derive=
//@item src/conditional_format.rs struct ConditionalFormatCell keep=rule,stop_if_true,multi_range derive=
//@item src/conditional_format.rs struct ConditionalFormatBlank keep=is_inverted,stop_if_true,multi_range derive=
//@item src/conditional_format.rs struct ConditionalFormatError keep=is_inverted,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatDuplicate keep=is_inverted,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatFormula keep=formula,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatAverage keep=criteria,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatTop keep=rule,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatText keep=rule,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatDate keep=rule,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormat2ColorScale keep=min_type,max_type,min_value,max_value,min_color,max_color,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormat3ColorScale keep=min_type,mid_type,max_type,min_value,mid_value,max_value,min_color,mid_color,max_color,stop_if_true derive=
//@item src/conditional_format.rs struct ConditionalFormatDataBar keep=min_type,max_type,min_value,max_value,fill_color,border_color,negative_fill_color,negative_border_color,axis_color,border_off,solid_bar,bar_only,direction,axis_position,stop_if_true,has_x14_extensions derive=
//@item src/conditional_format.rs struct ConditionalFormatIconSet keep=icon_type,is_reversed,icon_only,has_custom_icons,icons,stop_if_true,has_x14_extensions,has_x14_only derive=
pub enum XlsxError { ConditionalFormatError(String) }

// ---------------------------------------------------------------- specification
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn rendered(t: Seq<Tag>) -> Seq<char>;
/// the text before the first such character, all of it if there is none
pub uninterp spec fn before(s: Seq<char>, c: char) -> Seq<char>;
pub uninterp spec fn utf16_len(s: Seq<char>) -> nat;
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub uninterp spec fn color_attrs(c: Color) -> Attrs;
/// the text is a number outside 0..100
pub uninterp spec fn bad_percent(s: Seq<char>) -> bool;
pub axiom fn percents(n: nat) requires n <= 100 ensures !bad_percent(dec(n));
pub open spec fn anchor_of(range: Seq<char>) -> Seq<char> { before(before(range, ' '), ':') }
pub open spec fn quotes(s: Seq<char>) -> Seq<char> { replaced(s, seq!['"'], "\"\""@) }
pub open spec fn is_quoted(s: Seq<char>) -> bool { byte_len(s) > 1 && s.len() > 0 && s[0] == '"' && s.last() == '"' }
pub open spec fn operand(v: ConditionalFormatValue) -> Seq<char> { if v.is_string && !is_quoted(v.value@) { "\""@ + quotes(v.value@) + "\""@ } else { v.value@ } }
#[verifier::opaque] pub open spec fn head(a: Attrs, dxf: Option<u32>, p: u32, stop: bool) -> Attrs {
    add((match dxf { Some(i) => a.push(("dxfId"@, dec(i as nat))), None => a }).push(("priority"@, dec(p as nat))), stop, "stopIfTrue"@, "1"@)
}
pub open spec fn kind(t: Seq<char>) -> Attrs { seq![("type"@, t)] }
pub open spec fn with_formula(a: Attrs, f: Seq<char>) -> Seq<Tag> { seq![Tag::Open("cfRule"@, a), Tag::Data("formula"@, seq![], f), Tag::Close("cfRule"@)] }
// cells
pub open spec fn cell_op<T>(r: ConditionalFormatCellRule<T>) -> Seq<char> { match r { ConditionalFormatCellRule::EqualTo(_) => "equal"@, ConditionalFormatCellRule::NotEqualTo(_) => "notEqual"@, ConditionalFormatCellRule::GreaterThan(_) => "greaterThan"@, ConditionalFormatCellRule::GreaterThanOrEqualTo(_) => "greaterThanOrEqual"@, ConditionalFormatCellRule::LessThan(_) => "lessThan"@, ConditionalFormatCellRule::LessThanOrEqualTo(_) => "lessThanOrEqual"@, ConditionalFormatCellRule::Between(_, _) => "between"@, ConditionalFormatCellRule::NotBetween(_, _) => "notBetween"@ } }
pub open spec fn cell_tags(r: ConditionalFormatCellRule<ConditionalFormatValue>) -> Seq<Tag> { match r { ConditionalFormatCellRule::EqualTo(a) | ConditionalFormatCellRule::NotEqualTo(a) | ConditionalFormatCellRule::GreaterThan(a) | ConditionalFormatCellRule::GreaterThanOrEqualTo(a) | ConditionalFormatCellRule::LessThan(a) | ConditionalFormatCellRule::LessThanOrEqualTo(a) => seq![Tag::Data("formula"@, seq![], a.value@)], ConditionalFormatCellRule::Between(a, b) | ConditionalFormatCellRule::NotBetween(a, b) => seq![Tag::Data("formula"@, seq![], a.value@), Tag::Data("formula"@, seq![], b.value@)] } }
// averages
pub open spec fn average_attrs(a: Attrs, r: ConditionalFormatAverageRule) -> Attrs {
    let below = r is BelowAverage || r is EqualOrBelowAverage || r is OneStandardDeviationBelow || r is TwoStandardDeviationsBelow || r is ThreeStandardDeviationsBelow;
    let dev = if r is OneStandardDeviationAbove || r is OneStandardDeviationBelow { 1nat } else if r is TwoStandardDeviationsAbove || r is TwoStandardDeviationsBelow { 2 } else if r is ThreeStandardDeviationsAbove || r is ThreeStandardDeviationsBelow { 3 } else { 0 };
    let a = add(a, below, "aboveAverage"@, "0"@);
    let a = add(a, r is EqualOrAboveAverage || r is EqualOrBelowAverage, "equalAverage"@, "1"@);
    add(a, dev > 0, "stdDev"@, if dev == 1 { "1"@ } else if dev == 2 { "2"@ } else { "3"@ })
}
// top and bottom
pub open spec fn rank(r: ConditionalFormatTopRule) -> u16 { match r { ConditionalFormatTopRule::Top(n) | ConditionalFormatTopRule::Bottom(n) | ConditionalFormatTopRule::TopPercent(n) | ConditionalFormatTopRule::BottomPercent(n) => n } }
pub open spec fn is_percent(r: ConditionalFormatTopRule) -> bool { r is TopPercent || r is BottomPercent }
pub open spec fn is_bottom(r: ConditionalFormatTopRule) -> bool { r is Bottom || r is BottomPercent }
// texts and dates
pub open spec fn text_of(r: ConditionalFormatTextRule) -> Seq<char> { match r { ConditionalFormatTextRule::Contains(t) | ConditionalFormatTextRule::DoesNotContain(t) | ConditionalFormatTextRule::BeginsWith(t) | ConditionalFormatTextRule::EndsWith(t) => t@ } }
pub open spec fn text_type(r: ConditionalFormatTextRule) -> Seq<char> { if r is Contains { "containsText"@ } else if r is DoesNotContain { "notContainsText"@ } else if r is BeginsWith { "beginsWith"@ } else { "endsWith"@ } }
pub open spec fn text_op(r: ConditionalFormatTextRule) -> Seq<char> { if r is Contains { "containsText"@ } else if r is DoesNotContain { "notContains"@ } else if r is BeginsWith { "beginsWith"@ } else { "endsWith"@ } }
pub open spec fn text_formula(r: ConditionalFormatTextRule, a: Seq<char>) -> Seq<char> {
    let q = quotes(text_of(r));
    let n = dec(utf16_len(text_of(r)));
    if r is Contains { "NOT(ISERROR(SEARCH(\""@ + q + "\","@ + a + ")))"@ } else if r is DoesNotContain { "ISERROR(SEARCH(\""@ + q + "\","@ + a + "))"@ }
    else if r is BeginsWith { "LEFT("@ + a + ","@ + n + ")=\""@ + q + "\""@ } else { "RIGHT("@ + a + ","@ + n + ")=\""@ + q + "\""@ }
}
pub open spec fn period(r: ConditionalFormatDateRule) -> Seq<char> { match r { ConditionalFormatDateRule::Yesterday => "yesterday"@, ConditionalFormatDateRule::Today => "today"@, ConditionalFormatDateRule::Tomorrow => "tomorrow"@, ConditionalFormatDateRule::Last7Days => "last7Days"@, ConditionalFormatDateRule::LastWeek => "lastWeek"@, ConditionalFormatDateRule::ThisWeek => "thisWeek"@, ConditionalFormatDateRule::NextWeek => "nextWeek"@, ConditionalFormatDateRule::LastMonth => "lastMonth"@, ConditionalFormatDateRule::ThisMonth => "thisMonth"@, ConditionalFormatDateRule::NextMonth => "nextMonth"@ } }
// scales, bars and icons
pub open spec fn type_text(t: ConditionalFormatType) -> Seq<char> { match t { ConditionalFormatType::Lowest => "min"@, ConditionalFormatType::Number => "num"@, ConditionalFormatType::Percent => "percent"@, ConditionalFormatType::Formula => "formula"@, ConditionalFormatType::Percentile => "percentile"@, ConditionalFormatType::Highest => "max"@, ConditionalFormatType::Automatic => "auto"@ } }
pub open spec fn edge(t: ConditionalFormatType) -> bool { t is Lowest || t is Highest || t is Automatic }
pub open spec fn scale_cfvo(t: ConditionalFormatType, v: ConditionalFormatValue) -> Tag { Tag::Empty("cfvo"@, seq![("type"@, type_text(t)), ("val"@, v.value@)]) }
pub open spec fn bar_cfvo(t: ConditionalFormatType, v: Seq<char>, ext: bool, max: bool) -> Tag {
    Tag::Empty("cfvo"@, add(seq![("type"@, if t is Automatic { if max { "max"@ } else { "min"@ } } else { type_text(t) })], !edge(t) || (!(t is Automatic) && !ext), "val"@, v))
}
pub open spec fn bar_x14(t: ConditionalFormatType, v: Seq<char>, max: bool) -> Seq<Tag> {
    let a = seq![("type"@, if t is Automatic { if max { "autoMax"@ } else { "autoMin"@ } } else { type_text(t) })];
    if edge(t) { seq![Tag::Empty("x14:cfvo"@, a)] } else { seq![Tag::Open("x14:cfvo"@, a), Tag::Data("xm:f"@, seq![], v), Tag::Close("x14:cfvo"@)] }
}
pub open spec fn ext_list(id: Seq<char>) -> Seq<Tag> { seq![Tag::Open("extLst"@, seq![]), Tag::Open("ext"@, seq![("xmlns:x14"@, "http://schemas.microsoft.com/office/spreadsheetml/2009/9/main"@), ("uri"@, "{B025F937-C7B1-47D3-B67F-A62EFF666E3E}"@)]), Tag::Data("x14:id"@, seq![], id), Tag::Close("ext"@), Tag::Close("extLst"@)] }
pub open spec fn own_negative_border(b: ConditionalFormatDataBar) -> bool { !b.border_off && (b.fill_color != b.negative_border_color || b.border_color != b.negative_border_color) }
#[verifier::opaque] pub open spec fn bar_attrs(b: ConditionalFormatDataBar) -> Attrs {
    let a: Attrs = seq![("minLength"@, "0"@), ("maxLength"@, "100"@)];
    let a = add(a, !b.border_off, "border"@, "1"@);
    let a = add(a, b.solid_bar, "gradient"@, "0"@);
    let a = add(a, !(b.direction is Context), "direction"@, if b.direction is LeftToRight { "leftToRight"@ } else { "rightToLeft"@ });
    let a = add(a, b.fill_color == b.negative_fill_color, "negativeBarColorSameAsPositive"@, "1"@);
    let a = add(a, own_negative_border(b), "negativeBarBorderColorSameAsPositive"@, "0"@);
    add(a, !(b.axis_position is Automatic), "axisPosition"@, if b.axis_position is Midpoint { "middle"@ } else { "none"@ })
}
pub open spec fn color_tag(b: bool, t: Seq<char>, c: Color) -> Seq<Tag> { if b { seq![Tag::Empty(t, color_attrs(c))] } else { seq![] } }
pub open spec fn bar_colors(b: ConditionalFormatDataBar) -> Seq<Tag> {
    color_tag(!b.border_off, "x14:borderColor"@, b.border_color) + color_tag(b.fill_color != b.negative_fill_color, "x14:negativeFillColor"@, b.negative_fill_color) + color_tag(own_negative_border(b), "x14:negativeBorderColor"@, b.negative_border_color) + color_tag(!(b.axis_position is None), "x14:axisColor"@, b.axis_color)
}
pub open spec fn bar_x14_tags(b: ConditionalFormatDataBar, id: Seq<char>) -> Seq<Tag> {
    seq![Tag::Open("x14:cfRule"@, seq![("type"@, "dataBar"@), ("id"@, id)]), Tag::Open("x14:dataBar"@, bar_attrs(b))] + bar_x14(b.min_type, b.min_value.value@, false) + bar_x14(b.max_type, b.max_value.value@, true) + bar_colors(b) + seq![Tag::Close("x14:dataBar"@), Tag::Close("x14:cfRule"@)]
}
pub open spec fn icon_count(t: ConditionalFormatIconType) -> nat { match t {
    ConditionalFormatIconType::FourArrows | ConditionalFormatIconType::FourArrowsGray | ConditionalFormatIconType::FourRedToBlack | ConditionalFormatIconType::FourHistograms | ConditionalFormatIconType::FourTrafficLights => 4,
    ConditionalFormatIconType::FiveArrows | ConditionalFormatIconType::FiveArrowsGray | ConditionalFormatIconType::FiveHistograms | ConditionalFormatIconType::FiveQuadrants | ConditionalFormatIconType::FiveBoxes => 5,
    _ => 3 } }
pub open spec fn icon_text(t: ConditionalFormatIconType) -> Seq<char> { match t { ConditionalFormatIconType::ThreeArrows => "3Arrows"@, ConditionalFormatIconType::ThreeArrowsGray => "3ArrowsGray"@, ConditionalFormatIconType::ThreeFlags => "3Flags"@, ConditionalFormatIconType::ThreeTrafficLights => "3TrafficLights1"@, ConditionalFormatIconType::ThreeTrafficLightsWithRim => "3TrafficLights2"@, ConditionalFormatIconType::ThreeSigns => "3Signs"@, ConditionalFormatIconType::ThreeSymbolsCircled => "3Symbols"@, ConditionalFormatIconType::ThreeSymbols => "3Symbols2"@, ConditionalFormatIconType::ThreeStars => "3Stars"@, ConditionalFormatIconType::ThreeTriangles => "3Triangles"@, ConditionalFormatIconType::FourArrows => "4Arrows"@, ConditionalFormatIconType::FourArrowsGray => "4ArrowsGray"@, ConditionalFormatIconType::FourRedToBlack => "4RedToBlack"@, ConditionalFormatIconType::FourHistograms => "4Rating"@, ConditionalFormatIconType::FourTrafficLights => "4TrafficLights"@, ConditionalFormatIconType::FiveArrows => "5Arrows"@, ConditionalFormatIconType::FiveArrowsGray => "5ArrowsGray"@, ConditionalFormatIconType::FiveHistograms => "5Rating"@, ConditionalFormatIconType::FiveQuadrants => "5Quarters"@, ConditionalFormatIconType::FiveBoxes => "5Boxes"@ } }
/// sets that came after the original file format
pub open spec fn new_set(t: ConditionalFormatIconType) -> bool { t is ThreeStars || t is ThreeTriangles || t is FiveBoxes }
pub open spec fn icon_rule(t: ConditionalFormatType) -> Seq<char> { if edge(t) { "percent"@ } else { type_text(t) } }
pub open spec fn icon_cfvo(i: ConditionalFormatCustomIcon) -> Seq<Tag> { seq![Tag::Empty("cfvo"@, add(seq![("type"@, icon_rule(i.rule_type)), ("val"@, i.value.value@)], i.greater_than, "gte"@, "0"@))] }
pub open spec fn icon_x14(i: ConditionalFormatCustomIcon) -> Seq<Tag> { seq![Tag::Open("x14:cfvo"@, add(seq![("type"@, icon_rule(i.rule_type))], i.greater_than, "gte"@, "0"@)), Tag::Data("xm:f"@, seq![], i.value.value@), Tag::Close("x14:cfvo"@)] }
pub open spec fn icon_tag(s: ConditionalFormatIconSet, k: int) -> Seq<Tag> {
    let i = s.icons@[k];
    if i.no_icon { seq![Tag::Empty("x14:cfIcon"@, seq![("iconSet"@, "NoIcons"@), ("iconId"@, "0"@)])] }
    else if i.icon_type is Some { seq![Tag::Empty("x14:cfIcon"@, seq![("iconSet"@, icon_text(i.icon_type->0)), ("iconId"@, dec(i.icon_index as nat))])] }
    else { seq![Tag::Empty("x14:cfIcon"@, seq![("iconSet"@, icon_text(s.icon_type)), ("iconId"@, dec(k as nat))])] }
}
#[verifier::opaque] pub open spec fn cfvos(s: Seq<ConditionalFormatCustomIcon>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { cfvos(s, n - 1) + icon_cfvo(s[n - 1]) } }
#[verifier::opaque] pub open spec fn x14s(s: Seq<ConditionalFormatCustomIcon>, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { x14s(s, n - 1) + icon_x14(s[n - 1]) } }
#[verifier::opaque] pub open spec fn icon_tags(s: ConditionalFormatIconSet, n: int) -> Seq<Tag> decreases n { if n <= 0 { seq![] } else { icon_tags(s, n - 1) + icon_tag(s, n - 1) } }
proof fn steps(s: ConditionalFormatIconSet, n: int) ensures n >= 0 ==> cfvos(s.icons@, n + 1) == cfvos(s.icons@, n) + icon_cfvo(s.icons@[n]) && x14s(s.icons@, n + 1) == x14s(s.icons@, n) + icon_x14(s.icons@[n]) && icon_tags(s, n + 1) == icon_tags(s, n) + icon_tag(s, n), n == 0 ==> cfvos(s.icons@, 0) =~= Seq::<Tag>::empty() && x14s(s.icons@, 0) =~= Seq::<Tag>::empty() && icon_tags(s, 0) =~= Seq::<Tag>::empty() { reveal(cfvos); reveal(x14s); reveal(icon_tags); }
pub open spec fn set_attrs(s: ConditionalFormatIconSet) -> Attrs { add(add(add(Seq::empty(), !(s.icon_type is ThreeTrafficLights), "iconSet"@, icon_text(s.icon_type)), s.icon_only, "showValue"@, "0"@), s.is_reversed, "reverse"@, "1"@) }
pub open spec fn default_percent(n: nat, k: int) -> nat { if n == 3 { if k == 0 { 0 } else if k == 1 { 33 } else { 67 } } else if n == 4 { (25 * k) as nat } else { (20 * k) as nat } }
/// the icon keeps to the rules: it is within its set
pub open spec fn icon_ok(i: ConditionalFormatCustomIcon) -> bool { i.icon_type is Some ==> i.icon_index < icon_count(i.icon_type->0) }
/// the formulas that the application gives these rules
pub open spec fn date_formula(r: ConditionalFormatDateRule, a: Seq<char>) -> Seq<char> { match r { ConditionalFormatDateRule::Yesterday => "FLOOR("@ + a + ",1)=TODAY()-1"@, ConditionalFormatDateRule::Today => "FLOOR("@ + a + ",1)=TODAY()"@, ConditionalFormatDateRule::Tomorrow => "FLOOR("@ + a + ",1)=TODAY()+1"@, ConditionalFormatDateRule::Last7Days => "AND(TODAY()-FLOOR("@ + a + ",1)<=6,FLOOR("@ + a + ",1)<=TODAY())"@, ConditionalFormatDateRule::LastWeek => "AND(TODAY()-ROUNDDOWN("@ + a + ",0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN("@ + a + ",0)<(WEEKDAY(TODAY())+7))"@, ConditionalFormatDateRule::ThisWeek => "AND(TODAY()-ROUNDDOWN("@ + a + ",0)<=WEEKDAY(TODAY())-1,ROUNDDOWN("@ + a + ",0)-TODAY()<=7-WEEKDAY(TODAY()))"@, ConditionalFormatDateRule::NextWeek => "AND(ROUNDDOWN("@ + a + ",0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN("@ + a + ",0)-TODAY()<(15-WEEKDAY(TODAY())))"@, ConditionalFormatDateRule::LastMonth => "AND(MONTH("@ + a + ")=MONTH(TODAY())-1,OR(YEAR("@ + a + ")=YEAR(TODAY()),AND(MONTH("@ + a + ")=1,YEAR("@ + a + ")=YEAR(TODAY())-1)))"@, ConditionalFormatDateRule::ThisMonth => "AND(MONTH("@ + a + ")=MONTH(TODAY()),YEAR("@ + a + ")=YEAR(TODAY()))"@, ConditionalFormatDateRule::NextMonth => "AND(MONTH("@ + a + ")=MONTH(TODAY())+1,OR(YEAR("@ + a + ")=YEAR(TODAY()),AND(MONTH("@ + a + ")=12,YEAR("@ + a + ")=YEAR(TODAY())+1)))"@ } }
// ---------------------------------------------------------------- trusted: the writer and std strings
#[verifier::external_body] pub fn vp_writer() -> (r: Writer) ensures r.log() =~= Seq::<Tag>::empty() { unimplemented!() }
#[verifier::external_body] pub fn cursor_to_string(w: &Writer) -> (r: String) ensures r@ == rendered(w.log()) { unimplemented!() }
impl Color { #[verifier::external_body] pub fn attributes(&self) -> (r: Vec<(&'static str, String)>) ensures av(r@) == color_attrs(*self) { vec![] } }
pub trait VpStr { spec fn vs(&self) -> Seq<char>; fn vp_replace(&self, a: char, b: &str) -> (r: String) ensures r@ == replaced(self.vs(), seq![a], b@); }
impl VpStr for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_replace(&self, a: char, b: &str) -> (r: String) { self.replace(a, b) } }
#[verifier::external_body] pub fn vp_utf16(s: &String) -> (r: usize) ensures r == utf16_len(s@) { s.encode_utf16().count() }
#[verifier::external_body] pub fn vp_bytes(s: &String) -> (r: usize) ensures r == byte_len(s@) { s.len() }
#[verifier::external_body] pub fn vp_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] pub fn vp_ends(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body] pub fn vp_none(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vp_before(s: &str, c: char) -> (r: &str) ensures r@ == before(s@, c) { s }
#[verifier::external_body] pub fn vp_copy(s: &String) -> (r: String) ensures r == *s { s.clone() }
#[verifier::external_body] pub fn vp_bad_percent(s: &String) -> (r: bool) ensures r == bad_percent(s@) { s.parse::<f64>().is_ok_and(|n| !(0.0..=100.0).contains(&n)) }
#[verifier::external_body] pub fn vp_num(n: u8) -> (r: ConditionalFormatValue) ensures r.value@ == dec(n as nat), !r.is_string { unimplemented!() }
#[verifier::external_body] pub fn vp_icons(s: &[ConditionalFormatCustomIcon]) -> (r: Vec<ConditionalFormatCustomIcon>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vp_any_custom(s: &Vec<ConditionalFormatCustomIcon>) -> (r: bool) ensures r == exists|k: int| 0 <= k < s@.len() && (#[trigger] s@[k]).is_custom { true }
pub fn vp_put(a: &mut Vec<(&'static str, String)>, b: bool, k: &'static str, v: String) ensures av(final(a)@) == add(av(old(a)@), b, k@, v@) { broadcast use av_push; if b { a.push((k, v)); } }
/// the extracted statement `if let Some(dxf_index) = dxf_index { attributes.push(("dxfId", ..)) }`
pub fn vp_dxf(a: &mut Vec<(&'static str, String)>, d: Option<u32>, k: &'static str) ensures av(final(a)@) == (match d { Some(i) => av(old(a)@).push((k@, dec(i as nat))), None => av(old(a)@) }) { broadcast use av_push; if let Some(i) = d { a.push((k, i.vp_text())); } }
pub broadcast proof fn av_one(a: [(&'static str, String); 1]) ensures #[trigger] av(a@) == seq![(a@[0].0@, a@[0].1@)] { assert(av(a@) =~= seq![(a@[0].0@, a@[0].1@)]); }
pub broadcast proof fn av_two(a: [(&'static str, String); 2]) ensures #[trigger] av(a@) == seq![(a@[0].0@, a@[0].1@), (a@[1].0@, a@[1].1@)] { assert(av(a@) =~= seq![(a@[0].0@, a@[0].1@), (a@[1].0@, a@[1].1@)]); }
pub trait IntoConditionalFormatValue where Self: Sized { spec fn given(&self) -> ConditionalFormatValue; fn new_value(self) -> (r: ConditionalFormatValue) ensures r == self.given(); }

impl<T> ConditionalFormatCellRule<T> {
//@fn src/conditional_format.rs fmt impl="impl.*fmt::Display for ConditionalFormatCellRule" ret=vp_r
| ensures final(f).out() =~= old(f).out() + cell_op(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => ConditionalFormatCellRule::
//@end
}
impl<T> VpText for ConditionalFormatCellRule<T> { open spec fn text(&self) -> Seq<char> { cell_op(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + cell_op(*self) =~= cell_op(*self)); f.take() } }
impl ConditionalFormatTextRule {
//@fn src/conditional_format.rs fmt impl="impl.*fmt::Display for ConditionalFormatTextRule" ret=vp_r
| ensures final(f).out() =~= old(f).out() + text_op(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => ConditionalFormatTextRule::
//@end
}
impl VpText for ConditionalFormatTextRule { open spec fn text(&self) -> Seq<char> { text_op(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + text_op(*self) =~= text_op(*self)); f.take() } }
impl ConditionalFormatDateRule {
//@fn src/conditional_format.rs fmt impl="impl.*fmt::Display for ConditionalFormatDateRule" ret=vp_r
| ensures final(f).out() =~= old(f).out() + period(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => ConditionalFormatDateRule::
//@end
}
impl VpText for ConditionalFormatDateRule { open spec fn text(&self) -> Seq<char> { period(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + period(*self) =~= period(*self)); f.take() } }
impl ConditionalFormatIconType {
//@fn src/conditional_format.rs fmt impl="impl.*fmt::Display for ConditionalFormatIconType" ret=vp_r
| ensures final(f).out() =~= old(f).out() + icon_text(*self)
//@rewrite sig:&mut fmt::Formatter<'_>\) -> fmt::Result => &mut VpF) -> VpOk
//@rewrite Self:: => ConditionalFormatIconType::
//@end
}
impl VpText for ConditionalFormatIconType { open spec fn text(&self) -> Seq<char> { icon_text(*self) } fn vp_text(&self) -> (r: String) { let mut f = VpF::new(); self.fmt(&mut f); assert(Seq::<char>::empty() + icon_text(*self) =~= icon_text(*self)); f.take() } }
//@fn src/conditional_format.rs range_to_anchor ret=r
| ensures r@ == anchor_of(range@),
//@rewrite if let Some\(position\) = anchor\.find\(('.')\) \{\s*anchor = &anchor\[0\.\.position\];\s*\} => anchor = vp_before(anchor, \1);
//@end
impl ConditionalFormatValue {
//@fn src/conditional_format.rs quote_string impl="impl ConditionalFormatValue"
| ensures final(self).value@ =~= operand(*old(self)), final(self).is_string == old(self).is_string,
//@rewrite self\.value\.len\(\) => vp_bytes(&self.value)
//@rewrite self\.value\.starts_with\( => vp_starts(&self.value, 
//@rewrite self\.value\.ends_with\( => vp_ends(&self.value, 
//@rewrite \.replace\( => .vp_replace(
//@at body-start
| proof { reveal_strlit("\""); }
//@end
}
pub open spec fn given_rule<T: IntoConditionalFormatValue>(r: ConditionalFormatCellRule<T>) -> (Seq<char>, Seq<char>, Seq<char>) { (cell_op(r), match r { ConditionalFormatCellRule::EqualTo(a) | ConditionalFormatCellRule::NotEqualTo(a) | ConditionalFormatCellRule::GreaterThan(a) | ConditionalFormatCellRule::GreaterThanOrEqualTo(a) | ConditionalFormatCellRule::LessThan(a) | ConditionalFormatCellRule::LessThanOrEqualTo(a) => operand(a.given()), ConditionalFormatCellRule::Between(a, _) | ConditionalFormatCellRule::NotBetween(a, _) => operand(a.given()) }, match r { ConditionalFormatCellRule::Between(_, b) | ConditionalFormatCellRule::NotBetween(_, b) => operand(b.given()), _ => seq![] }) }
pub open spec fn stored_rule(r: ConditionalFormatCellRule<ConditionalFormatValue>) -> (Seq<char>, Seq<char>, Seq<char>) { (cell_op(r), match r { ConditionalFormatCellRule::EqualTo(a) | ConditionalFormatCellRule::NotEqualTo(a) | ConditionalFormatCellRule::GreaterThan(a) | ConditionalFormatCellRule::GreaterThanOrEqualTo(a) | ConditionalFormatCellRule::LessThan(a) | ConditionalFormatCellRule::LessThanOrEqualTo(a) => a.value@, ConditionalFormatCellRule::Between(a, _) | ConditionalFormatCellRule::NotBetween(a, _) => a.value@ }, match r { ConditionalFormatCellRule::Between(_, b) | ConditionalFormatCellRule::NotBetween(_, b) => b.value@, _ => seq![] }) }
impl ConditionalFormatCell {
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatCell" ret=r orpat
| ensures r.rule is Some, stored_rule(r.rule->0) == given_rule(rule), r == (ConditionalFormatCell { rule: r.rule, ..self }),
//@rewrite let mut rule = match rule \{ => let mut vp_rule = match rule {
//@rewrite match &mut rule \{ => match &mut vp_rule {
//@rewrite Some\(rule\) => Some(vp_rule)
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_multi_range impl="impl ConditionalFormatCell" ret=r
| ensures r.multi_range@ == replaced(replaced(range@, seq!['$'], ""@), seq![','], " "@), r == (ConditionalFormatCell { multi_range: r.multi_range, ..self }),
//@rewrite sig:impl Into<String> => String
//@rewrite range\.into\(\) => range
//@rewrite \.replace\( => .vp_replace(
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_stop_if_true impl="impl ConditionalFormatCell" ret=r
| ensures r == (ConditionalFormatCell { stop_if_true: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatCell" ret=r
| ensures r is Ok <==> self.rule is Some,
//@rewrite \.to_string\(\) => .vp_text()
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatCell" ret=r
| ensures self.rule is Some ==> r@ == rendered(seq![Tag::Open("cfRule"@, head(kind("cellIs"@), dxf_index, priority, self.stop_if_true).push(("operator"@, cell_op(self.rule->0))))] + cell_tags(self.rule->0) + seq![Tag::Close("cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind("cellIs"@));
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("cellIs"@), dxf_index, priority, self.stop_if_true).push(("operator"@, cell_op(self.rule->0))))] + cell_tags(self.rule->0) + seq![Tag::Close("cfRule"@)]);
//@end
}
impl ConditionalFormatBlank {
//@fn src/conditional_format.rs set_multi_range impl="impl \$t" ret=r
| ensures r.multi_range@ == replaced(replaced(range@, seq!['$'], ""@), seq![','], " "@), r == (ConditionalFormatBlank { multi_range: r.multi_range, ..self }),
//@rewrite sig:\$t => ConditionalFormatBlank
//@rewrite sig:impl Into<String> => String
//@rewrite range\.into\(\) => range
//@rewrite \.replace\( => .vp_replace(
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_stop_if_true impl="impl \$t" ret=r
| ensures r == (ConditionalFormatBlank { stop_if_true: enable, ..self }),
//@rewrite sig:\$t => ConditionalFormatBlank
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs invert impl="impl ConditionalFormatBlank" ret=r
| ensures r == (ConditionalFormatBlank { is_inverted: true, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatBlank" ret=r
| ensures r is Ok,
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatBlank" ret=r
| ensures r@ == rendered(with_formula(head(kind(if self.is_inverted { "notContainsBlanks"@ } else { "containsBlanks"@ }), dxf_index, priority, self.stop_if_true), (if self.is_inverted { "LEN(TRIM("@ + anchor_of(range@) + "))>0"@ } else { "LEN(TRIM("@ + anchor_of(range@) + "))=0"@ }))),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind(if self.is_inverted { "notContainsBlanks"@ } else { "containsBlanks"@ }));
//@before /xml_start_tag/
| assert(formula@ =~= (if self.is_inverted { "LEN(TRIM("@ + anchor_of(range@) + "))>0"@ } else { "LEN(TRIM("@ + anchor_of(range@) + "))=0"@ }));
//@before /cursor_to_string/
| assert(writer.log() =~= with_formula(head(kind(if self.is_inverted { "notContainsBlanks"@ } else { "containsBlanks"@ }), dxf_index, priority, self.stop_if_true), (if self.is_inverted { "LEN(TRIM("@ + anchor_of(range@) + "))>0"@ } else { "LEN(TRIM("@ + anchor_of(range@) + "))=0"@ })));
//@end
}
impl ConditionalFormatError {
//@fn src/conditional_format.rs invert impl="impl ConditionalFormatError" ret=r
| ensures r == (ConditionalFormatError { is_inverted: true, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatError" ret=r
| ensures r is Ok,
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatError" ret=r
| ensures r@ == rendered(with_formula(head(kind(if self.is_inverted { "notContainsErrors"@ } else { "containsErrors"@ }), dxf_index, priority, self.stop_if_true), (if self.is_inverted { "NOT(ISERROR("@ + anchor_of(range@) + "))"@ } else { "ISERROR("@ + anchor_of(range@) + ")"@ }))),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind(if self.is_inverted { "notContainsErrors"@ } else { "containsErrors"@ }));
//@before /xml_start_tag/
| assert(formula@ =~= (if self.is_inverted { "NOT(ISERROR("@ + anchor_of(range@) + "))"@ } else { "ISERROR("@ + anchor_of(range@) + ")"@ }));
//@before /cursor_to_string/
| assert(writer.log() =~= with_formula(head(kind(if self.is_inverted { "notContainsErrors"@ } else { "containsErrors"@ }), dxf_index, priority, self.stop_if_true), (if self.is_inverted { "NOT(ISERROR("@ + anchor_of(range@) + "))"@ } else { "ISERROR("@ + anchor_of(range@) + ")"@ })));
//@end
}
impl ConditionalFormatDuplicate {
//@fn src/conditional_format.rs invert impl="impl ConditionalFormatDuplicate" ret=r
| ensures r == (ConditionalFormatDuplicate { is_inverted: true, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatDuplicate" ret=r
| ensures r is Ok,
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatDuplicate" ret=r
| ensures r@ == rendered(seq![Tag::Empty("cfRule"@, head(kind(if self.is_inverted { "uniqueValues"@ } else { "duplicateValues"@ }), dxf_index, priority, self.stop_if_true))]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind(if self.is_inverted { "uniqueValues"@ } else { "duplicateValues"@ }));
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Empty("cfRule"@, head(kind(if self.is_inverted { "uniqueValues"@ } else { "duplicateValues"@ }), dxf_index, priority, self.stop_if_true))]);
//@end
}
impl ConditionalFormatFormula {
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatFormula" ret=r
| ensures r is Ok <==> self.formula.formula_string@.len() > 0,
//@rewrite \.to_string\(\) => .vp_text()
//@rewrite self\.formula\.formula_string\.is_empty\(\) => vp_none(&self.formula.formula_string)
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatFormula" ret=r
| ensures r@ == rendered(with_formula(head(kind("expression"@), dxf_index, priority, self.stop_if_true), self.formula.formula_string@)),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind("expression"@));
//@before /cursor_to_string/
| assert(writer.log() =~= with_formula(head(kind("expression"@), dxf_index, priority, self.stop_if_true), self.formula.formula_string@));
//@end
}
impl ConditionalFormatAverage {
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatAverage" ret=r
| ensures r == (ConditionalFormatAverage { criteria, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatAverage" ret=r
| ensures r@ == rendered(seq![Tag::Empty("cfRule"@, average_attrs(head(kind("aboveAverage"@), dxf_index, priority, self.stop_if_true), self.criteria))]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind("aboveAverage"@));
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Empty("cfRule"@, average_attrs(head(kind("aboveAverage"@), dxf_index, priority, self.stop_if_true), self.criteria))]);
//@end
}
impl ConditionalFormatTop {
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatTop" ret=r
| ensures r == (ConditionalFormatTop { rule, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatTop" ret=r
| ensures r is Ok <==> 1 <= rank(self.rule) <= (if is_percent(self.rule) { 100int } else { 1000 }),
//@rewrite \((\d+)\.\.=(\d+)\)\.contains\(value\) => (\1 <= *value && *value <= \2)
//@rewrite (?s)ConditionalFormatError\(format!\(.*?\)\)\); => ConditionalFormatError("".vp_text()));
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatTop" ret=r
| ensures r@ == rendered(seq![Tag::Empty("cfRule"@, add(add(head(kind("top10"@), dxf_index, priority, self.stop_if_true), is_percent(self.rule), "percent"@, "1"@), is_bottom(self.rule), "bottom"@, "1"@).push(("rank"@, dec(rank(self.rule) as nat))))]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind("top10"@));
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Empty("cfRule"@, add(add(head(kind("top10"@), dxf_index, priority, self.stop_if_true), is_percent(self.rule), "percent"@, "1"@), is_bottom(self.rule), "bottom"@, "1"@).push(("rank"@, dec(rank(self.rule) as nat))))]);
//@end
}
impl ConditionalFormatText {
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatText" ret=r
| ensures r == (ConditionalFormatText { rule: Some(rule), ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatText" ret=r
| ensures r is Ok <==> self.rule is Some,
//@rewrite \.to_string\(\) => .vp_text()
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatText" ret=r
| ensures self.rule is Some ==> r@ == rendered(with_formula(head(kind(text_type(self.rule->0)), dxf_index, priority, self.stop_if_true).push(("operator"@, text_op(self.rule->0))).push(("text"@, text_of(self.rule->0))), text_formula(self.rule->0, anchor_of(range@)))),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@rewrite \.replace\( => .vp_replace(
//@rewrite text\.encode_utf16\(\)\.count\(\) => vp_utf16(text)
//@rewrite text\.clone\(\) => vp_copy(text)
//@before /vp_dxf/
| assert(av(attributes@) =~= kind(text_type(*rule))); assert(formula@ =~= text_formula(*rule, anchor_of(range@)));
//@before /cursor_to_string/
| assert(writer.log() =~= with_formula(head(kind(text_type(self.rule->0)), dxf_index, priority, self.stop_if_true).push(("operator"@, text_op(self.rule->0))).push(("text"@, text_of(self.rule->0))), text_formula(*rule, anchor_of(range@))));
//@end
}
impl ConditionalFormatDate {
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatDate" ret=r
| ensures r == (ConditionalFormatDate { rule: criteria, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatDate" ret=r
| ensures r@ == rendered(with_formula(head(kind("timePeriod"@), dxf_index, priority, self.stop_if_true).push(("timePeriod"@, period(self.rule))), date_formula(self.rule, anchor_of(range@)))),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_dxf/
| assert(av(attributes@) =~= kind("timePeriod"@)); assert(formula@ =~= date_formula(self.rule, anchor_of(range@)));
//@before /cursor_to_string/
| assert(writer.log() =~= with_formula(head(kind("timePeriod"@), dxf_index, priority, self.stop_if_true).push(("timePeriod"@, period(self.rule))), date_formula(self.rule, anchor_of(range@))));
//@end
}
impl ConditionalFormat2ColorScale {
//@fn src/conditional_format.rs set_minimum impl="impl ConditionalFormat2ColorScale" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormat2ColorScale { min_type: rule_type, min_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_maximum impl="impl ConditionalFormat2ColorScale" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormat2ColorScale { max_type: rule_type, max_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs write_type impl="impl ConditionalFormat2ColorScale"
| ensures !(rule_type is Automatic) ==> final(writer).log() =~= old(writer).log() + seq![Tag::Empty("cfvo"@, seq![("type"@, type_text(rule_type)), ("val"@, value@)])],
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /xml_empty_tag/
| assert(!(rule_type is Automatic) ==> av(attributes@) =~= seq![("type"@, type_text(rule_type)), ("val"@, value@)]);
//@end
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormat2ColorScale"
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty("color"@, color_attrs(color))],
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormat2ColorScale" ret=r
| ensures !(self.min_type is Automatic) && !(self.max_type is Automatic) ==> r@ == rendered(seq![Tag::Open("cfRule"@, head(kind("colorScale"@), None, priority, self.stop_if_true)), Tag::Open("colorScale"@, seq![]), scale_cfvo(self.min_type, self.min_value), scale_cfvo(self.max_type, self.max_value), Tag::Empty("color"@, color_attrs(self.min_color)), Tag::Empty("color"@, color_attrs(self.max_color)), Tag::Close("colorScale"@), Tag::Close("cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_put/
| assert(av(attributes@) =~= kind("colorScale"@).push(("priority"@, dec(priority as nat))));
//@before /cursor_to_string/
| assert(!(self.min_type is Automatic) && !(self.max_type is Automatic) ==> writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("colorScale"@), None, priority, self.stop_if_true)), Tag::Open("colorScale"@, seq![]), scale_cfvo(self.min_type, self.min_value), scale_cfvo(self.max_type, self.max_value), Tag::Empty("color"@, color_attrs(self.min_color)), Tag::Empty("color"@, color_attrs(self.max_color)), Tag::Close("colorScale"@), Tag::Close("cfRule"@)]);
//@end
}
impl ConditionalFormat3ColorScale {
//@fn src/conditional_format.rs set_minimum impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormat3ColorScale { min_type: rule_type, min_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_midpoint impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormat3ColorScale { mid_type: rule_type, mid_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_maximum impl="impl ConditionalFormat3ColorScale" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormat3ColorScale { max_type: rule_type, max_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs write_type impl="impl ConditionalFormat3ColorScale"
| ensures !(rule_type is Automatic) ==> final(writer).log() =~= old(writer).log() + seq![Tag::Empty("cfvo"@, seq![("type"@, type_text(rule_type)), ("val"@, value@)])],
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /xml_empty_tag/
| assert(!(rule_type is Automatic) ==> av(attributes@) =~= seq![("type"@, type_text(rule_type)), ("val"@, value@)]);
//@end
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormat3ColorScale"
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty("color"@, color_attrs(color))],
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormat3ColorScale" ret=r
| ensures !(self.min_type is Automatic) && !(self.mid_type is Automatic) && !(self.max_type is Automatic) ==> r@ == rendered(seq![Tag::Open("cfRule"@, head(kind("colorScale"@), None, priority, self.stop_if_true)), Tag::Open("colorScale"@, seq![]), scale_cfvo(self.min_type, self.min_value), scale_cfvo(self.mid_type, self.mid_value), scale_cfvo(self.max_type, self.max_value), Tag::Empty("color"@, color_attrs(self.min_color)), Tag::Empty("color"@, color_attrs(self.mid_color)), Tag::Empty("color"@, color_attrs(self.max_color)), Tag::Close("colorScale"@), Tag::Close("cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_put/
| assert(av(attributes@) =~= kind("colorScale"@).push(("priority"@, dec(priority as nat))));
//@before /cursor_to_string/
| assert(!(self.min_type is Automatic) && !(self.mid_type is Automatic) && !(self.max_type is Automatic) ==> writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("colorScale"@), None, priority, self.stop_if_true)), Tag::Open("colorScale"@, seq![]), scale_cfvo(self.min_type, self.min_value), scale_cfvo(self.mid_type, self.mid_value), scale_cfvo(self.max_type, self.max_value), Tag::Empty("color"@, color_attrs(self.min_color)), Tag::Empty("color"@, color_attrs(self.mid_color)), Tag::Empty("color"@, color_attrs(self.max_color)), Tag::Close("colorScale"@), Tag::Close("cfRule"@)]);
//@end
}
impl ConditionalFormatDataBar {
#[verifier::external_body] pub fn clone(&self) -> (r: ConditionalFormatDataBar) ensures r == *self { unimplemented!() }
//@fn src/conditional_format.rs set_minimum impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || rule_type is Highest { self } else { ConditionalFormatDataBar { min_type: rule_type, min_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_maximum impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || rule_type is Lowest { self } else { ConditionalFormatDataBar { max_type: rule_type, max_value: value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_solid_fill impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { solid_bar: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_border_off impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { border_off: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_bar_only impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { bar_only: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_direction impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { direction: direction, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_axis_position impl="impl ConditionalFormatDataBar" ret=r
| ensures r == (ConditionalFormatDataBar { axis_position: position, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs write_type impl="impl ConditionalFormatDataBar"
| ensures final(writer).log() =~= old(writer).log() + seq![bar_cfvo(rule_type, value@, has_x14_extensions, is_max)],
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /xml_empty_tag/
| assert(Tag::Empty("cfvo"@, av(attributes@)) == bar_cfvo(rule_type, value@, has_x14_extensions, is_max)) by { if edge(rule_type) && (rule_type is Automatic || has_x14_extensions) { assert(av(attributes@) =~= seq![("type"@, if rule_type is Automatic { if is_max { "max"@ } else { "min"@ } } else { type_text(rule_type) })]); } else { assert(av(attributes@) =~= seq![("type"@, type_text(rule_type)), ("val"@, value@)]); assert(add(seq![("type"@, type_text(rule_type))], true, "val"@, value@) =~= seq![("type"@, type_text(rule_type)), ("val"@, value@)]); } };
//@end
//@fn src/conditional_format.rs write_color impl="impl ConditionalFormatDataBar"
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Empty(color_tag@, color_attrs(color))],
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@end
/// the extracted statement `if c { Self::write_color(..); }`
fn vp_color(writer: &mut Writer, b: bool, t: &str, c: Color) ensures final(writer).log() =~= old(writer).log() + color_tag(b, t@, c) { if b { Self::write_color(writer, t, c); } }
//@fn src/conditional_format.rs has_negative_border_color impl="impl ConditionalFormatDataBar" ret=r
| ensures r == own_negative_border(*self),
//@end
//@fn src/conditional_format.rs write_extension_list impl="impl ConditionalFormatDataBar"
| ensures final(writer).log() =~= old(writer).log() + ext_list(guid@),
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@rewrite (?s)\(\s*("xmlns:x14"),\s*("[^"]*"),\s*\) => (\1, \2.vp_text())
//@rewrite \("uri", ("[^"]*")\) => ("uri", \1.vp_text())
//@end
//@fn src/conditional_format.rs write_data_bar impl="impl ConditionalFormatDataBar"
| ensures final(writer).log() =~= old(writer).log() + seq![Tag::Open("x14:dataBar"@, bar_attrs(data_bar))],
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite if (!?data_bar\.\w+(?:\(\))?|data_bar\.\w+ == data_bar\.\w+) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_put\(&mut attributes, !data_bar\.border_off/
| assert(av(attributes@) =~= seq![("minLength"@, "0"@), ("maxLength"@, "100"@)]);
//@end
//@fn src/conditional_format.rs write_x14_type impl="impl ConditionalFormatDataBar"
| ensures final(writer).log() =~= old(writer).log() + bar_x14(rule_type, value@, is_max),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@end
//@fn src/conditional_format.rs rule impl="impl ConditionalFormatDataBar" ret=r
| ensures r@ == rendered(seq![Tag::Open("cfRule"@, head(kind("dataBar"@), None, priority, self.stop_if_true)), Tag::Open("dataBar"@, add(Seq::empty(), self.bar_only, "showValue"@, "0"@)), bar_cfvo(self.min_type, self.min_value.value@, self.has_x14_extensions, false), bar_cfvo(self.max_type, self.max_value.value@, self.has_x14_extensions, true), Tag::Empty("color"@, color_attrs(self.fill_color)), Tag::Close("dataBar"@)] + (if self.has_x14_extensions { ext_list(guid@) } else { seq![] }) + seq![Tag::Close("cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_put\(&mut attributes, self\.stop/
| assert(av(attributes@) =~= kind("dataBar"@).push(("priority"@, dec(priority as nat))));
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("dataBar"@), None, priority, self.stop_if_true)), Tag::Open("dataBar"@, add(Seq::empty(), self.bar_only, "showValue"@, "0"@)), bar_cfvo(self.min_type, self.min_value.value@, self.has_x14_extensions, false), bar_cfvo(self.max_type, self.max_value.value@, self.has_x14_extensions, true), Tag::Empty("color"@, color_attrs(self.fill_color)), Tag::Close("dataBar"@)] + (if self.has_x14_extensions { ext_list(guid@) } else { seq![] }) + seq![Tag::Close("cfRule"@)]);
//@end
//@fn src/conditional_format.rs x14_rule impl="impl ConditionalFormatDataBar" ret=r
| ensures r@ == rendered(bar_x14_tags(*self, guid@)),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?s)if ([^{;]*?) \{\s*Self::write_color\(\s*&mut writer,\s*("[^"]*"),\s*(self\.\w+),?\s*\);\s*\} => Self::vp_color(&mut writer, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /cursor_to_string/
| assert(writer.log() =~= bar_x14_tags(*self, guid@));
//@end
}
impl ConditionalFormatCustomIcon {
//@fn src/conditional_format.rs new impl="impl ConditionalFormatCustomIcon" ret=r
| ensures r.icon_type is None, !r.no_icon, !r.is_custom, !r.greater_than, r.rule_type is Percent, icon_ok(r),
//@rewrite ConditionalFormatValue::new_from_string\("0"\) => vp_num(0)
//@end
//@fn src/conditional_format.rs set_rule impl="impl ConditionalFormatCustomIcon" ret=r
| ensures r == (if value.is_string || ((rule_type is Percent || rule_type is Percentile) && bad_percent(value.value@)) || edge(rule_type) { self } else { ConditionalFormatCustomIcon { rule_type, value, ..self } }),
//@rewrite sig:impl Into<ConditionalFormatValue> => ConditionalFormatValue
//@rewrite let value = value\.into\(\); =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@rewrite (?s)if let Ok\(num\) = value\.value\.parse::<f64>\(\) \{\s*if !\(0\.0\.\.=100\.0\)\.contains\(&num\) \{\s*eprintln![^;]*;\s*return vp_s;\s*\}\s*\} => if vp_bad_percent(&value.value) { return vp_s; }
//@end
//@fn src/conditional_format.rs set_icon_type impl="impl ConditionalFormatCustomIcon" ret=r
| ensures r == (if index < icon_count(icon_type) { ConditionalFormatCustomIcon { icon_type: Some(icon_type), icon_index: index, is_custom: true, ..self } } else { self }), icon_ok(self) ==> icon_ok(r),
//@rewrite eprintln!\([^;]*; =>
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_no_icon impl="impl ConditionalFormatCustomIcon" ret=r
| ensures r == (ConditionalFormatCustomIcon { no_icon: enable, is_custom: true, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_greater_than impl="impl ConditionalFormatCustomIcon" ret=r
| ensures r == (ConditionalFormatCustomIcon { greater_than: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
}
impl ConditionalFormatIconSet {
//@fn src/conditional_format.rs set_icon_type impl="impl ConditionalFormatIconSet" ret=r
| ensures r == (ConditionalFormatIconSet { icon_type, icons: r.icons, has_x14_extensions: self.has_x14_extensions || new_set(icon_type), has_x14_only: self.has_x14_only || new_set(icon_type), ..self }), r.icons@.len() == icon_count(icon_type), forall|k: int| 0 <= k < r.icons@.len() ==> (#[trigger] r.icons@[k]).rule_type is Percent && r.icons@[k].value.value@ == dec(default_percent(icon_count(icon_type), k)) && !r.icons@[k].greater_than && !r.icons@[k].is_custom && !r.icons@[k].no_icon,
//@rewrite set_rule\(ConditionalFormatType::Percent, (\d+)\) => set_rule(ConditionalFormatType::Percent, vp_num(\1))
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@at body-start
| proof { percents(0); percents(33); percents(67); percents(25); percents(50); percents(75); percents(20); percents(40); percents(60); percents(80); }
//@end
//@fn src/conditional_format.rs reverse_icons impl="impl ConditionalFormatIconSet" ret=r
| ensures r == (ConditionalFormatIconSet { is_reversed: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs show_icons_only impl="impl ConditionalFormatIconSet" ret=r
| ensures r == (ConditionalFormatIconSet { icon_only: enable, ..self }),
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@end
//@fn src/conditional_format.rs set_icons impl="impl ConditionalFormatIconSet" ret=r
| ensures r == (ConditionalFormatIconSet { icons: r.icons, has_custom_icons: self.has_custom_icons || (exists|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom), has_x14_extensions: self.has_x14_extensions || (exists|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom), has_x14_only: self.has_x14_only || (exists|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom), ..self }), r.icons@.len() == icons@.len(), forall|k: int| 1 <= k < icons@.len() ==> #[trigger] r.icons@[k] == icons@[k], icons@.len() > 0 ==> r.icons@[0] == (ConditionalFormatCustomIcon { value: r.icons@[0].value, rule_type: ConditionalFormatType::Percent, greater_than: false, ..icons@[0] }) && r.icons@[0].value.value@ == dec(0),
//@rewrite let mut icons = icons\.to_vec\(\); => let mut vp_i = vp_icons(icons);
//@rewrite (?s)if let Some\(icon\) = icons\.get_mut\(0\) \{(.*?)\} => if vp_i.len() > 0 { let mut icon = vp_take0(&mut vp_i);\1vp_i.set(0, icon); }
//@rewrite 0\.into\(\) => vp_num(0)
//@rewrite icons\.iter\(\)\.any\(\|icon\| icon\.is_custom\) => vp_any_custom(&vp_i)
//@rewrite \.icons = icons; => .icons = vp_i;
//@rewrite sig:mut self => self
//@at body-start
| let mut vp_s = self;
//@rewrite \bself\b => vp_s
//@before /if vp_any_custom/
| assert((exists|k: int| 0 <= k < vp_i@.len() && (#[trigger] vp_i@[k]).is_custom) == (exists|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom)) by { assert(vp_i@.len() == icons@.len()); assert forall|k: int| 0 <= k < vp_i@.len() implies (#[trigger] vp_i@[k]).is_custom == icons@[k].is_custom by { } if (exists|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom) { let k = choose|k: int| 0 <= k < icons@.len() && (#[trigger] icons@[k]).is_custom; assert(vp_i@[k].is_custom); } };
//@end
//@fn src/conditional_format.rs validate impl="impl ConditionalFormatIconSet" ret=r
| ensures r is Ok <==> self.icons@.len() == icon_count(self.icon_type),
//@rewrite \.to_string\(\) => .vp_text()
//@end
//@fn src/conditional_format.rs write_type impl="impl ConditionalFormatIconSet"
| ensures final(writer).log() =~= old(writer).log() + icon_cfvo(*icon),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)icon\.value\.value\.clone\(\) => vp_copy(&icon.value.value)
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /if icon\.greater_than/
| assert(av(attributes@) =~= seq![("type"@, icon_rule(icon.rule_type)), ("val"@, icon.value.value@)]);
//@end
//@fn src/conditional_format.rs write_x14_type impl="impl ConditionalFormatIconSet"
| ensures final(writer).log() =~= old(writer).log() + icon_x14(*icon),
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)icon\.value\.value\.clone\(\) => vp_copy(&icon.value.value)
//@rewrite sig:Cursor<Vec<u8>> => Writer
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /if icon\.greater_than/
| assert(av(attributes@) =~= seq![("type"@, icon_rule(icon.rule_type))]);
//@end
/// the extracted loop `for icon in &self.icons { Self::write_type(..); }` runs over the icons by index

//@fn src/conditional_format.rs rule impl="impl ConditionalFormatIconSet" ret=r
| ensures r@ == rendered(seq![Tag::Open("cfRule"@, head(kind("iconSet"@), None, priority, self.stop_if_true)), Tag::Open("iconSet"@, set_attrs(*self))] + cfvos(self.icons@, self.icons@.len() as int) + seq![Tag::Close("iconSet"@), Tag::Close("cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite (?#opt)if let Some\(dxf_index\) = dxf_index \{\s*attributes\.push\(\(("\w+"), dxf_index\.vp_text\(\)\)\);\s*\} => vp_dxf(&mut attributes, dxf_index, \1);
//@rewrite (?#opt)if ([^{};=]*?) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\}(?!\s*else) => vp_put(&mut attributes, \1, \2, \3);
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@rewrite if (self\.\w+ != ConditionalFormatIconType::ThreeTrafficLights) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@rewrite for icon in &self\.icons \{ => let vp_n = self.icons.len(); for vp_k in 0..vp_n { let icon = &self.icons[vp_k];
//@before /vp_put\(&mut attributes, self\.stop/
| assert(av(attributes@) =~= kind("iconSet"@).push(("priority"@, dec(priority as nat))));
//@before /let vp_n/
| proof { steps(*self, 0); assert(writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("iconSet"@), None, priority, self.stop_if_true)), Tag::Open("iconSet"@, set_attrs(*self))]); }
//@loop 1
| invariant vp_n == self.icons@.len(), writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("iconSet"@), None, priority, self.stop_if_true)), Tag::Open("iconSet"@, set_attrs(*self))] + cfvos(self.icons@, vp_k as int),
//@at loop 1 start
| proof { steps(*self, vp_k as int); }
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Open("cfRule"@, head(kind("iconSet"@), None, priority, self.stop_if_true)), Tag::Open("iconSet"@, set_attrs(*self))] + cfvos(self.icons@, self.icons@.len() as int) + seq![Tag::Close("iconSet"@), Tag::Close("cfRule"@)]);
//@end
//@fn src/conditional_format.rs x14_rule impl="impl ConditionalFormatIconSet" ret=r
| ensures r@ == rendered(seq![Tag::Open("x14:cfRule"@, add(seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))], self.stop_if_true, "stopIfTrue"@, "1"@).push(("id"@, guid@))), Tag::Open("x14:iconSet"@, add(set_attrs(*self), self.has_custom_icons, "custom"@, "1"@))] + x14s(self.icons@, self.icons@.len() as int) + (if self.has_custom_icons { icon_tags(*self, self.icons@.len() as int) } else { seq![] }) + seq![Tag::Close("x14:iconSet"@), Tag::Close("x14:cfRule"@)]),
//@rewrite (?#opt)Cursor::new\(Vec::with_capacity\(2048\)\) => vp_writer()
//@rewrite (?#opt)\.to_string\(\) => .vp_text()
//@rewrite if (self\.stop_if_true|self\.icon_only|self\.is_reversed) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@rewrite if (self\.has_custom_icons) \{\s*attributes\.push\(\(("custom"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@rewrite if (self\.\w+ != ConditionalFormatIconType::ThreeTrafficLights) \{\s*attributes\.push\(\(("\w+"), ([^;]*)\)\);\s*\} => vp_put(&mut attributes, \1, \2, \3);
//@rewrite for \(index, icon\) in self\.icons\.iter\(\)\.enumerate\(\) \{ => let vp_m = self.icons.len(); for index in 0..vp_m { let icon = &self.icons[index];
//@rewrite for icon in &self\.icons \{ => let vp_n = self.icons.len(); for vp_k in 0..vp_n { let icon = &self.icons[vp_k];
//@at body-start
| broadcast use av_push, av_none, av_one, av_two; proof { reveal(head); reveal(bar_attrs); }
//@before /vp_put\(&mut attributes, self\.stop/
| assert(av(attributes@) =~= seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))]);
//@before /let vp_n/
| proof { steps(*self, 0); assert(writer.log() =~= seq![Tag::Open("x14:cfRule"@, add(seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))], self.stop_if_true, "stopIfTrue"@, "1"@).push(("id"@, guid@))), Tag::Open("x14:iconSet"@, add(set_attrs(*self), self.has_custom_icons, "custom"@, "1"@))]); }
//@loop 1
| invariant vp_n == self.icons@.len(), writer.log() =~= seq![Tag::Open("x14:cfRule"@, add(seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))], self.stop_if_true, "stopIfTrue"@, "1"@).push(("id"@, guid@))), Tag::Open("x14:iconSet"@, add(set_attrs(*self), self.has_custom_icons, "custom"@, "1"@))] + x14s(self.icons@, vp_k as int),
//@at loop 1 start
| proof { steps(*self, vp_k as int); }
//@loop 2
| invariant vp_m == self.icons@.len(), writer.log() =~= seq![Tag::Open("x14:cfRule"@, add(seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))], self.stop_if_true, "stopIfTrue"@, "1"@).push(("id"@, guid@))), Tag::Open("x14:iconSet"@, add(set_attrs(*self), self.has_custom_icons, "custom"@, "1"@))] + x14s(self.icons@, self.icons@.len() as int) + icon_tags(*self, index as int),
//@at loop 2 start
| broadcast use av_push, av_none; proof { steps(*self, index as int); }
//@before /xml_empty_tag\(&mut writer, "x14:cfIcon"/
| assert(seq![Tag::Empty("x14:cfIcon"@, av(attributes@))] =~= icon_tag(*self, index as int)) by { assert(av(attributes@) =~= seq![av(attributes@)[0], av(attributes@)[1]]); };
//@before /cursor_to_string/
| assert(writer.log() =~= seq![Tag::Open("x14:cfRule"@, add(seq![("type"@, "iconSet"@), ("priority"@, dec(priority as nat))], self.stop_if_true, "stopIfTrue"@, "1"@).push(("id"@, guid@))), Tag::Open("x14:iconSet"@, add(set_attrs(*self), self.has_custom_icons, "custom"@, "1"@))] + x14s(self.icons@, self.icons@.len() as int) + (if self.has_custom_icons { icon_tags(*self, self.icons@.len() as int) } else { seq![] }) + seq![Tag::Close("x14:iconSet"@), Tag::Close("x14:cfRule"@)]);
//@end
}
#[verifier::external_body] pub fn vp_take0(v: &mut Vec<ConditionalFormatCustomIcon>) -> (r: ConditionalFormatCustomIcon) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@ { unimplemented!() }
} // verus!
fn main() {}
