@@verus
#![allow(non_snake_case)]
#![allow(unused)]
#![allow(dead_code)]
use vstd::prelude::*;
verus! {
@@include shim_basic.rs
@@verus
pub type OrderId = u64;
pub type BookPrice = i64;
pub type BookYield = i64;
pub type BookQuantity = u64;
pub type OrderCount = u32;
pub type UnixNano = u64;
@@const trading-engine/src/types/timestamp.rs MICRO_NANOSCALE
@@const trading-engine/src/types/timestamp.rs MILLI_NANOSCALE
@@const trading-engine/src/types/timestamp.rs SECOND_NANOSCALE
@@const trading-engine/src/types/timestamp.rs MINUTE_NANOSCALE
@@const trading-engine/src/types/timestamp.rs HOUR_NANOSCALE
@@const trading-engine/src/types/timestamp.rs DAY_NANOSCALE
@@const trading-engine/src/types/timestamp.rs FIFTEEN_HOURS_NANOSCALE
@@# the parser field is a function pointer in the code; Verus has none, so the three functions it can hold become an enum
@@subst "fn ( & [ u8 ] , usize , usize ) -> u64" "Parser"
@@subst "( self . parser ) (" "self . parser . call ("
@@struct trading-engine/src/utils/numeric_converter.rs NumReprCfg attr="#[derive(Clone, Copy)]"
@@struct trading-engine/src/utils/numeric_converter.rs IntegerConverter
@@struct trading-engine/src/utils/numeric_converter.rs OrderCounter
@@struct trading-engine/src/utils/numeric_converter.rs OrderConverter
@@struct trading-engine/src/utils/numeric_converter.rs TimeStampConverter
@@struct trading-engine/src/utils/numeric_converter.rs YieldConverter
@@struct trading-engine/src/utils/numeric_converter.rs CumQntConverter
@@struct trading-engine/src/types/timestamp.rs DateUnixNanoGenerator
@@struct trading-engine/src/types/timestamp.rs TimeStamp attr="#[derive(Clone, Copy)]"
@@verus
// ---------------- specification: decimal text ----------------
pub open spec fn dec(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() - 48) } }
pub open spec fn digits_ok(s: Seq<u8>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> 48 <= s[i] <= 57 }
// `p` counts the bytes from the decimal point to the end (0: there is no point)
pub open spec fn text_ok(s: Seq<u8>, p: int) -> bool {
  if p == 0 { digits_ok(s) } else { 1 <= p <= s.len() && s[s.len() - p] == 46 && digits_ok(s.take(s.len() - p)) && digits_ok(s.skip(s.len() - p + 1)) }
}
pub open spec fn text_val(s: Seq<u8>, p: int) -> int { if p == 0 { dec(s) } else { dec(s.take(s.len() - p) + s.skip(s.len() - p + 1)) } }
pub open spec fn pow10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * pow10(n - 1) } }
pub proof fn lemma_dec_bound(s: Seq<u8>) requires digits_ok(s) ensures 0 <= dec(s) < pow10(s.len() as int) decreases s.len() {
  if s.len() > 0 { lemma_dec_bound(s.drop_last()); }
}
pub proof fn lemma_pow10(n: int) requires 0 <= n <= 18 ensures 1 <= pow10(n) <= 1_000_000_000_000_000_000 {
  reveal_with_fuel(pow10, 20);
}
pub broadcast proof fn lemma_text_bound(s: Seq<u8>, p: int) requires text_ok(s, p), s.len() <= 18, p >= 0 ensures #![trigger text_val(s, p)] 0 <= text_val(s, p) < 1_000_000_000_000_000_000 {
  let t = if p == 0 { s } else { s.take(s.len() - p) + s.skip(s.len() - p + 1) };
  assert(digits_ok(t));
  lemma_dec_bound(t);
  lemma_pow10(t.len() as int);
}
// ---- contracts of the digit parsers; discharged by the Kani harnesses of native/kn (numeric.rs) on every run of C07
#[verifier::external_body]
pub fn parse_under8_with_floating_point(u: &[u8], length: usize, point_length: usize) -> (r: u64)
  requires 1 <= length <= 8, point_length <= length <= u.len(),
  ensures text_ok(u@.take(length as int), point_length as int) ==> r == text_val(u@.take(length as int), point_length as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_under16_with_floating_point(u: &[u8], length: usize, point_length: usize) -> (r: u64)
  requires 1 <= length <= 16, point_length <= length <= u.len(),
  ensures text_ok(u@.take(length as int), point_length as int) ==> r == text_val(u@.take(length as int), point_length as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length: usize) -> (r: u64)
  requires 17 <= length <= 18, point_length <= length <= u.len(), text_ok(u@.take(length as int), point_length as int),
  ensures r == text_val(u@.take(length as int), point_length as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_under8(u: &[u8], length: usize) -> (r: u64)
  requires 1 <= length <= 8, length <= u.len(),
  ensures digits_ok(u@.take(length as int)) ==> r == dec(u@.take(length as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_under16(u: &[u8], length: usize) -> (r: u128)
  requires 1 <= length <= 16, length <= u.len(),
  ensures digits_ok(u@.take(length as int)) ==> r == dec(u@.take(length as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_under32(u: &[u8], length: usize) -> (r: u128)
  requires 17 <= length <= 18, length <= u.len(), digits_ok(u@.take(length as int)),
  ensures r == dec(u@.take(length as int))
{ unimplemented!() }
// clock differences of two digits each
pub open spec fn two(s: Seq<u8>, i: int) -> int { (s[i] - 48) * 10 + (s[i + 1] - 48) }
#[verifier::external_body]
pub fn parse_hhmmss_to_nanos(u: &[u8]) -> (r: u64)
  requires u.len() >= 6, digits_ok(u@.take(6)),
  ensures r == (two(u@, 0) * 3600 + two(u@, 2) * 60 + two(u@, 4)) * 1_000_000_000
{ unimplemented!() }
#[verifier::external_body]
pub fn get_unix_nano() -> (r: u64) { unimplemented!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Parser { Under8, Under16, Under32 }
impl Parser {
  pub fn call(&self, u: &[u8], length: usize, point: usize) -> (r: u64)
    requires parser_ok(*self, length as int), point <= length <= u.len(), text_ok(u@.take(length as int), point as int),
    ensures r == text_val(u@.take(length as int), point as int)
  { match self { Parser::Under8 => parse_under8_with_floating_point(u, length, point), Parser::Under16 => parse_under16_with_floating_point(u, length, point), Parser::Under32 => parse_under32_with_floating_point(u, length, point) } }
}
pub open spec fn parser_ok(p: Parser, n: int) -> bool { match p { Parser::Under8 => 1 <= n <= 8, Parser::Under16 => 1 <= n <= 16, Parser::Under32 => 17 <= n <= 18 } }

// ---------------- specification: field layouts ----------------
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn cfg_valid(c: NumReprCfg) -> bool { c.digit_length + c.decimal_point_length + c.unused_length + b2i(c.is_signed) == c.total_length }
// bytes that carry the number, and where they start
pub open spec fn cfg_len(c: NumReprCfg) -> int { if c.drop_decimal_point { c.digit_length as int } else { c.digit_length + c.decimal_point_length } }
pub open spec fn cfg_point(c: NumReprCfg) -> int { if c.drop_decimal_point { 0 } else { c.decimal_point_length as int } }
pub open spec fn cfg_start(c: NumReprCfg) -> int { c.unused_length + b2i(c.is_signed) }
pub open spec fn conv_wf(c: IntegerConverter) -> bool {
  cfg_valid(c.numcfg) && c.is_signed == c.numcfg.is_signed && c.parsing_length == cfg_len(c.numcfg) && c.decimal_point_length == cfg_point(c.numcfg)
  && c.start_index == cfg_start(c.numcfg) && c.end_index == c.start_index + c.parsing_length && c.parsing_length <= 18 && (c.parsing_length >= 1 ==> parser_ok(c.parser, c.parsing_length as int))
}
pub open spec fn field(c: NumReprCfg, s: Seq<u8>) -> Seq<u8> { s.subrange(cfg_start(c), cfg_start(c) + cfg_len(c)) }
pub open spec fn field_ok(c: NumReprCfg, s: Seq<u8>) -> bool { s.len() >= c.total_length && text_ok(field(c, s), cfg_point(c)) }
pub open spec fn field_val(c: NumReprCfg, s: Seq<u8>) -> int { text_val(field(c, s), cfg_point(c)) }
// a signed field is positive when its first byte is the digit zero
pub open spec fn field_signed(c: NumReprCfg, s: Seq<u8>) -> int { if c.is_signed && s[0] != 48 { -field_val(c, s) } else { field_val(c, s) } }
// a layout the *_unchecked readers understand: no decimal point (sign and unused bytes are skipped)
pub open spec fn plain(c: NumReprCfg, n: int) -> bool { cfg_point(c) == 0 && 1 <= cfg_len(c) <= n }
pub open spec fn layout(c: NumReprCfg, digits: int, point: int, signed: bool, unused: int, total: int) -> bool {
  c.digit_length == digits && c.decimal_point_length == point && c.is_signed == signed && c.unused_length == unused && c.total_length == total && !c.drop_decimal_point
}
pub open spec fn order_layout(o: OrderConverter, digits: int, point: int, signed: bool, unused: int, total: int, qty: int) -> bool {
  conv_wf(o.price) && conv_wf(o.quantity) && layout(o.price.numcfg, digits, point, signed, unused, total) && layout(o.quantity.numcfg, qty, 0, false, 0, qty)
}
// two's complement negation of a non-negative number
pub broadcast proof fn lemma_negate(v: u64) requires v < 1_000_000_000_000_000_000
  ensures #![trigger !v] !v == 0xffff_ffff_ffff_ffff - v, v > 0 ==> ((0x1_0000_0000_0000_0000 - v) as u64) as i64 == -v {
  assert(!v == sub(0xffff_ffff_ffff_ffffu64, v)) by (bit_vector);
  assert(v < 1_000_000_000_000_000_000u64 && v > 0 ==> (add(sub(0xffff_ffff_ffff_ffffu64, v), 1u64)) as i64 == sub(0i64, v as i64)) by (bit_vector);
}
pub broadcast proof fn lemma_sub_take(s: Seq<u8>, a: int, b: int, n: int) requires 0 <= a, a + n <= b <= s.len(), 0 <= n ensures #[trigger] s.subrange(a, b).take(n) == s.subrange(a, a + n) { assert(s.subrange(a, b).take(n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn lemma_sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int) requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_take_text(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.take(n) == s.subrange(0, n) { }
pub broadcast proof fn lemma_dec_bound18(s: Seq<u8>) requires digits_ok(s), s.len() <= 18 ensures #![trigger dec(s)] 0 <= dec(s) < 1_000_000_000_000_000_000 { lemma_dec_bound(s); lemma_pow10(s.len() as int); }
pub broadcast proof fn lemma_dec_bound9(s: Seq<u8>) requires digits_ok(s), s.len() <= 9 ensures #![trigger dec(s)] 0 <= dec(s) < 1_000_000_000 { lemma_dec_bound(s); assert(pow10(s.len() as int) <= 1_000_000_000) by { reveal_with_fuel(pow10, 11); } }
pub broadcast group group_num { lemma_text_bound, lemma_negate, lemma_sub_take, lemma_sub_sub, lemma_dec_bound18, lemma_dec_bound9 }
@@fn trading-engine/src/utils/numeric_converter.rs NumReprCfg::check_validity props=C07
requires self.digit_length + self.decimal_point_length + self.unused_length < usize::MAX,
ensures ret is Ok <==> cfg_valid(*self),
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::get_config props=C07
ensures *ret == self.numcfg,
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::new props=C07
requires numcfg.digit_length + numcfg.decimal_point_length + numcfg.unused_length < usize::MAX,
ensures
  ret is Ok <==> cfg_valid(numcfg) && cfg_len(numcfg) <= 18, //#C07
  ret is Ok ==> conv_wf(ret->Ok_0) && ret->Ok_0.numcfg == numcfg, //#C07
@@@subst
parse_under8_with_floating_point ==> Parser :: Under8
parse_under16_with_floating_point ==> Parser :: Under16
parse_under32_with_floating_point ==> Parser :: Under32
! cfg ! ( target_endian = "little" ) ==> false
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_u64 props=C07
requires conv_wf(*self), self.parsing_length >= 1, field_ok(self.numcfg, value@),
ensures ret == field_val(self.numcfg, value@), ret < 1_000_000_000_000_000_000,
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_i64 props=C07
requires conv_wf(*self), self.parsing_length >= 1, field_ok(self.numcfg, value@),
ensures ret == field_signed(self.numcfg, value@), -1_000_000_000_000_000_000 < ret < 1_000_000_000_000_000_000,
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_u64_unchecked props=C07
requires conv_wf(*self), plain(self.numcfg, 16), value.len() >= self.end_index,
ensures digits_ok(field(self.numcfg, value@)) ==> ret == dec(field(self.numcfg, value@)),
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_nonnegative_i64_unchecked props=C07
requires conv_wf(*self), plain(self.numcfg, 16), value.len() >= self.end_index,
ensures digits_ok(field(self.numcfg, value@)) ==> ret == dec(field(self.numcfg, value@)),
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_long_u64_unchecked props=C07
requires conv_wf(*self), cfg_point(self.numcfg) == 0, 17 <= self.parsing_length, value.len() >= self.end_index, digits_ok(field(self.numcfg, value@)),
ensures ret == dec(field(self.numcfg, value@)),
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs IntegerConverter::to_u32_unchecked props=C07
requires conv_wf(*self), plain(self.numcfg, 8), value.len() >= self.end_index,
ensures digits_ok(field(self.numcfg, value@)) ==> ret == dec(field(self.numcfg, value@)),
@@@begin
broadcast use group_num;
@@fn trading-engine/src/utils/numeric_converter.rs OrderCounter::to_order_count props=C07
requires conv_wf(self.order_count), val.len() <= 10, self.order_count.parsing_length >= 1, field_ok(self.order_count.numcfg, val@), cfg_len(self.order_count.numcfg) <= 9,
ensures ret == field_val(self.order_count.numcfg, val@),
@@@begin
broadcast use group_num, lemma_text_bound9;
@@fn trading-engine/src/utils/numeric_converter.rs OrderCounter::to_order_count_unchecked props=C07,C09
requires conv_wf(self.order_count), plain(self.order_count.numcfg, 8), val.len() >= self.order_count.end_index,
ensures digits_ok(field(self.order_count.numcfg, val@)) ==> ret == dec(field(self.order_count.numcfg, val@)),
@@fn trading-engine/src/utils/numeric_converter.rs OrderConverter::to_book_price props=C07,C09
requires conv_wf(self.price), self.price.parsing_length >= 1, field_ok(self.price.numcfg, val@),
ensures ret == field_signed(self.price.numcfg, val@),
@@fn trading-engine/src/utils/numeric_converter.rs OrderConverter::to_book_quantity props=C07,C09
requires conv_wf(self.quantity), self.quantity.parsing_length >= 1, field_ok(self.quantity.numcfg, val@),
ensures ret == field_val(self.quantity.numcfg, val@),
@@fn trading-engine/src/utils/numeric_converter.rs OrderConverter::to_book_price_unchecked props=C07,C09
requires conv_wf(self.price), plain(self.price.numcfg, 16), val.len() >= self.price.end_index,
ensures digits_ok(field(self.price.numcfg, val@)) ==> ret == dec(field(self.price.numcfg, val@)),
@@fn trading-engine/src/utils/numeric_converter.rs OrderConverter::to_book_quantity_unchecked props=C07,C09
requires conv_wf(self.quantity), plain(self.quantity.numcfg, 16), val.len() >= self.quantity.end_index,
ensures digits_ok(field(self.quantity.numcfg, val@)) ==> ret == dec(field(self.quantity.numcfg, val@)),
@@fn trading-engine/src/utils/numeric_converter.rs YieldConverter::to_yield props=C07
requires conv_wf(self.converter), self.converter.parsing_length >= 1, field_ok(self.converter.numcfg, val@),
ensures ret == field_signed(self.converter.numcfg, val@),
@@fn trading-engine/src/utils/numeric_converter.rs CumQntConverter::to_cum_qnt props=C07
requires conv_wf(self.converter), self.converter.parsing_length >= 1, field_ok(self.converter.numcfg, val@),
ensures ret == field_val(self.converter.numcfg, val@),
@@fn trading-engine/src/utils/numeric_converter.rs CumQntConverter::to_cum_qnt_unchecked props=C07,C09
requires conv_wf(self.converter), plain(self.converter.numcfg, 16), val.len() >= self.converter.end_index,
ensures digits_ok(field(self.converter.numcfg, val@)) ==> ret == dec(field(self.converter.numcfg, val@)),
@@fn trading-engine/src/utils/numeric_converter.rs CumQntConverter::to_long_cum_qnt_unchecked props=C07
requires conv_wf(self.converter), cfg_point(self.converter.numcfg) == 0, 17 <= self.converter.parsing_length, val.len() >= self.converter.end_index, digits_ok(field(self.converter.numcfg, val@)),
ensures ret == dec(field(self.converter.numcfg, val@)),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_risk_free_derivative_converter props=C07,C09
ensures order_layout(ret, 4, 4, true, 0, 9, 9),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_base_derivative_converter props=C07,C09
ensures order_layout(ret, 5, 3, true, 0, 9, 9),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_stock_converter props=C07,C09
ensures order_layout(ret, 9, 0, false, 2, 11, 12),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_stock_derivative_converter props=C07,C09
ensures order_layout(ret, 8, 0, true, 0, 9, 9),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_general_commodity_derivative_converter props=C07,C09
ensures order_layout(ret, 8, 0, true, 0, 9, 9),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_repo_converter props=C07,C09
ensures order_layout(ret, 6, 4, true, 0, 11, 15),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderConverter::krx_base_bond_converter props=C07,C09
ensures order_layout(ret, 7, 3, false, 1, 11, 12),
@@fn trading-engine/src/data/krx/krx_converter.rs OrderCounter::krx_base_order_counter props=C07,C09
ensures conv_wf(ret.order_count), layout(ret.order_count.numcfg, 5, 0, false, 0, 5),
@@fn trading-engine/src/data/krx/krx_converter.rs CumQntConverter::krx_base_cum_qnt_converter props=C07,C09
ensures conv_wf(ret.converter), layout(ret.converter.numcfg, 12, 0, false, 0, 12),
@@fn trading-engine/src/data/krx/krx_converter.rs CumQntConverter::krx_bond_cum_qnt_converter props=C07
ensures conv_wf(ret.converter), layout(ret.converter.numcfg, 15, 0, false, 0, 15),
@@fn trading-engine/src/data/krx/krx_converter.rs YieldConverter::krx_yield_converter props=C07
ensures conv_wf(ret.converter), layout(ret.converter.numcfg, 5, 7, true, 0, 13),
@@fn trading-engine/src/utils/numeric_converter.rs TimeStampConverter::new props=C08
ensures ret.converter == converter, ret.offset_nanos == offset_nanos,
@@fn trading-engine/src/data/krx/krx_converter.rs TimeStampConverter::krx_timestamp_converter props=C08
ensures ret.offset_nanos == 9 * 3_600_000_000_000,
@@verus
// ---------------- message times ----------------
pub open spec fn day() -> int { 86_400_000_000_000 }
// hhmmssuuuuuu in nanoseconds
pub open spec fn time_nanos(s: Seq<u8>) -> int { (two(s, 0) * 3600 + two(s, 2) * 60 + two(s, 4)) * 1_000_000_000 + dec(s.subrange(6, 12)) * 1000 }
// the message time on the generator's current date
pub open spec fn on_date(off: int, g: DateUnixNanoGenerator, s: Seq<u8>) -> int { time_nanos(s) + off + g.utcdate_unix_nano }
// fifteen hours or more behind the previous message: the clock went past midnight
pub open spec fn behind(prev: int, t: int) -> bool { prev >= t + 54_000_000_000_000 }
pub open spec fn rolled(off: int, old: DateUnixNanoGenerator, new: DateUnixNanoGenerator, s: Seq<u8>, t: int, k: int) -> bool {
  k >= 0 && t == on_date(off, old, s) + k * day() && new.utcdate_unix_nano == old.utcdate_unix_nano + k * day()
  && new.prev_timestamp == t && !behind(old.prev_timestamp as int, t) && (k > 0 ==> behind(old.prev_timestamp as int, t - day())) && (k == 0 ==> new.update_stamp == old.update_stamp)
}
pub open spec fn time_ok(s: Seq<u8>) -> bool { s.len() >= 12 && digits_ok(s.take(12)) }
pub open spec fn time_dom(off: int, g: DateUnixNanoGenerator) -> bool { off <= day() && g.utcdate_unix_nano <= 15_000_000_000_000_000_000 && g.prev_timestamp <= 15_000_000_000_000_000_000 }
pub proof fn lemma_time_bound(s: Seq<u8>) requires time_ok(s) ensures 0 <= time_nanos(s) < 5 * day(), digits_ok(s.subrange(0, 6).take(6)), digits_ok(s.subrange(6, 12).take(6)), s.subrange(6, 12).take(6) == s.subrange(6, 12), s.subrange(0, 6).take(6) == s.subrange(0, 6),
  two(s.subrange(0, 6), 0) == two(s, 0), two(s.subrange(0, 6), 2) == two(s, 2), two(s.subrange(0, 6), 4) == two(s, 4), digits_ok(s.subrange(6, 12)), 0 <= dec(s.subrange(6, 12)) < 1_000_000,
{
  assert(forall|i: int| 0 <= i < 12 ==> #[trigger] s[i] == s.take(12)[i]);
  assert(s.subrange(6, 12).take(6) =~= s.subrange(6, 12));
  assert(s.subrange(0, 6).take(6) =~= s.subrange(0, 6));
  lemma_dec_bound(s.subrange(6, 12));
  assert(pow10(6) == 1_000_000) by { reveal_with_fuel(pow10, 8); }
}
@@verus
pub broadcast proof fn lemma_day(t: u64) ensures DAY_NANOSCALE == 86_400_000_000_000, #[trigger] (t / DAY_NANOSCALE) * DAY_NANOSCALE == t - t as int % 86_400_000_000_000 { }
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::from_today props=C08
ensures ret is Ok, ret->Ok_0.utcdate_unix_nano as int % day() == 0, ret->Ok_0.prev_timestamp == 0, ret->Ok_0.utcdate_unix_nano <= ret->Ok_0.update_stamp < ret->Ok_0.utcdate_unix_nano + day(),
@@@begin
broadcast use lemma_day;
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::get_prev_timestamp props=C08
ensures ret == self.prev_timestamp,
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::cache_timestamp props=C08
ensures *final(self) == (DateUnixNanoGenerator { prev_timestamp: stamp, ..*old(self) }),
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::from_unixnano props=C08
ensures ret.utcdate_unix_nano == unix_nano - unix_nano as int % day(), ret.prev_timestamp == 0,
@@@begin
broadcast use lemma_day;
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::set_timestamp props=C08
ensures final(self).utcdate_unix_nano == timestamp.stamp - timestamp.stamp as int % day(), final(self).prev_timestamp == old(self).prev_timestamp, final(self).update_stamp == timestamp.stamp,
@@@begin
broadcast use lemma_day;
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::set_today props=C08
ensures final(self).utcdate_unix_nano as int % day() == 0, final(self).prev_timestamp == old(self).prev_timestamp, final(self).utcdate_unix_nano <= final(self).update_stamp < final(self).utcdate_unix_nano + day(),
@@@begin
broadcast use lemma_day;
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::increment props=C08
requires old(self).utcdate_unix_nano + day() <= u64::MAX,
ensures *final(self) == (DateUnixNanoGenerator { utcdate_unix_nano: (old(self).utcdate_unix_nano + day()) as u64, prev_timestamp: old(self).prev_timestamp, update_stamp: update_timestamp }),
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::get_utcdate_unix_nano props=C08
ensures ret == self.utcdate_unix_nano,
@@fn trading-engine/src/types/timestamp.rs DateUnixNanoGenerator::get_update_stamp props=C08
ensures ret == self.update_stamp,
@@fn trading-engine/src/utils/numeric_converter.rs TimeStampConverter::parse_hhmmssuuuuuu props=C08,C09
requires time_ok(val@), time_dom(self.offset_nanos as int, *old(date_generator)),
ensures ret is Ok, exists|k: int| #[trigger] rolled(self.offset_nanos as int, *old(date_generator), *final(date_generator), val@, ret->Ok_0.stamp as int, k),
  system_timestamp is Some && final(date_generator).utcdate_unix_nano != old(date_generator).utcdate_unix_nano ==> final(date_generator).update_stamp == system_timestamp->0.stamp,
@@@begin
proof { lemma_time_bound(val@); }
let ghost mut __k: int = 0;
let ghost __g = *date_generator;
@@@loop 0 while prev_timestamp >= FIFTEEN_HOURS_NANOSCALE + current_timestamp
invariant __k >= 0, current_timestamp == on_date(self.offset_nanos as int, __g, val@) + __k * day(), date_generator.utcdate_unix_nano == __g.utcdate_unix_nano + __k * day(), date_generator.prev_timestamp == __g.prev_timestamp, prev_timestamp == __g.prev_timestamp,
  time_dom(self.offset_nanos as int, __g), 0 <= time_nanos(val@) < 5 * day(), __k > 0 ==> behind(__g.prev_timestamp as int, current_timestamp - day()), __k == 0 ==> date_generator.update_stamp == __g.update_stamp, current_timestamp < 16_000_000_000_000_000_000,
  __k > 0 && system_timestamp is Some ==> date_generator.update_stamp == system_timestamp->0.stamp,
decreases u64::MAX - current_timestamp,
@@@loopend 0
proof { __k = __k + 1; }
@@@tail
proof { assert(rolled(self.offset_nanos as int, __g, *date_generator, val@, __res->Ok_0.stamp as int, __k)); }
@@verus
pub broadcast proof fn lemma_text_bound9(s: Seq<u8>, p: int) requires text_ok(s, p), s.len() <= 9, p >= 0 ensures #![trigger text_val(s, p)] 0 <= text_val(s, p) < 1_000_000_000 {
  let t = if p == 0 { s } else { s.take(s.len() - p) + s.skip(s.len() - p + 1) };
  assert(digits_ok(t));
  lemma_dec_bound9(t);
}
