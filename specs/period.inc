@@verus
// ---------------- period text ("1Y6M"), read by the regex crate ----------------
pub open spec fn re_full() -> Seq<char> { "(\\d+)(Y|M|W|D|h|min|sec)+"@ }
pub open spec fn re_date() -> Seq<char> { "(\\d+)(Y|M|W|D)+"@ }
// the (digits, unit) pairs the pattern finds in the text, in order
pub uninterp spec fn terms(pat: Seq<char>, s: Seq<char>) -> Seq<(Seq<char>, Seq<char>)>;
// the number a run of digits stands for
pub uninterp spec fn num(s: Seq<char>) -> int;
pub open spec fn is_unit(u: Seq<char>) -> bool { u == "Y"@ || u == "M"@ || u == "W"@ || u == "D"@ || u == "h"@ || u == "min"@ || u == "sec"@ }
pub open spec fn is_unit_date(u: Seq<char>) -> bool { u == "Y"@ || u == "M"@ || u == "W"@ || u == "D"@ }
#[verifier::external_body]
pub proof fn lemma_term(pat: Seq<char>, s: Seq<char>, i: int) requires 0 <= i < terms(pat, s).len(), pat == re_full() || pat == re_date()
  ensures num(terms(pat, s)[i].0) >= 0, is_unit(terms(pat, s)[i].1), pat == re_date() ==> is_unit_date(terms(pat, s)[i].1) { }
pub struct Regex { pub g: Ghost<Seq<char>> }
#[derive(Debug)]
pub struct RegexError { }
pub struct Caps { pub g: Ghost<(Seq<char>, Seq<char>)> }
impl Regex {
  #[verifier::external_body] pub fn new(p: &str) -> (r: core::result::Result<Regex, RegexError>) requires p@ == re_full() || p@ == re_date() ensures r.is_ok(), r->Ok_0.g@ == p@ { unimplemented!() }
  #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == (terms(self.g@, s@).len() > 0) { unimplemented!() }
  #[verifier::external_body] pub fn captures_iter(&self, s: &str) -> (r: ShIter<Caps>) ensures r.fresh(), r.all().len() == terms(self.g@, s@).len(), forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i].g@ == terms(self.g@, s@)[i] { unimplemented!() }
}
impl Caps { #[verifier::external_body] pub fn cap_at(&self, i: usize) -> (r: &str) requires 1 <= i <= 2 ensures r@ == (if i == 1 { self.g@.0 } else { self.g@.1 }) { unimplemented!() } }
pub trait ShNum: Sized { spec fn fits(n: int) -> bool; spec fn is_num(&self, n: int) -> bool; }
impl ShNum for i64 { open spec fn fits(n: int) -> bool { i64::MIN <= n <= i64::MAX } open spec fn is_num(&self, n: int) -> bool { *self == n } }
impl ShNum for i32 { open spec fn fits(n: int) -> bool { i32::MIN <= n <= i32::MAX } open spec fn is_num(&self, n: int) -> bool { *self == n } }
pub trait ShParse { spec fn txt(&self) -> Seq<char>; fn sh_parse<T: ShNum>(&self) -> (r: core::result::Result<T, RegexError>) ensures r.is_ok() == T::fits(num(self.txt())), match r { Ok(x) => x.is_num(num(self.txt())), Err(_) => true }; }
impl ShParse for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn sh_parse<T: ShNum>(&self) -> (r: core::result::Result<T, RegexError>) { unimplemented!() } }
#[verifier::external_body] pub fn sh_str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
@@method parse sh_parse
@@subst "regex :: Regex" "Regex"
@@verus
pub proof fn lemma_lits() ensures "Y"@ != "M"@, "Y"@ != "W"@, "Y"@ != "D"@, "Y"@ != "h"@, "Y"@ != "min"@, "Y"@ != "sec"@, "M"@ != "W"@, "M"@ != "D"@, "M"@ != "h"@, "M"@ != "min"@, "M"@ != "sec"@,
  "W"@ != "D"@, "W"@ != "h"@, "W"@ != "min"@, "W"@ != "sec"@, "D"@ != "h"@, "D"@ != "min"@, "D"@ != "sec"@, "h"@ != "min"@, "h"@ != "sec"@, "min"@ != "sec"@, re_full() != re_date()
{ reveal_strlit("Y"); reveal_strlit("M"); reveal_strlit("W"); reveal_strlit("D"); reveal_strlit("h"); reveal_strlit("min"); reveal_strlit("sec"); reveal_strlit("(\\d+)(Y|M|W|D|h|min|sec)+"); reveal_strlit("(\\d+)(Y|M|W|D)+");
  assert(re_full().len() != re_date().len()); assert("Y"@[0] == 'Y'); assert("M"@[0] == 'M'); assert("W"@[0] == 'W'); assert("D"@[0] == 'D'); assert("h"@[0] == 'h'); assert("min"@[0] == 'm'); assert("sec"@[0] == 's'); }
// ---------------- stepping a date by a period ----------------
// k months on: the same day of the month, or the month's last day where it has no such day
pub open spec fn month_count(n: int, k: int) -> int { yr(n) * 12 + mo(n) - 1 + k }
pub open spec fn add_months(n: int, k: int) -> int { let y = month_count(n, k) / 12; let m = month_count(n, k) % 12 + 1; day_no(y, m, if dm(n) <= dim(y, m) { dm(n) } else { dim(y, m) }) }
pub open spec fn unit_ns(u: Seq<char>) -> int { if u == "W"@ { 604_800_000_000_000 } else if u == "D"@ { 86_400_000_000_000 } else if u == "h"@ { 3_600_000_000_000 } else if u == "min"@ { 60_000_000_000 } else { 1_000_000_000 } }
pub open spec fn months_of(v: int, u: Seq<char>) -> int { if u == "Y"@ { 12 * v } else { v } }
pub open spec fn by_month(u: Seq<char>) -> bool { u == "Y"@ || u == "M"@ }
// one term, forwards (sign 1) or backwards (sign -1)
pub open spec fn step(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) -> OffsetDateTime { if by_month(u) { d.on(add_months(d.day_n(), sign * months_of(v, u))) } else { d.plus(sign * (v * unit_ns(u))) } }
// the years 1 to 9999 hold the result
pub open spec fn step_ok(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) -> bool { if by_month(u) { 12 <= month_count(d.day_n(), sign * months_of(v, u)) < 120_000 } else { day_in(step(d, v, u, sign).day_n()) } }
// the terms in order
pub open spec fn walk(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>, sign: int) -> OffsetDateTime decreases ts.len() { if ts.len() == 0 { d } else { step(walk(d, ts.drop_last(), sign), num(ts.last().0), ts.last().1, sign) } }
pub open spec fn walk_ok(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>, sign: int) -> bool decreases ts.len() { ts.len() == 0 || (walk_ok(d, ts.drop_last(), sign) && step_ok(walk(d, ts.drop_last(), sign), num(ts.last().0), ts.last().1, sign)) }
pub open spec fn period_ok(d: OffsetDateTime, s: Seq<char>, sign: int) -> bool { terms(re_full(), s).len() > 0 && walk_ok(d, terms(re_full(), s), sign) }
pub proof fn lemma_take_ok(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>, k: int, sign: int) requires walk_ok(d, ts, sign), 0 < k <= ts.len()
  ensures walk_ok(d, ts.take(k), sign), ts.take(k).drop_last() == ts.take(k - 1), ts.take(k).last() == ts[k - 1], step_ok(walk(d, ts.take(k - 1), sign), num(ts[k - 1].0), ts[k - 1].1, sign), walk(d, ts.take(k), sign) == step(walk(d, ts.take(k - 1), sign), num(ts[k - 1].0), ts[k - 1].1, sign)
  decreases ts.len()
{ assert(ts.take(k).drop_last() =~= ts.take(k - 1));
  if k < ts.len() { lemma_take_ok(d, ts.drop_last(), k, sign); assert(ts.drop_last().take(k) =~= ts.take(k)); assert(ts.drop_last().take(k - 1) =~= ts.take(k - 1)); }
  else { assert(ts.take(k) =~= ts); } }
pub proof fn lemma_months(n: int, k: int) requires day_in(n) ensures 1 <= yr(n) <= 9999, 1 <= mo(n) <= 12, 1 <= dm(n) <= 31, month_count(n, k) / 12 == yr(n) + (mo(n) - 1 + k) / 12, month_count(n, k) % 12 == (mo(n) - 1 + k) % 12,
  12 <= month_count(n, k) < 120_000 ==> day_in(add_months(n, k)) && 1 <= month_count(n, k) / 12 <= 9999
{ lemma_ymd(n); let y = month_count(n, k) / 12; let m = month_count(n, k) % 12 + 1; if 12 <= month_count(n, k) < 120_000 { lemma_day_in(y, m, if dm(n) <= dim(y, m) { dm(n) } else { dim(y, m) }); } }
pub proof fn lemma_step_month(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) requires d.wf() ensures by_month(u) ==> {
  let k = sign * months_of(v, u); let n = d.day_n();
  &&& 1 <= yr(n) <= 9999 &&& 1 <= mo(n) <= 12 &&& 1 <= dm(n) <= 31
  &&& month_count(n, k) / 12 == yr(n) + (mo(n) - 1 + k) / 12 &&& month_count(n, k) % 12 == (mo(n) - 1 + k) % 12
  &&& step_ok(d, v, u, sign) ==> day_in(add_months(n, k)) && 1 <= month_count(n, k) / 12 <= 9999 && -200_000 < k < 200_000 }
{ lemma_months(d.day_n(), sign * months_of(v, u)); }
#[verifier::external_body] pub fn sh_panic() -> ! requires false { loop { } }
@@macro panic "sh_panic()"
@@verus
pub proof fn lemma_step_time(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) requires d.wf(), is_unit(u), v >= 0, sign == 1 || sign == -1, step_ok(d, v, u, sign) ensures !by_month(u) ==> {
  let r = d.plus(sign * (v * unit_ns(u)));
  &&& r == step(d, v, u, sign) &&& r.wf() &&& r.off() == d.off() &&& sign * (v * unit_ns(u)) == (if sign == 1 { v * unit_ns(u) } else { -(v * unit_ns(u)) })
  &&& v <= 400_000_000_000_000_000 &&& u == "min"@ ==> v <= 6_000_000_000 &&& u == "h"@ ==> v <= 100_000_000 &&& u == "D"@ ==> v <= 4_000_000 &&& u == "W"@ ==> v <= 600_000
  &&& v * unit_ns(u) == (if u == "W"@ { v * 7 * dns() } else if u == "D"@ { v * dns() } else if u == "h"@ { v * 3_600_000_000_000 } else if u == "min"@ { v * 60_000_000_000 } else { v * 1_000_000_000 }) }
{ if !by_month(u) { let x = v * unit_ns(u); let t = d.day_n() * dns() + d.tod() + sign * x; lemma_lits();
  assert(sign * x == (if sign == 1 { x } else { -x }));
  assert(-4_000_000 <= day_lo() && day_hi() <= 4_000_000) by (compute_only);
  assert(day_lo() <= t / dns() <= day_hi());
  if u == "W"@ { assert(x == v * 7 * dns()); } else if u == "D"@ { assert(x == v * dns()); } else if u == "h"@ { assert(x == v * 3_600_000_000_000); } else if u == "min"@ { assert(x == v * 60_000_000_000); } else { assert(x == v * 1_000_000_000); }
} }
pub proof fn lemma_walk0(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>, sign: int) ensures walk(d, ts.take(0), sign) == d { }
// dates: midnight to midnight
pub open spec fn at0(n: int) -> OffsetDateTime { odt(n, 0, 0) }
pub open spec fn date_period_ok(n: int, s: Seq<char>, sign: int) -> bool { terms(re_date(), s).len() > 0 && walk_ok(at0(n), terms(re_date(), s), sign) }
pub proof fn lemma_step_date(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) requires d.wf(), d == at0(d.day_n()), is_unit_date(u), v >= 0, sign == 1 || sign == -1, step_ok(d, v, u, sign)
  ensures step(d, v, u, sign) == at0(step(d, v, u, sign).day_n()), step(d, v, u, sign).wf(), !by_month(u) ==> v <= 4_000_000 && step(d, v, u, sign).day_n() == d.day_n() + sign * (v * (if u == "W"@ { 7int } else { 1 })), sign * v == (if sign == 1 { v } else { -v }),
    tdiv(v * dns(), dns()) == v, tdiv(v * 7 * dns(), dns()) == v * 7
{ lemma_lits(); lemma_step_month(d, v, u, sign); if !by_month(u) { lemma_step_time(d, v, u, sign); } }
// known finding of sub_period_date: a month term that goes back past more than one January lands in the wrong year
pub open spec fn back_ok(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>) -> bool decreases ts.len() { ts.len() == 0 || (back_ok(d, ts.drop_last()) && (ts.last().1 == "M"@ ==> num(ts.last().0) <= mo(walk(d, ts.drop_last(), -1).day_n()) + 11)) }
pub proof fn lemma_take_back(d: OffsetDateTime, ts: Seq<(Seq<char>, Seq<char>)>, k: int) requires back_ok(d, ts), 0 < k <= ts.len()
  ensures ts[k - 1].1 == "M"@ ==> num(ts[k - 1].0) <= mo(walk(d, ts.take(k - 1), -1).day_n()) + 11 decreases ts.len()
{ assert(ts.take(k).drop_last() =~= ts.take(k - 1));
  if k < ts.len() { lemma_take_back(d, ts.drop_last(), k); assert(ts.drop_last().take(k) =~= ts.take(k)); assert(ts.drop_last().take(k - 1) =~= ts.take(k - 1)); }
  else { assert(ts.take(k) =~= ts); } }
@@verus
// ---------------- decimal text ----------------
pub struct PText { pub g: Ghost<Seq<char>> }
impl PText {
  pub open spec fn view(&self) -> Seq<char> { self.g@ }
  #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn from(s: &str) -> (r: PText) ensures r@ == s@ { unimplemented!() }
  #[verifier::external_body] pub fn push_str(&mut self, s: &VerifString) { unimplemented!() }
  #[verifier::external_body] pub fn sh_cat(self, o: &str) -> (r: PText) ensures r@ == self@ + o@ { unimplemented!() }
}
// the decimal digits of a number that is not negative
pub uninterp spec fn dec(n: int) -> Seq<char>;
// a number in decimal followed by one unit reads as that one term
#[verifier::external_body]
pub proof fn lemma_term_text(n: int, u: Seq<char>) requires n >= 0, is_unit(u) ensures terms(re_full(), dec(n) + u) == seq![(dec(n), u)], num(dec(n)) == n { }
// the number a literal digit stands for
#[verifier::external_body]
pub proof fn lemma_digit(s: Seq<char>) requires s.len() == 1, '0' <= s[0] <= '9' ensures num(s) == s[0] as int - '0' as int { }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 128 }
pub trait ShText { spec fn tx(&self) -> Seq<char>;
  fn sh_len(&self) -> (r: usize) requires ascii(self.tx()) ensures r == self.tx().len();
  fn sh_split_at(&self, k: usize) -> (r: (&str, &str)) requires ascii(self.tx()), k <= self.tx().len() ensures r.0@ == self.tx().take(k as int), r.1@ == self.tx().skip(k as int);
  fn sh_from(&self, k: usize) -> (r: &str) requires ascii(self.tx()), k <= self.tx().len() ensures r@ == self.tx().skip(k as int);
  fn sh_upto(&self, k: usize) -> (r: &str) requires ascii(self.tx()), k <= self.tx().len() ensures r@ == self.tx().take(k as int); }
impl ShText for str { open spec fn tx(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn sh_len(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn sh_split_at(&self, k: usize) -> (r: (&str, &str)) { unimplemented!() }
  #[verifier::external_body] fn sh_from(&self, k: usize) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn sh_upto(&self, k: usize) -> (r: &str) { unimplemented!() } }
pub trait ShDec { spec fn dv(&self) -> int; fn sh_to_string(&self) -> (r: PText) ensures self.dv() >= 0 ==> r@ == dec(self.dv()); }
impl ShDec for i32 { open spec fn dv(&self) -> int { *self as int } #[verifier::external_body] fn sh_to_string(&self) -> (r: PText) { unimplemented!() } }
@@method to_string sh_to_string
@@method split_at sh_split_at
@@verus
pub open spec fn freq_n(f: PaymentFrequency) -> int { match f { PaymentFrequency::Daily => 1, PaymentFrequency::Weekly => 1, PaymentFrequency::BiWeekly => 2, PaymentFrequency::SemiMonthly => 2, PaymentFrequency::Monthly => 1, PaymentFrequency::SemiQuarterly => 2, PaymentFrequency::Quarterly => 3, PaymentFrequency::TriAnnually => 4, PaymentFrequency::SemiAnnually => 6, PaymentFrequency::Annually => 1, PaymentFrequency::None => 0 } }
pub open spec fn freq_u(f: PaymentFrequency) -> Seq<char> { match f { PaymentFrequency::Daily => "D"@, PaymentFrequency::Weekly => "W"@, PaymentFrequency::BiWeekly => "W"@, PaymentFrequency::SemiMonthly => "W"@, PaymentFrequency::Annually => "Y"@, _ => "M"@ } }
pub open spec fn digit(n: int) -> Seq<char> { if n == 1 { "1"@ } else if n == 2 { "2"@ } else if n == 3 { "3"@ } else if n == 4 { "4"@ } else { "6"@ } }
pub proof fn lemma_freq(f: PaymentFrequency, s: Seq<char>) requires !(f is None), s == digit(freq_n(f)) + freq_u(f)
  ensures ascii(s), s.len() == 2, s.take(1) == digit(freq_n(f)), s.skip(1) == freq_u(f), num(s.take(1)) == freq_n(f), is_unit(freq_u(f))
{ reveal_strlit("Y"); reveal_strlit("M"); reveal_strlit("W"); reveal_strlit("D"); reveal_strlit("1"); reveal_strlit("2"); reveal_strlit("3"); reveal_strlit("4"); reveal_strlit("6");
  assert(s.take(1) =~= digit(freq_n(f))); assert(s.skip(1) =~= freq_u(f)); lemma_digit(digit(freq_n(f))); }
