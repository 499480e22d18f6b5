@@verus
// ---------------- the `time` crate, by day number (1970-01-01 = 0), nanoseconds into the day and offset from UTC ----------------
pub open spec fn day_lo() -> int { day_no(1, 1, 1) }
pub open spec fn day_hi() -> int { day_no(9999, 12, 31) }
pub open spec fn day_in(n: int) -> bool { day_lo() <= n <= day_hi() }
pub open spec fn dns() -> int { 86_400_000_000_000 }
// the date of a day number
pub open spec fn names(n: int, y: int, m: int, d: int) -> bool { valid_date(y, m, d) && day_no(y, m, d) == n }
pub open spec fn is_ymd(n: int, t: (int, int, int)) -> bool { names(n, t.0, t.1, t.2) }
pub open spec fn ymd(n: int) -> (int, int, int) { choose|t: (int, int, int)| is_ymd(n, t) }
pub open spec fn yr(n: int) -> int { ymd(n).0 }
pub open spec fn mo(n: int) -> int { ymd(n).1 }
pub open spec fn dm(n: int) -> int { ymd(n).2 }
pub open spec fn doy(n: int) -> int { n - before_year(yr(n)) + 1 }
pub proof fn lemma_ymd_is(n: int, y: int, m: int, d: int) requires names(n, y, m, d) ensures yr(n) == y, mo(n) == m, dm(n) == d {
  assert(is_ymd(n, (y, m, d)));
  let t = ymd(n); assert(is_ymd(n, t));
  lemma_date_unique(y, m, d, t.0, t.1, t.2);
}
pub proof fn lemma_next_day(n: int, y: int, m: int, d: int) -> (t: (int, int, int)) requires names(n, y, m, d) ensures is_ymd(n + 1, t), t.0 >= y {
  lemma_month_step(y, m); lemma_year_step(y);
  if d < dim(y, m) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1int) } else { (y + 1, 1int, 1int) }
}
pub proof fn lemma_ymd_from(a: int, n: int) -> (t: (int, int, int)) requires day_lo() <= n ensures is_ymd(n, t), t.0 >= 1 decreases n - day_lo() {
  if n == day_lo() { (1int, 1int, 1int) } else { let p = lemma_ymd_from(a, n - 1); lemma_next_day(n - 1, p.0, p.1, p.2) }
}
// every day number in range has its date, and the date's year is in range
pub broadcast proof fn lemma_ymd(n: int) requires day_in(n) ensures names(n, #[trigger] yr(n), mo(n), dm(n)), 1 <= yr(n) <= 9999 {
  let t = lemma_ymd_from(0, n);
  lemma_ymd_is(n, t.0, t.1, t.2);
  lemma_in_year(t.0, t.1, t.2);
  if t.0 > 9999 { lemma_year_mono(10000, t.0); lemma_year_step(9999); }
}
pub proof fn lemma_day_in(y: int, m: int, d: int) requires valid_date(y, m, d), 1 <= y <= 9999 ensures day_in(day_no(y, m, d)) {
  lemma_in_year(y, m, d); lemma_year_mono(1, y); lemma_year_mono(y, 9999); lemma_year_step(y); if y < 9999 { lemma_year_mono(y + 1, 9999); }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Weekday { Monday, Tuesday, Wednesday, Thursday, Friday, Saturday, Sunday }
pub open spec fn wd(n: int) -> Weekday { let k = (n + 3) % 7; if k == 0 { Weekday::Monday } else if k == 1 { Weekday::Tuesday } else if k == 2 { Weekday::Wednesday } else if k == 3 { Weekday::Thursday } else if k == 4 { Weekday::Friday } else if k == 5 { Weekday::Saturday } else { Weekday::Sunday } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Month { January = 1, February = 2, March = 3, April = 4, May = 5, June = 6, July = 7, August = 8, September = 9, October = 10, November = 11, December = 12 }
pub open spec fn mnum(m: Month) -> int { match m { Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6, Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12 } }
#[derive(Clone, Copy)] pub struct Duration { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct ClockTime { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct UtcOffset { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct Date { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct OffsetDateTime { pub g: Ghost<(int, int, int)> }
pub open spec fn dur(n: int) -> Duration { Duration { g: Ghost(n) } }
pub open spec fn date_of(n: int) -> Date { Date { g: Ghost(n) } }
pub open spec fn odt(day: int, ns: int, off: int) -> OffsetDateTime { OffsetDateTime { g: Ghost((day, ns, off)) } }
impl Duration {
  pub open spec fn ns(self) -> int { self.g@ }
  #[verifier::external_body] pub fn days(n: i64) -> (r: Duration) requires -100_000_000_000_000 <= n <= 100_000_000_000_000 ensures r == dur(n * dns()) { unimplemented!() }
  #[verifier::external_body] pub fn weeks(n: i64) -> (r: Duration) requires -10_000_000_000_000 <= n <= 10_000_000_000_000 ensures r == dur(n * 7 * dns()) { unimplemented!() }
  #[verifier::external_body] pub fn hours(n: i64) -> (r: Duration) requires -2_000_000_000_000_000 <= n <= 2_000_000_000_000_000 ensures r == dur(n * 3_600_000_000_000) { unimplemented!() }
  #[verifier::external_body] pub fn minutes(n: i64) -> (r: Duration) requires -100_000_000_000_000_000 <= n <= 100_000_000_000_000_000 ensures r == dur(n * 60_000_000_000) { unimplemented!() }
  #[verifier::external_body] pub fn seconds(n: i64) -> (r: Duration) ensures r == dur(n * 1_000_000_000) { unimplemented!() }
  #[verifier::external_body] pub fn whole_days(&self) -> (r: i64) ensures r == tdiv(self.ns(), dns()) { unimplemented!() }
}
// integer division rounding towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
impl ClockTime { pub open spec fn ns(self) -> int { self.g@ }
  #[verifier::external_body] pub fn midnight() -> (r: ClockTime) ensures r.ns() == 0 { unimplemented!() } }
impl UtcOffset { pub open spec fn secs(self) -> int { self.g@ }
  #[verifier::external_body] pub fn from_hms(h: i8, m: i8, s: i8) -> (r: core::result::Result<UtcOffset, TimeError>) ensures -25 <= h <= 25 && m == 0 && s == 0 ==> r.is_ok(), match r { Ok(x) => m == 0 && s == 0 ==> x.secs() == h * 3600, Err(_) => true } { unimplemented!() } }
impl Date {
  pub open spec fn day_n(self) -> int { self.g@ }
  #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures r == yr(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn month(&self) -> (r: Month) ensures mnum(r) == mo(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn day(&self) -> (r: u8) ensures r == dm(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) ensures r == wd(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn ordinal(&self) -> (r: u16) ensures r == doy(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn from_calendar_date(y: i32, m: Month, d: u8) -> (r: core::result::Result<Date, TimeError>)
    ensures 1 <= y <= 9999 ==> r.is_ok() == valid_date(y as int, mnum(m), d as int), !valid_date(y as int, mnum(m), d as int) ==> r.is_err(), match r { Ok(x) => x == date_of(day_no(y as int, mnum(m), d as int)), Err(_) => true } { unimplemented!() }
}
#[derive(Debug)]
pub struct TimeError { }
impl OffsetDateTime {
  pub open spec fn day_n(self) -> int { self.g@.0 }
  pub open spec fn tod(self) -> int { self.g@.1 }
  pub open spec fn off(self) -> int { self.g@.2 }
  pub open spec fn inst(self) -> int { self.day_n() * dns() + self.tod() - self.off() * 1_000_000_000 }
  pub open spec fn wf(self) -> bool { day_in(self.day_n()) && 0 <= self.tod() < dns() && -93_599 <= self.off() <= 93_599 }
  // the same clock, n nanoseconds on
  pub open spec fn plus(self, n: int) -> OffsetDateTime { let t = self.day_n() * dns() + self.tod() + n; odt(t / dns(), t % dns(), self.off()) }
  pub open spec fn on(self, day: int) -> OffsetDateTime { odt(day, self.tod(), self.off()) }
  // the same instant on another clock
  pub open spec fn at(self, off: int) -> OffsetDateTime { let t = self.inst() + off * 1_000_000_000; odt(t / dns(), t % dns(), off) }
  #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures r == yr(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn month(&self) -> (r: Month) ensures mnum(r) == mo(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn day(&self) -> (r: u8) ensures r == dm(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) ensures r == wd(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn ordinal(&self) -> (r: u16) ensures r == doy(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn date(&self) -> (r: Date) ensures r == date_of(self.day_n()) { unimplemented!() }
  #[verifier::external_body] pub fn time(&self) -> (r: ClockTime) ensures r.ns() == self.tod() { unimplemented!() }
  #[verifier::external_body] pub fn offset(&self) -> (r: UtcOffset) ensures r.secs() == self.off() { unimplemented!() }
  #[verifier::external_body] pub fn to_offset(&self, o: UtcOffset) -> (r: OffsetDateTime) requires day_in(self.at(o.secs()).day_n()) ensures r == self.at(o.secs()) { unimplemented!() }
  #[verifier::external_body] pub fn new_in_offset(d: Date, t: ClockTime, o: UtcOffset) -> (r: OffsetDateTime) ensures r == odt(d.day_n(), t.ns(), o.secs()) { unimplemented!() }
}
impl AddSpecImpl<Duration> for OffsetDateTime { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Duration) -> bool { day_in(self.plus(o.ns()).day_n()) } open spec fn add_spec(self, o: Duration) -> OffsetDateTime { self.plus(o.ns()) } }
impl core::ops::Add<Duration> for OffsetDateTime { type Output = OffsetDateTime; #[verifier::external_body] fn add(self, o: Duration) -> (r: OffsetDateTime) { unimplemented!() } }
impl AddAssignSpecImpl<Duration> for OffsetDateTime { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: Duration) -> bool { day_in(self.plus(o.ns()).day_n()) } open spec fn add_assign_spec(&self, o: Duration) -> &Self { &(self.plus(o.ns())) } }
impl core::ops::AddAssign<Duration> for OffsetDateTime { #[verifier::external_body] fn add_assign(&mut self, o: Duration) { unimplemented!() } }
impl SubSpecImpl<Duration> for OffsetDateTime { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Duration) -> bool { day_in(self.plus(-o.ns()).day_n()) } open spec fn sub_spec(self, o: Duration) -> OffsetDateTime { self.plus(-o.ns()) } }
impl core::ops::Sub<Duration> for OffsetDateTime { type Output = OffsetDateTime; #[verifier::external_body] fn sub(self, o: Duration) -> (r: OffsetDateTime) { unimplemented!() } }
impl SubAssignSpecImpl<Duration> for OffsetDateTime { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, o: Duration) -> bool { day_in(self.plus(-o.ns()).day_n()) } open spec fn sub_assign_spec(&self, o: Duration) -> &Self { &(self.plus(-o.ns())) } }
impl core::ops::SubAssign<Duration> for OffsetDateTime { #[verifier::external_body] fn sub_assign(&mut self, o: Duration) { unimplemented!() } }
impl SubSpecImpl<OffsetDateTime> for OffsetDateTime { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: OffsetDateTime) -> bool { true } open spec fn sub_spec(self, o: OffsetDateTime) -> Duration { dur(self.inst() - o.inst()) } }
impl core::ops::Sub<OffsetDateTime> for OffsetDateTime { type Output = Duration; #[verifier::external_body] fn sub(self, o: OffsetDateTime) -> (r: Duration) { unimplemented!() } }
impl AddSpecImpl<Duration> for Date { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Duration) -> bool { day_in(self.day_n() + tdiv(o.ns(), dns())) } open spec fn add_spec(self, o: Duration) -> Date { date_of(self.day_n() + tdiv(o.ns(), dns())) } }
impl core::ops::Add<Duration> for Date { type Output = Date; #[verifier::external_body] fn add(self, o: Duration) -> (r: Date) { unimplemented!() } }
impl AddAssignSpecImpl<Duration> for Date { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: Duration) -> bool { day_in(self.day_n() + tdiv(o.ns(), dns())) } open spec fn add_assign_spec(&self, o: Duration) -> &Self { &(date_of(self.day_n() + tdiv(o.ns(), dns()))) } }
impl core::ops::AddAssign<Duration> for Date { #[verifier::external_body] fn add_assign(&mut self, o: Duration) { unimplemented!() } }
impl SubSpecImpl<Duration> for Date { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Duration) -> bool { day_in(self.day_n() - tdiv(o.ns(), dns())) } open spec fn sub_spec(self, o: Duration) -> Date { date_of(self.day_n() - tdiv(o.ns(), dns())) } }
impl core::ops::Sub<Duration> for Date { type Output = Date; #[verifier::external_body] fn sub(self, o: Duration) -> (r: Date) { unimplemented!() } }
impl SubAssignSpecImpl<Duration> for Date { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, o: Duration) -> bool { day_in(self.day_n() - tdiv(o.ns(), dns())) } open spec fn sub_assign_spec(&self, o: Duration) -> &Self { &(date_of(self.day_n() - tdiv(o.ns(), dns()))) } }
impl core::ops::SubAssign<Duration> for Date { #[verifier::external_body] fn sub_assign(&mut self, o: Duration) { unimplemented!() } }
impl SubSpecImpl<Date> for Date { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Date) -> bool { true } open spec fn sub_spec(self, o: Date) -> Duration { dur((self.day_n() - o.day_n()) * dns()) } }
impl core::ops::Sub<Date> for Date { type Output = Duration; #[verifier::external_body] fn sub(self, o: Date) -> (r: Duration) { unimplemented!() } }
impl SubSpecImpl<Duration> for Duration { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Duration) -> bool { true } open spec fn sub_spec(self, o: Duration) -> Duration { dur(self.ns() - o.ns()) } }
impl core::ops::Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, o: Duration) -> (r: Duration) { unimplemented!() } }
impl AddSpecImpl<Duration> for Duration { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Duration) -> bool { true } open spec fn add_spec(self, o: Duration) -> Duration { dur(self.ns() + o.ns()) } }
impl core::ops::Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, o: Duration) -> (r: Duration) { unimplemented!() } }
impl PartialEqSpecImpl for OffsetDateTime { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OffsetDateTime) -> bool { self.inst() == o.inst() } }
impl PartialEq for OffsetDateTime { #[verifier::external_body] fn eq(&self, o: &OffsetDateTime) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for OffsetDateTime { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &OffsetDateTime) -> Option<core::cmp::Ordering> { Some(if self.inst() < o.inst() { core::cmp::Ordering::Less } else if self.inst() == o.inst() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for OffsetDateTime { #[verifier::external_body] fn partial_cmp(&self, o: &OffsetDateTime) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialEqSpecImpl for Date { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Date) -> bool { self.day_n() == o.day_n() } }
impl PartialEq for Date { #[verifier::external_body] fn eq(&self, o: &Date) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Date { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Date) -> Option<core::cmp::Ordering> { Some(if self.day_n() < o.day_n() { core::cmp::Ordering::Less } else if self.day_n() == o.day_n() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for Date { #[verifier::external_body] fn partial_cmp(&self, o: &Date) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> { Some(if self.ns() < o.ns() { core::cmp::Ordering::Less } else if self.ns() == o.ns() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
@@subst "time :: Duration" "Duration"
@@subst "time :: Date" "Date"
@@subst "time :: Time :: MIDNIGHT" "ClockTime :: midnight ( )"
@@sigsubst "time::Date\b" "Date"
@@sigsubst "time::OffsetDateTime\b" "OffsetDateTime"
