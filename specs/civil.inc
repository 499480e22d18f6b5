@@verus
// ---------------- the Gregorian calendar ----------------
pub open spec fn leap(y: int) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub open spec fn dim(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub open spec fn diy(y: int) -> int { if leap(y) { 366 } else { 365 } }
// days before year y / before month m of year y; the day number of 1970-01-01 is 0
pub open spec fn before_year(y: int) -> int { 365 * (y - 1970) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 477 }
pub open spec fn before_month(y: int, m: int) -> int {
  (if m == 1 { 0int } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
   else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334 })
  + (if m > 2 && leap(y) { 1int } else { 0int }) }
pub open spec fn day_no(y: int, m: int, d: int) -> int { before_year(y) + before_month(y, m) + d - 1 }
pub open spec fn valid_date(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= dim(y, m) }
pub proof fn lemma_by4(y: int) ensures y / 4 == (y - 1) / 4 + (if y % 4 == 0 { 1int } else { 0int }) {}
pub proof fn lemma_by100(y: int) ensures y / 100 == (y - 1) / 100 + (if y % 100 == 0 { 1int } else { 0int }), y % 100 == 0 ==> y % 4 == 0 {}
pub proof fn lemma_by400(y: int) ensures y / 400 == (y - 1) / 400 + (if y % 400 == 0 { 1int } else { 0int }), y % 400 == 0 ==> y % 100 == 0 {}
pub proof fn lemma_year_step(y: int) ensures before_year(y + 1) == before_year(y) + diy(y) {
  lemma_by4(y); lemma_by100(y); lemma_by400(y);
}
pub proof fn lemma_month_step(y: int, m: int) requires 1 <= m <= 12 ensures m < 12 ==> before_month(y, m + 1) == before_month(y, m) + dim(y, m), m == 12 ==> before_month(y, m) + dim(y, m) == diy(y) { }
pub proof fn lemma_year_mono(a: int, b: int) requires a <= b ensures before_year(b) - before_year(a) >= 365 * (b - a), before_year(b) - before_year(a) <= 366 * (b - a) decreases b - a {
  if a < b { lemma_year_step(b - 1); lemma_year_mono(a, b - 1); }
}
pub proof fn lemma_in_year(y: int, m: int, d: int) requires valid_date(y, m, d) ensures 0 <= before_month(y, m) + d - 1 < diy(y) { }
// a day number names one date
pub proof fn lemma_date_unique(y: int, m: int, d: int, y2: int, m2: int, d2: int)
  requires valid_date(y, m, d), valid_date(y2, m2, d2), day_no(y, m, d) == day_no(y2, m2, d2) ensures y == y2, m == m2, d == d2 {
  lemma_in_year(y, m, d); lemma_in_year(y2, m2, d2);
  if y < y2 { lemma_year_step(y); lemma_year_mono(y + 1, y2); }
  if y2 < y { lemma_year_step(y2); lemma_year_mono(y2 + 1, y); }
}
