@@verus
// ---------------- collecting results: the values, or the first error ----------------
pub trait ShCollectRes<T>: Sized { spec fn items(self) -> Seq<core::result::Result<T, VerifErr>>; spec fn is_new(self) -> bool;
  fn collect_res(self) -> (r: core::result::Result<Vec<T>, VerifErr>) requires self.is_new()
    ensures match r { Ok(v) => v@.len() == self.items().len() && forall|i: int| 0 <= i < v@.len() ==> self.items()[i] == Ok::<T, VerifErr>(#[trigger] v@[i]), Err(_) => exists|i: int| 0 <= i < self.items().len() && (#[trigger] self.items()[i]) is Err }; }
impl<T> ShCollectRes<T> for ShIter<core::result::Result<T, VerifErr>> { open spec fn items(self) -> Seq<core::result::Result<T, VerifErr>> { self.all() } open spec fn is_new(self) -> bool { self.fresh() }
  #[verifier::external_body] fn collect_res(self) -> (r: core::result::Result<Vec<T>, VerifErr>) { unimplemented!() } }
// ---------------- the joint calendar: C15's contract on its adjust ----------------
pub open spec fn safe(d: OffsetDateTime) -> bool { d.wf() && day_lo() + 400 <= d.day_n() <= day_hi() - 400 }
pub struct JointCalendar { pub x: u8 }
impl JointCalendar {
  pub uninterp spec fn hol(&self, d: OffsetDateTime) -> bool;
  pub open spec fn open_from(&self, d: OffsetDateTime, n: int) -> bool { d.day_n() <= n && safe(d.on(n)) && !self.hol(d.on(n)) }
  pub open spec fn open_upto(&self, d: OffsetDateTime, n: int) -> bool { n <= d.day_n() && safe(d.on(n)) && !self.hol(d.on(n)) }
  pub open spec fn has_next(&self, d: OffsetDateTime) -> bool { exists|n: int| self.open_from(d, n) }
  pub open spec fn has_prev(&self, d: OffsetDateTime) -> bool { exists|n: int| self.open_upto(d, n) }
  pub open spec fn is_next(&self, d: OffsetDateTime, r: OffsetDateTime) -> bool { r == d.on(r.day_n()) && d.day_n() <= r.day_n() && safe(r) && !self.hol(r) && forall|q: int| d.day_n() <= q < r.day_n() ==> self.hol(#[trigger] d.on(q)) }
  pub open spec fn is_prev(&self, d: OffsetDateTime, r: OffsetDateTime) -> bool { r == d.on(r.day_n()) && r.day_n() <= d.day_n() && safe(r) && !self.hol(r) && forall|q: int| r.day_n() < q <= d.day_n() ==> self.hol(#[trigger] d.on(q)) }
  pub open spec fn is_mod_next(&self, d: OffsetDateTime, r: OffsetDateTime) -> bool { exists|f: OffsetDateTime| #[trigger] self.is_next(d, f) && (if mo(f.day_n()) == mo(d.day_n()) { r == f } else { self.is_prev(d, r) }) }
  pub open spec fn is_mod_prev(&self, d: OffsetDateTime, r: OffsetDateTime) -> bool { exists|f: OffsetDateTime| #[trigger] self.is_prev(d, f) && (if mo(f.day_n()) == mo(d.day_n()) { r == f } else { self.is_next(d, r) }) }
  pub open spec fn adjusted(&self, d: OffsetDateTime, c: BusinessDayConvention, r: OffsetDateTime) -> bool { match c {
    BusinessDayConvention::Unadjusted => r == d,
    BusinessDayConvention::Following => self.is_next(d, r),
    BusinessDayConvention::Preceding => self.is_prev(d, r),
    BusinessDayConvention::ModifiedFollowing => self.is_mod_next(d, r),
    BusinessDayConvention::ModifiedPreceding => self.is_mod_prev(d, r),
    BusinessDayConvention::Dummy => false } }
  #[verifier::external_body] pub fn adjust(&self, date: &OffsetDateTime, convention: &BusinessDayConvention) -> (ret: Result<OffsetDateTime>)
    requires safe(*date), self.has_next(*date), self.has_prev(*date)
    ensures ret.is_ok() == !(*convention is Dummy), match ret { Ok(r) => self.adjusted(*date, *convention, r), Err(_) => true } { unimplemented!() }
  // business days are never more than sixty days apart
  pub open spec fn lively(&self) -> bool { forall|d: OffsetDateTime| #![trigger self.has_next(d)] #![trigger self.has_prev(d)] d.wf() && day_lo() + 500 <= d.day_n() <= day_hi() - 500 ==> (exists|n: int| self.open_from(d, n) && n <= d.day_n() + 60) && (exists|n: int| self.open_upto(d, n) && d.day_n() - 60 <= n) }
}
pub open spec fn mid(d: OffsetDateTime, k: int) -> bool { d.wf() && day_lo() + k <= d.day_n() <= day_hi() - k }
pub proof fn lemma_lively(c: JointCalendar, d: OffsetDateTime) requires c.lively(), mid(d, 500) ensures safe(d), c.has_next(d), c.has_prev(d),
  forall|v: BusinessDayConvention, r: OffsetDateTime| #[trigger] c.adjusted(d, v, r) ==> r.tod() == d.tod() && r.off() == d.off() && d.day_n() - 60 <= r.day_n() <= d.day_n() + 60 && r.wf()
{ let p = c.has_next(d); let q = c.has_prev(d);
  let n = choose|n: int| c.open_from(d, n) && n <= d.day_n() + 60; assert(c.open_from(d, n)); let m = choose|m: int| c.open_upto(d, m) && d.day_n() - 60 <= m; assert(c.open_upto(d, m));
  assert forall|r: OffsetDateTime| #[trigger] c.is_next(d, r) implies r.tod() == d.tod() && r.off() == d.off() && d.day_n() <= r.day_n() <= d.day_n() + 60 by { if r.day_n() > n { assert(c.hol(d.on(n))); } }
  assert forall|r: OffsetDateTime| #[trigger] c.is_prev(d, r) implies r.tod() == d.tod() && r.off() == d.off() && d.day_n() - 60 <= r.day_n() <= d.day_n() by { if r.day_n() < m { assert(c.hol(d.on(m))); } } }
// ---------------- the unadjusted period boundaries ----------------
pub open spec fn raw_at(d: OffsetDateTime, f: PaymentFrequency, k: int, sign: int) -> OffsetDateTime { if k == 0 { d } else { step(d, freq_n(f) * k, freq_u(f), sign) } }
// k steps from the anchor reach the far end
pub open spec fn far(fwd: bool, eff: OffsetDateTime, mat: OffsetDateTime, f: PaymentFrequency, k: int) -> bool { if fwd { raw_at(eff, f, k, 1).inst() >= mat.inst() } else { raw_at(mat, f, k, -1).inst() <= eff.inst() } }
pub open spec fn is_count(fwd: bool, eff: OffsetDateTime, mat: OffsetDateTime, f: PaymentFrequency, n: int) -> bool { n >= 0 && far(fwd, eff, mat, f, n) && forall|k: int| 0 <= k < n ==> !(#[trigger] far(fwd, eff, mat, f, k)) }
// boundary i of n periods
pub open spec fn raw_bound(fwd: bool, eff: OffsetDateTime, mat: OffsetDateTime, f: PaymentFrequency, n: int, i: int) -> OffsetDateTime { if fwd { raw_at(eff, f, i, 1) } else { raw_at(mat, f, n - i, -1) } }
pub open spec fn bounds(c: JointCalendar, v: BusinessDayConvention, fwd: bool, eff: OffsetDateTime, mat: OffsetDateTime, f: PaymentFrequency, n: int, a: Seq<OffsetDateTime>) -> bool { a.len() == n + 1 && forall|i: int| 0 <= i <= n ==> c.adjusted(raw_bound(fwd, eff, mat, f, n, i), v, #[trigger] a[i]) }
pub open spec fn starts(a: Seq<OffsetDateTime>, eff: OffsetDateTime, i: int) -> OffsetDateTime { if i == 0 { eff } else { a[i] } }
pub open spec fn ends(a: Seq<OffsetDateTime>, mat: OffsetDateTime, n: int, i: int) -> OffsetDateTime { if i == n - 1 { mat } else { a[i + 1] } }
pub open spec fn period_is(b: BaseSchedule, c: JointCalendar, v: BusinessDayConvention, a: Seq<OffsetDateTime>, eff: OffsetDateTime, mat: OffsetDateTime, n: int, i: int, fg: int, pg: int) -> bool {
  &&& b.calc_start_date == starts(a, eff, i) &&& b.calc_end_date == ends(a, mat, n, i) &&& b.calc_start_date.inst() < b.calc_end_date.inst() &&& b.amount is None
  &&& c.adjusted(b.calc_start_date.plus(-(fg * dns())), BusinessDayConvention::Preceding, b.fixing_date)
  &&& if i == n - 1 { b.payment_date == mat } else { c.adjusted(b.calc_end_date.plus(pg * dns()), v, b.payment_date) } }
pub open spec fn first_of(c: int) -> int { day_no(c / 12, c % 12 + 1, 1) }
pub proof fn lemma_first(c: int, j: int) requires j >= 0 ensures first_of(c) + 28 * j <= first_of(c + j) <= first_of(c) + 31 * j decreases j
{ if j > 0 { lemma_first(c, j - 1); let b = c + j - 1; let y = b / 12; let m = b % 12 + 1; lemma_month_step(y, m); lemma_year_step(y); if m < 12 { assert((b + 1) / 12 == y && (b + 1) % 12 + 1 == m + 1); } else { assert((b + 1) / 12 == y + 1 && (b + 1) % 12 == 0); } } }
pub proof fn lemma_months_far(n: int, j: int) requires day_in(n), j >= 1, 12 <= month_count(n, 0), month_count(n, j) < 120_000 ensures n + j <= add_months(n, j) <= n + 31 * j, yr(add_months(n, j)) * 12 + mo(add_months(n, j)) - 1 == month_count(n, j)
{ lemma_ymd(n); let c = month_count(n, 0); lemma_first(c, j); assert(c / 12 == yr(n) && c % 12 + 1 == mo(n)); assert(n == first_of(c) + dm(n) - 1); lemma_months(n, j); let y = month_count(n, j) / 12; let m = month_count(n, j) % 12 + 1; lemma_ymd_is(add_months(n, j), y, m, if dm(n) <= dim(y, m) { dm(n) } else { dim(y, m) }); }
pub proof fn lemma_months_back(n: int, j: int) requires day_in(n), j >= 1, 12 <= month_count(n, -j), month_count(n, 0) < 120_000 ensures n - 31 * j - 3 <= add_months(n, -j) <= n - j, yr(add_months(n, -j)) * 12 + mo(add_months(n, -j)) - 1 == month_count(n, -j)
{ lemma_ymd(n); let c = month_count(n, -j); lemma_first(c, j); assert(month_count(n, 0) / 12 == yr(n) && month_count(n, 0) % 12 + 1 == mo(n)); assert(n == first_of(c + j) + dm(n) - 1); lemma_months(n, -j); let y = c / 12; let m = c % 12 + 1; lemma_ymd_is(add_months(n, -j), y, m, if dm(n) <= dim(y, m) { dm(n) } else { dim(y, m) }); }
pub proof fn lemma_year_room(n: int) requires day_in(n) ensures n <= day_hi() - 3990 ==> yr(n) <= 9990, n >= day_lo() + 3990 ==> yr(n) >= 10, 1 <= yr(n) <= 9999, 1 <= mo(n) <= 12, 1 <= dm(n) <= 31
{ lemma_ymd(n); let y = yr(n); lemma_in_year(y, mo(n), dm(n)); lemma_year_step(9999); lemma_year_step(y); if y > 9990 { lemma_year_mono(9991, y); lemma_year_mono(9991, 10000); } if y < 10 { lemma_year_mono(y + 1, 10); lemma_year_mono(1, 10); } }
pub open spec fn unit_days(u: Seq<char>) -> int { if u == "W"@ { 7 } else { 1 } }
pub open spec fn freq_months(f: PaymentFrequency) -> int { months_of(freq_n(f), freq_u(f)) }
pub proof fn lemma_plus_days(d: OffsetDateTime, x: int) requires d.wf() ensures d.plus(x * dns()) == d.on(d.day_n() + x) { let t = d.day_n() * dns() + d.tod() + x * dns(); assert(t / dns() == d.day_n() + x && t % dns() == d.tod()) by (nonlinear_arith) requires t == d.day_n() * 86_400_000_000_000 + d.tod() + x * 86_400_000_000_000, 0 <= d.tod() < 86_400_000_000_000, dns() == 86_400_000_000_000; }
pub open spec fn moved(m: int, i: int) -> int { if i == 0 { m } else { add_months(m, i) } }
pub proof fn lemma_of(m: int, i: int) requires day_in(m), 12 <= month_count(m, i) < 120_000 ensures first_of(month_count(m, i)) <= add_months(m, i) <= first_of(month_count(m, i)) + 30 { lemma_ymd(m); }
pub proof fn lemma_of0(m: int) requires day_in(m) ensures first_of(month_count(m, 0)) <= m <= first_of(month_count(m, 0)) + 30, month_count(m, 0) == yr(m) * 12 + mo(m) - 1 { lemma_ymd(m); assert(month_count(m, 0) / 12 == yr(m) && month_count(m, 0) % 12 + 1 == mo(m)); }
pub proof fn lemma_fwd(m: int, i: int, fm: int) requires day_in(m), m >= day_lo() + 3990, i >= 0, 1 <= fm <= 12, day_in(moved(m, i)), moved(m, i) <= day_hi() - 3990, i >= 1 ==> month_count(m, i) < 120_000
  ensures 12 <= month_count(m, i + fm) < 120_000, m + i + fm <= add_months(m, i + fm) <= moved(m, i) + 410, day_in(add_months(m, i + fm))
{ hide(before_year); hide(before_month); hide(add_months); lemma_year_room(m); lemma_year_room(moved(m, i)); lemma_of0(m);
  if i >= 1 { lemma_months_far(m, i); lemma_of(m, i); }
  assert(month_count(m, i) <= 9990 * 12 + 11); lemma_months_far(m, i + fm); lemma_of(m, i + fm); lemma_first(month_count(m, i), fm); lemma_months(m, i + fm); }
pub proof fn lemma_bwd(m: int, i: int, fm: int) requires day_in(m), m <= day_hi() - 3990, i >= 0, 1 <= fm <= 12, day_in(moved(m, -i)), moved(m, -i) >= day_lo() + 3990, i >= 1 ==> month_count(m, -i) >= 12
  ensures 12 <= month_count(m, -i - fm) < 120_000, moved(m, -i) - 410 <= add_months(m, -i - fm) <= m - i - fm, day_in(add_months(m, -i - fm))
{ hide(before_year); hide(before_month); hide(add_months); lemma_year_room(m); lemma_year_room(moved(m, -i)); lemma_of0(m);
  if i >= 1 { lemma_months_back(m, i); lemma_of(m, -i); }
  assert(month_count(m, -i) >= 120); lemma_months_back(m, i + fm); lemma_of(m, -i - fm); lemma_first(month_count(m, -i - fm), fm); lemma_months(m, -i - fm); }
pub proof fn lemma_fm(f: PaymentFrequency, k: int) requires !(f is None), by_month(freq_u(f)), k >= 1
  ensures months_of(freq_n(f) * k, freq_u(f)) == freq_months(f) * k, months_of(freq_n(f) * (k - 1), freq_u(f)) == freq_months(f) * (k - 1), freq_months(f) * k == freq_months(f) * (k - 1) + freq_months(f), freq_months(f) * (k - 1) >= k - 1, 1 <= freq_months(f) <= 12, k > 1 ==> freq_months(f) * (k - 1) >= 1, k == 1 ==> freq_months(f) * (k - 1) == 0
{ lemma_lits(); let fm = freq_months(f); let n = freq_n(f); let u = freq_u(f);
  assert(months_of(n * k, u) == fm * k) by (nonlinear_arith) requires fm == months_of(n, u), months_of(n * k, u) == (if u == "Y"@ { 12 * (n * k) } else { n * k }), months_of(n, u) == (if u == "Y"@ { 12 * n } else { n });
  assert(months_of(n * (k - 1), u) == fm * (k - 1)) by (nonlinear_arith) requires fm == months_of(n, u), months_of(n * (k - 1), u) == (if u == "Y"@ { 12 * (n * (k - 1)) } else { n * (k - 1) }), months_of(n, u) == (if u == "Y"@ { 12 * n } else { n });
  assert(fm * k == fm * (k - 1) + fm && fm * (k - 1) >= k - 1) by (nonlinear_arith) requires fm >= 1, k >= 1; }
// one step further from the anchor: defined, at least a day further and at most 410 days further
#[verifier::spinoff_prover] pub proof fn lemma_raw(d: OffsetDateTime, f: PaymentFrequency, k: int, sign: int)
  requires mid(d, 4000), !(f is None), 1 <= k <= 8_000_000, sign == 1 || sign == -1, raw_at(d, f, k - 1, sign).wf(), k > 1 ==> step_ok(d, freq_n(f) * (k - 1), freq_u(f), sign),
    sign == 1 ==> raw_at(d, f, k - 1, 1).day_n() <= day_hi() - 3990, sign == -1 ==> raw_at(d, f, k - 1, -1).day_n() >= day_lo() + 3990,
  ensures step_ok(d, freq_n(f) * k, freq_u(f), sign), raw_at(d, f, k, sign).wf(), raw_at(d, f, k, sign).tod() == d.tod(), raw_at(d, f, k, sign).off() == d.off(),
    sign == 1 ==> d.day_n() + k <= raw_at(d, f, k, sign).day_n() <= raw_at(d, f, k - 1, sign).day_n() + 410,
    sign == -1 ==> raw_at(d, f, k - 1, sign).day_n() - 410 <= raw_at(d, f, k, sign).day_n() <= d.day_n() - k,
{ hide(before_year); hide(before_month); hide(add_months); hide(yr); hide(mo); hide(dm); hide(day_hi); hide(day_lo);
  lemma_lits(); let u = freq_u(f); let n = freq_n(f); let p = raw_at(d, f, k - 1, sign); let r = raw_at(d, f, k, sign); let m = d.day_n();
  if by_month(u) {
    let fm = freq_months(f); let j = fm * k; let i = fm * (k - 1); lemma_fm(f, k);
    assert(raw_at(d, f, k - 1, sign).day_n() == moved(m, sign * i));
    if sign == 1 { lemma_fwd(m, i, fm); } else { lemma_bwd(m, i, fm); }
  } else {
    let w = unit_days(u); let x = n * k * w; let z = n * (k - 1) * w;
    assert(u == "W"@ || u == "D"@);
    assert(n * k * unit_ns(u) == x * dns() && n * (k - 1) * unit_ns(u) == z * dns()) by (nonlinear_arith) requires x == n * k * w, z == n * (k - 1) * w, unit_ns(u) == w * 86_400_000_000_000, dns() == 86_400_000_000_000;
    assert(x == z + n * w && z >= 0 && x >= k) by (nonlinear_arith) requires x == n * k * w, z == n * (k - 1) * w, 1 <= n, 1 <= w, k >= 1;
    assert(n * w <= 14);
    if sign == 1 { lemma_plus_days(d, x); lemma_plus_days(d, z); assert(1 * (n * k * unit_ns(u)) == x * dns()); } else { lemma_plus_days(d, -x); lemma_plus_days(d, -z); assert(-1 * (n * k * unit_ns(u)) == (-x) * dns()); }
  } }
pub proof fn lemma_single(d: OffsetDateTime, v: int, u: Seq<char>, sign: int) requires v >= 0, is_unit(u) ensures walk(d, seq![(dec(v), u)], sign) == step(d, v, u, sign), walk_ok(d, seq![(dec(v), u)], sign) == step_ok(d, v, u, sign)
{ lemma_term_text(v, u); let ts = seq![(dec(v), u)]; assert(ts.drop_last() =~= Seq::<(Seq<char>, Seq<char>)>::empty()); assert(ts.last() == (dec(v), u)); reveal_with_fuel(walk, 2); reveal_with_fuel(walk_ok, 2); }
pub proof fn lemma_hilo() ensures 3_000_000 <= day_hi() - day_lo() <= 4_000_000 { assert(3_000_000 <= day_hi() - day_lo() <= 4_000_000) by (compute_only); }
pub proof fn lemma_inst_day(a: OffsetDateTime, b: OffsetDateTime) requires a.wf(), b.wf(), a.inst() <= b.inst() ensures a.day_n() <= b.day_n() + 3 { }
// what the next step needs and gives
#[verifier::spinoff_prover] pub proof fn lemma_next(fwd: bool, d: OffsetDateTime, e: OffsetDateTime, f: PaymentFrequency, k: int)
  requires mid(d, 4000), mid(e, 4000), !(f is None), k >= 1, k == 1 || k <= 4_000_010, raw_at(d, f, k - 1, if fwd { 1int } else { -1 }).wf(), k > 1 ==> step_ok(d, freq_n(f) * (k - 1), freq_u(f), if fwd { 1int } else { -1 }),
    fwd ==> raw_at(d, f, k - 1, 1).inst() < e.inst(), !fwd ==> raw_at(d, f, k - 1, -1).inst() > e.inst(),
    fwd ==> raw_at(d, f, k - 1, 1).day_n() >= d.day_n() + k - 1, !fwd ==> raw_at(d, f, k - 1, -1).day_n() <= d.day_n() - (k - 1),
  ensures fwd ==> k <= e.day_n() - d.day_n() + 4, !fwd ==> k <= d.day_n() - e.day_n() + 4, 0 <= freq_n(f) * k <= 100_000_000, is_unit(freq_u(f)),
    step_ok(d, freq_n(f) * k, freq_u(f), if fwd { 1int } else { -1 }),
    walk(d, seq![(dec(freq_n(f) * k), freq_u(f))], if fwd { 1int } else { -1 }) == raw_at(d, f, k, if fwd { 1int } else { -1 }), walk_ok(d, seq![(dec(freq_n(f) * k), freq_u(f))], if fwd { 1int } else { -1 }),
    mid(raw_at(d, f, k, if fwd { 1int } else { -1 }), 3500),
    fwd ==> raw_at(d, f, k, 1).day_n() >= d.day_n() + k, !fwd ==> raw_at(d, f, k, -1).day_n() <= d.day_n() - k,
{ hide(raw_at); hide(step); hide(step_ok); hide(day_hi); hide(day_lo); hide(walk); hide(walk_ok); hide(OffsetDateTime::plus); let sign = if fwd { 1int } else { -1 }; let p = raw_at(d, f, k - 1, sign); lemma_hilo();
  if fwd { lemma_inst_day(p, e); } else { lemma_inst_day(e, p); }
  lemma_raw(d, f, k, sign); assert(0 <= freq_n(f) * k <= 100_000_000) by (nonlinear_arith) requires 1 <= freq_n(f) <= 6, 1 <= k <= 4_000_010;
  assert(is_unit(freq_u(f))); lemma_single(d, freq_n(f) * k, freq_u(f), sign); assert(raw_at(d, f, k, sign) == step(d, freq_n(f) * k, freq_u(f), sign)) by { reveal(raw_at); } }
pub proof fn lemma_gap(c: JointCalendar, d: OffsetDateTime, g: int) requires c.lively(), mid(d, 3300), -2500 <= g <= 2500 ensures d.plus(g * dns()) == d.on(d.day_n() + g), day_in(d.plus(g * dns()).day_n()), safe(d.plus(g * dns())), c.has_next(d.plus(g * dns())), c.has_prev(d.plus(g * dns()))
{ lemma_plus_days(d, g); lemma_lively(c, d.on(d.day_n() + g)); }
