//! period arithmetic (C18), day counts (C19) and coupon schedules (C20)
use crate::days::{day, dim, moment, plus, rand_date};
use crate::util::{guard, Log, Rng};
use quantlib::instruments::schedule::build_schedule;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::util::{min_offsetdatetime, to_yyyymmdd_int};
use quantlib::utils::string_arithmetic::{add_period, add_period_date, from_i32_to_month, from_month_to_i32, from_period_string_to_float, sub_period, sub_period_date};
use time::{Date, Duration, Month, OffsetDateTime};

fn known(key: &str) -> bool {
    std::env::var("TE_KNOWN").unwrap_or_default().split('\x1f').any(|k| k == key)
}
const UNITS: [(&str, i64); 7] = [("Y", 0), ("M", 0), ("W", 604800), ("D", 86400), ("h", 3600), ("min", 60), ("sec", 1)];
fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
/// k months on: same day of the month or its last day
fn months_on(d: Date, k: i64) -> Option<Date> {
    let c = d.year() as i64 * 12 + d.month() as i64 - 1 + k;
    let (y, m) = (c.div_euclid(12) as i32, c.rem_euclid(12) as u8 + 1);
    if !(5..=9995).contains(&y) {
        return None;
    }
    Some(day(y, m, d.day().min(dim(y, m))))
}
fn step(m: OffsetDateTime, v: i64, u: usize, sign: i64) -> Option<OffsetDateTime> {
    if u < 2 {
        let d = months_on(m.date(), sign * v * if u == 0 { 12 } else { 1 })?;
        return Some(d.with_time(m.time()).assume_offset(m.offset()));
    }
    let r = m.checked_add(Duration::seconds(sign * v * UNITS[u].1))?;
    if (5..=9995).contains(&r.year()) { Some(r) } else { None }
}
fn text(ts: &[(i64, usize)]) -> String {
    ts.iter().map(|(v, u)| format!("{}{}", v, UNITS[*u].0)).collect()
}
const FREQ: [(F, i64, usize); 10] = [
    (F::Daily, 1, 3), (F::Weekly, 1, 2), (F::BiWeekly, 2, 2), (F::SemiMonthly, 2, 2), (F::Monthly, 1, 1), (F::SemiQuarterly, 2, 1), (F::Quarterly, 3, 1), (F::TriAnnually, 4, 1), (F::SemiAnnually, 6, 1), (F::Annually, 1, 0),
];
fn month_end(r: &mut Rng, d: Date) -> Date {
    let x = dim(d.year(), d.month() as u8);
    if r.chance(1, 2) { day(d.year(), d.month() as u8, x - r.below(4) as u8) } else { d }
}

pub fn period(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let k = r.below(12) as i32;
    let got = guard(|| (from_i32_to_month(k), from_month_to_i32(Month::try_from(k as u8 + 1).unwrap())));
    if log.check(&["C18"], got == Ok((Month::try_from(k as u8 + 1).unwrap(), k)), || format!("month {} gave {:?}", k, got)) {
        return;
    }
    let (f, n, u) = FREQ[r.below(10) as usize];
    let m = match r.below(3) { 0 => r.range(0, 20), 1 => r.range(0, 1000), _ => r.range(0, 300_000_000) } as i32;
    let got = guard(|| f.to_string_with_multiple(m));
    if log.check(&["C18"], got == Ok(format!("{}{}", n * m as i64, UNITS[u].0)), || format!("{:?}.to_string_with_multiple({}) gave {:?}", f, m, got)) {
        return;
    }
    for _ in 0..30 {
        let base = rand_date(&mut r);
        let base = month_end(&mut r, base);
        let at = moment(&mut r, base);
        if !(10..=9990).contains(&at.year()) {
            continue;
        }
        let only_dates = r.chance(1, 2);
        let cnt = 1 + r.below(4) as usize;
        let ts: Vec<(i64, usize)> = (0..cnt).map(|_| {
            let u = r.below(if only_dates { 4 } else { 7 }) as usize;
            let v = match r.below(4) { 0 => r.range(0, 3), 1 => r.range(0, 40), 2 => r.range(0, 400), _ => r.range(0, 4000) };
            (v, u)
        }).collect();
        let s = text(&ts);
        let walk = |sign: i64| ts.iter().try_fold(at, |a, &(v, u)| step(a, v, u, sign));
        let want: f64 = ts.iter().map(|&(v, u)| v as f64 * match u { 0 => 1.0, 1 => 30.5 / 365.25, _ => UNITS[u].1 as f64 / (365.25 * 86400.0) }).sum();
        let got = guard(|| from_period_string_to_float(&s).ok());
        if log.check(&["C18"], matches!(&got, Ok(Some(x)) if (*x as f64 - want).abs() <= 4e-6 * (1.0 + want)), || format!("from_period_string_to_float({}) gave {:?}, expected {}", s, got, want)) {
            return;
        }
        if let Some(w) = walk(1) {
            let got = guard(|| add_period(&at, &s));
            if log.check(&["C18"], matches!(&got, Ok(g) if *g == w && g.offset() == w.offset()), || format!("add_period({}, {}) gave {:?}, expected {}", at, s, got, w)) {
                return;
            }
            if only_dates {
                let got = guard(|| add_period_date(&base, &s));
                if log.check(&["C18"], got == Ok(w.date()), || format!("add_period_date({}, {}) gave {:?}, expected {}", base, s, got, w.date())) {
                    return;
                }
            }
        }
        if let Some(w) = walk(-1) {
            let got = guard(|| sub_period(&at, &s));
            if log.check(&["C18"], matches!(&got, Ok(g) if *g == w && g.offset() == w.offset()), || format!("sub_period({}, {}) gave {:?}, expected {}", at, s, got, w)) {
                return;
            }
            // known finding back-months: past more than one January the year comes out as it would from truncating division
            let mut deep = false;
            let mut a = Some(at);
            for &(v, u) in &ts {
                if let Some(x) = a {
                    deep |= u == 1 && v > x.month() as i64 + 11;
                    a = step(x, v, u, -1);
                }
            }
            if only_dates && !(deep && known("back-months")) {
                let got = guard(|| sub_period_date(&base, &s));
                if log.check(&["C18"], got == Ok(w.date()), || format!("sub_period_date({}, {}) gave {:?}, expected {}", base, s, got, w.date())) {
                    return;
                }
            }
        }
    }
    for s in ["", "Y", "12", "None", "5x", "mon"] {
        let got = guard(|| from_period_string_to_float(s).is_err());
        if log.check(&["C18"], got == Ok(true), || format!("from_period_string_to_float({:?}) gave {:?}", s, got)) {
            return;
        }
    }
}

fn len(y: i32) -> f64 {
    if leap(y) { 366.0 } else { 365.0 }
}
/// (day of the year, counted from 0) over the length of the year, plus the year: its differences are shares of years
fn cal(d: Date) -> f64 {
    d.year() as f64 + (d.ordinal() as f64 - 1.0) / len(d.year())
}
fn fraction(s: &OffsetDateTime, e: &OffsetDateTime, c: D) -> f64 {
    let days = (*e - *s).whole_days() as f64;
    let t = |a: OffsetDateTime| (a.year() as i64 * 360 + (a.month() as i64) * 30, a.day() as i64);
    let ((a, da), (b, db)) = (t(*s), t(*e));
    match c {
        D::Actual365Fixed => days / 365.0,
        D::Actual360 => days / 360.0,
        D::Actual364 => days / 364.0,
        D::Thirty360 => (b - a + db - da) as f64 / 360.0,
        D::StreetConvention => { let (x, z) = if da == 31 { (30, db.min(30)) } else { (da, db) }; (b - a + z - x) as f64 / 360.0 }
        _ => cal(e.date()) - cal(s.date()),
    }
}
fn near(x: f32, w: f64) -> bool {
    (x as f64 - w).abs() <= 2e-6 + 2e-6 * w.abs()
}
const COUNTS: [D; 6] = [D::Actual365Fixed, D::Actual360, D::Actual364, D::Thirty360, D::ActActIsda, D::StreetConvention];
fn markets() -> Vec<Calendar> {
    vec![Calendar::NullCalendar(NullCalendar::new()), Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)), Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Nyse)), Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Settlement))]
}

pub fn daycount(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let cs = markets();
    let j = JointCalendar::new(vec![cs[r.below(4) as usize].clone(), cs[r.below(4) as usize].clone()]).unwrap();
    for _ in 0..40 {
        let d = rand_date(&mut r);
        let d = month_end(&mut r, d);
        let s = moment(&mut r, d);
        if !(100..=9600).contains(&d.year()) {
            continue;
        }
        let d2 = plus(d, match r.below(5) { 0 => r.range(0, 3), 1 => r.range(0, 40), 2 => r.range(0, 800), 3 => r.range(-30, 20000), _ => r.range(0, 100_000) });
        let e = match r.below(3) { 0 => moment(&mut r, d2), _ => d2.with_time(s.time()).assume_offset(s.offset()) };
        if !(5..=9990).contains(&s.year()) || !(5..=9990).contains(&e.year()) {
            continue;
        }
        let c = COUNTS[r.below(6) as usize];
        let isda_ok = c != D::ActActIsda || (s.offset() == e.offset() && s.time() == e.time());
        let k = &cs[r.below(4) as usize];
        if isda_ok {
            let want = if s <= e { Some(fraction(&s, &e, c)) } else { None };
            for (who, got) in [("calendar", guard(|| k.year_fraction(&s, &e, &c).ok())), ("joint calendar", guard(|| j.year_fraction(&s, &e, &c).ok()))] {
                let ok = match (&got, want) { (Ok(Some(x)), Some(w)) => near(*x, w), (Ok(None), None) => true, _ => false };
                if log.check(&["C19"], ok, || format!("{} year_fraction({}, {}, {:?}) gave {:?}, expected {:?}", who, s, e, c, got, want)) {
                    return;
                }
            }
            let got = guard(|| k.year_fraction(&s, &e, &D::Dummy).is_err());
            if log.check(&["C19"], got == Ok(true), || format!("year_fraction with Dummy gave {:?}", got)) {
                return;
            }
        }
        let got = guard(|| (min_offsetdatetime(&s, &e), to_yyyymmdd_int(&s), k.unpack_date(&s)));
        let want = (if s < e { s } else { e }, s.year() * 10000 + s.month() as i32 * 100 + s.day() as i32, (s.year(), s.month(), s.day(), s.weekday(), s.ordinal()));
        if log.check(&["C19"], got == Ok(want), || format!("(min, yyyymmdd, unpack) of {} and {} gave {:?}", s, e, got)) {
            return;
        }
        let y = s.year();
        let got = guard(|| k.is_leap_year(y));
        if log.check(&["C19"], got == Ok(leap(y)), || format!("is_leap_year({}) gave {:?}", y, got)) {
            return;
        }
        let e = e.to_offset(s.offset());
        if s <= e {
            // each year's share; the year is cut at the midnight opening 31 December
            let tl = |m: OffsetDateTime| (m.date() - day(m.year(), 1, 1)).whole_days() as f64 + (m.time() - time::Time::MIDNIGHT).as_seconds_f64() / 86400.0;
            let (a, b) = (s.year(), e.year());
            let want = if a == b { (tl(e) - tl(s)) / len(a) } else { (len(a) - 1.0 - tl(s)) / len(a) + (b - a - 1) as f64 + (tl(e) + 1.0) / len(b) };
            let plain = if a == b { want } else { (len(a) - tl(s)) / len(a) + (b - a - 1) as f64 + tl(e) / len(b) };
            let got = guard(|| k.get_time_difference(&s, &e));
            if log.check(&["C19"], matches!(&got, Ok(x) if near(*x, want) || near(*x, plain)), || format!("get_time_difference({}, {}) gave {:?}, expected {}", s, e, got, want)) {
                return;
            }
            let back = guard(|| k.get_time_difference(&e, &s));
            if log.check(&["C19"], matches!((&got, &back), (Ok(x), Ok(y)) if near(-*y, *x as f64)), || format!("get_time_difference({}, {}) gave {:?}, the other way round {:?}", s, e, got, back)) {
                return;
            }
            let late = b > a && want < 0.0;
            if log.check(&["C19"], matches!(&got, Ok(x) if *x >= 0.0) || (late && known("late-year")), || format!("get_time_difference({}, {}) gave {:?}: negative", s, e, got)) {
                return;
            }
        }
    }
}

const CONV: [B; 6] = [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding, B::Dummy];
fn days_on(m: OffsetDateTime, k: i64) -> OffsetDateTime {
    m + Duration::days(k)
}
fn adjusted(c: &JointCalendar, m: OffsetDateTime, v: B) -> OffsetDateTime {
    let walk = |s: i64| { let mut x = m; while c.is_holiday(&x) { x = days_on(x, s); } x };
    let (f, p) = (walk(1), walk(-1));
    match v {
        B::Following => f,
        B::Preceding => p,
        B::ModifiedFollowing => if f.month() == m.month() { f } else { p },
        B::ModifiedPreceding => if p.month() == m.month() { p } else { f },
        _ => m,
    }
}
type Row = (OffsetDateTime, OffsetDateTime, OffsetDateTime, OffsetDateTime);
fn reference(fwd: bool, eff: OffsetDateTime, mat: OffsetDateTime, c: &JointCalendar, v: B, f: (F, i64, usize), fg: i64, pg: i64) -> Option<Vec<Row>> {
    if fg < 0 || pg < 0 || v == B::Dummy {
        return None;
    }
    let mut raw = vec![];
    for k in 0.. {
        let x = if k == 0 { if fwd { eff } else { mat } } else { step(if fwd { eff } else { mat }, k * f.1, f.2, if fwd { 1 } else { -1 })? };
        raw.push(x);
        if if fwd { x >= mat } else { x <= eff } {
            break;
        }
    }
    if !fwd {
        raw.reverse();
    }
    let n = raw.len() - 1;
    let adj: Vec<_> = raw.iter().map(|x| adjusted(c, *x, v)).collect();
    let mut out = vec![];
    for i in 0..n {
        let s = if i == 0 { eff } else { adj[i] };
        let e = if i == n - 1 { mat } else { adj[i + 1] };
        if e <= s {
            return None;
        }
        out.push((adjusted(c, days_on(s, -fg), B::Preceding), s, e, if i == n - 1 { mat } else { adjusted(c, days_on(e, pg), v) }));
    }
    Some(out)
}

pub fn schedule(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let cs = markets();
    let mut j = vec![cs[r.below(4) as usize].clone()];
    if r.chance(1, 3) {
        j.push(cs[r.below(4) as usize].clone());
    }
    let j = JointCalendar::new(j).unwrap();
    for _ in 0..4 {
        let f = FREQ[r.below(10) as usize];
        let d = day(r.range(1930, 2150) as i32, 1 + r.below(12) as u8, 1 + r.below(28) as u8);
        let d = month_end(&mut r, d);
        let eff = moment(&mut r, d);
        let per = match f.2 { 3 => 1, 2 => 7, 1 => 30, _ => 365 } * f.1;
        let span = match r.below(4) { 0 => r.range(-40, 40), 1 => r.range(0, 2 * per + 4), _ => r.range(1, 15 * per) };
        let d2 = match r.below(3) {
            0 => months_on(d, r.range(0, 40)).unwrap(),
            _ => plus(d, span),
        };
        if (d2 - d).whole_days() > 40 * per {
            continue;
        }
        let mat = match r.below(4) { 0 => moment(&mut r, d2), _ => d2.with_time(eff.time()).assume_offset(eff.offset()) };
        let v = CONV[if r.chance(1, 12) { 5 } else { r.below(5) as usize }];
        let g = |r: &mut Rng| match r.below(6) { 0 => -r.range(0, 1), 1 | 2 => 0, _ => r.range(0, 12) };
        let (fg, pg, fwd) = (g(&mut r), g(&mut r), r.chance(1, 2));
        let want = reference(fwd, eff, mat, &j, v, f, fg, pg);
        let got = guard(|| build_schedule(fwd, &eff, &mat, &j, &v, &f.0, fg, pg).ok().map(|s| (s.len(), s.is_empty(), s.iter().map(|b| (*b.get_fixing_date(), *b.get_calc_start_date(), *b.get_calc_end_date(), *b.get_payment_date())).collect::<Vec<Row>>(), s.iter().all(|b| b.get_amount().is_none()))));
        let ok = match (&got, &want) {
            (Ok(None), None) => true,
            (Ok(Some((l, e, rows, none))), Some(w)) => rows == w && *l == w.len() && *e == w.is_empty() && *none && rows.iter().zip(w).all(|(a, b)| a.0.offset() == b.0.offset() && a.3.offset() == b.3.offset()),
            _ => false,
        };
        if log.check(&["C20"], ok, || format!("build_schedule(forward {}, effective {}, maturity {}, {}, {:?}, {:?}, fixing gap {}, payment gap {}) gave {:?}, expected {:?}", fwd, eff, mat, j.calendar_name(), v, f.0, fg, pg, got, want)) {
            return;
        }
    }
}
