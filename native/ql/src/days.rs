//! holiday rules (C17) and business-day calendars (C15)
use crate::util::{guard, Log, Rng};
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::BusinessDayConvention as B;
use quantlib::time::holiday::Holidays;
use quantlib::time::jointcalendar::JointCalendar;
use time::{Date, Duration, Month, OffsetDateTime, Time, UtcOffset, Weekday};

pub fn day(y: i32, m: u8, d: u8) -> Date {
    Date::from_calendar_date(y, Month::try_from(m).unwrap(), d).unwrap()
}
pub fn plus(d: Date, k: i64) -> Date {
    d + Duration::days(k)
}
fn mo(d: Date) -> u8 {
    d.month() as u8
}
pub fn dim(y: i32, m: u8) -> u8 {
    let n = if m == 12 { day(y + 1, 1, 1) } else { day(y, m + 1, 1) };
    plus(n, -1).day()
}
fn on(d: Date, m: u8, k: u8) -> bool {
    mo(d) == m && d.day() == k
}
fn kth(d: Date, m: u8, w: Weekday, k: u8) -> bool {
    mo(d) == m && d.weekday() == w && (d.day() - 1) / 7 == k - 1
}
fn last_in(d: Date, m: u8, w: Weekday) -> bool {
    mo(d) == m && d.weekday() == w && d.day() + 7 > dim(d.year(), m)
}
fn kept_mon(d: Date, m: u8, k: u8) -> bool {
    on(d, m, k) || (d.weekday() == Weekday::Monday && on(plus(d, -1), m, k))
}
fn kept(d: Date, m: u8, k: u8) -> bool {
    kept_mon(d, m, k) || (d.weekday() == Weekday::Friday && on(plus(d, 1), m, k))
}
fn keep(d: Date, m: u8, k: u8, friday: bool) -> bool {
    if friday { kept(d, m, k) } else { kept_mon(d, m, k) }
}
/// Easter Sunday by the anonymous Gregorian computus, and by Meeus for the Orthodox date
fn easter(y: i32, orthodox: bool) -> Date {
    if orthodox {
        let (a, b, c) = (y % 4, y % 7, y % 19);
        let d = (19 * c + 15) % 30;
        let e = (2 * a + 4 * b - d + 34) % 7;
        let md = d + e + 114;
        return plus(day(y, (md / 31) as u8, (md % 31 + 1) as u8), if y < 2100 { 13 } else { 14 });
    }
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let g = (b - (b + 8) / 25 + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let md = h + l - 7 * m + 114;
    day(y, (md / 31) as u8, (md % 31 + 1) as u8)
}
fn good_friday(d: Date, orthodox: bool) -> bool {
    (1901..=2199).contains(&d.year()) && plus(easter(d.year(), orthodox), -2) == d
}
fn ymd(d: Date) -> i32 {
    d.year() * 10000 + mo(d) as i32 * 100 + d.day() as i32
}
fn common(d: Date, friday: bool) -> bool {
    let y = d.year();
    kept_mon(d, 1, 1)
        || (if y >= 1971 { kth(d, 2, Weekday::Monday, 3) } else { kept(d, 2, 22) })
        || (if y >= 1971 { last_in(d, 5, Weekday::Monday) } else { kept(d, 5, 30) })
        || (y >= 2022 && keep(d, 6, 19, friday))
        || keep(d, 7, 4, friday)
        || kth(d, 9, Weekday::Monday, 1)
        || kth(d, 11, Weekday::Thursday, 4)
        || keep(d, 12, 25, friday)
}
fn federal(d: Date) -> bool {
    let y = d.year();
    (y >= 1983 && kth(d, 1, Weekday::Monday, 3))
        || (y >= 1971 && kth(d, 10, Weekday::Monday, 2))
        || (if (1971..=1977).contains(&y) { kth(d, 10, Weekday::Monday, 4) } else { kept_mon(d, 11, 11) })
}
fn bond(d: Date) -> bool {
    common(d, true) || federal(d) || (good_friday(d, false) && ![2015, 2021, 2023].contains(&d.year())) || [20181205, 20121030, 20040611].contains(&ymd(d))
}
const CLOSED: [i32; 25] = [
    20181205, 20121029, 20121030, 20070102, 20040611, 20010911, 20010912, 20010913, 20010914, 19940427, 19850927, 19770714, 19730125, 19721228, 19690721, 19690331, 19690210,
    19680705, 19680409, 19631125, 19610529, 19581226, 19541224, 19561224, 19651224,
];
fn closed(d: Date) -> bool {
    let y = d.year();
    CLOSED.contains(&ymd(d))
        || (y == 1968 && d >= day(1968, 6, 12) && d.weekday() == Weekday::Wednesday)
        || ((y <= 1968 || (y <= 1980 && y.rem_euclid(4) == 0)) && kth(d, 11, Weekday::Tuesday, 1))
}
fn us(t: UnitedStatesType, d: Date) -> bool {
    match t {
        UnitedStatesType::Settlement => common(d, true) || federal(d) || (d.weekday() == Weekday::Friday && on(plus(d, 1), 1, 1)),
        UnitedStatesType::Nyse => common(d, true) || (d.year() >= 1998 && kth(d, 1, Weekday::Monday, 3)) || good_friday(d, false) || closed(d),
        UnitedStatesType::GovernmentBond => bond(d),
        UnitedStatesType::FederalReserve => common(d, false) || federal(d),
        UnitedStatesType::Sofr => bond(d) || good_friday(d, false),
    }
}
fn lunar(y: i32, m: u32, d: u32) -> Option<Date> {
    use chrono::Datelike;
    let l = korean_lunar_calendar::date::LunarDate { year: y as _, month: (m as u8, false), day: d as _ };
    let g = korean_lunar_calendar::convert::lunar_to_gregorian(&l)?;
    Some(day(g.year(), g.month() as u8, g.day() as u8))
}
fn korea(t: SouthKoreaType, d: Date) -> bool {
    let y = d.year();
    let fixed = [(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)].iter().any(|&(m, k)| on(d, m, k));
    let around = |g: Option<Date>| matches!(g, Some(g) if (d - g).whole_days().abs() <= 1);
    let temp = [20230124, 20230501, 20230529, 20231002, 20240212, 20240506].contains(&ymd(d));
    fixed
        || ((1901..=2050).contains(&y) && mo(d) <= 2 && around(lunar(y, 1, 1)))
        || ((1951..=2050).contains(&y) && (4..=5).contains(&mo(d)) && lunar(y, 4, 8) == Some(d))
        || ((1951..=2050).contains(&y) && (9..=10).contains(&mo(d)) && around(lunar(y, 8, 15)))
        || temp
        || (t == SouthKoreaType::Krx && (1951..=2100).contains(&y) && year_end(d))
}
fn year_end(d: Date) -> bool {
    let w = day(d.year(), 12, 31).weekday();
    on(d, 12, if w == Weekday::Saturday { 30 } else if w == Weekday::Sunday { 29 } else { 31 })
}
const US: [UnitedStatesType; 5] = [UnitedStatesType::Settlement, UnitedStatesType::Nyse, UnitedStatesType::GovernmentBond, UnitedStatesType::FederalReserve, UnitedStatesType::Sofr];
const KR: [SouthKoreaType; 2] = [SouthKoreaType::Settlement, SouthKoreaType::Krx];

pub fn rand_date(r: &mut Rng) -> Date {
    let y = match r.below(6) { 0 => r.range(1950, 2100), 1 => r.range(1, 9990) as i64, _ => r.range(1895, 2205) } as i32;
    let y = y.max(3).min(9990);
    match r.below(4) {
        0 => plus(day(y, 12, 31), -r.range(0, 10)),
        1 => { let c = *r.pick(&CLOSED); plus(day(c / 10000, (c / 100 % 100) as u8, (c % 100) as u8), r.range(-1, 1)) }
        _ => plus(day(y, 1, 1), r.range(0, 364)),
    }
}
pub fn moment(r: &mut Rng, d: Date) -> OffsetDateTime {
    let t = match r.below(4) { 0 => Time::MIDNIGHT, 1 => Time::from_hms_nano(23, 59, 59, 999_999_999).unwrap(), _ => Time::from_hms(r.below(24) as u8, r.below(60) as u8, r.below(60) as u8).unwrap() };
    let o = UtcOffset::from_whole_seconds(match r.below(4) { 0 => 0, 1 => 9 * 3600, 2 => -5 * 3600, _ => r.range(-43200, 50400) as i32 }).unwrap();
    d.with_time(t).assume_offset(o)
}

/// one whole year of one market
pub fn rules(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let y = match r.below(5) { 0 => r.range(5, 9990), _ => r.range(1895, 2205) } as i32;
    let k = r.below(7) as usize;
    let o = moment(&mut r, day(2000, 1, 1));
    let orth = r.chance(1, 2);
    let mut d = day(y, 1, 1);
    log.step(format!("every day of {} on market {}", y, if k < 5 { format!("UnitedStatesType::{:?}", US[k]) } else { format!("SouthKoreaType::{:?}", KR[k - 5]) }));
    while d.year() == y {
        let m = d.with_time(o.time()).assume_offset(o.offset());
        let (got, want, gf) = if k < 5 {
            (guard(|| US[k].is_holiday(&m)), us(US[k], d), guard(|| US[k].is_good_friday(&m, orth)))
        } else {
            (guard(|| KR[k - 5].is_holiday(&m)), korea(KR[k - 5], d), guard(|| KR[k - 5].is_good_friday(&m, orth)))
        };
        if log.check(&["C17"], got == Ok(want), || format!("is_holiday({}) gave {:?}, the rules say {}", m, got, want)) {
            return;
        }
        if log.check(&["C17"], gf == Ok(good_friday(d, orth)), || format!("is_good_friday({}, {}) gave {:?}", m, orth, gf)) {
            return;
        }
        if k >= 5 {
            let got = guard(|| KR[k - 5].is_last_business_day_of_year(&m));
            let want = (1951..=2100).contains(&y) && year_end(d);
            if log.check(&["C17"], got == Ok(want), || format!("is_last_business_day_of_year({}) gave {:?}", m, got)) {
                return;
            }
        }
        d = plus(d, 1);
    }
}

#[derive(Clone)]
enum Kind { Null, Kr(SouthKoreaType), Us(UnitedStatesType) }
/// what the harness knows of a calendar: its market, its added and removed days
#[derive(Clone)]
struct Mine { kind: Kind, added: Vec<Date>, removed: Vec<Date> }
fn weekend(d: Date) -> bool {
    matches!(d.weekday(), Weekday::Saturday | Weekday::Sunday)
}
impl Mine {
    fn local(&self, m: &OffsetDateTime) -> Date {
        match self.kind { Kind::Null => m.date(), Kind::Kr(_) => m.to_offset(UtcOffset::from_hms(9, 0, 0).unwrap()).date(), Kind::Us(_) => m.to_offset(UtcOffset::from_hms(-5, 0, 0).unwrap()).date() }
    }
    fn rule(&self, d: Date) -> bool {
        match self.kind { Kind::Null => false, Kind::Kr(t) => korea(t, d), Kind::Us(t) => us(t, d) }
    }
    fn weekend(&self, m: &OffsetDateTime) -> bool {
        weekend(self.local(m))
    }
    fn holiday(&self, m: &OffsetDateTime) -> bool {
        let d = self.local(m);
        weekend(d) || (!self.removed.contains(&d) && (self.rule(d) || self.added.contains(&d)))
    }
}
fn make(r: &mut Rng, log: &mut Log, about: Date) -> (Calendar, Mine) {
    let (mut c, kind) = match r.below(5) {
        0 => (Calendar::NullCalendar(NullCalendar::new()), Kind::Null),
        1 | 2 => { let t = KR[r.below(2) as usize]; (Calendar::SouthKorea(SouthKorea::new(t)), Kind::Kr(t)) }
        _ => { let t = US[r.below(5) as usize]; (Calendar::UnitedStates(UnitedStates::new(t)), Kind::Us(t)) }
    };
    let mut m = Mine { kind, added: vec![], removed: vec![] };
    if !matches!(m.kind, Kind::Null) {
        if r.chance(1, 6) {
            // a long closing
            let (from, n) = (plus(about, r.range(-40, 5)), r.range(5, 50));
            log.step(format!("add_holidays on {} days from {}", n, from));
            for i in 0..n {
                let _ = c.add_holidays(&plus(from, i));
                m.added.push(plus(from, i));
            }
        }
        for _ in 0..r.below(8) {
            let d = plus(about, r.range(-12, 12));
            if r.chance(1, 2) {
                log.step(format!("add_holidays({})", d));
                let _ = c.add_holidays(&d);
                m.added.push(d);
            } else {
                log.step(format!("remove_holidays({})", d));
                let _ = c.remove_holidays(&d);
                m.removed.push(d);
            }
        }
    }
    log.step(format!("calendar {}", match &m.kind { Kind::Null => "NullCalendar".to_string(), Kind::Kr(t) => format!("SouthKorea {:?}", t), Kind::Us(t) => format!("UnitedStates {:?}", t) }));
    (c, m)
}
fn shift(m: &OffsetDateTime, k: i64) -> OffsetDateTime {
    *m + Duration::days(k)
}
fn next(hol: &dyn Fn(&OffsetDateTime) -> bool, m: &OffsetDateTime, step: i64) -> OffsetDateTime {
    let mut x = *m;
    while hol(&x) {
        x = shift(&x, step);
    }
    x
}
fn adjusted(hol: &dyn Fn(&OffsetDateTime) -> bool, m: &OffsetDateTime, c: B) -> OffsetDateTime {
    let (f, p) = (next(hol, m, 1), next(hol, m, -1));
    match c {
        B::Following => f,
        B::Preceding => p,
        B::ModifiedFollowing => if f.month() == m.month() { f } else { p },
        B::ModifiedPreceding => if p.month() == m.month() { p } else { f },
        _ => *m,
    }
}
fn answers(c: &dyn CalendarTrait, hol: &dyn Fn(&OffsetDateTime) -> bool, wk: &dyn Fn(&OffsetDateTime) -> bool, m: &OffsetDateTime, r: &mut Rng, log: &mut Log) -> bool {
    let got = guard(|| (c.is_holiday(m), c.is_weekend(m), c.is_business_day(m)));
    let want = (hol(m), wk(m), !hol(m));
    if log.check(&["C15"], got == Ok(want), || format!("(is_holiday, is_weekend, is_business_day) of {} gave {:?}, expected {:?}", m, got, want)) {
        return true;
    }
    let conv = *r.pick(&[B::Unadjusted, B::Following, B::Preceding, B::ModifiedFollowing, B::ModifiedPreceding]);
    let got = guard(|| c.adjust(m, &conv).map_err(|e| e.to_string()));
    let want = adjusted(hol, m, conv);
    let ok = matches!(&got, Ok(Ok(g)) if *g == want && g.offset() == want.offset());
    log.check(&["C15"], ok, || format!("adjust({}, {:?}) gave {:?}, expected {}", m, conv, got, want))
}
pub fn calendars(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let d = rand_date(&mut r);
    let k = r.below(3) as usize;
    if k == 0 {
        let (c, m) = make(&mut r, log, d);
        for _ in 0..30 {
            let q = plus(d, r.range(-15, 15));
            let t = moment(&mut r, q);
            if answers(&c, &|x| m.holiday(x), &|x| m.weekend(x), &t, &mut r, log) {
                return;
            }
        }
        let (y, mm) = (d.year(), mo(d));
        let got = guard(|| (c.last_day_of_month(y, Month::try_from(mm).unwrap()), c.is_leap_year(y)));
        let want = (day(y, mm, dim(y, mm)), dim(y, 2) == 29);
        log.check(&["C15"], got == Ok(want), || format!("last_day_of_month({}, {}), is_leap_year gave {:?}", y, mm, got));
        return;
    }
    let (cs, ms): (Vec<_>, Vec<_>) = (0..k + 1).map(|_| make(&mut r, log, d)).unzip();
    let j = match guard(|| JointCalendar::new(cs)) { Ok(Ok(j)) => j, x => { log.check(&["C15"], false, || format!("JointCalendar::new gave {:?}", x.map(|r| r.is_ok()))); return; } };
    log.step("joined".to_string());
    for _ in 0..20 {
        let q = plus(d, r.range(-15, 15));
        let t = moment(&mut r, q);
        let hol = |x: &OffsetDateTime| ms.iter().any(|m| m.holiday(x));
        if answers(&j, &hol, &|x| ms.iter().any(|m| m.weekend(x)), &t, &mut r, log) {
            return;
        }
        let got = guard(|| j.is_business_day(&t));
        if log.check(&["C15"], got == Ok(!hol(&t)), || format!("JointCalendar::is_business_day({}) gave {:?}", t, got)) {
            return;
        }
    }
}
