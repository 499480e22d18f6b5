//! payments of bonds and swaps (C21)
use crate::days::{day, moment, plus};
use crate::util::{guard, Log, Rng};
use ndarray::Array1;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{Compounding, CreditRating, IssuerType, RankType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::InstrumentTrait;
use quantlib::instruments::bond::Bond;
use quantlib::instruments::plain_swap::{PlainSwap, PlainSwapType};
use quantlib::instruments::schedule::{build_schedule, BaseSchedule, Schedule};
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::utils::string_arithmetic::add_period;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, UtcOffset};

pub const CCY: [Currency; 4] = [Currency::KRW, Currency::USD, Currency::JPY, Currency::EUR];
const DC: [D; 6] = [D::Actual365Fixed, D::Actual360, D::Actual364, D::Thirty360, D::ActActIsda, D::StreetConvention];
const BD: [B; 5] = [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding];

pub fn near(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 3e-5 * (scale + b.abs())
}
pub fn real(r: &mut Rng, lo: f64, hi: f64) -> f32 {
    (lo + (hi - lo) * (r.below(1_000_001) as f64 / 1e6)) as f32
}
pub fn opt<T>(r: &mut Rng, num: u64, v: T) -> Option<T> {
    if r.chance(num, 10) { Some(v) } else { None }
}
pub fn cal(r: &mut Rng) -> JointCalendar {
    let all = [Calendar::NullCalendar(NullCalendar::new()), Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)), Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Settlement))];
    JointCalendar::new((0..1 + r.below(2)).map(|_| all[r.below(3) as usize].clone()).collect()).unwrap()
}
/// a curve with a handful of zero rates
pub fn curve(r: &mut Rng, eval: &Rc<RefCell<EvaluationDate>>) -> ZeroCurve {
    let n = 1 + r.below(6) as usize;
    let mut t: Vec<f32> = (0..n).map(|i| i as f32 * 0.7 + real(r, 0.05, 0.6)).collect();
    t.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let v: Vec<f32> = (0..n).map(|_| real(r, -0.01, 0.08)).collect();
    let at = eval.borrow().get_date_clone();
    let data = VectorData::new(Array1::from(v), None, Some(Array1::from(t)), Some(at), Currency::KRW, "c".into(), "c".into()).unwrap();
    ZeroCurve::new(eval.clone(), &data, "c".into(), "c".into()).unwrap()
}
pub fn closes(h: HashMap<Date, f32>) -> DailyClosePrice {
    DailyClosePrice::new(h, time::Time::from_hms(16, 30, 0).unwrap(), UtcOffset::UTC, Calendar::NullCalendar(NullCalendar::new()), "p".into(), "p".into())
}
/// everything one coupon depends on
struct Env<'a> { tenor: &'a str, zc: &'a ZeroCurve, past: &'a HashMap<Date, f32>, pd: OffsetDateTime, cal: &'a JointCalendar, dc: D, gap: i64, spread: f64 }
fn fwd(v: &Env, a: OffsetDateTime, b: OffsetDateTime) -> Option<f64> {
    v.zc.get_forward_rate_between_dates(&a, &b, Compounding::Simple).ok().map(|x| x as f64)
}
fn share(v: &Env, a: OffsetDateTime, b: OffsetDateTime) -> Option<f64> {
    v.cal.year_fraction(&a, &b, &v.dc).ok().map(|x| x as f64)
}
fn coupon(v: &Env, ct: Option<&String>, b: &BaseSchedule) -> Option<f64> {
    let (fx, s, e) = (*b.get_fixing_date(), *b.get_calc_start_date(), *b.get_calc_end_date());
    let end = |d: OffsetDateTime| add_period(&d, v.tenor);
    match ct {
        None => {
            let rate = if fx < v.pd { match v.past.get(&fx.date()) { Some(x) => *x as f64, None => v.zc.get_forward_rate_from_evaluation_date(&end(fx), Compounding::Simple).ok()? as f64 } } else { fwd(v, fx, end(fx))? };
            Some((rate + v.spread) * share(v, s, e)?)
        }
        Some(_) if fx >= v.pd => {
            let last = e - Duration::days(v.gap);
            Some(((fwd(v, fx, end(fx))? + fwd(v, last, end(last))?) / 2.0 + v.spread) * share(v, s, e)?)
        }
        Some(t) => {
            let spot = fwd(v, v.pd, add_period(&v.pd, t))?;
            let (mut d, mut acc) = (s, 1.0);
            while d < e {
                let fx = v.cal.adjust(&(d - Duration::days(v.gap)), &B::Preceding).ok()?;
                let n = add_period(&d, t).min(e);
                let rate = if fx < v.pd { v.past.get(&fx.date()).map(|x| *x as f64).unwrap_or(spot) } else { fwd(v, fx, end(fx))? };
                acc *= 1.0 + (rate + v.spread) * share(v, d, n)?;
                d = n;
            }
            Some(acc - 1.0)
        }
    }
}
pub type Due = HashMap<i128, f64>;
fn post(m: &mut Due, pd: &OffsetDateTime, at: &OffsetDateTime, a: Option<f64>) {
    if let Some(a) = a {
        if at.date() >= pd.date() {
            *m.entry(at.unix_timestamp_nanos()).or_insert(0.0) += a;
        }
    }
}
fn same(got: &Result<Option<HashMap<OffsetDateTime, f32>>, String>, want: &Option<Due>, scale: f64) -> bool {
    match (got, want) {
        (Ok(None), None) => true,
        (Ok(Some(g)), Some(w)) => g.len() == w.len() && g.iter().all(|(k, x)| w.get(&k.unix_timestamp_nanos()).map_or(false, |y| near(*x as f64, *y, scale))),
        _ => false,
    }
}
fn legs(r: &mut Rng, eval: OffsetDateTime, gap: i64, given: bool) -> Vec<BaseSchedule> {
    let n = r.below(5) as i64;
    let mut s = eval + Duration::days(r.range(-150, 60));
    (0..n).map(|_| {
        let len = if r.chance(1, 25) { -5 } else { *r.pick(&[1i64, 7, 30, 31, 90, 91, 182]) };
        let e = s + Duration::days(len);
        let fx = s - Duration::days(if r.chance(9, 10) { gap } else { r.range(-3, 200) });
        let pay = match r.below(6) { 0 => eval, 1 => e.to_offset(UtcOffset::from_hms(-5, 0, 0).unwrap()), 2 => e + Duration::days(r.range(0, 3)), _ => e };
        let a = real(r, 0.0, 2.0);
        let b = BaseSchedule::new(fx, s, e, pay, if given { opt(r, 2, a) } else { None });
        s = if r.chance(1, 12) { s } else { e };
        b
    }).collect()
}
fn kind(i1: bool, i2: bool, l1: bool, l2: bool, fixed: bool, index: bool, legs: bool, one: bool, soon: bool) -> Option<PlainSwapType> {
    match (one, i1, i2, l1, l2, fixed, index) {
        (true, false, false, false, false, true, true) => Some(PlainSwapType::IRS),
        (false, true, true, true, true, true, true) => Some(PlainSwapType::CRS),
        (false, true, true, true, true, false, false) if !legs => Some(PlainSwapType::FxSwap),
        (false, false, false, true, true, false, false) if !legs => Some(if soon { PlainSwapType::FxSpot } else { PlainSwapType::FxForward }),
        _ => None,
    }
}
pub fn json<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap()
}

pub fn cashflows(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let r = &mut r;
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let eval = moment(r, d0);
    let ev = Rc::new(RefCell::new(EvaluationDate::new(eval)));
    let zc = Rc::new(RefCell::new(curve(r, &ev)));
    for _ in 0..6 {
        let pd = if r.chance(9, 10) { eval } else { eval + Duration::days(r.range(0, 40)) };
        let (c, dc, dc2, gap) = (cal(r), *r.pick(&DC), *r.pick(&DC), *r.pick(&[0i64, 0, 1, 2, 5]));
        let tenor = r.pick(&["1D", "91D", "3M", "6M"]).to_string();
        let ri = RateIndex::new(tenor.clone(), Currency::KRW, "i".into(), "i".into()).unwrap();
        let ct = { let t = r.pick(&["1D", "3D", "1W", "1M", "1Y"]).to_string(); opt(r, 5, t) };
        let mut past = HashMap::new();
        for k in 0..200 {
            if r.chance(4, 5) {
                past.insert(plus(d0, 5 - k), real(r, -0.01, 0.09));
            }
        }
        let given = opt(r, 8, Rc::new(closes(past.clone())));
        if given.is_none() {
            past.clear();
        }
        let spread = { let x = real(r, -0.01, 0.02); opt(r, 5, x) };
        // ---- bonds
        let rate = { let x = real(r, 0.0, 0.1); opt(r, 5, x) };
        let index = if r.chance(9, 10) { if rate.is_some() { None } else { Some(ri.clone()) } } else { opt(r, 5, ri.clone()) };
        let b = legs(r, eval, gap, true);
        let mat = match b.last() { Some(x) if r.chance(4, 5) => if r.chance(1, 2) { *x.get_payment_date() } else { *x.get_calc_end_date() }, _ => eval + Duration::days(r.range(-3, 300)) };
        let (issue, strip) = (eval - Duration::days(200), r.chance(1, 4));
        let bond = |s: Schedule, i: OffsetDateTime, e: OffsetDateTime, m: OffsetDateTime, f: F| Bond::new(IssuerType::Government, CreditRating::None, "me".into(), RankType::Senior, Currency::KRW, 10000.0, strip, s, rate, spread, index.clone(), ct.clone(), i, e, Some(pd), m, c.clone(), dc, B::Unadjusted, f, 0, gap, "b".into(), "b".into());
        let x = guard(|| bond(Schedule::new(b.clone()), issue, issue, mat, F::Monthly).ok());
        let ok = rate.is_some() != index.is_some();
        if log.check(&["C21"], matches!(&x, Ok(y) if y.is_some() == ok), || format!("Bond::new with fixed rate {:?} and rate index {:?} gave {:?}", rate, index, x.as_ref().map(|y| y.is_some()))) {
            return;
        }
        let env = Env { tenor: &tenor, zc: &zc.borrow(), past: &past, pd, cal: &c, dc, gap, spread: spread.unwrap_or(0.0) as f64 };
        if let Ok(Some(x)) = &x {
            let want = (|| {
                let mut m = Due::new();
                for s in &b {
                    if s.get_payment_date().date() >= pd.date() {
                        let a = match (s.get_amount(), &index) { (Some(a), _) => a as f64, (None, Some(_)) => coupon(&env, ct.as_ref(), s)?, (None, None) => share(&env, *s.get_calc_start_date(), *s.get_calc_end_date())? * rate.unwrap() as f64 };
                        post(&mut m, &pd, s.get_payment_date(), Some(a));
                    }
                }
                post(&mut m, &pd, &mat, if strip { None } else { Some(1.0) });
                Some(m)
            })();
            let got = guard(|| x.get_cashflows(&pd, Some(zc.clone()), given.clone()).ok());
            if log.check(&["C21"], same(&got, &want, 2.0), || format!("bond priced on {} (strip {}, fixed {:?}, index tenor {}, compounding {:?}, spread {:?}, gap {}, {:?}, maturity {}) with periods {:?} pays {:?}, expected {:?}", pd, strip, rate, tenor, ct, spread, gap, dc, mat, b, got, want)) {
                return;
            }
            let got = guard(|| x.get_cashflows(&pd, None, None).ok());
            if index.is_none() && log.check(&["C21"], same(&got, &want, 1.0), || format!("fixed bond without a curve pays {:?}, expected {:?}", got, want)) {
                return;
            }
        }
        // ---- the same from conventions
        let (f, bd, fg) = (*r.pick(&[F::Monthly, F::Quarterly, F::SemiAnnually, F::Annually]), *r.pick(&BD), r.chance(1, 2));
        let (eff, m) = (eval - Duration::days(r.range(0, 200)), eval + Duration::days(r.range(-20, 800)));
        let (g1, g2) = (r.range(0, 2), r.range(0, 2));
        let sch = |b: &B, f: &F| guard(|| build_schedule(fg, &eff, &m, &c, b, f, g1, g2).ok());
        let x = guard(|| Bond::new_from_conventions(IssuerType::Government, CreditRating::None, "me".into(), RankType::Senior, Currency::KRW, 10000.0, strip, issue, eff, Some(pd), m, rate, spread, index.clone(), ct.clone(), c.clone(), fg, dc, bd, f, g1, g2, "b".into(), "b".into()).ok());
        if let Ok(s) = sch(&bd, &f) {
            let want = s.filter(|_| ok).map(|s| Bond::new(IssuerType::Government, CreditRating::None, "me".into(), RankType::Senior, Currency::KRW, 10000.0, strip, s, rate, spread, index.clone(), ct.clone(), issue, eff, Some(pd), m, c.clone(), dc, bd, f, g2, g1, "b".into(), "b".into()).unwrap());
            let good = matches!((&x, &want), (Ok(None), None)) || matches!((&x, &want), (Ok(Some(a)), Some(b)) if json(a) == json(b));
            if log.check(&["C21"], good, || format!("Bond::new_from_conventions({} to {}, {:?}, {:?}, fixed {:?}, index {:?}) gave {}, expected {}", eff, m, bd, f, rate, index, x.as_ref().map_or("a panic".into(), json), json(&want))) {
                return;
            }
        }
        // ---- swaps
        let (cy1, cy2) = (*r.pick(&CCY[..2]), *r.pick(&CCY[..2]));
        let amt = |r: &mut Rng, on: bool| { let x = real(r, 0.0, 3.0); if on { Some(x) } else { None } };
        let shape = if cy1 == cy2 { 0 } else { 1 + r.below(3) };
        let mut on = match shape { 0 => [false, false, false, false, true, true, true], 1 => [true, true, true, true, true, true, true], 2 => [true, true, true, true, false, false, false], _ => [false, false, true, true, false, false, false] };
        if r.chance(1, 4) {
            let k = r.below(7) as usize;
            on[k] = !on[k];
        }
        let (i1, i2, l1, l2) = (amt(r, on[0]), amt(r, on[1]), amt(r, on[2]), amt(r, on[3]));
        let (rate, index) = (amt(r, on[4]).map(|x| x / 30.0), if on[5] { Some(ri.clone()) } else { None });
        let (f1, f2) = if on[6] { (legs(r, eval, gap, false), legs(r, eval, gap, false)) } else { (vec![], vec![]) };
        let eff = eval + Duration::days(r.range(-3, 3));
        let mat = match f1.last() { Some(x) if r.chance(1, 2) => *x.get_payment_date(), _ => match r.below(6) { 0 => eff, 1 => eff + Duration::days(1), _ => eval + Duration::days(r.range(-2, 200)) } };
        let issue = match r.below(3) { 0 => mat - Duration::days(2), 1 => mat - Duration::days(3), _ => eff - Duration::days(r.range(0, 3)) };
        let soon = mat.date() <= issue.date() + Duration::days(2);
        let k = kind(i1.is_some(), i2.is_some(), l1.is_some(), l2.is_some(), rate.is_some(), index.is_some(), !f1.is_empty() || !f2.is_empty(), cy1 == cy2, soon);
        let mk = |a: Schedule, b: Schedule, issue: OffsetDateTime, eff: OffsetDateTime, mat: OffsetDateTime, b1: B, b2: B, q1: F, q2: F, g: (i64, i64)| PlainSwap::new(a, b, rate, index.clone(), ct.clone(), c.clone(), 100.0, issue, eff, mat, cy1, cy2, i1, i2, l1, l2, dc, dc2, b1, b2, q1, q2, g.0, g.1, "s".into(), "s".into());
        let x = guard(|| mk(Schedule::new(f1.clone()), Schedule::new(f2.clone()), issue, eff, mat, bd, bd, f, f, (gap, 0)).ok());
        let what = || format!("swap {:?}/{:?} exchanging {:?} {:?} then {:?} {:?}, fixed {:?}, index {}, {}+{} periods, issued {} effective {} maturing {}", cy1, cy2, i1, i2, l1, l2, rate, index.is_some(), f1.len(), f2.len(), issue, eff, mat);
        let got = x.as_ref().map(|y| y.as_ref().map(|y| (y.get_specific_plain_swap_type().unwrap(), y.get_floating_to_fixed_fxcode().unwrap().copied(), y.get_all_fxcodes_for_pricing(), y.get_type_name().to_string())));
        let fx = if cy1 == cy2 { None } else { Some(FxCode::new(cy2, cy1)) };
        let want = k.map(|k| (k, fx, fx.into_iter().collect::<Vec<_>>(), format!("{:?}", k)));
        if log.check(&["C21"], matches!(&got, Ok(g) if *g == want), || format!("{}: kind {:?}, expected {:?}", what(), got, want)) {
            return;
        }
        if let Ok(Some(x)) = &x {
            let env = Env { dc, ..env };
            let want = (|| {
                let mut m = Due::new();
                post(&mut m, &pd, &eff, i1.map(|v| v as f64));
                post(&mut m, &pd, &mat, l1.map(|v| -v as f64));
                for s in f1.iter().filter(|s| rate.is_some() && s.get_payment_date().date() >= pd.date()) {
                    let a = share(&env, *s.get_calc_start_date(), *s.get_calc_end_date())? * rate.unwrap() as f64 * i1.unwrap_or(1.0) as f64;
                    post(&mut m, &pd, s.get_payment_date(), Some(-a));
                }
                Some(m)
            })();
            let got = guard(|| x.get_fixed_cashflows(&pd).ok());
            if log.check(&["C21"], same(&got, &want, 1.0), || format!("{} on {}: fixed payments {:?}, expected {:?}; periods {:?}", what(), pd, got, want, f1)) {
                return;
            }
            let env = Env { dc: dc2, spread: 0.0, ..env };
            let want = (|| {
                let mut m = Due::new();
                post(&mut m, &pd, &eff, i2.map(|v| -v as f64));
                post(&mut m, &pd, &mat, l2.map(|v| v as f64));
                for s in f2.iter().filter(|s| index.is_some() && s.get_payment_date().date() >= pd.date()) {
                    let a = coupon(&env, ct.as_ref(), s)? * i2.unwrap_or(1.0) as f64;
                    post(&mut m, &pd, s.get_payment_date(), Some(a));
                }
                Some(m)
            })();
            let got = guard(|| x.get_floating_cashflows(&pd, Some(zc.clone()), given.clone()).ok());
            if log.check(&["C21"], same(&got, &want, 6.0), || format!("{} on {}: floating payments {:?}, expected {:?}; periods {:?}, tenor {}, compounding {:?}", what(), pd, got, want, f2, tenor, ct)) {
                return;
            }
        }
        // ---- the same from conventions
        let bd2 = *r.pick(&BD);
        let f2 = *r.pick(&[F::Monthly, F::Quarterly, F::SemiAnnually]);
        let eff = eval - Duration::days(r.range(0, 100));
        let m = if r.chance(1, 5) { eff } else { eval + Duration::days(r.range(0, 500)) };
        let sch = |b: &B, f: &F| guard(|| build_schedule(fg, &eff, &m, &c, b, f, g1, g2).ok());
        if let (Ok(a), Ok(b)) = (sch(&bd, &f), sch(&bd2, &f2)) {
            let want = match (a, b) { (Some(a), Some(b)) => mk(a, b, eff, eff, m, bd, bd2, f, f2, (g1, g2)).ok(), _ => None };
            let x = guard(|| PlainSwap::new_from_conventions(cy1, cy2, i1, i2, l1, l2, 100.0, eff, eff, m, rate, index.clone(), ct.clone(), fg, dc, dc2, bd, bd2, f, f2, g1, g2, c.clone(), "s".into(), "s".into()).ok());
            let good = matches!((&x, &want), (Ok(None), None)) || matches!((&x, &want), (Ok(Some(a)), Some(b)) if json(a) == json(b));
            if log.check(&["C21"], good, || format!("PlainSwap::new_from_conventions ({}; {} to {}) gave {}, expected {}", what(), eff, m, x.as_ref().map_or("a panic".into(), json), json(&want))) {
                return;
            }
        }
    }
}
