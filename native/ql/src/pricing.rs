//! values of bonds, swaps and futures (C22)
use crate::cash::{closes, curve, near, opt, real, CCY};
use crate::days::{day, moment, plus};
use crate::util::{guard, Log, Rng};
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{CreditRating, IssuerType, RankType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::stock::Stock;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::cash_pricer::CashPricer;
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::fx_futures_pricer::FxFuturesPricer;
use quantlib::pricing_engines::identity_pricer::IdentityPricer;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::PricerTrait;
use quantlib::pricing_engines::unit_pricer::UnitPricer;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Duration, OffsetDateTime, UtcOffset};

pub type Flow = Vec<(OffsetDateTime, f64)>;
pub type Curve = Rc<RefCell<ZeroCurve>>;
pub fn df(c: &Curve, d: &OffsetDateTime) -> Option<f64> {
    c.borrow().get_discount_factor_at_date(d).ok().map(|x| x as f64)
}
pub fn flow(m: HashMap<OffsetDateTime, f32>) -> Flow {
    m.into_iter().map(|(k, v)| (k, v as f64)).collect()
}
/// payments after the day `on`, discounted
fn worth(f: &Flow, c: &Curve, on: &OffsetDateTime) -> Option<f64> {
    let mut x = 0.0;
    for (d, a) in f {
        if d.date() > on.date() {
            x += a * df(c, d)?;
        }
    }
    Some(x)
}
/// payments on the day `on` or later, per moment
fn listed(f: &Flow, on: &OffsetDateTime, fx: f64, m: &mut HashMap<i128, f64>) {
    for (d, a) in f {
        if d.date() >= on.date() {
            *m.entry(d.unix_timestamp_nanos()).or_insert(0.0) += a * fx;
        }
    }
}
pub fn agree(got: &Option<f32>, want: &Option<f64>, scale: f64) -> bool {
    match (got, want) { (None, None) => true, (Some(a), Some(b)) => near(*a as f64, *b, scale), _ => false }
}
fn per_ccy(got: &Option<HashMap<Currency, f32>>, want: &Option<HashMap<Currency, f64>>, scale: f64) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => g.len() == w.len() && w.iter().all(|(k, v)| g.get(k).map_or(false, |x| near(*x as f64, *v, scale))),
        _ => false,
    }
}
pub fn legs(r: &mut Rng, eval: OffsetDateTime, given: bool) -> Vec<BaseSchedule> {
    let mut s = eval + Duration::days(r.range(-150, 30));
    (0..r.below(5)).map(|_| {
        let e = s + Duration::days(*r.pick(&[1i64, 30, 91, 182]));
        let pay = match r.below(6) { 0 => eval, 1 => eval.replace_time(time::Time::from_hms(23, 0, 0).unwrap()), 2 => e.to_offset(UtcOffset::from_hms(-5, 0, 0).unwrap()), 3 => e + Duration::days(r.range(0, 3)), _ => e };
        let a = real(r, 0.0, 2.0);
        let b = BaseSchedule::new(s, s, e, pay, if given { opt(r, 3, a) } else { None });
        s = if r.chance(1, 8) { s } else { e };
        b
    }).collect()
}
fn market(r: &mut Rng, eval: &Rc<RefCell<EvaluationDate>>, at: OffsetDateTime, spot: f32) -> Rc<RefCell<MarketPrice>> {
    let div = if r.chance(1, 2) {
        let mut ds: Vec<OffsetDateTime> = (0..1 + r.below(4)).map(|k| at + Duration::days(r.range(1, 60) + 90 * k as i64)).collect();
        ds.dedup();
        let v: Vec<f32> = ds.iter().map(|_| real(r, 0.0, 0.05) * spot).collect();
        let data = VectorData::new(ndarray::Array1::from(v), Some(ds), None, Some(at), Currency::KRW, "d".into(), "d".into()).unwrap();
        DiscreteRatioDividend::new(eval.clone(), &data, spot, "d".into(), "d".into()).ok().map(|d| Rc::new(RefCell::new(d)))
    } else {
        None
    };
    Rc::new(RefCell::new(MarketPrice::new(spot, at, div, Currency::KRW, "m".into(), "m".into())))
}
/// a pricer's three answers on one instrument
struct Ans { npv: Option<f32>, res: Option<NpvResult>, fx: Option<HashMap<Currency, f32>> }
fn ask<P: PricerTrait>(p: &P, i: &Instrument, npv: f32) -> Result<Ans, String> {
    guard(|| Ans { npv: p.npv(i).ok(), res: p.npv_result(i).ok(), fx: p.fx_exposure(i, npv).ok() })
}
/// compares a pricer's answers with the value, the listed payments and the exposure they should be; `scale` bounds the rounding
fn check(log: &mut Log, what: &dyn Fn() -> String, got: Result<Ans, String>, npv: Option<f64>, due: HashMap<i128, f64>, fx: Option<HashMap<Currency, f64>>, scale: f64) -> bool {
    let a = match got {
        Ok(a) => a,
        Err(e) => return log.check(&["C22"], false, || format!("{}: {}", what(), e)),
    };
    if log.check(&["C22"], agree(&a.npv, &npv, scale), || format!("{}: npv {:?}, expected {:?}", what(), a.npv, npv)) {
        return true;
    }
    if log.check(&["C22"], agree(&a.res.as_ref().map(|x| x.get_npv()), &npv, scale), || format!("{}: npv_result {:?}, expected {:?}", what(), a.res, npv)) {
        return true;
    }
    if let Some(res) = &a.res {
        let paid = guard(|| res.get_expected_coupon_amount().ok());
        let ok = matches!(&paid, Ok(Some(m)) if m.len() == due.len() && m.iter().all(|(k, v)| due.get(&k.unix_timestamp_nanos()).map_or(false, |w| near(*v as f64, *w, scale))));
        if log.check(&["C22"], ok, || format!("{}: expects to pay {:?}, expected {:?}", what(), paid, due)) {
            return true;
        }
    }
    log.check(&["C22"], per_ccy(&a.fx, &fx, scale * 200.0), || format!("{}: exposure {:?}, expected {:?}", what(), a.fx, fx))
}
fn one(c: Currency, v: f64) -> HashMap<Currency, f64> {
    HashMap::from([(c, v)])
}

pub fn values(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let r = &mut r;
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let eval = moment(r, d0);
    let ev = Rc::new(RefCell::new(EvaluationDate::new(eval)));
    let c1 = Rc::new(RefCell::new(curve(r, &ev)));
    let c2 = Rc::new(RefCell::new(curve(r, &ev)));
    let fc = Rc::new(RefCell::new(curve(r, &ev)));
    let cal = JointCalendar::new(vec![Calendar::NullCalendar(NullCalendar::new())]).unwrap();
    for _ in 0..6 {
        let forward = { let x = fc.clone(); opt(r, 9, x) };
        let mut past = HashMap::new();
        for k in 0..200 {
            past.insert(plus(d0, 5 - k), real(r, -0.01, 0.09));
        }
        let past = { let x = Rc::new(closes(past)); opt(r, 9, x) };
        let ri = RateIndex::new("91D".into(), Currency::KRW, "i".into(), "i".into()).unwrap();
        let notional = *r.pick(&[1.0f32, 10.0, 100.0]);
        // ---- bonds
        let pd = match r.below(4) { 0 => None, 1 => Some(eval + Duration::days(r.range(-1, 3))), _ => Some(eval + Duration::days(r.range(0, 60))) };
        let rate = { let x = real(r, 0.0, 0.1); opt(r, 7, x) };
        let index = if rate.is_none() { Some(ri.clone()) } else { None };
        let b = legs(r, eval, true);
        let mat = match b.last() { Some(x) if r.chance(4, 5) => *x.get_payment_date(), _ => eval + Duration::days(r.range(-3, 300)) };
        let issue = eval - Duration::days(200);
        if let Ok(Ok(bond)) = guard(|| Bond::new(IssuerType::Government, CreditRating::None, "me".into(), RankType::Senior, Currency::KRW, notional, false, Schedule::new(b.clone()), rate, None, index.clone(), None, issue, issue, pd, mat, cal.clone(), D::Actual365Fixed, B::Unadjusted, F::Monthly, 0, 0, "b".into(), "b".into())) {
            let i = Instrument::Bond(bond);
            let on = pd.unwrap_or(eval);
            let fl = match guard(|| i.get_cashflows(&on, forward.clone(), past.clone()).ok().map(flow)) { Ok(x) => x, Err(_) => return };
            let npv = fl.as_ref().and_then(|f| Some(worth(f, &c1, &on)? / df(&c1, &on)?));
            let mut due = HashMap::new();
            listed(fl.as_ref().unwrap_or(&vec![]), &on, 1.0, &mut due);
            let p = BondPricer::new(ev.clone(), c1.clone(), forward.clone(), past.clone());
            let given = real(r, -2.0, 2.0);
            let fx = Some(one(Currency::KRW, given as f64 * notional as f64));
            if check(log, &|| format!("bond valued on {} with payments {:?} (notional {}, npv {})", on, fl, notional, given), ask(&p, &i, given), npv, due, fx, 3.0) {
                return;
            }
        }
        // ---- swaps
        let (a, b) = (CCY[r.below(2) as usize], CCY[r.below(2) as usize]);
        let shape = if a == b { 0 } else { 1 + r.below(3) };
        let amt = |r: &mut Rng, on: bool| { let x = real(r, 0.0, 3.0); if on { Some(x) } else { None } };
        let on = [[false, false, true], [true, true, true], [true, true, false], [false, true, false]][shape as usize];
        let (i1, i2, l1, l2) = (amt(r, on[0]), amt(r, on[0]), amt(r, on[1]), amt(r, on[1]));
        let (f1, f2) = if on[2] { (legs(r, eval, false), legs(r, eval, false)) } else { (vec![], vec![]) };
        let rate = if on[2] { Some(real(r, 0.0, 0.1)) } else { None };
        let eff = eval + Duration::days(r.range(-3, 3));
        let mat = match f1.last() { Some(x) if r.chance(1, 2) => *x.get_payment_date(), _ => eval + Duration::days(r.range(-2, 200)) };
        let (ix, issue) = (if on[2] { Some(ri.clone()) } else { None }, eff - Duration::days(5));
        if let Ok(Ok(swap)) = guard(|| PlainSwap::new(Schedule::new(f1.clone()), Schedule::new(f2.clone()), rate, ix, None, cal.clone(), notional, issue, eff, mat, a, b, i1, i2, l1, l2, D::Actual365Fixed, D::Actual360, B::Unadjusted, B::Unadjusted, F::Monthly, F::Monthly, 0, 0, "s".into(), "s".into())) {
            let i = Instrument::PlainSwap(swap);
            let rate = { let x = real(r, 0.5, 3.0); if a == b && r.chance(9, 10) { None } else { opt(r, 9, x) } };
            let fl = guard(|| (i.get_fixed_cashflows(&eval).ok().map(flow), i.get_floating_cashflows(&eval, forward.clone(), past.clone()).ok().map(flow)));
            let (fx1, fl2) = match fl { Ok(x) => x, Err(_) => return };
            let k = rate.unwrap_or(1.0) as f64;
            let parts = (|| Some((worth(fx1.as_ref()?, &c1, &eval)?, worth(fl2.as_ref()?, &c2, &eval)?)))();
            let parts = if fx1.is_some() && fl2.is_some() { parts } else { None };
            let mut due = HashMap::new();
            listed(fx1.as_ref().unwrap_or(&vec![]), &eval, 1.0, &mut due);
            listed(fl2.as_ref().unwrap_or(&vec![]), &eval, k, &mut due);
            let fx = parts.map(|(x, y)| { let mut m = one(a, x * notional as f64); *m.entry(b).or_insert(0.0) += y * notional as f64; m });
            let price = rate.map(|x| Rc::new(RefCell::new(MarketPrice::new(x, eval, None, a, "fx".into(), "fx".into()))));
            let p = PlainSwapPricer::new(ev.clone(), c1.clone(), c2.clone(), forward.clone(), past.clone(), price).unwrap();
            if check(log, &|| format!("swap {:?}/{:?} on {} paying {:?} and {:?}, exchange rate {:?}, notional {}", a, b, eval, fx1, fl2, rate, notional), ask(&p, &i, 7.0), parts.map(|(x, y)| x + y * k), due, fx, 30.0) {
                return;
            }
        }
        // ---- futures
        let spot = real(r, 1.0, 4.0);
        let m = market(r, &ev, eval, spot);
        let mat = eval + Duration::days(match r.below(4) { 0 => 0, 1 => r.range(-2, 2), _ => r.range(1, 500) });
        let traded = real(r, 0.5, 4.0);
        let (ca, cb) = (*r.pick(&CCY), *r.pick(&CCY));
        let fut = Instrument::Futures(Futures::new(traded, eval, mat, mat, mat, notional, ca, cb, "u".into(), "f".into(), "f".into()));
        let fxf = Instrument::FxFutures(FxFutures::new(traded, eval, mat, mat, mat, notional, ca, cb, "f".into(), "f".into()));
        let cash = Instrument::Cash(Cash::new(ca, "c".into(), "c".into()));
        let left = guard(|| m.borrow().get_dividend_deduction_ratio(&mat).ok().map(|x| x as f64)).unwrap_or(None);
        let npv = (|| Some(spot as f64 * df(&c2, &mat)? / df(&c1, &mat)? * left?))();
        let fx = npv.map(|x| one(ca, (x - traded as f64) * notional as f64));
        let p = FuturesPricer::new(m.clone(), c1.clone(), c2.clone());
        let what = || format!("future on {} maturing {} (spot {}, left by dividends {:?}, traded at {}, {:?}/{:?}, notional {})", eval, mat, spot, left, traded, ca, cb, notional);
        if check(log, &what, ask(&p, &fut, 1.0), npv, HashMap::new(), fx, 3.0) {
            return;
        }
        let other = *r.pick(&[&fxf, &cash]);
        if check(log, &|| format!("{:?} given to the futures pricer", other), ask(&p, other, 1.0), None, HashMap::new(), None, 1.0) {
            return;
        }
        // ---- currency futures
        let npv = (|| Some(spot as f64 * df(&c2, &mat)? / df(&c1, &mat)?))();
        let fx = npv.map(|_| { let mut e = one(ca, -df(&c1, &mat).unwrap() * traded as f64); e.insert(cb, df(&c2, &mat).unwrap()); e });
        let p = FxFuturesPricer::new(m.clone(), c2.clone(), c1.clone());
        if check(log, &|| format!("currency {}", what()), ask(&p, &fxf, 1.0), npv, HashMap::new(), fx, 3.0) {
            return;
        }
        // ---- cash, stocks and indices
        let stock = Instrument::Stock(Stock::new("k".into(), "k".into(), vec!["u".into()], ca, None));
        let given = real(r, -2.0, 2.0);
        let i = *r.pick(&[&fut, &cash, &stock]);
        let k = i.get_unit_notional() as f64;
        let fx = |v: f64| Some(one(ca, v * k));
        if check(log, &|| format!("{:?} worth a unit", i), ask(&UnitPricer::new(), i, given), Some(1.0), HashMap::new(), fx(given as f64), 1.0)
            || check(log, &|| format!("{:?} as cash", i), ask(&CashPricer::new(), i, given), Some(1.0), HashMap::new(), fx(given as f64), 1.0)
            || check(log, &|| format!("{:?} at its market price", i), ask(&IdentityPricer::new(m.clone()), i, given), Some(spot as f64), HashMap::new(), fx(given as f64), 1.0)
        {
            return;
        }
    }
}
