//! bonds at KRX yields, bond futures and options (C25)
use crate::cash::{curve, near, opt, real, CCY};
use crate::days::{day, moment, plus};
use crate::pricing::{agree, df, flow, legs, Curve};
use crate::util::{guard, Log, Rng};
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{Compounding, CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatility::Volatility;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::krx_yield_pricer::KrxYieldPricer;
use quantlib::pricing_engines::ktbf_pricer::KtbfPricer;
use quantlib::pricing_engines::option_analytic_pricer::OptionAnalyticPricer;
use quantlib::pricing_engines::pricer::PricerTrait;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use std::cell::RefCell;
use std::rc::Rc;
use time::{Duration, OffsetDateTime, UtcOffset};

const FREQ: [(F, i32); 7] = [(F::Monthly, 12), (F::SemiQuarterly, 6), (F::Quarterly, 4), (F::TriAnnually, 3), (F::SemiAnnually, 2), (F::Annually, 1), (F::Weekly, 52)];

/// the normal distribution, by summing its density
fn phi(x: f64) -> f64 {
    let b = x.max(-12.0).min(12.0);
    let n = 400;
    let h = b / n as f64;
    let d = |t: f64| (-t * t / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    0.5 + (0..n).map(|k| { let t = k as f64 * h; (d(t) + 4.0 * d(t + h / 2.0) + d(t + h)) * h / 6.0 }).sum::<f64>()
}
fn virtual_price(year: i32, coupon: f64, f: i32, unit: f64, y: f64) -> f64 {
    let (n, e) = (year * f, y / f as f64);
    let mut d = 1.0;
    let mut x = 0.0;
    for _ in 0..n {
        d /= 1.0 + e;
        x += coupon / f as f64 * d;
    }
    (x + d) * unit
}
/// the payments after the pricing day, at the yield to the first of them and by simple interest over the broken period
fn krx(i: &Instrument, eval: &OffsetDateTime, s: &[BaseSchedule], issue: &OffsetDateTime, f: i32, y: f64) -> Option<(f64, f64)> {
    let pd = i.get_pricing_date().ok()?.copied().unwrap_or(*eval);
    let fl: Vec<_> = flow(i.get_cashflows(&pd, None, None).ok()?).into_iter().filter(|x| x.0.date() > pd.date()).collect();
    let first = match fl.iter().map(|x| x.0).min() { Some(x) => x, None => return Some((0.0, 0.0)) };
    let previous = s.iter().map(|x| *x.get_payment_date()).filter(|x| x.date() <= pd.date()).max().unwrap_or(*issue);
    let e = y / f as f64;
    let (mut x, mut size) = (0.0, 0.0);
    for (d, a) in &fl {
        let t = i.get_calendar().ok()?.year_fraction(&first, d, &D::StreetConvention).ok()? as f64;
        x += a * (1.0 + e).powf(-t * f as f64);
        size += a.abs();
    }
    let frac = (first.date() - pd.date()).whole_days() as f64 / (first.date() - previous.date()).whole_days() as f64;
    Some((x / (1.0 + e * frac), size))
}

pub fn quotes(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let r = &mut r;
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let eval = moment(r, d0);
    let ev = Rc::new(RefCell::new(EvaluationDate::new(eval)));
    let c1: Curve = Rc::new(RefCell::new(curve(r, &ev)));
    let c2: Curve = Rc::new(RefCell::new(curve(r, &ev)));
    let c3: Curve = Rc::new(RefCell::new(curve(r, &ev)));
    let cal = JointCalendar::new(vec![Calendar::NullCalendar(NullCalendar::new())]).unwrap();
    let bond = |s: &[BaseSchedule], f: F, unit: f32, issue: OffsetDateTime, pd: Option<OffsetDateTime>, mat: OffsetDateTime| guard(|| Bond::new(IssuerType::Government, CreditRating::None, "me".into(), RankType::Senior, Currency::KRW, unit, false, Schedule::new(s.to_vec()), Some(0.03), None, None, None, issue, issue, pd, mat, cal.clone(), D::Actual365Fixed, B::Unadjusted, f, 0, 0, "b".into(), "b".into()));
    for _ in 0..6 {
        // ---- the virtual bond
        let (f, n) = *r.pick(&FREQ);
        let (year, coupon, unit) = (r.range(0, 10) as i32, real(r, 0.0, 0.1), *r.pick(&[1.0f32, 100.0]));
        let y = real(r, -0.02, 0.12);
        let v = KtbfVirtualBond::new(year, coupon, f, unit);
        let want = virtual_price(year, coupon as f64, n, unit as f64, y as f64);
        let got = guard(|| v.npv(y));
        // an f32 rate of a year's share, raised to the n-th power
        let room = unit as f64 * (1.0 + (year * n) as f64 / 20.0);
        if log.check(&["C25"], matches!(&got, Ok(x) if near(*x as f64, want, room)), || format!("virtual bond of {} years, coupon {}, {:?}, unit {} at {}: {:?}, expected {}", year, coupon, f, unit, y, got, want)) {
            return;
        }
        // ---- a bond at a KRX yield
        let s = legs(r, eval, true);
        let mat = match s.last() { Some(x) if r.chance(4, 5) => *x.get_payment_date(), _ => eval + Duration::days(r.range(-3, 300)) };
        let issue = eval - Duration::days(200);
        let pd = match r.below(5) { 0 => None, 1 => Some(eval + Duration::days(r.range(-1, 3))), 2 => Some(mat), _ => Some(eval + Duration::days(r.range(0, 60))) };
        if let Ok(Ok(b)) = bond(&s, f, unit, issue, pd, mat) {
            if pd.unwrap_or(eval).date() < issue.date() {
                continue;
            }
            let i = Instrument::Bond(b);
            let want = match guard(|| krx(&i, &eval, &s, &issue, n, y as f64)) { Ok(x) => x, Err(_) => return };
            let p = KrxYieldPricer::new(ev.clone(), y, None, None);
            let got = guard(|| (p.npv(&i).ok(), p.npv_result(&i).ok().map(|x| x.get_npv())));
            let room = want.map_or(1.0, |x| x.1) * 3.0 + 1.0;
            let fair = want.map(|x| x.0);
            if log.check(&["C25"], matches!(&got, Ok((a, b)) if agree(a, &fair, room) && agree(b, &fair, room)), || format!("bond priced on {:?} ({}), issued {}, maturing {}, paying {:?} ({:?}) at a yield of {}: {:?}, expected {:?}", pd, eval, issue, mat, s, f, y, got, fair)) {
                return;
            }
        }
        // ---- options
        let spot = real(r, 0.5, 3.0);
        let m = Rc::new(RefCell::new(MarketPrice::new(spot, eval, None, Currency::KRW, "m".into(), "m".into())));
        let mat = eval + Duration::days(r.range(5, 1200));
        let (ca, cb) = (*r.pick(&CCY), *r.pick(&CCY));
        let call = r.chance(1, 2);
        let k = spot * real(r, 0.6, 1.6);
        let o = VanillaOption::new(k, unit, eval, mat, mat, mat, vec!["u".into()], ca, cb, if call { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, OptionDailySettlementType::NotSettled, "o".into(), "o".into());
        let pairs: Vec<FxCode> = o.get_quanto_fxcode_und_pair().into_iter().map(|x| *x.1).collect();
        let ok = if ca == cb { pairs.is_empty() } else { pairs == vec![FxCode::new(ca, cb)] };
        if log.check(&["C25"], ok, || format!("an option in {:?} on something in {:?} needs the exchange rates {:?}", cb, ca, pairs)) {
            return;
        }
        let (vol, fxvol, rho) = (real(r, 0.1, 0.6), real(r, 0.0, 0.4), real(r, -1.0, 1.0));
        let mut cv = Volatility::ConstantVolatility(ConstantVolatility::new(vol, "v".into(), "v".into()));
        let bump = if r.chance(1, 3) { real(r, 0.0, 0.1) } else { 0.0 };
        if bump != 0.0 {
            let _ = cv.bump_volatility(None, None, None, None, bump);
        }
        let vol = vol as f64 + bump as f64;
        let fv = Rc::new(RefCell::new(Volatility::ConstantVolatility(ConstantVolatility::new(fxvol, "w".into(), "w".into()))));
        let q = { let x = Rc::new(RefCell::new(Quanto::new(fv, rho, FxCode::new(ca, cb), "u".into()))); opt(r, 6, x) };
        let fwd = match guard(|| FuturesPricer::new(m.clone(), c1.clone(), c2.clone()).fair_forward(&mat)) { Ok(Ok(x)) => x as f64, _ => continue };
        let t = NullCalendar::new().get_time_difference(&eval, &mat) as f64;
        let dsc = match c3.borrow().get_discount_factor(t as f32) { Ok(x) => x as f64, Err(_) => continue };
        if t < 0.01 {
            continue;
        }
        let adj = if q.is_some() { vol * fxvol as f64 * rho as f64 * t } else { 0.0 };
        let (w, kk) = (vol * t.sqrt(), k as f64);
        let f_q = fwd * (-adj).exp();
        let d1 = (f_q / kk).ln() / w + w / 2.0;
        let c = dsc * (f_q * phi(d1) - kk * phi(d1 - w));
        let want = if ca != cb && q.is_none() { None } else if call { Some(c) } else { Some(c - dsc * (f_q - kk)) };
        let p = OptionAnalyticPricer::new(ev.clone(), m.clone(), c1.clone(), c2.clone(), c3.clone(), Rc::new(RefCell::new(cv)), q.clone());
        let i = Instrument::VanillaOption(o);
        let got = guard(|| (p.npv(&i).ok(), p.npv_result(&i).ok().map(|x| x.get_npv())));
        if log.check(&["C25"], matches!(&got, Ok((a, b)) if agree(a, &want, 6.0) && agree(b, &want, 6.0)), || format!("{} struck at {} on a forward of {} in {} years, volatility {}, discounted at {}, {:?} paid in {:?}, exchange rate volatility and correlation {:?}: {:?}, expected {:?}", if call { "call" } else { "put" }, k, fwd, t, vol, dsc, ca, cb, q.as_ref().map(|_| (fxvol, rho)), got, want)) {
            return;
        }
    }
    // ---- bond futures
    let mat = eval + Duration::days(r.range(0, 120));
    let unit = 1.0f32;
    let mut bonds = vec![];
    let mut fit = true;
    for _ in 0..r.below(4) {
        let life = r.range(1, 6);
        let s: Vec<BaseSchedule> = (-2..2 * life).map(|k| { let d = |k: i64| mat + Duration::days(182 * k + 40); BaseSchedule::new(d(k - 1), d(k - 1), d(k), d(k), None) }).collect();
        let end = *s.last().unwrap().get_payment_date();
        let pd = match r.below(12) { 0 => None, 1 => Some(mat + Duration::seconds(r.range(-1, 1))), 2 => Some(mat.to_offset(UtcOffset::from_hms(-7, 0, 0).unwrap())), _ => Some(mat) };
        fit &= pd == Some(mat);
        match bond(&s, F::SemiAnnually, unit, mat - Duration::days(500), pd, end) { Ok(Ok(b)) => bonds.push(b), _ => return }
    }
    let (year, coupon, price) = (r.range(1, 10) as i32, real(r, 0.0, 0.08), 100.0f32);
    let made = guard(|| KTBF::new(Currency::KRW, 1_000_000.0, eval, mat, mat, KtbfVirtualBond::new(year, coupon, F::SemiAnnually, price), bonds.clone(), "t".into(), "k".into(), "k".into()).ok());
    let dates: Vec<_> = bonds.iter().map(|b| b.get_pricing_date().ok().flatten().copied()).collect();
    if log.check(&["C25"], matches!(&made, Ok(x) if x.is_some() == fit), || format!("a bond futures maturing {} on bonds priced on {:?} is accepted: {:?}", mat, dates, made.as_ref().map(|x| x.is_some()))) {
        return;
    }
    if let Ok(Some(k)) = made {
        let i = Instrument::KTBF(k);
        let want = guard(|| {
            let guess = c1.borrow().get_forward_rate_from_evaluation_date(bonds.first()?.get_maturity()?, Compounding::Simple).ok()?;
            let mut sum = 0.0;
            for b in &bonds {
                let v = BondPricer::new(ev.clone(), c1.clone(), None, None).npv(&Instrument::Bond(b.clone())).ok()?;
                sum += KrxYieldPricer::new(ev.clone(), 0.0, None, None).find_bond_yield(b.clone(), v, Some(guess)).ok()? as f64;
            }
            let y = sum / bonds.len() as f64;
            Some(virtual_price(year, coupon as f64, 2, price as f64, y) * df(&c2, &mat)?)
        });
        let want = match want { Ok(x) => x, Err(_) => return };
        if want.map_or(false, |x| !x.is_finite()) {
            return;
        }
        let p = KtbfPricer::new(ev.clone(), c1.clone(), c2.clone());
        let got = guard(|| (p.npv(&i).ok(), p.npv_result(&i).ok().map(|x| x.get_npv())));
        // the search for a yield may give up where another run does not (payments are visited in another order)
        if !bonds.is_empty() && (want.is_none() || matches!(&got, Ok((a, b)) if a.is_none() || b.is_none())) {
            return;
        }
        log.check(&["C25"], matches!(&got, Ok((a, b)) if agree(a, &want, 3000.0) && agree(b, &want, 3000.0)), || format!("bond futures maturing {} on {} bonds, {} years at {}: {:?}, expected {:?}", mat, bonds.len(), year, coupon, got, want));
    }
}
