//! dividends and the market price over any history of evaluation dates and bumps (C24)
use crate::cash::{near, real};
use crate::days::{day, moment, plus};
use crate::util::{guard, Log, Rng};
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use std::cell::RefCell;
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, UtcOffset};


/// dividends as they are: when, how much
struct Model { ex: Vec<OffsetDateTime>, amount: Vec<f64>, spot: f64 }
impl Model {
    fn yields(&self, k: usize) -> f64 { self.amount[k] / self.spot }
    /// what the dividends after `eval`, up to the day of `at`, leave
    fn left(&self, eval: &OffsetDateTime, on: Date) -> f64 {
        (0..self.ex.len()).filter(|&k| self.ex[k] > *eval && self.ex[k].date() <= on).map(|k| 1.0 - self.yields(k)).product()
    }
    fn bump(&mut self, a: Option<Date>, b: Option<Date>, by: f64) {
        for k in 0..self.ex.len() {
            let d = self.ex[k].date();
            if a.map_or(true, |a| a < d) && b.map_or(true, |b| d <= b) {
                self.amount[k] += by;
            }
        }
    }
    /// a price moved from one moment to another
    fn moved(&self, v: f64, from: &OffsetDateTime, to: &OffsetDateTime) -> f64 {
        let mut v = v;
        for k in 0..self.ex.len() {
            let x = self.ex[k];
            if *from < x && x <= *to {
                v *= 1.0 - self.yields(k);
            } else if *to < x && x <= *from {
                v /= 1.0 - self.yields(k);
            }
        }
        v
    }
    fn rising_after(&self, eval: &OffsetDateTime) -> bool {
        let d: Vec<Date> = self.ex.iter().filter(|x| *x > eval).map(|x| x.date()).collect();
        d.windows(2).all(|w| w[0] < w[1])
    }
}

fn some_moment(r: &mut Rng, m: &Model, start: Date) -> OffsetDateTime {
    let k = r.below(m.ex.len() as u64) as usize;
    match r.below(8) {
        0 => m.ex[k],
        1 => m.ex[k] + Duration::nanoseconds(r.range(-1, 1)),
        2 => moment(r, m.ex[k].date()),
        3 => { let d = plus(m.ex[k].date(), r.range(-1, 1)); moment(r, d) }
        4 => m.ex[k].to_offset(UtcOffset::from_hms(*r.pick(&[-5i8, 0, 9]), 0, 0).unwrap()),
        _ => { let d = plus(start, r.range(-200, 1400)); moment(r, d) }
    }
}

pub fn dividends(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let start = plus(day(2020, 1, 1), r.range(0, 3000));
    let n = 1 + r.below(7) as usize;
    let mut d = start;
    let off = UtcOffset::from_hms(*r.pick(&[0i8, 9, -5]), 0, 0).unwrap();
    let ex: Vec<OffsetDateTime> = (0..n).map(|_| {
        d = plus(d, *r.pick(&[1i64, 2, 29, 90, 182]) );
        let m = moment(&mut r, d);
        if r.chance(4, 5) { m.replace_offset(off) } else { m }
    }).collect();
    let mut ex = ex;
    if r.chance(1, 8) {
        let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
        ex.swap(i, j);
    }
    let spot = real(&mut r, 50.0, 500.0);
    let amount: Vec<f32> = (0..n).map(|_| if r.chance(1, 6) { 0.0 } else { real(&mut r, 0.0, 0.08) * spot }).collect();
    let mut m = Model { ex: ex.clone(), amount: amount.iter().map(|x| *x as f64).collect(), spot: spot as f64 };
    let e0 = some_moment(&mut r, &m, start);
    let m0 = if r.chance(1, 2) { e0 } else { some_moment(&mut r, &m, start) };
    log.step(format!("dividends {:?} of {:?} on spot {}, evaluated {}, market price read {}", amount, ex, spot, e0, m0));
    let eval = Rc::new(RefCell::new(EvaluationDate::new(e0)));
    let made = guard(|| {
        let data = VectorData::new(Array1::from(amount.clone()), Some(ex.clone()), None, Some(m0), Currency::KRW, "d".into(), "d".into()).unwrap();
        DiscreteRatioDividend::new(eval.clone(), &data, spot, "d".into(), "d".into()).ok()
    });
    let div = match made {
        Err(e) => { log.check(&["C24"], false, || format!("making the dividends: {}", e)); return; }
        Ok(x) => x,
    };
    if log.check(&["C24"], div.is_some() == m.rising_after(&e0), || format!("made: {}, dividends to come in order of their days: {}", div.is_some(), m.rising_after(&e0))) {
        return;
    }
    let Some(div) = div else { return };
    // a later history must not be refused half way: all dividends in order
    let all_rise = ex.windows(2).all(|w| w[0].date() < w[1].date());
    let div = Rc::new(RefCell::new(div));
    let price = Rc::new(RefCell::new(MarketPrice::new(spot, m0, if r.chance(5, 6) { Some(div.clone()) } else { None }, Currency::KRW, "m".into(), "m".into())));
    let has = price.borrow().get_dividend().is_some();
    let watched = r.chance(4, 5);
    if watched {
        eval.borrow_mut().add_marketprice_observer(price.clone());
        eval.borrow_mut().add_dividend_observer(div.clone());
    }
    let (mut ev, mut val, mut at) = (e0, spot as f64, m0);
    let mut seen = e0; // the evaluation date the deductions were last worked out for
    if m.ex.iter().any(|x| *x <= e0) { log.interesting += 1; }
    for _ in 0..2 + r.below(8) {
        let bad = match r.below(if all_rise { 6 } else { 3 }) {
            0 | 1 => {
                let q = some_moment(&mut r, &m, start);
                let got = guard(|| div.borrow().get_deduction_ratio(&q).ok());
                let want = m.left(&seen, q.date());
                let bad = log.check(&["C24"], matches!(&got, Ok(Some(x)) if near(*x as f64, want, 1.0)), || format!("deduction until {}: {:?}, expected {}", q, got, want));
                let g2 = guard(|| price.borrow().get_dividend_deduction_ratio(&q).ok());
                let w2 = if has { want } else { 1.0 };
                let mut qs: Vec<OffsetDateTime> = (0..r.below(5)).map(|_| some_moment(&mut r, &m, start)).collect();
                qs.sort();
                let g3 = guard(|| div.borrow().get_vectorized_deduction_ratio_for_sorted_datetime(&qs).ok().map(|x| x.to_vec()));
                bad || log.check(&["C24"], matches!(&g2, Ok(Some(x)) if near(*x as f64, w2, 1.0)), || format!("market price: deduction until {}: {:?}, expected {}", q, g2, w2))
                    || log.check(&["C24"], matches!(&g3, Ok(Some(v)) if v.len() == qs.len() && v.iter().zip(&qs).all(|(x, q)| near(*x as f64, m.left(&seen, q.date()), 1.0))), || format!("deductions until {:?}: {:?}", qs, g3))
            }
            2 => {
                let got = div.borrow().get_dividend();
                let rat = div.borrow().get_dividend_ratio();
                log.check(&["C24"], got.len() == n && (0..n).all(|k| got[k].0 == m.ex[k] && near(got[k].1 as f64, m.amount[k], m.spot)), || format!("dividends {:?}, expected {:?} {:?}", got, m.ex, m.amount))
                    || log.check(&["C24"], rat.len() == n && (0..n).all(|k| rat[k].0 == m.ex[k] && near(rat[k].1 as f64, m.yields(k), 1.0)), || format!("dividend ratios {:?}", rat))
            }
            3 => {
                // the evaluation date moves and takes its observers along
                let to = some_moment(&mut r, &m, start);
                let how = r.below(4);
                let term = *r.pick(&["1D", "2W", "1M", "1Y"]);
                log.step(match how { 0 => format!("evaluation date += {}", term), 1 => format!("evaluation date -= {}", term), _ => format!("evaluation date set to {}", to) });
                let got = guard(|| match how {
                    0 => *eval.borrow_mut() += term,
                    1 => *eval.borrow_mut() -= term,
                    _ => eval.borrow_mut().set_date(to),
                });
                if log.check(&["C24"], got.is_ok(), || format!("moving the evaluation date: {:?}", got)) { return; }
                ev = eval.borrow().get_date_clone();
                if how >= 2 && log.check(&["C24"], ev == to, || format!("evaluation date {} after setting it to {}", ev, to)) { return; }
                if watched {
                    if has { val = m.moved(val, &at, &ev); at = ev; }
                    seen = ev;
                }
                false
            }
            4 => {
                let to = some_moment(&mut r, &m, start);
                let alone = EvaluationDate::new(to);
                log.step(format!("told of {}", to));
                let got = guard(|| {
                    price.borrow_mut().update_evaluation_date(&alone).is_ok() && div.borrow_mut().update_evaluation_date(&alone).is_ok()
                });
                if has { val = m.moved(val, &at, &to); at = to; }
                seen = to;
                log.check(&["C24"], matches!(got, Ok(true)), || format!("updating: {:?}", got))
            }
            _ => {
                let (a, b) = (some_moment(&mut r, &m, start), some_moment(&mut r, &m, start));
                let (a, b) = if r.chance(1, 6) { (a, b) } else if a.date() < b.date() { (a, b) } else { (b, a) };
                let (oa, ob) = (if r.chance(3, 4) { Some(a) } else { None }, if r.chance(3, 4) { Some(b) } else { None });
                let by = real(&mut r, -0.02, 0.04) * spot;
                log.step(format!("bump by {} in {:?}..{:?}", by, oa, ob));
                let got = guard(|| div.borrow_mut().bump_date_interval(oa.as_ref(), ob.as_ref(), by).is_ok());
                let ok = oa.is_none() || ob.is_none() || a.date() < b.date();
                if ok {
                    m.bump(oa.map(|x| x.date()), ob.map(|x| x.date()), by as f64);
                    seen = ev;
                }
                log.check(&["C24"], matches!(&got, Ok(x) if *x == ok), || format!("bump: {:?}, expected {}", got, ok))
            }
        };
        if bad { return; }
        let (v, t) = (price.borrow().get_value() as f64, *price.borrow().get_market_datetime());
        if log.check(&["C24"], near(v, val, spot as f64), || format!("market price {}, expected {}", v, val)) { return; }
        if log.check(&["C24"], !has || t == at, || format!("market price as of {}, expected {}", t, at)) { return; }
        if r.chance(1, 6) {
            let x = real(&mut r, 0.9, 1.1);
            let k = r.below(5);
            log.step(format!("price operation {} by {}", k, x));
            let p = &mut *price.borrow_mut();
            match k { 0 => { *p += x; val += x as f64; } 1 => { *p -= x; val -= x as f64; } 2 => { *p *= x; val *= x as f64; } 3 => { *p /= x; val /= x as f64; } _ => { p.set_price(spot); val = spot as f64; } }
        }
    }
}
