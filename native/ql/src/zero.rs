//! zero rate curves over any data, queries and bumps (C23)
use crate::cash::{near, real};
use crate::days::{day, plus};
use crate::util::{guard, Log, Rng};
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::Compounding;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::utils::string_arithmetic::add_period;
use std::cell::RefCell;
use std::rc::Rc;
use time::{OffsetDateTime, UtcOffset};

const KEPT: [&str; 29] = ["0D", "1D", "1W", "2W", "1M", "2M", "3M", "4M", "5M", "6M", "9M", "1Y", "1Y6M", "2Y", "2Y6M", "3Y", "4Y", "5Y", "6Y", "7Y", "8Y", "9Y", "10Y", "12Y", "15Y", "20Y", "30Y", "50Y", "100Y"];

/// the line through the nodes, from the first to the last
fn broken(d: &[f64], v: &[f64], x: f64) -> f64 {
    let n = d.len();
    if x >= d[n - 1] {
        return v[n - 1];
    }
    let k = (0..n - 1).find(|&k| d[k] <= x && x < d[k + 1]).unwrap();
    v[k] + (v[k + 1] - v[k]) / (d[k + 1] - d[k]) * (x - d[k])
}
fn flat(d: &[f64], v: &[f64], x: f64) -> f64 {
    if d.len() == 1 || x < d[0] { v[0] } else { broken(d, v, x) }
}
struct Model { at: OffsetDateTime, t: Vec<f64>, rate: Vec<f64> }
impl Model {
    fn span(&self, d: &OffsetDateTime) -> f32 { NullCalendar::new().get_time_difference(&self.at, d) }
    fn df(&self, x: f32) -> Option<f64> {
        let (x, n) = (x as f64, self.t.len());
        if x < self.t[0] || x > self.t[n - 1] {
            return None;
        }
        let v: Vec<f64> = (0..n).map(|k| (-self.rate[k] * self.t[k]).exp()).collect();
        Some(broken(&self.t, &v, x))
    }
    /// a forward rate and how closely single precision can give it
    fn forward(&self, a: f32, b: f32, simple: bool) -> Option<(f64, f64)> {
        if a > b {
            return None;
        }
        let e = if b - a > 1e-6 { b } else { b + 1e-5 };
        let p = self.df(e)? / self.df(a)?;
        let tau = e as f64 - a as f64;
        let w = if simple { 1.0 - p } else { -p.ln() } / tau;
        Some((w, 1e-4 + 3e-6 / tau + 1e-3 * w.abs()))
    }
}
fn same(got: &Result<Result<f32, String>, String>, want: &Option<(f64, f64)>) -> bool {
    match (got, want) {
        (Ok(Ok(g)), Some((w, tol))) => ((*g as f64) - w).abs() <= *tol,
        (Ok(Err(_)), None) => true,
        _ => false,
    }
}
fn some_time(r: &mut Rng, m: &Model) -> f32 {
    let k = r.below(29) as usize;
    match r.below(8) {
        0 => m.t[k] as f32,
        1 => real(r, -1.0, 0.0),
        2 => real(r, 90.0, 110.0),
        3 => m.t[k] as f32 + 0.001,
        4 => real(r, 0.0, 0.3),
        5 => real(r, 0.0, 99.0),
        _ => real(r, 0.0, 12.0),
    }
}

pub fn curves(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let r = &mut r;
    let off = UtcOffset::from_hms(*r.pick(&[0i8, 0, 9, -5]), 0, 0).unwrap();
    let hour = r.below(23) as u8;
    let start = plus(day(1950, 1, 1), r.range(0, 40_000));
    let moment = |d: time::Date, h: u8| OffsetDateTime::new_in_offset(d, time::Time::from_hms(h, 0, 0).unwrap(), off);
    let at = moment(start, hour);
    // the data, by times or by dates
    let n = r.below(7) as usize;
    let base = if r.chance(1, 2) { at } else { moment(plus(start, r.range(-400, 400)), hour) };
    let mut rates: Vec<f32> = (0..n).map(|_| real(r, -0.01, 0.05)).collect();
    let mut days: Vec<i64> = (0..n).map(|k| k as i64 * 200 + r.range(-30, 150)).collect();
    if n > 1 && r.chance(1, 8) {
        let i = r.below(n as u64 - 1) as usize;
        days.swap(i, i + 1);
    }
    if r.chance(1, 10) {
        rates.push(0.01);
    }
    let by_dates = r.chance(1, 2);
    let dates: Vec<OffsetDateTime> = days.iter().map(|d| moment(plus(base.date(), *d), hour)).collect();
    let times: Vec<f32> = if by_dates { dates.iter().map(|d| NullCalendar::new().get_time_difference(&base, d)).collect() } else { days.iter().map(|d| *d as f32 / 365.0).collect() };
    let dated = r.chance(9, 10);
    log.step(format!("curve at {}: {} rates {:?} at {:?}{}{}", at, n, rates, times, if by_dates { format!(" given by dates {:?} from {}", dates, base) } else { String::new() }, if dated { "" } else { ", no market time" }));
    let data = guard(|| VectorData::new(Array1::from(rates.clone()), if by_dates { Some(dates.clone()) } else { None }, if by_dates { match r.below(3) { 0 => None, 1 => Some(Array1::from(times.clone())), _ => Some(Array1::from(vec![0.5; n])) } } else { Some(Array1::from(times.clone())) }, if dated { Some(base) } else { None }, Currency::KRW, "z".into(), "z".into()).map_err(|e| e.to_string()));
    let good = rates.len() == n && (!by_dates || dated);
    if log.check(&["C23"], matches!(&data, Ok(x) if x.is_ok() == good), || format!("VectorData::new gave {:?}, expected it to be {}", data, if good { "accepted" } else { "refused" })) {
        return;
    }
    let data = match data { Ok(Ok(d)) => d, _ => return };
    let kept: Vec<f32> = data.get_times_clone().to_vec();
    if log.check(&["C23"], kept == times && data.get_value_clone().to_vec() == rates, || format!("VectorData keeps times {:?} and values {:?}, given were {:?} and {:?}", kept, data.get_value_clone(), times, rates)) {
        return;
    }
    if times.windows(2).any(|w| w[0] == w[1]) {
        return;
    }
    let eval = Rc::new(RefCell::new(EvaluationDate::new(at)));
    let curve = guard(|| ZeroCurve::new(eval.clone(), &data, "z".into(), "z".into()).map_err(|e| e.to_string()));
    let good = n > 0 && (n == 1 || times.windows(2).all(|w| w[0] < w[1]));
    if log.check(&["C23"], matches!(&curve, Ok(x) if x.is_ok() == good), || format!("ZeroCurve::new over times {:?} gave {:?}, expected it to be {}", times, curve.as_ref().map(|x| x.as_ref().map(|_| "a curve")), if good { "accepted" } else { "refused" })) {
        return;
    }
    let mut curve = match curve { Ok(Ok(c)) => c, _ => return };
    let mut m = Model { at, t: KEPT.iter().map(|p| NullCalendar::new().get_time_difference(&at, &add_period(&at, p)) as f64).collect(), rate: vec![] };
    if m.t.windows(2).any(|w| w[0] >= w[1]) {
        return;
    }
    let (gt, gv): (Vec<f64>, Vec<f64>) = (times.iter().map(|x| *x as f64).collect(), rates.iter().map(|x| *x as f64).collect());
    m.rate = m.t.iter().map(|x| flat(&gt, &gv, *x)).collect();
    for _ in 0..3 + r.below(8) {
        let got = (curve.get_cached_discount_times_clone().to_vec(), curve.get_interpolated_rates().to_vec(), curve.get_cached_discount_factors_clone().to_vec());
        let ok = got.0.len() == 29 && got.1.len() == 29 && got.2.len() == 29 && (0..29).all(|k| got.0[k] as f64 == m.t[k] && near(got.1[k] as f64, m.rate[k], 0.3) && { let w = (-m.rate[k] * m.t[k]).exp(); ((got.2[k] as f64) - w).abs() <= 2e-4 * w });
        if log.check(&["C23"], ok, || format!("kept are times, rates, factors {:?}, expected times {:?} and rates {:?}", got, m.t, m.rate)) {
            return;
        }
        // single precision keeps this much of the factors
        let big = m.df(m.t[28] as f32).unwrap().abs().max(1.0);
        match r.below(9) {
            0 | 1 => {
                let x = some_time(r, &m);
                let got = guard(|| curve.get_discount_factor(x).map_err(|e| e.to_string()));
                let want = m.df(x).map(|w| (w, 2e-4 * big.min(w.abs() + 1.0)));
                if log.check(&["C23"], same(&got, &want), || format!("get_discount_factor({}) gave {:?}, expected {:?}", x, got, want)) { return; }
            }
            2 => {
                let d = moment(plus(at.date(), r.range(-3, 40_000)), r.below(23) as u8);
                let d = if r.chance(1, 4) { let j = r.range(-1, 1); moment(plus(at.date(), j), hour) } else { d };
                let got = guard(|| curve.get_discount_factor_at_date(&d).map_err(|e| e.to_string()));
                let want = if d < at { None } else { m.df(m.span(&d)).map(|w| (w, 2e-4 * (w.abs() + 1.0))) };
                if log.check(&["C23"], same(&got, &want), || format!("get_discount_factor_at_date({}) gave {:?}, expected {:?}", d, got, want)) { return; }
                let ds: Vec<OffsetDateTime> = { let mut v: Vec<OffsetDateTime> = (0..r.below(4)).map(|_| moment(plus(at.date(), r.range(0, 20_000)), hour)).collect(); v.push(d); v.sort(); v };
                let got = guard(|| curve.get_vectorized_discount_factor_for_sorted_dates(&ds).map_err(|e| e.to_string()));
                let want: Option<Vec<f64>> = ds.iter().map(|d| if *d < at { None } else { m.df(m.span(d)) }).collect();
                let ok = match (&got, &want) { (Ok(Ok(g)), Some(w)) => g.len() == w.len() && (0..w.len()).all(|k| ((g[k] as f64) - w[k]).abs() <= 2e-4 * (w[k] + 1.0)), (Ok(Err(_)), None) => true, _ => false };
                if log.check(&["C23"], ok, || format!("get_vectorized_discount_factor_for_sorted_dates({:?}) gave {:?}, expected {:?}", ds, got, want)) { return; }
            }
            3 => {
                let mut x: Vec<f32> = (0..r.below(6)).map(|_| some_time(r, &m)).collect();
                x.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got = guard(|| curve.get_vectorized_discount_factor_for_sorted_time(&Array1::from(x.clone())).map(|v| v.to_vec()).map_err(|e| e.to_string()));
                let want: Option<Vec<f64>> = x.iter().map(|x| m.df(*x)).collect();
                let ok = match (&got, &want) { (Ok(Ok(g)), Some(w)) => g.len() == w.len() && (0..w.len()).all(|k| ((g[k] as f64) - w[k]).abs() <= 2e-4 * (w[k] + 1.0)), (Ok(Err(_)), None) => true, _ => false };
                if log.check(&["C23"], ok, || format!("get_vectorized_discount_factor_for_sorted_time({:?}) gave {:?}, expected {:?}", x, got, want)) { return; }
            }
            4 => {
                let (a, b) = (some_time(r, &m), some_time(r, &m));
                let (a, b) = if r.chance(3, 4) && a > b { (b, a) } else { (a, b) };
                let got = guard(|| curve.get_discount_factor_between_times(a, b).map_err(|e| e.to_string()));
                let want = if a <= b { m.df(a).and_then(|x| m.df(b).map(|y| (y / x, 5e-4 * (y / x + 1.0)))) } else { None };
                if log.check(&["C23"], same(&got, &want), || format!("get_discount_factor_between_times({}, {}) gave {:?}, expected {:?}", a, b, got, want)) { return; }
            }
            5 => {
                let (a, b) = (some_time(r, &m), some_time(r, &m));
                let b = if r.chance(1, 5) { a } else { b };
                let (a, b) = if r.chance(3, 4) && a > b { (b, a) } else { (a, b) };
                if (b - a - 1e-6).abs() < 1e-6 && a != b { continue; }
                let simple = r.chance(1, 2);
                let c = if simple { Compounding::Simple } else { Compounding::Continuous };
                let got = guard(|| curve.get_forward_rate_between_times(a, b, c).map_err(|e| e.to_string()));
                let want = m.forward(a, b, simple);
                if (b + 1e-5) as f64 >= m.t[28] - 1e-3 && b as f64 <= m.t[28] { continue; }
                if log.check(&["C23"], same(&got, &want), || format!("get_forward_rate_between_times({}, {}, {:?}) gave {:?}, expected {:?}", a, b, c, got, want)) { return; }
                let got = guard(|| curve.get_short_rate_at_time(a).map_err(|e| e.to_string()));
                let want = m.forward(a, a + 0.002737, true);
                if log.check(&["C23"], same(&got, &want), || format!("get_short_rate_at_time({}) gave {:?}, expected {:?}", a, got, want)) { return; }
                let xs = [a, b];
                let got = guard(|| curve.get_vectorized_short_rate_for_sorted_times(&xs).map_err(|e| e.to_string()));
                let want: Option<Vec<(f64, f64)>> = xs.iter().map(|x| m.forward(*x, *x + 0.002737, true)).collect();
                let ok = match (&got, &want) { (Ok(Ok(g)), Some(w)) => g.len() == 2 && (0..2).all(|k| same(&Ok(Ok(g[k])), &Some(w[k]))), (Ok(Err(_)), None) => true, _ => false };
                if log.check(&["C23"], ok, || format!("get_vectorized_short_rate_for_sorted_times({:?}) gave {:?}, expected {:?}", xs, got, want)) { return; }
            }
            6 => {
                let (i, j) = (r.range(-2, 9000), r.range(-2, 9000));
                let (a, b) = (moment(plus(at.date(), i), hour), moment(plus(at.date(), if r.chance(1, 5) { i } else { j }), hour));
                let simple = r.chance(1, 2);
                let c = if simple { Compounding::Simple } else { Compounding::Continuous };
                let got = guard(|| curve.get_forward_rate_between_dates(&a, &b, c).map_err(|e| e.to_string()));
                let want = if a > b { None } else { m.forward(m.span(&a), m.span(&b), simple) };
                if log.check(&["C23"], same(&got, &want), || format!("get_forward_rate_between_dates({}, {}, {:?}) gave {:?}, expected {:?}", a, b, c, got, want)) { return; }
                let got = guard(|| curve.get_forward_rate_from_evaluation_date(&b, c).map_err(|e| e.to_string()));
                let want = if b < at { None } else { m.forward(m.span(&at), m.span(&b), simple) };
                if log.check(&["C23"], same(&got, &want), || format!("get_forward_rate_from_evaluation_date({}, {:?}) gave {:?}, expected {:?}", b, c, got, want)) { return; }
                let got = guard(|| curve.get_instantaneous_forward_rate_from_date(&b).map_err(|e| e.to_string()));
                let want = { let x = m.span(&b); m.forward(x, x + 0.002737, true) };
                if log.check(&["C23"], same(&got, &want), || format!("get_instantaneous_forward_rate_from_date({}) gave {:?}, expected {:?}", b, got, want)) { return; }
            }
            7 => {
                let (a, b) = (some_time(r, &m), some_time(r, &m));
                let (a, b) = if r.chance(3, 4) && a > b { (b, a) } else { (a, b) };
                let (a, b) = (if r.chance(1, 4) { None } else { Some(a) }, if r.chance(1, 4) { None } else { Some(b) });
                bump(r, &mut curve, &mut m, a, b, None, log);
                if log.fail.is_some() { return; }
            }
            _ => {
                let mut pick = |r: &mut Rng| if r.chance(1, 2) { add_period(&at, *r.pick(&KEPT)) } else { moment(plus(at.date(), r.range(-20, 12_000)), hour) };
                let (a, b) = (pick(r), pick(r));
                let (a, b) = if r.chance(3, 4) && a > b { (b, a) } else { (a, b) };
                let (a, b) = (if r.chance(1, 4) { None } else { Some(a) }, if r.chance(1, 4) { None } else { Some(b) });
                let (x, y) = (a.map(|d| m.span(&d)), b.map(|d| m.span(&d)));
                bump(r, &mut curve, &mut m, x, y, Some((a, b)), log);
                if log.fail.is_some() { return; }
            }
        }
    }
}
fn bump(r: &mut Rng, curve: &mut ZeroCurve, m: &mut Model, a: Option<f32>, b: Option<f32>, dates: Option<(Option<OffsetDateTime>, Option<OffsetDateTime>)>, log: &mut Log) {
    let by = real(r, -0.004, 0.004);
    let got = guard(|| match &dates { Some((a, b)) => curve.bump_date_interval(a.as_ref(), b.as_ref(), by), None => curve.bump_time_interval(a, b, by) }.map_err(|e| e.to_string()));
    let refused = matches!((a, b), (Some(a), Some(b)) if a > b);
    log.step(format!("bump by {} over ({:?}, {:?}] {:?}: {:?}", by, a, b, dates, got));
    if log.check(&["C23"], matches!(&got, Ok(x) if x.is_err() == refused), || format!("bumping over ({:?}, {:?}] gave {:?}, expected it to be {}", a, b, got, if refused { "refused" } else { "accepted" })) {
        return;
    }
    if !refused {
        for k in 0..m.t.len() {
            if a.map_or(true, |a| (a as f64) < m.t[k]) && b.map_or(true, |b| m.t[k] <= b as f64) {
                m.rate[k] += by as f64;
            }
        }
    }
}
