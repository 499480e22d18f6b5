//! sorted-table search (C14) and interpolation (C16)
use crate::util::{guard, Log, Rng};
use ndarray::{Array1, Array2};
use quantlib::math::cholescky_factorization::cholesky_decomposition;
use quantlib::math::interpolator::{ExtraPolationType, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::{ConstantInterpolator1D, StepwiseInterpolator1D};
use quantlib::util::is_ndarray_sorted;
use quantlib::utils::distribute_value::distribute_value_on_vector;
use quantlib::utils::find_index::{binary_search_index, vectorized_search_index_for_sorted_vector};
use quantlib::utils::find_index_ndarray::{binary_search_index_ndarray, vectorized_search_index_for_sorted_ndarray};

fn belongs<T: PartialOrd>(v: &[T], x: &T, r: usize) -> bool {
    let strict = v.windows(2).all(|w| w[0] < w[1]);
    r < v.len() && (v[r] <= *x || (r == 0 && *x < v[0])) && (r + 1 >= v.len() || (if strict { *x < v[r + 1] } else { *x <= v[r + 1] }))
}

fn searches<T: PartialOrd + Copy + std::fmt::Debug>(v: Vec<T>, xs: Vec<T>, strict: bool, log: &mut Log) {
    for x in &xs {
        log.step(format!("search {:?} in {:?}", x, v));
        let got = guard(|| (binary_search_index(&v, *x), binary_search_index_ndarray(&Array1::from(v.clone()), *x)));
        let ok = matches!(&got, Ok((a, b)) if belongs(&v, x, *a) && belongs(&v, x, *b));
        if log.check(&["C14"], ok, || format!("searching {:?} in {:?} gave {:?}", x, v, got)) {
            return;
        }
        log.steps.pop();
    }
    if !strict {
        return;
    }
    log.step(format!("vectorized search of {:?} in {:?}", xs, v));
    let got = guard(|| (vectorized_search_index_for_sorted_vector(&v, &xs), vectorized_search_index_for_sorted_ndarray(&Array1::from(v.clone()), &Array1::from(xs.clone()))));
    let good = |r: &Vec<usize>| r.len() == xs.len() && r.iter().zip(&xs).all(|(i, x)| belongs(&v, x, *i));
    let ok = matches!(&got, Ok((a, b)) if good(a) && good(b));
    log.check(&["C14"], ok, || format!("vectorized search of {:?} in {:?} gave {:?}", xs, v, got));
}

pub fn search(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let n = match r.below(4) { 0 => 1, 1 => 2, 2 => 3 + r.below(4), _ => r.below(40) + 1 } as usize;
    let m = r.below(9) as usize;
    let strict = r.chance(2, 3);
    let span = 1 + r.range(1, 3 * n as i64 + 4);
    let mut v: Vec<i64> = (0..n).map(|_| r.range(-span, span)).collect();
    v.sort();
    if strict {
        v.dedup();
    }
    let mut xs: Vec<i64> = (0..m).map(|_| if r.chance(1, 2) { *r.pick(&v) } else { r.range(-span - 2, span + 2) }).collect();
    xs.sort();
    if r.chance(1, 2) {
        searches(v.iter().map(|x| *x as f32 / 4.0).collect(), xs.iter().map(|x| *x as f32 / 4.0).collect(), strict, log)
    } else {
        searches(v.clone(), xs, strict, log)
    }
    let mut w: Vec<i64> = (0..r.below(6)).map(|_| r.range(0, 5)).collect();
    if r.chance(1, 2) {
        w.sort();
    }
    log.step(format!("is_ndarray_sorted({:?})", w));
    let want = w.windows(2).all(|p| p[0] <= p[1]);
    let got = guard(|| is_ndarray_sorted(&Array1::from(w.clone())));
    log.check(&["C14", "C16"], got == Ok(want), || format!("is_ndarray_sorted gave {:?}", got));
}

fn near(a: f32, b: f64) -> bool {
    near_by(a, b, 0.0)
}
/// scale: the size of the numbers that were added up (f32 loses about 1e-7 of it each time)
fn near_by(a: f32, b: f64, scale: f64) -> bool {
    (a as f64 - b).abs() <= 1e-4 * (1.0 + b.abs()) + 1e-5 * scale
}
fn kind(r: &mut Rng) -> ExtraPolationType {
    *r.pick(&[ExtraPolationType::None, ExtraPolationType::Flat, ExtraPolationType::Linear])
}
// values that are exact in f32 and in f64
fn nodes(r: &mut Rng, n: usize) -> Vec<f32> {
    let mut x = r.range(-20, 20);
    (0..n).map(|_| { x += r.range(1, 6); x as f32 / 4.0 }).collect()
}
fn points(r: &mut Rng, d: &[f32], m: usize) -> Vec<f32> {
    let mut v: Vec<f32> = (0..m).map(|_| match r.below(4) {
        0 if !d.is_empty() => *r.pick(d),
        1 => r.range(-400, 400) as f32 / 8.0,
        _ if !d.is_empty() => { let a = d[0]; let b = d[d.len() - 1]; a + (b - a) * (r.below(65) as f32 / 64.0) }
        _ => r.range(-40, 40) as f32,
    }).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
/// the value at x, None when outside and not extrapolated
fn line(d: &[f32], v: &[f64], t: ExtraPolationType, ok: bool, x: f32) -> Option<f64> {
    let n = d.len();
    let at = |k: usize, x: f32| v[k] + (v[k + 1] - v[k]) / (d[k + 1] as f64 - d[k] as f64) * (x as f64 - d[k] as f64);
    if n > 1 && x >= d[0] && x < d[n - 1] {
        let k = (0..n - 1).find(|&k| x < d[k + 1]).unwrap();
        return Some(at(k, x));
    }
    if n > 0 && x == d[n - 1] {
        return Some(v[n - 1]);
    }
    if !ok {
        return None;
    }
    match t {
        ExtraPolationType::None => None,
        ExtraPolationType::Flat => Some(if x < d[0] { v[0] } else { v[n - 1] }),
        ExtraPolationType::Linear => Some(if x < d[0] { at(0, x) } else { at(n - 2, x) }),
    }
}
fn agree(got: &Result<Result<f32, String>, String>, want: Option<f64>, scale: f64) -> bool {
    match (got, want) {
        (Ok(Ok(g)), Some(w)) => near_by(*g, w, scale),
        (Ok(Err(_)), None) => true,
        _ => false,
    }
}
fn agree_all(got: &Result<Result<Vec<f32>, String>, String>, want: &[Option<f64>], scale: f64) -> bool {
    match got {
        Ok(Ok(g)) => g.len() == want.len() && g.iter().zip(want).all(|(g, w)| matches!(w, Some(w) if near_by(*g, *w, scale))),
        Ok(Err(_)) => want.iter().any(|w| w.is_none()),
        Err(_) => false,
    }
}

pub fn interpolate(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    match r.below(5) {
        0 => distribute(&mut r, log),
        1 => linear(&mut r, log),
        2 => steps(&mut r, log),
        3 => bilinear(&mut r, log),
        _ => cholesky(&mut r, log),
    }
}

fn distribute(r: &mut Rng, log: &mut Log) {
    let n = r.below(6) as usize;
    let m = if r.chance(1, 10) { n + 1 } else { n };
    let d = nodes(r, m);
    let a: Vec<f32> = (0..n).map(|_| r.range(-50, 50) as f32).collect();
    let v = r.range(-40, 40) as f32;
    let x = points(r, &d, 1)[0];
    let mut b = a.clone();
    log.step(format!("distribute {} at {} over {:?} onto {:?}", v, x, d, a));
    let got = guard(|| distribute_value_on_vector(&mut b, v, x, &d).is_ok());
    let mut w: Vec<f64> = a.iter().map(|y| *y as f64).collect();
    if n == m && n > 0 {
        if x <= d[0] { w[0] += v as f64 } else if x >= d[n - 1] { w[n - 1] += v as f64 } else {
            let k = (0..n - 1).find(|&k| x < d[k + 1]).unwrap();
            let s = (x as f64 - d[k] as f64) / (d[k + 1] as f64 - d[k] as f64);
            w[k] += (1.0 - s) * v as f64;
            w[k + 1] += s * v as f64;
        }
    }
    let ok = got == Ok(n == m) && b.iter().zip(&w).all(|(g, w)| near(*g, *w));
    log.check(&["C16"], ok, || format!("result {:?} {:?}, expected {:?}", got, b, w));
}

fn linear(r: &mut Rng, log: &mut Log) {
    let n = r.below(6) as usize;
    let mut d = nodes(r, n);
    if r.chance(1, 6) {
        let k = r.below(n.max(1) as u64) as usize;
        if n > 1 { d.swap(0, k) }
    }
    let m = if r.chance(1, 12) { n + 1 } else { n };
    let v: Vec<f32> = (0..m).map(|_| r.range(-50, 50) as f32).collect();
    let t = kind(r);
    let ex = r.chance(1, 2);
    log.step(format!("LinearInterpolator1D::new({:?}, {:?}, {}, {})", d, v, t, ex));
    let made = guard(|| LinearInterpolator1D::new(Array1::from(d.clone()), Array1::from(v.clone()), t, ex).map_err(|e| e.to_string()));
    let want = n == m && n > 0 && d.windows(2).all(|p| p[0] < p[1]) && (t != ExtraPolationType::Linear || n >= 2);
    if log.check(&["C16"], matches!(&made, Ok(x) if x.is_ok() == want), || format!("new gave {:?}, expected it to be {}", made, if want { "made" } else { "refused" })) {
        return;
    }
    let c = match made { Ok(Ok(c)) => c, _ => return };
    let w: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let k = r.below(6) as usize;
    let xs = points(r, &d, k);
    let scale = 2e4 + 400.0 * xs.iter().fold(0f32, |a, x| a.max(x.abs())) as f64; // slopes are at most 400
    for x in &xs {
        let got = guard(|| c.interpolate(*x).map_err(|e| e.to_string()));
        let want = line(&d, &w, t, ex, *x);
        if log.check(&["C16"], agree(&got, want, scale), || format!("interpolate({}) gave {:?}, expected {:?}", x, got, want)) {
            return;
        }
    }
    let got = guard(|| c.vectorized_interpolate_for_sorted_ndarray(&Array1::from(xs.clone())).map(|a| a.to_vec()).map_err(|e| e.to_string()));
    let want: Vec<_> = xs.iter().map(|x| line(&d, &w, t, ex, *x)).collect();
    log.check(&["C16"], agree_all(&got, &want, scale), || format!("vectorized({:?}) gave {:?}, expected {:?}", xs, got, want));
}

fn steps(r: &mut Rng, log: &mut Log) {
    let n = r.below(6) as usize;
    let mut x = 0i64;
    let mut d: Vec<i64> = (0..n).map(|_| { x += r.range(1, 5); x }).collect();
    if r.chance(1, 6) && n > 1 {
        let k = r.below(n as u64) as usize;
        d.swap(0, k);
    }
    let m = if r.chance(1, 12) { n + 1 } else { n };
    let v: Vec<f32> = (0..m).map(|_| r.range(-50, 50) as f32).collect();
    let ex = r.chance(2, 3);
    let le = if r.chance(1, 2) { Some(r.range(100, 120) as f32) } else { None };
    let ri = if r.chance(1, 2) { Some(r.range(200, 220) as f32) } else { None };
    log.step(format!("StepwiseInterpolator1D::new({:?}, {:?}, {}, {:?}, {:?})", d, v, ex, le, ri));
    let made = guard(|| StepwiseInterpolator1D::<i64>::new(Array1::from(d.clone()), Array1::from(v.clone()), ex, le, ri).map_err(|e| e.to_string()));
    let want = n == m && n > 0 && d.windows(2).all(|p| p[0] <= p[1]);
    if log.check(&["C16"], matches!(&made, Ok(x) if x.is_ok() == want), || format!("new gave {:?}, expected it to be {}", made.as_ref().map(|m| m.is_ok()), if want { "made" } else { "refused" })) {
        return;
    }
    let c = match made { Ok(Ok(c)) => c, _ => return };
    let at = |x: i64| -> Option<f64> {
        if x < d[0] { if ex { Some(le.unwrap_or(v[0]) as f64) } else { None } }
        else if x > d[n - 1] { if ex { Some(ri.unwrap_or(v[n - 1]) as f64) } else { None } }
        else { Some(v[(0..n).rev().find(|&k| d[k] <= x).unwrap()] as f64) }
    };
    let k = r.below(6);
    let mut xs: Vec<i64> = (0..k).map(|_| r.range(-2, x + 3)).collect();
    xs.sort();
    for x in &xs {
        let got = guard(|| c.interpolate(*x).map_err(|e| e.to_string()));
        if log.check(&["C16"], agree(&got, at(*x), 0.0), || format!("interpolate({}) gave {:?}, expected {:?}", x, got, at(*x))) {
            return;
        }
    }
    let got = guard(|| c.vectorized_interpolate_for_sorted_ndarray(&Array1::from(xs.clone())).map(|a| a.to_vec()).map_err(|e| e.to_string()));
    let want: Vec<_> = xs.iter().map(|x| at(*x)).collect();
    if log.check(&["C16"], agree_all(&got, &want, 0.0), || format!("vectorized({:?}) gave {:?}, expected {:?}", xs, got, want)) {
        return;
    }
    let q = r.range(-9, 9) as f32;
    let got = guard(|| { let c = ConstantInterpolator1D::new(q).unwrap(); (Interpolator1D::<i64>::interpolate(&c, 3).unwrap(), c.vectorized_interpolate_for_sorted_ndarray(&Array1::from(xs.clone())).unwrap().to_vec()) });
    log.check(&["C16"], got == Ok((q, vec![q; xs.len()])), || format!("constant {} gave {:?}", q, got));
}

fn bilinear(r: &mut Rng, log: &mut Log) {
    let n = r.below(5) as usize;
    let k = r.below(5) as usize;
    let mut t = nodes(r, n);
    let mut x = nodes(r, k);
    if r.chance(1, 8) && n > 1 { t.swap(0, n - 1) }
    if r.chance(1, 8) && k > 1 { x.swap(0, k - 1) }
    let (rows, cols) = (if r.chance(1, 12) { n + 1 } else { n }, if r.chance(1, 12) { k + 1 } else { k });
    let v: Vec<Vec<f32>> = (0..rows).map(|_| (0..cols).map(|_| r.range(-50, 50) as f32).collect()).collect();
    let (xe, xt, te, tt) = (r.chance(2, 3), kind(r), r.chance(2, 3), kind(r));
    log.step(format!("BilinearInterpolator of t {:?}, x {:?}, values {:?}, x extrapolation {} {}, t extrapolation {} {}", t, x, v, xe, xt, te, tt));
    let up = |d: &[f32]| d.windows(2).all(|p| p[0] < p[1]);
    let rect = r.chance(1, 2);
    let made = if rect {
        let a = Array2::from_shape_vec((rows, cols), v.concat()).unwrap();
        let made = guard(|| BilinearInterpolator::new_from_rectangle_data(Array1::from(t.clone()), Array1::from(x.clone()), a, xe, xt, te, tt).map_err(|e| e.to_string()));
        let want = n >= 2 && k >= 2 && rows == n && cols == k && up(&t) && up(&x);
        if log.check(&["C16"], matches!(&made, Ok(m) if m.is_ok() == want), || format!("from rectangle gave {:?}, expected it to be {}", made.as_ref().map(|m| m.is_ok()), if want { "made" } else { "refused" })) {
            return;
        }
        made
    } else {
        if cols != k || !up(&x) || k < 2 {
            return;
        }
        let cs: Vec<_> = v.iter().map(|row| LinearInterpolator1D::new(Array1::from(x.clone()), Array1::from(row.clone()), xt, xe).unwrap()).collect();
        let made = guard(|| BilinearInterpolator::new(Array1::from(t.clone()), cs, te, tt).map_err(|e| e.to_string()));
        let want = n == rows && n > 0 && up(&t) && (tt != ExtraPolationType::Linear || n >= 2);
        if log.check(&["C16"], matches!(&made, Ok(m) if m.is_ok() == want), || format!("new gave {:?}, expected it to be {}", made.as_ref().map(|m| m.is_ok()), if want { "made" } else { "refused" })) {
            return;
        }
        made
    };
    let b = match made { Ok(Ok(b)) => b, _ => return };
    for _ in 0..6 {
        let (pt, px) = (points(r, &t, 1)[0], points(r, &x, 1)[0]);
        let cur: Vec<Option<f64>> = v.iter().map(|row| line(&x, &row.iter().map(|y| *y as f64).collect::<Vec<_>>(), xt, xe, px)).collect();
        let scale = 2e4 + 400.0 * px.abs() as f64;
        let got = guard(|| b.interpolate(pt, px).map_err(|e| e.to_string()));
        let want = if cur.iter().all(|c| c.is_some()) { line(&t, &cur.iter().map(|c| c.unwrap()).collect::<Vec<_>>(), tt, te, pt) } else { None };
        // a curve that does not answer at x matters only when it is used
        let ok = if cur.iter().any(|c| c.is_none()) { got.is_ok() } else { agree(&got, want, cur.iter().map(|c| c.unwrap().abs()).sum::<f64>() * (1.0 + 4.0 * (pt - t[0]).abs() as f64) + scale) };
        if log.check(&["C16"], ok, || format!("interpolate({}, {}) gave {:?}, expected {:?}", pt, px, got, want)) {
            return;
        }
    }
}

fn cholesky(r: &mut Rng, log: &mut Log) {
    let n = 1 + r.below(4) as usize;
    let cols = if r.chance(1, 10) { n + 1 } else { n };
    let mut l = vec![vec![0f64; n]; n];
    for i in 0..n {
        for j in 0..i { l[i][j] = r.range(-4, 4) as f64 }
        l[i][i] = r.range(1, 4) as f64;
    }
    let bad = r.chance(1, 6);
    let mut a = Array2::<f32>::zeros((n, cols));
    for i in 0..n { for j in 0..n { a[[i, j]] = (0..n).map(|k| l[i][k] * l[j][k]).sum::<f64>() as f32 } }
    if bad { let k = r.below(n as u64) as usize; a[[k, k]] = -1.0; }
    log.step(format!("cholesky of {:?}", a));
    let got = guard(|| cholesky_decomposition(&a).map_err(|e| e.to_string()));
    let ok = match &got {
        Err(_) => false,
        Ok(Err(_)) => cols != n || bad,
        Ok(Ok(x)) => cols == n && !bad && (0..n).all(|i| (0..n).all(|j| (x[[i, j]] as f64 - l[i][j]).abs() < 1e-2)),
    };
    log.check(&["C16"], ok, || format!("gave {:?}, expected {}", got, if cols != n || bad { "an error".to_string() } else { format!("{:?}", l) }));
}
