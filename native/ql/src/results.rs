//! how a portfolio is split into groups, and what a result keeps and becomes in another currency (C27)
use crate::cash::real;
use crate::days::{day, moment, plus};
use crate::select::{make, Made, CODES, CS, TYPES};
use crate::util::{guard, Log, Rng};
use ndarray::Array2;
use quantlib::currency::Currency;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::cash::Cash;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use time::OffsetDateTime;

fn some<T: Clone>(r: &mut Rng, of: &[T]) -> Option<Vec<T>> {
    if r.chance(1, 2) { return None; }
    let n = r.below(of.len() as u64) + 1;
    Some((0..n).map(|_| r.pick(of).clone()).collect())
}
struct Cat {
    ty: Option<Vec<String>>,
    ccy: Option<Vec<Currency>>,
    und: Option<Vec<String>>,
    real: InstrumentCategory,
}
impl Cat {
    fn fits(&self, m: &Made) -> bool {
        self.ty.as_ref().map_or(true, |t| t.iter().any(|x| x == m.ty)) && self.ccy.as_ref().map_or(true, |c| c.contains(&m.ccy)) && match (&self.und, &m.und) {
            (Some(u), Some(x)) => u.len() == 1 && &u[0] == x,
            _ => true,
        }
    }
}
fn category(r: &mut Rng) -> Cat {
    let ty = some(r, &TYPES.map(|x| x.to_string()));
    let ccy = some(r, &CS);
    let und = if r.chance(1, 2) { None } else { Some((0..r.range(0, 5) / 2).map(|_| r.pick(&CODES).to_string()).collect::<Vec<_>>()) };
    Cat { real: InstrumentCategory::new(ty.clone(), ccy.clone(), und.clone()), ty, ccy, und }
}
fn groups(r: &mut Rng, log: &mut Log) {
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let base = moment(r, d0);
    let cal = JointCalendar::new(vec![Calendar::NullCalendar(NullCalendar::new())]).unwrap();
    let cash_only = r.chance(1, 8);
    let mut v: Vec<Made> = vec![];
    for n in 0..r.below(7) {
        if let Ok(Some(m)) = guard(|| make(r, n as usize, base, &cal)) {
            if cash_only {
                let i = Rc::new(Instrument::Cash(Cash::new(m.ccy, format!("name of {}", n), m.code.clone())));
                v.push(Made { ty: "Cash", und: None, i, ..m });
            } else { v.push(m); }
        }
    }
    let mut cats: Vec<Cat> = (0..r.below(5)).map(|_| category(r)).collect();
    if r.chance(1, 2) { cats.push(Cat { ty: None, ccy: None, und: None, real: InstrumentCategory::new(None, None, None) }); }
    let whats = format!("{:?}", v.iter().map(|x| (x.ty, x.ccy, &x.und)).collect::<Vec<_>>());
    let whatc = format!("{:?}", cats.iter().map(|c| (&c.ty, &c.ccy, &c.und)).collect::<Vec<_>>());
    log.step(format!("instruments {}; categories (types, currencies, underlyings) {}", whats, whatc));
    log.interesting += v.len() as u64;
    for x in v.iter() { for c in cats.iter() {
        let got = guard(|| c.real.contains(&x.i).ok());
        let want = Ok(Some(c.fits(x)));
        if log.check(&["C27"], got == want, || format!("the category of types {:?}, currencies {:?}, underlyings {:?} takes the {} in {:?} on {:?}: {:?}, expected {:?}", c.ty, c.ccy, c.und, x.ty, x.ccy, x.und, got, want)) { return; }
    } }
    let mut g = EngineGenerator::builder();
    let maps = MatchParameter::new(HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
    g.with_configuration(CalculationConfiguration::default(), base, maps).unwrap();
    g.with_instruments(Instruments::new(v.iter().map(|x| x.i.clone()).collect())).unwrap();
    g.with_instrument_categories(cats.iter().map(|c| c.real.clone()).collect()).unwrap();
    let got = guard(|| g.distribute_instruments().is_ok());
    let left: Vec<usize> = (0..v.len()).filter(|k| !cats.iter().any(|c| c.fits(&v[*k]))).collect();
    if log.check(&["C27"], got == Ok(left.is_empty()), || format!("distributing {} over {} is accepted: {:?}, but {:?} fit no category", whats, whatc, got, left)) { return; }
    if !cash_only || got != Ok(true) { return; }
    g.with_data(HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new()).unwrap();
    let done = guard(|| g.calculate().map_err(|e| e.to_string()));
    let mut codes: Vec<String> = g.get_calculation_results().iter().filter(|x| x.1.get_value().is_some()).map(|x| x.0.clone()).collect();
    codes.sort();
    let mut want: Vec<String> = v.iter().map(|x| x.i.get_code().clone()).collect();
    want.sort();
    log.check(&["C27"], done == Ok(Ok(())) && codes == want, || format!("calculating {} over {} gives {:?} and values for {:?}, expected {:?}", whats, whatc, done, codes, want));
}

type Map = Option<BTreeMap<String, Vec<f32>>>;
fn kept(m: Option<&HashMap<String, f32>>) -> Map { m.map(|m| m.iter().map(|(k, v)| (k.clone(), vec![*v])).collect()) }
fn rows(m: Option<&HashMap<String, Vec<f32>>>) -> Map { m.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) }
fn table(m: Option<&HashMap<String, Array2<f32>>>) -> Map { m.map(|m| m.iter().map(|(k, v)| (k.clone(), std::iter::once(v.nrows() as f32 / 1024.0).chain(v.iter().cloned()).collect())).collect()) }
fn near(a: f32, b: f32) -> bool { a == b || (a - b).abs() <= 1e-5 * a.abs().max(b.abs()) }
fn same(a: &Map, b: &Map) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(y.1).all(|(p, q)| near(*p, *q))),
        (None, None) => true,
        _ => false,
    }
}
/// everything a result shows as numbers by name
fn shown(c: &CalculationResult) -> Vec<(&'static str, Map)> {
    let one = |x: Option<f32>| x.map(|x| BTreeMap::from([(String::new(), vec![x])]));
    vec![("value", one(c.get_value())), ("theta", one(c.get_theta())),
        ("fx_exposure", c.get_fx_exposure().map(|m| m.iter().map(|(k, v)| (format!("{:?}", k), vec![*v])).collect())),
        ("delta", kept(c.get_delta())), ("gamma", kept(c.get_gamma())), ("vega", kept(c.get_vega())), ("rho", kept(c.get_rho())), ("div_delta", kept(c.get_div_delta())),
        ("vega_structure", rows(c.get_vega_structure())), ("rho_structure", rows(c.get_rho_structure())), ("div_structure", rows(c.get_div_structure())), ("vega_matrix", table(c.get_vega_matrix()))]
}
fn put(m: &mut Vec<(&'static str, Map)>, what: &str, k: String, v: Vec<f32>) {
    let e = m.iter_mut().find(|x| x.0 == what).unwrap();
    e.1.get_or_insert_with(BTreeMap::new).insert(k, v);
}
fn keeps(r: &mut Rng, log: &mut Log) {
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let base: OffsetDateTime = moment(r, d0);
    let own = *r.pick(&CS);
    let unit = real(r, 1.0, 500.0);
    let mat = if r.chance(1, 2) { Some(base) } else { None };
    let bare = r.chance(1, 20);
    let info = InstrumentInfo::new("a name".into(), "a code".into(), "Bond", own, unit, mat.as_ref());
    let (mut c, mut rep) = if bare { (CalculationResult::default(), None) } else { (CalculationResult::new(info, base), Some(own)) };
    let mut m = shown(&c);
    let (mut npv, mut flows): (Option<f32>, Option<HashMap<OffsetDateTime, f32>>) = (None, None);
    log.step(format!("a result of {:?} with unit notional {}", rep, unit));
    for _ in 0..r.below(10) {
        let k = r.pick(&CODES).to_string();
        let x = real(r, -100.0, 100.0);
        let row: Vec<f32> = (0..r.below(4)).map(|_| real(r, -10.0, 10.0)).collect();
        let tab = Array2::from_shape_fn((r.below(3) as usize, 2), |_| real(r, -10.0, 10.0));
        let mut fine = true;
        let pick = r.below(16);
        log.step(format!("set {} at {} to {} / {:?} / {:?}", ["delta", "gamma", "vega", "rho", "div_delta", "vega_structure", "rho_structure", "div_structure", "vega_matrix", "theta", "theta_day", "fx_exposure", "npv", "value", "cashflows", "representation currency"][pick as usize], k, x, row, tab));
        match pick {
            0 => { c.set_single_delta(&k, x); put(&mut m, "delta", k, vec![x]) }
            1 => { c.set_single_gamma(&k, x); put(&mut m, "gamma", k, vec![x]) }
            2 => { c.set_single_vega(&k, x); put(&mut m, "vega", k, vec![x]) }
            3 => { c.set_single_rho(&k, x); put(&mut m, "rho", k, vec![x]) }
            4 => { c.set_single_div_delta(&k, x); put(&mut m, "div_delta", k, vec![x]) }
            5 => { c.set_single_vega_structure(&k, row.clone()); put(&mut m, "vega_structure", k, row) }
            6 => { c.set_single_rho_structure(&k, row.clone()); put(&mut m, "rho_structure", k, row) }
            7 => { c.set_single_div_structure(&k, row.clone()); put(&mut m, "div_structure", k, row) }
            8 => { c.set_single_vega_matrix(&k, tab.clone()); put(&mut m, "vega_matrix", k, std::iter::once(tab.nrows() as f32 / 1024.0).chain(tab.iter().cloned()).collect()) }
            9 => { c.set_theta(x); put(&mut m, "theta", String::new(), vec![x]) }
            10 => c.set_theta_day(r.range(1, 5) as i32),
            11 => {
                let e: HashMap<Currency, f32> = (0..r.below(3)).map(|_| (*r.pick(&CS), x)).collect();
                c.set_fx_exposure(e.clone());
                m.iter_mut().find(|y| y.0 == "fx_exposure").unwrap().1 = Some(e.iter().map(|(k, v)| (format!("{:?}", k), vec![*v])).collect());
            }
            12 => { c.set_npv(NpvResult::new_from_npv(x)); npv = Some(x) }
            13 => {
                let got = guard(|| c.set_value().is_ok());
                fine = got == Ok(npv.is_some() && !bare);
                if let (Some(n), false) = (npv, bare) { put(&mut m, "value", String::new(), vec![n * unit]) }
            }
            14 => { flows = Some(HashMap::from([(base, x)])); c.set_cashflows(flows.clone().unwrap()) }
            _ => { let to = *r.pick(&CS); c.set_representation_currency(to); rep = Some(to) }
        }
        let now = shown(&c);
        if log.check(&["C27"], fine && now.iter().zip(&m).all(|(a, b)| same(&a.1, &b.1)) && c.get_npv_result().map(|n| n.get_npv()) == npv && c.get_cashflows() == flows.as_ref(), || format!("the result shows {:?}, npv {:?}, cash flows {:?}; expected {:?}, npv {:?}, cash flows {:?}", now, c.get_npv_result().map(|n| n.get_npv()), c.get_cashflows(), m, npv, flows)) { return; }
    }
    let (to, f) = (*r.pick(&CS), real(r, 0.1, 1500.0));
    let got = guard(|| c.representation_currency_conversion(to, f).ok());
    log.step(format!("in {:?} at {}", to, f));
    log.interesting += 1;
    let Ok(Some(n)) = &got else {
        log.check(&["C27"], got == Ok(None) && rep.is_none(), || format!("converting from {:?} to {:?} gives {:?}", rep, to, got.as_ref().err()));
        return;
    };
    if log.check(&["C27"], rep.is_some(), || format!("a result without a currency was converted to {:?}", to)) { return; }
    let f = if rep == Some(to) { 1.0 } else { f };
    for ((name, was), (_, is)) in m.iter().zip(shown(n)) {
        let want: Map = was.as_ref().map(|w| w.iter().map(|(k, v)| (k.clone(), v.iter().enumerate().map(|(i, x)| if *name == "vega_matrix" && i == 0 { *x } else { x * f }).collect())).collect());
        if log.check(&["C27"], same(&is, &want), || format!("{} in {:?} at {} is {:?}, expected {:?} from {:?}", name, to, f, is, want, was)) { return; }
    }
    // converted once more to the same currency nothing changes
    let again = guard(|| n.representation_currency_conversion(to, 7.0).ok());
    log.check(&["C27"], again == Ok(Some(n.clone())) && n.get_npv_result() == c.get_npv_result() && n.get_cashflows() == c.get_cashflows() && n.get_instrument_info() == c.get_instrument_info() && n.get_evaluation_date() == c.get_evaluation_date(),
        || format!("the converted result does not keep its npv, cash flows, instrument, date or currency {:?}: {:?}", to, n));
}
pub fn results(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    if r.chance(1, 2) { groups(&mut r, log) } else { keeps(&mut r, log) }
}
