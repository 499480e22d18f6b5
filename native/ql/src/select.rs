//! which instruments of a portfolio a question is about, and which curves each of them calls for (C26)
use crate::cash::real;
use crate::days::{day, moment, plus};
use crate::util::{guard, Log, Rng};
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType};
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Duration, OffsetDateTime, UtcOffset};

pub const CS: [Currency; 4] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY];
pub const CODES: [&str; 4] = ["A", "B", "C", "D"];
const CURVES: [&str; 6] = ["KRWGOV", "USDOIS", "KRWCRS", "EURGOV", "KSD", "JPYCRS"];
pub const TYPES: [&str; 12] = ["Futures", "FxFutures", "Bond", "IRS", "CRS", "FxSwap", "FxForward", "FxSpot", "KTBF", "Stock", "Cash", "VanillaCall"];
type Key = (String, IssuerType, CreditRating, Currency);

/// what an instrument was made from
pub struct Made {
    pub ty: &'static str,
    pub ccy: Currency,
    pub other: Option<Currency>,
    pub und: Option<String>,
    pub tag: Option<String>,
    pub mat: Option<OffsetDateTime>,
    pub key: Option<Key>,
    pub index: Option<String>,
    pub pays: bool,
    pub fx: Option<FxCode>,
    pub code: String,
    pub i: Rc<Instrument>,
}
struct Maps {
    coll: HashMap<String, String>,
    borrow: HashMap<String, String>,
    bond: HashMap<Key, String>,
    crs: HashMap<Currency, String>,
    rate: HashMap<String, String>,
    fund: HashMap<Currency, String>,
}
impl Made {
    fn swap(&self) -> bool { ["CRS", "FxSwap", "FxForward", "FxSpot"].contains(&self.ty) }
    fn rate(&self, m: &Maps) -> Option<String> {
        match &self.index { Some(x) => m.rate.get(x).cloned(), None => Some("Dummy".into()) }
    }
    fn discount(&self, m: &Maps) -> Option<String> {
        if let Some(k) = &self.key { return Some(m.bond.get(k).cloned().unwrap_or("Dummy".into())); }
        if self.pays { return m.fund.get(&self.ccy).cloned(); }
        self.rate(m)
    }
    fn crs(&self, m: &Maps, floating: bool) -> Option<String> {
        if self.swap() || self.ty == "FxFutures" { m.crs.get(&if floating { self.other.unwrap() } else { self.ccy }).cloned() } else { Some("Dummy".into()) }
    }
    fn coll(&self, m: &Maps) -> Option<Vec<String>> {
        self.und.iter().map(|u| m.coll.get(u).cloned()).collect()
    }
    fn borrow(&self, m: &Maps) -> Option<Vec<String>> {
        self.und.iter().chain(self.tag.iter()).map(|u| m.borrow.get(u).cloned()).collect()
    }
    /// the curves the selection is about, in the order they are asked for
    fn curves(&self, m: &Maps) -> Option<Vec<String>> {
        let mut v = vec![self.discount(m)?];
        v.extend(self.coll(m)?);
        v.extend([self.rate(m)?, self.crs(m, false)?, self.crs(m, true)?]);
        Some(v)
    }
}
pub fn make(r: &mut Rng, n: usize, base: OffsetDateTime, cal: &JointCalendar) -> Option<Made> {
    let (ccy, o) = (*r.pick(&CS), *r.pick(&CS));
    let und = r.pick(&CODES).to_string();
    let mat = base + Duration::days(r.range(10, 14)) + Duration::hours(r.range(0, 2));
    let mat = if r.chance(1, 3) { mat.to_offset(UtcOffset::from_hms(r.range(-9, 9) as i8, 0, 0).unwrap()) } else { mat };
    let id = format!("name of {}", n);
    let code = format!("x{}", n);
    let b1 = BaseSchedule::new(base, base, mat, mat, None);
    let x = real(r, 1.0, 100.0);
    let mut m = Made { ty: "Cash", ccy, other: None, und: None, tag: None, mat: Some(mat), key: None, index: None, pays: false, fx: None, code: code.clone(), i: Rc::new(Instrument::Cash(Cash::new(ccy, id.clone(), code.clone()))) };
    let index = if r.chance(2, 3) { Some(r.pick(&CODES).to_string()) } else { None };
    let ri = |i: &Option<String>| i.as_ref().map(|c| RateIndex::new("91D".into(), ccy, "index".into(), c.clone()).unwrap());
    let pick = r.below(8);
    match pick {
        0 => {
            m.ty = "Futures"; m.other = Some(o); m.und = Some(und.clone());
            m.i = Rc::new(Instrument::Futures(Futures::new(x, base, mat, mat, mat, 1.0, ccy, o, und, id.clone(), code.clone())));
        }
        1 => {
            m.ty = "FxFutures"; m.other = Some(o); m.fx = Some(FxCode::new(o, ccy));
            m.i = Rc::new(Instrument::FxFutures(FxFutures::new(x, base, mat, mat, mat, 1.0, ccy, o, id.clone(), code.clone())));
        }
        2 => {
            let (it, cr, who) = (*r.pick(&[IssuerType::Government, IssuerType::Financial]), *r.pick(&[CreditRating::None, CreditRating::AAA]), *r.pick(&["me", "you"]));
            m.ty = "Bond"; m.key = Some((who.into(), it, cr, ccy)); m.index = index.clone();
            let b = Bond::new(it, cr, who.into(), RankType::Senior, ccy, 100.0, false, Schedule::new(vec![b1]), if index.is_none() { Some(0.03) } else { None }, None, ri(&index), None, base, base, None, mat, cal.clone(), D::Actual365Fixed, B::Unadjusted, F::Quarterly, 0, 0, id.clone(), code.clone()).ok()?;
            m.i = Rc::new(Instrument::Bond(b));
        }
        3 | 4 => {
            // a swap in one currency is an interest rate swap; in two, notionals are exchanged
            let one = r.chance(1, 3);
            let legs = one || r.chance(1, 2);
            let both = legs || r.chance(1, 2);
            let o = if one { ccy } else { o };
            if !one && o == ccy { return None; }
            let (n1, n2) = (if one || !both { None } else { Some(1.0) }, if one { None } else { Some(1.0) });
            let index = if legs { Some(r.pick(&CODES).to_string()) } else { None };
            let s = || Schedule::new(if legs { vec![b1.clone()] } else { vec![] });
            let w = PlainSwap::new(s(), s(), if legs { Some(0.03) } else { None }, ri(&index), None, cal.clone(), 100.0, base, base, mat, ccy, o, n1, n1, n2, n2, D::Actual365Fixed, D::Actual365Fixed, B::Unadjusted, B::Unadjusted, F::Quarterly, F::Quarterly, 0, 0, id.clone(), code.clone()).ok()?;
            m.ty = if one { "IRS" } else if legs { "CRS" } else if both { "FxSwap" } else { "FxForward" };
            m.other = Some(o); m.index = index;
            m.i = Rc::new(Instrument::PlainSwap(w));
            if m.ty == "FxForward" && m.i.get_type_name() == "FxSpot" { m.ty = "FxSpot"; }
            m.fx = if one { None } else { Some(FxCode::new(o, ccy)) };
        }
        5 => {
            m.ty = "KTBF"; m.tag = Some(und.clone());
            m.i = Rc::new(Instrument::KTBF(KTBF::new(ccy, 1.0, base, mat, mat, KtbfVirtualBond::new(3, 0.05, F::SemiAnnually, 100.0), vec![], und, id.clone(), code.clone()).ok()?));
        }
        6 => {
            m.pays = r.chance(1, 2); m.ty = "VanillaCall"; m.und = Some(und.clone());
            let how = if m.pays { OptionDailySettlementType::NotSettled } else { OptionDailySettlementType::Settled };
            m.i = Rc::new(Instrument::VanillaOption(VanillaOption::new(x, 1.0, base, mat, mat, mat, vec![und], o, ccy, OptionType::Call, OptionExerciseType::European, how, id.clone(), code.clone())));
        }
        _ => {
            m.mat = None;
            if r.chance(1, 2) {
                m.ty = "Stock"; m.und = Some(und.clone());
                m.i = Rc::new(Instrument::Stock(Stock::new(id.clone(), code.clone(), vec![und], ccy, None)));
            }
        }
    }
    Some(m)
}
fn once<T: PartialEq>(v: &mut Vec<T>, x: T) { if !v.contains(&x) { v.push(x); } }
pub fn portfolio(_p: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let r = &mut r;
    let d0 = plus(day(2020, 1, 1), r.range(0, 3600));
    let base = moment(r, d0);
    let cal = JointCalendar::new(vec![Calendar::NullCalendar(NullCalendar::new())]).unwrap();
    let mut v: Vec<Made> = vec![];
    for n in 0..r.below(7) {
        if let Ok(Some(m)) = guard(|| make(r, n as usize, base, &cal)) { v.push(m); }
    }
    let mut m = Maps { coll: HashMap::new(), borrow: HashMap::new(), bond: HashMap::new(), crs: HashMap::new(), rate: HashMap::new(), fund: HashMap::new() };
    let gaps = r.chance(1, 2);
    let name = |r: &mut Rng| r.pick(&CURVES).to_string();
    for c in CODES {
        if !gaps || r.chance(7, 8) { m.coll.insert(c.into(), name(r)); }
        if !gaps || r.chance(7, 8) { m.borrow.insert(c.into(), name(r)); }
        if !gaps || r.chance(7, 8) { m.rate.insert(c.into(), name(r)); }
    }
    for c in CS {
        if !gaps || r.chance(7, 8) { m.crs.insert(c, name(r)); }
        if !gaps || r.chance(7, 8) { m.fund.insert(c, name(r)); }
        for it in [IssuerType::Government, IssuerType::Financial] { for cr in [CreditRating::None, CreditRating::AAA] { for w in ["me", "you"] {
            if r.chance(1, 2) { m.bond.insert((w.into(), it, cr, c), name(r)); }
        } } }
    }
    let mp = MatchParameter::new(m.coll.clone(), m.borrow.clone(), m.bond.clone(), m.crs.clone(), m.rate.clone(), m.fund.clone());
    let all = Instruments::new(v.iter().map(|x| x.i.clone()).collect());
    let what = format!("{:?}", v.iter().map(|x| (x.ty, x.ccy, x.other, &x.und, &x.tag, x.mat.map(|d| d.to_string()), &x.key, &x.index)).collect::<Vec<_>>());
    log.step(format!("instruments {}; collateral {:?}; borrowing {:?}; bonds {:?}; crs {:?}; rates {:?}; funding {:?}", what, m.coll, m.borrow, m.bond, m.crs, m.rate, m.fund));
    log.interesting += v.len() as u64;
    // each instrument's own curves
    for x in v.iter() {
        let one = |f: Result<Result<&String, anyhow::Error>, String>| f.map(|y| y.ok().cloned()).unwrap_or(Some("a panic".into()));
        for (q, got, want) in [
            ("discount", one(guard(|| mp.get_discount_curve_name(&x.i))), x.discount(&m)),
            ("rate index", one(guard(|| mp.get_rate_index_curve_name(&x.i))), x.rate(&m)),
            ("crs", one(guard(|| mp.get_crs_curve_name(&x.i))), x.crs(&m, false)),
            ("floating crs", one(guard(|| mp.get_floating_crs_curve_name(&x.i))), x.crs(&m, true)),
        ] {
            if log.check(&["C26"], got == want, || format!("the {} curve of the {} in {:?}/{:?} (key {:?}, index {:?}) is {:?}, expected {:?}", q, x.ty, x.ccy, x.other, x.key, x.index, got, want)) { return; }
        }
        let many = |f: Result<Result<Vec<&String>, anyhow::Error>, String>| f.map(|y| y.ok().map(|z| z.into_iter().cloned().collect::<Vec<_>>())).unwrap_or(Some(vec!["a panic".into()]));
        for (q, got, want) in [("collateral", many(guard(|| mp.get_collateral_curve_names(&x.i))), x.coll(&m)), ("borrowing", many(guard(|| mp.get_borrowing_curve_names(&x.i))), x.borrow(&m))] {
            if log.check(&["C26"], got == want, || format!("the {} curves of the {} on {:?} / {:?} are {:?}, expected {:?}", q, x.ty, x.und, x.tag, got, want)) { return; }
        }
    }
    // selections
    let ids = |w: &Vec<Rc<Instrument>>| w.iter().map(|i| v.iter().position(|x| Rc::ptr_eq(&x.i, i)).map_or(-1, |k| k as i64)).collect::<Vec<_>>();
    let keep = |f: &dyn Fn(&Made) -> bool| v.iter().enumerate().filter(|x| f(x.1)).map(|x| x.0 as i64).collect::<Vec<_>>();
    let ex: Option<Vec<&str>> = if r.chance(1, 2) { Some((0..r.below(3)).map(|_| *r.pick(&TYPES)).collect()) } else { None };
    let out = |x: &Made| ex.as_ref().map_or(false, |e| e.contains(&x.ty));
    let c = *r.pick(&CS);
    let u = r.pick(&CODES).to_string();
    let k = name(r);
    let day0 = base + Duration::days(r.range(10, 14)) + Duration::hours(r.range(0, 2));
    let day = match r.chance(1, 2) { true => v.iter().filter_map(|x| x.mat).next().unwrap_or(day0), false => day0 };
    let part: Vec<usize> = (0..v.len()).filter(|_| r.chance(2, 3)).collect();
    let given: Option<Vec<Rc<Instrument>>> = if r.chance(1, 2) { Some(part.iter().map(|k| v[*k].i.clone()).collect()) } else { None };
    let pool = |f: &dyn Fn(&Made) -> bool| keep(f).into_iter().filter(|k| given.is_none() || part.contains(&(*k as usize))).collect::<Vec<_>>();
    let tys: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&TYPES)).collect();
    let g = given.as_ref();
    for (q, got, want) in [
        (format!("in {:?}", c), guard(|| Some(ids(&all.instruments_with_currency(&c)))), Some(keep(&|x| x.ccy == c))),
        (format!("on {} without {:?}", u, ex), guard(|| Some(ids(&all.instruments_with_underlying(&u, ex.clone())))), Some(keep(&|x| x.und.as_ref() == Some(&u) && !out(x)))),
        (format!("of types {:?}", tys), guard(|| Some(ids(&all.instruments_with_types(tys.clone())))), Some(keep(&|x| tys.contains(&x.ty)))),
        (format!("using {} without {:?}", k, ex), guard(|| all.instruments_using_curve(&k, &mp, ex.clone()).ok().map(|w| ids(&w))),
            if v.iter().any(|x| !out(x) && x.curves(&m).is_none()) { None } else { Some(keep(&|x| !out(x) && x.curves(&m).unwrap().contains(&k))) }),
        (format!("among {:?} up to {} without {:?}", g.map(|_| &part), day, ex), guard(|| Some(ids(&all.instruments_with_maturity_upto(g, &day, ex.clone())))), Some(pool(&|x| x.mat.map_or(false, |d| d <= day) && !out(x)))),
        (format!("among {:?} beyond {} without {:?}", g.map(|_| &part), day, ex), guard(|| Some(ids(&all.instruments_with_maturity_over(g, &day, ex.clone())))), Some(pool(&|x| x.mat.map_or(true, |d| d > day) && !out(x)))),
    ] {
        if log.check(&["C26"], got == Ok(want.clone()), || format!("the instruments {} are {:?}, expected {:?} (positions in {})", q, got, want, what)) { return; }
    }
    let mats: Vec<Option<OffsetDateTime>> = pool(&|_| true).into_iter().map(|k| v[k as usize].mat).collect();
    let short = mats.iter().filter_map(|x| *x).min();
    let long = if mats.iter().any(|x| x.is_none()) { None } else { mats.iter().filter_map(|x| *x).max() };
    let (s, l) = (guard(|| all.get_shortest_maturity(g)), guard(|| all.get_longest_maturity(g)));
    if log.check(&["C26"], s == Ok(short) && l == Ok(long), || format!("the shortest and longest of the maturities {:?} are {:?} and {:?}, expected {:?} and {:?}", mats, s, l, short, long)) { return; }
    // what the whole list needs
    let (mut us, mut fs, mut cs, mut ns) = (vec![], vec![], vec![], vec![]);
    for x in v.iter() {
        if let Some(u) = &x.und { once(&mut us, u.clone()); }
        if let Some(f) = x.fx { once(&mut fs, f); }
        once(&mut cs, x.ccy);
        if let (Some(o), true) = (x.other, x.ty != "VanillaCall") { once(&mut cs, o); }
        for n in x.curves(&m).unwrap_or_default() { if n != "Dummy" { once(&mut ns, n); } }
    }
    let ns = if v.iter().any(|x| x.curves(&m).is_none()) { None } else { Some(ns) };
    let gu = guard(|| all.get_all_underlying_codes().into_iter().cloned().collect::<Vec<_>>());
    if log.check(&["C26"], gu == Ok(us.clone()), || format!("all underlying codes of {} are {:?}, expected {:?}", what, gu, us)) { return; }
    let gf = guard(|| all.get_all_fxcodes_for_pricing());
    if log.check(&["C26"], gf == Ok(fs.clone()), || format!("all exchange rates of {} are {:?}, expected {:?}", what, gf, fs)) { return; }
    let gc = guard(|| all.get_all_currencies().ok().map(|w| w.into_iter().cloned().collect::<Vec<_>>()));
    if log.check(&["C26"], gc == Ok(Some(cs.clone())), || format!("all currencies of {} are {:?}, expected {:?}", what, gc, cs)) { return; }
    let (mut ts, mut vs): (Vec<&str>, Vec<String>) = (vec![], vec![]);
    for x in v.iter() { once(&mut ts, x.ty); }
    for k in pool(&|x| x.ty == "VanillaCall") { once(&mut vs, v[k as usize].und.clone().unwrap()); }
    let gt = guard(|| all.get_all_type_names());
    if log.check(&["C26"], gt == Ok(ts.clone()), || format!("all types of {} are {:?}, expected {:?}", what, gt, ts)) { return; }
    let gv = guard(|| all.get_all_unerlying_codes_requiring_volatility(g));
    if log.check(&["C26"], gv == Ok(vs.clone()), || format!("the codes that need a volatility among {:?} of {} are {:?}, expected {:?}", g.map(|_| &part), what, gv, vs)) { return; }
    let ks: Vec<String> = pool(&|_| true).into_iter().map(|k| v[k as usize].code.clone()).collect();
    let gk = guard(|| all.get_all_inst_code_clone(g));
    if log.check(&["C26"], gk == Ok(ks.clone()), || format!("the codes of the instruments {:?} of {} are {:?}, expected {:?}", g.map(|_| &part), what, gk, ks)) { return; }
    let gn = guard(|| all.get_all_curve_names(&mp).ok().map(|w| w.into_iter().cloned().collect::<Vec<_>>()));
    log.check(&["C26"], gn == Ok(ns.clone()), || format!("all curve names of {} are {:?}, expected {:?}", what, gn, ns));
}
