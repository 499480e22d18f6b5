//! C07: digit parsing against a plain reference. C08: message times against a plain reference.
use crate::util::{guard, Log, Rng};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::utils::numeric_converter::*;

const DAY: u64 = 86_400_000_000_000;

/// a random layout the converters accept, with at least one digit byte
pub fn layout(r: &mut Rng) -> NumReprCfg {
    loop {
        let drop = r.chance(1, 4);
        let total = 1 + r.below(18);
        let point = if r.chance(1, 2) { 0 } else { 1 + r.below(total.min(17)) };
        let digits = if point == 0 { total } else { total - point };
        if digits == 0 && drop {
            continue;
        }
        let (signed, unused) = (r.chance(1, 2), if r.chance(1, 2) { 0 } else { r.below(6) });
        let all = digits + point;
        if all == 0 || all > 18 {
            continue;
        }
        return NumReprCfg {
            digit_length: digits as usize,
            decimal_point_length: point as usize,
            is_signed: signed,
            unused_length: unused as usize,
            total_length: (all + unused + signed as u64) as usize,
            float_normalizer: None,
            drop_decimal_point: drop,
        };
    }
}
pub fn digit(r: &mut Rng) -> u8 {
    b'0' + match r.below(6) {
        0 => 0,
        1 => 9,
        _ => r.below(10) as u8,
    }
}
/// the field text inside a larger buffer of arbitrary bytes, and its value
pub fn text(r: &mut Rng, c: &NumReprCfg) -> (Vec<u8>, i128) {
    let mut t = vec![];
    if c.is_signed {
        t.push(*r.pick(&[b'0', b'0', b'-']));
    }
    for _ in 0..c.unused_length {
        t.push(b'0');
    }
    let mut v: i128 = 0;
    for _ in 0..c.digit_length {
        let d = digit(r);
        v = v * 10 + (d - b'0') as i128;
        t.push(d);
    }
    for k in 0..c.decimal_point_length {
        if k == 0 {
            t.push(b'.');
        } else {
            let d = digit(r);
            if !c.drop_decimal_point {
                v = v * 10 + (d - b'0') as i128;
            }
            t.push(d);
        }
    }
    let neg = c.is_signed && t[0] != b'0';
    (t, if neg { -v } else { v })
}
/// bytes after the text, which must not matter
pub fn padded(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let mut b = t.to_vec();
    for _ in 0..48 {
        b.push(r.next() as u8);
    }
    b
}

fn eqs<T: std::fmt::Debug>(log: &mut Log, what: &str, text: &[u8], got: Result<T, String>, want: i128, val: impl Fn(&T) -> i128) -> bool {
    let s = String::from_utf8_lossy(text).to_string();
    match got {
        Ok(g) => log.check(&["C07"], val(&g) == want, || format!("{} of {:?} is {:?}, expected {}", what, s, g, want)),
        Err(e) => log.check(&["C07"], false, || format!("{} of {:?} panicked: {}", what, s, e)),
    }
}

pub fn converters(_prop: &str, seed: u64, log: &mut Log) {
    let r = &mut Rng(seed);
    for _ in 0..40 {
        // the parsers themselves
        let len = 1 + r.below(18) as usize;
        let mut t: Vec<u8> = (0..len).map(|_| digit(r)).collect();
        let point = if r.chance(1, 2) { 0 } else { 1 + r.below(len as u64) as usize };
        let whole: i128 = t.iter().fold(0, |a, d| a * 10 + (d - b'0') as i128);
        let b = padded(r, &t);
        if len <= 8 && eqs(log, "parse_under8", &t, guard(|| parse_under8(&b[..len], len)), whole, |x| *x as i128) {
            return;
        }
        if len <= 16 && eqs(log, "parse_under16", &t, guard(|| parse_under16(&b[..len], len)), whole, |x| *x as i128) {
            return;
        }
        if len >= 17 && eqs(log, "parse_under32", &t, guard(|| parse_under32(&b[..len], len)), whole, |x| *x as i128) {
            return;
        }
        let mut v = whole;
        if point > 0 {
            let at = len - point;
            t[at] = b'.';
            v = t.iter().enumerate().filter(|(i, _)| *i != at).fold(0, |a, (_, d)| a * 10 + (d - b'0') as i128);
        }
        let b = padded(r, &t);
        if len <= 8 && eqs(log, "parse_under8_with_floating_point", &t, guard(|| parse_under8_with_floating_point(&b[..len], len, point)), v, |x| *x as i128) {
            return;
        }
        if len <= 16 && eqs(log, "parse_under16_with_floating_point", &t, guard(|| parse_under16_with_floating_point(&b[..len], len, point)), v, |x| *x as i128) {
            return;
        }
        if len >= 17 && eqs(log, "parse_under32_with_floating_point", &t, guard(|| parse_under32_with_floating_point(&b[..len], len, point)), v, |x| *x as i128) {
            return;
        }
        // a converter of a random layout
        let c = layout(r);
        let conv = match guard(|| IntegerConverter::new(c)) {
            Ok(Ok(x)) => x,
            e => {
                log.check(&["C07"], false, || format!("layout {:?} refused: {:?}", c, e.map(|x| x.map(|_| ()))));
                return;
            }
        };
        let (t, v) = text(r, &c);
        let b = padded(r, &t);
        let n = t.len();
        log.interesting += (v < 0) as u64;
        if eqs(log, &format!("to_i64 with {:?}", c), &t, guard(|| conv.to_i64(&b[..n])), v, |x| *x as i128) {
            return;
        }
        if eqs(log, &format!("to_u64 with {:?}", c), &t, guard(|| conv.to_u64(&b[..n])), v.abs(), |x| *x as i128) {
            return;
        }
        let o = OrderConverter { price: conv.clone(), quantity: conv.clone() };
        if eqs(log, &format!("to_book_price with {:?}", c), &t, guard(|| o.to_book_price(&b[..n])), v, |x| *x as i128) || eqs(log, &format!("to_book_quantity with {:?}", c), &t, guard(|| o.to_book_quantity(&b[..n])), v.abs(), |x| *x as i128) {
            return;
        }
        let y = YieldConverter { converter: conv.clone() };
        let q = CumQntConverter { converter: conv.clone() };
        if eqs(log, &format!("to_yield with {:?}", c), &t, guard(|| y.to_yield(&b[..n])), v, |x| *x as i128) || eqs(log, &format!("to_cum_qnt with {:?}", c), &t, guard(|| q.to_cum_qnt(&b[..n])), v.abs(), |x| *x as i128) {
            return;
        }
        let parsing = if c.drop_decimal_point { c.digit_length } else { c.digit_length + c.decimal_point_length };
        if parsing <= 9 && n <= 10 && eqs(log, &format!("to_order_count with {:?}", c), &t, guard(|| OrderCounter { order_count: conv.clone() }.to_order_count(&b[..n])), v.abs(), |x| *x as i128) {
            return;
        }
        // digits without a decimal point: the unchecked readers give the number after the sign and unused bytes
        let len = 1 + r.below(18) as usize;
        let (signed, unused) = if r.chance(1, 2) { (false, 0) } else { (r.chance(1, 2), r.below(4) as usize) };
        let c = NumReprCfg { digit_length: len, decimal_point_length: 0, is_signed: signed, unused_length: unused, total_length: len + unused + signed as usize, float_normalizer: None, drop_decimal_point: false };
        if let Ok(conv) = IntegerConverter::new(c) {
            let (t, v) = text(r, &c);
            let v = v.abs();
            let n = t.len();
            let b = padded(r, &t);
            let o = OrderConverter { price: conv.clone(), quantity: conv.clone() };
            let q = CumQntConverter { converter: conv.clone() };
            let f = |w: &str| format!("{} with {:?}", w, c);
            if len <= 16 {
                if eqs(log, &f("to_book_price_unchecked"), &t, guard(|| unsafe { o.to_book_price_unchecked(&b[..n]) }), v, |x| *x as i128)
                    || eqs(log, &f("to_book_quantity_unchecked"), &t, guard(|| unsafe { o.to_book_quantity_unchecked(&b[..n]) }), v, |x| *x as i128)
                    || eqs(log, &f("to_cum_qnt_unchecked"), &t, guard(|| unsafe { q.to_cum_qnt_unchecked(&b[..n]) }), v, |x| *x as i128)
                {
                    return;
                }
                if len <= 8 && eqs(log, &f("to_order_count_unchecked"), &t, guard(|| unsafe { OrderCounter { order_count: conv.clone() }.to_order_count_unchecked(&b[..n]) }), v, |x| *x as i128) {
                    return;
                }
            } else if eqs(log, &f("to_long_cum_qnt_unchecked"), &t, guard(|| unsafe { q.to_long_cum_qnt_unchecked(&b[..n]) }), v, |x| *x as i128) {
                return;
            }
        }
        // a layout whose parts do not add up, or too wide, is refused
        let mut bad = layout(r);
        let wide = r.chance(1, 2);
        if wide {
            bad.drop_decimal_point = false;
            bad.total_length += 19;
            bad.digit_length += 19;
        } else {
            bad.total_length += 1 + r.below(3) as usize;
        }
        let g = guard(|| IntegerConverter::new(bad).is_ok());
        if log.check(&["C07"], g == Ok(false), || format!("layout {:?} accepted: {:?}", bad, g)) {
            return;
        }
    }
}

pub fn times(_prop: &str, seed: u64, log: &mut Log) {
    let r = &mut Rng(seed);
    // dates
    let at = r.below(200) * 36_500_000_000_000_000 + r.below(DAY * 3);
    let at = if r.chance(1, 4) { at / DAY * DAY } else { at };
    let g = guard(|| DateUnixNanoGenerator::from_unixnano(at));
    let mut gen = match g {
        Ok(g) if g.get_utcdate_unix_nano() == at / DAY * DAY && g.get_prev_timestamp() == 0 => g,
        g => {
            log.check(&["C08"], false, || format!("from_unixnano({}) gives {:?}", at, g.map(|g| (g.get_utcdate_unix_nano(), g.get_prev_timestamp()))));
            return;
        }
    };
    let conv = if r.chance(1, 2) {
        TimeStampConverter::krx_timestamp_converter()
    } else {
        let c = NumReprCfg { digit_length: 12, decimal_point_length: 0, is_signed: false, unused_length: 0, total_length: 12, float_normalizer: None, drop_decimal_point: false };
        TimeStampConverter::new(IntegerConverter::new(c).unwrap(), r.below(25) * 3_600_000_000_000)
    };
    let off = {
        // the offset, measured on a midnight message of a fresh generator
        let mut g0 = DateUnixNanoGenerator::from_unixnano(0);
        match guard(|| conv.parse_hhmmssuuuuuu(b"000000000000\xff\xff\xff\xff\xff\xff\xff\xff", None, &mut g0)) {
            Ok(Ok(t)) => t.stamp,
            e => {
                log.check(&["C08"], false, || format!("midnight is not parsed: {:?}", e));
                return;
            }
        }
    };
    log.step(format!("date of {} offset {}", at, off));
    for _ in 0..30 {
        if r.chance(1, 10) {
            let t = r.below(150) * 36_500_000_000_000_000 + r.below(DAY * 3);
            let prev = gen.get_prev_timestamp();
            gen.set_timestamp(TimeStamp { stamp: t });
            log.step(format!("set_timestamp {}", t));
            if log.check(&["C08"], gen.get_utcdate_unix_nano() == t / DAY * DAY && gen.get_update_stamp() == t && gen.get_prev_timestamp() == prev, || format!("set_timestamp({}) gives date {}", t, gen.get_utcdate_unix_nano())) {
                return;
            }
        }
        // any previous message time around the 15 hour limit
        let (h, m, s, u) = (r.below(24), r.below(60), r.below(60), if r.chance(1, 3) { *r.pick(&[0, 999_999, 1]) } else { r.below(1_000_000) });
        let t = format!("{:02}{:02}{:02}{:06}", h, m, s, u);
        let base = (h * 3600 + m * 60 + s) * 1_000_000_000 + u * 1000 + off + gen.get_utcdate_unix_nano();
        if r.chance(1, 3) {
            let p = (base as i128 + 54_000_000_000_000 + *r.pick(&[-1i128, 0, 1, DAY as i128 - 1, DAY as i128, DAY as i128 + 1, -(DAY as i128), 3 * DAY as i128, 1000, -1000])).max(0) as u64;
            gen.cache_timestamp(p);
            log.step(format!("cache_timestamp {}", p));
        }
        let prev = gen.get_prev_timestamp();
        let date = gen.get_utcdate_unix_nano();
        let upd = gen.get_update_stamp();
        let mut want = base;
        let mut k = 0;
        while prev >= want + 54_000_000_000_000 {
            want += DAY;
            k += 1;
        }
        log.interesting += (k > 0) as u64;
        let sys = if r.chance(1, 2) { Some(TimeStamp { stamp: r.below(1 << 60) }) } else { None };
        log.step(format!("message {:?}", t));
        let b = padded(r, t.as_bytes());
        let got = guard(|| conv.parse_hhmmssuuuuuu(&b[..12], sys, &mut gen).map(|t| t.stamp).map_err(|e| e.to_string()));
        let ok = got == Ok(Ok(want)) && gen.get_prev_timestamp() == want && gen.get_utcdate_unix_nano() == date + k * DAY && if k == 0 { gen.get_update_stamp() == upd } else { sys.is_none() || gen.get_update_stamp() == sys.unwrap().stamp };
        if log.check(&["C08"], ok, || format!("message time {:?} after {} on date {}: got {:?} (date {} previous {} update {}), expected {} on date {}", t, prev, date, got, gen.get_utcdate_unix_nano(), gen.get_prev_timestamp(), gen.get_update_stamp(), want, date + k * DAY)) {
            return;
        }
    }
}

/// the time of a message by the definition: its time of day on the current date, nine hours behind UTC, moved on by whole
/// days while the previous message is fifteen hours or more after it
pub fn reference_time(g: &mut DateUnixNanoGenerator, t: &[u8]) -> u64 {
    let n = |k: usize, l: usize| t[k..k + l].iter().fold(0u64, |a, d| a * 10 + (d - b'0') as u64);
    let mut want = (n(0, 2) * 3600 + n(2, 2) * 60 + n(4, 2)) * 1_000_000_000 + n(6, 6) * 1000 + 32_400_000_000_000 + g.get_utcdate_unix_nano();
    while g.get_prev_timestamp() >= want + 54_000_000_000_000 {
        want += DAY;
    }
    want
}
