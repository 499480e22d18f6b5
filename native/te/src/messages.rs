//! C09: KRX messages against a plain reading of their layout tables. C10: identifiers.
use crate::numeric::{digit, reference_time};
use crate::util::{guard, Log, Rng};
use trading_engine::data::krx::{derivative_quote::*, derivative_trade::*, stock_quote::*};
use trading_engine::data::{quote::QuoteSnapshot, trade::TradeData, trade_quote::TradeQuoteSnapshot};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::id::{isin_code::IsinCode, ticker::Ticker, IdData, InstId, Symbol};
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::types::venue::Venue;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Dq, Dt, D0, Sq, Sl }
struct Msg { bytes: Vec<u8>, point: usize, time: Vec<u8> }
fn hhmmss(r: &mut Rng) -> Vec<u8> {
    format!("{:02}{:02}{:02}{:06}", r.below(24), r.below(60), r.below(60), r.below(1_000_000)).into_bytes()
}
fn put_digits(b: &mut [u8], r: &mut Rng) {
    for x in b { *x = digit(r); }
}
fn put_price(b: &mut [u8], point: usize, r: &mut Rng) {
    b[0] = *r.pick(&[b'0', b'0', b'-']);
    put_digits(&mut b[1..9], r);
    if point > 0 { b[9 - point] = b'.'; }
}
fn isin(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => b"KR4169V30013".to_vec(),
        1 => { let mut v = b"KR4169V30013".to_vec(); let k = r.below(12) as usize; v[k] = b'A' + r.below(26) as u8; v }
        _ => (0..12).map(|_| *r.pick(b"KR41690ABCXYZ7")).collect(),
    }
}
fn message(r: &mut Rng, kind: Kind, len: usize, start: usize) -> Msg {
    let mut p: Vec<u8> = (0..len).map(|_| digit(r)).collect();
    p[len - 1] = 255;
    let head: &[u8] = match r.below(7) { 0 => b"A304F", 1 => b"B605F", 2 => b"G710F", 3 => b"G701F", 4 => b"B604G", 5 => b"04F10", _ => b"B602S" };
    p[..5].copy_from_slice(head);
    p[17..29].copy_from_slice(&isin(r));
    let t = hhmmss(r);
    p[35..47].copy_from_slice(&t);
    let und = &p[2..5];
    let point = if und == b"04F" || und == b"05F" || und == b"10F" { 0 } else if &p[17..23] == b"KR4169" { 4 } else { 3 };
    if matches!(kind, Kind::Dt | Kind::D0) {
        put_price(&mut p[47..56], point, r);
        p[153] = *r.pick(b"0123");
    }
    if matches!(kind, Kind::Dq | Kind::Dt) {
        let mut at = start;
        while at + 46 <= len - 1 && at < start + 460 {
            put_price(&mut p[at..at + 9], point, r);
            put_price(&mut p[at + 9..at + 18], point, r);
            at += 46;
        }
    }
    Msg { bytes: p, point, time: t }
}
fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, d| a * 10 + (d - b'0') as u64) }
fn price(b: &[u8], point: usize) -> i64 {
    let v = b[1..9].iter().enumerate().filter(|(i, _)| point == 0 || *i != 8 - point).fold(0i64, |a, (_, d)| a * 10 + (d - b'0') as i64);
    if b[0] == b'0' { v } else { -v }
}
fn levels(m: &Msg, kind: Kind, start: usize, n: usize) -> (Vec<LevelSnapshot>, Vec<LevelSnapshot>) {
    let (mut a, mut b) = (vec![], vec![]);
    for i in 0..n {
        let x = |o: usize, l: usize, step: usize| &m.bytes[start + i * step + o..start + i * step + o + l];
        if matches!(kind, Kind::Dq | Kind::Dt) {
            a.push(LevelSnapshot { book_price: price(x(0, 9, 46), m.point), book_quantity: num(x(18, 9, 46)), order_count: Some(num(x(36, 5, 46)) as u32), lp_quantity: None });
            b.push(LevelSnapshot { book_price: price(x(9, 9, 46), m.point), book_quantity: num(x(27, 9, 46)), order_count: Some(num(x(41, 5, 46)) as u32), lp_quantity: None });
        } else {
            let st = if kind == Kind::Sl { 70 } else { 46 };
            let lp = |o: usize| if kind == Kind::Sl { Some(num(x(o, 12, 70))) } else { None };
            a.push(LevelSnapshot { book_price: num(x(2, 9, st)) as i64, book_quantity: num(x(22, 12, st)), order_count: None, lp_quantity: lp(46) });
            b.push(LevelSnapshot { book_price: num(x(13, 9, st)) as i64, book_quantity: num(x(34, 12, st)), order_count: None, lp_quantity: lp(58) });
        }
    }
    (a, b)
}
fn same(a: &[LevelSnapshot], b: &[LevelSnapshot]) -> Option<String> {
    if a.len() < b.len() { return Some(format!("{} levels instead of {}", a.len(), b.len())); }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if (x.book_price, x.book_quantity, x.order_count, x.lp_quantity) != (y.book_price, y.book_quantity, y.order_count, y.lp_quantity) {
            return Some(format!("level {} is {:?} instead of {:?}", i, x, y));
        }
    }
    None
}
fn junk(r: &mut Rng) -> LevelSnapshot {
    LevelSnapshot { book_price: r.next() as i64, book_quantity: r.next(), order_count: Some(r.next() as u32), lp_quantity: Some(r.next()) }
}
struct Got<'a> { id: InstId, stamp: u64, cut: usize, ask: &'a [LevelSnapshot], bid: &'a [LevelSnapshot], unit: f64, trade: Option<(i64, u64, Option<TradeType>, Option<u64>)> }
fn wrong(m: &Msg, kind: Kind, start: usize, n: usize, cum: bool, g: &Got, stamp: u64) -> Option<String> {
    let code = Symbol::Isin(IsinCode::new(&m.bytes[17..29]).unwrap());
    if g.id.get_id().symbol != code || g.id.venue() != Venue::KRX { return Some(format!("id {:?}", g.id)); }
    if g.stamp != stamp { return Some(format!("timestamp {} instead of {}", g.stamp, stamp)); }
    if g.cut != n { return Some(format!("{} levels in use instead of {}", g.cut, n)); }
    let (a, b) = levels(m, kind, start, n);
    if let Some(e) = same(g.ask, &a).map(|e| format!("ask {}", e)).or(same(g.bid, &b).map(|e| format!("bid {}", e))) { return Some(e); }
    // the reported converter scales prices by this message's decimals
    let decimals = if matches!(kind, Kind::Sq | Kind::Sl) { 0 } else { m.point.saturating_sub(1) };
    let want = 12345.0 / 10f64.powi(decimals as i32);
    if (g.unit - want).abs() > 0.01 * want { return Some(format!("reported converter reads 12345 as {} instead of {}", g.unit, want)); }
    if let Some((p, q, t, c)) = &g.trade {
        let wt = match m.bytes[153] { b'0' => TradeType::Undefined, b'1' => TradeType::Sell, _ => TradeType::Buy };
        let wc = if cum { Some(num(&m.bytes[119..131])) } else { None };
        let w = (price(&m.bytes[47..56], m.point), num(&m.bytes[56..65]), wc);
        if (*p, *q, *c) != w || t.as_ref().map(|t| *t == wt) != Some(true) { return Some(format!("trade {:?} instead of {:?} {:?}", g.trade, w, wt)); }
    }
    None
}
fn date_gen(r: &mut Rng) -> DateUnixNanoGenerator {
    DateUnixNanoGenerator::from_unixnano(1_600_000_000_000_000_000 + r.below(100) * 86_400_000_000_000)
}
fn spoil(r: &mut Rng, m: &Msg) -> Vec<u8> {
    let mut b = m.bytes.clone();
    let n = b.len();
    match r.below(6) {
        0 => { b.pop(); }
        1 => b.push(255),
        2 => b[n - 1] = *r.pick(&[0, b'0', 254, 10]),
        3 => b[17 + r.below(12) as usize] = *r.pick(&[b' ', 9, 200, 255]),
        4 => b.clear(),
        _ => b.truncate(r.below(n as u64) as usize),
    }
    b
}

macro_rules! snapshot {
    ($log:expr, $r:expr, $t:ident, $kind:expr, $len:expr, $max:expr, $start:expr, $Snap:ident, $fresh:ident, $buffer:ident, $mk:expr, $cum:expr, $trade:expr) => {{
        let (log, r) = ($log, $r);
        let n = r.below($max as u64 + 1) as usize;
        let cum = r.chance(1, 2);
        let msg = message(r, $kind, $len, $start);
        let text = String::from_utf8_lossy(&msg.bytes).to_string();
        let what = |f: &str| format!("{}::{} with {} levels of {:?}", stringify!($t), f, n, text);
        if log.check(&["C09"], guard(|| $t::default().with_quote_level_cut($max + 1).is_err()) == Ok(true), || format!("{} accepts {} levels", stringify!($t), $max + 1)) { return; }
        let make: fn(usize, bool) -> $t = $mk;
        let t = match guard(|| make(n, cum)) { Ok(t) => t, Err(e) => { log.check(&["C09"], false, || what(&e)); return; } };
        let mut g = date_gen(r);
        let want = reference_time(&mut g.clone(), &msg.time);
        let mut g2 = g.clone();
        match guard(|| t.$fresh(&msg.bytes, &mut g)) {
            Ok(Ok(q)) => {
                let got = Got { id: q.id, stamp: q.timestamp.stamp, cut: q.quote_level_cut, ask: &q.ask_quote_data, bid: &q.bid_quote_data, unit: q.order_converter.price.to_f64_from_i64(12345) as f64, trade: $trade(&q) };
                let e = wrong(&msg, $kind, $start, n, cum && $cum, &got, want).or(if q.ask_quote_data.len() != n || q.bid_quote_data.len() != n { Some("wrong number of levels".into()) } else { None });
                if log.check(&["C09"], e.is_none(), || format!("{}: {}", what("fresh"), e.unwrap())) { return; }
            }
            e => { log.check(&["C09"], false, || format!("{} fails: {:?}", what("fresh"), e.map(|x| x.map(|_| ())))); return; }
        }
        let size = n + r.below(4) as usize;
        let mut buf = $Snap::with_quote_level(size);
        for x in buf.ask_quote_data.iter_mut().chain(buf.bid_quote_data.iter_mut()) { *x = junk(r); }
        buf.quote_level_cut = r.below(size as u64 + 1) as usize;
        buf.stale(r);
        match guard(|| t.$buffer(&msg.bytes, &mut buf, &mut g2)) {
            Ok(Ok(())) => {
                let q = &buf;
                let got = Got { id: q.id, stamp: q.timestamp.stamp, cut: q.quote_level_cut, ask: &q.ask_quote_data, bid: &q.bid_quote_data, unit: q.order_converter.price.to_f64_from_i64(12345) as f64, trade: $trade(q) };
                let e = wrong(&msg, $kind, $start, n, cum && $cum, &got, want);
                if log.check(&["C09"], e.is_none(), || format!("{}: {}", what("buffer"), e.unwrap())) { return; }
                let eff = guard(|| (buf.effective_ask_data().len(), buf.effective_bid_data().len()));
                if log.check(&["C09"], eff == Ok((n, n)), || format!("{}: effective levels {:?}", what("buffer"), eff)) { return; }
            }
            e => { log.check(&["C09"], false, || format!("{} fails: {:?}", what("buffer"), e.map(|x| x.map(|_| ())))); return; }
        }
        if n > 0 {
            let mut small = $Snap::with_quote_level(n - 1);
            let e = guard(|| t.$buffer(&msg.bytes, &mut small, &mut g2.clone()).is_err());
            if log.check(&["C09"], e == Ok(true), || format!("{}: a buffer of {} levels is not refused: {:?}", what("buffer"), n - 1, e)) { return; }
        }
        let bad = spoil(r, &msg);
        let before = g2.clone();
        let e = guard(|| t.$fresh(&bad, &mut g2).is_err());
        if log.check(&["C09"], e == Ok(true), || format!("{}: bad message {:?} not refused: {:?}", what("fresh"), String::from_utf8_lossy(&bad), e)) { return; }
        let e = guard(|| t.$buffer(&bad, &mut buf, &mut g2).is_err());
        if log.check(&["C09"], e == Ok(true), || format!("{}: bad message {:?} not refused: {:?}", what("buffer"), String::from_utf8_lossy(&bad), e)) { return; }
        if log.check(&["C09"], (before.get_utcdate_unix_nano(), before.get_prev_timestamp()) == (g2.get_utcdate_unix_nano(), g2.get_prev_timestamp()), || format!("{}: a refused message moved the date state", what("fresh"))) { return; }
        log.interesting += 1;
    }};
}
fn none(_: &QuoteSnapshot) -> Option<(i64, u64, Option<TradeType>, Option<u64>)> { None }
fn traded(q: &TradeQuoteSnapshot) -> Option<(i64, u64, Option<TradeType>, Option<u64>)> { Some((q.trade_price, q.trade_quantity, q.trade_type.clone(), q.cumulative_trade_quantity)) }

pub fn messages(_prop: &str, seed: u64, log: &mut Log) {
    let r = &mut Rng(seed);
    match r.below(7) {
        0 => snapshot!(log, r, IFMSRPD0034, Kind::Dq, 324, 5, 47, QuoteSnapshot, to_quote_snapshot, to_quote_snapshot_buffer, |n, _| IFMSRPD0034::default().with_quote_level_cut(n).unwrap(), false, none),
        1 => snapshot!(log, r, IFMSRPD0035, Kind::Dq, 554, 10, 47, QuoteSnapshot, to_quote_snapshot, to_quote_snapshot_buffer, |n, _| IFMSRPD0035::default().with_quote_level_cut(n).unwrap(), false, none),
        2 => snapshot!(log, r, IFMSRPD0002, Kind::Sq, 555, 10, 47, QuoteSnapshot, to_quote_snapshot, to_quote_snapshot_buffer, |n, _| IFMSRPD0002::default().with_quote_level_cut(n).unwrap(), false, none),
        3 => snapshot!(log, r, IFMSRPD0003, Kind::Sl, 795, 10, 47, QuoteSnapshot, to_quote_snapshot, to_quote_snapshot_buffer, |n, _| IFMSRPD0003::default().with_quote_level_cut(n).unwrap(), false, none),
        4 => snapshot!(log, r, IFMSRPD0037, Kind::Dt, 431, 5, 172, TradeQuoteSnapshot, to_trade_quote_snapshot, to_trade_quote_snapshot_buffer, |n, c| IFMSRPD0037::default().with_quote_level_cut(n).unwrap().with_cum_trd_qnt(c), true, traded),
        5 => snapshot!(log, r, IFMSRPD0038, Kind::Dt, 661, 10, 172, TradeQuoteSnapshot, to_trade_quote_snapshot, to_trade_quote_snapshot_buffer, |n, c| IFMSRPD0038::default().with_quote_level_cut(n).unwrap().with_cum_trd_qnt(c), true, traded),
        _ => {
            let cum = r.chance(1, 2);
            let msg = message(r, Kind::D0, 173, 0);
            let text = String::from_utf8_lossy(&msg.bytes).to_string();
            let t = IFMSRPD0036::default().with_cum_trd_qnt(cum);
            let mut g = date_gen(r);
            let want = reference_time(&mut g.clone(), &msg.time);
            let mut g2 = g.clone();
            let view = |q: &TradeData| wrong(&msg, Kind::D0, 0, 0, cum, &Got { id: q.id, stamp: q.timestamp.stamp, cut: 0, ask: &[], bid: &[], unit: q.to_unit(), trade: Some((q.trade_price, q.trade_quantity, q.trade_type.clone(), q.cumulative_trade_quantity)) }, want);
            match guard(|| t.to_trade_data(&msg.bytes, &mut g)) {
                Ok(Ok(q)) => { let e = view(&q); if log.check(&["C09"], e.is_none(), || format!("IFMSRPD0036 of {:?}: {}", text, e.unwrap())) { return; } }
                e => { log.check(&["C09"], false, || format!("IFMSRPD0036 of {:?} fails: {:?}", text, e.map(|x| x.map(|_| ())))); return; }
            }
            let mut buf = TradeData::with_capacity(0);
            buf.stale(r);
            match guard(|| t.to_trade_data_buffer(&msg.bytes, &mut buf, &mut g2)) {
                Ok(Ok(())) => { let e = view(&buf); if log.check(&["C09"], e.is_none(), || format!("IFMSRPD0036 buffer of {:?}: {}", text, e.unwrap())) { return; } }
                e => { log.check(&["C09"], false, || format!("IFMSRPD0036 buffer of {:?} fails: {:?}", text, e.map(|x| x.map(|_| ())))); return; }
            }
            let bad = spoil(r, &msg);
            let e = guard(|| t.to_trade_data(&bad, &mut g).is_err() && t.to_trade_data_buffer(&bad, &mut buf, &mut g2).is_err());
            log.check(&["C09"], e == Ok(true), || format!("IFMSRPD0036: bad message {:?} not refused: {:?}", String::from_utf8_lossy(&bad), e));
        }
    }
}
trait Unit { fn to_unit(&self) -> f64; }
impl Unit for TradeData { fn to_unit(&self) -> f64 { self.order_converter.price.to_f64_from_i64(12345) as f64 } }

pub fn identifiers(_prop: &str, seed: u64, log: &mut Log) {
    let r = &mut Rng(seed);
    let pool: Vec<Vec<u8>> = (0..6).map(|_| {
        let n = match r.below(5) { 0 | 1 => 12, 2 => r.below(36) as usize, 3 => 11 + r.below(3) as usize, _ => 30 + r.below(5) as usize };
        let mut v: Vec<u8> = (0..n).map(|_| *r.pick(b"AB01")).collect();
        if n > 0 && r.chance(1, 3) { let k = r.below(n as u64) as usize; v[k] = *r.pick(&[b' ', 9, 0, 127, 128, 200, 255, 10]); }
        if r.chance(1, 8) { v.extend_from_slice("é".as_bytes()); }
        v
    }).collect();
    let mut ids: Vec<(InstId, Vec<u8>, u8, Venue)> = vec![];
    for b in &pool {
        let ok = b.len() == 12 && b.iter().all(|c| c.is_ascii() && *c != b' ' && *c != 9);
        let g = guard(|| IsinCode::new(b));
        match g {
            Ok(Ok(c)) if ok => {
                let k = r.below(15) as usize;
                let other: Vec<u8> = if r.chance(1, 2) { b.clone() } else { r.pick(&pool).clone() };
                let pre = &other[..k.min(other.len())];
                if log.check(&["C10"], c.as_bytes() == &b[..] && c.as_str().as_bytes() == &b[..] && c == &b[..] && c == *b && (c == &other[..]) == (*b == other) && c.starts_with(pre) == b.starts_with(pre), || format!("ISIN of {:?} against {:?}: {:?}", b, other, c)) { return; }
                if let Ok(s) = std::str::from_utf8(&other) { if log.check(&["C10"], (c == s) == (*b == other) && (s == c) == (*b == other), || format!("ISIN {:?} == {:?}", b, s)) { return; } }
                for v in [Venue::KRX, Venue::SI, Venue::Undefined] { if r.chance(1, 2) { ids.push((InstId::new(Symbol::Isin(c.clone()), v), b.clone(), 0, v)); } }
            }
            Ok(Err(_)) if !ok => {}
            e => { log.check(&["C10"], false, || format!("ISIN from {:?}: {:?}", b, e.map(|x| x.map(|_| ())))); return; }
        }
        let ok = b.len() <= 32 && std::str::from_utf8(b).is_ok();
        match guard(|| Ticker::new(b)) {
            Ok(Ok(c)) if ok => {
                let mut w = b.clone(); w.resize(32, 0);
                let other = r.pick(&pool).clone();
                let mut ow = other.clone(); ow.resize(32.max(other.len()), 0);
                if log.check(&["C10"], c.as_str().as_bytes() == &w[..], || format!("ticker of {:?} reads {:?}", b, c.as_str().as_bytes())) { return; }
                if let Ok(Ok(d)) = guard(|| Ticker::new(&other)) { if log.check(&["C10"], (c == d) == (w == ow), || format!("ticker {:?} == {:?}", b, other)) { return; } }
                for v in [Venue::KRX, Venue::KIS] { if r.chance(1, 2) { ids.push((InstId::new(Symbol::Ticker(c.clone()), v), w.clone(), 1, v)); } }
            }
            Ok(Err(_)) if !ok => {}
            e => { log.check(&["C10"], false, || format!("ticker from {:?}: {:?}", b, e.map(|x| x.map(|_| ())))); return; }
        }
    }
    // read back from the serialised form, before or after the id itself was made
    for b in &pool {
        let sym = match (guard(|| IsinCode::new(b)), guard(|| Ticker::new(b))) { (Ok(Ok(c)), _) => Symbol::Isin(c), (_, Ok(Ok(t))) => Symbol::Ticker(t), _ => continue };
        let d = IdData { symbol: sym, venue: *r.pick(&[Venue::KRX, Venue::SI, Venue::KIS]) };
        let js = serde_json::to_string(&d).unwrap();
        let (fresh, read) = if r.chance(1, 2) {
            let f = guard(|| InstId::new(d.symbol.clone(), d.venue));
            (f, guard(|| serde_json::from_str::<InstId>(&js)))
        } else {
            let g = guard(|| serde_json::from_str::<InstId>(&js));
            (guard(|| InstId::new(d.symbol.clone(), d.venue)), g)
        };
        let again = fresh.as_ref().map(|f| serde_json::to_string(f).ok());
        let ok = match (&fresh, &read) { (Ok(f), Ok(Ok(g))) => f == g && *f.get_id() == d && *g.get_id() == d && again == Ok(Some(js.clone())) && hash(f) == hash(g), _ => false };
        if log.check(&["C10"], ok, || format!("id {:?} reads back from {} as {:?}", fresh, js, read)) { return; }
    }
    if log.check(&["C10"], InstId::default() == InstId::new(Symbol::default(), Venue::default()), || "the default id is not the id of the default symbol and venue".into()) { return; }
    for (i, b, k, v) in &ids {
        let sym = match &i.get_id().symbol { Symbol::Isin(_) => 0u8, Symbol::Ticker(_) => 1 };
        if log.check(&["C10"], i.symbol_str().as_bytes() == &b[..] && i.venue() == *v && sym == *k && i.get_id_clone() == *i.get_id(), || format!("id of {:?} at {:?} is {:?}", b, v, i)) { return; }
        for (j, c, l, w) in &ids {
            if log.check(&["C10"], (i == j) == ((b, k, v) == (c, l, w)) && (i != j || hash(i) == hash(j)), || format!("ids {:?} and {:?} compare {}", i, j, i == j)) { return; }
        }
    }
    log.interesting += ids.len() as u64;
}

fn hash(i: &InstId) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

/// what an earlier message of another kind may have left in a buffer
trait Stale { fn stale(&mut self, r: &mut Rng); }
fn other(r: &mut Rng) -> InstId { InstId::new(Symbol::Isin(IsinCode::new(&isin(r)).unwrap()), *r.pick(&[Venue::KRX, Venue::SI])) }
fn conv(r: &mut Rng) -> &'static trading_engine::utils::numeric_converter::OrderConverter {
    use trading_engine::data::krx::krx_converter::*;
    if r.chance(1, 2) { get_krx_stock_order_converter() } else { get_krx_derivative_converter(*r.pick(&[&b"A304F"[..], b"A301F"]), &IsinCode::new(b"KR4169V30013").unwrap()) }
}
impl Stale for QuoteSnapshot {
    fn stale(&mut self, r: &mut Rng) { self.id = other(r); self.timestamp.stamp = r.next(); self.order_converter = conv(r); }
}
impl Stale for TradeQuoteSnapshot {
    fn stale(&mut self, r: &mut Rng) {
        self.id = other(r); self.timestamp.stamp = r.next(); self.order_converter = conv(r);
        self.trade_price = r.next() as i64; self.trade_quantity = r.next(); self.cumulative_trade_quantity = Some(r.next());
        self.trade_type = [None, Some(TradeType::Sell), Some(TradeType::Buy), Some(TradeType::Undefined)][r.below(4) as usize].clone();
    }
}
impl Stale for TradeData {
    fn stale(&mut self, r: &mut Rng) {
        self.id = other(r); self.timestamp.stamp = r.next(); self.order_converter = conv(r);
        self.trade_price = r.next() as i64; self.trade_quantity = r.next(); self.cumulative_trade_quantity = Some(r.next());
        self.trade_type = [None, Some(TradeType::Sell), Some(TradeType::Buy), Some(TradeType::Undefined)][r.below(4) as usize].clone();
    }
}
