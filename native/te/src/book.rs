//! Order book against a plain reference: per side, a sorted map price -> queue of (id, quantity).
use crate::util::{guard, Log, Rng};
use std::collections::BTreeMap;
use trading_engine::data::order::*;
use trading_engine::data::{quote::QuoteSnapshot, trade_quote::TradeQuoteSnapshot};
use trading_engine::orderbook::{half_book::HalfBook, OrderBook};
use trading_engine::types::base::{LevelSnapshot, TradeHistory, VirtualOrderId};
use trading_engine::types::enums::OrderSide;
use trading_engine::types::id::{isin_code::IsinCode, InstId, Symbol};
use trading_engine::types::venue::Venue;

type M = BTreeMap<i64, Vec<(u64, u64)>>;

fn abs(h: &HalfBook) -> M {
    h.levels.iter().map(|(p, l)| (*p, l.orders.iter().cloned().collect())).collect()
}
fn sums(m: &M) -> BTreeMap<i64, u64> {
    m.iter().map(|(p, q)| (*p, q.iter().map(|x| x.1).sum())).collect()
}
fn is_ask(s: OrderSide) -> bool {
    s == OrderSide::Ask
}
fn opp(s: OrderSide) -> OrderSide {
    if is_ask(s) { OrderSide::Bid } else { OrderSide::Ask }
}

/// everything a half book says about itself must agree with its resting orders
fn consistent(h: &HalfBook) -> Result<(), String> {
    let m = abs(h);
    let mut total: u128 = 0;
    let mut ids = BTreeMap::new();
    for (p, l) in h.levels.iter() {
        let s: u128 = l.orders.iter().map(|x| x.1 as u128).sum();
        if l.book_price != *p { return Err(format!("level stored at {} says price {}", p, l.book_price)); }
        if l.orders.is_empty() { return Err(format!("empty level at {}", p)); }
        if l.orders.iter().any(|x| x.1 == 0) { return Err(format!("zero quantity order at {}", p)); }
        if l.total_quantity as u128 != s { return Err(format!("level {} total {} but orders sum to {}", p, l.total_quantity, s)); }
        if l.is_empty() || l.order_count() != l.orders.len() || l.aggregate_quantity() as u128 != s { return Err(format!("level {} queries disagree", p)); }
        for o in l.orders.iter() {
            if ids.insert(o.0, (*p, o.1)).is_some() { return Err(format!("order id {} twice", o.0)); }
        }
        total += s;
        if h.aggregate_quantity_at_price(*p) as u128 != s { return Err(format!("aggregate at {} is {}", p, h.aggregate_quantity_at_price(*p))); }
    }
    if h.get_total_quantity() as u128 != total || h.aggregate_quantity() as u128 != total { return Err(format!("side total {} but orders sum to {}", h.get_total_quantity(), total)); }
    if !h.check_validity_quantity() { return Err("check_validity_quantity is false".into()); }
    if h.len() != m.len() || h.is_empty() != m.is_empty() { return Err(format!("len {} is_empty {}", h.len(), h.is_empty())); }
    if h.cache.len() != ids.len() { return Err(format!("{} ids indexed, {} orders resting", h.cache.len(), ids.len())); }
    for (id, (p, q)) in &ids {
        if h.cache.get(id) != Some(p) || h.get_price(*id) != Some(*p) { return Err(format!("id {} rests at {} but is indexed at {:?}", id, p, h.cache.get(id))); }
        match h.get_order(*id) {
            Some(o) if o.order_id == *id && o.price == *p && o.quantity == *q && o.order_side == h.order_side => {}
            x => return Err(format!("get_order({}) = {:?}, expected price {} quantity {}", id, x, p, q)),
        }
    }
    let want = match (is_ask(h.order_side), m.is_empty()) {
        (true, true) => i64::MAX,
        (false, true) => i64::MIN,
        (true, false) => *m.keys().next().unwrap(),
        (false, false) => *m.keys().next_back().unwrap(),
    };
    if h.best_price != want { return Err(format!("best price {} but should be {}", h.best_price, want)); }
    let gone = [0u64, 999_999_999];
    for g in gone { if !ids.contains_key(&g) && (h.get_order(g).is_some() || h.get_price(g).is_some()) { return Err(format!("unknown id {} found", g)); } }
    if h.aggregate_quantity_at_price(i64::MIN + 5) != 0 { return Err("aggregate at an unused price".into()); }
    Ok(())
}
fn side_of(m: &M, id: u64) -> Option<i64> {
    m.iter().find(|(_, q)| q.iter().any(|o| o.0 == id)).map(|(p, _)| *p)
}
fn m_add(m: &mut M, p: i64, id: u64, q: u64) {
    m.entry(p).or_default().push((id, q));
}
fn m_cancel(m: &mut M, id: u64) -> Option<u64> {
    let p = side_of(m, id)?;
    let l = m.get_mut(&p).unwrap();
    let i = l.iter().position(|o| o.0 == id).unwrap();
    let q = l.remove(i).1;
    if l.is_empty() { m.remove(&p); }
    Some(q)
}
fn m_change_qty(m: &mut M, id: u64, n: u64) -> bool {
    if let Some(p) = side_of(m, id) {
        if n == 0 { m_cancel(m, id); } else { m.get_mut(&p).unwrap().iter_mut().find(|o| o.0 == id).unwrap().1 = n; }
        true
    } else { false }
}
fn m_remove_any(m: &mut M, p: i64, mut n: u64) -> u64 {
    if let Some(l) = m.get_mut(&p) {
        while n > 0 {
            match l.last_mut() {
                None => break,
                Some(o) => if o.1 <= n { n -= o.1; l.pop(); } else { o.1 -= n; n = 0; }
            }
        }
        if l.is_empty() { m.remove(&p); }
    }
    n
}
/// m is the resting side (ask: lowest price first), lim the worst price the taker accepts
fn m_trade(m: &mut M, ask: bool, lim: Option<i64>, mut n: u64) -> (Vec<(i64, u64)>, u64) {
    let mut h = vec![];
    while n > 0 {
        let p = match if ask { m.keys().next().copied() } else { m.keys().next_back().copied() } { None => break, Some(p) => p };
        if let Some(x) = lim { if (ask && p > x) || (!ask && p < x) { break; } }
        let l = m.get_mut(&p).unwrap();
        let mut t = 0;
        while n > 0 && !l.is_empty() {
            let k = n.min(l[0].1);
            t += k; n -= k; l[0].1 -= k;
            if l[0].1 == 0 { l.remove(0); }
        }
        if l.is_empty() { m.remove(&p); }
        h.push((p, t));
    }
    (h, n)
}
fn hist(r: &Option<(TradeHistory, u64)>) -> Option<(Vec<(i64, u64)>, u64)> {
    r.as_ref().map(|(h, n)| ((0..h.len()).map(|i| h[i]).collect(), *n))
}

struct Gen {
    r: Rng,
    base: i64,
    span: i64,
    qmode: u64,
    next_id: u64,
    idstep: u64,
    recent: Vec<u64>,
}
impl Gen {
    fn new(seed: u64) -> Gen {
        let mut r = Rng(seed);
        let base = *r.pick(&[0i64, 100, -100, 1_000_000, -3, i64::MAX - 200, i64::MIN + 200, 12345678901]);
        let span = *r.pick(&[1i64, 2, 3, 5, 8, 20, 60]);
        let qmode = r.below(4);
        let next_id = *r.pick(&[0u64, 1, 1000, u64::MAX / 2]);
        let idstep = *r.pick(&[1u64, 1, 7]);
        Gen { r, base, span, qmode, next_id, idstep, recent: vec![] }
    }
    fn price(&mut self) -> i64 { self.base + self.r.range(0, self.span) }
    fn qty(&mut self) -> u64 {
        match self.qmode {
            0 => 1 + self.r.below(3),
            1 => 1 + self.r.below(10),
            2 => 10 * (1 + self.r.below(5)),
            _ => if self.r.chance(1, 3) { 1 + self.r.below(1 << 40) } else { 1 + self.r.below(2000) },
        }
    }
    fn fresh(&mut self) -> u64 {
        let i = self.next_id;
        self.next_id += self.idstep;
        self.recent.push(i);
        i
    }
    fn some_id(&mut self, live: &[u64]) -> u64 {
        if !live.is_empty() && self.r.chance(9, 10) { return *self.r.pick(live); }
        if !self.recent.is_empty() && self.r.chance(3, 4) { let v = self.recent.clone(); return *self.r.pick(&v); }
        self.r.below(50)
    }
    fn side(&mut self) -> OrderSide { if self.r.chance(1, 2) { OrderSide::Ask } else { OrderSide::Bid } }
    fn snapshot(&mut self, n: u64) -> Vec<LevelSnapshot> {
        let mut v: Vec<LevelSnapshot> = vec![];
        for _ in 0..n {
            let p = self.price();
            if v.iter().any(|x| x.book_price == p) { continue; }
            let q = self.qty();
            let mut s = LevelSnapshot::default();
            s.book_price = p;
            s.book_quantity = q;
            if self.r.chance(1, 2) { s.order_count = Some(self.r.below(9) as u32); }
            v.push(s);
        }
        v
    }
    /// the snapshot the side shows, with a few small edits
    fn edited(&mut self, m: &M) -> Vec<LevelSnapshot> {
        let mut v = vec![];
        for (p, q) in sums(m) {
            if self.r.chance(1, 6) { continue; }
            let mut s = LevelSnapshot::default();
            s.book_price = p;
            s.book_quantity = match self.r.below(6) { 0 => q + self.qty(), 1 => (q - self.r.below(q)).max(1), _ => q };
            v.push(s);
        }
        if self.r.chance(1, 2) {
            for s in self.snapshot(2) { if !v.iter().any(|x: &LevelSnapshot| x.book_price == s.book_price) { v.push(s); } }
        }
        if self.r.chance(1, 3) { v.reverse(); }
        v
    }
}
fn show_of(v: &[LevelSnapshot]) -> BTreeMap<i64, u64> { v.iter().map(|x| (x.book_price, x.book_quantity)).collect() }
fn brief(v: &[LevelSnapshot]) -> Vec<(i64, u64)> { v.iter().map(|x| (x.book_price, x.book_quantity)).collect() }
fn live_of(m: &M) -> Vec<u64> { m.values().flatten().map(|o| o.0).collect() }

pub fn episode(prop: &str, seed: u64, log: &mut Log) {
    match (prop, seed % 8) {
        ("C05", _) | ("C06", _) => if seed % 3 == 0 { half_snapshots(seed, log) } else { book_snapshots(seed, log) },
        ("C03", _) => book_ops(seed, log),
        (_, 0) => half_snapshots(seed, log),
        (_, 1) => book_snapshots(seed, log),
        (_, 2) | (_, 3) | (_, 4) => half_ops(seed, log),
        _ => book_ops(seed, log),
    }
}

fn half_ops(seed: u64, log: &mut Log) {
    let mut g = Gen::new(seed);
    let side = g.side();
    let mut h = if g.r.chance(1, 5) {
        let o = LimitOrder::new(g.price(), g.qty(), side, g.fresh());
        log.step(format!("initialize_with_limit_order({:?})", o));
        let h = HalfBook::initialize_with_limit_order(o.clone());
        let mut m = M::new();
        m_add(&mut m, o.price, o.order_id, o.quantity);
        if log.check(&["C01", "C04"], abs(&h) == m && h.order_side == side, || format!("one-order book is {:?}", abs(&h))) { return; }
        h
    } else if g.r.chance(1, 10) {
        let h = HalfBook::default();
        log.step("default()".into());
        if let Err(e) = consistent(&h) { log.check(&["C01"], false, || format!("default half book: {}", e)); return; }
        h
    } else { HalfBook::initialize(side) };
    let side = h.order_side;
    log.step(format!("half book {:?}", side));
    let prefill = *g.r.pick(&[0u64, 0, 3, 10, 40]);
    let n = prefill + 4 + g.r.below(40);
    for i in 0..n {
        let before = abs(&h);
        let b = h.clone();
        let live = live_of(&before);
        let mut m = before.clone();
        let k = if i < prefill { 0 } else { g.r.below(11) };
        let mut tags: &[&str] = &["C04", "C01"];
        let mut fail: Option<String> = None;
        let desc;
        let res: Result<(), String>;
        match k {
            0 | 1 => {
                let mut o = LimitOrder::new(g.price(), g.qty(), side, g.fresh());
                if g.r.chance(1, 25) { o.order_side = opp(side); }
                desc = format!("add_limit_order({:?})", o);
                let ok = o.order_side == side;
                if ok { m_add(&mut m, o.price, o.order_id, o.quantity); }
                res = guard(|| { let r = h.add_limit_order(o); if r.is_ok() != ok { fail = Some(format!("returned {:?}", r)); } });
            }
            2 | 3 => {
                let id = g.some_id(&live);
                desc = format!("cancel_order({})", id);
                let want = m_cancel(&mut m, id).is_some();
                res = guard(|| { let r = h.cancel_order(id); if r.is_some() != want { fail = Some(format!("returned {:?}", r)); } });
            }
            4 => {
                let id = g.some_id(&live);
                let q = if g.r.chance(1, 8) { 0 } else { g.qty() };
                desc = format!("change_quantity({}, {})", id, q);
                let want = m_change_qty(&mut m, id, q);
                res = guard(|| { let r = h.change_quantity(id, q); if r.is_some() != want { fail = Some(format!("returned {:?}", r)); } });
            }
            5 => {
                let id = g.some_id(&live);
                let p = g.price();
                desc = format!("change_price({}, {})", id, p);
                let q = m_cancel(&mut m, id);
                if let Some(q) = q { m_add(&mut m, p, id, q); }
                res = guard(|| { let r = h.change_price(id, p); if r.is_some() != q.is_some() { fail = Some(format!("returned {:?}", r)); } });
            }
            6 => {
                let mut o = RemoveAnyOrder::new(g.price(), g.qty(), side);
                if g.r.chance(1, 20) { o.order_side = opp(side); }
                if g.r.chance(1, 3) && !m.is_empty() { let ps: Vec<i64> = m.keys().copied().collect(); o.price = *g.r.pick(&ps); }
                if g.r.chance(1, 3) { if let Some(t) = sums(&m).get(&o.price) { o.quantity = *t; } }
                desc = format!("remove_order({:?})", o);
                let want = if o.order_side != side { None } else { Some(m_remove_any(&mut m, o.price, o.quantity)) };
                res = guard(|| { let r = h.remove_order(o); if r != want { fail = Some(format!("returned {:?}, expected {:?}", r, want)); } });
            }
            7 | 8 => {
                tags = &["C02", "C01"];
                let mut o = LimitOrder::new(g.price(), trade_qty(&mut g, &m), opp(side), g.fresh());
                if g.r.chance(1, 20) { o.order_side = side; }
                desc = format!("trade_limit_order({:?})", o);
                let can = o.order_side != side && m.keys().any(|p| if is_ask(side) { *p <= o.price } else { *p >= o.price });
                let want = if can { Some(m_trade(&mut m, is_ask(side), Some(o.price), o.quantity)) } else { None };
                if want.is_some() { log.interesting += 1; }
                res = guard(|| { let r = h.trade_limit_order(&o); if hist(&r) != want { fail = Some(format!("returned {:?}, expected {:?}", hist(&r), want)); } });
            }
            9 => {
                tags = &["C02", "C01"];
                let mut o = MarketOrder::new(trade_qty(&mut g, &m), opp(side), g.fresh());
                if g.r.chance(1, 20) { o.order_side = side; }
                desc = format!("trade_market_order({:?})", o);
                let want = if o.order_side != side && !m.is_empty() { Some(m_trade(&mut m, is_ask(side), None, o.quantity)) } else { None };
                if want.is_some() { log.interesting += 1; }
                res = guard(|| { let r = h.trade_market_order(&o); if hist(&r) != want { fail = Some(format!("returned {:?}, expected {:?}", hist(&r), want)); } });
            }
            _ => {
                if g.r.chance(1, 4) {
                    desc = "clear()".into();
                    m.clear();
                    res = guard(|| h.clear());
                } else if let Some(p) = before.keys().next().copied() {
                    desc = format!("levels[{}].clear() on a copy", p);
                    let mut l = h.levels[&p].clone();
                    res = guard(|| l.clear());
                    if log.check(&["C01"], l.is_empty() && l.aggregate_quantity() == 0 && l.order_count() == 0 && l.book_price == p, || format!("cleared level is {:?}", l)) { return; }
                } else { continue; }
            }
        }
        log.step(desc.clone());
        if let Err(e) = res { log.check(tags, false, || format!("{} panicked: {} (side before: {:?})", desc, e, before)); return; }
        if let Some(e) = fail { if log.check(&tags[..1], false, || format!("{} {} (side before: {:?})", desc, e, before)) { return; } }
        let after = abs(&h);
        let bad = log.check(&tags[..1], after == m, || format!("{} left {:?}, expected {:?} (before: {:?})", desc, after, m, before));
        let c = consistent(&h);
        if log.check(&["C01"], c.is_ok(), || format!("after {}: {} (before: {:?}, after: {:?})", desc, c.clone().unwrap_err(), before, after)) || c.is_err() || bad { return; }
        let e = (h.eq_level(&b), b.eq_level(&h), sums(&after) == sums(&before));
        if log.check(&["C05"], e.0 == e.2 && e.1 == e.2, || format!("eq_level says {:?} for {:?} / {:?}", e, before, after)) { return; }
        if !snapshot_agrees(log, &h, &after) { return; }
    }
}
fn trade_qty(g: &mut Gen, m: &M) -> u64 {
    let s: Vec<u64> = sums(m).values().copied().collect();
    let t: u64 = s.iter().sum();
    match g.r.below(7) {
        0 if t > 0 => t,
        1 if t > 0 => t + g.qty(),
        2 if !s.is_empty() => s[0],
        3 if !s.is_empty() => s[s.len() - 1],
        4 if s.len() > 1 => s[0] + s[1],
        5 if t > 1 => t - 1,
        _ => g.qty(),
    }
}
fn snapshot_agrees(log: &mut Log, h: &HalfBook, m: &M) -> bool {
    let s = h.to_level_snapshot();
    let got: Vec<(i64, u64, Option<u32>, Option<u64>)> = s.iter().map(|x| (x.book_price, x.book_quantity, x.order_count, x.lp_quantity)).collect();
    let want: Vec<(i64, u64, Option<u32>, Option<u64>)> = m.iter().map(|(p, q)| (*p, q.iter().map(|o| o.1).sum(), Some(q.len() as u32), None)).collect();
    !log.check(&["C05"], got == want, || format!("to_level_snapshot gives {:?} for {:?}", got, m))
}
fn the_id() -> InstId { InstId::new(Symbol::Isin(IsinCode::new(b"KR4101V90009").unwrap()), Venue::KRX) }
fn other_id() -> InstId { InstId::new(Symbol::Isin(IsinCode::new(b"KR4101V90017").unwrap()), Venue::KRX) }

fn cross(b: &OrderBook) -> bool {
    match (b.bids.levels.keys().next_back(), b.asks.levels.keys().next()) { (Some(x), Some(y)) => x >= y, _ => false }
}
fn book_ok(b: &OrderBook) -> Result<(), String> {
    if !is_ask(b.asks.order_side) || is_ask(b.bids.order_side) { return Err("a side lost its side".into()); }
    consistent(&b.asks).map_err(|e| format!("asks: {}", e))?;
    consistent(&b.bids).map_err(|e| format!("bids: {}", e))?;
    if let Some(i) = b.asks.cache.keys().find(|k| b.bids.cache.contains_key(k)) { return Err(format!("id {} on both sides", i)); }
    if !b.check_validity_quantity() { return Err("check_validity_quantity is false".into()); }
    Ok(())
}
/// reference for an arriving limit order
fn arrive(own: &mut M, other: &mut M, o: &LimitOrder) -> Option<(Vec<(i64, u64)>, u64)> {
    let ask_other = !is_ask(o.order_side);
    let can = other.keys().any(|p| if ask_other { *p <= o.price } else { *p >= o.price });
    if !can { m_add(own, o.price, o.order_id, o.quantity); return None; }
    let (h, rem) = m_trade(other, ask_other, Some(o.price), o.quantity);
    if rem > 0 { m_add(own, o.price, o.order_id, rem); }
    Some((h, rem))
}

fn book_ops(seed: u64, log: &mut Log) {
    let mut g = Gen::new(seed);
    let mut b = if g.r.chance(1, 8) { OrderBook::default() } else { OrderBook::initialize_with_id(the_id()) };
    let raw_adds = g.r.chance(1, 4);
    let prefill = *g.r.pick(&[0u64, 2, 8, 40, 150]);
    let n = prefill + 4 + g.r.below(60);
    log.step("order book".into());
    { let c = book_ok(&b); if log.check(&["C01"], c.is_ok(), || format!("new book: {}", c.clone().unwrap_err())) { return; } }
    for i in 0..n {
        let (a0, b0) = (abs(&b.asks), abs(&b.bids));
        let was_crossed = cross(&b);
        let (mut ma, mut mb) = (a0.clone(), b0.clone());
        let prev = b.clone();
        let mut live = live_of(&a0);
        live.extend(live_of(&b0));
        let k = if i < prefill { 0 } else { g.r.below(12) };
        let mut tags: &[&str] = &["C04", "C01"];
        let mut fail: Option<String> = None;
        let mut may_cross = false;
        let desc;
        let res: Result<(), String>;
        match k {
            0 | 1 | 2 | 3 => {
                tags = &["C02", "C01", "C03"];
                let side = g.side();
                let q = if i < prefill || g.r.chance(1, 2) { g.qty() } else { trade_qty(&mut g, if is_ask(side) { &mb } else { &ma }) };
                let o = LimitOrder::new(g.price(), q, side, g.fresh());
                desc = format!("process_limit_order({:?})", o);
                let want = if is_ask(side) { arrive(&mut ma, &mut mb, &o) } else { arrive(&mut mb, &mut ma, &o) };
                if want.is_some() { log.interesting += 1; }
                res = guard(|| { let r = b.process_limit_order(o); if hist(&r) != want { fail = Some(format!("returned {:?}, expected {:?}", hist(&r), want)); } });
            }
            4 => {
                tags = &["C02", "C01", "C03"];
                let side = g.side();
                let o = MarketOrder::new(trade_qty(&mut g, if is_ask(side) { &mb } else { &ma }), side, g.fresh());
                desc = format!("process_market_order({:?})", o);
                let other = if is_ask(side) { &mut mb } else { &mut ma };
                let want = if other.is_empty() { None } else { Some(m_trade(other, !is_ask(side), None, o.quantity)) };
                if want.is_some() { log.interesting += 1; }
                res = guard(|| { let r = b.process_market_order(&o); if hist(&r) != want { fail = Some(format!("returned {:?}, expected {:?}", hist(&r), want)); } });
            }
            5 | 6 => {
                let id = g.some_id(&live);
                desc = format!("cancel_order({})", id);
                let want = m_cancel(&mut ma, id).is_some() | m_cancel(&mut mb, id).is_some();
                res = guard(|| { let r = b.cancel_order(CancelOrder::new(id)); if r.is_some() != want { fail = Some(format!("returned {:?}", r)); } });
            }
            7 | 8 => {
                tags = &["C04", "C01", "C02", "C03"];
                let id = g.some_id(&live);
                let mut p = g.price();
                if g.r.chance(1, 4) { if let Some(x) = side_of(&ma, id).or(side_of(&mb, id)) { p = x; } }
                let o = ModifyOrder::new(id, p, g.qty());
                desc = format!("modify_order({:?})", o);
                let (side, at) = match (side_of(&ma, id), side_of(&mb, id)) { (Some(x), _) => (Some(OrderSide::Ask), x), (_, Some(x)) => (Some(OrderSide::Bid), x), _ => (None, 0) };
                let want = match side {
                    None => None,
                    Some(s) => {
                        let (own, other) = if is_ask(s) { (&mut ma, &mut mb) } else { (&mut mb, &mut ma) };
                        if at == p { m_change_qty(own, id, o.quantity); None }
                        else { m_cancel(own, id); arrive(own, other, &LimitOrder::new(p, o.quantity, s, id)) }
                    }
                };
                if want.is_some() { log.interesting += 1; }
                res = guard(|| { let r = b.modify_order(o); if hist(&r) != want { fail = Some(format!("returned {:?}, expected {:?}", hist(&r), want)); } });
            }
            9 => {
                let id = g.some_id(&live);
                let q = if g.r.chance(1, 6) { 0 } else { g.qty() };
                desc = format!("change_quantity({}, {})", id, q);
                let want = m_change_qty(&mut ma, id, q) | m_change_qty(&mut mb, id, q);
                res = guard(|| { let r = b.change_quantity(id, q); if r.is_some() != want { fail = Some(format!("returned {:?}", r)); } });
            }
            10 => {
                let side = g.side();
                let m = if is_ask(side) { &mut ma } else { &mut mb };
                let mut o = RemoveAnyOrder::new(g.price(), g.qty(), side);
                if !m.is_empty() && g.r.chance(3, 4) { let ps: Vec<i64> = m.keys().copied().collect(); o.price = *g.r.pick(&ps); }
                if g.r.chance(1, 3) { if let Some(t) = sums(m).get(&o.price) { o.quantity = *t; } }
                desc = format!("remove_order({:?})", o);
                let want = Some(m_remove_any(m, o.price, o.quantity));
                res = guard(|| { let r = b.remove_order(o); if r != want { fail = Some(format!("returned {:?}, expected {:?}", r, want)); } });
            }
            _ => {
                let side = g.side();
                let o = LimitOrder::new(g.price(), g.qty(), side, g.fresh());
                let crosses = if is_ask(side) { mb.keys().any(|p| *p >= o.price) } else { ma.keys().any(|p| *p <= o.price) };
                if crosses && !raw_adds { continue; }
                may_cross = true;
                desc = format!("add_limit_order({:?})", o);
                m_add(if is_ask(side) { &mut ma } else { &mut mb }, o.price, o.order_id, o.quantity);
                res = guard(|| { let r = b.add_limit_order(o); if r.is_err() { fail = Some(format!("returned {:?}", r)); } });
            }
        }
        log.step(desc.clone());
        let ctx = || format!("(before: asks {:?} bids {:?})", a0, b0);
        if let Err(e) = res { log.check(tags, false, || format!("{} panicked: {} {}", desc, e, ctx())); return; }
        let prim: &[&str] = if tags.len() == 4 { &["C04", "C02"] } else { &tags[..1] };
        let mut bad = false;
        if let Some(e) = fail { bad |= log.check(prim, false, || format!("{} {} {}", desc, e, ctx())); }
        let (a1, b1) = (abs(&b.asks), abs(&b.bids));
        bad |= log.check(prim, a1 == ma && b1 == mb, || format!("{} left asks {:?} bids {:?}, expected asks {:?} bids {:?} {}", desc, a1, b1, ma, mb, ctx()));
        if !may_cross && !was_crossed {
            bad |= log.check(&["C03"], !cross(&b), || format!("{} crossed the book: asks {:?} bids {:?} {}", desc, a1, b1, ctx()));
        }
        let c = book_ok(&b);
        bad |= log.check(&["C01"], c.is_ok(), || format!("after {}: {} {} (after: asks {:?} bids {:?})", desc, c.clone().unwrap_err(), ctx(), a1, b1));
        if bad || c.is_err() { return; }
        let same = sums(&a0) == sums(&a1) && sums(&b0) == sums(&b1);
        let e = (b.eq_level(&prev), prev.eq_level(&b));
        if log.check(&["C05"], e == (same, same), || format!("eq_level says {:?} {} {}", e, desc, ctx())) { return; }
    }
}

/// one side fed by snapshots, sometimes with ordinary orders on top (decomposition only)
fn half_snapshots(seed: u64, log: &mut Log) {
    let mut g = Gen::new(seed);
    let side = g.side();
    let mut h = HalfBook::initialize(side);
    let mut ctr = VirtualOrderId::new(if g.r.chance(1, 2) { 0 } else { 500 });
    let pure = g.r.chance(1, 2);
    log.step(format!("half book {:?} fed by snapshots, virtual ids from {}", side, ctr.order_id));
    let n = 3 + g.r.below(25);
    for _ in 0..n {
        let before = abs(&h);
        let v = match g.r.below(5) { 0 => vec![], 1 | 2 => { let n = 1 + g.r.below(12); g.snapshot(n) } _ => g.edited(&before) };
        let c0 = ctr.order_id;
        let one_each = before.values().all(|q| q.len() == 1);
        if pure && one_each && g.r.chance(1, 2) {
            let desc = format!("update_l2_snapshot({:?})", brief(&v));
            log.step(desc.clone());
            let r = guard(|| h.update_l2_snapshot(&v, &mut ctr));
            match r {
                Err(e) => { log.check(&["C05", "C01"], false, || format!("{} panicked: {} (before {:?})", desc, e, before)); return; }
                Ok(r) => {
                    let after = abs(&h);
                    if log.check(&["C05"], r.is_ok() && sums(&after) == show_of(&v) && after.values().all(|q| q.len() == 1) && h.order_side == side, || format!("{} gave {:?} and left {:?} (before {:?})", desc, r, after, before)) { return; }
                    let kept = after.iter().all(|(p, q)| match before.get(p) { Some(o) => o[0].0 == q[0].0, None => q[0].0 >= c0 && q[0].0 < ctr.order_id });
                    if log.check(&["C05"], kept, || format!("{} did not keep the resting orders' ids: {:?} (before {:?})", desc, after, before)) { return; }
                    if !snapshot_agrees(log, &h, &after) { return; }
                }
            }
        } else {
            let desc = format!("decomposed_orders_with_update({:?})", brief(&v));
            log.step(desc.clone());
            let prev = h.clone();
            let r = guard(|| h.decomposed_orders_with_update(&v, &mut ctr));
            match r {
                Err(e) => { log.check(&["C06", "C01"], false, || format!("{} panicked: {} (before {:?})", desc, e, before)); return; }
                Ok(Err(e)) => { log.check(&["C06"], false, || format!("{} failed: {} (before {:?})", desc, e, before)); return; }
                Ok(Ok(ords)) => {
                    let after = abs(&h);
                    if log.check(&["C06"], sums(&after) == show_of(&v) && h.order_side == side, || format!("{} left {:?} (before {:?})", desc, after, before)) { return; }
                    if !decomposition_ok(log, &desc, &prev, &h, &ords, &v, c0, ctr.order_id) { return; }
                }
            }
        }
        let c = consistent(&h);
        if log.check(&["C01"], c.is_ok(), || format!("{} (before {:?})", c.clone().unwrap_err(), before)) || c.is_err() { return; }
        if !pure && g.r.chance(1, 2) {
            let o = LimitOrder::new(g.price(), g.qty(), side, ctr.next_id());
            log.step(format!("add_limit_order({:?})", o));
            let _ = h.add_limit_order(o);
        }
    }
}
fn decomposition_ok(log: &mut Log, desc: &str, prev: &HalfBook, h: &HalfBook, ords: &[OrderEnum], v: &[LevelSnapshot], c0: u64, c1: u64) -> bool {
    // every order moves one price by exactly the difference, and replaying them on the old side gives the new one
    let mut m = abs(prev);
    let (s0, s1) = (sums(&m), show_of(v));
    let mut seen = vec![];
    let mut ids = vec![];
    let mut err = None;
    for o in ords {
        match o {
            OrderEnum::LimitOrder(l) => {
                let d = s1.get(&l.price).copied().unwrap_or(0) as i128 - s0.get(&l.price).copied().unwrap_or(0) as i128;
                if l.order_side != prev.order_side || d != l.quantity as i128 || l.quantity == 0 || seen.contains(&l.price) || ids.contains(&l.order_id) || l.order_id < c0 || l.order_id >= c1 { err = Some(format!("{:?}", o)); }
                seen.push(l.price);
                ids.push(l.order_id);
                m_add(&mut m, l.price, l.order_id, l.quantity);
            }
            OrderEnum::RemoveAnyOrder(r) => {
                let d = s1.get(&r.price).copied().unwrap_or(0) as i128 - s0.get(&r.price).copied().unwrap_or(0) as i128;
                if r.order_side != prev.order_side || -d != r.quantity as i128 || r.quantity == 0 || seen.contains(&r.price) { err = Some(format!("{:?}", o)); }
                seen.push(r.price);
                if m_remove_any(&mut m, r.price, r.quantity) != 0 { err = Some(format!("{:?} removes more than there is", o)); }
            }
            _ => err = Some(format!("{:?}", o)),
        }
    }
    if log.check(&["C06"], err.is_none(), || format!("{} produced a wrong order {} among {:?} (before {:?})", desc, err.clone().unwrap(), ords, abs(prev))) { return false; }
    !log.check(&["C06"], m == abs(h), || format!("{}: replaying {:?} on {:?} gives {:?}, the book became {:?}", desc, ords, abs(prev), m, abs(h)))
}

fn book_snapshots(seed: u64, log: &mut Log) {
    let mut g = Gen::new(seed);
    let id = the_id();
    let mut b = OrderBook::initialize_with_id(id);
    let pure = g.r.chance(2, 3);
    log.step(format!("order book {:?} fed by snapshots", id));
    let n = 3 + g.r.below(25);
    for _ in 0..n {
        let (a0, b0) = (abs(&b.asks), abs(&b.bids));
        let pick = |g: &mut Gen, m: &M| match g.r.below(5) { 0 => vec![], 1 | 2 => { let n = 1 + g.r.below(12); g.snapshot(n) } _ => g.edited(m) };
        let mut va = pick(&mut g, &a0);
        let mut vb = pick(&mut g, &b0);
        if g.r.chance(1, 10) { va = a0.iter().map(|(p, q)| { let mut s = LevelSnapshot::default(); s.book_price = *p; s.book_quantity = q.iter().map(|o| o.1).sum(); s }).collect(); }
        if g.r.chance(1, 10) { vb = vec![]; }
        let ctx = || format!("(before: asks {:?} bids {:?})", a0, b0);
        let one_each = a0.values().chain(b0.values()).all(|q| q.len() == 1);
        let kind = if pure && one_each { g.r.below(3) } else { 2 };
        let prev = b.clone();
        if kind < 2 {
            let bad_id = g.r.chance(1, 10);
            let qid = if bad_id { other_id() } else { id };
            // the levels in use come first; a reused buffer may hold more
            let cut = va.len().min(vb.len());
            va.truncate(cut);
            vb.truncate(cut);
            let mut stale = |v: &[LevelSnapshot]| { let mut v = v.to_vec(); for _ in 0..(if g.r.chance(1, 2) { g.r.below(3) } else { 0 }) { v.extend(g.snapshot(1)); } v };
            let (fa, fb) = (stale(&va), stale(&vb));
            let desc = format!("update_from_{}snapshot(id ok: {}, {} levels in use, asks {:?}, bids {:?})", if kind == 0 { "quote_" } else { "trade_quote_" }, !bad_id, cut, brief(&fa), brief(&fb));
            log.step(desc.clone());
            let r = guard(|| if kind == 0 {
                let mut q = QuoteSnapshot::default();
                q.id = qid; q.quote_level_cut = cut; q.ask_quote_data = fa.clone(); q.bid_quote_data = fb.clone();
                b.update_from_quote_snapshot(&q)
            } else {
                let mut q = TradeQuoteSnapshot::default();
                q.id = qid; q.quote_level_cut = cut; q.ask_quote_data = fa.clone(); q.bid_quote_data = fb.clone();
                b.update_from_trade_quote_snapshot(&q)
            });
            match r {
                Err(e) => { log.check(&["C05", "C01"], false, || format!("{} panicked: {} {}", desc, e, ctx())); return; }
                Ok(r) => {
                    let (a1, b1) = (abs(&b.asks), abs(&b.bids));
                    if bad_id {
                        if log.check(&["C05"], r.is_err() && a1 == a0 && b1 == b0, || format!("{} on another instrument's book gave {:?} and left asks {:?} bids {:?} {}", desc, r, a1, b1, ctx())) { return; }
                    } else {
                        if log.check(&["C05"], r.is_ok() && sums(&a1) == show_of(&va) && sums(&b1) == show_of(&vb), || format!("{} gave {:?} and left asks {:?} bids {:?} {}", desc, r, a1, b1, ctx())) { return; }
                        log.interesting += 1;
                        let s = (b.ask_level_snapshot(), b.bid_level_snapshot());
                        let okc = brief(&s.0).into_iter().collect::<BTreeMap<_, _>>() == show_of(&va) && brief(&s.1).into_iter().collect::<BTreeMap<_, _>>() == show_of(&vb);
                        if log.check(&["C05"], okc, || format!("level snapshots {:?} {:?} after {}", brief(&s.0), brief(&s.1), desc)) { return; }
                    }
                }
            }
        } else {
            let desc = format!("decomposed_orders_with_update(asks {:?}, bids {:?})", brief(&va), brief(&vb));
            log.step(desc.clone());
            match guard(|| b.decomposed_orders_with_update(&va, &vb)) {
                Err(e) => { log.check(&["C06", "C01"], false, || format!("{} panicked: {} {}", desc, e, ctx())); return; }
                Ok(Err(e)) => { log.check(&["C06"], false, || format!("{} failed: {} {}", desc, e, ctx())); return; }
                Ok(Ok(ords)) => {
                    let (a1, b1) = (abs(&b.asks), abs(&b.bids));
                    if log.check(&["C06"], sums(&a1) == show_of(&va) && sums(&b1) == show_of(&vb), || format!("{} left asks {:?} bids {:?} {}", desc, a1, b1, ctx())) { return; }
                    if log.check(&["C06"], ords.iter().all(|o| o.id == id), || "a decomposed order carries another instrument".into()) { return; }
                    if !ords.is_empty() { log.interesting += 1; }
                    let is = |o: &OrderEnum, s: OrderSide| match o { OrderEnum::LimitOrder(l) => l.order_side == s, OrderEnum::RemoveAnyOrder(r) => r.order_side == s, _ => false };
                    let oa: Vec<OrderEnum> = ords.iter().filter(|o| is(&o.order, OrderSide::Ask)).map(|o| o.order.clone()).collect();
                    let ob: Vec<OrderEnum> = ords.iter().filter(|o| is(&o.order, OrderSide::Bid)).map(|o| o.order.clone()).collect();
                    if log.check(&["C06"], oa.len() + ob.len() == ords.len(), || format!("unexpected order kinds {:?}", ords)) { return; }
                    if !decomposition_ok(log, &desc, &prev.asks, &b.asks, &oa, &va, 0, u64::MAX) { return; }
                    if !decomposition_ok(log, &desc, &prev.bids, &b.bids, &ob, &vb, 0, u64::MAX) { return; }
                }
            }
        }
        let c = book_ok(&b);
        if log.check(&["C01"], c.is_ok(), || format!("{} {}", c.clone().unwrap_err(), ctx())) || c.is_err() { return; }
        let same = sums(&a0) == sums(&abs(&b.asks)) && sums(&b0) == sums(&abs(&b.bids));
        let e = (b.eq_level(&prev), prev.eq_level(&b));
        if log.check(&["C05"], e == (same, same), || format!("eq_level says {:?} {}", e, ctx())) { return; }
        // ordinary orders on top of the snapshot-fed book, with ids outside the virtual range
        if g.r.chance(1, 3) {
            let mut idn = 1_000_000_000u64 + seed % 1000;
            for _ in 0..g.r.below(3) {
                idn += 1;
                let side = g.side();
                let o = MarketOrder::new(trade_qty(&mut g, &abs(if is_ask(side) { &b.bids } else { &b.asks })), side, idn);
                log.step(format!("process_market_order({:?})", o));
                if guard(|| { let _ = b.process_market_order(&o); }).is_err() { return; }
            }
            if book_ok(&b).is_err() { return; }
        }
    }
}
