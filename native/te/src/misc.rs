use crate::util::{guard, Log, Rng};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use trading_engine::types::base::VirtualOrderId;
use trading_engine::utils::counter::{CounterU64, CounterUsize, UnboundedCounterU64, UnboundedCounterUsize};
use trading_engine::utils::timer::{convert_unix_nano_to_date_and_time, time_components_from_unix_nano};

enum C {
    U(CounterUsize),
    L(CounterU64),
    Uu(UnboundedCounterUsize),
    Ul(UnboundedCounterU64),
}
impl C {
    fn next(&self) -> Result<u64, ()> {
        match self {
            C::U(c) => c.next().map(|x| x as u64).map_err(|_| ()),
            C::L(c) => c.next().map_err(|_| ()),
            C::Uu(c) => Ok(c.next() as u64),
            C::Ul(c) => Ok(c.next()),
        }
    }
}

pub fn counters(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    let kind = r.below(5);
    let start = match r.below(5) {
        0 => 0,
        1 => r.below(1000),
        2 => u64::MAX - 200_000,
        3 => (1 << r.below(63)) - r.below(3).min(1),
        _ => r.next() / 2,
    };
    let bounded = kind < 2;
    let end = if bounded { match r.below(4) { 0 => start, 1 => start + r.below(50), 2 => start + r.below(100_000), _ => (u64::MAX - 1).max(start) } } else { u64::MAX };
    if kind == 4 {
        let mut c = VirtualOrderId::new(start);
        log.step(format!("VirtualOrderId::new({})", start));
        for i in 0..50 {
            let got = guard(|| c.next_id());
            if log.check(&["C11"], got == Ok(start + i), || format!("call {} of next_id gave {:?}, expected {}", i, got, start + i)) {
                return;
            }
        }
        return;
    }
    let c = match kind {
        0 => C::U(CounterUsize::new(start as usize, end as usize)),
        1 => C::L(CounterU64::new(start, end)),
        2 => C::Uu(UnboundedCounterUsize::new(start as usize)),
        _ => C::Ul(UnboundedCounterU64::new(start)),
    };
    let name = ["CounterUsize", "CounterU64", "UnboundedCounterUsize", "UnboundedCounterU64"][kind as usize];
    log.step(format!("{}::new({}, {})", name, start, end));
    if r.chance(2, 3) {
        for i in 0..200u64 {
            let want = if start + i <= end { Ok(start + i) } else { Err(()) };
            let got = guard(|| c.next());
            if log.check(&["C11"], got == Ok(want), || format!("{} from {} to {}: call {} gave {:?}, expected {:?}", name, start, end, i, got, want)) {
                return;
            }
        }
        return;
    }
    log.interesting += 1;
    let (threads, per) = (4usize, 2000usize);
    log.step(format!("{} threads take {} values each", threads, per));
    let bar = Barrier::new(threads);
    let mut all: Vec<Vec<Result<u64, ()>>> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (c, bar) = (&c, &bar);
                s.spawn(move || {
                    bar.wait();
                    (0..per).map(|_| c.next()).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            all.push(h.join().unwrap());
        }
    });
    let mut seen = BTreeSet::new();
    let mut twice = None;
    let mut ok = true;
    for v in &all {
        let mut last = None;
        for x in v {
            match x {
                Ok(x) => {
                    if !seen.insert(*x) {
                        twice = Some(*x);
                    }
                    ok = ok && last.map_or(true, |l| l < *x);
                    last = Some(*x);
                }
                Err(()) => {}
            }
        }
    }
    let n = (threads * per) as u64;
    let expect = n.min(end.saturating_sub(start).saturating_add(1));
    let dense = seen.len() as u64 == expect && seen.iter().next() == Some(&start) && seen.iter().last() == Some(&(start + expect - 1));
    log.check(&["C11"], twice.is_none() && ok && dense, || format!("{} threads sharing a {} from {} to {}: {} distinct values of {} expected{}", threads, name, start, end, seen.len(), expect, twice.map_or(String::new(), |t| format!(", {} given out twice", t))));
}

/// proleptic Gregorian date of a day number (days since 1970-01-01), by counting in 400-year cycles
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

pub fn dates(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    const H: i128 = 3_600_000_000_000;
    const D: i128 = 24 * H;
    for _ in 0..40 {
        let off = if r.chance(1, 2) { *r.pick(&[0i64, 9, -5, -12, 14, 24, -24, 23, -23]) } else { r.range(-24, 24) } as i128;
        let mut u: i128 = match r.below(5) {
            0 => r.next() as i128,
            // around a year or month boundary
            1 => {
                let y = r.range(1970, 2553) as i128;
                let first = (y - 1970) * 365 + (y - 1969) / 4 - (y - 1901) / 100 + (y - 1601) / 400;
                (first + r.range(-1, 61) as i128) * D + r.below(D as u64) as i128
            }
            2 => (r.below(213_500) as i128) * D + r.range(-3, 3) as i128 - off * H,
            3 => r.below(213_500) as i128 * D + r.below(24) as i128 * H + *r.pick(&[0i128, -1, 1, 59_999_999_999, 60_000_000_000, 999_999, 1_000_000, 999, 1000]),
            _ => r.below(4_000_000_000_000_000_000) as i128,
        };
        u = u.clamp(0, u64::MAX as i128);
        if u + off * H < 0 {
            continue;
        }
        let t = u + off * H;
        let (y, m, d) = civil((t / D) as i64);
        let s = t % D;
        let want = (format!("{:04}{:02}{:02}", y, m, d), format!("{:02}:{:02}:{:02}.{:03}:{:03}:{:03}", s / H, s / (H / 60) % 60, s / 1_000_000_000 % 60, s / 1_000_000 % 1000, s / 1000 % 1000, s % 1000));
        let got = guard(|| convert_unix_nano_to_date_and_time(u as u64, off as i32));
        if log.check(&["C12"], got.as_ref() == Ok(&want), || format!("{} nanoseconds at offset {} hours: got {:?}, expected {:?}", u, off, got, want)) {
            return;
        }
        let s = u % D;
        let want = ((s / H) as u8, (s / (H / 60) % 60) as u8, (s / 1_000_000_000 % 60) as u8, (s / 1_000_000 % 1000) as u16);
        let got = guard(|| time_components_from_unix_nano(u as u64));
        if log.check(&["C12"], got == Ok(want), || format!("components of {}: got {:?}, expected {:?}", u, got, want)) {
            return;
        }
        log.interesting += 1;
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Item {
    a: u64,
    text: String,
}

pub fn spin(_prop: &str, seed: u64, log: &mut Log) {
    let mut r = Rng(seed);
    {
        let q = DataSpinQueue::<Item>::default();
        let p = q.data_buffer.load(Ordering::SeqCst);
        let null = p.is_null();
        if null {
            std::mem::forget(q);
        }
        if log.check(&["C13"], !null, || "DataSpinQueue::default() holds a null pointer, which get_mut() hands out and drop() frees as a box".to_string()) {
            return;
        }
    }
    for id in [r.below(20) as u16, r.next() as u16, r.below(17) as u16] {
        let w = guard(|| WorkerId::new(id).ok());
        let ok = match &w {
            Ok(Some(w)) => id <= 15 && w.id == id && w.id_bit == 1u16 << id && w.id_bit_neg == !(1u16 << id) && w.work_done_mask() == !(1u16 << id),
            Ok(None) => id > 15,
            Err(_) => false,
        };
        if log.check(&["C13"], ok, || format!("WorkerId::new({}) gave {:?}", id, w)) {
            return;
        }
    }
    let n = r.below(7);
    let mut ids: Vec<u16> = (0..n).map(|_| r.below(16) as u16).collect();
    if r.chance(3, 4) {
        let mut s = BTreeSet::new();
        ids.retain(|x| s.insert(*x));
    }
    let distinct = ids.iter().collect::<BTreeSet<_>>().len() == ids.len();
    let ws: Vec<WorkerId> = match ids.iter().map(|i| WorkerId::new(*i)).collect() {
        Ok(v) => v,
        Err(_) => return,
    };
    let item = Item { a: r.next(), text: "x".repeat(r.below(5) as usize) };
    log.step(format!("queue with workers {:?}", ids));
    let q = match guard(|| DataSpinQueue::new(item.clone(), ws.clone()).ok()) {
        Ok(Some(q)) => q,
        o => {
            let ok = matches!(o, Ok(None)) && !distinct;
            log.check(&["C13"], ok, || format!("queue for workers {:?} was refused", ids));
            return;
        }
    };
    if log.check(&["C13"], distinct, || format!("queue accepted duplicate workers {:?}", ids)) {
        return;
    }
    if r.chance(1, 12) && !ws.is_empty() {
        threaded(&mut r, q, ws, log);
        return;
    }
    let all: Vec<WorkerId> = (0..16).map(|i| WorkerId::new(i).unwrap()).collect();
    let mut pending: BTreeSet<u16> = BTreeSet::new();
    let mut want = item;
    for _ in 0..40 {
        match r.below(5) {
            0 => {
                let p = q.get_mut();
                let ok = p.is_some() == pending.is_empty();
                if log.check(&["C13"], ok, || format!("get_mut gave {} while workers {:?} still have to work", if p.is_some() { "access" } else { "nothing" }, pending)) {
                    return;
                }
                if let Some(p) = p {
                    if log.check(&["C13"], unsafe { &*p } == &want, || "the writer sees a different value from the one last written".to_string()) {
                        return;
                    }
                    want.a = r.next();
                    unsafe { (*p).a = want.a };
                    log.step("write, notify".to_string());
                    q.notify_all_workers();
                    pending = ids.iter().copied().collect();
                    log.interesting += 1;
                }
            }
            1 => {
                let e = pending.is_empty();
                if log.check(&["C13"], q.ready_to_update() == e, || format!("ready_to_update is {} with pending {:?}", !e, pending)) {
                    return;
                }
            }
            2 | 3 => {
                let w = r.pick(&all).clone();
                let has = pending.contains(&w.id);
                let g = q.get(&w);
                let rw = q.ready_to_work(&w);
                if log.check(&["C13"], g.is_some() == has && rw == has, || format!("worker {}: get {} ready_to_work {} with pending {:?}", w.id, g.is_some(), rw, pending)) {
                    return;
                }
                if let Some(p) = g {
                    if log.check(&["C13"], unsafe { &*p } == &want, || format!("worker {} sees a different value from the one last written", w.id)) {
                        return;
                    }
                }
            }
            _ => {
                if let Some(i) = pending.iter().nth(r.below(pending.len().max(1) as u64) as usize).copied() {
                    log.step(format!("work_done {}", i));
                    q.work_done(&WorkerId::new(i).unwrap());
                    pending.remove(&i);
                }
            }
        }
    }
}

/// writer and workers on their own threads: two halves of the data always agree for whoever has access
fn threaded(r: &mut Rng, _q: DataSpinQueue<Item>, ws: Vec<WorkerId>, log: &mut Log) {
    let rounds = 200u64;
    let base = r.next() >> 1;
    let q = DataSpinQueue::new((base, base), ws.clone()).unwrap();
    let bad = AtomicU64::new(0);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(5);
    struct P<'a>(&'a DataSpinQueue<(u64, u64)>);
    unsafe impl Sync for P<'_> {}
    let p = P(&q);
    std::thread::scope(|s| {
        for w in &ws {
            let (p, bad) = (&p, &bad);
            s.spawn(move || {
                for k in 1..=rounds {
                    let d = loop {
                        if let Some(d) = p.0.get(w) {
                            break d;
                        }
                        if bad.load(Ordering::Relaxed) != 0 || std::time::Instant::now() > end {
                            return;
                        }
                        std::thread::yield_now();
                    };
                    let v = unsafe { (std::ptr::read_volatile(&(*d).0), std::ptr::read_volatile(&(*d).1)) };
                    if v != (base + k, base + k) {
                        bad.store(k, Ordering::Relaxed);
                    }
                    p.0.work_done(w);
                }
            });
        }
        for k in 1..=rounds {
            let d = loop {
                if let Some(d) = p.0.get_mut() {
                    break d;
                }
                if bad.load(Ordering::Relaxed) != 0 || std::time::Instant::now() > end {
                    return;
                }
                std::thread::yield_now();
            };
            unsafe {
                std::ptr::write_volatile(&mut (*d).0, base + k);
                std::ptr::write_volatile(&mut (*d).1, base + k);
            }
            p.0.notify_all_workers();
        }
    });
    let b = bad.load(Ordering::Relaxed);
    log.check(&["C13"], b == 0, || format!("a worker saw a half-written or wrong round {}", b));
}
