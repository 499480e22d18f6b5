use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Rng(pub u64);
#[allow(dead_code)]
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0, 77)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Default)]
pub struct Log {
    pub steps: Vec<String>,
    pub fail: Option<String>,
    pub evals: u64,
    pub interesting: u64,
    pub want: String,
}

impl Log {
    pub fn step(&mut self, s: String) {
        self.steps.push(s);
    }
    /// record a failure if it concerns the property under check; returns true if the episode should end
    pub fn check(&mut self, props: &[&str], ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if ok {
            return false;
        }
        if props.contains(&self.want.as_str()) && self.fail.is_none() {
            self.fail = Some(msg());
        }
        true
    }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn note_panic(i: &std::panic::PanicHookInfo) {
    let s = i.to_string();
    PANIC.with(|p| *p.borrow_mut() = s);
}
/// run the real code; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().replace('\n', " ")))
}

pub fn run(ep: crate::Episode, prop: &str, seed: u64) -> Log {
    let mut log = Log { want: prop.to_string(), ..Log::default() };
    if let Err(m) = guard(|| ep(prop, seed, &mut log)) {
        // a panic outside a guarded call is ours: say so loudly, never as a violation
        eprintln!("HARNESS PANIC seed {}: {}", seed, m);
        std::process::exit(4);
    }
    log
}
