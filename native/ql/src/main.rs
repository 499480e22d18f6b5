//! Randomised search against the real code: looks for a concrete input on which a property fails.
//! usage: ql PROP SEED SECONDS            search
//!        ql PROP --replay EPISODE_SEED   re-run one episode and print its steps
mod cash;
mod days;
mod dividend;
mod ktbf;
mod zero;
mod periods;
mod pricing;
mod results;
mod select;
mod tables;
mod util;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// one episode: returns the first violation of the property, with the steps that lead to it
pub type Episode = fn(prop: &str, seed: u64, log: &mut util::Log);

fn episode_for(prop: &str) -> Episode {
    match prop {
        "C14" => tables::search,
        "C15" => days::calendars,
        "C16" => tables::interpolate,
        "C17" => days::rules,
        "C18" => periods::period,
        "C19" => periods::daycount,
        "C20" => periods::schedule,
        "C21" => cash::cashflows,
        "C22" => pricing::values,
        "C23" => zero::curves,
        "C24" => dividend::dividends,
        "C25" => ktbf::quotes,
        "C26" => select::portfolio,
        "C27" => results::results,
        _ => {
            eprintln!("no search for {}", prop);
            std::process::exit(3);
        }
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
/// the code under test prints its warnings on stdout: keep them out of the report
fn hush() -> i32 {
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let out = dup(1);
        dup2(null.as_raw_fd(), 1);
        out
    }
}
fn speak(out: i32) {
    unsafe { dup2(out, 1) };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let ep = episode_for(&prop);
    std::panic::set_hook(Box::new(|i| util::note_panic(i)));
    if a[2] == "--replay" {
        let seed: u64 = a[3].parse().unwrap();
        let out = hush();
        let log = util::run(ep, &prop, seed);
        speak(out);
        for s in &log.steps {
            println!("  {}", s);
        }
        match &log.fail {
            Some(f) => {
                println!("FAIL {}", f);
                std::process::exit(1)
            }
            None => println!("OK {} evaluations", log.evals),
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let threads = if a.len() > 4 { a[4].parse().unwrap() } else { 4u64 };
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let eps = AtomicU64::new(0);
    let interesting = AtomicU64::new(0);
    let found: Mutex<Option<(u64, util::Log)>> = Mutex::new(None);
    let t0 = Instant::now();
    let out = hush();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (stop, evals, eps, found, prop, interesting) = (&stop, &evals, &eps, &found, &prop, &interesting);
            s.spawn(move || {
                let mut k = 0u64;
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs_f64(secs) {
                    let es = util::mix(seed.wrapping_mul(1_000_003).wrapping_add(t), k);
                    k += 1;
                    let log = util::run(ep, prop, es);
                    evals.fetch_add(log.evals, Ordering::Relaxed);
                    interesting.fetch_add(log.interesting, Ordering::Relaxed);
                    eps.fetch_add(1, Ordering::Relaxed);
                    if log.fail.is_some() {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((es, log));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    speak(out);
    println!("EPISODES {}", eps.load(Ordering::Relaxed));
    println!("EVALS {}", evals.load(Ordering::Relaxed));
    println!("INTERESTING {}", interesting.load(Ordering::Relaxed));
    let f = found.lock().unwrap();
    if let Some((es, log)) = &*f {
        println!("SEED {}", es);
        for s in &log.steps {
            println!("  {}", s);
        }
        println!("FAIL {}", log.fail.as_ref().unwrap());
        std::process::exit(1);
    }
}
