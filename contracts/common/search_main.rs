// Runs the contracts on concrete choices: search (seeded), or replay of a recorded choice list.
use regalloc2::verif::entries::ALL;
use regalloc2::verif::{AssumeFailed, S};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static MSG: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicU64 = AtomicU64::new(0);

enum Out { Ok, Rejected, Fail(String) }

fn once(f: fn(&mut S), s: &mut S) -> Out {
    TICK.fetch_add(1, Ordering::SeqCst);
    MSG.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(()) => Out::Ok,
        Err(e) => {
            if e.downcast_ref::<AssumeFailed>().is_some() { Out::Rejected } else { Out::Fail(MSG.lock().unwrap().clone()) }
        }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o
}
fn emit(kind: &str, evals: u64, rej: u64, msg: &str, script: Option<&[u64]>, seed: u64) {
    let s = match script { Some(v) => format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")), None => "null".into() };
    println!("RVJSON {{\"result\":\"{}\",\"evaluations\":{},\"rejected\":{},\"msg\":\"{}\",\"script\":{},\"seed\":{}}}", kind, evals, rej, esc(msg), s, seed);
}
fn sizes(i: u64) -> usize { [2, 3, 3, 4, 5, 6, 8, 12, 4, 20][(i % 10) as usize] }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (name, mode) = (&a[1], &a[2]);
    /*setup*/
    let f = ALL.iter().find(|(n, _)| n == name).expect("contract").1;
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        if std::env::var("RV_SHOW").is_ok() && !loc.is_empty() { eprintln!("{m} at {loc}\n{}", std::backtrace::Backtrace::force_capture()); }
        *MSG.lock().unwrap() = format!("{} at {}", m, loc);
    }));
    std::thread::spawn(|| {
        let mut last = u64::MAX; let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::SeqCst);
            if t != last { last = t; since = Instant::now(); }
            else if t != u64::MAX && since.elapsed() > Duration::from_secs(25) {
                emit("fail", t, 0, "contract run does not terminate (25 s for one input)", None, CUR.load(Ordering::SeqCst));
                std::process::exit(0);
            }
        }
    });
    let body = std::thread::Builder::new().stack_size(256 << 20).spawn({
        let a = a.clone(); let mode = mode.clone();
        move || {
            if mode == "replay" {
                let script: Vec<u64> = if a.len() > 3 && !a[3].is_empty() { a[3].split(',').map(|x| x.parse().unwrap()).collect() } else { vec![] };
                let mut s = S::new(0, script.clone(), true, 20);
                match once(f, &mut s) {
                    Out::Fail(m) => emit("fail", 1, 0, &m, Some(&script), 0),
                    Out::Ok => emit("ok", 1, 0, "", None, 0),
                    Out::Rejected => emit("rejected", 0, 1, "", None, 0),
                }
                std::process::exit(0);
            }
            let secs: f64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let t0 = Instant::now();
            let (mut ev, mut rej, mut i) = (0u64, 0u64, 0u64);
            while t0.elapsed().as_secs_f64() < secs {
                for _ in 0..16 {
                    i += 1;
                    let sd = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    CUR.store(sd, Ordering::SeqCst);
                    let mut s = S::new(sd, vec![], false, sizes(i));
                    match once(f, &mut s) {
                        Out::Ok => ev += 1,
                        Out::Rejected => rej += 1,
                        Out::Fail(m) => {
                            let mut script: Vec<u64> = s.log.iter().map(|x| x.1).collect();
                            let mut msg = m;
                            // shrink: zero or lower single choices while it still fails
                            let ts = Instant::now();
                            let mut changed = true;
                            while changed && ts.elapsed().as_secs() < 10 {
                                changed = false;
                                let mut k = 0;
                                while k < script.len() {
                                    for cand in [0, script[k] / 2, script[k].wrapping_sub(1)] {
                                        if k >= script.len() || cand >= script[k] || ts.elapsed().as_secs() >= 10 { continue; }
                                        let mut t = script.clone();
                                        t[k] = cand;
                                        let mut s2 = S::new(0, t.clone(), true, 20);
                                        if let Out::Fail(m2) = once(f, &mut s2) {
                                            script = s2.log.iter().map(|x| x.1).collect(); msg = m2; changed = true;
                                            break;
                                        }
                                    }
                                    k += 1;
                                }
                            }
                            // confirm by replay
                            let mut s2 = S::new(0, script.clone(), true, 20);
                            let ok = matches!(once(f, &mut s2), Out::Fail(_));
                            if !ok { script = s.log.iter().map(|x| x.1).collect(); }
                            emit("fail", ev, rej, &msg, Some(&script), sd);
                            std::process::exit(0);
                        }
                    }
                }
            }
            emit("ok", ev, rej, "", None, seed);
            std::process::exit(0);
        }
    }).unwrap();
    let _ = body.join();
}
