//! Native replay of recorded inputs: runs a harness against the real code.
//! usage: replay <harness> <file>, one list of inputs per line of the file

use std::cell::RefCell;
use std::io::Write;

#[derive(Default)]
struct R { inputs: Vec<(u8, u64)>, pos: usize, obs: Vec<u64>, goals: Vec<u64>, failed: Vec<String>, tier: u32 }
thread_local! { static S: RefCell<R> = RefCell::new(R::default()); }
struct Stop(&'static str);

fn stop(s: &'static str) -> ! { std::panic::resume_unwind(Box::new(Stop(s))) }

fn next(kind: u8) -> u64 {
    let r = S.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; s.inputs.get(p).cloned() });
    match r { Some((k, v)) if k == kind => v, _ => stop("diverged") }
}

#[no_mangle] pub extern "C-unwind" fn sym_i64(lo: i64, hi: i64) -> i64 { let v = next(b'i') as i64; if v < lo || v > hi { stop("range") } v }
#[no_mangle] pub extern "C-unwind" fn sym_f64() -> f64 { f64::from_bits(next(b'f')) }
#[no_mangle] pub extern "C-unwind" fn sym_grid(lo: i64, hi: i64, scale: u64) -> f64 { let v = next(b'g') as i64; if v < lo || v > hi { stop("range") } v as f64 / (1u64 << scale) as f64 }
#[no_mangle] pub extern "C-unwind" fn sym_byte(set: *const u8, len: usize) -> u8 {
    let v = next(b'b') as u8;
    let set = unsafe { std::slice::from_raw_parts(set, len) };
    if !set.contains(&v) { stop("range") }
    v
}
#[no_mangle] pub extern "C-unwind" fn sym_byte_range(lo: u64, hi: u64) -> u8 { let v = next(b'b'); if v < lo || v > hi { stop("range") } v as u8 }
#[no_mangle] pub extern "C-unwind" fn sym_bool() -> bool { next(b'c') == 1 }
#[no_mangle] pub extern "C-unwind" fn sym_pick(n: u64) -> u64 { let v = next(b'p'); if v >= n { stop("range") } v }
#[no_mangle] pub extern "C-unwind" fn sym_assume(c: bool) { if !c { stop("assume") } }
#[no_mangle] pub extern "C-unwind" fn sym_assert(c: bool, _line: u64, label: *const u8, len: usize) {
    if !c {
        let l = unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(label, len)).to_string() };
        S.with(|s| s.borrow_mut().failed.push(l));
    }
}
#[no_mangle] pub extern "C-unwind" fn sym_goal(id: u64) { S.with(|s| s.borrow_mut().goals.push(id)) }
#[no_mangle] pub extern "C-unwind" fn sym_expect(_n: u64) {}
#[no_mangle] pub extern "C-unwind" fn sym_obs(v: u64) { S.with(|s| s.borrow_mut().obs.push(v)) }
#[no_mangle] pub extern "C-unwind" fn sym_tier() -> u32 { S.with(|s| s.borrow().tier) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").map(|t| (t == "thorough") as u32).unwrap_or(0);
    let f = hx::find(&a[1]).expect("unknown harness");
    let text = std::fs::read_to_string(&a[2]).expect("input file");
    let out = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    if std::env::var("SHOW").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    for line in text.lines() {
        let line = line.to_string();
        let out = out.clone();
        // a thread with a stack like the main one
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let inputs = line.split_whitespace().map(|w| (w.as_bytes()[0], u64::from_str_radix(&w[1..], 16).unwrap())).collect();
            S.with(|s| *s.borrow_mut() = R { inputs, tier, ..R::default() });
            let r = std::panic::catch_unwind(|| f());
            let end = match r {
                Ok(()) => "ok".to_string(),
                Err(e) => if let Some(s) = e.downcast_ref::<Stop>() { s.0.to_string() }
                    else if let Some(s) = e.downcast_ref::<&str>() { format!("panic {}", s) }
                    else if let Some(s) = e.downcast_ref::<String>() { format!("panic {}", s) }
                    else { "panic".to_string() },
            };
            S.with(|s| {
                let s = s.borrow();
                let mut goals = s.goals.clone();
                goals.sort();
                goals.dedup();
                let l = format!("end\t{}\tfailed\t{}\tobs\t{}\tgoals\t{}\n", end.replace(|c: char| c == '\n' || c == '\t', " "), s.failed.join(" ;; ").replace('\t', " ").replace('\n', " "),
                    s.obs.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "), goals.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                out.lock().unwrap().push_str(&l);
            });
        }).unwrap();
        let _ = h.join();
    }
    let _ = std::io::stdout().write_all(out.lock().unwrap().as_bytes());
}
