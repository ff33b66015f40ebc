//! irsym: symbolic execution of harness functions on LLVM IR with Z3.

mod exec;
mod expr;
mod ir;
mod mem;
mod selftest;
mod z3;

use exec::*;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o
}

fn inputs(v: &[(u8, u64)]) -> String {
    let mut o = String::from("[");
    for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{}{:x}\"", *k as char, x); }
    o.push(']');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let ll = get("--ir", "");
    let harness = get("--harness", "");
    let out = get("--out", "-");
    let opts = Opts {
        tier: get("--tier", "0").parse().unwrap(),
        seed: get("--seed", "1").parse().unwrap(),
        time_s: get("--time", "60").parse().unwrap(),
        max_steps: get("--max-steps", "2000000000").parse().unwrap(),
        max_paths: get("--max-paths", "1000000").parse().unwrap(),
        max_viol: get("--max-viol", "1").parse().unwrap(),
        mode: get("--mode", "0").parse().unwrap(),
        samples: get("--samples", "3").parse().unwrap(),
        trace: a.iter().any(|x| x == "--trace"),
        shard: (0, 1),
    };
    if a.iter().any(|x| x == "--selftest") {
        let (seed, rounds) = (get("--selftest", "1").parse().unwrap(), get("--rounds", "1000").parse().unwrap());
        let query = !a.iter().any(|x| x == "--no-queries");
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || selftest::run(seed, rounds, query)).unwrap();
        h.join().unwrap();
        return;
    }
    let timeout_ms: u32 = get("--query-ms", "20000").parse().unwrap();
    let dump = get("--dump", "");
    let dump_every: u64 = get("--dump-every", "0").parse().unwrap();
    let cross_every: u64 = get("--cross-every", "0").parse().unwrap();
    // deep recursion in expression walks
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let t0 = std::time::Instant::now();
        let m = ir::Module::load(&ll);
        let fid = match m.func_by_name.get(&harness) { Some(f) => *f, None => { eprintln!("no harness {}", harness); std::process::exit(3); } };
        let load = t0.elapsed().as_secs_f64();
        let mut e = Engine::new(m, opts, timeout_ms);
        e.z.dump_every = dump_every;
        e.z.cross_every = cross_every;
        e.run(fid);
        let mut o = String::new();
        let names: Vec<String> = e.executed.iter().map(|f| e.m.funcs[*f as usize].name.clone()).collect();
        let repo: Vec<String> = {
            let mut v: Vec<String> = names.iter().filter(|n| n.contains("15kicad_parse_gen")).map(|n| short_name(n)).filter(|n| n.starts_with("kicad_parse_gen")).collect();
            v.sort();
            v.dedup();
            v
        };
        let _ = write!(o, "{{\"harness\":\"{}\",\"paths\":{},\"infeasible\":{},\"forks\":{},\"merged\":{},\"steps\":{},\"sym_branches\":{}", harness, e.paths, e.infeasible, e.forks, e.merged, e.steps, e.sym_branches);
        let _ = write!(o, ",\"queries\":{},\"int_queries\":{},\"crossed\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"domain_decided\":{},\"solver_s\":{:.4},\"solver_max_s\":{:.4},\"solver\":\"{}\"", e.z.queries, e.z.int_queries, e.z.crossed, e.z.sat, e.z.unsat, e.qhits, e.dom_decided, e.z.time, e.z.max_time, esc(&z3::version()));
        let _ = write!(o, ",\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"assert_ids\":{}", e.asserts, e.asserts_trivial, e.asserts_solver, e.assert_ids.len());
        let _ = write!(o, ",\"expect\":{},\"goals\":[{}]", e.expect, e.goals.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"functions\":{},\"repo_functions\":[{}]", names.len(), repo.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"exprs\":{},\"vars\":{},\"max_cons\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"pending\":{}", e.p.nodes.len(), e.p.vars.len(), e.max_cons, load, t0.elapsed().as_secs_f64(), e.work.len());
        let _ = write!(o, ",\"inconclusive\":[{}]", e.inconclusive.keys().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"token_broken\":[{}]", e.token_broken.keys().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"violations\":[{}]", e.violations.iter().map(|v| format!("{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"inputs\":{},\"stack\":[{}]}}", esc(&v.kind), v.id, esc(&v.msg), inputs(&v.inputs), v.stack.iter().take(12).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"samples\":[{}]}}", e.samples.iter().map(|s| format!("{{\"inputs\":{},\"obs\":[{}],\"goals\":[{}]}}", inputs(&s.inputs), s.obs.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","), s.goals.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        if !dump.is_empty() {
            let _ = std::fs::create_dir_all(&dump);
            for (i, (t, sat)) in e.z.dumps.iter().enumerate() {
                let _ = std::fs::write(format!("{}/{}-{}.smt2", dump, harness, i), format!("; expected {}\n{}\n(check-sat)\n", if *sat { "sat" } else { "unsat" }, t));
            }
        }
        if out == "-" { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
        std::process::exit(0);
    }).unwrap();
    if h.join().is_err() { std::process::exit(4); }
}
