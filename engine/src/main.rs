mod classes;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod val;

use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut file = None;
    let mut entry = String::new();
    let mut params = vec![];
    let mut max_steps = 20_000_000u64;
    let mut threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut max_violations = 4;
    let mut sample_every = 1u64;
    let mut max_samples = 64;
    let mut timeout_ms = 600_000u64;
    let mut dump = None;
    let mut dump_every = 1000u64;
    let mut list_funcs = true;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--entry" => entry = v(),
            "--param" => params.push(v().parse().expect("param")),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--threads" => threads = v().parse().unwrap(),
            "--max-violations" => max_violations = v().parse().unwrap(),
            "--sample-every" => sample_every = v().parse().unwrap(),
            "--max-samples" => max_samples = v().parse().unwrap(),
            "--timeout-ms" => timeout_ms = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--dump-every" => dump_every = v().parse().unwrap(),
            "--no-funcs" => list_funcs = false,
            f => file = Some(f.to_string()),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read(file.expect("input file")).expect("read");
    let src = String::from_utf8_lossy(&src).into_owned();
    let module = match ir::load(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("load error: {e}");
            std::process::exit(3);
        }
    };
    let prog = exec::decode(module);
    let load_s = t0.elapsed().as_secs_f64();
    let ss = Arc::new(solver::Shared::new(dump, dump_every));
    let cfg = exec::Config {
        params,
        max_steps,
        max_violations,
        threads,
        sample_every,
        max_samples,
        timeout_ms,
        solver_timeout_ms: 60_000,
    };
    let sh = exec::Shared::new(prog, cfg, ss.clone());
    let t1 = Instant::now();
    if let Err(e) = exec::run(&sh, &entry) {
        eprintln!("error: {e}");
        std::process::exit(3);
    }
    let run_s = t1.elapsed().as_secs_f64();
    let r = &sh.rep;
    let s = &ss.stats;
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":\"{}\",", esc(&entry));
    let _ = write!(o, "\"z3\":\"{}\",", esc(&solver::version()));
    let _ = write!(o, "\"load_s\":{load_s:.3},\"run_s\":{run_s:.3},");
    for (n, v) in [
        ("paths_ok", &r.paths_ok),
        ("paths_infeasible_assume", &r.paths_assume),
        ("paths_expected_panic", &r.paths_panic_ok),
        ("paths_bad", &r.paths_bad),
        ("instructions", &r.steps),
        ("max_instructions_per_path", &r.max_steps),
        ("forks", &r.forks),
        ("asserts", &r.asserts),
        ("asserts_by_solver", &r.asserts_solver),
        ("max_fork_depth", &r.max_depth),
        ("queries", &s.queries),
        ("queries_sat", &s.sat),
        ("queries_unsat", &s.unsat),
        ("queries_unknown", &s.unknown),
        ("query_cache_hits", &s.cache_hits),
        ("solver_us", &s.solver_us),
        ("solver_errors", &s.errors),
        ("queries_dumped", &ss.dumped),
    ] {
        let _ = write!(o, "\"{n}\":{},", v.load(Relaxed));
    }
    let _ = write!(o, "\"timed_out\":{},", sh.timed_out.load(Relaxed));
    let reach = r.reach.lock().unwrap();
    let _ = write!(
        o,
        "\"reach\":{{{}}},",
        reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")
    );
    let inc = r.inconclusive.lock().unwrap();
    let _ = write!(
        o,
        "\"inconclusive\":{{{}}},",
        inc.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",")
    );
    let vio = r.violations.lock().unwrap();
    let _ = write!(
        o,
        "\"violations\":[{}],",
        vio.iter()
            .map(|v| format!(
                "{{\"kind\":\"{}\",\"msg\":\"{}\",\"id\":{},\"inputs\":{},\"at\":\"{}\"}}",
                esc(&v.kind),
                esc(&v.msg),
                v.id,
                nums(&v.inputs),
                esc(&v.at)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let sam = r.samples.lock().unwrap();
    let _ = write!(
        o,
        "\"samples\":[{}],",
        sam.iter()
            .map(|v| format!(
                "{{\"inputs\":{},\"notes\":{},\"outcome\":\"{}\"}}",
                nums(&v.inputs),
                nums(&v.notes),
                v.outcome
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let mut fs: Vec<String> = vec![];
    if list_funcs {
        for f in r.funcs.lock().unwrap().iter() {
            fs.push(format!("\"{}\"", esc(&sh.prog.funcs[*f as usize].name)));
        }
        fs.sort();
    }
    let _ = write!(o, "\"functions\":[{}]}}", fs.join(","));
    println!("{o}");
}
