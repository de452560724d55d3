mod expr; mod ir; mod mem; mod smt; mod exec;
use exec::*;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut file, mut entry) = (String::new(), String::new());
    let mut params = vec![]; let mut threads = 8; let mut time = 600.0; let mut first_ms = 3000; let mut timeout_ms = 60000; let mut max_viol = 5; let mut max_steps = 200_000_000u64; let mut trace = false; let mut abs = false; let mut concrete = 0u64; let mut ints = false; let mut big = 0u64; let mut fpfacts = false; let mut tables = false; let mut out = None; let mut dump = None; let mut profile = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "-p" => params = args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "-j" => threads = args.next().unwrap().parse().unwrap(),
            "-t" => time = args.next().unwrap().parse().unwrap(),
            "--first-ms" => first_ms = args.next().unwrap().parse().unwrap(),
            "--timeout-ms" => timeout_ms = args.next().unwrap().parse().unwrap(),
            "--max-viol" => max_viol = args.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = args.next().unwrap().parse().unwrap(),
            "--abs" => abs = true,
            "--tables" => tables = true,
            "--fp" => { abs = true; fpfacts = true }
            "--concrete" => concrete = args.next().unwrap().parse().unwrap(),
            "--ints" => ints = true,
            "--big" => big = args.next().unwrap().parse().unwrap(),
            "--trace" => trace = true,
            "--profile" => profile = true,
            "--dump" => dump = args.next(),
            "-o" => out = args.next(),
            _ => if file.is_empty() { file = a } else { entry = a },
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&file).expect("read IR");
    let m = ir::parse(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let e = match m.fn_by_name.get(&entry) { Some(e) => *e, None => { eprintln!("no function {}", entry); std::process::exit(2) } };
    let globals = Arc::new(m.globals.iter().map(|g| (g.init.clone().unwrap_or_default(), g.constant)).collect::<Vec<_>>());
    let m = Arc::new(m);
    let o = Arc::new(Opts { entry: e, params: params.clone(), threads, time: time + parse_s, first_ms, timeout_ms, max_viol, max_steps, trace, dump, profile, mem_mb: 0, abs, ints, big, fpfacts, tables });
    let sh = Arc::new(Shared { queue: Mutex::new(if concrete > 0 { (0..concrete).map(|s| vec![(u64::MAX, Dec::O(s))]).collect() } else { vec![vec![]] }), cv: Condvar::new(), idle: 0.into(), stop: false.into(), nviol: 0.into(), stats: Mutex::new(Stats::default()), timed_out: false.into(), qlen: 1.into() });
    let hs: Vec<_> = (0..threads).map(|_| {
        let (m, g, o, sh) = (m.clone(), globals.clone(), o.clone(), sh.clone());
        std::thread::Builder::new().stack_size(1 << 30).spawn(move || Worker::new(m, g, o, sh, t0).work()).unwrap()
    }).collect();
    let mut crashed = false;
    for h in hs { if h.join().is_err() { crashed = true; } }
    let s = sh.stats.lock().unwrap();
    let to = sh.timed_out.load(Ordering::SeqCst);
    let status = if crashed { "crash" } else if !s.viol.is_empty() { "violation" } else if !s.errors.is_empty() { "error" } else if to { "timeout" } else { "ok" };
    let mut j = String::from("{");
    j += &format!("\"status\":{},\"entry\":{},\"params\":{:?},\"paths\":{},\"killed\":{},\"forks\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"fallback\":{},\"cache_hits\":{},\"asserts\":{},\"nodes\":{},\"max_trail\":{},\"parse_s\":{:.3},\"wall_s\":{:.3}",
        js(status), js(&entry), params, s.paths, s.killed, s.forks, s.instrs, s.queries, s.sat, s.unsat, s.stime, s.max_q, s.fallback, s.cache_hits, s.asserts, s.nodes, s.max_trail, parse_s, t0.elapsed().as_secs_f64());
    j += ",\"checks\":{"; j += &s.checks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","); j += "}";
    j += ",\"reach\":{"; j += &s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","); j += "}";
    j += ",\"errors\":["; j += &s.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","); j += "]";
    j += ",\"functions\":["; j += &s.fns.iter().map(|f| js(&m.funcs[*f as usize].name)).collect::<Vec<_>>().join(","); j += "]";
    j += ",\"violations\":["; j += &s.viol.iter().map(|v| format!("{{\"kind\":{},\"model\":[{}]}}", js(&v.kind), v.model.iter().map(|(i, w, x)| format!("[{},{},{}]", i, w, x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","); j += "]";
    j += ",\"witnesses\":["; j += &s.wit.iter().map(|(v, o)| format!("{{\"model\":[{}],\"obs\":{:?}}}", v.iter().map(|(i, w, x)| format!("[{},{},{}]", i, w, x)).collect::<Vec<_>>().join(","), o)).collect::<Vec<_>>().join(","); j += "]";
    j += "}";
    if profile { let mut v: Vec<_> = s.fork_sites.iter().collect(); v.sort_by_key(|x| -(*x.1 as i64)); for ((f, b, i), n) in v.iter().take(25) { eprintln!("{:8} {} {} {}", n, m.funcs[*f as usize].name, m.funcs[*f as usize].blocks[*b as usize].name, i); } }
    match out { Some(p) => std::fs::write(p, &j).unwrap(), None => println!("{}", j) }
    std::process::exit(match status { "ok" => 0, "violation" => 1, _ => 3 });
}
