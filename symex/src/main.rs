mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap() } c => o.push(c) }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u128, u8)]) -> String { format!("[{}]", v.iter().map(|(x, k)| format!("[{},{}]", x, k)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let (mut entry, mut out) = (String::new(), String::new());
    let mut lim = exec::Limits { time: 600.0, paths: 10_000_000, steps: 20_000_000, samples: 20, preempt: 3, mem_mb: 12000, stop_at_first: false };
    let mut qt = 60_000u32;
    let mut i = 1;
    while i < a.len() {
        let nx = || a[i + 1].clone();
        match a[i].as_str() {
            "--entry" => { entry = nx(); i += 1; }
            "--json" => { out = nx(); i += 1; }
            "--max-time" => { lim.time = nx().parse().unwrap(); i += 1; }
            "--max-paths" => { lim.paths = nx().parse().unwrap(); i += 1; }
            "--max-steps" => { lim.steps = nx().parse().unwrap(); i += 1; }
            "--max-mem" => { lim.mem_mb = nx().parse().unwrap(); i += 1; }
            "--samples" => { lim.samples = nx().parse().unwrap(); i += 1; }
            "--preempt" => { lim.preempt = nx().parse().unwrap(); i += 1; }
            "--query-timeout" => { qt = nx().parse().unwrap(); i += 1; }
            "--stop-at-first" => lim.stop_at_first = true,
            f => file = f.to_string(),
        }
        i += 1;
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let m = ir::Module::load(&file);
        let load = exec::rss_mb();
        let mut en = exec::Engine::new(m, solver::Solver::new(qt), lim);
        if let Err(e) = en.start(&entry) { eprintln!("symex: {}", e); std::process::exit(3); }
        let _ = load;
        en.run();
        let status = if !en.violations.is_empty() { "violated" } else if !en.inconclusive.is_empty() { "inconclusive" } else { "verified" };
        let mut o = String::new();
        let mut fs: Vec<&str> = en.funcs.iter().map(|f| en.m.funcs[*f as usize].demangled.as_str()).collect();
        fs.sort();
        write!(o, "{{\"entry\":{},\"status\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"merges\":{},\"instructions\":{},\"checks\":{},\"expected_panics\":{},\"max_depth\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"rss_mb\":{}",
            js(&entry), js(status), en.paths, en.killed, en.forks, en.merges, en.instrs, en.checks, en.expected_panics, en.max_depth, en.sv.queries, en.sv.hits, en.sv.sat, en.sv.unsat, en.sv.unknown, en.sv.time, en.sv.max_time, en.t0.elapsed().as_secs_f64(), exec::rss_mb()).unwrap();
        write!(o, ",\"inconclusive\":[{}]", en.inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, ",\"covers\":{{{}}}", en.covers.iter().map(|(k, v)| format!("{}:{}", js(k), inputs(v))).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, ",\"check_msgs\":{{{}}}", en.check_msgs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, ",\"violations\":[{}]", en.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"at\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), js(&v.at), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), inputs(&v.inputs))).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, ",\"samples\":[{}]", en.samples.iter().map(|s| format!("{{\"inputs\":{},\"observes\":[{}],\"panicked\":{}}}", inputs(&s.inputs), s.observes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), s.panicked)).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, ",\"functions\":[{}]}}", fs.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")).unwrap();
        if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
        eprintln!("{} {}: paths {} pruned {} instrs {} queries {} (hits {}) solver {:.1}s wall {:.1}s rss {}MB {:?}", entry, status, en.paths, en.killed, en.instrs, en.sv.queries, en.sv.hits, en.sv.time, en.t0.elapsed().as_secs_f64(), exec::rss_mb(), en.inconclusive);
        for v in &en.violations { eprintln!("  {} {} at {} inputs {:?}", v.kind, v.msg, v.at, v.inputs.iter().map(|x| x.0).collect::<Vec<_>>()); }
        std::process::exit(0);
    }).unwrap();
    h.join().ok();
    std::process::exit(4);
}
