mod exec;
mod expr;
mod fs;
mod ir;
mod mem;
mod solver;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn jin(v: &[(String, Vec<u8>)]) -> String { format!("[{}]", v.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(",")) }
fn jobs(v: &[(u32, Vec<u8>)]) -> String { format!("[{}]", v.iter().map(|(n, b)| format!("[{},{}]", n, js(&hex(b)))).collect::<Vec<_>>().join(",")) }

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut entry = String::new(); let mut out = String::new(); let mut params = vec![];
    let mut lim = exec::Limits { max_steps: 200_000_000, max_time: 600.0, max_paths: 10_000_000, max_depth: 2000, samples: 8, max_rss: 3_300 << 20 };
    let mut timeout = 90000; let mut trace = false; let mut dump = None; let mut profile = false;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v, "--entry" => entry = v, "--out" => out = v,
            "--param" => params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--time" => lim.max_time = v.parse().unwrap(), "--steps" => lim.max_steps = v.parse().unwrap(), "--paths" => lim.max_paths = v.parse().unwrap(), "--depth" => lim.max_depth = v.parse().unwrap(), "--samples" => lim.samples = v.parse().unwrap(),
            "--solver-ms" => timeout = v.parse().unwrap(), "--dump" => dump = Some(v),
            "--trace" => { trace = true; i += 1; continue; } "--profile" => { profile = true; i += 1; continue; }
            a => panic!("arg {a}"),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let mut ex = exec::Exec::new(m, lim, params, timeout);
    ex.trace = trace; ex.sv.dump_dir = dump;
    if profile { ex.profile = Some(Default::default()); }
    if let Err(e) = ex.initial(&entry) { eprintln!("{e}"); std::process::exit(2); }
    let load = t0.elapsed().as_secs_f64();
    ex.run();
    if let Some(p) = &ex.profile {
        let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(40) { eprintln!("{n:8} {} block {b}", exec::demangle(&ex.m.fnames[*f as usize])); }
    }
    let s = &ex.sv.stats;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"entry\":{}, \"load_s\":{:.3}, \"wall_s\":{:.3},", js(&entry), load, t0.elapsed().as_secs_f64());
    let _ = writeln!(o, " \"paths\":{}, \"paths_ok\":{}, \"paths_panic\":{}, \"paths_cut\":{}, \"forks\":{}, \"steps\":{}, \"asserts\":{}, \"assert_queries\":{}, \"vars\":{}, \"exprs\":{},", ex.paths_total, ex.paths_ok, ex.paths_panic, ex.paths_cut, ex.forks, ex.steps, ex.asserts, ex.assert_queries, ex.cx.nvars, ex.cx.nodes.len());
    let _ = writeln!(o, " \"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"cex_hits\":{},\"domain_decided\":{},\"range_decided\":{},\"syntactic\":{},\"time_s\":{:.3},\"max_s\":{:.3}}},", s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.cex_hits, ex.decided_dom, ex.decided_range, s.syntactic, s.time, s.slow_max);
    let _ = writeln!(o, " \"reached\":{{{}}},", ex.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"assert_ids\":{{{}}},", ex.assert_ids.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"errors\":{{{}}},", ex.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"functions\":[{}],", ex.visited.iter().map(|&f| js(&exec::demangle(&ex.m.fnames[f as usize]))).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"violation_counts\":{{{}}},", ex.vio_keys.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"violations\":[{}],", ex.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{},\"observe\":{}}}", js(&v.kind), js(&v.msg), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), jin(&v.inputs), jobs(&v.observe))).collect::<Vec<_>>().join(",\n  "));
    let _ = writeln!(o, " \"samples\":[{}]\n}}", ex.samples.iter().map(|(a, b)| format!("{{\"inputs\":{},\"observe\":{}}}", jin(a), jobs(b))).collect::<Vec<_>>().join(",\n  "));
    if out.is_empty() { println!("{o}"); } else { std::fs::write(&out, o).unwrap(); }
    // skip destructors
    std::process::exit(0);
}
fn main() { std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap(); }
