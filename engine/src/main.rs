mod dl; mod exec; mod expr; mod ir; mod mem; mod z3;
use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut bc = String::new(); let mut entry = String::new(); let mut llvm = String::new(); let mut z3p = String::new(); let mut out = String::new();
    let mut params = vec![]; let mut time = 600u64; let mut steps = 300_000_000u64; let mut profile = false; let mut seed = 1u64; let mut ns = 32usize; let mut qt = 120_000u32; let mut keep = false; let mut serve = false; let mut maxp = u64::MAX;
    let mut i = 1;
    while i < args.len() {
        let key = args[i].clone(); let mut nx = || { i += 1; args[i].clone() };
        match key.as_str() { "--bc" => bc = nx(), "--entry" => entry = nx(), "--llvm" => llvm = nx(), "--z3" => z3p = nx(), "--out" => out = nx(), "--params" => params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(), "--time" => time = nx().parse().unwrap(), "--steps" => steps = nx().parse().unwrap(), "--profile" => profile = true, "--seed" => seed = nx().parse().unwrap(), "--samples" => ns = nx().parse().unwrap(), "--query-ms" => qt = nx().parse().unwrap(), "--serve" => serve = true, "--keep-going" => keep = true, "--max-paths" => maxp = nx().parse().unwrap(), a => { eprintln!("bad argument {}", a); return 64; } }
        i += 1;
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&llvm, &bc) { Ok(m) => m, Err(e) => { eprintln!("{}", e); return 65; } };
    let z = match z3::Z3::open(&z3p, qt) { Ok(z) => z, Err(e) => { eprintln!("{}", e); return 66; } };
    let mut ex = exec::Exec::new(m, z);
    ex.max_steps = steps; ex.profile = profile; ex.nsamples = ns; ex.keep_going = keep; ex.max_paths = maxp; ex.set_seed(seed);
    if !serve { return one(&mut ex, t0, time, &entry, params, &out); }
    // one forked child per case: the module is loaded once
    let mut line = String::new();
    loop {
        line.clear();
        if std::io::stdin().read_line(&mut line).unwrap_or(0) == 0 { return 0; }
        let w: Vec<&str> = line.trim_end().split('\t').collect();
        if w.len() != 6 { return 64; }
        let t0 = Instant::now();
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0); }
            ex.max_steps = w[3].parse().unwrap(); ex.nsamples = w[4].parse().unwrap();
            let c = one(&mut ex, t0, w[2].parse().unwrap(), w[0], w[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(), w[5]);
            unsafe { _exit(c) }
        }
        let mut st = 0i32;
        if pid < 0 || unsafe { waitpid(pid, &mut st, 0) } < 0 { return 68; }
        println!("{}", if st & 127 == 0 { st >> 8 & 255 } else { 128 + (st & 127) });
        use std::io::Write; let _ = std::io::stdout().flush();
    }
}
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

fn one(ex: &mut exec::Exec, t0: Instant, time: u64, entry: &str, params: Vec<u64>, out: &str) -> i32 {
    ex.params = params.clone(); ex.deadline = t0 + Duration::from_secs(time);
    let zv = ex.z.version.clone();
    if let Err(e) = ex.start(entry) { eprintln!("{}", e); return 67; }
    let tl = t0.elapsed().as_secs_f64();
    let r = ex.explore();
    let mut o = String::new();
    let s = &ex.st;
    let _ = write!(o, "{{\"entry\":{},\"params\":{:?},\"status\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"cache_hits\":{},\"domain_decided\":{},\"domain_confirmed\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"asserts\":{},\"asserts_trivial\":{},\"concretisations\":{},\"max_depth\":{},\"exprs\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":{},", js(entry), params,
        js(&match &r { Ok(()) if ex.viol.is_empty() => "holds".to_string(), Ok(()) => "violated".to_string(), Err(e) => format!("inconclusive: {}", e) }), s.paths, s.infeasible, s.forks, s.steps, s.queries, s.cache_hits, s.quick, s.confirmed, s.sat, s.unsat, s.solver_s, s.max_query_s, s.asserts, s.asserts_trivial, s.conc, s.max_depth, ex.cx.n.len(), tl, t0.elapsed().as_secs_f64(), js(&zv));
    let _ = write!(o, "\"covers\":{{{}}},", ex.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"assert_ids\":{{{}}},", ex.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = ex.fns.keys().map(|f| ex.m.funcs[*f as usize].name.to_string()).collect(); fns.sort();
    let _ = write!(o, "\"functions\":[{}],", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}],", ex.viol.iter().map(|v| format!("{{\"kind\":{},\"trace\":[{}],\"model\":\"{}\"}}", js(&v.kind), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(","), hex(&v.model))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}]}}\n", ex.samples.iter().map(|(m, ob)| format!("{{\"input\":\"{}\",\"observed\":{:?}}}", hex(m), ob)).collect::<Vec<_>>().join(","));
    if out.is_empty() { print!("{}", o); } else { std::fs::write(out, o).unwrap(); }
    if ex.profile {
        let mut v: Vec<_> = ex.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) { eprintln!("{:8} {}", n, k); }
    }
    match r { Ok(()) => if ex.viol.is_empty() { 0 } else { 1 }, Err(e) => { eprintln!("inconclusive: {}", e); 2 } }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(99);
    use std::io::Write; let _ = std::io::stdout().flush();
    // skip destructors
    unsafe { _exit(c) }
}
