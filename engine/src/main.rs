mod exec;
mod expr;
mod ir;
mod selftest;
mod solver;

use std::io::Write;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jinputs(v: &[(String, u16, u128)]) -> String {
    let a: Vec<String> = v.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", js(n), w, k)).collect();
    format!("[{}]", a.join(","))
}

#[derive(Clone)]
struct Job {
    id: String,
    entry: String,
    params: Vec<u64>,
    opts: std::collections::HashMap<String, String>,
}

fn run_job(m: &ir::Module, j: &Job, outdir: &str) {
    let g = |k: &str, d: f64| j.opts.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let cfg = exec::Config {
        params: j.params.clone(),
        max_alloc: g("max_alloc", 1048576.0) as u64,
        quiet: g("quiet", 0.0) != 0.0,
        max_depth: g("max_depth", 400.0) as usize,
        max_steps: g("max_steps", 4e7) as u64,
        max_paths: g("max_paths", 1e7) as u64,
        max_seconds: g("seconds", 300.0),
        solver_ms: g("solver_ms", 60000.0) as u32,
        max_viol: g("max_viol", 6.0) as usize,
        samples: g("samples", 3.0) as usize,
        seed: g("seed", 1.0) as u64,
        max_enum: g("max_enum", 300.0) as usize,
        fork_shifts: g("fork_shifts", 1.0) != 0.0,
        merge: g("merge", std::env::var("SYMEX_MERGE").ok().and_then(|v| v.parse().ok()).unwrap_or(64.0)) as u16,
        // SYMEX_STOP: seconds to go on for after the first violation of any job
        stop: std::env::var("SYMEX_STOP").ok().and_then(|v| v.parse().ok()).map(|secs| (std::path::Path::new(outdir).join("violated"), secs)),
    };
    let t = std::time::Instant::now();
    let sym = match m.sym_ix.get(&j.entry) {
        Some(s) => *s,
        None => {
            let _ = std::fs::write(format!("{}/{}.json", outdir, j.id), format!("{{\"id\":{},\"error\":\"no such entry\"}}", js(&j.id)));
            return;
        }
    };
    let mut x = exec::Exec::new(m, cfg);
    x.run(sym);
    let st = &x.st;
    let mut o = String::from("{");
    o += &format!("\"id\":{},\"entry\":{},\"params\":{:?},", js(&j.id), js(&j.entry), j.params);
    o += &format!(
        "\"paths\":{},\"paths_done\":{},\"paths_assume\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"checks\":{},\"exhausted\":{},\"viol_total\":{},\"max_pc\":{},\"input_bits\":{},",
        st.paths, st.paths_done, st.paths_assume, st.forks, st.merges, st.steps, st.checks, st.exhausted, st.viol_total, st.max_pc, st.max_inputs_bits
    );
    o += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"nodes\":{},\"wall_s\":{:.3},",
        x.sv.queries,
        x.sv.sat,
        x.sv.unsat,
        x.sv.unknown,
        x.sv.cache_hits,
        x.sv.solver_s,
        x.sv.slowest_s,
        expr::ar().n.len(),
        t.elapsed().as_secs_f64()
    );
    let r: Vec<String> = st.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o += &format!("\"reach\":{{{}}},", r.join(","));
    let r: Vec<String> = st.checks_by.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o += &format!("\"checks_by\":{{{}}},", r.join(","));
    let r: Vec<String> = st.inconclusive.iter().map(|x| js(x)).collect();
    o += &format!("\"inconclusive\":[{}],", r.join(","));
    let r: Vec<String> = st
        .viol
        .iter()
        .map(|v| {
            let s: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
            format!("{{\"kind\":{},\"name\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.name), s.join(","), jinputs(&v.inputs))
        })
        .collect();
    o += &format!("\"violations\":[{}],", r.join(","));
    let r: Vec<String> = st
        .samples
        .iter()
        .map(|v| {
            let b: Vec<String> = v.obs.iter().map(|(n, k)| format!("[{},\"{}\"]", js(n), k)).collect();
            format!("{{\"inputs\":{},\"obs\":[{}]}}", jinputs(&v.inputs), b.join(","))
        })
        .collect();
    o += &format!("\"samples\":[{}],", r.join(","));
    let cov = x.covered_functions("/repo/");
    let r: Vec<String> = cov.iter().map(|(k, v)| format!("{}:{:?}", js(k), v.iter().collect::<Vec<_>>())).collect();
    o += &format!("\"functions\":{{{}}},", r.join(","));
    o += &format!("\"ir_functions\":{}", x.called.len());
    o += "}";
    let _ = std::fs::write(format!("{}/{}.json", outdir, j.id), o);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "selftest" {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(|| selftest::run(std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1)))
            .unwrap()
            .join()
            .unwrap();
        return;
    }
    // symex IR JOBS OUTDIR NPROC
    let src = std::fs::read_to_string(&a[1]).expect("ir");
    let jobs: Vec<Job> = std::fs::read_to_string(&a[2])
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Job {
                id: f[0].into(),
                entry: f[1].into(),
                params: f.get(2).map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
                opts: f
                    .get(3)
                    .map(|p| p.split(',').filter_map(|kv| kv.split_once('=')).map(|(k, v)| (k.to_string(), v.to_string())).collect())
                    .unwrap_or_default(),
            }
        })
        .collect();
    let outdir = a[3].clone();
    let np: usize = a[4].parse().unwrap();
    let t = std::time::Instant::now();
    let m = ir::parse(&src);
    drop(src);
    eprintln!("parsed {} functions, {} globals in {:.2}s", m.funcs.iter().filter(|f| f.is_some()).count(), m.globals.len(), t.elapsed().as_secs_f64());
    let mut running = 0usize;
    let mut bad = 0;
    let mut it = jobs.into_iter();
    // SYMEX_DEADLINE: seconds for all jobs together
    let all: f64 = std::env::var("SYMEX_DEADLINE").ok().and_then(|v| v.parse().ok()).unwrap_or(f64::INFINITY);
    loop {
        let next = if running < np { it.next() } else { None };
        match next {
            Some(mut j) => unsafe {
                let left = (all - t.elapsed().as_secs_f64()).max(3.0);
                let own = j.opts.get("seconds").and_then(|v| v.parse().ok()).unwrap_or(f64::INFINITY);
                if left < own {
                    j.opts.insert("seconds".into(), format!("{:.1}", left));
                }
                std::io::stdout().flush().ok();
                let p = fork();
                if p == 0 {
                    let mp = &m as *const ir::Module as usize;
                    let od = outdir.clone();
                    let h = std::thread::Builder::new()
                        .stack_size(2 << 30)
                        .spawn(move || {
                            let m = &*(mp as *const ir::Module);
                            run_job(m, &j, &od);
                        })
                        .unwrap();
                    let r = h.join();
                    _exit(if r.is_ok() { 0 } else { 3 });
                }
                if p < 0 {
                    panic!("fork failed");
                }
                running += 1;
            },
            None => {
                if running == 0 {
                    break;
                }
                let mut st = 0i32;
                unsafe { waitpid(-1, &mut st, 0) };
                running -= 1;
                if st != 0 {
                    bad += 1;
                }
            }
        }
    }
    if bad > 0 {
        eprintln!("{} jobs ended abnormally", bad);
        std::process::exit(3);
    }
}
