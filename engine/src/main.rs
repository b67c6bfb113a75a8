mod exec;
mod expr;
mod ir;
mod solver;

use std::fmt::Write as _;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // symex <ir.ll> <jobs file> <out.json> threads=.. solver_ms=.. findings=.. steps=.. samples=..
    // jobs file: one per line: name harness seconds p0 p1 ...
    let a: Vec<String> = std::env::args().collect();
    let mut threads = 8usize;
    let mut solver_ms = 20_000u32;
    let mut findings = 1usize;
    let mut steps = 60_000_000u64;
    let mut samples = 24usize;
    let mut verbose = false;
    let mut total = f64::MAX;
    let mut seed = 1u64;
    let mut audit = u64::MAX;
    for x in &a[4..] {
        let (k, v) = x.split_once('=').unwrap();
        match k {
            "threads" => threads = v.parse().unwrap(),
            "solver_ms" => solver_ms = v.parse().unwrap(),
            "findings" => findings = v.parse().unwrap(),
            "steps" => steps = v.parse().unwrap(),
            "seed" => seed = v.parse().unwrap(),
            "audit" => audit = v.parse().unwrap(),
            "samples" => samples = v.parse().unwrap(),
            "verbose" => verbose = v == "1",
            "total" => total = v.parse().unwrap(),
            _ => panic!("option {}", k),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let prog = ir::parse(&text);
    drop(text);
    let mut env = exec::prepare(prog);
    env.audit = audit;
    env.seed = seed;
    let load = t0.elapsed().as_secs_f64();
    if verbose {
        eprintln!("loaded {} functions in {:.2}s", env.prog.funcs.len(), load);
    }
    let mut out = String::new();
    let _ = write!(out, "{{\"z3\":{},\"load_s\":{:.3},\"functions\":{},\"jobs\":[", js(&solver::version()), load, env.prog.funcs.iter().filter(|f| f.defined).count());
    let jobs = std::fs::read_to_string(&a[2]).unwrap();
    let mut first = true;
    for line in jobs.lines() {
        let p: Vec<&str> = line.split_whitespace().collect();
        if p.len() < 3 {
            continue;
        }
        let job = exec::Job { name: p[0].into(), harness: p[1].into(), params: p[3..].iter().map(|x| x.parse().unwrap()).collect() };
        let secs: f64 = p[2].parse().unwrap();
        let secs = secs.min((total - t0.elapsed().as_secs_f64()).max(1.0));
        let (sh, wall) = exec::run_job(&env, &job, threads, secs, solver_ms, findings, steps, samples);
        let s = sh.stats.lock().unwrap().clone();
        if !first {
            out.push(',');
        }
        first = false;
        let _ = write!(
            out,
            "{{\"name\":{},\"harness\":{},\"params\":{:?},\"wall_s\":{:.3},\"paths\":{},\"completed\":{},\"assumed_away\":{},\"instructions\":{},\"forks\":{},\"decisions\":{},\"fast_decisions\":{},\"audited\":{},\"asserts\":{},\"symbolic_asserts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"query_cache_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"covers\":{},\"mass\":{},\"inexact_paths\":{},\"max_path_instructions\":{},\"inputs\":{},\"restarts\":{}",
            js(&job.name), js(&job.harness), job.params, wall, s.paths, s.done, s.assumed, s.steps, s.forks, s.decisions, s.fast_decisions, s.audited, s.asserts, s.sym_asserts, s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.solver_secs, s.solver_max, s.covers, s.mass, s.inexact_paths, s.max_steps, s.max_vars, s.restarts
        );
        let _ = write!(out, ",\"cut_short\":{}", sh.cut.load(std::sync::atomic::Ordering::SeqCst));
        let fl = |v: &Vec<exec::Finding>| -> String {
            let mut o = String::from("[");
            for (i, f) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "{{\"kind\":{},\"inputs\":{:?},\"stack\":[{}]}}", js(&f.kind), f.inputs, f.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            }
            o.push(']');
            o
        };
        let _ = write!(out, ",\"findings\":{},\"hangs\":{}", fl(&sh.findings.lock().unwrap()), fl(&sh.hangs.lock().unwrap()));
        let _ = write!(out, ",\"errors\":[{}]", sh.errors.lock().unwrap().iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let sm = sh.samples.lock().unwrap();
        let _ = write!(
            out,
            ",\"samples\":[{}]",
            sm.iter().map(|x| format!("{{\"inputs\":{:?},\"digest\":{},\"covers\":{},\"asserts\":{}}}", x.inputs, js(&x.digest.to_string()), js(&x.covers.to_string()), x.asserts)).collect::<Vec<_>>().join(",")
        );
        let fe = sh.fexec.lock().unwrap();
        let mut fns: Vec<String> = vec![];
        for (i, n) in fe.iter().enumerate() {
            if *n > 0 {
                fns.push(env.prog.funcs[i].name.clone());
            }
        }
        let _ = write!(out, ",\"executed\":[{}]}}", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        if verbose {
            eprintln!(
                "{} {} {:?}: {:.1}s paths={} done={} assumed={} forks={} Minst={:.1} dec={} fast={} z3={} (sat {} unsat {}) solver={:.1}s hits={} asserts={} covers={:b} mass={} inexact={} cut={} findings={} errors={:?}",
                job.name, job.harness, job.params, wall, s.paths, s.done, s.assumed, s.forks, s.steps as f64 / 1e6, s.decisions, s.fast_decisions, s.queries, s.sat, s.unsat, s.solver_secs, s.cache_hits, s.asserts, s.covers, s.mass, s.inexact_paths, sh.cut.load(std::sync::atomic::Ordering::SeqCst),
                sh.findings.lock().unwrap().len(), sh.errors.lock().unwrap()
            );
            for f in sh.findings.lock().unwrap().iter() {
                eprintln!("   FINDING {} inputs={:?}\n      {}", f.kind, f.inputs, f.stack.join("\n      "));
            }
            for f in sh.hangs.lock().unwrap().iter() {
                eprintln!("   HANG {} inputs={:?}\n      {}", f.kind, f.inputs, f.stack.iter().take(12).cloned().collect::<Vec<_>>().join("\n      "));
            }
            let mut fs: Vec<_> = sh.fork_sites.lock().unwrap().iter().map(|(k, v)| (*v, *k)).collect();
            fs.sort();
            for (n, (f, pc)) in fs.iter().rev().take(12) {
                eprintln!("     fork {:7} {} @{}", n, env.prog.funcs[*f as usize].name, pc);
            }
        }
    }
    out.push_str("]}");
    std::fs::write(&a[3], out).unwrap();
}
