//! symex IR.ll OUT.jsonl THREADS DEADLINE_SECS JOB... : explore `sx_main(job)` symbolically for every job.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::{Exec, Out, Prog};
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fnv(b: &[u8], mut h: u64) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: symex IR.ll OUT.jsonl THREADS DEADLINE_SECS JOB...");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("read IR");
    let prog = Prog::new(ir::parse_module(&text));
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let threads: usize = a[3].parse().unwrap();
    let deadline = t0 + Duration::from_secs_f64(a[4].parse().unwrap());
    let verbose = std::env::var("SX_VERBOSE").is_ok();
    let prof = std::env::var("SX_PROF").is_ok();
    let job_s: f64 = std::env::var("SX_JOB_S").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let max_instrs: u64 = std::env::var("SX_MAX_INSTRS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000_000);
    let mut jobs: Vec<u64> = vec![];
    for j in &a[5..] {
        if let Some((x, y)) = j.split_once("..") {
            jobs.extend(x.parse::<u64>().unwrap()..y.parse::<u64>().unwrap());
        } else {
            jobs.push(j.parse().unwrap());
        }
    }
    let entry = *prog.m.fmap.get("sx_main").expect("no sx_main in IR");
    let next = AtomicUsize::new(0);
    let out = Mutex::new((
        std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap()),
        std::io::BufWriter::new(std::fs::File::create(format!("{}.traces", a[2])).unwrap()),
    ));
    let seen = Mutex::new(vec![false; prog.m.funcs.len()]);
    let (p, jobs, next, out, seen) = (&prog, &jobs, &next, &out, &seen);
    std::thread::scope(|s| {
        for _ in 0..threads.min(jobs.len()) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut ex = Exec::new(p, deadline);
                    ex.prof = prof;
                    ex.max_instrs = max_instrs;
                    loop {
                        let k_ = next.fetch_add(1, Ordering::SeqCst);
                        if k_ >= jobs.len() {
                            return;
                        }
                        let t = Instant::now();
                        let dl = deadline.min(t + Duration::from_secs_f64(job_s));
                        ex.reset(dl);
                        ex.start(entry, &[jobs[k_]]);
                        ex.run();
                        {
                            let mut g = seen.lock().unwrap();
                            for (i, b) in ex.seen.iter().enumerate() {
                                if *b {
                                    g[i] = true;
                                }
                            }
                        }
                        if prof {
                            let mut v: Vec<_> = ex.hot.iter().collect();
                            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                            for ((f, pc), n) in v.iter().take(25) {
                                eprintln!("  {n} {} @{pc}", p.m.funcs[*f as usize].pretty);
                            }
                        }
                        let st = &ex.stats;
                        let mut o = String::new();
                        o.push_str(&format!(
                            "{{\"job\":{},\"paths\":{},\"ok\":{},\"infeasible\":{},\"unfinished\":{},\"forks\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.4},\"wall_s\":{:.3},\"terms\":{},\"covers\":{:?},",
                            jobs[k_], st.paths, st.ok, st.infeasible, st.unfinished, st.forks, st.instrs, ex.z3.queries, ex.z3.sat,
                            ex.z3.unsat, st.unknown, st.cache_hits, ex.z3.secs, t.elapsed().as_secs_f64(), ex.ar.nodes.len(),
                            ex.covers.iter().collect::<Vec<_>>()
                        ));
                        o.push_str("\"incomplete\":{");
                        o.push_str(&st.incomplete.iter().map(|(k, n)| format!("{}:{n}", esc(k))).collect::<Vec<_>>().join(","));
                        o.push_str("}}\n");
                        let mut tr = String::new();
                        for r in &ex.recs {
                            let (k, m) = match &r.out {
                                Out::Ok(_) => ("ok", String::new()),
                                Out::Fail(s) => ("fail", s.clone()),
                                Out::Panic(s) => ("panic", s.clone()),
                                Out::Ub(s) => ("ub", s.clone()),
                                Out::Budget => ("budget", String::new()),
                                Out::Depth => ("depth", String::new()),
                                Out::Incomplete(s) => ("incomplete", s.clone()),
                                Out::Infeasible => ("infeasible", String::new()),
                            };
                            let mut h = 0xcbf29ce484222325u64;
                            for n in &r.notes {
                                h = fnv(n, h);
                                h = fnv(&[0xff], h);
                            }
                            let t: Vec<String> = r.trace.iter().map(|x| x.to_string()).collect();
                            tr.push_str(&format!("{}\t{k}\t{h:016x}\t{}\t{}\n", jobs[k_], t.join(" "), m.replace(['\n', '\t'], " ")));
                            if verbose {
                                eprintln!("{} job={} i={} {k} {m} trace={:?}", r.instrs, jobs[0], r.instrs, r.trace);
                                for n in &r.notes {
                                    eprintln!("    {}", String::from_utf8_lossy(n));
                                }
                            }
                        }
                        let mut g = out.lock().unwrap();
                        g.0.write_all(o.as_bytes()).unwrap();
                        g.1.write_all(tr.as_bytes()).unwrap();
                    }
                })
                .unwrap();
        }
    });
    let mut names: Vec<&str> = vec![];
    for (i, b) in seen.lock().unwrap().iter().enumerate() {
        if *b {
            let f = &p.m.funcs[i];
            names.push(if f.pretty.is_empty() { &f.name } else { &f.pretty });
        }
    }
    names.sort();
    names.dedup();
    let mut g = out.lock().unwrap();
    let l: Vec<String> = names.iter().map(|n| esc(n)).collect();
    writeln!(
        g.0,
        "{{\"meta\":true,\"z3\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"module_functions\":{},\"functions\":[{}]}}",
        esc(&z3::version()),
        parse_s,
        t0.elapsed().as_secs_f64(),
        p.m.funcs.len(),
        l.join(",")
    )
    .unwrap();
    g.0.flush().unwrap();
    g.1.flush().unwrap();
}
