mod exec;
mod expr;
mod lin;
mod ir;
mod mem;
mod solver;
mod sys;
use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn dump(e: &Engine) -> String {
    let s = &e.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"pruned\":{},\"dropped\":{},\"forks\":{},\"steps\":{},\"blocks\":{},\"asserts_conc\":{},\"asserts_sym\":{},\"max_vars\":{},\"max_pc\":{},\"max_steps\":{},\"uninit_reads\":{},\"concretised\":{},",
        s.paths, s.pruned, s.dropped, s.forks, s.steps, s.blocks, s.asserts_conc, s.asserts_sym, s.max_vars, s.max_pc, s.max_steps, s.uninit_reads, s.concretised
    );
    let _ = write!(
        o,
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"timed_out\":{},",
        e.solver.queries, e.solver.cache_hits, e.solver.sat, e.solver.unsat, e.solver.unknown, e.solver.hard, e.solver.time, e.solver.max_time, e.timed_out
    );
    let _ = write!(o, "\"reach\":{},\"errors\":{},", jmap(&s.reach), jmap(&s.errors));
    let _ = write!(o, "\"asserts_conc_by\":{},\"asserts_sym_by\":{},", jmap(&s.asserts_conc_by), jmap(&s.asserts_sym_by));
    if e.cfg.verbose {
        let _ = write!(o, "\"fork_sites\":{},\"concr_sites\":{},", jmap(&s.fork_sites), jmap(&s.concr_sites));
    }
    let f: Vec<String> = s.funcs.iter().map(|i| esc(&e.m.funcs[*i as usize].name)).collect();
    let _ = write!(o, "\"funcs\":[{}],", f.join(","));
    let d: Vec<String> = s.dbg.iter().map(|i| i.to_string()).collect();
    let _ = write!(o, "\"dbg\":[{}],", d.join(","));
    let vv = |vars: &Vec<(u8, u64, String)>| {
        let v: Vec<String> = vars.iter().map(|(w, x, l)| format!("[{},{},{}]", w, x, esc(l))).collect();
        format!("[{}]", v.join(","))
    };
    let lv = |log: &Vec<(String, u64)>| {
        let v: Vec<String> = log.iter().map(|(l, x)| format!("[{},{}]", esc(l), x)).collect();
        format!("[{}]", v.join(","))
    };
    let v: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"vars\":{},\"log\":{}}}",
                esc(&v.kind), esc(&v.msg), st.join(","), vv(&v.vars), lv(&v.log)
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> =
        e.samples.iter().map(|v| format!("{{\"vars\":{},\"log\":{}}}", vv(&v.vars), lv(&v.log))).collect();
    let _ = write!(o, "\"samples\":[{}]}}", v.join(","));
    o
}

fn append(path: &str, line: &str) {
    use std::fs::OpenOptions;
    let mut f = OpenOptions::new().create(true).append(true).open(path).unwrap();
    let mut l = line.to_string();
    l.push('\n');
    f.write_all(l.as_bytes()).unwrap();
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut workers = 1u64;
    let mut timeout = 600u64;
    let mut max_steps = 20_000_000u64;
    let mut qt = 60_000u64;
    let mut samples = 0usize;
    let mut seed = 1u64;
    let mut max_viol = 1usize;
    let mut verbose = false;
    let mut solver = vec!["z3-new".to_string(), "-in".to_string()];
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--workers" => workers = v.parse().unwrap(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--query-ms" => qt = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--max-viol" => max_viol = v.parse().unwrap(),
            "--solver" => solver = v.split(' ').map(|s| s.to_string()).collect(),
            "-v" => {
                verbose = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let m = ir::Module::load(&text);
    drop(text);
    let cfg = Cfg {
        seed,
        max_steps,
        deadline: Instant::now() + Duration::from_secs(timeout),
        workers,
        max_viol,
        samples,
        verbose,
    };
    let mut e = Engine::new(m, solver::Solver::new(solver, qt), cfg);
    e.shared[sys::TOKENS].store(workers.saturating_sub(1), Ordering::SeqCst);
    let o2 = out.clone();
    e.on_child_exit = Some(Box::new(move |e: &mut Engine| append(&o2, &dump(e))));
    let init = match e.initial(&entry) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("symex: {}", x);
            std::process::exit(2);
        }
    };
    let _ = std::fs::remove_file(&out);
    e.explore(init);
    e.solver.stop();
    append(&out, &dump(&e));
    if verbose {
        eprintln!("done in {:.2}s, paths {}", t0.elapsed().as_secs_f64(), e.shared[sys::PATHS].load(Ordering::SeqCst));
    }
    std::process::exit(0);
}
