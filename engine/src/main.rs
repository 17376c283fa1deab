mod exec;
mod ir;
mod mem;
mod smt;
mod term;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmodel(m: &[(String, u128)]) -> String {
    let v: Vec<String> = m.iter().map(|(n, x)| format!("[{}, \"{}\"]", js(n), x)).collect();
    format!("[{}]", v.join(", "))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ll = args[1].clone();
    let entry = args[2].clone();
    let mut cfg = exec::Cfg {
        entry,
        prop: String::new(),
        params: Default::default(),
        feas_ms: 150,
        decide_s: 20,
        max_paths: 20000,
        verbose: false,
        stop_first: false,
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
    };
    let mut out = None;
    let mut dump = None;
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--prop" => cfg.prop = v,
            "--param" => {
                let (a, b) = v.split_once('=').unwrap();
                cfg.params.insert(a.to_string(), b.parse().unwrap());
            }
            "--feas-ms" => cfg.feas_ms = v.parse().unwrap(),
            "--decide-s" => cfg.decide_s = v.parse().unwrap(),
            "--max-paths" => cfg.max_paths = v.parse().unwrap(),
            "--time" => cfg.deadline = std::time::Instant::now() + std::time::Duration::from_secs(v.parse().unwrap()),
            "--out" => out = Some(v),
            "--dump" => dump = Some(v),
            "-v" => {
                cfg.verbose = true;
                i += 1;
                continue;
            }
            "--stop-first" => {
                cfg.stop_first = true;
                i += 1;
                continue;
            }
            x => panic!("arg {}", x),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || go(ll, cfg, out, dump, t0)).unwrap();
    let rc = th.join().unwrap_or(101);
    std::process::exit(rc);
}

fn go(ll: String, cfg: exec::Cfg, out: Option<String>, dump: Option<String>, t0: std::time::Instant) -> i32 {
    let m = ir::Module::load(&ll);
    let verbose = cfg.verbose;
    if verbose {
        eprintln!("indexed in {:.2}s", t0.elapsed().as_secs_f64());
    }
    let mut e = exec::Engine::new(m, cfg);
    e.sol.dump = dump;
    e.run();
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"entry\": {}, \"prop\": {},", js(&e.cfg.entry), js(&e.cfg.prop));
    let mut ps: Vec<_> = e.cfg.params.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    ps.sort();
    let _ = writeln!(o, "\"params\": {{{}}},", ps.join(", "));
    let _ = writeln!(
        o,
        "\"paths\": {}, \"paths_completed\": {}, \"paths_panicked\": {}, \"forks\": {}, \"instructions\": {}, \"wall_s\": {:.2},",
        e.paths, e.paths_done, e.paths_panic, e.forks, e.steps, wall
    );
    let s = &e.sol.stats;
    let _ = writeln!(
        o,
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"solver_s\": {:.2},",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.solver_s
    );
    let eng: Vec<String> = e.engines.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "\"deciders\": {{{}}},", eng.join(", "));
    let mut asr: Vec<String> = vec![];
    for (k, a) in e.asserts.iter() {
        asr.push(format!("{{\"assert\": {}, \"checked\": {}, \"simplified\": {}, \"solver\": {}, \"undecided\": {}}}", js(k), a.checked, a.trivially, a.by_solver, a.undecided));
    }
    for (k, a) in e.nopanic_stat.iter() {
        asr.push(format!("{{\"assert\": {}, \"kind\": \"nopanic\", \"checked\": {}, \"simplified\": 0, \"solver\": {}, \"undecided\": {}}}", js(k), a.checked, a.by_solver, a.undecided));
    }
    let _ = writeln!(o, "\"asserts\": [{}],", asr.join(",\n  "));
    let vs: Vec<String> = e.violations.iter().map(|v| format!("{{\"msg\": {}, \"how\": {}, \"model\": {}}}", js(&v.msg), js(&v.how), jmodel(&v.model))).collect();
    let _ = writeln!(o, "\"violations\": [{}],", vs.join(",\n  "));
    let cv: Vec<String> = e
        .covers
        .values()
        .map(|c| {
            format!(
                "{{\"label\": {}, \"hits\": {}, \"model\": {}, \"observes\": {}}}",
                js(&c.label),
                e.cover_seen[&c.label],
                c.model.as_ref().map(|m| jmodel(m)).unwrap_or("null".into()),
                jmodel(&c.observes)
            )
        })
        .collect();
    let _ = writeln!(o, "\"covers\": [{}],", cv.join(",\n  "));
    let und: Vec<String> = e.undecided.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "\"undecided\": [{}],", und.join(", "));
    let er: Vec<String> = e.errors.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "\"errors\": [{}],", er.join(",\n  "));
    let mut fs: Vec<String> = e.funcs_run.iter().map(|i| exec::demangle(&e.m.fn_names[*i as usize].name)).filter(|n| n.contains("presale::") || n.contains("merkle_tree::")).collect();
    fs.sort();
    fs.dedup();
    let _ = writeln!(o, "\"functions_total\": {}, \"functions\": [{}]", e.funcs_run.len(), fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    o.push_str("}\n");
    if verbose {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:6} forks {}", n, k);
        }
    }
    match out {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => print!("{}", o),
    }
    0
}
