//! rvsym: symbolic execution of LLVM IR with an SMT-style bit-vector solver.
mod blast;
mod canon;
mod exec;
mod ffn;
mod tab;
mod tree;
mod fx;
mod ir;
mod sat;
#[cfg(test)]
mod selftest;
mod solver;
mod step;
mod term;

use exec::*;

fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push(' '),
      c => o.push(c),
    }
  }
  o
}

fn main() {
  let mut ll = String::new();
  let mut entry = String::new();
  let mut opt = Opts {
    time: 600,
    ext_time: 300,
    steps: u64::MAX,
    jobs: 2,
    batch: 32,
    tmp: "/tmp".into(),
    max_mux: 4096,
    verbose: false,
    int_budget: 100,
    path_ext: 2,
    concrete: None,
  };
  let mut it = std::env::args().skip(1);
  let mut budget = 300;
  while let Some(a) = it.next() {
    let mut v = || it.next().expect("option value");
    match a.as_str() {
      "--ll" => ll = v(),
      "--entry" => entry = v(),
      "--deep" => canon::DEEP.store(true, std::sync::atomic::Ordering::Relaxed),
      "--time" => opt.time = v().parse().unwrap(),
      "--ext-time" => opt.ext_time = v().parse().unwrap(),
      "--steps" => opt.steps = v().parse().unwrap(),
      "--jobs" => opt.jobs = v().parse().unwrap(),
      "--batch" => opt.batch = v().parse().unwrap(),
      "--tmp" => opt.tmp = v(),
      "--max-mux" => opt.max_mux = v().parse().unwrap(),
      "--budget" => budget = v().parse().unwrap(),
      "--int-budget" => opt.int_budget = v().parse().unwrap(),
      "--path-ext" => opt.path_ext = v().parse().unwrap(),
      "--verbose" => opt.verbose = true,
      "--concrete" => {
        let t = std::fs::read_to_string(v()).unwrap();
        opt.concrete = Some(
          t.lines()
            .filter(|l| !l.starts_with('#'))
            .map(|l| l.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
            .collect(),
        );
      }
      _ => {
        eprintln!("unknown option {a}");
        std::process::exit(2);
      }
    }
  }
  let (wd_entry, wd_time) = (entry.clone(), opt.time);
  std::thread::spawn(move || {
    std::thread::sleep(std::time::Duration::from_secs(wd_time + 10));
    println!("{{\"entry\":\"{}\",\"result\":\"inconclusive\",\"what\":\"time limit {}s (watchdog)\"}}", esc(&wd_entry), wd_time);
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    std::process::exit(2);
  });
  let h = std::thread::Builder::new()
    .stack_size(4 << 30)
    .spawn(move || {
      let t0 = std::time::Instant::now();
      let src = std::fs::read_to_string(&ll).expect("read .ll");
      let m = ir::Module::load(src);
      let verbose = opt.verbose;
      let mut e = Engine::new(m, opt);
      e.sol.budget = budget;
      let r = e.verify(&entry);
      let (res, what, inputs, trace) = match r {
        Ok(()) => {
          if e.st.completed == 0 && e.opt.concrete.is_none() {
            ("inconclusive", "vacuous: no path reaches the end of the harness".to_string(), vec![], String::new())
          } else if e.st.witness_seen && !e.st.witness {
            ("inconclusive", "vacuous: witness not satisfiable".to_string(), vec![], String::new())
          } else {
            ("holds", String::new(), vec![], String::new())
          }
        }
        Err(Abort::Violation { what, inputs, trace }) => ("violation", what, inputs, trace),
        Err(Abort::Conc(t)) => ("inconclusive", format!("cannot enumerate term {t}"), vec![], String::new()),
        Err(Abort::Inconclusive(w)) => ("inconclusive", w, vec![], String::new()),
      };
      let ins: Vec<String> = inputs.iter().map(|b| format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
      let mut fns: Vec<(&String, &u64)> = e.funcs.iter().collect();
      fns.sort();
      let fl: Vec<String> = fns.iter().map(|(n, c)| format!("[\"{}\",{}]", esc(n), c)).collect();
      let obs: Vec<String> = e.observed.iter().map(|x| x.to_string()).collect();
      if verbose {
        let mut v: Vec<_> = e.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
          eprintln!("{n:8} {k}");
        }
      }
      println!(
        "{{\"entry\":\"{}\",\"result\":\"{}\",\"what\":\"{}\",\"where\":\"{}\",\"inputs\":[{}],\"paths\":{},\"completed\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"merge_refused\":{},\"obligations\":{},\"oblig_trivial\":{},\"oblig_internal\":{},\"oob_checks\":{},\"path_queries\":{},\"path_unknown\":{},\"path_ext\":{},\"path_solver_s\":{:.3},\"ext_queries\":{},\"ext_clauses\":{},\"ext_solver_s\":{:.3},\"terms\":{},\"time_s\":{:.3},\"witness\":{},\"observed\":[{}],\"functions\":[{}]}}",
        esc(&entry),
        res,
        esc(&what),
        esc(&trace),
        ins.join(","),
        e.st.paths,
        e.st.completed,
        e.st.steps,
        e.st.forks,
        e.st.merges,
        e.st.merge_refused,
        e.st.obligations,
        e.st.oblig_trivial,
        e.st.oblig_internal,
        e.st.oob_checks,
        e.sol.queries,
        e.sol.unknowns,
        e.st.path_ext,
        e.sol.time.as_secs_f64(),
        e.st.ext_queries,
        e.st.ext_clauses,
        e.st.ext_time,
        e.cx.nodes.len(),
        t0.elapsed().as_secs_f64(),
        e.st.witness,
        obs.join(","),
        fl.join(",")
      );
      use std::io::Write;
      std::io::stdout().flush().unwrap();
      // skip destructors of large tables
      std::process::exit(match res {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
      });
    })
    .unwrap();
  let _ = h.join();
  std::process::exit(3);
}
