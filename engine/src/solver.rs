//! Solver front: internal incremental CDCL for path feasibility, external
//! solver processes for the final obligations.
use crate::blast::*;
use crate::sat::*;
use crate::term::*;
use std::cell::RefCell;
use crate::fx::{HashMap, HashSet};
use std::io::Write;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// An assignment to input variables (by variable index).
pub struct Model {
  pub vals: HashMap<u32, u128>,
  memo: RefCell<HashMap<T, u128>>,
}
impl Model {
  pub fn new(vals: HashMap<u32, u128>) -> Rc<Model> {
    Rc::new(Model { vals, memo: RefCell::new(HashMap::default()) })
  }
  pub fn eval(&self, cx: &Ctx, t: T) -> u128 {
    let mut memo = self.memo.borrow_mut();
    cx.eval(t, &|v| self.vals.get(&v).copied().unwrap_or(cx.vars[v as usize].lo), &mut memo)
  }
  pub fn var(&self, cx: &Ctx, v: u32) -> u128 {
    self.vals.get(&v).copied().unwrap_or(cx.vars[v as usize].lo)
  }
}

pub struct Solver {
  sat: Sat,
  bl: Blaster,
  mark: Vec<u32>,
  epoch: u32,
  support: HashMap<T, Rc<Vec<u32>>>,
  pub queries: u64,
  pub time: Duration,
  pub unknowns: u64,
  pub budget: u64,
}

impl Solver {
  pub fn new() -> Self {
    let mut sat = Sat::new();
    let bl = Blaster::new(&mut sat, true);
    Solver {
      sat,
      bl,
      mark: vec![],
      epoch: 0,
      support: HashMap::default(),
      queries: 0,
      time: Duration::ZERO,
      unknowns: 0,
      budget: 20000,
    }
  }
  pub fn support(&mut self, cx: &Ctx, t: T) -> Rc<Vec<u32>> {
    if let Some(s) = self.support.get(&t) {
      return s.clone();
    }
    let mut seen: HashSet<T> = HashSet::default();
    let mut out = vec![];
    let mut st = vec![t];
    while let Some(x) = st.pop() {
      if cx.cval(x).is_some() || !seen.insert(x) {
        continue;
      }
      let n = cx.n(x);
      match n.op {
        Op::Var => out.push(n.a),
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => st.push(n.a),
        Op::Ite => {
          st.push(n.a);
          st.push(n.b);
          st.push(n.c);
        }
        _ => {
          st.push(n.a);
          st.push(n.b);
        }
      }
    }
    out.sort_unstable();
    out.dedup();
    let r = Rc::new(out);
    self.support.insert(t, r.clone());
    r
  }
  /// Is the conjunction satisfiable?
  pub fn check(&mut self, cx: &Ctx, cs: &[T]) -> (Res, Option<HashMap<u32, u128>>) {
    let t0 = Instant::now();
    self.queries += 1;
    let mut lits = vec![];
    for &c in cs {
      let b = self.bl.blast(cx, &mut self.sat, c);
      lits.push(b[0]);
    }
    // cone
    self.epoch += 1;
    let mut cone = vec![];
    let mut st: Vec<u32> = lits.iter().map(|l| l.unsigned_abs()).collect();
    while let Some(v) = st.pop() {
      if self.mark.len() <= v as usize {
        self.mark.resize(v as usize + 1024, 0);
      }
      if self.mark[v as usize] == self.epoch {
        continue;
      }
      self.mark[v as usize] = self.epoch;
      cone.push(v);
      if let Some(k) = self.bl.kids.get(v as usize) {
        st.extend_from_slice(k);
      }
    }
    self.sat.tick_limit = self.budget.saturating_mul(10_000);
    let r = self.sat.solve(&lits, &cone, self.budget);
    let mut m = None;
    if r == Res::Sat {
      let mut h = HashMap::default();
      for (v, bits) in &self.bl.vars {
        // only variables in the cone have meaningful values
        let mut val = 0u128;
        let mut inc = false;
        for (i, &l) in bits.iter().enumerate() {
          if l == self.bl.tru {
            val |= 1 << i;
          } else if l == -self.bl.tru {
          } else {
            if self.mark.get(l.unsigned_abs() as usize) == Some(&self.epoch) {
              inc = true;
            }
            if self.sat.value(l) {
              val |= 1 << i;
            }
          }
        }
        if inc {
          h.insert(*v, val);
        }
      }
      m = Some(h);
    } else if r == Res::Unknown {
      self.unknowns += 1;
    }
    self.time += t0.elapsed();
    (r, m)
  }
}

#[derive(Debug, Clone)]
pub enum Ext {
  Unsat,
  Sat(HashMap<u32, u128>),
  Unknown(String),
}

pub struct Job {
  pub vars: Vec<(u32, Vec<Lit>)>,
  pub tru: Lit,
  pub path: String,
  pub clauses: usize,
  pub nvars: i32,
}

/// Write the CNF of `f` (width 1) asserted true.
pub fn write_cnf(cx: &Ctx, f: T, path: &str) -> Job {
  let mut cnf = Cnf::default();
  let mut bl = Blaster::new(&mut cnf, false);
  let b = bl.blast(cx, &mut cnf, f);
  cnf.clause(&[b[0]]);
  let mut o = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
  writeln!(o, "p cnf {} {}", cnf.nvars, cnf.n).unwrap();
  let mut buf = String::with_capacity(1 << 16);
  for &l in &cnf.lits {
    use std::fmt::Write as _;
    if l == 0 {
      buf.push_str("0\n");
      if buf.len() > 60000 {
        o.write_all(buf.as_bytes()).unwrap();
        buf.clear();
      }
    } else {
      let _ = write!(buf, "{} ", l);
    }
  }
  o.write_all(buf.as_bytes()).unwrap();
  o.flush().unwrap();
  let vars = bl.vars.iter().map(|(v, b)| (*v, b.to_vec())).collect();
  Job { vars, tru: bl.tru, path: path.to_string(), clauses: cnf.n, nvars: cnf.nvars }
}

fn decode(job: &Job, assign: &HashSet<Lit>) -> HashMap<u32, u128> {
  let mut h = HashMap::default();
  for (v, bits) in &job.vars {
    let mut val = 0u128;
    for (i, &l) in bits.iter().enumerate() {
      let on = if l == job.tru {
        true
      } else if l == -job.tru {
        false
      } else {
        assign.contains(&l)
      };
      if on {
        val |= 1 << i;
      }
    }
    h.insert(*v, val);
  }
  h
}

pub fn run_kissat(job: &Job, secs: u64) -> Ext {
  let out = std::process::Command::new("kissat")
    .arg("-q")
    .arg(format!("--time={secs}"))
    .arg(&job.path)
    .output();
  let out = match out {
    Ok(o) => o,
    Err(e) => return Ext::Unknown(format!("kissat: {e}")),
  };
  let text = String::from_utf8_lossy(&out.stdout);
  match out.status.code() {
    Some(20) => Ext::Unsat,
    Some(10) => {
      let mut a = HashSet::default();
      for l in text.lines() {
        if let Some(r) = l.strip_prefix("v ") {
          for x in r.split_whitespace() {
            let v: Lit = x.parse().unwrap_or(0);
            if v > 0 {
              a.insert(v);
            }
            if v < 0 {
              a.insert(v);
            }
          }
        }
      }
      Ext::Sat(decode(job, &a))
    }
    c => Ext::Unknown(format!("kissat exit {:?} after {secs}s limit", c)),
  }
}

/// SMT-LIB2 text asserting `f`.
pub fn smt2(cx: &Ctx, f: T) -> String {
  use std::fmt::Write as _;
  let mut s = String::from("(set-logic QF_BV)\n");
  let mut done: HashSet<T> = HashSet::default();
  let mut stack = vec![f];
  let nm = |t: T| format!("t{t}");
  while let Some(&x) = stack.last() {
    if done.contains(&x) {
      stack.pop();
      continue;
    }
    let n = cx.n(x);
    let kids = match n.op {
      Op::Const | Op::Var => [0, 0, 0],
      Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => [n.a, 0, 0],
      Op::Ite => [n.a, n.b, n.c],
      _ => [n.a, n.b, 0],
    };
    let mut p = false;
    for k in kids {
      if k != 0 && !done.contains(&k) {
        stack.push(k);
        p = true;
      }
    }
    if p {
      continue;
    }
    stack.pop();
    done.insert(x);
    let w = n.w;
    let body = match n.op {
      Op::Const => {
        let c = cx.cval(x).unwrap();
        let mut b = String::from("#b");
        for i in (0..w).rev() {
          b.push(if (c >> i) & 1 == 1 { '1' } else { '0' });
        }
        b
      }
      Op::Var => {
        let vi = &cx.vars[n.a as usize];
        let _ = writeln!(s, "(declare-const v{} (_ BitVec {w}))", n.a);
        let _ = writeln!(s, "(assert (bvule (_ bv{} {w}) v{}))", vi.lo, n.a);
        let _ = writeln!(s, "(assert (bvule v{} (_ bv{} {w})))", n.a, vi.hi);
        format!("v{}", n.a)
      }
      Op::Eq | Op::Ult | Op::Slt => {
        let o = match n.op {
          Op::Eq => "=",
          Op::Ult => "bvult",
          _ => "bvslt",
        };
        format!("(ite ({o} {} {}) #b1 #b0)", nm(n.a), nm(n.b))
      }
      Op::Smin | Op::Smax => {
        let (x, y) = if n.op == Op::Smin { (nm(n.a), nm(n.b)) } else { (nm(n.b), nm(n.a)) };
        format!("(ite (bvslt {} {}) {x} {y})", nm(n.a), nm(n.b))
      }
      Op::Tab => {
        let tab = &cx.tabs[n.b as usize];
        let wa = cx.w(n.a);
        let mut b = String::new();
        for (i, v) in tab.v.iter().enumerate().skip(1) {
          let k = (tab.lo + i as i128) as u128 & mask(wa);
          let _ = write!(b, "(ite (= {} (_ bv{k} {wa})) (_ bv{} {w}) ", nm(n.a), *v as u32);
        }
        let _ = write!(b, "(_ bv{} {w})", tab.v[0] as u32);
        b + &")".repeat(tab.v.len() - 1)
      }
      Op::Ite => format!("(ite (= {} #b1) {} {})", nm(n.a), nm(n.b), nm(n.c)),
      Op::Extract => format!("((_ extract {} {}) {})", n.b as u16 + w - 1, n.b, nm(n.a)),
      Op::Zext => format!("((_ zero_extend {}) {})", w - cx.w(n.a), nm(n.a)),
      Op::Sext => format!("((_ sign_extend {}) {})", w - cx.w(n.a), nm(n.a)),
      _ => {
        let o = match n.op {
          Op::Add => "bvadd",
          Op::Sub => "bvsub",
          Op::Mul => "bvmul",
          Op::Udiv => "bvudiv",
          Op::Sdiv => "bvsdiv",
          Op::Urem => "bvurem",
          Op::Srem => "bvsrem",
          Op::And => "bvand",
          Op::Or => "bvor",
          Op::Xor => "bvxor",
          Op::Shl => "bvshl",
          Op::Lshr => "bvlshr",
          Op::Ashr => "bvashr",
          Op::Concat => "concat",
          _ => unreachable!(),
        };
        format!("({o} {} {})", nm(n.a), nm(n.b))
      }
    };
    let _ = writeln!(s, "(define-fun t{x} () (_ BitVec {w}) {body})");
  }
  let _ = writeln!(s, "(assert (= t{f} #b1))\n(check-sat)");
  s
}
