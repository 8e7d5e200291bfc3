//! A small incremental CDCL SAT solver (assumptions, 2-watched literals, VSIDS,
//! phase saving, Luby restarts, LBD clause deletion).  It is used for path
//! feasibility; final obligations go to external solvers.

pub type Lit = i32; // DIMACS style, variable >= 1

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Res {
  Sat,
  Unsat,
  Unknown,
}

#[derive(Clone, Copy)]
struct Watch {
  c: u32,
  blk: Lit,
}

struct Clause {
  lits: Vec<Lit>,
  learnt: bool,
  lbd: u32,
  dead: bool,
}

pub struct Sat {
  clauses: Vec<Clause>,
  watches: Vec<Vec<Watch>>,
  val: Vec<i8>, // per var: 0 unassigned, 1 true, -1 false
  phase: Vec<bool>,
  level: Vec<u32>,
  reason: Vec<u32>,
  act: Vec<f64>,
  inc: f64,
  heap: Vec<u32>,
  hpos: Vec<i32>,
  trail: Vec<Lit>,
  lim: Vec<usize>,
  qhead: usize,
  seen: Vec<bool>,
  ok: bool,
  nlearnt: usize,
  relevant: Vec<u32>,
  rel_epoch: u32,
  pub conflicts: u64,
  pub props: u64,
  pub ticks: u64,
  pub tick_limit: u64,
  pub nclauses: usize,
}

fn widx(l: Lit) -> usize {
  let v = l.unsigned_abs() as usize;
  2 * v + (l < 0) as usize
}
const NOREASON: u32 = u32::MAX;

impl Sat {
  pub fn new() -> Self {
    Sat {
      clauses: vec![],
      watches: vec![vec![], vec![]],
      val: vec![0],
      phase: vec![false],
      level: vec![0],
      reason: vec![NOREASON],
      act: vec![0.0],
      inc: 1.0,
      heap: vec![],
      hpos: vec![-1],
      trail: vec![],
      lim: vec![],
      qhead: 0,
      seen: vec![false],
      ok: true,
      nlearnt: 0,
      relevant: vec![0],
      rel_epoch: 0,
      conflicts: 0,
      props: 0,
      ticks: 0,
      tick_limit: u64::MAX,
      nclauses: 0,
    }
  }
  pub fn new_var(&mut self) -> Lit {
    let v = self.val.len() as Lit;
    self.val.push(0);
    self.phase.push(false);
    self.level.push(0);
    self.reason.push(NOREASON);
    self.act.push(0.0);
    self.hpos.push(-1);
    self.seen.push(false);
    self.relevant.push(0);
    self.watches.push(vec![]);
    self.watches.push(vec![]);
    v
  }
  fn lv(&self, l: Lit) -> i8 {
    let v = self.val[l.unsigned_abs() as usize];
    if l < 0 {
      -v
    } else {
      v
    }
  }
  pub fn value(&self, v: Lit) -> bool {
    self.lv(v) > 0
  }
  // ---- heap (max by activity)
  fn hup(&mut self, mut i: usize) {
    let x = self.heap[i];
    while i > 0 {
      let p = (i - 1) / 2;
      if self.act[self.heap[p] as usize] >= self.act[x as usize] {
        break;
      }
      self.heap[i] = self.heap[p];
      self.hpos[self.heap[i] as usize] = i as i32;
      i = p;
    }
    self.heap[i] = x;
    self.hpos[x as usize] = i as i32;
  }
  fn hdown(&mut self, mut i: usize) {
    let x = self.heap[i];
    let n = self.heap.len();
    loop {
      let mut c = 2 * i + 1;
      if c >= n {
        break;
      }
      if c + 1 < n && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
        c += 1;
      }
      if self.act[self.heap[c] as usize] <= self.act[x as usize] {
        break;
      }
      self.heap[i] = self.heap[c];
      self.hpos[self.heap[i] as usize] = i as i32;
      i = c;
    }
    self.heap[i] = x;
    self.hpos[x as usize] = i as i32;
  }
  fn hins(&mut self, v: u32) {
    if self.hpos[v as usize] < 0 && self.relevant[v as usize] == self.rel_epoch {
      self.heap.push(v);
      let i = self.heap.len() - 1;
      self.hpos[v as usize] = i as i32;
      self.hup(i);
    }
  }
  fn hpop(&mut self) -> Option<u32> {
    let x = *self.heap.first()?;
    self.hpos[x as usize] = -1;
    let l = self.heap.pop().unwrap();
    if !self.heap.is_empty() {
      self.heap[0] = l;
      self.hpos[l as usize] = 0;
      self.hdown(0);
    }
    Some(x)
  }
  fn bump(&mut self, v: u32) {
    self.act[v as usize] += self.inc;
    if self.act[v as usize] > 1e100 {
      for a in &mut self.act {
        *a *= 1e-100;
      }
      self.inc *= 1e-100;
    }
    let p = self.hpos[v as usize];
    if p >= 0 {
      self.hup(p as usize);
    }
  }
  /// Adds a clause; only between solves (decision level 0).
  pub fn add(&mut self, c: &[Lit]) {
    if !self.ok {
      return;
    }
    self.cancel(0);
    let mut ls: Vec<Lit> = vec![];
    for &l in c {
      match self.lv(l) {
        1 => return,
        -1 => {}
        _ => {
          if ls.contains(&-l) {
            return;
          }
          if !ls.contains(&l) {
            ls.push(l);
          }
        }
      }
    }
    self.nclauses += 1;
    match ls.len() {
      0 => self.ok = false,
      1 => {
        self.enq(ls[0], NOREASON);
        if self.propagate() != NOREASON {
          self.ok = false;
        }
      }
      _ => {
        self.attach(ls, false, 0);
      }
    }
  }
  fn attach(&mut self, ls: Vec<Lit>, learnt: bool, lbd: u32) -> u32 {
    let i = self.clauses.len() as u32;
    self.watches[widx(-ls[0])].push(Watch { c: i, blk: ls[1] });
    self.watches[widx(-ls[1])].push(Watch { c: i, blk: ls[0] });
    self.clauses.push(Clause { lits: ls, learnt, lbd, dead: false });
    if learnt {
      self.nlearnt += 1;
    }
    i
  }
  fn enq(&mut self, l: Lit, r: u32) {
    let v = l.unsigned_abs() as usize;
    self.val[v] = if l > 0 { 1 } else { -1 };
    self.level[v] = self.lim.len() as u32;
    self.reason[v] = r;
    self.trail.push(l);
  }
  fn propagate(&mut self) -> u32 {
    while self.qhead < self.trail.len() {
      let p = self.trail[self.qhead];
      self.qhead += 1;
      let wi = widx(p);
      self.ticks += 1 + self.watches[wi].len() as u64 / 4;
      let mut ws = std::mem::take(&mut self.watches[wi]);
      let mut i = 0;
      let mut j = 0;
      let mut confl = NOREASON;
      'outer: while i < ws.len() {
        let w = ws[i];
        i += 1;
        if self.lv(w.blk) > 0 {
          ws[j] = w;
          j += 1;
          continue;
        }
        let ci = w.c as usize;
        if self.clauses[ci].dead {
          continue;
        }
        let np = -p;
        {
          let ls = &mut self.clauses[ci].lits;
          if ls[0] == np {
            ls.swap(0, 1);
          }
        }
        let first = self.clauses[ci].lits[0];
        if first != w.blk && self.lv(first) > 0 {
          ws[j] = Watch { c: w.c, blk: first };
          j += 1;
          continue;
        }
        let n = self.clauses[ci].lits.len();
        for k in 2..n {
          let l = self.clauses[ci].lits[k];
          if self.lv(l) >= 0 {
            self.clauses[ci].lits.swap(1, k);
            self.watches[widx(-l)].push(Watch { c: w.c, blk: first });
            continue 'outer;
          }
        }
        ws[j] = Watch { c: w.c, blk: first };
        j += 1;
        if self.lv(first) < 0 {
          confl = w.c;
          while i < ws.len() {
            ws[j] = ws[i];
            j += 1;
            i += 1;
          }
          self.qhead = self.trail.len();
          break;
        }
        self.enq(first, w.c);
      }
      ws.truncate(j);
      self.watches[wi] = ws;
      if confl != NOREASON {
        return confl;
      }
    }
    NOREASON
  }
  fn cancel(&mut self, lvl: usize) {
    if self.lim.len() > lvl {
      let start = self.lim[lvl];
      while self.trail.len() > start {
        let l = self.trail.pop().unwrap();
        let v = l.unsigned_abs();
        self.phase[v as usize] = l > 0;
        self.val[v as usize] = 0;
        self.hins(v);
      }
      self.lim.truncate(lvl);
      self.qhead = start;
    }
  }
  fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize, u32) {
    let mut learnt: Vec<Lit> = vec![0];
    let mut cnt = 0;
    let mut p: Lit = 0;
    let mut idx = self.trail.len();
    let cur = self.lim.len() as u32;
    loop {
      let ls = self.clauses[confl as usize].lits.clone();
      for &q in &ls {
        if q == p {
          continue;
        }
        let v = q.unsigned_abs();
        if !self.seen[v as usize] && self.level[v as usize] > 0 {
          self.bump(v);
          self.seen[v as usize] = true;
          if self.level[v as usize] >= cur {
            cnt += 1;
          } else {
            learnt.push(q);
          }
        }
      }
      loop {
        idx -= 1;
        if self.seen[self.trail[idx].unsigned_abs() as usize] {
          break;
        }
      }
      p = self.trail[idx];
      let v = p.unsigned_abs() as usize;
      self.seen[v] = false;
      cnt -= 1;
      if cnt == 0 {
        break;
      }
      confl = self.reason[v];
    }
    learnt[0] = -p;
    // minimise (local)
    let all: Vec<Lit> = learnt[1..].to_vec();
    let mut keep = vec![learnt[0]];
    for &l in &all {
      let v = l.unsigned_abs() as usize;
      let r = self.reason[v];
      let mut red = r != NOREASON;
      if red {
        for &q in &self.clauses[r as usize].lits {
          let u = q.unsigned_abs() as usize;
          if u != v && !self.seen[u] && self.level[u] > 0 {
            red = false;
            break;
          }
        }
      }
      if !red {
        keep.push(l);
      }
    }
    for &l in &all {
      self.seen[l.unsigned_abs() as usize] = false;
    }
    let mut bt = 0;
    if keep.len() > 1 {
      let mut mi = 1;
      for i in 2..keep.len() {
        if self.level[keep[i].unsigned_abs() as usize] > self.level[keep[mi].unsigned_abs() as usize] {
          mi = i;
        }
      }
      keep.swap(1, mi);
      bt = self.level[keep[1].unsigned_abs() as usize] as usize;
    }
    let mut lv: Vec<u32> = keep.iter().map(|l| self.level[l.unsigned_abs() as usize]).collect();
    lv.sort_unstable();
    lv.dedup();
    (keep, bt, lv.len() as u32)
  }
  fn reduce(&mut self) {
    let mut cand: Vec<u32> = vec![];
    for (i, c) in self.clauses.iter().enumerate() {
      if c.learnt && !c.dead && c.lbd > 3 && c.lits.len() > 2 {
        let v = c.lits[0].unsigned_abs() as usize;
        if self.val[v] != 0 && self.reason[v] == i as u32 {
          continue;
        }
        cand.push(i as u32);
      }
    }
    cand.sort_by_key(|&i| std::cmp::Reverse(self.clauses[i as usize].lbd));
    for &i in cand.iter().take(cand.len() / 2) {
      let c = &mut self.clauses[i as usize];
      c.dead = true;
      c.lits.shrink_to_fit();
      self.nlearnt -= 1;
    }
    for ws in &mut self.watches {
      ws.retain(|w| !self.clauses[w.c as usize].dead);
    }
    for &i in cand.iter().take(cand.len() / 2) {
      self.clauses[i as usize].lits = vec![];
    }
  }
  /// Solve under assumptions, deciding only variables in `cone`.
  pub fn solve(&mut self, assumps: &[Lit], cone: &[u32], budget: u64) -> Res {
    if !self.ok {
      return Res::Unsat;
    }
    self.cancel(0);
    self.rel_epoch += 1;
    for v in std::mem::take(&mut self.heap) {
      self.hpos[v as usize] = -1;
    }
    for &v in cone {
      self.relevant[v as usize] = self.rel_epoch;
    }
    for &v in cone {
      if self.val[v as usize] == 0 {
        self.hins(v);
      }
    }
    let mut left = budget;
    let tick_end = self.ticks.saturating_add(self.tick_limit);
    let mut luby_i = 0u32;
    loop {
      luby_i += 1;
      let lim = 100 * luby(luby_i) as u64;
      let mut n = 0;
      loop {
        let c = self.propagate();
        if c != NOREASON {
          self.conflicts += 1;
          n += 1;
          if self.lim.is_empty() {
            self.ok = false;
            return Res::Unsat;
          }
          if left == 0 || self.ticks > tick_end {
            self.cancel(0);
            return Res::Unknown;
          }
          left -= 1;
          let (ls, bt, lbd) = self.analyze(c);
          self.cancel(bt);
          if ls.len() == 1 {
            self.enq(ls[0], NOREASON);
          } else {
            let f = ls[0];
            let ci = self.attach(ls, true, lbd);
            self.enq(f, ci);
          }
          self.inc /= 0.95;
        } else {
          if n >= lim {
            self.cancel(0);
            break;
          }
          if self.ticks > tick_end {
            self.cancel(0);
            return Res::Unknown;
          }
          if self.nlearnt > 20000 + self.clauses.len() / 4 {
            self.reduce();
          }
          // assumptions first
          let mut next: Lit = 0;
          while self.lim.len() < assumps.len() {
            let a = assumps[self.lim.len()];
            match self.lv(a) {
              1 => self.lim.push(self.trail.len()),
              -1 => {
                self.cancel(0);
                return Res::Unsat;
              }
              _ => {
                next = a;
                break;
              }
            }
          }
          if next == 0 {
            loop {
              match self.hpop() {
                None => return Res::Sat,
                Some(v) => {
                  if self.val[v as usize] == 0 {
                    next = if self.phase[v as usize] { v as Lit } else { -(v as Lit) };
                    break;
                  }
                }
              }
            }
          }
          self.lim.push(self.trail.len());
          self.enq(next, NOREASON);
        }
      }
    }
  }
}

fn luby(i: u32) -> u32 {
  let mut k = 1;
  while (1u32 << k) - 1 < i {
    k += 1;
  }
  if (1u32 << k) - 1 == i {
    1 << (k - 1)
  } else {
    luby(i - (1 << (k - 1)) + 1)
  }
}
