//! Symbolic execution of LLVM IR.
use crate::fx::{HashMap, HashSet};
use crate::ir::*;
use crate::sat::Res;
use crate::solver::*;
use crate::term::{mask, sx, Ctx, Op, T};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
  U,
  C(u128),
  S(T),
  A(Rc<Vec<V>>),
}

const OFF0: u64 = 0x10000;
const GID: u32 = 0x1000_0000;
const FID: u32 = 0x2000_0000;

#[derive(Clone)]
pub struct Obj {
  pub size: u64,
  pub data: Vec<u8>,
  pub sym: Option<Vec<(T, u8)>>,
  pub ro: bool,
}
impl Obj {
  fn new(size: u64, fill: u8) -> Obj {
    Obj { size, data: vec![fill; size as usize], sym: None, ro: false }
  }
}

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct Mem {
  chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
  next: u32,
}
impl Mem {
  pub fn alloc(&mut self, o: Obj) -> u32 {
    let id = self.next;
    self.next += 1;
    let c = id as usize / CH;
    while self.chunks.len() <= c {
      self.chunks.push(Rc::new(vec![None; CH]));
    }
    Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
    id + 1
  }
  pub fn shrink(&mut self) {
    while self.next > 0 {
      let id = self.next as usize - 1;
      if self.chunks[id / CH][id % CH].is_some() {
        break;
      }
      self.next -= 1;
    }
  }
  fn get(&self, id: u32) -> Option<&Rc<Obj>> {
    let id = id.wrapping_sub(1);
    self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
  }
  fn get_mut(&mut self, id: u32) -> Option<&mut Rc<Obj>> {
    let id = id.wrapping_sub(1);
    let c = self.chunks.get_mut(id as usize / CH)?;
    Rc::make_mut(c).get_mut(id as usize % CH)?.as_mut()
  }
  pub fn free(&mut self, id: u32) -> bool {
    let id = id.wrapping_sub(1);
    if let Some(c) = self.chunks.get_mut(id as usize / CH) {
      let r = Rc::make_mut(c)[id as usize % CH].take().is_some();
      // reclaim trailing ids so that call/return does not grow the table
      return r;
    }
    false
  }
}

#[derive(Clone)]
pub struct Frame {
  pub f: Rc<Func>,
  pub regs: Vec<V>,
  pub blk: u32,
  pub ip: usize,
  pub allocas: Vec<u32>,
  pub ret_dst: Option<u32>,
  pub ret_normal: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum It {
  Assume(T),
  Oblig(T),
  Nop,
}

#[derive(Clone)]
pub struct State {
  pub frames: Vec<Rc<Frame>>,
  pub mem: Mem,
  pub gl: Rc<HashMap<u32, Rc<Obj>>>,
  pub trace: Vec<It>,
  pub facts: Rc<HashMap<T, u128>>,
  pub model: Rc<Model>,
  pub model_ok: bool,
  pub inputs: Vec<(T, u8)>,
  pub merge: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
  No,
  Blk(usize, u32),
  Ret(usize),
}

pub enum Step {
  End,
  AtStop,
  /// children, and where to merge them
  Fork(Vec<State>, Stop, usize),
}

#[derive(Debug, Clone)]
pub enum Abort {
  Violation { what: String, inputs: Vec<Vec<u8>>, trace: String },
  Inconclusive(String),
  /// fork over the values of this term and retry the instruction
  Conc(T),
}
pub fn inc<X>(s: impl Into<String>) -> Result<X, Abort> {
  Err(Abort::Inconclusive(s.into()))
}

#[derive(Default)]
pub struct Stats {
  pub paths: u64,
  pub dead_paths: u64,
  pub steps: u64,
  pub forks: u64,
  pub merges: u64,
  pub merge_refused: u64,
  pub obligations: u64,
  pub oblig_trivial: u64,
  pub oblig_internal: u64,
  pub ext_queries: u64,
  pub ext_time: f64,
  pub ext_clauses: u64,
  pub witness: bool,
  pub witness_seen: bool,
  pub completed: u64,
  pub oob_checks: u64,
  pub path_ext: u64,
}

pub struct Opts {
  pub time: u64,
  pub ext_time: u64,
  pub steps: u64,
  pub jobs: usize,
  pub batch: usize,
  pub tmp: String,
  pub max_mux: u64,
  pub verbose: bool,
  pub int_budget: u64,
  pub path_ext: u64,
  pub concrete: Option<Vec<Vec<u8>>>,
}

struct Pend {
  f: T,
  inputs: Vec<(T, u8)>,
  what: String,
}

pub struct Engine {
  pub cx: Ctx,
  pub m: Module,
  pub sol: Solver,
  canon: crate::canon::Canon,
  pub st: Stats,
  pub opt: Opts,
  gaddr: HashMap<String, u64>,
  gnames: Vec<String>,
  gbase: HashMap<u32, Rc<Obj>>,
  fnames: Vec<String>,
  pub funcs: HashMap<String, u64>,
  pdom: HashMap<String, Rc<Vec<Option<u32>>>>,
  qcache: HashMap<Vec<T>, (Res, Option<Rc<HashMap<u32, u128>>>)>,
  pending: Vec<Pend>,
  t0: Instant,
  pub observed: Vec<u128>,
  pub sites: HashMap<String, u64>,
}

fn addr_of(id: u32) -> u64 {
  ((id as u64) << 32) + OFF0
}

impl Engine {
  pub fn new(m: Module, opt: Opts) -> Engine {
    Engine {
      cx: Ctx::new(),
      m,
      sol: Solver::new(),
      canon: Default::default(),
      st: Stats::default(),
      opt,
      gaddr: HashMap::default(),
      gnames: vec![],
      gbase: HashMap::default(),
      fnames: vec![],
      funcs: HashMap::default(),
      pdom: HashMap::default(),
      qcache: HashMap::default(),
      pending: vec![],
      t0: Instant::now(),
      observed: vec![],
      sites: HashMap::default(),
    }
  }

  pub fn timed_out(&self) -> bool {
    self.t0.elapsed().as_secs() >= self.opt.time
  }
  pub fn fn_name(&self, id: u32) -> Option<String> {
    if id >= FID {
      self.fnames.get((id - FID) as usize).cloned()
    } else {
      None
    }
  }

  // ---------------------------------------------------------------- values
  pub fn t(&mut self, v: &V, w: u16) -> T {
    match v {
      V::C(c) => self.cx.con(*c, w),
      V::S(t) => {
        debug_assert_eq!(self.cx.w(*t), w);
        *t
      }
      V::U => self.cx.con(0, w),
      V::A(_) => panic!("aggregate as scalar"),
    }
  }
  pub fn v(&self, t: T) -> V {
    match self.cx.cval(t) {
      Some(c) => V::C(c),
      None => V::S(t),
    }
  }
  pub fn zero(ty: &Ty) -> V {
    match ty {
      Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
      Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(Self::zero).collect())),
      _ => V::C(0),
    }
  }
  fn kv(&mut self, k: &K) -> Result<V, Abort> {
    Ok(match k {
      K::Int(v, _) => V::C(*v),
      K::Zero(t) | K::Undef(t) => Self::zero(t),
      K::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(x as u128)).collect())),
      K::Agg(_, v) => {
        let mut r = vec![];
        for x in v {
          r.push(self.kv(x)?);
        }
        V::A(Rc::new(r))
      }
      K::Global(n) => V::C(self.global_addr(n) as u128),
      K::Off(b, o) => match self.kv(b)? {
        V::C(c) => V::C((c as u64).wrapping_add(*o as u64) as u128),
        _ => return inc("const gep"),
      },
      K::Cast(b, w) => match self.kv(b)? {
        V::C(c) => V::C(c & mask(*w)),
        x => x,
      },
      K::Sub(a, b) => match (self.kv(a)?, self.kv(b)?) {
        (V::C(a), V::C(b)) => V::C((a as u64).wrapping_sub(b as u64) as u128),
        _ => return inc("const sub"),
      },
    })
  }
  fn global_addr(&mut self, n: &str) -> u64 {
    if let Some(&a) = self.gaddr.get(n) {
      return a;
    }
    let rn = self.m.resolve(n).to_string();
    if rn != n {
      let a = self.global_addr(&rn);
      self.gaddr.insert(n.to_string(), a);
      return a;
    }
    let a = if self.m.gsrc.contains_key(n) {
      let id = GID + self.gnames.len() as u32;
      self.gnames.push(n.to_string());
      addr_of(id)
    } else {
      let id = FID + self.fnames.len() as u32;
      self.fnames.push(n.to_string());
      addr_of(id)
    };
    self.gaddr.insert(n.to_string(), a);
    a
  }
  fn fill(&mut self, data: &mut [u8], ty: &Ty, k: &K) -> Result<(), Abort> {
    match k {
      K::Zero(_) | K::Undef(_) => {}
      K::Bytes(b) => data[..b.len()].copy_from_slice(b),
      K::Agg(_, ks) => {
        for (i, x) in ks.iter().enumerate() {
          let (o, t) = ty.field(i);
          let n = t.size() as usize;
          self.fill(&mut data[o as usize..o as usize + n], &t, x)?;
        }
      }
      _ => {
        let v = match self.kv(k)? {
          V::C(c) => c,
          _ => return inc("global initialiser"),
        };
        let n = ty.store_size() as usize;
        data[..n].copy_from_slice(&v.to_le_bytes()[..n]);
      }
    }
    Ok(())
  }
  fn global_obj(&mut self, id: u32) -> Result<Rc<Obj>, Abort> {
    if let Some(o) = self.gbase.get(&id) {
      return Ok(o.clone());
    }
    let n = self.gnames[(id - GID) as usize].clone();
    let g = match self.m.global(&n) {
      Some(g) => g,
      None => return inc(format!("global {n}")),
    };
    let sz = g.ty.size();
    let mut o = Obj::new(sz, 0);
    o.ro = g.constant;
    match &g.init {
      Some(k) => {
        let mut d = std::mem::take(&mut o.data);
        self.fill(&mut d, &g.ty, k)?;
        o.data = d;
      }
      None => return inc(format!("external global {n}")),
    }
    let o = Rc::new(o);
    self.gbase.insert(id, o.clone());
    Ok(o)
  }
  pub fn obj(&mut self, s: &State, id: u32) -> Result<Option<Rc<Obj>>, Abort> {
    if id >= FID {
      return Ok(None);
    }
    if id >= GID {
      if (id - GID) as usize >= self.gnames.len() {
        return Ok(None);
      }
      if let Some(o) = s.gl.get(&id) {
        return Ok(Some(o.clone()));
      }
      return Ok(Some(self.global_obj(id)?));
    }
    Ok(s.mem.get(id).cloned())
  }
  pub fn obj_mut<'a>(&mut self, s: &'a mut State, id: u32) -> Result<Option<&'a mut Obj>, Abort> {
    if id >= FID {
      return Ok(None);
    }
    if id >= GID {
      if (id - GID) as usize >= self.gnames.len() {
        return Ok(None);
      }
      if !s.gl.contains_key(&id) {
        let o = self.global_obj(id)?;
        Rc::make_mut(&mut s.gl).insert(id, o);
      }
      return Ok(Some(Rc::make_mut(Rc::make_mut(&mut s.gl).get_mut(&id).unwrap())));
    }
    Ok(s.mem.get_mut(id).map(|o| Rc::make_mut(o)))
  }

  // ------------------------------------------------------------ knowledge
  pub fn know(&mut self, s: &State, t: T, depth: u32) -> Option<u128> {
    if let Some(c) = self.cx.cval(t) {
      return Some(c);
    }
    if s.facts.is_empty() {
      return None;
    }
    if let Some(&c) = s.facts.get(&t) {
      return Some(c);
    }
    if depth == 0 {
      return None;
    }
    let n = self.cx.n(t);
    let w = n.w;
    match n.op {
      Op::Zext => self.know(s, n.a, depth - 1),
      Op::Sext => {
        let wa = self.cx.w(n.a);
        self.know(s, n.a, depth - 1).map(|c| sx(c, wa) as u128 & mask(w))
      }
      Op::Extract => self.know(s, n.a, depth - 1).map(|c| (c >> n.b) & mask(w)),
      Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::Lshr | Op::Ashr | Op::Eq | Op::Ult | Op::Slt | Op::Smin | Op::Smax => {
        let a = self.know(s, n.a, depth - 1)?;
        let b = self.know(s, n.b, depth - 1)?;
        Some(crate::term::bin(n.op, a, b, self.cx.w(n.a)) & mask(w))
      }
      Op::And | Op::Or => {
        let a = self.know(s, n.a, depth - 1);
        if let Some(x) = a {
          if n.op == Op::And && x == 0 {
            return Some(0);
          }
          if n.op == Op::Or && x == mask(w) {
            return Some(x);
          }
        }
        let b = self.know(s, n.b, depth - 1);
        if let Some(x) = b {
          if n.op == Op::And && x == 0 {
            return Some(0);
          }
          if n.op == Op::Or && x == mask(w) {
            return Some(x);
          }
        }
        Some(crate::term::bin(n.op, a?, b?, w))
      }
      Op::Ite => {
        let c = self.know(s, n.a, depth - 1)?;
        let k = if c != 0 { n.b } else { n.c };
        self.know(s, k, depth - 1)
      }
      _ => None,
    }
  }
  pub fn val(&mut self, s: &State, o: &O) -> Result<V, Abort> {
    match o {
      O::R(r) => {
        let v = s.frames.last().unwrap().regs[*r as usize].clone();
        if let V::S(t) = v {
          if let Some(c) = self.know(s, t, 3) {
            return Ok(V::C(c));
          }
        }
        Ok(v)
      }
      O::K(k) => match &**k {
        K::Int(v, _) => Ok(V::C(*v)),
        k => self.kv(k),
      },
    }
  }
  pub fn set(&self, s: &mut State, d: u32, v: V) {
    Rc::make_mut(s.frames.last_mut().unwrap()).regs[d as usize] = v;
  }
  fn add_fact(&mut self, s: &mut State, c: T) {
    // c is a width-1 term now known true
    let mut todo = vec![(c, 1u128)];
    let mut new = vec![];
    while let Some((t, v)) = todo.pop() {
      if self.cx.cval(t).is_some() {
        continue;
      }
      new.push((t, v));
      let n = self.cx.n(t);
      match n.op {
        Op::Xor if n.w == 1 && self.cx.cval(n.b) == Some(1) => todo.push((n.a, 1 - v)),
        Op::And if n.w == 1 && v == 1 => {
          todo.push((n.a, 1));
          todo.push((n.b, 1));
        }
        Op::Or if n.w == 1 && v == 0 => {
          todo.push((n.a, 0));
          todo.push((n.b, 0));
        }
        Op::Eq if v == 1 => {
          if let Some(k) = self.cx.cval(n.b) {
            new.push((n.a, k));
          }
        }
        _ => {}
      }
    }
    let f = Rc::make_mut(&mut s.facts);
    for (t, v) in new {
      f.insert(t, v);
    }
  }
  pub fn assume(&mut self, s: &mut State, c: T) {
    if self.cx.cval(c) == Some(1) {
      return;
    }
    if let Some(1) = s.facts.get(&c) {
      return;
    }
    s.trace.push(It::Assume(c));
    self.add_fact(s, c);
  }
  fn slice(&mut self, s: &State, c: T) -> Vec<T> {
    let sup = self.sol.support(&self.cx, c);
    let mut vars: HashSet<u32> = sup.iter().copied().collect();
    let mut pc: Vec<T> = vec![];
    let mut rest: Vec<T> = s
      .trace
      .iter()
      .filter_map(|i| match i {
        It::Assume(t) => Some(*t),
        _ => None,
      })
      .collect();
    loop {
      let mut next = vec![];
      let mut grew = false;
      for t in rest {
        let sp = self.sol.support(&self.cx, t);
        if sp.iter().any(|v| vars.contains(v)) {
          pc.push(t);
          for v in sp.iter() {
            if vars.insert(*v) {
              grew = true;
            }
          }
        } else {
          next.push(t);
        }
      }
      rest = next;
      if !grew {
        break;
      }
    }
    pc
  }
  /// Can `c` hold on this path?  On yes, a model.
  pub fn feasible(&mut self, s: &State, c: T) -> (Res, Option<Rc<Model>>) {
    if self.cx.cval(c) == Some(0) {
      return (Res::Unsat, None);
    }
    if s.model_ok && s.model.eval(&self.cx, c) == 1 {
      return (Res::Sat, Some(s.model.clone()));
    }
    if s.merge >= 2 {
      // both sides are executed and merged; the obligations carry the condition
      return (Res::Unknown, None);
    }
    let mut q = if s.model_ok {
      self.slice(s, c)
    } else {
      s.trace
        .iter()
        .filter_map(|i| match i {
          It::Assume(t) => Some(*t),
          _ => None,
        })
        .collect()
    };
    q.push(c);
    q.sort_unstable();
    q.dedup();
    let (r, h) = if let Some(x) = self.qcache.get(&q) {
      x.clone()
    } else {
      let (mut r, mut h) = self.sol.check(&self.cx, &q);
      if r == Res::Unknown && self.opt.path_ext > 0 {
        let t0 = Instant::now();
        let mut f = self.cx.tru();
        for &t in &q {
          f = self.cx.and(f, t);
        }
        let path = format!("{}/p{}.cnf", self.opt.tmp, std::process::id());
        let j = write_cnf(&self.cx, f, &path);
        let e = run_kissat(&j, self.opt.path_ext);
        let _ = std::fs::remove_file(&path);
        self.st.path_ext += 1;
        self.st.ext_time += t0.elapsed().as_secs_f64();
        match e {
          Ext::Unsat => r = Res::Unsat,
          Ext::Sat(m) => {
            r = Res::Sat;
            h = Some(m);
          }
          _ => {}
        }
      }
      let x = (r, h.map(Rc::new));
      self.qcache.insert(q.clone(), x.clone());
      x
    };
    match r {
      Res::Sat => {
        let mut vals = s.model.vals.clone();
        for (k, v) in h.unwrap().iter() {
          vals.insert(*k, *v);
        }
        (Res::Sat, Some(Model::new(vals)))
      }
      r => (r, None),
    }
  }
  fn input_bytes(&self, inputs: &[(T, u8)], m: &Model) -> Vec<Vec<u8>> {
    inputs
      .iter()
      .map(|(t, n)| {
        let v = m.eval(&self.cx, *t);
        v.to_le_bytes()[..*n as usize].to_vec()
      })
      .collect()
  }
  fn where_(&self, s: &State) -> String {
    s.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ")
  }
  fn violation<X>(&mut self, s: &State, m: &Model, what: String) -> Result<X, Abort> {
    Err(Abort::Violation { what, inputs: self.input_bytes(&s.inputs, m), trace: self.where_(s) })
  }
  /// `bad` must not hold here.  Continues under its negation.  Ok(false): the
  /// path cannot continue.
  pub fn oblige(&mut self, s: &mut State, bad: T, what: &dyn Fn() -> String) -> Result<bool, Abort> {
    if let Some(k) = self.know(s, bad, 6) {
      if k == 0 {
        return Ok(true);
      }
      self.st.obligations += 1;
      if s.model_ok {
        let m = s.model.clone();
        return self.violation(s, &m, what());
      }
      s.trace.push(It::Oblig(bad));
      return Ok(false);
    }
    self.st.obligations += 1;
    if s.model_ok && s.model.eval(&self.cx, bad) == 1 {
      let m = s.model.clone();
      return self.violation(s, &m, what());
    }
    if self.opt.verbose {
      *self.sites.entry(format!("oblig: {} @ {}", what(), self.where_(s))).or_insert(0) += 1;
    }
    s.trace.push(It::Oblig(bad));
    let nb = self.cx.not(bad);
    self.assume(s, nb);
    Ok(true)
  }
  fn fold(&mut self, tr: &[It]) -> T {
    let mut f = self.cx.fls();
    let mut any = false;
    for i in tr.iter().rev() {
      match i {
        It::Oblig(p) => {
          let c = self.canon.canon(&mut self.cx, *p);
          if self.cx.cval(c) != Some(0) {
            if self.opt.verbose {
              self.cx.show_diff(c);
            }
            f = self.cx.or(*p, f);
            any = true;
          }
        }
        It::Assume(c) => {
          if any {
            f = self.cx.and(*c, f);
          }
        }
        It::Nop => {}
      }
    }
    f
  }
  /// The obligations of a trace in canonical form, with sums and products that
  /// involve products of inputs replaced by free values of their range: weaker.
  fn without_products(&mut self, tr: &[It]) -> Option<T> {
    let mut f = self.cx.fls();
    let mut any = false;
    for i in tr.iter().rev() {
      match i {
        It::Oblig(p) => {
          let c = self.canon.canon(&mut self.cx, *p);
          if self.cx.cval(c) != Some(0) {
            f = self.cx.or(c, f);
            any = true;
          }
        }
        It::Assume(c) if any => {
          let c = self.canon.canon(&mut self.cx, *c);
          f = self.cx.and(c, f);
        }
        _ => {}
      }
    }
    let (mut has, mut memo) = (Default::default(), Default::default());
    if !self.cx.has_product(f, &mut has) {
      return None;
    }
    let g = self.cx.free_products(f, &has, &mut memo);
    if self.opt.verbose {
      eprintln!("FREE {}", self.cx.show(g, 9));
    }
    Some(g)
  }
  pub fn finish(&mut self, s: &State) -> Result<(), Abort> {
    let f = self.fold(&s.trace);
    if self.cx.cval(f) == Some(0) {
      self.st.oblig_trivial += 1;
      return Ok(());
    }
    // a concrete counterexample may be easy to hit
    let mut rng = 0x9e3779b97f4a7c15u64;
    for k in 0..24 {
      let mut vals = crate::fx::HashMap::default();
      for (i, v) in self.cx.vars.iter().enumerate() {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        let r = (rng >> 8) as u128;
        let n = v.hi - v.lo;
        let x = match k % 4 {
          0 => r % n.saturating_add(1).max(1),
          1 => n / 2 + (r % 17).min(n / 2),
          2 => if r & 1 == 0 { n } else { r % n.saturating_add(1).max(1) },
          _ => if r & 3 != 0 { n / 2 } else { r % n.saturating_add(1).max(1) },
        };
        vals.insert(i as u32, v.lo + x);
      }
      let m = Model::new(vals);
      if m.eval(&self.cx, f) == 1 {
        return self.violation(s, &m, self.describe(&s.trace, &m));
      }
    }
    // few input values in all: decide by evaluating the formula on each
    let sup = self.sol.support(&self.cx, f);
    let mut dom = 1u128;
    for &v in sup.iter() {
      let vi = &self.cx.vars[v as usize];
      dom = dom.saturating_mul((vi.hi - vi.lo).saturating_add(1));
    }
    if dom <= 1 << 17 {
      let mut ix = 0u128;
      let mut over = false;
      while ix < dom {
        let mut vals = crate::fx::HashMap::default();
        let mut r = ix;
        for &v in sup.iter() {
          let vi = &self.cx.vars[v as usize];
          let n = vi.hi - vi.lo + 1;
          vals.insert(v, vi.lo + r % n);
          r /= n;
        }
        let m = Model::new(vals);
        if m.eval(&self.cx, f) == 1 {
          return self.violation(s, &m, self.describe(&s.trace, &m));
        }
        ix += 1;
        if ix & 0xff == 0 && self.timed_out() {
          over = true;
          break;
        }
      }
      if !over {
        self.st.oblig_internal += 1;
        return Ok(());
      }
    }
    let b = self.sol.budget;
    self.sol.budget = self.opt.int_budget;
    // products as free values: unsatisfiable then, unsatisfiable
    let g = self.without_products(&s.trace);
    if let Some(g) = g {
      self.sol.budget = self.opt.int_budget * 50;
      let r = self.sol.check(&self.cx, &[g]).0;
      self.sol.budget = self.opt.int_budget;
      if matches!(r, Res::Unsat) {
        self.sol.budget = b;
        self.st.oblig_internal += 1;
        return Ok(());
      }
    }
    let (r, h) = self.sol.check(&self.cx, &[f]);
    self.sol.budget = b;
    match r {
      Res::Unsat => {
        self.st.oblig_internal += 1;
        Ok(())
      }
      Res::Sat => {
        let m = Model::new(h.unwrap());
        if m.eval(&self.cx, f) != 1 {
          return inc("internal solver model does not satisfy the obligation");
        }
        self.violation(s, &m, self.describe(&s.trace, &m))
      }
      Res::Unknown => {
        if let Some(g) = g {
          let path = format!("{}/q{}_{}_p.cnf", self.opt.tmp, std::process::id(), self.st.ext_queries);
          let j = write_cnf(&self.cx, g, &path);
          let left = self.opt.time.saturating_sub(self.t0.elapsed().as_secs()).max(1);
          let t = Instant::now();
          let r = run_kissat(&j, left.min(15));
          self.st.ext_queries += 1;
          self.st.ext_clauses += j.clauses as u64;
          self.st.ext_time += t.elapsed().as_secs_f64();
          let _ = std::fs::remove_file(&j.path);
          if matches!(r, Ext::Unsat) {
            return Ok(());
          }
        }
        self.pending.push(Pend { f, inputs: s.inputs.clone(), what: "assertion (external solver)".into() });
        if self.pending.len() >= self.opt.batch * self.opt.jobs {
          self.flush()?;
        }
        Ok(())
      }
    }
  }
  fn describe(&self, _tr: &[It], _m: &Model) -> String {
    "assertion or panic reachable".into()
  }
  /// Discharge pending obligations with the external solver.
  pub fn flush(&mut self) -> Result<(), Abort> {
    if self.pending.is_empty() {
      return Ok(());
    }
    let all = std::mem::take(&mut self.pending);
    let mut groups: Vec<Vec<Pend>> = vec![];
    let per = ((all.len() + self.opt.jobs - 1) / self.opt.jobs).max(1);
    let mut it = all.into_iter().peekable();
    while it.peek().is_some() {
      groups.push(it.by_ref().take(per).collect());
    }
    self.discharge(groups, 0)
  }
  fn discharge(&mut self, groups: Vec<Vec<Pend>>, level: u32) -> Result<(), Abort> {
    let left = self.opt.time.saturating_sub(self.t0.elapsed().as_secs()).max(1);
    let lim = self.opt.ext_time.min(left);
    let mut jobs = vec![];
    for (i, g) in groups.iter().enumerate() {
      let mut f = self.cx.fls();
      for p in g {
        f = self.cx.or(f, p.f);
      }
      let path = format!("{}/q{}_{}_{}.cnf", self.opt.tmp, std::process::id(), self.st.ext_queries, i);
      let j = write_cnf(&self.cx, f, &path);
      self.st.ext_clauses += j.clauses as u64;
      jobs.push((f, j));
    }
    self.st.ext_queries += jobs.len() as u64;
    let mut results = vec![];
    let nj = self.opt.jobs;
    let t = Instant::now();
    let jr: Vec<&Job> = jobs.iter().map(|(_, j)| j).collect();
    for ch in jr.chunks(nj) {
      let rs: Vec<Ext> = std::thread::scope(|sc| {
        let hs: Vec<_> = ch.iter().map(|j| sc.spawn(move || run_kissat(j, lim))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
      });
      results.extend(rs);
    }
    self.st.ext_time += t.elapsed().as_secs_f64();
    for (_, j) in &jobs {
      let _ = std::fs::remove_file(&j.path);
    }
    let mut unk: Vec<Vec<Pend>> = vec![];
    let mut why = String::new();
    for ((g, (f, _)), r) in groups.into_iter().zip(jobs.into_iter()).zip(results) {
      match r {
        Ext::Unsat => {}
        Ext::Sat(h) => {
          let m = Model::new(h);
          if m.eval(&self.cx, f) != 1 {
            return inc("external solver model does not satisfy the obligation");
          }
          for p in &g {
            if m.eval(&self.cx, p.f) == 1 {
              return Err(Abort::Violation {
                what: p.what.clone(),
                inputs: self.input_bytes(&p.inputs, &m),
                trace: String::new(),
              });
            }
          }
        }
        Ext::Unknown(w) => {
          why = w;
          if g.len() > 1 {
            for p in g {
              unk.push(vec![p]);
            }
          } else {
            unk.push(g);
            if level > 0 {
              return inc(format!("obligation not decided: {why}"));
            }
          }
        }
      }
    }
    if !unk.is_empty() {
      if level > 0 || self.t0.elapsed().as_secs() + 5 > self.opt.time || unk.iter().all(|_| false) {
        return inc(format!("obligation not decided: {why}"));
      }
      return self.discharge(unk, level + 1);
    }
    Ok(())
  }

  // ---------------------------------------------------------------- memory
  /// Read `n` bytes at a concrete, checked place.
  fn read(&mut self, o: &Obj, off: u64, n: u64) -> V {
    let (off, nn) = (off as usize, n as usize);
    if nn == 0 {
      return V::C(0);
    }
    if let Some(sym) = &o.sym {
      let sl = &sym[off..off + nn];
      if sl.iter().any(|x| x.0 != 0) {
        // group runs
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < nn {
          let (t, k) = sl[i];
          let mut j = i + 1;
          let piece;
          if t == 0 {
            while j < nn && sl[j].0 == 0 {
              j += 1;
            }
            let mut c = 0u128;
            for q in (i..j).rev() {
              c = (c << 8) | o.data[off + q] as u128;
            }
            piece = self.cx.con(c, 8 * (j - i) as u16);
          } else {
            while j < nn && sl[j].0 == t && sl[j].1 as usize == k as usize + (j - i) {
              j += 1;
            }
            piece = self.cx.extract(t, 8 * k as u16, 8 * (j - i) as u16);
          }
          acc = Some(match acc {
            None => piece,
            Some(lo) => self.cx.concat(piece, lo),
          });
          i = j;
        }
        return self.v(acc.unwrap());
      }
    }
    let mut c = 0u128;
    for i in (0..nn).rev() {
      c = (c << 8) | o.data[off + i] as u128;
    }
    V::C(c)
  }
  fn write(o: &mut Obj, off: u64, n: u64, v: &V) {
    let (off, n) = (off as usize, n as usize);
    match v {
      V::C(c) => {
        o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
        if let Some(s) = &mut o.sym {
          for x in &mut s[off..off + n] {
            *x = (0, 0);
          }
        }
      }
      V::S(t) => {
        let sz = o.size as usize;
        let s = o.sym.get_or_insert_with(|| vec![(0, 0); sz]);
        for i in 0..n {
          s[off + i] = (*t, i as u8);
        }
      }
      _ => unreachable!(),
    }
  }
  fn load_from(&mut self, o: &Obj, off: u64, ty: &Ty) -> Result<V, Abort> {
    match ty {
      Ty::Int(w) => {
        let n = ty.store_size();
        let v = self.read(o, off, n);
        Ok(match v {
          V::C(c) => V::C(c & mask(*w)),
          V::S(t) => {
            if self.cx.w(t) > *w {
              let e = self.cx.extract(t, 0, *w);
              self.v(e)
            } else {
              V::S(t)
            }
          }
          x => x,
        })
      }
      Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_) => Ok(self.read(o, off, ty.size())),
      Ty::Vec(n, t) => {
        if let Ty::Int(w) = **t {
          if w % 8 != 0 {
            // packed bits
            let tot = (*n as u16) * w;
            let whole = self.load_from(o, off, &Ty::Int(tot))?;
            return self.bits_to(&whole, tot, ty);
          }
        }
        let es = t.store_size();
        let mut r = vec![];
        for i in 0..*n {
          r.push(self.load_from(o, off + i * es, t)?);
        }
        Ok(V::A(Rc::new(r)))
      }
      Ty::Arr(n, _) => {
        let mut r = vec![];
        for i in 0..*n {
          let (fo, ft) = ty.field(i as usize);
          r.push(self.load_from(o, off + fo, &ft)?);
        }
        Ok(V::A(Rc::new(r)))
      }
      Ty::Struct(ts, _) => {
        let mut r = vec![];
        for i in 0..ts.len() {
          let (fo, ft) = ty.field(i);
          r.push(self.load_from(o, off + fo, &ft)?);
        }
        Ok(V::A(Rc::new(r)))
      }
      Ty::Void | Ty::Other => inc("load type"),
    }
  }
  /// Flatten a value into byte-sized stores relative to an offset.
  fn flat(&mut self, ty: &Ty, v: &V, off: u64, out: &mut Vec<(u64, u64, V)>) -> Result<(), Abort> {
    match ty {
      Ty::Int(w) => {
        let n = ty.store_size();
        let v = match v {
          V::S(t) if (*w as u64) < 8 * n => {
            let e = self.cx.zext(*t, 8 * n as u16);
            V::S(e)
          }
          V::U => V::C(0),
          v => v.clone(),
        };
        out.push((off, n, v));
        Ok(())
      }
      Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_) => {
        let v = if let V::U = v { V::C(0) } else { v.clone() };
        out.push((off, ty.size(), v));
        Ok(())
      }
      Ty::Vec(n, t) => {
        if let Ty::Int(w) = **t {
          if w % 8 != 0 {
            let tot = (*n as u16) * w;
            let b = self.to_bits(v, ty)?;
            return self.flat(&Ty::Int(tot), &b, off, out);
          }
        }
        let es = t.store_size();
        if let V::A(a) = v {
          for (i, x) in a.iter().enumerate() {
            self.flat(t, x, off + i as u64 * es, out)?;
          }
          Ok(())
        } else {
          inc("vector store")
        }
      }
      Ty::Arr(..) | Ty::Struct(..) => {
        if let V::A(a) = v {
          for (i, x) in a.iter().enumerate() {
            let (fo, ft) = ty.field(i);
            self.flat(&ft, x, off + fo, out)?;
          }
          Ok(())
        } else {
          inc("aggregate store")
        }
      }
      _ => inc("store type"),
    }
  }
  pub fn to_bits(&mut self, v: &V, ty: &Ty) -> Result<V, Abort> {
    match ty {
      Ty::Vec(_, t) => {
        let w = t.bits();
        let a = match v {
          V::A(a) => a.clone(),
          _ => return inc("vector bits"),
        };
        let mut acc: Option<T> = None;
        for x in a.iter() {
          let e = self.t(x, w);
          acc = Some(match acc {
            None => e,
            Some(l) => {
              if self.cx.w(l) + w > 128 {
                return inc("wide vector bitcast");
              }
              self.cx.concat(e, l)
            }
          });
        }
        Ok(self.v(acc.unwrap()))
      }
      _ => Ok(v.clone()),
    }
  }
  pub fn bits_to(&mut self, v: &V, w: u16, ty: &Ty) -> Result<V, Abort> {
    match ty {
      Ty::Vec(n, t) => {
        let ew = t.bits();
        let x = self.t(v, w);
        let mut r = vec![];
        for i in 0..*n {
          let e = self.cx.extract(x, i as u16 * ew, ew);
          r.push(self.v(e));
        }
        Ok(V::A(Rc::new(r)))
      }
      _ => Ok(v.clone()),
    }
  }
  /// The object a concrete address points into.
  pub fn locate(&mut self, s: &State, a: u64) -> (u32, i64) {
    let _ = s;
    let id = (a >> 32) as u32;
    (id, (a & 0xffff_ffff) as i64 - OFF0 as i64)
  }
  /// Split a symbolic address into leaves (guard, object id, offset term or const).
  fn leaves(&mut self, s: &State, a: T, guard: T, out: &mut Vec<(T, u32, T)>, depth: u32) -> Result<(), Abort> {
    if let Some(c) = self.know(s, a, 4) {
      let id = (c as u64 >> 32) as u32;
      let off = self.cx.con((c as u64).wrapping_sub(addr_of(id)) as u128, 64);
      out.push((guard, id, off));
      return Ok(());
    }
    if depth > 200 {
      return inc("symbolic pointer too deep");
    }
    let n = self.cx.n(a);
    if n.op == Op::Ite {
      if let Some(c) = self.know(s, n.a, 4) {
        return self.leaves(s, if c != 0 { n.b } else { n.c }, guard, out, depth + 1);
      }
      let g1 = self.cx.and(guard, n.a);
      let nc = self.cx.not(n.a);
      let g2 = self.cx.and(guard, nc);
      if self.cx.cval(g1) != Some(0) {
        self.leaves(s, n.b, g1, out, depth + 1)?;
      }
      if self.cx.cval(g2) != Some(0) {
        self.leaves(s, n.c, g2, out, depth + 1)?;
      }
      return Ok(());
    }
    // sum: look for the object base
    let mut terms = vec![a];
    let mut k: u64 = 0;
    let mut parts = vec![];
    while let Some(t) = terms.pop() {
      let n = self.cx.n(t);
      match n.op {
        Op::Add => {
          terms.push(n.a);
          terms.push(n.b);
        }
        Op::Sub => {
          // keep the negative part whole
          terms.push(n.a);
          let ng = self.cx.neg(n.b);
          if self.cx.n(ng).op == Op::Add {
            parts.push(ng)
          } else {
            parts.push(ng)
          }
        }
        _ => match self.know(s, t, 3) {
          Some(c) => k = k.wrapping_add(c as u64),
          None => parts.push(t),
        },
      }
    }
    let inf = self.cx.inf(a);
    if (inf.umin >> 32) == (inf.umax >> 32) && (inf.umin as u64 >> 32) != 0 {
      let id = (inf.umin >> 32) as u32;
      let b = self.cx.con(addr_of(id) as u128, 64);
      let off = self.cx.sub(a, b);
      out.push((guard, id, off));
      return Ok(());
    }
    let id = ((k.wrapping_add(0x4000_0000)) >> 32) as u32;
    let id0 = (k >> 32) as u32;
    for id in [id0, id] {
      if id != 0 && id < FID && self.obj(s, id)?.is_some() {
        let b = self.cx.con(addr_of(id) as u128, 64);
        let off = self.cx.sub(a, b);
        out.push((guard, id, off));
        return Ok(());
      }
    }
    // a pointer-valued ite inside the sum
    for (i, &p) in parts.iter().enumerate() {
      let n = self.cx.n(p);
      if n.op == Op::Ite {
        let inf = self.cx.inf(p);
        if inf.umax >> 32 == 0 {
          continue;
        }
        let mut rest = self.cx.con(k as u128, 64);
        for (j, &q) in parts.iter().enumerate() {
          if i != j {
            rest = self.cx.add(rest, q);
          }
        }
        let x = self.cx.add(n.b, rest);
        let y = self.cx.add(n.c, rest);
        if let Some(c) = self.know(s, n.a, 4) {
          return self.leaves(s, if c != 0 { x } else { y }, guard, out, depth + 1);
        }
        let g1 = self.cx.and(guard, n.a);
        let nc = self.cx.not(n.a);
        let g2 = self.cx.and(guard, nc);
        if self.cx.cval(g1) != Some(0) {
          self.leaves(s, x, g1, out, depth + 1)?;
        }
        if self.cx.cval(g2) != Some(0) {
          self.leaves(s, y, g2, out, depth + 1)?;
        }
        return Ok(());
      }
    }
    Err(Abort::Conc(a))
  }
  /// Candidate offsets of `off` for an n-byte access in an object of `size`.
  fn candidates(&mut self, off: T, size: u64, n: u64) -> Result<(u64, u64, u64), Abort> {
    let inf = self.cx.inf(off);
    let top = size - n;
    let lo = if inf.umin > top as u128 { 0 } else { inf.umin as u64 };
    let hi = if inf.umax > top as u128 { top } else { inf.umax as u64 };
    let known = inf.kz | inf.ko;
    let k = (!known).trailing_zeros().min(16);
    let step = 1u64 << k;
    let res = (inf.ko as u64) & (step - 1);
    let mut l = lo;
    while l & (step - 1) != res {
      l += 1;
    }
    if l > hi {
      return Ok((lo, lo, 1));
    }
    let cnt = (hi - l) / step + 1;
    if cnt > self.opt.max_mux {
      return Err(Abort::Conc(off));
    }
    Ok((l, hi, step))
  }
  fn mux(&mut self, off: T, l: u64, hi: u64, step: u64, get: &mut dyn FnMut(&mut Engine, u64) -> T) -> T {
    // binary decision over the bits of the offset
    let k = step.trailing_zeros();
    let li = l >> k;
    let hi_i = (hi - (l & (step - 1))) >> k;
    let lowbits = l & (step - 1);
    let nb = 64 - hi_i.leading_zeros();
    fn rec(e: &mut Engine, off: T, k: u32, bit: u32, pre: u64, li: u64, hi: u64, low: u64, get: &mut dyn FnMut(&mut Engine, u64) -> T) -> Option<T> {
      // prefix `pre` covers indices [pre<<bit, (pre+1)<<bit)
      let a = pre << bit;
      let b = ((pre + 1) << bit) - 1;
      if b < li || a > hi {
        return None;
      }
      if bit == 0 {
        return Some(get(e, (a << k) | low));
      }
      let x = rec(e, off, k, bit - 1, pre * 2, li, hi, low, get);
      let y = rec(e, off, k, bit - 1, pre * 2 + 1, li, hi, low, get);
      match (x, y) {
        (None, y) => y,
        (x, None) => x,
        (Some(x), Some(y)) => {
          if x == y {
            return Some(x);
          }
          let c = e.cx.extract(off, (k + bit - 1) as u16, 1);
          Some(e.cx.ite(c, y, x))
        }
      }
    }
    rec(self, off, k, nb, 0, li, hi_i, lowbits, get).unwrap()
  }
  pub fn load(&mut self, s: &mut State, p: &V, ty: &Ty) -> Result<Option<V>, Abort> {
    let n = ty.store_size();
    match p {
      V::C(a) => {
        let a = *a as u64;
        let (id, off) = self.locate(s, a);
        let o = self.obj(s, id)?;
        match o {
          Some(o) if off >= 0 && off as u64 + n <= o.size => {
            let v = self.load_from(&o, off as u64, ty)?;
            Ok(Some(self.simp(s, v)))
          }
          o => {
            let t = self.cx.tru();
            let sz = o.map(|o| o.size);
            self.oblige(s, t, &|| format!("invalid read of {n} bytes at object {id} offset {off} size {sz:?}"))?;
            Ok(None)
          }
        }
      }
      V::S(a) => {
        // scalars only; aggregates field by field
        match ty {
          Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
            let cnt = match ty {
              Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
              Ty::Struct(t, _) => t.len(),
              _ => 0,
            };
            let mut r = vec![];
            for i in 0..cnt {
              let (fo, ft) = match ty {
                Ty::Vec(_, t) => (t.store_size() * i as u64, (**t).clone()),
                _ => ty.field(i),
              };
              let k = self.cx.con(fo as u128, 64);
              let fa = self.cx.add(*a, k);
              let fv = self.v(fa);
              match self.load(s, &fv, &ft)? {
                None => return Ok(None),
                Some(x) => r.push(x),
              }
            }
            return Ok(Some(V::A(Rc::new(r))));
          }
          _ => {}
        }
        let w = ty.bits();
        let g = self.cx.tru();
        let mut lv = vec![];
        self.leaves(s, *a, g, &mut lv, 0)?;
        let mut acc: Option<T> = None;
        let many = lv.len() > 1;
        for (g, id, off) in lv {
          let o = match self.obj(s, id)? {
            Some(o) if o.size >= n => o,
            _ => {
              if many {
                if let (Res::Unsat, _) = self.feasible(s, g) {
                  continue;
                }
              }
              if !self.oblige(s, g, &|| format!("invalid symbolic read (object {id})"))? {
                return Ok(None);
              }
              continue;
            }
          };
          let lim = self.cx.con((o.size - n) as u128, 64);
          let oob = self.cx.ult(lim, off);
          let bad = self.cx.and(g, oob);
          self.st.oob_checks += 1;
          if !self.oblige(s, bad, &|| format!("read out of bounds: object {id} size {}", lim))? {
            return Ok(None);
          }
          let t = if let Some(c) = self.cx.cval(off) {
            if c as u64 > o.size - n {
              continue;
            }
            let v = self.load_from(&o, c as u64, ty)?;
            self.t(&v, w)
          } else {
            let (l, h, st) = self.candidates(off, o.size, n)?;
            let oo = o.clone();
            let tyc = ty.clone();
            self.mux(off, l, h, st, &mut |e: &mut Engine, x| {
              let v = e.load_from(&oo, x, &tyc).unwrap();
              e.t(&v, w)
            })
          };
          acc = Some(match acc {
            None => t,
            Some(p) => self.cx.ite(g, t, p),
          });
        }
        match acc {
          None => Ok(None),
          Some(t) => {
            let v = self.v(t);
            Ok(Some(self.simp(s, v)))
          }
        }
      }
      _ => inc("load pointer"),
    }
  }
  fn simp(&mut self, s: &State, v: V) -> V {
    if let V::S(t) = v {
      if let Some(c) = self.know(s, t, 3) {
        return V::C(c);
      }
    }
    v
  }
  pub fn store(&mut self, s: &mut State, p: &V, ty: &Ty, v: &V) -> Result<bool, Abort> {
    let n = ty.store_size();
    let mut fl = vec![];
    self.flat(ty, v, 0, &mut fl)?;
    match p {
      V::C(a) => {
        let a = *a as u64;
        let (id, off) = self.locate(s, a);
        let ok = match self.obj_mut(s, id)? {
          Some(o) if off >= 0 && off as u64 + n <= o.size && !o.ro => {
            for (fo, fnb, fv) in &fl {
              Self::write(o, off as u64 + fo, *fnb, fv);
            }
            true
          }
          _ => false,
        };
        if !ok {
          let t = self.cx.tru();
          self.oblige(s, t, &|| format!("invalid write of {n} bytes at object {id} offset {off}"))?;
          return Ok(false);
        }
        Ok(true)
      }
      V::S(a) => {
        let g = self.cx.tru();
        let mut lv = vec![];
        self.leaves(s, *a, g, &mut lv, 0)?;
        for (g, id, off) in lv {
          let o = match self.obj(s, id)? {
            Some(o) if o.size >= n && !o.ro => o,
            _ => {
              if !self.oblige(s, g, &|| format!("invalid symbolic write (object {id})"))? {
                return Ok(false);
              }
              continue;
            }
          };
          let lim = self.cx.con((o.size - n) as u128, 64);
          let oob = self.cx.ult(lim, off);
          let bad = self.cx.and(g, oob);
          self.st.oob_checks += 1;
          if !self.oblige(s, bad, &|| format!("write out of bounds: object {id}"))? {
            return Ok(false);
          }
          let (l, h, st) = match self.cx.cval(off) {
            Some(c) => (c as u64, c as u64, 1),
            None => self.candidates(off, o.size, n)?,
          };
          let mut x = l;
          while x <= h {
            let k = self.cx.con(x as u128, 64);
            let e = self.cx.eq(off, k);
            let c = self.cx.and(g, e);
            if self.cx.cval(c) != Some(0) {
              for (fo, fnb, fv) in &fl {
                let w = 8 * *fnb as u16;
                let old = self.read(&o, x + fo, *fnb);
                // overlapping candidates: read the current content
                let old = if st < n {
                  let cur = self.obj(s, id)?.unwrap();
                  self.read(&cur, x + fo, *fnb)
                } else {
                  old
                };
                let ot = self.t(&old, w);
                let nt = self.t(fv, w);
                let r = self.cx.ite(c, nt, ot);
                let rv = self.v(r);
                let om = self.obj_mut(s, id)?.unwrap();
                Self::write(om, x + fo, *fnb, &rv);
              }
            }
            x += st;
          }
        }
        Ok(true)
      }
      _ => inc("store pointer"),
    }
  }
  /// Copy bytes between concrete places.
  pub fn copy(&mut self, s: &mut State, d: u64, sp: u64, n: u64, what: &str) -> Result<bool, Abort> {
    if n == 0 {
      return Ok(true);
    }
    let (sid, soff) = self.locate(s, sp);
    let (did, doff) = self.locate(s, d);
    let so = self.obj(s, sid)?;
    let so = match so {
      Some(o) if soff >= 0 && soff as u64 + n <= o.size => o,
      o => {
        let t = self.cx.tru();
        let sz = o.map(|o| o.size);
        self.oblige(s, t, &|| format!("{what}: invalid source object {sid} offset {soff} len {n} size {sz:?}"))?;
        return Ok(false);
      }
    };
    let bytes = so.data[soff as usize..(soff as u64 + n) as usize].to_vec();
    let syms = so.sym.as_ref().map(|v| v[soff as usize..(soff as u64 + n) as usize].to_vec());
    drop(so);
    let ok = match self.obj_mut(s, did)? {
      Some(o) if doff >= 0 && doff as u64 + n <= o.size && !o.ro => {
        let a = doff as usize;
        let b = a + n as usize;
        o.data[a..b].copy_from_slice(&bytes);
        match syms {
          Some(sy) if sy.iter().any(|x| x.0 != 0) => {
            let sz = o.size as usize;
            o.sym.get_or_insert_with(|| vec![(0, 0); sz])[a..b].copy_from_slice(&sy);
          }
          _ => {
            if let Some(q) = &mut o.sym {
              for x in &mut q[a..b] {
                *x = (0, 0);
              }
            }
          }
        }
        true
      }
      _ => false,
    };
    if !ok {
      let t = self.cx.tru();
      self.oblige(s, t, &|| format!("{what}: invalid destination object {did} offset {doff} len {n}"))?;
    }
    Ok(ok)
  }
  pub fn alloc(&mut self, s: &mut State, n: u64, fill: u8) -> Result<u64, Abort> {
    if n > 1 << 30 {
      return inc(format!("allocation of {n} bytes"));
    }
    let id = s.mem.alloc(Obj::new(n, fill));
    if id >= GID {
      return inc("too many objects");
    }
    Ok(addr_of(id))
  }

  // -------------------------------------------------------------- control
  pub fn goto(&mut self, s: &mut State, to: u32) -> Result<(), Abort> {
    let f = s.frames.last().unwrap().f.clone();
    let from = s.frames.last().unwrap().blk;
    let b = &f.blocks[to as usize];
    if !b.phis.is_empty() {
      let mut vals = Vec::with_capacity(b.phis.len());
      for p in &b.phis {
        let o = match p.inc.iter().find(|(_, l)| *l == from) {
          Some((o, _)) => o,
          None => return inc("phi without edge"),
        };
        vals.push((p.dst, self.val(s, o)?));
      }
      let fr = Rc::make_mut(s.frames.last_mut().unwrap());
      for (d, v) in vals {
        fr.regs[d as usize] = v;
      }
    }
    let fr = Rc::make_mut(s.frames.last_mut().unwrap());
    fr.blk = to;
    fr.ip = 0;
    Ok(())
  }
  pub fn at_stop(&self, s: &State, stop: Stop) -> bool {
    match stop {
      Stop::No => false,
      Stop::Blk(d, b) => {
        let n = s.frames.len();
        n < d || (n == d && s.frames[d - 1].blk == b && s.frames[d - 1].ip == 0)
      }
      Stop::Ret(d) => s.frames.len() < d,
    }
  }
  pub fn ipdom(&mut self, f: &Rc<Func>) -> Rc<Vec<Option<u32>>> {
    if let Some(p) = self.pdom.get(&f.name) {
      return p.clone();
    }
    let n = f.blocks.len();
    let exit = n; // virtual
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in f.blocks.iter().enumerate() {
      match b.ins.last() {
        Some(I::Br(t)) => succ[i].push(*t as usize),
        Some(I::CondBr(_, a, b)) => {
          succ[i].push(*a as usize);
          succ[i].push(*b as usize)
        }
        Some(I::Switch(_, _, d, cs)) => {
          succ[i].push(*d as usize);
          for (_, l) in cs {
            succ[i].push(*l as usize);
          }
        }
        Some(I::Call { normal: Some(l), .. }) => succ[i].push(*l as usize),
        Some(I::Ret(_)) => succ[i].push(exit),
        _ => {}
      }
    }
    // reverse graph, post-order from exit
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, ss) in succ.iter().enumerate() {
      for &t in ss {
        pred[t].push(i);
      }
    }
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, i)) = st.pop() {
      if i < pred[x].len() {
        st.push((x, i + 1));
        let y = pred[x][i];
        if !seen[y] {
          seen[y] = true;
          st.push((y, 0));
        }
      } else {
        order.push(x);
      }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
      num[x] = i;
    }
    let mut dom: Vec<usize> = vec![usize::MAX; n + 1];
    dom[exit] = exit;
    let mut changed = true;
    while changed {
      changed = false;
      for &x in order.iter().rev() {
        if x == exit {
          continue;
        }
        let mut nd = usize::MAX;
        for &y in &succ[x] {
          if num[y] == usize::MAX || dom[y] == usize::MAX {
            continue;
          }
          if nd == usize::MAX {
            nd = y;
          } else {
            let (mut a, mut b) = (y, nd);
            while a != b {
              while num[a] < num[b] {
                a = dom[a];
              }
              while num[b] < num[a] {
                b = dom[b];
              }
            }
            nd = a;
          }
        }
        if nd != usize::MAX && dom[x] != nd {
          dom[x] = nd;
          changed = true;
        }
      }
    }
    // None: unreachable-only; Some(n) = exit
    let r: Vec<Option<u32>> = (0..n).map(|i| if dom[i] == usize::MAX { None } else { Some(dom[i] as u32) }).collect();
    let r = Rc::new(r);
    self.pdom.insert(f.name.clone(), r.clone());
    r
  }
  fn child(&mut self, s: &State, keep: bool, c: T, m: Option<Rc<Model>>) -> State {
    let mut k = s.clone();
    if !keep {
      for i in &mut k.trace {
        if let It::Oblig(_) = i {
          *i = It::Nop;
        }
      }
    }
    match m {
      Some(m) => {
        k.model = m;
        k.model_ok = true;
      }
      None => k.model_ok = false,
    }
    self.assume(&mut k, c);
    k
  }
  /// Fork on a list of exclusive, exhaustive conditions.  Returns the feasible
  /// children with their index.
  pub fn fork(&mut self, s: &State, cs: &[T]) -> Vec<(usize, State)> {
    let mut ok = vec![];
    for (i, &c) in cs.iter().enumerate() {
      if self.know(s, c, 6) == Some(0) {
        continue;
      }
      let (r, m) = self.feasible(s, c);
      if r != Res::Unsat {
        ok.push((i, c, m));
      }
    }
    let mut out = vec![];
    if ok.len() > 1 {
      self.st.forks += 1;
      if self.opt.verbose {
        let w = format!("fork: blk {} @ {}", s.frames.last().unwrap().blk, self.where_(s));
        *self.sites.entry(w).or_insert(0) += 1;
      }
    }
    for (j, (i, c, m)) in ok.into_iter().enumerate() {
      out.push((i, self.child(s, j == 0, c, m)));
    }
    out
  }
  /// Make a term concrete by forking over its feasible values; the instruction
  /// is retried in every child.
  pub fn concretize(&mut self, s: &State, t: T) -> Result<Step, Abort> {
    let mut v = if s.model_ok { Some(s.model.eval(&self.cx, t)) } else { None };
    if v.is_none() {
      let one = self.cx.tru();
      let mut s2 = s.clone();
      s2.model_ok = false;
      let (r, m) = self.feasible(&s2, one);
      match r {
        Res::Sat => v = Some(m.unwrap().eval(&self.cx, t)),
        Res::Unsat => return Ok(Step::Fork(vec![], Stop::No, 0)),
        Res::Unknown => return inc("cannot concretise: solver gave up"),
      }
    }
    let w = self.cx.w(t);
    let k = self.cx.con(v.unwrap(), w);
    let e = self.cx.eq(t, k);
    let ne = self.cx.not(e);
    let mut ch = self.fork(s, &[e, ne]);
    for (i, c) in &mut ch {
      if *i == 0 {
        Rc::make_mut(&mut c.facts).insert(t, v.unwrap());
      }
    }
    Ok(Step::Fork(ch.into_iter().rev().map(|x| x.1).collect(), Stop::No, 0))
  }

  // ---------------------------------------------------------------- merge
  pub fn merge2(&mut self, a: &State, b: &State, base: usize) -> Option<State> {
    if a.frames.len() != b.frames.len() || a.inputs.len() != b.inputs.len() || a.merge != b.merge || a.inputs != b.inputs {
      return None;
    }
    let d = a.frames.len();
    if d == 0 {
      return None;
    }
    for i in 0..d {
      if Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
        continue;
      }
      let (x, y) = (&a.frames[i], &b.frames[i]);
      if !Rc::ptr_eq(&x.f, &y.f) || x.blk != y.blk || x.ip != y.ip || x.allocas != y.allocas {
        return None;
      }
    }
    if a.trace.len() <= base || b.trace.len() <= base {
      return None;
    }
    // condition separating them
    let ca = self.conj(&a.trace[base..]);
    let cb = self.conj(&b.trace[base..]);
    let (c, ra, rb) = match (a.trace[base], b.trace[base]) {
      (It::Assume(x), It::Assume(y)) if self.cx.not(x) == y => {
        let ra = self.conj(&a.trace[base + 1..]);
        let rb = self.conj(&b.trace[base + 1..]);
        (x, ra, rb)
      }
      _ => {
        let t = self.cx.tru();
        (ca, t, cb)
      }
    };
    // memory
    let mut mem = a.mem.clone();
    mem.next = a.mem.next.max(b.mem.next);
    let n = a.mem.chunks.len().max(b.mem.chunks.len());
    for ch in 0..n {
      match (a.mem.chunks.get(ch), b.mem.chunks.get(ch)) {
        (Some(x), Some(y)) => {
          if Rc::ptr_eq(x, y) {
            continue;
          }
          for k in 0..CH {
            let m = match (&x[k], &y[k]) {
              (None, None) => None,
              (Some(p), None) => Some(p.clone()),
              (None, Some(q)) => Some(q.clone()),
              (Some(p), Some(q)) => {
                if Rc::ptr_eq(p, q) {
                  Some(p.clone())
                } else {
                  if p.size != q.size {
                    return None;
                  }
                  Some(Rc::new(self.merge_obj(c, p, q)))
                }
              }
            };
            Rc::make_mut(&mut mem.chunks[ch])[k] = m;
          }
        }
        (None, Some(y)) => mem.chunks.push(y.clone()),
        _ => {}
      }
    }
    let mut gl = (*a.gl).clone();
    if !Rc::ptr_eq(&a.gl, &b.gl) {
      for (id, q) in b.gl.iter() {
        let p = match a.gl.get(id) {
          Some(p) => p.clone(),
          None => self.gbase[id].clone(),
        };
        if !Rc::ptr_eq(&p, q) {
          let m = self.merge_obj(c, &p, q);
          gl.insert(*id, Rc::new(m));
        }
      }
      for (id, p) in a.gl.iter() {
        if !b.gl.contains_key(id) {
          let q = self.gbase[id].clone();
          if !Rc::ptr_eq(p, &q) {
            let m = self.merge_obj(c, p, &q);
            gl.insert(*id, Rc::new(m));
          }
        }
      }
    }
    // registers
    let mut frames = a.frames.clone();
    for i in 0..d {
      if Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
        continue;
      }
      let y = b.frames[i].clone();
      let f = a.frames[i].f.clone();
      let fr = Rc::make_mut(&mut frames[i]);
      for (k, q) in y.regs.iter().enumerate() {
        let p = &fr.regs[k];
        let r = self.merge_v(c, p, q, &f.rty[k]);
        fr.regs[k] = r;
      }
    }
    // trace
    let mut trace = vec![];
    for i in 0..base {
      trace.push(match (a.trace[i], b.trace[i]) {
        (It::Nop, y) => y,
        (x, _) => x,
      });
    }
    let fa = self.fold(&a.trace[base..]);
    let fb = self.fold(&b.trace[base..]);
    let f = self.cx.or(fa, fb);
    if self.cx.cval(f) != Some(0) {
      trace.push(It::Oblig(f));
    }
    let pc = match (self.cx.cval(ra), self.cx.cval(rb)) {
      (Some(1), Some(1)) => self.cx.tru(),
      _ => self.cx.or(ca, cb),
    };
    let mut facts = (*a.facts).clone();
    if !Rc::ptr_eq(&a.facts, &b.facts) {
      facts.retain(|k, v| b.facts.get(k) == Some(v));
    }
    let (m, ok) = if a.model_ok { (a.model.clone(), true) } else { (b.model.clone(), b.model_ok) };
    let mut st = State {
      frames,
      mem,
      gl: Rc::new(gl),
      trace,
      facts: Rc::new(facts),
      model: m,
      model_ok: ok,
      inputs: a.inputs.clone(),
      merge: a.merge,
    };
    self.assume(&mut st, pc);
    self.st.merges += 1;
    Some(st)
  }
  fn conj(&mut self, tr: &[It]) -> T {
    let mut r = self.cx.tru();
    for i in tr {
      if let It::Assume(c) = i {
        r = self.cx.and(r, *c);
      }
    }
    r
  }
  pub fn merge_v(&mut self, c: T, p: &V, q: &V, ty: &Ty) -> V {
    match (p, q) {
      (V::U, q) => q.clone(),
      (p, V::U) => p.clone(),
      (V::C(x), V::C(y)) if x == y => p.clone(),
      (V::S(x), V::S(y)) if x == y => p.clone(),
      (V::A(x), V::A(y)) => {
        if Rc::ptr_eq(x, y) || x.len() != y.len() {
          return p.clone();
        }
        let et = |i: usize| match ty {
          Ty::Struct(ts, _) => ts[i].clone(),
          Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
          _ => Ty::Other,
        };
        V::A(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (a, b))| self.merge_v(c, a, b, &et(i))).collect()))
      }
      (V::A(_), _) | (_, V::A(_)) => p.clone(),
      _ => {
        let w = match (p, q) {
          (V::S(t), _) | (_, V::S(t)) => self.cx.w(*t),
          _ => ty.bits(),
        };
        let (x, y) = (self.t(p, w), self.t(q, w));
        let r = self.cx.ite(c, x, y);
        self.v(r)
      }
    }
  }
  fn merge_obj(&mut self, c: T, p: &Obj, q: &Obj) -> Obj {
    let mut o = p.clone();
    let n = p.size as usize;
    let g = |o: &Obj, i: usize| -> (T, u8) { o.sym.as_ref().map(|s| s[i]).unwrap_or((0, 0)) };
    let mut i = 0;
    while i < n {
      let (a, b) = (g(p, i), g(q, i));
      if a == b && (a.0 != 0 || p.data[i] == q.data[i]) {
        i += 1;
        continue;
      }
      // widest run starting here that is one value on a symbolic side
      let mut len = 1usize;
      let run = |o: &Obj, i: usize| -> usize {
        let (t, k) = g(o, i);
        if t == 0 {
          return 0;
        }
        let mut j = 1;
        while i + j < n && g(o, i + j) == (t, k + j as u8) {
          j += 1;
        }
        j
      };
      let (rp, rq) = (run(p, i), run(q, i));
      let cl = |o: &Obj, i: usize, l: usize| (0..l).all(|k| g(o, i + k).0 == 0);
      if rp > 0 && rq > 0 {
        len = rp.min(rq);
      } else if rp > 0 {
        len = rp;
        while !cl(q, i, len) {
          len -= 1;
        }
      } else if rq > 0 {
        len = rq;
        while !cl(p, i, len) {
          len -= 1;
        }
      } else {
        // both concrete: merge aligned words where they differ
        let al = if i % 8 == 0 { 8 } else if i % 4 == 0 { 4 } else if i % 2 == 0 { 2 } else { 1 };
        let mut l = al.min(n - i);
        while l > 1 && (!l.is_power_of_two() || !cl(p, i, l) || !cl(q, i, l) || (p.data[i + l / 2..i + l] == q.data[i + l / 2..i + l])) {
          l /= 2;
        }
        len = l.max(1);
      }
      len = len.min(16);
      let x = self.read(p, i as u64, len as u64);
      let y = self.read(q, i as u64, len as u64);
      let w = 8 * len as u16;
      let (x, y) = (self.t(&x, w), self.t(&y, w));
      let r = self.cx.ite(c, x, y);
      let rv = self.v(r);
      Self::write(&mut o, i as u64, len as u64, &rv);
      i += len;
    }
    o
  }
}
