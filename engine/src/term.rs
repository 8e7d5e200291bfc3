//! Hash-consed bit-vector terms with construction-time simplification and
//! cached known-bits / interval facts (context free, so always valid).
use crate::fx::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Const,
  Var,
  Add,
  Sub,
  Mul,
  Udiv,
  Sdiv,
  Urem,
  Srem,
  And,
  Or,
  Xor,
  Shl,
  Lshr,
  Ashr,
  Eq,
  Ult,
  Slt,
  Smin,
  Smax,
  Ite,
  Concat,
  Extract, // a, lo = b
  Zext,
  Sext,
  /// monotone floating-point function `b` of an integer; see ffn.rs
  Ffn,
  /// table `b` of the signed value of a term; see tab.rs
  Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
  pub op: Op,
  pub w: u16,
  pub a: T,
  pub b: T,
  pub c: T,
}

#[derive(Clone, Copy)]
pub struct Info {
  pub kz: u128, // known zero bits
  pub ko: u128, // known one bits
  pub umin: u128,
  pub umax: u128,
  pub smin: i128,
  pub smax: i128,
}

pub fn mask(w: u16) -> u128 {
  if w >= 128 {
    !0
  } else {
    (1u128 << w) - 1
  }
}
pub fn sx(v: u128, w: u16) -> i128 {
  if w >= 128 {
    v as i128
  } else {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
  }
}

pub struct VarInfo {
  pub w: u16,
  pub seq: u32,
  pub lo: u128,
  pub hi: u128,
}

pub struct Ctx {
  pub nodes: Vec<Node>,
  pub info: Vec<Info>,
  consts: Vec<u128>,
  cmap: HashMap<(u128, u16), T>,
  map: HashMap<Node, T>,
  pub vars: Vec<VarInfo>,
  vmap: HashMap<(u32, u16, u128, u128), T>,
  pub ffn: Vec<crate::ffn::Chain>,
  pub ffn_ids: HashMap<String, u32>,
  pub tabs: Vec<crate::tab::Table>,
  pub tab_ids: HashMap<(i128, std::rc::Rc<Vec<i32>>), u32>,
}

impl Ctx {
  pub fn new() -> Self {
    let mut c = Ctx {
      nodes: vec![],
      info: vec![],
      consts: vec![],
      cmap: HashMap::default(),
      map: HashMap::default(),
      vars: vec![],
      vmap: HashMap::default(),
      ffn: vec![],
      ffn_ids: HashMap::default(),
      tabs: vec![],
      tab_ids: HashMap::default(),
    };
    // index 0: a dummy so that T==0 can mean "none"
    c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
    c.info.push(Info { kz: 0, ko: 0, umin: 0, umax: 0, smin: 0, smax: 0 });
    c.consts.push(0);
    c
  }
  #[inline]
  pub fn w(&self, t: T) -> u16 {
    self.nodes[t as usize].w
  }
  #[inline]
  pub fn n(&self, t: T) -> Node {
    self.nodes[t as usize]
  }
  #[inline]
  pub fn inf(&self, t: T) -> Info {
    self.info[t as usize]
  }
  #[inline]
  pub fn cval(&self, t: T) -> Option<u128> {
    let n = &self.nodes[t as usize];
    if n.op == Op::Const {
      Some(self.consts[n.a as usize])
    } else {
      None
    }
  }
  pub fn con(&mut self, v: u128, w: u16) -> T {
    let v = v & mask(w);
    if let Some(&t) = self.cmap.get(&(v, w)) {
      return t;
    }
    let i = self.consts.len() as u32;
    self.consts.push(v);
    let t = self.nodes.len() as T;
    self.nodes.push(Node { op: Op::Const, w, a: i, b: 0, c: 0 });
    self.info.push(Info {
      kz: !v & mask(w),
      ko: v,
      umin: v,
      umax: v,
      smin: sx(v, w),
      smax: sx(v, w),
    });
    self.cmap.insert((v, w), t);
    t
  }
  pub fn tru(&mut self) -> T {
    self.con(1, 1)
  }
  pub fn fls(&mut self) -> T {
    self.con(0, 1)
  }
  /// A symbolic input; `lo..=hi` is part of its meaning (unsigned).
  pub fn var(&mut self, seq: u32, w: u16, lo: u128, hi: u128) -> T {
    if lo == hi {
      return self.con(lo, w);
    }
    if let Some(&t) = self.vmap.get(&(seq, w, lo, hi)) {
      return t;
    }
    let i = self.vars.len() as u32;
    self.vars.push(VarInfo { w, seq, lo, hi });
    let t = self.nodes.len() as T;
    self.nodes.push(Node { op: Op::Var, w, a: i, b: 0, c: 0 });
    let mut inf = Self::full(w);
    inf.umin = lo;
    inf.umax = hi;
    let inf = Self::tighten(inf, w);
    self.info.push(inf);
    self.vmap.insert((seq, w, lo, hi), t);
    t
  }
  fn full(w: u16) -> Info {
    let m = mask(w);
    let half = 1u128 << (w - 1);
    Info { kz: 0, ko: 0, umin: 0, umax: m, smin: sx(half, w), smax: (half - 1) as i128 }
  }
  fn tighten(mut i: Info, w: u16) -> Info {
    let m = mask(w);
    for _ in 0..2 {
      // known bits -> unsigned
      if i.ko > i.umin {
        i.umin = i.ko;
      }
      let mx = m & !i.kz;
      if mx < i.umax {
        i.umax = mx;
      }
      if i.umin > i.umax {
        // contradictory (dead) term; keep something consistent
        i.umin = i.umax;
      }
      // unsigned -> known zero high bits
      let d = i.umin ^ i.umax;
      let hb = 128 - d.leading_zeros();
      let common = if hb >= 128 { 0 } else { (!0u128 << hb) & m };
      i.kz |= common & !i.umin;
      i.ko |= common & i.umin;
      // unsigned <-> signed
      let half = 1u128 << (w - 1);
      if i.umax < half {
        i.smin = i.smin.max(i.umin as i128);
        i.smax = i.smax.min(i.umax as i128);
      } else if i.umin >= half {
        i.smin = i.smin.max(sx(i.umin, w));
        i.smax = i.smax.min(sx(i.umax, w));
      }
      if i.smin > i.smax {
        i.smin = i.smax;
      }
      if i.smin >= 0 {
        i.umin = i.umin.max(i.smin as u128);
        i.umax = i.umax.min(i.smax as u128);
      } else if i.smax < 0 {
        i.umin = i.umin.max(i.smin as u128 & m);
        i.umax = i.umax.min(i.smax as u128 & m);
      }
      if i.umin > i.umax {
        i.umin = i.umax;
      }
    }
    i
  }
  fn compute(&self, n: &Node) -> Info {
    let w = n.w;
    let m = mask(w);
    let mut r = Self::full(w);
    let ia = || self.info[n.a as usize];
    let ib = || self.info[n.b as usize];
    match n.op {
      Op::Const | Op::Var => {}
      Op::Add => {
        let (a, b) = (ia(), ib());
        if let (Some(lo), Some(hi)) = (a.umin.checked_add(b.umin), a.umax.checked_add(b.umax)) {
          if hi <= m {
            r.umin = lo;
            r.umax = hi;
          } else if lo > m && hi <= m.saturating_mul(2).saturating_add(1) && w < 128 {
            r.umin = lo & m;
            r.umax = hi & m;
          }
        }
        if let (Some(lo), Some(hi)) = (a.smin.checked_add(b.smin), a.smax.checked_add(b.smax)) {
          let f = Self::full(w);
          if lo >= f.smin && hi <= f.smax {
            r.smin = lo;
            r.smax = hi;
          }
        }
        // low zero bits
        let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w as u32);
        if tz > 0 {
          r.kz |= mask(tz as u16);
        }
      }
      Op::Sub => {
        let (a, b) = (ia(), ib());
        if a.umin >= b.umax {
          r.umin = a.umin - b.umax;
          r.umax = a.umax - b.umin;
        }
        if let (Some(lo), Some(hi)) = (a.smin.checked_sub(b.smax), a.smax.checked_sub(b.smin)) {
          let f = Self::full(w);
          if lo >= f.smin && hi <= f.smax {
            r.smin = lo;
            r.smax = hi;
          }
        }
        let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w as u32);
        if tz > 0 {
          r.kz |= mask(tz as u16);
        }
      }
      Op::Mul => {
        let (a, b) = (ia(), ib());
        if let Some(hi) = a.umax.checked_mul(b.umax) {
          if hi <= m {
            r.umin = a.umin * b.umin;
            r.umax = hi;
          }
        }
        let mut lo = i128::MAX;
        let mut hi = i128::MIN;
        let mut ok = true;
        for x in [a.smin, a.smax] {
          for y in [b.smin, b.smax] {
            match x.checked_mul(y) {
              Some(v) => {
                lo = lo.min(v);
                hi = hi.max(v);
              }
              None => ok = false,
            }
          }
        }
        let f = Self::full(w);
        if ok && lo >= f.smin && hi <= f.smax {
          r.smin = lo;
          r.smax = hi;
        }
        let tz = ((!a.kz).trailing_zeros() + (!b.kz).trailing_zeros()).min(w as u32);
        if tz > 0 {
          r.kz |= mask(tz as u16);
        }
      }
      Op::Udiv => {
        let (a, b) = (ia(), ib());
        if b.umin > 0 {
          r.umin = a.umin / b.umax;
          r.umax = a.umax / b.umin;
        }
      }
      Op::Urem => {
        let (a, b) = (ia(), ib());
        if b.umin > 0 {
          r.umax = (b.umax - 1).min(a.umax);
        }
      }
      Op::Sdiv => {
        let (a, b) = (ia(), ib());
        if b.smin > 0 {
          let c = [a.smin / b.smin, a.smin / b.smax, a.smax / b.smin, a.smax / b.smax];
          r.smin = *c.iter().min().unwrap();
          r.smax = *c.iter().max().unwrap();
          if a.smin < 0 && a.smax > 0 {
            r.smin = r.smin.min(0);
            r.smax = r.smax.max(0);
          }
        }
      }
      Op::Srem => {
        let (a, b) = (ia(), ib());
        if b.smin > 0 {
          r.smax = if a.smax <= 0 { 0 } else { (b.smax - 1).min(a.smax) };
          r.smin = if a.smin >= 0 { 0 } else { (-(b.smax - 1)).max(a.smin) };
        }
      }
      Op::And => {
        let (a, b) = (ia(), ib());
        r.kz = a.kz | b.kz;
        r.ko = a.ko & b.ko;
        r.umax = a.umax.min(b.umax);
      }
      Op::Or => {
        let (a, b) = (ia(), ib());
        r.kz = a.kz & b.kz;
        r.ko = a.ko | b.ko;
        r.umin = a.umin.max(b.umin);
      }
      Op::Xor => {
        let (a, b) = (ia(), ib());
        r.kz = (a.kz & b.kz) | (a.ko & b.ko);
        r.ko = (a.kz & b.ko) | (a.ko & b.kz);
        // x ^ -1 == -1 - x
        if b.ko == m {
          r.umin = m - a.umax;
          r.umax = m - a.umin;
          r.smin = -1 - a.smax;
          r.smax = -1 - a.smin;
        }
      }
      Op::Shl => {
        let (a, b) = (ia(), ib());
        if b.umax < w as u128 {
          let s = b.umax as u32;
          if a.umax <= (m >> s) {
            r.umax = a.umax << s;
            r.umin = a.umin << (b.umin as u32);
          }
          let tz = ((!a.kz).trailing_zeros() + b.umin as u32).min(w as u32);
          if tz > 0 {
            r.kz |= mask(tz as u16);
          }
          let f = Self::full(w);
          // signed: exact when no overflow
          if w < 100 {
            let c = [a.smin << b.umin as u32, a.smin << s, a.smax << b.umin as u32, a.smax << s];
            let lo = *c.iter().min().unwrap();
            let hi = *c.iter().max().unwrap();
            let fits = (a.smin.unsigned_abs().leading_zeros() > s + 1) && (a.smax.unsigned_abs().leading_zeros() > s + 1);
            if fits && lo >= f.smin && hi <= f.smax {
              r.smin = lo;
              r.smax = hi;
            }
          }
        }
      }
      Op::Lshr => {
        let (a, b) = (ia(), ib());
        let s = b.umin.min(w as u128) as u32;
        r.umax = if s >= 128 { 0 } else { a.umax >> s };
        if b.umax < w as u128 {
          r.umin = a.umin >> (b.umax as u32);
        }
      }
      Op::Ashr => {
        let (a, b) = (ia(), ib());
        let s0 = b.umin.min(w as u128 - 1) as u32;
        let s1 = b.umax.min(w as u128 - 1) as u32;
        let c = [a.smin >> s0, a.smin >> s1, a.smax >> s0, a.smax >> s1];
        r.smin = *c.iter().min().unwrap();
        r.smax = *c.iter().max().unwrap();
      }
      Op::Eq | Op::Ult | Op::Slt | Op::Ffn => {}
      Op::Tab => {
        let t = &self.tabs[n.b as usize];
        r.smin = t.min;
        r.smax = t.max;
      }
      Op::Smin | Op::Smax => {
        let (a, b) = (ia(), ib());
        r.kz = a.kz & b.kz;
        r.ko = a.ko & b.ko;
        if n.op == Op::Smin {
          r.smin = a.smin.min(b.smin);
          r.smax = a.smax.min(b.smax);
        } else {
          r.smin = a.smin.max(b.smin);
          r.smax = a.smax.max(b.smax);
        }
      }
      Op::Ite => {
        let (a, b) = (self.info[n.b as usize], self.info[n.c as usize]);
        r.kz = a.kz & b.kz;
        r.ko = a.ko & b.ko;
        r.umin = a.umin.min(b.umin);
        r.umax = a.umax.max(b.umax);
        r.smin = a.smin.min(b.smin);
        r.smax = a.smax.max(b.smax);
      }
      Op::Concat => {
        let (a, b) = (ia(), ib());
        let wb = self.w(n.b);
        r.kz = (a.kz << wb) | b.kz;
        r.ko = (a.ko << wb) | b.ko;
        r.umin = (a.umin << wb) | b.umin;
        r.umax = (a.umax << wb) | b.umax;
        r.smin = (a.smin << wb) + b.umin as i128;
        r.smax = (a.smax << wb) + b.umax as i128;
      }
      Op::Extract => {
        let a = ia();
        let lo = n.b as u32;
        r.kz = (a.kz >> lo) & m;
        r.ko = (a.ko >> lo) & m;
        if lo == 0 {
          if a.umax <= m {
            r.umin = a.umin;
            r.umax = a.umax;
          }
          let f = Self::full(w);
          if a.smin >= f.smin && a.smax <= f.smax {
            r.smin = a.smin;
            r.smax = a.smax;
          }
        } else if (a.umax >> lo) <= m {
          r.umin = a.umin >> lo;
          r.umax = a.umax >> lo;
        }
        let f = Self::full(w);
        if lo > 0 && a.smin >> lo >= f.smin && a.smax >> lo <= f.smax {
          r.smin = a.smin >> lo;
          r.smax = a.smax >> lo;
        }
      }
      Op::Zext => {
        let a = ia();
        r.kz = a.kz | (m & !mask(self.w(n.a)));
        r.ko = a.ko;
        r.umin = a.umin;
        r.umax = a.umax;
      }
      Op::Sext => {
        let a = ia();
        r.smin = a.smin;
        r.smax = a.smax;
        let wa = self.w(n.a);
        let hi = m & !mask(wa);
        r.kz = a.kz;
        r.ko = a.ko;
        let sb = 1u128 << (wa - 1);
        if a.kz & sb != 0 {
          r.kz |= hi;
        } else if a.ko & sb != 0 {
          r.ko |= hi;
        }
      }
    }
    Self::tighten(r, w)
  }
  pub fn mk_ffn(&mut self, a: T, id: u32) -> T {
    self.mk(Op::Ffn, 64, a, id, 0)
  }
  pub fn mk_tab(&mut self, a: T, id: u32) -> T {
    self.mk(Op::Tab, 32, a, id, 0)
  }
  fn mk(&mut self, op: Op, w: u16, a: T, b: T, c: T) -> T {
    let n = Node { op, w, a, b, c };
    if let Some(&t) = self.map.get(&n) {
      return t;
    }
    let inf = self.compute(&n);
    if inf.umin == inf.umax {
      let t = self.con(inf.umin, w);
      self.map.insert(n, t);
      return t;
    }
    let t = self.nodes.len() as T;
    self.nodes.push(n);
    self.info.push(inf);
    self.map.insert(n, t);
    t
  }
  pub fn not(&mut self, a: T) -> T {
    let w = self.w(a);
    let m = self.con(mask(w), w);
    self.xor(a, m)
  }
  fn comm(&self, a: T, b: T) -> (T, T) {
    // constants go right, otherwise ordered by id
    if self.cval(a).is_some() {
      (b, a)
    } else if self.cval(b).is_some() || a < b {
      (a, b)
    } else {
      (b, a)
    }
  }
  pub fn add(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b));
    let (a, b) = self.comm(a, b);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      if let Some(ca) = self.cval(a) {
        return self.con(ca.wrapping_add(cb), w);
      }
      let n = self.n(a);
      if n.op == Op::Add {
        if let Some(c2) = self.cval(n.b) {
          let k = self.con(cb.wrapping_add(c2), w);
          return self.add(n.a, k);
        }
      }
      if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
        let x = self.add(n.b, b);
        let y = self.add(n.c, b);
        return self.ite(n.a, x, y);
      }
    }
    let (na, nb) = (self.n(a), self.n(b));
    // (x - y) + y
    if na.op == Op::Sub && na.b == b {
      return na.a;
    }
    if nb.op == Op::Sub && nb.b == a {
      return nb.a;
    }
    // (x + c) + y -> (x + y) + c
    if na.op == Op::Add && self.cval(na.b).is_some() && self.cval(b).is_none() {
      let s = self.add(na.a, b);
      return self.add(s, na.b);
    }
    if nb.op == Op::Add && self.cval(nb.b).is_some() {
      let s = self.add(a, nb.a);
      return self.add(s, nb.b);
    }
    self.mk(Op::Add, w, a, b, 0)
  }
  pub fn neg(&mut self, a: T) -> T {
    let w = self.w(a);
    let z = self.con(0, w);
    self.sub(z, a)
  }
  pub fn sub(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return self.con(0, w);
    }
    if let Some(cb) = self.cval(b) {
      let k = self.con(cb.wrapping_neg(), w);
      return self.add(a, k);
    }
    let na = self.n(a);
    let nb = self.n(b);
    if na.op == Op::Add {
      if na.a == b {
        return na.b;
      }
      if na.b == b {
        return na.a;
      }
      if self.cval(na.b).is_some() {
        let s = self.sub(na.a, b);
        return self.add(s, na.b);
      }
    }
    if nb.op == Op::Add {
      if nb.a == a {
        return self.neg(nb.b);
      }
      if nb.b == a {
        return self.neg(nb.a);
      }
      if self.cval(nb.b).is_some() {
        let s = self.sub(a, nb.a);
        let k = self.neg(nb.b);
        return self.add(s, k);
      }
    }
    if nb.op == Op::Sub && self.cval(a) == Some(0) && self.cval(nb.a) == Some(0) {
      return nb.b;
    }
    self.mk(Op::Sub, w, a, b, 0)
  }
  pub fn mul(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    let (a, b) = self.comm(a, b);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return b;
      }
      if cb == 1 {
        return a;
      }
      if let Some(ca) = self.cval(a) {
        return self.con(ca.wrapping_mul(cb), w);
      }
      if cb.is_power_of_two() {
        let k = self.con(cb.trailing_zeros() as u128, w);
        return self.shl(a, k);
      }
      let n = self.n(a);
      if n.op == Op::Mul {
        if let Some(c2) = self.cval(n.b) {
          let k = self.con(cb.wrapping_mul(c2), w);
          return self.mul(n.a, k);
        }
      }
      if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
        let x = self.mul(n.b, b);
        let y = self.mul(n.c, b);
        return self.ite(n.a, x, y);
      }
    }
    self.mk(Op::Mul, w, a, b, 0)
  }
  pub fn udiv(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let Some(cb) = self.cval(b) {
      if cb == 1 {
        return a;
      }
      if cb != 0 {
        if let Some(ca) = self.cval(a) {
          return self.con(ca / cb, w);
        }
        if cb.is_power_of_two() {
          let k = self.con(cb.trailing_zeros() as u128, w);
          return self.lshr(a, k);
        }
      }
    }
    self.mk(Op::Udiv, w, a, b, 0)
  }
  pub fn urem(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let Some(cb) = self.cval(b) {
      if cb != 0 {
        if let Some(ca) = self.cval(a) {
          return self.con(ca % cb, w);
        }
        if self.inf(a).umax < cb {
          return a;
        }
        if cb.is_power_of_two() {
          let k = self.con(cb - 1, w);
          return self.and(a, k);
        }
      }
    }
    self.mk(Op::Urem, w, a, b, 0)
  }
  pub fn sdiv(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let (Some(ca), Some(cb)) = (self.cval(a), self.cval(b)) {
      if cb != 0 {
        return self.con(sx(ca, w).wrapping_div(sx(cb, w)) as u128, w);
      }
    }
    if self.inf(a).smin >= 0 && self.inf(b).smin >= 0 {
      return self.udiv(a, b);
    }
    self.mk(Op::Sdiv, w, a, b, 0)
  }
  pub fn srem(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let (Some(ca), Some(cb)) = (self.cval(a), self.cval(b)) {
      if cb != 0 {
        return self.con(sx(ca, w).wrapping_rem(sx(cb, w)) as u128, w);
      }
    }
    if self.inf(a).smin >= 0 && self.inf(b).smin >= 0 {
      return self.urem(a, b);
    }
    self.mk(Op::Srem, w, a, b, 0)
  }
  pub fn and(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return a;
    }
    let (a, b) = self.comm(a, b);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return b;
      }
      if cb == mask(w) {
        return a;
      }
      if let Some(ca) = self.cval(a) {
        return self.con(ca & cb, w);
      }
      // mask does nothing
      if (mask(w) & !cb) & !self.inf(a).kz == 0 {
        return a;
      }
      if (cb + 1).is_power_of_two() {
        let k = (cb + 1).trailing_zeros() as u16;
        let e = self.extract(a, 0, k);
        return self.zext(e, w);
      }
      let n = self.n(a);
      if n.op == Op::And {
        if let Some(c2) = self.cval(n.b) {
          let k = self.con(cb & c2, w);
          return self.and(n.a, k);
        }
      }
      if n.op == Op::Ite && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) {
        let x = self.and(n.b, b);
        let y = self.and(n.c, b);
        return self.ite(n.a, x, y);
      }
    }
    if w == 1 {
      let nb = self.not(b);
      if nb == a {
        return self.con(0, 1);
      }
    }
    self.mk(Op::And, w, a, b, 0)
  }
  pub fn or(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return a;
    }
    let (a, b) = self.comm(a, b);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      if cb == mask(w) {
        return b;
      }
      if let Some(ca) = self.cval(a) {
        return self.con(ca | cb, w);
      }
    }
    if w == 1 {
      let nb = self.not(b);
      if nb == a {
        return self.con(1, 1);
      }
    }
    // disjoint halves -> concat
    let (ia, ib) = (self.inf(a), self.inf(b));
    if w > 1 {
      for (x, y, ix, iy) in [(a, b, ia, ib), (b, a, ib, ia)] {
        // x occupies low k bits, y has its low k bits zero
        let k = 128 - (mask(w) & !ix.kz).leading_zeros();
        if k > 0 && (k as u16) < w && (!iy.kz).trailing_zeros() >= k {
          let hi = self.extract(y, k as u16, w - k as u16);
          let lo = self.extract(x, 0, k as u16);
          return self.concat(hi, lo);
        }
      }
    }
    self.mk(Op::Or, w, a, b, 0)
  }
  pub fn xor(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return self.con(0, w);
    }
    let (a, b) = self.comm(a, b);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      if let Some(ca) = self.cval(a) {
        return self.con(ca ^ cb, w);
      }
      let n = self.n(a);
      if n.op == Op::Xor {
        if let Some(c2) = self.cval(n.b) {
          let k = self.con(cb ^ c2, w);
          return self.xor(n.a, k);
        }
      }
      if n.op == Op::Ite && w > 1 && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
        let x = self.xor(n.b, b);
        let y = self.xor(n.c, b);
        return self.ite(n.a, x, y);
      }
    }
    self.mk(Op::Xor, w, a, b, 0)
  }
  pub fn shl(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      if cb >= w as u128 {
        return self.con(0, w);
      }
      let k = cb as u16;
      let e = self.extract(a, 0, w - k);
      let z = self.con(0, k);
      return self.concat(e, z);
    }
    self.mk(Op::Shl, w, a, b, 0)
  }
  pub fn lshr(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      if cb >= w as u128 {
        return self.con(0, w);
      }
      let k = cb as u16;
      let e = self.extract(a, k, w - k);
      return self.zext(e, w);
    }
    self.mk(Op::Lshr, w, a, b, 0)
  }
  pub fn ashr(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if let Some(cb) = self.cval(b) {
      if cb == 0 {
        return a;
      }
      let k = (cb.min(w as u128 - 1)) as u16;
      let e = self.extract(a, k, w - k);
      return self.sext(e, w);
    }
    if self.inf(a).smin >= 0 {
      return self.lshr(a, b);
    }
    self.mk(Op::Ashr, w, a, b, 0)
  }
  pub fn eq(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b));
    if a == b {
      return self.con(1, 1);
    }
    let (a, b) = self.comm(a, b);
    let (ia, ib) = (self.inf(a), self.inf(b));
    if ia.umax < ib.umin
      || ib.umax < ia.umin
      || ia.smax < ib.smin
      || ib.smax < ia.smin
      || (ia.kz & ib.ko) != 0
      || (ia.ko & ib.kz) != 0
    {
      return self.con(0, 1);
    }
    let n = self.n(a);
    if let Some(cb) = self.cval(b) {
      if w == 1 {
        return if cb == 1 { a } else { self.not(a) };
      }
      match n.op {
        Op::Zext => {
          let wa = self.w(n.a);
          let k = self.con(cb, wa);
          return self.eq(n.a, k);
        }
        Op::Sext => {
          let wa = self.w(n.a);
          let k = self.con(cb, wa);
          // range check above guarantees representability
          return self.eq(n.a, k);
        }
        Op::Concat => {
          let wb = self.w(n.b);
          let wa = self.w(n.a);
          let kh = self.con(cb >> wb, wa);
          let kl = self.con(cb, wb);
          let x = self.eq(n.a, kh);
          let y = self.eq(n.b, kl);
          return self.and(x, y);
        }
        Op::Add => {
          if let Some(c2) = self.cval(n.b) {
            let k = self.con(cb.wrapping_sub(c2), w);
            return self.eq(n.a, k);
          }
        }
        Op::Xor => {
          if let Some(c2) = self.cval(n.b) {
            let k = self.con(cb ^ c2, w);
            return self.eq(n.a, k);
          }
        }
        Op::Ite => {
          if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
            let x = self.eq(n.b, b);
            let y = self.eq(n.c, b);
            return self.ite(n.a, x, y);
          }
        }
        Op::Sub => {
          if cb == 0 {
            return self.eq(n.a, n.b);
          }
        }
        _ => {}
      }
    } else {
      let nb = self.n(b);
      if n.op == nb.op && n.op == Op::Zext && self.w(n.a) == self.w(nb.a) {
        return self.eq(n.a, nb.a);
      }
      if n.op == nb.op && n.op == Op::Sext && self.w(n.a) == self.w(nb.a) {
        return self.eq(n.a, nb.a);
      }
      if n.op == Op::Add && nb.op == Op::Add && n.b == nb.b {
        return self.eq(n.a, nb.a);
      }
      if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
        let x = self.eq(n.a, nb.a);
        let y = self.eq(n.b, nb.b);
        return self.and(x, y);
      }
      if w == 1 {
        let x = self.xor(a, b);
        return self.not(x);
      }
    }
    self.mk(Op::Eq, 1, a, b, 0)
  }
  pub fn ult(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return self.con(0, 1);
    }
    let (ia, ib) = (self.inf(a), self.inf(b));
    if ia.umax < ib.umin {
      return self.con(1, 1);
    }
    if ia.umin >= ib.umax {
      return self.con(0, 1);
    }
    if ib.umax == 1 && ib.umin == 1 {
      let z = self.con(0, w);
      return self.eq(a, z);
    }
    let (na, nb) = (self.n(a), self.n(b));
    if na.op == Op::Zext {
      let wa = self.w(na.a);
      if nb.op == Op::Zext {
        let wb = self.w(nb.a);
        let x = if wa < wb { self.zext(na.a, wb) } else { na.a };
        let y = if wb < wa { self.zext(nb.a, wa) } else { nb.a };
        return self.ult(x, y);
      }
      if let Some(cb) = self.cval(b) {
        if cb <= mask(wa) {
          let k = self.con(cb, wa);
          return self.ult(na.a, k);
        }
      }
    }
    if nb.op == Op::Zext {
      if let Some(ca) = self.cval(a) {
        let wb = self.w(nb.a);
        if ca <= mask(wb) {
          let k = self.con(ca, wb);
          return self.ult(k, nb.a);
        }
      }
    }
    if na.op == Op::Ite && self.cval(b).is_some() && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
      let x = self.ult(na.b, b);
      let y = self.ult(na.c, b);
      return self.ite(na.a, x, y);
    }
    if nb.op == Op::Ite && self.cval(a).is_some() && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() {
      let x = self.ult(a, nb.b);
      let y = self.ult(a, nb.c);
      return self.ite(nb.a, x, y);
    }
    if w == 1 {
      let na = self.not(a);
      return self.and(na, b);
    }
    self.mk(Op::Ult, 1, a, b, 0)
  }
  pub fn ule(&mut self, a: T, b: T) -> T {
    let x = self.ult(b, a);
    self.not(x)
  }
  pub fn slt(&mut self, a: T, b: T) -> T {
    let w = self.w(a);
    if a == b {
      return self.con(0, 1);
    }
    let (ia, ib) = (self.inf(a), self.inf(b));
    if ia.smax < ib.smin {
      return self.con(1, 1);
    }
    if ia.smin >= ib.smax {
      return self.con(0, 1);
    }
    if ia.smin >= 0 && ib.smin >= 0 {
      return self.ult(a, b);
    }
    if ia.smax < 0 && ib.smax < 0 {
      return self.ult(a, b);
    }
    let (na, nb) = (self.n(a), self.n(b));
    if w == 1 {
      let nb = self.not(b);
      return self.and(a, nb);
    }
    if self.cval(b) == Some(0) {
      return self.extract(a, w - 1, 1);
    }
    if na.op == Op::Sext {
      let wa = self.w(na.a);
      if nb.op == Op::Sext && self.w(nb.a) == wa {
        return self.slt(na.a, nb.a);
      }
      if let Some(cb) = self.cval(b) {
        let k = self.con(cb, wa);
        if sx(cb & mask(wa), wa) == sx(cb, w) {
          return self.slt(na.a, k);
        }
      }
    }
    if nb.op == Op::Sext {
      if let Some(ca) = self.cval(a) {
        let wb = self.w(nb.a);
        if sx(ca & mask(wb), wb) == sx(ca, w) {
          let k = self.con(ca, wb);
          return self.slt(k, nb.a);
        }
      }
    }
    if na.op == Op::Ite && self.cval(b).is_some() && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
      let x = self.slt(na.b, b);
      let y = self.slt(na.c, b);
      return self.ite(na.a, x, y);
    }
    self.mk(Op::Slt, 1, a, b, 0)
  }
  pub fn sle(&mut self, a: T, b: T) -> T {
    let x = self.slt(b, a);
    self.not(x)
  }
  pub fn ite(&mut self, c: T, a: T, b: T) -> T {
    debug_assert_eq!(self.w(a), self.w(b));
    if a == b {
      return a;
    }
    if let Some(k) = self.cval(c) {
      return if k != 0 { a } else { b };
    }
    let w = self.w(a);
    let nc = self.n(c);
    if nc.op == Op::Xor && self.cval(nc.b) == Some(1) {
      return self.ite(nc.a, b, a);
    }
    if w == 1 {
      match (self.cval(a), self.cval(b)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), None) => return self.or(c, b),
        (Some(0), None) => {
          let x = self.not(c);
          return self.and(x, b);
        }
        (None, Some(0)) => return self.and(c, a),
        (None, Some(1)) => {
          let x = self.not(c);
          return self.or(x, a);
        }
        _ => {}
      }
    }
    let (na, nb) = (self.n(a), self.n(b));
    if na.op == Op::Ite && na.a == c {
      return self.ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
      return self.ite(c, a, nb.c);
    }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if nb.op == Op::Ite && nb.b == a {
      let k = self.or(c, nb.a);
      return self.ite(k, a, nb.c);
    }
    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
      let x = self.ite(c, na.a, nb.a);
      return self.zext(x, w);
    }
    if na.op == Op::Zext {
      if let Some(k) = self.cval(b) {
        let wa = self.w(na.a);
        if k <= mask(wa) {
          let kk = self.con(k, wa);
          let x = self.ite(c, na.a, kk);
          return self.zext(x, w);
        }
      }
    }
    if nb.op == Op::Zext {
      if let Some(k) = self.cval(a) {
        let wb = self.w(nb.a);
        if k <= mask(wb) {
          let kk = self.con(k, wb);
          let x = self.ite(c, kk, nb.a);
          return self.zext(x, w);
        }
      }
    }
    if w > 1 {
      if let Some(t) = self.ite_sdiv(nc, a, b) {
        return t;
      }
      if let Some(t) = self.ite_minmax(nc, a, b) {
        return t;
      }
    }
    self.mk(Op::Ite, w, c, a, b)
  }
  /// `x` (narrow) and `t` (wide, signed) have the same value
  fn widened(&self, x: T, t: T, signed: bool) -> bool {
    if x == t {
      return true;
    }
    let (wx, wt) = (self.w(x), self.w(t));
    if wx >= wt {
      return false;
    }
    if let (Some(k), Some(c)) = (self.cval(x), self.cval(t)) {
      return if signed { sx(k, wx) == sx(c, wt) } else { k == c };
    }
    let n = self.n(t);
    n.a == x && (n.op == Op::Sext && (signed || self.inf(x).smin >= 0) || n.op == Op::Zext && (!signed || self.inf(x).smin >= 0))
  }
  /// x < c ? f(0) : f(x / 2^k) with 1 - 2^k <= c <= 0 is f(max(x >> k, 0))
  fn ite_sdiv(&mut self, c: Node, a: T, b: T) -> Option<T> {
    self.cval(a)?;
    let w = self.w(c.a);
    let lim = match c.op {
      Op::Slt => sx(self.cval(c.b)?, w),
      _ => return None,
    };
    let d = self.find_sdiv(b, 5)?;
    let nd = self.n(d);
    if nd.w != w {
      return None;
    }
    let k = self.cval(nd.b)?;
    // the comparison may be of the dividend plus a constant
    let (ix, iy) = (self.inf(c.a), self.inf(nd.a));
    let off = self.sub(nd.a, c.a);
    let off = sx(self.cval(off)?, w);
    let half = 1i128 << (w - 2);
    if off != 0 && (off.abs() >= half || ix.smin < -half || ix.smax >= half || iy.smin < -half || iy.smax >= half) {
      return None;
    }
    let lim = lim + off;
    if !k.is_power_of_two() || k >> (w - 1) != 0 || lim > 0 || lim <= -(k as i128) {
      return None;
    }
    let z = self.con(0, w);
    let f0 = self.subst(b, d, z, 6)?;
    if f0 != a {
      return None;
    }
    let sh = self.con(k.trailing_zeros() as u128, w);
    let q = self.ashr(nd.a, sh);
    let q = self.smax(q, z);
    self.subst(b, d, q, 6)
  }
  fn find_sdiv(&self, t: T, depth: u32) -> Option<T> {
    let n = self.n(t);
    if n.op == Op::Sdiv {
      return Some(t);
    }
    if depth == 0 {
      return None;
    }
    match n.op {
      Op::Extract | Op::Zext | Op::Sext => self.find_sdiv(n.a, depth - 1),
      Op::Ult | Op::Slt | Op::Smin | Op::Smax => self.find_sdiv(n.a, depth - 1).or_else(|| self.find_sdiv(n.b, depth - 1)),
      Op::Ite => self.find_sdiv(n.b, depth - 1).or_else(|| self.find_sdiv(n.a, depth - 1)).or_else(|| self.find_sdiv(n.c, depth - 1)),
      _ => None,
    }
  }
  /// `t` with every `d` within reach replaced by `r`
  fn subst(&mut self, t: T, d: T, r: T, depth: u32) -> Option<T> {
    if t == d {
      return Some(r);
    }
    let n = self.n(t);
    if depth == 0 {
      return Some(t);
    }
    let e = depth - 1;
    Some(match n.op {
      Op::Extract => {
        let a = self.subst(n.a, d, r, e)?;
        self.extract(a, n.b as u16, n.w)
      }
      Op::Zext => {
        let a = self.subst(n.a, d, r, e)?;
        self.zext(a, n.w)
      }
      Op::Sext => {
        let a = self.subst(n.a, d, r, e)?;
        self.sext(a, n.w)
      }
      Op::Ult | Op::Slt | Op::Smin | Op::Smax => {
        let (a, b) = (self.subst(n.a, d, r, e)?, self.subst(n.b, d, r, e)?);
        match n.op {
          Op::Ult => self.ult(a, b),
          Op::Slt => self.slt(a, b),
          Op::Smin => self.smin(a, b),
          _ => self.smax(a, b),
        }
      }
      Op::Ite => {
        let (a, b, c) = (self.subst(n.a, d, r, e)?, self.subst(n.b, d, r, e)?, self.subst(n.c, d, r, e)?);
        self.ite(a, b, c)
      }
      _ => t,
    })
  }
  fn ite_minmax(&mut self, c: Node, a: T, b: T) -> Option<T> {
    let w = self.w(a);
    // y < 0 ? 0 : (y as unsigned) < k ? y : k, truncated
    if c.op == Op::Extract && c.b as u16 + 1 == self.w(c.a) && self.cval(a) == Some(0) {
      let nb = self.n(b);
      if nb.op == Op::Ite {
        let nc = self.n(nb.a);
        let (y, k, z, kk) = match nc.op {
          Op::Ult if self.cval(nc.b).is_some() => (nc.a, nc.b, nb.b, nb.c),
          Op::Ult if self.cval(nc.a).is_some() => (nc.b, nc.a, nb.c, nb.b),
          _ => (0, 0, 0, 0),
        };
        if y != 0 {
          let wy = self.w(y);
          let (k, kk) = (self.cval(k).unwrap(), self.cval(kk));
          if kk == Some(k) && wy >= w && k >> (wy - 1) == 0 {
            let ct = self.map.get(&c).copied();
            if ct.is_some() && Some(self.extract(y, wy - 1, 1)) == ct && self.extract(y, 0, w) == z {
              let (o, h) = (self.con(0, wy), self.con(k, wy));
              let t = self.smax(y, o);
              let t = self.smin(t, h);
              return Some(self.extract(t, 0, w));
            }
          }
        }
      }
    }
    // min or max of wider values, truncated afterwards
    for (p, q, first) in [(a, b, true), (b, a, false)] {
      let (nq, k) = (self.n(q), self.cval(p));
      if let (Op::Extract, 0, Some(k)) = (nq.op, nq.b, k) {
        let wq = self.w(nq.a);
        for kk in [k, sx(k, w) as u128] {
          let kw = self.con(kk & mask(wq), wq);
          let r = if first { self.ite_minmax(c, kw, nq.a) } else { self.ite_minmax(c, nq.a, kw) };
          if let Some(t) = r {
            return Some(self.extract(t, 0, w));
          }
        }
      }
    }
    // min or max of narrower values, extended afterwards
    for (p, q, first) in [(a, b, true), (b, a, false)] {
      let (nq, k) = (self.n(q), self.cval(p));
      if let (Op::Sext | Op::Zext, Some(k)) = (nq.op, k) {
        let wq = self.w(nq.a);
        if wq > 1 && (nq.op == Op::Sext && sx(k & mask(wq), wq) == sx(k, w) || nq.op == Op::Zext && k <= mask(wq) >> 1 && self.inf(nq.a).smin >= 0) {
          let kw = self.con(k & mask(wq), wq);
          let r = if first { self.ite_minmax(c, kw, nq.a) } else { self.ite_minmax(c, nq.a, kw) };
          if let Some(t) = r {
            return Some(self.sext(t, w));
          }
        }
      }
    }
    let nn = self.inf(a).smin >= 0 && self.inf(b).smin >= 0;
    let (x, y, signed) = match c.op {
      Op::Slt => (c.a, c.b, true),
      Op::Ult if nn => (c.a, c.b, false),
      // x < 0 ? 0 : x
      Op::Extract if c.b as u16 + 1 == self.w(c.a) => {
        let ct = self.map.get(&c).copied();
        if self.cval(a) == Some(0) && (self.widened(c.a, b, true) || Some(self.extract(b, w - 1, 1)) == ct) {
          return Some(self.smax(b, a));
        }
        if self.cval(b) == Some(0) && self.widened(c.a, a, true) {
          return Some(self.smin(a, b));
        }
        let z = self.con(0, w);
        for q in [b, a] {
          let nq = self.n(q);
          if matches!(nq.op, Op::Smin | Op::Smax) && self.cval(nq.a).is_none() && Some(self.extract(nq.a, w - 1, 1)) == ct {
            return self.nested(nq.a, None, true, a, b, z);
          }
        }
        return self.nested(c.a, None, true, a, b, z);
      }
      _ => return None,
    };
    let wx = self.w(x);
    let one = |s: &Self, p: T, t: T| match (s.cval(p), s.cval(t)) {
      // x < k ? x : k - 1
      (Some(p), Some(t)) if signed => sx(p, wx) == sx(t, w) + 1,
      (Some(p), Some(t)) => t < mask(w) && p == t + 1,
      _ => false,
    };
    if self.widened(x, a, signed) && (self.widened(y, b, signed) || one(self, y, b)) {
      return Some(self.smin(a, b));
    }
    let onex = |s: &Self, p: T, t: T| match (s.cval(p), s.cval(t)) {
      // k < x ? x : k + 1
      (Some(p), Some(t)) if signed => sx(p, wx) + 1 == sx(t, w),
      (Some(p), Some(t)) => p + 1 == t,
      _ => false,
    };
    if self.widened(x, b, signed) && (self.widened(y, a, signed) || one(self, y, a)) {
      return Some(self.smax(a, b));
    }
    if self.widened(y, a, signed) && onex(self, x, b) {
      return Some(self.smax(a, b));
    }
    if self.widened(y, b, signed) && onex(self, x, a) {
      return Some(self.smin(a, b));
    }
    self.nested(x, Some(y), signed, a, b, 0)
  }
  /// the second comparison of a clamp: `x < y ? a : b` where one arm is the
  /// constant bound and the other an inner min or max with the other bound
  fn nested(&mut self, x: T, y: Option<T>, signed: bool, a: T, b: T, zero: T) -> Option<T> {
    let w = self.w(a);
    let val = |s: &Self, t: T| s.cval(t).map(|c| sx(c, s.w(t)));
    let inner = |s: &Self, t: T, op: Op| -> Option<(T, i128)> {
      let n = s.n(t);
      if n.op != op || n.w != w {
        return None;
      }
      // an unsigned comparison only bounds values that are not negative
      if !signed && s.inf(n.a).smin < 0 {
        return None;
      }
      s.cval(n.b).map(|k| (n.a, sx(k, w)))
    };
    // v < lo ? lo : min(hi, v)   and   v < k ? min(hi, v)... do not occur
    let yv = match y {
      Some(y) => {
        if signed {
          val(self, y)
        } else {
          self.cval(y).map(|c| c as i128)
        }
      }
      None => Some(0),
    };
    let _ = zero;
    if let (Some(lo), Some(k)) = (yv, val(self, a)) {
      if let Some((v, hi)) = inner(self, b, Op::Smin) {
        if (lo == k || lo == k + 1) && k <= hi && self.widened(x, v, signed) {
          return Some(self.smax(b, a));
        }
      }
    }
    // hi < v ? hi : max(lo, v)
    let xv = if signed { val(self, x) } else { self.cval(x).map(|c| c as i128) };
    if let (Some(y), Some(h), Some(k)) = (y, xv, val(self, a)) {
      if let Some((v, lo)) = inner(self, b, Op::Smax) {
        if (h == k || h + 1 == k) && lo <= k && self.widened(y, v, signed) {
          return Some(self.smin(b, a));
        }
      }
    }
    // v < hi ? max(lo, v) : hi
    if let (Some(h), Some(k)) = (yv, val(self, b)) {
      if let Some((v, lo)) = inner(self, a, Op::Smax) {
        if (h == k || h == k + 1) && lo <= k && self.widened(x, v, signed) {
          return Some(self.smin(a, b));
        }
      }
    }
    // lo < v ? min(hi, v) : lo
    if let (Some(y), Some(l), Some(k)) = (y, xv, val(self, b)) {
      if let Some((v, hi)) = inner(self, a, Op::Smin) {
        if (l == k || l + 1 == k) && k <= hi && self.widened(y, v, signed) {
          return Some(self.smax(a, b));
        }
      }
    }
    // the same with a value that was itself clamped before
    if signed && self.w(x) == w {
      let bound = |s: &Self, t: T, op: Op| -> Option<T> {
        let mut t = t;
        for _ in 0..2 {
          let n = s.n(t);
          if n.op == op && s.cval(n.b).is_some() {
            return Some(n.b);
          }
          if !matches!(n.op, Op::Smin | Op::Smax) {
            return None;
          }
          t = n.a;
        }
        None
      };
      let cases = [
        (Some(x), y.is_some(), yv, a, b, true, true),
        (y, true, xv, a, b, false, false),
        (Some(x), true, yv, b, a, false, true),
        (y, true, xv, b, a, true, false),
      ];
      // (value, _, bound in the comparison, constant arm, other arm, arm is the lower bound, value on the left)
      for (v, ok, k, carm, q, lower, _) in cases {
        let (Some(v), true, Some(k), Some(c)) = (v, ok, k, val(self, carm)) else { continue };
        if self.cval(v).is_some() || (k - c).abs() > 1 || self.w(v) != w {
          continue;
        }
        let Some(o) = bound(self, q, if lower { Op::Smin } else { Op::Smax }) else { continue };
        let ov = val(self, o).unwrap();
        if lower && ov >= c && self.minmax(v, o, true) == q && k == c {
          return Some(self.smax(q, carm));
        }
        if !lower && ov <= c && self.minmax(v, o, false) == q && k == c {
          return Some(self.smin(q, carm));
        }
      }
    }
    None
  }
  pub fn smin(&mut self, a: T, b: T) -> T {
    self.minmax(a, b, true)
  }
  pub fn smax(&mut self, a: T, b: T) -> T {
    self.minmax(a, b, false)
  }
  fn minmax(&mut self, a: T, b: T, min: bool) -> T {
    if a == b {
      return a;
    }
    let (a, b) = self.comm(a, b);
    let (ia, ib) = (self.inf(a), self.inf(b));
    if ia.smax <= ib.smin {
      return if min { a } else { b };
    }
    if ib.smax <= ia.smin {
      return if min { b } else { a };
    }
    let w = self.w(a);
    let op = if min { Op::Smin } else { Op::Smax };
    let na = self.n(a);
    if let Some(cb) = self.cval(b) {
      if let Some(ca) = if na.op == op { self.cval(na.b) } else { None } {
        let k = if min { sx(ca, w).min(sx(cb, w)) } else { sx(ca, w).max(sx(cb, w)) };
        let k = self.con(k as u128 & mask(w), w);
        return self.minmax(na.a, k, min);
      }
      // max(min(v, hi), lo) -> min(max(v, lo), hi) where lo <= hi
      if !min && na.op == Op::Smin {
        if let Some(hi) = self.cval(na.b) {
          if sx(cb, w) <= sx(hi, w) {
            let x = self.minmax(na.a, b, false);
            return self.minmax(x, na.b, true);
          }
        }
      }
      if na.op == Op::Sext {
        let wa = self.w(na.a);
        let k = self.con(cb & mask(wa), wa);
        if sx(cb & mask(wa), wa) == sx(cb, w) {
          let x = self.minmax(na.a, k, min);
          return self.sext(x, w);
        }
      }
      if na.op == Op::Zext {
        let wa = self.w(na.a);
        if wa > 1 && self.inf(na.a).smin >= 0 && cb <= mask(wa - 1) {
          let k = self.con(cb, wa);
          let x = self.minmax(na.a, k, min);
          return self.zext(x, w);
        }
      }
    }
    let nb = self.n(b);
    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) && self.w(na.a) > 1 && self.inf(na.a).smin >= 0 && self.inf(nb.a).smin >= 0 {
      let x = self.minmax(na.a, nb.a, min);
      return self.zext(x, w);
    }
    if na.op == Op::Sext && nb.op == Op::Sext && self.w(na.a) == self.w(nb.a) {
      let x = self.minmax(na.a, nb.a, min);
      return self.sext(x, w);
    }
    self.mk(op, w, a, b, 0)
  }
  pub fn concat(&mut self, a: T, b: T) -> T {
    let (wa, wb) = (self.w(a), self.w(b));
    let w = wa + wb;
    if let Some(ca) = self.cval(a) {
      if let Some(cb) = self.cval(b) {
        return self.con((ca << wb) | cb, w);
      }
      if ca == 0 {
        return self.zext(b, w);
      }
    }
    let (na, nb) = (self.n(a), self.n(b));
    if na.op == Op::Extract {
      if nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb as u32 {
        return self.extract(na.a, nb.b as u16, w);
      }
      // b is itself the low part
      if na.a == b && na.b == wb as u32 {
        return self.extract(b, 0, w);
      }
      if nb.op == Op::Concat {
        let nh = self.n(nb.a);
        if nh.op == Op::Extract && nh.a == na.a && na.b == nh.b + self.w(nb.a) as u32 {
          let wl = self.w(nb.a);
          let h = self.extract(na.a, nh.b as u16, wa + wl);
          return self.concat(h, nb.b);
        }
      }
    }
    if na.op == Op::Zext {
      let x = self.concat(na.a, b);
      return self.zext(x, w);
    }
    if na.op == Op::Concat {
      // right associate
      let r = self.concat(na.b, b);
      return self.concat(na.a, r);
    }
    if na.op == Op::Sext && nb.op == Op::Extract {
      // sign bits of a term on top of the same term
    }
    self.mk(Op::Concat, w, a, b, 0)
  }
  pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
    if w == 1 && lo + 1 < self.w(a) {
      // a copy of the sign bit
      let i = self.inf(a);
      if lo < 126 && i.smin >= -(1i128 << lo) && i.smax < 1i128 << lo {
        let top = self.w(a) - 1;
        return self.extract(a, top, 1);
      }
    }
    let wa = self.w(a);
    debug_assert!(w > 0 && lo + w <= wa, "extract {lo}+{w} of {wa}");
    if lo == 0 && w == wa {
      return a;
    }
    if let Some(c) = self.cval(a) {
      return self.con(c >> lo, w);
    }
    let i = self.inf(a);
    let m = mask(w) << lo;
    if (i.kz | i.ko) & m == m {
      return self.con((i.ko & m) >> lo, w);
    }
    let n = self.n(a);
    match n.op {
      Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
      Op::Zext => {
        let wi = self.w(n.a);
        if lo + w <= wi {
          return self.extract(n.a, lo, w);
        }
        if lo < wi {
          let e = self.extract(n.a, lo, wi - lo);
          return self.zext(e, w);
        }
        return self.con(0, w);
      }
      Op::Sext => {
        let wi = self.w(n.a);
        if lo + w <= wi {
          return self.extract(n.a, lo, w);
        }
        if lo < wi {
          let e = self.extract(n.a, lo, wi - lo);
          return self.sext(e, w);
        }
        let s = self.extract(n.a, wi - 1, 1);
        return self.sext(s, w);
      }
      Op::Concat => {
        let wb = self.w(n.b);
        if lo + w <= wb {
          return self.extract(n.b, lo, w);
        }
        if lo >= wb {
          return self.extract(n.a, lo - wb, w);
        }
        let h = self.extract(n.a, 0, lo + w - wb);
        let l = self.extract(n.b, lo, wb - lo);
        return self.concat(h, l);
      }
      Op::Ite => {
        if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
          let x = self.extract(n.b, lo, w);
          let y = self.extract(n.c, lo, w);
          return self.ite(n.a, x, y);
        }
      }
      Op::And | Op::Or | Op::Xor => {
        let x = self.extract(n.a, lo, w);
        let y = self.extract(n.b, lo, w);
        return match n.op {
          Op::And => self.and(x, y),
          Op::Or => self.or(x, y),
          _ => self.xor(x, y),
        };
      }
      Op::Add | Op::Sub | Op::Mul => {
        if lo == 0 {
          let thin = |c: &Ctx, t: T| {
            let k = c.n(t);
            c.cval(t).is_some() || ((k.op == Op::Zext || k.op == Op::Sext) && c.w(k.a) <= w)
          };
          if thin(self, n.a) && thin(self, n.b) {
            let x = self.extract(n.a, 0, w);
            let y = self.extract(n.b, 0, w);
            return match n.op {
              Op::Add => self.add(x, y),
              Op::Sub => self.sub(x, y),
              _ => self.mul(x, y),
            };
          }
        }
      }
      _ => {}
    }
    self.mk(Op::Extract, w, a, lo as u32, 0)
  }
  pub fn zext(&mut self, a: T, w: u16) -> T {
    let na = self.n(a);
    if na.op == Op::Extract && na.b == 0 && self.cval(a).is_none() && w >= na.w {
      let (ws, i) = (self.w(na.a), self.inf(na.a));
      if i.umax <= mask(na.w) {
        return if ws <= w { self.zext(na.a, w) } else { self.extract(na.a, 0, w) };
      }
    }
    let wa = self.w(a);
    if wa == w {
      return a;
    }
    if let Some(c) = self.cval(a) {
      return self.con(c, w);
    }
    let n = self.n(a);
    if n.op == Op::Zext {
      return self.zext(n.a, w);
    }
    if n.op == Op::Ite && self.unzip(a, w, 4) {
      let x = self.zext(n.b, w);
      let y = self.zext(n.c, w);
      return self.ite(n.a, x, y);
    }
    self.mk(Op::Zext, w, a, 0, 0)
  }
  /// would the extension of `a` disappear in its leaves?
  fn unzip(&self, a: T, w: u16, depth: u32) -> bool {
    let n = self.n(a);
    match n.op {
      Op::Const => true,
      Op::Extract => n.b == 0 && self.w(n.a) >= w && self.inf(n.a).umax <= mask(n.w),
      Op::Ite if depth > 0 => self.unzip(n.b, w, depth - 1) && self.unzip(n.c, w, depth - 1),
      _ => false,
    }
  }
  pub fn sext(&mut self, a: T, w: u16) -> T {
    let na = self.n(a);
    if na.op == Op::Extract && na.b == 0 && self.cval(a).is_none() && w >= na.w {
      let (ws, i) = (self.w(na.a), self.inf(na.a));
      let half = 1i128 << (na.w - 1);
      if i.smin >= -half && i.smax < half {
        return if ws <= w { self.sext(na.a, w) } else { self.extract(na.a, 0, w) };
      }
    }
    let wa = self.w(a);
    if wa == w {
      return a;
    }
    if let Some(c) = self.cval(a) {
      return self.con(sx(c, wa) as u128, w);
    }
    if self.inf(a).smin >= 0 {
      return self.zext(a, w);
    }
    let n = self.n(a);
    if n.op == Op::Sext {
      return self.sext(n.a, w);
    }
    if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
      let x = self.sext(n.b, w);
      let y = self.sext(n.c, w);
      return self.ite(n.a, x, y);
    }
    self.mk(Op::Sext, w, a, 0, 0)
  }

  /// Concrete evaluation under a model of the inputs.
  /// Records that `t` always lies in a range (a fact for every assignment).
  pub fn narrow(&mut self, t: T, lo: i128, hi: i128) {
    let w = self.w(t);
    let i = &mut self.info[t as usize];
    i.smin = i.smin.max(lo);
    i.smax = i.smax.min(hi);
    *i = Self::tighten(*i, w);
  }
  /// dev aid: prints the first differing subterms of an equality
  pub fn show_diff(&self, t: T) {
    let n = self.n(t);
    if n.op == Op::Xor || n.op == Op::Eq && self.w(n.a) == 1 {
      return self.show_diff(n.a);
    }
    if n.op != Op::Eq {
      eprintln!("oblig {}", self.show(t, std::env::var("RVSYM_OB").ok().and_then(|x| x.parse().ok()).unwrap_or(9)));
      return;
    }
    let (mut a, mut b) = (n.a, n.b);
    let mut up = (a, b);
    loop {
      let (x, y) = (self.n(a), self.n(b));
      if x.op == Op::Add && y.op == Op::Add && x.w == y.w {
        fn flat(c: &Ctx, t: T, k: u128, o: &mut std::collections::BTreeMap<T, u128>, s: u128) {
          let n = c.n(t);
          match (n.op, c.cval(n.b)) {
            (Op::Add, _) => {
              flat(c, n.a, k, o, s);
              flat(c, n.b, k, o, s);
            }
            (Op::Mul, Some(m)) => flat(c, n.a, k.wrapping_mul(m), o, s),
            _ => {
              let e = o.entry(t).or_insert(0);
              *e = e.wrapping_add(k.wrapping_mul(s));
            }
          }
        }
        let mut o = std::collections::BTreeMap::new();
        flat(self, a, 1, &mut o, 1);
        flat(self, b, 1, &mut o, u128::MAX);
        let v: Vec<_> = o.into_iter().filter(|p| p.1 & mask(x.w) != 0).collect();
        if v.len() == 2 && v[0].1.wrapping_add(v[1].1) & mask(x.w) == 0 {
          up = (a, b);
          (a, b) = (v[0].0, v[1].0);
          continue;
        }
        eprintln!("SUM w={}", x.w);
        for (t, k) in v {
          eprintln!("  {} * {}", sx(k & mask(x.w), x.w), self.show(t, 9));
        }
        break;
      }
      if x.op != y.op || x.w != y.w || self.cval(a).is_some() {
        break;
      }
      let d: Vec<(T, T)> = match x.op {
        Op::Var => vec![],
        Op::Extract | Op::Zext | Op::Sext | Op::Tab => vec![(x.a, y.a)],
        Op::Ite => vec![(x.a, y.a), (x.b, y.b), (x.c, y.c)],
        _ if x.a == y.b => vec![(x.b, y.a)],
        _ if x.b == y.a => vec![(x.a, y.b)],
        _ => vec![(x.a, y.a), (x.b, y.b)],
      };
      match d.into_iter().find(|p| p.0 != p.1) {
        Some((p, q)) => {
          if self.cval(p).is_some() {
            break;
          }
          up = (a, b);
          a = p;
          b = q;
        }
        None => break,
      }
    }
    if self.n(a).op == Op::Tab && self.n(b).op == Op::Tab {
      let (p, q) = (&self.tabs[self.n(a).b as usize], &self.tabs[self.n(b).b as usize]);
      eprintln!("tables of {} and {}: {:?}", p.v.len(), q.v.len(), p.v.iter().zip(q.v.iter()).position(|p| p.0 != p.1));
    }
    eprintln!("DIFF\n  {}\n  {}\n  in {}\n  in {}", self.show(a, std::env::var("RVSYM_SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(12)), self.show(b, std::env::var("RVSYM_SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(12)), self.show(up.0, 9), self.show(up.1, 9));
    eprintln!("  of {}\n  of {}", self.show(n.a, 4), self.show(n.b, 4));
  }
  pub fn show(&self, t: T, d: u32) -> String {
    if let Some(c) = self.cval(t) {
      return format!("{}:{}", sx(c, self.w(t)), self.w(t));
    }
    let n = self.n(t);
    if n.op == Op::Var {
      return format!("v{}", n.a);
    }
    if d == 0 {
      let i = self.inf(t);
      return format!("#{t}[{},{}]", i.smin, i.smax);
    }
    match n.op {
      Op::Extract => format!("(ex{}+{} {})", n.b, n.w, self.show(n.a, d - 1)),
      Op::Zext | Op::Sext => format!("({:?}{} {})", n.op, n.w, self.show(n.a, d - 1)),
      Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
      _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
    }
  }
  pub fn eval(&self, t: T, m: &dyn Fn(u32) -> u128, memo: &mut HashMap<T, u128>) -> u128 {
    if let Some(c) = self.cval(t) {
      return c;
    }
    if let Some(&v) = memo.get(&t) {
      return v;
    }
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
      if self.cval(x).is_some() || memo.contains_key(&x) {
        stack.pop();
        continue;
      }
      let n = self.n(x);
      let mut pend = false;
      let kids: &[T] = &match n.op {
        Op::Var => [0, 0, 0],
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => [n.a, 0, 0],
        Op::Ite => [n.a, n.b, n.c],
        _ => [n.a, n.b, 0],
      };
      // ite: evaluate only the chosen branch
      if n.op == Op::Ite {
        let cv = self.cval(n.a).or_else(|| memo.get(&n.a).copied());
        match cv {
          None => {
            stack.push(n.a);
            continue;
          }
          Some(c) => {
            let k = if c != 0 { n.b } else { n.c };
            match self.cval(k).or_else(|| memo.get(&k).copied()) {
              None => stack.push(k),
              Some(v) => {
                memo.insert(x, v);
                stack.pop();
              }
            }
            continue;
          }
        }
      }
      for &k in kids {
        if k != 0 && self.cval(k).is_none() && !memo.contains_key(&k) {
          stack.push(k);
          pend = true;
        }
      }
      if pend {
        continue;
      }
      let g = |k: T| self.cval(k).unwrap_or_else(|| memo[&k]);
      let w = n.w;
      let v = match n.op {
        Op::Const => unreachable!(),
        Op::Var => m(n.a),
        Op::Extract => g(n.a) >> n.b,
        Op::Zext => g(n.a),
        Op::Sext => sx(g(n.a), self.w(n.a)) as u128,
        Op::Ffn => self.ffn[n.b as usize].eval(g(n.a)).to_bits() as u128,
        Op::Tab => self.tabs[n.b as usize].at(sx(g(n.a), self.w(n.a))),
        Op::Ite => unreachable!(),
        Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
        _ => bin(n.op, g(n.a), g(n.b), self.w(n.a)),
      } & mask(w);
      memo.insert(x, v);
      stack.pop();
    }
    memo[&t]
  }
}

/// Concrete semantics of a binary operation on width `w` operands.
pub fn bin(op: Op, a: u128, b: u128, w: u16) -> u128 {
  let m = mask(w);
  let r = match op {
    Op::Add => a.wrapping_add(b),
    Op::Sub => a.wrapping_sub(b),
    Op::Mul => a.wrapping_mul(b),
    Op::Udiv => {
      if b == 0 {
        m
      } else {
        a / b
      }
    }
    Op::Urem => {
      if b == 0 {
        a
      } else {
        a % b
      }
    }
    Op::Sdiv => {
      let (x, y) = (sx(a, w), sx(b, w));
      if y == 0 {
        if x < 0 {
          1
        } else {
          m
        }
      } else {
        x.wrapping_div(y) as u128
      }
    }
    Op::Srem => {
      let (x, y) = (sx(a, w), sx(b, w));
      if y == 0 {
        a
      } else {
        x.wrapping_rem(y) as u128
      }
    }
    Op::And => a & b,
    Op::Or => a | b,
    Op::Xor => a ^ b,
    Op::Shl => {
      if b >= w as u128 {
        0
      } else {
        a << b
      }
    }
    Op::Lshr => {
      if b >= w as u128 {
        0
      } else {
        a >> b
      }
    }
    Op::Ashr => {
      let s = b.min(w as u128 - 1) as u32;
      (sx(a, w) >> s) as u128
    }
    Op::Eq => return (a == b) as u128,
    Op::Ult => return (a < b) as u128,
    Op::Slt => return (sx(a, w) < sx(b, w)) as u128,
    Op::Smin => return if sx(a, w) < sx(b, w) { a } else { b },
    Op::Smax => return if sx(a, w) < sx(b, w) { b } else { a },
    _ => unreachable!(),
  };
  r & m
}
