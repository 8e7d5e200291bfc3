//! Bit-blasting of terms to CNF.
use crate::sat::Lit;
use crate::term::*;
use crate::fx::HashMap;
use std::rc::Rc;

pub trait Sink {
  fn new_var(&mut self) -> Lit;
  fn clause(&mut self, c: &[Lit]);
}

impl Sink for crate::sat::Sat {
  fn new_var(&mut self) -> Lit {
    crate::sat::Sat::new_var(self)
  }
  fn clause(&mut self, c: &[Lit]) {
    self.add(c)
  }
}

#[derive(Default)]
pub struct Cnf {
  pub nvars: i32,
  pub lits: Vec<Lit>, // 0-terminated
  pub n: usize,
}
impl Sink for Cnf {
  fn new_var(&mut self) -> Lit {
    self.nvars += 1;
    self.nvars
  }
  fn clause(&mut self, c: &[Lit]) {
    self.lits.extend_from_slice(c);
    self.lits.push(0);
    self.n += 1;
  }
}

pub struct Blaster {
  pub bits: HashMap<T, Rc<Vec<Lit>>>,
  gates: HashMap<(u8, Lit, Lit, Lit), Lit>,
  pub tru: Lit,
  pub vars: Vec<(u32, Rc<Vec<Lit>>)>,
  /// gate inputs per output variable, for cone computation
  pub kids: Vec<Vec<u32>>,
  track: bool,
}

impl Blaster {
  pub fn new(s: &mut dyn Sink, track: bool) -> Self {
    let t = s.new_var();
    s.clause(&[t]);
    let mut b = Blaster { bits: HashMap::default(), gates: HashMap::default(), tru: t, vars: vec![], kids: vec![], track };
    b.note(t, &[]);
    b
  }
  fn note(&mut self, o: Lit, ins: &[Lit]) {
    if self.track {
      let v = o.unsigned_abs() as usize;
      if self.kids.len() <= v {
        self.kids.resize(v + 1, vec![]);
      }
      self.kids[v] = ins.iter().map(|l| l.unsigned_abs()).collect();
    }
  }
  fn f(&self) -> Lit {
    -self.tru
  }
  fn and(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
    let t = self.tru;
    if a == -t || b == -t || a == -b {
      return -t;
    }
    if a == t {
      return b;
    }
    if b == t || a == b {
      return a;
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    if let Some(&o) = self.gates.get(&(0, a, b, 0)) {
      return o;
    }
    let o = s.new_var();
    s.clause(&[-o, a]);
    s.clause(&[-o, b]);
    s.clause(&[o, -a, -b]);
    self.note(o, &[a, b]);
    self.gates.insert((0, a, b, 0), o);
    o
  }
  fn or(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
    -self.and(s, -a, -b)
  }
  fn xor(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
    let t = self.tru;
    if a == t {
      return -b;
    }
    if a == -t {
      return b;
    }
    if b == t {
      return -a;
    }
    if b == -t {
      return a;
    }
    if a == b {
      return -t;
    }
    if a == -b {
      return t;
    }
    let mut neg = false;
    let (mut a, mut b) = (a, b);
    if a < 0 {
      a = -a;
      neg = !neg;
    }
    if b < 0 {
      b = -b;
      neg = !neg;
    }
    if a > b {
      std::mem::swap(&mut a, &mut b);
    }
    let o = if let Some(&o) = self.gates.get(&(1, a, b, 0)) {
      o
    } else {
      let o = s.new_var();
      s.clause(&[-o, a, b]);
      s.clause(&[-o, -a, -b]);
      s.clause(&[o, -a, b]);
      s.clause(&[o, a, -b]);
      self.note(o, &[a, b]);
      self.gates.insert((1, a, b, 0), o);
      o
    };
    if neg {
      -o
    } else {
      o
    }
  }
  fn ite(&mut self, s: &mut dyn Sink, c: Lit, a: Lit, b: Lit) -> Lit {
    let t = self.tru;
    if c == t || a == b {
      return a;
    }
    if c == -t {
      return b;
    }
    if a == t || a == c {
      return self.or(s, c, b);
    }
    if a == -t || a == -c {
      return self.and(s, -c, b);
    }
    if b == t || b == -c {
      return self.or(s, -c, a);
    }
    if b == -t || b == c {
      return self.and(s, c, a);
    }
    if a == -b {
      return -self.xor(s, c, a);
    }
    let (c, a, b) = if c < 0 { (-c, b, a) } else { (c, a, b) };
    let (a, b, neg) = if a < 0 { (-a, -b, true) } else { (a, b, false) };
    let o = if let Some(&o) = self.gates.get(&(2, c, a, b)) {
      o
    } else {
      let o = s.new_var();
      s.clause(&[-c, -a, o]);
      s.clause(&[-c, a, -o]);
      s.clause(&[c, -b, o]);
      s.clause(&[c, b, -o]);
      s.clause(&[-a, -b, o]);
      s.clause(&[a, b, -o]);
      self.note(o, &[c, a, b]);
      self.gates.insert((2, c, a, b), o);
      o
    };
    if neg {
      -o
    } else {
      o
    }
  }
  fn maj(&mut self, s: &mut dyn Sink, a: Lit, b: Lit, c: Lit) -> Lit {
    let t = self.tru;
    for (x, y, z) in [(a, b, c), (b, a, c), (c, a, b)] {
      if x == t {
        return self.or(s, y, z);
      }
      if x == -t {
        return self.and(s, y, z);
      }
      let _ = (x, y, z);
    }
    if a == b {
      return a;
    }
    if a == c {
      return a;
    }
    if b == c {
      return b;
    }
    if a == -b {
      return c;
    }
    if a == -c {
      return b;
    }
    if b == -c {
      return a;
    }
    let mut v = [a, b, c];
    v.sort_unstable();
    let [a, b, c] = v;
    if let Some(&o) = self.gates.get(&(3, a, b, c)) {
      return o;
    }
    let o = s.new_var();
    s.clause(&[-o, a, b]);
    s.clause(&[-o, a, c]);
    s.clause(&[-o, b, c]);
    s.clause(&[o, -a, -b]);
    s.clause(&[o, -a, -c]);
    s.clause(&[o, -b, -c]);
    self.note(o, &[a, b, c]);
    self.gates.insert((3, a, b, c), o);
    o
  }
  fn adder(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
    let mut c = cin;
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
      let x = self.xor(s, a[i], b[i]);
      r.push(self.xor(s, x, c));
      c = self.maj(s, a[i], b[i], c);
    }
    (r, c)
  }
  fn neg(&mut self, s: &mut dyn Sink, a: &[Lit]) -> Vec<Lit> {
    let na: Vec<Lit> = a.iter().map(|l| -l).collect();
    let z = vec![self.f(); a.len()];
    let t = self.tru;
    self.adder(s, &na, &z, t).0
  }
  fn mux(&mut self, s: &mut dyn Sink, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    (0..a.len()).map(|i| self.ite(s, c, a[i], b[i])).collect()
  }
  /// a < b unsigned
  fn ult(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit]) -> Lit {
    // borrow chain
    let mut c = self.f();
    for i in 0..a.len() {
      c = self.maj(s, -a[i], b[i], c);
    }
    c
  }
  fn mul(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let w = a.len();
    let f = self.f();
    let t = self.tru;
    // use the operand with fewer non-constant bits as the selector; recode
    // constants with runs of ones as subtractions
    let act = |x: &[Lit]| x.iter().filter(|&&l| l != f).count();
    let (a, b) = if act(a) < act(b) { (b, a) } else { (a, b) };
    let konst = b.iter().all(|&l| l == t || l == f);
    let mut acc = vec![f; w];
    if konst {
      // non-adjacent form
      let mut v: i128 = 0;
      let mut bits = vec![];
      let mut k: Vec<u8> = b.iter().map(|&l| (l == t) as u8).collect();
      k.push(0);
      k.push(0);
      let _ = v;
      v = 0;
      let _ = v;
      let mut i = 0;
      let mut carry = 0u8;
      while i < w {
        let cur = k[i] + carry;
        match cur {
          0 => {
            bits.push(0i8);
            carry = 0;
          }
          2 => {
            bits.push(0);
            carry = 1;
          }
          _ => {
            // cur == 1
            let nxt = if i + 1 < w { k[i + 1] } else { 0 };
            if nxt == 1 {
              bits.push(-1);
              carry = 1;
            } else {
              bits.push(1);
              carry = 0;
            }
          }
        }
        i += 1;
      }
      for (i, &d) in bits.iter().enumerate() {
        if d == 0 {
          continue;
        }
        let mut sh = vec![f; w];
        for j in 0..w - i {
          sh[i + j] = a[j];
        }
        if d == 1 {
          acc = self.adder(s, &acc, &sh, f).0;
        } else {
          let ns: Vec<Lit> = sh.iter().map(|l| -l).collect();
          acc = self.adder(s, &acc, &ns, t).0;
        }
      }
      return acc;
    }
    for i in 0..w {
      if b[i] == f {
        continue;
      }
      let mut sh = vec![f; w];
      for j in 0..w - i {
        sh[i + j] = self.and(s, a[j], b[i]);
      }
      acc = self.adder(s, &acc, &sh, f).0;
    }
    acc
  }
  fn divrem(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
    let w = a.len();
    let f = self.f();
    let t = self.tru;
    let mut q = vec![f; w];
    let mut r = vec![f; w + 1];
    let mut bb: Vec<Lit> = b.to_vec();
    bb.push(f);
    let nb: Vec<Lit> = bb.iter().map(|l| -l).collect();
    for i in (0..w).rev() {
      let mut r2 = vec![a[i]];
      r2.extend_from_slice(&r[..w]);
      let (d, c) = self.adder(s, &r2, &nb, t);
      // c == 1 iff r2 >= b
      q[i] = c;
      r = self.mux(s, c, &d, &r2);
    }
    r.truncate(w);
    // b == 0: q comes out all ones, r == a: same as SMT-LIB
    (q, r)
  }
  fn shift(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit], left: bool, fill: Lit) -> Vec<Lit> {
    let w = a.len();
    let mut cur = a.to_vec();
    let mut k = 0;
    while (1usize << k) < w {
      let d = 1usize << k;
      let mut sh = vec![fill; w];
      for i in 0..w {
        if left {
          if i >= d {
            sh[i] = cur[i - d];
          }
        } else if i + d < w {
          sh[i] = cur[i + d];
        }
      }
      cur = self.mux(s, b[k], &sh, &cur);
      k += 1;
    }
    // shift amounts >= w
    let f = self.f();
    let mut big = f;
    for &l in &b[k..] {
      big = self.or(s, big, l);
    }
    if !w.is_power_of_two() {
      // low k bits >= w
      let wl: Vec<Lit> = (0..k).map(|i| if (w >> i) & 1 == 1 { self.tru } else { f }).collect();
      let lt = self.ult(s, &b[..k], &wl);
      big = self.or(s, big, -lt);
    }
    let fl = vec![fill; w];
    self.mux(s, big, &fl, &cur)
  }
  pub fn blast(&mut self, cx: &Ctx, s: &mut dyn Sink, t: T) -> Rc<Vec<Lit>> {
    if let Some(b) = self.bits.get(&t) {
      return b.clone();
    }
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
      if self.bits.contains_key(&x) {
        stack.pop();
        continue;
      }
      let n = cx.n(x);
      let kids = match n.op {
        Op::Const | Op::Var => [0, 0, 0],
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => [n.a, 0, 0],
        Op::Ite => [n.a, n.b, n.c],
        _ => [n.a, n.b, 0],
      };
      let mut pend = false;
      for k in kids {
        if k != 0 && !self.bits.contains_key(&k) {
          stack.push(k);
          pend = true;
        }
      }
      if pend {
        continue;
      }
      let b = self.one(cx, s, x, n);
      self.bits.insert(x, Rc::new(b));
      stack.pop();
    }
    self.bits[&t].clone()
  }
  /// a table lookup as a tree of multiplexers over the bits of the argument
  fn table(&mut self, s: &mut dyn Sink, a: &[Lit], w: usize, at: &dyn Fn(u128) -> u128) -> Vec<Lit> {
    fn go(z: &mut Blaster, s: &mut dyn Sink, a: &[Lit], k: usize, hi: u128, w: usize, at: &dyn Fn(u128) -> u128) -> Vec<Lit> {
      if k == 0 {
        let c = at(hi);
        let (t, f) = (z.tru, -z.tru);
        return (0..w).map(|i| if c >> i & 1 == 1 { t } else { f }).collect();
      }
      let l = a[k - 1];
      let t = z.tru;
      if l == t {
        return go(z, s, a, k - 1, hi | 1 << (k - 1), w, at);
      }
      if l == -t {
        return go(z, s, a, k - 1, hi, w, at);
      }
      let x = go(z, s, a, k - 1, hi | 1 << (k - 1), w, at);
      let y = go(z, s, a, k - 1, hi, w, at);
      if x == y {
        x
      } else {
        z.mux(s, l, &x, &y)
      }
    }
    go(self, s, a, a.len(), 0, w, at)
  }
  fn one(&mut self, cx: &Ctx, s: &mut dyn Sink, x: T, n: Node) -> Vec<Lit> {
    let w = n.w as usize;
    let f = self.f();
    let t = self.tru;
    let g = |m: &Blaster, k: T| m.bits[&k].clone();
    let r = match n.op {
      Op::Const => {
        let c = cx.cval(x).unwrap();
        return (0..w).map(|i| if (c >> i) & 1 == 1 { t } else { f }).collect();
      }
      // a float that reaches the solver undetermined: any bits
      Op::Ffn | Op::Var => {
        let inf = cx.inf(x);
        let b: Vec<Lit> = (0..w)
          .map(|i| {
            if (inf.kz >> i) & 1 == 1 {
              f
            } else if (inf.ko >> i) & 1 == 1 {
              t
            } else {
              let v = s.new_var();
              self.note(v, &[]);
              v
            }
          })
          .collect();
        // the bits of one input belong together (its range couples them)
        let all: Vec<Lit> = b.iter().copied().filter(|l| l.abs() != t).collect();
        for &l in &all {
          self.note(l, &all);
        }
        let vi = &cx.vars[n.a as usize];
        let k = |c: u128| -> Vec<Lit> { (0..w).map(|i| if (c >> i) & 1 == 1 { t } else { f }).collect() };
        if vi.hi < mask(n.w) {
          let l = self.ult(s, &k(vi.hi), &b);
          s.clause(&[-l]);
        }
        if vi.lo > 0 {
          let l = self.ult(s, &b, &k(vi.lo));
          s.clause(&[-l]);
        }
        self.vars.push((n.a, Rc::new(b.clone())));
        return b;
      }
      Op::Tab => {
        let a = g(self, n.a);
        let tab = &cx.tabs[n.b as usize];
        // the argument is within the table: higher bits repeat its sign
        let (lo, hi) = (tab.lo, tab.lo + tab.v.len() as i128 - 1);
        let k = (1..a.len()).find(|&k| lo >= -(1i128 << (k - 1)) && hi < 1i128 << (k - 1)).unwrap_or(a.len());
        self.table(s, &a[..k], w, &|i| tab.at(sx(i, k as u16)))
      }
      Op::Add => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        self.adder(s, &a, &b, f).0
      }
      Op::Sub => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let nb: Vec<Lit> = b.iter().map(|l| -l).collect();
        self.adder(s, &a, &nb, t).0
      }
      Op::Mul => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        self.mul(s, &a, &b)
      }
      Op::Udiv | Op::Urem => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let (q, r) = self.divrem(s, &a, &b);
        if n.op == Op::Udiv {
          q
        } else {
          r
        }
      }
      Op::Sdiv | Op::Srem => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let (sa, sb) = (a[w - 1], b[w - 1]);
        let na = self.neg(s, &a);
        let nb = self.neg(s, &b);
        let ua = self.mux(s, sa, &na, &a);
        let ub = self.mux(s, sb, &nb, &b);
        let (q, r) = self.divrem(s, &ua, &ub);
        if n.op == Op::Sdiv {
          let nq = self.neg(s, &q);
          let sg = self.xor(s, sa, sb);
          self.mux(s, sg, &nq, &q)
        } else {
          let nr = self.neg(s, &r);
          self.mux(s, sa, &nr, &r)
        }
      }
      Op::And | Op::Or | Op::Xor => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        (0..w)
          .map(|i| match n.op {
            Op::And => self.and(s, a[i], b[i]),
            Op::Or => self.or(s, a[i], b[i]),
            _ => self.xor(s, a[i], b[i]),
          })
          .collect()
      }
      Op::Shl => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        self.shift(s, &a, &b, true, f)
      }
      Op::Lshr => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        self.shift(s, &a, &b, false, f)
      }
      Op::Ashr => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let sg = a[w - 1];
        self.shift(s, &a, &b, false, sg)
      }
      Op::Eq => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let mut acc = t;
        for i in 0..a.len() {
          let x = self.xor(s, a[i], b[i]);
          acc = self.and(s, acc, -x);
        }
        vec![acc]
      }
      Op::Ult => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        vec![self.ult(s, &a, &b)]
      }
      Op::Slt => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let mut a2 = a.to_vec();
        let mut b2 = b.to_vec();
        let k = a2.len() - 1;
        a2[k] = -a2[k];
        b2[k] = -b2[k];
        vec![self.ult(s, &a2, &b2)]
      }
      Op::Smin | Op::Smax => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let mut a2 = a.to_vec();
        let mut b2 = b.to_vec();
        let k = a2.len() - 1;
        a2[k] = -a2[k];
        b2[k] = -b2[k];
        let c = self.ult(s, &a2, &b2);
        if n.op == Op::Smin {
          self.mux(s, c, &a, &b)
        } else {
          self.mux(s, c, &b, &a)
        }
      }
      Op::Ite => {
        let (c, a, b) = (g(self, n.a), g(self, n.b), g(self, n.c));
        self.mux(s, c[0], &a, &b)
      }
      Op::Concat => {
        let (a, b) = (g(self, n.a), g(self, n.b));
        let mut v = b.to_vec();
        v.extend_from_slice(&a);
        v
      }
      Op::Extract => {
        let a = g(self, n.a);
        a[n.b as usize..n.b as usize + w].to_vec()
      }
      Op::Zext => {
        let a = g(self, n.a);
        let mut v = a.to_vec();
        v.resize(w, f);
        v
      }
      Op::Sext => {
        let a = g(self, n.a);
        let mut v = a.to_vec();
        let sg = *a.last().unwrap();
        v.resize(w, sg);
        v
      }
    };
    // exploit interval facts: known bits become constants
    let inf = cx.inf(x);
    let mut r = r;
    if inf.kz | inf.ko != 0 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem | Op::Shl | Op::Lshr | Op::Ashr | Op::Smin | Op::Smax | Op::Ite) {
      for i in 0..w {
        if (inf.kz >> i) & 1 == 1 {
          r[i] = f;
        } else if (inf.ko >> i) & 1 == 1 {
          r[i] = t;
        }
      }
    }
    r
  }
}
