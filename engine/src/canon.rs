//! Canonical forms, used to discharge equalities between terms that compute
//! the same value by differently associated or distributed integer arithmetic.
//! Sums of products with constants become sorted linear combinations (modulo
//! 2^w); truncations and non-overflowing extensions distribute over them.
use crate::fx::HashMap;
use crate::term::*;

const MAX_ATOMS: usize = 160;

#[derive(Clone)]
pub struct Lin {
  pub k: u128,
  pub a: Vec<(T, u128)>, // sorted by atom, coefficients non-zero
}

/// Whether choices and comparisons take their full canonical forms (decision
/// diagrams, tabulated conditions and divisions): decides filters that compare
/// a lot, costs time on the others.
pub static DEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn deep() -> bool {
  DEEP.load(std::sync::atomic::Ordering::Relaxed)
}

#[derive(Default)]
pub struct Canon {
  pub memo: HashMap<T, T>,
  pub args: HashMap<T, crate::tab::Is>,
  pub tree: crate::tree::Tree,
  again: HashMap<T, T>,
  lin: HashMap<T, Option<std::rc::Rc<Lin>>>,
}

impl Canon {
  /// The canonical form of `t`: same value for every assignment.
  pub fn canon(&mut self, cx: &mut Ctx, t: T) -> T {
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
      if self.memo.contains_key(&x) {
        stack.pop();
        continue;
      }
      if let Some(&r) = self.again.get(&x) {
        let r = self.memo.get(&r).copied().unwrap_or(r);
        self.memo.insert(x, r);
        self.memo.insert(r, r);
        stack.pop();
        continue;
      }
      let n = cx.n(x);
      let kids: [T; 3] = match n.op {
        Op::Const | Op::Var => [0, 0, 0],
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => [n.a, 0, 0],
        Op::Ite => [n.a, n.b, n.c],
        _ => [n.a, n.b, 0],
      };
      let mut pend = false;
      for k in kids {
        if k != 0 && !self.memo.contains_key(&k) {
          stack.push(k);
          pend = true;
        }
      }
      if pend {
        continue;
      }
      let g = |k: T| *self.memo.get(&k).unwrap_or(&k);
      let (a, b, c) = (g(n.a), g(n.b), g(n.c));
      let r = match n.op {
        Op::Const | Op::Var => x,
        Op::Add => cx.add(a, b),
        Op::Sub => cx.sub(a, b),
        Op::Mul => cx.mul(a, b),
        Op::Udiv => cx.udiv(a, b),
        Op::Urem => cx.urem(a, b),
        Op::Sdiv => cx.sdiv(a, b),
        Op::Srem => cx.srem(a, b),
        Op::And => self.logic(cx, a, b, Op::And),
        Op::Or => self.either(cx, a, b),
        Op::Xor => cx.xor(a, b),
        Op::Shl => cx.shl(a, b),
        Op::Lshr => cx.lshr(a, b),
        Op::Ashr => cx.ashr(a, b),
        Op::Eq => {
          let (p, q) = self.cancel(cx, a, b);
          cx.eq(p, q)
        }
        Op::Ult | Op::Slt => match self.order(cx, a, b, n.op == Op::Slt) {
          Some(true) => cx.tru(),
          Some(false) => cx.fls(),
          None if self.never(cx, a, b, n.op == Op::Slt) => cx.fls(),
          None if deep() && self.coarse(cx, a, b).is_some() => self.coarse(cx, a, b).unwrap(),
          None if deep() && self.bounded(cx, a, b, n.op == Op::Slt).is_some() => self.bounded(cx, a, b, n.op == Op::Slt).unwrap(),
          None if n.op == Op::Ult => cx.ult(a, b),
          None => cx.slt(a, b),
        },
        Op::Smin | Op::Smax => self.minmax(cx, a, b, n.op),
        Op::Ite => self.choose(cx, a, b, c),
        Op::Concat => cx.concat(a, b),
        Op::Extract if deep() && n.w > 1 && self.split(cx, a, n.b as u16, n.w).is_some() => self.split(cx, a, n.b as u16, n.w).unwrap(),
        Op::Extract if n.b > 0 && (n.w > 1 || n.b as u16 + 1 == cx.w(a)) => self.high(cx, a, n.b as u16, n.w),
        Op::Extract => cx.extract(a, n.b as u16, n.w),
        Op::Zext | Op::Sext if deep() && self.wide(cx, a, n.w, n.op).is_some() => self.wide(cx, a, n.w, n.op).unwrap(),
        Op::Zext => cx.zext(a, n.w),
        Op::Sext => cx.sext(a, n.w),
        Op::Ffn => cx.mk_ffn(a, n.b),
        Op::Tab => cx.mk_tab(a, n.b),
      };
      let r = match self.linear(cx, r) {
        Some(l) => self.build(cx, &l, n.w),
        None => r,
      };
      let r = self.tabulate(cx, r);
      let r = if deep() { self.arrange(cx, r) } else { r };
      let r = if deep() && cx.n(r).op == Op::Ite { self.narrowed(cx, r) } else { r };
      // the constructors may have pushed operations into the canonical operands
      if r != x && !self.memo.contains_key(&r) && !self.again.contains_key(&r) {
        self.again.insert(x, r);
        stack.push(r);
        continue;
      }
      let r = if r != x { self.memo.get(&r).copied().unwrap_or(r) } else { r };
      self.memo.insert(x, r);
      self.memo.insert(r, r);
      stack.pop();
    }
    self.memo[&t]
  }

  /// Two sides of an equality, with what they have in common removed.
  fn cancel(&mut self, cx: &mut Ctx, a: T, b: T) -> (T, T) {
    if a == b {
      return (a, b);
    }
    let w = cx.w(a);
    if w == 1 {
      return (a, b);
    }
    let (la, lb) = (self.lin(cx, a), self.lin(cx, b));
    let neg = |x: &Lin| Lin { k: x.k.wrapping_neg(), a: x.a.iter().map(|&(t, c)| (t, c.wrapping_neg() & mask(w))).collect() };
    let d = Self::sum(&la, &neg(&lb), w);
    match d {
      Some(d) if d.a.is_empty() => {
        let z = cx.con(0, w);
        let k = cx.con(d.k & mask(w), w);
        (k, z)
      }
      _ => (a, b),
    }
  }

  /// Is a < b decided by the difference of their linear forms?
  fn order(&mut self, cx: &mut Ctx, a: T, b: T, signed: bool) -> Option<bool> {
    let w = cx.w(a);
    if w > 64 || w == 1 {
      return None;
    }
    let (la, lb) = (self.lin(cx, a), self.lin(cx, b));
    if la.a.len() + lb.a.len() > 2 * MAX_ATOMS {
      return None;
    }
    let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
    for l in [&la, &lb] {
      let (p, q) = self.range(cx, l, w)?;
      if p < lo || q > hi {
        return None;
      }
    }
    let k = sx(la.k, w) - sx(lb.k, w);
    let (mut p, mut q) = (k, k);
    let (mut i, mut j) = (0, 0);
    while i < la.a.len() || j < lb.a.len() {
      let (t, c) = if j >= lb.a.len() || (i < la.a.len() && la.a[i].0 < lb.a[j].0) {
        i += 1;
        (la.a[i - 1].0, sx(la.a[i - 1].1, w))
      } else if i >= la.a.len() || lb.a[j].0 < la.a[i].0 {
        j += 1;
        (lb.a[j - 1].0, -sx(lb.a[j - 1].1, w))
      } else {
        i += 1;
        j += 1;
        (la.a[i - 1].0, sx(la.a[i - 1].1, w) - sx(lb.a[j - 1].1, w))
      };
      let f = cx.inf(t);
      let (x, y) = (f.smin.checked_mul(c)?, f.smax.checked_mul(c)?);
      p = p.checked_add(x.min(y))?;
      q = q.checked_add(x.max(y))?;
    }
    if q < 0 {
      Some(true)
    } else if p >= 0 {
      Some(false)
    } else {
      None
    }
  }
  pub fn lin(&mut self, cx: &mut Ctx, t: T) -> Lin {
    match self.linear(cx, t) {
      Some(l) => (*l).clone(),
      None => match cx.cval(t) {
        Some(k) => Lin { k, a: vec![] },
        None => Lin { k: 0, a: vec![(t, 1)] },
      },
    }
  }

  pub fn sum(x: &Lin, y: &Lin, w: u16) -> Option<Lin> {
    let m = mask(w);
    let mut a = Vec::with_capacity(x.a.len() + y.a.len());
    let (mut i, mut j) = (0, 0);
    while i < x.a.len() || j < y.a.len() {
      if j >= y.a.len() || (i < x.a.len() && x.a[i].0 < y.a[j].0) {
        a.push(x.a[i]);
        i += 1;
      } else if i >= x.a.len() || y.a[j].0 < x.a[i].0 {
        a.push(y.a[j]);
        j += 1;
      } else {
        let c = x.a[i].1.wrapping_add(y.a[j].1) & m;
        if c != 0 {
          a.push((x.a[i].0, c));
        }
        i += 1;
        j += 1;
      }
    }
    if a.len() > MAX_ATOMS {
      return None;
    }
    Some(Lin { k: x.k.wrapping_add(y.k) & m, a })
  }
  pub fn scale(x: &Lin, k: u128, w: u16) -> Lin {
    let m = mask(w);
    Lin {
      k: x.k.wrapping_mul(k) & m,
      a: x.a.iter().map(|&(t, c)| (t, c.wrapping_mul(k) & m)).filter(|p| p.1 != 0).collect(),
    }
  }

  /// t >> lo where t is a minimum or maximum with a constant, plus a constant:
  /// the shift is monotone
  fn shifted(&mut self, cx: &mut Ctx, t: T, lo: u16) -> Option<T> {
    let w = cx.w(t);
    if !deep() || w > 64 || lo + 1 >= w {
      return None;
    }
    let l = self.lin(cx, t);
    if l.a.len() != 1 || l.a[0].1 != 1 {
      return None;
    }
    let m = cx.n(l.a[0].0);
    if !matches!(m.op, Op::Smin | Op::Smax) {
      return None;
    }
    let k = sx(l.k, w);
    let half = 1i128 << (w - 1);
    let mut r = None;
    for x in Self::chained(cx, l.a[0].0, m.op) {
      let i = cx.inf(x);
      if i.smin + k < -half || i.smax + k >= half {
        return None;
      }
      let e = match cx.cval(x) {
        Some(c) => cx.con(((sx(c, w) + k) >> lo) as u128 & mask(w - lo), w - lo),
        None => {
          let kc = cx.con(l.k, w);
          let y = cx.add(x, kc);
          cx.extract(y, lo, w - lo)
        }
      };
      r = Some(match r {
        None => e,
        Some(p) if m.op == Op::Smin => cx.smin(p, e),
        Some(p) => cx.smax(p, e),
      });
    }
    r
  }

  /// an extension of a product that does not wrap: the product of the extensions
  fn wide(&mut self, cx: &mut Ctx, t: T, w: u16, op: Op) -> Option<T> {
    let n = cx.n(t);
    if n.op != Op::Mul || n.w < 16 || w > 64 || cx.cval(n.a).is_some() || cx.cval(n.b).is_some() {
      return None;
    }
    let (x, y) = (cx.inf(n.a), cx.inf(n.b));
    let v = [x.smin * y.smin, x.smin * y.smax, x.smax * y.smin, x.smax * y.smax];
    let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    let top = 1i128 << (n.w - 1);
    if lo < -top || hi >= if x.smin >= 0 && y.smin >= 0 && op == Op::Zext { 2 * top } else { top } || op == Op::Zext && lo < 0 {
      return None;
    }
    let (p, q) = (cx.sext(n.a, w), cx.sext(n.b, w));
    Some(cx.mul(p, q))
  }
  /// a < b, both non-negative and one a constant with many low bits 0 (or 1):
  /// the comparison of the high bits
  fn coarse(&mut self, cx: &mut Ctx, a: T, b: T) -> Option<T> {
    let w = cx.w(a);
    if w > 64 || cx.inf(a).smin < 0 || cx.inf(b).smin < 0 {
      return None;
    }
    let (v, c, less) = match (cx.cval(a), cx.cval(b)) {
      (None, Some(c)) => (a, c, true),
      (Some(c), None) => (b, c + 1, false),
      _ => return None,
    };
    let k = c.trailing_zeros() as u16;
    if c == 0 || k < 14 || k + 3 >= w || cx.inf(v).smax + (1 << k) >= 1 << (w - 1) {
      return None;
    }
    // rounding was taken out of the comparison
    let h = cx.con(1 << k, w);
    let v = cx.add(v, h);
    let v = self.memo.get(&v).copied().unwrap_or(v);
    let c = c + (1 << k);
    let k = c.trailing_zeros() as u16;
    if k + 1 >= w {
      return None;
    }
    let e = self.high(cx, v, k, w - k);
    let kc = cx.con(c >> k, w - k);
    let r = cx.ult(e, kc);
    Some(if less { r } else { cx.not(r) })
  }
  /// a < b where one is constant and the other a minimum or maximum, scaled and
  /// offset: the comparisons of its operands.
  fn bounded(&mut self, cx: &mut Ctx, a: T, b: T, signed: bool) -> Option<T> {
    let w = cx.w(a);
    let (v, c, less) = match (cx.cval(a), cx.cval(b)) {
      (None, Some(c)) => (a, c, true),
      (Some(c), None) => (b, c, false),
      _ => return None,
    };
    if w == 1 || w > 64 || !signed && (cx.inf(v).smin < 0 || sx(c, w) < 0) {
      return None;
    }
    // x | y < 2^k
    if less && !signed && c.is_power_of_two() && cx.n(v).op == Op::Or {
      let mut r = cx.tru();
      for x in Self::chained(cx, v, Op::Or) {
        let e = cx.ult(x, b);
        r = cx.and(r, e);
      }
      return Some(r);
    }
    let l = self.lin(cx, v);
    if l.a.len() != 1 {
      return None;
    }
    let (mut m, g) = (l.a[0].0, sx(l.a[0].1, w));
    let i = cx.inf(m);
    let (k, half) = (sx(l.k, w), 1i128 << (w - 1));
    let (p, q) = (i.smin * g + k, i.smax * g + k);
    if p.min(q) < -half || p.max(q) >= half || g <= 0 {
      return None;
    }
    // m < c or c < m
    let d = sx(c, w) - k;
    let c = if less { -((-d).div_euclid(g)) } else { d.div_euclid(g) };
    while matches!(cx.n(m).op, Op::Zext | Op::Sext) {
      let n = cx.n(m);
      if n.op == Op::Zext && cx.inf(n.a).smin < 0 {
        return None;
      }
      m = n.a;
    }
    let op = cx.n(m).op;
    if !matches!(op, Op::Smin | Op::Smax) {
      return None;
    }
    let wm = cx.w(m);
    let half = 1i128 << (wm - 1);
    if c < -half || c >= half {
      return None;
    }
    let kc = cx.con(c as u128 & mask(wm), wm);
    let mut r = None;
    for x in Self::chained(cx, m, op) {
      let e = if less { cx.slt(x, kc) } else { cx.slt(kc, x) };
      r = Some(match r {
        None => e,
        Some(p) if (op == Op::Smax) == less => cx.and(p, e),
        Some(p) => cx.or(p, e),
      });
    }
    r
  }

  /// Bits lo.. of a linear form: multiples of 2^lo move out, common factors
  /// and unused high bits are dropped.
  fn high(&mut self, cx: &mut Ctx, t: T, lo: u16, w: u16) -> T {
    let plain = cx.extract(t, lo, w);
    if let Some(r) = self.shifted(cx, t, lo) {
      return cx.extract(r, 0, w);
    }
    let Some(l) = self.linear(cx, t) else {
      let n = cx.n(t);
      return match n.op {
        Op::Extract if n.b > 0 => self.high(cx, n.a, lo + n.b as u16, w),
        Op::Zext | Op::Sext if lo < cx.w(n.a) => {
          let m = w.min(cx.w(n.a) - lo);
          if m == w && m == 1 && lo + 1 < cx.w(n.a) {
            return plain;
          }
          let e = self.high(cx, n.a, lo, m);
          if m == w {
            e
          } else if n.op == Op::Zext {
            cx.zext(e, w)
          } else {
            cx.sext(e, w)
          }
        }
        _ => plain,
      };
    };
    let wt = lo + w;
    if wt > 127 {
      return plain;
    }
    let low = (1u128 << lo) - 1;
    let k = l.k & mask(wt);
    let mut out = Lin { k: k >> lo, a: vec![] };
    let mut rest: Vec<(T, u128)> = vec![];
    for &(a, c) in &l.a {
      let c = c & mask(wt);
      if c == 0 {
        continue;
      }
      if c & low == 0 && w > 1 {
        let e = if cx.w(a) > w { cx.extract(a, 0, w) } else { a };
        let e = self.memo.get(&e).copied().unwrap_or(e);
        let y = self.lin(cx, e);
        match Self::sum(&out, &Self::scale(&y, c >> lo, w), w) {
          Some(s) => out = s,
          None => return plain,
        }
      } else {
        rest.push((a, c));
      }
    }
    if !rest.is_empty() {
      let g = rest.iter().map(|p| p.1.trailing_zeros()).min().unwrap().min(lo as u32) as u16;
      let (lo, wt) = (lo - g, wt - g);
      let mut r = Lin { k: (if w == 1 { k } else { k & low }) >> g, a: rest.iter().map(|p| (p.0, p.1 >> g)).collect() };
      // the least width that holds the value
      let mut ww = wt;
      let mut pos = false;
      if let Some((a, b)) = self.range(cx, &r, wt) {
        let half = 1i128 << (wt - 1);
        if a >= 0 && b <= mask(wt) as i128 {
          pos = true;
          while ww > if w == 1 { 1 } else { lo + 1 } && b < 1i128 << (ww - 1) {
            ww -= 1;
          }
        } else if a >= -half && b < half {
          while (w == 1 || ww > lo + 1) && ww > 2 && a >= -(1i128 << (ww - 2)) && b < 1i128 << (ww - 2) {
            ww -= 1;
          }
        }
      }
      if w == 1 && ww <= lo && pos {
        return cx.con(0, 1);
      }
      // bits above the value repeat its sign
      let lo = lo.min(ww - 1);
      let mut q = Lin { k: r.k & mask(ww), a: vec![] };
      for (a, c) in r.a.drain(..) {
        let e = if cx.w(a) > ww { cx.extract(a, 0, ww) } else { a };
        let e = self.memo.get(&e).copied().unwrap_or(e);
        let y = self.lin(cx, e);
        match Self::sum(&q, &Self::scale(&y, c & mask(ww), ww), ww) {
          Some(s) => q = s,
          None => return plain,
        }
      }
      let inner = self.build(cx, &std::rc::Rc::new(q), ww);
      let e = cx.extract(inner, lo, ww - lo);
      if w == 1 {
        return cx.extract(e, 0, 1);
      }
      let e = if ww - lo >= w { e } else if pos { cx.zext(e, w) } else { cx.sext(e, w) };
      let y = self.lin(cx, e);
      match Self::sum(&out, &y, w) {
        Some(s) => out = s,
        None => return plain,
      }
    }
    self.build(cx, &std::rc::Rc::new(out), w)
  }

  /// The value range of a linear form over the integers, coefficients signed.
  pub fn range(&self, cx: &Ctx, l: &Lin, w: u16) -> Option<(i128, i128)> {
    let k = sx(l.k, w);
    let (mut lo, mut hi) = (k, k);
    for &(t, c) in &l.a {
      let i = cx.inf(t);
      let c = sx(c, w);
      let (p, q) = (i.smin.checked_mul(c)?, i.smax.checked_mul(c)?);
      lo = lo.checked_add(p.min(q))?;
      hi = hi.checked_add(p.max(q))?;
    }
    Some((lo, hi))
  }

  /// The linear form of a node whose children are canonical; None for atoms.
  pub fn linear(&mut self, cx: &mut Ctx, t: T) -> Option<std::rc::Rc<Lin>> {
    if let Some(l) = self.lin.get(&t) {
      return l.clone();
    }
    let n = cx.n(t);
    let w = n.w;
    let r: Option<Lin> = match n.op {
      Op::Add | Op::Sub => {
        let x = self.lin(cx, n.a);
        let mut y = self.lin(cx, n.b);
        if n.op == Op::Sub {
          y = Self::scale(&y, mask(w), w);
        }
        Self::sum(&x, &y, w)
      }
      Op::Mul => match (cx.cval(n.a), cx.cval(n.b)) {
        (_, Some(k)) => Some(Self::scale(&self.lin(cx, n.a), k, w)),
        (Some(k), _) => Some(Self::scale(&self.lin(cx, n.b), k, w)),
        _ => None,
      },
      Op::Shl => match cx.cval(n.b) {
        Some(k) if k < w as u128 => Some(Self::scale(&self.lin(cx, n.a), 1 << k, w)),
        _ => None,
      },
      // x ++ 0 is x << k
      Op::Concat if cx.cval(n.b) == Some(0) => {
        let k = cx.w(n.b);
        let x = cx.n(n.a);
        let e = if x.op == Op::Extract && x.b == 0 && cx.w(x.a) >= w { cx.extract(x.a, 0, w) } else { cx.sext(n.a, w) };
        Some(Self::scale(&self.lin(cx, e), 1 << k, w))
      }
      Op::Extract if n.b == 0 && w > 1 => {
        let x = self.lin(cx, n.a);
        if x.a.len() == 1 && x.a[0].1 == 1 && x.k == 0 {
          None
        } else {
          let m = mask(w);
          let mut l = Lin { k: x.k & m, a: vec![] };
          let mut ok = true;
          for &(a, c) in &x.a {
            let e = cx.extract(a, 0, w);
            let e = self.memo.get(&e).copied().unwrap_or(e);
            let y = self.lin(cx, e);
            match Self::sum(&l, &Self::scale(&y, c & m, w), w) {
              Some(s) => l = s,
              None => {
                ok = false;
                break;
              }
            }
          }
          if ok {
            Some(l)
          } else {
            None
          }
        }
      }
      Op::Zext if deep() && cx.n(n.a).op == Op::Concat && cx.cval(cx.n(n.a).b) == Some(0) => {
        let c = cx.n(n.a);
        let k = cx.w(c.b);
        let e = cx.zext(c.a, w);
        let e = self.memo.get(&e).copied().unwrap_or(e);
        Some(Self::scale(&self.lin(cx, e), 1 << k, w))
      }
      Op::Sext | Op::Zext => {
        let wa = cx.w(n.a);
        let x = self.lin(cx, n.a);
        let half = 1i128 << (wa - 1);
        // unsigned once more by 2^wa
        let mut up = 0;
        let fits = match self.range(cx, &x, wa) {
          Some((lo, hi)) if deep() && n.op == Op::Zext && wa < 64 && lo >= -(1i128 << wa) && hi < 0 => {
            up = 1i128 << wa;
            true
          }
          Some((lo, hi)) => if n.op == Op::Sext { lo >= -half && hi < half } else { lo >= 0 && wa < 127 && hi <= mask(wa) as i128 },
          None => false,
        };
        if !fits || (x.a.len() == 1 && x.a[0].1 == 1 && x.k == 0 && n.op == Op::Sext) || wa == 1 {
          None
        } else {
          let mut l = Lin { k: (sx(x.k, wa) + up) as u128 & mask(w), a: vec![] };
          let mut ok = true;
          for &(a, c) in &x.a {
            // sext of an atom of non-negative value is its zext
            let e = cx.sext(a, w);
            let y = match cx.cval(e) {
              Some(k) => Lin { k, a: vec![] },
              None => Lin { k: 0, a: vec![(e, 1)] },
            };
            match Self::sum(&l, &Self::scale(&y, sx(c, wa) as u128 & mask(w), w), w) {
              Some(s) => l = s,
              None => {
                ok = false;
                break;
              }
            }
          }
          if ok {
            Some(l)
          } else {
            None
          }
        }
      }
      _ => None,
    };
    let r = r.map(std::rc::Rc::new);
    self.lin.insert(t, r.clone());
    r
  }

  pub fn build(&mut self, cx: &mut Ctx, l: &std::rc::Rc<Lin>, w: u16) -> T {
    let mut acc: Option<T> = None;
    for &(a, c) in &l.a {
      let k = cx.con(c, w);
      let p = if c == 1 { a } else { cx.mul(a, k) };
      acc = Some(match acc {
        None => p,
        Some(x) => cx.add(x, p),
      });
    }
    let k = cx.con(l.k & mask(w), w);
    let r = match acc {
      None => k,
      Some(x) => cx.add(x, k),
    };
    if cx.cval(r).is_none() && !(l.a.len() == 1 && l.a[0].1 == 1 && l.k == 0) {
      self.lin.insert(r, Some(l.clone()));
      if let Some((lo, hi)) = self.range(cx, l, w) {
        let half = 1i128 << (w - 1).min(126);
        if w < 127 && lo >= -half && hi < half {
          cx.narrow(r, lo, hi);
        }
      }
    }
    r
  }
}
