//! Functions of one narrow term.  A term that depends on a single linear
//! combination of inputs with few values (a difference of two samples, say) is
//! identified with the table of its values, however it is computed.
use crate::canon::*;
use crate::term::*;
use crate::fx::HashMap;
use std::rc::Rc;

/// the most values an argument may take
const MAX_TAB: i128 = 1 << 13;
const MAX_TAB_DEEP: i128 = 1 << 14;
pub fn max_tab() -> i128 {
  if deep() {
    MAX_TAB_DEEP
  } else {
    MAX_TAB
  }
}

pub struct Table {
  pub lo: i128,
  pub v: Rc<Vec<i32>>,
  pub min: i128,
  pub max: i128,
}
impl Table {
  pub fn at(&self, x: i128) -> u128 {
    let i = (x - self.lo).clamp(0, self.v.len() as i128 - 1);
    self.v[i as usize] as u32 as u128
  }
}
impl Ctx {
  /// products of inputs below `t` (and: choices)
  pub fn has_product(&self, t: T, memo: &mut HashMap<T, (bool, bool)>) -> bool {
    let mut stack = vec![(t, false)];
    while let Some((x, done)) = stack.pop() {
      if memo.contains_key(&x) {
        continue;
      }
      let n = self.n(x);
      let k: Vec<T> = match n.op {
        Op::Const | Op::Var => vec![],
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => vec![n.a],
        Op::Ite => vec![n.a, n.b, n.c],
        _ => vec![n.a, n.b],
      };
      if done {
        let own = n.op == Op::Mul && self.cval(n.a).is_none() && self.cval(n.b).is_none();
        let r = own || k.iter().any(|y| memo[y].0);
        let c = matches!(n.op, Op::Ite | Op::Smin | Op::Smax) || k.iter().any(|y| memo[y].1);
        memo.insert(x, (r, c));
      } else {
        stack.push((x, true));
        stack.extend(k.into_iter().map(|y| (y, false)));
      }
    }
    memo[&t].0
  }
  pub fn free_products(&mut self, t: T, has: &HashMap<T, (bool, bool)>, memo: &mut HashMap<T, T>) -> T {
    if !has[&t].0 {
      return t;
    }
    if let Some(&r) = memo.get(&t) {
      return r;
    }
    let n = self.n(t);
    let i = self.inf(t);
    let span = (i.smax - i.smin) as u128;
    let r = if matches!(n.op, Op::Add | Op::Sub | Op::Mul) && n.w >= 16 && n.w <= 64 && !has[&t].1 {
      let v = self.var(u32::MAX - self.vars.len() as u32, n.w, 0, span);
      let k = self.con(i.smin as u128 & mask(n.w), n.w);
      self.add(v, k)
    } else {
      let a = self.free_products(n.a, has, memo);
      let two = !matches!(n.op, Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab);
      let b = if two { self.free_products(n.b, has, memo) } else { n.b };
      let c = if n.op == Op::Ite { self.free_products(n.c, has, memo) } else { 0 };
      match n.op {
        Op::Ite => self.ite(a, b, c),
        Op::Extract => self.extract(a, n.b as u16, n.w),
        Op::Zext => self.zext(a, n.w),
        Op::Sext => self.sext(a, n.w),
        Op::Concat => self.concat(a, b),
        Op::Ffn => self.mk_ffn(a, n.b),
        Op::Tab => self.mk_tab(a, n.b),
        Op::Add => self.add(a, b),
        Op::Sub => self.sub(a, b),
        Op::Mul => self.mul(a, b),
        Op::And => self.and(a, b),
        Op::Or => self.or(a, b),
        Op::Xor => self.xor(a, b),
        Op::Eq => self.eq(a, b),
        Op::Ult => self.ult(a, b),
        Op::Slt => self.slt(a, b),
        Op::Smin => self.smin(a, b),
        Op::Smax => self.smax(a, b),
        Op::Shl => self.shl(a, b),
        Op::Lshr => self.lshr(a, b),
        Op::Ashr => self.ashr(a, b),
        Op::Udiv => self.udiv(a, b),
        Op::Urem => self.urem(a, b),
        Op::Sdiv => self.sdiv(a, b),
        Op::Srem => self.srem(a, b),
        Op::Const | Op::Var => t,
      }
    };
    memo.insert(t, r);
    r
  }
  pub fn table(&mut self, lo: i128, v: Vec<i32>) -> u32 {
    let k = (lo, Rc::new(v));
    if let Some(&i) = self.tab_ids.get(&k) {
      return i;
    }
    let (min, max) = (*k.1.iter().min().unwrap() as i128, *k.1.iter().max().unwrap() as i128);
    self.tabs.push(Table { lo, v: k.1.clone(), min, max });
    let i = self.tabs.len() as u32 - 1;
    self.tab_ids.insert(k, i);
    i
  }
}

/// What a term is a function of: a linear form (of width 32) of few values.
pub struct Arg {
  pub d: T,
  pub l: Lin,
  pub lo: i128,
  pub n: usize,
}

#[derive(Clone)]
pub enum Is {
  Any,
  Of(Rc<Arg>),
  No,
}

impl Canon {
  /// the difference of two terms that do not wrap (coefficients of width 100)
  fn diff(&mut self, cx: &mut Ctx, a: T, b: T, signed: bool) -> Option<(Lin, i128)> {
    let w = cx.w(a);
    if w > 64 {
      return None;
    }
    let (la, lb) = (self.lin(cx, a), self.lin(cx, b));
    let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
    for l in [&la, &lb] {
      let (p, q) = self.range(cx, l, w)?;
      if p < lo || q > hi {
        return None;
      }
    }
    let (ka, kb) = (sx(la.k, w), sx(lb.k, w));
    let wide = |l: &Lin, g: i128| Lin { k: 0, a: l.a.iter().map(|&(t, c)| (t, (g * sx(c, w)) as u128 & mask(100))).collect() };
    let s = Self::sum(&wide(&la, 1), &wide(&lb, -1), 100)?;
    Some((s, ka - kb))
  }
  /// `l` without its constant and common factor; the factor
  fn norm(l: &Lin, w: u16) -> (Vec<(T, i128)>, i128) {
    let mut g = 0i128;
    for &(_, c) in &l.a {
      let (mut x, mut y) = (g, sx(c, w).abs());
      while y != 0 {
        (x, y) = (y, x % y);
      }
      g = x;
    }
    if sx(l.a[0].1, w) < 0 {
      g = -g;
    }
    (l.a.iter().map(|&(t, c)| (t, sx(c, w) / g)).collect(), g)
  }
  /// the normalised form of `l` as a term of width 32
  fn arg_of(&mut self, cx: &mut Ctx, l: &Lin, w: u16) -> Option<(Lin, i128)> {
    if l.a.len() > 8 {
      return None;
    }
    if l.a.iter().any(|p| sx(p.1, w).unsigned_abs() >> 31 != 0) {
      return None;
    }
    let (v, g) = Self::norm(l, w);
    let mut out = Lin { k: 0, a: vec![] };
    for (t, c) in v {
      let i = cx.inf(t);
      let e = match cx.w(t) {
        32 => t,
        x if x < 32 => cx.sext(t, 32),
        _ if i.smin >= -(1 << 31) && i.smax < 1 << 31 => cx.extract(t, 0, 32),
        _ => return None,
      };
      let e = self.memo.get(&e).copied().unwrap_or(e);
      if cx.cval(e).is_some() {
        return None;
      }
      out.a.push((e, c as u128 & mask(32)));
    }
    out.a.sort();
    let mut g = g;
    if sx(out.a[0].1, 32) < 0 {
      g = -g;
      for p in &mut out.a {
        p.1 = p.1.wrapping_neg() & mask(32);
      }
    }
    for k in 1..out.a.len() {
      if out.a[k].0 == out.a[k - 1].0 {
        return None;
      }
    }
    Some((out, g))
  }
  fn both(x: Is, y: Is) -> Is {
    match (x, y) {
      (Is::Any, y) => y,
      (x, Is::Any) => x,
      (Is::Of(x), Is::Of(y)) if x.d == y.d => Is::Of(x),
      _ => Is::No,
    }
  }
  fn kids(cx: &Ctx, t: T) -> Vec<T> {
    let n = cx.n(t);
    match n.op {
      Op::Ite => vec![n.a, n.b, n.c],
      Op::Extract | Op::Zext | Op::Sext => vec![n.a],
      Op::Const | Op::Var | Op::Ffn | Op::Tab | Op::Concat => vec![],
      Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem if !deep() || matches!(cx.cval(n.b), None | Some(0)) => vec![],
      _ => vec![n.a, n.b],
    }
  }
  /// the linear form itself as an argument
  fn own(&mut self, cx: &mut Ctx, l: &Lin, w: u16) -> Is {
    let Some((f, _)) = self.arg_of(cx, l, w) else { return Is::No };
    let Some((lo, hi)) = self.range(cx, &f, 32) else { return Is::No };
    if hi - lo >= max_tab() || lo < -(1 << 20) || hi > 1 << 20 {
      return Is::No;
    }
    let d = self.build(cx, &Rc::new(f.clone()), 32);
    Is::Of(Rc::new(Arg { d, l: f, lo, n: (hi - lo + 1) as usize }))
  }
  /// no wrap, signed or unsigned
  fn fits(lo: i128, hi: i128, w: u16) -> bool {
    lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1) || deep() && lo >= 0 && hi <= mask(w) as i128
  }
  fn parts(&mut self, cx: &mut Ctx, v: &[T], depth: u32) -> Is {
    let mut r = Is::Any;
    for &k in v {
      let x = self.arg(cx, k, depth);
      r = Self::both(r, x);
      if matches!(r, Is::No) {
        break;
      }
    }
    r
  }
  /// What is a canonical term a function of?
  fn arg(&mut self, cx: &mut Ctx, t: T, depth: u32) -> Is {
    if cx.cval(t).is_some() {
      return Is::Any;
    }
    if let Some(r) = self.args.get(&t) {
      return r.clone();
    }
    if depth == 0 {
      return Is::No;
    }
    let n = cx.n(t);
    let r = if n.op == Op::Tab {
      let l = self.lin(cx, n.a);
      self.own(cx, &l, 32)
    } else if n.w > 64 {
      Is::No
    } else if n.w == 1 {
      let k = Self::kids(cx, t);
      let r = if k.is_empty() { Is::No } else { self.parts(cx, &k, depth - 1) };
      match (r, n.op) {
        (Is::No, Op::Eq | Op::Ult | Op::Slt) if cx.w(n.a) > 1 => match self.diff(cx, n.a, n.b, n.op != Op::Ult) {
          Some((l, _)) if !l.a.is_empty() => self.own(cx, &l, 100),
          _ => Is::No,
        },
        (r, _) => r,
      }
    } else {
      let l = self.lin(cx, t);
      let alone = l.a.len() == 1 && l.a[0].0 == t;
      let k = if alone { Self::kids(cx, t) } else { l.a.iter().map(|p| p.0).collect() };
      let r = if k.is_empty() || k.len() > 16 { Is::No } else { self.parts(cx, &k, depth - 1) };
      match r {
        Is::No => match self.range(cx, &l, n.w) {
          Some((lo, hi)) if !l.a.is_empty() && Self::fits(lo, hi, n.w) => self.own(cx, &l, n.w),
          _ => Is::No,
        },
        r => r,
      }
    };
    self.args.insert(t, r.clone());
    r
  }
  /// values of a linear form that is a multiple of the argument, plus `k`
  fn affine(&mut self, cx: &mut Ctx, l: &Lin, k: i128, w: u16, d: &Arg) -> Option<Vec<i128>> {
    let (f, g) = self.arg_of(cx, l, w)?;
    (f.a == d.l.a).then(|| (0..d.n).map(|x| k + g * (d.lo + x as i128)).collect())
  }
  /// values of a term at every value of the argument
  fn values(&mut self, cx: &mut Ctx, t: T, d: &Arg, memo: &mut HashMap<T, Rc<Vec<u64>>>) -> Option<Rc<Vec<u64>>> {
    if let Some(c) = cx.cval(t) {
      return Some(Rc::new(vec![c as u64; d.n]));
    }
    if let Some(v) = memo.get(&t) {
      return Some(v.clone());
    }
    let n = cx.n(t);
    let m = mask(n.w) as u64;
    let is = self.arg(cx, t, 1);
    let Is::Of(x) = is else { return None };
    if x.d != d.d {
      return None;
    }
    let cut = |v: Vec<i128>| v.into_iter().map(|x| x as u64 & m).collect::<Vec<u64>>();
    let v: Vec<u64> = 'v: {
      if n.op == Op::Tab {
        if n.a != d.d {
          return None;
        }
        let tab = &cx.tabs[n.b as usize];
        break 'v (0..d.n).map(|x| tab.at(d.lo + x as i128) as u64).collect();
      }
      if n.w > 1 {
        let l = self.lin(cx, t);
        let alone = l.a.len() == 1 && l.a[0].0 == t;
        let fit = matches!(self.range(cx, &l, n.w), Some((lo, hi)) if Self::fits(lo, hi, n.w));
        if fit {
          if let Some(v) = self.affine(cx, &l, sx(l.k, n.w), n.w, d) {
            break 'v cut(v);
          }
        }
        if !alone {
          let mut v = vec![l.k as u64; d.n];
          for &(a, c) in &l.a {
            let y = self.values(cx, a, d, memo)?;
            for i in 0..d.n {
              v[i] = v[i].wrapping_add(y[i].wrapping_mul(c as u64));
            }
          }
          break 'v v.into_iter().map(|x| x & m).collect();
        }
      }
      let ks = Self::kids(cx, t);
      let mut a = vec![];
      for &k in &ks {
        match self.values(cx, k, d, memo) {
          Some(v) => a.push(v),
          None => break,
        }
      }
      if a.is_empty() || a.len() < ks.len() {
        if !matches!(n.op, Op::Eq | Op::Ult | Op::Slt) || cx.w(n.a) == 1 {
          return None;
        }
        let (l, k) = self.diff(cx, n.a, n.b, n.op != Op::Ult)?;
        let v = self.affine(cx, &l, k, 100, d)?;
        break 'v v.iter().map(|&x| (if n.op == Op::Eq { x == 0 } else { x < 0 }) as u64).collect();
      }
      let w = cx.w(n.a);
      match n.op {
        Op::Ite => (0..d.n).map(|i| if a[0][i] != 0 { a[1][i] } else { a[2][i] }).collect(),
        Op::Extract => a[0].iter().map(|x| x >> n.b & m).collect(),
        Op::Zext => a[0].to_vec(),
        Op::Sext => a[0].iter().map(|&x| sx(x as u128, w) as u64 & m).collect(),
        _ => (0..d.n).map(|i| bin(n.op, a[0][i] as u128, a[1][i] as u128, w) as u64 & m).collect(),
      }
    };
    let v = Rc::new(v);
    memo.insert(t, v.clone());
    Some(v)
  }
  /// a table or part of one
  fn direct(&self, cx: &Ctx, mut t: T) -> bool {
    while cx.n(t).op == Op::Extract {
      t = cx.n(t).a;
    }
    cx.n(t).op == Op::Tab
  }
  fn has(&mut self, cx: &mut Ctx, k: T) -> bool {
    self.lin(cx, k).a.iter().any(|p| {
      let mut t = p.0;
      loop {
        let n = cx.n(t);
        match n.op {
          Op::Tab => return true,
          Op::Zext | Op::Sext => t = n.a,
          Op::Extract if n.b == 0 || deep() && n.w == 1 => t = n.a,
          _ => return false,
        }
      }
    })
  }
  /// A term that is a function of a narrow linear form, as a table of it.
  pub fn tabulate(&mut self, cx: &mut Ctx, t: T) -> T {
    let n = cx.n(t);
    let one = deep() && n.w == 1
      && match n.op {
        Op::Eq | Op::Ult | Op::Slt => cx.w(n.a) > 1 && (cx.cval(n.a).is_some() || cx.cval(n.b).is_some()) && (self.has(cx, n.a) || self.has(cx, n.b) || n.op == Op::Ult && (cx.inf(n.a).smin < 0 || cx.inf(n.b).smin < 0)),
        Op::Xor => self.has(cx, n.a) && cx.cval(n.b).is_some() || cx.cval(n.a).is_some() && self.has(cx, n.b),
        _ => false,
      };
    let go = one || n.w > 1
      && n.w <= 64
      && match n.op {
        Op::Ite => true,
        Op::Smin | Op::Smax | Op::And | Op::Or | Op::Xor | Op::Lshr | Op::Ashr | Op::Shl | Op::Mul => {
          (self.has(cx, n.a) || self.has(cx, n.b)) && self.linear(cx, t).is_none()
        }
        Op::Extract if deep() || n.b > 0 => self.has(cx, n.a),
        Op::Zext | Op::Sext => deep() && n.w <= 32 && self.direct(cx, n.a),
        Op::Udiv if deep() && cx.cval(n.b).is_none() => true,
        Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem => deep() && self.has(cx, n.a),
        _ => false,
      };
    if !go {
      return t;
    }
    let k = Self::kids(cx, t);
    let mut is = self.parts(cx, &k, 40);
    if matches!(is, Is::No) && matches!(n.op, Op::Eq | Op::Ult | Op::Slt) {
      is = self.arg(cx, t, 40);
    }
    if matches!(is, Is::No) && matches!(n.op, Op::Sdiv | Op::Srem | Op::Udiv | Op::Urem) {
      let l = self.lin(cx, n.a);
      is = self.own(cx, &l, n.w);
    }
    let Is::Of(d) = is else { return if deep() && n.op == Op::Udiv { self.of_bits(cx, t) } else { t } };
    self.args.insert(t, Is::Of(d.clone()));
    let Some(v) = self.values(cx, t, &d, &mut HashMap::default()) else { return t };
    let v: Vec<u128> = v.iter().map(|&x| x as u128).collect();
    let v: Vec<i128> = v.iter().map(|&x| if n.w == 1 || n.w >= 32 || !deep() { sx(x, n.w) } else { x as i128 }).collect();
    if v.iter().any(|&x| x < -(1 << 31) || x >= 1 << 31) {
      return t;
    }
    // one bit: false at the first value
    let flip = n.w == 1 && v[0] != 0;
    let v: Vec<i128> = if flip { v.iter().map(|&x| -1 - x).collect() } else { v };
    let step = if v.len() > 1 { v[1] - v[0] } else { 0 };
    let r = if v.windows(2).all(|p| p[1] - p[0] == step) {
      let k = v[0] - step * d.lo;
      let mut l = Self::scale(&d.l, step as u128 & mask(32), 32);
      l.k = k as u128 & mask(32);
      self.build(cx, &Rc::new(l), 32)
    } else {
      let id = cx.table(d.lo, v.iter().map(|&x| x as i32).collect());
      cx.mk_tab(d.d, id)
    };
    match n.w {
      32 => r,
      1 => {
        let r = cx.extract(r, 0, 1);
        if flip {
          cx.not(r)
        } else {
          r
        }
      }
      w if w < 32 => cx.extract(r, 0, w),
      w => cx.sext(r, w),
    }
  }

  /// the bits of one term that `t` is computed from
  fn bits(&mut self, cx: &mut Ctx, t: T, depth: u32, at: &mut Option<(T, u16, u16)>) -> bool {
    let n = cx.n(t);
    match n.op {
      Op::Const => true,
      _ if depth == 0 => false,
      Op::Extract => match at {
        None => {
          *at = Some((n.a, n.b as u16, n.b as u16 + n.w));
          true
        }
        Some((y, lo, hi)) if *y == n.a || self.cut_of(cx, *y, n.a) || self.cut_of(cx, n.a, *y) => {
          if cx.w(n.a) > cx.w(*y) {
            *y = n.a;
          }
          *lo = (*lo).min(n.b as u16);
          *hi = (*hi).max(n.b as u16 + n.w);
          true
        }
        _ => false,
      },
      Op::Zext => self.bits(cx, n.a, depth - 1, at),
      Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Shl | Op::Lshr | Op::Concat | Op::Udiv => self.bits(cx, n.a, depth - 1, at) && self.bits(cx, n.b, depth - 1, at),
      _ => false,
    }
  }
  /// `x` is the low bits of `y`
  fn cut_of(&mut self, cx: &mut Ctx, x: T, y: T) -> bool {
    let w = cx.w(x);
    if cx.w(y) <= w {
      return false;
    }
    let e = cx.extract(y, 0, w);
    let e = self.memo.get(&e).copied().unwrap_or(e);
    let (a, b) = (self.lin(cx, e), self.lin(cx, x));
    a.k == b.k && a.a == b.a
  }
  fn bit_value(cx: &Ctx, t: T, lo: u16, v: u128) -> u128 {
    let n = cx.n(t);
    let m = mask(n.w);
    match n.op {
      Op::Const => cx.cval(t).unwrap(),
      Op::Extract => v >> (n.b as u16 - lo) & m,
      Op::Zext => Self::bit_value(cx, n.a, lo, v),
      Op::Concat => Self::bit_value(cx, n.a, lo, v) << cx.w(n.b) | Self::bit_value(cx, n.b, lo, v),
      _ => bin(n.op, Self::bit_value(cx, n.a, lo, v), Self::bit_value(cx, n.b, lo, v), cx.w(n.a)) & m,
    }
  }
  /// A quotient computed from few bits of one term, as a table of them.
  fn of_bits(&mut self, cx: &mut Ctx, t: T) -> T {
    let n = cx.n(t);
    let mut at = None;
    if n.w > 32 || !self.bits(cx, t, 8, &mut at) {
      return t;
    }
    let Some((y, lo, hi)) = at else { return t };
    if hi - lo > 13 || cx.w(y) < 2 {
      return t;
    }
    let e = cx.extract(y, lo, hi - lo);
    let e = self.memo.get(&e).copied().unwrap_or(e);
    // those bits may be a function of something narrower
    if let Is::Of(a) = self.arg(cx, e, 40) {
      if let Some(z) = self.values(cx, e, &a, &mut HashMap::default()) {
        let v: Vec<i128> = z.iter().map(|&x| Self::bit_value(cx, t, lo, x as u128 & mask(hi - lo)) as i128).collect();
        if v.iter().all(|&x| x < 1 << 31) {
          let id = cx.table(a.lo, v.iter().map(|&x| x as i32).collect());
          let r = cx.mk_tab(a.d, id);
          return if n.w < 32 { cx.extract(r, 0, n.w) } else { r };
        }
      }
    }
    let d = cx.sext(e, 32);
    let d = self.memo.get(&d).copied().unwrap_or(d);
    let i = cx.inf(d);
    let (p, q) = if i.smin >= 0 { (0, i.smax) } else { (i.smin, i.smax) };
    if q - p >= max_tab() {
      return t;
    }
    let v: Vec<i128> = (p..=q).map(|x| Self::bit_value(cx, t, lo, x as u128 & mask(hi - lo)) as i128).collect();
    if v.iter().any(|&x| x >= 1 << 31) {
      return t;
    }
    let id = cx.table(p, v.iter().map(|&x| x as i32).collect());
    let r = cx.mk_tab(d, id);
    if n.w < 32 {
      cx.extract(r, 0, n.w)
    } else {
      r
    }
  }

  /// the operands of a chain of `op`
  fn chain(cx: &Ctx, t: T, op: Op, out: &mut Vec<T>) {
    let n = cx.n(t);
    if n.op == op {
      Self::chain(cx, n.a, op, out);
      Self::chain(cx, n.b, op, out);
    } else {
      out.push(t);
    }
  }
  pub fn chained(cx: &Ctx, t: T, op: Op) -> Vec<T> {
    let mut v = vec![];
    Self::chain(cx, t, op, &mut v);
    v.sort();
    v.dedup();
    v
  }
  /// x < y is false as evidently y <= x
  pub fn never(&self, cx: &Ctx, x: T, y: T, signed: bool) -> bool {
    (signed || cx.inf(x).smin >= 0 && cx.inf(y).smin >= 0) && Self::below(cx, y, x)
  }
  /// Conjunctions and disjunctions: operands sorted; extensions outermost.
  pub fn logic(&mut self, cx: &mut Ctx, a: T, b: T, op: Op) -> T {
    let (na, nb) = (cx.n(a), cx.n(b));
    if na.op == Op::Zext && nb.op == Op::Zext && cx.w(na.a) == cx.w(nb.a) {
      let r = self.logic(cx, na.a, nb.a, op);
      return cx.zext(r, na.w);
    }
    let f = |cx: &mut Ctx, x: T, y: T| if op == Op::And { cx.and(x, y) } else { cx.or(x, y) };
    if cx.w(a) == 1 {
      let mut v = Self::chained(cx, a, op);
      v.extend(Self::chained(cx, b, op));
      v.sort();
      v.dedup();
      if v.len() > 2 {
        let mut r = v[0];
        for &x in &v[1..] {
          r = f(cx, r, x);
        }
        return r;
      }
    }
    f(cx, a, b)
  }
  /// evidently l <= h: one is a minimum, the other a maximum, of a common term
  fn below(cx: &Ctx, l: T, h: T) -> bool {
    if cx.inf(l).smax <= cx.inf(h).smin {
      return true;
    }
    let (l, h) = (Self::chained(cx, l, Op::Smin), Self::chained(cx, h, Op::Smax));
    l.iter().any(|x| h.binary_search(x).is_ok())
  }
  /// Minima and maxima: operands sorted; clamps with the lower bound first.
  pub fn minmax(&mut self, cx: &mut Ctx, a: T, b: T, op: Op) -> T {
    let mut v = Self::chained(cx, a, op);
    v.extend(Self::chained(cx, b, op));
    v.sort();
    v.dedup();
    // absorption: max(x, min(x, ..)) = x
    let dual = if op == Op::Smin { Op::Smax } else { Op::Smin };
    if v.len() > 1 {
      let w = v.clone();
      v.retain(|&m| cx.n(m).op != dual || !Self::chained(cx, m, dual).iter().any(|x| w.binary_search(x).is_ok()));
    }
    // an offset of the operand moves out
    if deep() && v.len() == 2 {
      for (c, x) in [(v[0], v[1]), (v[1], v[0])] {
        let w = cx.w(x);
        let Some(kc) = cx.cval(c) else { continue };
        if w > 64 || w == 1 {
          continue;
        }
        let l = self.lin(cx, x);
        let product = |t: T| matches!(cx.n(t).op, Op::Mul);
        if l.k == 0 || l.a.is_empty() || l.a.iter().any(|p| product(p.0)) {
          continue;
        }
        let z = Lin { k: 0, a: l.a.clone() };
        let half = 1i128 << (w - 1);
        let (k, d) = (sx(l.k, w), sx(kc, w) - sx(l.k, w));
        let ok = |r: Option<(i128, i128)>| matches!(r, Some((a, b)) if a >= -half && b < half);
        let (p, q) = (self.range(cx, &l, w), self.range(cx, &z, w));
        if ok(p) && ok(q) && d >= -half && d < half {
          let y = self.build(cx, &Rc::new(z), w);
          let dc = cx.con(d as u128 & mask(w), w);
          let m = if op == Op::Smin { cx.smin(y, dc) } else { cx.smax(y, dc) };
          let kc = cx.con(k as u128 & mask(w), w);
          return cx.add(m, kc);
        }
      }
    }
    if op == Op::Smax && v.len() == 2 {
      // max(l, min(h, v)) with l <= h
      for (l, m) in [(v[0], v[1]), (v[1], v[0])] {
        let n = cx.n(m);
        if n.op == Op::Smin {
          for (h, x) in [(n.a, n.b), (n.b, n.a)] {
            if cx.cval(h).is_none() && Self::below(cx, l, h) && !Self::below(cx, l, x) {
              let y = self.minmax(cx, l, x, Op::Smax);
              return self.minmax(cx, h, y, Op::Smin);
            }
          }
        }
      }
    }
    let mut r = v[0];
    for &x in &v[1..] {
      r = if op == Op::Smin { cx.smin(r, x) } else { cx.smax(r, x) };
    }
    r
  }
  /// a | b, recognising x < y | x == y
  pub fn either(&mut self, cx: &mut Ctx, a: T, b: T) -> T {
    if cx.w(a) == 1 {
      for (p, q) in [(a, b), (b, a)] {
        let (x, y) = (cx.n(p), cx.n(q));
        if matches!(x.op, Op::Slt | Op::Ult) && y.op == Op::Eq && (x.a == y.a && x.b == y.b || x.a == y.b && x.b == y.a) {
          let r = if x.op == Op::Slt { cx.slt(x.b, x.a) } else { cx.ult(x.b, x.a) };
          return cx.not(r);
        }
      }
    }
    self.logic(cx, a, b, Op::Or)
  }
  /// if c { a } else { b }, recognising clamps
  pub fn choose(&mut self, cx: &mut Ctx, c: T, a: T, b: T) -> T {
    let (na, nb) = (cx.n(a), cx.n(b));
    // nested choices between two terms
    if deep() && na.op == Op::Ite && na.c == b {
      let k = cx.and(c, na.a);
      return cx.ite(k, na.b, b);
    }
    if deep() && na.op == Op::Ite && na.b == b {
      let d = cx.not(na.a);
      let k = cx.and(c, d);
      return cx.ite(k, na.c, b);
    }
    if deep() && nb.op == Op::Ite && nb.c == a {
      let d = cx.not(nb.a);
      let k = cx.or(c, d);
      return cx.ite(k, a, nb.b);
    }
    let r = cx.ite(c, a, b);
    let n = cx.n(r);
    if n.op != Op::Ite {
      return r;
    }
    match self.clamped(cx, r) {
      Some(y) => y,
      None => self.narrowed(cx, r),
    }
  }
  /// a choice at the least width that holds its outcomes
  pub fn narrowed(&mut self, cx: &mut Ctx, r: T) -> T {
    let n = cx.n(r);
    if !deep() || n.w <= 2 || n.w > 64 {
      return r;
    }
    let (x, y) = (cx.inf(n.b), cx.inf(n.c));
    let (lo, hi) = (x.smin.min(y.smin), x.smax.max(y.smax));
    let mut k = 2;
    while k < n.w && (hi >= 1i128 << if lo < 0 { k - 1 } else { k } || lo < -(1i128 << (k - 1))) {
      k += 1;
    }
    if k >= n.w {
      return r;
    }
    let (e, f) = (cx.extract(n.b, 0, k), cx.extract(n.c, 0, k));
    let t = cx.ite(n.a, e, f);
    if lo < 0 {
      cx.sext(t, n.w)
    } else {
      cx.zext(t, n.w)
    }
  }
  /// a choice that is a clamp
  fn clamped(&mut self, cx: &mut Ctx, r: T) -> Option<T> {
    let n = cx.n(r);
    let k = cx.n(n.a);
    let signed = k.op == Op::Ult && cx.inf(k.a).smin >= 0 && cx.inf(k.b).smin >= 0;
    if k.op != Op::Slt && !signed || cx.w(k.a) != n.w {
      return None;
    }
    // x < y ? 0 : x - y
    if deep() && cx.cval(n.b) == Some(0) && n.w <= 64 {
      if let Some((l, d)) = self.diff(cx, k.a, k.b, true) {
        let o = self.lin(cx, n.c);
        let w = n.w;
        let fit = |r: Option<(i128, i128)>| matches!(r, Some((p, q)) if p >= -(1i128 << (w - 1)) && q < 1i128 << (w - 1));
        let same = sx(o.k, w) == d && o.a.len() == l.a.len() && o.a.iter().zip(&l.a).all(|(p, q)| p.0 == q.0 && sx(p.1, w) == sx(q.1, 100));
        let r = self.range(cx, &o, w);
        if same && fit(r) {
          return Some(self.minmax(cx, n.c, n.b, Op::Smax));
        }
      }
    }
    let m = cx.n(n.c);
    // v < l ? l : min(h, v), and h < v ? h : max(l, v), with l <= h
    if n.b == k.b && m.op == Op::Smin && (m.a == k.a || m.b == k.a) {
      let h = if m.a == k.a { m.b } else { m.a };
      if Self::below(cx, k.b, h) {
        let x = self.minmax(cx, k.b, k.a, Op::Smax);
        return Some(self.minmax(cx, h, x, Op::Smin));
      }
    }
    if n.b == k.a && m.op == Op::Smax && (m.a == k.b || m.b == k.b) {
      let l = if m.a == k.b { m.b } else { m.a };
      if Self::below(cx, l, k.a) {
        let x = self.minmax(cx, l, k.b, Op::Smax);
        return Some(self.minmax(cx, k.a, x, Op::Smin));
      }
    }
    None
  }
}
