//! Random terms built through the simplifying constructors, and their canonical
//! forms, against direct evaluation.  `cargo test` in engine/.
use crate::canon::Canon;
use crate::term::*;
use crate::fx::HashMap;

#[derive(Clone, Debug)]
enum A {
  V(u32, u16),
  C(u128, u16),
  B(Op, Box<A>, Box<A>),
  I(Box<A>, Box<A>, Box<A>),
  X(Op, Box<A>, u16, u16),
}
fn w(a: &A) -> u16 {
  match a {
    A::V(_, w) | A::C(_, w) => *w,
    A::B(Op::Eq | Op::Ult | Op::Slt, ..) => 1,
    A::B(_, a, _) => w(a),
    A::I(_, a, _) => w(a),
    A::X(_, _, _, w) => *w,
  }
}
fn ev(a: &A, v: &[u128]) -> u128 {
  let r = match a {
    A::V(i, _) => v[*i as usize],
    A::C(c, _) => *c,
    A::B(o, a, b) => bin(*o, ev(a, v), ev(b, v), w(a)),
    A::I(c, a, b) => {
      if ev(c, v) != 0 {
        ev(a, v)
      } else {
        ev(b, v)
      }
    }
    A::X(Op::Sext, a, _, _) => sx(ev(a, v), w(a)) as u128,
    A::X(Op::Zext, a, _, _) => ev(a, v),
    A::X(_, a, lo, _) => ev(a, v) >> lo,
  };
  r & mask(w(a))
}
fn build(cx: &mut Ctx, a: &A) -> T {
  match a {
    A::V(i, w) => cx.var(*i, *w, 0, mask(*w)),
    A::C(c, w) => cx.con(*c, *w),
    A::B(o, a, b) => {
      let (x, y) = (build(cx, a), build(cx, b));
      match o {
        Op::Add => cx.add(x, y),
        Op::Sub => cx.sub(x, y),
        Op::Mul => cx.mul(x, y),
        Op::Eq => cx.eq(x, y),
        Op::Ult => cx.ult(x, y),
        Op::Slt => cx.slt(x, y),
        Op::And => cx.and(x, y),
        Op::Or => cx.or(x, y),
        Op::Xor => cx.xor(x, y),
        Op::Shl => cx.shl(x, y),
        Op::Lshr => cx.lshr(x, y),
        Op::Ashr => cx.ashr(x, y),
        Op::Smin => cx.smin(x, y),
        Op::Smax => cx.smax(x, y),
        _ => unreachable!(),
      }
    }
    A::I(c, a, b) => {
      let (c, x, y) = (build(cx, c), build(cx, a), build(cx, b));
      cx.ite(c, x, y)
    }
    A::X(o, a, lo, w) => {
      let x = build(cx, a);
      match o {
        Op::Sext => cx.sext(x, *w),
        Op::Zext => cx.zext(x, *w),
        _ => cx.extract(x, *lo, *w),
      }
    }
  }
}
struct R(u64);
impl R {
  fn n(&mut self, k: u64) -> u64 {
    self.0 ^= self.0 << 13;
    self.0 ^= self.0 >> 7;
    self.0 ^= self.0 << 17;
    (self.0 >> 11) % k
  }
}
fn gen(r: &mut R, wd: u16, d: u32) -> A {
  if d == 0 || r.n(8) == 0 {
    return if r.n(3) == 0 { A::C(r.n(1 << wd) as u128, wd) } else { leaf(r, wd) };
  }
  let b = Box::new;
  match r.n(12) {
    0..=2 => A::B([Op::Add, Op::Sub][r.n(2) as usize], b(gen(r, wd, d - 1)), b(gen(r, wd, d - 1))),
    3 => A::B(Op::Mul, b(gen(r, wd, d - 1)), b(A::C(r.n(1 << wd) as u128, wd))),
    4 => A::B([Op::Shl, Op::Ashr, Op::Lshr][r.n(3) as usize], b(gen(r, wd, d - 1)), b(A::C(r.n(wd as u64) as u128, wd))),
    5 => A::B([Op::Smin, Op::Smax, Op::And, Op::Or, Op::Xor][r.n(5) as usize], b(gen(r, wd, d - 1)), b(gen(r, wd, d - 1))),
    6..=8 => {
      // clamp-like
      let x = gen(r, wd, d - 1);
      let k = r.n(1 << wd) as u128;
      let k2 = if r.n(2) == 0 { k } else { k.wrapping_add(r.n(3) as u128).wrapping_sub(1) & mask(wd) };
      let y = match r.n(3) {
        0 => x.clone(),
        1 => A::B([Op::Smin, Op::Smax][r.n(2) as usize], b(x.clone()), b(A::C(r.n(1 << wd) as u128, wd))),
        _ => A::I(
          b(A::B(Op::Slt, b(x.clone()), b(A::C(k2, wd)))),
          b(x.clone()),
          b(A::C(k2, wd)),
        ),
      };
      let o = [Op::Slt, Op::Ult][r.n(2) as usize];
      let c = if r.n(2) == 0 { A::B(o, b(x), b(A::C(k, wd))) } else { A::B(o, b(A::C(k, wd)), b(x)) };
      let k3 = A::C(k2, wd);
      if r.n(2) == 0 {
        A::I(b(c), b(y), b(k3))
      } else {
        A::I(b(c), b(k3), b(y))
      }
    }
    9 => {
      let o = [Op::Slt, Op::Ult, Op::Eq][r.n(3) as usize];
      let c = A::B(o, b(gen(r, wd, d - 1)), b(gen(r, wd, d - 1)));
      A::I(b(c), b(gen(r, wd, d - 1)), b(gen(r, wd, d - 1)))
    }
    10 if wd > 3 => {
      let n = 2 + r.n(wd as u64 - 2) as u16;
      let x = gen(r, n, d - 1);
      if n == wd {
        x
      } else {
        A::X([Op::Sext, Op::Zext][r.n(2) as usize], b(x), 0, wd)
      }
    }
    _ => {
      let n = wd + r.n(3) as u16;
      let x = gen(r, n, d - 1);
      A::X(Op::Extract, b(x), r.n((n - wd) as u64 + 1) as u16, wd)
    }
  }
}
fn leaf(r: &mut R, wd: u16) -> A {
  // three variables of width 3
  let v = A::V(r.n(3) as u32, 3);
  if wd == 3 {
    v
  } else if wd > 3 {
    A::X([Op::Sext, Op::Zext][r.n(2) as usize], Box::new(v), 0, wd)
  } else {
    A::X(Op::Extract, Box::new(v), 0, wd)
  }
}

#[test]
fn constructors_and_canonical_forms() {
  let seed = std::env::var("SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0u64);
  let mut r = R(88172645463325252 ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
  for k in 0..60000 {
    crate::canon::DEEP.store(k % 3 != 0, std::sync::atomic::Ordering::Relaxed);
    let mut cx = Ctx::new();
    for i in 0..3 {
      cx.var(i, 3, 0, 7);
    }
    let wd = 2 + r.n(6) as u16;
    let a = gen(&mut r, wd, 2 + (k % 4) as u32);
    let t = build(&mut cx, &a);
    let mut cn = Canon::default();
    let c = cn.canon(&mut cx, t);
    for m in 0..512u128 {
      let v = [m & 7, (m >> 3) & 7, m >> 6];
      let e = ev(&a, &v);
      for (nm, x) in [("built", t), ("canonical", c)] {
        let mut memo = HashMap::default();
        let g = cx.eval(x, &|i| v[i as usize], &mut memo);
        assert_eq!(g, e, "case {k}, {nm}: {}\n{}\n{a:?} {v:?}", cx.show(t, 20), cx.show(c, 20));
        let i = cx.inf(x);
        let s = sx(g, wd);
        assert!(i.smin <= s && s <= i.smax && i.umin <= g && g <= i.umax && i.kz & g == 0 && i.ko & !g == 0, "facts of {nm}: {}", cx.show(x, 20));
      }
    }
  }
}
