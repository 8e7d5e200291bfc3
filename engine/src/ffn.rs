//! Floating point over one symbolic integer.  A value computed from an integer
//! by conversions, arithmetic with constants and monotone library functions is
//! kept as a chain; comparing it with a constant or converting it to an integer
//! gives a step function of the integer, found exactly by bisection with the
//! concrete floating-point operations.
use crate::exec::{inc, Abort};
use crate::ir::B;
use crate::term::*;

#[derive(Clone, Debug)]
pub enum FOp {
  /// constant op x
  L(B, f64),
  /// x op constant
  R(B, f64),
  Un(&'static str),
  Neg,
}
#[derive(Clone, Debug)]
pub struct Chain {
  pub signed: bool,
  pub w: u16,
  pub ops: Vec<FOp>,
}

pub fn un(name: &str, x: f64) -> f64 {
  match name {
    "fabs" => x.abs(),
    "sqrt" => x.sqrt(),
    "floor" => x.floor(),
    "ceil" => x.ceil(),
    "trunc" => x.trunc(),
    "round" => x.round(),
    "rint" | "roundeven" | "nearbyint" => x.round_ties_even(),
    "exp" => x.exp(),
    "exp2" => x.exp2(),
    "log" => x.ln(),
    "log2" => x.log2(),
    "log10" => x.log10(),
    "sin" => x.sin(),
    _ => x.cos(),
  }
}
fn mono_un(name: &str) -> Option<&'static str> {
  ["sqrt", "floor", "ceil", "trunc", "round", "rint", "roundeven", "nearbyint", "exp", "exp2", "log", "log2", "log10"].into_iter().find(|x| *x == name)
}
fn ar(op: B, x: f64, y: f64) -> f64 {
  match op {
    B::Fadd => x + y,
    B::Fsub => x - y,
    B::Fmul => x * y,
    B::Fdiv => x / y,
    _ => x % y,
  }
}

impl Chain {
  pub fn eval(&self, a: u128) -> f64 {
    let mut x = if self.signed { sx(a, self.w) as f64 } else { a as f64 };
    for o in &self.ops {
      x = match o {
        FOp::L(b, c) => ar(*b, *c, x),
        FOp::R(b, c) => ar(*b, x, *c),
        FOp::Un(n) => un(n, x),
        FOp::Neg => -x,
      };
    }
    x
  }
  fn at(&self, v: i128) -> f64 {
    self.eval(v as u128 & mask(self.w))
  }
}

impl Ctx {
  pub fn ffn_new(&mut self, a: T, signed: bool) -> T {
    let c = Chain { signed, w: self.w(a), ops: vec![] };
    self.ffn_mk(a, c)
  }
  fn ffn_mk(&mut self, a: T, c: Chain) -> T {
    let key = format!("{c:?}");
    let id = match self.ffn_ids.get(&key) {
      Some(i) => *i,
      None => {
        self.ffn.push(c);
        let i = self.ffn.len() as u32 - 1;
        self.ffn_ids.insert(key, i);
        i
      }
    };
    self.mk_ffn(a, id)
  }
  /// apply an operation to a float term
  pub fn ffn_app(&mut self, t: T, o: &FOp) -> Result<T, Abort> {
    let n = self.n(t);
    match n.op {
      Op::Const => {
        let x = f64::from_bits(self.cval(t).unwrap() as u64);
        let r = match o {
          FOp::L(b, c) => ar(*b, *c, x),
          FOp::R(b, c) => ar(*b, x, *c),
          FOp::Un(n) => un(n, x),
          FOp::Neg => -x,
        };
        Ok(self.con(r.to_bits() as u128, 64))
      }
      Op::Ite => {
        let a = self.ffn_app(n.b, o)?;
        let b = self.ffn_app(n.c, o)?;
        Ok(self.ite(n.a, a, b))
      }
      Op::Ffn => {
        let mut c = self.ffn[n.b as usize].clone();
        let ok = match o {
          FOp::L(B::Fadd, k) | FOp::R(B::Fadd, k) | FOp::L(B::Fsub, k) | FOp::R(B::Fsub, k) | FOp::L(B::Fmul, k) | FOp::R(B::Fmul, k) => k.is_finite(),
          FOp::R(B::Fdiv, k) => *k != 0.0 && !k.is_nan(),
          FOp::L(B::Fdiv, k) => {
            let (lo, hi) = self.ffn_range(n.a, &c);
            let (x, y) = (c.at(lo), c.at(hi));
            k.is_finite() && (x > 0.0 && y > 0.0 || x < 0.0 && y < 0.0)
          }
          FOp::Un(f) => {
            let (lo, hi) = self.ffn_range(n.a, &c);
            mono_un(f).is_some() && (!f.starts_with("log") && *f != "sqrt" || c.at(lo) >= 0.0 && c.at(hi) >= 0.0)
          }
          FOp::Neg => true,
          _ => false,
        };
        if !ok {
          return inc("symbolic floating point (not monotone)");
        }
        // identities: times one, and rounding an integer
        match o {
          FOp::L(B::Fmul, k) | FOp::R(B::Fmul, k) | FOp::R(B::Fdiv, k) if *k == 1.0 => return Ok(t),
          FOp::Un(f) if c.ops.is_empty() && self.ffn_exact(n.a, &c) && matches!(*f, "floor" | "ceil" | "trunc" | "round" | "rint" | "roundeven" | "nearbyint") => return Ok(t),
          _ => {}
        }
        let o = match o {
          FOp::Un(f) => FOp::Un(mono_un(f).unwrap()),
          o => o.clone(),
        };
        c.ops.push(o);
        Ok(self.ffn_mk(n.a, c))
      }
      _ => inc("symbolic floating point"),
    }
  }
  /// the argument converts without rounding
  fn ffn_exact(&self, a: T, c: &Chain) -> bool {
    let (lo, hi) = self.ffn_range(a, c);
    lo >= -(1 << 53) && hi <= 1 << 53
  }
  /// an argument that was merely converted (for a conversion back)
  pub fn ffn_ident(&self, t: T) -> Option<T> {
    let n = self.n(t);
    if n.op != Op::Ffn {
      return None;
    }
    let c = &self.ffn[n.b as usize];
    (c.ops.is_empty() && !c.signed && self.ffn_exact(n.a, c)).then_some(n.a)
  }
  fn ffn_range(&self, a: T, c: &Chain) -> (i128, i128) {
    let i = self.inf(a);
    if c.signed {
      (i.smin, i.smax)
    } else {
      (i.umin as i128, i.umax as i128)
    }
  }
  /// the integer `f(value)` of width `w`, for a function monotone in the value
  pub fn ffn_step(&mut self, t: T, w: u16, f: &dyn Fn(f64) -> u128) -> Result<T, Abort> {
    let n = self.n(t);
    match n.op {
      Op::Const => {
        let x = f64::from_bits(self.cval(t).unwrap() as u64);
        Ok(self.con(f(x) & mask(w), w))
      }
      Op::Ite => {
        let a = self.ffn_step(n.b, w, f)?;
        let b = self.ffn_step(n.c, w, f)?;
        Ok(self.ite(n.a, a, b))
      }
      Op::Ffn => {
        let c = self.ffn[n.b as usize].clone();
        let (lo, hi) = self.ffn_range(n.a, &c);
        let g = |x: i128| f(c.at(x)) & mask(w);
        // steps: (last argument, value)
        let mut st: Vec<(i128, u128)> = vec![];
        let mut x = lo;
        let vh = g(hi);
        loop {
          let v = g(x);
          if v == vh {
            st.push((hi, v));
            break;
          }
          let (mut a, mut b) = (x, hi); // g(a) == v, g(b) != v
          while b - a > 1 {
            let m = a + (b - a) / 2;
            if g(m) == v {
              a = m
            } else {
              b = m
            }
          }
          st.push((a, v));
          if st.len() > 4000 {
            return inc("symbolic floating point (too many steps)");
          }
          x = b;
        }
        Ok(self.ffn_tree(n.a, c.signed, &st, w))
      }
      _ => inc("symbolic floating point conversion"),
    }
  }
  fn ffn_tree(&mut self, a: T, signed: bool, st: &[(i128, u128)], w: u16) -> T {
    if st.len() == 1 {
      return self.con(st[0].1, w);
    }
    let m = st.len() / 2;
    let aw = self.w(a);
    let k = self.con((st[m - 1].0 + 1) as u128 & mask(aw), aw);
    let p = if signed { self.slt(a, k) } else { self.ult(a, k) };
    let x = self.ffn_tree(a, signed, &st[..m], w);
    let y = self.ffn_tree(a, signed, &st[m..], w);
    self.ite(p, x, y)
  }
}
