//! Instruction semantics and the exploration loop.
use crate::ffn::FOp;
use crate::exec::*;
use crate::fx::HashMap;
use crate::ir::*;
use crate::sat::Res;
use crate::solver::*;
use crate::term::{mask, sx, Op, T};
use std::rc::Rc;

/// Result of one call to an intrinsic or external function.
enum Ret {
  V(V),
  Void,
  /// path ends here
  Dead,
  /// retry after forking on this term's value
  Conc(T),
}

impl Engine {
  fn bin_c(&self, op: B, a: u128, b: u128, w: u16) -> u128 {
    let o = match op {
      B::Add => Op::Add,
      B::Sub => Op::Sub,
      B::Mul => Op::Mul,
      B::Udiv => Op::Udiv,
      B::Sdiv => Op::Sdiv,
      B::Urem => Op::Urem,
      B::Srem => Op::Srem,
      B::Shl => Op::Shl,
      B::Lshr => Op::Lshr,
      B::Ashr => Op::Ashr,
      B::And => Op::And,
      B::Or => Op::Or,
      B::Xor => Op::Xor,
      _ => unreachable!(),
    };
    crate::term::bin(o, a, b, w)
  }
  fn bin_t(&mut self, op: B, a: T, b: T) -> T {
    let c = &mut self.cx;
    match op {
      B::Add => c.add(a, b),
      B::Sub => c.sub(a, b),
      B::Mul => c.mul(a, b),
      B::Udiv => c.udiv(a, b),
      B::Sdiv => c.sdiv(a, b),
      B::Urem => c.urem(a, b),
      B::Srem => c.srem(a, b),
      B::Shl => c.shl(a, b),
      B::Lshr => c.lshr(a, b),
      B::Ashr => c.ashr(a, b),
      B::And => c.and(a, b),
      B::Or => c.or(a, b),
      B::Xor => c.xor(a, b),
      _ => unreachable!(),
    }
  }
  fn bin(&mut self, op: B, ty: &Ty, a: &V, b: &V) -> Result<V, Abort> {
    match ty {
      Ty::Vec(_, t) => {
        if let (V::A(x), V::A(y)) = (a, b) {
          let mut r = vec![];
          for (p, q) in x.iter().zip(y.iter()) {
            r.push(self.bin(op, t, p, q)?);
          }
          return Ok(V::A(Rc::new(r)));
        }
        inc("vector op")
      }
      Ty::F32 | Ty::F64 => match (a, b) {
        (V::C(x), V::C(y)) => Ok(V::C(fbin(op, ty, *x, *y))),
        (V::S(x), V::C(y)) if *ty == Ty::F64 => {
          let r = self.cx.ffn_app(*x, &FOp::R(op, f64::from_bits(*y as u64)))?;
          Ok(self.v(r))
        }
        (V::C(x), V::S(y)) if *ty == Ty::F64 => {
          let r = self.cx.ffn_app(*y, &FOp::L(op, f64::from_bits(*x as u64)))?;
          Ok(self.v(r))
        }
        _ => inc("symbolic floating point"),
      },
      _ => {
        let w = ty.bits();
        Ok(match (a, b) {
          (V::C(x), V::C(y)) => {
            if matches!(op, B::Udiv | B::Sdiv | B::Urem | B::Srem) && *y == 0 {
              return inc("division by zero reached (undefined behaviour in the IR)");
            }
            V::C(self.bin_c(op, *x, *y, w))
          }
          _ => {
            let (x, y) = (self.t(a, w), self.t(b, w));
            let r = self.bin_t(op, x, y);
            self.v(r)
          }
        })
      }
    }
  }
  fn icmp(&mut self, p: C, w: u16, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
      let (x, y) = (*x, *y);
      let r = match p {
        C::Eq => x == y,
        C::Ne => x != y,
        C::Ugt => x > y,
        C::Uge => x >= y,
        C::Ult => x < y,
        C::Ule => x <= y,
        C::Sgt => sx(x, w) > sx(y, w),
        C::Sge => sx(x, w) >= sx(y, w),
        C::Slt => sx(x, w) < sx(y, w),
        C::Sle => sx(x, w) <= sx(y, w),
      };
      return V::C(r as u128);
    }
    let (x, y) = (self.t(a, w), self.t(b, w));
    let c = &mut self.cx;
    let r = match p {
      C::Eq => c.eq(x, y),
      C::Ne => {
        let e = c.eq(x, y);
        c.not(e)
      }
      C::Ugt => c.ult(y, x),
      C::Uge => c.ule(y, x),
      C::Ult => c.ult(x, y),
      C::Ule => c.ule(x, y),
      C::Sgt => c.slt(y, x),
      C::Sge => c.sle(y, x),
      C::Slt => c.slt(x, y),
      C::Sle => c.sle(x, y),
    };
    self.v(r)
  }
  fn cast(&mut self, k: Cast, from: &Ty, v: &V, to: &Ty) -> Result<V, Abort> {
    if k == Cast::Bitcast {
      return match (from, to) {
        (Ty::Vec(n, a), Ty::Vec(m, b)) => {
          if n == m {
            return Ok(v.clone());
          }
          // regroup lanes
          let (wa, wb) = (a.bits(), b.bits());
          let xs = match v {
            V::A(x) => x.clone(),
            _ => return inc("bitcast"),
          };
          let mut r = vec![];
          if wb > wa {
            let g = (wb / wa) as usize;
            for ch in xs.chunks(g) {
              let mut acc = self.t(&ch[0], wa);
              for y in &ch[1..] {
                let e = self.t(y, wa);
                acc = self.cx.concat(e, acc);
              }
              r.push(self.v(acc));
            }
          } else {
            for x in xs.iter() {
              let t = self.t(x, wa);
              for i in 0..wa / wb {
                let e = self.cx.extract(t, i * wb, wb);
                r.push(self.v(e));
              }
            }
          }
          Ok(V::A(Rc::new(r)))
        }
        (Ty::Vec(..), _) => self.to_bits(v, from),
        (_, Ty::Vec(..)) => {
          let w = from.bits();
          self.bits_to(v, w, to)
        }
        _ => Ok(v.clone()),
      };
    }
    if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
      if let V::A(x) = v {
        let mut r = vec![];
        for y in x.iter() {
          r.push(self.cast(k, f, y, t)?);
        }
        return Ok(V::A(Rc::new(r)));
      }
    }
    let (fw, tw) = (from.bits(), to.bits());
    match k {
      Cast::Trunc => Ok(match v {
        V::C(c) => V::C(c & mask(tw)),
        _ => {
          let t = self.t(v, fw);
          let e = self.cx.extract(t, 0, tw);
          self.v(e)
        }
      }),
      Cast::Zext => Ok(match v {
        V::C(_) => v.clone(),
        _ => {
          let t = self.t(v, fw);
          let e = self.cx.zext(t, tw);
          self.v(e)
        }
      }),
      Cast::Sext => Ok(match v {
        V::C(c) => V::C(sx(*c, fw) as u128 & mask(tw)),
        _ => {
          let t = self.t(v, fw);
          let e = self.cx.sext(t, tw);
          self.v(e)
        }
      }),
      Cast::PtrToInt | Cast::IntToPtr => Ok(match v {
        V::C(c) => V::C(c & mask(tw)),
        _ => {
          let t = self.t(v, fw);
          let e = if tw < fw { self.cx.extract(t, 0, tw) } else { self.cx.zext(t, tw) };
          self.v(e)
        }
      }),
      Cast::Bitcast => unreachable!(),
      _ => {
        let c = match v {
          V::C(c) => *c,
          V::S(t) => {
            let r = match k {
              Cast::Sitofp | Cast::Uitofp if *to == Ty::F64 => self.cx.ffn_new(*t, k == Cast::Sitofp),
              Cast::Fptosi | Cast::Fptoui if *from == Ty::F64 && self.cx.ffn_ident(*t).map_or(false, |a| self.cx.inf(a).umax >> (tw - 1) == 0) => {
                let a = self.cx.ffn_ident(*t).unwrap();
                if self.cx.w(a) >= tw { self.cx.extract(a, 0, tw) } else { self.cx.zext(a, tw) }
              }
              Cast::Fptosi if *from == Ty::F64 => self.cx.ffn_step(*t, tw, &|x| (x as i128) as u128)?,
              Cast::Fptoui if *from == Ty::F64 => self.cx.ffn_step(*t, tw, &|x| x as u128)?,
              _ => return inc("symbolic floating point conversion"),
            };
            return Ok(self.v(r));
          }
          _ => return inc("symbolic floating point conversion"),
        };
        let put = |x: f64, y: f32| -> u128 {
          match to {
            Ty::F32 => y.to_bits() as u128,
            _ => x.to_bits() as u128,
          }
        };
        let get = || -> f64 {
          match from {
            Ty::F32 => f32::from_bits(c as u32) as f64,
            _ => f64::from_bits(c as u64),
          }
        };
        Ok(V::C(match k {
          Cast::Sitofp => {
            let x = sx(c, fw);
            put(x as f64, x as f32)
          }
          Cast::Uitofp => put(c as f64, c as f32),
          Cast::Fptosi => (get() as i128) as u128 & mask(tw),
          Cast::Fptoui => (get() as u128) & mask(tw),
          Cast::Fpext => get().to_bits() as u128,
          Cast::Fptrunc => (get() as f32).to_bits() as u128,
          _ => unreachable!(),
        }))
      }
    }
  }
  fn select(&mut self, ty: &Ty, c: &V, a: &V, b: &V) -> Result<V, Abort> {
    match c {
      V::C(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
      V::A(cs) => {
        if let (V::A(x), V::A(y), Ty::Vec(_, t)) = (a, b, ty) {
          let mut r = vec![];
          for i in 0..cs.len() {
            r.push(self.select(t, &cs[i], &x[i], &y[i])?);
          }
          return Ok(V::A(Rc::new(r)));
        }
        inc("vector select")
      }
      V::S(t) => Ok(self.merge_v(*t, a, b, ty)),
      V::U => Ok(b.clone()),
    }
  }
  fn widen(&mut self, a: &V, w: u16, to: u16, signed: bool) -> T {
    let t = self.t(a, w);
    if signed {
      self.cx.sext(t, to)
    } else {
      self.cx.zext(t, to)
    }
  }
  fn with_overflow(&mut self, op: B, signed: bool, w: u16, a: &V, b: &V) -> Result<V, Abort> {
    let (r, o) = if let (V::C(x), V::C(y)) = (a, b) {
      let (x, y) = (*x, *y);
      let r = self.bin_c(op, x, y, w);
      let o = if signed {
        let (p, q) = (sx(x, w), sx(y, w));
        let e = match op {
          B::Add => p.checked_add(q),
          B::Sub => p.checked_sub(q),
          _ => p.checked_mul(q),
        };
        e != Some(sx(r, w))
      } else {
        match op {
          B::Add => x.checked_add(y).map_or(true, |v| v > mask(w)),
          B::Sub => x < y,
          _ => x.checked_mul(y).map_or(true, |v| v > mask(w)),
        }
      };
      (V::C(r), V::C(o as u128))
    } else {
      let (x, y) = (self.t(a, w), self.t(b, w));
      let r = self.bin_t(op, x, y);
      let o = match (op, signed) {
        (B::Sub, false) => self.cx.ult(x, y),
        (B::Add, false) => {
          let (i, j) = (self.cx.inf(x), self.cx.inf(y));
          if i.umax.checked_add(j.umax).map_or(false, |v| v <= mask(w)) {
            self.cx.fls()
          } else {
            self.cx.ult(r, x)
          }
        }
        (B::Mul, _) => {
          let (i, j) = (self.cx.inf(x), self.cx.inf(y));
          let safe = if signed {
            let f = [i.smin.checked_mul(j.smin), i.smin.checked_mul(j.smax), i.smax.checked_mul(j.smin), i.smax.checked_mul(j.smax)];
            let lo = sx(1 << (w - 1), w);
            f.iter().all(|v| v.map_or(false, |v| v >= lo && v <= -(lo + 1)))
          } else {
            i.umax.checked_mul(j.umax).map_or(false, |v| v <= mask(w))
          };
          if safe {
            self.cx.fls()
          } else if w <= 64 {
            let (p, q) = (self.widen(a, w, 2 * w, signed), self.widen(b, w, 2 * w, signed));
            let full = self.cx.mul(p, q);
            let e = if signed { self.cx.sext(r, 2 * w) } else { self.cx.zext(r, 2 * w) };
            let eq = self.cx.eq(full, e);
            self.cx.not(eq)
          } else {
            return inc("wide multiply overflow");
          }
        }
        (_, true) => {
          let (i, j) = (self.cx.inf(x), self.cx.inf(y));
          let (l, h) = if op == B::Add {
            (i.smin.checked_add(j.smin), i.smax.checked_add(j.smax))
          } else {
            (i.smin.checked_sub(j.smax), i.smax.checked_sub(j.smin))
          };
          let lo = sx(1u128 << (w - 1), w);
          if l.map_or(false, |v| v >= lo) && h.map_or(false, |v| v <= -(lo + 1)) {
            self.cx.fls()
          } else if w < 128 {
            let (p, q) = (self.widen(a, w, w + 1, true), self.widen(b, w, w + 1, true));
            let full = if op == B::Add { self.cx.add(p, q) } else { self.cx.sub(p, q) };
            let hi = self.cx.extract(full, w, 1);
            let lo = self.cx.extract(full, w - 1, 1);
            self.cx.xor(hi, lo)
          } else {
            return inc("i128 overflow check");
          }
        }
        _ => return inc("overflow op"),
      };
      (self.v(r), self.v(o))
    };
    Ok(V::A(Rc::new(vec![r, o])))
  }
  fn lanes1(&mut self, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Engine, u16, &V) -> Result<V, Abort>) -> Result<V, Abort> {
    if let (Ty::Vec(_, t), V::A(x)) = (ty, a) {
      let mut r = vec![];
      for y in x.iter() {
        r.push(f(self, t.bits(), y)?);
      }
      return Ok(V::A(Rc::new(r)));
    }
    f(self, ty.bits(), a)
  }
  fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Engine, u16, &V, &V) -> Result<V, Abort>) -> Result<V, Abort> {
    if let (Ty::Vec(_, t), V::A(x), V::A(y)) = (ty, a, b) {
      let mut r = vec![];
      for (p, q) in x.iter().zip(y.iter()) {
        r.push(f(self, t.bits(), p, q)?);
      }
      return Ok(V::A(Rc::new(r)));
    }
    f(self, ty.bits(), a, b)
  }
  fn minmax(&mut self, w: u16, a: &V, b: &V, signed: bool, max: bool) -> V {
    let lt = self.icmp(if signed { C::Slt } else { C::Ult }, w, a, b);
    let (x, y) = if max { (b, a) } else { (a, b) };
    match lt {
      V::C(k) => {
        if k != 0 {
          x.clone()
        } else {
          y.clone()
        }
      }
      V::S(t) => {
        let (p, q) = (self.t(x, w), self.t(y, w));
        // interval-aware: min/max facts are not visible through ite, so build
        // them with the tightest shape available
        let r = self.cx.ite(t, p, q);
        self.v(r)
      }
      _ => unreachable!(),
    }
  }
  fn clz(&mut self, w: u16, v: &V, trailing: bool) -> V {
    match v {
      V::C(c) => V::C(if *c == 0 {
        w as u128
      } else if trailing {
        c.trailing_zeros() as u128
      } else {
        (c.leading_zeros() - (128 - w as u32)) as u128
      }),
      V::S(t) => {
        let mut r = self.cx.con(w as u128, w);
        // innermost decision is the least significant in priority
        for k in (0..w).rev() {
          let bit = if trailing { k } else { w - 1 - k };
          let b = self.cx.extract(*t, bit, 1);
          let kk = self.cx.con(k as u128, w);
          r = self.cx.ite(b, kk, r);
        }
        self.v(r)
      }
      _ => unreachable!(),
    }
  }
  fn popcount(&mut self, w: u16, v: &V) -> V {
    match v {
      V::C(c) => V::C(c.count_ones() as u128),
      V::S(t) => {
        let mut r = self.cx.con(0, w);
        for k in 0..w {
          let b = self.cx.extract(*t, k, 1);
          let z = if w > 1 { self.cx.zext(b, w) } else { b };
          r = self.cx.add(r, z);
        }
        self.v(r)
      }
      _ => unreachable!(),
    }
  }
  fn new_input(&mut self, s: &mut State, w: u16, lo: u128, hi: u128, nbytes: u8) -> Result<V, Abort> {
    let seq = s.inputs.len() as u32;
    let t = if let Some(cv) = &self.opt.concrete {
      let b = match cv.get(seq as usize) {
        Some(b) => b.clone(),
        None => vec![0; nbytes as usize],
      };
      let mut c = 0u128;
      for (i, x) in b.iter().enumerate() {
        c |= (*x as u128) << (8 * i);
      }
      self.cx.con(c, w)
    } else {
      self.cx.var(seq, w, lo, hi)
    };
    s.inputs.push((t, nbytes));
    Ok(self.v(t))
  }
  fn cstr(&mut self, s: &State, a: u64) -> String {
    let (id, off) = self.locate(s, a);
    let mut r = vec![];
    if let Ok(Some(o)) = self.obj(s, id) {
      let mut i = off as usize;
      while i < o.data.len() && o.data[i] != 0 && r.len() < 200 {
        r.push(o.data[i]);
        i += 1;
      }
    }
    String::from_utf8_lossy(&r).to_string()
  }
  fn call_ext(&mut self, s: &mut State, name: &str, ret: &Ty, args: &[(Ty, V)]) -> Result<Ret, Abort> {
    macro_rules! conc {
      ($i:expr) => {
        match &args[$i].1 {
          V::C(c) => *c as u64,
          V::S(t) => return Ok(Ret::Conc(*t)),
          _ => return inc("aggregate argument"),
        }
      };
    }
    if let Some(n) = name.strip_prefix("rvsym_") {
      return match n {
        "u8" => Ok(Ret::V(self.new_input(s, 8, 0, mask(8), 1)?)),
        "u16" => Ok(Ret::V(self.new_input(s, 16, 0, mask(16), 2)?)),
        "u32" => Ok(Ret::V(self.new_input(s, 32, 0, mask(32), 4)?)),
        "u64" => Ok(Ret::V(self.new_input(s, 64, 0, mask(64), 8)?)),
        "range" => {
          let lo = conc!(0);
          let hi = conc!(1);
          if lo > hi {
            return Ok(Ret::Dead);
          }
          Ok(Ret::V(self.new_input(s, 64, lo as u128, hi as u128, 8)?))
        }
        "assume" => {
          let t = self.t(&args[0].1, args[0].0.bits());
          let t = if self.cx.w(t) > 1 {
            let z = self.cx.con(0, self.cx.w(t));
            let e = self.cx.eq(t, z);
            self.cx.not(e)
          } else {
            t
          };
          if let Some(k) = self.know(s, t, 6) {
            return Ok(if k != 0 { Ret::Void } else { Ret::Dead });
          }
          let (r, m) = self.feasible(s, t);
          match r {
            Res::Unsat => Ok(Ret::Dead),
            Res::Sat => {
              s.model = m.unwrap();
              s.model_ok = true;
              self.assume(s, t);
              Ok(Ret::Void)
            }
            Res::Unknown => {
              s.model_ok = false;
              self.assume(s, t);
              Ok(Ret::Void)
            }
          }
        }
        "assert" => {
          let t = self.t(&args[0].1, args[0].0.bits());
          let w = self.cx.w(t);
          let z = self.cx.con(0, w);
          let bad = self.cx.eq(t, z);
          if self.oblige(s, bad, &|| "assertion failed".to_string())? {
            Ok(Ret::Void)
          } else {
            Ok(Ret::Dead)
          }
        }
        "fail" => {
          let t = self.cx.tru();
          self.oblige(s, t, &|| "explicit failure".to_string())?;
          Ok(Ret::Dead)
        }
        "witness" => {
          self.st.witness_seen = true;
          if !self.st.witness {
            let t = self.t(&args[0].1, args[0].0.bits());
            let w = self.cx.w(t);
            let z = self.cx.con(0, w);
            let e = self.cx.eq(t, z);
            let c = self.cx.not(e);
            if self.cx.cval(c) != Some(0) {
              let (r, _) = self.feasible(s, c);
              if r == Res::Sat {
                self.st.witness = true;
              }
            }
          }
          Ok(Ret::Void)
        }
        "merge" => {
          s.merge = conc!(0) as u32;
          Ok(Ret::Void)
        }
        "concretize" => {
          let c = conc!(0);
          Ok(Ret::V(V::C(c as u128)))
        }
        "observe" => {
          if self.opt.concrete.is_some() {
            if let V::C(c) = args[0].1 {
              self.observed.push(c & mask(64));
            }
          }
          Ok(Ret::Void)
        }
        "dump" => {
          let v = &args[1].1;
          let l = args[0].1.clone();
          if let V::S(t) = v {
            let i = self.cx.inf(*t);
            eprintln!("dump {:?}: term {} [{} {}] [{} {}]", l, t, i.umin, i.umax, i.smin, i.smax);
          } else {
            eprintln!("dump {:?}: {:?}", l, v);
          }
          Ok(Ret::Void)
        }
        _ => inc(format!("unknown harness call {name}")),
      };
    }
    if let Some(n) = name.strip_prefix("llvm.") {
      return self.intrinsic(s, n, ret, args);
    }
    let f64c = |i: usize| -> Result<f64, Abort> {
      match args[i].1 {
        V::C(c) => Ok(f64::from_bits(c as u64)),
        _ => inc("symbolic floating point"),
      }
    };
    match name {
      "malloc" | "__rust_alloc" | "valloc" => {
        let n = conc!(0);
        Ok(Ret::V(V::C(self.alloc(s, n, 0xa5)? as u128)))
      }
      "calloc" => {
        let n = conc!(0);
        let k = conc!(1);
        Ok(Ret::V(V::C(self.alloc(s, n * k, 0)? as u128)))
      }
      "__rust_alloc_zeroed" => {
        let n = conc!(0);
        Ok(Ret::V(V::C(self.alloc(s, n, 0)? as u128)))
      }
      "aligned_alloc" => {
        let n = conc!(1);
        Ok(Ret::V(V::C(self.alloc(s, n, 0xa5)? as u128)))
      }
      "posix_memalign" => {
        let p = args[0].1.clone();
        let n = conc!(2);
        let a = self.alloc(s, n, 0xa5)?;
        if !self.store(s, &p, &Ty::Ptr, &V::C(a as u128))? {
          return Ok(Ret::Dead);
        }
        Ok(Ret::V(V::C(0)))
      }
      "realloc" | "__rust_realloc" => {
        let p = conc!(0);
        let n = conc!(if name == "realloc" { 1 } else { 3 });
        let a = self.alloc(s, n, 0xa5)?;
        if p != 0 {
          let (id, _) = self.locate(s, p);
          let old = match self.obj(s, id)? {
            Some(o) => o.size,
            None => return inc("realloc of a dead object"),
          };
          if !self.copy(s, a, p, old.min(n), "realloc")? {
            return Ok(Ret::Dead);
          }
          s.mem.free(id);
        }
        Ok(Ret::V(V::C(a as u128)))
      }
      "free" | "__rust_dealloc" => {
        let p = conc!(0);
        if p != 0 {
          let (id, off) = self.locate(s, p);
          if off != 0 || !s.mem.free(id) {
            let t = self.cx.tru();
            self.oblige(s, t, &|| format!("invalid free of object {id}+{off}"))?;
            return Ok(Ret::Dead);
          }
        }
        Ok(Ret::Void)
      }
      "memcpy" | "memmove" => {
        let d = conc!(0);
        let sp = conc!(1);
        let n = conc!(2);
        if !self.copy(s, d, sp, n, name)? {
          return Ok(Ret::Dead);
        }
        Ok(Ret::V(V::C(d as u128)))
      }
      "memcmp" | "bcmp" => {
        let n = conc!(2);
        let mut eq = self.cx.tru();
        let mut lt = self.cx.fls();
        for i in 0..n {
          let mut t = [0; 2];
          for k in 0..2 {
            let p = match &args[k].1 {
              V::C(c) => V::C(c + i as u128),
              V::S(t) => {
                let kk = self.cx.con(i as u128, 64);
                let a = self.cx.add(*t, kk);
                self.v(a)
              }
              _ => return inc("memcmp"),
            };
            match self.load(s, &p, &Ty::Int(8))? {
              None => return Ok(Ret::Dead),
              Some(v) => t[k] = self.t(&v, 8),
            }
          }
          let l = self.cx.ult(t[0], t[1]);
          let l = self.cx.and(eq, l);
          lt = self.cx.or(lt, l);
          let e = self.cx.eq(t[0], t[1]);
          eq = self.cx.and(eq, e);
        }
        let (z, one, m1) = (self.cx.con(0, 32), self.cx.con(1, 32), self.cx.con(mask(32), 32));
        let r = self.cx.ite(lt, m1, one);
        let r = self.cx.ite(eq, z, r);
        Ok(Ret::V(self.v(r)))
      }
      "strlen" => {
        let p = conc!(0);
        let st = self.cstr(s, p);
        Ok(Ret::V(V::C(st.len() as u128)))
      }
      "exp" if matches!(args[0].1, V::S(_)) => match args[0].1 {
        V::S(t) => {
          let r = self.cx.ffn_app(t, &FOp::Un("exp"))?;
          Ok(Ret::V(self.v(r)))
        }
        _ => unreachable!(),
      },
      "exp" => Ok(Ret::V(V::C(f64c(0)?.exp().to_bits() as u128))),
      "exp2" if matches!(args[0].1, V::S(_)) => match args[0].1 {
        V::S(t) => {
          let r = self.cx.ffn_app(t, &FOp::Un("exp2"))?;
          Ok(Ret::V(self.v(r)))
        }
        _ => unreachable!(),
      },
      "exp2" => Ok(Ret::V(V::C(f64c(0)?.exp2().to_bits() as u128))),
      "log" if matches!(args[0].1, V::S(_)) => match args[0].1 {
        V::S(t) => {
          let r = self.cx.ffn_app(t, &FOp::Un("log"))?;
          Ok(Ret::V(self.v(r)))
        }
        _ => unreachable!(),
      },
      "log" => Ok(Ret::V(V::C(f64c(0)?.ln().to_bits() as u128))),
      "log2" if matches!(args[0].1, V::S(_)) => match args[0].1 {
        V::S(t) => {
          let r = self.cx.ffn_app(t, &FOp::Un("log2"))?;
          Ok(Ret::V(self.v(r)))
        }
        _ => unreachable!(),
      },
      "log2" => Ok(Ret::V(V::C(f64c(0)?.log2().to_bits() as u128))),
      "log10" if matches!(args[0].1, V::S(_)) => match args[0].1 {
        V::S(t) => {
          let r = self.cx.ffn_app(t, &FOp::Un("log10"))?;
          Ok(Ret::V(self.v(r)))
        }
        _ => unreachable!(),
      },
      "log10" => Ok(Ret::V(V::C(f64c(0)?.log10().to_bits() as u128))),
      "pow" => Ok(Ret::V(V::C(f64c(0)?.powf(f64c(1)?).to_bits() as u128))),
      "cbrt" => Ok(Ret::V(V::C(f64c(0)?.cbrt().to_bits() as u128))),
      "__cxa_thread_atexit_impl" => Ok(Ret::V(V::C(0))),
      // empty environment, one CPU
      "getenv" => Ok(Ret::V(V::C(0))),
      "sysconf" => Ok(Ret::V(V::C(1))),
      "sched_getaffinity" => Ok(Ret::V(V::C(0xffff_ffff))),
      _ if is_panic_fn(name) => {
        let t = self.cx.tru();
        self.oblige(s, t, &|| format!("panic: {name}"))?;
        Ok(Ret::Dead)
      }
      _ => inc(format!("external function {name}")),
    }
  }
  fn intrinsic(&mut self, s: &mut State, n: &str, ret: &Ty, args: &[(Ty, V)]) -> Result<Ret, Abort> {
    macro_rules! conc {
      ($i:expr) => {
        match &args[$i].1 {
          V::C(c) => *c as u64,
          V::S(t) => return Ok(Ret::Conc(*t)),
          _ => return inc("aggregate argument"),
        }
      };
    }
    let base = n.split('.').next().unwrap();
    let ok = |v: V| Ok(Ret::V(v));
    match base {
      "lifetime" | "assume" | "dbg" | "experimental" | "donothing" | "prefetch" | "stackrestore" | "invariant" | "sideeffect" | "pseudoprobe" => {
        if ret == &Ty::Void {
          Ok(Ret::Void)
        } else {
          ok(V::C(0))
        }
      }
      "stacksave" => ok(V::C(0)),
      "expect" => ok(args[0].1.clone()),
      "threadlocal" => ok(args[0].1.clone()),
      "launder" | "strip" => ok(args[0].1.clone()),
      "ptrmask" => {
        let (a, b) = (args[0].1.clone(), args[1].1.clone());
        Ok(Ret::V(self.bin(B::And, &Ty::Int(64), &a, &b)?))
      }
      "is" => ok(V::C(0)),
      "objectsize" => ok(V::C(if args[1].1.is_true() { 0 } else { mask(64) })),
      "trap" | "debugtrap" | "ubsantrap" => {
        let t = self.cx.tru();
        self.oblige(s, t, &|| "trap".to_string())?;
        Ok(Ret::Dead)
      }
      "memcpy" | "memmove" => {
        let l = conc!(2);
        if l == 0 {
          return Ok(Ret::Void);
        }
        // small copies through symbolic pointers go value by value
        if let (true, l) = (matches!(args[0].1, V::S(_)) || matches!(args[1].1, V::S(_)), l) {
          if l <= 64 {
            let mut vals = vec![];
            let mut o = 0;
            while o < l {
              let ch = [8u64, 4, 2, 1].into_iter().find(|c| o + c <= l).unwrap();
              let p = self.padd(&args[1].1, o);
              match self.load(s, &p, &Ty::Int(8 * ch as u16))? {
                None => return Ok(Ret::Dead),
                Some(v) => vals.push((o, ch, v)),
              }
              o += ch;
            }
            for (o, ch, v) in vals {
              let p = self.padd(&args[0].1, o);
              if !self.store(s, &p, &Ty::Int(8 * ch as u16), &v)? {
                return Ok(Ret::Dead);
              }
            }
            return Ok(Ret::Void);
          }
        }
        let d = conc!(0);
        let sp = conc!(1);
        if !self.copy(s, d, sp, l, base)? {
          return Ok(Ret::Dead);
        }
        Ok(Ret::Void)
      }
      "memset" => {
        let l = conc!(2);
        if l == 0 {
          return Ok(Ret::Void);
        }
        let d = conc!(0);
        let (id, off) = self.locate(s, d);
        let v = args[1].1.clone();
        let good = match self.obj_mut(s, id)? {
          Some(o) if off >= 0 && off as u64 + l <= o.size && !o.ro => {
            let (a, b) = (off as usize, off as usize + l as usize);
            match v {
              V::C(c) => {
                o.data[a..b].fill(c as u8);
                if let Some(q) = &mut o.sym {
                  q[a..b].fill((0, 0));
                }
              }
              V::S(t) => {
                let sz = o.size as usize;
                o.sym.get_or_insert_with(|| vec![(0, 0); sz])[a..b].fill((t, 0));
              }
              _ => {}
            }
            true
          }
          _ => false,
        };
        if !good {
          let t = self.cx.tru();
          self.oblige(s, t, &|| format!("memset: invalid destination {id}+{off} len {l}"))?;
          return Ok(Ret::Dead);
        }
        Ok(Ret::Void)
      }
      "load" if args.len() == 2 && matches!(args[0].0, Ty::Ptr) => {
        // llvm.load.relative over a table `plain_tables` rewrote
        let (p, o) = (args[0].1.clone(), args[1].1.clone());
        let i64t = Ty::Int(64);
        let o2 = self.bin(B::Add, &i64t, &o, &o)?;
        let q = self.bin(B::Add, &i64t, &p, &o2)?;
        match self.load(s, &q, &Ty::Ptr)? {
          Some(v) => ok(v),
          None => Ok(Ret::Dead),
        }
      }
      "umin" | "umax" | "smin" | "smax" => {
        let (sg, mx) = (base.starts_with('s'), base.ends_with("max"));
        let v = self.lanes2(&args[0].0, &args[0].1, &args[1].1, &mut |e, w, a, b| Ok(e.minmax(w, a, b, sg, mx)))?;
        ok(v)
      }
      "scmp" | "ucmp" => {
        let w = args[0].0.bits();
        let (a, b) = (args[0].1.clone(), args[1].1.clone());
        let sg = base == "scmp";
        let lt = self.icmp(if sg { C::Slt } else { C::Ult }, w, &a, &b);
        let gt = self.icmp(if sg { C::Sgt } else { C::Ugt }, w, &a, &b);
        let rw = ret.bits();
        let x = self.select(ret, &gt, &V::C(1), &V::C(0))?;
        let r = self.select(ret, &lt, &V::C(mask(rw)), &x)?;
        ok(r)
      }
      "abs" => {
        let v = self.lanes1(&args[0].0, &args[0].1, &mut |e, w, a| {
          Ok(match a {
            V::C(c) => V::C(sx(*c, w).wrapping_abs() as u128 & mask(w)),
            V::S(t) => {
              let i = e.cx.inf(*t);
              if i.smin >= 0 {
                return Ok(V::S(*t));
              }
              let ng = e.cx.neg(*t);
              let sg = e.cx.extract(*t, w - 1, 1);
              let r = e.cx.ite(sg, ng, *t);
              e.v(r)
            }
            _ => return inc("abs"),
          })
        })?;
        ok(v)
      }
      "ctlz" | "cttz" => {
        let tr = base == "cttz";
        let v = self.lanes1(&args[0].0, &args[0].1, &mut |e, w, a| Ok(e.clz(w, a, tr)))?;
        ok(v)
      }
      "ctpop" => {
        let v = self.lanes1(&args[0].0, &args[0].1, &mut |e, w, a| Ok(e.popcount(w, a)))?;
        ok(v)
      }
      "bswap" | "bitreverse" => {
        let g: u16 = if base == "bswap" { 8 } else { 1 };
        let v = self.lanes1(&args[0].0, &args[0].1, &mut |e, w, a| {
          let t = e.t(a, w);
          let mut acc = e.cx.extract(t, 0, g);
          for i in 1..w / g {
            let x = e.cx.extract(t, i * g, g);
            acc = e.cx.concat(acc, x);
          }
          Ok(e.v(acc))
        })?;
        ok(v)
      }
      "fshl" | "fshr" => {
        let w = args[0].0.bits();
        let sh = match &args[2].1 {
          V::C(c) => *c % w as u128,
          V::S(t) => {
            if 2 * w > 128 {
              return Ok(Ret::Conc(*t));
            }
            let (a, b) = (self.t(&args[0].1, w), self.t(&args[1].1, w));
            let cat = self.cx.concat(a, b);
            let k = self.cx.con(w as u128, w);
            let m = self.cx.urem(*t, k);
            let m = self.cx.zext(m, 2 * w);
            let r = if base == "fshl" {
              let x = self.cx.shl(cat, m);
              self.cx.extract(x, w, w)
            } else {
              let x = self.cx.lshr(cat, m);
              self.cx.extract(x, 0, w)
            };
            return ok(self.v(r));
          }
          _ => return inc("fsh"),
        } as u16;
        let (a, b) = (self.t(&args[0].1, w), self.t(&args[1].1, w));
        let r = if base == "fshl" {
          if sh == 0 {
            a
          } else {
            let h = self.cx.extract(a, 0, w - sh);
            let l = self.cx.extract(b, w - sh, sh);
            self.cx.concat(h, l)
          }
        } else if sh == 0 {
          b
        } else {
          let h = self.cx.extract(a, 0, sh);
          let l = self.cx.extract(b, sh, w - sh);
          self.cx.concat(h, l)
        };
        ok(self.v(r))
      }
      "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
        let op = match &base[1..] {
          "add" => B::Add,
          "sub" => B::Sub,
          _ => B::Mul,
        };
        let sg = base.starts_with('s');
        if n.contains(".with.overflow") {
          let w = args[0].0.bits();
          let (a, b) = (args[0].1.clone(), args[1].1.clone());
          return ok(self.with_overflow(op, sg, w, &a, &b)?);
        }
        if n.contains(".sat") {
          let v = self.lanes2(&args[0].0, &args[0].1, &args[1].1, &mut |e, w, a, b| {
            if crate::canon::deep() && !sg && op == B::Sub && w <= 64 && matches!((a, b), (V::S(_), _) | (_, V::S(_))) {
              let (x, y) = (e.t(a, w), e.t(b, w));
              if e.cx.inf(x).smin >= 0 && e.cx.inf(y).smin >= 0 {
                let d = e.cx.sub(x, y);
                let z = e.cx.con(0, w);
                let r = e.cx.smax(d, z);
                return Ok(e.v(r));
              }
            }
            let r = e.with_overflow(op, sg, w, a, b)?;
            let (r, o) = match r {
              V::A(x) => (x[0].clone(), x[1].clone()),
              _ => unreachable!(),
            };
            let sat = if !sg {
              V::C(if op == B::Sub { 0 } else { mask(w) })
            } else {
              let neg = e.icmp(C::Slt, w, a, &V::C(0));
              e.select(&Ty::Int(w), &neg, &V::C(1 << (w - 1)), &V::C(mask(w - 1)))?
            };
            e.select(&Ty::Int(w), &o, &sat, &r)
          })?;
          return ok(v);
        }
        inc(format!("intrinsic {n}"))
      }
      "vector" => {
        let op = n.split('.').nth(2).unwrap_or("");
        if !n.starts_with("vector.reduce.") {
          return inc(format!("intrinsic {n}"));
        }
        let (t, xs) = match (&args[0].0, &args[0].1) {
          (Ty::Vec(_, t), V::A(x)) => ((**t).clone(), x.clone()),
          _ => return inc("reduce"),
        };
        let mut acc = xs[0].clone();
        let w = t.bits();
        for x in &xs[1..] {
          acc = match op {
            "add" => self.bin(B::Add, &t, &acc, x)?,
            "mul" => self.bin(B::Mul, &t, &acc, x)?,
            "or" => self.bin(B::Or, &t, &acc, x)?,
            "and" => self.bin(B::And, &t, &acc, x)?,
            "xor" => self.bin(B::Xor, &t, &acc, x)?,
            "umin" => self.minmax(w, &acc, x, false, false),
            "umax" => self.minmax(w, &acc, x, false, true),
            "smin" => self.minmax(w, &acc, x, true, false),
            "smax" => self.minmax(w, &acc, x, true, true),
            _ => return inc(format!("intrinsic {n}")),
          };
        }
        ok(acc)
      }
      // floating point on concrete values
      "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "rint" | "roundeven" | "nearbyint" | "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" => {
        let is32 = args[0].0 == Ty::F32;
        let c = match args[0].1 {
          V::C(c) => c,
          V::S(t) if args[0].0 == Ty::F64 => {
            let r = self.cx.ffn_app(t, &FOp::Un(ffn_un(base)))?;
            return ok(self.v(r));
          }
          _ => return inc("symbolic floating point"),
        };
        let r = if is32 {
          let x = f32::from_bits(c as u32);
          (match base {
            "fabs" => x.abs(),
            "sqrt" => x.sqrt(),
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "trunc" => x.trunc(),
            "round" => x.round(),
            "rint" | "roundeven" | "nearbyint" => x.round_ties_even(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "log" => x.ln(),
            "log2" => x.log2(),
            "log10" => x.log10(),
            "sin" => x.sin(),
            _ => x.cos(),
          })
          .to_bits() as u128
        } else {
          let x = f64::from_bits(c as u64);
          (match base {
            "fabs" => x.abs(),
            "sqrt" => x.sqrt(),
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "trunc" => x.trunc(),
            "round" => x.round(),
            "rint" | "roundeven" | "nearbyint" => x.round_ties_even(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "log" => x.ln(),
            "log2" => x.log2(),
            "log10" => x.log10(),
            "sin" => x.sin(),
            _ => x.cos(),
          })
          .to_bits() as u128
        };
        ok(V::C(r))
      }
      "pow" | "powi" | "fma" | "fmuladd" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "copysign" => {
        let is32 = args[0].0 == Ty::F32;
        let g = |i: usize| -> Result<f64, Abort> {
          match args[i].1 {
            V::C(c) => Ok(if args[i].0 == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) }),
            _ => inc("symbolic floating point"),
          }
        };
        let x = g(0)?;
        let r = match base {
          "pow" => x.powf(g(1)?),
          "powi" => match args[1].1 {
            V::C(c) => x.powi(c as i32),
            _ => return inc("symbolic powi"),
          },
          "fma" | "fmuladd" => x.mul_add(g(1)?, g(2)?),
          "minnum" | "minimumnum" => x.min(g(1)?),
          "maxnum" | "maximumnum" => x.max(g(1)?),
          _ => x.copysign(g(1)?),
        };
        ok(V::C(if is32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
      }
      "fptosi" | "fptoui" => {
        // .sat conversions, as `as` casts
        let w = ret.bits();
        let conv = |x: f64| {
          if base == "fptosi" {
            let lo = sx(1 << (w - 1), w);
            (x as i128).clamp(lo, -(lo + 1)) as u128 & mask(w)
          } else {
            (x as u128).min(mask(w))
          }
        };
        let c = match args[0].1 {
          V::C(c) => c,
          V::S(t) if args[0].0 == Ty::F64 => {
            if let Some(a) = self.cx.ffn_ident(t) {
              if self.cx.inf(a).umax >> (w - 1) == 0 {
                let r = if self.cx.w(a) >= w { self.cx.extract(a, 0, w) } else { self.cx.zext(a, w) };
                return ok(self.v(r));
              }
            }
            let r = self.cx.ffn_step(t, w, &conv)?;
            return ok(self.v(r));
          }
          _ => return inc("symbolic floating point"),
        };
        let x = if args[0].0 == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
        ok(V::C(conv(x)))
      }
      _ => inc(format!("intrinsic {n}")),
    }
  }
  fn padd(&mut self, p: &V, o: u64) -> V {
    match p {
      V::C(c) => V::C((*c as u64).wrapping_add(o) as u128),
      V::S(t) => {
        let k = self.cx.con(o as u128, 64);
        let r = self.cx.add(*t, k);
        self.v(r)
      }
      v => v.clone(),
    }
  }
  fn merge_point(&mut self, s: &State) -> Stop {
    if s.merge == 0 {
      return Stop::No;
    }
    let d = s.frames.len();
    let f = s.frames[d - 1].f.clone();
    let p = self.ipdom(&f);
    match p[s.frames[d - 1].blk as usize] {
      None => Stop::No,
      Some(x) if x as usize == f.blocks.len() => {
        if d > 1 {
          Stop::Ret(d)
        } else {
          Stop::No
        }
      }
      Some(x) => Stop::Blk(d, x),
    }
  }
  /// Run one path until it ends, reaches `stop`, or forks.
  fn path(&mut self, s: &mut State, stop: Stop) -> Result<Step, Abort> {
    if self.at_stop(s, stop) {
      return Ok(Step::AtStop);
    }
    'outer: loop {
      let f = s.frames.last().unwrap().f.clone();
      let (blk, ip0) = {
        let fr = s.frames.last().unwrap();
        (fr.blk, fr.ip)
      };
      let b = &f.blocks[blk as usize];
      let mut ip = ip0;
      macro_rules! retry {
        ($t:expr) => {{
          let t = $t;
          Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip;
          return self.concretize(s, t);
        }};
      }
      loop {
        self.st.steps += 1;
        if self.st.steps & 0xfff == 0 {
          if self.timed_out() {
            return inc("time limit");
          }
          if self.st.steps > self.opt.steps {
            return inc("step limit");
          }
        }
        let ins = &b.ins[ip];
        match ins {
          I::Nop => {}
          I::Bin(d, op, ty, x, y) => {
            let (a, c) = (self.val(s, x)?, self.val(s, y)?);
            let r = self.bin(*op, ty, &a, &c)?;
            self.set(s, *d, r);
          }
          I::Fneg(d, ty, x) => {
            let v = match (self.val(s, x)?, ty) {
              (V::C(c), Ty::F32) => V::C(c ^ (1 << 31)),
              (V::C(c), Ty::F64) => V::C(c ^ (1 << 63)),
              _ => return inc("fneg"),
            };
            self.set(s, *d, v);
          }
          I::Icmp(d, p, ty, x, y) => {
            let (a, c) = (self.val(s, x)?, self.val(s, y)?);
            let r = if let Ty::Vec(..) = ty {
              self.lanes2(ty, &a, &c, &mut |e, w, a, b| Ok(e.icmp(*p, w, a, b)))?
            } else {
              self.icmp(*p, ty.bits(), &a, &c)
            };
            self.set(s, *d, r);
          }
          I::Fcmp(d, p, ty, x, y) => {
            let (a, c) = (self.val(s, x)?, self.val(s, y)?);
            match (a, c) {
              (V::C(a), V::C(c)) => {
                let g = |c: u128| if *ty == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let r = fcmp(p, g(a), g(c));
                self.set(s, *d, V::C(r as u128));
              }
              (V::S(a), V::C(c)) if *ty == Ty::F64 && mono_cmp(p) => {
                let k = f64::from_bits(c as u64);
                let r = self.cx.ffn_step(a, 1, &|x| fcmp(p, x, k) as u128)?;
                let v = self.v(r);
                self.set(s, *d, v);
              }
              (V::C(c), V::S(a)) if *ty == Ty::F64 && mono_cmp(p) => {
                let k = f64::from_bits(c as u64);
                let r = self.cx.ffn_step(a, 1, &|x| fcmp(p, k, x) as u128)?;
                let v = self.v(r);
                self.set(s, *d, v);
              }
              _ => return inc("symbolic floating point comparison"),
            }
          }
          I::Cast(d, k, t1, x, t2) => {
            let v = self.val(s, x)?;
            let r = self.cast(*k, t1, &v, t2)?;
            self.set(s, *d, r);
          }
          I::Select(d, _, c, ty, x, y) => {
            let cv = self.val(s, c)?;
            let (a, q) = (self.val(s, x)?, self.val(s, y)?);
            let r = self.select(ty, &cv, &a, &q)?;
            self.set(s, *d, r);
          }
          I::Load(d, ty, p) => {
            let pv = self.val(s, p)?;
            match self.load(s, &pv, ty) {
              Ok(None) => return Ok(Step::End),
              Ok(Some(v)) => self.set(s, *d, v),
              Err(Abort::Conc(t)) => retry!(t),
              Err(e) => return Err(e),
            }
          }
          I::Store(ty, v, p) => {
            let pv = self.val(s, p)?;
            let vv = self.val(s, v)?;
            match self.store(s, &pv, ty, &vv) {
              Ok(true) => {}
              Ok(false) => return Ok(Step::End),
              Err(Abort::Conc(t)) => retry!(t),
              Err(e) => return Err(e),
            }
          }
          I::Gep(d, base, off, dynv) => {
            let mut acc = self.val(s, base)?;
            acc = self.padd(&acc, *off as u64);
            for (o, t, st) in dynv {
              let v = self.val(s, o)?;
              let w = t.bits();
              let idx = match v {
                V::C(c) => V::C((sx(c, w) as i64).wrapping_mul(*st) as u64 as u128),
                V::S(x) => {
                  let e = if w < 64 { self.cx.sext(x, 64) } else { x };
                  let k = self.cx.con(*st as u64 as u128, 64);
                  let m = self.cx.mul(e, k);
                  self.v(m)
                }
                _ => return inc("gep index"),
              };
              acc = self.bin(B::Add, &Ty::Int(64), &acc, &idx)?;
            }
            self.set(s, *d, acc);
          }
          I::Alloca(d, size, n) => {
            let mut sz = *size;
            if let Some((_, o)) = n {
              match self.val(s, o)? {
                V::C(c) => sz *= c as u64,
                V::S(t) => retry!(t),
                _ => return inc("alloca"),
              }
            }
            let a = self.alloc(s, sz, 0xa5)?;
            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
            fr.allocas.push((a >> 32) as u32);
            fr.regs[*d as usize] = V::C(a as u128);
          }
          I::Br(t) => {
            self.goto(s, *t)?;
            if self.at_stop(s, stop) {
              return Ok(Step::AtStop);
            }
            continue 'outer;
          }
          I::CondBr(c, a, z) => {
            let cv = self.val(s, c)?;
            let t = match cv {
              V::C(k) => {
                self.goto(s, if k != 0 { *a } else { *z })?;
                if self.at_stop(s, stop) {
                  return Ok(Step::AtStop);
                }
                continue 'outer;
              }
              V::S(t) => t,
              _ => return inc("branch condition"),
            };
            if let Some(k) = self.know(s, t, 8) {
              self.goto(s, if k != 0 { *a } else { *z })?;
              if self.at_stop(s, stop) {
                return Ok(Step::AtStop);
              }
              continue 'outer;
            }
            let (pa, pz) = (f.blocks[*a as usize].panic, f.blocks[*z as usize].panic);
            if pa != pz {
              let bad = if pa { t } else { self.cx.not(t) };
              let nm = f.name.clone();
              if !self.oblige(s, bad, &|| format!("panic in {nm}"))? {
                return Ok(Step::End);
              }
              self.goto(s, if pa { *z } else { *a })?;
              if self.at_stop(s, stop) {
                return Ok(Step::AtStop);
              }
              continue 'outer;
            }
            let nt = self.cx.not(t);
            let ms = self.merge_point(s);
            let base = s.trace.len();
            Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip;
            let ch = self.fork(s, &[t, nt]);
            let mut out = vec![];
            for (i, mut k) in ch {
              self.goto(&mut k, if i == 0 { *a } else { *z })?;
              out.push(k);
            }
            if out.len() == 1 {
              *s = out.pop().unwrap();
              if self.at_stop(s, stop) {
                return Ok(Step::AtStop);
              }
              continue 'outer;
            }
            return Ok(Step::Fork(out, ms, base));
          }
          I::Switch(ty, v, dflt, cases) => {
            let vv = self.val(s, v)?;
            let t = match vv {
              V::C(k) => {
                let to = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*dflt);
                self.goto(s, to)?;
                if self.at_stop(s, stop) {
                  return Ok(Step::AtStop);
                }
                continue 'outer;
              }
              V::S(t) => t,
              _ => return inc("switch"),
            };
            let w = ty.bits();
            let mut order: Vec<u32> = vec![];
            let mut cond: HashMap<u32, T> = HashMap::default();
            let mut none = self.cx.tru();
            for (k, l) in cases {
              let kk = self.cx.con(*k, w);
              let e = self.cx.eq(t, kk);
              let ne = self.cx.not(e);
              none = self.cx.and(none, ne);
              match cond.get(l).copied() {
                Some(c) => {
                  let c2 = self.cx.or(c, e);
                  cond.insert(*l, c2);
                }
                None => {
                  order.push(*l);
                  cond.insert(*l, e);
                }
              }
            }
            match cond.get(dflt).copied() {
              Some(c) => {
                let c2 = self.cx.or(c, none);
                cond.insert(*dflt, c2);
              }
              None => {
                order.push(*dflt);
                cond.insert(*dflt, none);
              }
            }
            let cs: Vec<T> = order.iter().map(|l| cond[l]).collect();
            let ms = self.merge_point(s);
            let base = s.trace.len();
            Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip;
            let ch = self.fork(s, &cs);
            let mut out = vec![];
            for (i, mut k) in ch {
              self.goto(&mut k, order[i])?;
              out.push(k);
            }
            if out.len() == 1 {
              *s = out.pop().unwrap();
              if self.at_stop(s, stop) {
                return Ok(Step::AtStop);
              }
              continue 'outer;
            }
            return Ok(Step::Fork(out, ms, base));
          }
          I::Ret(o) => {
            let v = match o {
              Some((_, o)) => Some(self.val(s, o)?),
              None => None,
            };
            let fr = s.frames.pop().unwrap();
            for &id in &fr.allocas {
              s.mem.free(id);
            }
            if s.frames.is_empty() {
              self.st.completed += 1;
              return Ok(Step::End);
            }
            // reuse object ids once everything above is gone
            s.mem.shrink();
            if let (Some(d), Some(v)) = (fr.ret_dst, v) {
              self.set(s, d, v);
            }
            if let Some(nb) = fr.ret_normal {
              self.goto(s, nb)?;
            }
            if self.at_stop(s, stop) {
              return Ok(Step::AtStop);
            }
            continue 'outer;
          }
          I::Unreachable => {
            // reached only on undefined behaviour or after a diverging call
            let t = self.cx.tru();
            let nm = f.name.clone();
            self.oblige(s, t, &|| format!("unreachable reached in {nm}"))?;
            return Ok(Step::End);
          }
          I::ExtractValue(d, _, x, ix) => {
            let mut v = self.val(s, x)?;
            for &i in ix {
              v = match &v {
                V::A(a) => a[i as usize].clone(),
                _ => return inc("extractvalue"),
              };
            }
            self.set(s, *d, v);
          }
          I::InsertValue(d, ty, x, _, y, ix) => {
            let v = self.val(s, x)?;
            let v = if let V::U = v { Engine::zero(ty) } else { v };
            let e = self.val(s, y)?;
            let r = insert(v, ix, e)?;
            self.set(s, *d, r);
          }
          I::ExtractElement(d, _, x, i) => {
            let v = self.val(s, x)?;
            let k = match self.val(s, i)? {
              V::C(k) => k as usize,
              V::S(t) => retry!(t),
              _ => return inc("extractelement"),
            };
            match v {
              V::A(a) => {
                let e = a[k].clone();
                self.set(s, *d, e)
              }
              _ => return inc("extractelement"),
            }
          }
          I::InsertElement(d, ty, x, y, i) => {
            let v = self.val(s, x)?;
            let v = if let V::U = v { Engine::zero(ty) } else { v };
            let e = self.val(s, y)?;
            let k = match self.val(s, i)? {
              V::C(k) => k as u32,
              V::S(t) => retry!(t),
              _ => return inc("insertelement"),
            };
            let r = insert(v, &[k], e)?;
            self.set(s, *d, r);
          }
          I::Shuffle(d, ty, x, y, m) => {
            let (a, c) = (self.val(s, x)?, self.val(s, y)?);
            if let (V::A(a), V::A(c), Ty::Vec(_, t)) = (&a, &c, ty) {
              let r: Vec<V> = m
                .iter()
                .map(|&i| {
                  if i < 0 {
                    Engine::zero(t)
                  } else if (i as usize) < a.len() {
                    a[i as usize].clone()
                  } else {
                    c[i as usize - a.len()].clone()
                  }
                })
                .collect();
              self.set(s, *d, V::A(Rc::new(r)));
            } else {
              return inc("shuffle");
            }
          }
          I::Freeze(d, _, x) => {
            let v = self.val(s, x)?;
            self.set(s, *d, v);
          }
          I::AtomicRmw(d, op, p, ty, v) => {
            let pv = self.val(s, p)?;
            let x = self.val(s, v)?;
            let old = match self.load(s, &pv, ty)? {
              None => return Ok(Step::End),
              Some(o) => o,
            };
            let w = ty.bits();
            let new = match op.as_str() {
              "xchg" => x,
              "add" => self.bin(B::Add, ty, &old, &x)?,
              "sub" => self.bin(B::Sub, ty, &old, &x)?,
              "and" => self.bin(B::And, ty, &old, &x)?,
              "or" => self.bin(B::Or, ty, &old, &x)?,
              "xor" => self.bin(B::Xor, ty, &old, &x)?,
              "umax" => self.minmax(w, &old, &x, false, true),
              "umin" => self.minmax(w, &old, &x, false, false),
              _ => return inc(format!("atomicrmw {op}")),
            };
            if !self.store(s, &pv, ty, &new)? {
              return Ok(Step::End);
            }
            self.set(s, *d, old);
          }
          I::CmpXchg(d, p, ty, c, n) => {
            let pv = self.val(s, p)?;
            let (cv, nv) = (self.val(s, c)?, self.val(s, n)?);
            let old = match self.load(s, &pv, ty)? {
              None => return Ok(Step::End),
              Some(o) => o,
            };
            let e = self.icmp(C::Eq, ty.bits(), &old, &cv);
            let new = self.select(ty, &e, &nv, &old)?;
            if !self.store(s, &pv, ty, &new)? {
              return Ok(Step::End);
            }
            self.set(s, *d, V::A(Rc::new(vec![old, e])));
          }
          I::Unsupported(w) => return inc(format!("unsupported instruction {w} in {}", f.name)),
          I::Call { dst, ret, callee, args, normal } => {
            let name = match callee {
              Callee::Fn(n) => n.clone(),
              Callee::Asm => {
                // only compiler barriers (black_box) are expected
                if let Some(d) = dst {
                  let v = Engine::zero(ret);
                  self.set(s, *d, v);
                }
                ip += 1;
                continue;
              }
              Callee::Ind(o) => match self.val(s, o)? {
                V::C(c) => {
                  let id = (c as u64 >> 32) as u32;
                  match self.fn_name(id) {
                    Some(n) => n,
                    None => return inc("call through a non-function pointer"),
                  }
                }
                V::S(t) => retry!(t),
                _ => return inc("call"),
              },
            };
            let mut av = Vec::with_capacity(args.len());
            for (t, o) in args {
              let v = if *t == Ty::Other { V::C(0) } else { self.val(s, o)? };
              av.push((t.clone(), v));
            }
            let panicky = is_panic_fn(&name);
            if !panicky && !name.starts_with("llvm.") && !name.starts_with("rvsym_") && self.m.has_fn(&name) && !is_lib(&name) {
              let callee = self.m.func(&name).unwrap();
              if s.frames.len() > 400 {
                return inc("call depth");
              }
              *self.funcs.entry(callee.name.clone()).or_insert(0) += 1;
              let mut regs = vec![V::U; callee.nregs as usize];
              for ((r, _), (_, v)) in callee.params.iter().zip(av) {
                regs[*r as usize] = v;
              }
              Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip + 1;
              s.frames.push(Rc::new(Frame { f: callee, regs, blk: 0, ip: 0, allocas: vec![], ret_dst: *dst, ret_normal: *normal }));
              continue 'outer;
            }
            let r = if panicky {
              let t = self.cx.tru();
              let nm = f.name.clone();
              self.oblige(s, t, &|| format!("panic ({name}) in {nm}"))?;
              Ret::Dead
            } else {
              match self.call_ext(s, &name, ret, &av) {
                Ok(r) => r,
                Err(Abort::Conc(t)) => Ret::Conc(t),
                Err(e) => return Err(e),
              }
            };
            match r {
              Ret::V(v) => {
                if let Some(d) = dst {
                  self.set(s, *d, v);
                }
              }
              Ret::Void => {}
              Ret::Dead => return Ok(Step::End),
              Ret::Conc(t) => retry!(t),
            }
            if let Some(nb) = normal {
              self.goto(s, *nb)?;
              if self.at_stop(s, stop) {
                return Ok(Step::AtStop);
              }
              continue 'outer;
            }
          }
        }
        ip += 1;
      }
    }
  }
  fn run(&mut self, st: State, stop: Stop) -> Result<Vec<State>, Abort> {
    let mut work = vec![st];
    let mut out = vec![];
    while let Some(mut s) = work.pop() {
      match self.path(&mut s, stop)? {
        Step::End => {
          self.st.paths += 1;
          self.finish(&s)?;
        }
        Step::AtStop => out.push(s),
        Step::Fork(mut ch, ms, base) => {
          drop(s);
          if ms == Stop::No {
            ch.reverse();
            work.extend(ch);
          } else {
            let mut done: Vec<State> = vec![];
            for c in ch {
              for r in self.run(c, ms)? {
                // merge with an earlier one if possible
                let mut merged = false;
                for d in &mut done {
                  if let Some(m) = self.merge2(d, &r, base) {
                    *d = m;
                    merged = true;
                    break;
                  }
                }
                if !merged {
                  if !done.is_empty() {
                    self.st.merge_refused += 1;
                  }
                  done.push(r);
                }
              }
            }
            done.reverse();
            work.extend(done);
          }
        }
      }
    }
    Ok(out)
  }
  pub fn verify(&mut self, entry: &str) -> Result<(), Abort> {
    let f = match self.m.func(entry) {
      Some(f) => f,
      None => return inc(format!("no harness function {entry}")),
    };
    *self.funcs.entry(f.name.clone()).or_insert(0) += 1;
    let s = State {
      frames: vec![Rc::new(Frame {
        regs: vec![V::U; f.nregs as usize],
        f,
        blk: 0,
        ip: 0,
        allocas: vec![],
        ret_dst: None,
        ret_normal: None,
      })],
      mem: Mem::default(),
      gl: Rc::new(HashMap::default()),
      trace: vec![],
      facts: Rc::new(HashMap::default()),
      model: Model::new(HashMap::default()),
      model_ok: true,
      inputs: vec![],
      merge: 0,
    };
    self.run(s, Stop::No)?;
    self.flush()
  }
}

impl V {
  fn is_true(&self) -> bool {
    matches!(self, V::C(c) if *c != 0)
  }
}

fn is_lib(n: &str) -> bool {
  matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "malloc" | "free" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc")
}

fn insert(v: V, ix: &[u32], e: V) -> Result<V, Abort> {
  if ix.is_empty() {
    return Ok(e);
  }
  match v {
    V::A(mut a) => {
      let k = ix[0] as usize;
      let m = Rc::make_mut(&mut a);
      let old = std::mem::replace(&mut m[k], V::U);
      m[k] = insert(old, &ix[1..], e)?;
      Ok(V::A(a))
    }
    _ => inc("insertvalue into a scalar"),
  }
}

fn fbin(op: B, ty: &Ty, a: u128, b: u128) -> u128 {
  if *ty == Ty::F32 {
    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    (match op {
      B::Fadd => x + y,
      B::Fsub => x - y,
      B::Fmul => x * y,
      B::Fdiv => x / y,
      _ => x % y,
    })
    .to_bits() as u128
  } else {
    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
    (match op {
      B::Fadd => x + y,
      B::Fsub => x - y,
      B::Fmul => x * y,
      B::Fdiv => x / y,
      _ => x % y,
    })
    .to_bits() as u128
  }
}

fn mono_cmp(p: &str) -> bool {
  matches!(p, "ogt" | "oge" | "olt" | "ole" | "ugt" | "uge" | "ult" | "ule" | "ord" | "uno")
}
fn ffn_un(n: &str) -> &'static str {
  ["fabs", "sqrt", "floor", "ceil", "trunc", "round", "rint", "roundeven", "nearbyint", "exp", "exp2", "log", "log2", "log10"].into_iter().find(|x| *x == n).unwrap_or("")
}
fn fcmp(p: &str, a: f64, b: f64) -> bool {
  let un = a.is_nan() || b.is_nan();
  match p {
    "oeq" => a == b,
    "ogt" => a > b,
    "oge" => a >= b,
    "olt" => a < b,
    "ole" => a <= b,
    "one" => !un && a != b,
    "ord" => !un,
    "ueq" => un || a == b,
    "ugt" => un || a > b,
    "uge" => un || a >= b,
    "ult" => un || a < b,
    "ule" => un || a <= b,
    "une" => un || a != b,
    "uno" => un,
    "true" => true,
    _ => false,
  }
}
