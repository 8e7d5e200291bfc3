//! Nondeterministic inputs.  With `--cfg rvsym` every value is symbolic (the
//! functions are opaque externs the executor interprets); in the native replay
//! build the values come from the solver's counterexample, in call order.

#[cfg(rvsym)]
mod imp {
  extern "C" {
    fn rvsym_u8() -> u8;
    fn rvsym_u16() -> u16;
    fn rvsym_u32() -> u32;
    fn rvsym_u64() -> u64;
    fn rvsym_range(lo: u64, hi: u64) -> u64;
    fn rvsym_assume(c: bool);
    fn rvsym_witness(c: bool);
    fn rvsym_merge(on: u32);
    fn rvsym_concretize(v: u64) -> u64;
    fn rvsym_observe(v: u64);
    fn rvsym_dump(k: u32, v: u64);
  }
  #[inline(always)]
  pub fn u8() -> u8 {
    unsafe { rvsym_u8() }
  }
  #[inline(always)]
  pub fn u16() -> u16 {
    unsafe { rvsym_u16() }
  }
  #[inline(always)]
  pub fn u32() -> u32 {
    unsafe { rvsym_u32() }
  }
  #[inline(always)]
  pub fn u64() -> u64 {
    unsafe { rvsym_u64() }
  }
  #[inline(always)]
  pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { rvsym_range(lo, hi) }
  }
  #[inline(always)]
  pub fn assume(c: bool) {
    unsafe { rvsym_assume(c) }
  }
  #[inline(always)]
  pub fn witness(c: bool) {
    unsafe { rvsym_witness(c) }
  }
  #[inline(always)]
  pub fn merge(on: bool) {
    unsafe { rvsym_merge(on as u32) }
  }
  /// merge, and execute both sides of a branch without asking whether they are
  /// feasible (for code whose loops do not depend on the inputs)
  #[inline(always)]
  pub fn merge_lazy() {
    unsafe { rvsym_merge(2) }
  }
  #[inline(always)]
  pub fn concretize(v: u64) -> u64 {
    unsafe { rvsym_concretize(v) }
  }
  #[inline(always)]
  pub fn observe(v: u64) {
    unsafe { rvsym_observe(v) }
  }
  #[inline(always)]
  pub fn dump(k: u32, v: u64) {
    unsafe { rvsym_dump(k, v) }
  }
}

#[cfg(not(rvsym))]
mod imp {
  use std::cell::RefCell;
  thread_local! {
    static Q: RefCell<(Vec<Vec<u8>>, usize)> = const { RefCell::new((Vec::new(), 0)) };
  }
  pub fn load(v: Vec<Vec<u8>>) {
    Q.with(|q| *q.borrow_mut() = (v, 0));
  }
  fn next(n: usize) -> u64 {
    Q.with(|q| {
      let mut q = q.borrow_mut();
      let i = q.1;
      q.1 += 1;
      let Some(b) = q.0.get(i) else {
        // the failing path does not reach this input
        return 0;
      };
      if b.len() != n {
        eprintln!("REPLAY-DESYNC at input {i}: have {} bytes, want {n}", b.len());
        std::process::exit(4);
      }
      let mut v = 0u64;
      for (k, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * k);
      }
      v
    })
  }
  pub fn u8() -> u8 {
    next(1) as u8
  }
  pub fn u16() -> u16 {
    next(2) as u16
  }
  pub fn u32() -> u32 {
    next(4) as u32
  }
  pub fn u64() -> u64 {
    next(8)
  }
  pub fn range(lo: u64, hi: u64) -> u64 {
    let v = next(8);
    if v < lo || v > hi {
      eprintln!("REPLAY-RANGE {v} not in {lo}..={hi}");
      std::process::exit(4);
    }
    v
  }
  pub fn assume(c: bool) {
    if !c {
      eprintln!("REPLAY-ASSUME-FALSE");
      std::process::exit(3);
    }
  }
  pub fn witness(_c: bool) {}
  pub fn merge(_on: bool) {}
  pub fn merge_lazy() {}
  pub fn concretize(v: u64) -> u64 {
    v
  }
  pub fn observe(v: u64) {
    println!("OBS {v}");
  }
  pub fn dump(_k: u32, _v: u64) {}
}
pub use imp::*;

#[inline(always)]
pub fn boolean() -> bool {
  range(0, 1) != 0
}
#[inline(always)]
pub fn usize() -> usize {
  u64() as usize
}
#[inline(always)]
pub fn i8() -> i8 {
  u8() as i8
}
#[inline(always)]
pub fn i16() -> i16 {
  u16() as i16
}
#[inline(always)]
pub fn i32() -> i32 {
  u32() as i32
}
#[inline(always)]
pub fn i64() -> i64 {
  u64() as i64
}

macro_rules! ur {
  ($($f:ident: $t:ident),*) => {$(
    #[inline(always)]
    pub fn $f(lo: $t, hi: $t) -> $t {
      range(lo as u64, hi as u64) as $t
    }
  )*};
}
ur!(u8_in: u8, u16_in: u16, u32_in: u32, u64_in: u64, usize_in: usize);
macro_rules! ir {
  ($($f:ident: $t:ident),*) => {$(
    #[inline(always)]
    pub fn $f(lo: $t, hi: $t) -> $t {
      (lo as i64).wrapping_add(range(0, (hi as i64).wrapping_sub(lo as i64) as u64) as i64) as $t
    }
  )*};
}
ir!(i8_in: i8, i16_in: i16, i32_in: i32, i64_in: i64, isize_in: isize);
