//! Range coder, integer codes, CDF adaptation.
use crate::nd;
use crate::spec::sym::{self, Dec};
use crate::spec::tok::{Bits, Tok};
use rav1e::verif::ec::*;

/// An arbitrary valid inverse CDF with N symbols (non-increasing, <= 32768).
pub fn any_cdf<const N: usize>() -> [u16; N] {
  let mut c = [0u16; N];
  let mut prev = 32767;
  let mut i = 0;
  while i < N - 1 {
    c[i] = nd::u16();
    nd::assume(c[i] <= prev);
    prev = c[i];
    i += 1;
  }
  c[N - 1] = nd::u16_in(0, 32);
  c
}

/// The exact code interval of a symbol sequence by spec 8.2.6 arithmetic: the
/// stream decodes to the sequence iff its first 15+d bits lie in [low, low+rng).
struct Interval {
  low: u128,
  rng: u32,
  d: u32,
}
impl Interval {
  fn new() -> Self {
    Interval { low: 0, rng: 1 << 15, d: 0 }
  }
  fn step(&mut self, icdf: &[u16], s: u32) {
    let (cur, prev) = sym::bounds(self.rng, icdf, s);
    self.low += (self.rng - prev) as u128;
    let r = prev - cur;
    let sh = 15 - (31 - r.leading_zeros());
    self.low <<= sh;
    self.rng = r << sh;
    self.d += sh;
  }
  fn check(&self, out: &[u8]) {
    let mut b = 0u128;
    for &x in out {
      b = b << 8 | x as u128;
    }
    let have = 8 * out.len() as u32;
    let need = 15 + self.d;
    // SymbolMaxBits >= -14 on exit
    assert!(have + 14 >= need);
    let v = if have >= need { b >> (have - need) } else { b << (need - have) };
    assert!(v >= self.low && v < self.low + self.rng as u128);
    // trailing one bit at position d, zeros after it (8.2.4)
    assert!(have > self.d);
    let tail = b & ((1u128 << (have - self.d)) - 1);
    assert!(tail == 1u128 << (have - self.d - 1));
  }
}

fn iv_bools<const K: usize>() {
  let mut w = WriterEncoder::new();
  let mut iv = Interval::new();
  for _ in 0..K {
    let v = nd::boolean();
    let p = nd::u16_in(1, 32767);
    w.bool(v, p);
    iv.step(&[p, 0], v as u32);
  }
  nd::merge(true);
  let out = w.done();
  iv.check(&out);
  nd::witness(out.len() > 2);
}
fn iv_syms<const K: usize, const N: usize>() {
  let mut w = WriterEncoder::new();
  let mut iv = Interval::new();
  for _ in 0..K {
    let c: [u16; N] = any_cdf();
    let s = nd::u32_in(0, N as u32 - 1);
    w.symbol(s, &c);
    iv.step(&c, s);
  }
  nd::merge(true);
  let out = w.done();
  iv.check(&out);
  nd::witness(out.len() > 1);
}
const FS: [u16; 5] = [64, 2048, 16384, 32704, 700];
fn any_f() -> u16 {
  FS[nd::usize_in(0, 3)]
}
/// K symbols of a 2- or 3-symbol alphabet with probabilities from extremes to even
fn iv_mix<const K: usize>(hi: usize) {
  let mut w = WriterEncoder::new();
  let mut iv = Interval::new();
  for i in 0..K {
    let f = FS[3 * nd::usize_in(0, 1) + nd::usize_in(0, hi)];
    if i % 2 == 0 {
      let c = [f, 0];
      let s = nd::u32_in(0, 1);
      w.symbol(s, &c);
      iv.step(&c, s);
    } else {
      let c = [f, f / 2, 0];
      let s = nd::u32_in(0, 2);
      w.symbol(s, &c);
      iv.step(&c, s);
    }
  }
  nd::merge(true);
  let out = w.done();
  iv.check(&out);
}
/// one arbitrary small-probability symbol then literal bits: long streams with
/// carries
fn iv_lits<const K: usize>() {
  let mut w = WriterEncoder::new();
  let mut iv = Interval::new();
  nd::merge(true);
  for _ in 0..K {
    let b = nd::boolean();
    w.bit(b as u16);
    iv.step(&[16384, 0], b as u32);
  }
  let out = w.done();
  iv.check(&out);
}
/// A concrete prefix of `l` bits that keeps the code interval astride the point
/// `p` (a 15-bit value followed by zeros), so that the low end reads ..FF FF FF
/// and a later choice decides whether a carry ripples through all of it; then K
/// arbitrary bits.
fn iv_carry<const K: usize>(l: usize, p: u32) {
  let mut w = WriterEncoder::new();
  let mut iv = Interval::new();
  for i in 0..l {
    let f = [16384u16, 9000, 25000][i % 3];
    let (cur, prev) = sym::bounds(iv.rng, &[f, 0], 0);
    // symbol 0 takes the low part, [low, low + rng - cur)
    let split = iv.low + (prev - cur) as u128;
    let pt = (p as u128) << iv.d;
    let s = (pt >= split) as u32;
    w.bool(s != 0, f);
    iv.step(&[f, 0], s);
  }
  let pt = (p as u128) << iv.d;
  assert!(iv.low < pt && pt < iv.low + iv.rng as u128);
  nd::merge(true);
  for _ in 0..K {
    let b = nd::boolean();
    w.bit(b as u16);
    iv.step(&[16384, 0], b as u32);
  }
  let out = w.done();
  iv.check(&out);
  nd::witness(out.len() > 1);
}
fn rt_bools<const K: usize>() {
  let mut w = WriterEncoder::new();
  let mut v = [false; K];
  let mut p = [0u16; K];
  for i in 0..K {
    v[i] = nd::boolean();
    p[i] = nd::u16_in(1, 32767);
    w.bool(v[i], p[i]);
  }
  nd::merge(true);
  let out = w.done();
  let mut d = Dec::new(&out);
  for i in 0..K {
    assert!(d.bool(p[i]) == v[i]);
  }
  nd::witness(out.len() > 2);
}
/// Recorder, counter and encoder agree; replaying a recording equals direct coding.
fn rec_equiv<const K: usize>() {
  let mut e = WriterEncoder::new();
  let mut r = WriterRecorder::new();
  let mut c = WriterCounter::new();
  for _ in 0..K {
    let f = any_f();
    let cdf = [f, f / 2, 0];
    let s = nd::u32_in(0, 2);
    e.symbol(s, &cdf);
    r.symbol(s, &cdf);
    c.symbol(s, &cdf);
    assert!(e.tell() == r.tell() && r.tell() == c.tell());
    assert!(e.tell_frac() == r.tell_frac() && r.tell_frac() == c.tell_frac());
  }
  let mut e2 = WriterEncoder::new();
  r.replay(&mut e2);
  // the recorder is as new
  assert!(r.tell() == WriterRecorder::new().tell());
  let a = e.done();
  let b = e2.done();
  assert!(a.len() == b.len());
  for i in 0..a.len() {
    assert!(a[i] == b[i]);
  }
}
/// a, checkpoint, b, c, rollback, d  ==  a, d
fn ckpt(which: u32) {
  let f = any_f();
  let ca = [f, f / 2, 0];
  let s: [u32; 4] = std::array::from_fn(|_| nd::u32_in(0, 2));
  macro_rules! go {
    ($ty:ident) => {{
      let mut e = $ty::new();
      let mut f = $ty::new();
      e.symbol(s[0], &ca);
      f.symbol(s[0], &ca);
      let k = Writer::checkpoint(&mut e);
      e.symbol(s[1], &ca);
      e.symbol(s[2], &ca);
      Writer::rollback(&mut e, &k);
      assert!(e.tell() == f.tell() && e.tell_frac() == f.tell_frac());
      e.symbol(s[3], &ca);
      f.symbol(s[3], &ca);
      assert!(e.tell() == f.tell() && e.tell_frac() == f.tell_frac());
      (e, f)
    }};
  }
  match which {
    0 => {
      let (mut e, mut f) = go!(WriterEncoder);
      let (a, b) = (e.done(), f.done());
      assert!(a.len() == b.len());
      for i in 0..a.len() {
        assert!(a[i] == b[i]);
      }
    }
    1 => {
      let (mut e, mut f) = go!(WriterRecorder);
      let (mut ta, mut tb) = (Tok::new(), Tok::new());
      e.replay(&mut ta);
      f.replay(&mut tb);
      assert!(ta.t == tb.t);
    }
    _ => {
      go!(WriterCounter);
    }
  }
}

fn adapt<const N: usize>() {
  let c: [u16; N] = any_cdf();
  let s = nd::u32_in(0, N as u32 - 1);
  let mut real = c;
  rust_update_cdf(&mut real, s);
  let want = sym::adapt(&c, s);
  for i in 0..N {
    assert!(real[i] == want[i]);
  }
}

fn bits_of(r: &mut WriterBase<WriterRecorder>) -> Bits {
  let mut t = Tok::new();
  r.replay(&mut t);
  t.bits()
}

fn golomb(max: u32) {
  nd::merge(true);
  let v = nd::u32_in(0, max);
  let mut r = WriterRecorder::new();
  r.write_golomb(v);
  let mut b = bits_of(&mut r);
  assert!(b.golomb() == v);
  assert!(b.end());
}
fn lit() {
  nd::merge(true);
  let n = nd::concretize(nd::range(0, 16)) as u8;
  let v = nd::u32_in(0, 65535);
  nd::assume(v >> n == 0);
  let mut r = WriterRecorder::new();
  r.literal(n, v);
  let mut b = bits_of(&mut r);
  assert!(b.l(n as u32) == v && b.end());
}
fn quni(max: u32) {
  nd::merge(true);
  let n = nd::u32_in(1, max);
  let v = nd::u32_in(0, max - 1);
  nd::assume(v < n);
  let mut r = WriterRecorder::new();
  r.write_quniform(n, v);
  let mut b = bits_of(&mut r);
  assert!(r.count_quniform(n, v) == 8 * b.len() as u32);
  assert!(b.ns(n) == v && b.end());
}
/// (low, high, k) of every reference-coded parameter the encoder writes
/// (self-guided weights, Wiener taps), plus shapes with 1..3 escapes.
const RNG: [(i32, i32, u8); 8] = [
  (-96, 32, 4),
  (-32, 96, 4),
  (-5, 11, 1),
  (-23, 9, 2),
  (-17, 47, 3),
  (0, 1, 1),
  (-3, 4, 1),
  (0, 200, 3),
];
fn subexp(i: usize) {
  nd::merge(true);
  let (lo, hi, k) = RNG[i];
  let n = (hi - lo) as u32;
  let v = nd::u32_in(0, n - 1);
  let mut r = WriterRecorder::new();
  r.write_subexp(n, k, v);
  let mut b = bits_of(&mut r);
  assert!(r.count_subexp(n, k, v) == 8 * b.len() as u32);
  assert!(b.subexp(n, k as u32) == v && b.end());
}
fn ssubexp(i: usize) {
  nd::merge(true);
  let (lo, hi, k) = RNG[i];
  let v = nd::i32_in(lo, hi - 1);
  let rf = nd::i32_in(lo, hi - 1);
  let mut r = WriterRecorder::new();
  r.write_signed_subexp_with_ref(v, lo, hi, k, rf);
  let mut b = bits_of(&mut r);
  assert!(r.count_signed_subexp_with_ref(v, lo, hi, k, rf) == 8 * b.len() as u32);
  assert!(b.signed_subexp_with_ref(lo, hi, k as u32, rf) == v && b.end());
}

harnesses! {
  ec_rt_bool2 { rt_bools::<2>() }
  ec_iv_bool2 { iv_bools::<2>() }
  ec_iv_mix3 { iv_mix::<3>(1) }
  ec_iv_mix4 { iv_mix::<4>(0) }
  ec_iv_sym1x16 { iv_syms::<1, 16>() }
  ec_iv_lits8 { iv_lits::<8>() }
  ec_carry16 { iv_carry::<6>(16, 0x4000) }
  ec_carry24 { iv_carry::<6>(24, 0x2A00) }
  ec_carry32 { iv_carry::<8>(32, 0x6000) }
  ec_carry48 { iv_carry::<8>(48, 0x3300) }
  ec_carry72 { iv_carry::<8>(72, 0x1230) }
  ec_iv_lits24 { iv_lits::<24>() }
  ec_iv_lits16 { iv_lits::<16>() }
  ec_rec2 { rec_equiv::<2>() }
  ec_rec3 { rec_equiv::<3>() }
  ec_ckpt_enc { ckpt(0) }
  ec_ckpt_rec { ckpt(1) }
  ec_ckpt_cnt { ckpt(2) }
  ec_adapt2 { adapt::<2>() }
  ec_adapt3 { adapt::<3>() }
  ec_adapt4 { adapt::<4>() }
  ec_adapt5 { adapt::<5>() }
  ec_adapt6 { adapt::<6>() }
  ec_adapt7 { adapt::<7>() }
  ec_adapt8 { adapt::<8>() }
  ec_adapt9 { adapt::<9>() }
  ec_adapt10 { adapt::<10>() }
  ec_adapt11 { adapt::<11>() }
  ec_adapt12 { adapt::<12>() }
  ec_adapt13 { adapt::<13>() }
  ec_adapt14 { adapt::<14>() }
  ec_adapt15 { adapt::<15>() }
  ec_adapt16 { adapt::<16>() }
  ec_golomb { golomb((1 << 20) - 1) }
  ec_lit { lit() }
  ec_quni { quni(1 << 12) }
  ec_subexp0 { subexp(0) }
  ec_ssubexp0 { ssubexp(0) }
  ec_subexp1 { subexp(1) }
  ec_ssubexp1 { ssubexp(1) }
  ec_subexp2 { subexp(2) }
  ec_ssubexp2 { ssubexp(2) }
  ec_subexp3 { subexp(3) }
  ec_ssubexp3 { ssubexp(3) }
  ec_subexp4 { subexp(4) }
  ec_ssubexp4 { ssubexp(4) }
  ec_subexp5 { subexp(5) }
  ec_ssubexp5 { ssubexp(5) }
  ec_subexp6 { subexp(6) }
  ec_ssubexp6 { ssubexp(6) }
  ec_subexp7 { subexp(7) }
  ec_ssubexp7 { ssubexp(7) }
}
