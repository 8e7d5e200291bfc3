//! Transforms: the reconstruction the encoder adds to its prediction against
//! the specification's inverse transform (section 7.13), and the forward
//! transforms against the inverse ones.
use crate::nd;
use crate::spec::itx;
use rav1e::verif::cpu::CpuFeatureLevel;
use rav1e::verif::frame::*;
use rav1e::verif::tiling::*;
use rav1e::verif::tx::*;
use rav1e::verif::util::*;
use std::mem::MaybeUninit;

const CPU: CpuFeatureLevel = CpuFeatureLevel::RUST;

const TYPES: [TxType; 17] = [
  TxType::DCT_DCT,
  TxType::ADST_DCT,
  TxType::DCT_ADST,
  TxType::ADST_ADST,
  TxType::FLIPADST_DCT,
  TxType::DCT_FLIPADST,
  TxType::FLIPADST_FLIPADST,
  TxType::ADST_FLIPADST,
  TxType::FLIPADST_ADST,
  TxType::IDTX,
  TxType::V_DCT,
  TxType::H_DCT,
  TxType::V_ADST,
  TxType::H_ADST,
  TxType::V_FLIPADST,
  TxType::H_FLIPADST,
  TxType::WHT_WHT,
];

fn size(lw: usize, lh: usize) -> TxSize {
  TxSize::by_dims(1 << lw, 1 << lh)
}

/// Inverse transform of coefficients `c(row, col)` over pixels of value `px`.
fn run<T: Pixel>(c: &[i32], px: &[i32], lw: usize, lh: usize, ty: usize, bd: usize) -> Vec<i32>
where
  T: CastFromPrimitive<i32>,
{
  let (w, h) = (1 << lw, 1 << lh);
  let (cw, ch) = (w.min(32), h.min(32));
  let mut input = vec![T::Coeff::cast_from(0i32); w * h];
  for r in 0..ch {
    for x in 0..cw {
      input[x * ch + r] = T::Coeff::cast_from(c[r * cw + x]);
    }
  }
  let mut p = Plane::<T>::new(w, h, 0, 0, 0, 0);
  for y in 0..h {
    for x in 0..w {
      let s = p.cfg.stride;
      p.data[y * s + x] = T::cast_from(px[y * w + x]);
    }
  }
  inverse::inverse_transform_add::<T>(
    &input,
    &mut p.as_region_mut(),
    1,
    size(lw, lh),
    TYPES[ty],
    bd,
    CPU,
  );
  let mut o = vec![0; w * h];
  for y in 0..h {
    for x in 0..w {
      o[y * w + x] = p.p(x, y).as_();
    }
  }
  o
}

/// Which coefficients are free: all of them in the first `n` rows and columns.
fn inv(lw: usize, lh: usize, ty: usize, bd: usize, n: usize) {
  nd::merge_lazy();
  let (w, h) = (1usize << lw, 1usize << lh);
  let (cw, ch) = (w.min(32), h.min(32));
  let m = (1 << (bd + 7).min(17)) - 1;
  let mut c = vec![0i32; cw * ch];
  for r in 0..ch.min(n) {
    for x in 0..cw.min(n) {
      c[r * cw + x] = nd::i32_in(-m, m);
    }
  }
  let mut px = vec![0i32; w * h];
  for (i, p) in px.iter_mut().enumerate() {
    *p = if i < 64 { nd::i32_in(0, (1 << bd) - 1) } else { (i as i32 * 37) & ((1 << bd) - 1) };
  }
  let got = if bd == 8 { run::<u8>(&c, &px, lw, lh, ty, bd) } else { run::<u16>(&c, &px, lw, lh, ty, bd) };
  let f = |r: usize, x: usize| c[r * cw + x];
  let res =
    if ty == 16 { itx::inverse_wht(&f) } else { itx::inverse(&f, lw, lh, ty, bd as u32) };
  for i in 0..w * h {
    let v = (px[i] + res[i]).max(0).min((1 << bd) - 1);
    assert!(got[i] == v, "reconstruction differs from the specification's");
  }
}

fn fwd(res: &[i16], lw: usize, lh: usize, ty: usize, bd: usize) -> Vec<i32> {
  let (w, h) = (1usize << lw, 1usize << lh);
  let (cw, ch) = (w.min(32), h.min(32));
  let mut out = vec![0i32; cw * ch];
  let mut o: Vec<MaybeUninit<i32>> = vec![MaybeUninit::new(0); w * h];
  forward::forward_transform(res, &mut o, w, size(lw, lh), TYPES[ty], bd, CPU);
  for r in 0..ch {
    for x in 0..cw {
      out[r * cw + x] = unsafe { o[x * ch + r].assume_init() };
    }
  }
  out
}

/// Any lossless residual survives the round trip.
fn wht() {
  nd::merge_lazy();
  let mut res = [0i16; 16];
  let mut px = [0i32; 16];
  for i in 0..16 {
    let src = nd::i32_in(0, 255);
    px[i] = nd::i32_in(0, 255);
    res[i] = (src - px[i]) as i16;
  }
  let c = fwd(&res, 2, 2, 16, 8);
  let got = run::<u8>(&c, &px, 2, 2, 16, 8);
  for i in 0..16 {
    assert!(got[i] == px[i] + res[i] as i32, "lossless residual changed");
  }
}

/// any residual value
fn any(bd: usize) -> i32 {
  let m = (1 << bd) - 1;
  nd::i32_in(-m, m)
}

/// A residual that is `v` at one position (or everywhere) and 0 elsewhere
/// comes back within `tol` after forward and inverse transform.
fn near(lw: usize, lh: usize, ty: usize, bd: usize, pos: Option<usize>, tol: i32, v: i32) {
  let (w, h) = (1usize << lw, 1usize << lh);
  let mut res = vec![0i16; w * h];
  match pos {
    Some(p) => res[p] = v as i16,
    None => res.iter_mut().for_each(|r| *r = v as i16),
  }
  let c = fwd(&res, lw, lh, ty, bd);
  let cw = w.min(32);
  let back = itx::inverse(&|r, x| c[r * cw + x], lw, lh, ty, bd as u32);
  for i in 0..w * h {
    let d = back[i] - res[i] as i32;
    assert!(d >= -tol && d <= tol, "transform pair loses the residual");
  }
}

macro_rules! inv_all {
  ($($name:ident: $lw:expr, $lh:expr, $bd:expr, $n:expr, [$($ty:expr),*];)*) => {
    harnesses! { $( $name { for ty in [$($ty),*] { inv($lw, $lh, ty, $bd, $n); } } )*
      tx_wht { wht() }
      tx_wht_inv { inv(2, 2, 16, 8, 4) }
      tx_f44 { nd::merge_lazy(); let v = any(8); for ty in 0..16 { for p in 0..16 { near(2, 2, ty, 8, Some(p), 1, v); } } }
      tx_f88 { nd::merge_lazy(); let v = any(8); for p in 0..64 { near(3, 3, 0, 8, Some(p), 1, v); } }
      tx_h10 { nd::merge_lazy(); for (bd, tol) in [(10, 2)] { let v = any(bd); for (lw, lh, ty) in [(2, 2, 0), (2, 2, 9), (3, 3, 3), (2, 3, 6), (3, 2, 0), (2, 4, 12), (4, 4, 0)] { near(lw, lh, ty, bd, Some(5), tol, v); near(lw, lh, ty, bd, None, tol, v); } } }
      tx_h12 { nd::merge_lazy(); for (bd, tol) in [(12, 12)] { let v = any(bd); for (lw, lh, ty) in [(2, 2, 0), (2, 2, 9), (3, 3, 3), (2, 3, 6), (3, 2, 0), (2, 4, 12), (4, 4, 0)] { near(lw, lh, ty, bd, Some(5), tol, v); near(lw, lh, ty, bd, None, tol, v); } } }
      tx_flat { nd::merge_lazy(); let v = any(8); near(4, 4, 0, 8, None, 1, v) }
    }
  };
}

inv_all! {
  tx_i4x4: 2, 2, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i4x4_10: 2, 2, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i4x4_12: 2, 2, 12, 32, [0, 9];
  tx_i8x8: 3, 3, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i8x8_10: 3, 3, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i8x8_12: 3, 3, 12, 32, [0, 9];
  tx_i16x16: 4, 4, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i16x16_10: 4, 4, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i16x16_12: 4, 4, 12, 32, [0, 9];
  tx_i32x32: 5, 5, 8, 32, [0, 9];
  tx_i32x32_10: 5, 5, 10, 32, [0, 9];
  tx_i32x32_12: 5, 5, 12, 32, [0, 9];
  tx_i64x64: 6, 6, 8, 32, [0];
  tx_i64x64_10: 6, 6, 10, 32, [0];
  tx_i64x64_12: 6, 6, 12, 32, [0];
  tx_i4x8: 2, 3, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i4x8_10: 2, 3, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i4x8_12: 2, 3, 12, 32, [0, 9];
  tx_i8x4: 3, 2, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i8x4_10: 3, 2, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i8x4_12: 3, 2, 12, 32, [0, 9];
  tx_i8x16: 3, 4, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i8x16_10: 3, 4, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i8x16_12: 3, 4, 12, 32, [0, 9];
  tx_i16x8: 4, 3, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i16x8_10: 4, 3, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i16x8_12: 4, 3, 12, 32, [0, 9];
  tx_i16x32: 4, 5, 8, 32, [0, 9];
  tx_i16x32_10: 4, 5, 10, 32, [0, 9];
  tx_i16x32_12: 4, 5, 12, 32, [0, 9];
  tx_i32x16: 5, 4, 8, 32, [0, 9];
  tx_i32x16_10: 5, 4, 10, 32, [0, 9];
  tx_i32x16_12: 5, 4, 12, 32, [0, 9];
  tx_i32x64: 5, 6, 8, 32, [0];
  tx_i32x64_10: 5, 6, 10, 32, [0];
  tx_i32x64_12: 5, 6, 12, 32, [0];
  tx_i64x32: 6, 5, 8, 32, [0];
  tx_i64x32_10: 6, 5, 10, 32, [0];
  tx_i64x32_12: 6, 5, 12, 32, [0];
  tx_i4x16: 2, 4, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i4x16_10: 2, 4, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i4x16_12: 2, 4, 12, 32, [0, 9];
  tx_i16x4: 4, 2, 8, 32, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
  tx_i16x4_10: 4, 2, 10, 32, [0, 3, 6, 9, 12, 15];
  tx_i16x4_12: 4, 2, 12, 32, [0, 9];
  tx_i8x32: 3, 5, 8, 32, [0, 9];
  tx_i8x32_10: 3, 5, 10, 32, [0, 9];
  tx_i8x32_12: 3, 5, 12, 32, [0, 9];
  tx_i32x8: 5, 3, 8, 32, [0, 9];
  tx_i32x8_10: 5, 3, 10, 32, [0, 9];
  tx_i32x8_12: 5, 3, 12, 32, [0, 9];
  tx_i16x64: 4, 6, 8, 32, [0];
  tx_i16x64_10: 4, 6, 10, 32, [0];
  tx_i16x64_12: 4, 6, 12, 32, [0];
  tx_i64x16: 6, 4, 8, 32, [0];
  tx_i64x16_10: 6, 4, 10, 32, [0];
  tx_i64x16_12: 6, 4, 12, 32, [0];
}

macro_rules! fwd_all {
  ($($name:ident: $lw:expr, $lh:expr, $tol:expr, [$($ty:expr),*], [$($p:expr),*];)*) => {
    harnesses2! { $( $name {
      nd::merge_lazy();
      let v = any(8);
      let pos: &[usize] = &[$($p),*];
      for ty in [$($ty),*] {
        near($lw, $lh, ty, 8, None, $tol, v);
        for &p in pos { near($lw, $lh, ty, 8, Some(p), $tol, v); }
      }
    } )* }
  };
}
fwd_all! {
  tx_f4x4: 2, 2, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 3, 9, 12, 15];
  tx_f8x8: 3, 3, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 7, 35, 56, 63];
  tx_f16x16: 4, 4, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 15, 135, 240, 255];
  tx_f32x32: 5, 5, 2, [0, 9], [0, 31, 527, 992, 1023];
  tx_f64x64: 6, 6, 1, [0], [];
  tx_f4x8: 2, 3, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 3, 17, 28, 31];
  tx_f8x4: 3, 2, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 7, 19, 24, 31];
  tx_f8x16: 3, 4, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 7, 67, 120, 127];
  tx_f16x8: 4, 3, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 15, 71, 112, 127];
  tx_f16x32: 4, 5, 3, [0, 9], [0, 15, 263, 496, 511];
  tx_f32x16: 5, 4, 2, [0, 9], [0, 31, 271, 480, 511];
  tx_f32x64: 5, 6, 1, [0], [];
  tx_f64x32: 6, 5, 1, [0], [];
  tx_f4x16: 2, 4, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 3, 33, 60, 63];
  tx_f16x4: 4, 2, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 15, 39, 48, 63];
  tx_f8x32: 3, 5, 1, [0, 9], [0, 7, 131, 248, 255];
  tx_f32x8: 5, 3, 1, [0, 9], [0, 31, 143, 224, 255];
  tx_f16x64: 4, 6, 1, [0], [];
  tx_f64x16: 6, 4, 1, [0], [];
}
