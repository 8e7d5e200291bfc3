//! Quantizer selection, quantization and reconstruction of coefficients.
use crate::nd;
use crate::spec::qtab;
use rav1e::verif::cpu::CpuFeatureLevel;
use rav1e::verif::quant::rust::dequantize;
use rav1e::verif::quant::*;
use rav1e::verif::scan::av1_scan_orders;
use rav1e::verif::tx::*;
use rav1e::verif::util::*;
use std::mem::MaybeUninit;

const SIZES: [(usize, usize); 19] = [
  (4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32),
  (32, 16), (32, 64), (64, 32), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16),
];
fn size(i: usize) -> TxSize {
  TxSize::by_dims(SIZES[i].0, SIZES[i].1)
}
/// dqDenom of the specification's reconstruction process, as a shift
fn denom(i: usize) -> u32 {
  match SIZES[i] {
    (64, 64) | (32, 64) | (64, 32) => 2,
    (32, 32) | (16, 32) | (32, 16) | (16, 64) | (64, 16) => 1,
    _ => 0,
  }
}
fn q(t: &[&[u16; 256]; 3], bd: usize, qi: u8, d: i8) -> i32 {
  t[(bd - 8) / 2][(qi as i32 + d as i32).clamp(0, 255) as usize] as i32
}

/// get_dc_quant and get_ac_quant
fn tables() {
  let (qi, d) = (nd::u8(), nd::i8());
  for bd in [8, 10, 12] {
    assert!(dc_q(qi, d, bd).get() as i32 == q(&qtab::DC, bd, qi, d));
    assert!(ac_q(qi, d, bd).get() as i32 == q(&qtab::AC, bd, qi, d));
  }
  for i in 0..19 {
    assert!(get_log_tx_scale(size(i)) == denom(i) as usize);
  }
}

/// The chosen index is the one whose step is nearest on a log scale.
fn select(dc: bool, bd: usize) {
  let target = nd::i64();
  let t = if dc { qtab::DC } else { qtab::AC }[(bd - 8) / 2];
  let r = if dc { select_dc_qi(target, bd) } else { select_ac_qi(target, bd) } as usize;
  let x = target.clamp(0, 1 << 16);
  let s = t[r] as i64;
  if r < 255 {
    let n = t[r + 1] as i64;
    // not nearer to the next step (steps may be equal)
    assert!(x < n && x * x < s * n || s == n && x == s, "a larger step is nearer");
  }
  if r > 0 {
    let p = t[r - 1] as i64;
    assert!(x > p && x * x >= s * p || s == p && x >= s, "a smaller step is nearer");
  }
}

fn qz<T: Coefficient>(
  c: &[i32], si: usize, ty: TxType, bd: usize, qi: u8, intra: bool, ddc: i8, dac: i8,
) -> (Vec<i32>, u16) {
  let mut x = QuantizationContext::default();
  x.update(qi, size(si), intra, bd, ddc, dac);
  let cs: Vec<T> = c.iter().map(|&v| T::cast_from(v)).collect();
  let mut o = vec![T::cast_from(0); c.len()];
  let eob = x.quantize(&cs, &mut o, size(si), ty);
  (o.iter().map(|&v| i32::cast_from(v)).collect(), eob)
}
fn dq<T: Coefficient>(c: &[i32], si: usize, bd: usize, qi: u8, ddc: i8, dac: i8) -> Vec<i32> {
  let cs: Vec<T> = c.iter().map(|&v| T::cast_from(v)).collect();
  let mut o: Vec<MaybeUninit<T>> = vec![MaybeUninit::new(T::cast_from(0)); c.len()];
  dequantize::<T>(qi, &cs, c.len() as u16, &mut o, size(si), bd, ddc, dac, CpuFeatureLevel::RUST);
  o.iter().map(|v| i32::cast_from(unsafe { v.assume_init() })).collect()
}

/// One level of the specification's reconstruction: dequantization, then the
/// clamp at the input of the inverse transform.
fn spec_dq(level: i32, step: i32, si: usize, bd: usize) -> i32 {
  let m = level.unsigned_abs() as u64 * step as u64;
  let m = ((m & 0xff_ffff) >> denom(si)) as i32;
  let v = if level < 0 { -m } else { m };
  let lim = 1 << (bd + 7);
  v.clamp(-lim, lim - 1)
}
/// largest coefficient a residual of this depth produces: flat at full range
fn top(bd: usize) -> i32 {
  ((1 << bd) - 1) * 128
}
/// ... and of the other coefficients, whose basis functions are not flat
fn top_ac(bd: usize) -> i32 {
  top(bd) / 10 * 9 + 100
}

/// Levels for coefficients in range, at every quantizer in [lo, hi): within
/// one step, right sign, and reconstructed as the decoder reconstructs them.
fn steps(bd: usize, si: usize, at: usize, lo: usize, hi: usize, by: usize) {
  nd::merge_lazy();
  let m = top(bd);
  let k = denom(si);
  let n = top_ac(bd);
  let n = if at == 0 { m } else { n };
  let v = nd::i32_in(-n, n);
  let area = SIZES[si].0.min(32) * SIZES[si].1.min(32);
  let mut c = vec![0i32; area];
  c[at] = v;
  let mut qi = lo;
  while qi < hi {
    for intra in [false, true] {
      let f = |c: &[i32]| -> (Vec<i32>, u16, Vec<i32>) {
        if bd == 8 {
          let (l, e) = qz::<i16>(c, si, TxType::DCT_DCT, bd, qi as u8, intra, 0, 0);
          let r = dq::<i16>(&l, si, bd, qi as u8, 0, 0);
          (l, e, r)
        } else {
          let (l, e) = qz::<i32>(c, si, TxType::DCT_DCT, bd, qi as u8, intra, 0, 0);
          let r = dq::<i32>(&l, si, bd, qi as u8, 0, 0);
          (l, e, r)
        }
      };
      let (l, _, r) = f(&c);
      for i in [at] {
        let step = q(if i == 0 { &qtab::DC } else { &qtab::AC }, bd, qi as u8, 0);
        let d = (c[i] << k) - l[i] * step;
        assert!(d > -step && d < step, "level off by more than a step");
        assert!(l[i] == 0 || (l[i] < 0) == (c[i] < 0), "sign lost");
        let lim = 1 << (bd + 7);
        assert!(r[i].clamp(-lim, lim - 1) == spec_dq(l[i], step, si, bd), "reconstructed level differs from the decoder's");
      }
    }
    qi += by;
  }
}

/// All coefficients of a small block (or a sparse set of a larger one): the
/// end-of-block position is that of the last level in scan order.
fn block(si: usize, ty: TxType, bd: usize, qi: u8, intra: bool, free: &[usize], ddc: i8, dac: i8) {
  nd::merge_lazy();
  let m = top(bd);
  let area = SIZES[si].0.min(32) * SIZES[si].1.min(32);
  let scan = av1_scan_orders[size(si) as usize][ty as usize].scan;
  let mut c = vec![0i32; area];
  for i in 0..area {
    if free.is_empty() || free.contains(&i) {
      c[scan[i] as usize] = nd::i32_in(-m, m);
    }
  }
  let (l, eob) = if bd == 8 {
    qz::<i16>(&c, si, ty, bd, qi, intra, ddc, dac)
  } else {
    qz::<i32>(&c, si, ty, bd, qi, intra, ddc, dac)
  };
  let mut want = 0;
  for i in 0..area {
    if l[scan[i] as usize] != 0 {
      want = i + 1;
    }
  }
  assert!(eob as usize == want, "end of block is not the last level");
  let k = denom(si);
  for i in 0..area {
    let step = q(if i == 0 { &qtab::DC } else { &qtab::AC }, bd, qi, if i == 0 { ddc } else { dac });
    let d = (c[i] << k) - l[i] * step;
    assert!(d > -step && d < step, "level off by more than a step");
    assert!(l[i] == 0 || (l[i] < 0) == (c[i] < 0), "sign lost");
  }
}

/// Lossless coding: multiples of four survive.
fn lossless() {
  nd::merge_lazy();
  let mut c = vec![0i32; 16];
  for v in c.iter_mut() {
    *v = 4 * nd::i32_in(-(top(8) >> 2), top(8) >> 2);
  }
  let (l, _) = qz::<i16>(&c, 0, TxType::DCT_DCT, 8, 0, true, 0, 0);
  let r = dq::<i16>(&l, 0, 8, 0, 0, 0);
  for i in 0..16 {
    assert!(r[i] == c[i], "lossless coefficient changed");
  }
}

harnesses! {
  qz_tables { tables() }
  qz_sel_dc8 { select(true, 8) }
  qz_sel_ac8 { select(false, 8) }
  qz_sel_dc10 { select(true, 10) }
  qz_sel_ac10 { select(false, 10) }
  qz_sel_dc12 { select(true, 12) }
  qz_sel_ac12 { select(false, 12) }
  qz_lossless { lossless() }
  qz_s8_4x4_dc0 { steps(8, 0, 0, 1, 65, 1) }
  qz_s8_4x4_dc1 { steps(8, 0, 0, 65, 129, 1) }
  qz_s8_4x4_dc2 { steps(8, 0, 0, 129, 193, 1) }
  qz_s8_4x4_dc3 { steps(8, 0, 0, 193, 256, 1) }
  qz_q8_4x4_dc { steps(8, 0, 0, 3, 256, 9) }
  qz_s8_4x4_ac0 { steps(8, 0, 1, 1, 65, 1) }
  qz_s8_4x4_ac1 { steps(8, 0, 1, 65, 129, 1) }
  qz_s8_4x4_ac2 { steps(8, 0, 1, 129, 193, 1) }
  qz_s8_4x4_ac3 { steps(8, 0, 1, 193, 256, 1) }
  qz_q8_4x4_ac { steps(8, 0, 1, 4, 256, 9) }
  qz_s8_32x32_dc0 { steps(8, 3, 0, 1, 65, 1) }
  qz_s8_32x32_dc1 { steps(8, 3, 0, 65, 129, 1) }
  qz_s8_32x32_dc2 { steps(8, 3, 0, 129, 193, 1) }
  qz_s8_32x32_dc3 { steps(8, 3, 0, 193, 256, 1) }
  qz_q8_32x32_dc { steps(8, 3, 0, 6, 256, 9) }
  qz_s8_32x32_ac0 { steps(8, 3, 1, 1, 65, 1) }
  qz_s8_32x32_ac1 { steps(8, 3, 1, 65, 129, 1) }
  qz_s8_32x32_ac2 { steps(8, 3, 1, 129, 193, 1) }
  qz_s8_32x32_ac3 { steps(8, 3, 1, 193, 256, 1) }
  qz_q8_32x32_ac { steps(8, 3, 1, 7, 256, 9) }
  qz_s8_64x64_dc0 { steps(8, 4, 0, 1, 65, 1) }
  qz_s8_64x64_dc1 { steps(8, 4, 0, 65, 129, 1) }
  qz_s8_64x64_dc2 { steps(8, 4, 0, 129, 193, 1) }
  qz_s8_64x64_dc3 { steps(8, 4, 0, 193, 256, 1) }
  qz_q8_64x64_dc { steps(8, 4, 0, 7, 256, 9) }
  qz_s8_64x64_ac0 { steps(8, 4, 1, 1, 65, 1) }
  qz_s8_64x64_ac1 { steps(8, 4, 1, 65, 129, 1) }
  qz_s8_64x64_ac2 { steps(8, 4, 1, 129, 193, 1) }
  qz_s8_64x64_ac3 { steps(8, 4, 1, 193, 256, 1) }
  qz_q8_64x64_ac { steps(8, 4, 1, 8, 256, 9) }
  qz_s10_dc0 { steps(10, 0, 0, 38, 39, 1) }
  qz_s10_dc1 { steps(10, 3, 0, 69, 70, 1) }
  qz_s10_dc2 { steps(10, 4, 0, 100, 101, 1) }
  qz_s10_dc3 { steps(10, 0, 0, 131, 132, 1) }
  qz_s10_dc4 { steps(10, 3, 0, 162, 163, 1) }
  qz_s10_dc5 { steps(10, 4, 0, 193, 194, 1) }
  qz_s10_dc6 { steps(10, 0, 0, 224, 225, 1) }
  qz_s10_dc7 { steps(10, 3, 0, 255, 256, 1) }
  qz_s10_ac0 { steps(10, 0, 1, 38, 39, 1) }
  qz_s10_ac1 { steps(10, 3, 1, 69, 70, 1) }
  qz_s10_ac2 { steps(10, 4, 1, 100, 101, 1) }
  qz_s10_ac3 { steps(10, 0, 1, 131, 132, 1) }
  qz_s10_ac4 { steps(10, 3, 1, 162, 163, 1) }
  qz_s10_ac5 { steps(10, 4, 1, 193, 194, 1) }
  qz_s10_ac6 { steps(10, 0, 1, 224, 225, 1) }
  qz_s10_ac7 { steps(10, 3, 1, 255, 256, 1) }
  qz_s12_dc0 { steps(12, 0, 0, 38, 39, 1) }
  qz_s12_dc1 { steps(12, 3, 0, 69, 70, 1) }
  qz_s12_dc2 { steps(12, 4, 0, 100, 101, 1) }
  qz_s12_dc3 { steps(12, 0, 0, 131, 132, 1) }
  qz_s12_dc4 { steps(12, 3, 0, 162, 163, 1) }
  qz_s12_dc5 { steps(12, 4, 0, 193, 194, 1) }
  qz_s12_dc6 { steps(12, 0, 0, 224, 225, 1) }
  qz_s12_dc7 { steps(12, 3, 0, 255, 256, 1) }
  qz_s12_ac0 { steps(12, 0, 1, 38, 39, 1) }
  qz_s12_ac1 { steps(12, 3, 1, 69, 70, 1) }
  qz_s12_ac2 { steps(12, 4, 1, 100, 101, 1) }
  qz_s12_ac3 { steps(12, 0, 1, 131, 132, 1) }
  qz_s12_ac4 { steps(12, 3, 1, 162, 163, 1) }
  qz_s12_ac5 { steps(12, 4, 1, 193, 194, 1) }
  qz_s12_ac6 { steps(12, 0, 1, 224, 225, 1) }
  qz_s12_ac7 { steps(12, 3, 1, 255, 256, 1) }
  qz_b4 { block(0, TxType::DCT_DCT, 8, 60, true, &[], 0, 0) }
  qz_b4_inter { block(0, TxType::ADST_DCT, 8, 255, false, &[], 5, -9) }
  qz_b8 { block(1, TxType::V_DCT, 8, 30, false, &[0, 1, 9, 62, 63], 0, 0) }
  qz_b16x8 { block(8, TxType::H_FLIPADST, 8, 128, true, &[0, 3, 64, 127], 0, 0) }
  qz_b32 { block(3, TxType::DCT_DCT, 10, 200, false, &[0, 2, 500, 1023], 7, 3) }
  qz_b64 { block(4, TxType::DCT_DCT, 8, 90, true, &[0, 1, 1022, 1023], -20, 20) }
  qz_b4x16 { block(13, TxType::IDTX, 12, 17, false, &[0, 5, 62, 63], 0, 1) }
  qz_b16x64 { block(17, TxType::DCT_DCT, 8, 240, false, &[1, 2, 3, 511], 0, 0) }
}
