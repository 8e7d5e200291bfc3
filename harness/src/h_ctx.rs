//! Coding contexts: trial coding leaves no trace, frames start from the
//! decoder's probabilities.
use crate::nd;
use rav1e::prelude::*;
use rav1e::verif::ctx::*;
use rav1e::verif::ec::*;
use rav1e::verif::part::*;
use rav1e::verif::tx::TxSize;

/// every distribution of a context: (offset in bytes, symbols)
trait Dists {
  fn dists(&self, base: usize, out: &mut Vec<(usize, usize)>);
}
impl<const N: usize> Dists for [u16; N] {
  fn dists(&self, base: usize, out: &mut Vec<(usize, usize)>) {
    out.push((self.as_ptr() as usize - base, N));
  }
}
impl<T: Dists, const M: usize> Dists for [T; M] {
  fn dists(&self, base: usize, out: &mut Vec<(usize, usize)>) {
    for x in self {
      x.dists(base, out);
    }
  }
}
fn dists(fc: &CDFContext) -> Vec<(usize, usize)> {
  let b = fc as *const _ as usize;
  let mut v = vec![];
  macro_rules! all { ($($f:ident)*) => { $( fc.$f.dists(b, &mut v); )* } }
  all!(comp_bwd_ref_cdf comp_mode_cdf comp_ref_cdf comp_ref_type_cdf dc_sign_cdf drl_cdfs eob_extra_cdf filter_intra_cdfs
    intra_inter_cdfs lrf_sgrproj_cdf lrf_wiener_cdf newmv_cdf palette_uv_mode_cdfs palette_y_mode_cdfs refmv_cdf single_ref_cdfs
    skip_cdfs txb_skip_cdf txfm_partition_cdf zeromv_cdf tx_size_8x8_cdf inter_tx_3_cdf coeff_base_eob_cdf lrf_switchable_cdf
    tx_size_cdf coeff_base_cdf coeff_br_cdf deblock_delta_cdf deblock_delta_multi_cdf partition_w8_cdf eob_flag_cdf16
    intra_tx_2_cdf eob_flag_cdf32 angle_delta_cdf eob_flag_cdf64 intra_tx_1_cdf cfl_sign_cdf compound_mode_cdf eob_flag_cdf128
    spatial_segmentation_cdfs partition_w128_cdf eob_flag_cdf256 eob_flag_cdf512 partition_cdf eob_flag_cdf1024 inter_tx_2_cdf
    kf_y_cdf y_mode_cdf uv_mode_cdf uv_mode_cfl_cdf cfl_alpha_cdf inter_tx_1_cdf);
  fc.nmv_context.joints_cdf.dists(b, &mut v);
  for c in &fc.nmv_context.comps {
    macro_rules! all { ($($f:ident)*) => { $( c.$f.dists(b, &mut v); )* } }
    all!(sign_cdf class0_hp_cdf hp_cdf class0_cdf bits_cdf class0_fp_cdf fp_cdf classes_cdf);
  }
  v
}
fn at(fc: &mut CDFContext, (off, n): (usize, usize)) -> &mut [u16] {
  unsafe { std::slice::from_raw_parts_mut((fc as *mut CDFContext as *mut u8).add(off) as *mut u16, n) }
}

/// every distribution free
fn free(fc: &mut CDFContext) -> Vec<Vec<u16>> {
  let mut r = vec![];
  for d in dists(fc) {
    let p = at(fc, d);
    for x in p.iter_mut() {
      *x = nd::u16();
    }
    r.push(p.to_vec());
  }
  r
}

fn touch(cw: &mut ContextWriter, (off, n): (usize, usize), mut f: impl FnMut(&mut [u16])) {
  macro_rules! by { ($($k:literal)*) => { match n { $( $k => {
    let p = unsafe { (cw.fc as *const CDFContext as *const u8).add(off) as *const [u16; $k] };
    let o = cw.fc.offset(p);
    f(&mut cw.fc_log.push(cw.fc, o)[..])
  } )* _ => unreachable!() } } }
  by!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

/// Distributions written in some order through the log, between checkpoints;
/// rolling back restores every one of them.
fn log(orders: &[fn(usize, usize) -> usize], keep: usize, times: usize) {
  let mut fc = Box::new(CDFContext::new(100));
  let mut init = free(&mut fc);
  let ds = dists(&fc);
  let mut fb = FrameBlocks::new(16, 16);
  let mut tb = fb.as_tile_blocks_mut();
  let bc = BlockContext::new(&mut tb);
  let mut cw = ContextWriter::new(&mut fc, bc);
  // what is kept
  for i in 0..keep {
    let k = i * 37 % ds.len();
    touch(&mut cw, ds[k], |c| {
      for (x, y) in c.iter_mut().zip(init[k].iter_mut()) {
        *x = nd::u16();
        *y = *x;
      }
    });
  }
  let p = cw.checkpoint(&TileBlockOffset(BlockOffset { x: 0, y: 0 }), ChromaSampling::Cs420);
  let mut n = 0u16;
  for _ in 0..times {
    for o in orders {
      for i in 0..ds.len() {
        let k = o(i, ds.len());
        n = n.wrapping_add(1);
        touch(&mut cw, ds[k], |c| {
          for x in c.iter_mut() {
            *x = x.wrapping_add(n);
          }
        });
      }
    }
    cw.rollback(&p);
  }
  for (d, want) in ds.iter().zip(&init) {
    let got = at(cw.fc, *d);
    for (a, b) in got.iter().zip(want) {
      assert!(a == b, "a distribution is not restored");
    }
  }
}

/// All contexts of blocks free; a block is coded and rolled back.
fn block(cs: ChromaSampling) {
  nd::merge_lazy();
  let (sx, sy) = match cs {
    ChromaSampling::Cs444 => (0, 0),
    ChromaSampling::Cs422 => (1, 0),
    _ => (1, 1),
  };
  use BlockSize::*;
  let ops: [(BlockSize, BlockSize, TxSize, usize, usize); 9] = [
    (BLOCK_64X64, BLOCK_64X64, TxSize::TX_64X64, 0, 0),
    (BLOCK_64X64, BLOCK_32X64, TxSize::TX_32X64, 1008, 16),
    (BLOCK_64X64, BLOCK_64X32, TxSize::TX_64X32, 32, 48),
    (BLOCK_32X32, BLOCK_32X32, TxSize::TX_32X32, 24, 40),
    (BLOCK_32X32, BLOCK_32X16, TxSize::TX_32X16, 1016, 8),
    (BLOCK_16X16, BLOCK_8X16, TxSize::TX_8X16, 1020, 12),
    (BLOCK_16X16, BLOCK_16X4, TxSize::TX_16X4, 44, 4),
    (BLOCK_8X8, BLOCK_4X8, TxSize::TX_4X8, 62, 62),
    (BLOCK_8X8, BLOCK_4X4, TxSize::TX_4X4, 1022, 14),
  ];
  for (area, b, tx, x, y) in ops {
    if b.subsampled_size(sx, sy).is_err() {
      continue; // not a block of this format
    }
    let mut fc = Box::new(CDFContext::new(100));
    let mut fb = FrameBlocks::new(1024, 64);
    let mut tb = fb.as_tile_blocks_mut();
    let mut bc = BlockContext::new(&mut tb);
    let x0 = x & !15;
    let lo = x0.saturating_sub(16);
    let hi = (x0 + 32).min(1024);
    bc.cdef_coded = nd::boolean();
    let cdef = bc.cdef_coded;
    macro_rules! fill { ($a:expr) => { for v in $a { *v = nd::u8(); } } }
    fill!(&mut bc.above_partition_context[lo / 2..hi / 2]);
    fill!(&mut bc.above_tx_context[lo..hi]);
    fill!(&mut bc.left_partition_context[..]);
    fill!(&mut bc.left_tx_context[..]);
    for p in 0..3 {
      let s = if p > 0 { sx } else { 0 };
      fill!(&mut bc.above_coeff_context[p][lo >> s..hi >> s]);
      fill!(&mut bc.left_coeff_context[p][..]);
    }
    let (a0, a1, a2, l0, l1, l2) = (bc.above_partition_context, bc.above_tx_context, bc.above_coeff_context, bc.left_partition_context, bc.left_tx_context, bc.left_coeff_context);
    let mut cw = ContextWriter::new(&mut fc, bc);
    let bo = TileBlockOffset(BlockOffset { x, y });
    let p = cw.checkpoint(&bo, cs);
    // as coding of a partitioned block does, in all of its parts
    cw.bc.cdef_coded = !cdef;
    for dy in (0..area.height_mi()).step_by(b.height_mi()) {
      for dx in (0..area.width_mi()).step_by(b.width_mi()) {
        let o = TileBlockOffset(BlockOffset { x: x + dx, y: y + dy });
        cw.bc.reset_skip_context(o, b, sx, sy, cs);
        cw.bc.update_tx_size_context(o, b, tx, nd::boolean());
        cw.bc.set_coeff_context(0, o, tx, 0, 0, nd::u8());
        if cs != ChromaSampling::Cs400 && has_chroma(o, b, sx, sy, cs) {
          let t = b.largest_chroma_tx_size(sx, sy);
          for k in 1..3 {
            cw.bc.set_coeff_context(k, o, t, sx, sy, nd::u8());
          }
        }
      }
    }
    cw.bc.update_partition_context(bo, b, area);
    cw.rollback(&p);
    assert!(cw.bc.cdef_coded == cdef);
    assert!(cw.bc.above_partition_context[..] == a0[..], "partition context above");
    assert!(cw.bc.left_partition_context == l0, "partition context to the left");
    assert!(cw.bc.above_tx_context[..] == a1[..], "transform context above");
    assert!(cw.bc.left_tx_context == l1, "transform context to the left");
    for k in 0..3 {
      assert!(cw.bc.above_coeff_context[k][..] == a2[k][..], "coefficient context above");
      assert!(cw.bc.left_coeff_context[k] == l2[k], "coefficient context to the left");
    }
  }
}

/// What a frame hands on: its distributions, their counters cleared.
fn reset() {
  let mut fc = Box::new(CDFContext::new(0));
  let init = free(&mut fc);
  fc.reset_counts();
  for (d, want) in dists(&fc).into_iter().zip(&init) {
    let n = d.1;
    let got = at(&mut fc, d);
    assert!(got[n - 1] == 0, "counter not cleared");
    for i in 0..n - 1 {
      assert!(got[i] == want[i], "distribution changed");
    }
  }
}

/// What a frame without a primary reference starts from: valid distributions,
/// those of coefficients by quantizer index.
fn start(range: std::ops::RangeInclusive<u8>, idx: u8) {
  let q = nd::u8_in(*range.start(), *range.end());
  let mut a = Box::new(CDFContext::new(q));
  let mut b = Box::new(CDFContext::new(idx));
  for d in dists(&a) {
    let n = d.1;
    let (x, y) = (at(&mut a, d), at(&mut b, d));
    let mut prev = 32768;
    for i in 0..n {
      assert!(x[i] == y[i], "other coefficient distributions");
      if i < n - 1 {
        assert!(x[i] < prev || x[i] == 0 && prev == 0, "not a distribution");
        prev = x[i];
      }
    }
    assert!(x[n - 1] == 0);
  }
}

/// The four sets differ from each other.
fn differ() {
  let s: Vec<Box<CDFContext>> = [0, 21, 61, 121].iter().map(|&q| Box::new(CDFContext::new(q))).collect();
  for i in 0..4 {
    for j in 0..i {
      assert!(s[i].coeff_base_cdf != s[j].coeff_base_cdf && s[i].coeff_br_cdf != s[j].coeff_br_cdf && s[i].txb_skip_cdf != s[j].txb_skip_cdf);
    }
  }
}

harnesses! {
  cx_log_up { log(&[|i, _| i], 0, 1) }
  cx_log_down { log(&[|i, n| n - 1 - i], 0, 1) }
  cx_log_both { log(&[|i, _| i, |i, n| n - 1 - i], 100, 1) }
  cx_log_again { log(&[|i, n| i * 17 % n, |i, n| n - 1 - i * 5 % n], 700, 2) }
  cx_blk_420 { block(ChromaSampling::Cs420) }
  cx_blk_422 { block(ChromaSampling::Cs422) }
  cx_blk_444 { block(ChromaSampling::Cs444) }
  cx_blk_400 { block(ChromaSampling::Cs400) }
  cx_reset { reset() }
  cx_start0 { start(0..=20, 0) }
  cx_start1 { start(21..=60, 21) }
  cx_start2 { start(61..=120, 61) }
  cx_start3 { start(121..=255, 121) }
  cx_differ { differ() }
}
