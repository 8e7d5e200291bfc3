//! Coefficient tokens: what the encoder codes for a transform block is what a
//! decoder (the specification's coeffs(), 5.11.39, with the distributions of
//! 8.3.2) reads back.
use crate::nd;
use rav1e::prelude::*;
use rav1e::verif::ctx::*;
use rav1e::verif::ec::*;
use rav1e::verif::part::*;
use rav1e::verif::tx::{TxSize, TxType};
use rav1e::verif::util::Coefficient;

/// a token: distribution (offset in the context, length), or a kind without
const BIT: (usize, usize) = (usize::MAX, 0);
const GOLOMB: (usize, usize) = (usize::MAX, 1);
struct Rec {
  log: Vec<((usize, usize), u32)>,
}
impl Writer for Rec {
  fn symbol<const N: usize>(&mut self, _: u32, _: &[u16; N]) {
    unreachable!()
  }
  fn symbol_bits(&self, _: u32, _: &[u16]) -> u32 {
    unreachable!()
  }
  fn symbol_with_update<const N: usize>(&mut self, s: u32, cdf: CDFOffset<N>, _: &mut CDFContextLog, _: &mut CDFContext) {
    // its only content is the offset
    let o: usize = unsafe { std::mem::transmute_copy(&cdf) };
    self.log.push(((o, N), s));
  }
  fn bool(&mut self, _: bool, _: u16) {
    unreachable!()
  }
  fn bit(&mut self, b: u16) {
    self.log.push((BIT, b as u32));
  }
  fn literal(&mut self, bits: u8, s: u32) {
    for i in (0..bits).rev() {
      self.log.push((BIT, s >> i & 1));
    }
  }
  fn write_golomb(&mut self, level: u32) {
    self.log.push((GOLOMB, level));
  }
  fn write_quniform(&mut self, _: u32, _: u32) {
    unreachable!()
  }
  fn count_quniform(&self, _: u32, _: u32) -> u32 {
    unreachable!()
  }
  fn write_subexp(&mut self, _: u32, _: u8, _: u32) {
    unreachable!()
  }
  fn count_subexp(&self, _: u32, _: u8, _: u32) -> u32 {
    unreachable!()
  }
  fn write_unsigned_subexp_with_ref(&mut self, _: u32, _: u32, _: u8, _: u32) {
    unreachable!()
  }
  fn count_unsigned_subexp_with_ref(&self, _: u32, _: u32, _: u8, _: u32) -> u32 {
    unreachable!()
  }
  fn write_signed_subexp_with_ref(&mut self, _: i32, _: i32, _: i32, _: u8, _: i32) {
    unreachable!()
  }
  fn count_signed_subexp_with_ref(&self, _: i32, _: i32, _: i32, _: u8, _: i32) -> u32 {
    unreachable!()
  }
  fn tell(&mut self) -> u32 {
    unreachable!()
  }
  fn tell_frac(&mut self) -> u32 {
    unreachable!()
  }
  fn checkpoint(&mut self) -> WriterCheckpoint {
    unreachable!()
  }
  fn rollback(&mut self, _: &WriterCheckpoint) {
    unreachable!()
  }
  fn add_bits_frac(&mut self, _: u32) {
    unreachable!()
  }
}

/// where an array of distributions of a context is
struct Tab {
  off: usize,
  n: usize,
}
trait Shape {
  const N: usize;
}
impl<const N: usize> Shape for [u16; N] {
  const N: usize = N;
}
fn tab<T: Shape, const M: usize>(fc: &CDFContext, a: &[T; M]) -> Tab {
  Tab { off: a.as_ptr() as usize - fc as *const _ as usize, n: T::N }
}
impl Tab {
  fn at(&self, i: usize) -> (usize, usize) {
    (self.off + i * self.n * 2, self.n)
  }
}

struct Reader {
  log: Vec<((usize, usize), u32)>,
  at: usize,
}
impl Reader {
  fn sym(&mut self, d: (usize, usize)) -> u32 {
    assert!(self.at < self.log.len(), "a token is missing");
    let (k, s) = self.log[self.at];
    self.at += 1;
    assert!(k.1 == d.1, "another kind of token");
    assert!(k.0 == d.0, "another distribution");
    assert!(d.1 < 2 || s < d.1 as u32, "no such symbol");
    s
  }
  fn bit(&mut self) -> u32 {
    let s = self.sym(BIT);
    assert!(s < 2);
    s
  }
}

#[derive(Clone, Copy, PartialEq)]
enum Class {
  D2,
  H,
  V,
}
fn class(t: TxType) -> Class {
  use TxType::*;
  match t {
    V_DCT | V_ADST | V_FLIPADST => Class::V,
    H_DCT | H_ADST | H_FLIPADST => Class::H,
    _ => Class::D2,
  }
}

/// get_scan: positions (row * width + column) in coding order
fn scan(w: usize, h: usize, c: Class) -> Vec<usize> {
  let mut v = vec![];
  match c {
    Class::V => v.extend(0..w * h),
    Class::H => v.extend((0..w * h).map(|i| i % h * w + i / h)),
    Class::D2 => {
      for d in 0..w + h - 1 {
        let mut rows: Vec<usize> = (0..h).filter(|&r| r <= d && d - r < w).collect();
        if w > h || w == h && d % 2 == 0 {
          rows.reverse();
        }
        v.extend(rows.into_iter().map(|r| r * w + d - r));
      }
    }
  }
  v
}

fn log2(x: usize) -> usize {
  x.trailing_zeros() as usize
}

#[derive(Clone, Copy)]
struct Blk {
  tx: TxSize,
  ty: TxType,
  bsize: BlockSize,
  plane: usize,
  mode: PredictionMode,
  reduced: bool,
  dec: (usize, usize),
  bo: (usize, usize),
  /// samples of the block that lie in the frame, as far as they exceed 4
  clip: (usize, usize),
}

/// transform_type(), 5.11.47
fn tx_type(r: &mut Reader, fc: &CDFContext, b: &Blk) -> TxType {
  use TxType::*;
  let (w, h) = (b.tx.width(), b.tx.height());
  let (sqr, up) = (log2(w.min(h)) - 2, log2(w.max(h)) - 2);
  let inter = b.mode >= PredictionMode::NEARESTMV;
  if up > 3 || !inter && up == 3 {
    return DCT_DCT;
  }
  let m = b.mode as usize;
  if inter {
    if b.reduced || up == 3 {
      [IDTX, DCT_DCT][r.sym(tab(fc, &fc.inter_tx_3_cdf).at(sqr)) as usize]
    } else if sqr == 2 {
      [IDTX, V_DCT, H_DCT, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST]
        [r.sym(tab(fc, &fc.inter_tx_2_cdf).at(sqr)) as usize]
    } else {
      [IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST]
        [r.sym(tab(fc, &fc.inter_tx_1_cdf).at(sqr)) as usize]
    }
  } else if b.reduced || sqr == 2 {
    [IDTX, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST][r.sym(tab(fc, &fc.intra_tx_2_cdf[sqr]).at(m)) as usize]
  } else {
    [IDTX, DCT_DCT, V_DCT, H_DCT, ADST_ADST, ADST_DCT, DCT_ADST][r.sym(tab(fc, &fc.intra_tx_1_cdf[sqr]).at(m)) as usize]
  }
}

const MI: usize = 16;
/// what a value of a coefficient is chosen from
#[derive(Clone, Copy)]
enum V {
  Zero,
  /// absolute value in a range, either sign
  In(u64, u64),
}
const CLASSES: [V; 7] = [V::In(1, 2), V::In(3, 5), V::Zero, V::In(6, 8), V::In(15, 32767), V::In(9, 11), V::In(12, 14)];

fn block<T: Coefficient>(b: Blk, eob: usize, val: &dyn Fn(usize) -> V) {
  nd::merge(true);
  let mut fc = Box::new(CDFContext::new(100));
  let mut fb = FrameBlocks::new(MI * 2, MI * 2);
  let mut tb = fb.as_tile_blocks_mut();
  let mut bc = BlockContext::new(&mut tb);
  let p = b.plane;
  let (x4, y4) = (b.bo.0 >> b.dec.0, (b.bo.1 & 15) >> b.dec.1);
  let (w4, h4) = (b.tx.width() / 4, b.tx.height() / 4);
  let mut above = [(0u32, 0u32); 16];
  let mut left = [(0u32, 0u32); 16];
  // contexts as other blocks left them
  let mut free = || {
    let (l, d) = (nd::range(0, 63) as u8, nd::range(0, 2) as u8);
    (l | d << 6, (l as u32, d as u32))
  };
  for i in 0..w4 {
    let (v, c) = free();
    bc.above_coeff_context[p][x4 + i] = v;
    above[i] = c;
  }
  for i in 0..h4 {
    let (v, c) = free();
    bc.left_coeff_context[p][y4 + i] = v;
    left[i] = c;
  }
  // coefficients, stored column by column
  let (w, h) = (b.tx.width().min(32), b.tx.height().min(32));
  let cl = class(b.ty);
  let sc = scan(w, h, cl);
  let mut coeffs = vec![T::cast_from(0); w * h];
  let mut want = vec![0i32; eob];
  for (c, x) in want.iter_mut().enumerate() {
    let a = match val(c) {
      V::Zero if c + 1 < eob => 0,
      V::Zero => 1,
      V::In(lo, hi) => nd::range(lo, hi) as i32,
    };
    let s = nd::range(0, 1) as i32;
    *x = (a ^ -s) + s;
    coeffs[sc[c] % w * h + sc[c] / w] = T::cast_from(*x);
  }
  let mut cw = ContextWriter::new(&mut fc, bc);
  let mut rec = Rec { log: vec![] };
  let clip = (b.clip.0.min(w4 * 4), b.clip.1.min(h4 * 4));
  let coded = cw.write_coeffs_lv_map(
    &mut rec,
    p,
    TileBlockOffset(BlockOffset { x: b.bo.0, y: b.bo.1 }),
    &coeffs,
    eob as u16,
    b.mode,
    b.tx,
    b.ty,
    b.bsize,
    b.dec.0,
    b.dec.1,
    b.reduced,
    clip.0,
    clip.1,
  );
  assert!(coded == (eob != 0));

  // the decoder
  let fc = &*cw.fc;
  let mut r = Reader { log: rec.log, at: 0 };
  let ptype = usize::from(p > 0);
  let (mut top, mut lft, mut any_a, mut any_l, mut sign) = (0u32, 0u32, 0u32, 0u32, 0i32);
  for i in 0..clip.0 / 4 {
    top = top.max(above[i].0);
    any_a |= above[i].0 | above[i].1;
    sign += (above[i].1 == 2) as i32 - (above[i].1 == 1) as i32;
  }
  for i in 0..clip.1 / 4 {
    lft = lft.max(left[i].0);
    any_l |= left[i].0 | left[i].1;
    sign += (left[i].1 == 2) as i32 - (left[i].1 == 1) as i32;
  }
  let (bw, bh) = (b.bsize.width(), b.bsize.height());
  let (tw, th) = (b.tx.width(), b.tx.height());
  let skip = if p == 0 {
    let (mx, mn) = (top.max(lft), top.min(lft));
    let big = (mx > 3) as usize;
    if bw == tw && bh == th {
      0
    } else {
      let one = 2 + big; // at most one side is nonzero
      let two = 4 + big + (mn > 3) as usize;
      sel(mx == 0, 1, sel(mn == 0, one, two))
    }
  } else {
    (any_a != 0) as usize + (any_l != 0) as usize + 7 + if bw * bh > tw * th { 3 } else { 0 }
  };
  let (sqr, up) = (log2(tw.min(th)) - 2, log2(tw.max(th)) - 2);
  let sz = (sqr + up + 1) >> 1;
  let all_zero = r.sym(tab(fc, &fc.txb_skip_cdf[sz]).at(skip));
  let mut quant = vec![0u32; w * h];
  let (mut cul, mut dc) = (0u32, 0u32);
  if all_zero == 0 {
    if p == 0 {
      let t = tx_type(&mut r, fc, &b);
      assert!(t == b.ty, "another transform type");
    }
    let c1 = usize::from(cl != Class::D2);
    let pt = 1 + match log2(w) + log2(h) - 4 {
      0 => r.sym(tab(fc, &fc.eob_flag_cdf16[ptype]).at(c1)),
      1 => r.sym(tab(fc, &fc.eob_flag_cdf32[ptype]).at(c1)),
      2 => r.sym(tab(fc, &fc.eob_flag_cdf64[ptype]).at(c1)),
      3 => r.sym(tab(fc, &fc.eob_flag_cdf128[ptype]).at(c1)),
      4 => r.sym(tab(fc, &fc.eob_flag_cdf256[ptype]).at(c1)),
      5 => r.sym(tab(fc, &fc.eob_flag_cdf512[ptype]).at(0)),
      _ => r.sym(tab(fc, &fc.eob_flag_cdf1024[ptype]).at(0)),
    } as usize;
    let mut n = if pt < 2 { pt } else { (1 << (pt - 2)) + 1 };
    if pt >= 3 {
      n += (r.sym(tab(fc, &fc.eob_extra_cdf[sz][ptype]).at(pt - 3)) as usize) << (pt - 3);
      for i in 1..pt - 2 {
        n += (r.bit() as usize) << (pt - 3 - i);
      }
    }
    assert!(n == eob, "another number of coefficients");
    let base_eob = tab(fc, &fc.coeff_base_eob_cdf[sz][ptype]);
    let base = tab(fc, &fc.coeff_base_cdf[sz][ptype]);
    let br = tab(fc, &fc.coeff_br_cdf[sz.min(3)][ptype]);
    for c in (0..n).rev() {
      let pos = sc[c];
      let (row, col) = (pos / w, pos % w);
      let at = |q: &[u32], dr: usize, dc: usize, cap: u32| if row + dr < h && col + dc < w { q[(row + dr) * w + col + dc].min(cap) } else { 0 };
      let mut level = if c == n - 1 {
        let k = if c == 0 {
          0
        } else if c <= w * h / 8 {
          1
        } else if c <= w * h / 4 {
          2
        } else {
          3
        };
        r.sym(base_eob.at(k)) + 1
      } else {
        let nb: [(usize, usize); 5] = match cl {
          Class::D2 => [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)],
          Class::H => [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)],
          Class::V => [(1, 0), (0, 1), (2, 0), (3, 0), (4, 0)],
        };
        let mag: u32 = nb.iter().map(|&(a, b)| at(&quant, a, b, 3)).sum();
        let m = ((mag + 1) >> 1).min(4) as usize;
        let k = match cl {
          Class::D2 if pos == 0 => 0,
          Class::D2 if tw < th => m + if row < 2 { 11 } else if row + col < 4 { 6 } else { 21 },
          Class::D2 if tw > th => m + if col < 2 { 16 } else if row + col < 4 { 6 } else { 21 },
          Class::D2 => m + if row + col < 2 { 1 } else if row + col < 4 { 6 } else { 21 },
          Class::H => m + [26, 31, 36][col.min(2)],
          Class::V => m + [26, 31, 36][row.min(2)],
        };
        r.sym(base.at(k))
      };
      if level > 2 {
        let nb: [(usize, usize); 3] = match cl {
          Class::D2 => [(0, 1), (1, 0), (1, 1)],
          Class::H => [(0, 1), (1, 0), (0, 2)],
          Class::V => [(0, 1), (1, 0), (2, 0)],
        };
        let mag: u32 = nb.iter().map(|&(a, b)| at(&quant, a, b, 15)).sum();
        let m = ((mag + 1) >> 1).min(6) as usize;
        let k = m
          + match cl {
            _ if pos == 0 => 0,
            Class::D2 if row < 2 && col < 2 => 7,
            Class::H if col == 0 => 7,
            Class::V if row == 0 => 7,
            _ => 14,
          };
        for _ in 0..4 {
          let s = r.sym(br.at(k));
          level += s;
          if s < 3 {
            break;
          }
        }
      }
      quant[pos] = level;
    }
    let dcs = tab(fc, &fc.dc_sign_cdf[ptype]);
    let sctx = sel(sign < 0, 1, sel(sign > 0, 2, 0));
    for c in 0..n {
      let mut q = quant[sc[c]];
      if q != 0 {
        let s = if c == 0 { r.sym(dcs.at(sctx)) } else { r.bit() };
        if q > 14 {
          let g = r.sym(GOLOMB);
          assert!(g < (1 << 20) - 15, "coefficient too large");
          q = g + 15;
        }
        if c == 0 {
          dc = 2 - s;
        }
        cul += q;
        let v = (q as i32 ^ -(s as i32)) + s as i32;
        assert!(v == want[c], "another coefficient");
      } else {
        assert!(want[c] == 0, "a coefficient is lost");
      }
    }
    cul = cul.min(63);
  } else {
    assert!(eob == 0, "coefficients lost");
  }
  assert!(r.at == r.log.len(), "tokens left over");
  for i in 0..w4 {
    assert!(cw.bc.above_coeff_context[p][x4 + i] as u32 == cul | dc << 6, "context above");
  }
  for i in 0..h4 {
    assert!(cw.bc.left_coeff_context[p][y4 + i] as u32 == cul | dc << 6, "context to the left");
  }
}
fn sel(c: bool, a: usize, b: usize) -> usize {
  let m = (c as usize).wrapping_neg();
  a & m | b & !m
}

/// one of several cases: a path for each
fn one(n: usize) -> usize {
  nd::concretize(nd::range(0, n as u64 - 1)) as usize
}

const LUMA: Blk = Blk {
  tx: TxSize::TX_4X4,
  ty: TxType::DCT_DCT,
  bsize: BlockSize::BLOCK_64X64,
  plane: 0,
  mode: PredictionMode::DC_PRED,
  reduced: false,
  dec: (0, 0),
  bo: (0, 0),
  clip: (64, 64),
};

/// Sizes and classes, patterns of magnitudes.
fn sizes(tx: TxSize, hbd: bool, part: usize) {
  use PredictionMode::*;
  use TxType::*;
  let (w, h) = (tx.width(), tx.height());
  let up = w.max(h);
  let area = w.min(32) * h.min(32);
  let types: &[TxType] = if up > 32 { &[DCT_DCT] } else if up > 16 { &[DCT_DCT, IDTX] } else { &[DCT_DCT, V_DCT, H_DCT, IDTX] };
  let mut jobs = vec![];
  for (k, &ty) in types.iter().enumerate() {
    for (j, e) in [0, 1, 2, 3, 7, area / 8 + 1, area / 4 + 1, area / 4 + 2, area].into_iter().enumerate() {
      // long ones once
      if k != part || e > area {
        continue;
      }
      jobs.push((k * 9 + j, ty, e));
    }
  }
  let big = if hbd { (1 << 20) - 1 } else { 32767 };
  let (i, ty, e) = jobs[one(jobs.len())];
      let b = Blk { tx, ty, mode: NEARESTMV, bo: (i % 3 * 16 % 32, 0), bsize: if i % 2 == 0 { tx.block_size() } else { BlockSize::BLOCK_64X64 }, ..LUMA };
      let val = |c: usize| match if e > 8 && e - 1 - c > 2 && (e - 1 - c) % (e / 6) != 0 && c > 0 { V::Zero } else { CLASSES[(c * (1 + i % 3) + i) % 7] } {
        V::In(15, _) => V::In(15, big),
        v => v,
      };
      if hbd {
        block::<i32>(b, e, &val)
      } else {
        block::<i16>(b, e, &val)
      }
}

/// Any coefficients at all, few of them.
fn small(tx: TxSize, ty: TxType, eob: usize) {
  block::<i32>(Blk { tx, ty, mode: PredictionMode::NEARESTMV, ..LUMA }, eob, &|c| V::In((c + 1 == eob) as u64, (1 << 20) - 1))
}

/// Chroma planes; blocks that reach over the edge of the frame.
fn edges(plane: usize) {
  let pick = (one(9), if plane > 0 { one(3) } else { 0 });
  use BlockSize::*;
  use TxSize::*;
  for (i, (tx, bsize, clip)) in [
    (TX_4X4, BLOCK_4X4, (4, 4)),
    (TX_8X8, BLOCK_8X8, (4, 8)),
    (TX_8X8, BLOCK_16X16, (8, 4)),
    (TX_16X16, BLOCK_32X32, (12, 4)),
    (TX_16X8, BLOCK_16X8, (8, 8)),
    (TX_8X16, BLOCK_16X16, (8, 12)),
    (TX_32X32, BLOCK_32X32, (20, 28)),
    (TX_64X64, BLOCK_64X64, (36, 60)),
    (TX_64X32, BLOCK_64X64, (64, 8)),
  ]
  .into_iter()
  .enumerate()
  {
    if i != pick.0 {
      continue;
    }
    for (j, dec) in [(0, 0), (1, 0), (1, 1)].into_iter().enumerate() {
      if j != pick.1 {
        continue;
      }
      let b = Blk { tx, bsize, plane, dec, clip, bo: (16 >> (i % 2) * 4 << dec.0 & 31, i % 3 / 2 * 16), mode: PredictionMode::NEARESTMV, ..LUMA };
      block::<i16>(b, i % 4, &|c| CLASSES[(c + i) % 7]);
    }
  }
}

/// Every transform type that a block may use, for every mode.
fn types(tx: TxSize, inter: bool) {
  use PredictionMode::*;
  use TxType::*;
  const ALL: [TxType; 16] = [
    IDTX, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST, V_DCT, H_DCT, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST,
  ];
  let (w, h) = (tx.width(), tx.height());
  let (mn, up) = (w.min(h), w.max(h));
  let mut jobs = vec![];
  for reduced in [false, true] {
    let n = if up == 64 || !inter && up == 32 {
      0
    } else if inter {
      if reduced || up == 32 { 2 } else if mn == 16 { 12 } else { 16 }
    } else if reduced || mn == 16 {
      5
    } else {
      7
    };
    let modes: &[PredictionMode] = if inter {
      &[NEARESTMV, GLOBALMV, NEW_NEWMV]
    } else {
      &[DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED]
    };
    let set: &[TxType] = if n == 0 { &[DCT_DCT] } else { &ALL[..n] };
    for &ty in set {
      for &mode in modes {
        jobs.push(Blk { tx, ty, mode, reduced, ..LUMA });
      }
    }
  }
  block::<i16>(jobs[one(jobs.len())], 1, &|_| V::In(1, 2));
}

harnesses! {
  tk_4x4_2 { sizes(TxSize::TX_4X4, false, 0) }
  tk_4x4_v { sizes(TxSize::TX_4X4, true, 1) }
  tk_4x4_h { sizes(TxSize::TX_4X4, false, 2) }
  tk_4x4_i { sizes(TxSize::TX_4X4, true, 3) }
  tk_4x8_2 { sizes(TxSize::TX_4X8, true, 0) }
  tk_4x8_v { sizes(TxSize::TX_4X8, false, 1) }
  tk_4x8_h { sizes(TxSize::TX_4X8, true, 2) }
  tk_4x8_i { sizes(TxSize::TX_4X8, false, 3) }
  tk_4x16_2 { sizes(TxSize::TX_4X16, true, 0) }
  tk_4x16_v { sizes(TxSize::TX_4X16, false, 1) }
  tk_4x16_h { sizes(TxSize::TX_4X16, true, 2) }
  tk_4x16_i { sizes(TxSize::TX_4X16, false, 3) }
  tk_8x4_2 { sizes(TxSize::TX_8X4, true, 0) }
  tk_8x4_v { sizes(TxSize::TX_8X4, false, 1) }
  tk_8x4_h { sizes(TxSize::TX_8X4, true, 2) }
  tk_8x4_i { sizes(TxSize::TX_8X4, false, 3) }
  tk_8x8_2 { sizes(TxSize::TX_8X8, false, 0) }
  tk_8x8_v { sizes(TxSize::TX_8X8, true, 1) }
  tk_8x8_h { sizes(TxSize::TX_8X8, false, 2) }
  tk_8x8_i { sizes(TxSize::TX_8X8, true, 3) }
  tk_8x16_2 { sizes(TxSize::TX_8X16, false, 0) }
  tk_8x16_v { sizes(TxSize::TX_8X16, true, 1) }
  tk_8x16_h { sizes(TxSize::TX_8X16, false, 2) }
  tk_8x16_i { sizes(TxSize::TX_8X16, true, 3) }
  tk_8x32_2 { sizes(TxSize::TX_8X32, false, 0) }
  tk_8x32_i { sizes(TxSize::TX_8X32, true, 1) }
  tk_16x4_2 { sizes(TxSize::TX_16X4, true, 0) }
  tk_16x4_v { sizes(TxSize::TX_16X4, false, 1) }
  tk_16x4_h { sizes(TxSize::TX_16X4, true, 2) }
  tk_16x4_i { sizes(TxSize::TX_16X4, false, 3) }
  tk_16x8_2 { sizes(TxSize::TX_16X8, false, 0) }
  tk_16x8_v { sizes(TxSize::TX_16X8, true, 1) }
  tk_16x8_h { sizes(TxSize::TX_16X8, false, 2) }
  tk_16x8_i { sizes(TxSize::TX_16X8, true, 3) }
  tk_16x16_2 { sizes(TxSize::TX_16X16, false, 0) }
  tk_16x16_v { sizes(TxSize::TX_16X16, true, 1) }
  tk_16x16_h { sizes(TxSize::TX_16X16, false, 2) }
  tk_16x16_i { sizes(TxSize::TX_16X16, true, 3) }
  tk_16x32_2 { sizes(TxSize::TX_16X32, false, 0) }
  tk_16x32_i { sizes(TxSize::TX_16X32, true, 1) }
  tk_16x64_2 { sizes(TxSize::TX_16X64, false, 0) }
  tk_32x8_2 { sizes(TxSize::TX_32X8, false, 0) }
  tk_32x8_i { sizes(TxSize::TX_32X8, true, 1) }
  tk_32x16_2 { sizes(TxSize::TX_32X16, false, 0) }
  tk_32x16_i { sizes(TxSize::TX_32X16, true, 1) }
  tk_32x32_2 { sizes(TxSize::TX_32X32, false, 0) }
  tk_32x32_i { sizes(TxSize::TX_32X32, true, 1) }
  tk_32x64_2 { sizes(TxSize::TX_32X64, false, 0) }
  tk_64x16_2 { sizes(TxSize::TX_64X16, false, 0) }
  tk_64x32_2 { sizes(TxSize::TX_64X32, false, 0) }
  tk_64x64_2 { sizes(TxSize::TX_64X64, false, 0) }
  tk_any_2d { small(TxSize::TX_4X4, TxType::ADST_DCT, 2) }
  tk_any_v { small(TxSize::TX_8X8, TxType::V_DCT, 2) }
  tk_any_h { small(TxSize::TX_4X8, TxType::H_DCT, 2) }
  tk_edge_y { edges(0) }
  tk_edge_u { edges(1) }
  tk_edge_v { edges(2) }
  tk_ty_t4 { types(TxSize::TX_4X4, false) }
  tk_ty_t4i { types(TxSize::TX_4X4, true) }
  tk_ty_t8 { types(TxSize::TX_8X8, false) }
  tk_ty_t8i { types(TxSize::TX_8X8, true) }
  tk_ty_t16 { types(TxSize::TX_16X16, false) }
  tk_ty_t16i { types(TxSize::TX_16X16, true) }
  tk_ty_r16x8 { types(TxSize::TX_16X8, false) }
  tk_ty_r4x16 { types(TxSize::TX_4X16, true) }
  tk_ty_t32 { types(TxSize::TX_32X32, false) }
  tk_ty_t32i { types(TxSize::TX_32X16, true) }
  tk_ty_r8x32 { types(TxSize::TX_8X32, true) }
  tk_ty_t64 { types(TxSize::TX_64X64, true) }
}
