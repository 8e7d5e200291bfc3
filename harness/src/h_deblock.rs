//! The deblocking filter against the specification's, over free samples.
use crate::nd;
use crate::spec::deblock as sp;
use rav1e::prelude::*;
use rav1e::verif::ctx::*;
use rav1e::verif::deblock::*;
use rav1e::verif::enc::*;
use rav1e::verif::frame::*;
use rav1e::verif::part::*;
use rav1e::verif::pred::PredictionMode;
use rav1e::verif::tiling::*;
use rav1e::verif::tx::TxSize;
use rav1e::verif::util::*;
use std::sync::Arc;

/// (side of the partitioned area, partitions of it as (x, y, block, luma tx))
type Layout = (usize, &'static [(usize, usize, BlockSize, TxSize)]);

fn cs_dec(cs: ChromaSampling) -> (usize, usize) {
  match cs {
    ChromaSampling::Cs444 => (0, 0),
    ChromaSampling::Cs422 => (1, 0),
    _ => (1, 1),
  }
}
/// chroma transform: the largest that fits the block's chroma, at most 32 a
/// side unless the block has no smaller one
fn chroma(b: BlockSize, sx: usize, sy: usize) -> (usize, usize) {
  let (w, h) = ((b.width() >> sx).max(4), (b.height() >> sy).max(4));
  (w.min(64).min(32), h.min(64).min(32))
}

struct Cfg {
  levels: [u8; 4],
  deltas: Option<([i8; 8], [i8; 2])>,
  block: Option<(u8, bool)>,
}
const fn lv(levels: [u8; 4]) -> Cfg {
  Cfg { levels, deltas: None, block: None }
}

/// Deblocks the planes `pls` of a picture of `layouts`, all samples for which
/// `free` says so being free.
fn picture<T: Pixel>(bd: usize, fw: usize, fh: usize, cs: ChromaSampling, layouts: &[Layout], q: &Cfg, pls: &[usize], free: &dyn Fn(usize, usize) -> bool) {
  nd::merge_lazy();
  let mut c = EncoderConfig::default();
  c.width = fw;
  c.height = fh;
  c.bit_depth = bd;
  c.chroma_sampling = cs;
  let seq = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<T>::new(Arc::new(c), seq);
  fi.coded_frame_data = None;
  let mut fs = FrameState::new(&fi);
  let (sx, sy) = cs_dec(cs);
  let (cols, rows) = (fi.w_in_b, fi.h_in_b);
  let mut fb = FrameBlocks::new(cols, rows);
  let zero = sp::Unit { bw: 4, bh: 4, tx: [(4, 4); 2], skip: false, rf: 0, mt: 0, dlf: [0; 4] };
  let mut units = vec![zero; cols * rows];
  const MODES: [(PredictionMode, usize, usize); 8] = [
    (PredictionMode::NEWMV, 1, 1),
    (PredictionMode::DC_PRED, 0, 0),
    (PredictionMode::GLOBALMV, 4, 0),
    (PredictionMode::NEARESTMV, 7, 1),
    (PredictionMode::GLOBAL_GLOBALMV, 2, 0),
    (PredictionMode::NEW_NEWMV, 3, 1),
    (PredictionMode::PAETH_PRED, 0, 0),
    (PredictionMode::NEAR1MV, 5, 1),
  ];
  let refs = [RefType::INTRA_FRAME, RefType::LAST_FRAME, RefType::LAST2_FRAME, RefType::LAST3_FRAME, RefType::GOLDEN_FRAME, RefType::BWDREF_FRAME, RefType::ALTREF2_FRAME, RefType::ALTREF_FRAME];
  let side = layouts[0].0;
  let mut n = 0usize;
  for ay in (0..fh).step_by(side) {
    for ax in (0..fw).step_by(side) {
      let l = &layouts[(ax / side + ay / side) % layouts.len()];
      for &(x, y, b, tx) in l.1 {
        let (bx, by) = ((ax + x) / 4, (ay + y) / 4);
        let (mode, rf, mt) = MODES[(n * 5 + n / 3) % 8];
        let skip = n % 3 != 1;
        let k = n as i8;
        let dlf = [k % 5 * 9 - 18, 20 - k % 7 * 8, k % 3 * 30 - 30, k % 4 * 16 - 24];
        n += 1;
        for r in by..(by + b.height_mi()).min(rows) {
          for c in bx..(bx + b.width_mi()).min(cols) {
            let d = &mut fb[r][c];
            d.mode = mode;
            d.skip = skip;
            d.ref_frames = [refs[rf], RefType::NONE_FRAME];
            d.bsize = b;
            d.n4_w = b.width_mi() as u8;
            d.n4_h = b.height_mi() as u8;
            d.txsize = tx;
            d.deblock_deltas = dlf;
            units[r * cols + c] = sp::Unit { bw: b.width(), bh: b.height(), tx: [(tx.width(), tx.height()), chroma(b, sx, sy)], skip, rf, mt, dlf };
          }
        }
      }
    }
  }
  let mut db = DeblockState { levels: q.levels, ..Default::default() };
  let mut qs = sp::Params { level: q.levels, deltas: false, ref_deltas: [0; 8], mode_deltas: [0; 2], block: q.block };
  if let Some((r, m)) = q.deltas {
    db.deltas_enabled = true;
    db.ref_deltas = r;
    db.mode_deltas = m;
    qs.deltas = true;
    qs.ref_deltas = r;
    qs.mode_deltas = m;
  }
  if let Some((s, m)) = q.block {
    db.block_deltas_enabled = true;
    db.block_delta_shift = s;
    db.block_delta_multi = m;
  }
  let r = Arc::make_mut(&mut fs.rec);
  let mut want = vec![];
  for &k in pls {
    let p = &mut r.planes[k];
    let (w, h, s, ox, oy) = (p.cfg.width, p.cfg.height, p.cfg.stride, p.cfg.xorigin, p.cfg.yorigin);
    // blocks reach past the picture's sides to whole units of 8 luma samples
    let (w8, h8) = ((cols * 4) >> sx.min(k), (rows * 4) >> sy.min(k));
    let mut pv = vec![vec![0i32; w8]; h8];
    for y in 0..h8 {
      for x in 0..w8 {
        let t = if free(y, x) && y < h && x < w {
          nd::i32_in(0, (1 << bd) - 1)
        } else {
          let g = (x / 4 * 3 + y / 4 * 5) % 7 * 2 + (x * 3 + y * 7) % 11 / 9 + if (x / 16 + y / 16) % 2 == 0 { 30 } else { 25 };
          (g << (bd - 8)) as i32
        };
        pv[y][x] = t;
        p.data[(y + oy) * s + x + ox] = T::cast_from(t);
      }
    }
    want.push(pv);
  }
  {
    let tb = fb.as_tile_blocks();
    let PlaneConfig { width, height, .. } = r.planes[0].cfg;
    let mut t = TileMut::new(r, TileRect { x: 0, y: 0, width, height });
    for &k in pls {
      deblock_plane(&db, &mut t.planes[k], k, &tb, fw, fh, bd);
    }
  }
  for (i, &k) in pls.iter().enumerate() {
    let (px, py) = if k == 0 { (0, 0) } else { (sx, sy) };
    sp::plane(&mut want[i], &|r, c| units[r * cols + c], &qs, k, px, py, fw, fh, bd);
    let p = &r.planes[k];
    for y in 0..p.cfg.height {
      for x in 0..p.cfg.width {
        let g: i32 = p.p(x, y).into();
        assert!(g == want[i][y][x], "deblocked picture differs from the specification's");
      }
    }
  }
}
use BlockSize::*;
use TxSize::*;
const E4: Layout = (8, &[(0, 0, BLOCK_8X8, TX_4X4)]);
const E8: Layout = (8, &[(0, 0, BLOCK_8X8, TX_8X8)]);
const E16: Layout = (16, &[(0, 0, BLOCK_16X16, TX_16X16)]);
/// all block shapes up to 16x16
const MIX: Layout = (32, &[
  (0, 0, BLOCK_16X16, TX_8X8),
  (16, 0, BLOCK_8X16, TX_8X16),
  (24, 0, BLOCK_8X16, TX_4X8),
  (0, 16, BLOCK_16X8, TX_16X8),
  (0, 24, BLOCK_16X8, TX_8X4),
  (16, 16, BLOCK_8X8, TX_8X8),
  (24, 16, BLOCK_4X8, TX_4X8),
  (28, 16, BLOCK_4X8, TX_4X4),
  (16, 24, BLOCK_8X4, TX_8X4),
  (16, 28, BLOCK_8X4, TX_4X4),
  (24, 24, BLOCK_4X4, TX_4X4),
  (28, 24, BLOCK_4X4, TX_4X4),
  (24, 28, BLOCK_4X4, TX_4X4),
  (28, 28, BLOCK_4X4, TX_4X4),
]);
/// ... with no block below 8x8 (their chroma shares one block)
const MIX8: Layout = (32, &[
  (0, 0, BLOCK_8X8, TX_8X8),
  (8, 0, BLOCK_8X8, TX_4X4),
  (0, 8, BLOCK_8X8, TX_4X4),
  (8, 8, BLOCK_8X8, TX_8X8),
  (16, 0, BLOCK_16X8, TX_8X8),
  (16, 8, BLOCK_16X8, TX_16X8),
  (0, 16, BLOCK_16X16, TX_16X16),
  (16, 16, BLOCK_16X16, TX_4X4),
]);
const BIG: Layout = (64, &[
  (0, 0, BLOCK_32X32, TX_32X32),
  (32, 0, BLOCK_16X32, TX_16X32),
  (48, 0, BLOCK_16X32, TX_16X16),
  (0, 32, BLOCK_32X16, TX_32X16),
  (0, 48, BLOCK_32X16, TX_16X8),
  (32, 32, BLOCK_32X32, TX_16X16),
]);
const HUGE: Layout = (64, &[(0, 0, BLOCK_64X64, TX_64X64)]);
const HALF: Layout = (64, &[(0, 0, BLOCK_64X32, TX_64X32), (0, 32, BLOCK_64X32, TX_32X32)]);
const LONG: Layout = (64, &[
  (0, 0, BLOCK_64X16, TX_64X16),
  (0, 16, BLOCK_32X8, TX_32X8),
  (32, 16, BLOCK_32X8, TX_16X8),
  (0, 24, BLOCK_32X8, TX_32X8),
  (32, 24, BLOCK_32X8, TX_8X8),
  (0, 32, BLOCK_16X4, TX_16X4),
  (0, 36, BLOCK_16X4, TX_8X4),
  (0, 40, BLOCK_16X4, TX_4X4),
  (0, 44, BLOCK_16X4, TX_16X4),
  (16, 32, BLOCK_16X16, TX_8X8),
  (0, 48, BLOCK_32X16, TX_32X16),
  (32, 32, BLOCK_32X32, TX_32X32),
]);
const TALL: Layout = (64, &[
  (0, 0, BLOCK_16X64, TX_16X64),
  (16, 0, BLOCK_8X32, TX_8X32),
  (24, 0, BLOCK_8X32, TX_8X16),
  (16, 32, BLOCK_4X16, TX_4X16),
  (20, 32, BLOCK_4X16, TX_4X8),
  (24, 32, BLOCK_4X16, TX_4X4),
  (28, 32, BLOCK_4X16, TX_4X16),
  (16, 48, BLOCK_16X16, TX_8X8),
  (32, 0, BLOCK_32X64, TX_32X64),
]);
const ALL: fn(usize, usize) -> bool = |_, _| true;
/// one row of the vertical edge's samples
const ROW: fn(usize, usize) -> bool = |y, _| y == 1;
const COL: fn(usize, usize) -> bool = |_, x| x == 2;
/// rows (vertical edges) or columns (horizontal edges) far apart
const ROWS: fn(usize, usize) -> bool = |y, _| y % 9 == 5;
const COLS: fn(usize, usize) -> bool = |_, x| x % 9 == 6;
const NO: fn(usize, usize) -> bool = |_, _| false;

/// every level of one edge
fn levels<T: Pixel>(bd: usize, w: usize, h: usize, cs: ChromaSampling, l: Layout, k: usize, range: std::ops::RangeInclusive<u8>) {
  for v in range {
    let (a, f) = if w > h { ([v, 0, v, v], ROW) } else { ([0, v, v, v], COL) };
    picture::<T>(bd, w, h, cs, &[l], &lv(a), &[k], &f);
  }
}
const Y: ChromaSampling = ChromaSampling::Cs400;
const C420: ChromaSampling = ChromaSampling::Cs420;
const C422: ChromaSampling = ChromaSampling::Cs422;
const C444: ChromaSampling = ChromaSampling::Cs444;

harnesses! {
  dbk_v4 { levels::<u8>(8, 16, 8, Y, E4, 0, 0..=63) }
  dbk_v8 { levels::<u8>(8, 16, 8, Y, E8, 0, 0..=63) }
  dbk_v16 { levels::<u8>(8, 32, 16, Y, E16, 0, 0..=63) }
  dbk_v6 { levels::<u8>(8, 32, 16, C420, E16, 1, 0..=63) }
  dbk_h4 { levels::<u8>(8, 8, 16, Y, E4, 0, 0..=63) }
  dbk_h8 { levels::<u8>(8, 8, 16, Y, E8, 0, 0..=63) }
  dbk_h16 { levels::<u8>(8, 16, 32, Y, E16, 0, 0..=63) }
  dbk_h6 { levels::<u8>(8, 16, 32, C420, E16, 2, 0..=63) }
  dbk_v4t { levels::<u16>(10, 16, 8, Y, E4, 0, 0..=63) }
  dbk_v8t { levels::<u16>(10, 16, 8, Y, E8, 0, 0..=63) }
  dbk_v16t { levels::<u16>(10, 32, 16, Y, E16, 0, 0..=63) }
  dbk_h6t { levels::<u16>(10, 16, 32, C420, E16, 2, 0..=63) }
  dbk_v4w { levels::<u16>(12, 16, 8, Y, E4, 0, 0..=63) }
  dbk_h8w { levels::<u16>(12, 8, 16, Y, E8, 0, 0..=63) }
  dbk_h16w { levels::<u16>(12, 16, 32, Y, E16, 0, 0..=63) }
  dbk_v6w { levels::<u16>(12, 32, 16, C420, E16, 1, 0..=63) }
  dbk_a8 { picture::<u8>(8, 16, 16, Y, &[E8], &lv([20, 33, 0, 0]), &[0], &ALL) }
  dbk_m0 { picture::<u8>(8, 36, 44, Y, &[MIX], &lv([30, 0, 12, 18]), &[0], &ROWS) }
  dbk_m1 { picture::<u8>(8, 44, 36, Y, &[MIX], &lv([0, 22, 12, 0]), &[0], &COLS) }
  dbk_m2 { picture::<u8>(8, 36, 40, Y, &[MIX8], &lv([0, 30, 0, 18]), &[0], &COLS) }
  dbk_m3 { picture::<u16>(10, 40, 36, Y, &[MIX, MIX8], &lv([17, 0, 63, 1]), &[0], &ROWS) }
  dbk_b0 { picture::<u8>(8, 100, 68, Y, &[BIG], &lv([30, 0, 12, 18]), &[0], &ROWS) }
  dbk_b1 { picture::<u8>(8, 132, 72, Y, &[HUGE, HALF], &lv([0, 22, 12, 18]), &[0], &COLS) }
  dbk_b2 { picture::<u8>(8, 100, 100, Y, &[LONG, TALL], &lv([11, 0, 25, 44]), &[0], &ROWS) }
  dbk_b3 { picture::<u8>(8, 132, 68, Y, &[TALL, HUGE, LONG], &lv([0, 5, 2, 9]), &[0], &COLS) }
  dbk_b4 { picture::<u16>(12, 68, 132, Y, &[HALF, TALL, BIG], &lv([33, 0, 20, 17]), &[0], &ROWS) }
  dbk_d0 { picture::<u8>(8, 68, 36, Y, &[MIX8], &Cfg { levels: [0, 35, 31, 1], deltas: None, block: None }, &[0], &COLS) }
  dbk_d1 { picture::<u8>(8, 68, 36, Y, &[MIX8], &Cfg { levels: [33, 0, 0, 32], deltas: None, block: Some((0, false)) }, &[0], &NO) }
  dbk_d2 { picture::<u8>(8, 68, 36, Y, &[MIX8], &Cfg { levels: [0, 40, 20, 8], deltas: None, block: Some((1, true)) }, &[0], &NO) }
  dbk_d3 { picture::<u8>(8, 36, 68, Y, &[MIX], &Cfg { levels: [32, 0, 0, 0], deltas: None, block: Some((0, true)) }, &[0], &NO) }
  dbk_c0 { picture::<u8>(8, 36, 44, C420, &[MIX], &lv([30, 22, 12, 18]), &[0, 1, 2], &NO) }
  dbk_c1 { picture::<u8>(8, 44, 36, C444, &[MIX], &lv([30, 0, 12, 0]), &[0, 1, 2], &NO) }
  dbk_c2 { picture::<u8>(8, 36, 40, C422, &[MIX8], &lv([0, 30, 0, 18]), &[0, 1, 2], &NO) }
  dbk_c3 { picture::<u8>(8, 132, 72, C422, &[HUGE, HALF], &lv([30, 22, 12, 18]), &[0, 1, 2], &NO) }
  dbk_c4 { picture::<u8>(8, 100, 100, C420, &[LONG, TALL], &lv([11, 38, 25, 44]), &[0, 1, 2], &NO) }
  dbk_c5 { picture::<u8>(8, 132, 68, C444, &[TALL, HUGE, LONG], &lv([60, 5, 2, 9]), &[0, 1, 2], &NO) }
  dbk_c6 { picture::<u16>(12, 68, 132, C420, &[HALF, TALL, BIG], &lv([33, 26, 20, 17]), &[0, 1, 2], &NO) }
  dbk_none { picture::<u8>(8, 68, 36, C420, &[MIX8], &lv([0, 0, 20, 20]), &[0], &COLS) }
}
