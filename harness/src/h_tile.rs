//! Tile layout (spec 5.9.15) and the split of frame state into tiles.
use crate::nd;
use rav1e::verif::api::*;
use rav1e::verif::ctx::FrameBlocks;
use rav1e::verif::enc::*;
use rav1e::verif::tiling::*;
use std::sync::Arc;

/// spec tile_log2()
fn tile_log2(blk: u64, target: u64) -> u64 {
  let mut k = 0;
  while (blk << k) < target {
    k += 1;
  }
  k
}

/// The layout is one the specification's tile_info() can express, and it
/// covers the frame.
fn check(ti: &TilingInfo, w: u64, h: u64) {
  // compute_image_size: MiCols = 2 * ((w + 7) >> 3), 64x64 superblocks
  let sb_cols = ((w + 7) / 8 * 8 + 63) / 64;
  let sb_rows = ((h + 7) / 8 * 8 + 63) / 64;
  let (tw, th) = (ti.tile_width_sb as u64, ti.tile_height_sb as u64);
  let (cols, rows) = (ti.cols as u64, ti.rows as u64);
  let (cl, rl) = (ti.tile_cols_log2 as u64, ti.tile_rows_log2 as u64);
  assert!(tw > 0 && th > 0 && tw <= 64);
  assert!(cols >= 1 && cols <= 64 && rows >= 1 && rows <= 64);
  // every superblock belongs to one tile and no tile is empty
  assert!(cols * tw >= sb_cols && (cols - 1) * tw < sb_cols);
  assert!(rows * th >= sb_rows && (rows - 1) * th < sb_rows);
  // limits signalled implicitly
  let min_cols = tile_log2(64, sb_cols);
  let max_cols = tile_log2(1, sb_cols.min(64));
  let max_rows = tile_log2(1, sb_rows.min(64));
  let min_tiles = min_cols.max(tile_log2(2304, sb_cols * sb_rows));
  assert!(ti.min_tile_cols_log2 as u64 == min_cols);
  assert!(ti.max_tile_cols_log2 as u64 == max_cols);
  assert!(ti.max_tile_rows_log2 as u64 == max_rows);
  assert!(cl <= max_cols && rl <= max_rows);
  let uniform = (sb_cols + (1 << cl) - 1) >> cl == tw && (sb_rows + (1 << rl) - 1) >> rl == th;
  if uniform {
    assert!(cl >= min_cols);
    let min_rows = min_tiles.saturating_sub(cl);
    assert!(rl >= min_rows && ti.min_tile_rows_log2 as u64 == min_rows);
  } else {
    // context_update_tile_id has TileColsLog2 + TileRowsLog2 bits
    assert!(tile_log2(1, cols) == cl && tile_log2(1, rows) == rl);
    let area = if min_tiles > 0 { (sb_cols * sb_rows) >> (min_tiles + 1) } else { sb_cols * sb_rows };
    let widest = tw.min(sb_cols);
    assert!(th.min(sb_rows) <= (area / widest).max(1));
  }
}

/// any size up to `mw` x `mh`, requested split into 2^cols x 2^rows tiles
fn layout(mw: u64, mh: u64, rate: f64, cols: u64, rows: u64, is_422: bool) {
  let w = nd::range(1, mw);
  let h = if mh > 60000 || is_422 { nd::range(1, mh) } else { mh };
  let ti = TilingInfo::from_target_tiles(6, w as usize, h as usize, rate, cols as usize, rows as usize, is_422);
  check(&ti, w, h);
  if !is_422 && rate < 1.0 {
    // the requested split is what one gets, within the limits
    assert!(ti.tile_cols_log2 as u64 == cols.min(ti.max_tile_cols_log2 as u64).max(ti.min_tile_cols_log2 as u64));
    assert!(ti.tile_rows_log2 as u64 == rows.min(ti.max_tile_rows_log2 as u64).max(ti.min_tile_rows_log2 as u64));
  }
}

/// `tiles`: at least that many tiles, unless the frame cannot be split further
fn wanted(w: usize, h: usize, cs: ChromaSampling, lo: u64, hi: u64) {
  let mut c = EncoderConfig::with_speed_preset(10);
  c.width = w;
  c.height = h;
  c.chroma_sampling = cs;
  c.tiles = nd::range(lo, hi) as usize;
  let s = Sequence::new(&c);
  check(&s.tiling, w as u64, h as u64);
  let n = s.tiling.cols * s.tiling.rows;
  if cs == ChromaSampling::Cs422 {
    // tiles are at least two superblocks wide
    assert!(n >= c.tiles || s.tiling.tile_width_sb == 2 && s.tiling.tile_rows_log2 == s.tiling.max_tile_rows_log2);
    return;
  }
  assert!(n >= c.tiles || s.tiling.tile_cols_log2 == s.tiling.max_tile_cols_log2 && s.tiling.tile_rows_log2 == s.tiling.max_tile_rows_log2);
}

/// Every pixel and every 4x4 block of the frame is in exactly one tile.
fn split(w: usize, h: usize, cols: usize, rows: usize, cs: ChromaSampling) {
  let mut c = EncoderConfig::with_speed_preset(10);
  c.width = w;
  c.height = h;
  c.chroma_sampling = cs;
  c.tile_cols = cols;
  c.tile_rows = rows;
  let s = Arc::new(Sequence::new(&c));
  let fi = FrameInvariants::<u8>::new_key_frame(Arc::new(c), s, 0, Box::new([]));
  let mut fs = FrameState::new(&fi);
  let mut fb = FrameBlocks::new(fi.w_in_b, fi.h_in_b);
  let np = if cs == ChromaSampling::Cs400 { 1 } else { 3 };
  // any pixel of each plane, any block
  let mut px = [(0, 0); 3];
  for p in 0..np {
    let k = &fs.rec.planes[p].cfg;
    px[p] = (nd::range(0, k.width as u64 - 1) as isize, nd::range(0, k.height as u64 - 1) as isize);
  }
  let bx = nd::range(0, fi.w_in_b as u64 - 1) as usize;
  let by = nd::range(0, fi.h_in_b as u64 - 1) as usize;
  let mut n = [0u32; 3];
  let mut nb = 0u32;
  let mut tiles = 0;
  for mut t in fi.sequence.tiling.tile_iter_mut(&mut fs, &mut fb) {
    tiles += 1;
    for p in 0..np {
      let (r, i) = (t.ts.rec.planes[p].rect(), t.ts.input_tile.planes[p].rect());
      assert!(r.x == i.x && r.y == i.y && r.width == i.width && r.height == i.height);
      let inside = px[p].0 >= r.x && px[p].0 < r.x + r.width as isize && px[p].1 >= r.y && px[p].1 < r.y + r.height as isize;
      n[p] += inside as u32;
    }
    let (x, y) = (t.tb.x(), t.tb.y());
    assert!(x % 16 == 0 && y % 16 == 0);
    let inside = bx >= x && bx < x + t.tb.cols() && by >= y && by < y + t.tb.rows();
    nb += inside as u32;
    // mark what the tile can write
    for r in 0..t.tb.rows() {
      for b in &mut t.tb[r][..] {
        b.segmentation_idx += tiles as u8;
      }
    }
    assert!(t.ts.sbo.0.x * 16 == x && t.ts.sbo.0.y * 16 == y);
  }
  assert!(tiles == fi.sequence.tiling.tile_count());
  for p in 0..np {
    assert!(n[p] == 1);
  }
  assert!(nb == 1);
  for y in 0..fi.h_in_b {
    for x in 0..fi.w_in_b {
      let v = fb[y][x].segmentation_idx as usize;
      let (tw, th) = (fi.sequence.tiling.tile_width_sb * 16, fi.sequence.tiling.tile_height_sb * 16);
      assert!(v == 1 + x / tw + y / th * fi.sequence.tiling.cols);
    }
  }
}

harnesses! {
  ti_00 { layout(65535, 65535, 0.04, 0, 0, false) }
  ti_11 { layout(65535, 65535, 0.04, 1, 1, false) }
  ti_32 { layout(65535, 65535, 0.04, 3, 2, false) }
  ti_66 { layout(65535, 65535, 0.04, 6, 6, false) }
  ti_30fps_270 { layout(65535, 270, 30.0, 0, 0, false) }
  ti_30fps_1080 { layout(65535, 1080, 30.0, 0, 0, false) }
  ti_60fps_4320 { layout(65535, 4320, 60.0, 1, 0, false) }
  ti_240fps_2160 { layout(65535, 2160, 240.0, 2, 0, false) }
  ti_90k_17 { layout(65535, 17, 90000.0, 0, 0, false) }
  ti_90k_1080 { layout(65535, 1080, 90000.0, 0, 0, false) }
  ti_max_64 { layout(65535, 64, 4294967295.0, 1, 0, false) }
  ti_max_2160 { layout(65535, 2160, 4294967295.0, 6, 0, false) }
  ti_422_00 { layout(16384, 16384, 0.04, 0, 0, true) }
  ti_422_max { layout(65535, 65535, 0.04, 0, 0, true) }
  ti_422_10 { layout(8192, 8192, 0.04, 1, 0, true) }
  ti_422_21 { layout(65535, 8192, 0.04, 2, 1, true) }
  ti_422_66 { layout(65535, 65535, 0.04, 6, 6, true) }
  ti_want_1080 { wanted(1920, 1080, ChromaSampling::Cs420, 1, 600) }
  ti_want_64 { wanted(64, 64, ChromaSampling::Cs420, 1, 8) }
  ti_want_wide { wanted(4000, 200, ChromaSampling::Cs420, 1, 300) }
  ti_want_tall { wanted(200, 4000, ChromaSampling::Cs444, 1, 300) }
  ti_want_422 { wanted(1100, 700, ChromaSampling::Cs422, 1, 300) }
  ti_split_a { split(200, 136, 2, 2, ChromaSampling::Cs420) }
  ti_split_b { split(333, 77, 4, 2, ChromaSampling::Cs444) }
  ti_split_c { split(321, 200, 2, 4, ChromaSampling::Cs422) }
  ti_split_d { split(130, 66, 64, 64, ChromaSampling::Cs400) }
}
