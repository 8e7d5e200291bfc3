//! Intra prediction against the specification's, over free samples.
use crate::nd;
use crate::spec::intra as sp;
use rav1e::prelude::*;
use rav1e::verif::cpu::CpuFeatureLevel;
use rav1e::verif::ctx::*;
use rav1e::verif::enc::*;
use rav1e::verif::frame::*;
use rav1e::verif::part::*;
use rav1e::verif::pred::*;
use rav1e::verif::tiling::*;
use rav1e::verif::tx::TxSize;
use rav1e::verif::util::*;
use std::sync::Arc;

const CPU: CpuFeatureLevel = CpuFeatureLevel::RUST;

const DIRS: [(PredictionMode, isize); 8] = [
  (PredictionMode::V_PRED, 90),
  (PredictionMode::H_PRED, 180),
  (PredictionMode::D45_PRED, 45),
  (PredictionMode::D135_PRED, 135),
  (PredictionMode::D113_PRED, 113),
  (PredictionMode::D157_PRED, 157),
  (PredictionMode::D203_PRED, 203),
  (PredictionMode::D67_PRED, 67),
];
const FLAT: [PredictionMode; 5] =
  [PredictionMode::DC_PRED, PredictionMode::SMOOTH_PRED, PredictionMode::SMOOTH_V_PRED, PredictionMode::SMOOTH_H_PRED, PredictionMode::PAETH_PRED];

fn mode(m: PredictionMode, delta: i8) -> sp::Mode {
  match m {
    PredictionMode::DC_PRED | PredictionMode::UV_CFL_PRED => sp::Mode::Dc,
    PredictionMode::SMOOTH_PRED => sp::Mode::Smooth,
    PredictionMode::SMOOTH_V_PRED => sp::Mode::SmoothV,
    PredictionMode::SMOOTH_H_PRED => sp::Mode::SmoothH,
    PredictionMode::PAETH_PRED => sp::Mode::Paeth,
    _ => sp::Mode::Dir(DIRS.iter().find(|d| d.0 == m).unwrap().1 + delta as isize * 3),
  }
}

/// One plane of a frame of free samples, and a tile of it.
struct Pic<T: Pixel> {
  p: Plane<T>,
  v: Vec<i32>,
  pw: usize,
  ph: usize,
  bd: usize,
  plane: usize,
  sx: usize,
  sy: usize,
  tile: TileRect,
}
fn pic<T: Pixel>(fw: usize, fh: usize, plane: usize, cs: ChromaSampling, tile: (usize, usize, usize, usize), bd: usize) -> Pic<T> {
  let (sx, sy) = if plane == 0 { (0, 0) } else { cs.get_decimation().unwrap() };
  let (fw, fh) = ((fw + 7) / 8 * 8, (fh + 7) / 8 * 8);
  let (pw, ph) = (fw >> sx, fh >> sy);
  let mut p = Plane::<T>::new(pw, ph, sx, sy, 80, 80);
  let mut v = vec![0i32; pw * ph];
  let s = p.cfg.stride;
  for y in 0..ph {
    for x in 0..pw {
      let k = nd::i32_in(0, (1 << bd) - 1);
      v[y * pw + x] = k;
      p.data[(y + p.cfg.yorigin) * s + x + p.cfg.xorigin] = T::cast_from(k);
    }
  }
  let tile = TileRect { x: tile.0 >> sx, y: tile.1 >> sy, width: tile.2 >> sx, height: tile.3 >> sy };
  Pic { p, v, pw, ph, bd, plane, sx, sy, tile }
}
#[derive(Clone, Copy)]
struct At {
  c: usize,
  r: usize,
  bs: BlockSize,
  tx: TxSize,
  bx: usize,
  by: usize,
}
impl<T: Pixel + CastFromPrimitive<i32>> Pic<T> {
  fn order(&self) -> sp::Order {
    let cols = self.tile.width.min(self.pw - self.tile.x) << self.sx >> 2;
    let rows = self.tile.height.min(self.ph - self.tile.y) << self.sy >> 2;
    sp::Order { cols, rows, sx: self.sx, sy: self.sy }
  }
  /// position of the transform block relative to the tile, or None if it is not coded
  fn pos(&self, a: At) -> Option<(usize, usize)> {
    let o = self.order();
    let (bw, bh) = (a.bs.width() >> 2, a.bs.height() >> 2);
    if !o.valid(a.c, a.r, bw, bh) || (self.sx == 1 && bw == 1 && a.c & 1 == 0) || (self.sy == 1 && bh == 1 && a.r & 1 == 0) {
      return None;
    }
    let x = (a.c >> self.sx) * 4 + a.bx * a.tx.width();
    let y = (a.r >> self.sy) * 4 + a.by * a.tx.height();
    (x < o.cols * 4 >> self.sx && y < o.rows * 4 >> self.sy).then_some((x, y))
  }
  fn have(&self, a: At, x: usize, y: usize) -> sp::Have {
    let o = self.order();
    let (tr, bl) = o.have(a.c, a.r, a.bs.width() >> 2, a.bs.height() >> 2, a.tx.width() >> 2, a.tx.height() >> 2, a.bx, a.by);
    sp::Have { left: x > 0, above: y > 0, tr: tr && y > 0, bl: bl && x > 0 }
  }
  fn spec_edges(&self, a: At, x: usize, y: usize) -> (sp::Edge, sp::Edge, sp::Have) {
    let h = self.have(a, x, y);
    let f = |r: isize, c: isize| self.v[r as usize * self.pw + c as usize];
    let (fx, fy) = ((x + self.tile.x) as isize, (y + self.tile.y) as isize);
    let e = sp::edges(&f, fx, fy, a.tx.width(), a.tx.height(), self.pw as isize - 1, self.ph as isize - 1, &h, self.bd);
    (e.0, e.1, h)
  }
  fn rect(&self) -> Area {
    Area::Rect { x: self.tile.x as isize, y: self.tile.y as isize, width: self.tile.width, height: self.tile.height }
  }
  /// the prepared edges of the transform block at `a`
  fn edges(&self, a: At, m: PredictionMode, delta: i8, ef: bool) {
    let Some((x, y)) = self.pos(a) else { return };
    let dst = self.p.region(self.rect());
    let mut buf = Aligned::uninit_array();
    let po = PlaneOffset { x: x as isize, y: y as isize };
    let e = get_intra_edges(&mut buf, &dst, TileBlockOffset(BlockOffset { x: a.c, y: a.r }), a.bx, a.by, a.bs, po, a.tx, self.bd, Some(m), ef, IntraParam::AngleDelta(delta));
    let (l, _, t) = e.as_slices();
    let (sa, sl, h) = self.spec_edges(a, x, y);
    if h.above || h.left || m != PredictionMode::DC_PRED {
      for i in 0..t.len() {
        let g: i32 = t[i].into();
        assert!(g == sa.get(i as isize), "row above differs from the specification's");
      }
      for i in 0..l.len() {
        let g: i32 = l[l.len() - 1 - i].into();
        assert!(g == sl.get(i as isize), "column to the left differs from the specification's");
      }
    }
    let (w, hh) = (a.tx.width(), a.tx.height());
    let sp::Mode::Dir(ang) = mode(m, delta) else { panic!() };
    assert!(t.len() >= if ang < 90 { w + hh } else if ang < 180 { w } else { 0 });
    assert!(l.len() >= if ang > 180 { w + hh } else if ang > 90 { hh } else { 0 });
  }
  fn predict(&mut self, a: At, m: PredictionMode, delta: i8, ef: Option<bool>) {
    let Some((x, y)) = self.pos(a) else { return };
    let r = self.rect();
    let (w, h) = (a.tx.width(), a.tx.height());
    let (sa, sl, hv) = self.spec_edges(a, x, y);
    let (fx, fy) = ((x + self.tile.x) as isize, (y + self.tile.y) as isize);
    let want = sp::predict(&mode(m, delta), sa, sl, &hv, fx, fy, w, h, self.pw as isize - 1, self.ph as isize - 1, self.bd, ef);
    let p = if ef == Some(true) { Some(PredictionMode::SMOOTH_PRED) } else { None };
    let rf = p.map(|_| [RefType::INTRA_FRAME, RefType::NONE_FRAME]);
    let ief = ef.map(|_| IntraEdgeFilterParameters { plane: self.plane, above_mode: p, left_mode: None, above_ref_frame_types: rf, left_ref_frame_types: None });
    // room for blocks that reach out of the picture
    let mut q = self.p.clone();
    let mut buf = Aligned::uninit_array();
    let po = PlaneOffset { x: x as isize, y: y as isize };
    let par = IntraParam::AngleDelta(delta);
    let e = get_intra_edges(&mut buf, &self.p.region(r), TileBlockOffset(BlockOffset { x: a.c, y: a.r }), a.bx, a.by, a.bs, po, a.tx, self.bd, Some(m), ef.is_some(), par);
    let mut dst = q.region_mut(r);
    let mut sub = dst.subregion_mut(Area::Rect { x: x as isize, y: y as isize, width: w, height: h });
    m.predict_intra(self.tile, &mut sub, a.tx, self.bd, &[], par, if m.is_directional() { ief } else { None }, &e, CPU);
    for i in 0..h.min(self.ph - fy as usize) {
      for j in 0..w.min(self.pw - fx as usize) {
        let g: i32 = q.p(fx as usize + j, fy as usize + i).into();
        assert!(g == want[i * w + j], "prediction differs from the specification's");
      }
    }
  }
}

const BS: [BlockSize; 13] = [
  BlockSize::BLOCK_4X4,
  BlockSize::BLOCK_4X8,
  BlockSize::BLOCK_8X4,
  BlockSize::BLOCK_8X8,
  BlockSize::BLOCK_8X16,
  BlockSize::BLOCK_16X8,
  BlockSize::BLOCK_16X16,
  BlockSize::BLOCK_16X32,
  BlockSize::BLOCK_32X16,
  BlockSize::BLOCK_32X32,
  BlockSize::BLOCK_32X64,
  BlockSize::BLOCK_64X32,
  BlockSize::BLOCK_64X64,
];

/// every block and transform block of a frame (or of a tile of it)
fn all_edges(fw: usize, fh: usize, plane: usize, cs: ChromaSampling, tile: (usize, usize, usize, usize), ef: bool) {
  nd::merge_lazy();
  let p = pic::<u8>(fw, fh, plane, cs, tile, 8);
  let o = p.order();
  for bs in BS {
    let Some(sub) = bs.subsampled_size_opt(p.sx, p.sy) else { continue };
    let tx = if plane == 0 { bs.tx_size() } else { bs.largest_chroma_tx_size(p.sx, p.sy) };
    let mut txs = vec![tx];
    // split transforms
    if plane == 0 {
      for k in 1..3 {
        let t = sub_tx(txs[k - 1]);
        if t != txs[k - 1] {
          txs.push(t);
        } else {
          break;
        }
      }
    }
    for tx in txs {
      for r in (0..o.rows).step_by(bs.height() >> 2) {
        for c in (0..o.cols).step_by(bs.width() >> 2) {
          for by in 0..(sub.height() / tx.height()).max(1) {
            for bx in 0..(sub.width() / tx.width()).max(1) {
              let a = At { c, r, bs, tx, bx, by };
              p.edges(a, PredictionMode::D45_PRED, 0, ef);
              p.edges(a, PredictionMode::D203_PRED, 0, ef);
              p.edges(a, PredictionMode::D135_PRED, 0, ef);
            }
          }
        }
      }
    }
  }
}
fn sub_tx(t: TxSize) -> TxSize {
  let (w, h) = (t.width(), t.height());
  let (w, h) = if w == h { ((w / 2).max(4), (h / 2).max(4)) } else if w > h { (w / 2, h) } else { (w, h / 2) };
  TxSize::by_dims(w, h)
}
trait Ext: Sized {
  fn subsampled_size_opt(self, sx: usize, sy: usize) -> Option<BlockSize>;
}
impl Ext for BlockSize {
  fn subsampled_size_opt(self, sx: usize, sy: usize) -> Option<BlockSize> {
    self.subsampled_size(sx, sy).ok()
  }
}
trait Dims {
  fn by_dims(w: usize, h: usize) -> TxSize;
}
impl Dims for TxSize {
  fn by_dims(w: usize, h: usize) -> TxSize {
    use TxSize::*;
    *[TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16]
      .iter()
      .find(|t| t.width() == w && t.height() == h)
      .unwrap()
  }
}
/// blocks whose transform is w x h: the frame's corner, first row, first
/// column, inside, and cut by the right and bottom edges
fn spots(w: usize, h: usize, s: (usize, usize)) -> Vec<At> {
  let tx = TxSize::by_dims(w, h);
  let bs = BlockSize::from_width_and_height((w << s.0).max(4), (h << s.1).max(4));
  let (uw, uh) = (bs.width() / 4, bs.height() / 4);
  [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)].iter().map(|&(i, j)| At { c: i * uw, r: j * uh, bs, tx, bx: 0, by: 0 }).collect()
}
fn flats<T: Pixel + CastFromPrimitive<i32>>(w: usize, h: usize, bd: usize) {
  // the 64-sample smooth and DC predictions suffice: Paeth does not depend on the size
  let n = if w * h > 2048 { 4 } else { 5 };
  nd::merge_lazy();
  let (fw, fh) = if w >= 32 || h >= 32 { (w * 2 + w / 2 + 8, h * 2 + h / 2 + 8) } else { (3 * w, 3 * h) };
  let mut p = pic::<T>(fw, fh, 0, ChromaSampling::Cs420, (0, 0, (fw + 63) / 64 * 64, (fh + 63) / 64 * 64), bd);
  for a in spots(w, h, (0, 0)) {
    for m in FLAT[..n].iter().copied() {
      p.predict(a, m, 0, None);
    }
  }
}
/// every direction, with the edge filter of type `ef`
fn dirs<T: Pixel + CastFromPrimitive<i32>>(w: usize, h: usize, bd: usize, ef: Option<bool>, modes: &[usize], step: usize) {
  nd::merge_lazy();
  let (fw, fh) = if w >= 32 || h >= 32 { (w * 2 + w / 2 + 8, h * 2 + h / 2 + 8) } else { (3 * w, 3 * h) };
  let mut p = pic::<T>(fw, fh, 0, ChromaSampling::Cs420, (0, 0, (fw + 63) / 64 * 64, (fh + 63) / 64 * 64), bd);
  for &m in modes {
    for d in (-3i8..=3).step_by(step) {
      for a in spots(w, h, (0, 0)) {
        p.predict(a, DIRS[m].0, d, ef);
      }
    }
  }
}

/// chroma from luma of blocks of a frame of free luma and chroma samples
fn cfl<T: Pixel + CastFromPrimitive<i32>>(fw: usize, fh: usize, cs: ChromaSampling, bd: usize, bs: BlockSize, tx: TxSize, at: &[(usize, usize)], alphas: &[i32]) {
  nd::merge_lazy();
  let mut c = EncoderConfig::default();
  c.width = fw;
  c.height = fh;
  c.bit_depth = bd;
  c.chroma_sampling = cs;
  let seq = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<T>::new(Arc::new(c), seq);
  fi.coded_frame_data = None;
  let mut fs = FrameState::new(&fi);
  let (sx, sy) = cs.get_decimation().unwrap();
  let luma = pic::<T>(fw, fh, 0, cs, (0, 0, 64, 64), bd);
  // the reconstruction includes what blocks reaching out of the frame predict there
  let (lw, lh) = (luma.pw + 64, luma.ph + 64);
  let mut lv = vec![0i32; lw * lh];
  for y in 0..lh {
    for x in 0..lw {
      let near = x < luma.pw + 32 && y < luma.ph + 32;
      lv[y * lw + x] = if x < luma.pw && y < luma.ph { luma.v[y * luma.pw + x] } else if near { nd::i32_in(0, (1 << bd) - 1) } else { 0 };
    }
  }
  let chroma = pic::<T>(fw, fh, 1, cs, (0, 0, 64, 64), bd);
  {
    let r = Arc::make_mut(&mut fs.rec);
    for (k, v, w, h) in [(0, &lv, lw, lh), (1, &chroma.v, chroma.pw, chroma.ph)] {
      let p = &mut r.planes[k];
      let (s, ox, oy) = (p.cfg.stride, p.cfg.xorigin, p.cfg.yorigin);
      for y in 0..h {
        for x in 0..w {
          p.data[(y + oy) * s + x + ox] = T::cast_from(v[y * w + x]);
        }
      }
    }
  }
  let mut fb = FrameBlocks::new(fi.w_in_b, fi.h_in_b);
  let ti = fi.sequence.tiling.clone();
  let mut tc = ti.tile_iter_mut(&mut fs, &mut fb).next().unwrap();
  let ts = &mut tc.ts;
  for &(cc, rr) in at {
    let uv = bs.largest_chroma_tx_size(sx, sy);
    let a = At { c: cc, r: rr, bs, tx: uv, bx: 0, by: 0 };
    let Some((x, y)) = chroma.pos(a) else { continue };
    let tbo = TileBlockOffset(BlockOffset { x: cc, y: rr });
    let mut buf = Aligned::<[std::mem::MaybeUninit<i16>; 32 * 32]>::uninit_array();
    let ac = luma_ac(&mut buf.data, ts, tbo, bs, tx, &fi);
    // MaxLumaW, MaxLumaH: the end of the last luma transform block inside the frame
    let (w0, h0) = (cc * 4, rr * 4);
    let end = |b: usize, n: usize, t: usize, lim: usize| (0..n / t).map(|i| b + i * t).filter(|s| *s < lim).last().unwrap() + t;
    let mw = end(w0, bs.width(), tx.width(), luma.pw);
    let mh = end(h0, bs.height(), tx.height(), luma.ph);
    let h = chroma.have(a, x, y);
    let (sa, sl, _) = chroma.spec_edges(a, x, y);
    let (w, hh) = (uv.width(), uv.height());
    let dc = sp::predict(&sp::Mode::Dc, sa, sl, &h, 0, 0, w, hh, 0, 0, bd, None);
    for &al in alphas {
      let want = sp::cfl(&|y, x| lv[y * lw + x], &dc, x, y, w, hh, sx, sy, mw, mh, al, bd);
      let m = if al == 0 { PredictionMode::DC_PRED } else { PredictionMode::UV_CFL_PRED };
      let par = IntraParam::Alpha(al as i16);
      let mut q = chroma.p.clone();
      let mut eb = Aligned::uninit_array();
      let po = PlaneOffset { x: x as isize, y: y as isize };
      let e = get_intra_edges(&mut eb, &chroma.p.region(chroma.rect()), tbo, 0, 0, bs, po, uv, bd, Some(m), true, par);
      let mut dst = q.region_mut(chroma.rect());
      let mut sub = dst.subregion_mut(Area::Rect { x: x as isize, y: y as isize, width: w, height: hh });
      m.predict_intra(chroma.tile, &mut sub, uv, bd, ac, par, None, &e, CPU);
      for i in 0..hh.min(chroma.ph - y) {
        for j in 0..w.min(chroma.pw - x) {
          let g: i32 = q.p(x + j, y + i).into();
          assert!(g == want[i * w + j], "chroma-from-luma prediction differs from the specification's");
        }
      }
    }
  }
}

/// the filter type derived from the neighbours' modes
fn neighbours(cs: ChromaSampling) {
  nd::merge_lazy();
  let mut c = EncoderConfig::default();
  c.width = 64;
  c.height = 64;
  c.chroma_sampling = cs;
  let seq = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<u8>::new(Arc::new(c), seq);
  fi.coded_frame_data = None;
  let mut fs = FrameState::new(&fi);
  let mut fb = FrameBlocks::new(fi.w_in_b, fi.h_in_b);
  let ti = fi.sequence.tiling.clone();
  let mut tc = ti.tile_iter_mut(&mut fs, &mut fb).next().unwrap();
  let ts = &mut tc.ts;
  const M: [PredictionMode; 8] = [
    PredictionMode::DC_PRED,
    PredictionMode::SMOOTH_PRED,
    PredictionMode::SMOOTH_V_PRED,
    PredictionMode::SMOOTH_H_PRED,
    PredictionMode::PAETH_PRED,
    PredictionMode::UV_CFL_PRED,
    PredictionMode::V_PRED,
    PredictionMode::D67_PRED,
  ];
  // (luma smooth, chroma smooth, inter) of every unit of a 4x4 neighbourhood
  let mut v = vec![];
  for y in 0..4 {
    for x in 0..4 {
      let inter = (nd::u8_in(0, 1) == 1);
      let (l, ch) = (nd::u8_in(0, 7) as usize, nd::u8_in(0, 7) as usize);
      nd::assume(l != 5);
      let b = &mut ts.coded_block_info[y][x];
      b.luma_mode = if inter { PredictionMode::NEARESTMV } else { M[l] };
      b.chroma_mode = if inter { PredictionMode::NEARESTMV } else { M[ch] };
      b.reference_types[0] = if inter { RefType::LAST_FRAME } else { RefType::INTRA_FRAME };
      v.push((!inter && l >= 1 && l <= 3, !inter && ch >= 1 && ch <= 3));
    }
  }
  let (sx, sy) = cs.get_decimation().unwrap();
  for plane in 0..2 {
    let (sx, sy) = if plane == 0 { (0, 0) } else { (sx, sy) };
    for r in 0..3usize {
      for c in 0..3usize {
        // a block whose chroma is not coded here asks nothing of chroma
        let bo = TileBlockOffset(BlockOffset { x: c, y: r });
        let ief = IntraEdgeFilterParameters::new(plane, ts.above_block_info(bo, sx, sy), ts.left_block_info(bo, sx, sy));
        let is = |r: usize, c: usize| if plane == 0 { v[r * 4 + c].0 } else { v[r * 4 + c].1 };
        // 7.11.2.8
        let (mut ar, mut ac) = (r as isize, c as isize);
        if sx == 1 && ac & 1 == 0 {
          ac += 1;
        }
        if sy == 1 && ar & 1 == 1 {
          ar -= 1;
        }
        let above = ar > 0 && is(ar as usize - 1, ac as usize);
        let (mut lr, mut lc) = (r as isize, c as isize);
        if sx == 1 && lc & 1 == 1 {
          lc -= 1;
        }
        if sy == 1 && lr & 1 == 0 {
          lr += 1;
        }
        let left = lc > 0 && is(lr as usize, lc as usize - 1);
        assert!(ief.use_smooth_filter() == (above || left), "edge filter type differs from the specification's");
      }
    }
  }
}
const M8: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const LO: [usize; 4] = [0, 2, 6, 7];
const MID: [usize; 4] = [1, 3, 4, 5];

harnesses! {
  intra_e420y { all_edges(152, 120, 0, ChromaSampling::Cs420, (0, 0, 192, 128), false) }
  intra_e420u { all_edges(152, 120, 1, ChromaSampling::Cs420, (0, 0, 192, 128), true) }
  intra_e422 { all_edges(152, 120, 2, ChromaSampling::Cs422, (0, 0, 192, 128), true) }
  intra_e444 { all_edges(80, 136, 1, ChromaSampling::Cs444, (0, 0, 128, 192), false) }
  intra_etile { all_edges(168, 136, 0, ChromaSampling::Cs420, (64, 64, 128, 128), false) }
  intra_etileu { all_edges(200, 136, 2, ChromaSampling::Cs420, (64, 0, 64, 192), true) }
  intra_f4x4 { flats::<u8>(4, 4, 8) }
  intra_f4x4h { flats::<u16>(4, 4, 12) }
  intra_f8x4 { flats::<u8>(8, 4, 8) }
  intra_f4x8 { flats::<u16>(4, 8, 10) }
  intra_f4x16 { flats::<u8>(4, 16, 8) }
  intra_f16x4 { flats::<u16>(16, 4, 12) }
  intra_f8x16 { flats::<u16>(8, 16, 10) }
  intra_f8x32 { flats::<u8>(8, 32, 8) }
  intra_f16x8 { flats::<u8>(16, 8, 8) }
  intra_f16x16 { flats::<u16>(16, 16, 10) }
  intra_f32x16 { flats::<u8>(32, 16, 8) }
  intra_f16x32 { flats::<u8>(16, 32, 8) }
  intra_f32x32 { flats::<u8>(32, 32, 8) }
  intra_f64x64 { flats::<u16>(64, 64, 12) }
  intra_d4x4 { dirs::<u8>(4, 4, 8, None, &M8, 1) }
  intra_d4x4f { dirs::<u8>(4, 4, 8, Some(false), &M8, 1) }
  intra_d4x4s { dirs::<u8>(4, 4, 8, Some(true), &M8, 1) }
  intra_d4x4h { dirs::<u16>(4, 4, 12, Some(true), &M8, 1) }
  intra_d4x8f { dirs::<u16>(4, 8, 10, Some(false), &M8, 1) }
  intra_d8x4s { dirs::<u8>(8, 4, 8, Some(true), &M8, 1) }
  intra_d8x4f { dirs::<u8>(8, 4, 8, Some(false), &M8, 1) }
  intra_d4x16f { dirs::<u8>(4, 16, 8, Some(false), &M8, 1) }
  intra_d16x4s { dirs::<u8>(16, 4, 8, Some(true), &M8, 1) }
  intra_d8x8f { dirs::<u8>(8, 8, 8, Some(false), &LO, 1) }
  intra_d8x8m { dirs::<u8>(8, 8, 8, Some(false), &MID, 1) }
  intra_d8x8s { dirs::<u8>(8, 8, 8, Some(true), &M8, 1) }
  intra_d8x16f { dirs::<u8>(8, 16, 8, Some(false), &M8, 1) }
  intra_d16x8s { dirs::<u8>(16, 8, 8, Some(true), &M8, 1) }
  intra_d8x32s { dirs::<u8>(8, 32, 8, Some(true), &M8, 2) }
  intra_d16x16f { dirs::<u16>(16, 16, 10, Some(false), &M8, 1) }
  intra_d16x16s { dirs::<u8>(16, 16, 8, Some(true), &M8, 1) }
  intra_d16x32f { dirs::<u8>(16, 32, 8, Some(false), &M8, 2) }
  intra_d32x16s { dirs::<u8>(32, 16, 8, Some(true), &M8, 2) }
  intra_d32x32f { dirs::<u8>(32, 32, 8, Some(false), &M8, 3) }
  intra_d32x32s { dirs::<u8>(32, 32, 8, Some(true), &M8, 2) }
  intra_d64x64s { dirs::<u8>(64, 64, 8, Some(true), &M8, 6) }
  intra_c420 { cfl::<u8>(24, 24, ChromaSampling::Cs420, 8, BlockSize::BLOCK_8X8, TxSize::TX_8X8, &[(0, 0), (2, 0), (0, 2), (4, 4)], &ALPHAS) }
  intra_c420s { cfl::<u8>(24, 24, ChromaSampling::Cs420, 8, BlockSize::BLOCK_16X16, TxSize::TX_4X4, &[(0, 0), (4, 0), (0, 4), (4, 4)], &[1, -7, 16]) }
  intra_c420l { cfl::<u8>(72, 56, ChromaSampling::Cs420, 8, BlockSize::BLOCK_32X32, TxSize::TX_16X16, &[(0, 0), (8, 8)], &[5, -16]) }
  intra_c420r { cfl::<u16>(24, 40, ChromaSampling::Cs420, 10, BlockSize::BLOCK_16X32, TxSize::TX_16X32, &[(0, 0), (4, 0)], &[3, -16]) }
  intra_c420q { cfl::<u16>(24, 24, ChromaSampling::Cs420, 12, BlockSize::BLOCK_16X8, TxSize::TX_16X8, &[(0, 0), (4, 4)], &[-1, 16]) }
  intra_c444 { cfl::<u8>(24, 24, ChromaSampling::Cs444, 8, BlockSize::BLOCK_8X8, TxSize::TX_8X8, &[(0, 0), (4, 4)], &[1, -7, 16]) }
  intra_c444s { cfl::<u16>(24, 24, ChromaSampling::Cs444, 12, BlockSize::BLOCK_4X4, TxSize::TX_4X4, &[(0, 0), (3, 5)], &ALPHAS) }
  intra_c422 { cfl::<u8>(24, 24, ChromaSampling::Cs422, 8, BlockSize::BLOCK_8X8, TxSize::TX_8X8, &[(0, 0), (2, 2), (4, 4)], &[1, -7, 16]) }
  intra_c422h { cfl::<u16>(24, 24, ChromaSampling::Cs422, 10, BlockSize::BLOCK_16X16, TxSize::TX_16X16, &[(0, 0), (4, 4)], &[2, -13]) }
  intra_n420 { neighbours(ChromaSampling::Cs420) }
  intra_n422 { neighbours(ChromaSampling::Cs422) }
  intra_n444 { neighbours(ChromaSampling::Cs444) }
}
const ALPHAS: [i32; 9] = [0, 1, -1, 2, -5, 8, -13, 16, -16];
