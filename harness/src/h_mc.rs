//! Inter prediction against the specification's block inter prediction.
use crate::nd;
use crate::spec::mc as sp;
use rav1e::prelude::*;
use rav1e::verif::cpu::CpuFeatureLevel;
use rav1e::verif::enc::*;
use rav1e::verif::frame::*;
use rav1e::verif::mc::*;
use rav1e::verif::part::RefType;
use rav1e::verif::pred::*;
use rav1e::verif::tiling::*;
use rav1e::verif::util::*;
use std::sync::Arc;

const F: [FilterMode; 4] = [FilterMode::REGULAR, FilterMode::SMOOTH, FilterMode::SHARP, FilterMode::BILINEAR];
const CPU: CpuFeatureLevel = CpuFeatureLevel::RUST;

/// A plane of free samples around a w x h block at (8, 8).
fn area<T: Pixel>(w: usize, h: usize, bd: usize) -> (Plane<T>, Vec<i32>, usize) {
  let (pw, ph) = (w + 16, h + 16);
  let mut p = Plane::<T>::new(pw, ph, 0, 0, 0, 0);
  let mut v = vec![0i32; pw * ph];
  let s = p.cfg.stride;
  for y in 4..h + 13 {
    for x in 4..w + 13 {
      let k = nd::i32_in(0, (1 << bd) - 1);
      v[y * pw + x] = k;
      p.data[y * s + x] = T::cast_from(k);
    }
  }
  (p, v, pw)
}
fn put<T: Pixel + CastFromPrimitive<i32>>(w: usize, h: usize, fx: usize, fy: usize, mx: usize, my: usize, bd: usize) {
  let (p, v, pw) = area::<T>(w, h, bd);
  let mut o = Plane::<T>::new(w, h, 0, 0, 0, 0);
  put_8tap(&mut o.as_region_mut(), p.slice(PlaneOffset { x: 8, y: 8 }), w, h, fx as i32, fy as i32, F[mx], F[my], bd, CPU);
  let f = |r: isize, c: isize| v[(r + 8) as usize * pw + (c + 8) as usize];
  let e = sp::block(&f, w, h, fx, fy, mx, my, bd, false);
  for i in 0..w * h {
    let g: i32 = o.p(i % w, i / w).as_();
    assert!(g == sp::single(e[i], bd), "prediction differs from the specification's");
  }
}
fn avg<T: Pixel + CastFromPrimitive<i32>>(w: usize, h: usize, a: (usize, usize), b: (usize, usize), mx: usize, my: usize, bd: usize) {
  let mut tmp = [vec![0i16; w * h], vec![0i16; w * h]];
  let mut e = [vec![], vec![]];
  for (i, (fx, fy)) in [a, b].into_iter().enumerate() {
    let (p, v, pw) = area::<T>(w, h, bd);
    prep_8tap(&mut tmp[i], p.slice(PlaneOffset { x: 8, y: 8 }), w, h, fx as i32, fy as i32, F[mx], F[my], bd, CPU);
    let f = |r: isize, c: isize| v[(r + 8) as usize * pw + (c + 8) as usize];
    e[i] = sp::block(&f, w, h, fx, fy, mx, my, bd, true);
  }
  let mut o = Plane::<T>::new(w, h, 0, 0, 0, 0);
  mc_avg(&mut o.as_region_mut(), &tmp[0], &tmp[1], w, h, bd, CPU);
  for i in 0..w * h {
    let g: i32 = o.p(i % w, i / w).as_();
    assert!(g == sp::average(e[0][i], e[1][i], bd), "compound prediction differs from the specification's");
  }
}
fn puts(w: usize, h: usize, bd: usize, modes: &[(usize, usize)], fr: &[(usize, usize)]) {
  nd::merge_lazy();
  for &(mx, my) in modes {
    for &(fx, fy) in fr {
      if bd == 8 { put::<u8>(w, h, fx, fy, mx, my, bd) } else { put::<u16>(w, h, fx, fy, mx, my, bd) }
    }
  }
}
fn avgs(w: usize, h: usize, bd: usize, modes: &[(usize, usize)], fr: &[(usize, usize)]) {
  nd::merge_lazy();
  for &(mx, my) in modes {
    for (i, &a) in fr.iter().enumerate() {
      let b = fr[(i + 1) % fr.len()];
      if bd == 8 { avg::<u8>(w, h, a, b, mx, my, bd) } else { avg::<u16>(w, h, a, b, mx, my, bd) }
    }
  }
}
/// every pair of fractions
fn fracs() -> Vec<(usize, usize)> {
  (0..256).map(|i| (i & 15, i >> 4)).collect()
}
/// every fraction once per axis, with others
fn some() -> Vec<(usize, usize)> {
  (0..16).map(|i| (i, (i * 7 + 5) & 15)).chain([(0, 0), (0, 8), (8, 0), (0, 3), (13, 0)]).collect()
}
const ALL: [(usize, usize); 16] = [
  (0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3),
];
const DIAG: [(usize, usize); 4] = [(0, 0), (1, 1), (2, 2), (3, 3)];

fn fi(w: usize, h: usize, cs: ChromaSampling, n: usize) -> (FrameInvariants<u8>, Vec<Vec<Vec<i32>>>) {
  let mut c = EncoderConfig::default();
  c.width = w;
  c.height = h;
  c.chroma_sampling = cs;
  let seq = Arc::new(Sequence::new(&c));
  let mut f = FrameInvariants::<u8>::new(Arc::new(c), seq);
  f.coded_frame_data = None;
  let mut vals = vec![];
  let fs = FrameState::new(&f);
  for i in 0..n {
    let mut fr = (*fs.rec).clone();
    let mut v = vec![];
    for pl in 0..3 {
      let p = &mut fr.planes[pl];
      let (pw, ph) = ((w + p.cfg.xdec) >> p.cfg.xdec, (h + p.cfg.ydec) >> p.cfg.ydec);
      let mut t = vec![0i32; pw * ph];
      for y in 0..ph {
        for x in 0..pw {
          let k = nd::i32_in(0, 255);
          t[y * pw + x] = k;
          p.data[(y + p.cfg.yorigin) * p.cfg.stride + x + p.cfg.xorigin] = k as u8;
        }
      }
      v.push(t);
    }
    rav1e::verif::pad_frame(&mut fr, w, h, 3);
    f.rec_buffer.frames[i] = Some(Arc::new(ReferenceFrame {
      order_hint: 0,
      width: w as u32,
      height: h as u32,
      render_width: w as u32,
      render_height: h as u32,
      frame: Arc::new(fr),
      input_hres: fs.input_hres.clone(),
      input_qres: fs.input_qres.clone(),
      cdfs: rav1e::verif::ctx::CDFContext::new(0),
      frame_me_stats: fs.frame_me_stats.clone(),
      output_frameno: 0,
      segmentation: Default::default(),
    }));
    vals.push(v);
  }
  for r in f.ref_frames.iter_mut() {
    *r = 0;
  }
  if n > 1 {
    f.ref_frames[6] = 1;
  }
  (f, vals)
}

/// The specification's prediction of a block of plane `p` at (x, y), whose
/// reference samples lie at coordinates clamped to the reference frame.
fn want(v: &[i32], pw: isize, ph: isize, sub: (usize, usize), x: isize, y: isize, w: usize, h: usize, mv: MotionVector, compound: bool) -> Vec<i32> {
  let (mr, mc) = ((mv.row as isize) << (1 - sub.1), (mv.col as isize) << (1 - sub.0));
  let (bx, by) = (x + (mc >> 4), y + (mr >> 4));
  let f = |r: isize, c: isize| {
    let yy = (by + r).max(0).min(ph - 1);
    let xx = (bx + c).max(0).min(pw - 1);
    v[(yy * pw + xx) as usize]
  };
  sp::block(&f, w, h, (mc & 15) as usize, (mr & 15) as usize, 0, 0, 8, compound)
}

/// Blocks all over a small frame, vectors pointing into and far out of it.
fn predict(fw: usize, fh: usize, cs: ChromaSampling, p: usize, w: usize, h: usize, mvs: &[(i16, i16)], tile: TileRect) {
  nd::merge_lazy();
  let (f, vals) = fi(fw, fh, cs, 1);
  let (sx, sy) = if p == 0 { (0, 0) } else { cs.get_decimation().unwrap() };
  let (pw, ph) = ((fw + sx) >> sx, (fh + sy) >> sy);
  for &(row, col) in mvs {
    for (bx, by) in [(0, 0), ((pw - 1) / w * w, (ph - 1) / h * h)] {
      let mv = MotionVector { row, col };
      let mut o = Plane::<u8>::new(w, h, 0, 0, 0, 0);
      let po = PlaneOffset { x: bx as isize - (tile.x >> sx) as isize, y: by as isize - (tile.y >> sy) as isize };
      let tr = TileRect { x: tile.x >> sx, y: tile.y >> sy, width: tile.width, height: tile.height };
      PredictionMode::NEWMV.predict_inter_single(&f, tr, p, po, &mut o.as_region_mut(), w, h, RefType::LAST_FRAME, mv);
      let e = want(&vals[0][p], pw as isize, ph as isize, (sx, sy), bx as isize, by as isize, w, h, mv, false);
      for i in 0..w * h {
        assert!(o.p(i % w, i / w) as i32 == sp::single(e[i], 8), "prediction differs from the specification's");
      }
    }
  }
}
fn compound(fw: usize, fh: usize, cs: ChromaSampling, p: usize, w: usize, h: usize, mvs: &[(i16, i16)]) {
  nd::merge_lazy();
  let (f, vals) = fi(fw, fh, cs, 2);
  let (sx, sy) = if p == 0 { (0, 0) } else { cs.get_decimation().unwrap() };
  let (pw, ph) = ((fw + sx) >> sx, (fh + sy) >> sy);
  let mut buf = InterCompoundBuffers::default();
  for (i, &(row, col)) in mvs.iter().enumerate() {
    let m = [MotionVector { row, col }, MotionVector { row: mvs[(i + 1) % mvs.len()].0, col: mvs[(i + 2) % mvs.len()].1 }];
    let mut o = Plane::<u8>::new(w, h, 0, 0, 0, 0);
    let po = PlaneOffset { x: w as isize, y: 0 };
    let tr = TileRect { x: 0, y: 0, width: fw, height: fh };
    PredictionMode::NEW_NEWMV.predict_inter(&f, tr, p, po, &mut o.as_region_mut(), w, h, [RefType::LAST_FRAME, RefType::ALTREF_FRAME], m, &mut buf);
    let e: Vec<Vec<i32>> =
      (0..2).map(|k| want(&vals[k][p], pw as isize, ph as isize, (sx, sy), w as isize, 0, w, h, m[k], true)).collect();
    for i in 0..w * h {
      assert!(o.p(i % w, i / w) as i32 == sp::average(e[0][i], e[1][i], 8), "compound prediction differs");
    }
  }
}
/// near, far and extreme vectors of every fraction
fn mvs(k: usize) -> Vec<(i16, i16)> {
  let a = [0i16, 3, -5, 8, -16, 37, -62, 131, -259, 512, -1025, 3001, -16383, 16383, -8190, 8201, 1, -1, 7, -7, 100, -100];
  (0..a.len()).map(|i| (a[i], a[(i * 5 + k) % a.len()])).collect()
}
const WHOLE: TileRect = TileRect { x: 0, y: 0, width: 64, height: 64 };

harnesses! {
  mc_p4x4 { puts(4, 4, 8, &ALL, &some()) }
  mc_p4x4_f { puts(4, 4, 8, &DIAG, &fracs()) }
  mc_p2x2 { puts(2, 2, 8, &ALL, &some()) }
  mc_p2x8 { puts(2, 8, 8, &ALL, &some()) }
  mc_p8x2 { puts(8, 2, 8, &ALL, &some()) }
  mc_p8x8 { puts(8, 8, 8, &DIAG, &some()) }
  mc_p8x4_10 { puts(8, 4, 10, &DIAG, &some()) }
  mc_p4x8_10 { puts(4, 8, 10, &ALL, &some()) }
  mc_p4x8_12 { puts(4, 8, 12, &ALL, &some()) }
  mc_p8x8_12 { puts(8, 8, 12, &DIAG, &some()) }
  mc_p16x8 { puts(16, 8, 8, &[(0, 0), (1, 2)], &some()) }
  mc_p32x16_10 { puts(32, 16, 10, &[(0, 0)], &[(5, 9), (0, 2), (14, 0)]) }
  mc_p64x32 { puts(64, 32, 8, &[(0, 0)], &[(3, 11), (0, 0)]) }
  mc_a4x4 { avgs(4, 4, 8, &ALL, &some()) }
  mc_a4x4_10 { avgs(4, 4, 10, &ALL, &some()) }
  mc_a4x4_12 { avgs(4, 4, 12, &ALL, &some()) }
  mc_a8x8 { avgs(8, 8, 8, &DIAG, &some()) }
  mc_a8x8_10a { avgs(8, 8, 10, &[(0, 0)], &some()) }
  mc_a8x8_10b { avgs(8, 8, 10, &[(1, 1)], &some()) }
  mc_a8x8_12a { avgs(8, 8, 12, &[(0, 0)], &some()) }
  mc_a8x8_12b { avgs(8, 8, 12, &[(1, 1)], &some()) }
  mc_a16x2_12 { avgs(16, 2, 12, &DIAG, &some()) }
  mc_a64x32 { avgs(64, 32, 8, &[(0, 0)], &[(3, 11), (0, 7)]) }
  mc_y { predict(30, 22, ChromaSampling::Cs420, 0, 8, 8, &mvs(3), WHOLE) }
  mc_y16 { predict(40, 40, ChromaSampling::Cs420, 0, 16, 16, &mvs(4)[..12], TileRect { x: 0, y: 0, width: 40, height: 40 }) }
  mc_u { predict(30, 22, ChromaSampling::Cs420, 1, 4, 4, &mvs(7), WHOLE) }
  mc_v { predict(33, 19, ChromaSampling::Cs420, 2, 8, 4, &mvs(9), WHOLE) }
  mc_u422 { predict(30, 23, ChromaSampling::Cs422, 1, 4, 8, &mvs(5), WHOLE) }
  mc_v444 { predict(26, 22, ChromaSampling::Cs444, 2, 8, 8, &mvs(8), WHOLE) }
  mc_tile { predict(130, 72, ChromaSampling::Cs420, 1, 4, 4, &mvs(6)[..8], TileRect { x: 64, y: 0, width: 66, height: 72 }) }
  mc_cy { compound(30, 22, ChromaSampling::Cs420, 0, 8, 8, &mvs(3)) }
  mc_cu { compound(30, 22, ChromaSampling::Cs420, 1, 4, 4, &mvs(5)) }
}
