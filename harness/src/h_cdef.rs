//! CDEF against the specification's, over free samples.
use crate::nd;
use crate::spec::cdef as sp;
use rav1e::prelude::*;
use rav1e::verif::cdef::*;
use rav1e::verif::cpu::CpuFeatureLevel;
use rav1e::verif::ctx::*;
use rav1e::verif::enc::*;
use rav1e::verif::frame::*;
use rav1e::verif::tiling::*;
use rav1e::verif::util::*;
use std::sync::Arc;

const CPU: CpuFeatureLevel = CpuFeatureLevel::RUST;

/// direction search over a free 8x8 block
fn dir<T: Pixel>(bd: usize) {
  nd::merge_lazy();
  let mut p = Plane::<T>::new(8, 8, 0, 0, 0, 0);
  let mut v = [0i32; 64];
  let s = p.cfg.stride;
  for y in 0..8 {
    for x in 0..8 {
      let k = nd::i32_in(0, (1 << bd) - 1);
      v[y * 8 + x] = k;
      p.data[(y + p.cfg.yorigin) * s + x + p.cfg.xorigin] = T::cast_from(k);
    }
  }
  let mut var = 0u32;
  let d = cdef_find_dir(&p.slice(PlaneOffset { x: 0, y: 0 }), &mut var, bd - 8, CPU);
  let (wd, wv) = sp::direction(&|y, x| v[y * 8 + x], bd);
  assert!(d as usize == wd, "direction differs from the specification's");
  assert!(var as i32 == wv, "variance differs from the specification's");
}

/// the filter over free samples; `edges` lists the sides that exist
fn filter<T: Pixel>(bd: usize, sx: usize, sy: usize, edges: u8, dirs: &[usize], pri: &[i32], sec: &[i32], damp: &[i32]) {
  nd::merge_lazy();
  let (w, h) = (8 >> sx, 8 >> sy);
  let mut p = Plane::<T>::new(w, h, sx, sy, 2, 2);
  let s = p.cfg.stride;
  let (ox, oy) = (p.cfg.xorigin, p.cfg.yorigin);
  let mut v = [0i32; 144];
  for y in 0..h + 4 {
    for x in 0..w + 4 {
      let k = nd::i32_in(0, (1 << bd) - 1);
      v[y * 12 + x] = k;
      p.data[(y + oy - 2) * s + x + ox - 2] = T::cast_from(k);
    }
  }
  let at = |y: isize, x: isize| {
    let out = (edges & CDEF_HAVE_LEFT == 0 && x < 0)
      || (edges & CDEF_HAVE_RIGHT == 0 && x >= w as isize)
      || (edges & CDEF_HAVE_TOP == 0 && y < 0)
      || (edges & CDEF_HAVE_BOTTOM == 0 && y >= h as isize);
    (!out).then(|| v[((y + 2) * 12 + x + 2) as usize])
  };
  for &dir in dirs {
    for &pr in pri {
      for &se in sec {
        for &da in damp {
          let mut q = Plane::<T>::new(w, h, sx, sy, 0, 0);
          let (pr, se, da) = (pr << (bd - 8), se << (bd - 8), da + bd as i32 - 8);
          unsafe {
            let src = p.data.as_ptr().add(oy * s + ox);
            rav1e::verif::cdef_block(&mut q.as_region_mut(), src, s as isize, (pr, se), dir, da, bd, (sx, sy), edges);
          }
          for y in 0..h {
            for x in 0..w {
              let g: i32 = q.p(x, y).into();
              let want = sp::sample(&at, y as isize, x as isize, pr, se, da, dir, bd);
              assert!(g == want, "filtered sample differs from the specification's");
            }
          }
        }
      }
    }
  }
}

/// A whole picture: which blocks are filtered, with which strengths, and what
/// lies outside.  The samples of the blocks listed in `free` are free, the rest
/// are a fixed texture.
fn picture<T: Pixel>(bd: usize, fw: usize, fh: usize, cs: ChromaSampling, free: &dyn Fn(usize, usize, usize) -> bool, strengths: &[(u8, u8)], damping: u8) {
  nd::merge_lazy();
  let mut c = EncoderConfig::default();
  c.width = fw;
  c.height = fh;
  c.bit_depth = bd;
  c.chroma_sampling = cs;
  let seq = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<T>::new(Arc::new(c), seq);
  fi.coded_frame_data = None;
  fi.cdef_damping = damping;
  for (i, s) in strengths.iter().enumerate() {
    fi.cdef_y_strengths[i] = s.0;
    fi.cdef_uv_strengths[i] = s.1;
  }
  let mut fs = FrameState::new(&fi);
  let planes = if cs == ChromaSampling::Cs400 { 1 } else { 3 };
  let mut v: Vec<Vec<i32>> = vec![];
  {
    let r = Arc::make_mut(&mut fs.rec);
    for k in 0..planes {
      let p = &mut r.planes[k];
      let (w, h, s, ox, oy) = (p.cfg.width, p.cfg.height, p.cfg.stride, p.cfg.xorigin, p.cfg.yorigin);
      let mut pv = vec![0i32; w * h];
      for y in 0..h {
        for x in 0..w {
          let t = if free(k, y, x) {
            nd::i32_in(0, (1 << bd) - 1)
          } else {
            // stripes whose direction changes from block to block
            let (a, b) = [(1, 1), (1, 2), (0, 1), (2, -1), (1, -1), (2, 1), (1, 0), (-1, 2)][(x / 8 + y / 8 * 3) & 7];
            let t = (a * x as i32 + b * y as i32).rem_euclid(5) * 9 + ((x * 7 + y * 13) & 3) as i32 + 90;
            t << (bd - 8)
          };
          pv[y * w + x] = t;
          p.data[(y + oy) * s + x + ox] = T::cast_from(t);
        }
      }
      v.push(pv);
    }
  }
  let input = (*fs.rec).clone();
  let mut fb = FrameBlocks::new(fi.w_in_b, fi.h_in_b);
  let (cols, rows) = (fi.w_in_b, fi.h_in_b);
  let mut skip = vec![false; cols * rows];
  for y in 0..rows {
    for x in 0..cols {
      let s = if free(0, y * 4, x * 4) { true } else if (x ^ y) & 2 != 0 { nd::boolean() } else { (x * 5 + y * 3) % 4 != 0 };
      skip[y * cols + x] = s;
      fb[y][x].skip = s;
    }
  }
  let mut idx = vec![];
  let sbc = (cols + 15) / 16;
  for sy in 0..(rows + 15) / 16 {
    for sx in 0..sbc {
      let i = (sx + 2 * sy + 1) % strengths.len();
      idx.push(i);
      fb.as_tile_blocks_mut().set_cdef(TileSuperBlockOffset(SuperBlockOffset { x: sx, y: sy }), i as u8);
    }
  }
  {
    let r = Arc::make_mut(&mut fs.rec);
    let tb = fb.as_tile_blocks();
    cdef_filter_tile(&fi, &input, &tb, &mut whole(r));
  }
  for by in 0..rows / 2 {
    for bx in 0..cols / 2 {
      let i = idx[by / 8 * sbc + bx / 8];
      let (ys, us) = strengths[i];
      let sec = |s: u8| if s & 3 == 3 { 4 } else { (s & 3) as i32 };
      let sk = (0..4).all(|k| skip[(by * 2 + k / 2) * cols + bx * 2 + k % 2]);
      let w0 = input.planes[0].cfg.width;
      let (yd, var) = sp::direction(&|y, x| v[0][(by * 8 + y) * w0 + bx * 8 + x], bd);
      for k in 0..planes {
        let g = &fs.rec.planes[k];
        let (sx, sy) = (g.cfg.xdec, g.cfg.ydec);
        let sh = bd - 8;
        let (pri, se, damp, d);
        if k == 0 {
          let p = ((ys >> 2) as i32) << sh;
          d = if p == 0 { 0 } else { yd };
          pri = sp::adjust(p, var);
          se = sec(ys) << sh;
          damp = damping as i32 + sh as i32;
        } else {
          pri = ((us >> 2) as i32) << sh;
          d = if pri == 0 { 0 } else { sp::UV_DIR[sx][sy][yd] };
          se = sec(us) << sh;
          damp = damping as i32 + sh as i32 - 1;
        }
        let (w, h) = (g.cfg.width as isize, g.cfg.height as isize);
        let at = |y: isize, x: isize| (y >= 0 && x >= 0 && y < h && x < w).then(|| v[k][(y * w + x) as usize]);
        for y in 0..8 >> sy {
          for x in 0..8 >> sx {
            let (fy, fx) = ((by * 8 >> sy) + y, (bx * 8 >> sx) + x);
            let got: i32 = g.p(fx, fy).into();
            let f = sp::sample(&at, fy as isize, fx as isize, pri, se, damp, d, bd);
            let want = if sk { v[k][fy * w as usize + fx] } else { f };
            assert!(got == want, "picture differs from the specification's after CDEF");
          }
        }
      }
    }
  }
}

fn whole<T: Pixel>(f: &mut Frame<T>) -> TileMut<'_, T> {
  let PlaneConfig { width, height, .. } = f.planes[0].cfg;
  TileMut::new(f, TileRect { x: 0, y: 0, width, height })
}
const ALL: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
/// every combination of missing sides
fn sides<T: Pixel>(bd: usize, sx: usize, sy: usize) {
  for e in 0..16u8 {
    filter::<T>(bd, sx, sy, e, &[e as usize & 7, (e as usize + 3) & 7], &[5], &[4], &[4]);
  }
}
/// strengths of the primary filter after its adjustment
const PRI: [i32; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
const NO: fn(usize, usize, usize) -> bool = |_, _, _| false;
const CHROMA: fn(usize, usize, usize) -> bool = |p, _, _| p > 0;
/// luma outside of the blocks whose direction is searched
const RIM: fn(usize, usize, usize) -> bool = |p, y, x| p > 0 || (x / 8 ^ y / 8) & 1 != 0;

harnesses! {
  cdef_dir8 { dir::<u8>(8) }
  cdef_dir10 { dir::<u16>(10) }
  cdef_dir12 { dir::<u16>(12) }
  cdef_fa8 { filter::<u8>(8, 0, 0, CDEF_HAVE_ALL, &ALL, &[5], &[2], &[3]) }
  cdef_fb8 { filter::<u8>(8, 0, 0, CDEF_HAVE_ALL, &[6], &[0, 3, 14], &[0, 1, 4], &[5]) }
  cdef_fa10 { filter::<u16>(10, 0, 0, CDEF_HAVE_ALL, &[0, 3], &[0, 9], &[1], &[3]) }
  cdef_fa12 { filter::<u16>(12, 0, 0, CDEF_HAVE_ALL, &[2], &[0, 7], &[0, 4], &[5]) }
  cdef_u8 { filter::<u8>(8, 1, 1, CDEF_HAVE_ALL, &ALL, &[2, 7], &[0, 4], &[4]) }
  cdef_u8p { filter::<u8>(8, 1, 1, CDEF_HAVE_ALL, &[3], &PRI, &[0, 2], &[3]) }
  cdef_u8d { filter::<u8>(8, 1, 1, CDEF_HAVE_ALL, &[7], &[0, 1, 4, 9, 15], &[0, 4], &[2, 5, 6]) }
  cdef_u8h { filter::<u8>(8, 1, 0, CDEF_HAVE_ALL, &ALL, &[5], &[1], &[2, 5]) }
  cdef_u10 { filter::<u16>(10, 1, 1, CDEF_HAVE_ALL, &[1, 4, 6], &[0, 2, 7], &[0, 4], &[2]) }
  cdef_u10d { filter::<u16>(10, 1, 1, CDEF_HAVE_ALL, &[5], &[1, 4, 15], &[1, 2], &[3, 6]) }
  cdef_u12 { filter::<u16>(12, 1, 1, CDEF_HAVE_ALL, &[0, 2], &[1, 15], &[1, 4], &[6]) }
  cdef_s8 { sides::<u8>(8, 0, 0) }
  cdef_s8u { sides::<u8>(8, 1, 1) }
  cdef_s8h { sides::<u8>(8, 1, 0) }
  cdef_s10 { sides::<u16>(10, 1, 1) }
  cdef_p16 { picture::<u8>(8, 16, 16, ChromaSampling::Cs420, &NO, &[(5 * 4 + 2, 3 * 4 + 1)], 3) }
  cdef_p420 { picture::<u8>(8, 16, 24, ChromaSampling::Cs420, &CHROMA, &[(9 * 4 + 3, 6 * 4 + 3)], 5) }
  cdef_p422 { picture::<u8>(8, 16, 16, ChromaSampling::Cs422, &CHROMA, &[(0, 6 * 4 + 1)], 3) }
  cdef_p444 { picture::<u8>(8, 16, 8, ChromaSampling::Cs444, &CHROMA, &[(7 * 4, 4 * 4 + 2)], 6) }
  cdef_p400 { picture::<u8>(8, 24, 40, ChromaSampling::Cs400, &NO, &[(15 * 4 + 3, 0)], 6) }
  cdef_p10 { picture::<u16>(10, 24, 24, ChromaSampling::Cs420, &CHROMA, &[(3 * 4 + 1, 5)], 4) }
  cdef_p0 { picture::<u8>(8, 24, 24, ChromaSampling::Cs420, &CHROMA, &[(2, 3)], 4) }
  cdef_pr { picture::<u8>(8, 24, 24, ChromaSampling::Cs400, &RIM, &[(6 * 4 + 1, 5)], 4) }
  cdef_pm { picture::<u8>(8, 72, 72, ChromaSampling::Cs420, &NO, &[(5 * 4 + 2, 3 * 4 + 1), (0, 9), (11 * 4 + 3, 2), (4, 0)], 3) }
  cdef_po { picture::<u8>(8, 140, 66, ChromaSampling::Cs422, &NO, &[(5 * 4 + 2, 3 * 4 + 1), (63, 63), (2, 8)], 6) }
}
