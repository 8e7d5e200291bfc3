//! Loop restoration against the specification's, over free samples.
use crate::nd;
use crate::spec::lrf as sp;
use rav1e::prelude::*;
use rav1e::verif::ctx::*;
use rav1e::verif::enc::*;
use rav1e::verif::frame::*;
use rav1e::verif::lrf::*;
use rav1e::verif::util::*;
use std::sync::Arc;

/// a window of free samples: plane, rows, columns
type Win = (usize, usize, usize, usize, usize);

struct Cfg<'a> {
  bd: usize,
  w: usize,
  h: usize,
  cs: ChromaSampling,
  cdef: bool,
  /// samples inside of the window are free in `lo..=hi`
  win: Win,
  lo: i32,
  hi: i32,
  /// of the units, in raster order, over and over
  sets: &'a [Option<u8>],
  /// free weights
  xq: bool,
}

/// coarse, but smooth around the window
fn texture(w: &Win, k: usize, y: usize, x: usize, salt: usize) -> i32 {
  let t = (x / 3 * 31 + y / 2 * 17 + k * 5 + (x ^ y) * 3 + salt * ((x * y + x) % 7)) % 97;
  let near = k == w.0 && y + 8 > w.1 && y < w.2 + 8 && x + 8 > w.3 && x < w.4 + 8;
  40 + if near { t % 3 } else { t } as i32
}

fn picture<T: Pixel>(c: Cfg) {
  nd::merge_lazy();
  let bd = c.bd;
  let mut e = EncoderConfig::default();
  e.width = c.w;
  e.height = c.h;
  e.bit_depth = bd;
  e.chroma_sampling = c.cs;
  let mut seq = Sequence::new(&e);
  seq.enable_restoration = true;
  seq.enable_cdef = c.cdef;
  let mut fi = FrameInvariants::<T>::new(Arc::new(e), Arc::new(seq));
  fi.coded_frame_data = None;
  let mut fs = FrameState::new(&fi);
  let planes = if c.cs == ChromaSampling::Cs400 { 1 } else { 3 };
  let mut pre = (*fs.rec).clone();
  let mut post = (*fs.rec).clone();
  let inside = |k, y, x| k == c.win.0 && (c.win.1..c.win.2).contains(&y) && (c.win.3..c.win.4).contains(&x);
  let mut vd: Vec<Vec<u32>> = vec![];
  let mut vc: Vec<Vec<u32>> = vec![];
  for k in 0..planes {
    let g = pre.planes[k].cfg.clone();
    let (pw, ph) = ((c.w + g.xdec) >> g.xdec, (c.h + g.ydec) >> g.ydec);
    let (mut d, mut q) = (vec![0; pw * ph], vec![0; pw * ph]);
    for y in 0..g.height {
      for x in 0..g.width {
        let i = (y + g.yorigin) * g.stride + x + g.xorigin;
        let (a, b) = if y >= ph || x >= pw {
          // never to be used
          (7, 250)
        } else if inside(k, y, x) {
          let a = nd::i32_in(c.lo, c.hi);
          (a, if c.cdef { nd::i32_in(c.lo, c.hi) } else { a })
        } else {
          let a = texture(&c.win, k, y, x, 0) << (bd - 8);
          (a, if c.cdef { texture(&c.win, k, y, x, 1) << (bd - 8) } else { a })
        };
        pre.planes[k].data[i] = T::cast_from(a);
        post.planes[k].data[i] = T::cast_from(b);
        if y < ph && x < pw {
          d[y * pw + x] = a as u32;
          q[y * pw + x] = b as u32;
        }
      }
    }
    vd.push(d);
    vc.push(q);
  }
  let mut n = 0;
  let mut par: Vec<Vec<Option<(usize, [i32; 2])>>> = vec![];
  for k in 0..planes {
    let g = pre.planes[k].cfg.clone();
    let (pw, ph) = ((c.w + g.xdec) >> g.xdec, (c.h + g.ydec) >> g.ydec);
    let rp = &mut fs.restoration.planes[k];
    let u = rp.cfg.unit_size;
    let (cols, rows) = (sp::units(u, pw), sp::units(u, ph));
    assert!(rp.cfg.cols == cols && rp.cfg.rows == rows, "number of restoration units");
    assert!(rp.cfg.lrf_type == RESTORE_SWITCHABLE);
    let mut pp = vec![];
    for y in 0..rows {
      for x in 0..cols {
        let s = c.sets[n % c.sets.len()];
        n += 1;
        pp.push(s.map(|set| {
          let (mut a, mut b) = if c.xq { (nd::i32_in(-96, 31), nd::i32_in(-32, 95)) } else { ((n as i32 * 41) % 128 - 96, (n as i32 * 59 + 70) % 128 - 32) };
          // what the syntax can say
          if sp::radius(set as usize, 0) == 0 {
            a = 0;
          } else if sp::radius(set as usize, 1) == 0 {
            b = (128 - a).clamp(-32, 95);
          }
          rp.units[y][x].filter = RestorationFilter::Sgrproj { set, xqd: [a as i8, b as i8] };
          (set as usize, [a, b])
        }));
      }
    }
    par.push(pp);
  }
  let mut out = post.clone();
  fs.restoration.lrf_filter_frame(&mut out, &pre, &fi);

  for k in 0..planes {
    let g = pre.planes[k].cfg.clone();
    let (pw, ph) = ((c.w + g.xdec) >> g.xdec, (c.h + g.ydec) >> g.ydec);
    let u = fs.restoration.planes[k].cfg.unit_size;
    let (cols, rows) = (sp::units(u, pw), sp::units(u, ph));
    let mut stripe = 0;
    loop {
      let s0 = (stripe as isize * 64 - 8) >> g.ydec;
      let s1 = s0 + (64 >> g.ydec) - 1;
      let y0 = s0.max(0) as usize;
      if y0 >= ph {
        break;
      }
      let y1 = (s1 as usize + 1).min(ph);
      // the rows of a stripe belong to one unit
      let ur = (((y0 << g.ydec) / 4 * 4 + 8) >> g.ydec) / u;
      let ur = ur.min(rows - 1);
      for uc in 0..cols {
        let x0 = uc * u;
        let x1 = if uc == cols - 1 { pw } else { x0 + u };
        let src = |y: isize, x: isize| {
          let (x, y) = (x + x0 as isize, y + y0 as isize);
          let x = x.min(pw as isize - 1).max(0);
          let y = y.max(0).min(ph as isize - 1);
          let at = |v: &Vec<u32>, y: isize| v[y as usize * pw + x as usize];
          if y < s0 {
            at(&vd[k], y.max(s0 - 2))
          } else if y > s1 {
            at(&vd[k], y.min(s1 + 2))
          } else {
            at(&vc[k], y)
          }
        };
        let p = par[k][ur * cols + uc];
        let (w, h) = (x1 - x0, y1 - y0);
        let want = p.map(|(set, xqd)| sp::sgrproj(&src, w, h, set, xqd, bd));
        for y in 0..h {
          for x in 0..w {
            let (py, px) = (y0 + y, x0 + x);
            let near = k == c.win.0 && py + 6 > c.win.1 && py < c.win.2 + 6 && px + 6 > c.win.3 && px < c.win.4 + 6;
            if near && !inside(k, py, px) {
              continue; // a fixed sample with free ones around
            }
            let got: i32 = out.planes[k].p(x0 + x, y0 + y).into();
            let e = match &want {
              Some(v) => v[y * w + x],
              None => vc[k][(y0 + y) * pw + x0 + x] as i32,
            };
            assert!(got == e, "restored sample differs from the specification's");
          }
        }
      }
      stripe += 1;
    }
  }
}

const D: Cfg = Cfg { bd: 8, w: 16, h: 12, cs: ChromaSampling::Cs400, cdef: true, win: (0, 0, 6, 0, 6), lo: 0, hi: 90, sets: &[Some(0)], xq: false };
use ChromaSampling::*;

/// every set of parameters, the window wandering over the picture
fn some_sets<T: Pixel>(range: std::ops::Range<u8>, bd: usize) {
  for s in range {
    let (y, x) = ((s as usize * 5) % 8, (s as usize * 7) % 12);
    let hi = if s < 14 { 90 } else { 120 } << (bd - 8);
    picture::<T>(Cfg { bd, sets: &[Some(s)], win: (0, y, y + 4, x, x + 4), hi, ..D });
  }
}

harnesses! {
  // one picture each: radii 2 and 1, 1 only, 2 only
  lrf_two { picture::<u8>(Cfg { ..D }) }
  lrf_r1 { picture::<u8>(Cfg { sets: &[Some(10)], ..D }) }
  lrf_r2 { picture::<u8>(Cfg { sets: &[Some(14)], hi: 150, ..D }) }
  lrf_sets0 { some_sets::<u8>(0..4, 8) }
  lrf_sets4 { some_sets::<u8>(4..8, 8) }
  lrf_sets8 { some_sets::<u8>(8..12, 8) }
  lrf_sets12 { some_sets::<u8>(12..16, 8) }
  lrf_full1 { picture::<u8>(Cfg { hi: 255, sets: &[Some(9)], win: (0, 3, 5, 4, 6), ..D }) }
  lrf_full2 { picture::<u8>(Cfg { hi: 255, sets: &[Some(15)], win: (0, 3, 5, 4, 6), ..D }) }
  // free weights
  lrf_xq1 { picture::<u8>(Cfg { sets: &[Some(11)], xq: true, win: (0, 2, 3, 2, 3), ..D }) }
  lrf_xq2 { picture::<u8>(Cfg { sets: &[Some(14)], xq: true, win: (0, 2, 3, 2, 3), ..D }) }
  // more bits
  lrf_b10 { picture::<u16>(Cfg { sets: &[Some(1)], bd: 10, hi: 360, ..D }) }
  lrf_b12 { picture::<u16>(Cfg { sets: &[Some(6)], bd: 12, hi: 1440, ..D }) }
  // without CDEF
  lrf_nocdef { picture::<u8>(Cfg { sets: &[Some(5)], cdef: false, ..D }) }
  // at borders of stripes, of units and of the picture
  lrf_stripe { picture::<u8>(Cfg { sets: &[Some(7)], w: 10, h: 66, win: (0, 52, 60, 2, 8), ..D }) }
  lrf_stripe2 { picture::<u8>(Cfg { sets: &[Some(3)], w: 9, h: 123, win: (0, 117, 123, 3, 9), ..D }) }
  lrf_units { picture::<u8>(Cfg { sets: &[Some(2), None, Some(12)], w: 210, h: 10, win: (0, 2, 6, 60, 68), ..D }) }
  lrf_units2 { picture::<u8>(Cfg { sets: &[Some(13), Some(1), Some(8)], w: 12, h: 210, win: (0, 52, 60, 2, 6), ..D }) }
  lrf_right { picture::<u8>(Cfg { sets: &[Some(6)], w: 75, h: 11, win: (0, 5, 11, 69, 75), ..D }) }
  lrf_c420 { picture::<u8>(Cfg { sets: &[None, Some(8), Some(2)], w: 13, h: 67, cs: Cs420, win: (1, 26, 31, 0, 7), ..D }) }
  lrf_c422 { picture::<u8>(Cfg { sets: &[Some(14), Some(0), Some(4)], w: 21, h: 60, cs: Cs422, win: (2, 53, 59, 5, 10), ..D }) }
  lrf_c444 { picture::<u8>(Cfg { sets: &[Some(5), Some(10), None], w: 12, h: 61, cs: Cs444, win: (1, 54, 60, 5, 10), ..D }) }
}
