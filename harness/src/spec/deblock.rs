//! The deblocking loop filter, from section 7.14 of the AV1 specification.

/// What the filter reads of a 4x4 luma unit.
#[derive(Clone, Copy)]
pub struct Unit {
  /// size of the block in samples
  pub bw: usize,
  pub bh: usize,
  /// size of the transforms in samples: luma, chroma
  pub tx: [(usize, usize); 2],
  pub skip: bool,
  /// reference, 0 for intra
  pub rf: usize,
  /// modeType of 7.14.4
  pub mt: usize,
  pub dlf: [i8; 4],
}
pub struct Params {
  pub level: [u8; 4],
  pub deltas: bool,
  pub ref_deltas: [i8; 8],
  pub mode_deltas: [i8; 2],
  /// (shift, multi)
  pub block: Option<(u8, bool)>,
}
fn clip3(a: i32, b: i32, x: i32) -> i32 {
  if x < a {
    a
  } else if x > b {
    b
  } else {
    x
  }
}
/// 7.14.4
fn level(q: &Params, u: &Unit, plane: usize, pass: usize) -> i32 {
  let i = if plane == 0 { pass } else { plane + 1 };
  let mut l = q.level[i] as i32;
  if let Some((sh, multi)) = q.block {
    l = clip3(0, 63, ((u.dlf[if multi { i } else { 0 }] as i32) << sh) + l);
  }
  if q.deltas {
    let n = l >> 5;
    l += (q.ref_deltas[u.rf] as i32) << n;
    if u.rf != 0 {
      l += (q.mode_deltas[u.mt] as i32) << n;
    }
    l = clip3(0, 63, l);
  }
  l
}
/// 7.14.6.2 to 7.14.6.4: `s[7 + i]` is sample i, i < 0 before the edge.
/// The level may be symbolic.
pub fn line(s: &[i32; 14], size: usize, plane: usize, lvl: i32, bd: usize) -> [i32; 14] {
  let f = |i: isize| s[(7 + i) as usize];
  let sh = bd - 8;
  let len = if size == 4 {
    4
  } else if plane > 0 {
    6
  } else {
    size
  };
  let limit = (if lvl < 1 { 1 } else { lvl }) << sh;
  let blimit = (2 * (lvl + 2) + (if lvl < 1 { 1 } else { lvl })) << sh;
  let thresh = (lvl >> 4) << sh;
  let d = |a: isize, b: isize| (f(a) - f(b)).abs();
  let hev = (d(-2, -1) > thresh) | (d(1, 0) > thresh);
  let mut no = (d(-2, -1) > limit) | (d(1, 0) > limit) | (d(-1, 0) * 2 + d(-2, 1) / 2 > blimit);
  if len >= 6 {
    no |= (d(-3, -2) > limit) | (d(2, 1) > limit);
  }
  if len >= 8 {
    no |= (d(-4, -3) > limit) | (d(3, 2) > limit);
  }
  let one = 1 << sh;
  let mut flat = size >= 8;
  if flat {
    flat &= (d(-2, -1) <= one) & (d(1, 0) <= one) & (d(-3, -1) <= one) & (d(2, 0) <= one);
    if len >= 8 {
      flat &= (d(-4, -1) <= one) & (d(3, 0) <= one);
    }
  }
  let mut flat2 = size >= 16;
  if flat2 {
    flat2 &= (d(-7, -1) <= one) & (d(6, 0) <= one) & (d(-6, -1) <= one) & (d(5, 0) <= one) & (d(-5, -1) <= one) & (d(4, 0) <= one);
  }
  // the narrow filter, by hevMask
  let narrow = |hev: bool| {
    let mut o = *s;
    let c4 = |x: i32| clip3(-(1 << (bd - 1)), (1 << (bd - 1)) - 1, x);
    let h = 0x80 << sh;
    let (ps1, ps0, qs0, qs1) = (f(-2) - h, f(-1) - h, f(0) - h, f(1) - h);
    let a = if hev { c4(ps1 - qs1) } else { 0 };
    let a = c4(a + 3 * (qs0 - ps0));
    let f1 = c4(a + 4) >> 3;
    let f2 = c4(a + 3) >> 3;
    o[7] = c4(qs0 - f1) + h;
    o[6] = c4(ps0 + f2) + h;
    if !hev {
      let r = (f1 + 1) >> 1;
      o[8] = c4(qs1 - r) + h;
      o[5] = c4(ps1 + r) + h;
    }
    o
  };
  let (n2, n4) = (narrow(true), narrow(false));
  let wide = |log2: usize| {
    let n: isize = if log2 == 4 {
      6
    } else if plane == 0 {
      3
    } else {
      2
    };
    let n2 = if log2 == 3 && plane == 0 { 0 } else { 1 };
    let mut o = *s;
    for i in -n..n {
      let mut t = 0;
      for j in -n..=n {
        let p = (i + j).clamp(-(n + 1), n);
        t += f(p) * if j.abs() <= n2 { 2 } else { 1 };
      }
      o[(7 + i) as usize] = (t + (1 << (log2 - 1))) >> log2;
    }
    o
  };
  let w3 = if size >= 8 { wide(3) } else { *s };
  let w4 = if size >= 16 { wide(4) } else { *s };
  let mut o = *s;
  for i in 0..14 {
    let w = if flat2 { w4[i] } else { w3[i] };
    let n = if hev { n2[i] } else { n4[i] };
    let v = if flat { w } else { n };
    o[i] = if no { s[i] } else { v };
  }
  o
}
/// 7.14.1 and 7.14.2 for one plane; `px[y][x]`, `u(row, col)`.
pub fn plane(px: &mut [Vec<i32>], u: &dyn Fn(usize, usize) -> Unit, q: &Params, pl: usize, sx: usize, sy: usize, fw: usize, fh: usize, bd: usize) {
  if q.level[0] == 0 && q.level[1] == 0 || pl > 0 && q.level[1 + pl] == 0 {
    return;
  }
  for pass in 0..2 {
    let (dx, dy) = (1 - pass, pass);
    for r0 in (0..(fh + 3) / 4).step_by(1 << sy) {
      for c0 in (0..(fw + 3) / 4).step_by(1 << sx) {
        let (x, y) = (c0 * 4, r0 * 4);
        if x >= fw || y >= fh || pass == 0 && x == 0 || pass == 1 && y == 0 {
          continue;
        }
        let (row, col) = (r0 | sy, c0 | sx);
        let (xp, yp) = (x >> sx, y >> sy);
        let b = u(row, col);
        let pb = u(row - (dy << sy), col - (dx << sx));
        let t = pl.min(1);
        let (size, txs, ptx, at) = if pass == 0 {
          ((b.bw >> sx).max(4), b.tx[t].0, pb.tx[t].0, xp)
        } else {
          ((b.bh >> sy).max(4), b.tx[t].1, pb.tx[t].1, yp)
        };
        if at % txs != 0 || !(at % size == 0 || !b.skip || b.rf == 0) {
          continue;
        }
        let fsize = txs.min(ptx).min(if pl == 0 { 16 } else { 8 });
        let mut lvl = level(q, &b, pl, pass);
        if lvl == 0 {
          lvl = level(q, &pb, pl, pass);
        }
        if lvl == 0 {
          continue;
        }
        let n = if fsize == 4 {
          2
        } else if pl > 0 {
          3
        } else if fsize == 8 {
          4
        } else {
          7
        };
        for i in 0..4 {
          let mut s = [0; 14];
          for k in 7 - n..7 + n {
            s[k] = if pass == 0 { px[yp + i][xp + k - 7] } else { px[yp + k - 7][xp + i] };
          }
          let o = line(&s, fsize, pl, lvl, bd);
          for k in 7 - n..7 + n {
            if pass == 0 {
              px[yp + i][xp + k - 7] = o[k];
            } else {
              px[yp + k - 7][xp + i] = o[k];
            }
          }
        }
      }
    }
  }
}
