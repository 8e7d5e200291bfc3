//! Intra prediction, specification section 7.11.2 and 7.11.5.

const OFF: usize = 16;
/// AboveRow / LeftCol with negative indices
pub struct Edge(pub Vec<i32>);
impl Edge {
  pub fn get(&self, i: isize) -> i32 {
    self.0[(i + OFF as isize) as usize]
  }
  pub fn set(&mut self, i: isize, v: i32) {
    self.0[(i + OFF as isize) as usize] = v;
  }
}
pub struct Have {
  pub left: bool,
  pub above: bool,
  pub tr: bool,
  pub bl: bool,
}

/// 7.11.2: preparation of the edges
pub fn edges(f: &dyn Fn(isize, isize) -> i32, x: isize, y: isize, w: usize, h: usize, maxx: isize, maxy: isize, a: &Have, bd: usize) -> (Edge, Edge) {
  let n = w + h;
  let (mut above, mut left) = (Edge(vec![0; 2 * n + 2 * OFF]), Edge(vec![0; 2 * n + 2 * OFF]));
  for i in 0..n as isize {
    let v = match (a.above, a.left) {
      (false, true) => f(y, x - 1),
      (false, false) => (1 << (bd - 1)) - 1,
      _ => {
        let lim = if a.tr { 2 * w as isize - 1 } else { w as isize - 1 };
        f(y - 1, maxx.min(x + i.min(lim)))
      }
    };
    above.set(i, v);
    let v = match (a.left, a.above) {
      (false, true) => f(y - 1, x),
      (false, false) => (1 << (bd - 1)) + 1,
      _ => {
        let lim = if a.bl { 2 * h as isize - 1 } else { h as isize - 1 };
        f(maxy.min(y + i.min(lim)), x - 1)
      }
    };
    left.set(i, v);
  }
  let c = match (a.above, a.left) {
    (true, true) => f(y - 1, x - 1),
    (true, false) => f(y - 1, x),
    (false, true) => f(y, x - 1),
    _ => 1 << (bd - 1),
  };
  above.set(-1, c);
  left.set(-1, c);
  (above, left)
}

fn sm(n: usize) -> &'static [i32] {
  match n {
    4 => &[255, 149, 85, 64],
    8 => &[255, 197, 146, 105, 73, 50, 37, 32],
    16 => &[255, 225, 196, 170, 145, 123, 102, 84, 68, 54, 43, 33, 26, 20, 17, 16],
    32 => &[
      255, 240, 225, 210, 196, 182, 169, 157, 145, 133, 122, 111, 101, 92, 83, 74, 66, 59, 52, 45, 39, 34, 29, 25, 21, 17, 14, 12, 10, 9, 8,
      8,
    ],
    _ => &[
      255, 248, 240, 233, 225, 218, 210, 203, 196, 189, 182, 176, 169, 163, 156, 150, 144, 138, 133, 127, 121, 116, 111, 106, 101, 96, 91, 86,
      82, 77, 73, 69, 65, 61, 57, 54, 50, 47, 44, 41, 38, 35, 32, 29, 27, 25, 22, 20, 18, 16, 15, 13, 12, 10, 9, 8, 7, 6, 6, 5, 5, 4, 4, 4,
    ],
  }
}
fn derivative(a: isize) -> isize {
  match a {
    3 => 1023,
    6 => 547,
    9 => 372,
    14 => 273,
    17 => 215,
    20 => 178,
    23 => 151,
    26 => 132,
    29 => 116,
    32 => 102,
    36 => 90,
    39 => 80,
    42 => 71,
    45 => 64,
    48 => 57,
    51 => 51,
    54 => 45,
    58 => 40,
    61 => 35,
    64 => 31,
    67 => 27,
    70 => 23,
    73 => 19,
    76 => 15,
    81 => 11,
    84 => 7,
    87 => 3,
    _ => panic!("no such angle"),
  }
}
fn strength(w: usize, h: usize, smooth: bool, delta: isize) -> usize {
  let (n, d) = (w + h, delta.unsigned_abs());
  let pick = |t: &[(usize, usize)]| t.iter().filter(|(k, _)| d >= *k).map(|(_, s)| *s).last().unwrap_or(0);
  if !smooth {
    match n {
      0..=8 => pick(&[(56, 1)]),
      9..=16 => pick(&[(40, 1)]),
      17..=24 => pick(&[(8, 1), (16, 2), (32, 3)]),
      25..=32 => pick(&[(0, 1), (4, 2), (32, 3)]),
      _ => 3,
    }
  } else {
    match n {
      0..=8 => pick(&[(40, 1), (64, 2)]),
      9..=16 => pick(&[(20, 1), (48, 2)]),
      17..=24 => pick(&[(4, 3)]),
      _ => 3,
    }
  }
}
fn use_upsample(w: usize, h: usize, smooth: bool, delta: isize) -> bool {
  let d = delta.unsigned_abs();
  if d == 0 || d >= 40 {
    false
  } else {
    w + h <= if smooth { 8 } else { 16 }
  }
}
fn filter(e: &mut Edge, sz: usize, st: usize) {
  const K: [[i32; 5]; 3] = [[0, 4, 8, 4, 0], [0, 5, 6, 5, 0], [2, 4, 4, 4, 2]];
  if st == 0 {
    return;
  }
  let t: Vec<i32> = (0..sz).map(|i| e.get(i as isize - 1)).collect();
  for i in 1..sz {
    let mut s = 0;
    for j in 0..5 {
      let k = (i as isize - 2 + j as isize).max(0).min(sz as isize - 1);
      s += K[st - 1][j] * t[k as usize];
    }
    e.set(i as isize - 1, (s + 8) >> 4);
  }
}
fn upsample(e: &mut Edge, n: usize, bd: usize) {
  let mut d = vec![0; n + 3];
  d[0] = e.get(-1);
  for i in -1..n as isize {
    d[(i + 2) as usize] = e.get(i);
  }
  d[n + 2] = e.get(n as isize - 1);
  e.set(-2, d[0]);
  for i in 0..n {
    let s = -d[i] + 9 * d[i + 1] + 9 * d[i + 2] - d[i + 3];
    let s = ((s + 8) >> 4).max(0).min((1 << bd) - 1);
    e.set(2 * i as isize - 1, s);
    e.set(2 * i as isize, d[i + 2]);
  }
}

pub enum Mode {
  Dc,
  Smooth,
  SmoothV,
  SmoothH,
  Paeth,
  /// angle
  Dir(isize),
}

/// `ef`: None when intra edge filtering is off, else the filter type
pub fn predict(m: &Mode, mut above: Edge, mut left: Edge, a: &Have, x: isize, y: isize, w: usize, h: usize, maxx: isize, maxy: isize, bd: usize, ef: Option<bool>) -> Vec<i32> {
  let mut o = vec![0; w * h];
  match m {
    Mode::Dc => {
      let (mut s, mut n) = (0, 0);
      if a.left {
        s += (0..h).map(|i| left.get(i as isize)).sum::<i32>();
        n += h as i32;
      }
      if a.above {
        s += (0..w).map(|i| above.get(i as isize)).sum::<i32>();
        n += w as i32;
      }
      let v = if n == 0 { 1 << (bd - 1) } else { (s + (n >> 1)) / n };
      o.fill(v);
    }
    Mode::Paeth => {
      for i in 0..h {
        for j in 0..w {
          let (t, l, c) = (above.get(j as isize), left.get(i as isize), above.get(-1));
          let base = t + l - c;
          let (pl, pt, pc) = ((base - l).abs(), (base - t).abs(), (base - c).abs());
          o[i * w + j] = if pl <= pt && pl <= pc { l } else if pt <= pc { t } else { c };
        }
      }
    }
    Mode::Smooth | Mode::SmoothV | Mode::SmoothH => {
      let (bl, tr) = (left.get(h as isize - 1), above.get(w as isize - 1));
      for i in 0..h {
        for j in 0..w {
          let (wy, wx) = (sm(h)[i], sm(w)[j]);
          let v = wy * above.get(j as isize) + (256 - wy) * bl;
          let z = wx * left.get(i as isize) + (256 - wx) * tr;
          o[i * w + j] = match m {
            Mode::Smooth => (v + z + 256) >> 9,
            Mode::SmoothV => (v + 128) >> 8,
            _ => (z + 128) >> 8,
          };
        }
      }
    }
    Mode::Dir(p) => {
      let p = *p;
      let (mut ua, mut ul) = (0, 0);
      if let Some(smooth) = ef {
        if p != 90 && p != 180 {
          if p > 90 && p < 180 && w + h >= 24 {
            let s = left.get(0) * 5 + above.get(-1) * 6 + above.get(0) * 5;
            let s = (s + 8) >> 4;
            left.set(-1, s);
            above.set(-1, s);
          }
          if a.above {
            let n = (w as isize).min(maxx - x + 1) as usize + if p < 90 { h } else { 0 } + 1;
            filter(&mut above, n, strength(w, h, smooth, p - 90));
          }
          if a.left {
            let n = (h as isize).min(maxy - y + 1) as usize + if p > 180 { w } else { 0 } + 1;
            filter(&mut left, n, strength(w, h, smooth, p - 180));
          }
        }
        if use_upsample(w, h, smooth, p - 90) {
          ua = 1;
          upsample(&mut above, w + if p < 90 { h } else { 0 }, bd);
        }
        if use_upsample(w, h, smooth, p - 180) {
          ul = 1;
          upsample(&mut left, h + if p > 180 { w } else { 0 }, bd);
        }
      }
      let dx = if p < 90 { derivative(p) } else if p > 90 && p < 180 { derivative(180 - p) } else { 0 };
      let dy = if p > 90 && p < 180 { derivative(p - 90) } else if p > 180 { derivative(270 - p) } else { 0 };
      let lerp = |e: &Edge, b: isize, s: i32| (e.get(b) * (32 - s) + e.get(b + 1) * s + 16) >> 5;
      for i in 0..h as isize {
        for j in 0..w as isize {
          o[i as usize * w + j as usize] = if p < 90 {
            let idx = (i + 1) * dx;
            let base = (idx >> (6 - ua)) + (j << ua);
            let max = ((w + h - 1) as isize) << ua;
            if base < max { lerp(&above, base, ((idx << ua) >> 1 & 31) as i32) } else { above.get(max) }
          } else if p > 90 && p < 180 {
            let idx = (j << 6) - (i + 1) * dx;
            let base = idx >> (6 - ua);
            if base >= -(1 << ua) {
              lerp(&above, base, ((idx << ua) >> 1 & 31) as i32)
            } else {
              let idx = (i << 6) - (j + 1) * dy;
              lerp(&left, idx >> (6 - ul), ((idx << ul) >> 1 & 31) as i32)
            }
          } else if p > 180 {
            let idx = (j + 1) * dy;
            lerp(&left, (idx >> (6 - ul)) + (i << ul), ((idx << ul) >> 1 & 31) as i32)
          } else if p == 90 {
            above.get(j)
          } else {
            left.get(i)
          };
        }
      }
    }
  }
  o
}

/// 7.11.5: `luma` reads the reconstructed luma plane, `dc` is the DC prediction
pub fn cfl(luma: &dyn Fn(usize, usize) -> i32, dc: &[i32], x: usize, y: usize, w: usize, h: usize, sx: usize, sy: usize, mw: usize, mh: usize, alpha: i32, bd: usize) -> Vec<i32> {
  let mut l = vec![0; w * h];
  let mut sum = 0;
  for i in 0..h {
    let ly = ((y << sy) + (i << sy)).min(mh - (1 << sy));
    for j in 0..w {
      let lx = ((x << sx) + (j << sx)).min(mw - (1 << sx));
      let mut t = 0;
      for dy in 0..=sy {
        for dx in 0..=sx {
          t += luma(ly + dy, lx + dx);
        }
      }
      l[i * w + j] = t << (3 - sx - sy);
      sum += l[i * w + j];
    }
  }
  let sh = (w * h).trailing_zeros();
  let avg = (sum + (1 << (sh - 1))) >> sh;
  (0..w * h)
    .map(|i| {
      let v = alpha * (l[i] - avg);
      let r = if v < 0 { -((-v + 32) >> 6) } else { (v + 32) >> 6 };
      (dc[i] + r).max(0).min((1 << bd) - 1)
    })
    .collect()
}


/// BlockDecoded (5.11.36 and clear_block_decoded_flags), with the coding order
/// of the partition tree made explicit.
pub struct Order {
  /// tile size and frame limits in 4x4 luma units, relative to the tile
  pub cols: usize,
  pub rows: usize,
  pub sx: usize,
  pub sy: usize,
}
impl Order {
  /// may a block of bw x bh units be coded at (c, r)?
  pub fn valid(&self, c: usize, r: usize, bw: usize, bh: usize) -> bool {
    let bs = bw.max(bh);
    let (pc, pr) = (c / bs * bs, r / bs * bs);
    if c >= self.cols || r >= self.rows {
      return false;
    }
    let half = bs / 2;
    let (has_rows, has_cols) = (bs == 1 || pr + half < self.rows, bs == 1 || pc + half < self.cols);
    if bw == bh {
      has_rows && has_cols
    } else if bw > bh {
      has_cols
    } else {
      has_rows
    }
  }
  /// (haveAboveRt, haveBelowLft) of transform block (bx, by), of tw x th units of
  /// the plane, of the block at (c, r)
  pub fn have(&self, c: usize, r: usize, bw: usize, bh: usize, tw: usize, th: usize, bx: usize, by: usize) -> (bool, bool) {
    let (sx, sy) = (self.sx, self.sy);
    let (sc, sr) = (c / 16 * 16, r / 16 * 16);
    let mut d = [[false; 17]; 17];
    let mut mark = |x0: usize, y0: usize, x1: usize, y1: usize| {
      for y in y0..y1.min(16) {
        for x in x0..x1.min(16) {
          d[y][x] = true;
        }
      }
    };
    // walk down the partition tree, marking what precedes the block
    let (mut pc, mut pr, mut bs) = (0, 0, 16);
    let (lc, lr) = (c - sc, r - sr);
    let all = |m: &mut dyn FnMut(usize, usize, usize, usize), c: usize, r: usize, w: usize, h: usize| m(c >> sx, r >> sy, (c + w) >> sx, (r + h) >> sy);
    while bs > bw.max(bh) {
      let half = bs / 2;
      let (qx, qy) = ((lc - pc) / half, (lr - pr) / half);
      for q in 0..qy * 2 + qx {
        all(&mut mark, pc + q % 2 * half, pr + q / 2 * half, half, half);
      }
      pc += qx * half;
      pr += qy * half;
      bs = half;
    }
    if (lc, lr) != (pc, pr) {
      all(&mut mark, pc, pr, bw, bh);
    }
    // transform blocks of this block in raster order
    let (x0, y0) = (lc >> sx, lr >> sy);
    let (nx, _) = ((bw >> sx).max(1) / tw, 0);
    for t in 0..by * nx + bx {
      let (x, y) = (x0 + t % nx * tw, y0 + t / nx * th);
      mark(x, y, x + tw, y + th);
    }
    let (w4, h4) = ((self.cols - sc) >> sx, (self.rows - sr) >> sy);
    let sb = (16 >> sx, 16 >> sy);
    let get = |x: isize, y: isize| {
      if y < 0 {
        x < w4 as isize
      } else if x < 0 {
        (y as usize) < h4 && y as usize != sb.1
      } else {
        (x as usize) < sb.0 && (y as usize) < sb.1 && d[y as usize][x as usize]
      }
    };
    let (x, y) = ((x0 + bx * tw) as isize, (y0 + by * th) as isize);
    (get(x + tw as isize, y - 1), get(x - 1, y + th as isize))
  }
}
