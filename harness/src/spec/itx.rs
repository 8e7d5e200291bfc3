//! Inverse transforms, transcribed from the AV1 specification section 7.13.
//! The additions inside the butterflies clip to the same range that section
//! requires intermediate values to fit in, as every decoder implementation does.

static COS128: [i32; 65] = [
  4096, 4095, 4091, 4085, 4076, 4065, 4052, 4036, 4017, 3996, 3973, 3948, 3920, 3889, 3857, 3822, 3784, 3745, 3703,
  3659, 3612, 3564, 3513, 3461, 3406, 3349, 3290, 3229, 3166, 3102, 3035, 2967, 2896, 2824, 2751, 2675, 2598, 2520,
  2440, 2359, 2276, 2191, 2106, 2019, 1931, 1842, 1751, 1660, 1567, 1474, 1380, 1285, 1189, 1092, 995, 897, 799, 700,
  601, 501, 401, 301, 201, 101, 0,
];

fn cos128(angle: i32) -> i32 {
  let a = angle & 255;
  if a <= 64 {
    COS128[a as usize]
  } else if a <= 128 {
    -COS128[(128 - a) as usize]
  } else if a <= 192 {
    -COS128[(a - 128) as usize]
  } else {
    COS128[(256 - a) as usize]
  }
}
fn sin128(angle: i32) -> i32 {
  cos128(angle - 64)
}
fn brev(n: usize, x: usize) -> usize {
  let mut r = 0;
  for i in 0..n {
    r |= ((x >> i) & 1) << (n - 1 - i);
  }
  r
}
fn round2(x: i32, n: u32) -> i32 {
  if n == 0 {
    x
  } else {
    x.wrapping_add(1 << (n - 1)) >> n
  }
}
pub fn clip(x: i32, bits: u32) -> i32 {
  let m = ((1i64 << (bits - 1)) - 1) as i32;
  if x > m {
    m
  } else if x < -m - 1 {
    -m - 1
  } else {
    x
  }
}

struct T<'a> {
  t: &'a mut [i32],
  r: u32,
}
impl T<'_> {
  fn b(&mut self, a: usize, b: usize, angle: i32, flip: bool) {
    let (c, s) = (cos128(angle), sin128(angle));
    let (ta, tb) = (self.t[a], self.t[b]);
    let x = round2(ta.wrapping_mul(c).wrapping_add(tb.wrapping_mul(-s)), 12);
    let y = round2(ta.wrapping_mul(s).wrapping_add(tb.wrapping_mul(c)), 12);
    if flip {
      self.t[a] = y;
      self.t[b] = x;
    } else {
      self.t[a] = x;
      self.t[b] = y;
    }
  }
  fn h(&mut self, a: usize, b: usize, flip: bool) {
    let (a, b) = if flip { (b, a) } else { (a, b) };
    let (x, y) = (self.t[a], self.t[b]);
    self.t[a] = clip(x.wrapping_add(y), self.r);
    self.t[b] = clip(x.wrapping_sub(y), self.r);
  }
  fn dct(&mut self, n: usize) {
    let n0 = 1 << n;
    let mut c = [0; 64];
    c[..n0].copy_from_slice(&self.t[..n0]);
    for i in 0..n0 {
      self.t[i] = c[brev(n, i)];
    }
    let f = |x: usize| x as i32;
    if n == 6 {
      for i in 0..16 {
        self.b(32 + i, 63 - i, 63 - 4 * f(brev(4, i)), false);
      }
    }
    if n >= 5 {
      for i in 0..8 {
        self.b(16 + i, 31 - i, 6 + f(brev(3, 7 - i) << 3), false);
      }
    }
    if n == 6 {
      for i in 0..16 {
        self.h(32 + i * 2, 33 + i * 2, i & 1 == 1);
      }
    }
    if n >= 4 {
      for i in 0..4 {
        self.b(8 + i, 15 - i, 12 + f(brev(2, 3 - i) << 4), false);
      }
    }
    if n >= 5 {
      for i in 0..8 {
        self.h(16 + 2 * i, 17 + 2 * i, i & 1 == 1);
      }
    }
    if n == 6 {
      for i in 0..4 {
        for j in 0..2 {
          self.b(62 - i * 4 - j, 33 + i * 4 + j, 60 - 16 * f(brev(2, i)) + 64 * f(j), true);
        }
      }
    }
    if n >= 3 {
      for i in 0..2 {
        self.b(4 + i, 7 - i, 56 - 32 * f(i), false);
      }
    }
    if n >= 4 {
      for i in 0..4 {
        self.h(8 + 2 * i, 9 + 2 * i, i & 1 == 1);
      }
    }
    if n >= 5 {
      for i in 0..2 {
        for j in 0..2 {
          self.b(30 - 4 * i - j, 17 + 4 * i + j, 24 + (f(j) << 6) + ((1 - f(i)) << 5), true);
        }
      }
    }
    if n == 6 {
      for i in 0..8 {
        for j in 0..2 {
          self.h(32 + i * 4 + j, 35 + i * 4 - j, i & 1 == 1);
        }
      }
    }
    for i in 0..2 {
      self.b(2 * i, 2 * i + 1, 32 + 16 * f(i), i == 0);
    }
    if n >= 3 {
      for i in 0..2 {
        self.h(4 + 2 * i, 5 + 2 * i, i == 1);
      }
    }
    if n >= 4 {
      for i in 0..2 {
        self.b(14 - i, 9 + i, 48 + 64 * f(i), true);
      }
    }
    if n >= 5 {
      for i in 0..4 {
        for j in 0..2 {
          self.h(16 + 4 * i + j, 19 + 4 * i - j, i & 1 == 1);
        }
      }
    }
    if n == 6 {
      for i in 0..2 {
        for j in 0..4 {
          self.b(61 - i * 8 - j, 34 + i * 8 + j, 56 - f(i) * 32 + (f(j) >> 1) * 64, true);
        }
      }
    }
    for i in 0..2 {
      self.h(i, 3 - i, false);
    }
    if n >= 3 {
      self.b(6, 5, 32, true);
    }
    if n >= 4 {
      for i in 0..2 {
        for j in 0..2 {
          self.h(8 + 4 * i + j, 11 + 4 * i - j, i == 1);
        }
      }
    }
    if n >= 5 {
      for i in 0..4 {
        self.b(29 - i, 18 + i, 48 + (f(i) >> 1) * 64, true);
      }
    }
    if n == 6 {
      for i in 0..4 {
        for j in 0..4 {
          self.h(32 + 8 * i + j, 39 + 8 * i - j, i & 1 == 1);
        }
      }
    }
    if n >= 3 {
      for i in 0..4 {
        self.h(i, 7 - i, false);
      }
    }
    if n >= 4 {
      for i in 0..2 {
        self.b(13 - i, 10 + i, 32, true);
      }
    }
    if n >= 5 {
      for i in 0..2 {
        for j in 0..4 {
          self.h(16 + 8 * i + j, 23 + 8 * i - j, i == 1);
        }
      }
    }
    if n == 6 {
      for i in 0..8 {
        self.b(59 - i, 36 + i, if i < 4 { 48 } else { 112 }, true);
      }
    }
    if n >= 4 {
      for i in 0..8 {
        self.h(i, 15 - i, false);
      }
    }
    if n >= 5 {
      for i in 0..4 {
        self.b(27 - i, 20 + i, 32, true);
      }
    }
    if n == 6 {
      for i in 0..8 {
        self.h(32 + i, 47 - i, false);
        self.h(48 + i, 63 - i, true);
      }
    }
    if n >= 5 {
      for i in 0..16 {
        self.h(i, 31 - i, false);
      }
    }
    if n == 6 {
      for i in 0..8 {
        self.b(55 - i, 40 + i, 32, true);
      }
      for i in 0..32 {
        self.h(i, 63 - i, false);
      }
    }
  }
  fn adst4(&mut self) {
    let t = &mut self.t;
    let (s1, s2, s3, s4) = (1321, 2482, 3344, 3803);
    let a0 = s1 * t[0];
    let a1 = s2 * t[0];
    let a2 = s3 * t[1];
    let a3 = s4 * t[2];
    let a4 = s1 * t[2];
    let a5 = s2 * t[3];
    let a6 = s4 * t[3];
    let b7 = t[0] - t[2] + t[3];
    let a0 = a0 + a3;
    let a1 = a1 - a4;
    let a3 = a2;
    let a2 = s3 * b7;
    let a0 = a0 + a5;
    let a1 = a1 - a6;
    t[0] = round2(a0 + a3, 12);
    t[1] = round2(a1 + a3, 12);
    t[2] = round2(a2, 12);
    t[3] = round2(a0 + a1 - a3, 12);
  }
  fn adst_in(&mut self, n0: usize) {
    let mut c = [0; 16];
    c[..n0].copy_from_slice(&self.t[..n0]);
    for i in 0..n0 {
      self.t[i] = c[if i & 1 == 1 { i - 1 } else { n0 - i - 1 }];
    }
  }
  fn adst_out(&mut self, n: usize) {
    let n0 = 1 << n;
    let mut v = [0; 16];
    v[..n0].copy_from_slice(&self.t[..n0]);
    for i in 0..n0 {
      let a = (i >> 3) & 1;
      let b = ((i >> 2) & 1) ^ ((i >> 3) & 1);
      let c = ((i >> 1) & 1) ^ ((i >> 2) & 1);
      let d = (i & 1) ^ ((i >> 1) & 1);
      let idx = ((d << 3) | (c << 2) | (b << 1) | a) >> (4 - n);
      self.t[i] = if i & 1 == 1 { -v[idx] } else { v[idx] };
    }
  }
  fn adst8(&mut self) {
    self.adst_in(8);
    for i in 0..4 {
      self.b(2 * i, 2 * i + 1, 60 - 16 * i as i32, true);
    }
    for i in 0..4 {
      self.h(i, 4 + i, false);
    }
    for i in 0..2 {
      self.b(4 + 3 * i, 5 + i, 48 - 32 * i as i32, true);
    }
    for i in 0..2 {
      for j in 0..2 {
        self.h(4 * j + i, 2 + 4 * j + i, false);
      }
    }
    for i in 0..2 {
      self.b(2 + 4 * i, 3 + 4 * i, 32, true);
    }
    self.adst_out(3);
  }
  fn adst16(&mut self) {
    self.adst_in(16);
    for i in 0..8 {
      self.b(2 * i, 2 * i + 1, 62 - 8 * i as i32, true);
    }
    for i in 0..8 {
      self.h(i, 8 + i, false);
    }
    for i in 0..2 {
      self.b(8 + 2 * i, 9 + 2 * i, 56 - 32 * i as i32, true);
      self.b(13 + 2 * i, 12 + 2 * i, 8 + 32 * i as i32, true);
    }
    for i in 0..4 {
      for j in 0..2 {
        self.h(8 * j + i, 4 + 8 * j + i, false);
      }
    }
    for i in 0..2 {
      for j in 0..2 {
        self.b(4 + 8 * j + 3 * i, 5 + 8 * j + i, 48 - 32 * i as i32, true);
      }
    }
    for i in 0..2 {
      for j in 0..4 {
        self.h(4 * j + i, 2 + 4 * j + i, false);
      }
    }
    for i in 0..4 {
      self.b(2 + 4 * i, 3 + 4 * i, 32, true);
    }
    self.adst_out(4);
  }
  fn identity(&mut self, n: usize) {
    for x in self.t[..1 << n].iter_mut() {
      *x = match n {
        2 => round2(*x * 5793, 12),
        3 => *x * 2,
        4 => round2(*x * 11586, 12),
        _ => *x * 4,
      };
    }
  }
  fn wht(&mut self, shift: u32) {
    let t = &mut self.t;
    let mut a = t[0] >> shift;
    let mut c = t[1] >> shift;
    let mut d = t[2] >> shift;
    let mut b = t[3] >> shift;
    a += c;
    d -= b;
    let e = (a - d) >> 1;
    b = e - b;
    c = e - c;
    a -= b;
    d += c;
    t[0] = a;
    t[1] = b;
    t[2] = c;
    t[3] = d;
  }
}

/// 1D kinds: DCT, ADST (flipped or not), identity.
#[derive(Clone, Copy, PartialEq)]
pub enum K {
  Dct,
  Adst,
  Flip,
  Id,
}

/// Splits a transform type (bitstream order) into (vertical, horizontal).
pub fn kinds(tx_type: usize) -> (K, K) {
  use K::*;
  [
    (Dct, Dct),
    (Adst, Dct),
    (Dct, Adst),
    (Adst, Adst),
    (Flip, Dct),
    (Dct, Flip),
    (Flip, Flip),
    (Adst, Flip),
    (Flip, Adst),
    (Id, Id),
    (Dct, Id),
    (Id, Dct),
    (Adst, Id),
    (Id, Adst),
    (Flip, Id),
    (Id, Flip),
  ][tx_type]
}

fn one(t: &mut [i32], n: usize, k: K, r: u32) {
  let mut t = T { t, r };
  match k {
    K::Dct => t.dct(n),
    K::Id => t.identity(n),
    _ => match n {
      2 => t.adst4(),
      3 => t.adst8(),
      _ => t.adst16(),
    },
  }
}

fn row_shift(lw: usize, lh: usize) -> u32 {
  match (lw.min(lh), lw.max(lh)) {
    (2, 2) => 0,
    (3, 3) => 1,
    (4, 4) | (5, 5) | (6, 6) => 2,
    (2, 3) => 0,
    (3, 4) | (4, 5) | (5, 6) => 1,
    (2, 4) => 1,
    (3, 5) | (4, 6) => 2,
    _ => unreachable!(),
  }
}

/// Residual of a `1<<lw` x `1<<lh` block, row-major; `coef(row, col)`.
pub fn inverse(coef: &dyn Fn(usize, usize) -> i32, lw: usize, lh: usize, tx_type: usize, bd: u32) -> Vec<i32> {
  let (w, h) = (1 << lw, 1 << lh);
  let (kv, kh) = kinds(tx_type);
  let mut res = vec![0i32; w * h];
  for i in 0..h.min(32) {
    let t = &mut res[i * w..(i + 1) * w];
    for j in 0..w.min(32) {
      t[j] = coef(i, j);
      if lw.abs_diff(lh) == 1 {
        t[j] = round2(t[j] * 2896, 12);
      }
      t[j] = clip(t[j], bd + 8);
    }
    one(t, lw, kh, bd + 8);
    for x in t {
      *x = round2(*x, row_shift(lw, lh));
    }
  }
  let r = (bd + 6).max(16);
  for j in 0..w {
    let mut t = [0i32; 64];
    for i in 0..h {
      t[i] = clip(res[i * w + j], r);
    }
    one(&mut t[..h], lh, kv, r);
    for i in 0..h {
      res[i * w + j] = round2(t[i], 4);
    }
  }
  let mut out = vec![0i32; w * h];
  for i in 0..h {
    for j in 0..w {
      let y = if kv == K::Flip { h - 1 - i } else { i };
      let x = if kh == K::Flip { w - 1 - j } else { j };
      out[y * w + x] = res[i * w + j];
    }
  }
  out
}

pub fn inverse_wht(coef: &dyn Fn(usize, usize) -> i32) -> Vec<i32> {
  let mut res = vec![0i32; 16];
  for i in 0..4 {
    for j in 0..4 {
      res[i * 4 + j] = coef(i, j);
    }
    T { t: &mut res[i * 4..i * 4 + 4], r: 32 }.wht(2);
  }
  for j in 0..4 {
    let mut t = [0; 4];
    for i in 0..4 {
      t[i] = res[i * 4 + j];
    }
    T { t: &mut t, r: 32 }.wht(0);
    for i in 0..4 {
      res[i * 4 + j] = t[i];
    }
  }
  res
}
