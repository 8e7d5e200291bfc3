//! Loop restoration, transcribed from the AV1 specification, section 7.17.

/// radius and noise parameter of both passes
const PARAMS: [[u32; 4]; 16] = [
  [2, 12, 1, 4],
  [2, 15, 1, 6],
  [2, 18, 1, 8],
  [2, 21, 1, 9],
  [2, 24, 1, 10],
  [2, 29, 1, 11],
  [2, 36, 1, 12],
  [2, 45, 1, 13],
  [2, 56, 1, 14],
  [2, 68, 1, 15],
  [0, 0, 1, 5],
  [0, 0, 1, 8],
  [0, 0, 1, 11],
  [0, 0, 1, 14],
  [2, 30, 0, 0],
  [2, 75, 0, 0],
];

fn round2(v: u32, n: usize) -> u32 {
  if n == 0 {
    v
  } else {
    (v + (1 << (n - 1))) >> n
  }
}

pub fn radius(set: usize, pass: usize) -> u32 {
  PARAMS[set][pass * 2]
}

pub fn units(unit: usize, size: usize) -> usize {
  ((size + unit / 2) / unit).max(1)
}

/// The self-guided filter over a `w` by `h` block; `src(y, x)` is the source
/// sample relative to the block's corner.
pub fn sgrproj(src: &dyn Fn(isize, isize) -> u32, w: usize, h: usize, set: usize, xqd: [i32; 2], bd: usize) -> Vec<i32> {
  let mut flt: [Option<Vec<u32>>; 2] = [None, None];
  for pass in 0..2 {
    let r = radius(set, pass) as isize;
    if r == 0 {
      continue;
    }
    let eps = PARAMS[set][pass * 2 + 1];
    let n = ((2 * r + 1) * (2 * r + 1)) as u32;
    let n2e = n * n * eps;
    let s = ((1 << 20) + n2e / 2) / n2e;
    let one_by_n = ((1 << 12) + n / 2) / n;
    let (aw, ah) = (w + 2, h + 2);
    let mut aa = vec![0u32; aw * ah];
    let mut bb = vec![0u32; aw * ah];
    for y in 0..ah as isize {
      if pass == 0 && (y - 1) & 1 == 0 {
        continue; // has no weight
      }
      for x in 0..aw as isize {
        let (mut a, mut b) = (0u32, 0u32);
        for dy in -r..=r {
          for dx in -r..=r {
            let c = src(y - 1 + dy, x - 1 + dx);
            a += c * c;
            b += c;
          }
        }
        let d = round2(b, bd - 8);
        let p = (round2(a, 2 * (bd - 8)) * n).saturating_sub(d * d);
        let z = round2(p * s, 20);
        let a2 = if z >= 255 {
          256
        } else if z == 0 {
          1
        } else {
          ((z << 8) + z / 2) / (z + 1)
        };
        let i = y as usize * aw + x as usize;
        aa[i] = a2;
        bb[i] = round2((256 - a2) * b * one_by_n, 12);
      }
    }
    let mut f = vec![0u32; w * h];
    for y in 0..h {
      let shift = if pass == 0 && y & 1 == 1 { 4 } else { 5 };
      for x in 0..w {
        let (mut a, mut b) = (0u32, 0u32);
        for dy in 0..3 {
          for dx in 0..3 {
            let weight = if pass == 0 {
              if (y + dy) & 1 == 1 {
                continue;
              } else if dx == 1 {
                6
              } else {
                5
              }
            } else if dx == 1 || dy == 1 {
              4
            } else {
              3
            };
            let i = (y + dy) * aw + x + dx;
            a += weight * aa[i];
            b += weight * bb[i];
          }
        }
        f[y * w + x] = round2(a * src(y as isize, x as isize) + b, 8 + shift - 4);
      }
    }
    flt[pass] = Some(f);
  }
  let (w0, w1) = (xqd[0], xqd[1]);
  let w2 = (1 << 7) - w0 - w1;
  let mut out = vec![0i32; w * h];
  for y in 0..h {
    for x in 0..w {
      let u = (src(y as isize, x as isize) << 4) as i32;
      let t = |f: &Option<Vec<u32>>| f.as_ref().map_or(u, |f| f[y * w + x] as i32);
      let v = w1 * u + w0 * t(&flt[0]) + w2 * t(&flt[1]);
      let s = (v + (1 << 10)) >> 11;
      out[y * w + x] = s.clamp(0, (1 << bd) - 1);
    }
  }
  out
}
