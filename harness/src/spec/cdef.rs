//! CDEF, from section 7.15 of the AV1 specification.
fn floor_log2(x: i32) -> i32 {
  let mut s = 0;
  let mut x = x;
  while x > 1 {
    x >>= 1;
    s += 1;
  }
  s
}
/// 7.15.2: direction and variance of an 8x8 block of luma
pub fn direction(px: &dyn Fn(usize, usize) -> i32, bd: usize) -> (usize, i32) {
  let div = [0, 840, 420, 280, 210, 168, 140, 120, 105];
  let mut cost = [0i32; 8];
  let mut partial = [[0i32; 15]; 8];
  for i in 0..8 {
    for j in 0..8 {
      let x = (px(i, j) >> (bd - 8)) - 128;
      partial[0][i + j] += x;
      partial[1][i + j / 2] += x;
      partial[2][i] += x;
      partial[3][3 + i - j / 2] += x;
      partial[4][7 + i - j] += x;
      partial[5][3 - i / 2 + j] += x;
      partial[6][j] += x;
      partial[7][i / 2 + j] += x;
    }
  }
  for i in 0..8 {
    cost[2] += partial[2][i] * partial[2][i];
    cost[6] += partial[6][i] * partial[6][i];
  }
  cost[2] *= div[8];
  cost[6] *= div[8];
  for i in 0..7 {
    cost[0] += (partial[0][i] * partial[0][i] + partial[0][14 - i] * partial[0][14 - i]) * div[i + 1];
    cost[4] += (partial[4][i] * partial[4][i] + partial[4][14 - i] * partial[4][14 - i]) * div[i + 1];
  }
  cost[0] += partial[0][7] * partial[0][7] * div[8];
  cost[4] += partial[4][7] * partial[4][7] * div[8];
  for i in [1usize, 3, 5, 7] {
    for j in 0..5 {
      cost[i] += partial[i][3 + j] * partial[i][3 + j];
    }
    cost[i] *= div[8];
    for j in 0..3 {
      cost[i] += (partial[i][j] * partial[i][j] + partial[i][10 - j] * partial[i][10 - j]) * div[2 * j + 2];
    }
  }
  let mut best = cost[0];
  let mut dir = 0;
  let mut orth = cost[4];
  for d in 1..8 {
    let more = cost[d] > best;
    best = if more { cost[d] } else { best };
    dir = if more { d } else { dir };
    orth = if more { cost[(d + 4) & 7] } else { orth };
  }
  (dir, (best - orth) >> 10)
}
pub const UV_DIR: [[[usize; 8]; 2]; 2] =
  [[[0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 2, 2, 3, 4, 6, 0]], [[7, 0, 2, 4, 5, 6, 6, 6], [0, 1, 2, 3, 4, 5, 6, 7]]];
const DIRECTIONS: [[[isize; 2]; 2]; 8] = [
  [[-1, 1], [-2, 2]],
  [[0, 1], [-1, 2]],
  [[0, 1], [0, 2]],
  [[0, 1], [1, 2]],
  [[1, 1], [2, 2]],
  [[1, 0], [2, 1]],
  [[1, 0], [2, 0]],
  [[1, 0], [2, -1]],
];
fn constrain(diff: i32, threshold: i32, damping: i32) -> i32 {
  if threshold == 0 {
    return 0;
  }
  let adj = (damping - floor_log2(threshold)).max(0);
  let mag = diff.abs();
  let v = (threshold - (mag >> adj)).max(0).min(mag);
  if diff < 0 {
    -v
  } else {
    v
  }
}
/// 7.15.3: one sample; `at` answers None outside of the picture
pub fn sample(at: &dyn Fn(isize, isize) -> Option<i32>, y: isize, x: isize, pri: i32, sec: i32, damping: i32, dir: usize, bd: usize) -> i32 {
  let pt = [[4, 2], [3, 3]][(pri >> (bd - 8) & 1) as usize];
  let st = [2, 1];
  let c = at(y, x).unwrap();
  let (mut sum, mut max, mut min) = (0, c, c);
  for k in 0..2 {
    for sign in [-1isize, 1] {
      let d = DIRECTIONS[dir][k];
      if let Some(p) = at(y + sign * d[0], x + sign * d[1]) {
        sum += pt[k] * constrain(p - c, pri, damping);
        max = max.max(p);
        min = min.min(p);
      }
      for off in [6usize, 2] {
        let d = DIRECTIONS[(dir + off) & 7][k];
        if let Some(s) = at(y + sign * d[0], x + sign * d[1]) {
          sum += st[k] * constrain(s - c, sec, damping);
          max = max.max(s);
          min = min.min(s);
        }
      }
    }
  }
  let v = c + ((8 + sum - (sum < 0) as i32) >> 4);
  v.max(min).min(max)
}
/// strength of the primary luma filter (7.15.1)
pub fn adjust(pri: i32, var: i32) -> i32 {
  let vs = if var >> 6 != 0 { floor_log2(var >> 6).min(12) } else { 0 };
  if var != 0 {
    (pri * (4 + vs) + 8) >> 4
  } else {
    0
  }
}
