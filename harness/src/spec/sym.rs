//! AV1 spec 8.2: the symbol decoder (init_symbol, read_symbol, read_bool,
//! read_literal), bit-exact, over a byte buffer.  CDFs are in rav1e's inverse
//! form (32768 - spec value), last element is the adaptation counter.

pub struct Dec<'a> {
  buf: &'a [u8],
  pos: usize, // bit position
  pub value: u32,
  pub range: u32,
}

impl<'a> Dec<'a> {
  fn bit(&mut self) -> u32 {
    let b = self.pos / 8;
    // Bits beyond the end of the tile data read as zero (the spec pads).
    let v = if b < self.buf.len() {
      (self.buf[b] >> (7 - (self.pos % 8))) as u32 & 1
    } else {
      0
    };
    self.pos += 1;
    v
  }
  pub fn new(buf: &'a [u8]) -> Self {
    let mut d = Dec { buf, pos: 0, value: 0, range: 1 << 15 };
    let mut v = 0;
    let mut i = 0;
    while i < 15 {
      v = (v << 1) | d.bit();
      i += 1;
    }
    d.value = ((1 << 15) - 1) ^ v;
    d
  }
  /// cdf has N symbols in cdf[0..N-1]+counter slot, i.e. `cdf.len() == N`.
  pub fn symbol(&mut self, icdf: &[u16]) -> u32 {
    let n = icdf.len() as u32;
    let mut cur = self.range;
    let mut symbol: i32 = -1;
    let mut prev;
    loop {
      symbol += 1;
      prev = cur;
      let f = if (symbol as u32) < n - 1 { icdf[symbol as usize] as u32 } else { 0 };
      cur = (((self.range >> 8) * (f >> 6)) >> 1) + 4 * (n - symbol as u32 - 1);
      if !(self.value < cur) {
        break;
      }
    }
    self.range = prev - cur;
    self.value -= cur;
    // renormalise
    let bits = 15 - (31 - self.range.leading_zeros());
    self.range <<= bits;
    let mut i = 0;
    while i < 15 {
      if i < bits {
        let b = self.bit();
        self.value = (((self.value + 1) << 1) - 1) ^ b;
      }
      i += 1;
    }
    symbol as u32
  }
  pub fn bool(&mut self, f: u16) -> bool {
    self.symbol(&[f, 0]) != 0
  }
  pub fn literal(&mut self, n: u32) -> u32 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
      x = 2 * x + self.bool(16384) as u32;
      i += 1;
    }
    x
  }
}

/// (cur, prev) of 8.2.6 for symbol `s` under `icdf` with range `rng`.
pub fn bounds(rng: u32, icdf: &[u16], s: u32) -> (u32, u32) {
  let n = icdf.len() as u32;
  let at = |s: u32| {
    let f = if s < n - 1 { icdf[s as usize] as u32 } else { 0 };
    (((rng >> 8) * (f >> 6)) >> 1) + 4 * (n - s - 1)
  };
  (at(s), if s == 0 { rng } else { at(s - 1) })
}

/// Symbol adaptation, spec 8.2.6 (in terms of the non-inverse CDF).
pub fn adapt<const N: usize>(icdf: &[u16; N], s: u32) -> [u16; N] {
  let mut out = *icdf;
  let n = N as u32;
  let cnt = icdf[N - 1] as u32;
  let flog2 = 31 - n.leading_zeros();
  let rate = 3 + (cnt > 15) as u32 + (cnt > 31) as u32 + flog2.min(2);
  let mut tmp = 0u32;
  let mut i = 0;
  while i < N - 1 {
    if i as u32 == s {
      tmp = 1 << 15;
    }
    let c = 32768 - icdf[i] as u32;
    let c = if tmp < c { c - ((c - tmp) >> rate) } else { c + ((tmp - c) >> rate) };
    out[i] = (32768 - c) as u16;
    i += 1;
  }
  if cnt < 32 {
    out[N - 1] += 1;
  }
  out
}
