//! A storage backend that records range-coder tokens, and a reader for the
//! flat-probability bits and CDF-coded symbols among them.
use rav1e::verif::ec::{StorageBackend, WriterCheckpoint};

pub struct Tok {
  pub t: Vec<(u16, u16, u16)>,
}
impl Tok {
  pub fn new() -> Self {
    Tok { t: Vec::new() }
  }
  /// All tokens must be equiprobable bits.
  pub fn bits(&self) -> Bits {
    let mut v = Vec::with_capacity(self.t.len());
    for &(fl, fh, nms) in &self.t {
      let z = (fl == 32768) & (fh == 16384) & (nms == 2);
      let o = (fl == 16384) & (fh == 0) & (nms == 1);
      assert!(z | o);
      v.push(o as u8);
    }
    Bits { b: v, p: 0 }
  }
}
impl StorageBackend for Tok {
  fn store(&mut self, fl: u16, fh: u16, nms: u16) {
    self.t.push((fl, fh, nms));
  }
  fn stream_bits(&mut self) -> usize {
    0
  }
  fn checkpoint(&mut self) -> WriterCheckpoint {
    unreachable!()
  }
  fn rollback(&mut self, _: &WriterCheckpoint) {
    unreachable!()
  }
}

/// Bit reader with the spec's integer syntax elements (4.10, 5.11).
pub struct Bits {
  pub b: Vec<u8>,
  pub p: usize,
}
impl Bits {
  pub fn from_bytes(bytes: &[u8]) -> Self {
    let mut b = Vec::with_capacity(bytes.len() * 8);
    for &x in bytes {
      for i in (0..8).rev() {
        b.push(x >> i & 1);
      }
    }
    Bits { b, p: 0 }
  }
  pub fn len(&self) -> usize {
    self.b.len()
  }
  pub fn end(&self) -> bool {
    self.p == self.b.len()
  }
  pub fn bit(&mut self) -> u32 {
    assert!(self.p < self.b.len());
    let x = self.b[self.p];
    self.p += 1;
    x as u32
  }
  pub fn flag(&mut self) -> bool {
    self.bit() != 0
  }
  pub fn l(&mut self, n: u32) -> u32 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
      x = x << 1 | self.bit();
      i += 1;
    }
    x
  }
  pub fn l64(&mut self, n: u32) -> u64 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
      x = x << 1 | self.bit() as u64;
      i += 1;
    }
    x
  }
  /// su(n)
  pub fn su(&mut self, n: u32) -> i32 {
    let v = self.l(n) as i32;
    let sign = 1 << (n - 1);
    if v & sign != 0 { v - 2 * sign } else { v }
  }
  /// ns(n) 4.10.7
  pub fn ns(&mut self, n: u32) -> u32 {
    let mut w = 0;
    let mut x = n;
    while x != 0 {
      x >>= 1;
      w += 1;
    }
    let m = (1u32 << w) - n;
    let v = self.l(w - 1);
    if v < m {
      return v;
    }
    let e = self.bit();
    (v << 1) - m + e
  }
  /// uvlc() 4.10.3
  pub fn uvlc(&mut self) -> u32 {
    let mut lz = 0;
    while self.bit() == 0 {
      lz += 1;
    }
    if lz >= 32 {
      return u32::MAX;
    }
    (self.l64(lz) + ((1u64 << lz) - 1)) as u32
  }
  /// leb128() 4.10.5
  pub fn leb128(&mut self) -> u64 {
    let mut v = 0u64;
    for i in 0..8 {
      let b = self.l(8) as u64;
      v |= (b & 0x7f) << (i * 7);
      if b & 0x80 == 0 {
        return v;
      }
    }
    panic!("leb128 too long");
  }
  /// read_golomb 5.11.39
  pub fn golomb(&mut self) -> u32 {
    let mut num_top_bits = 0u32;
    loop {
      let bit = self.bit();
      if bit == 1 {
        break;
      }
      num_top_bits += 1;
      assert!(num_top_bits < 32);
    }
    let mut x = 1u32;
    let mut i = 0;
    while i < num_top_bits {
      x = x << 1 | self.bit();
      i += 1;
    }
    x - 1
  }
  /// decode_subexp 5.9.27 / 5.11.58
  pub fn subexp(&mut self, num_syms: u32, k: u32) -> u32 {
    let mut i = 0;
    let mut mk = 0;
    loop {
      let b2 = if i != 0 { k + i - 1 } else { k };
      let a = 1u32 << b2;
      if num_syms <= mk + 3 * a {
        return self.ns(num_syms - mk) + mk;
      }
      if self.flag() {
        i += 1;
        mk += a;
      } else {
        return self.l(b2) + mk;
      }
    }
  }
  fn inverse_recenter(r: u32, v: u32) -> u32 {
    if v > 2 * r {
      v
    } else if v & 1 != 0 {
      r - ((v + 1) >> 1)
    } else {
      r + (v >> 1)
    }
  }
  pub fn unsigned_subexp_with_ref(&mut self, mx: u32, k: u32, r: u32) -> u32 {
    let v = self.subexp(mx, k);
    if (r << 1) <= mx {
      Self::inverse_recenter(r, v)
    } else {
      mx - 1 - Self::inverse_recenter(mx - 1 - r, v)
    }
  }
  pub fn signed_subexp_with_ref(&mut self, low: i32, high: i32, k: u32, r: i32) -> i32 {
    self.unsigned_subexp_with_ref((high - low) as u32, k, (r - low) as u32) as i32 + low
  }
}
