//! A fast hasher for the hash-consing tables.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
  #[inline]
  fn add(&mut self, v: u64) {
    self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
  }
}
impl Hasher for Fx {
  fn write(&mut self, b: &[u8]) {
    for c in b.chunks(8) {
      let mut x = [0u8; 8];
      x[..c.len()].copy_from_slice(c);
      self.add(u64::from_le_bytes(x));
    }
  }
  fn write_u8(&mut self, v: u8) {
    self.add(v as u64)
  }
  fn write_u16(&mut self, v: u16) {
    self.add(v as u64)
  }
  fn write_u32(&mut self, v: u32) {
    self.add(v as u64)
  }
  fn write_u64(&mut self, v: u64) {
    self.add(v)
  }
  fn write_u128(&mut self, v: u128) {
    self.add(v as u64);
    self.add((v >> 64) as u64)
  }
  fn write_usize(&mut self, v: usize) {
    self.add(v as u64)
  }
  fn finish(&self) -> u64 {
    self.0 ^ (self.0 >> 29)
  }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
