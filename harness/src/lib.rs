//! Harnesses over the real rav1e code.  Each harness is an ordinary function:
//! compiled with `--cfg rvsym` its inputs are symbolic and the LLVM IR of the
//! whole program (rav1e + std + harness) is executed symbolically; compiled
//! without, the `replay` binary runs it natively on a counterexample.
#![allow(clippy::all)]

#[macro_use]
mod macros;
pub mod nd;
pub mod spec;

#[cfg(feature = "ec")]
pub mod h_ec;

#[cfg(feature = "hdr")]
pub mod h_hdr;

#[cfg(feature = "gop")]
pub mod h_gop;

#[cfg(feature = "tile")]
pub mod h_tile;

#[cfg(feature = "cfg")]
pub mod h_cfg;

#[cfg(feature = "tx")]
pub mod h_tx;

#[cfg(feature = "quant")]
pub mod h_quant;

#[cfg(feature = "mc")]
pub mod h_mc;

#[cfg(feature = "intra")]
pub mod h_intra;

#[cfg(feature = "ctx")]
pub mod h_ctx;
#[cfg(feature = "tok")]
pub mod h_tok;
#[cfg(feature = "lrf")]
pub mod h_lrf;
#[cfg(feature = "dbk")]
pub mod h_deblock;
#[cfg(feature = "cdef")]
pub mod h_cdef;

pub type Entry = (&'static str, extern "C" fn());

pub fn table() -> Vec<Entry> {
  let mut v: Vec<Entry> = Vec::new();
  #[cfg(feature = "ec")]
  h_ec::register(&mut v);
  #[cfg(feature = "hdr")]
  h_hdr::register(&mut v);
  #[cfg(feature = "gop")]
  h_gop::register(&mut v);
  #[cfg(feature = "tile")]
  h_tile::register(&mut v);
  #[cfg(feature = "cfg")]
  h_cfg::register(&mut v);
  #[cfg(feature = "tx")]
  {
    h_tx::register(&mut v);
    h_tx::register2(&mut v);
  }
  #[cfg(feature = "quant")]
  h_quant::register(&mut v);
  #[cfg(feature = "mc")]
  h_mc::register(&mut v);
  #[cfg(feature = "intra")]
  h_intra::register(&mut v);
  #[cfg(feature = "ctx")]
  h_ctx::register(&mut v);
  #[cfg(feature = "tok")]
  h_tok::register(&mut v);
  #[cfg(feature = "lrf")]
  h_lrf::register(&mut v);
  #[cfg(feature = "dbk")]
  h_deblock::register(&mut v);
  #[cfg(feature = "cdef")]
  h_cdef::register(&mut v);
  v
}
