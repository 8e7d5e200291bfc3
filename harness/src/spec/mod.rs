//! Reference models written from the AV1 bitstream specification.
pub mod sym;
pub mod tok;
pub mod hdr;
pub mod itx;
pub mod qtab;
pub mod mc;
pub mod intra;
pub mod cdef;
pub mod deblock;
pub mod lrf;
