//! Which configurations are accepted, and that accepted ones give a context.
use crate::nd;
use rav1e::prelude::*;
use rav1e::verif::api::*;
use rav1e::verif::enc::*;
use rav1e::verif::hdr;
use std::sync::Arc;

fn conf(e: EncoderConfig) -> Config {
  Config::new().with_encoder_config(e)
}
fn base() -> EncoderConfig {
  let mut c = EncoderConfig::with_speed_preset(10);
  c.width = 64;
  c.height = 64;
  c
}

/// AV1 specification, annex A.3: level limits by seq_level_idx
/// (MaxPicSize, MaxHSize, MaxVSize, MaxDisplayRate)
fn level(idx: u8) -> Option<(u64, u64, u64, u64)> {
  Some(match idx {
    0 => (147456, 2048, 1152, 4423680),
    1 => (278784, 2816, 1584, 8363520),
    4 => (665856, 4352, 2448, 19975680),
    5 => (1065024, 5504, 3096, 31950720),
    8 => (2359296, 6144, 3456, 70778880),
    9 => (2359296, 6144, 3456, 141557760),
    12 => (8912896, 8192, 4352, 267386880),
    13 => (8912896, 8192, 4352, 534773760),
    14 => (8912896, 8192, 4352, 1069547520),
    15 => (8912896, 8192, 4352, 1069547520),
    16 => (35651584, 16384, 8704, 1069547520),
    17 => (35651584, 16384, 8704, 2139095040),
    18 => (35651584, 16384, 8704, 4278190080),
    19 => (35651584, 16384, 8704, 4278190080),
    _ => return None,
  })
}

fn sizes(bits: u32) {
  let mut c = base();
  let (w, h) = (nd::range(0, (1 << bits) - 1), nd::range(0, (1 << bits) - 1));
  c.width = w as usize;
  c.height = h as usize;
  c.still_picture = nd::boolean();
  let min = if c.still_picture { 1 } else { 16 };
  let ok = w >= min && w <= 65535 && h >= min && h <= 65535;
  assert!(conf(c).validate().is_ok() == ok);
}

fn levels(lo: u64, hi: u64, num: u64, den: u64) {
  let mut c = base();
  let (w, h) = (nd::range(16, 65535), nd::range(16, 65535));
  let l = nd::range(lo, hi) as u8;
  c.width = w as usize;
  c.height = h as usize;
  c.level_idx = Some(l);
  c.time_base = Rational::new(num, den);
  let ok = match level(l) {
    None => l == 31,
    // pictures per second = den / num
    Some((pic, hs, vs, rate)) => w * h <= pic && w <= hs && h <= vs && w * h * den <= rate * num,
  };
  assert!(conf(c).validate().is_ok() == ok);
}

fn fields() {
  let mut c = base();
  let (l, k, s) = (nd::u64(), nd::u64(), nd::u64());
  c.speed_settings.rdo_lookahead_frames = l as usize;
  c.max_key_frame_interval = k;
  c.switch_frame_interval = s;
  c.low_latency = nd::boolean();
  c.still_picture = nd::boolean();
  c.enable_timing_info = nd::boolean();
  let d = nd::u32() as i32;
  let some = nd::boolean();
  c.reservoir_frame_delay = if some { Some(d) } else { None };
  c.bitrate = nd::u32() as i32;
  let pass = nd::boolean();
  let ok = l >= 1
    && l != u64::MAX
    && k <= i32::MAX as u64 / 3
    && (s == 0 || c.low_latency)
    && !(c.still_picture && c.enable_timing_info)
    && (!some || d >= 12 && d <= 131072)
    && (!pass || c.bitrate != 0);
  let mut rc = RateControlConfig::new();
  if pass {
    rc = rc.with_emit_data(true);
  }
  assert!(conf(c).with_rate_control(rc).validate().is_ok() == ok);
}
fn time_base() {
  let mut c = base();
  let (n, d) = (nd::u64(), nd::u64());
  c.time_base = Rational::new(n, d);
  let m = u32::MAX as u64;
  assert!(conf(c).validate().is_ok() == (n > 0 && n <= m && d > 0 && d <= m));
}
fn tiles() {
  let mut c = base();
  let (x, y) = (nd::u64(), nd::u64());
  c.tile_cols = x as usize;
  c.tile_rows = y as usize;
  assert!(conf(c).validate().is_ok() == (x & x.wrapping_sub(1) == 0 && y & y.wrapping_sub(1) == 0));
}
fn color() {
  let mut c = base();
  let cs = [ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400];
  c.chroma_sampling = cs[nd::range(0, 3) as usize];
  let cp = [ColorPrimaries::BT709, ColorPrimaries::BT2020, ColorPrimaries::Unspecified];
  let tc = [TransferCharacteristics::SRGB, TransferCharacteristics::SMPTE2084, TransferCharacteristics::BT709];
  let mc = [MatrixCoefficients::Identity, MatrixCoefficients::BT709, MatrixCoefficients::Unspecified];
  let (i, j, k) = (nd::range(0, 2) as usize, nd::range(0, 2) as usize, nd::range(0, 2) as usize);
  c.color_description = Some(ColorDescription { color_primaries: cp[i], transfer_characteristics: tc[j], matrix_coefficients: mc[k] });
  c.pixel_range = if nd::boolean() { PixelRange::Full } else { PixelRange::Limited };
  // spec color_config: the sRGB triple means 4:4:4 in full range
  let srgb = i == 0 && j == 0 && k == 0 && c.chroma_sampling != ChromaSampling::Cs400;
  let ok = !srgb || c.chroma_sampling == ChromaSampling::Cs444 && c.pixel_range == PixelRange::Full;
  assert!(conf(c).validate().is_ok() == ok);
}
/// render size: the coded size stretched to square samples
fn aspect(num: Option<u64>, den: Option<u64>, w: u64, h: u64) {
  let mut c = base();
  c.width = w as usize;
  c.height = h as usize;
  let n = num.unwrap_or_else(|| nd::range(1, 1500));
  let d = den.unwrap_or_else(|| nd::range(1, 1500));
  c.sample_aspect_ratio = Rational::new(n, d);
  let (rw, rh) = if n == 0 || d == 0 {
    (0, 0)
  } else if n > d {
    ((2 * w as u128 * n as u128 + d as u128) / (2 * d as u128), h as u128)
  } else {
    (w as u128, (2 * h as u128 * d as u128 + n as u128) / (2 * n as u128))
  };
  let r = conf(c.clone()).validate();
  if rw == 0 || rh == 0 || rw > 65535 || rh > 65535 {
    assert!(r.is_err());
  } else {
    assert!(r.is_ok());
    let (x, y) = c.render_size();
    // to the nearest, halves either way
    assert!((x as u128).abs_diff(rw) <= 1 && (y as u128).abs_diff(rh) <= 1);
  }
}

/// accepted configurations give a context
fn context(num: u64, den: u64, bitrate: bool, cs: ChromaSampling, h: usize) {
  let mut c = base();
  c.chroma_sampling = cs;
  c.width = nd::range(16, 527) as usize;
  c.height = h;
  c.time_base = Rational::new(num, den);
  if bitrate {
    c.bitrate = nd::range(1, i32::MAX as u64) as i32;
  }
  let w = c.width;
  let ctx: Context<u8> = conf(c).new_context().unwrap();
  assert!(ctx.container_sequence_header().len() == 4 && w > 0);
}
fn context_bits(num: u64, den: u64, delay: bool, pass: bool) {
  let mut c = base();
  c.time_base = Rational::new(num, den);
  c.bitrate = nd::range(1, i32::MAX as u64) as i32;
  c.max_key_frame_interval = nd::range(0, i32::MAX as u64 / 3);
  c.min_key_frame_interval = 0;
  if delay {
    c.reservoir_frame_delay = Some(nd::range(12, 131072) as i32);
  }
  let mut rc = RateControlConfig::new();
  if pass {
    rc = rc.with_emit_data(true);
  }
  let _ctx: Context<u8> = conf(c).with_rate_control(rc).new_context().unwrap();
}
fn context_tiles(w: usize, h: usize, num: u64, den: u64, cs: ChromaSampling) {
  let mut c = base();
  c.width = w;
  c.height = h;
  c.chroma_sampling = cs;
  c.time_base = Rational::new(num, den);
  let (x, y) = (nd::u64(), nd::u64());
  c.tile_cols = x as usize;
  c.tile_rows = y as usize;
  nd::assume(x & x.wrapping_sub(1) == 0 && y & y.wrapping_sub(1) == 0);
  let _ctx: Context<u8> = conf(c).new_context().unwrap();
}

/// frame number times the time base, in units of 100 ns
fn timestamp(num: u64, den: u64) {
  let mut c = base();
  c.time_base = Rational::new(num, den);
  let s = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<u8>::new_key_frame(Arc::new(c), s, 0, Box::new([]));
  let n = nd::range(0, 1 << 34);
  fi.input_frameno = n;
  let want = n as u128 * 10_000_000 * num as u128 / den as u128;
  nd::assume(want >> 64 == 0);
  assert!(fi.frame_timestamp() as u128 == want);
}

harnesses! {
  cf_sizes { sizes(48) }
  cf_level_a { levels(0, 7, 1, 30) }
  cf_level_b { levels(8, 15, 1, 60) }
  cf_level_c { levels(16, 31, 1, 60) }
  cf_level_d { levels(4, 9, 2, 25) }
  cf_level_e { levels(8, 13, 1001, 30000) }
  cf_level_f { levels(8, 19, 1, 1) }
  cf_level_g { levels(32, 255, 1, 1) }
  cf_fields { fields() }
  cf_time_base { time_base() }
  cf_tiles { tiles() }
  cf_color { color() }
  cf_aspect_n { aspect(None, Some(3), 640, 480) }
  cf_aspect_n2 { aspect(None, Some(117), 65535, 17) }
  cf_aspect_d { aspect(Some(16), None, 720, 576) }
  cf_aspect_d2 { aspect(Some(1001), None, 20, 3000) }
  cf_ctx_25 { context(1, 25, false, ChromaSampling::Cs420, 65535) }
  cf_ctx_90k { context(1, 90000, false, ChromaSampling::Cs420, 1080) }
  cf_ctx_422 { context(1, 30, false, ChromaSampling::Cs422, 2160) }
  cf_ctx_slow { context(u32::MAX as u64, 1, false, ChromaSampling::Cs444, 16) }
  cf_ctx_fast { context(1, u32::MAX as u64, false, ChromaSampling::Cs400, 1080) }
  cf_ctx_rate { context(1001, 30000, true, ChromaSampling::Cs420, 4320) }
  cf_bits { context_bits(1, 30, false, false) }
  cf_bits_delay { context_bits(1001, 24000, true, false) }
  cf_bits_slow { context_bits(u32::MAX as u64, 1, true, false) }
  cf_bits_fast { context_bits(1, u32::MAX as u64, true, false) }
  cf_bits_pass { context_bits(1, 30, false, true) }
  cf_tiles_a { context_tiles(1920, 1080, 1, 30, ChromaSampling::Cs420) }
  cf_tiles_b { context_tiles(6016, 3384, 1, 24, ChromaSampling::Cs422) }
  cf_tiles_c { context_tiles(64, 64, 1, 1000000, ChromaSampling::Cs444) }
  cf_ts_a { timestamp(1, 25) }
  cf_ts_b { timestamp(1001, 30000) }
  cf_ts_c { timestamp(u32::MAX as u64, 1) }
  cf_ts_d { timestamp(u32::MAX as u64, 7) }
}
