//! OBU, sequence header, frame header and metadata syntax: everything written
//! parses back, by the spec's syntax tables, to exactly what was meant.
use crate::nd;
use crate::spec::hdr::{self, RefInfo};
use crate::spec::tok::Bits;
use bitstream_io::{BigEndian, BitWrite, BitWriter};
use rav1e::verif::api::*;
use rav1e::verif::enc::*;
use rav1e::verif::hdr::*;
use std::sync::Arc;

pub fn base_cfg() -> EncoderConfig {
  let mut c = EncoderConfig::default();
  c.width = 64;
  c.height = 64;
  c
}
pub fn mk_fi(c: EncoderConfig) -> FrameInvariants<u8> {
  let seq = Arc::new(Sequence::new(&c));
  let mut fi = FrameInvariants::<u8>::new(Arc::new(c), seq);
  fi.coded_frame_data = Some(CodedFrameData::new(&fi));
  fi
}
fn write(fi: &FrameInvariants<u8>, fs: &FrameState<u8>, ic: &InterConfig) -> Vec<u8> {
  let mut out = Vec::new();
  let mut bw = BitWriter::endian(&mut out, BigEndian);
  bw.write_frame_header_obu(fi, fs, ic).unwrap();
  out
}
fn seq_of(fi: &FrameInvariants<u8>) -> hdr::Seq {
  let mut out = Vec::new();
  let mut bw = BitWriter::endian(&mut out, BigEndian);
  bw.write_sequence_header_obu(fi).unwrap();
  bw.write_bit(true).unwrap();
  bw.byte_align().unwrap();
  let mut b = Bits::from_bytes(&out);
  let s = hdr::seq(&mut b);
  hdr::trailing(&mut b);
  s
}
const NOREF: RefInfo = RefInfo {
  order_hint: 0,
  w: 0,
  h: 0,
  rw: 0,
  rh: 0,
  lf_ref: [1, 0, 0, 0, -1, 0, -1, -1],
  lf_mode: [0, 0],
};


const CP: [ColorPrimaries; 12] = [
  ColorPrimaries::BT709,
  ColorPrimaries::Unspecified,
  ColorPrimaries::BT470M,
  ColorPrimaries::BT470BG,
  ColorPrimaries::BT601,
  ColorPrimaries::SMPTE240,
  ColorPrimaries::GenericFilm,
  ColorPrimaries::BT2020,
  ColorPrimaries::XYZ,
  ColorPrimaries::SMPTE431,
  ColorPrimaries::SMPTE432,
  ColorPrimaries::EBU3213,
];
const CPV: [u32; 12] = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22];
const TC: [TransferCharacteristics; 5] = [
  TransferCharacteristics::BT709,
  TransferCharacteristics::Unspecified,
  TransferCharacteristics::SRGB,
  TransferCharacteristics::SMPTE2084,
  TransferCharacteristics::HLG,
];
const TCV: [u32; 5] = [1, 2, 13, 16, 18];
const MC: [MatrixCoefficients; 5] = [
  MatrixCoefficients::Identity,
  MatrixCoefficients::BT709,
  MatrixCoefficients::Unspecified,
  MatrixCoefficients::BT2020NCL,
  MatrixCoefficients::ICtCp,
];
const MCV: [u32; 5] = [0, 1, 2, 9, 14];
const CS: [ChromaSampling; 4] =
  [ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400];
const BD: [usize; 3] = [8, 10, 12];
const CSP: [ChromaSamplePosition; 3] =
  [ChromaSamplePosition::Unknown, ChromaSamplePosition::Vertical, ChromaSamplePosition::Colocated];

fn check_seq(c: &EncoderConfig, s: &hdr::Seq) {
  assert!(s.bit_depth == c.bit_depth as u32);
  assert!(s.mono == (c.chroma_sampling == ChromaSampling::Cs400));
  let (ssx, ssy) = match c.chroma_sampling {
    ChromaSampling::Cs420 | ChromaSampling::Cs400 => (true, true),
    ChromaSampling::Cs422 => (true, false),
    ChromaSampling::Cs444 => (false, false),
  };
  assert!(s.ssx == ssx && s.ssy == ssy);
  assert!(s.full_range == (c.pixel_range == PixelRange::Full));
  assert!(s.max_w == c.width as u32 && s.max_h == c.height as u32);
  assert!(s.still_picture == c.still_picture);
  if c.chroma_sampling == ChromaSampling::Cs420 && s.desc != Some((1, 13, 0)) {
    assert!(s.csp == c.chroma_sample_position as u32);
  }
  assert!(s.timing_info_present == c.enable_timing_info);
  if c.enable_timing_info {
    assert!(s.num_units_in_display_tick as u64 == c.time_base.num);
    assert!(s.time_scale as u64 == c.time_base.den);
    assert!(s.equal_picture_interval && s.num_ticks_minus_1 == 0);
  }
  assert!(s.film_grain == c.film_grain_params.as_ref().map_or(false, |v| !v.is_empty()));
  // the profile is the lowest that carries the format
  let want = if c.bit_depth == 12 || c.chroma_sampling == ChromaSampling::Cs422 {
    2
  } else if c.chroma_sampling == ChromaSampling::Cs444 {
    1
  } else {
    0
  };
  assert!(s.profile == want);
}

/// (bit depth, sampling, range, position, description) all free
fn seq_color(desc: bool) {
  let mut c = base_cfg();
  c.bit_depth = BD[nd::concretize(nd::range(0, 2)) as usize];
  c.chroma_sampling = CS[nd::concretize(nd::range(0, 3)) as usize];
  c.pixel_range = if nd::boolean() { PixelRange::Full } else { PixelRange::Limited };
  c.chroma_sample_position = CSP[nd::usize_in(0, 2)];
  let mut want = None;
  if desc {
    let (i, j, k) = (nd::usize_in(0, 11), nd::usize_in(0, 4), nd::usize_in(0, 4));
    c.color_description = Some(ColorDescription {
      color_primaries: CP[i],
      transfer_characteristics: TC[j],
      matrix_coefficients: MC[k],
    });
    want = Some((CPV[i], TCV[j], MCV[k]));
    // identity matrix: 4:4:4 only (spec 6.4.2); the sRGB triple is full range
    nd::assume(MCV[k] != 0 || c.chroma_sampling == ChromaSampling::Cs444);
    let srgb = CPV[i] == 1 && TCV[j] == 13 && MCV[k] == 0;
    nd::assume(!srgb || c.pixel_range == PixelRange::Full);
  }
  let seq = Sequence::new(&c);
  let fi = with_seq(seq);
  let s = seq_of(&fi);
  check_seq(&c, &s);
  assert!(s.desc == want);
}
fn with_seq(seq: Sequence) -> FrameInvariants<u8> {
  let mut fi = mk_fi(base_cfg());
  fi.width = seq.max_frame_width as usize;
  fi.height = seq.max_frame_height as usize;
  fi.sequence = Arc::new(seq);
  fi
}

fn refs(fi: &mut FrameInvariants<u8>, fs: &FrameState<u8>) -> [RefInfo; 8] {
  let mut r = [NOREF; 8];
  for i in 0..8 {
    r[i].order_hint = nd::u32_in(0, 63);
    r[i].w = fi.width as u32;
    r[i].h = fi.height as u32;
    r[i].rw = fi.render_width;
    r[i].rh = fi.render_height;
  }
  set_refs(fi, fs, &r);
  r
}
fn set_refs(fi: &mut FrameInvariants<u8>, fs: &FrameState<u8>, r: &[RefInfo; 8]) {
  for i in 0..8 {
    fi.rec_buffer.frames[i] = Some(Arc::new(ReferenceFrame {
      order_hint: r[i].order_hint,
      width: r[i].w,
      height: r[i].h,
      render_width: r[i].rw,
      render_height: r[i].rh,
      frame: fs.rec.clone(),
      input_hres: fs.input_hres.clone(),
      input_qres: fs.input_qres.clone(),
      cdfs: rav1e::verif::ctx::CDFContext::new(0),
      frame_me_stats: fs.frame_me_stats.clone(),
      output_frameno: 0,
      segmentation: Default::default(),
    }));
  }
}
/// a plain inter frame
fn inter(c: EncoderConfig) -> (FrameInvariants<u8>, FrameState<u8>, InterConfig, hdr::Seq) {
  let ic = InterConfig::new_verif(&c);
  let mut fi = mk_fi(c);
  let s = seq_of(&fi);
  let fs = FrameState::new(&fi);
  fi.enable_segmentation = false;
  fi.frame_type = FrameType::INTER;
  fi.intra_only = false;
  fi.force_integer_mv = 0;
  fi.refresh_frame_flags = 1;
  fi.primary_ref_frame = 7;
  (fi, fs, ic, s)
}
fn key(c: EncoderConfig) -> (FrameInvariants<u8>, FrameState<u8>, InterConfig, hdr::Seq) {
  let ic = InterConfig::new_verif(&c);
  let mut fi = mk_fi(c);
  let s = seq_of(&fi);
  let fs = FrameState::new(&fi);
  fi.enable_segmentation = false;
  (fi, fs, ic, s)
}
fn check_common(fi: &FrameInvariants<u8>, fs: &FrameState<u8>, s: &hdr::Seq, h: &hdr::Hdr) {
  assert!(h.frame_type == fi.frame_type as u32);
  assert!(h.show_frame == fi.show_frame);
  if !fi.show_frame {
    assert!(h.showable == fi.showable_frame);
  }
  if fi.frame_type != FrameType::KEY {
    assert!(h.error_res == fi.error_resilient);
    assert!(h.size_override == fi.frame_size_override_flag);
    assert!(h.primary_ref == fi.primary_ref_frame);
  }
  assert!(h.disable_cdf_update == fi.disable_cdf_update);
  assert!(h.disable_end_cdf == fi.disable_frame_end_update_cdf);
  if s.order_hint {
    assert!(h.order_hint == fi.order_hint & ((1 << s.order_hint_bits) - 1));
  }
  assert!(h.refresh == fi.refresh_frame_flags);
  assert!(h.w == fi.width as u32 && h.h == fi.height as u32);
  assert!(h.rw == fi.render_width && h.rh == fi.render_height);
  if !fi.intra_only {
    for i in 0..7 {
      assert!(h.refs[i] == fi.ref_frames[i] as u32);
    }
    assert!(h.imv == (fi.force_integer_mv != 0));
    assert!(h.hp_mv == fi.allow_high_precision_mv);
    let f = if fi.is_filter_switchable { 4 } else { fi.default_filter as u32 };
    assert!(h.filter == f);
    assert!(h.motion_switchable == fi.is_motion_mode_switchable);
    assert!(h.ref_select == (fi.reference_mode != ReferenceMode::SINGLE));
    assert!(!h.skip_mode);
  } else {
    assert!(h.intrabc == fi.allow_intrabc);
  }
  assert!(h.warped == fi.allow_warped_motion);
  assert!(h.reduced_tx == fi.use_reduced_tx_set);
  assert!(h.tx_select == fi.tx_mode_select);
  // quantizer
  assert!(h.base_q == fi.base_q_idx as u32);
  let planes = if s.mono { 1 } else { 3 };
  for p in 0..planes {
    assert!(h.dc_q[p] == fi.dc_delta_q[p] as i32);
    assert!(h.ac_q[p] == fi.ac_delta_q[p] as i32);
  }
  // segmentation
  assert!(h.seg == fs.segmentation.enabled);
  if h.seg {
    assert!(h.seg_update_map == fs.segmentation.update_map);
    assert!(h.seg_update_data == fs.segmentation.update_data);
    assert!(!h.seg_temporal);
    if h.seg_update_data {
      for i in 0..8 {
        for j in 0..8 {
          assert!(h.seg_on[i][j] == fs.segmentation.features[i][j]);
          if h.seg_on[i][j] {
            assert!(h.seg_val[i][j] == fs.segmentation.data[i][j] as i32);
          }
        }
      }
    }
  }
  // loop filter
  let d = &fs.deblock;
  assert!(h.lf[0] == d.levels[0] as u32 && h.lf[1] == d.levels[1] as u32);
  if planes > 1 && (d.levels[0] != 0 || d.levels[1] != 0) {
    assert!(h.lf[2] == d.levels[2] as u32 && h.lf[3] == d.levels[3] as u32);
  }
  assert!(h.lf_sharp == d.sharpness as u32);
  assert!(h.lf_delta == d.deltas_enabled);
  // cdef
  if s.cdef {
    assert!(h.cdef_damping == fi.cdef_damping as u32);
    assert!(h.cdef_bits == fi.cdef_bits as u32);
    for i in 0..1 << fi.cdef_bits {
      assert!(h.cdef_y[i] == fi.cdef_y_strengths[i] as u32);
      if planes > 1 {
        assert!(h.cdef_uv[i] == fi.cdef_uv_strengths[i] as u32);
      }
    }
  }
  // loop restoration
  if s.restoration {
    let mut any = false;
    let mut chroma = false;
    for p in 0..planes {
      let t = fs.restoration.planes[p].cfg.lrf_type as u32;
      assert!(h.lr_type[p] == t);
      any |= t != 0;
      chroma |= p > 0 && t != 0;
    }
    if any {
      assert!(h.lr_size[0] == fs.restoration.planes[0].cfg.unit_size as u32);
      if chroma {
        assert!(h.lr_size[1] == fs.restoration.planes[1].cfg.unit_size as u32);
        assert!(h.lr_size[2] == fs.restoration.planes[2].cfg.unit_size as u32);
      }
    }
  }
}
fn round_trip(fi: &FrameInvariants<u8>, fs: &FrameState<u8>, ic: &InterConfig, s: &hdr::Seq, r: &[RefInfo; 8]) -> hdr::Hdr {
  let out = write(fi, fs, ic);
  let h = hdr::frame(&mut Bits::from_bytes(&out), s, r);
  check_common(fi, fs, s, &h);
  h
}

fn metadata(which: u32) {
  let mut c = base_cfg();
  let mut p = [0u16; 8];
  for x in p.iter_mut() {
    *x = nd::u16();
  }
  let (hi, lo) = (nd::u32(), nd::u32());
  c.content_light = Some(ContentLight { max_content_light_level: p[0], max_frame_average_light_level: p[1] });
  let pt = |i: usize| ChromaticityPoint { x: p[2 * i], y: p[2 * i + 1] };
  c.mastering_display = Some(MasteringDisplay {
    primaries: [pt(0), pt(1), pt(2)],
    white_point: pt(3),
    max_luminance: hi,
    min_luminance: lo,
  });
  let seq = Sequence::new(&c);
  let mut out = Vec::new();
  let mut bw = BitWriter::endian(&mut out, BigEndian);
  let ty = if which == 0 { ObuMetaType::OBU_META_HDR_CLL } else { ObuMetaType::OBU_META_HDR_MDCV };
  bw.write_sequence_metadata_obu(ty, &seq).unwrap();
  let mut b = Bits::from_bytes(&out);
  assert!(hdr::obu_header(&mut b) == 5);
  let n = b.leb128();
  assert!(b.p / 8 + n as usize == out.len());
  assert!(b.leb128() == which as u64 + 1);
  if which == 0 {
    assert!(b.l(16) == p[0] as u32 && b.l(16) == p[1] as u32);
  } else {
    for i in 0..8 {
      assert!(b.l(16) == p[i] as u32);
    }
    assert!(b.l(32) == hi && b.l(32) == lo);
  }
  hdr::trailing(&mut b);
}

fn t35(n: usize) {
  let mut data = Vec::new();
  for _ in 0..n {
    data.push(nd::u8());
  }
  let t = T35 {
    country_code: nd::u8(),
    country_code_extension_byte: nd::u8(),
    data: data.clone().into_boxed_slice(),
  };
  let mut out = Vec::new();
  let mut bw = BitWriter::endian(&mut out, BigEndian);
  bw.write_t35_metadata_obu(&t).unwrap();
  let mut b = Bits::from_bytes(&out);
  assert!(hdr::obu_header(&mut b) == 5);
  let sz = b.leb128();
  assert!(b.p / 8 + sz as usize == out.len());
  assert!(b.leb128() == 4);
  assert!(b.l(8) == t.country_code as u32);
  if t.country_code == 0xff {
    assert!(b.l(8) == t.country_code_extension_byte as u32);
  }
  for i in 0..n {
    assert!(b.l(8) == data[i] as u32);
  }
  hdr::trailing(&mut b);
}

fn frame_tiles(w: usize, h: usize, tc: usize, tr: usize) {
  frame_tiles2(w, h, tc, tr, ChromaSampling::Cs420)
}
fn frame_tiles2(w: usize, h: usize, tc: usize, tr: usize, cs: ChromaSampling) {
  let mut c = base_cfg();
  c.chroma_sampling = cs;
  c.width = w;
  c.height = h;
  c.tile_cols = tc;
  c.tile_rows = tr;
  let (mut fi, mut fs, ic, s) = key_small(c);
  fs.max_tile_size_bytes = nd::u32_in(1, 4);
  let ti = fi.sequence.tiling;
  let n = ti.cols * ti.rows;
  fs.context_update_tile_id = nd::usize_in(0, n - 1);
  fi.base_q_idx = 1;
  let hd = round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  assert!(hd.col_starts.len() == ti.cols && hd.row_starts.len() == ti.rows);
  for i in 0..ti.cols {
    assert!(hd.col_starts[i] as usize == i * ti.tile_width_sb);
  }
  for i in 0..ti.rows {
    assert!(hd.row_starts[i] as usize == i * ti.tile_height_sb);
  }
  if n > 1 {
    assert!(hd.ctx_tile == fs.context_update_tile_id as u32);
    assert!(hd.tile_size_bytes == fs.max_tile_size_bytes);
  }
}
/// as `key` for a large frame, without allocating its planes
fn key_small(c: EncoderConfig) -> (FrameInvariants<u8>, FrameState<u8>, InterConfig, hdr::Seq) {
  let ic = InterConfig::new_verif(&c);
  let (w, h) = (c.width, c.height);
  let mut sc = c.clone();
  sc.width = 64;
  sc.height = 64;
  let mut fi = mk_fi(sc);
  let fs = FrameState::new(&fi);
  fi.width = w;
  fi.height = h;
  fi.render_width = w as u32;
  fi.render_height = h as u32;
  fi.sb_width = (w + 63) / 64;
  fi.sb_height = (h + 63) / 64;
  fi.sequence = Arc::new(Sequence::new(&c));
  fi.config = Arc::new(c);
  fi.enable_segmentation = false;
  let s = seq_of(&fi);
  (fi, fs, ic, s)
}

fn grain_cfg(ny: usize, ncb: usize, ncr: usize, lag: u8, cs: ChromaSampling) -> EncoderConfig {
  let mut c = base_cfg();
  c.chroma_sampling = cs;
  let mut g = GrainTableSegment {
    start_time: 0,
    end_time: u64::MAX,
    scaling_points_y: Default::default(),
    scaling_points_cb: Default::default(),
    scaling_points_cr: Default::default(),
    scaling_shift: nd::u8_in(8, 11),
    ar_coeff_lag: lag,
    ar_coeffs_y: Default::default(),
    ar_coeffs_cb: Default::default(),
    ar_coeffs_cr: Default::default(),
    ar_coeff_shift: nd::u8_in(6, 9),
    cb_mult: nd::u8(),
    cb_luma_mult: nd::u8(),
    cb_offset: nd::u16_in(0, 511),
    cr_mult: nd::u8(),
    cr_luma_mult: nd::u8(),
    cr_offset: nd::u16_in(0, 511),
    overlap_flag: nd::boolean(),
    chroma_scaling_from_luma: nd::boolean(),
    grain_scale_shift: nd::u8_in(0, 3),
    random_seed: nd::u16(),
  };
  for _ in 0..ny {
    g.scaling_points_y.push([nd::u8(), nd::u8()]);
  }
  for _ in 0..ncb {
    g.scaling_points_cb.push([nd::u8(), nd::u8()]);
  }
  for _ in 0..ncr {
    g.scaling_points_cr.push([nd::u8(), nd::u8()]);
  }
  for _ in 0..24 {
    g.ar_coeffs_y.push(nd::i8());
  }
  for _ in 0..25 {
    g.ar_coeffs_cb.push(nd::i8());
    g.ar_coeffs_cr.push(nd::i8());
  }
  c.film_grain_params = Some(vec![g]);
  c
}
fn pts<const N: usize>(got: &Vec<(u32, u32)>, want: &arrayvec::ArrayVec<[u8; 2], N>) {
  assert!(got.len() == want.len());
  for i in 0..got.len() {
    assert!(got[i] == (want[i][0] as u32, want[i][1] as u32));
  }
}
fn ars<const N: usize>(got: &Vec<i32>, want: &arrayvec::ArrayVec<i8, N>, n: usize) {
  assert!(got.len() == n);
  for i in 0..n {
    assert!(got[i] == want[i] as i32);
  }
}
fn grain(ny: usize, ncb: usize, ncr: usize, lag: u8, cs: ChromaSampling, is_inter: bool) {
  let c = grain_cfg(ny, ncb, ncr, lag, cs);
  let g = c.film_grain_params.as_ref().unwrap()[0].clone();
  let (fi, fs, ic, s) = if is_inter { inter(c) } else { key(c) };
  let r = [NOREF; 8];
  let mut fi = fi;
  if is_inter {
    set_refs(&mut fi, &fs, &r);
  }
  let h = round_trip(&fi, &fs, &ic, &s, &r);
  let p = h.grain.unwrap();
  assert!(p.seed == g.random_seed as u32);
  pts(&p.y, &g.scaling_points_y);
  let cfl = g.chroma_scaling_from_luma && !s.mono;
  assert!(p.cfl == cfl);
  let none = s.mono || cfl || (s.ssx && s.ssy && ny == 0);
  if !none {
    pts(&p.cb, &g.scaling_points_cb);
    pts(&p.cr, &g.scaling_points_cr);
  }
  assert!(p.shift == g.scaling_shift as u32 && p.lag == lag as u32);
  let nl = 2 * lag as usize * (lag as usize + 1);
  let nc = if ny > 0 { nl + 1 } else { nl };
  ars(&p.ar_y, &g.ar_coeffs_y, if ny > 0 { nl } else { 0 });
  ars(&p.ar_cb, &g.ar_coeffs_cb, if cfl || !p.cb.is_empty() { nc } else { 0 });
  ars(&p.ar_cr, &g.ar_coeffs_cr, if cfl || !p.cr.is_empty() { nc } else { 0 });
  assert!(p.ar_shift == g.ar_coeff_shift as u32 && p.scale_shift == g.grain_scale_shift as u32);
  if !p.cb.is_empty() {
    assert!(p.cbp == (g.cb_mult as u32, g.cb_luma_mult as u32, g.cb_offset as u32));
  }
  if !p.cr.is_empty() {
    assert!(p.crp == (g.cr_mult as u32, g.cr_luma_mult as u32, g.cr_offset as u32));
  }
  assert!(p.overlap == g.overlap_flag);
  assert!(p.clip == (fi.sequence.pixel_range == PixelRange::Limited));
}

fn segm(pr: u32, altq: bool) {
  let (mut fi, mut fs, ic, s) = inter(base_cfg());
  let r = [NOREF; 8];
  set_refs(&mut fi, &fs, &r);
  fi.primary_ref_frame = pr;
  fi.enable_segmentation = true;
  fs.segmentation.enabled = true;
  fs.segmentation.update_map = pr == 7 || nd::boolean();
  fs.segmentation.update_data = pr == 7 || nd::boolean();
  // each segment's quantizer delta: present from 0 to `n`
  let n = if altq { nd::concretize(nd::range(0, 8)) as usize } else { 1 };
  for i in 0..n {
    fs.segmentation.features[i][0] = true;
    fs.segmentation.data[i][0] = nd::i16_in(-255, 255);
  }
  if !altq {
    // one further feature of one segment (the encoder never enables the
    // reference, skip and global-motion features)
    let i = nd::concretize(nd::range(0, 7)) as usize;
    let j = nd::concretize(nd::range(1, 4)) as usize;
    fs.segmentation.features[i][j] = true;
    fs.segmentation.data[i][j] = nd::i16_in(-63, 63);
  }
  round_trip(&fi, &fs, &ic, &s, &r);
}

harnesses! {
  hd_seq_color { seq_color(false) }
  hd_seq_desc { seq_color(true) }
  hd_seq_size {
    // any frame size up to 16 bits; timing info, level
    let mut c = base_cfg();
    c.enable_timing_info = nd::boolean();
    c.time_base = Rational::new(nd::u64_in(1, u32::MAX as u64), nd::u64_in(1, u32::MAX as u64));
    let mut seq = Sequence::new(&base_cfg());
    seq.timing_info_present = c.enable_timing_info;
    seq.time_base = c.time_base;
    seq.level_idx = [nd::u8_in(0, 31); 32];
    c.width = nd::usize_in(1, 65535);
    c.height = nd::usize_in(1, 65535);
    let level = seq.level_idx[0];
    let mut fi = with_seq(seq);
    fi.width = c.width;
    fi.height = c.height;
    let s = seq_of(&fi);
    check_seq(&c, &s);
    assert!(s.level_idx == level as u32 && s.tier == 0);
  }
  hd_container {
    // the av1C box agrees with the sequence header of the same context
    let mut c = base_cfg();
    c.bit_depth = BD[nd::concretize(nd::range(0, 2)) as usize];
    c.chroma_sampling = CS[nd::concretize(nd::range(0, 3)) as usize];
    c.chroma_sample_position = CSP[nd::usize_in(0, 2)];
    let lv = [0u8, 5, 8, 19, 31][nd::usize_in(0, 4)];
    c.level_idx = if nd::boolean() { Some(lv) } else { None };
    let s = seq_of(&with_seq(Sequence::new(&c)));
    let out = if c.bit_depth == 8 {
      Config::new().with_encoder_config(c).new_context::<u8>().unwrap().container_sequence_header()
    } else {
      Config::new().with_encoder_config(c).new_context::<u16>().unwrap().container_sequence_header()
    };
    let mut b = Bits::from_bytes(&out);
    assert!(b.flag() && b.l(7) == 1); // marker, version
    assert!(b.l(3) == s.profile);
    assert!(b.l(5) == s.level_idx);
    assert!(b.l(1) == s.tier);
    assert!(b.flag() == (s.bit_depth > 8) && b.flag() == (s.bit_depth == 12));
    assert!(b.flag() == s.mono && b.flag() == s.ssx && b.flag() == s.ssy);
    assert!(b.l(2) == s.csp);
    assert!(b.l(3) == 0 && !b.flag() && b.l(4) == 0 && b.end());
  }
  hd_seq_tools {
    let mut seq = Sequence::new(&base_cfg());
    seq.use_128x128_superblock = nd::boolean();
    seq.enable_filter_intra = nd::boolean();
    seq.enable_intra_edge_filter = nd::boolean();
    seq.enable_interintra_compound = nd::boolean();
    seq.enable_masked_compound = nd::boolean();
    seq.enable_warped_motion = nd::boolean();
    seq.enable_dual_filter = nd::boolean();
    seq.enable_order_hint = nd::boolean();
    seq.enable_jnt_comp = nd::boolean();
    seq.enable_ref_frame_mvs = nd::boolean();
    seq.force_screen_content_tools = nd::u32_in(0, 2);
    seq.force_integer_mv = if seq.force_screen_content_tools == 0 { 2 } else { nd::u32_in(0, 2) };
    seq.order_hint_bits_minus_1 = nd::u32_in(0, 7);
    seq.enable_superres = nd::boolean();
    seq.enable_cdef = nd::boolean();
    seq.enable_restoration = nd::boolean();
    let fi = with_seq(seq);
    let s = seq_of(&fi);
    assert!(s.sb128 == seq.use_128x128_superblock);
    assert!(s.filter_intra == seq.enable_filter_intra);
    assert!(s.intra_edge == seq.enable_intra_edge_filter);
    assert!(s.interintra == seq.enable_interintra_compound);
    assert!(s.masked == seq.enable_masked_compound);
    assert!(s.warped == seq.enable_warped_motion);
    assert!(s.dual_filter == seq.enable_dual_filter);
    assert!(s.order_hint == seq.enable_order_hint);
    if s.order_hint {
      assert!(s.jnt_comp == seq.enable_jnt_comp);
      assert!(s.ref_frame_mvs == seq.enable_ref_frame_mvs);
      assert!(s.order_hint_bits == seq.order_hint_bits_minus_1 + 1);
    }
    assert!(s.force_sct == seq.force_screen_content_tools);
    assert!(s.force_imv == seq.force_integer_mv);
    assert!(s.superres == seq.enable_superres);
    assert!(s.cdef == seq.enable_cdef);
    assert!(s.restoration == seq.enable_restoration);
  }
  hd_seq_still {
    let mut c = base_cfg();
    c.still_picture = true;
    c.chroma_sampling = CS[nd::concretize(nd::range(0, 3)) as usize];
    let seq = Sequence::new(&c);
    let fi = with_seq(seq);
    let s = seq_of(&fi);
    check_seq(&c, &s);
    assert!(s.reduced);
  }
  hd_still {
    let mut c = base_cfg();
    c.still_picture = true;
    c.low_latency = true;
    let (mut fi, fs, ic, s) = key(c);
    fi.showable_frame = false;
    fi.base_q_idx = nd::u8_in(1, 255);
    fi.allow_screen_content_tools = nd::u32_in(0, 1);
    fi.disable_cdf_update = nd::boolean();
    fi.tx_mode_select = nd::boolean();
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_key {
    let (mut fi, fs, ic, s) = key(base_cfg());
    fi.order_hint = nd::u32();
    fi.disable_cdf_update = nd::boolean();
    fi.disable_frame_end_update_cdf = fi.disable_cdf_update || nd::boolean();
    fi.tx_mode_select = nd::boolean();
    fi.use_reduced_tx_set = nd::boolean();
    fi.base_q_idx = nd::u8_in(1, 255);
    fi.render_and_frame_size_different = nd::boolean();
    if fi.render_and_frame_size_different {
      fi.render_width = nd::u32_in(1, 65536);
      fi.render_height = nd::u32_in(1, 65536);
    }
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_show_existing {
    let (mut fi, fs, ic, s) = inter(base_cfg());
    fi.coded_frame_data = None;
    fi.frame_to_show_map_idx = nd::u32_in(0, 7);
    let out = write(&fi, &fs, &ic);
    let h = hdr::frame(&mut Bits::from_bytes(&out), &s, &[NOREF; 8]);
    assert!(h.show_existing && h.show_idx == fi.frame_to_show_map_idx);
  }
  hd_inter_flags {
    let (mut fi, fs, ic, s) = inter(base_cfg());
    let r = refs(&mut fi, &fs);
    fi.frame_type = if nd::boolean() { FrameType::SWITCH } else { FrameType::INTER };
    fi.show_frame = nd::boolean();
    fi.showable_frame = nd::boolean();
    fi.error_resilient = fi.frame_type == FrameType::SWITCH || nd::boolean();
    fi.frame_size_override_flag = fi.frame_type == FrameType::SWITCH || nd::boolean();
    fi.refresh_frame_flags = if fi.frame_type == FrameType::SWITCH { 255 } else { nd::u32_in(0, 255) };
    fi.order_hint = nd::u32();
    if !fi.error_resilient {
      fi.primary_ref_frame = nd::u32_in(0, 7);
    }
    let h = round_trip(&fi, &fs, &ic, &s, &r);
    if fi.error_resilient {
      for i in 0..8 {
        assert!(h.ref_order_hint[i] == r[i].order_hint);
      }
    }
  }
  hd_inter_tools {
    let (mut fi, fs, ic, s) = inter(base_cfg());
    let r = refs(&mut fi, &fs);
    for i in 0..7 {
      fi.ref_frames[i] = nd::u8_in(0, 7);
    }
    fi.allow_high_precision_mv = nd::boolean();
    fi.is_filter_switchable = nd::boolean();
    fi.default_filter = [
      rav1e::verif::mc::FilterMode::REGULAR,
      rav1e::verif::mc::FilterMode::SMOOTH,
      rav1e::verif::mc::FilterMode::SHARP,
      rav1e::verif::mc::FilterMode::BILINEAR,
    ][nd::usize_in(0, 3)];
    fi.is_motion_mode_switchable = nd::boolean();
    fi.tx_mode_select = nd::boolean();
    fi.use_reduced_tx_set = nd::boolean();
    round_trip(&fi, &fs, &ic, &s, &r);
  }
  hd_inter_skip {
    // the decoder's skip-mode derivation and the encoder's agree
    let (mut fi, fs, ic, s) = inter(base_cfg());
    let mut r = [NOREF; 8];
    for i in 0..3 {
      r[i] = RefInfo { order_hint: nd::u32_in(0, 63), w: 64, h: 64, rw: 64, rh: 64, ..NOREF };
    }
    set_refs(&mut fi, &fs, &r);
    fi.order_hint = nd::u32_in(0, 63);
    fi.ref_frames = [0, 1, 2, 0, 0, 0, 1];
    fi.reference_mode = ReferenceMode::SELECT;
    round_trip(&fi, &fs, &ic, &s, &r);
  }
  hd_inter_size {
    // frame_size_with_refs: sizes taken from the first matching reference
    let (mut fi, fs, ic, s) = inter(base_cfg());
    let mut r = [NOREF; 8];
    for i in 0..8 {
      r[i].w = nd::u32_in(63, 64);
      r[i].h = nd::u32_in(63, 64);
      r[i].rw = nd::u32_in(99, 100);
      r[i].rh = nd::u32_in(99, 100);
    }
    set_refs(&mut fi, &fs, &r);
    fi.render_width = 100;
    fi.render_height = 100;
    fi.render_and_frame_size_different = true;
    fi.frame_size_override_flag = true;
    fi.error_resilient = nd::boolean();
    fi.ref_frames = [0, 1, 2, 3, 4, 5, 6];
    round_trip(&fi, &fs, &ic, &s, &r);
  }
  hd_quant {
    let mut c = base_cfg();
    c.chroma_sampling = CS[nd::concretize(nd::range(0, 3)) as usize];
    let (mut fi, fs, ic, s) = key(c);
    fi.base_q_idx = nd::u8_in(1, 255);
    for p in 0..3 {
      fi.dc_delta_q[p] = nd::i8_in(-63, 63);
      if p > 0 {
        fi.ac_delta_q[p] = nd::i8_in(-63, 63);
      }
    }
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_seg_none { segm(7, false) }
  hd_seg_prim { segm(0, false) }
  hd_seg_altq { segm(7, true) }
  hd_seg_altq_prim { segm(0, true) }
  hd_lf {
    let mut c = base_cfg();
    c.chroma_sampling = if nd::boolean() { ChromaSampling::Cs420 } else { ChromaSampling::Cs400 };
    let (fi, mut fs, ic, s) = key(c);
    for i in 0..4 {
      fs.deblock.levels[i] = nd::u8_in(0, 63);
    }
    fs.deblock.sharpness = nd::u8_in(0, 7);
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_cdef {
    let mut c = base_cfg();
    c.chroma_sampling = if nd::boolean() { ChromaSampling::Cs420 } else { ChromaSampling::Cs400 };
    let (mut fi, fs, ic, s) = key(c);
    let mut seq = *fi.sequence;
    seq.enable_cdef = true;
    fi.sequence = Arc::new(seq);
    let mut s = s;
    s.cdef = true;
    fi.cdef_damping = nd::u8_in(3, 6);
    fi.cdef_bits = nd::u8_in(0, 3);
    for i in 0..8 {
      fi.cdef_y_strengths[i] = nd::u8_in(0, 63);
      fi.cdef_uv_strengths[i] = nd::u8_in(0, 63);
    }
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_lrf {
    let mut c = base_cfg();
    c.chroma_sampling = CS[nd::concretize(nd::range(0, 3)) as usize];
    let (mut fi, mut fs, ic, mut s) = key(c);
    let mut seq = *fi.sequence;
    seq.enable_restoration = true;
    fi.sequence = Arc::new(seq);
    s.restoration = true;
    let lu = nd::usize_in(0, 2);
    let uvs = if s.ssx && s.ssy { nd::usize_in(0, 1) } else { 0 };
    nd::assume(lu >= uvs);
    for p in 0..3 {
      fs.restoration.planes[p].cfg.lrf_type = nd::u8_in(0, 3);
      fs.restoration.planes[p].cfg.unit_size = if p == 0 { 64 << lu } else { 64 << lu >> uvs };
    }
    round_trip(&fi, &fs, &ic, &s, &[NOREF; 8]);
  }
  hd_tiles_1 { frame_tiles(64, 64, 0, 0) }
  hd_tiles_2 { frame_tiles(640, 480, 2, 2) }
  hd_tiles_3 { frame_tiles(1920, 1080, 4, 2) }
  hd_tiles_4 { frame_tiles(5000, 3000, 0, 0) }
  hd_tiles_5 { frame_tiles(8192, 4320, 4, 4) }
  hd_tiles_6 { frame_tiles(1000, 800, 64, 64) }
  hd_tiles_7 { frame_tiles(320, 192, 4, 2) }
  hd_tiles_8 { frame_tiles(576, 448, 4, 4) }
  hd_tiles422_1 { frame_tiles2(6016, 3384, 1, 1, ChromaSampling::Cs422) }
  hd_tiles422_2 { frame_tiles2(1100, 700, 4, 2, ChromaSampling::Cs422) }
  hd_tiles422_3 { frame_tiles2(3000, 3400, 1, 1, ChromaSampling::Cs422) }
  hd_tiles422_4 { frame_tiles2(190, 90, 1, 2, ChromaSampling::Cs422) }
  hd_grain_420 { grain(2, 1, 1, 1, ChromaSampling::Cs420, false) }
  hd_grain_inter { grain(1, 0, 2, 0, ChromaSampling::Cs420, true) }
  hd_grain_444 { grain(0, 1, 1, 2, ChromaSampling::Cs444, false) }
  hd_grain_full { grain(14, 10, 10, 3, ChromaSampling::Cs420, false) }
  hd_grain_mono { grain(1, 0, 0, 1, ChromaSampling::Cs400, false) }
  hd_grain_none { grain(0, 0, 0, 3, ChromaSampling::Cs420, false) }
  hd_grain_mono_uv { grain(1, 1, 1, 1, ChromaSampling::Cs400, false) }
  hd_grain_noluma_uv { grain(0, 1, 1, 1, ChromaSampling::Cs420, false) }
  hd_meta_cll { metadata(0) }
  hd_meta_mdcv { metadata(1) }
  hd_t35_0 { t35(0) }
  hd_t35_5 { t35(5) }
  hd_t35_130 { t35(130) }
  hd_uleb {
    let v = nd::u32();
    let mut out = Vec::new();
    let mut bw = BitWriter::endian(&mut out, BigEndian);
    bw.write_uleb128(v as u64).unwrap();
    let mut b = Bits::from_bytes(&out);
    assert!(b.leb128() == v as u64 && b.end());
  }
  hd_le {
    let v = nd::u64();
    let n = nd::concretize(nd::range(1, 8)) as u32;
    nd::assume(n == 8 || v >> (8 * n) == 0);
    let mut out = Vec::new();
    let mut bw = BitWriter::endian(&mut out, BigEndian);
    bw.write_le(n, v).unwrap();
    assert!(out.len() == n as usize);
    let mut x = 0u64;
    for i in 0..n as usize {
      x |= (out[i] as u64) << (8 * i);
    }
    assert!(x == v);
  }
}
