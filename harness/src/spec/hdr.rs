//! AV1 spec 5.3-5.9: OBU, sequence header, frame header, metadata parsing.
//! Independent of the encoder; only the syntax a conformant stream from a
//! non-scalable, non-superres, single-operating-point encoder can contain is
//! accepted, anything else panics.
use super::tok::Bits;

pub const SELECT: u32 = 2;
pub const NONE: u32 = 7;

#[derive(Default, Clone, Debug)]
pub struct Seq {
  pub profile: u32,
  pub still_picture: bool,
  pub reduced: bool,
  pub timing_info_present: bool,
  pub num_units_in_display_tick: u32,
  pub time_scale: u32,
  pub equal_picture_interval: bool,
  pub num_ticks_minus_1: u32,
  pub level_idx: u32,
  pub tier: u32,
  pub frame_width_bits: u32,
  pub frame_height_bits: u32,
  pub max_w: u32,
  pub max_h: u32,
  pub sb128: bool,
  pub filter_intra: bool,
  pub intra_edge: bool,
  pub interintra: bool,
  pub masked: bool,
  pub warped: bool,
  pub dual_filter: bool,
  pub order_hint: bool,
  pub jnt_comp: bool,
  pub ref_frame_mvs: bool,
  pub force_sct: u32,
  pub force_imv: u32,
  pub order_hint_bits: u32,
  pub superres: bool,
  pub cdef: bool,
  pub restoration: bool,
  pub bit_depth: u32,
  pub mono: bool,
  pub desc: Option<(u32, u32, u32)>,
  pub full_range: bool,
  pub ssx: bool,
  pub ssy: bool,
  pub csp: u32,
  pub separate_uv_delta_q: bool,
  pub film_grain: bool,
}

/// sequence_header_obu 5.5
pub fn seq(b: &mut Bits) -> Seq {
  let mut s = Seq::default();
  s.profile = b.l(3);
  assert!(s.profile <= 2);
  s.still_picture = b.flag();
  s.reduced = b.flag();
  assert!(!s.reduced || s.still_picture);
  if s.reduced {
    s.level_idx = b.l(5);
  } else {
    s.timing_info_present = b.flag();
    if s.timing_info_present {
      s.num_units_in_display_tick = b.l(32);
      s.time_scale = b.l(32);
      assert!(s.num_units_in_display_tick > 0 && s.time_scale > 0);
      s.equal_picture_interval = b.flag();
      if s.equal_picture_interval {
        s.num_ticks_minus_1 = b.uvlc();
      }
      assert!(!b.flag()); // decoder_model_info_present_flag
    }
    assert!(!b.flag()); // initial_display_delay_present_flag
    assert!(b.l(5) == 0); // operating_points_cnt_minus_1
    assert!(b.l(12) == 0); // operating_point_idc
    s.level_idx = b.l(5);
    if s.level_idx > 7 {
      s.tier = b.l(1);
    }
  }
  s.frame_width_bits = b.l(4) + 1;
  s.frame_height_bits = b.l(4) + 1;
  s.max_w = b.l(s.frame_width_bits) + 1;
  s.max_h = b.l(s.frame_height_bits) + 1;
  if !s.reduced {
    assert!(!b.flag()); // frame_id_numbers_present_flag
  }
  s.sb128 = b.flag();
  s.filter_intra = b.flag();
  s.intra_edge = b.flag();
  if s.reduced {
    s.force_sct = SELECT;
    s.force_imv = SELECT;
  } else {
    s.interintra = b.flag();
    s.masked = b.flag();
    s.warped = b.flag();
    s.dual_filter = b.flag();
    s.order_hint = b.flag();
    if s.order_hint {
      s.jnt_comp = b.flag();
      s.ref_frame_mvs = b.flag();
    }
    s.force_sct = if b.flag() { SELECT } else { b.l(1) };
    s.force_imv = if s.force_sct > 0 {
      if b.flag() { SELECT } else { b.l(1) }
    } else {
      SELECT
    };
    if s.order_hint {
      s.order_hint_bits = b.l(3) + 1;
    }
  }
  s.superres = b.flag();
  s.cdef = b.flag();
  s.restoration = b.flag();
  // color_config
  let hbd = b.flag();
  s.bit_depth = if s.profile == 2 && hbd {
    if b.flag() { 12 } else { 10 }
  } else if hbd {
    10
  } else {
    8
  };
  s.mono = if s.profile == 1 { false } else { b.flag() };
  if b.flag() {
    let cp = b.l(8);
    let tc = b.l(8);
    let mc = b.l(8);
    s.desc = Some((cp, tc, mc));
  }
  let (cp, tc, mc) = s.desc.unwrap_or((2, 2, 2));
  if s.mono {
    s.full_range = b.flag();
    s.ssx = true;
    s.ssy = true;
  } else if cp == 1 && tc == 13 && mc == 0 {
    s.full_range = true;
    assert!(s.profile == 1 || (s.profile == 2 && s.bit_depth == 12));
    s.separate_uv_delta_q = b.flag();
  } else {
    s.full_range = b.flag();
    if s.profile == 0 {
      s.ssx = true;
      s.ssy = true;
    } else if s.profile == 1 {
    } else if s.bit_depth == 12 {
      s.ssx = b.flag();
      if s.ssx {
        s.ssy = b.flag();
      }
    } else {
      s.ssx = true;
    }
    // matrix_coefficients identity needs 4:4:4
    assert!(mc != 0 || (!s.ssx && !s.ssy));
    if s.ssx && s.ssy {
      s.csp = b.l(2);
    }
    s.separate_uv_delta_q = b.flag();
  }
  s.film_grain = b.flag();
  s
}

/// obu_header 5.3.2: returns obu_type
pub fn obu_header(b: &mut Bits) -> u32 {
  assert!(!b.flag()); // forbidden
  let t = b.l(4);
  assert!(!b.flag()); // extension
  assert!(b.flag()); // has_size
  assert!(!b.flag()); // reserved
  t
}
/// trailing_bits(n) up to the end of the buffer
pub fn trailing(b: &mut Bits) {
  assert!(b.flag());
  while b.p & 7 != 0 {
    assert!(!b.flag());
  }
  assert!(b.end());
}

/// What the decoder knows about a reference slot.
#[derive(Clone, Copy)]
pub struct RefInfo {
  pub order_hint: u32,
  pub w: u32,
  pub h: u32,
  pub rw: u32,
  pub rh: u32,
  pub lf_ref: [i32; 8],
  pub lf_mode: [i32; 2],
}

#[derive(Default, Clone)]
pub struct Grain {
  pub seed: u32,
  pub y: Vec<(u32, u32)>,
  pub cfl: bool,
  pub cb: Vec<(u32, u32)>,
  pub cr: Vec<(u32, u32)>,
  pub shift: u32,
  pub lag: u32,
  pub ar_y: Vec<i32>,
  pub ar_cb: Vec<i32>,
  pub ar_cr: Vec<i32>,
  pub ar_shift: u32,
  pub scale_shift: u32,
  pub cbp: (u32, u32, u32),
  pub crp: (u32, u32, u32),
  pub overlap: bool,
  pub clip: bool,
}

#[derive(Default, Clone)]
pub struct Hdr {
  pub show_existing: bool,
  pub show_idx: u32,
  pub frame_type: u32,
  pub show_frame: bool,
  pub showable: bool,
  pub error_res: bool,
  pub disable_cdf_update: bool,
  pub sct: bool,
  pub imv: bool,
  pub size_override: bool,
  pub order_hint: u32,
  pub primary_ref: u32,
  pub refresh: u32,
  pub ref_order_hint: [u32; 8],
  pub w: u32,
  pub h: u32,
  pub rw: u32,
  pub rh: u32,
  pub intrabc: bool,
  pub refs: [u32; 7],
  pub hp_mv: bool,
  pub filter: u32, // 4 = switchable
  pub motion_switchable: bool,
  pub use_ref_mvs: bool,
  pub disable_end_cdf: bool,
  // tiles
  pub uniform: bool,
  pub col_starts: Vec<u32>,
  pub row_starts: Vec<u32>,
  pub ctx_tile: u32,
  pub tile_size_bytes: u32,
  // quant
  pub base_q: u32,
  pub dc_q: [i32; 3],
  pub ac_q: [i32; 3],
  // segmentation
  pub seg: bool,
  pub seg_update_map: bool,
  pub seg_temporal: bool,
  pub seg_update_data: bool,
  pub seg_on: [[bool; 8]; 8],
  pub seg_val: [[i32; 8]; 8],
  // lf
  pub lf: [u32; 4],
  pub lf_sharp: u32,
  pub lf_delta: bool,
  pub lf_update: bool,
  pub lf_ref: [i32; 8],
  pub lf_mode: [i32; 2],
  // cdef
  pub cdef_damping: u32,
  pub cdef_bits: u32,
  pub cdef_y: [u32; 8],
  pub cdef_uv: [u32; 8],
  // lr
  pub lr_type: [u32; 3],
  pub lr_size: [u32; 3],
  pub tx_select: bool,
  pub ref_select: bool,
  pub skip_mode_allowed: bool,
  pub skip_mode: bool,
  pub warped: bool,
  pub reduced_tx: bool,
  pub gm: [u32; 8],
  pub grain: Option<Grain>,
  pub film_grain_seen: bool,
}

fn rel(s: &Seq, a: u32, b: u32) -> i32 {
  if !s.order_hint {
    return 0;
  }
  let diff = a as i32 - b as i32;
  let m = 1 << (s.order_hint_bits - 1);
  (diff & (m - 1)) - (diff & m)
}
pub fn tile_log2(blk: u32, target: u32) -> u32 {
  let mut k = 0;
  while (blk << k) < target {
    k += 1;
  }
  k
}
const SEG_BITS: [u32; 8] = [8, 6, 6, 6, 6, 3, 0, 0];
const SEG_SIGNED: [bool; 8] = [true, true, true, true, true, false, false, false];
const SEG_MAX: [i32; 8] = [255, 63, 63, 63, 63, 7, 0, 0];

fn frame_size(b: &mut Bits, s: &Seq, h: &mut Hdr) {
  if h.size_override {
    h.w = b.l(s.frame_width_bits) + 1;
    h.h = b.l(s.frame_height_bits) + 1;
  } else {
    h.w = s.max_w;
    h.h = s.max_h;
  }
  assert!(!s.superres);
}
fn render_size(b: &mut Bits, h: &mut Hdr) {
  if b.flag() {
    h.rw = b.l(16) + 1;
    h.rh = b.l(16) + 1;
  } else {
    h.rw = h.w;
    h.rh = h.h;
  }
}
fn delta_q(b: &mut Bits) -> i32 {
  if b.flag() { b.su(7) } else { 0 }
}

/// uncompressed_header 5.9.2 followed by the byte alignment of OBU_FRAME (or
/// the trailing bits of a show_existing_frame header OBU).
pub fn frame(b: &mut Bits, s: &Seq, refs: &[RefInfo; 8]) -> Hdr {
  let h = frame_hdr(b, s, refs);
  assert!(b.end());
  h
}
/// uncompressed_header() and byte_alignment(); a frame OBU's tile data follows
pub fn frame_hdr(b: &mut Bits, s: &Seq, refs: &[RefInfo; 8]) -> Hdr {
  let mut h = Hdr::default();
  let all = 255;
  let intra;
  if s.reduced {
    h.frame_type = 0;
    h.show_frame = true;
    h.error_res = true;
    intra = true;
  } else {
    h.show_existing = b.flag();
    if h.show_existing {
      h.show_idx = b.l(3);
      trailing(b);
      return h;
    }
    h.frame_type = b.l(2);
    intra = h.frame_type == 0 || h.frame_type == 2;
    h.show_frame = b.flag();
    if h.show_frame {
      h.showable = h.frame_type != 0;
    } else {
      h.showable = b.flag();
    }
    h.error_res = if h.frame_type == 3 || (h.frame_type == 0 && h.show_frame) {
      true
    } else {
      b.flag()
    };
  }
  h.disable_cdf_update = b.flag();
  h.sct = if s.force_sct == SELECT { b.flag() } else { s.force_sct != 0 };
  h.imv = if h.sct {
    if s.force_imv == SELECT { b.flag() } else { s.force_imv != 0 }
  } else {
    false
  };
  h.size_override = if h.frame_type == 3 {
    true
  } else if s.reduced {
    false
  } else {
    b.flag()
  };
  h.order_hint = b.l(s.order_hint_bits);
  h.primary_ref = if intra || h.error_res { NONE } else { b.l(3) };
  h.refresh = if h.frame_type == 3 || (h.frame_type == 0 && h.show_frame) {
    all
  } else {
    b.l(8)
  };
  if h.frame_type == 2 {
    assert!(h.refresh != all);
  }
  if (!intra || h.refresh != all) && h.error_res && s.order_hint {
    for i in 0..8 {
      h.ref_order_hint[i] = b.l(s.order_hint_bits);
    }
  }
  if intra {
    frame_size(b, s, &mut h);
    render_size(b, &mut h);
    if h.sct {
      h.intrabc = b.flag();
    }
    h.imv = true;
  } else {
    if s.order_hint {
      assert!(!b.flag()); // frame_refs_short_signaling
    }
    for i in 0..7 {
      h.refs[i] = b.l(3);
    }
    if h.size_override && !h.error_res {
      let mut found = false;
      for i in 0..7 {
        found = b.flag();
        if found {
          let r = &refs[h.refs[i] as usize];
          h.w = r.w;
          h.h = r.h;
          h.rw = r.rw;
          h.rh = r.rh;
          break;
        }
      }
      if !found {
        frame_size(b, s, &mut h);
        render_size(b, &mut h);
      }
    } else {
      frame_size(b, s, &mut h);
      render_size(b, &mut h);
    }
    h.hp_mv = if h.imv { false } else { b.flag() };
    h.filter = if b.flag() { 4 } else { b.l(2) };
    h.motion_switchable = b.flag();
    h.use_ref_mvs = if h.error_res || !s.ref_frame_mvs { false } else { b.flag() };
  }
  h.disable_end_cdf = if s.reduced || h.disable_cdf_update { true } else { b.flag() };
  // tile_info
  let sb = if s.sb128 { 7 } else { 6 };
  let mi = |x: u32| 2 * ((x + 7) >> 3);
  let sb_cols = (mi(h.w) + (1 << (sb - 2)) - 1) >> (sb - 2);
  let sb_rows = (mi(h.h) + (1 << (sb - 2)) - 1) >> (sb - 2);
  let max_w_sb = 4096 >> sb;
  let mut max_area_sb = (4096 * 2304) >> (2 * sb);
  let min_log2_cols = tile_log2(max_w_sb, sb_cols);
  let max_log2_cols = tile_log2(1, sb_cols.min(64));
  let max_log2_rows = tile_log2(1, sb_rows.min(64));
  let min_log2 = min_log2_cols.max(tile_log2(max_area_sb, sb_rows * sb_cols));
  h.uniform = b.flag();
  let (cols_log2, rows_log2);
  if h.uniform {
    let mut c = min_log2_cols;
    while c < max_log2_cols && b.flag() {
      c += 1;
    }
    let w = (sb_cols + (1 << c) - 1) >> c;
    let mut x = 0;
    while x < sb_cols {
      h.col_starts.push(x);
      x += w;
    }
    let min_rows = min_log2.saturating_sub(c);
    let mut r = min_rows;
    while r < max_log2_rows && b.flag() {
      r += 1;
    }
    let hh = (sb_rows + (1 << r) - 1) >> r;
    let mut y = 0;
    while y < sb_rows {
      h.row_starts.push(y);
      y += hh;
    }
    cols_log2 = c;
    rows_log2 = r;
  } else {
    let mut widest = 0;
    let mut x = 0;
    while x < sb_cols {
      h.col_starts.push(x);
      let m = (sb_cols - x).min(max_w_sb);
      let w = b.ns(m) + 1;
      widest = widest.max(w);
      x += w;
    }
    assert!(x == sb_cols);
    cols_log2 = tile_log2(1, h.col_starts.len() as u32);
    if min_log2 > 0 {
      max_area_sb = (sb_rows * sb_cols) >> (min_log2 + 1);
    } else {
      max_area_sb = sb_rows * sb_cols;
    }
    let max_h = (max_area_sb / widest).max(1);
    let mut y = 0;
    while y < sb_rows {
      h.row_starts.push(y);
      let m = (sb_rows - y).min(max_h);
      let w = b.ns(m) + 1;
      y += w;
    }
    assert!(y == sb_rows);
    rows_log2 = tile_log2(1, h.row_starts.len() as u32);
  }
  assert!(h.col_starts.len() <= 64 && h.row_starts.len() <= 64);
  if cols_log2 > 0 || rows_log2 > 0 {
    h.ctx_tile = b.l(cols_log2 + rows_log2);
    h.tile_size_bytes = b.l(2) + 1;
    assert!((h.ctx_tile as usize) < h.col_starts.len() * h.row_starts.len());
  }
  // quantization_params
  let planes = if s.mono { 1 } else { 3 };
  h.base_q = b.l(8);
  h.dc_q[0] = delta_q(b);
  if planes > 1 {
    let diff = if s.separate_uv_delta_q { b.flag() } else { false };
    h.dc_q[1] = delta_q(b);
    h.ac_q[1] = delta_q(b);
    if diff {
      h.dc_q[2] = delta_q(b);
      h.ac_q[2] = delta_q(b);
    } else {
      h.dc_q[2] = h.dc_q[1];
      h.ac_q[2] = h.ac_q[1];
    }
  }
  assert!(!b.flag()); // using_qmatrix
  // segmentation_params
  h.seg = b.flag();
  if h.seg {
    if h.primary_ref == NONE {
      h.seg_update_map = true;
      h.seg_update_data = true;
    } else {
      h.seg_update_map = b.flag();
      if h.seg_update_map {
        h.seg_temporal = b.flag();
      }
      h.seg_update_data = b.flag();
    }
    if h.seg_update_data {
      for i in 0..8 {
        for j in 0..8 {
          if b.flag() {
            h.seg_on[i][j] = true;
            let v = if SEG_SIGNED[j] { b.su(1 + SEG_BITS[j]) } else { b.l(SEG_BITS[j]) as i32 };
            assert!(v <= SEG_MAX[j] && v >= -SEG_MAX[j]);
            h.seg_val[i][j] = v;
          }
        }
      }
    }
  }
  // delta_q_params
  if h.base_q > 0 {
    assert!(!b.flag());
  }
  // CodedLossless must not hold: the encoder has no lossless mode
  assert!(h.base_q > 0);
  // loop_filter_params
  let (mut pr, mut pm) = ([1, 0, 0, 0, -1, 0, -1, -1], [0, 0]);
  if h.primary_ref != NONE {
    let r = &refs[h.refs[h.primary_ref as usize] as usize];
    pr = r.lf_ref;
    pm = r.lf_mode;
  }
  h.lf_ref = pr;
  h.lf_mode = pm;
  if !h.intrabc {
    h.lf[0] = b.l(6);
    h.lf[1] = b.l(6);
    if planes > 1 && (h.lf[0] != 0 || h.lf[1] != 0) {
      h.lf[2] = b.l(6);
      h.lf[3] = b.l(6);
    }
    h.lf_sharp = b.l(3);
    h.lf_delta = b.flag();
    if h.lf_delta {
      h.lf_update = b.flag();
      if h.lf_update {
        for i in 0..8 {
          if b.flag() {
            h.lf_ref[i] = b.su(7);
          }
        }
        for i in 0..2 {
          if b.flag() {
            h.lf_mode[i] = b.su(7);
          }
        }
      }
    }
  }
  // cdef_params
  h.cdef_damping = 3;
  if !h.intrabc && s.cdef {
    h.cdef_damping = b.l(2) + 3;
    h.cdef_bits = b.l(2);
    for i in 0..1usize << h.cdef_bits {
      h.cdef_y[i] = b.l(6);
      if planes > 1 {
        h.cdef_uv[i] = b.l(6);
      }
    }
  }
  // lr_params
  if !h.intrabc && s.restoration {
    let mut uses = false;
    let mut chroma = false;
    for i in 0..planes {
      h.lr_type[i] = b.l(2);
      if h.lr_type[i] != 0 {
        uses = true;
        if i > 0 {
          chroma = true;
        }
      }
    }
    if uses {
      let mut shift;
      if s.sb128 {
        shift = b.l(1) + 1;
      } else {
        shift = b.l(1);
        if shift != 0 {
          shift += b.l(1);
        }
      }
      h.lr_size[0] = 64 << shift;
      let uv = if s.ssx && s.ssy && chroma { b.l(1) } else { 0 };
      h.lr_size[1] = h.lr_size[0] >> uv;
      h.lr_size[2] = h.lr_size[0] >> uv;
    }
  }
  h.tx_select = b.flag();
  h.ref_select = if intra { false } else { b.flag() };
  // skip_mode_params 5.9.22
  if !intra && h.ref_select && s.order_hint {
    let (mut fi, mut bi) = (-1i32, -1i32);
    let (mut fh, mut bh) = (0, 0);
    for i in 0..7 {
      let rh = refs[h.refs[i] as usize].order_hint;
      if rel(s, rh, h.order_hint) < 0 {
        if fi < 0 || rel(s, rh, fh) > 0 {
          fi = i as i32;
          fh = rh;
        }
      } else if rel(s, rh, h.order_hint) > 0 {
        if bi < 0 || rel(s, rh, bh) < 0 {
          bi = i as i32;
          bh = rh;
        }
      }
    }
    if fi < 0 {
    } else if bi >= 0 {
      h.skip_mode_allowed = true;
    } else {
      let mut si = -1;
      let mut sh = 0;
      for i in 0..7 {
        let rh = refs[h.refs[i] as usize].order_hint;
        if rel(s, rh, fh) < 0 {
          if si < 0 || rel(s, rh, sh) > 0 {
            si = i as i32;
            sh = rh;
          }
        }
      }
      h.skip_mode_allowed = si >= 0;
    }
  }
  if h.skip_mode_allowed {
    h.skip_mode = b.flag();
  }
  h.warped = if intra || h.error_res || !s.warped { false } else { b.flag() };
  h.reduced_tx = b.flag();
  if !intra {
    for r in 1..8 {
      // global motion type: 0 identity, 1 translation, 2 rotzoom, 3 affine
      if b.flag() {
        h.gm[r] = if b.flag() { 2 } else if b.flag() { 1 } else { 3 };
      }
      assert!(h.gm[r] == 0);
    }
  }
  // film_grain_params 5.9.30
  if s.film_grain && (h.show_frame || h.showable) {
    h.film_grain_seen = true;
    if b.flag() {
      let mut g = Grain::default();
      g.seed = b.l(16);
      if h.frame_type == 1 {
        assert!(b.flag()); // update_grain
      }
      let pts = |b: &mut Bits, max: u32| {
        let n = b.l(4);
        assert!(n <= max);
        let mut v = Vec::new();
        for _ in 0..n {
          let x = b.l(8);
          let y = b.l(8);
          v.push((x, y));
        }
        v
      };
      g.y = pts(b, 14);
      g.cfl = if s.mono { false } else { b.flag() };
      if !(s.mono || g.cfl || (s.ssx && s.ssy && g.y.is_empty())) {
        g.cb = pts(b, 10);
        g.cr = pts(b, 10);
      }
      g.shift = b.l(2) + 8;
      g.lag = b.l(2);
      let nl = 2 * g.lag * (g.lag + 1);
      let nc;
      if !g.y.is_empty() {
        nc = nl + 1;
        for _ in 0..nl {
          g.ar_y.push(b.l(8) as i32 - 128);
        }
      } else {
        nc = nl;
      }
      if g.cfl || !g.cb.is_empty() {
        for _ in 0..nc {
          g.ar_cb.push(b.l(8) as i32 - 128);
        }
      }
      if g.cfl || !g.cr.is_empty() {
        for _ in 0..nc {
          g.ar_cr.push(b.l(8) as i32 - 128);
        }
      }
      g.ar_shift = b.l(2) + 6;
      g.scale_shift = b.l(2);
      if !g.cb.is_empty() {
        g.cbp = (b.l(8), b.l(8), b.l(9));
      }
      if !g.cr.is_empty() {
        g.crp = (b.l(8), b.l(8), b.l(9));
      }
      g.overlap = b.flag();
      g.clip = b.flag();
      h.grain = Some(g);
    }
  }
  // byte_alignment()
  while b.p & 7 != 0 {
    assert!(!b.flag());
  }
  h
}
