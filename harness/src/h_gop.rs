//! Whole-context harnesses: frames in, packets out.  The packets are parsed and
//! run through the decoder's reference-buffer process (spec 7.20, 7.21).
use crate::nd;
use arrayvec::ArrayVec;
use crate::spec::hdr::{self, Hdr, RefInfo, Seq};
use crate::spec::tok::Bits;
use rav1e::prelude::*;
use rav1e::verif::api::*;

const NOREF: RefInfo = RefInfo { order_hint: 0, w: 0, h: 0, rw: 0, rh: 0, lf_ref: [1, 0, 0, 0, -1, 0, -1, -1], lf_mode: [0, 0] };

/// obu_type and payload of every OBU of a temporal unit
fn obus(data: &[u8]) -> Vec<(u32, Vec<u8>)> {
  let mut v = Vec::new();
  let mut p = 0;
  while p < data.len() {
    let mut b = Bits::from_bytes(&data[p..]);
    let t = hdr::obu_header(&mut b);
    let n = b.leb128() as usize;
    let h = b.p / 8;
    assert!(p + h + n <= data.len());
    v.push((t, data[p + h..p + h + n].to_vec()));
    p += h + n;
  }
  v
}

#[derive(Clone)]
struct Slot {
  info: RefInfo,
  grain: Option<hdr::Grain>,
  /// number of the frame in coding order, and of its group of pictures
  id: u64,
  gop: u64,
}
struct Dec {
  seq: Option<Seq>,
  slot: [Option<Slot>; 8],
  coded: u64,
  gop: u64,
  shown: Vec<bool>,
}
struct Shown {
  order_hint: u32,
  key: bool,
  grain: Option<hdr::Grain>,
  switch: bool,
  t35: Vec<Vec<u8>>,
}
impl Dec {
  fn new() -> Self {
    Dec { seq: None, slot: Default::default(), coded: 0, gop: 0, shown: Vec::new() }
  }
  fn unit(&mut self, data: &[u8]) -> Shown {
    let v = obus(data);
    assert!(v[0].0 == 2 && v[0].1.is_empty());
    let mut out: Option<Shown> = None;
    let mut t35 = Vec::new();
    for (t, d) in &v[1..] {
      // one shown frame per temporal unit, and nothing after it
      assert!(out.is_none());
      let mut b = Bits::from_bytes(d);
      match *t {
        1 => {
          let s = hdr::seq(&mut b);
          hdr::trailing(&mut b);
          self.seq = Some(s);
        }
        5 => {
          let k = b.leb128();
          if k == 4 {
            t35.push(d[1..].to_vec());
          }
        }
        3 | 6 => {
          let s = self.seq.as_ref().unwrap();
          let mut refs = [NOREF; 8];
          for i in 0..8 {
            if let Some(x) = &self.slot[i] {
              refs[i] = x.info;
            }
          }
          let h = if *t == 3 { hdr::frame(&mut b, s, &refs) } else { hdr::frame_hdr(&mut b, s, &refs) };
          assert!(h.show_existing == (*t == 3));
          if *t == 6 {
            assert!(!b.end()); // tile data follows
          }
          out = self.frame(&h);
        }
        _ => panic!("unexpected OBU"),
      }
    }
    let mut s = out.unwrap();
    s.t35 = t35;
    s
  }
  fn frame(&mut self, h: &Hdr) -> Option<Shown> {
    if h.show_existing {
      let s = self.slot[h.show_idx as usize].clone().unwrap();
      assert!(!self.shown[s.id as usize]);
      self.shown[s.id as usize] = true;
      return Some(Shown { order_hint: s.info.order_hint, key: false, grain: s.grain, switch: false, t35: vec![] });
    }
    let id = self.coded;
    self.coded += 1;
    self.shown.push(h.show_frame);
    if h.frame_type == 0 {
      assert!(h.show_frame && h.order_hint == 0);
      self.gop += 1;
    } else {
      // every reference, and the frame probabilities are taken from, is a frame
      // of this group of pictures that the decoder holds
      for i in 0..7 {
        assert!(self.slot[h.refs[i] as usize].as_ref().unwrap().gop == self.gop);
      }
      if h.primary_ref != 7 {
        assert!(self.slot[h.refs[h.primary_ref as usize] as usize].is_some());
      }
      if h.error_res {
        for i in 0..8 {
          assert!(h.ref_order_hint[i] == self.slot[i].as_ref().unwrap().info.order_hint);
        }
      }
      assert!(h.show_frame || h.showable);
    }
    let info = RefInfo { order_hint: h.order_hint, w: h.w, h: h.h, rw: h.rw, rh: h.rh, lf_ref: h.lf_ref, lf_mode: h.lf_mode };
    for i in 0..8 {
      if h.refresh >> i & 1 != 0 {
        self.slot[i] = Some(Slot { info, grain: h.grain.clone(), id, gop: self.gop });
      }
    }
    if h.show_frame {
      Some(Shown { order_hint: h.order_hint, key: h.frame_type == 0, grain: h.grain.clone(), switch: h.frame_type == 3, t35: vec![] })
    } else {
      None
    }
  }
}

fn cfg(low_latency: bool) -> EncoderConfig {
  let mut c = EncoderConfig::with_speed_preset(10);
  c.width = 16;
  c.height = 16;
  c.chroma_sampling = ChromaSampling::Cs400;
  c.low_latency = low_latency;
  c.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
  c.speed_settings.rdo_lookahead_frames = 1;
  c.quantizer = 60;
  c.tune = Tune::Psnr;
  c
}

struct Run {
  dec: Dec,
  next: u64,
  gop_start: u64,
  key: Vec<bool>,
  t35: Vec<u8>,
  max_key: u64,
  switch: u64,
  /// end times of the two film grain segments
  grain: Option<(u64, u64)>,
  /// keyframes may also be placed by the encoder
  scene: Option<u64>,
}
impl Run {
  fn drain(&mut self, ctx: &mut Context<u8>) {
    loop {
      match ctx.receive_packet() {
        Ok(p) => self.packet(p),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::NeedMoreData) | Err(EncoderStatus::LimitReached) => break,
        Err(_) => panic!("unexpected status"),
      }
    }
  }
  fn packet(&mut self, p: Packet<u8>) {
    let s = self.dec.unit(&p.data);
    let n = self.next;
    // packets come in display order, one per input frame
    assert!(p.input_frameno == n);
    // keyframes: forced ones, and when the interval is reached
    let mut key = n == 0 || self.key[n as usize] || n - self.gop_start == self.max_key;
    if let Some(min) = self.scene {
      if s.key && !key {
        assert!(n - self.gop_start >= min);
        key = true;
      }
    }
    assert!(s.key == key);
    assert!((p.frame_type == FrameType::KEY) == key);
    if key {
      self.gop_start = n;
    }
    let k = n - self.gop_start;
    let bits = self.dec.seq.as_ref().unwrap().order_hint_bits;
    assert!(s.order_hint as u64 == k & ((1 << bits) - 1));
    assert!(s.switch == (self.switch > 0 && k > 0 && k % self.switch == 0));
    // the picture shown is the n-th picture
    let want = luma(n);
    let rec = p.rec.as_ref().unwrap();
    let got = rec.planes[0].p(3, 5);
    assert!(got.abs_diff(want) <= 8);
    assert!(p.source.as_ref().unwrap().planes[0].p(7, 7) == want);
    // film grain is what the table has for the frame's time
    match self.grain {
      None => assert!(s.grain.is_none()),
      Some((e1, e2)) => {
        let t = n * 10_000_000 * TB.0 / TB.1;
        let want = if t < e1 { 1 } else if t < e2 { 2 } else { 0 };
        match &s.grain {
          None => assert!(want == 0),
          Some(g) => {
            assert!(g.y.len() == want && g.seed != 0);
            for (i, y) in g.y.iter().enumerate() {
              assert!(y.0 == 10 + 50 * i as u32 && y.1 == 30 + 3 * i as u32 + want as u32);
            }
          }
        }
      }
    }
    // user data comes back with its frame
    assert!(*p.opaque.unwrap().downcast::<u64>().unwrap() == n);
    assert!(s.t35.len() == 1);
    // country code, payload byte, trailing bits
    assert!(s.t35[0][0] == 0xb5 && s.t35[0][1] == n as u8 && s.t35[0][2] == self.t35[n as usize]);
    self.next += 1;
  }
}
fn luma(i: u64) -> u8 {
  (20 + (i * 67) % 200) as u8
}

const TB: (u64, u64) = (1001, 24000);

fn segment(n: usize, start_time: u64, end_time: u64) -> GrainTableSegment {
  let mut scaling_points_y = ArrayVec::new();
  for i in 0..n {
    scaling_points_y.push([10 + 50 * i as u8, (30 + 3 * i + n) as u8]);
  }
  GrainTableSegment {
    start_time,
    end_time,
    scaling_points_y,
    scaling_points_cb: ArrayVec::new(),
    scaling_points_cr: ArrayVec::new(),
    scaling_shift: 8,
    ar_coeff_lag: 0,
    ar_coeffs_y: ArrayVec::new(),
    ar_coeffs_cb: ArrayVec::new(),
    ar_coeffs_cr: ArrayVec::new(),
    ar_coeff_shift: 6,
    cb_mult: 0,
    cb_luma_mult: 0,
    cb_offset: 0,
    cr_mult: 0,
    cr_luma_mult: 0,
    cr_offset: 0,
    overlap_flag: false,
    chroma_scaling_from_luma: false,
    grain_scale_shift: 0,
    random_seed: 7391,
  }
}
/// a table of two segments with any boundaries
fn grain_table(c: &mut EncoderConfig) {
  let (e1, e2) = (nd::u64(), nd::u64());
  nd::assume(e1 <= e2);
  c.time_base = Rational::new(TB.0, TB.1);
  c.film_grain_params = Some(vec![segment(1, 0, e1), segment(2, e1, e2)]);
}

/// When packets are taken out
#[derive(Clone, Copy, PartialEq)]
enum Drain {
  Every,
  Any,
  End,
}

/// Encode N frames; which keyframes are forced is arbitrary (bits `lo..`), the
/// first ones fixed by `fix`.
fn run(c: EncoderConfig, n: u64, fixed: u64, fix: u64) {
  run2(c, n, fixed, fix, Drain::Every)
}
fn run2(c: EncoderConfig, n: u64, fixed: u64, fix: u64, drain: Drain) {
  let grain = c.film_grain_params.as_ref().map(|v| (v[0].end_time, v[1].end_time));
  let scene = if c.speed_settings.scene_detection_mode == SceneDetectionSpeed::None { None } else { Some(c.min_key_frame_interval) };
  let (max_key, switch) = (c.max_key_frame_interval, c.switch_frame_interval);
  let mut ctx: Context<u8> = Config::new().with_encoder_config(c).new_context().unwrap();
  let mut r = Run { dec: Dec::new(), next: 0, gop_start: 0, key: vec![], t35: vec![], max_key, switch, grain, scene };
  for i in 0..n {
    let mut f = ctx.new_frame();
    for y in 0..16 {
      for x in 0..16 {
        let o = f.planes[0].cfg.stride * (y + f.planes[0].cfg.yorigin) + x + f.planes[0].cfg.xorigin;
        f.planes[0].data[o] = luma(i);
      }
    }
    let key = i > 0 && if i <= fixed { i < 64 && fix >> (i - 1) & 1 != 0 } else { nd::boolean() };
    let t = nd::u8();
    r.key.push(key);
    r.t35.push(t);
    let p = FrameParameters {
      frame_type_override: if key { FrameTypeOverride::Key } else { FrameTypeOverride::No },
      opaque: Some(Opaque::new(i)),
      t35_metadata: Box::new([T35 { country_code: 0xb5, country_code_extension_byte: 0, data: Box::new([i as u8, t]) }]),
    };
    ctx.send_frame((f, p)).unwrap();
    if drain == Drain::Every || drain == Drain::Any && nd::boolean() {
      r.drain(&mut ctx);
    }
  }
  ctx.flush();
  r.drain(&mut ctx);
  // every frame sent was shown, every coded frame was shown
  assert!(r.next == n && r.dec.coded == n);
}

fn with(low_latency: bool, f: impl Fn(&mut EncoderConfig)) -> EncoderConfig {
  let mut c = cfg(low_latency);
  f(&mut c);
  c
}
/// the first `n - free` frames have no forced keyframe, the last ones any
fn tail(c: EncoderConfig, n: u64, free: u64) {
  run(c, n, n - 1 - free, 0)
}

harnesses! {
  gop_r3 { run(cfg(false), 3, 0, 0) }
  gop_r5 { run(cfg(false), 5, 0, 0) }
  gop_r7a { run(cfg(false), 7, 2, 0) }
  gop_r7b { run(cfg(false), 7, 2, 1) }
  gop_r7c { run(cfg(false), 7, 2, 2) }
  gop_r7d { run(cfg(false), 7, 2, 3) }
  gop_r8 { tail(cfg(false), 8, 4) }
  gop_r9 { tail(cfg(false), 9, 4) }
  gop_r22 { tail(cfg(false), 22, 2) }
  gop_r71 { tail(cfg(false), 71, 1) }
  gop_r135 { tail(cfg(false), 135, 2) }
  gop_l4 { run(cfg(true), 4, 0, 0) }
  gop_l9 { tail(cfg(true), 9, 3) }
  gop_l71 { tail(cfg(true), 71, 2) }
  gop_l135 { tail(cfg(true), 135, 3) }
  gop_multi { tail(with(true, |c| c.speed_settings.multiref = true), 8, 3) }
  gop_error_res { tail(with(false, |c| c.error_resilient = true), 7, 3) }
  gop_error_res_l { tail(with(true, |c| c.error_resilient = true), 7, 3) }
  gop_switch2 { tail(with(true, |c| c.switch_frame_interval = 2), 7, 3) }
  gop_switch3 { tail(with(true, |c| { c.switch_frame_interval = 3; c.speed_settings.multiref = true }), 8, 3) }
  gop_look3 { tail(with(false, |c| c.speed_settings.rdo_lookahead_frames = 3), 8, 3) }
  gop_look40 { tail(with(false, |c| c.speed_settings.rdo_lookahead_frames = 40), 8, 3) }
  gop_psy { tail(with(false, |c| { c.tune = Tune::Psychovisual; c.speed_settings.rdo_lookahead_frames = 3 }), 7, 3) }
  gop_int3 { tail(with(false, |c| { c.max_key_frame_interval = 3; c.min_key_frame_interval = 1 }), 7, 3) }
  gop_int6 { tail(with(false, |c| { c.max_key_frame_interval = 6; c.min_key_frame_interval = 1 }), 10, 3) }
  gop_int5_l { tail(with(true, |c| { c.max_key_frame_interval = 5; c.min_key_frame_interval = 1 }), 8, 3) }
  gop_rate { tail(with(false, |c| { c.bitrate = 100_000; c.quantizer = 255 }), 7, 2) }
  gop_sched5 { run2(cfg(false), 5, 4, 0, Drain::Any) }
  gop_sched5k { run2(cfg(false), 5, 4, 4, Drain::Any) }
  gop_end9 { run2(cfg(false), 9, 7, 0, Drain::End) }
  gop_end6_l { run2(cfg(true), 6, 3, 0, Drain::End) }
  gop_grain_l { tail(with(true, grain_table), 5, 1) }
  gop_grain_r { tail(with(false, grain_table), 7, 1) }
  gop_sar { tail(with(false, |c| c.sample_aspect_ratio = Rational::new(4, 3)), 7, 3) }
}
