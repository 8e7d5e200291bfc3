"""The properties of xiph/rav1e that this framework decides, and how.

One entry per property: what it says (properties.jsonl is generated from it by
gen.py), and which symbolic harnesses decide it (check.py runs them).
"""


def H(name, time=30, cost=None, tier="quick", opts=(), bounds="", tt=None):
    return dict(name=name, time=time, cost=cost if cost is not None else time, tier=tier,
                opts=list(opts), bounds=bounds, thorough_time=tt or max(4 * time, 120))


def HS(names, **k):
    return [H(n, **k) for n in names.split()]


PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, feature=None, harnesses=(), bounds="", outside="",
      assumptions=(), na=None, observe=()):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
        mech=mech, feature=feature, harnesses=list(harnesses), bounds=bounds, outside=outside,
        assumptions=list(assumptions), na=na, observe=list(observe)))


P("C01", "Range-coded symbols decode back exactly, whatever the sequence",
  "Any sequence of adaptive symbols, equiprobable bits and literals written with the entropy coder yields bytes from which an AV1 "
  "decoder recovers exactly that sequence, with each symbol decoded under its own probabilities and the stream padded as the format requires. "
  "Recording a sequence and replaying it later, or rolling back to a checkpoint and continuing, gives the bytes that direct coding would have given.",
  ["inputs", "histories"], "every sequence of symbols, cumulative distributions and coder states within the stated lengths",
  "the unit tests code a handful of fixed sequences; carry propagation and rare interval states appear only for particular symbol/probability/state combinations",
  ["src/ec.rs"],
  [("range update, renormalisation and carry propagation", "src/ec.rs WriterEncoder/WriterBase"),
   ("recorder replay and checkpoints", "src/ec.rs WriterRecorder, StorageBackend")],
  "ec",
  [H("ec_rt_bool2", 75, 20, bounds="2 booleans, any 15-bit probability; full encode, flush, spec decoder on the bytes"),
   H("ec_iv_bool2", 90, 36, bounds="2 booleans, any 15-bit probability: the bytes lie in the exact code interval"),
   H("ec_iv_mix3", 90, 37, bounds="3 symbols over mixed 2- and 3-ary alphabets with probabilities from extreme to even"),
   H("ec_iv_mix4", 400, 400, tier="thorough", tt=800, bounds="4 symbols over mixed alphabets"),
   H("ec_iv_lits24", 90, 16, bounds="24 equiprobable bits"),
   H("ec_iv_lits16", 60, 7, bounds="16 equiprobable bits"),
   H("ec_iv_lits8", 60, 5, bounds="8 equiprobable bits"),
   H("ec_iv_sym1x16", 60, 5, bounds="one 16-ary symbol, any valid CDF")]
  + [H(f"ec_carry{n}", 60, 1, bounds=f"a pending carry across {n} bits of prefix, then any 6 or 8 bits") for n in (16, 24, 32, 48, 72)]
  + [
   H("ec_rec2", 30, 1, bounds="2 recorded tokens replayed into a coder"),
   H("ec_rec3", 60, 20, bounds="3 recorded tokens replayed into a coder"),
   H("ec_ckpt_enc", 30, 1, bounds="checkpoint/rollback of the encoder after any 2 tokens"),
   H("ec_ckpt_rec", 30, 1, bounds="checkpoint/rollback of the recorder"),
   H("ec_ckpt_cnt", 30, 1, bounds="checkpoint/rollback of the counter")],
  bounds="sequences of up to 3 symbols of any distribution, 24 equiprobable bits, 72-bit concrete prefixes holding a pending carry followed by 8 arbitrary bits (4 symbols in thorough)",
  outside="longer sequences with arbitrary distributions",
  observe=["bytes produced by WriterEncoder::done, parsed by a decoder transcribed from the AV1 specification section 8.2"])

P("C02", "Adaptive probabilities evolve exactly as the decoder's do",
  "After coding any symbol with any valid distribution the encoder's distribution equals the one the AV1 specification's adaptation process gives, "
  "stays monotone and keeps every symbol codable. A frame starts from the default distributions of its base quantizer index or from those its reference saved, with every adaptation counter cleared.",
  ["inputs"], "every valid distribution, counter and symbol for every alphabet size",
  "the space of 15-bit distributions cannot be sampled; an off-by-one in rate or rounding desynchronises the decoder only later in the stream",
  ["src/ec.rs", "src/context/mod.rs"],
  [("adaptation rate and update", "src/ec.rs update_cdf / rust::update_cdf"),
   ("symbol_with_update", "src/ec.rs WriterBase"), ("saved and default distributions", "src/context/cdf_context.rs CDFContext::new, reset_counts")],
  "ec,ctx",
  [H(f"ec_adapt{n}", 60, 17, bounds=f"all {n}-ary distributions, counters 0..=32, symbols") for n in
   (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)] +
  HS("cx_reset cx_start0 cx_start1 cx_start2 cx_start3 cx_differ", time=60, cost=2),
  bounds="alphabets 2..=16, complete over all distributions; every distribution of a context at once, all free; every base quantizer index", outside="the SSE2 variant of update_cdf (x86 asm feature builds)",
  observe=["CDF arrays after symbol_with_update"])

P("C03", "Literal and variable-length integer codes are decodable and costed right",
  "Every integer a tile or header writes with a literal, quasi-uniform, Golomb or sub-exponential code (with or without reference) is read back "
  "as the same value by the AV1 specification's parsing process, and the bit cost reported to rate control equals the bits written.",
  ["inputs"], "every value, range and reference accepted by each code",
  "tests write a few values; boundary values of each sub-range are where off-by-one errors sit",
  ["src/ec.rs", "src/header.rs"],
  [("bit-level codes", "src/ec.rs BCodeWriter, Writer::golomb/quniform/literal")],
  "ec",
  [H("ec_lit", 30, 2), H("ec_quni", 30, 3), H("ec_golomb", 60, 18)]
  + [H(f"ec_subexp{i}", 30, 1.4) for i in range(8)] + [H(f"ec_ssubexp{i}", 30, 1.4) for i in range(8)],
  bounds="literals to 31 bits, quniform n <= 1<<16, Golomb values < 2^20, sub-exponential n/k/reference within the ranges the header uses",
  observe=["bits written, parsed by spec::tok"])

P("C04", "Sequence headers and metadata parse back to the configuration",
  "For every accepted combination of sequence-level settings, the sequence header, temporal-unit framing and metadata units the encoder emits parse under the "
  "AV1 specification to exactly those settings, with trailing bits and payload sizes well formed.",
  ["configurations", "inputs"], "every combination of sequence-level fields, colour descriptions, sizes up to 16 bits, HDR metadata and T.35 payload bytes",
  "tests only check that encoding succeeds for a few settings; fields for unusual combinations (monochrome, sRGB, still pictures, timing info) are not parsed back",
  ["src/header.rs", "src/encoder.rs", "src/api/context.rs"],
  [("sequence header writer", "src/header.rs UncompressedHeader/ULEB128Writer"), ("sequence construction", "src/encoder.rs Sequence::new")],
  "hdr",
  [H("hd_seq_size", 90, 33, bounds="any width and height up to 65535, timing info")] +
  HS("hd_container hd_seq_color hd_seq_desc hd_seq_tools hd_seq_still hd_still hd_meta_cll hd_meta_mdcv hd_t35_0 hd_t35_5 hd_t35_130 hd_uleb hd_le", time=30, cost=1),
  bounds="T.35 payloads of 0, 5 and 130 bytes; uleb128 values below 2^32", outside="operating points beyond the single one the encoder emits",
  observe=["header bytes, parsed by a parser transcribed from the specification section 5"])

P("C05", "Frame headers parse back to the encoder's frame state",
  "For every frame state the encoder can reach, the frame header it writes parses under the AV1 specification to the same frame type, references, quantizer, "
  "segmentation, loop filter, CDEF, restoration, tile layout and film grain parameters the encoder used for coding the frame, with no bits left over.",
  ["inputs", "configurations", "histories"], "every value of each group of header fields, together with the flags that condition their presence",
  "conditional syntax: a field wrongly present or absent for one combination shifts every later bit; tests decode only streams that their few settings produce",
  ["src/header.rs", "src/encoder.rs", "src/tiling/tiler.rs"],
  [("frame header writer", "src/header.rs write_frame_header_obu and helpers")],
  "hdr",
  [H("hd_inter_size", 90, 23, bounds="any frame size, with size override")] +
  HS("hd_key hd_show_existing hd_inter_flags hd_inter_tools hd_inter_skip hd_quant hd_seg_none hd_seg_prim hd_seg_altq hd_seg_altq_prim "
     "hd_lf hd_cdef hd_lrf hd_tiles_1 hd_tiles_2 hd_tiles_3 hd_tiles_4 hd_tiles_5 hd_tiles_6 hd_tiles_7 hd_tiles_8 hd_tiles422_1 hd_tiles422_2 hd_tiles422_3 hd_tiles422_4 hd_grain_420 "
     "hd_grain_inter hd_grain_444 hd_grain_full hd_grain_mono hd_grain_none hd_grain_mono_uv hd_grain_noluma_uv", time=40, cost=1),
  bounds="one group of fields symbolic at a time over a concrete base frame; film grain with up to 14+10+10 points and lag 3",
  outside="switch frames, scaled references, frame ids, error-resilient combinations the encoder never builds",
  assumptions=["segmentation features for reference, skip and global motion are never enabled by the encoder"],
  observe=["header bytes, parsed by a parser transcribed from the specification section 5.9"])

P("C07", "Frames in, packets out: order, keyframes, references and attached data",
  "For every frame sent to the encoder exactly one packet is returned, in display order, whose temporal unit shows exactly that frame: keyframes are exactly where they were "
  "forced or where the maximum interval is reached (and switch frames at their interval), every coded frame refers only to frames of its own group of pictures that a decoder still holds and is "
  "eventually shown once, and the frame's opaque data, T.35 metadata, film grain for its time, source and reconstruction come back with it. This holds for any "
  "pattern of forced keyframes, any schedule of sending and receiving, with and without reordering, lookahead, multiple references, error resilience or rate control.",
  ["histories", "schedules", "configurations"], "every pattern of forced keyframes, every interleaving of send_frame and receive_packet, every metadata byte and every film grain segment boundary within the stated lengths",
  "the outcome depends on where a forced keyframe falls in the mini-GOP and lookahead; tests try a few fixed patterns and never replay the reference buffers",
  ["src/api/internal.rs", "src/api/context.rs", "src/encoder.rs"],
  [("frame scheduling, GOP and lookahead bookkeeping", "src/api/internal.rs ContextInner"), ("reference slots", "src/encoder.rs FrameInvariants::new_inter_frame, src/api/internal.rs InterConfig")],
  "gop",
  [H("gop_r5", 120, 15, bounds="5 frames with reordering, any forced keyframes"),
   H("gop_sched5", 200, 44, bounds="5 frames, reordering, packets taken out after any of the sends"),
   H("gop_sched5k", 200, 39, tier="thorough", bounds="the same with a forced keyframe"),
   H("gop_r7a", 120, 24, tier="thorough", bounds="7 frames, no key in the first 2, then any"),
   H("gop_r7b", 120, 24, bounds="7 frames, key at 1, then any"),
   H("gop_r7c", 120, 24, tier="thorough", bounds="7 frames, key at 2, then any"),
   H("gop_r7d", 120, 24, tier="thorough", bounds="7 frames, keys at 1 and 2, then any"),
   H("gop_r8", 150, 26, tier="thorough"), H("gop_r9", 150, 30, bounds="9 frames, any keys among the last 4"),
   H("gop_r22", 90, 13, bounds="22 frames, any keys among the last 2"),
   H("gop_r71", 150, 24, bounds="71 frames (order hints wrap), any key at the last"),
   H("gop_r135", 300, 55, tier="thorough", bounds="135 frames, any keys among the last 2"),
   H("gop_l135", 200, 27, tier="thorough", bounds="135 frames without reordering"),
   H("gop_l71", 100, 13, bounds="71 frames without reordering, any keys among the last 2"),
   H("gop_grain_l", 150, 23, bounds="two film grain segments with any boundary times, 5 frames"),
   H("gop_grain_r", 400, 102, tier="thorough", bounds="two film grain segments with any boundary times, 7 frames with reordering")]
  + HS("gop_l9 gop_multi gop_error_res gop_error_res_l gop_switch2 gop_switch3 gop_look3 gop_look40 gop_psy gop_int3 gop_int6 gop_int5_l gop_rate gop_sar gop_end9 gop_end6_l", time=90, cost=10,
       bounds="6 to 10 frames of one configuration, any forced keyframes among the last 3"),
  bounds="16x16 monochrome frames of constant colour; up to 135 frames of which up to 5 may be forced keyframes in any pattern; one configuration per harness",
  outside="scene-cut detection (its analysis is another crate's), frame dropping, two-pass files, larger pictures, more than 5 free decisions at once",
  assumptions=["a single worker thread"],
  observe=["packets parsed by the specification's OBU and header syntax and run through its reference-frame update process"])

P("C06", "Configurations are accepted exactly when valid, and then yield a context",
  "Config::validate accepts exactly the documented settings: frame and render sizes, key frame, switch frame, lookahead, reservoir and tile settings, time bases, colour descriptions, and "
  "for a requested level exactly the picture sizes and display rates the AV1 specification's level table allows. Every accepted configuration yields a context without panicking, and frame timestamps "
  "computed from any accepted time base are exact.",
  ["configurations", "inputs"], "every value of each group of settings, for sizes the whole 48-bit range",
  "validity is decided by boundary comparisons and arithmetic on values no test uses (levels, extreme time bases, aspect ratios)",
  ["src/api/config/mod.rs", "src/api/config/encoder.rs", "src/levels.rs", "src/encoder.rs"],
  [("validation", "src/api/config/mod.rs Config::validate"), ("level limits", "src/levels.rs"), ("render size, frame rate", "src/api/config/encoder.rs"),
   ("rate control set-up", "src/rate.rs RCState::new"), ("timestamps", "src/encoder.rs FrameInvariants::frame_timestamp")],
  "cfg",
  HS("cf_sizes cf_level_a cf_level_b cf_level_c cf_level_d cf_level_e cf_level_f cf_level_g cf_fields cf_time_base cf_tiles cf_color cf_aspect_n cf_aspect_n2 cf_aspect_d cf_aspect_d2 "
     "cf_bits cf_bits_delay cf_bits_slow cf_bits_fast cf_ts_a cf_ts_b cf_ts_c cf_ts_d", time=40, cost=1) +
  HS("cf_ctx_25 cf_ctx_90k cf_ctx_422 cf_ctx_slow cf_ctx_fast cf_ctx_rate cf_tiles_a cf_tiles_b cf_tiles_c", time=90, cost=8, bounds="context construction for any of 512 widths, or any requested tile split"),
  bounds="level checks for all sizes to 65535 and seven frame rates; aspect ratio terms to 1500; contexts for widths 16..=527 at fixed heights, any positive bitrate, any reservoir delay",
  outside="quantizer, bit depth and speed settings outside their documented ranges; two-pass set-up",
  observe=["Config::validate, Config::new_context, EncoderConfig::render_size, FrameInvariants::frame_timestamp"])

P("C08", "Tiles partition the frame within the format's limits",
  "For every frame size, requested tile split, frame rate and chroma format the tile layout covers every superblock exactly once with no empty tile, respects the AV1 limits on tile width, area and count, "
  "and is one the tile-info syntax can express; a requested number of tiles is reached whenever the frame can be split that far. Every pixel of every plane and every block belongs to exactly one tile's writable region.",
  ["inputs", "configurations"], "every width and height up to 65535 for each requested split and frame rate; every pixel and block position of the sampled frames",
  "rounding at sizes and splits no test uses decides whether a tile is empty, too large or inexpressible",
  ["src/tiling/tiler.rs", "src/tiling/tile_state.rs", "src/tiling/tile_blocks.rs", "src/encoder.rs"],
  [("tile layout", "src/tiling/tiler.rs TilingInfo::from_target_tiles"), ("tiles setting", "src/encoder.rs Sequence::new"), ("tile iterator", "src/tiling/tiler.rs TileContextIterMut")],
  "tile",
  [H("ti_422_00", 150, 30), H("ti_422_21", 150, 31), H("ti_422_66", 120, 18), H("ti_422_10", 60, 8), H("ti_422_max", 600, 158, tier="thorough", tt=800),
   H("ti_00", 100, 20), H("ti_11", 100, 19), H("ti_32", 90, 12), H("ti_66", 90, 9), H("ti_split_c", 120, 37, tier="thorough"), H("ti_split_b", 60, 6)] +
  HS("ti_30fps_270 ti_30fps_1080 ti_60fps_4320 ti_240fps_2160 ti_90k_17 ti_90k_1080 ti_max_64 ti_max_2160 ti_want_1080 ti_want_64 ti_want_wide ti_want_tall ti_want_422 ti_split_a ti_split_d", time=60, cost=4),
  bounds="all sizes to 65535x65535 for 4 requested splits (4:2:2: to 16384x16384, 65535x8192 and, in thorough, all); rate-dependent splits for all widths at fixed heights; region checks on frames up to 333x200",
  outside="superblocks of 128x128 (never used by the encoder)",
  observe=["TilingInfo fields against the specification's tile_info process; tile region rectangles and block writes"])

P("C10", "Transforms reconstruct what a conforming decoder reconstructs",
  "For every transform size, type, bit depth and coefficient block the inverse transform adds to the prediction exactly the residual the AV1 specification's "
  "two-dimensional inverse transform gives, clamped to the pixel range. The forward transform followed by it returns the residual within a small rounding error, and exactly in the lossless mode.",
  ["inputs"], "every coefficient of every block (all coefficients free at once) for all 19 sizes, all their types, at 8, 10 and 12 bits",
  "the tests transform a few random blocks; a wrong constant, a dropped intermediate clamp or a wrong rounding shows only for particular coefficients, sizes and types",
  ["src/transform/inverse.rs", "src/transform/forward.rs", "src/transform/forward_shared.rs", "src/transform/mod.rs"],
  [("inverse kernels and clamps", "src/transform/inverse.rs"), ("forward kernels and shifts", "src/transform/forward.rs, forward_shared.rs")],
  "tx",
  HS("tx_i4x4 tx_i4x4_10 tx_i4x4_12 tx_i8x8 tx_i8x8_10 tx_i8x8_12 tx_i16x16 tx_i16x16_10 tx_i16x16_12 tx_i32x32 tx_i32x32_10 tx_i32x32_12 tx_i64x64 tx_i64x64_10 tx_i64x64_12 tx_i4x8 tx_i4x8_10 tx_i4x8_12 tx_i8x4 tx_i8x4_10 tx_i8x4_12 tx_i8x16 tx_i8x16_10 tx_i8x16_12 tx_i16x8 tx_i16x8_10 tx_i16x8_12 tx_i16x32 tx_i16x32_10 tx_i16x32_12 tx_i32x16 tx_i32x16_10 tx_i32x16_12 tx_i32x64 tx_i32x64_10 tx_i32x64_12 tx_i64x32 tx_i64x32_10 tx_i64x32_12 tx_i4x16 tx_i4x16_10 tx_i4x16_12 tx_i16x4 tx_i16x4_10 tx_i16x4_12 tx_i8x32 tx_i8x32_10 tx_i8x32_12 tx_i32x8 tx_i32x8_10 tx_i32x8_12 tx_i16x64 tx_i16x64_10 tx_i16x64_12 tx_i64x16 tx_i64x16_10 tx_i64x16_12", time=40, cost=2) +
  HS("tx_wht tx_wht_inv tx_f44 tx_f88 tx_flat tx_h10 tx_h12 tx_f4x4 tx_f4x8 tx_f8x4 tx_f8x8 tx_f4x16 tx_f16x4 tx_f8x32 tx_f32x8 tx_f16x64 tx_f64x16", time=60, cost=6) +
  HS("tx_f16x8 tx_f8x16 tx_f16x32 tx_f32x16 tx_f32x64 tx_f64x32", time=120, cost=20) +
  HS("tx_f16x16 tx_f32x32 tx_f64x64", time=200, cost=50),
  bounds="inverse: coefficients of magnitude below 2^(bit depth + 7) (at most 2^17), all types at 8 bits, six at 10 and two at 12; forward and inverse pair: residuals flat or non-zero in one position, any value, within 1 to 3 (8 and 10 bits) or 12 (12 bits)",
  outside="coefficients of larger magnitude, which the quantizer cannot produce from residuals in range; SIMD kernels (not encodable)",
  observe=["pixels after inverse_transform_add against a transcription of the specification's inverse transform"])

P("C09", "Quantized coefficients reconstruct to within a step, as the decoder will",
  "For every quantizer index, plane delta and bit depth the step sizes are those the format defines and the index chosen for a wanted step is the nearest. "
  "Every coefficient a residual can produce is coded as a level within one step of it and of its sign, the reported end of block is the last coded level, and the reconstructed value is the one a decoder computes from the level.",
  ["inputs"], "every coefficient value in range at every 8-bit quantizer index (thorough) or a spread of them (quick); every wanted step size",
  "tests quantize random values at random indices; a reciprocal off by one, a wrong offset or a lost saturation shows only for particular values at particular indices",
  ["src/quantize/mod.rs", "src/quantize/tables.rs"],
  [("division by reciprocal", "src/quantize/mod.rs divu_gen, divu_pair"), ("levels and end of block", "src/quantize/mod.rs QuantizationContext"), ("reconstruction", "src/quantize/mod.rs rust::dequantize"), ("step tables", "src/quantize/tables.rs")],
  "quant",
  HS("qz_tables qz_sel_dc8 qz_sel_ac8 qz_sel_dc10 qz_sel_ac10 qz_sel_dc12 qz_sel_ac12", time=60, cost=8) + HS("qz_lossless qz_b4 qz_b4_inter qz_b8 qz_b16x8 qz_b32 qz_b64 qz_b16x64", time=80, cost=15) + HS("qz_b4x16", time=120, cost=31) +
  HS(" ".join(f"qz_q8_{z}_{a}" for z in ("4x4", "32x32", "64x64") for a in ("dc", "ac")), time=100, cost=20) +
  HS(" ".join(f"qz_s{b}_{a}{k}" for b in (10, 12) for a in ("dc", "ac") for k in range(8)), time=60, cost=3) +
  HS(" ".join(f"qz_s8_{z}_{a}{k}" for z in ("4x4", "32x32", "64x64") for a in ("dc", "ac") for k in range(4)), time=200, cost=50, tier="thorough"),
  bounds="coefficients up to the largest a full-range residual gives; 8 bits: every index in thorough, 28 per size class in quick; 10 and 12 bits: 8 indices each; whole blocks: 4x4 with every coefficient free, larger ones with up to 5 free",
  outside="larger blocks with every coefficient free",
  observe=["levels, end of block and dequantized values against a transcription of the specification's dequantization functions"])

P("C11", "Inter prediction is the decoder's, sample for sample",
  "For every reference picture content, motion vector, fractional position, interpolation filter, block size, plane and chroma format, single and compound inter prediction yield exactly the samples "
  "the AV1 specification's block inter prediction yields, including where the vector points outside the reference picture.",
  ["inputs"], "every sample value of the reference area at every fractional position; blocks at the frame's corners with vectors up to the format's extremes",
  "tests compare assembly with the portable code on random data, so an error in both, a wrong edge extension, a rounding at one bit depth or a wrong filter for short blocks is never seen",
  ["src/mc.rs", "src/predict.rs", "src/frame/mod.rs"],
  [("sub-sample filters and rounding", "src/mc.rs rust::put_8tap, prep_8tap, mc_avg"), ("vector to position and fraction", "src/predict.rs get_mv_params"), ("edge extension", "src/frame/mod.rs FramePad")],
  "mc",
  HS("mc_p4x4 mc_p4x4_f mc_p2x2 mc_p2x8 mc_p8x2 mc_p8x8 mc_p8x4_10 mc_p4x8_10 mc_p4x8_12 mc_p8x8_12 mc_p16x8 mc_p32x16_10 mc_p64x32 mc_a4x4 mc_a4x4_10 mc_a4x4_12 mc_a8x8 mc_a8x8_10a mc_a8x8_10b mc_a8x8_12a mc_a8x8_12b mc_a16x2_12 mc_a64x32 mc_y mc_y16 mc_u mc_v mc_u422 mc_v444 mc_tile mc_cy mc_cu", time=90, cost=4),
  bounds="blocks 2x2 to 64x32, all filter pairs; every pair of fractions at 4x4 and every fraction on each axis elsewhere, 8, 10 and 12 bits; whole prediction on frames up to 130x72 whose size is not a multiple of 8, 22 vectors per block up to +-16383",
  outside="eight-tap sharp compound prediction of 8x8 blocks above 8 bits (never used by the encoder); overlapped and warped prediction (not implemented by the encoder)",
  observe=["predicted samples against a transcription of the specification's section 7.11.3"])

P("C12", "Intra prediction is the decoder's, sample for sample",
  "For every content of the already coded picture, intra mode, angle, transform size, position and chroma format, the intra prediction (neighbouring samples taken as available exactly when the decoder has them, edge filtering and "
  "upsampling, every directional, smooth, DC and Paeth mode, and chroma from luma) yields exactly the samples the AV1 specification's intra prediction process yields.",
  ["inputs"], "every sample value of the coded picture; every block and transform position of frames and tiles whose size is not a multiple of a superblock",
  "tests fix a few edges and modes; a neighbour wrongly taken as available, an edge filter applied over the wrong length at the frame's border or a rounding at one bit depth is never sampled",
  ["src/predict.rs", "src/partition.rs", "src/recon_intra.rs", "src/tiling/tile_state.rs"],
  [("edge preparation", "src/partition.rs get_intra_edges"), ("availability", "src/recon_intra.rs has_top_right, has_bottom_left"), ("kernels", "src/predict.rs rust::pred_*"), ("chroma from luma", "src/predict.rs luma_ac, pred_cfl_ac"), ("edge filter type", "src/predict.rs IntraEdgeFilterParameters")],
  "intra",
  HS("intra_e420u intra_e422 intra_e444 intra_etileu intra_f4x4 intra_f4x4h intra_f8x4 intra_f4x8 intra_f4x16 intra_f8x16 intra_f16x8 intra_c420 intra_c420s intra_c420l intra_c420r intra_c420q intra_c444 intra_c444s intra_c422 intra_c422h intra_n420 intra_n422 intra_n444 intra_d4x4h intra_d4x8f intra_d8x8m", time=90, cost=3) +
  HS("intra_e420y intra_etile intra_f16x4 intra_f8x32 intra_f64x64 intra_d4x4 intra_d4x4f intra_d4x4s intra_d8x4s intra_d8x4f intra_d4x16f intra_d16x4s intra_d8x8f intra_d8x8s intra_d8x16f intra_d16x16f intra_d8x32s intra_d16x8s", time=150, cost=15) +
  HS("intra_f16x16 intra_f16x32 intra_f32x16 intra_f32x32 intra_d16x16s intra_d16x32f intra_d32x16s intra_d32x32f intra_d32x32s intra_d64x64s", time=250, cost=40),
  bounds="edges: every block of the partition tree and transform size of 152x120, 80x136 and tiled frames, 4:2:0, 4:2:2 and 4:4:4; prediction: transforms 4x4 to 64x64 at the frame's corner, sides, inside and cut by its right and bottom, all 56 angles up to 16x16 and fewer above, both filter types, 8, 10 and 12 bits; chroma from luma for 9 alphas",
  outside="palette, filter-intra and intra block copy (not implemented by the encoder); 128x128 superblocks; SIMD kernels (not encodable)",
  observe=["edge samples and predicted samples against a transcription of the specification's section 7.11.2"])
P("C13", "CDEF filters as the decoder does",
  "For every content of the deblocked picture, skip flags, CDEF index, strengths, damping, chroma format and bit depth, the constrained directional enhancement filter (direction search, strength adjustment, which blocks and which side samples take part, "
  "the filter itself) yields exactly the picture the AV1 specification's CDEF process yields.",
  ["inputs"], "every sample value around a block; every combination of missing sides, directions, strengths and skip flags",
  "tests compare a handful of whole encodes; a tap wrongly weighted at one strength parity, a side wrongly taken as available at a superblock or picture border, or a chroma direction is a mismatch only for rare content",
  ["src/cdef.rs"],
  [("direction", "src/cdef.rs rust::cdef_find_dir"), ("filter", "src/cdef.rs rust::cdef_filter_block, pad_into_tmp16, constrain"), ("picture level", "src/cdef.rs cdef_filter_tile, cdef_filter_superblock, cdef_analyze_superblock, adjust_strength")],
  "cdef",
  HS("cdef_dir8 cdef_dir10 cdef_dir12", time=120, cost=12) +
  HS("cdef_fa8 cdef_fb8 cdef_fa10 cdef_fa12 cdef_u8 cdef_u8p cdef_u8d cdef_u8h cdef_u10 cdef_u10d cdef_u12 cdef_s8u cdef_s10 cdef_p16 cdef_p420 cdef_p422 cdef_p444 cdef_p400 cdef_p10 cdef_p0 cdef_pr cdef_pm", time=90, cost=3) +
  HS("cdef_s8 cdef_s8h cdef_po", time=150, cost=20),
  bounds="direction: any 8x8 block of samples, 8, 10 and 12 bits; filter: any samples, all 8 directions, all 16 combinations of sides, 16 primary and 4 secondary strengths, dampings 2 to 6, 8x8, 4x8 and 4x4 blocks; pictures of 8x8 to 140x66 samples, 4:0:0, 4:2:0, 4:2:2 and 4:4:4, up to 4 CDEF indices, free skip flags, free chroma or free luma around filtered blocks of fixed texture",
  outside="the choice of strengths; 128x128 superblocks; SIMD kernels (not encodable)",
  observe=["direction, variance and filtered samples against a transcription of the specification's section 7.15"])

P("C14", "Deblocking filters as the decoder does",
  "For every picture, block and transform layout, skip flags, filter levels, block-level deltas, chroma format and bit depth the encoder uses, the deblocking filter changes exactly the samples, by exactly the amounts, that the AV1 "
  "specification's loop filter process does, in both passes, at every edge and picture border.",
  ["inputs"], "every sample value across an edge at each of the 64 levels; every mix of block sizes, transform sizes and skips",
  "tests compare a handful of whole encodes; a threshold off by one at one level, a filter length chosen from the wrong side's transform, or an edge missed at a border is a mismatch only for rare content",
  ["src/deblock.rs"],
  [("kernels", "src/deblock.rs deblock_size4/6/8/14, filter_narrow/wide, nhev, mask"), ("levels", "src/deblock.rs deblock_adjusted_level, deblock_level"), ("edges", "src/deblock.rs deblock_left, deblock_up, filter_v_edge, filter_h_edge, deblock_plane")],
  "dbk",
  HS("dbk_v4 dbk_v8 dbk_v16 dbk_v6 dbk_h4 dbk_h8 dbk_h16 dbk_h6 dbk_v4t dbk_v8t dbk_v16t dbk_h6t dbk_v4w dbk_h8w dbk_h16w dbk_v6w", time=120, cost=6, opts=["--deep"]) +
  HS("dbk_a8 dbk_m0 dbk_m1 dbk_m2 dbk_m3 dbk_b0 dbk_b1 dbk_b2 dbk_b3 dbk_b4 dbk_c0 dbk_c1 dbk_c2 dbk_c3 dbk_c4 dbk_c5 dbk_c6 dbk_d0 dbk_d1 dbk_d2 dbk_d3 dbk_none", time=90, cost=2, opts=["--deep"]),
  bounds="edges: any samples on both sides, each of 64 levels, filter lengths 4, 6, 8 and 14, both directions, 8, 10 and 12 bits; both passes over a fully free 16x16 picture; pictures of 36x36 to 132x132 samples of mixed blocks (4x4 to 64x64, 1:4 shapes, split transforms, skips), 4:0:0 to 4:4:4, with block deltas (single and multiple): free rows or columns in one pass on luma, fixed texture in both passes and all planes",
  outside="reference and mode deltas (never enabled by the encoder; the code's tables cannot index intra blocks); the choice of levels; lossless and segment features; 128x128 superblocks",
  observe=["filtered samples against a transcription of the specification's section 7.14"])

P("C15", "Loop restoration as the decoder does",
  "For every picture, set of self-guided filter parameters, weights, restoration unit layout, chroma format and bit depth the encoder uses, with and without CDEF, the restored reconstruction is the one the AV1 specification's loop "
  "restoration process gives a decoder: every sample of every unit, across stripe, unit and picture borders, and units without a filter unchanged.",
  ["inputs"], "every sample value in a neighbourhood, every weight; each of the sixteen parameter sets",
  "tests compare a handful of whole encodes; a rounding off in one of the sixteen parameter sets, a row taken from the wrong side of a stripe border, or a filter not applied in one configuration is a mismatch only for rare content",
  ["src/lrf.rs"],
  [("kernels", "src/lrf.rs setup_integral_image, sgrproj_box_ab_r1/r2, sgrproj_box_f_r0/r1/r2, sgrproj_stripe_filter"), ("units and stripes", "src/lrf.rs RestorationPlane, restoration_unit_by_stripe, lrf_filter_frame")],
  "lrf",
  HS("lrf_two lrf_r1 lrf_r2 lrf_sets0 lrf_sets4 lrf_sets8 lrf_sets12 lrf_full1 lrf_full2 lrf_xq1 lrf_xq2 lrf_b10 lrf_b12 lrf_nocdef lrf_stripe lrf_stripe2 lrf_units lrf_units2 lrf_right lrf_c420 lrf_c422 lrf_c444", time=90, cost=3, opts=["--deep"]),
  bounds="pictures of 9x10 to 210x210 samples of fixed texture with a window of 1x1 to 8x8 free samples (before and after CDEF) wherever borders matter; all sixteen parameter sets; samples within the window from 0 to 90 (120 or 150 for the sets of one radius 2, 255 in windows of 2x2; more bits accordingly), at 8, 10 and 12 bits; every weight the syntax allows around one free sample; 4:0:0 to 4:4:4",
  outside="windows of samples that differ by more than those bounds; the Wiener filter (the encoder never chooses it); the choice of parameters; the syntax of the coefficients; SIMD kernels (not encodable)",
  observe=["restored samples against a transcription of the specification's section 7.17"])

P("C16", "Trial coding leaves no trace",
  "Whatever distributions and block contexts a tile has reached, coding any sequence of symbols and blocks on trial and rolling back to the checkpoint taken before restores every distribution, every context above and to the left, and the "
  "CDEF state exactly, so that what is finally coded does not depend on the alternatives that were tried.",
  ["histories"], "every content of every distribution and context; every order in which distributions are touched, up to stated patterns",
  "a rollback that misses one distribution, or restores it from a neighbour's older copy, desynchronises a decoder only when a trial touched just those two in that order",
  ["src/context/cdf_context.rs", "src/context/block_unit.rs", "src/context/partition_unit.rs"],
  [("log of distributions", "src/context/cdf_context.rs CDFContextLog, CDFContextLogPartition, layout of CDFContext"), ("block contexts", "src/context/block_unit.rs BlockContext::checkpoint, rollback, set_coeff_context, update_tx_size_context; reset_skip_context, update_partition_context")],
  "ctx",
  HS("cx_log_up cx_log_down cx_log_both cx_log_again cx_blk_420 cx_blk_422 cx_blk_444 cx_blk_400", time=60, cost=2),
  bounds="all distributions of a context free, each written through the log once to four times in ascending, descending and two mixed orders, after up to 700 writes that are kept; blocks of nine shapes from 64x64 to 4x4 at positions all over a superblock and a tile of the greatest width, all contexts around free, each chroma format",
  outside="other orders of writes; the rollback of the writers themselves (C01)",
  observe=["every distribution and context after a rollback against a copy made before"])

P("C17", "Coefficients decode to what was coded",
  "For every transform block the encoder codes - any size, transform type, plane, number and values of coefficients, and any contexts left by neighbouring blocks - the symbols and bits written are a sequence from which an AV1 decoder "
  "reads back exactly those coefficients and that transform type, each symbol coded with the distribution the specification selects for it; and the contexts left for later blocks are the ones the decoder derives.",
  ["inputs"], "every value within a magnitude class, every sign, every neighbouring context; all transform sizes and types",
  "tests compare a handful of whole encodes; a distribution chosen wrongly for one block shape, one position or one magnitude desynchronises a decoder only when a stream contains such a block",
  ["src/context/block_unit.rs", "src/context/transform_unit.rs", "src/scan_order.rs"],
  [("tokens", "src/context/block_unit.rs write_coeffs_lv_map, encode_eob, encode_coeffs, encode_coeff_signs, get_txb_ctx, set_coeff_context"), ("contexts", "src/context/transform_unit.rs get_nz_map_contexts, get_br_ctx, get_eob_pos_token, txb_init_levels, write_tx_type"), ("scan orders", "src/scan_order.rs")],
  "tok",
  HS("tk_4x4_2 tk_4x4_v tk_4x4_h tk_4x4_i tk_4x8_2 tk_4x8_v tk_4x8_h tk_4x8_i tk_4x16_2 tk_4x16_v tk_4x16_h tk_4x16_i tk_8x4_2 tk_8x4_v tk_8x4_h tk_8x4_i tk_8x8_2 tk_8x8_v tk_8x8_h tk_8x8_i tk_8x16_2 tk_8x16_v tk_8x16_h tk_8x16_i tk_8x32_2 tk_8x32_i tk_16x4_2 tk_16x4_v tk_16x4_h tk_16x4_i tk_16x8_2 tk_16x8_v tk_16x8_h tk_16x8_i tk_16x16_2 tk_16x16_v tk_16x16_h tk_16x16_i tk_16x32_2 tk_16x32_i tk_16x64_2 tk_32x8_2 tk_32x8_i tk_32x16_2 tk_32x16_i tk_32x32_2 tk_32x32_i tk_32x64_2 tk_64x16_2 tk_64x32_2 tk_64x64_2", time=90, cost=6) +
  HS("tk_any_2d tk_any_v tk_any_h", time=180, cost=25) +
  HS("tk_edge_y tk_edge_u tk_edge_v tk_ty_t4 tk_ty_t4i tk_ty_t8 tk_ty_t8i tk_ty_t16 tk_ty_t16i tk_ty_r16x8 tk_ty_r4x16 tk_ty_t32 tk_ty_t32i tk_ty_r8x32 tk_ty_t64", time=60, cost=2),
  bounds="all 19 transform sizes with each class of transforms they allow; 0, 1, 2, 3, 7 coefficients and numbers at and over every threshold up to the whole block, up to about ten of them nonzero, their magnitudes free within the classes 1-2, 3-5, 6-8, 9-11, 12-14 and 15 up to 2^15 or 2^20, signs free, classes in fixed patterns; any two coefficients at all in three blocks; contexts of all neighbours free; every transform type with every intra mode, reduced sets or not; chroma formats and blocks across the edge of a frame",
  outside="other patterns of classes; dense large blocks; the bits of a Golomb code and the adaptation of distributions (C01, C02); filter-intra directions; lossless blocks",
  observe=["recorded tokens read by a transcription of the specification's coeffs() and its context derivations"])
