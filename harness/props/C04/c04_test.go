package vpc04

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

func uvlc(w *kit.W, v int) {
	l := 0
	for 1<<uint(l+1) <= v+1 {
		l++
	}
	w.Put(l, 0)
	w.Put(l+1, v+1)
}

// model is what the encoder meant; it is built while the bits are written.
type model struct {
	profile                      int
	still, reduced               bool
	timing                       bool
	units, scale, ticks          int
	equalPic                     bool
	dmi                          bool
	bufLen, decTick, remLen, fpt int
	idd                          bool
	ops                          int
	idc, level, tier             []int
	dmp, iddp                    []bool
	iddm1, dbd, ebd              []int
	ldm                          []bool
	wb, hb, mw, mh               int
	ids                          bool
	dlen, alen                   int
	sb128, filt, edge            bool
	ii, masked, warp, dual, oh   bool
	jnt, rmv                     bool
	chSct, chImv                 bool
	fSct, fImv, ohb              int
	sr, cdef, rest               bool
	hbd, twelve, mono, cdp       bool
	cp, tc, mc                   int
	crange, sx, sy               bool
	csp                          int
	sepuv                        bool
	planes, depth                int
	film                         bool
}

func gen(g *kit.G, w *kit.W) model {
	m := model{}
	m.profile = g.Int(0, 2)
	m.still = g.Bool()
	m.reduced = m.still && g.Chance(1, 2)
	w.Put(3, m.profile)
	w.Bool(m.still)
	w.Bool(m.reduced)
	bit := func() bool { v := g.Bool(); w.Bool(v); return v }
	val := func(n int) int { v := int(g.Bits(n)); w.Put(n, v); return v }
	m.ops = 1
	if m.reduced {
		m.idc, m.level, m.tier = []int{0}, []int{val(5)}, []int{0}
		m.dmp, m.iddp, m.iddm1 = []bool{false}, []bool{false}, []int{0}
		m.dbd, m.ebd, m.ldm = []int{0}, []int{0}, []bool{false}
	} else {
		m.timing = bit()
		if m.timing {
			m.units, m.scale = val(32), val(32)
			m.equalPic = bit()
			if m.equalPic {
				m.ticks = int(g.Bits(g.Int(1, 32)))
				if m.ticks > 1<<32-2 {
					m.ticks = 1<<32 - 2
				}
				uvlc(w, m.ticks)
			}
			m.dmi = bit()
			if m.dmi {
				m.bufLen, m.decTick, m.remLen, m.fpt = val(5), val(32), val(5), val(5)
			}
		}
		m.idd = bit()
		m.ops = g.Sized(1, 32)
		w.Put(5, m.ops-1)
		for i := 0; i < m.ops; i++ {
			m.idc = append(m.idc, val(12))
			lv := val(5)
			m.level = append(m.level, lv)
			t := 0
			if lv > 7 {
				t = val(1)
			}
			m.tier = append(m.tier, t)
			p, d, e, l := false, 0, 0, false
			if m.dmi {
				p = bit()
				if p {
					d, e, l = val(m.bufLen+1), val(m.bufLen+1), bit()
				}
			}
			m.dmp, m.dbd, m.ebd, m.ldm = append(m.dmp, p), append(m.dbd, d), append(m.ebd, e), append(m.ldm, l)
			ip, iv := false, 0
			if m.idd {
				ip = bit()
				if ip {
					iv = val(4)
				}
			}
			m.iddp, m.iddm1 = append(m.iddp, ip), append(m.iddm1, iv)
		}
	}
	m.wb, m.hb = val(4), val(4)
	m.mw, m.mh = val(m.wb+1), val(m.hb+1)
	if !m.reduced {
		m.ids = bit()
		if m.ids {
			m.dlen, m.alen = val(4), val(3)
		}
	}
	m.sb128, m.filt, m.edge = bit(), bit(), bit()
	m.fSct, m.fImv = 2, 2
	if !m.reduced {
		m.ii, m.masked, m.warp, m.dual, m.oh = bit(), bit(), bit(), bit(), bit()
		if m.oh {
			m.jnt, m.rmv = bit(), bit()
		}
		m.chSct = bit()
		if !m.chSct {
			m.fSct = val(1)
		}
		if m.fSct > 0 {
			m.chImv = bit()
			if !m.chImv {
				m.fImv = val(1)
			}
		}
		if m.oh {
			m.ohb = val(3) + 1
		}
	}
	m.sr, m.cdef, m.rest = bit(), bit(), bit()
	// color_config
	m.hbd = bit()
	m.depth = 8
	if m.profile == 2 && m.hbd {
		m.twelve = bit()
		m.depth = 10
		if m.twelve {
			m.depth = 12
		}
	} else if m.hbd {
		m.depth = 10
	}
	if m.profile != 1 {
		m.mono = bit()
	}
	m.planes = 3
	if m.mono {
		m.planes = 1
	}
	m.cdp = bit()
	m.cp, m.tc, m.mc = 2, 2, 2
	if m.cdp {
		if g.Chance(1, 3) { // sRGB identity
			m.cp, m.tc, m.mc = 1, 13, 0
			if g.Chance(1, 3) { // near misses
				switch g.Int(0, 2) {
				case 0:
					m.cp = g.Int(0, 255)
				case 1:
					m.tc = g.Int(0, 255)
				case 2:
					m.mc = g.Int(0, 255)
				}
			}
			w.Put(8, m.cp)
			w.Put(8, m.tc)
			w.Put(8, m.mc)
		} else {
			m.cp, m.tc, m.mc = val(8), val(8), val(8)
		}
	}
	switch {
	case m.mono:
		m.crange = bit()
		m.sx, m.sy = true, true
	case m.cp == 1 && m.tc == 13 && m.mc == 0:
		m.crange = true
		m.sepuv = bit()
	default:
		m.crange = bit()
		switch {
		case m.profile == 0:
			m.sx, m.sy = true, true
		case m.profile == 1:
		case m.depth == 12:
			m.sx = bit()
			if m.sx {
				m.sy = bit()
			}
		default:
			m.sx = true
		}
		if m.sx && m.sy {
			m.csp = val(2)
		}
		m.sepuv = bit()
	}
	m.film = bit()
	return m
}

func TestVerifC04(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C04",
		Rule: "a random legal sequence header is encoded field by field at a random byte offset, followed by random bits; the parsed structure must give back every field and the reader must stop at the exact bit. Non-trivial: not a reduced still-picture header, or one with a colour description.",
		Subs: []kit.Sub{{Name: "roundtrip", Quick: 20000, Case: func(g *kit.G) {
			w := &kit.W{}
			lead := 8 * g.Int(0, 2)
			w.Put(lead, int(g.Bits(lead)))
			m := gen(g, w)
			end := w.N
			for w.N%8 != 0 {
				w.Put(1, g.Int(0, 1))
			}
			w.B = append(w.B, g.Bytes(3)...)
			if !m.reduced || m.cdp {
				g.NonTrivial()
			}
			if m.reduced {
				g.Class("reduced")
			}
			if m.ops > 1 {
				g.Class("several operating points")
			}
			if m.dmi {
				g.Class("decoder model")
			}
			if m.mono {
				g.Class("monochrome")
			}
			g.Descf("%+v", m)
			b := bitstream.NewBitStream(w.B)
			st := state.State{}
			st.OperatingPointIdc = g.Int(0, 4095)
			var s sequenceheader.SequenceHeader
			g.Guard("NewSequenceHeader", func() {
				b.F(lead)
				s = sequenceheader.NewSequenceHeader(&b, &st)
			})
			g.EqInt("bits consumed", b.Position, end)
			g.EqInt("profile", s.SeqProfile, m.profile)
			g.Eq("still", s.StillPicture, m.still)
			g.Eq("reduced", s.ReducedStillPictureHeader, m.reduced)
			g.EqInt("num_units_in_display_tick", s.TimingInfo.NumUnitsInDisplayTick, m.units)
			g.EqInt("time_scale", s.TimingInfo.TimeScale, m.scale)
			g.Eq("equal_picture_interval", s.TimingInfo.EqualPictureInterval, m.equalPic)
			g.EqInt("num_ticks_per_picture_minus_1", s.TimingInfo.NumTicksPerMinuteMinusOne, m.ticks)
			g.Eq("decoder_model_info_present", s.DecoderModelInfoPresent, m.dmi)
			g.EqInt("buffer_delay_length", s.DecoderModelInfo.BufferDelayLengthMinusOne, m.bufLen)
			g.EqInt("num_units_in_decoding_tick", s.DecoderModelInfo.NumUnitsInDecodingTick, m.decTick)
			g.EqInt("buffer_removal_time_length", s.DecoderModelInfo.BufferRemovalTimeLengthMinusOne, m.remLen)
			g.EqInt("frame_presentation_time_length", s.DecoderModelInfo.FramePresentationTimeLengthMinusOne, m.fpt)
			g.Eq("initial_display_delay_present", s.InitialDisplayDelayPresent, m.idd)
			g.EqInt("operating points", s.OperatingPointsCountMinusOne, m.ops-1)
			get := func(a []int, i int) int {
				if i < len(a) {
					return a[i]
				}
				return 0
			}
			getb := func(a []bool, i int) bool { return i < len(a) && a[i] }
			for i := 0; i < m.ops; i++ {
				g.EqInt("operating_point_idc", get(s.OperatingPointIdc, i), m.idc[i])
				g.EqInt("seq_level_idx", get(s.SeqLevelIdx, i), m.level[i])
				g.EqInt("seq_tier", get(s.SeqTier, i), m.tier[i])
				g.Eq("decoder_model_present_for_this_op", getb(s.DecoderModelPresentForThisOp, i), m.dmp[i])
				g.EqInt("decoder_buffer_delay", get(s.DecoderBufferDelay, i), m.dbd[i])
				g.EqInt("encoder_buffer_delay", get(s.EncoderBufferDelay, i), m.ebd[i])
				g.Eq("low_delay_mode_flag", getb(s.LowDelayModeFlag, i), m.ldm[i])
				g.Eq("initial_display_delay_present_for_this_op", getb(s.InitialDisplayDelayPresentForThisOp, i), m.iddp[i])
				g.EqInt("initial_display_delay_minus_1", get(s.InitialDisplayDelayMinusOne, i), m.iddm1[i])
			}
			g.EqInt("OperatingPointIdc in force", st.OperatingPointIdc, m.idc[0])
			g.EqInt("frame_width_bits", s.FrameWidthBitsMinusOne, m.wb)
			g.EqInt("frame_height_bits", s.FrameHeightBitsMinusOne, m.hb)
			g.EqInt("max_frame_width", s.MaxFrameWidthMinusOne, m.mw)
			g.EqInt("max_frame_height", s.MaxFrameHeightMinusOne, m.mh)
			g.Eq("frame_id_numbers_present", s.FrameIdNumbersPresent, m.ids)
			g.EqInt("delta_frame_id_length", s.DeltaFrameIdLengthMinusTwo, m.dlen)
			g.EqInt("additional_frame_id_length", s.AdditionalFrameIdLengthMinusOne, m.alen)
			g.Eq("tool flags", []bool{s.Use128x128SuperBlock, s.EnableFilterIntra, s.EnableIntraEdgeFilter, s.EnableInterIntraCompound, s.EnableMaskedCompound, s.EnableWarpedMotion, s.EnableDualFilter, s.EnableOrderHint, s.EnableJntComp, s.EnableRefFrameMvs, s.SeqChooseScreenContentTools, s.SeqChooseIntegerMv},
				[]bool{m.sb128, m.filt, m.edge, m.ii, m.masked, m.warp, m.dual, m.oh, m.jnt, m.rmv, m.chSct, m.chImv})
			g.EqInt("seq_force_screen_content_tools", s.SeqForceScreenContentTools, m.fSct)
			g.EqInt("seq_force_integer_mv", s.SeqForceIntegerMv, m.fImv)
			g.EqInt("OrderHintBits", s.OrderHintBits, m.ohb)
			g.Eq("superres/cdef/restoration", []bool{s.EnableSuperRes, s.EnableCdef, s.EnableRestoration}, []bool{m.sr, m.cdef, m.rest})
			c := s.ColorConfig
			g.EqInt("BitDepth", c.BitDepth, m.depth)
			g.EqInt("NumPlanes", c.NumPlanes, m.planes)
			g.Eq("colour flags", []bool{c.HighBitDepth, c.TwelveBit, c.MonoChrome, c.ColorDescriptionPresent, c.ColorRange, c.SubsamplingX, c.SubsamplingY, c.SeparateUvDeltaQ},
				[]bool{m.hbd, m.twelve, m.mono, m.cdp, m.crange, m.sx, m.sy, m.sepuv})
			g.Eq("colour description", []int{c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients, c.ChromaSamplePosition}, []int{m.cp, m.tc, m.mc, m.csp})
			g.Eq("film_grain_params_present", s.FilmGrainParamsPresent, m.film)
		}}}})
}
