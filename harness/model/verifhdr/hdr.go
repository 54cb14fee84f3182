// Package verifhdr writes sequence and frame headers and says what a decoder must find in them.
// It follows the syntax tables of the AV1 specification and shares no code with the decoder.
package verifhdr

import (
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Seq is a sequence header; the fields are named after the specification.
type Seq struct {
	Profile                      int
	Still, Reduced               bool
	EqualPic, DecModel           bool
	RemLen, PresLen              int // buffer_removal_time_length, frame_presentation_time_length (bits)
	Ops                          []Op
	WBits, HBits, MaxW, MaxH     int
	IDs                          bool
	DeltaLen, AddLen             int // the coded minus_2 and minus_1 values
	SB128, FilterIntra, EdgeFilt bool
	InterIntra, Masked, Warped   bool
	DualFilter, OrderHint        bool
	JntComp, RefMvs              bool
	ForceSCT, ForceIntMv         int
	HintBits                     int
	SuperRes, Cdef, LR           bool
	Depth                        int
	Mono, SX, SY, SepUV          bool
	Film                         bool
}

// Op is an operating point.
type Op struct {
	Idc          int
	ModelPresent bool
}

// IDLen is the number of bits of a frame id.
func (s *Seq) IDLen() int { return s.AddLen + s.DeltaLen + 3 }

// Planes is the number of colour planes.
func (s *Seq) Planes() int {
	if s.Mono {
		return 1
	}
	return 3
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Bytes writes the sequence header OBU payload with its trailing bits.
func (s *Seq) Bytes() []byte {
	w := &kit.W{}
	w.Put(3, s.Profile)
	w.Bool(s.Still)
	w.Bool(s.Reduced)
	if s.Reduced {
		w.Put(5, 8)
	} else {
		w.Put(1, b2i(s.DecModel)) // timing_info_present
		if s.DecModel {
			w.Put(32, 1)
			w.Put(32, 30)
			w.Bool(s.EqualPic)
			if s.EqualPic {
				w.Put(1, 1) // uvlc 0
			}
			w.Put(1, 1)
			w.Put(5, 9)
			w.Put(32, 1)
			w.Put(5, s.RemLen-1)
			w.Put(5, s.PresLen-1)
		}
		w.Put(1, 0)
		w.Put(5, len(s.Ops)-1)
		for _, o := range s.Ops {
			w.Put(12, o.Idc)
			w.Put(5, 9)
			w.Put(1, 0)
			if s.DecModel {
				w.Bool(o.ModelPresent)
				if o.ModelPresent {
					w.Put(10, 1)
					w.Put(10, 1)
					w.Put(1, 0)
				}
			}
		}
	}
	w.Put(4, s.WBits-1)
	w.Put(4, s.HBits-1)
	w.Put(s.WBits, s.MaxW-1)
	w.Put(s.HBits, s.MaxH-1)
	if !s.Reduced {
		w.Bool(s.IDs)
		if s.IDs {
			w.Put(4, s.DeltaLen)
			w.Put(3, s.AddLen)
		}
	}
	w.Bool(s.SB128)
	w.Bool(s.FilterIntra)
	w.Bool(s.EdgeFilt)
	if !s.Reduced {
		w.Bool(s.InterIntra)
		w.Bool(s.Masked)
		w.Bool(s.Warped)
		w.Bool(s.DualFilter)
		w.Bool(s.OrderHint)
		if s.OrderHint {
			w.Bool(s.JntComp)
			w.Bool(s.RefMvs)
		}
		w.Bool(s.ForceSCT == 2)
		if s.ForceSCT != 2 {
			w.Put(1, s.ForceSCT)
		}
		if s.ForceSCT > 0 {
			w.Bool(s.ForceIntMv == 2)
			if s.ForceIntMv != 2 {
				w.Put(1, s.ForceIntMv)
			}
		}
		if s.OrderHint {
			w.Put(3, s.HintBits-1)
		}
	}
	w.Bool(s.SuperRes)
	w.Bool(s.Cdef)
	w.Bool(s.LR)
	// color_config
	w.Bool(s.Depth > 8)
	if s.Profile == 2 && s.Depth > 8 {
		w.Bool(s.Depth == 12)
	}
	if s.Profile != 1 {
		w.Bool(s.Mono)
	}
	w.Put(1, 0)
	w.Put(1, 0) // color_range
	if !s.Mono {
		if s.Profile == 2 && s.Depth == 12 {
			w.Bool(s.SX)
			if s.SX {
				w.Bool(s.SY)
			}
		}
		if s.SX && s.SY {
			w.Put(2, 0)
		}
		w.Bool(s.SepUV)
	}
	w.Bool(s.Film)
	Trailing(w)
	return w.B
}

// Trailing appends trailing_bits.
func Trailing(w *kit.W) {
	w.Put(1, 1)
	for w.N%8 != 0 {
		w.Put(1, 0)
	}
}

// Format draws bit depth, chroma format and the profile that allows them.
func (s *Seq) Format(g *kit.G) {
	s.Depth = g.Pick(8, 8, 8, 10, 10, 12)
	s.Mono, s.SX, s.SY = false, true, true
	switch g.Int(0, 5) {
	case 0:
		s.Mono = true
	case 1:
		s.SX, s.SY = false, false
	case 2:
		s.SY = false
	}
	switch {
	case s.Depth == 12 || (s.SX && !s.SY):
		s.Profile = 2
	case !s.SX:
		s.Profile = 1
	default:
		s.Profile = 0
	}
	s.SepUV = !s.Mono && g.Chance(1, 3)
}

// GenSeq draws a sequence header with the fields a frame header depends on.
func GenSeq(g *kit.G) *Seq {
	s := &Seq{ForceSCT: 2, ForceIntMv: 2}
	s.Still = g.Chance(1, 10)
	s.Reduced = s.Still && g.Bool()
	s.Format(g)
	s.Ops = []Op{{}}
	s.RemLen, s.PresLen = 1, 1
	if !s.Reduced {
		s.DecModel = g.Chance(1, 4)
		if s.DecModel {
			s.EqualPic = g.Bool()
			s.RemLen, s.PresLen = g.Sized(1, 32), g.Sized(1, 32)
		}
		n := g.Sized(1, 5)
		s.Ops = nil
		for i := 0; i < n; i++ {
			o := Op{}
			if g.Bool() {
				o.Idc = int(g.Bits(12))
			}
			o.ModelPresent = s.DecModel && g.Bool()
			s.Ops = append(s.Ops, o)
		}
		s.IDs = g.Chance(1, 3)
		if s.IDs {
			s.DeltaLen, s.AddLen = g.Int(0, 13), g.Int(0, 7)
			if s.IDLen() > 16 {
				s.DeltaLen, s.AddLen = 5, 4
			}
		}
		s.InterIntra, s.Masked, s.Warped, s.DualFilter = g.Bool(), g.Bool(), g.Bool(), g.Bool()
		s.OrderHint = g.Chance(4, 5)
		if s.OrderHint {
			s.JntComp, s.RefMvs = g.Bool(), g.Bool()
			s.HintBits = g.Int(1, 8)
		}
		s.ForceSCT = g.Pick(2, 2, 0, 1)
		if s.ForceSCT > 0 {
			s.ForceIntMv = g.Pick(2, 2, 0, 1)
		}
	}
	s.WBits, s.HBits = g.Int(1, 16), g.Int(1, 16)
	s.MaxW, s.MaxH = g.Sized(1, 1<<uint(s.WBits)), g.Sized(1, 1<<uint(s.HBits))
	for s.MaxW*s.MaxH > 1<<22 { // the parsers allocate per-block arrays
		s.MaxW, s.MaxH = (s.MaxW+1)/2, (s.MaxH+2)/3
	}
	s.SB128, s.FilterIntra, s.EdgeFilt = g.Bool(), g.Bool(), g.Bool()
	s.SuperRes, s.Cdef, s.LR = g.Bool(), g.Chance(3, 4), g.Chance(3, 4)
	s.Film = g.Chance(1, 2)
	return s
}
