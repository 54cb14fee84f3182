package verifhdr

import (
	"fmt"

	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Grain is a set of film grain parameters.
type Grain struct {
	Apply                     bool
	Seed                      int
	Y, Cb, Cr                 [][2]int
	FromLuma                  bool
	ScalingMinus8, Lag        int
	ArY, ArCb, ArCr           []int
	ShiftMinus6, ScaleShift   int
	CbMult, CbLuma, CbOff     int
	CrMult, CrLuma, CrOff     int
	Overlap, ClipToRestricted bool
}

// Slot is what the decoder knows of a reference frame.
type Slot struct {
	Valid             int
	ID, Type, Hint    int
	UpW, W, H, RW, RH int
	MiCols, MiRows    int
	Depth             int
	SX, SY            bool
	Hints             [8]int
	GM                [8][6]int
	RefDeltas         [8]int
	ModeDeltas        [2]int
	FeatOn, Feat      [8][8]int
	Grain             Grain
	Showable          bool
	Key               int // identifies the frame
}

// Refs are the eight slots.
type Refs [8]Slot

// Opt restricts the frames that are drawn.
type Opt struct {
	Stream                bool // the frame must be decodable with Refs
	Type                  int  // frame type, -1 for any
	MustShow              bool
	Hide                  bool // not shown at once, if MustShow is not set
	MaxQ                  int  // largest base_q_idx, 0: any
	W, H                  int  // frame size to use (Stream)
	Refresh               int  // refresh_frame_flags, -1 for any
	NoTiles               bool
	NoExist               bool // no show_existing_frame
	NoSCT                 bool
	PrevID                int  // current_frame_id of the frame before (Stream)
	HiddenGrain           bool // film grain is not applied to frames shown at once
	NoGrain               bool // film grain is never applied
	FewSegments           bool // segments above some may be off
	Copy                  bool // intra block copy may be on
	Segments              bool // with segments
	Temporal              bool // with motion vectors of earlier frames
	Deltas                bool // with deltas of the quantizer
	TemporalID, SpatialID int
}

// Frame is a frame header: what was coded and what follows from it.
type Frame struct {
	Bits                          int // length of the header
	ShowExisting                  bool
	MapIdx                        int
	PresTime                      int
	DisplayID                     int
	PrevID                        int // in streams
	Type                          int
	Intra, Show, Showable, ErrRes bool
	DisableCdf                    bool
	SCT                           int
	IntMv                         bool
	ID, Hint                      int
	Override                      bool
	Primary                       int
	Refresh                       int
	UpW, W, H, RW, RH             int
	SuperRes                      bool
	Denom                         int
	MiCols, MiRows                int
	IntraBC                       bool
	ShortSig                      bool
	RefIdx                        [7]int
	HP                            bool
	Interp                        int
	SwitchMotion                  bool
	RefMvs                        bool
	Hints                         [8]int
	SignBias                      [8]bool
	NoEndUpdate                   bool
	Tile                          Tiles
	Q                             int
	DYDc, DUDc, DUAc, DVDc, DVAc  int
	QM                            bool
	QmY, QmU, QmV                 int
	Seg                           bool
	SegMap, SegTemporal, SegData  int
	FeatOn, Feat                  [8][8]int
	SegPreSkip, SegLast           int
	DeltaQ                        bool
	DeltaQRes                     int
	DeltaLf                       bool
	DeltaLfRes, DeltaLfMulti      int
	QIdx                          [8]int
	Lossless                      [8]bool
	CodedLossless, AllLossless    bool
	Level                         [4]int
	LevelUVRead                   bool
	Sharp                         int
	LfDelta                       bool
	LfUpdate                      int
	LfRead                        bool
	RefDeltas                     [8]int
	ModeDeltas                    [2]int
	CdefDamp, CdefBits            int
	CdefY, CdefUV                 [][2]int // primary, secondary
	LrType                        [3]int
	UsesLr                        bool
	LrSize                        [3]int
	TxMode                        int
	RefSelect                     bool
	SkipModeAllowed               bool
	SkipFrames                    [2]int
	SkipMode                      int
	Warped, ReducedTx             bool
	GmType                        [8]int
	GM                            [8][6]int
	Grain                         Grain
	Valid                         [8]int // RefValid after the header
}

// Tiles is the layout of the tiles.
type Tiles struct {
	Cols, Rows         []int // starts in 4x4 units, with the end
	ColsLog2, RowsLog2 int
	ContextID          int
	SizeBytes          int
}

// N is the number of tiles.
func (t *Tiles) N() int { return (len(t.Cols) - 1) * (len(t.Rows) - 1) }

func floorLog2(n int) int {
	r := 0
	for n > 1 {
		n >>= 1
		r++
	}
	return r
}

func tileLog2(blk, target int) int {
	k := 0
	for blk<<uint(k) < target {
		k++
	}
	return k
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func clip(lo, hi, x int) int { return max(lo, min(hi, x)) }

// Ns writes a non-symmetric value v of [0,n).
func Ns(w *kit.W, n, v int) {
	l := floorLog2(n) + 1
	m := 1<<uint(l) - n
	if v < m {
		w.Put(l-1, v)
	} else {
		w.Put(l-1, (v+m)>>1)
		w.Put(1, (v+m)&1)
	}
}

// Su writes a signed value in n bits.
func Su(w *kit.W, n, v int) { w.Put(n, v&(1<<uint(n)-1)) }

func (s *Seq) dist(a, b int) int {
	if !s.OrderHint {
		return 0
	}
	// the signed difference modulo 2^bits
	n := 1 << uint(s.HintBits)
	d := ((a-b)%n + n) % n
	if d >= n/2 {
		d -= n
	}
	return d
}

type ctx struct {
	g *kit.G
	w *kit.W
	s *Seq
	r *Refs
	o Opt
	f *Frame
}

func (c *ctx) bit() bool     { v := c.g.Bool(); c.w.Bool(v); return v }
func (c *ctx) val(n int) int { v := int(c.g.Bits(n)); c.w.Put(n, v); return v }
func (c *ctx) rare(n, d int) bool {
	v := c.g.Chance(n, d)
	c.w.Bool(v)
	return v
}

// often is the second number if segmentation matters.
func (c *ctx) often(n, segments int) int {
	if c.o.Segments {
		return segments
	}
	return n
}

// GenFrame draws a frame header and writes it.
func GenFrame(g *kit.G, w *kit.W, s *Seq, r *Refs, o Opt) *Frame {
	f := &Frame{}
	c := &ctx{g, w, s, r, o, f}
	start := w.N
	c.frame()
	f.Bits = w.N - start
	return f
}

func (c *ctx) frame() {
	g, w, s, r, f, o := c.g, c.w, c.s, c.r, c.f, c.o
	for i := range r {
		f.Valid[i] = r[i].Valid
	}
	if s.Reduced {
		f.Type, f.Intra, f.Show, f.ErrRes = 0, true, true, true
	} else {
		f.ShowExisting = !o.NoExist && !o.Stream && g.Chance(1, 8)
		w.Bool(f.ShowExisting)
		if f.ShowExisting {
			f.MapIdx = c.val(3)
			if s.DecModel && !s.EqualPic {
				f.PresTime = c.val(s.PresLen)
			}
			if s.IDs {
				f.DisplayID = c.val(s.IDLen())
			}
			f.Type = r[f.MapIdx].Type
			if f.Type == 0 {
				f.Refresh = 255
			}
			if s.Film {
				f.Grain = r[f.MapIdx].Grain
			}
			return
		}
		f.Type = o.Type
		if f.Type < 0 {
			f.Type = g.Pick(0, 1, 1, 1, 2, 3)
		}
		if o.Type < 0 && s.Still {
			f.Type = 0
		}
		w.Put(2, f.Type)
		f.Intra = f.Type == 0 || f.Type == 2
		f.Show = o.MustShow || !o.Hide && g.Chance(2, c.often(3, 5))
		w.Bool(f.Show)
		if f.Show && s.DecModel && !s.EqualPic {
			f.PresTime = c.val(s.PresLen)
		}
		if f.Show {
			f.Showable = f.Type != 0
		} else {
			f.Showable = c.bit()
		}
		if f.Type == 3 || (f.Type == 0 && f.Show) {
			f.ErrRes = true
		} else {
			f.ErrRes = c.rare(1, c.often(3, 12))
		}
	}
	if f.Type == 0 && f.Show {
		for i := range r {
			f.Valid[i] = 0
			r[i].Hint = 0
		}
	}
	f.DisableCdf = c.rare(1, 6)
	f.SCT = s.ForceSCT
	if s.ForceSCT == 2 {
		f.SCT = b2i(!o.NoSCT && g.Chance(1, 2))
		w.Put(1, f.SCT)
	}
	if f.SCT == 1 {
		f.IntMv = s.ForceIntMv == 1
		if s.ForceIntMv == 2 {
			f.IntMv = c.bit()
		}
	}
	if f.Intra {
		f.IntMv = true
	}
	if s.IDs {
		f.PrevID = o.PrevID
		if o.Stream && !(f.Type == 0 && f.Show) { // so that all references stay valid
			f.ID = (o.PrevID + g.Int(1, 3)) & (1<<uint(s.IDLen()) - 1)
			w.Put(s.IDLen(), f.ID)
		} else {
			f.ID = c.val(s.IDLen())
		}
		for i := range r {
			d := 1 << uint(s.DeltaLen+2)
			id := r[i].ID
			if f.ID > d {
				if id > f.ID || id < f.ID-d {
					f.Valid[i] = 0
				}
			} else if id > f.ID && id < 1<<uint(s.IDLen())+f.ID-d {
				f.Valid[i] = 0
			}
		}
	}
	if f.Type == 3 {
		f.Override = true
	} else if !s.Reduced {
		f.Override = g.Chance(1, 2)
		if o.Stream && (o.W != s.MaxW || o.H != s.MaxH) {
			f.Override = true
		}
		w.Bool(f.Override)
	}
	if s.HintBits > 0 {
		f.Hint = int(g.Bits(s.HintBits))
		w.Put(s.HintBits, f.Hint)
	}
	f.Primary = 7
	if !f.Intra && !f.ErrRes {
		if f.Primary = g.Pick(7, g.Int(0, 6), g.Int(0, 6)); o.Segments && f.Primary == 7 {
			f.Primary = g.Pick(7, 0, 1, 6)
		}
		w.Put(3, f.Primary)
	}
	if s.DecModel {
		if c.bit() {
			for _, op := range s.Ops {
				if op.ModelPresent {
					in := op.Idc == 0 || (op.Idc>>uint(o.TemporalID)&1 != 0 && op.Idc>>uint(o.SpatialID+8)&1 != 0)
					if in {
						c.val(s.RemLen)
					}
				}
			}
		}
	}
	if f.Type == 3 || (f.Type == 0 && f.Show) {
		f.Refresh = 255
	} else {
		f.Refresh = o.Refresh
		if o.Refresh < 0 || !o.Stream {
			f.Refresh = int(g.Bits(8))
			if f.Type == 2 && f.Refresh == 255 {
				f.Refresh = 254
			}
		}
		w.Put(8, f.Refresh)
	}
	if (!f.Intra || f.Refresh != 255) && f.ErrRes && s.OrderHint {
		for i := range r {
			h := r[i].Hint
			if !o.Stream && g.Chance(1, 4) {
				h = int(g.Bits(s.HintBits))
				if h != r[i].Hint {
					f.Valid[i] = 0
				}
			}
			w.Put(s.HintBits, h)
		}
	}
	if f.Intra {
		c.frameSize()
		c.renderSize()
		if f.SCT == 1 && f.UpW == f.W {
			f.IntraBC = !o.Stream && g.Bool() || o.Copy && g.Chance(7, 8)
			w.Bool(f.IntraBC)
		}
	} else {
		c.interRefs()
	}
	f.NoEndUpdate = true
	if !s.Reduced && !f.DisableCdf {
		f.NoEndUpdate = c.rare(1, 4)
	}
	if f.Primary == 7 {
		f.RefDeltas = [8]int{1, 0, 0, 0, -1, 0, -1, -1}
		f.LfDelta = true
	} else {
		p := r[f.RefIdx[f.Primary]]
		f.RefDeltas, f.ModeDeltas = p.RefDeltas, p.ModeDeltas
		f.FeatOn, f.Feat = p.FeatOn, p.Feat
	}
	c.tiles()
	c.quant()
	c.segmentation()
	if f.Q > 0 {
		k := 3
		if c.o.Deltas {
			k = 1
		}
		f.DeltaQ = c.rare(1, k)
	}
	if f.DeltaQ {
		f.DeltaQRes = g.Int(0, 3)
		w.Put(2, f.DeltaQRes)
		if !f.IntraBC {
			f.DeltaLf = c.bit()
		}
		if f.DeltaLf {
			f.DeltaLfRes = g.Int(0, 3)
			w.Put(2, f.DeltaLfRes)
			f.DeltaLfMulti = b2i(c.bit())
		}
	}
	f.CodedLossless = true
	for i := range f.QIdx {
		f.QIdx[i] = f.Q
		if f.Seg && f.FeatOn[i][0] == 1 {
			f.QIdx[i] = clip(0, 255, f.Q+f.Feat[i][0])
		}
		f.Lossless[i] = f.QIdx[i] == 0 && f.DYDc == 0 && f.DUDc == 0 && f.DUAc == 0 && f.DVDc == 0 && f.DVAc == 0
		f.CodedLossless = f.CodedLossless && f.Lossless[i]
	}
	f.AllLossless = f.CodedLossless && f.W == f.UpW
	c.loopFilter()
	c.cdef()
	c.lr()
	if !f.CodedLossless {
		f.TxMode = 1
		if c.rare(3, 4) {
			f.TxMode = 2
		}
	}
	if !f.Intra {
		f.RefSelect = c.bit()
	}
	c.skipMode()
	if !f.Intra && !f.ErrRes && s.Warped {
		f.Warped = c.rare(3, 4)
	}
	f.ReducedTx = c.rare(1, 5)
	c.globalMotion()
	c.film()
}

func (c *ctx) setSize(w, h int) {
	f := c.f
	f.UpW, f.H = w, h
	c.superres()
}

func (c *ctx) superres() {
	f := c.f
	f.Denom = 8
	if c.s.SuperRes {
		f.SuperRes = c.bit()
		if f.SuperRes {
			f.Denom = 9 + c.g.Int(0, 7)
			c.w.Put(3, f.Denom-9)
		}
	}
	f.W = (f.UpW*8 + f.Denom/2) / f.Denom
	f.MiCols = 2 * ((f.W + 7) / 8)
	f.MiRows = 2 * ((f.H + 7) / 8)
}

func (c *ctx) frameSize() {
	s, f := c.s, c.f
	w, h := s.MaxW, s.MaxH
	if f.Override {
		w, h = c.g.Sized(1, s.MaxW), c.g.Sized(1, s.MaxH)
		if c.o.Stream {
			w, h = c.o.W, c.o.H
		} else if c.g.Chance(1, 4) { // the coded size is not bounded by the parser
			w, h = c.g.Sized(1, 1<<uint(s.WBits)), c.g.Sized(1, 1<<uint(s.HBits))
			for w*h > 1<<22 {
				w, h = (w+1)/2, (h+2)/3
			}
		}
		c.w.Put(s.WBits, w-1)
		c.w.Put(s.HBits, h-1)
	}
	c.setSize(w, h)
}

func (c *ctx) renderSize() {
	f := c.f
	f.RW, f.RH = f.UpW, f.H
	if c.rare(1, 3) {
		f.RW, f.RH = 1+int(c.g.Bits(16)), 1+int(c.g.Bits(16))
		c.w.Put(16, f.RW-1)
		c.w.Put(16, f.RH-1)
	}
}

func (c *ctx) interRefs() {
	g, w, s, r, f := c.g, c.w, c.s, c.r, c.f
	if s.OrderHint {
		past := []int{0, 1, 2, 3, 4, 5, 6, 7}
		if c.o.Stream { // the two references must precede the frame
			past = nil
			for i := range r {
				if s.dist(r[i].Hint, f.Hint) < 0 {
					past = append(past, i)
				}
			}
		}
		if len(past) > 0 {
			f.ShortSig = c.rare(1, 3)
		} else {
			w.Put(1, 0)
		}
		if f.ShortSig {
			last, gold := past[g.Int(0, len(past)-1)], past[g.Int(0, len(past)-1)]
			w.Put(3, last)
			w.Put(3, gold)
			f.RefIdx = SetFrameRefs(s, r, f.Hint, last, gold)
		}
	}
	for i := range f.RefIdx {
		if !f.ShortSig {
			f.RefIdx[i] = g.Int(0, 7)
			w.Put(3, f.RefIdx[i])
		}
		if s.IDs && c.o.Stream {
			w.Put(s.DeltaLen+2, (f.ID-r[f.RefIdx[i]].ID-1)&(1<<uint(s.IDLen())-1))
		} else if s.IDs {
			c.val(s.DeltaLen + 2)
		}
	}
	if f.Override && !f.ErrRes {
		k := g.Int(0, 7)
		if c.o.Stream {
			k = 7
			for i := 6; i >= 0; i-- {
				if r[f.RefIdx[i]].UpW == c.o.W && r[f.RefIdx[i]].H == c.o.H && g.Bool() {
					k = i
				}
			}
		}
		for i := 0; i < k; i++ {
			w.Put(1, 0)
		}
		if k < 7 {
			w.Put(1, 1)
			p := r[f.RefIdx[k]]
			f.RW, f.RH = p.RW, p.RH
			c.setSize(p.UpW, p.H)
		} else {
			c.frameSize()
			c.renderSize()
		}
	} else {
		c.frameSize()
		c.renderSize()
	}
	if !f.IntMv {
		f.HP = c.bit()
	}
	f.Interp = 4
	if !c.rare(1, 2) {
		f.Interp = g.Int(0, 3)
		w.Put(2, f.Interp)
	}
	f.SwitchMotion = c.bit()
	if !f.ErrRes && s.RefMvs {
		f.RefMvs = (g.Bool() || c.o.Temporal && g.Chance(3, 4)) && f.MiRows*f.MiCols <= 1<<14 // larger fields are slow
		w.Bool(f.RefMvs)
	}
	for i := range f.RefIdx {
		h := r[f.RefIdx[i]].Hint
		f.Hints[i+1] = h
		f.SignBias[i+1] = s.OrderHint && s.dist(h, f.Hint) > 0
	}
}

// SetFrameRefs is the set frame refs process (7.8).
func SetFrameRefs(s *Seq, r *Refs, hint, last, gold int) [7]int {
	idx := [7]int{-1, -1, -1, -1, -1, -1, -1}
	idx[0], idx[3] = last, gold
	var used [8]bool
	used[last], used[gold] = true, true
	d := func(i int) int { return s.dist(r[i].Hint, hint) }
	set := func(k, best int) {
		if best >= 0 {
			idx[k] = best
			used[best] = true
		}
	}
	// latest frame of the future, ties to the higher slot
	best := -1
	for i := range r {
		if !used[i] && d(i) >= 0 && (best < 0 || d(i) >= d(best)) {
			best = i
		}
	}
	set(6, best)
	for _, k := range []int{4, 5} { // the nearest of the future, ties to the lower slot
		best = -1
		for i := range r {
			if !used[i] && d(i) >= 0 && (best < 0 || d(i) < d(best)) {
				best = i
			}
		}
		set(k, best)
	}
	for _, k := range []int{1, 2, 4, 5, 6} {
		if idx[k] >= 0 {
			continue
		}
		best = -1
		for i := range r {
			if !used[i] && d(i) < 0 && (best < 0 || d(i) >= d(best)) {
				best = i
			}
		}
		set(k, best)
	}
	best = 0
	for i := range r {
		if d(i) < d(best) {
			best = i
		}
	}
	for k := range idx {
		if idx[k] < 0 {
			idx[k] = best
		}
	}
	return idx
}

func (c *ctx) tiles() {
	f := c.f
	f.Tile = GenTiles(c.g, c.w, f.MiCols, f.MiRows, c.s.SB128, c.o.NoTiles, 1+b2i(c.o.Stream))
}

// GenTiles draws and writes tile_info.
func GenTiles(g *kit.G, w *kit.W, miCols, miRows int, sb128, few bool, minBytes int) Tiles {
	t := Tiles{}
	sh := uint(4)
	if sb128 {
		sh = 5
	}
	sbc, sbr := (miCols+1<<sh-1)>>sh, (miRows+1<<sh-1)>>sh
	maxW := 4096 >> (sh + 2)
	maxArea := 4096 * 2304 >> (2 * (sh + 2))
	minC := tileLog2(maxW, sbc)
	maxC := tileLog2(1, min(sbc, 64))
	maxR := tileLog2(1, min(sbr, 64))
	minT := max(minC, tileLog2(maxArea, sbr*sbc))
	lay := func(size, n, end int) []int {
		var x []int
		for i := 0; i < n; i += size {
			x = append(x, i<<sh)
		}
		return append(x, end)
	}
	uniform := g.Bool()
	w.Bool(uniform)
	inc := func(lo, hi int) int {
		for lo < hi {
			if few || g.Chance(1, 2) {
				w.Put(1, 0)
				break
			}
			w.Put(1, 1)
			lo++
		}
		return lo
	}
	if uniform {
		t.ColsLog2 = inc(minC, maxC)
		t.Cols = lay((sbc+1<<uint(t.ColsLog2)-1)>>uint(t.ColsLog2), sbc, miCols)
		t.RowsLog2 = inc(max(minT-t.ColsLog2, 0), maxR)
		t.Rows = lay((sbr+1<<uint(t.RowsLog2)-1)>>uint(t.RowsLog2), sbr, miRows)
	} else {
		style := g.Int(0, 3)
		split := func(n, most, mostTiles, end int) ([]int, int) {
			var x []int
			widest := 0
			for i := 0; i < n; {
				x = append(x, i<<sh)
				m := min(n-i, most)
				k := 1
				switch {
				case few || n-i > m*(mostTiles-len(x)): // keep the number of tiles legal
					k = m
				case style == 0:
					k = m
				case style == 1:
					k = g.Int(1, m)
				default:
					k = g.Int(1, min(m, 3))
				}
				Ns(w, m, k-1)
				widest = max(widest, k)
				i += k
			}
			return append(x, end), widest
		}
		var widest int
		t.Cols, widest = split(sbc, maxW, 64, miCols)
		t.ColsLog2 = tileLog2(1, len(t.Cols)-1)
		area := sbr * sbc
		if minT > 0 {
			area >>= uint(minT + 1)
		}
		t.Rows, _ = split(sbr, max(area/widest, 1), 64, miRows)
		t.RowsLog2 = tileLog2(1, len(t.Rows)-1)
	}
	if t.ColsLog2 > 0 || t.RowsLog2 > 0 {
		n := t.ColsLog2 + t.RowsLog2
		t.ContextID = g.Int(0, t.N()-1)
		w.Put(n, t.ContextID)
		t.SizeBytes = g.Int(minBytes, 4)
		w.Put(2, t.SizeBytes-1)
	}
	return t
}

func (c *ctx) deltaq() int {
	if !c.rare(1, 3) {
		return 0
	}
	v := c.g.Int(-64, 63)
	if c.o.Stream {
		v = c.g.Int(-20, 20)
	}
	Su(c.w, 7, v)
	return v
}

func (c *ctx) quant() {
	g, w, s, f := c.g, c.w, c.s, c.f
	if c.o.MaxQ > 0 {
		f.Q = g.Pick(0, g.Int(0, c.o.MaxQ), g.Int(1, c.o.MaxQ), g.Int(1, c.o.MaxQ), g.Int(1, c.o.MaxQ))
	} else {
		f.Q = g.Pick(0, int(g.Bits(8)), int(g.Bits(8)))
	}
	w.Put(8, f.Q)
	quiet := g.Chance(1, 3)
	dq := func() int {
		if quiet {
			w.Put(1, 0)
			return 0
		}
		return c.deltaq()
	}
	f.DYDc = dq()
	if !s.Mono {
		diff := false
		if s.SepUV {
			diff = c.bit()
		}
		f.DUDc, f.DUAc = dq(), dq()
		f.DVDc, f.DVAc = f.DUDc, f.DUAc
		if diff {
			f.DVDc, f.DVAc = dq(), dq()
		}
	}
	f.QM = c.rare(1, 3)
	if f.QM {
		f.QmY = c.val(4)
		f.QmU = c.val(4)
		f.QmV = f.QmU
		if s.SepUV {
			f.QmV = c.val(4)
		}
	}
}

var featBits = [8]int{8, 6, 6, 6, 6, 3, 0, 0}
var featMax = [8]int{255, 63, 63, 63, 63, 7, 0, 0}

func (c *ctx) segmentation() {
	g, w, f := c.g, c.w, c.f
	k := c.often(2, 20)
	f.Seg = c.rare(k-1, k)
	if !f.Seg {
		f.FeatOn, f.Feat = [8][8]int{}, [8][8]int{}
	} else {
		f.SegMap, f.SegData = 1, 1
		if f.Primary != 7 {
			f.SegMap = b2i(c.bit())
			if f.SegMap == 1 {
				f.SegTemporal = b2i(c.bit())
			}
			f.SegData = b2i(c.bit())
		}
		if f.SegData == 1 {
			density := g.Int(0, 4)
			nolast := g.Int(0, 7)
			if c.o.Stream && !(c.o.FewSegments && g.Bool()) { // else random segment ids would be invalid
				nolast = 7
			}
			for i := 0; i < 8; i++ {
				for j := 0; j < 8; j++ {
					on := density > 0 && g.Chance(density, 8) && i <= nolast
					if c.o.Stream && c.f.Intra && (j == 5 || j == 7) {
						on = false
					}
					if c.o.Stream && j >= 5 && g.Chance(1, 2) {
						on = false
					}
					if c.o.Stream && i == nolast && j == 1 {
						on = true
					}
					w.Bool(on)
					f.FeatOn[i][j] = b2i(on)
					f.Feat[i][j] = 0
					if !on || j >= 6 {
						continue
					}
					n := featBits[j]
					if j < 5 {
						v := int(g.Bits(n+1)) - 1<<uint(n)
						if c.o.Stream && j == 0 {
							v = clip(-f.Q, 40, v)
						}
						Su(w, n+1, v)
						f.Feat[i][j] = clip(-featMax[j], featMax[j], v)
					} else {
						v := int(g.Bits(n))
						w.Put(n, v)
						f.Feat[i][j] = v
					}
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			if f.FeatOn[i][j] == 1 {
				f.SegLast = i
				if j >= 5 {
					f.SegPreSkip = 1
				}
			}
		}
	}
}

func (c *ctx) loopFilter() {
	g, w, f := c.g, c.w, c.f
	if f.CodedLossless || f.IntraBC {
		f.RefDeltas = [8]int{1, 0, 0, 0, -1, 0, -1, -1}
		f.ModeDeltas = [2]int{}
		return
	}
	f.LfRead = true
	zero := g.Chance(1, 5)
	for i := 0; i < 2; i++ {
		if !zero {
			f.Level[i] = int(g.Bits(6))
		}
		w.Put(6, f.Level[i])
	}
	if !c.s.Mono && (f.Level[0] != 0 || f.Level[1] != 0) {
		f.Level[2], f.Level[3] = c.val(6), c.val(6)
		f.LevelUVRead = true
	}
	f.Sharp = c.val(3)
	f.LfDelta = c.bit()
	if f.LfDelta {
		f.LfUpdate = b2i(c.bit())
		if f.LfUpdate == 1 {
			for i := range f.RefDeltas {
				if c.bit() {
					f.RefDeltas[i] = g.Int(-64, 63)
					Su(w, 7, f.RefDeltas[i])
				}
			}
			for i := range f.ModeDeltas {
				if c.bit() {
					f.ModeDeltas[i] = g.Int(-64, 63)
					Su(w, 7, f.ModeDeltas[i])
				}
			}
		}
	}
}

func (c *ctx) cdef() {
	f := c.f
	if f.CodedLossless || f.IntraBC || !c.s.Cdef {
		f.CdefDamp = 3
		f.CdefY, f.CdefUV = [][2]int{{}}, [][2]int{{}}
		return
	}
	f.CdefDamp = 3 + c.val(2)
	f.CdefBits = c.val(2)
	pair := func() [2]int {
		p := [2]int{c.val(4), c.val(2)}
		if p[1] == 3 {
			p[1] = 4
		}
		return p
	}
	for i := 0; i < 1<<uint(f.CdefBits); i++ {
		f.CdefY = append(f.CdefY, pair())
		uv := [2]int{}
		if !c.s.Mono {
			uv = pair()
		}
		f.CdefUV = append(f.CdefUV, uv)
	}
}

func (c *ctx) lr() {
	f, s := c.f, c.s
	if f.AllLossless || f.IntraBC || !s.LR {
		return
	}
	chroma := false
	for i := 0; i < s.Planes(); i++ {
		t := c.g.Int(0, 3)
		c.w.Put(2, t)
		f.LrType[i] = [4]int{0, 3, 1, 2}[t]
		if t != 0 {
			f.UsesLr = true
			chroma = chroma || i > 0
		}
	}
	if !f.UsesLr {
		return
	}
	shift := b2i(c.bit())
	if s.SB128 {
		shift++
	} else if shift == 1 {
		shift += b2i(c.bit())
	}
	f.LrSize[0] = 64 << uint(shift)
	uv := 0
	if s.SX && s.SY && chroma {
		uv = b2i(c.bit())
	}
	f.LrSize[1] = f.LrSize[0] >> uint(uv)
	f.LrSize[2] = f.LrSize[1]
}

func (c *ctx) skipMode() {
	f, s, r := c.f, c.s, c.r
	if !f.Intra && f.RefSelect && s.OrderHint {
		// nearest reference on each side of the frame
		fwd, bwd := -1, -1
		h := func(i int) int { return r[f.RefIdx[i]].Hint }
		for i := range f.RefIdx {
			if s.dist(h(i), f.Hint) < 0 && (fwd < 0 || s.dist(h(i), h(fwd)) > 0) {
				fwd = i
			}
			if s.dist(h(i), f.Hint) > 0 && (bwd < 0 || s.dist(h(i), h(bwd)) < 0) {
				bwd = i
			}
		}
		other := bwd
		if fwd >= 0 && bwd < 0 {
			for i := range f.RefIdx {
				if s.dist(h(i), h(fwd)) < 0 && (other < 0 || s.dist(h(i), h(other)) > 0) {
					other = i
				}
			}
		}
		if fwd >= 0 && other >= 0 {
			f.SkipModeAllowed = true
			f.SkipFrames = [2]int{1 + min(fwd, other), 1 + max(fwd, other)}
			f.SkipMode = b2i(c.bit())
		}
	}
}

func recenter(r, x int) int {
	switch {
	case x > 2*r:
		return x
	case x >= r:
		return (x - r) << 1
	}
	return (r-x)<<1 - 1
}

// SubexpRef writes v of [low,high) with reference ref.
func SubexpRef(w *kit.W, low, high, ref, v int) {
	mx, r, x := high-low, ref-low, v-low
	var t int
	if r<<1 <= mx {
		t = recenter(r, x)
	} else {
		t = recenter(mx-1-r, mx-1-x)
	}
	mk := 0
	for i := 0; ; i++ {
		b := 3
		if i > 0 {
			b = 3 + i - 1
		}
		a := 1 << uint(b)
		if mx <= mk+3*a {
			Ns(w, mx-mk, t-mk)
			return
		}
		if t >= mk+a {
			w.Put(1, 1)
			mk += a
			continue
		}
		w.Put(1, 0)
		w.Put(b, t-mk)
		return
	}
}

// DefaultGM are the parameters of the identity.
func DefaultGM() (m [8][6]int) {
	for i := range m {
		m[i][2], m[i][5] = 1<<16, 1<<16
	}
	return
}

func (c *ctx) globalMotion() {
	f, g, w := c.f, c.g, c.w
	f.GM = DefaultGM()
	if f.Intra {
		return
	}
	prev := DefaultGM()
	if f.Primary != 7 {
		prev = c.r[f.RefIdx[f.Primary]].GM
	}
	many := g.Chance(1, 2)
	for ref := 1; ref <= 7; ref++ {
		t := 0
		if many || g.Chance(1, 5) {
			t = g.Int(0, 3)
		}
		f.GmType[ref] = t
		w.Bool(t != 0)
		if t != 0 {
			w.Bool(t == 2)
			if t != 2 {
				w.Bool(t == 1)
			}
		}
		par := func(i int) {
			abs, prec := uint(12), uint(15)
			if i < 2 {
				prec = 6
				if t == 1 {
					abs, prec = 9, 3
					if !f.HP {
						abs, prec = 8, 2
					}
				}
			}
			base, sub := 0, 0
			if i == 2 || i == 5 {
				base, sub = 1<<16, 1<<prec
			}
			mx := 1 << abs
			ref0 := prev[ref][i]>>(16-prec) - sub
			ref0 = clip(-mx, mx, ref0)
			var v int
			switch g.Int(0, 4) {
			case 0:
				v = ref0
			case 1:
				v = clip(-mx, mx, ref0+g.Int(-8, 8))
			case 2:
				v = g.Int(-mx, mx)
			default:
				v = clip(-mx, mx, g.Int(-60, 60))
			}
			if c.o.Stream && i >= 2 && g.Chance(3, 4) {
				v = clip(-mx, mx, g.Int(-200, 200))
			}
			SubexpRef(w, -mx, mx+1, prev[ref][i]>>(16-prec)-sub, v)
			f.GM[ref][i] = v<<(16-prec) + base
		}
		if t >= 2 {
			par(2)
			par(3)
			if t == 3 {
				par(4)
				par(5)
			} else {
				f.GM[ref][4] = -f.GM[ref][3]
				f.GM[ref][5] = f.GM[ref][2]
			}
		}
		if t >= 1 {
			par(0)
			par(1)
		}
	}
}

// GenGrain draws film grain parameters; w may be nil.
func (c *ctx) genGrain() Grain {
	g, s, w := c.g, c.s, c.w
	n := Grain{Apply: true}
	pts := func(most int) [][2]int {
		k := g.Sized(0, most)
		w.Put(4, k)
		var p [][2]int
		for i := 0; i < k; i++ {
			// strictly increasing values
			lo, hi := 0, 255-(k-1-i)
			if i > 0 {
				lo = p[i-1][0] + 1
			}
			v := [2]int{g.Int(lo, min(hi, lo+40)), int(g.Bits(8))}
			w.Put(8, v[0])
			w.Put(8, v[1])
			p = append(p, v)
		}
		return p
	}
	n.Y = pts(14)
	if !s.Mono {
		n.FromLuma = c.bit()
	}
	if !s.Mono && !n.FromLuma && !(s.SX && s.SY && len(n.Y) == 0) {
		n.Cb = pts(10)
		n.Cr = pts(10)
	}
	n.ScalingMinus8 = c.val(2)
	n.Lag = c.val(2)
	np := 2 * n.Lag * (n.Lag + 1)
	ar := func(k int) []int {
		var a []int
		for i := 0; i < k; i++ {
			a = append(a, c.val(8))
		}
		return a
	}
	nc := np
	if len(n.Y) > 0 {
		nc++
		n.ArY = ar(np)
	}
	if n.FromLuma || len(n.Cb) > 0 {
		n.ArCb = ar(nc)
	}
	if n.FromLuma || len(n.Cr) > 0 {
		n.ArCr = ar(nc)
	}
	n.ShiftMinus6 = c.val(2)
	n.ScaleShift = c.val(2)
	if len(n.Cb) > 0 {
		n.CbMult, n.CbLuma, n.CbOff = c.val(8), c.val(8), c.val(9)
	}
	if len(n.Cr) > 0 {
		n.CrMult, n.CrLuma, n.CrOff = c.val(8), c.val(8), c.val(9)
	}
	n.Overlap = c.bit()
	n.ClipToRestricted = c.bit()
	return n
}

func (c *ctx) film() {
	f, s := c.f, c.s
	if !s.Film || (!f.Show && !f.Showable) {
		return
	}
	if c.o.NoGrain || c.o.HiddenGrain && f.Show {
		c.w.Put(1, 0)
		return
	}
	if !c.rare(2, 3) {
		return
	}
	seed := c.val(16)
	update := true
	if f.Type == 1 {
		update = c.bit()
	}
	if !update {
		i := c.f.RefIdx[c.g.Int(0, 6)]
		c.w.Put(3, i)
		f.Grain = c.r[i].Grain
		f.Grain.Seed = seed
		return
	}
	f.Grain = c.genGrain()
	f.Grain.Seed = seed
}

// GenRefs draws the contents of the reference slots.
func GenRefs(g *kit.G, s *Seq) *Refs {
	r := &Refs{}
	same := g.Chance(1, 3)
	for i := range r {
		p := &r[i]
		p.Valid = 1
		p.ID = int(g.Bits(16))
		if s.IDs {
			p.ID = int(g.Bits(s.IDLen()))
		}
		p.Type = g.Pick(1, 0, 2, 3)
		p.Hint = int(g.Bits(s.HintBits))
		p.UpW, p.H = g.Sized(1, 300), g.Sized(1, 300)
		if same && i > 0 {
			p.UpW, p.H = r[0].UpW, r[0].H
		}
		p.W = p.UpW
		if g.Chance(1, 3) {
			d := g.Int(9, 16)
			p.W = (p.UpW*8 + d/2) / d
		}
		p.RW, p.RH = 1+int(g.Bits(16)), 1+int(g.Bits(16))
		p.MiCols, p.MiRows = 2*((p.W+7)/8), 2*((p.H+7)/8)
		p.Depth, p.SX, p.SY = s.Depth, s.SX, s.SY
		for j := 1; j < 8; j++ {
			p.Hints[j] = int(g.Bits(s.HintBits))
		}
		p.GM = DefaultGM()
		for j := 1; j < 8; j++ {
			if g.Chance(1, 2) {
				for k := range p.GM[j] {
					if k >= 2 {
						p.GM[j][k] += g.Int(-4096, 4096) * 2
					} else {
						p.GM[j][k] += g.Int(-256, 256) << 13
					}
				}
			}
		}
		for j := range p.RefDeltas {
			p.RefDeltas[j] = g.Int(-64, 63)
		}
		p.ModeDeltas = [2]int{g.Int(-64, 63), g.Int(-64, 63)}
		if g.Bool() {
			for a := range p.Feat {
				for b := range p.Feat[a] {
					if g.Chance(1, 6) {
						p.FeatOn[a][b] = 1
						if featMax[b] > 0 {
							p.Feat[a][b] = g.Int(0, featMax[b])
						}
					}
				}
			}
		}
		if s.Film && g.Chance(2, 3) {
			c := &ctx{g: g, w: &kit.W{}, s: s}
			p.Grain = c.genGrain()
			p.Grain.Seed = int(g.Bits(16))
		}
		p.Showable = g.Bool()
	}
	return r
}

// Update stores the frame in the slots that it refreshes.
func (r *Refs) Update(f *Frame, s *Seq) {
	for i := range r {
		r[i].Valid = f.Valid[i]
		if f.Refresh>>uint(i)&1 == 1 {
			r[i] = Slot{1, f.ID, f.Type, f.Hint, f.UpW, f.W, f.H, f.RW, f.RH, f.MiCols, f.MiRows, s.Depth, s.SX, s.SY, f.Hints, f.GM, f.RefDeltas, f.ModeDeltas, f.FeatOn, f.Feat, f.Grain, f.Showable, 0}
		}
	}
}

func (f *Frame) String() string {
	return fmt.Sprintf("type %d show %v %dx%d (coded %d) q %d seg %v lossless %v lf %v cdef %v lr %v tiles %dx%d", f.Type, f.Show, f.UpW, f.H, f.W, f.Q, f.Seg, f.CodedLossless, f.Level, f.CdefY, f.LrType, len(f.Tile.Cols)-1, len(f.Tile.Rows)-1)
}
