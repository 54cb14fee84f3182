// Package verifrand makes AV1 streams out of random but valid headers and random
// tile data, and compares what the decoder under test makes of those that libaom
// accepts with what libaom makes of them.
package verifrand

import (
	"fmt"
	"os"

	"go.uber.org/zap"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	genbits "github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	genheader "github.com/m4tthewde/gov1/internal/verifgen/header"
	genlogger "github.com/m4tthewde/gov1/internal/verifgen/logger"
	genobu "github.com/m4tthewde/gov1/internal/verifgen/obu"
	gensequence "github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	genstate "github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	gentile "github.com/m4tthewde/gov1/internal/verifgen/tilegroup"
	genframe "github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	hdr "github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Case is a stream to be made.
type Case struct {
	Seq      *hdr.Seq
	W, H     int // size of most frames
	Frames   int
	MaxQ     int
	Opt      hdr.Opt
	Bytes    int                               // tile data per 64x64 samples
	SameSize bool                              // all frames have the size of the first
	Key      bool                              // key frames only
	Keys     int                               // a shown key frame every so many frames
	Hidden   int                               // a hidden key frame every so many frames
	Two      bool                              // unless SameSize: frames have one of two sizes
	Groups   bool                              // several tile groups
	Show     int                               // a shown existing frame every so many frames
	Skew     int                               // how many of the bytes come in runs, of 8
	Idc      int                               // of the operating point in use; frames then have layers
	Mangle   func(tus [][]aom.OBU) [][]aom.OBU // what the decoder under test gets instead
	Prepare  func(d *verifdec.Dec)             // of the decoder under test
	Dropped  int                               // OBUs outside of the operating point
	TUs      [][]aom.OBU
	Headers  []*hdr.Frame
	unit     []int // of each header
	Note     string
	Directed bool           // symbols are chosen, tile data is not random
	Plain    int            // of 8 places where symbols are read, how many follow the probabilities
	Favor    map[string]Fav // symbols to prefer, by place
	policy   *policy
}

// Fav is a symbol (-1: the last one, -2: any, all alike) and how often to choose it, of 8 times.
type Fav struct{ Symbol, Of8 int }

// Draw draws the sequence header and the sizes.
func Draw(g *kit.G) *Case {
	c := &Case{}
	s := hdr.GenSeq(g)
	s.Film = false
	s.IDs = false
	s.Ops = []hdr.Op{{ModelPresent: s.DecModel && g.Bool()}}
	s.WBits, s.HBits = 8, 8
	c.W, c.H = g.Int(8, 80), g.Int(8, 80)
	if g.Chance(1, 8) {
		c.W = g.Int(1, 150)
	}
	if g.Chance(1, 8) {
		c.H = g.Int(1, 150)
	}
	c.Frames = g.Int(1, 5)
	if g.Chance(1, 30) { // long and narrow
		c.W, c.H = g.Int(150, 1400), g.Int(1, 20)
		if g.Bool() {
			c.W, c.H = c.H, c.W
		}
		c.Frames = g.Int(1, 3)
	}
	c.SameSize = g.Chance(2, 3)
	if s.Still || s.Reduced {
		c.Frames = 1
	}
	c.Directed = g.Chance(3, 4)
	c.Plain = g.Pick(8, 7, 6, 4)
	if s.SX && !s.SY && !c.Directed && g.Chance(5, 6) { // random partitions are rarely valid with 4:2:2
		s.SX, s.Profile = false, 1
		if s.Depth == 12 {
			s.Profile = 2
		}
	}
	c.MaxQ = g.Pick(20, 60, 120, 255)
	c.Opt = hdr.Opt{Stream: true, Refresh: -1, NoExist: true}
	c.Bytes = 3000
	c.Show = 6
	c.Skew = g.Pick(0, 0, 1, 3)
	c.Seq = s
	return c
}

// Data makes tile data.
func (c *Case) Data(g *kit.G, n int) []byte {
	b := make([]byte, n)
	seed := g.Un(1 << 32)
	next := func() uint64 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	for i := 0; i < n; {
		if c.Skew > 0 && int(next()%64) < c.Skew {
			k := 1 + int(next()%12)
			v := byte(0)
			switch next() % 3 {
			case 0:
				v = 255
			case 1:
				v = byte(next())
			}
			for ; k > 0 && i < n; k-- {
				b[i] = v
				i++
			}
			continue
		}
		b[i] = byte(next())
		i++
	}
	if n > 0 && b[n-1] == 0 {
		b[n-1] = 1
	}
	return b
}

// Make writes the stream.
func (c *Case) Make(g *kit.G) {
	s := c.Seq
	s.MaxW, s.MaxH = c.W, c.H
	if !c.SameSize {
		s.MaxW, s.MaxH = max(c.W, 256), max(c.H, 256)
	}
	for s.MaxW > 1<<uint(s.WBits) {
		s.WBits++
	}
	for s.MaxH > 1<<uint(s.HBits) {
		s.HBits++
	}
	if c.W < 60 { // narrower: the reference has a minimum that the specification lacks
		s.SuperRes = false
	}
	if s.Still || s.Reduced {
		c.Frames = 1
	}
	r := &hdr.Refs{}
	var tu []aom.OBU
	open := func() { tu = []aom.OBU{{Type: 2, Ext: -1}} }
	open()
	if c.Idc != 0 {
		s.Ops[0].Idc = c.Idc
		for i := g.Sized(0, 3); i > 0; i-- {
			s.Ops = append(s.Ops, hdr.Op{Idc: 0x101, ModelPresent: s.DecModel && g.Bool()})
		}
	}
	tu = append(tu, aom.OBU{Type: 1, Ext: -1, Payload: s.Bytes()})
	d := newGen()
	var layers []int // the spatial layers of a unit
	for i := 0; i < 4; i++ {
		if c.Idc>>uint(8+i)&1 == 1 {
			layers = append(layers, i)
		}
	}
	layer, tid := 0, 0
	in := func(t, s int) bool { return c.Idc>>uint(t)&1 == 1 && c.Idc>>uint(8+s)&1 == 1 }
	ext := -1
	draw := func() { // draws the layer of the next frame
		if c.Idc == 0 {
			return
		}
		if layer == 0 {
			for tid = g.Int(0, 7); c.Idc>>uint(tid)&1 == 0; tid = (tid + 1) % 8 {
			}
		}
		ext = tid<<5 | layers[layer]<<3
		c.Opt.TemporalID, c.Opt.SpatialID = tid, layers[layer]
		for g.Chance(1, 3) { // an OBU that is not in the operating point
			if t, s := g.Int(0, 7), g.Int(0, 3); !in(t, s) {
				tu = append(tu, aom.OBU{Type: g.Pick(3, 4, 6, 7, 5, 15), Ext: t<<5 | s<<3, Payload: g.Bytes(g.Int(1, 40))})
				c.Dropped++
			}
		}
	}
	shown := func() {
		if layer++; layer < len(layers) {
			return
		}
		layer = 0
		c.TUs = append(c.TUs, tu)
		open()
	}
	d.obu(tu[1])
	g.Descf("seq profile %d %dbit mono %v ss %v%v sb128 %v superres %v maxq %d skew %d %s;", s.Profile, s.Depth, s.Mono, s.SX, s.SY, s.SB128, s.SuperRes, c.MaxQ, c.Skew, c.Note)
	if c.Directed {
		c.policy = newPolicy(c, g.Un(1<<32))
		g.Descf("directed, plain %d;", c.Plain)
	}
	for k := 0; k < c.Frames; k++ {
		draw()
		o := c.Opt
		o.MaxQ = c.MaxQ
		o.FewSegments = c.Directed
		o.W, o.H = c.W, c.H
		if !c.SameSize {
			o.W, o.H = c.W, c.H
			if c.Two {
				if g.Bool() {
					o.W, o.H = max(c.W-g.Pick(0, 8), 1), max(c.H-8, 1)
				}
			} else {
				o.W, o.H = min(c.W+g.Int(-c.W/4, c.W/3), s.MaxW), min(c.H+g.Int(-c.H/4, c.H/3), s.MaxH)
			}
		}
		o.Type = g.Pick(1, 1, 1, 1, 1, 1, 1, 2, 3, 0)
		if c.Opt.Type > 0 {
			o.Type = c.Opt.Type
		}
		if k > 0 && c.Hidden > 0 && g.Chance(1, c.Hidden) {
			o.Type, o.Hide = 0, true
		}
		if k == 0 || c.Key || c.Keys > 0 && g.Chance(1, c.Keys) {
			o.Type = 0
			o.MustShow = true
		}
		if k == c.Frames-1 {
			o.MustShow = true
		}
		if g.Chance(1, 3) {
			o.Refresh = g.Pick(0, 1, 2, 4, 8, 16, 32, 64, 128)
		}
		// showing an existing frame
		if k > 0 && !c.Key && g.Chance(1, c.Show) {
			i := g.Int(0, 7)
			for j := 0; c.Hidden > 0 && j < 8 && !(r[i].Showable && r[i].Type == 0); j++ {
				i = (i + 1) % 8
			}
			if r[i].Showable {
				w := &kit.W{}
				w.Bool(true)
				w.Put(3, i)
				if s.DecModel && !s.EqualPic {
					w.Put(s.PresLen, int(g.Bits(s.PresLen)))
				}
				if s.IDs {
					w.Put(s.IDLen(), r[i].ID)
				}
				hdr.Trailing(w)
				tu = append(tu, aom.OBU{Type: 3, Ext: ext, Payload: w.B})
				if _, ok := d.obu(tu[len(tu)-1]); !ok {
					return
				}
				shown()
				g.Descf("show %d;", i)
				p := r[i]
				if p.Type == 0 {
					c.Opt.PrevID = p.ID
					for j := range r {
						r[j] = p
						r[j].Showable = false
						r[j].Hints = [8]int{}
						r[j].Hints = p.Hints
					}
				} else {
					for j := range r { // a frame may be shown once
						if r[j].Key == p.Key {
							r[j].Showable = false
						}
					}
				}
				continue
			}
		}
		w := &kit.W{}
		f := hdr.GenFrame(g, w, s, r, o)
		if c.Directed {
			if k > 0 && g.Chance(1, 3) {
				c.policy.again(c)
			}
			c.policy.d, d.seq, d.copies = d, s, f.IntraBC
			c.policy.segs = 1
			for i := range f.FeatOn {
				for _, on := range f.FeatOn[i] {
					if on == 1 {
						c.policy.segs = i + 1
					}
				}
			}
		}
		c.Headers = append(c.Headers, f)
		c.unit = append(c.unit, len(c.TUs))
		g.Descf("%s refresh %x primary %d;", f, f.Refresh, f.Primary)
		if !c.tiles(g, w, f, &tu, d, ext) {
			return
		}
		c.Opt.PrevID = f.ID
		r.Update(f, s)
		for j := range r {
			if f.Refresh>>uint(j)&1 == 1 {
				r[j].Key = k + 1
			}
		}
		if f.Show {
			shown()
		}
	}
}

func pad(w *kit.W) {
	for w.N%8 != 0 {
		w.Put(1, 0)
	}
}

// tiles appends the frame's OBUs.
func (c *Case) tiles(g *kit.G, w *kit.W, f *hdr.Frame, tu *[]aom.OBU, d *gen, ext int) bool {
	t := &f.Tile
	n := t.N()
	var data [][]byte
	cols := len(t.Cols) - 1
	for i := 0; i < n; i++ {
		x, y := i%cols, i/cols
		area := (t.Cols[x+1] - t.Cols[x]) * (t.Rows[y+1] - t.Rows[y])
		if c.Directed {
			data = append(data, make([]byte, 16))
			continue
		}
		data = append(data, c.Data(g, area*c.Bytes/256+200))
	}
	if c.Directed {
		c.policy.limit = 150000
		if n > 1 {
			c.policy.limit = 50000
			if t.SizeBytes == 1 {
				c.policy.limit = 250
			}
		}
		symbol.Choose, symbol.Tiles = c.policy.choose, nil
		defer func() { symbol.Choose = nil }()
	}
	bits := t.ColsLog2 + t.RowsLog2
	group := func(w *kit.W, from, to, sizeBytes int) { // tile_group_obu
		if n > 1 {
			all := from == 0 && to == n-1
			w.Bool(!all)
			if !all {
				w.Put(bits, from)
				w.Put(bits, to)
			}
		}
		pad(w)
		for i := from; i <= to; i++ {
			if i < to {
				v := len(data[i]) - 1
				for k := 0; k < sizeBytes; k++ {
					w.Put(8, v>>uint(8*k)&255)
				}
			}
			w.B = append(w.B, data[i]...)
			w.N += 8 * len(data[i])
		}
	}
	// first with all of the random data, to see where the tiles end
	v := &kit.W{N: w.N, B: append([]byte{}, w.B...)}
	pad(v)
	group(v, 0, n-1, t.SizeBytes)
	left, ok := d.obu(aom.OBU{Type: 6, Ext: ext, Payload: v.B})
	if !ok || len(left) != n {
		return false
	}
	for i, m := range left {
		if c.Directed {
			b := symbol.Tiles[i]
			for g.Chance(1, 6) {
				b = append(b, 0)
			}
			if len(b) > 1<<uint(8*t.SizeBytes) && i < n-1 {
				return false
			}
			data[i] = b
			continue
		}
		end := 8*len(data[i]) - m - 15 // where the trailing bit belongs
		if m < 0 || end < 0 {
			return false
		}
		b := data[i][:end/8+1]
		k := uint(7 - end%8)
		b[end/8] = b[end/8]>>(k+1)<<(k+1) | 1<<k
		for g.Chance(1, 6) && len(b) < 1<<uint(8*max(t.SizeBytes, 1)) {
			b = append(b, 0)
		}
		if len(b) > 1<<uint(8*t.SizeBytes) && i < n-1 {
			return false
		}
		data[i] = b
	}
	if n > 1 && c.Groups {
		hdr.Trailing(w)
		*tu = append(*tu, aom.OBU{Type: 3, Ext: ext, Payload: w.B})
		for i := 0; i < n; {
			k := i + g.Int(0, n-1-i)
			v := &kit.W{}
			group(v, i, k, t.SizeBytes)
			*tu = append(*tu, aom.OBU{Type: 4, Ext: ext, Payload: v.B})
			i = k + 1
		}
		return true
	}
	pad(w)
	group(w, 0, n-1, t.SizeBytes)
	*tu = append(*tu, aom.OBU{Type: 6, Ext: ext, Payload: w.B})
	return true
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// gen is a copy of the decoder: it finds out where random tile data ends.
type gen struct {
	st *genstate.State
	sh gensequence.SequenceHeader
	uh genframe.UncompressedHeader

	seq    *hdr.Seq
	copies bool // the frame may have copied blocks
}

func newGen() *gen {
	genlogger.Logger = zap.NewNop()
	return &gen{st: &genstate.State{}}
}

// obu decodes an OBU and returns what was left of each tile, in bits (see SymbolMaxBits), and whether that worked.
func (d *gen) obu(o aom.OBU) (left []int, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("DBG") != "" {
				fmt.Println("GEN", e)
			}
			ok = false
		}
	}()
	gentile.TileLeft = nil
	gentile.Overflow = false
	data := o.Bytes(true)
	b := genbits.NewBitStream(append(append([]byte{}, data...), 0, 0, 0, 0))
	r := genobu.NewObu(len(data), d.st, &b, d.sh, d.uh)
	switch r.Header.Type {
	case genheader.OBU_SEQUENCE_HEADER:
		d.sh = r.SequenceHeader
	case genheader.OBU_FRAME_HEADER, genheader.OBU_FRAME:
		d.uh = r.UncompressedHeader
	}
	return gentile.TileLeft, !gentile.Overflow
}

// Run makes the stream, has both decode it, and compares.
func (c *Case) Run(g *kit.G) *verife2e.Result {
	r := c.Reference(g)
	if c.Mangle != nil {
		r.OBUs = c.Mangle(c.TUs)
	}
	r.Decode(g)
	verife2e.Compare(g, r.Dec.Pics, r.Pics)
	return r
}

// Reference makes the stream and has the reference decode it.
func (c *Case) Reference(g *kit.G) *verife2e.Result {
	c.Make(g)
	if len(c.TUs) == 0 {
		g.Class(c.kind() + "no frame")
		g.Discard()
	}
	g.Class(c.kind() + "made")
	t := aom.Get()
	if t == nil {
		panic("no aomtool")
	}
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(aom.ToolError); ok {
				g.Class("the reference crashed: " + x.Msg)
				g.Discard()
			}
			panic(e)
		}
	}()
	var tus [][]byte
	for _, u := range c.TUs {
		var b []byte
		for _, o := range u {
			b = append(b, o.Bytes(true)...)
		}
		tus = append(tus, b)
	}
	ref, err := t.Decode(tus, nil)
	if err != nil {
		if os.Getenv("DBG") != "" {
			fmt.Println("REFUSED", err)
		}
		k := 0
		fmt.Sscanf(err.Error(), "unit %d", &k)
		if k == 0 || len(ref) == 0 {
			g.Class(c.kind() + "refused by the reference decoder")
			g.Discard()
		}
		g.Class(c.kind() + "refused by the reference decoder from some frame on")
		c.TUs, tus = c.TUs[:k], tus[:k]
	}
	for len(c.Headers) > 0 && c.unit[len(c.Headers)-1] >= len(tus) {
		c.Headers = c.Headers[:len(c.Headers)-1]
	}
	return &verife2e.Result{TUs: tus, OBUs: c.TUs, Pics: ref, Prepare: c.Prepare}
}

// Starts returns the temporal units that begin with a shown key frame.
func (c *Case) Starts() []int {
	var at []int
	for i, h := range c.Headers {
		if h.Type == 0 && h.Show && (i == 0 || c.unit[i-1] != c.unit[i]) && c.unit[i] < len(c.TUs) {
			if u := c.TUs[c.unit[i]]; len(u) < 2 || u[1].Type != 3 || len(u) > 2 {
				at = append(at, c.unit[i])
			}
		}
	}
	return at
}

// Sub is a search over random-tile streams.
func Sub(name string, quick int, focus func(g *kit.G, c *Case), nontrivial func(c *Case, r *verife2e.Result) bool, labels ...string) kit.Sub {
	return kit.Sub{Name: name, Quick: quick, Thorough: 60 * quick, Case: func(g *kit.G) {
		c := Draw(g)
		if focus != nil {
			focus(g, c)
		}
		r := c.Run(g)
		if nontrivial(c, r) {
			g.NonTrivial()
		}
		g.Class(c.kind() + "decoded")
		if c.policy != nil && c.policy.copied > 0 {
			g.Class("copied blocks")
		}
		r.Stats.Labels(g, labels...)
	}}
}

// Headers is a search over what becomes of the frame headers in whole streams, where all that a header depends on was kept by the
// frames before it: each is compared with the one written.
func Headers(name string, quick int, focus func(g *kit.G, c *Case), check func(g *kit.G, f *hdr.Frame, o *hdr.Got, c *Case), nontrivial func(f *hdr.Frame) bool) kit.Sub {
	return kit.Sub{Name: name, Quick: quick, Thorough: 60 * quick, Case: func(g *kit.G) {
		c := Draw(g)
		c.Seq.Still, c.Seq.Reduced = false, false
		c.Directed = g.Bool()
		c.W, c.H = g.Int(8, 40), g.Int(8, 40)
		c.SameSize = g.Chance(1, 3)
		c.Two = g.Bool()
		c.Frames = g.Int(3, 9)
		c.Show = g.Pick(2, 3, 6)
		c.Hidden = g.Pick(0, 3, 5)
		c.Opt.Segments = g.Chance(1, 4)
		c.Opt.NoGrain = true
		if g.Chance(1, 3) {
			c.Seq.IDs, c.Seq.DeltaLen, c.Seq.AddLen = true, g.Int(4, 8), g.Int(0, 3)
		}
		if focus != nil {
			focus(g, c)
		}
		r := c.Reference(g)
		d := verifdec.New()
		n := 0
		d.After = func(d *verifdec.Dec) {
			if n == len(d.Headers) {
				return
			}
			n = len(d.Headers)
			u := d.Headers[n-1]
			if u.ShowExistingFrame {
				return
			}
			i := -1
			for _, h := range d.Headers {
				if !h.ShowExistingFrame {
					i++
				}
			}
			if i >= len(c.Headers) {
				g.Failf("frame header %d: only %d were written", i, len(c.Headers))
			}
			f := c.Headers[i]
			check(g, f, &hdr.Got{U: u, St: d.State, SH: d.SH, Frame: true}, c)
			if i > 0 && nontrivial(f) {
				g.NonTrivial()
			}
		}
		g.Guard("decode", func() { d.Units(r.OBUs) })
		g.Class(c.kind() + "decoded")
	}}
}

// Any takes every stream as non-trivial of which a frame was decoded.
func Any(c *Case, r *verife2e.Result) bool { return len(r.Pics) > 0 }

// Has takes the streams with a frame header for which f holds.
func Has(f func(h *hdr.Frame) bool) func(c *Case, r *verife2e.Result) bool {
	return func(c *Case, r *verife2e.Result) bool {
		for _, h := range c.Headers {
			if f(h) {
				return true
			}
		}
		return false
	}
}

func (c *Case) kind() string {
	if c.Directed {
		return fmt.Sprintf("directed %d: ", c.Plain)
	}
	return "random: "
}

// Directed is a search over streams whose symbols are chosen with the given preferences.
func Directed(name string, quick int, favor map[string]Fav, focus func(g *kit.G, c *Case), nontrivial func(c *Case, r *verife2e.Result) bool, labels ...string) kit.Sub {
	for n := range favor {
		known := false
		for _, s := range symbol.Sites {
			known = known || s == n
		}
		if !known {
			panic("no place " + n)
		}
	}
	return Sub(name, quick, func(g *kit.G, c *Case) {
		c.Directed = true
		if g.Chance(1, 8) { // many superblocks
			c.W, c.H = g.Int(65, 280), g.Int(30, 200)
			c.Frames = g.Int(1, 2)
		}
		c.Favor = map[string]Fav{}
		for _, n := range symbol.Sites { // each stream has two thirds of the preferences
			if f, ok := favor[n]; ok && c.Favor[n].Of8 == 0 && g.Chance(2, 3) {
				c.Favor[n] = f
			}
		}
		if focus != nil {
			focus(g, c)
		}
	}, nontrivial, labels...)
}

// Tiles turns the case into one of few frames with many tiles.
func (c *Case) Tiles(g *kit.G) {
	c.Directed = true
	c.W, c.H, c.Frames = g.Int(65, 330), g.Int(30, 260), g.Int(1, 2)
	c.Seq.SB128 = g.Chance(1, 8)
	c.Groups = true
	c.Favor = map[string]Fav{"partitionElement": {Symbol: 0, Of8: 6}, "readSkip.Skip": {Symbol: 1, Of8: 6}}
}

// Copies turns the case into one of frames with blocks that are copied from the same frame.
func (c *Case) Copies(g *kit.G) {
	c.Directed, c.Key, c.SameSize = true, g.Chance(5, 6), true
	if c.Seq.SB128 = g.Chance(1, 5); c.Seq.SB128 || g.Bool() {
		c.W, c.H = g.Int(129, 420), g.Int(130, 270)
	} else if g.Bool() {
		c.W, c.H = g.Int(1, 128), g.Int(257, 450)
	} else {
		c.W, c.H = g.Int(260, 450), g.Int(1, 120)
	}
	c.Frames = g.Pick(1, 1, 2)
	c.Seq.SuperRes = false
	c.Seq.ForceSCT = 1
	c.Opt.Copy = true
	c.Favor = map[string]Fav{
		"intraFrameModeInfo.useIntrabc": {Symbol: 1, Of8: g.Int(3, 7)},
		"partitionElement":              {Symbol: g.Pick(0, 0, -2, 3), Of8: g.Int(2, 5)},
		"readSkip.Skip":                 {Symbol: 1, Of8: g.Int(1, 6)},
	}
}

// Model is a copy of the decoder that reads streams.
type Model struct{ d *gen }

func NewModel() Model { return Model{newGen()} }

// OBU decodes an OBU.
func (m Model) OBU(o aom.OBU) bool { _, ok := m.d.obu(o); return ok }

// State is the state of the model.
func (m Model) State() interface{} { return m.d.st }
