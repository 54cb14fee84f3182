// Package verife2e generates AV1 streams with libaom from synthetic pictures and
// random encoder settings, and compares what the decoder under test makes of
// them with what libaom makes of them, sample for sample.
package verife2e

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Case is a stream to be made.
type Case struct {
	W, H, Depth  int
	Mono, SX, SY bool
	N            int // pictures
	Content      aom.Content
	Opts         []aom.Opt
	Flags        []int
	set          map[string]bool
	keys         bool
}

// Set adds an option unless it is already set.
func (c *Case) Set(key string, v interface{}) {
	if c.set == nil {
		c.set = map[string]bool{}
	}
	if c.set[key] {
		return
	}
	c.set[key] = true
	c.Opts = append(c.Opts, aom.Opt{Key: key, Val: fmt.Sprint(v)})
}

func (c *Case) String() string {
	var o []string
	for _, x := range c.Opts {
		o = append(o, x.Key+"="+x.Val)
	}
	if c.Flags != nil {
		o = append(o, fmt.Sprintf("flags=%x", c.Flags))
	}
	f := "444"
	if c.SX && c.SY {
		f = "420"
	} else if c.SX {
		f = "422"
	}
	if c.Mono {
		f = "mono"
	}
	return fmt.Sprintf("%dx%d %s %dbit n=%d content=%+v %s", c.W, c.H, f, c.Depth, c.N, c.Content, strings.Join(o, " "))
}

// Format draws the chroma format and bit depth.
func (c *Case) Format(g *kit.G) {
	c.Depth = g.Pick(8, 8, 8, 10, 12)
	c.SX, c.SY = true, true
	switch g.Int(0, 6) {
	case 1:
		c.SX, c.SY = false, false
	case 2:
		c.SY = false
	case 3:
		c.Mono = true
	}
}

// Size draws the picture size, at most w x h.
func (c *Case) Size(g *kit.G, w, h int) {
	c.W, c.H = g.Int(8, w), g.Int(8, h)
	if g.Chance(1, 12) {
		c.W = g.Int(1, 16)
	}
	if g.Chance(1, 12) {
		c.H = g.Int(1, 16)
	}
}

// Picture draws the content.
func (c *Case) Picture(g *kit.G) {
	c.Content = aom.Content{Kind: g.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 2), Seed: g.Un(1 << 32), Scale: float64(g.Int(1, 30)) / 10}
	if g.Chance(1, 3) {
		c.Content.Noise = g.Int(1, 30)
	}
}

// Q draws the quantizer range.
func (c *Case) Q(g *kit.G) {
	lo := g.Sized(0, 63)
	hi := min(63, lo+g.Int(0, 8))
	c.Set("rc_min_quantizer", lo)
	c.Set("rc_max_quantizer", hi)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Lossless asks for lossless coding.
func (c *Case) Lossless() {
	c.Set("-lossless", 1)
	c.Set("-aq-mode", 0)
	c.Set("-deltaq-mode", 0)
	c.Set("-enable-chroma-deltaq", 0)
}

// Low draws a low quantizer, so that many coefficients survive.
func (c *Case) Low(g *kit.G) {
	lo := g.Int(0, 12)
	c.Set("rc_min_quantizer", lo)
	c.Set("rc_max_quantizer", lo+g.Int(0, 6))
}

// Busy draws content with much detail.
func (c *Case) Busy(g *kit.G) {
	c.Content.Kind = g.Pick(2, 2, 4, 5, 6, 7, 8, 8)
	c.Content.Scale = float64(g.Int(5, 40)) / 10
	c.Content.Noise = g.Int(0, 40)
}

// IntraSub is a sub-check over key frames: focus may change the case and set options.
func IntraSub(name string, quick int, focus func(g *kit.G, c *Case), nontrivial func(r *Result) bool, labels ...string) kit.Sub {
	return kit.Sub{Name: name, Quick: quick, Case: func(g *kit.G) {
		c := &Case{N: 1}
		c.Format(g)
		c.Size(g, 140, 140)
		c.Picture(g)
		if focus != nil {
			focus(g, c)
		}
		c.Intra(g)
		r := c.Run(g)
		if nontrivial(r) {
			g.NonTrivial()
		}
		r.Stats.Labels(g, labels...)
	}}
}

// Intra draws settings for key frames; earlier settings of the case win.
func (c *Case) Intra(g *kit.G) {
	c.Set("g_lag_in_frames", 0)
	c.Set("-enable-intrabc", 0)
	c.Set("-cpu-used", g.Pick(1, 1, 2, 3, 5))
	if !c.set["rc_min_quantizer"] && g.Chance(2, 3) {
		c.Q(g)
	}
	if g.Chance(1, 14) {
		c.Lossless()
	}
	off := func(key string, n, d int) {
		if g.Chance(n, d) {
			c.Set(key, 0)
		}
	}
	on := func(key string, n, d int, vals ...int) {
		if g.Chance(n, d) {
			c.Set(key, g.Pick(vals...))
		}
	}
	off("-enable-cdef", 1, 4)
	off("-enable-restoration", 1, 4)
	off("-enable-palette", 1, 4)
	off("-enable-cfl-intra", 1, 8)
	off("-enable-filter-intra", 1, 8)
	off("-enable-smooth-intra", 1, 8)
	off("-enable-paeth-intra", 1, 8)
	off("-enable-angle-delta", 1, 8)
	off("-enable-intra-edge-filter", 1, 6)
	off("-enable-rect-partitions", 1, 8)
	off("-enable-ab-partitions", 1, 8)
	off("-enable-1to4-partitions", 1, 8)
	off("-enable-tx64", 1, 8)
	off("-enable-flip-idtx", 1, 8)
	off("-enable-rect-tx", 1, 8)
	on("-min-partition-size", 1, 12, 8, 16)
	on("-max-partition-size", 1, 8, 8, 16, 32, 64)
	on("-sb-size", 1, 2, 64, 128)
	on("-tile-columns", 1, 8, 1, 2)
	on("-tile-rows", 1, 8, 1, 2)
	if g.Chance(1, 6) {
		lo := g.Int(0, 15)
		c.Set("-enable-qm", 1)
		c.Set("-qm-min", lo)
		c.Set("-qm-max", min(15, lo+g.Int(0, 5)))
	}
	on("-deltaq-mode", 1, 8, 1, 2)
	on("-delta-lf-mode", 1, 8, 1)
	on("-aq-mode", 1, 8, 1, 2, 3)
	on("-enable-chroma-deltaq", 1, 8, 1)
	on("-reduced-tx-type-set", 1, 10, 1)
	on("-use-intra-dct-only", 1, 14, 1)
	on("-use-intra-default-tx-only", 1, 14, 1)
	on("-cdf-update-mode", 1, 8, 0, 1, 2)
	on("-loopfilter-control", 1, 8, 0)
	on("-sharpness", 1, 8, 1, 4, 7)
	if c.W >= 32 && g.Chance(1, 10) { // narrower: the reference has a minimum that the specification lacks
		c.Set("rc_superres_mode", 1)
		c.Set("rc_superres_denominator", g.Int(9, 16))
		c.Set("rc_superres_kf_denominator", g.Int(9, 16))
	}
	on("-tune-content", 1, 6, 1)
	on("-disable-trellis-quant", 1, 6, 0, 1)
	on("-enable-tpl-model", 1, 4, 0)
}

// Stats are counts over the decoded frames, by feature.
type Stats map[string]int

// Result is what came of a case.
type Result struct {
	TUs   [][]byte
	OBUs  [][]aom.OBU
	Pics  []*aom.Pic // reference
	Dec   *verifdec.Dec
	Stats Stats

	Prepare func(*verifdec.Dec) // before decoding
}

// Encode makes the stream and the reference pictures; a case that libaom refuses is discarded.
func (c *Case) Encode(g *kit.G) *Result {
	g.Descf("%s", c)
	t := aom.Get()
	if t == nil {
		panic("no aomtool")
	}
	n := c.N
	if n == 0 {
		n = 1
	}
	pics := c.Content.Render(c.W, c.H, c.Depth, c.Mono, c.SX, c.SY, n)
	defer func() { // the encoder has crashes of its own
		if e := recover(); e != nil {
			if x, ok := e.(aom.ToolError); ok {
				if os.Getenv("DBG") != "" {
					fmt.Println("CRASH", c)
				}
				g.Class("the reference crashed: " + x.Msg)
				g.Discard()
			}
			panic(e)
		}
	}()
	tus, err := t.Encode(pics, c.Flags, c.Opts)
	if err != nil {
		if os.Getenv("DBG") != "" {
			fmt.Println("REFUSED", err, c)
		}
		g.Class("refused by the encoder: " + err.Error())
		g.Discard()
	}
	ref, err := t.Decode(tus, nil)
	if err != nil {
		g.Class("refused by the reference decoder")
		g.Discard()
	}
	return &Result{TUs: tus, OBUs: aom.FromLowOverhead(tus), Pics: ref}
}

// Decode runs the decoder under test.
func (r *Result) Decode(g *kit.G) {
	defer r.dump()
	r.Dec = verifdec.New()
	r.Stats = Stats{}
	r.Dec.After = func(d *verifdec.Dec) {
		r.Stats.collect(d)
		if v := os.Getenv("DBGPOS"); v != "" { // "x,y": describe the block there
			var x, y int
			fmt.Sscanf(v, "%d,%d", &x, &y)
			describe(d, x, y)
		}
	}
	if r.Prepare != nil {
		r.Prepare(r.Dec)
	}
	g.Guard("decode", func() { r.Dec.Units(r.OBUs) })
}

var last *Result

// dump writes the stream of a failure into the directory DUMPDIR, for debugging.
func (r *Result) dump() {
	last = r
	dir := os.Getenv("DUMPDIR")
	if dir == "" || r == nil {
		return
	}
	if e := recover(); e != nil {
		var b []byte
		for i, tu := range r.OBUs {
			for _, o := range tu {
				d := o.Bytes(true)
				b = binary.LittleEndian.AppendUint32(b, uint32(i))
				b = binary.LittleEndian.AppendUint32(b, uint32(len(d)))
				b = append(b, d...)
			}
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%08d.bin", len(b))), b, 0o644)
		panic(e)
	}
}

// Compare fails unless the pictures are the same.
func Compare(g *kit.G, got, want []*aom.Pic) {
	defer last.dump()
	for i, a := range got {
		if i >= len(want) {
			break
		}
		b := want[i]
		if a.W != b.W || a.H != b.H {
			g.Failf("picture %d: %dx%d, want %dx%d", i, a.W, a.H, b.W, b.H)
		}
		if a.Unit != b.Unit {
			g.Failf("picture %d: output in temporal unit %d, want %d", i, a.Unit, b.Unit)
		}
		for p := range b.Planes {
			pw, ph := aom.PlaneSize(b.W, b.H, p, b.SubX, b.SubY)
			if b.Mono && p > 0 {
				continue
			}
			if len(a.Planes[p]) < ph || len(a.Planes[p][0]) < pw {
				g.Failf("picture %d plane %d: too small, want %dx%d", i, p, pw, ph)
			}
			n, first := 0, ""
			for y, row := range b.Planes[p] {
				for x, v := range row {
					if a.Planes[p][y][x] != v {
						if n == 0 {
							first = fmt.Sprintf("(%d,%d) is %d, want %d", x, y, a.Planes[p][y][x], v)
						}
						if os.Getenv("DBGDIFF") != "" {
							fmt.Printf("D %d,%d %d/%d\n", x, y, a.Planes[p][y][x], v)
						}
						n++
					}
				}
			}
			if n > 0 {
				g.Failf("picture %d plane %d: %d of %d samples differ, first %s", i, p, n, pw*ph, first)
			}
		}
	}
	if len(got) != len(want) {
		g.Failf("%d pictures output, want %d", len(got), len(want))
	}
}

// Run encodes, decodes with both, compares.
func (c *Case) Run(g *kit.G) *Result {
	r := c.Encode(g)
	r.Decode(g)
	Compare(g, r.Dec.Pics, r.Pics)
	return r
}

// Stats are read by reflection: they only label cases, and must not tie the check to how the decoder is written.
func field(v interface{}, name string) interface{} {
	r := reflect.ValueOf(v)
	for r.Kind() == reflect.Ptr {
		if r.IsNil() {
			return nil
		}
		r = r.Elem()
	}
	f := r.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	return f.Interface()
}

func (s Stats) collect(d *verifdec.Dec) {
	st := field(d.State, "Blocks")
	if st == nil {
		return
	}
	count := func(name, label string, skip int) {
		m, _ := field(st, name).([][]int)
		for _, row := range m {
			for _, v := range row {
				if v != skip {
					s[fmt.Sprintf("%s%d", label, v)]++
				}
			}
		}
	}
	count("YModes", "ymode", -1)
	count("UVModes", "uvmode", -1)
	count("Skips", "skip", -1)
	count("SegmentIds", "seg", -1)
	count("TxSizes", "txsize", -1)
	count("TxTypes", "txtype", -1)
	count("IsInters", "inter", -1)
	count("CompGroupIdxs", "compgroup", -1)
	count("SkipModes", "skipmode", -1)
	if m, ok := field(st, "PaletteSizes").([2][][]int); ok {
		for i, a := range m {
			for _, row := range a {
				for _, v := range row {
					if v > 0 {
						s[fmt.Sprintf("palette%d", i)]++
					}
				}
			}
		}
	}
	if m, ok := field(st, "LrType").([3][][]int); ok {
		for _, a := range m {
			for _, row := range a {
				for _, v := range row {
					s[fmt.Sprintf("lr%d", v)]++
				}
			}
		}
	}
	if m, ok := field(d.State, "RefFrames").([][][2]int); ok {
		for _, row := range m {
			for _, v := range row {
				if v[1] > 0 {
					s[fmt.Sprintf("refs%d+%d", v[0], v[1])]++
					s["compound"]++
				} else if v[0] > 0 {
					s[fmt.Sprintf("ref%d", v[0])]++
					if v[1] == 0 {
						s["interintra"]++
					}
				}
			}
		}
	}
	if m, ok := field(st, "InterpFilters").([][][2]int); ok {
		for _, row := range m {
			for _, v := range row {
				s[fmt.Sprintf("filter%d/%d", v[0], v[1])]++
			}
		}
	}
	if m, ok := field(d.State, "GmType").([8]int); ok {
		for _, v := range m[1:] {
			s[fmt.Sprintf("gm%d", v)]++
		}
	}
	if v, ok := field(d.UH, "FrameType").(int); ok {
		s[fmt.Sprintf("frametype%d", v)]++
	}
	for _, n := range []string{"ShowExistingFrame", "UseRefFrameMvs", "UseSuperRes", "AllowIntraBc", "ErrorResilientMode", "ReferenceSelect", "AllowWarpedMotion", "ShowableFrame", "DisableCdfUpdate"} {
		if v, ok := field(d.UH, n).(bool); ok && v {
			s["h:"+n]++
		}
	}
	if m, ok := field(d.State, "MiSizes").([][]int); ok {
		for _, row := range m {
			for _, v := range row {
				s[fmt.Sprintf("bsize%d", v)]++
			}
		}
	}
}

// Distinct counts the labels with the prefix.
func (s Stats) Distinct(prefix string) int {
	n := 0
	for k, v := range s {
		if v > 0 && strings.HasPrefix(k, prefix) {
			n++
		}
	}
	return n
}

// Labels adds a class for every label with one of the prefixes.
func (s Stats) Labels(g *kit.G, prefixes ...string) {
	for k, v := range s {
		for _, p := range prefixes {
			if v > 0 && strings.HasPrefix(k, p) {
				g.Class(k)
			}
		}
	}
}

func describe(d *verifdec.Dec, x, y int) {
	fmt.Printf("unit %d:", d.Unit)
	for _, v := range []interface{}{d.State, field(d.State, "Blocks")} {
		r := reflect.Indirect(reflect.ValueOf(v))
		if r.Kind() != reflect.Struct {
			continue
		}
		for i := 0; i < r.NumField(); i++ {
			f := r.Field(i)
			if n := r.Type().Field(i).Name; strings.Contains(n, "Cdf") || strings.Contains(n, "Palette") {
				continue
			}
			if f.Kind() == reflect.Slice && f.Len() > y/4 && f.Index(y/4).Kind() == reflect.Slice && f.Index(y/4).Len() > x/4 {
				fmt.Printf(" %s %v", r.Type().Field(i).Name, f.Index(y/4).Index(x/4))
			}
		}
	}
	for _, n := range []string{"LrType", "LrWiener", "LrSgrSet", "LrSgrXqd"} {
		fmt.Printf(" %s %v", n, field(field(d.State, "Blocks"), n))
	}
	fmt.Println(" gm", field(d.UH, "GmParams"), field(d.State, "GmType"))
}
