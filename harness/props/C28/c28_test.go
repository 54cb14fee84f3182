package vpc28

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC28(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		for _, h := range r.Dec.Headers {
			if h.LoopFilterLevel[0] > 0 || h.LoopFilterLevel[1] > 0 {
				return true
			}
		}
		return false
	}
	kit.Run(t, kit.Check{ID: "C28", Rule: "the header has a non-zero luma loop filter level; random tiles: a header has a non-zero luma filter level",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("any", 200, func(g *kit.G, c *verife2e.Case) {
				c.Set("rc_min_quantizer", g.Int(10, 60))
				c.Set("-enable-cdef", 0)
				c.Set("-enable-restoration", 0)
				c.Set("-loopfilter-control", 1)
				c.Set("-sharpness", g.Int(0, 7))
			}, rich, "bsize", "txsize"),
			verife2e.IntraSub("deltas", 150, func(g *kit.G, c *verife2e.Case) {
				c.Size(g, 200, 200)
				c.Set("rc_min_quantizer", g.Int(10, 60))
				c.Set("-enable-cdef", 0)
				c.Set("-enable-restoration", 0)
				c.Set("-deltaq-mode", g.Pick(1, 2))
				c.Set("-delta-lf-mode", 1)
				c.Content.Kind = 8
				c.Set("-sb-size", 64)
			}, rich),
			verife2e.IntraSub("small-blocks", 100, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Set("rc_min_quantizer", g.Int(10, 40))
				c.Set("-max-partition-size", g.Pick(8, 16))
				c.Set("-enable-cdef", 0)
			}, rich, "bsize", "txsize"),
			verifrand.Sub("random-tiles", 2000, func(g *kit.G, c *verifrand.Case) {
				c.MaxQ = g.Pick(20, 60, 120)
				c.Seq.Cdef = false
				c.Seq.LR = false
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Level[0] > 0 || h.Level[1] > 0 })),
			verifrand.Directed("directed", 2700, map[string]verifrand.Fav{
				"readSkip.Skip":            {Symbol: -2, Of8: 6},
				"readDeltaLf.delta_lf_abs": {Symbol: -2, Of8: 6},
				"txDepthSymbol":            {Symbol: -2, Of8: 6},
				"txfmSplitSymbol":          {Symbol: -2, Of8: 6},
				"partitionElement":         {Symbol: -2, Of8: 4},
				"readSegmentId.SegmentId":  {Symbol: -2, Of8: 6},
				"readIsInter.IsInter":      {Symbol: 1, Of8: 5},
			}, func(g *kit.G, c *verifrand.Case) {
				c.MaxQ = g.Pick(5, 20, 60, 120)
				c.Seq.Cdef = false
				c.Seq.LR = false
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Level[0] > 0 || h.Level[1] > 0 })),
			verifrand.Directed("directed-deltas", 600, map[string]verifrand.Fav{
				"readSkip.Skip":            {Symbol: 1, Of8: 6},
				"readDeltaLf.delta_lf_abs": {Symbol: -1, Of8: 4},
				"partitionElement":         {Symbol: 0, Of8: 5},
				"readSegmentId.SegmentId":  {Symbol: -2, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(60, 330), g.Int(30, 140)
				c.Frames = g.Int(1, 2)
				c.MaxQ = g.Pick(60, 120, 255)
				c.Opt.Deltas = true
				c.Seq.SB128 = g.Chance(1, 5)
				c.Seq.Cdef = false
				c.Seq.LR = false
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.DeltaLf })),
		}})
}
