package vpc29

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC29(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		for _, h := range r.Dec.Headers {
			for _, v := range [][]int{h.CdefYPriStrength, h.CdefYSecStrength, h.CdefUVPriStrength, h.CdefUVSecStrength} {
				for _, x := range v {
					if x != 0 {
						return true
					}
				}
			}
		}
		return false
	}
	kit.Run(t, kit.Check{ID: "C29", Rule: "the header has a non-zero CDEF strength; random tiles: a frame with CDEF parameters",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("any", 250, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(5, 7, 8, 3, 2)
				c.Content.Noise = g.Int(0, 10)
				c.Set("rc_min_quantizer", g.Int(5, 60))
				c.Set("-enable-cdef", 1)
				c.Set("-enable-restoration", 0)
			}, rich),
			verife2e.IntraSub("large", 80, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(64, 270), g.Int(64, 270)
				c.Content.Kind = g.Pick(5, 7, 8)
				c.Set("rc_min_quantizer", g.Int(5, 60))
				c.Set("-enable-cdef", 1)
				c.Set("-sb-size", g.Pick(64, 128))
			}, rich),
			verife2e.IntraSub("skips", 60, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(64, 200), g.Int(64, 200)
				c.Content.Kind = 8
				c.Content.Noise = 0
				c.Content.Scale = 0.2
				c.Set("rc_min_quantizer", g.Int(30, 63))
				c.Set("-enable-cdef", 1)
			}, rich),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Cdef = true
				c.Seq.LR = false
				c.MaxQ = g.Pick(20, 60, 120)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.CodedLossless && (h.CdefY != nil || h.CdefUV != nil) })),
			verifrand.Directed("directed", 2400, map[string]verifrand.Fav{
				"readSkip.Skip":    {Symbol: -2, Of8: 7},
				"readCdef.CdefIdx": {Symbol: -2, Of8: 7},
				"partitionElement": {Symbol: -2, Of8: 3},
				"skipModeSymbol":   {Symbol: 1, Of8: 2},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Cdef = true
				c.Seq.LR = false
				c.MaxQ = g.Pick(5, 20, 60, 120)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.CodedLossless && (h.CdefY != nil || h.CdefUV != nil) })),
		}})
}
