package vpc30

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC30(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		for _, h := range r.Dec.Headers {
			if h.UseSuperRes {
				return true
			}
		}
		return false
	}
	sup := func(g *kit.G, c *verife2e.Case) {
		c.Set("rc_superres_mode", 1)
		c.Set("rc_superres_denominator", g.Int(9, 16))
		c.Set("rc_superres_kf_denominator", g.Int(9, 16))
	}
	kit.Run(t, kit.Check{ID: "C30", Rule: "superres is in use; random tiles: a frame with superres",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("alone", 150, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(32, 180), g.Int(1, 100)
				sup(g, c)
				c.Set("-enable-cdef", 0)
				c.Set("-enable-restoration", 0)
			}, rich),
			verife2e.IntraSub("with-filters", 200, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(32, 300), g.Int(1, 140)
				sup(g, c)
				c.Set("-enable-restoration", 1)
				c.Set("-tile-columns", g.Int(0, 2))
			}, rich, "lr"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Seq.SuperRes = true
				c.W = g.Int(60, 160)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.SuperRes && h.Denom > 8 })),
			verifrand.Directed("directed", 1800, map[string]verifrand.Fav{
				"readSkip.Skip": {Symbol: -2, Of8: 5},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Seq.SuperRes = true
				c.MaxQ = g.Pick(5, 20, 60, 120)
				c.W = g.Int(60, 160)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.SuperRes && h.Denom > 8 })),
		}})
}
