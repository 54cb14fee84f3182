package vpc23

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC23(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return r.Stats.Distinct("ymode") >= 5 }
	kit.Run(t, kit.Check{ID: "C23", Rule: "at least 5 luma prediction modes occur in the frame; random tiles: a frame was decoded",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("any", 200, func(g *kit.G, c *verife2e.Case) {
				if g.Bool() {
					c.Busy(g)
				}
			}, rich, "ymode", "uvmode", "bsize"),
			verife2e.IntraSub("edges", 200, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(7, 1, 8)
				c.Content.Scale = float64(g.Int(1, 20)) / 10
				c.Set("-enable-cdef", 0)
				c.Set("-enable-restoration", 0)
				c.Set("-loopfilter-control", 0)
				c.Set("-enable-palette", 0)
				c.Low(g)
			}, rich, "ymode", "uvmode", "bsize"),
			verife2e.IntraSub("small-sizes", 150, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(1, 40), g.Int(1, 40)
				c.Content.Kind = g.Pick(7, 2, 8)
			}, rich, "ymode", "uvmode", "bsize"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Key = true
				c.Skew = g.Pick(0, 1, 3)
			}, verifrand.Any, "ymode", "uvmode"),
			verifrand.Directed("directed", 3000, map[string]verifrand.Fav{
				"intraFrameYModeSymbol":               {Symbol: -2, Of8: 6},
				"intraFrameModeInfo.uvMode":           {Symbol: -2, Of8: 6},
				"intraAngleInfoY.angleDeltaY":         {Symbol: -2, Of8: 6},
				"intraAngleInfoUv.angleDeltaUv":       {Symbol: -2, Of8: 6},
				"filterIntraModeInfo.UseFilterIntra":  {Symbol: 1, Of8: 4},
				"filterIntraModeInfo.FilterIntraMode": {Symbol: -2, Of8: 6},
				"partitionElement":                    {Symbol: -2, Of8: 4},
				"txDepthSymbol":                       {Symbol: -2, Of8: 5},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = true
			}, verifrand.Any, "ymode", "uvmode"),
		}})
}
