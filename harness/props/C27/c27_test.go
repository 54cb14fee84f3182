package vpc27

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC27(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return r.Stats.Distinct("bsize") >= 6 }
	kit.Run(t, kit.Check{ID: "C27", Rule: "at least six block sizes occur in the frame; random tiles: a frame was decoded; very long: a side exceeds 4096",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("any", 200, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Set("-cpu-used", g.Pick(0, 1, 1, 2))
			}, rich, "bsize", "txsize"),
			verife2e.IntraSub("large", 60, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(100, 300), g.Int(100, 300)
				c.Content.Scale = float64(g.Int(1, 6)) / 10
				c.Set("-sb-size", g.Pick(128, 128, 64))
				c.Set("-cpu-used", g.Pick(0, 1, 2))
			}, rich, "bsize", "txsize"),
			verife2e.IntraSub("odd-sizes", 150, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(1, 70), g.Int(1, 70)
				c.Content.Kind = 8
				c.Set("-sb-size", g.Pick(128, 64))
			}, rich, "bsize", "txsize"),
			verife2e.IntraSub("limits", 80, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Set("-min-partition-size", g.Pick(4, 8, 16, 32))
				c.Set("-max-partition-size", g.Pick(32, 64, 128))
			}, rich, "bsize", "txsize"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.MaxQ = g.Pick(1, 60, 120, 255)
			}, verifrand.Any, "bsize", "txsize"),
			verifrand.Directed("directed", 2700, map[string]verifrand.Fav{
				"partitionElement":    {Symbol: -2, Of8: 6},
				"splitOrVertElement":  {Symbol: -2, Of8: 6},
				"splitOrHorzElement":  {Symbol: -2, Of8: 6},
				"txDepthSymbol":       {Symbol: -2, Of8: 6},
				"txfmSplitSymbol":     {Symbol: -2, Of8: 6},
				"readSkip.Skip":       {Symbol: -2, Of8: 6},
				"readIsInter.IsInter": {Symbol: -2, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) {
				c.MaxQ = g.Pick(1, 60, 120, 255)
			}, verifrand.Any, "bsize", "txsize"),
			verifrand.Directed("very-long", 150, map[string]verifrand.Fav{
				"partitionElement": {Symbol: 0, Of8: 6},
				"readSkip.Skip":    {Symbol: 1, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) { // more than the largest tile
				c.W, c.H = g.Int(4090, 5000), g.Int(1, 40)
				if g.Bool() {
					c.W, c.H = c.H, c.W
				}
				c.Frames = g.Int(1, 2)
				c.SameSize = true
			}, func(c *verifrand.Case, r *verife2e.Result) bool { return c.W > 4096 || c.H > 4096 }, "h:"),
		}})
}
