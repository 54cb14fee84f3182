package vpc18

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC18(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		return r.Stats.Distinct("txtype") >= 4 || r.Stats.Distinct("txsize") >= 5
	}
	kit.Run(t, kit.Check{ID: "C18", Rule: "transform blocks of at least 4 types or 5 sizes were decoded; random tiles: a frame was decoded",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("low-q", 250, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Low(g)
			}, rich, "txtype", "txsize"),
			verife2e.IntraSub("rectangular", 150, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Low(g)
				c.Content.Kind = g.Pick(1, 2, 5, 7, 8)
				c.Content.Scale = float64(g.Int(1, 12)) / 10
				c.Set("-cpu-used", g.Pick(0, 1))
			}, rich, "txtype", "txsize"),
			verifrand.Sub("random-tiles", 1000, func(g *kit.G, c *verifrand.Case) {
				c.MaxQ = g.Pick(1, 10, 30, 60)
			}, verifrand.Any, "txtype", "txsize"),
			verifrand.Directed("directed", 3600, map[string]verifrand.Fav{
				"allZeroSymbol":             {Symbol: 0, Of8: 7},
				"transformType.interTxType": {Symbol: -2, Of8: 7},
				"intraTxTypeSymbol":         {Symbol: -2, Of8: 7},
				"txDepthSymbol":             {Symbol: -2, Of8: 7},
				"txfmSplitSymbol":           {Symbol: -2, Of8: 7},
				"partitionElement":          {Symbol: -2, Of8: 4},
				"readSkip.Skip":             {Symbol: 0, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(1, 2)
				c.MaxQ = g.Pick(1, 5, 20, 60)
			}, verifrand.Any, "txtype", "txsize"),
		}})
}
