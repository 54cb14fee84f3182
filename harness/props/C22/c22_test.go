package vpc22

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC22(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		return r.Stats.Distinct("txtype") >= 3 || r.Stats.Distinct("txsize") >= 5
	}
	kit.Run(t, kit.Check{ID: "C22", Rule: "at least three transform types or five transform sizes occur; random tiles: a frame was decoded",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("low-q", 200, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Low(g)
			}, rich, "txtype", "txsize"),
			verife2e.IntraSub("large", 100, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Content.Kind = g.Pick(1, 2, 8)
				c.Content.Scale = float64(g.Int(1, 10)) / 10
			}, rich, "txtype", "txsize"),
			verife2e.IntraSub("lossless", 60, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Lossless()
			}, rich),
			verife2e.IntraSub("extreme", 60, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(3, 4, 6)
				c.Content.Noise = 255
				c.Low(g)
			}, rich),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				c.MaxQ = g.Pick(1, 10, 30, 60)
			}, verifrand.Any, "txtype", "txsize"),
			verifrand.Directed("directed", 3000, map[string]verifrand.Fav{
				"coeffs.coeffBase":          {Symbol: -1, Of8: 2},
				"readCoeffBrSymbol":         {Symbol: -1, Of8: 5},
				"allZeroSymbol":             {Symbol: 0, Of8: 6},
				"transformType.interTxType": {Symbol: -2, Of8: 7},
				"intraTxTypeSymbol":         {Symbol: -2, Of8: 7},
				"txDepthSymbol":             {Symbol: -2, Of8: 7},
				"txfmSplitSymbol":           {Symbol: -2, Of8: 7},
				"partitionElement":          {Symbol: -2, Of8: 4},
				"readSkip.Skip":             {Symbol: 0, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(1, 2)
				c.MaxQ = g.Pick(1, 5, 20, 60)
			}, verifrand.Any, "txtype", "txsize"),
		}})
}
