package vpc19

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC19(t *testing.T) {
	big := func(r *verife2e.Result) bool {
		n := 0
		for _, u := range r.TUs {
			n += len(u)
		}
		return n >= 500
	}
	kit.Run(t, kit.Check{ID: "C19", Rule: "at least 500 bytes of coefficients were decoded, or a lossless frame; random tiles: a frame was decoded",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("low-q", 200, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Low(g)
			}, big, "txtype", "txsize"),
			verife2e.IntraSub("extreme", 60, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(4, 3, 6)
				c.Content.Noise = g.Int(0, 255)
				c.Set("rc_min_quantizer", 0)
				c.Set("rc_max_quantizer", g.Int(0, 1))
			}, big, "txtype", "txsize"),
			verife2e.IntraSub("lossless", 60, func(g *kit.G, c *verife2e.Case) {
				c.Lossless()
			}, big),
			verife2e.IntraSub("any", 100, nil, big),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				c.MaxQ = g.Pick(1, 20, 60, 120)
			}, verifrand.Any, "txtype", "txsize"),
			verifrand.Directed("directed", 3000, map[string]verifrand.Fav{
				"coeffs.eob_pt_16":          {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_32":          {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_64":          {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_128":         {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_256":         {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_512":         {Symbol: -1, Of8: 3},
				"coeffs.eob_pt_1024":        {Symbol: -1, Of8: 3},
				"coeffs.coeffBase":          {Symbol: -1, Of8: 5},
				"readCoeffBrSymbol":         {Symbol: -1, Of8: 6},
				"coeffs.golombLengthBit":    {Symbol: 0, Of8: 6},
				"allZeroSymbol":             {Symbol: 0, Of8: 6},
				"coeffs.coeff_base_eob":     {Symbol: -2, Of8: 8},
				"readDcSignSymbol":          {Symbol: 1, Of8: 6},
				"transformType.interTxType": {Symbol: -2, Of8: 6},
				"intraTxTypeSymbol":         {Symbol: -2, Of8: 6},
				"coeffs.eobExtra":           {Symbol: -2, Of8: 8},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				c.MaxQ = g.Pick(1, 5, 20, 60)
			}, verifrand.Any, "txtype", "txsize"),
		}})
}
