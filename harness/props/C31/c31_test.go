package vpc31

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC31(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return r.Stats["lr1"] > 0 || r.Stats["lr2"] > 0 }
	kit.Run(t, kit.Check{ID: "C31", Rule: "a restoration unit is filtered; random tiles: a frame with loop restoration",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("small", 250, func(g *kit.G, c *verife2e.Case) {
				c.Set("-enable-restoration", 1)
				c.Set("-cpu-used", g.Pick(0, 1, 2))
				c.Content.Noise = g.Int(5, 60)
				c.Content.Kind = g.Pick(2, 5, 7, 8)
				c.Set("rc_min_quantizer", g.Int(10, 50))
			}, rich, "lr"),
			verife2e.IntraSub("units", 100, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(100, 330), g.Int(60, 260)
				c.Set("-enable-restoration", 1)
				c.Set("-cpu-used", g.Pick(0, 1, 2))
				c.Content.Noise = g.Int(5, 60)
				c.Content.Kind = g.Pick(2, 5, 7, 8)
				c.Set("rc_min_quantizer", g.Int(10, 50))
				c.Set("-sb-size", g.Pick(64, 128))
				if g.Chance(1, 3) {
					c.Set("rc_superres_mode", 1)
					c.Set("rc_superres_kf_denominator", g.Int(9, 16))
				}
			}, rich, "lr"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Seq.LR = true
				c.MaxQ = g.Pick(20, 60, 120)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.UsesLr }), "lr"),
			verifrand.Directed("directed", 2700, map[string]verifrand.Fav{
				"readLrUnit.useWiener":             {Symbol: 1, Of8: 6},
				"readLrUnit.useSgrproj":            {Symbol: 1, Of8: 6},
				"readLrUnit.restorationType":       {Symbol: -2, Of8: 7},
				"readLrUnit.lrSgrSet":              {Symbol: -2, Of8: 6},
				"decodeSubexpBool.subexpMoreBools": {Symbol: 1, Of8: 5},
				"decodeSubexpBool.subexpBools":     {Symbol: -2, Of8: 6},
				"readSkip.Skip":                    {Symbol: -2, Of8: 5},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Seq.LR = true
				c.MaxQ = g.Pick(5, 20, 60, 120)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.UsesLr }), "lr"),
			// filters with extreme coefficients on pictures full of extreme samples, and units that follow each other
			verifrand.Directed("directed-extremes", 500, nil, func(g *kit.G, c *verifrand.Case) {
				c.Seq.LR = true
				c.Seq.SuperRes = c.Seq.SuperRes && g.Chance(1, 4)
				c.MaxQ = g.Pick(20, 120, 255, 255)
				c.Key = g.Chance(3, 4)
				c.Frames = g.Int(1, 2)
				c.W, c.H = g.Int(16, 150), g.Int(16, 150)
				if g.Chance(1, 3) {
					c.W, c.H = g.Int(100, 260), g.Int(100, 260)
				}
				more, set := g.Int(4, 8), g.Pick(0, 1, 1)
				c.Favor["readLrUnit.useWiener"] = verifrand.Fav{Symbol: 1, Of8: 7}
				c.Favor["readLrUnit.useSgrproj"] = verifrand.Fav{Symbol: 1, Of8: 7}
				c.Favor["readLrUnit.restorationType"] = verifrand.Fav{Symbol: g.Int(1, 2), Of8: g.Int(5, 7)}
				c.Favor["readLrUnit.lrSgrSet"] = verifrand.Fav{Symbol: set, Of8: g.Int(4, 6)}
				c.Favor["decodeSubexpBool.subexpMoreBools"] = verifrand.Fav{Symbol: 1, Of8: more}
				c.Favor["decodeSubexpBool.subexpUnifBools"] = verifrand.Fav{Symbol: 1, Of8: g.Int(4, 8)}
				c.Favor["readSkip.Skip"] = verifrand.Fav{Symbol: 0, Of8: 7}
				c.Favor["allZeroSymbol"] = verifrand.Fav{Symbol: 0, Of8: 6}
				c.Favor["partitionElement"] = verifrand.Fav{Symbol: g.Pick(-2, 3), Of8: 5}
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.UsesLr }), "lr"),
		}})
}
