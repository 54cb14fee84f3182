package vpc25

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC25(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return r.Stats["inter1"] >= 30 && r.Stats.Distinct("filter") >= 2 }
	labels := []string{"filter", "gm", "compound", "interintra", "compgroup", "bsize", "h:"}
	kit.Run(t, kit.Check{ID: "C25", Rule: "a stream has at least 30 inter coded 4x4 units and two interpolation filter pairs; random tiles: an inter frame",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.InterSub("any", 120, nil, rich, labels...),
			verife2e.InterSub("plain", 60, func(g *kit.G, c *verife2e.Case) { // nothing after prediction that could hide or be blamed
				c.N = g.Int(2, 4)
				c.Set("-enable-cdef", 0)
				c.Set("-enable-restoration", 0)
				c.Set("-loopfilter-control", 0)
				c.Set("-enable-intrabc", 0)
				c.Set("-enable-palette", 0)
			}, rich, labels...),
			verife2e.InterSub("compound", 60, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(4, 8)
				c.W, c.H = g.Int(16, 80), g.Int(16, 80)
				c.Set("g_lag_in_frames", g.Pick(c.N, 19))
				c.Content.Noise = g.Int(0, 30)
				c.Content.Kind = g.Pick(5, 2, 8, 7)
				c.Set("-cpu-used", 1)
			}, func(r *verife2e.Result) bool { return r.Stats["compound"] > 0 || r.Stats["interintra"] > 0 }, labels...),
			verife2e.InterSub("warp", 70, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(2, 8, 7, 4)
				c.Content.Rot = float64(g.Int(-60, 60)) / 500
				c.Content.Zoom = float64(g.Int(-60, 60)) / 800
				c.W, c.H = g.Int(40, 130), g.Int(40, 130)
				c.N = g.Int(2, 5)
				c.Set("-enable-global-motion", 1)
				c.Set("-enable-warped-motion", 1)
				c.Set("-cpu-used", 1)
			}, func(r *verife2e.Result) bool { return r.Stats["inter1"] >= 30 }, labels...),
			verife2e.InterSub("scaled", 80, func(g *kit.G, c *verife2e.Case) {
				c.W, c.H = g.Int(34, 150), g.Int(34, 150)
				c.N = g.Int(2, 5)
				if g.Bool() {
					c.Resize(g)
				} else {
					c.Superres(g)
				}
				c.Set("g_lag_in_frames", 0)
			}, rich, labels...),
			verife2e.InterSub("fast-motion", 50, func(g *kit.G, c *verife2e.Case) { // vectors far outside of the picture
				c.Content.DX = float64(g.Int(-400, 400)) / 8
				c.Content.DY = float64(g.Int(-400, 400)) / 8
			}, rich, labels...),
			verifrand.Sub("random-tiles", 2500, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(2, 6)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra }), "filter", "compgroup", "h:"),
			verifrand.Directed("directed", 3600, map[string]verifrand.Fav{
				"readIsInter.IsInter":                {Symbol: 1, Of8: 7},
				"compModeSymbol":                     {Symbol: 1, Of8: 5},
				"readInterIntraMode.InterIntra":      {Symbol: 1, Of8: 4},
				"readInterIntraMode.InterIntraMode":  {Symbol: -2, Of8: 7},
				"readInterIntraMode.WedgeInterIntra": {Symbol: 1, Of8: 4},
				"readMotionMode.MotionMode":          {Symbol: -2, Of8: 7},
				"readMotionMode.useObmc":             {Symbol: 1, Of8: 4},
				"readCompoundType.CompoundType":      {Symbol: -2, Of8: 5},
				"readCompoundType.WedgeIndex":        {Symbol: -2, Of8: 7},
				"interpFilterSymbol":                 {Symbol: -2, Of8: 6},
				"compGroupIdxSymbol":                 {Symbol: -2, Of8: 7},
				"compoundIdxSymbol":                  {Symbol: -2, Of8: 7},
				"partitionElement":                   {Symbol: -2, Of8: 4},
				"interBlockModeInfo.newMv":           {Symbol: 0, Of8: 3},
				"readMvComponent.mvClass":            {Symbol: -2, Of8: 1},
				"skipModeSymbol":                     {Symbol: 0, Of8: 4},
				"intraFrameModeInfo.useIntrabc":      {Symbol: 1, Of8: 4},
				"interBlockModeInfo.compoundMode":    {Symbol: -2, Of8: 5},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(2, 5)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra }), "filter", "compgroup", "h:"),
			// local warps whose few samples differ by vectors of a drawn length, mostly at a limit
			verifrand.Directed("directed-warp-limits", 600, nil, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Warped = true
				c.W, c.H = g.Int(48, 180), g.Int(48, 180)
				c.SameSize = g.Chance(7, 8)
				c.Frames = g.Int(2, 4)
				c.Favor["readIsInter.IsInter"] = verifrand.Fav{Symbol: 1, Of8: 8}
				c.Favor["compModeSymbol"] = verifrand.Fav{Symbol: 0, Of8: 7}
				c.Favor["skipModeSymbol"] = verifrand.Fav{Symbol: 0, Of8: 8}
				c.Favor["readMotionMode.MotionMode"] = verifrand.Fav{Symbol: 2, Of8: 8}
				c.Favor["readInterIntraMode.InterIntra"] = verifrand.Fav{Symbol: 0, Of8: 8}
				c.Favor["interBlockModeInfo.newMv"] = verifrand.Fav{Symbol: 0, Of8: g.Int(3, 8)}
				c.Favor["readMv.mvJoint"] = verifrand.Fav{Symbol: -2, Of8: 8}
				c.Favor["readMvComponent.mvClass"] = verifrand.Fav{Symbol: g.Pick(4, 4, 4, 3, 5, 0), Of8: g.Int(5, 8)}
				bit := g.Int(0, 1)
				c.Favor["readMvComponent.mvBit"] = verifrand.Fav{Symbol: 1, Of8: g.Pick(8, 8, 4)}
				c.Favor["readMvComponent.mvFr"] = verifrand.Fav{Symbol: 3, Of8: g.Pick(8, 8, 4)}
				c.Favor["readMvComponent.mvHp"] = verifrand.Fav{Symbol: 1, Of8: g.Pick(8, 8, 4)}
				c.Favor["readMvComponent.mvSign"] = verifrand.Fav{Symbol: bit, Of8: 5}
				ref := g.Int(3, 8)
				for _, s := range []string{"singleRefP1Symbol", "singleRefP3Symbol", "singleRefP4Symbol"} {
					c.Favor[s] = verifrand.Fav{Symbol: 0, Of8: ref}
				}
				c.Favor["partitionElement"] = verifrand.Fav{Symbol: g.Pick(0, 3, -2), Of8: 4}
				c.Favor["readSkip.Skip"] = verifrand.Fav{Symbol: 1, Of8: g.Int(2, 7)}
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra && h.Warped }), "h:"),
		}})
}
