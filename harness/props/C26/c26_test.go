package vpc26

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC26(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return r.Stats["inter1"] >= 30 && r.Stats.Distinct("ymode") >= 3 }
	labels := []string{"ymode", "ref", "seg", "skipmode", "h:"}
	kit.Run(t, kit.Check{ID: "C26", Rule: "a stream has at least 30 inter coded 4x4 units and three modes, or block copy; random tiles: an inter frame, or a frame that allows block copy",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.InterSub("any", 120, nil, rich, labels...),
			verife2e.InterSub("many-references", 50, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(6, 14)
				c.W, c.H = g.Int(16, 70), g.Int(16, 70)
				c.Set("g_lag_in_frames", g.Pick(19, 25))
				c.Content.Noise = g.Int(0, 12)
				c.Set("-cpu-used", 1)
			}, rich, labels...),
			verife2e.InterSub("segments", 50, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = 8
				c.Set("-aq-mode", g.Int(1, 3))
				c.Set("-deltaq-mode", g.Pick(0, 0, 1))
			}, rich, labels...),
			verife2e.IntraSub("block-copy", 100, func(g *kit.G, c *verife2e.Case) {
				c.Set("-enable-intrabc", 1)
				c.Set("-tune-content", "screen")
				c.Set("-enable-palette", g.Pick(0, 0, 1))
				c.Set("-cpu-used", 1)
				c.Content.Kind = g.Pick(5, 6)
				c.Content.Noise = 0
				c.Size(g, 200, 140)
			}, func(r *verife2e.Result) bool { return r.Stats["h:AllowIntraBc"] > 0 }, "h:"),
			verifrand.Sub("random-tiles", 2500, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(2, 6)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra || h.IntraBC }), "ymode", "ref", "skipmode", "h:"),
			verifrand.Sub("random-block-copy", 1000, func(g *kit.G, c *verifrand.Case) {
				c.Seq.SuperRes = false
				c.Seq.ForceSCT = 1
				c.Key = true
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.IntraBC }), "h:"),
			verifrand.Directed("directed", 3600, map[string]verifrand.Fav{
				"readIsInter.IsInter":             {Symbol: 1, Of8: 6},
				"compModeSymbol":                  {Symbol: 1, Of8: 4},
				"compRefTypeSymbol":               {Symbol: -2, Of8: 6},
				"interBlockModeInfo.compoundMode": {Symbol: -2, Of8: 6},
				"interBlockModeInfo.newMv":        {Symbol: -2, Of8: 6},
				"interBlockModeInfo.zeroMv":       {Symbol: 1, Of8: 6},
				"interBlockModeInfo.refMv":        {Symbol: -2, Of8: 6},
				"interBlockModeInfo.drlMode":      {Symbol: 1, Of8: 5},
				"readMvComponent.mvClass":         {Symbol: -2, Of8: 1},
				"readMv.mvJoint":                  {Symbol: -2, Of8: 6},
				"singleRefP1Symbol":               {Symbol: -2, Of8: 6},
				"singleRefP2Symbol":               {Symbol: -2, Of8: 6},
				"singleRefP3Symbol":               {Symbol: -2, Of8: 6},
				"partitionElement":                {Symbol: -2, Of8: 4},
				"skipModeSymbol":                  {Symbol: 1, Of8: 2},
				"readSegmentId.SegmentId":         {Symbol: -2, Of8: 6},
				"interSegmentId.segIdPredicted":   {Symbol: -2, Of8: 6},
				"intraFrameModeInfo.useIntrabc":   {Symbol: 1, Of8: 4},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(2, 6)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra || h.IntraBC }), "ymode", "ref", "skipmode", "h:"),
			verifrand.Directed("directed-vectors", 2500, map[string]verifrand.Fav{
				"readIsInter.IsInter":       {Symbol: 1, Of8: 7},
				"compModeSymbol":            {Symbol: 0, Of8: 5},
				"interBlockModeInfo.newMv":  {Symbol: 0, Of8: 3},
				"interBlockModeInfo.zeroMv": {Symbol: 1, Of8: 7},
				"partitionElement":          {Symbol: -2, Of8: 4},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(2, 5)
				if g.Bool() { // blocks that cross the edges
					c.H, c.W = g.Pick(23, 24, 40, 48, 56, 88), g.Pick(24, 40, 48, 56, 64, 88)
					c.Favor["partitionElement"] = verifrand.Fav{Symbol: g.Pick(0, 0, 2, -2), Of8: g.Int(3, 6)}
				}
				c.Favor["readMvComponent.mvClass"] = verifrand.Fav{Symbol: g.Pick(2, 3, 4, 5, 6), Of8: g.Int(2, 6)}
				c.Favor["readMvComponent.mvSign"] = verifrand.Fav{Symbol: g.Int(0, 1), Of8: g.Int(3, 7)}
				c.Favor["readMv.mvJoint"] = verifrand.Fav{Symbol: g.Pick(1, 2, 3, 3), Of8: g.Int(2, 6)}
				c.Favor["interBlockModeInfo.drlMode"] = verifrand.Fav{Symbol: g.Int(0, 1), Of8: g.Int(2, 6)}
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return !h.Intra || h.IntraBC }), "ymode", "ref", "h:"),
			verifrand.Directed("directed-temporal", 800, map[string]verifrand.Fav{
				"readIsInter.IsInter":             {Symbol: 1, Of8: 7},
				"interBlockModeInfo.compoundMode": {Symbol: -2, Of8: 5},
				"interBlockModeInfo.newMv":        {Symbol: -2, Of8: 6},
				"interBlockModeInfo.zeroMv":       {Symbol: -2, Of8: 6},
				"interBlockModeInfo.refMv":        {Symbol: -2, Of8: 6},
				"singleRefP1Symbol":               {Symbol: -2, Of8: 6},
				"partitionElement":                {Symbol: -2, Of8: 4},
				"readMvComponent.mvSign":          {Symbol: -2, Of8: 7},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Still, c.Seq.Reduced = false, false
				c.Seq.OrderHint, c.Seq.RefMvs, c.Seq.HintBits = true, true, g.Int(2, 6)
				c.Frames = g.Int(3, 7)
				c.W, c.H = g.Int(16, 100), g.Int(16, 100)
				c.SameSize = g.Chance(7, 8)
				c.Opt.Type, c.Opt.Temporal = 1, true
				c.Favor["compModeSymbol"] = verifrand.Fav{Symbol: g.Int(0, 1), Of8: g.Int(3, 7)}
				c.Favor["readMvComponent.mvClass"] = verifrand.Fav{Symbol: g.Pick(0, 0, 0, 1, 2), Of8: g.Int(5, 7)}
				c.Favor["readMvComponent.mvClass0Bit"] = verifrand.Fav{Symbol: -2, Of8: 7}
				c.Favor["readMvComponent.mvClass0Fr"] = verifrand.Fav{Symbol: g.Pick(3, 3, 1, -2), Of8: g.Int(3, 7)}
				c.Favor["readMvComponent.mvClass0Hp"] = verifrand.Fav{Symbol: 1, Of8: 6}
				c.Favor["readMv.mvJoint"] = verifrand.Fav{Symbol: g.Pick(1, 2, 3, -2), Of8: 5}
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.RefMvs }), "h:"),
			verifrand.Directed("directed-copies", 700, nil, func(g *kit.G, c *verifrand.Case) {
				c.Copies(g)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.IntraBC }), "h:"),
			verifrand.Directed("directed-segments", 1500, map[string]verifrand.Fav{
				"partitionElement":              {Symbol: -2, Of8: 4},
				"readSegmentId.SegmentId":       {Symbol: -2, Of8: 6},
				"interSegmentId.segIdPredicted": {Symbol: -2, Of8: 6},
				"readSkip.Skip":                 {Symbol: 1, Of8: 4},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(3, 7)
				c.W, c.H = g.Int(8, 64), g.Int(8, 64)
				c.SameSize = g.Chance(5, 6)
				c.Opt.Segments = true
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Seg && (h.SegMap == 0 || h.SegTemporal == 1) }), "h:"),
		}})
}
