package vpc24

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC24(t *testing.T) {
	rich := func(r *verife2e.Result) bool {
		return r.Stats["palette0"] > 0 || r.Stats["palette1"] > 0 || r.Stats["uvmode13"] >= 8
	}
	kit.Run(t, kit.Check{ID: "C24", Rule: "a block with a palette, or at least 8 4x4 units predicted from luma; random tiles: a frame with screen content tools or chroma from luma",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.IntraSub("palette", 250, func(g *kit.G, c *verife2e.Case) {
				c.Content.Kind = g.Pick(3, 3, 3, 6, 8)
				c.Content.Noise = g.Pick(0, 0, 0, 4)
				c.Set("-tune-content", 1)
				c.Set("-enable-palette", 1)
				c.Set("-cpu-used", g.Pick(0, 1, 2))
			}, rich, "palette", "uvmode13", "bsize"),
			verife2e.IntraSub("cfl", 200, func(g *kit.G, c *verife2e.Case) {
				c.Mono = false
				c.Content.Kind = g.Pick(2, 5, 8)
				c.Busy(g)
				c.Low(g)
				c.Set("-enable-cfl-intra", 1)
				c.Set("-cpu-used", g.Pick(0, 1, 2))
			}, rich, "palette", "uvmode13", "bsize"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.SCT > 0 || !h.Lossless[0] }), "palette"),
			verifrand.Directed("directed", 3000, map[string]verifrand.Fav{
				"paletteModeInfo.hasPaletteY":           {Symbol: 1, Of8: 5},
				"paletteModeInfo.hasPaletteUv":          {Symbol: 1, Of8: 5},
				"paletteModeInfo.paletteSizeYMinus2":    {Symbol: -2, Of8: 7},
				"paletteModeInfo.paletteSizeUvMinus2":   {Symbol: -2, Of8: 7},
				"paletteModeInfo.usePaletteColorCacheY": {Symbol: 1, Of8: 4},
				"paletteModeInfo.paletteDeltaY":         {Symbol: 0, Of8: 3},
				"paletteModeInfo.PaletteColorsY":        {Symbol: 1, Of8: 4},
				"paletteTokens.paletteColorIdxY":        {Symbol: -2, Of8: 4},
				"paletteTokens.paletteColorIdxUv":       {Symbol: -2, Of8: 4},
				"intraFrameYModeSymbol":                 {Symbol: 0, Of8: 6},
				"intraFrameModeInfo.uvMode":             {Symbol: 0, Of8: 4},
				"readCflAlphas.cflAlphaSigns":           {Symbol: -2, Of8: 7},
				"readCflAlphas.cflAlphaU":               {Symbol: -2, Of8: 7},
				"readCflAlphas.cflAlphaV":               {Symbol: -2, Of8: 7},
				"partitionElement":                      {Symbol: -2, Of8: 4},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				if g.Chance(2, 3) {
					c.Seq.ForceSCT = 1
				} else {
					c.Favor["intraFrameModeInfo.uvMode"] = verifrand.Fav{Symbol: -1, Of8: 5}
				}
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.SCT > 0 || !h.Lossless[0] }), "palette"),
		}})
}
