package vpc16

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC16(t *testing.T) {
	later := func(r *verife2e.Result) bool { return len(r.Dec.Headers) >= 2 }
	kit.Run(t, kit.Check{ID: "C16", Rule: "a frame of several tiles, or a frame that takes its probabilities from a reference; encoded streams: at least two frames or tiles",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			{Name: "saved-tables", Quick: 1200, Thorough: 30000, Case: savedTables},
			verife2e.InterSub("encoded-tiles", 50, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(1, 4)
				c.W, c.H = g.Int(65, 260), g.Int(65, 200)
				c.Set("-sb-size", 64)
				c.Set("-tile-columns", g.Int(0, 2))
				c.Set("-tile-rows", g.Int(0, 2))
				c.Set("-num-tile-groups", g.Int(1, 3))
				c.Set("-cpu-used", g.Int(3, 6))
				c.Set("-cdf-update-mode", g.Int(0, 2))
			}, later, "h:"),
			verife2e.InterSub("encoded-references", 70, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(3, 9)
				c.W, c.H = g.Int(8, 70), g.Int(8, 70)
				c.Set("-cdf-update-mode", g.Int(0, 2))
				c.Set("-frame-parallel", g.Int(0, 1))
				c.RandomFlags(g)
			}, later, "h:"),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(65, 260), g.Int(8, 200)
				c.Frames = g.Int(1, 3)
				c.Seq.SB128 = g.Chance(1, 4)
				c.Groups = g.Bool()
				c.Bytes = 1200
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Tile.N() > 1 }), "h:"),
			verifrand.Sub("random-references", 2000, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 70), g.Int(8, 70)
				c.Frames = g.Int(2, 7)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Primary != 7 }), "h:"),
			verifrand.Directed("directed-tiles", 2100, nil, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(65, 260), g.Int(8, 200)
				c.Frames = g.Int(1, 4)
				c.Groups = g.Bool()
				c.Plain = g.Pick(0, 4, 7, 8)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Tile.N() > 1 || h.Primary != 7 }), "h:"),
		}})
}
