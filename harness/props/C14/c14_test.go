package vpc14

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC14(t *testing.T) {
	big := func(r *verife2e.Result) bool {
		n := 0
		for _, u := range r.TUs {
			n += len(u)
		}
		return n >= 200
	}
	tiles := func(r *verife2e.Result) bool { return r.Dec.State.TileCols*r.Dec.State.TileRows > 1 }
	kit.Run(t, kit.Check{ID: "C14", Rule: "at least 20 coded symbols; encoded streams: at least two tiles or 200 bytes of tile data",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings"},
		Subs: []kit.Sub{
			{Name: "symbols", Quick: 100000, Thorough: 4000000, Case: symbols},
			verife2e.IntraSub("streams", 120, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Low(g)
			}, big),
			verife2e.IntraSub("tiles", 120, func(g *kit.G, c *verife2e.Case) {
				c.Size(g, 280, 200)
				c.Set("-tile-columns", g.Int(0, 2))
				c.Set("-tile-rows", g.Int(1, 2))
				c.Set("-sb-size", 64)
				c.Set("-num-tile-groups", g.Int(1, 3))
			}, tiles),
			verife2e.IntraSub("cdf-update", 80, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Set("-cdf-update-mode", 0)
			}, big),
			verifrand.Sub("random-tiles", 1500, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 260), g.Int(8, 200)
				c.Frames = g.Int(1, 2)
				c.Seq.SB128 = g.Chance(1, 4)
				c.Groups = g.Bool()
				c.Bytes = g.Pick(1, 4, 30, 200, 1500)
			}, func(_ *verifrand.Case, r *verife2e.Result) bool { return big(r) || tiles(r) }, "h:"),
			verifrand.Directed("directed", 2100, nil, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 260), g.Int(8, 200)
				c.Frames = g.Int(1, 2)
				c.Seq.SB128 = g.Chance(1, 4)
				c.Groups = g.Bool()
				c.Plain = g.Pick(0, 4, 7, 8)
			}, func(_ *verifrand.Case, r *verife2e.Result) bool { return big(r) || tiles(r) }, "h:"),
		}})
}
