package vpc06

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifpack"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC06(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C06", Rule: "at least two pictures, or repeated frame headers",
		Assume: []string{"libaom 3.8 decodes the streams correctly in the low overhead format"},
		Subs: []kit.Sub{
			{Name: "random-tiles", Quick: 3000, Thorough: 200000, Case: func(g *kit.G) {
				c := verifrand.Draw(g)
				c.W, c.H = g.Int(8, 40), g.Int(8, 40)
				if g.Bool() {
					c.W, c.H, c.Frames = g.Int(65, 140), g.Int(8, 100), g.Int(1, 2)
					c.Seq.SB128 = false
					c.Bytes = 800
				}
				c.Groups = g.Chance(3, 4)
				if g.Chance(1, 5) {
					c.Seq.Still, c.Seq.Reduced = false, false
					c.Idc = (1 + int(g.Bits(8))%255) | g.Pick(1, 2, 3, 7)<<8
				}
				if g.Chance(1, 5) {
					c.Tiles(g)
				}
				r := c.Reference(g)
				copies := 0
				tus := verifpack.Redundant(g, c.TUs, &copies)
				verifpack.Check(g, r.Pics, tus)
				if copies > 0 || len(r.Pics) > 1 {
					g.NonTrivial()
				}
			}},
			{Name: "encoded", Quick: 60, Thorough: 3000, Case: func(g *kit.G) {
				c := &verife2e.Case{N: g.Int(2, 6)}
				c.Format(g)
				c.Size(g, 100, 100)
				c.Picture(g)
				c.Motion(g)
				c.Inter(g)
				r := c.Encode(g)
				copies := 0
				tus := verifpack.Redundant(g, r.OBUs, &copies)
				if g.Bool() {
					tus = verifpack.Merge(g, tus)
				}
				verifpack.Check(g, r.Pics, tus)
				g.NonTrivial()
			}},
		}})
}
