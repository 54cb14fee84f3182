package vpc11

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC11(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		f.GrainParams(g, o)
		f.Pos(g, o)
		if f.Grain.Apply {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C11", Rule: "streams: a frame after the first one has it; film grain is applied",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Film = true
				c.Opt.NoGrain, c.Opt.HiddenGrain = false, true
				c.Show, c.Hidden = 1<<30, g.Pick(0, 0, 5)
			}, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.GrainParams(g, o) },
				func(f *verifhdr.Frame) bool { return f.Grain.Apply })}})
}
