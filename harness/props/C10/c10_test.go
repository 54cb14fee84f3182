package vpc10

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC10(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Filters(g, s, o)
		f.Pos(g, o)
		if f.Level[0] > 0 || f.CdefBits > 0 || f.UsesLr {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C10", Rule: "streams: a frame after the first one has it; the loop filter, CDEF or loop restoration has parameters",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.Filters(g, c.Seq, o) },
				func(f *verifhdr.Frame) bool { return f.Level[0] > 0 || f.CdefBits > 0 || f.UsesLr })}})
}
