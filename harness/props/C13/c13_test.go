package vpc13

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC13(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Motion(g, o)
		f.Pos(g, o)
		if f.GmType != [8]int{} {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C13", Rule: "streams: a frame after the first one has it; a reference has global motion",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.Motion(g, o) },
				func(f *verifhdr.Frame) bool { return f.GmType != [8]int{} })}})
}
