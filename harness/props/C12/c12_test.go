package vpc12

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC12(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Refs(g, o)
		f.Pos(g, o)
		if !f.Intra && s.OrderHint && !f.ShowExisting {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C12", Rule: "streams: a frame after the first one has it; an inter frame with order hints",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.Refs(g, o) },
				func(f *verifhdr.Frame) bool { return !f.Intra })}})
}
